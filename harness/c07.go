package mls

// vfPending is a group in which proposals of every kind are pending: an add
// (0), an update of leaf 1 (1) and a removal of leaf 2 (2).
type vfPending struct {
	*vfMixed
	refs [3][]byte
	ch   [3]rChange
}

func vfWithPending(cs CipherSuite, nlib int) *vfPending {
	x := &vfPending{vfMixed: vfShared(cs, nlib, 3)}
	k := rKeyPackage(x.g.s, "pending")
	by := x.as(1)
	l, _ := vfUpdateLeaf(by)
	x.ch = [3]rChange{{by: 3, add: k, remove: -1}, {by: 1, update: l, remove: -1}, {by: 0, remove: 2}}
	x.refs[0] = x.propose(x.as(3), rAdd(k), 1)
	x.refs[1] = x.propose(by, rUpdate(l), 2)
	x.refs[2] = x.propose(x.g, rRemove(2), 1)
	return x
}

// vfAsBefore checks that nothing has changed: messages are exchanged, the
// pending proposals can be committed, and the library can invite.
func (x *vfPending) vfAsBefore() {
	x.agree()
	if vfChoice("then", 2) == 1 {
		x.invite(x.members()[0], 1)
		x.agree()
		return
	}
	var list [][]byte
	for _, r := range x.refs {
		list = append(list, rByRef(r))
	}
	x.deliver(x.g.commit(list, x.ch[:]).withPath().finish(1))
	x.agree()
}

const vfStages = 30

// vfBad is a commit that fails at the given stage of processing, after as
// much as possible was computed.  The list refers to the pending proposals.
func (x *vfPending) vfBad(stage int) []byte {
	g := x.g
	list := [][]byte{rByRef(x.refs[0]), rByRef(x.refs[1]), rByRef(x.refs[2])}
	ch := append([]rChange(nil), x.ch[:]...)
	value := func(p []byte) { list = append(list, rByValue(p)) }
	switch stage {
	case 0:
		list = append(list, rByRef(vfFlip(x.refs[0])))
	case 1:
		list = append(list, rByRef(x.refs[0]))
	case 2:
		value(rRemove(2))
	case 3:
		value(rRemove(0))
	case 4:
		value(rRemove(7))
	case 5:
		value(rRemove(vfU32("leaf") | 1<<16))
	case 6: // two newcomers with the same key
		k := *x.ch[0].add
		value(rAdd(&k))
	case 7: // a newcomer whose signature does not verify
		k := rKeyPackage(g.s, "z")
		k.sig = vfFlip(k.sig)
		value(rAdd(k))
		ch = append(ch, rChange{add: k, remove: -1})
	case 8: // a newcomer whose leaf does not verify
		k := rKeyPackage(g.s, "z")
		k.leaf.sig = vfFlip(k.leaf.sig)
		k.signOuter()
		value(rAdd(k))
		ch = append(ch, rChange{add: k, remove: -1})
	case 9: // a newcomer with a key in use
		k := rKeyPackage(g.s, "z")
		k.leaf.enc = g.tree.leaf(3).enc
		k.signAll()
		value(rAdd(k))
		ch = append(ch, rChange{add: k, remove: -1})
	case 10:
		value(rCat(rU16(6), rVec(vfBytes("kem", 2))))
	case 11:
		l, _ := vfUpdateLeaf(g)
		value(rUpdate(l))
	case 12: // an expired newcomer
		k := rKeyPackage(g.s, "z")
		k.leaf.na = uint64(vfNow()) - 1000
		k.signAll()
		value(rAdd(k))
		ch = append(ch, rChange{add: k, remove: -1})
	}
	c := g.commit(list, ch)
	if stage == 13 {
		return c.finish(1).message()
	}
	c.startPath()
	l := c.path.leaf
	resign := func() { l.sign(g.s, g.sigPriv, g.id, uint32(g.me)) }
	top := c.path.nodes[len(c.path.nodes)-1]
	switch stage {
	case 14:
		l.sig = vfFlip(l.sig)
	case 15:
		l.source = 2
		resign()
	case 16:
		l.enc = g.tree.leaf(g.me).enc
		resign()
	case 17:
		l.enc = g.tree.leaf(3).enc
		resign()
	case 18:
		l.parentHash = vfFlip(l.parentHash)
		resign()
	case 19:
		top.enc = g.tree.leaf(3).enc
	case 20:
		top.enc, _ = g.s.encKeys()
	}
	c.sealPath()
	switch stage {
	case 21:
		c.path.nodes = c.path.nodes[:len(c.path.nodes)-1]
	case 22:
		c.path.nodes = append(c.path.nodes, top)
	case 23:
		top.cts = top.cts[1:]
	case 24:
		for i := range top.cts {
			b := top.cts[i]
			b[len(b)-1] ^= 1
		}
	case 25: // a secret that does not lead to the key
		for _, n := range c.path.nodes {
			n.sec = vfFlip(n.sec)
		}
		c.g.encryptPath(c.tree, c.path, c.steps, c.added, c.pathCtx)
	}
	c.finish(uint16(1 + vfChoice("wire", 2)))
	switch stage {
	case 26:
		c.frame.tag = vfFlip(c.frame.tag)
	case 27:
		c.frame.tag = nil
	case 28:
		c.frame.sig = vfFlip(c.frame.sig)
	case 29:
		vfAssume(c.frame.wire == 1)
		return rPublic(c.frame, vfFlip(g.memberTag(c.frame)))
	}
	return c.message()
}

// A commit that fails anywhere changes nothing.
func vfH_C07_commit() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 1, 4))]
	x := vfWithPending(cs, 1)
	msg := x.vfBad(vfChoice("stage", vfStages))
	for _, m := range x.members() {
		vfAssert(m.recv(msg) != nil, "a bad commit is rejected")
	}
	x.vfAsBefore()
	vfReach("end")
}

// Two bad commits in a row.
func vfH_C07_twice() {
	x := vfWithPending(vfSuites[0], 1)
	stages := []int{2, 5, 8, 13, 16, 18, 24, 25, 26}
	a := x.vfBad(stages[vfChoice("stage", len(stages))])
	b := x.vfBad(stages[vfChoice("stage", len(stages))])
	for _, m := range x.members() {
		vfAssert(m.recv(a) != nil, "a bad commit is rejected")
		vfAssert(m.recv(b) != nil, "a bad commit is rejected")
	}
	x.vfAsBefore()
	vfReach("end")
}

// The keys of a member survive a bad commit: afterwards it still reads a path
// of anybody.
func vfH_C07_keys() {
	n := 3 + vfChoice("n", vfBound("n", 3, 5))
	x := vfLibAt(vfSuites[0], n, 1+vfChoice("at", n-1))
	x.refresh()
	refs := x.refs()
	by := x.as(refs[vfChoice("bad", len(refs))])
	c := by.commit(nil, nil).startPath()
	switch vfChoice("how", 4) {
	case 0:
		c.sealPath().finish(1)
		c.frame.tag = vfFlip(c.frame.tag)
	case 1: // the secret of the root does not lead to its key
		top := c.path.nodes[len(c.path.nodes)-1]
		top.enc, _ = by.s.encKeys()
		c.tree[top.node].enc = top.enc
		by.setHashes(c.tree, c.path, c.steps)
		c.sealPath().finish(1)
	case 2: // another commit secret
		c.sealPath()
		c.path.last = vfFlip(c.path.last)
		c.finish(1)
	case 3: // computed from another epoch
		c.sealPath()
		c.g.initSecret = vfFlip(c.g.initSecret)
		c.finish(1)
	}
	for _, m := range x.members() {
		vfAssert(m.recv(c.message()) != nil, "a bad commit is rejected")
	}
	x.speak(refs[vfChoice("good", len(refs))])
	x.refresh()
	x.agree()
	vfReach("end")
}

// Messages of other kinds that are rejected change nothing, and proposals
// among them cannot be referred to.
func vfH_C07_message() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfWithPending(cs, 1+vfChoice("lib", vfBound("lib", 1, 2)))
	g := x.g
	by := x.as(3)
	var msg []byte
	f := by.frame(2, rRemove(1), uint16(1+vfChoice("wire", 2)))
	send := func() {
		msg = by.public(f)
		if f.wire == 2 {
			msg = by.private(f, by.sender(0))
		}
	}
	switch vfChoice("how", 12) {
	case 0:
		by.sign(f)
		f.sig = vfFlip(f.sig)
		send()
	case 1:
		f.sig = g.s.sign(g.sigPriv, "FramedContentTBS", f.tbs(g.context()))
		send()
	case 2:
		f.epoch++
		by.sign(f)
		send()
	case 3:
		f.id = vfFlip(f.id)
		by.sign(f)
		send()
	case 4:
		by.sign(f)
		msg = rPublic(f, vfFlip(by.memberTag(f)))
		vfAssume(f.wire == 1)
	case 5:
		vfAssume(f.wire == 2)
		by.sign(f)
		sd := by.sender(0)
		sd.gen = 1 << 30
		msg = by.private(f, sd)
	case 6:
		vfAssume(f.wire == 2)
		by.sign(f)
		f.padding = []byte{0, 1}
		send()
	case 7: // application data
		vfAssume(f.wire == 2)
		f.ct = 1
		f.body = vfBytes("data", 2)
		by.sign(f)
		f.sig = vfFlip(f.sig)
		send()
	case 8: // application data in public
		vfAssume(f.wire == 1)
		f.ct = 1
		by.sign(f)
		send()
	case 9:
		by.sign(f)
		send()
		msg = msg[:len(msg)-1]
	case 10:
		by.sign(f)
		send()
		msg = rCat(msg, vfBytes("extra", 1))
	case 11: // a removal by somebody who is no member
		vfAssume(f.wire == 1)
		f.stype = 2
		f.sender = 0
		by.sign(f)
		send()
	}
	for _, m := range x.members() {
		vfRejects(m, msg, "a bad message is rejected")
	}
	if vfChoice("refer", 2) == 1 {
		c := g.commit([][]byte{rByRef(by.proposalRef(f))}, []rChange{{remove: 1}}).withPath().finish(1)
		for _, m := range x.members() {
			vfAssert(m.recv(c.message()) != nil, "a rejected proposal is not pending")
		}
	}
	x.vfAsBefore()
	vfReach("end")
}

// Other people's messages: welcomes, key packages, group infos and garbage.
func vfH_C07_other() {
	x := vfWithPending(vfSuites[vfChoice("suite", vfBound("suites", 2, 4))], 1)
	g := x.g
	var msg []byte
	switch vfChoice("how", 5) {
	case 0:
		k := rKeyPackage(g.s, "z")
		msg = g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}}).finish(1).welcome()
	case 1:
		msg = rKeyPackage(g.s, "z").message()
	case 2:
		msg = rCat(rU16(1), rU16(4), g.info().bytes())
	case 3:
		msg = vfBytes("raw", vfChoice("len", 5))
	case 4: // a commit of the past
		old := x.g
		x.refresh()
		y := &vfPending{vfMixed: x.vfMixed}
		k := rKeyPackage(g.s, "pending")
		y.ch = [3]rChange{{by: 3, add: k, remove: -1}, {by: 0, remove: 1}, {by: 0, remove: 2}}
		y.refs = [3][]byte{y.propose(y.as(3), rAdd(k), 1), y.propose(y.as(3), rRemove(1), 1), y.propose(y.as(1), rRemove(2), 1)}
		x = y
		msg = old.commit(nil, nil).withPath().finish(1).message()
	}
	for _, m := range x.members() {
		vfRejects(m, msg, "it is rejected")
	}
	x.vfAsBefore()
	vfReach("end")
}

// Creating messages and invitations changes nothing until the commit is
// processed.
func vfH_C07_create() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfWithPending(cs, 1+vfChoice("lib", 2))
	m := x.members()[vfChoice("who", len(x.members()))]
	n := 1 + vfChoice("n", vfBound("n", 2, 3))
	for i := 0; i < n; i++ {
		switch vfChoice("what", 5) {
		case 0:
			_, err := m.group.CreateApplicationMessage(vfBytes("data", 2))
			vfAssert(err == nil, "message creation succeeds")
		case 1, 2:
			var kps []KeyPackage
			for j := 0; j < 3; j++ {
				kps = append(kps, vfNewMember(cs, "z").kpp.Public)
			}
			_, _, err := m.group.CreateWelcome(kps)
			vfAssert(err == nil, "welcome creation succeeds")
		case 3: // an invitation nobody will accept
			k := rKeyPackage(x.g.s, "z")
			k.sig = vfFlip(k.sig)
			pkg, err := UnmarshalKeyPackage(k.message())
			vfAssert(err == nil, "the key package decodes")
			m.group.CreateWelcome([]KeyPackage{vfNewMember(cs, "z").kpp.Public, *pkg})
		case 4: // the same with a key in use
			k := rKeyPackage(x.g.s, "z")
			k.leaf.enc = x.g.tree.leaf(1).enc
			k.init = k.init[:vfChoice("initlen", 2)*len(k.init)] // or a key one cannot encrypt to
			k.signAll()
			pkg, err := UnmarshalKeyPackage(k.message())
			vfAssert(err == nil, "the key package decodes")
			m.group.CreateWelcome([]KeyPackage{*pkg})
		}
	}
	x.vfAsBefore()
	vfReach("end")
}

// The same key pair joins two groups; what happens in one does not change the
// other, and a failed attempt to join changes nothing.
func vfH_C07_join() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	m := vfNewMember(cs, "m")
	k := m.rkp()
	join := func(id string) (*vfMixed, []byte) {
		f := rKeyPackage(rSuiteOf(cs), id)
		x := &vfMixed{g: rNewGroup(f, []byte(id)), lib: map[int]*vfMember{}, keys: map[int]*rKP{0: f}}
		x.addRef(1)
		c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}}).withPath().finish(1)
		x.g = c.next
		return x, c.welcome()
	}
	x, w := join("first")
	y, w2 := join("second")
	switch vfChoice("how", 3) {
	case 0:
		bad := append([]byte(nil), w...)
		bad[len(bad)-1] ^= 1
		vfAssert(m.join(bad) != nil, "an altered welcome is rejected")
	case 1:
		n := &vfMember{cs: cs, kpp: m.kpp}
		vfAssert(n.join(w2) == nil, "the invitee joins the second group")
		y.lib[2] = n
		y.agree()
		y.refresh()
	case 2:
		n := &vfMember{cs: cs, kpp: m.kpp}
		vfAssert(n.join(w) == nil, "the invitee joins twice")
		x.lib[2] = n
		x.agree()
	}
	vfAssert(m.join(w) == nil, "the invitee joins")
	if o := x.lib[2]; o != nil {
		// both instances process the same commit
		c := x.g.commit(nil, nil).withPath().finish(1)
		vfAssert(m.recv(c.message()) == nil && o.recv(c.message()) == nil, "both follow")
		x.g = c.next
		x.agree()
	}
	x.lib[2] = m
	x.agree()
	x.refresh()
	x.agree()
	y.agree()
	vfReach("end")
}
