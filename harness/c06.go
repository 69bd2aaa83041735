package mls

// vfEither delivers a message of a member that may be good or bad, and checks
// that everybody is in the epoch the answer announces.
func (x *vfMixed) vfEither(msg []byte, next *rGroup) bool {
	first, ok := true, false
	for _, m := range x.members() {
		r := m.recv(msg) == nil
		vfAssert(first || r == ok, "members decide alike")
		first, ok = false, r
	}
	if ok && next != nil {
		x.g = next
	}
	return ok
}

// vfSane checks that the group still works: messages, an honest commit and an
// invitation by the library.
func (x *vfMixed) vfSane() {
	x.agree()
	x.refresh()
	x.agree()
	x.invite(x.members()[0], 1)
	x.agree()
}

// Removal of any leaf number whatsoever.
func vfH_C06_remove() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfShared(cs, 1, 1+vfChoice("refs", vfBound("refs", 3, 5)))
	if vfChoice("hole", 2) == 1 {
		x.remove(1)
	}
	g := x.g
	n := g.tree.leaves()
	leaf := n
	num := vfU32("leaf")
	if vfChoice("inside", 2) == 1 {
		leaf = vfChoice("which", n)
		num = uint32(leaf)
	} else {
		vfAssume(num >= uint32(n))
	}
	valid := leaf < n && g.tree.leaf(leaf) != nil && leaf != g.me
	vfAssume(leaf >= n || x.lib[leaf] == nil) // see removed
	var ch []rChange
	if valid {
		ch = []rChange{{remove: leaf}}
	}
	var list [][]byte
	if vfChoice("byref", 2) == 1 {
		by := x.as(x.refs()[vfChoice("by", 2)%len(x.refs())])
		f := by.frame(2, rRemove(num), 1)
		by.sign(f)
		x.vfEither(by.public(f), nil)
		x.agree()
		list = append(list, rByRef(by.proposalRef(f)))
	} else {
		list = append(list, rByValue(rRemove(num)))
	}
	c := g.commit(list, ch)
	if vfChoice("path", 2) == 1 {
		c.withPath()
	}
	c.finish(uint16(1 + vfChoice("wire", 2)))
	ok := x.vfEither(c.message(), c.next)
	vfAssert(ok == (valid && c.path != nil), "accepted exactly if there is such a member")
	if valid && ok {
		delete(x.keys, leaf)
	}
	x.vfSane()
	vfReach("end")
}

// Several removals at once.
func vfH_C06_removals() {
	x := vfShared(vfSuites[0], 1, 2+vfChoice("refs", 3))
	g := x.g
	n := g.tree.leaves()
	var list [][]byte
	var ch []rChange
	var gone []int
	valid := true
	for i := 0; i < 2; i++ {
		l := 1 + vfChoice("leaf", n)
		vfAssume(x.lib[l] == nil)
		list = append(list, rByValue(rRemove(uint32(l))))
		if l >= n || g.tree.leaf(l) == nil || rHasInt(gone, l) {
			valid = false
			continue
		}
		gone = append(gone, l)
		ch = append(ch, rChange{remove: l})
	}
	c := g.commit(list, ch).withPath().finish(1)
	ok := x.vfEither(c.message(), c.next)
	vfAssert(ok == valid, "accepted exactly if the members exist")
	if ok {
		for _, l := range gone {
			delete(x.keys, l)
		}
	}
	x.vfSane()
	vfReach("end")
}

// The library member itself is removed and goes on using the group.
func vfH_C06_removed() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfShared(cs, 1, 1+vfChoice("refs", 3))
	g := x.g
	me := x.libs()[0]
	m := x.lib[me]
	list := [][]byte{rByValue(rRemove(uint32(me)))}
	ch := []rChange{{remove: me}}
	if vfChoice("replace", 2) == 1 {
		k := rKeyPackage(g.s, "new")
		list = append(list, rByValue(rAdd(k)))
		ch = append(ch, rChange{add: k, remove: -1})
	}
	c := g.commit(list, ch)
	if vfChoice("path", 2) == 1 {
		c.withPath()
	}
	c.finish(uint16(1 + vfChoice("wire", 2)))
	m.recv(c.message())
	m.recv(c.message())
	m.group.UnmarshalAndProcessMessage(c.next.application(vfBytes("text", 1)))
	m.recv(c.next.commit(nil, nil).withPath().finish(1).message())
	m.group.CreateApplicationMessage(vfBytes("text", 1))
	m.group.CreateWelcome([]KeyPackage{vfNewMember(cs, "z").kpp.Public})
	vfReach("end")
}

// Sender data of any content.
func vfH_C06_senderData() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfShared(cs, 1, 2)
	g := x.g
	f := g.frame(uint8(1+vfChoice("type", 3)), vfBytes("data", 2), 2)
	switch f.ct {
	case 2:
		f.body = rRemove(1)
	case 3:
		f.body = rCat(rVec(), rOpt(nil))
		f.tag = g.tag
	}
	g.sign(f)
	sd := g.sender(0)
	switch vfChoice("how", 5) {
	case 0:
		sd.leaf = vfU32("leaf")
		vfAssume(sd.leaf != 0)
	case 1:
		sd.gen = vfU32("gen")
		vfAssume(sd.gen >= 1<<28)
	case 2:
		sd.gen = 1 + vfU32("gen")&3
	case 3:
		sd.leaf = vfU32("leaf")
		sd.gen = vfU32("gen")
		vfAssume(sd.gen >= 1<<28)
	case 4:
		sd.leaf = vfU32("leaf")
		vfAssume(sd.leaf >= 1<<31-2)
		sd.gen = 1
	}
	vfSteps(20000000)
	for _, m := range x.members() {
		vfRejects(m, g.private(f, sd), "a message with wrong sender data is rejected")
	}
	vfSteps(400000000)
	x.vfSane()
	vfReach("end")
}

// Sender data and plaintexts that do not parse.
func vfH_C06_plaintext() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 1, 4))]
	x := vfShared(cs, 1, 1)
	g, s := x.g, x.g.s
	f := g.frame(uint8(vfChoice("type", 5)), nil, 2)
	sd := g.sender(0)
	var msg []byte
	if vfChoice("how", 2) == 0 {
		msg = g.privateRaw(f, sd, vfBytes("plain", vfChoice("len", vfBound("len", 7, 11))))
	} else {
		ct := vfBytes("ct", 8*vfChoice("ctlen", 3))
		head := rCat(rVec(f.id), rU64(f.epoch), rU8(f.ct))
		k, n := g.senderKeys(ct)
		sdct := s.aeadSeal(k, n, vfBytes("sd", []int{0, 1, 4, 8, 11, 13, 16}[vfChoice("sdlen", 7)]), head)
		msg = rCat(rU16(1), rU16(2), head, rVec(f.aad), rVec(sdct), rVec(ct))
	}
	for _, m := range x.members() {
		vfRejects(m, msg, "a message that does not parse is rejected")
	}
	x.agree()
	vfReach("end")
}

// Signed proposals of any content, and commits that refer to them.
func vfC06Proposal(prop int) {
	x := vfShared(vfSuites[vfChoice("suite", vfBound("suites", 1, 2))], 1, 2)
	by := x.as(vfChoice("by", 2))
	w := vfWire(1, vfBound("out of range", 0, 1) == 1)
	w.noTree = true
	w.proposal(prop)
	f := by.frame(2, w.b, uint16(1+vfChoice("wire", 2)))
	by.sign(f)
	msg := by.public(f)
	if f.wire == 2 {
		msg = by.private(f, by.sender(0))
	}
	x.vfEither(msg, nil)
	c := x.g.commit([][]byte{rByRef(by.proposalRef(f))}, nil)
	if vfChoice("path", 2) == 1 {
		c.withPath()
	}
	c.finish(1)
	x.vfEither(c.message(), c.next)
	x.agree()
	x.refresh()
	x.agree()
	vfReach("end")
}

func vfH_C06_propAdd()          { vfC06Proposal(1) }
func vfH_C06_propUpdate()       { vfC06Proposal(2) }
func vfH_C06_propPSK()          { vfC06Proposal(4) }
func vfH_C06_propReInit()       { vfC06Proposal(5) }
func vfH_C06_propExternalInit() { vfC06Proposal(6) }
func vfH_C06_propExtensions()   { vfC06Proposal(7) }

// Signed commits of any content.
func vfH_C06_commit() {
	x := vfShared(vfSuites[vfChoice("suite", vfBound("suites", 1, 2))], 1, 2)
	g := x.g
	w := vfWire(1, false)
	w.noTree = true
	w.commit()
	f := g.frame(3, w.b, 1)
	g.sign(f)
	f.tag = vfBytes("tag", []int{0, 1, g.s.nh}[vfChoice("taglen", 3)])
	msg := g.public(f)
	for _, m := range x.members() {
		vfAssert(m.recv(msg) != nil, "a commit with an arbitrary confirmation tag is rejected")
	}
	x.agree()
	x.refresh()
	x.agree()
	vfReach("end")
}

// Paths of any length, with any number of ciphertexts, path secrets of any
// length and keys that are none.
func vfH_C06_path() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfShared(cs, 1+vfChoice("libs", vfBound("libs", 1, 2)), 1+vfChoice("refs", 3))
	g := x.g
	var list [][]byte
	var ch []rChange
	switch vfChoice("list", 3) {
	case 1:
		k := rKeyPackage(g.s, "new")
		list, ch = [][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}}
	case 2:
		list, ch = [][]byte{rByValue(rRemove(1))}, []rChange{{remove: 1}}
	}
	c := g.commit(list, ch).startPath()
	last := len(c.path.nodes) - 1
	which := vfChoice("which", last+1)
	lens := []int{0, 1, 31, 33, 64, 100}[:vfBound("lens", 4, 6)]
	how := vfChoice("how", 8)
	switch how {
	case 0: // path secret of another length
		c.path.nodes[which].sec = vfBytes("secret", lens[vfChoice("len", len(lens))])
	case 1:
		c.path.nodes[which].enc = vfBytes("key", lens[vfChoice("len", len(lens))])
	}
	c.sealPath()
	n := c.path.nodes[which]
	switch how {
	case 2:
		vfAssume(len(n.cts) > 0)
		n.cts = nil
	case 3:
		vfAssume(len(n.cts) > 0)
		n.cts = append(n.cts, n.cts...)
	case 4:
		vfAssume(len(n.cts) > 0)
		n.cts = n.cts[:len(n.cts)-1]
	case 5:
		c.path.nodes = nil
	case 6:
		c.path.nodes = append(c.path.nodes, n)
	case 7: // ciphertexts that are too short for anything
		for i := range n.cts {
			n.cts[i] = rCat(rVec(vfBytes("kem", vfChoice("kem", 3)*32)), rVec(vfBytes("ct", vfChoice("ct", 3)*8)))
		}
	}
	c.finish(1)
	all, none := true, true
	for _, m := range x.members() {
		ok := m.recv(c.message()) == nil
		all, none = all && ok, none && !ok
	}
	switch {
	case none:
		vfReach("rejected")
	case how == 7 && all: // sent to somebody else
		x.g = c.next
		vfReach("accepted")
	case how == 0 || how == 7:
		// secrets may have any length as far as the tag fits, and only
		// the recipient can tell that a ciphertext is nonsense
		return
	default:
		vfAssert(false, "an impossible path is rejected")
	}
	x.agree()
	x.refresh()
	x.agree()
	vfReach("end")
}

// Newcomers whose keys are none: whoever accepts the proposal can still
// process what follows.
func vfH_C06_keys() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfShared(cs, 1, 1+vfChoice("refs", 2))
	g := x.g
	k := rKeyPackage(g.s, "new")
	lens := []int{0, 1, 31, 32, 33, 64, 65, 66, 97}
	n := lens[vfChoice("len", len(lens))]
	switch vfChoice("which", 3) {
	case 0:
		k.init = vfBytes("init", n)
	case 1:
		k.leaf.enc = vfBytes("enc", n)
	case 2:
		k.leaf.sigKey = vfBytes("sig", n)
	}
	k.signAll()
	c := g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}}).finish(1)
	if x.vfEither(c.message(), c.next) {
		vfReach("accepted")
		m := x.members()[0]
		_, msg, err := m.group.CreateWelcome([]KeyPackage{vfNewMember(cs, "z").kpp.Public})
		vfAssert(err == nil, "the library can invite")
		vfAssert(m.recv(msg) == nil, "and follows its own invitation")
		vfReach("end")
		return
	}
	x.vfSane()
	vfReach("end")
}
