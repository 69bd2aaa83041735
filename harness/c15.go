package mls

// Histories of membership changes after which everybody agrees.
func vfH_C15_history() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 1, 4))]
	x := vfShared(cs, 1, 1)
	for i := vfBound("steps", 3, 4); i > 0; i-- {
		x.step(vfChoice("op", vfOps))
		x.agree()
	}
	vfReach("end")
}

func vfH_C15_suites() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfShared(cs, 2, 1+vfChoice("refs", 2))
	x.agree()
	x.step(vfChoice("op", vfOps))
	x.agree()
	x.refresh()
	x.agree()
	vfReach("end")
}

// Groups the library created.
func vfH_C15_founded() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 1, 4))]
	x := vfFounded(cs, vfBytes("id", vfChoice("idLen", 3)), vfChoice("libs", 3))
	x.agree()
	for i := vfBound("steps", 2, 3); i > 0; i-- {
		x.step(vfChoice("op", vfOps))
		x.agree()
	}
	x.refresh()
	x.agree()
	vfReach("end")
}

// Groups with any epoch number and long names.
func vfH_C15_aged() {
	x := vfAged(vfSuites[vfChoice("suite", len(vfSuites))])
	x.agree()
	for i := 0; i < vfBound("aged", 2, 3); i++ {
		switch vfChoice("op", 4) {
		case 0:
			x.refresh()
		case 1:
			x.invite(x.members()[i%2], 1)
		case 2:
			x.addLib(1, false, 2)
		case 3:
			x.addRef(1)
		}
		x.agree()
	}
	vfReach("end")
}

// Larger trees with a hole anywhere.
func vfH_C15_sparse() {
	n := 3 + vfChoice("n", vfBound("n", 4, 6))
	x := vfNewMixed(vfSuites[0])
	x.addRef(n)
	x.addLib(1, vfChoice("path", 2) == 1, 1)
	x.speak(vfChoice("committer", n+1))
	x.refresh()
	i := vfChoice("removed", n+1)
	vfAssume(i != x.g.me)
	x.remove(i)
	x.agree()
	x.addLib(1, vfChoice("path2", 2) == 1, 2)
	x.agree()
	vfReach("end")
}

// Update path leaves that must not be accepted, in otherwise consistent
// commits.
func vfH_C15_pathLeaf() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfShared(cs, 1, 2)
	g := x.g
	c := g.commit(nil, nil).startPath()
	l := c.path.leaf
	id, at, signer := g.id, uint32(g.me), g.sigPriv
	how := vfChoice("how", 14)
	switch how {
	case 1:
		signer = x.keys[1].sigPriv
	case 2:
		id = vfFlip(id)
	case 3:
		id = nil
	case 4:
		at = vfU32("leaf")
		vfAssume(at != uint32(g.me))
	case 5:
		l.source = 1
		l.nb, l.na = uint64(vfNow())-10, uint64(vfNow())+1000
	case 6:
		l.source = 2
	case 7:
		l.enc = g.tree.leaf(g.me).enc
	case 8:
		l.enc = g.tree.leaf(1 + vfChoice("other", 3)).enc
	case 9:
		l.sigKey, signer = x.keys[1].leaf.sigKey, x.keys[1].sigPriv
	case 10:
		l.parentHash = vfFlip(l.parentHash)
	case 11:
		l.parentHash = nil
	case 12:
		l.enc = c.path.nodes[vfChoice("node", 2)].enc
	case 13:
		// a new signature key of one's own is fine
		l.sigKey, signer = g.s.sigKeys()
	}
	if how != 0 {
		l.sign(g.s, signer, id, at)
	}
	if vfChoice("flip", 2) == 1 {
		vfAssume(how == 0)
		how = 1
		l.sig = vfFlip(l.sig)
	}
	c.sealPath().finish(uint16(1 + vfChoice("wire", 2)))
	ok := how == 0 || how == 13
	msg := c.message()
	for _, m := range x.members() {
		vfAssert((m.recv(msg) == nil) == ok, "accepted exactly if the leaf is valid")
	}
	if ok {
		x.g = c.next
		x.g.sigPriv = signer
	}
	x.agree()
	vfReach("end")
}

// Commits whose confirmation tag was computed from anything else than the
// real state.
func vfH_C15_schedule() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfShared(cs, 1, 2)
	g := x.g
	c := g.commit(nil, nil)
	if vfChoice("path", 2) == 1 {
		c.withPath()
	} else {
		k := rKeyPackage(g.s, "new")
		c = g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}})
	}
	c.finish(uint16(1 + vfChoice("wire", 2)))
	secret := g.s.zero()
	if c.path != nil {
		secret = c.path.last
	}
	how := vfChoice("how", 13)
	f := *c.frame
	w := g.clone()
	t := c.tree
	psk := g.s.zero()
	switch how {
	case 1:
		w.initSecret = vfFlip(w.initSecret)
	case 2:
		secret = vfFlip(secret)
	case 3:
		w.interim = vfFlip(w.interim)
	case 4:
		w.interim = w.confirmed
	case 5:
		psk = vfFlip(psk)
	case 6:
		w.epoch = vfU64("epoch")
		vfAssume(w.epoch != g.epoch)
	case 7:
		w.id = vfFlip(w.id)
	case 8:
		w.exts = rCat(rU16(0xff00), rVec())
	case 9:
		t = g.tree
	case 10:
		f.sig = vfFlip(f.sig)
	case 11:
		f.wire = 3 - f.wire
	case 12:
		f.body = vfFlip(f.body)
	}
	n := w.next(t, &f, secret, psk)
	if how == 0 {
		n = c.next
	}
	c.frame.tag = n.tag
	x.vfTry(c, how == 0, "accepted exactly if computed from the real state")
	vfReach("end")
}

// Changing the group's extensions needs a path as well.
func vfH_C15_extensionsNeedPath() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfShared(cs, 1, 3)
	var list [][]byte
	var ch []rChange
	add := func() {
		k := rKeyPackage(x.g.s, "new")
		list = append(list, rByValue(rAdd(k)))
		ch = append(ch, rChange{add: k, remove: -1})
	}
	where := vfChoice("where", 3)
	if where == 1 {
		add()
	}
	p := rCat(rU16(7), rVec())
	if vfChoice("byref", 2) == 1 {
		list = append(list, rByRef(x.propose(x.as(vfChoice("by", 2)), p, 1)))
	} else {
		list = append(list, rByValue(p))
	}
	if where == 2 {
		add()
	}
	c := x.g.commit(list, ch).finish(1)
	x.vfTry(c, false, "a required path is missing")
	vfReach("end")
}

// A path is required exactly when the list is empty or has an update or a
// remove proposal; whether proposals are given by value or by reference does
// not matter.
func vfH_C15_pathNeeded() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfShared(cs, 1, 3)
	need := true
	var list [][]byte
	var ch []rChange
	byRef := vfChoice("byref", 2) == 1
	add := func(by *rGroup, p []byte, c rChange) {
		if byRef || c.update != nil {
			list = append(list, rByRef(x.propose(by, p, 1)))
		} else {
			list = append(list, rByValue(p))
		}
		ch = append(ch, c)
	}
	switch vfChoice("list", 7) {
	case 0:
	case 1:
		k := rKeyPackage(x.g.s, "new")
		add(x.g, rAdd(k), rChange{add: k, remove: -1})
		need = false
	case 2:
		add(x.g, rRemove(1), rChange{remove: 1})
	case 3:
		by := x.as(2)
		l, _ := vfUpdateLeaf(by)
		add(by, rUpdate(l), rChange{by: 2, update: l, remove: -1})
	case 4:
		k := rKeyPackage(x.g.s, "new")
		add(x.g, rAdd(k), rChange{add: k, remove: -1})
		add(x.g, rRemove(3), rChange{remove: 3})
	case 5:
		add(x.g, rRemove(1), rChange{remove: 1})
		k := rKeyPackage(x.g.s, "new")
		add(x.g, rAdd(k), rChange{add: k, remove: -1})
	case 6:
		k, k2 := rKeyPackage(x.g.s, "new"), rKeyPackage(x.g.s, "new2")
		add(x.g, rAdd(k), rChange{add: k, remove: -1})
		add(x.g, rAdd(k2), rChange{add: k2, remove: -1})
		need = false
	}
	c := x.g.commit(list, ch)
	path := vfChoice("path", 2) == 1
	if path {
		c.withPath()
	}
	c.finish(1)
	x.vfTry(c, path || !need, "accepted exactly if a required path is present")
	vfReach("end")
}

// Proposals do not survive the epoch, and references that were never sent are
// unknown.
func vfH_C15_pending() {
	x := vfShared(vfSuites[vfChoice("suite", len(vfSuites))], 1, 3)
	ref := x.propose(x.as(1), rRemove(2), uint16(1+vfChoice("wire", 2)))
	switch vfChoice("how", 4) {
	case 0: // consumed
		x.deliver(x.g.commit([][]byte{rByRef(ref)}, []rChange{{remove: 2}}).withPath().finish(1))
		x.addRef(1) // leaf 2 exists again
	case 1: // not consumed
		x.refresh()
	case 2:
		ref = vfFlip(ref)
	case 3:
		ref = ref[:vfChoice("cut", 2)*8]
	}
	c := x.g.commit([][]byte{rByRef(ref)}, []rChange{{remove: 2}}).withPath().finish(1)
	x.vfTry(c, false, "unknown references are refused")
	vfReach("end")
}

// Members and proposals in any order.
func vfH_C15_order() {
	x := vfShared(vfSuites[0], 1, 4)
	by := x.as(1)
	l, _ := vfUpdateLeaf(by)
	k := rKeyPackage(x.g.s, "new")
	ref := x.propose(by, rUpdate(l), 1)
	items := [3][]byte{rByRef(ref), rByValue(rRemove(2)), rByValue(rAdd(k))}
	changes := [3]rChange{{by: 1, update: l, remove: -1}, {remove: 2}, {add: k, remove: -1}}
	perms := [6][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	p := perms[vfChoice("order", 6)]
	var list [][]byte
	var ch []rChange
	for _, i := range p {
		list = append(list, items[i])
		ch = append(ch, changes[i])
	}
	for i := vfChoice("more", 3); i > 0; i-- {
		k := rKeyPackage(x.g.s, string(rune('a'+i)))
		list = append(list, rByValue(rAdd(k)))
		ch = append(ch, rChange{add: k, remove: -1})
	}
	vfMapOrder(vfChoice("map order", 3))
	x.deliver(x.g.commit(list, ch).withPath().finish(1))
	x.agree()
	vfReach("end")
}

// Proposals may arrive more than once, in any order.
func vfH_C15_repeated() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 1, 4))]
	x := vfShared(cs, 2, 4)
	wire := uint16(1 + vfChoice("wire", 2))
	l, _ := vfUpdateLeaf(x.as(1))
	k := rKeyPackage(x.g.s, "new")
	bodies := [3][]byte{rUpdate(l), rRemove(2), rAdd(k)}
	changes := [3]rChange{{by: 1, update: l, remove: -1}, {remove: 2}, {add: k, remove: -1}}
	by := [3]*rGroup{x.as(1), x.as(3), x.as(4)}
	var msgs, list [][]byte
	var ch []rChange
	for i, b := range bodies {
		f := by[i].frame(2, b, wire)
		by[i].sign(f)
		msg := by[i].public(f)
		if wire == 2 {
			msg = by[i].private(f, by[i].sender(0))
		}
		msgs = append(msgs, msg)
		list = append(list, rByRef(by[i].proposalRef(f)))
		ch = append(ch, changes[i])
	}
	for n, m := range x.members() {
		for _, i := range []int{0, 1, 2} {
			vfAssert(m.recv(msgs[(i+n)%3]) == nil, "members accept an honest proposal")
		}
		for i := vfChoice("again", 3); i > 0; i-- {
			// whether a copy is refused does not matter
			m.recv(msgs[vfChoice("which", 3)])
		}
	}
	// the commit takes some of them
	switch vfChoice("takes", 4) {
	case 1:
		list, ch = list[:1], ch[:1]
	case 2:
		list, ch = list[1:2], ch[1:2]
	case 3:
		list, ch = list[2:], ch[2:]
	}
	x.deliver(x.g.commit(list, ch).withPath().finish(wire))
	x.agree()
	vfReach("end")
}
