package mls

// What was accepted once lends no credit to forgeries made from it.

// vfTouch is b with its last byte changed to any other value.
func vfTouch(b []byte) []byte {
	c := append([]byte(nil), b...)
	d := vfU8("touch")
	vfAssume(d != 0)
	c[len(c)-1] ^= d
	return c
}

func vfH_C13_again() {
	x := vfShared(vfSuites[vfChoice("suite", len(vfSuites))], 1, 2)
	g, m := x.g, x.members()[0]
	kind := vfChoice("kind", 2)
	f := g.frame(1, []byte("text"), 2)
	if kind == 1 {
		f = g.frame(2, rRemove(2), 2)
	}
	f.aad = []byte("aad")
	g.sign(f)
	sd := g.sender(0)
	out, err := m.group.UnmarshalAndProcessMessage(g.private(f, sd))
	vfAssert(err == nil && (kind == 1 || vfEqual(out, f.body)), "the honest message is accepted")
	e := *f
	switch vfChoice("how", 6) {
	case 0:
		e.body = vfTouch(f.body)
	case 1:
		e.aad = vfTouch(f.aad)
	case 2: // another sender
		sd.leaf, sd.useLeaf = 1, 1
	case 3: // a later epoch
		x.refresh()
		g = x.g
		e.epoch = g.epoch
		sd = g.sender(0)
	case 4: // the signature of another message
		e.body = vfTouch(f.body)
		sd = g.sender(1)
	case 5: // the sender is somebody else by now
		k := rKeyPackage(g.s, "new")
		x.speak(1)
		x.remove(0)
		c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}}).finish(1)
		x.deliver(c)
		x.keys[0] = k
		x.speak(0)
		g = x.g
		e.epoch = g.epoch
		sd = g.sender(0)
	}
	vfRejects(m, g.private(&e, sd), "a forgery is refused after the original was accepted")
	x.agree()
	vfReach("end")
}

func vfH_C14_again() {
	x := vfShared(vfSuites[vfChoice("suite", len(vfSuites))], 1, 2)
	g, m := x.g, x.members()[0]
	f := g.frame(2, rRemove(2), 1)
	f.aad = []byte("aad")
	g.sign(f)
	tag := g.memberTag(f)
	vfAssert(m.recv(rPublic(f, tag)) == nil, "an honest proposal is accepted")
	e := *f
	remake := vfChoice("tag", 2) == 1
	switch vfChoice("how", 6) {
	case 0:
		e.body = vfTouch(f.body)
	case 1:
		e.aad = vfTouch(f.aad)
	case 2:
		e.sender = 1
	case 3:
		x.refresh()
		g = x.g
		e.epoch = g.epoch
	case 4: // signed anew, so that only the tag is that of another message
		e.body = rRemove(1)
		g.sign(&e)
		vfAssume(!remake)
	case 5: // the content of a pending proposal as a commit
		c := g.commit([][]byte{rByValue(rRemove(2))}, []rChange{{remove: 2}}).withPath().finish(1)
		sig := f.sig
		e = *c.frame
		e.sig = sig
		c.frame.sig = sig
		c.schedule()
		e.tag = c.frame.tag
	}
	if remake {
		tag = g.memberTag(&e)
	}
	vfAssert(m.recv(rPublic(&e, tag)) != nil, "a forgery is refused after the original was accepted")
	x.agree()
	vfReach("end")
}

func vfH_C17_again() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfShared(cs, 1, 2)
	k := rKeyPackage(x.g.s, "new")
	add := func(k *rKP) *rCommit {
		return x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}}).finish(1)
	}
	if vfChoice("kind", 2) == 0 { // a newcomer
		x.vfTry(add(k), true, "an honest newcomer is accepted")
		x.remove(4)
		x.agree()
		e, l := *k, *k.leaf
		e.leaf = &l
		how := vfChoice("how", 5)
		switch how {
		case 1: // the signature of the key package no longer fits
			e.init = vfTouch(k.init)
		case 2:
			e.exts = rCat(rU16(0xff00), rVec(vfBytes("ext", 1)))
		case 3: // the signature of the leaf no longer fits
			l.na--
			e.signOuter()
		case 4:
			l.cred = vfTouch(l.cred)
			e.signOuter()
		}
		x.vfTry(add(&e), how == 0, "a newcomer is judged anew")
	} else { // an update
		by := x.as(1)
		l, priv := vfUpdateLeaf(by)
		ref := x.propose(by, rUpdate(l), 1)
		x.vfTry(x.g.commit([][]byte{rByRef(ref)}, []rChange{{by: 1, update: l, remove: -1}}).withPath().finish(1), true, "an honest update is accepted")
		n := *x.keys[1]
		n.encPriv = priv
		x.keys[1] = &n
		by = x.as(1)
		e, _ := vfUpdateLeaf(by)
		sig := l.sig
		if vfChoice("how", 2) == 0 {
			e.sig = sig // that of the last update
		} else { // made for another position
			by2 := x.as(2)
			e, _ = vfUpdateLeaf(by2)
			l2 := *e
			l2.enc, _ = by.s.encKeys()
			l2.sign(by.s, by2.sigPriv, by.id, 2)
			ref := x.propose(by2, rUpdate(&l2), 1)
			x.vfTry(x.g.commit([][]byte{rByRef(ref)}, []rChange{{by: 2, update: &l2, remove: -1}}).withPath().finish(1), true, "an honest update is accepted")
			k2 := *x.keys[2]
			x.keys[2] = &k2
			by = x.as(1)
			l3, _ := vfUpdateLeaf(by)
			l3.sigKey, l3.enc, l3.sig = l2.sigKey, l2.enc, l2.sig
			e = l3
		}
		f := by.frame(2, rUpdate(e), 1)
		by.sign(f)
		for _, m := range x.members() {
			m.recv(by.public(f))
		}
		c := x.g.commit([][]byte{rByRef(by.proposalRef(f))}, []rChange{{by: 1, update: e, remove: -1}})
		x.vfTry(c.withPath().finish(1), false, "an update is judged anew")
	}
	vfReach("end")
}

// vfJoinAgain lets somebody join twice, the second time from a welcome in
// which one thing is altered while signatures are kept.
func vfJoinAgain() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfNewMixed(cs)
	x.addRef(3)
	x.speak(vfChoice("committer", 2))
	x.refresh()
	m := vfNewMember(cs, "m")
	k := m.rkp()
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}}).finish(1)
	g := c.next
	info := g.info()
	vfAssert(m.join(g.welcomeBytes([]*rSecret{c.invite(0)}, g.sealInfo(info))) == nil, "an honest invitee joins")
	how := vfChoice("how", 7)
	if how < 3 { // another tree, consistently hashed and signed
		c = x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}})
		l := *c.tree[4].leaf
		switch how {
		case 1:
			l.cred = vfTouch(l.cred)
		case 2:
			l.enc, _ = g.s.encKeys()
		}
		c.tree[4] = &rNode{leaf: &l}
		c.finish(1)
		g = c.next
		info = g.info()
	} else {
		switch how {
		case 3:
			info.exts = rCat(info.exts, rU16(0xff00), rVec(vfBytes("ext", 1)))
		case 4:
			info.signer = 2
		case 5:
			info.tag = vfTouch(info.tag)
		case 6: // signed, but with the tag of nobody
			info.tag = vfTouch(info.tag)
			info.sig = g.s.sign(g.sigPriv, "GroupInfoTBS", info.tbs())
		}
	}
	n := *m
	vfAssert((n.join(g.welcomeBytes([]*rSecret{c.invite(0)}, g.sealInfo(info))) == nil) == (how == 0), "a welcome is judged anew")
	vfReach("end")
}

func vfH_C18_again() { vfJoinAgain() }

func vfH_C19_again() { vfJoinAgain() }
