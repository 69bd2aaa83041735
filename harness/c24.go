package mls

func vfReuse() {
	vfWatching, vfWatched = false, nil
	vfDelta = vfU8("overwrite")
	vfAssume(vfDelta != 0)
}

// Members whose applications reuse their buffers follow every history.
func vfH_C24_history() {
	vfReuse()
	cs := vfSuites[vfChoice("suite", vfBound("suites", 1, 4))]
	x := vfShared(cs, 1, 1)
	for i := vfBound("steps", 2, 3); i > 0; i-- {
		x.step(vfChoice("op", vfOps))
		x.agree()
	}
	x.refresh()
	x.agree()
	vfReach("end")
}

// Groups created and joined with buffers that are reused.
func vfH_C24_founded() {
	vfReuse()
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfFounded(cs, vfBytes("id", vfChoice("idLen", 3)), vfChoice("libs", 3))
	x.agree()
	x.step(vfChoice("op", vfOps))
	x.agree()
	x.refresh()
	x.agree()
	vfReach("end")
}

// Proposals kept until they are committed, between rejected messages.
func vfH_C24_pending() {
	vfReuse()
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfShared(cs, 1, 2)
	m := vfNewMember(cs, "new")
	k := m.rkp()
	wire := uint16(1 + vfChoice("wire", 2))
	by := x.as(1)
	l, priv := vfUpdateLeaf(by)
	refs := [][]byte{
		rByRef(x.propose(by, rUpdate(l), wire)),
		rByRef(x.propose(x.as(2), rAdd(k), wire)),
	}
	changes := []rChange{{by: 1, update: l, remove: -1}, {by: 2, add: k, remove: -1}}
	if vfChoice("rejected", 2) == 1 {
		bad := x.g.commit(refs, changes).withPath().finish(wire)
		bad.frame.tag = vfFlip(bad.frame.tag)
		for _, o := range x.members() {
			vfAssert(o.recv(bad.message()) != nil, "a commit with a wrong tag is refused")
		}
	}
	x.agree()
	c := x.g.commit(refs, changes).withPath().finish(wire)
	w := c.welcome()
	x.deliver(c)
	vfAssert(m.join(w) == nil, "an honest invitee joins")
	x.lib[c.added[0]] = m
	kk := *x.keys[1]
	kk.encPriv = priv
	x.keys[1] = &kk
	x.agree()
	x.speak(1)
	x.refresh()
	x.agree()
	vfReach("end")
}

// Key packages and welcomes do not depend on the bytes they were read from.
func vfH_C24_decoded() {
	vfReuse()
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	k := rKeyPackage(rSuiteOf(cs), "k")
	if vfChoice("ext", 2) == 1 {
		k.exts = rCat(rU16(0xff00), rVec(vfBytes("ext", 2)))
		k.leaf.exts = rCat(rU16(0xff01), rVec(vfBytes("leafExt", 2)))
		k.leaf.caps = vfCaps(k.s, rU16(0xff01), rU16(1))
		k.signAll()
	}
	raw := k.message()
	var pkg *KeyPackage
	var err error
	vfLend(raw, func(b []byte) { pkg, err = UnmarshalKeyPackage(b) })
	vfAssert(err == nil && vfEqual(vfKept(pkg.Bytes()), raw), "the key package keeps its contents")
	vfAssert(vfEqual(pkg.Bytes(), raw), "the key package does not depend on its encoding")
	ref, err := pkg.GenerateRef()
	vfAssert(err == nil && vfEqual(ref, k.ref()), "nor does its reference")
	a := vfGroup(cs, 1)[0]
	w, _, err := a.group.CreateWelcome([]KeyPackage{*pkg})
	vfAssert(err == nil, "welcome creation succeeds")
	raw = append([]byte(nil), vfKept(w.Bytes())...)
	vfAssert(vfEqual(w.Bytes(), raw), "the welcome does not depend on its encoding")
	var w2 *Welcome
	vfLend(raw, func(b []byte) { w2, err = UnmarshalWelcome(b) })
	vfAssert(err == nil && vfEqual(w2.Bytes(), raw), "the welcome keeps its contents")
	vfAssert(len(w2.NewMembers()) == 1 && vfEqual(w2.NewMembers()[0], k.ref()), "and its new members")
	vfReach("end")
}

// Buffers callers keep instead.
func vfH_C24_kept() {
	vfDelta, vfWatching, vfWatched = 0, true, nil
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	var x *vfMixed
	if vfChoice("founded", 2) == 1 {
		x = vfFounded(cs, vfBytes("id", 2), vfChoice("libs", 2))
	} else {
		x = vfShared(cs, 2, 1)
	}
	x.agree()
	x.step(vfChoice("op", vfOps))
	x.agree()
	x.refresh()
	x.agree()
	vfSettled()
	vfReach("end")
}

// Messages created before any of them is delivered, in any order.
func vfH_C24_queued() { vfQueued() }

func vfQueued() {
	vfDelta, vfWatching, vfWatched = 0, true, nil
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfShared(cs, 2, 1)
	m := x.members()[vfChoice("sender", 2)]
	var texts, msgs [][]byte
	var wels []*Welcome
	n := vfBound("messages", 3, 4)
	for i := 0; i < n; i++ {
		text := vfBytes("text", 3+40*vfChoice("len", 2))
		out, err := m.group.CreateApplicationMessage(text)
		vfAssert(err == nil, "members create messages")
		texts, msgs = append(texts, text), append(msgs, out)
		if vfChoice("invite", 2) == 1 {
			w, msg, err := m.group.CreateWelcome([]KeyPackage{vfNewMember(cs, "n").kpp.Public})
			vfAssert(err == nil, "welcome creation succeeds")
			wels = append(wels, w)
			vfSpoil(w.Bytes())
			vfSpoil(msg)
		}
		vfSpoil(out)
	}
	for i := range wels {
		vfSpoil(wels[i].Bytes())
	}
	first := vfChoice("first", n)
	for i := 0; i < n; i++ {
		j := (first + i) % n
		for _, o := range x.members() {
			if o != m {
				out, err := o.group.UnmarshalAndProcessMessage(msgs[j])
				vfAssert(err == nil && vfEqual(out, texts[j]), "messages are read as they were sent")
				vfSpoil(out)
			}
		}
		f, _, ok := x.g.open(msgs[j])
		vfAssert(ok && vfEqual(f.body, texts[j]), "the peer reads messages of members")
	}
	vfSettled()
	x.agree()
	vfReach("end")
}
