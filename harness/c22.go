package mls

// Exactly the suites whose primitives fit are reported as supported.
func vfH_C22_reported() {
	v := vfU16("suite")
	ok := vfOr(vfOr(v == 1, v == 2), vfOr(v == 3, v == 7))
	vfAssert(CipherSuite(v).Supported() == ok, "supported are exactly the usable suites")
	vfReach("end")
}

// Whoever generates a key package for a supported suite can use it with
// everybody who follows the standard: as creator, invited by the library and
// invited by others.
func vfH_C22_usable() {
	cs := CipherSuite(vfChoice("suite", 9))
	vfAssume(cs.Supported())
	x := vfFounded(cs, vfBytes("id", vfChoice("idLen", 3)), vfChoice("libs", 3))
	x.agree()
	x.refresh()
	x.agree()
	if vfChoice("refs", 2) == 1 {
		x.addRef(1)
	}
	x.addLib(1, vfChoice("path", 2) == 1, uint16(1+vfChoice("wire", 2)))
	x.agree()
	x.invite(x.lib[0], 1)
	x.agree()
	for _, i := range x.refs() {
		x.speak(i)
		x.refresh()
		x.agree()
	}
	vfReach("end")
}

// Key packages of the library for a supported suite are those of the
// registered algorithms, and nobody takes one for another suite.
func vfH_C22_registered() {
	cs := CipherSuite(vfChoice("suite", 9))
	vfAssume(cs.Supported())
	m := vfNewMember(cs, "m")
	k := m.rkp()
	s := k.s
	vfAssert(k.suite == uint16(cs), "the key package names the suite")
	vfAssert(s.verify(k.leaf.sigKey, "KeyPackageTBS", k.tbs(), k.sig), "signed with the registered scheme")
	for _, key := range [][2][]byte{{k.init, k.initPriv}, {k.leaf.enc, k.encPriv}} {
		pt, ok := s.unseal(key[1], "x", nil, s.seal(key[0], "x", nil, []byte{1}))
		vfAssert(ok && vfEqual(pt, []byte{1}), "encryption keys of the registered KEM")
	}
	ref, err := m.kpp.Public.GenerateRef()
	vfAssert(err == nil && vfEqual(ref, k.ref()), "hashed with the registered hash")
	// a member of a group of another suite
	x := vfShared(vfSuites[vfChoice("group", len(vfSuites))], 1, 1)
	vfAssume(x.g.s.id != cs)
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}})
	x.vfTry(c.finish(1), false, "a key package of another suite is refused")
	vfReach("end")
}

// vfRare generates key packages until one is of the given kind: 1 with a
// leading zero in the private signature key, 2 and 3 with one in the
// coordinates of the public key.
func vfRare(cs CipherSuite, name string, kind int) *vfMember {
	vfRareKeys(kind)
	defer vfRareKeys(0)
	n := 32
	if cs == vfSuites[3] {
		n = 48
	}
	for i := 0; i < 20000; i++ {
		m := vfNewMember(cs, name)
		pub, priv := m.rkp().leaf.sigKey, m.kpp.Private.SignatureKey
		// a zero on either side of a coordinate
		at := 1 + (kind/3)*n
		if vfSymbolic() || kind == 0 || kind == 1 && (len(priv) < n || priv[0] == 0) || kind > 1 && (len(pub) != 1+2*n || pub[at] == 0 || pub[at+n-1] == 0) {
			return m
		}
	}
	vfAssume(false)
	return nil
}

// Keys with leading zeros are as good as others.
func vfH_C22_rareKeys() {
	cs := []CipherSuite{vfSuites[1], vfSuites[3]}[vfChoice("suite", 2)]
	kind := vfChoice("kind", 4)
	x := vfNewMixed(cs)
	m := vfRare(cs, "m", kind)
	k := m.rkp()
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}})
	if vfChoice("path", 2) == 1 {
		c.withPath()
	}
	c.finish(1)
	x.deliver(c)
	vfAssert(m.join(c.welcome()) == nil, "an honest invitee joins")
	x.lib[c.added[0]] = m
	x.agree()
	x.addRef(1)
	x.invite(m, 1)
	x.agree()
	// as creator
	m = vfRare(cs, "founder", kind)
	g, err := CreateGroup(GroupID("group"), m.kpp)
	vfAssert(err == nil, "group creation succeeds")
	m.group = g
	ms := vfAdd([]*vfMember{m}, 0, 1)
	msg, err := m.group.CreateApplicationMessage([]byte("text"))
	vfAssert(err == nil, "message creation succeeds")
	out, err := ms[1].group.UnmarshalAndProcessMessage(msg)
	vfAssert(err == nil && vfEqual(out, []byte("text")), "the message is read")
	vfReach("end")
}
