package mls

// vfRatchets are the keys and nonces of a member for some generations.
func vfRatchets(tree secretTree, s *rSuite, i int, app bool, gens int) (keys, nonces, secrets [][]byte) {
	label := ratchetLabelHandshake
	if app {
		label = ratchetLabelApplication
	}
	sec, err := tree.deriveRatchetRoot(s.id, leafIndex(i).nodeIndex(), label)
	vfAssert(err == nil, "a ratchet is derived")
	for j := 0; j < gens; j++ {
		keys = append(keys, vfOK(sec.deriveKey(s.id)))
		nonces = append(nonces, vfOK(sec.deriveNonce(s.id)))
		secrets = append(secrets, sec.secret)
		sec, err = sec.deriveNext(s.id)
		vfAssert(err == nil, "a ratchet advances")
	}
	return
}

// rRatchet is the definition.
func rRatchet(s *rSuite, enc []byte, n, i int, app bool, gen uint32) (key, nonce []byte) {
	lo, hi := 0, n
	sec := enc
	for hi-lo > 1 {
		m := (lo + hi) / 2
		if i < m {
			sec = s.expand(sec, "tree", []byte("left"), s.nh)
			hi = m
		} else {
			sec = s.expand(sec, "tree", []byte("right"), s.nh)
			lo = m
		}
	}
	label := "handshake"
	if app {
		label = "application"
	}
	sec = s.expand(sec, label, nil, s.nh)
	for j := uint32(0); j < gen; j++ {
		sec = s.expand(sec, "secret", rU32(j), s.nh)
	}
	return s.expand(sec, "key", rU32(gen), s.nk), s.expand(sec, "nonce", rU32(gen), s.nn)
}

// Keys are those of the definition, for every member and purpose.
func vfH_C12_values() {
	s := rSuiteOf(vfSuites[vfChoice("suite", len(vfSuites))])
	n := 1 << vfChoice("depth", vfBound("depth", 5, 7))
	enc := vfBytes("enc", s.nh)
	tree, err := deriveSecretTree(s.id, numLeaves(n), enc)
	vfAssert(err == nil, "a secret tree is derived")
	gens := vfBound("generations", 4, 12)
	for i := 0; i < n; i++ {
		for _, app := range []bool{false, true} {
			keys, nonces, _ := vfRatchets(tree, s, i, app, gens)
			for j := 0; j < gens; j++ {
				k, nn := rRatchet(s, enc, n, i, app, uint32(j))
				vfAssert(vfEqual(keys[j], k) && vfEqual(nonces[j], nn), "message keys are those of the definition")
			}
		}
	}
	vfReach("end")
}

// No two are the same, and keys of different groups differ.
func vfH_C12_unique() {
	s := rSuiteOf(vfSuites[vfChoice("suite", vfBound("suites", 2, 4))])
	n := 1 << vfChoice("depth", vfBound("depth", 3, 4))
	enc, enc2 := vfBytes("enc", s.nh), vfBytes("enc2", s.nh)
	tree, err := deriveSecretTree(s.id, numLeaves(n), enc)
	vfAssert(err == nil, "a secret tree is derived")
	tree2, err := deriveSecretTree(s.id, numLeaves(n), enc2)
	vfAssert(err == nil, "a secret tree is derived")
	gens := vfBound("generations", 3, 4)
	var keys, nonces, secs, keys2, nonces2 [][]byte
	for i := 0; i < n; i++ {
		for _, app := range []bool{false, true} {
			k, nn, sc := vfRatchets(tree, s, i, app, gens)
			keys, nonces, secs = append(keys, k...), append(nonces, nn...), append(secs, sc...)
			k, nn, _ = vfRatchets(tree2, s, i, app, gens)
			keys2, nonces2 = append(keys2, k...), append(nonces2, nn...)
		}
	}
	for i := range keys {
		for j := 0; j < i; j++ {
			vfAssert(!vfEqual(keys[i], keys[j]), "message keys are unique")
			vfAssert(!vfEqual(nonces[i], nonces[j]), "nonces are unique")
			vfAssert(!vfEqual(secs[i], secs[j]), "ratchet secrets are unique")
		}
		vfAssert(!vfEqual(keys[i][:s.nn], nonces[i]), "keys are no nonces")
		vfAssert(vfImplies(vfEqual(keys[i], keys2[i]), vfEqual(enc, enc2)), "keys depend on the secret of the epoch")
		vfAssert(vfImplies(vfEqual(nonces[i], nonces2[i]), vfEqual(enc, enc2)), "nonces depend on the secret of the epoch")
	}
	vfReach("end")
}

// As members see it: messages of any sender, purpose and generation are
// decrypted with the keys of exactly that position, by everybody.
func vfH_C12_members() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfShared(cs, 1+vfChoice("libs", 2), 1+vfChoice("refs", vfBound("refs", 3, 6)))
	refs := x.refs()
	by := x.as(refs[vfChoice("by", len(refs))])
	f := by.frame(uint8(1+vfChoice("type", 2)), vfBytes("data", 1), 2)
	if f.ct == 2 {
		f.body = rAdd(rKeyPackage(x.g.s, "new"))
	}
	by.sign(f)
	sd := by.sender(uint32(vfChoice("gen", vfBound("gen", 3, 6))))
	how := vfChoice("how", 6)
	keyct := f.ct
	switch how {
	case 1:
		sd.useGen++
	case 2:
		vfAssume(sd.gen > 0)
		sd.useGen--
	case 3: // the keys of somebody else
		sd.useLeaf = vfChoice("other", x.g.tree.leaves())
		vfAssume(sd.useLeaf != by.me)
	case 4: // the keys of the other purpose
		keyct = 3 - f.ct
	case 5: // a wrong reuse guard
	}
	s := x.g.s
	body := f.body
	if f.ct == 1 {
		body = rVec(body)
	}
	key, nonce := by.ratchet(sd.useLeaf, keyct, sd.useGen)
	guard := sd.guard
	if how == 5 {
		guard = vfFlip(guard)
	}
	for i := 0; i < 4; i++ {
		nonce[i] ^= guard[i]
	}
	head := rCat(rVec(f.id), rU64(f.epoch), rU8(f.ct))
	ct := s.aeadSeal(key, nonce, rCat(body, f.auth()), rCat(head, rVec(f.aad)))
	k, n := by.senderKeys(ct)
	msg := rCat(rU16(1), rU16(2), head, rVec(f.aad), rVec(s.aeadSeal(k, n, sd.bytes(), head)), rVec(ct))
	for _, m := range x.members() {
		out, err := m.group.UnmarshalAndProcessMessage(msg)
		vfAssert((err == nil) == (how == 0), "accepted exactly with the keys of the position")
		if err == nil && f.ct == 1 {
			vfAssert(vfEqual(out, f.body), "the text is what was sent")
		}
	}
	vfReach("end")
}

// Messages the library sends use the keys of the sender's own position.
func vfH_C12_sent() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfShared(cs, 1+vfChoice("libs", 3), vfChoice("refs", 3))
	ms := x.members()
	for i, m := range ms {
		msg, err := m.group.CreateApplicationMessage(vfBytes("data", 1))
		vfAssert(err == nil, "message creation succeeds")
		_, sd, ok := x.g.open(msg)
		vfAssert(ok && x.lib[int(sd.leaf)] == m, "the message is protected with the sender's keys")
		_, cm, err := m.group.CreateWelcome([]KeyPackage{vfNewMember(cs, "z").kpp.Public})
		vfAssert(err == nil, "welcome creation succeeds")
		f, sd, ok := x.g.open(cm)
		vfAssert(ok && f.ct == 3 && x.lib[int(sd.leaf)] == m, "the commit is protected with the sender's handshake keys")
		_ = i
	}
	vfReach("end")
}

// So do long messages.
func vfH_C12_long() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfShared(cs, 2, 0)
	n := []int{40, 64, 255, 1000, 5000, 16384, 70000}[vfChoice("len", 7)]
	data := make([]byte, n)
	data[n-1] = vfU8("byte")
	for _, m := range x.members() {
		msg, err := m.group.CreateApplicationMessage(data)
		vfAssert(err == nil, "message creation succeeds")
		f, sd, ok := x.g.open(msg)
		vfAssert(ok && x.lib[int(sd.leaf)] == m && vfEqual(f.body, data), "the message is protected with the sender's keys")
		out, err := m.group.UnmarshalAndProcessMessage(x.g.application(data))
		vfAssert(err == nil && vfEqual(out, data), "the message of the peer is read with its keys")
	}
	vfReach("end")
}
