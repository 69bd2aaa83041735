package mls

// vfTiny is a group of the reference peer and the library with a one-byte
// name, as the default messages of the grammar have.
func vfTiny(cs CipherSuite, refs int) *vfMixed {
	k := rKeyPackage(rSuiteOf(cs), "ref")
	x := &vfMixed{g: rNewGroup(k, []byte{7}), lib: map[int]*vfMember{}, keys: map[int]*rKP{0: k}}
	if refs > 0 {
		x.addRef(refs)
	}
	x.addLib(1, refs%2 == 1, 1)
	return x
}

// vfTake hands bytes from the network to everything that takes them.
func vfTake(m *vfMember, raw []byte, limit int) {
	vfAllocLimit(limit)
	out, err := m.group.UnmarshalAndProcessMessage(raw)
	vfAllocCheck()
	vfAssert(err != nil && out == nil, "nothing unauthenticated is accepted")
	vfAllocLimit(limit)
	w, err := UnmarshalWelcome(raw)
	vfAllocCheck()
	if err == nil {
		vfReach("welcome")
		refs := w.NewMembers()
		vfAssert(len(refs) <= len(raw), "members come from the message")
		w.Bytes()
		g, err := GroupFromWelcome(w, m.kpp)
		vfAssert(err != nil && g == nil, "nobody joins by chance")
	}
	vfAllocLimit(limit)
	pkg, err := UnmarshalKeyPackage(raw)
	vfAllocCheck()
	if err == nil {
		vfReach("key package")
		pkg.Bytes()
		pkg.GenerateRef()
	}
}

// Arbitrary bytes, with the header of a message of any kind in front or not.
func vfH_C05_bytes() {
	x := vfTiny(vfSuites[0], 0)
	var raw []byte
	if vfChoice("header", 2) == 1 {
		raw = rCat(rU16(1), rU16(uint16(1+vfChoice("format", 5))))
	}
	raw = rCat(raw, vfBytes("raw", vfChoice("len", vfBound("len", 7, 10))))
	vfTake(x.members()[0], raw, 1<<16)
	vfReach("end")
}

// Messages of every kind with arbitrary contents and varying shapes.
func vfC05Message(wf, ct, prop int) {
	x := vfTiny(vfSuites[vfChoice("suite", 2)], 2)
	w := vfWire(vfBound("deviations from the default shape", 1, 2), false)
	w.other = vfChoice("variants", 2)
	w.message(wf, ct, prop)
	vfTake(x.members()[0], w.b, 1<<20)
	vfReach("end")
}

func vfH_C05_application()    { vfC05Message(1, 1, 3) }
func vfH_C05_add()            { vfC05Message(1, 2, 1) }
func vfH_C05_update()         { vfC05Message(1, 2, 2) }
func vfH_C05_remove()         { vfC05Message(1, 2, 3) }
func vfH_C05_psk()            { vfC05Message(1, 2, 4) }
func vfH_C05_reInit()         { vfC05Message(1, 2, 5) }
func vfH_C05_externalInit()   { vfC05Message(1, 2, 6) }
func vfH_C05_extensions()     { vfC05Message(1, 2, 7) }
func vfH_C05_commit()         { vfC05Message(1, 3, 3) }
func vfH_C05_privateMessage() { vfC05Message(2, 0, 0) }
func vfH_C05_welcome()        { vfC05Message(3, 0, 0) }
func vfH_C05_groupInfo()      { vfC05Message(4, 0, 0) }
func vfH_C05_keyPackage()     { vfC05Message(5, 0, 0) }

// Private messages for the right group and epoch with parts of any length.
func vfH_C05_private() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfTiny(cs, 1)
	g := x.g
	lens := []int{0, 1, 12, 15, 16, 17, 28, 31, 32, 33, 47, 48, 49, 64}
	sd := vfBytes("sender data", lens[vfChoice("sdlen", len(lens))])
	ct := vfBytes("ciphertext", lens[vfChoice("ctlen", len(lens))])
	raw := rCat(rU16(1), rU16(2), rVec(g.id), rU64(g.epoch), rU8(uint8(1+vfChoice("type", 3))), rVec(), rVec(sd), rVec(ct))
	for _, m := range x.members() {
		vfRejects(m, raw, "garbage is rejected")
	}
	x.agree()
	vfReach("end")
}

// Public messages for the right group and epoch from any sender with
// signatures and tags of any length.
func vfH_C05_public() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfTiny(cs, 2)
	g := x.g
	st := uint8(1 + vfChoice("sender", 4))
	var sender []byte
	if st <= 2 {
		sender = rU32(vfU32("leaf"))
	}
	body := []byte(nil)
	ct := uint8(1 + vfChoice("type", 3))
	switch ct {
	case 1:
		body = rVec(vfBytes("data", 1))
	case 2:
		body = rRemove(vfU32("removed"))
	case 3:
		body = rCat(rVec(rByValue(rRemove(vfU32("removed")))), rOpt(nil))
	}
	lens := []int{0, 1, 32, 48, 63, 64, 65, 71, 72, 104}
	raw := rCat(rU16(1), rU16(1), rVec(g.id), rU64(g.epoch), rU8(st), sender, rVec(), rU8(ct), body,
		rVec(vfBytes("sig", lens[vfChoice("siglen", len(lens))])))
	if ct == 3 {
		raw = rCat(raw, rVec(vfBytes("tag", 32*vfChoice("taglen", 2))))
	}
	if st == 1 {
		raw = rCat(raw, rVec(vfBytes("membership", 16*vfChoice("mlen", 3))))
	}
	for _, m := range x.members() {
		vfRejects(m, raw, "unsigned messages are rejected")
	}
	vfReach("end")
}

// Welcomes by strangers who know the key package: the plaintexts can be
// anything.
func vfH_C05_secrets() {
	cs := vfSuites[vfChoice("suite", 2)]
	s := rSuiteOf(cs)
	m := vfNewMember(cs, "m")
	k := m.rkp()
	var plain []byte
	if vfChoice("shape", 2) == 0 {
		w := vfWire(vfBound("deviations", 1, 2), true)
		w.groupSecrets()
		plain = w.b
	} else {
		plain = vfBytes("plain", vfChoice("len", vfBound("len", 6, 9)))
	}
	ei := vfBytes("info", vfChoice("infolen", 2)*20)
	raw := rCat(rU16(1), rU16(3), rU16(uint16(cs)), rVec(rVec(k.ref()), s.seal(k.init, "Welcome", ei, plain)), rVec(ei))
	vfAssert(m.join(raw) != nil, "nobody joins a group that does not exist")
	vfReach("end")
}

// The same for the group info.
func vfC05Info(cs CipherSuite, plain []byte) {
	s := rSuiteOf(cs)
	m := vfNewMember(cs, "m")
	k := m.rkp()
	g := &rGroup{s: s, joiner: s.random(s.nh), psk: s.zero()}
	w := s.derive(s.extract(g.joiner, g.psk), "welcome")
	ei := s.aeadSeal(s.expand(w, "key", nil, s.nk), s.expand(w, "nonce", nil, s.nn), plain, nil)
	sec := &rSecret{ref: k.ref(), init: k.init, joiner: g.joiner}
	vfAssert(m.join(g.welcomeBytes([]*rSecret{sec}, ei)) != nil, "nobody joins a group that does not exist")
	vfReach("end")
}

func vfH_C05_infoShapes() {
	w := vfWire(vfBound("deviations", 1, 2), false)
	w.noTree = true // see infoTree
	w.groupInfo()
	vfC05Info(vfSuites[vfChoice("suite", 2)], w.b)
}

func vfH_C05_infoBytes() {
	vfC05Info(vfSuites[0], vfBytes("plain", vfChoice("len", vfBound("len", 6, 9))))
}

func vfH_C05_infoTree() {
	cs := vfSuites[vfChoice("suite", 2)]
	s := rSuiteOf(cs)
	w := vfWire(vfBound("deviations", 1, 2), false)
	w.ratchetTree()
	vfC05Info(cs, rCat(rContext(s, []byte{7}, vfU64("epoch"), vfBytes("hash", s.nh), vfBytes("confirmed", s.nh), nil),
		rVec(rU16(2), rVec(w.b)), rVec(vfBytes("tag", s.nh)), rU32(vfU32("signer")), rVec(vfBytes("sig", 64))))
}

// Groups made by a stranger with trees of any shape: blank nodes, unmerged
// leaves and keys of any kind, correctly signed and hashed.
func vfH_C05_hostileTree() {
	cs := vfSuites[vfChoice("suite", 2)]
	s := rSuiteOf(cs)
	a, b := rKeyPackage(s, "a"), rKeyPackage(s, "b")
	m := vfNewMember(cs, "m")
	k := m.rkp()
	g := rNewGroup(a, []byte{7})
	nodes := []int{1, 3, 7, 15}[vfChoice("size", vfBound("size", 3, 4))]
	t := make(rTree, nodes)
	t[0] = &rNode{leaf: a.leaf}
	mine := vfSome("mine", (nodes+1)/2)
	t[2*mine] = &rNode{leaf: k.leaf}
	if i := vfSome("other", (nodes+1)/2); t[2*i] == nil {
		t[2*i] = &rNode{leaf: b.leaf}
	}
	var ps []int
	for i := 1; i < nodes; i += 2 {
		ps = append(ps, i)
	}
	for n := vfChoice("parents", vfBound("parents", 2, 3)); n > 0 && len(ps) > 0; n-- {
		p := &rNode{}
		switch vfChoice("kind", 4) {
		case 0:
			p.enc, _ = s.encKeys()
		case 1:
			p.enc = vfBytes("key", vfChoice("keylen", 2)*3)
		case 2:
			p.enc, _ = s.encKeys()
			p.parentHash = vfBytes("ph", 1+vfChoice("phlen", 2)*31)
		case 3:
			p.enc, _ = s.encKeys()
			p.unmerged = []uint32{vfU32("unmerged")}
			if vfChoice("two", 2) == 1 {
				p.unmerged = append(p.unmerged, vfU32("unmerged"))
			}
		}
		t[ps[vfSome("at", len(ps))]] = p
	}
	for len(t) > 1 && t[len(t)-1] == nil {
		// the encoding ends with the last filled node
		t = t[:len(t)-1]
	}
	full := make(rTree, nodes)
	copy(full, t)
	c := g.commit(nil, nil)
	c.tree = full
	c.adds = []*rKP{k}
	c.added = []int{mine}
	c.finish(1)
	info := c.next.info()
	info.signer = vfU32("signer")
	if vfChoice("signed", 2) == 0 {
		info.signer = 0
	}
	info.sig = s.sign(a.sigPriv, "GroupInfoTBS", info.tbs())
	sec := c.invite(0)
	switch vfChoice("secret", 3) {
	case 1:
		sec.path = vfBytes("path", 32)
	case 2:
		sec.path = vfBytes("path", 1)
	}
	m.join(c.next.welcomeBytes([]*rSecret{sec}, c.next.sealInfo(info)))
	if m.group != nil {
		vfReach("joined")
		msg, err := m.group.CreateApplicationMessage([]byte("x"))
		vfAssert(err == nil, "whoever joined can speak")
		_, _, ok := c.next.open(msg)
		vfAssert(ok, "and is heard")
	}
	vfReach("end")
}

// Signature keys of members that are no keys at all.
func vfH_C05_hostileKeys() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	s := rSuiteOf(cs)
	a := rKeyPackage(s, "a")
	lens := []int{0, 1, 2, 31, 32, 33, 48, 64, 65, 66, 97}
	good := a.leaf.sigKey
	if vfChoice("kind", 2) == 0 {
		a.leaf.sigKey = vfBytes("key", lens[vfChoice("len", len(lens))])
	} else { // not a point
		a.leaf.sigKey = vfFlip(good)
	}
	m := vfNewMember(cs, "m")
	k := m.rkp()
	g := rNewGroup(a, []byte{7})
	c := g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}}).finish(1)
	vfAssert(m.join(c.welcome()) != nil, "nobody joins with such a member")
	vfReach("end")
}

// Key packages from the network that are invited.
func vfH_C05_hostilePackage() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfTiny(cs, 1)
	k := rKeyPackage(x.g.s, "k")
	lens := []int{0, 1, 31, 32, 33, 64, 65, 66, 97}
	switch vfChoice("how", 5) {
	case 0:
		k.init = vfBytes("init", lens[vfChoice("len", len(lens))])
	case 1:
		k.leaf.enc = vfBytes("enc", lens[vfChoice("len", len(lens))])
	case 2:
		k.leaf.sigKey = vfBytes("sigkey", lens[vfChoice("len", len(lens))])
	case 3:
		k.suite = vfU16("othersuite")
	case 4:
		k.init = vfFlip(k.init)
	}
	pkg, err := UnmarshalKeyPackage(k.message())
	if err != nil {
		vfReach("refused")
		return
	}
	_, err = pkg.GenerateRef()
	vfAssert(err == nil || k.suite != uint16(cs), "known suites have references")
	for _, m := range x.members() {
		w, msg, err := m.group.CreateWelcome([]KeyPackage{*pkg})
		if err == nil {
			vfReach("invited")
			w.NewMembers()
			w.Bytes()
			m.recv(msg)
		}
	}
	vfReach("end")
}

// Listing the members of an empty welcome, and joining from it.
func vfH_C05_emptyWelcome() {
	m := vfNewMember(vfSuites[0], "m")
	raw := rCat(rU16(1), rU16(3), rU16(vfU16("suite")), rVec(), rVec(vfBytes("info", 2)))
	w, err := UnmarshalWelcome(raw)
	if err == nil {
		vfAssert(len(w.NewMembers()) == 0, "no members")
		g, err := GroupFromWelcome(w, m.kpp)
		vfAssert(err != nil && g == nil, "nobody can join")
	}
	vfReach("end")
}
