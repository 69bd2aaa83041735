package mls

// Reuse guards are all that keeps messages of one sender apart as long as
// they have the same generation: each byte of each guard is random.
func vfH_C23_guards() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfShared(cs, 1+vfChoice("libs", 2), 1)
	libs := x.libs()
	m := x.lib[libs[vfChoice("sender", len(libs))]]
	text := vfBytes("text", 2*vfChoice("len", 2))
	commits := vfChoice("commits", 2) == 1
	pkg := vfNewMember(cs, "new").kpp.Public
	n := 16
	if cs == vfSuites[0] && len(libs) == 1 {
		n = vfBound("messages", 300, 600)
		vfSteps(1 << 30)
	}
	var guards, msgs [][]byte
	for i := 0; i < n; i++ {
		var msg []byte
		var err error
		if commits {
			_, msg, err = m.group.CreateWelcome([]KeyPackage{pkg})
		} else {
			msg, err = m.group.CreateApplicationMessage(text)
		}
		vfAssert(err == nil, "creating a message succeeds")
		_, sd, ok := x.g.open(msg)
		vfAssert(ok, "the peer reads the message")
		for j, o := range msgs {
			vfAssert(vfUnequal(guards[j], sd.guard), "no guard is used twice")
			vfAssert(!vfEqual(msg, o), "no message is sent twice")
		}
		guards, msgs = append(guards, sd.guard), append(msgs, msg)
	}
	for i := 0; i < 4; i++ {
		var a, b []byte
		for j := 0; j < n; j += 2 {
			a, b = append(a, guards[j][i]), append(b, guards[j+1][i])
		}
		vfAssert(vfUnequal(a, b), "every byte of the guard is random")
	}
	vfReach("end")
}

// Keys generated for the same credential have nothing in common.
func vfH_C23_keys() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	id := vfBytes("identity", vfChoice("len", 3))
	var keys [][]byte
	for i := 0; i < vfBound("packages", 12, 24); i++ {
		kpp, err := GenerateKeyPairPackage(cs, NewBasicCredential(id))
		vfAssert(err == nil, "key package generation succeeds")
		k := (&vfMember{cs: cs, kpp: kpp}).rkp()
		keys = append(keys, k.init, k.initPriv, k.leaf.enc, k.encPriv, k.leaf.sigKey, k.sigPriv)
	}
	for i := range keys {
		for j := 0; j < i; j++ {
			vfAssert(!vfEqual(keys[i], keys[j]), "all keys are different")
		}
	}
	vfReach("end")
}

// Groups with the same creator and name do not share secrets; neither do
// invitations share their encapsulated keys.
func vfH_C23_groups() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	a := vfNewMember(cs, "a")
	id := vfBytes("id", vfChoice("len", 3))
	k := rKeyPackage(rSuiteOf(cs), "k")
	pkg, err := UnmarshalKeyPackage(k.message())
	vfAssert(err == nil, "a well-formed key package decodes")
	var peers []*rGroup
	var encs [][]byte
	for i := 0; i < 2; i++ {
		g, err := CreateGroup(id, a.kpp)
		vfAssert(err == nil, "group creation succeeds")
		for j := 0; j < 2; j++ {
			w, _, err := g.CreateWelcome([]KeyPackage{*pkg})
			vfAssert(err == nil, "welcome creation succeeds")
			raw := w.Bytes()
			in := rIn{b: raw[6:]}
			list := rIn{b: in.vec()}
			list.vec()
			enc := list.vec()
			for _, e := range encs {
				vfAssert(!vfEqual(enc, e), "every welcome has its own encapsulated key")
			}
			encs = append(encs, enc)
			if j == 0 {
				p, ok := rJoin(k, raw)
				vfAssert(ok, "the peer joins")
				peers = append(peers, p)
			}
		}
	}
	p, q := peers[0], peers[1]
	vfAssert(!vfEqual(p.epochSecret, q.epochSecret) && !vfEqual(p.joiner, q.joiner) && !vfEqual(p.initSecret, q.initSecret), "groups share no secrets")
	_, _, ok := q.open(p.application([]byte("x")))
	vfAssert(!ok, "groups do not read each other's messages")
	vfReach("end")
}
