package mls

// A message reaches every member as it was sent.
func vfH_C13_deliver() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	n := 1 + vfChoice("members", vfBound("members", 4, 6))
	ms := vfGroup(cs, n)
	s := vfChoice("sender", n)
	data := vfBytes("data", []int{0, 1, 40}[vfChoice("len", 3)])
	msg, err := ms[s].group.CreateApplicationMessage(data)
	vfAssert(err == nil, "message creation succeeds")
	for _, m := range ms {
		out, err := m.group.UnmarshalAndProcessMessage(msg)
		vfAssert(err == nil, "member accepts the message")
		vfAssert(vfEqual(out, data), "member reads what was sent")
	}
	vfReach("end")
}

// Messages of the library are those of RFC 9420, so other implementations
// read them.
func vfH_C13_peer() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfShared(cs, 1+vfChoice("lib", 2), vfChoice("ref", 3))
	data := vfBytes("data", []int{0, 1, 63, 64, 70}[vfChoice("len", 5)])
	for _, m := range x.members() {
		msg, err := m.group.CreateApplicationMessage(data)
		vfAssert(err == nil, "message creation succeeds")
		f, sd, ok := x.g.open(msg)
		vfAssert(ok && f.ct == 1 && vfEqual(f.body, data), "the peer reads what was sent")
		vfAssert(x.lib[int(sd.leaf)] == m, "the message names its sender")
	}
	vfReach("end")
}

// Messages of the peer with any generation, padding and authenticated data.
func vfH_C13_fromPeer() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfShared(cs, 1, 2*vfChoice("ref", 2))
	f := x.g.frame(1, vfBytes("data", 2*vfChoice("len", 2)), 2)
	f.aad = vfBytes("aad", vfChoice("aadlen", 2))
	f.padding = vfBytes("padding", vfChoice("padlen", vfBound("padlen", 4, 8)))
	x.g.sign(f)
	sd := x.g.sender(uint32(vfChoice("gen", vfBound("gen", 4, 8))))
	sd.guard = vfBytes("guard", 4)
	zero := true
	for _, p := range f.padding {
		zero = vfAnd(zero, p == 0)
	}
	msg := x.g.private(f, sd)
	for _, m := range x.members() {
		out, err := m.group.UnmarshalAndProcessMessage(msg)
		vfAssert((err == nil) == zero, "accepted exactly if the padding is zero")
		if err == nil {
			vfAssert(vfEqual(out, f.body), "member reads what was sent")
		} else {
			vfAssert(out == nil, "no data with an error")
		}
	}
	vfReach("end")
}

func vfRejects(m *vfMember, msg []byte, what string) {
	out, err := m.group.UnmarshalAndProcessMessage(msg)
	vfAssert(err != nil && out == nil, what)
}

// Any altered byte other than a length; lengths are altered below.
func vfH_C13_altered() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	ms := vfGroup(cs, 2)
	msg, err := ms[0].group.CreateApplicationMessage(vfBytes("data", 2))
	vfAssert(err == nil, "message creation succeeds")
	pos := vfChoice("pos", len(msg))
	in := rIn{b: msg[4:]}
	at := 4
	for i := 0; i < 4; i++ {
		before := len(in.b)
		v := in.vec()
		head := before - len(in.b) - len(v)
		vfAssume(pos < at || pos >= at+head)
		at += head + len(v)
		if i == 0 {
			in.take(9)
			at += 9
		}
	}
	vfAssert(!in.bad && at == len(msg), "the message is well-formed")
	d := vfU8("delta")
	vfAssume(d != 0)
	msg[pos] ^= d
	// reading the rest as another kind of message is left to C04 and C14
	vfAssume(pos != 3 || msg[3] == 0 || msg[3] > 5)
	vfRejects(ms[1], msg, "an altered message is rejected")
	vfReach("end")
}

// Any field replaced, with correct lengths around it.
func vfH_C13_fields() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	ms := vfGroup(cs, 2)
	msg, err := ms[0].group.CreateApplicationMessage(vfBytes("data", 2))
	vfAssert(err == nil, "message creation succeeds")
	in := rIn{b: msg[4:]}
	id := in.vec()
	epoch := in.u64()
	ct := in.u8()
	f := [3][]byte{in.vec(), in.vec(), in.vec()}
	vfAssert(!in.bad && len(in.b) == 0 && ct == 1, "the message is well-formed")
	switch which := vfChoice("which", 6); which {
	case 0:
		n := vfChoice("n", 8)
		other := vfBytes("id", n)
		vfAssume(!vfEqual(other, id))
		id = other
	case 1:
		e := vfU64("epoch")
		vfAssume(e != epoch)
		epoch = e
	case 2:
		ct = uint8(2 + vfChoice("ct", 2))
	default:
		b := f[which-3]
		switch vfChoice("how", 3) {
		case 0:
			b = b[:vfChoice("cut", len(b)+1)]
		case 1:
			b = rCat(b, vfBytes("extra", 1+vfChoice("n", 2)))
		case 2:
			b = vfBytes("new", len(b))
		}
		vfAssume(!vfEqual(b, f[which-3]))
		f[which-3] = b
	}
	msg = rCat(msg[:4], rVec(id), rU64(epoch), rU8(ct), rVec(f[0]), rVec(f[1]), rVec(f[2]))
	vfRejects(ms[1], msg, "a message with a replaced field is rejected")
	vfReach("end")
}

// Cut short or extended.
func vfH_C13_cut() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 1, 4))]
	ms := vfGroup(cs, 2)
	msg, err := ms[0].group.CreateApplicationMessage(vfBytes("data", 2))
	vfAssert(err == nil, "message creation succeeds")
	n := vfChoice("cut", len(msg)+2)
	if n < len(msg) {
		msg = msg[:n]
	} else {
		msg = rCat(msg, vfBytes("extra", n-len(msg)+1))
	}
	vfRejects(ms[1], msg, "a message cut short or extended is rejected")
	vfReach("end")
}

// Other epochs, other groups and people who left.
func vfH_C13_elsewhere() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	ms := vfGroup(cs, 2)
	data := vfBytes("data", 3)
	old, err := ms[vfChoice("from", 2)].group.CreateApplicationMessage(data)
	vfAssert(err == nil, "message creation succeeds")
	switch vfChoice("how", 4) {
	case 0:
		for _, m := range vfAdd(ms, 0, 1) {
			vfRejects(m, old, "a message of the previous epoch is rejected")
		}
	case 1:
		other := vfGroup(cs, 2)
		for _, m := range other {
			vfRejects(m, old, "a message of another group with the same name is rejected")
		}
	case 2:
		// member 1 stays behind; the epoch number is made to match
		c := vfNewMember(cs, "c")
		_, msg, err := ms[0].group.CreateWelcome([]KeyPackage{c.kpp.Public})
		vfAssert(err == nil, "welcome creation succeeds")
		vfAssert(ms[0].recv(msg) == nil, "own commit is processed")
		fut, err := ms[0].group.CreateApplicationMessage(data)
		vfAssert(err == nil, "message creation succeeds")
		vfRejects(ms[1], fut, "a message of a later epoch is rejected")
		fut[4+1+5+7] = vfU8("epoch")
		vfRejects(ms[1], fut, "a message of a later epoch with a changed epoch number is rejected")
	case 3:
		// a member of another group presents the message under its own name
		m := vfNewMember(cs, "x")
		m.group, err = CreateGroup(GroupID("other"), m.kpp)
		vfAssert(err == nil, "group creation succeeds")
		vfRejects(m, old, "a message of another group is rejected")
		old[4+1+5+7] = 0
		copy(old[5:], "other")
		vfRejects(m, old, "a message of another group with changed header is rejected")
	}
	vfReach("end")
}

// A removed member cannot read what is sent afterwards.
func vfH_C13_removed() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfShared(cs, 2, vfChoice("ref", 2))
	var gone int
	for i := range x.g.tree {
		if x.lib[i] != nil {
			gone = i
		}
	}
	m := x.lib[gone]
	c := x.g.commit([][]byte{rByValue(rRemove(uint32(gone)))}, []rChange{{remove: gone}}).withPath().finish(1)
	msg := c.message()
	vfAssert(m.recv(msg) != nil, "the removed member cannot follow the commit")
	x.deliver(c)
	x.agree()
	vfRejects(m, x.g.application([]byte("secret")), "a removed member cannot read")
	a := x.g.application([]byte("secret"))
	e := vfU8("epoch")
	a[4+1+5+7] = e
	vfRejects(m, a, "a removed member cannot read with changed epoch number")
	vfReach("end")
}

const vfForgeries = 22

// Messages that are encrypted correctly but not authentic, or made for
// another group or epoch.
func vfH_C13_forged() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfShared(cs, 1, 2)
	g := x.g
	liar := x.as(1)
	kind := vfChoice("kind", 3)
	how := vfChoice("how", vfForgeries)
	var f *rFrame
	var c *rCommit
	switch kind {
	case 0:
		f = g.frame(1, vfBytes("data", 2), 2)
	case 1:
		f = g.frame(2, rRemove(2), 2)
	case 2:
		k := rKeyPackage(g.s, "new")
		c = g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}}).finish(2)
		f = c.frame
	}
	f.aad = vfBytes("aad", 1)
	sd := g.sender(uint32(vfChoice("gen", 2)))
	switch how {
	case 17: // another epoch or group, consistently
		f.epoch = vfU64("epoch")
		vfAssume(f.epoch != g.epoch)
	case 18:
		f.id = vfBytes("id", 2*vfChoice("idlen", 5))
		vfAssume(!vfEqual(f.id, g.id))
	}
	signed := *f
	signer, ctx, label := g.sigPriv, g.context(), "FramedContentTBS"
	switch how {
	case 1:
		signer = liar.sigPriv
	case 2:
		signed.body = vfFlip(f.body)
	case 3:
		signed.aad = vfFlip(f.aad)
	case 4:
		signed.epoch = vfU64("epoch")
		vfAssume(signed.epoch != f.epoch)
	case 5:
		signed.id = vfFlip(f.id)
	case 6:
		signed.sender = vfU32("leaf")
		vfAssume(signed.sender != f.sender)
	case 7:
		ctx = vfFlip(ctx)
	case 8:
		signed.wire = 1
	case 9:
		signed.ct = f.ct%3 + 1
	case 10:
		label = "FramedContentTBM"
	case 11:
		sd.leaf = 1 // keys of leaf 0, claims to be leaf 1
	case 12:
		sd.leaf = 1
		sd.useLeaf = 1 // keys of leaf 1, signed by leaf 0
	case 13:
		sd.useGen = sd.gen + 1
	case 14:
		sd.leaf = vfU32("leaf") // leaves that do not exist
		vfAssume(sd.leaf > 3)
	case 15:
		signed.stype = 4
	case 16:
		signed.body = append(append([]byte(nil), f.body...), 0)
	}
	f.sig = g.s.sign(signer, label, signed.tbs(ctx))
	switch how {
	case 19:
		f.sig = vfFlip(f.sig)
	case 20:
		f.sig = nil
	case 21:
		f.sig = append(append([]byte(nil), f.sig...), vfU8("extra"))
	}
	if c != nil {
		c.schedule()
	}
	msg := g.private(f, sd)
	for _, m := range x.members() {
		if how == 0 {
			out, err := m.group.UnmarshalAndProcessMessage(msg)
			vfAssert(err == nil, "the honest message is accepted")
			vfAssert(kind != 0 || vfEqual(out, f.body), "the honest message is read")
			vfAssert(kind == 0 || out == nil, "handshake messages carry no data")
		} else {
			vfRejects(m, msg, "a forged message is rejected")
		}
	}
	if c != nil && how == 0 {
		x.g = c.next
	}
	x.agree()
	vfReach("end")
}

// Groups with any epoch number and long names.
func vfH_C13_epoch() {
	x := vfAged(vfSuites[vfChoice("suite", len(vfSuites))])
	data := vfBytes("data", 2)
	m := x.members()[0]
	out, err := m.group.UnmarshalAndProcessMessage(x.g.application(data))
	vfAssert(err == nil && vfEqual(out, data), "member reads what was sent")
	msg, err := m.group.CreateApplicationMessage(data)
	vfAssert(err == nil, "message creation succeeds")
	f, _, ok := x.g.open(msg)
	vfAssert(ok && vfEqual(f.body, data), "the peer reads what was sent")
	for _, o := range x.members()[1:] {
		out, err := o.group.UnmarshalAndProcessMessage(msg)
		vfAssert(err == nil && vfEqual(out, data), "members read what was sent")
	}
	vfReach("end")
}

// Messages that are delivered late and out of order.
func vfH_C13_queued() { vfQueued() }

// Payloads, padding and authenticated data of all sizes.
func vfH_C13_sizes() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfShared(cs, 1, 1)
	m := x.members()[0]
	n := []int{255, 256, 1000, 4096, 5000, 16383, 16384, 65535, 65536, 70000}[vfChoice("len", 10)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i % 251)
	}
	at := []int{0, n / 2, n - 1}[vfChoice("at", 3)]
	data[at] = vfU8("byte")
	switch vfChoice("to", 4) {
	case 2: // long padding
		f := x.g.frame(1, []byte("text"), 2)
		x.g.sign(f)
		f.padding = make([]byte, n)
		f.padding[at] = data[at]
		out, err := m.group.UnmarshalAndProcessMessage(x.g.private(f, x.g.sender(0)))
		vfAssert((err == nil) == (data[at] == 0), "accepted exactly if the padding is zero")
		vfAssert(err != nil || vfEqual(out, f.body), "member reads what was sent")
	case 3: // long authenticated data
		f := x.g.frame(1, []byte("text"), 2)
		f.aad = data
		x.g.sign(f)
		msg := x.g.private(f, x.g.sender(0))
		altered := vfChoice("altered", 2) == 1
		if altered {
			d := vfU8("delta")
			vfAssume(d != 0)
			in := rIn{b: msg[4:]}
			in.vec()
			in.u64()
			in.u8()
			in.vec()[at] ^= d
		}
		out, err := m.group.UnmarshalAndProcessMessage(msg)
		vfAssert((err == nil) == !altered, "accepted exactly if authentic")
		vfAssert(err != nil || vfEqual(out, f.body), "member reads what was sent")
	case 0:
		out, err := m.group.UnmarshalAndProcessMessage(x.g.application(data))
		vfAssert(err == nil && vfEqual(out, data), "member reads what was sent")
	case 1:
		msg, err := m.group.CreateApplicationMessage(data)
		vfAssert(err == nil, "message creation succeeds")
		f, _, ok := x.g.open(msg)
		vfAssert(ok && vfEqual(f.body, data), "the peer reads what was sent")
	}
	vfReach("end")
}

// Keys of one purpose are not accepted for another, and sender data of one
// message does not fit another message.
func vfH_C13_mixed() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfShared(cs, 1, 1)
	g, s := x.g, x.g.s
	f := g.frame(1, vfBytes("data", 2), 2)
	g.sign(f)
	how := vfChoice("how", 8)
	sd := g.sender(0)
	plain := rCat(rVec(f.body), f.auth())
	key, nonce := g.ratchet(g.me, 1, 0)
	if how == 1 {
		key, nonce = g.ratchet(g.me, 3, 0)
	}
	for i := 0; i < 4; i++ {
		nonce[i] ^= sd.guard[i]
	}
	if how == 2 {
		nonce = vfFlip(nonce)
	}
	head := rCat(rVec(f.id), rU64(f.epoch), rU8(f.ct))
	aad := rCat(head, rVec(f.aad))
	if how == 3 {
		aad = head
	}
	ct := s.aeadSeal(key, nonce, plain, aad)
	sample := ct
	if how == 4 {
		sample = vfFlip(ct[:s.nh])
	}
	k, n := g.senderKeys(sample)
	if how == 5 {
		head = rCat(head, rVec(f.aad))
	}
	sdb := sd.bytes()
	switch how {
	case 6:
		sdb = rCat(sdb, vfBytes("extra", 1+vfChoice("n", 3)))
	case 7:
		sdb = sdb[:vfChoice("n", len(sdb))]
	}
	sdct := s.aeadSeal(k, n, sdb, head)
	head = rCat(rVec(f.id), rU64(f.epoch), rU8(f.ct))
	msg := rCat(rU16(1), rU16(2), head, rVec(f.aad), rVec(sdct), rVec(ct))
	for _, m := range x.members() {
		if how == 0 {
			out, err := m.group.UnmarshalAndProcessMessage(msg)
			vfAssert(err == nil && vfEqual(out, f.body), "the honest message is accepted")
		} else {
			vfRejects(m, msg, "a wrongly encrypted message is rejected")
		}
	}
	vfReach("end")
}
