package mls

// vfContext is any group context, as the library and the peer see it.
func vfContext(s *rSuite) (*groupContext, []byte) {
	var exts []byte
	if vfChoice("exts", 2) == 1 {
		exts = rCat(rU16(vfU16("exttype")), rVec(vfBytes("ext", 2)))
	}
	raw := rContext(s, vfBytes("id", []int{0, 3, 300}[vfChoice("idlen", 3)]), vfU64("epoch"), vfBytes("treehash", s.nh), vfBytes("confirmed", s.nh), exts)
	ctx := new(groupContext)
	vfAssert(unmarshal(raw, ctx) == nil, "a group context is decoded")
	return ctx, raw
}

func vfOK(b []byte, err error) []byte {
	vfAssert(err == nil, "the derivation succeeds")
	return b
}

// Secrets of an epoch.
func vfH_C11_secrets() {
	s := rSuiteOf(vfSuites[vfChoice("suite", len(vfSuites))])
	ctx, raw := vfContext(s)
	init, commit := vfBytes("init", s.nh), vfBytes("commit", s.nh)
	psk := vfBytes("psk", s.nh)
	joiner := vfOK(ctx.extractJoinerSecret(init, commit))
	want := s.expand(s.extract(init, commit), "joiner", raw, s.nh)
	vfAssert(vfEqual(joiner, want), "the joiner secret is that of the definition")
	vfAssert(vfEqual(vfOK(extractWelcomeSecret(s.id, joiner, psk)), s.derive(s.extract(joiner, psk), "welcome")), "the welcome secret is that of the definition")
	epoch := vfOK(ctx.extractEpochSecret(joiner, psk))
	vfAssert(vfEqual(epoch, s.expand(s.extract(joiner, psk), "epoch", raw, s.nh)), "the epoch secret is that of the definition")
	vfAssert(vfEqual(vfOK(extractWelcomeSecret(s.id, joiner, nil)), s.derive(s.extract(joiner, s.zero()), "welcome")), "without PSK the welcome secret uses zeros")
	vfAssert(vfEqual(vfOK(ctx.extractEpochSecret(joiner, nil)), s.expand(s.extract(joiner, s.zero()), "epoch", raw, s.nh)), "without PSK the epoch secret uses zeros")
	vfReach("end")
}

// Labels of the secrets of an epoch.
func vfH_C11_labels() {
	s := rSuiteOf(vfSuites[vfChoice("suite", len(vfSuites))])
	sec := vfBytes("secret", s.nh)
	libs := [][]byte{
		secretLabelInit, secretLabelSenderData, secretLabelEncryption, secretLabelExporter, secretLabelExternal,
		secretLabelConfirm, secretLabelMembership, secretLabelResumption, secretLabelAuthentication,
	}
	names := []string{"init", "sender data", "encryption", "exporter", "external", "confirm", "membership", "resumption", "authentication"}
	var got [][]byte
	for i, l := range libs {
		b := vfOK(s.id.deriveSecret(sec, l))
		vfAssert(vfEqual(b, s.derive(sec, names[i])), "the secret is that of the definition")
		for _, o := range got {
			vfAssert(!vfEqual(b, o), "secrets of different labels differ")
		}
		got = append(got, b)
	}
	vfReach("end")
}

// Labelled expansion with any label, context and length.
func vfH_C11_expand() {
	s := rSuiteOf(vfSuites[vfChoice("suite", len(vfSuites))])
	lens := []int{0, 1, 5, 55, 56, 200}
	sec := vfBytes("secret", s.nh)
	label := vfBytes("label", lens[vfChoice("label", len(lens))])
	ctx := vfBytes("ctx", lens[vfChoice("ctxlen", len(lens))])
	n := []int{1, 12, s.nh, s.nh + 1, 255}[vfChoice("len", 5)]
	got := vfOK(s.id.expandWithLabel(sec, label, ctx, uint16(n)))
	vfAssert(vfEqual(got, s.expand(sec, string(label), ctx, n)), "labelled expansion is that of the definition")
	vfReach("end")
}

// vfLengthy is a byte string of n bytes of which two may be anything.
func vfLengthy(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i % 251)
	}
	b[0], b[n-1] = vfU8(name+"0"), vfU8(name+"1")
	return b
}

// Long labels, contexts and results.
func vfH_C11_long() {
	s := rSuiteOf(vfSuites[vfChoice("suite", len(vfSuites))])
	lens := []int{3, 255, 256, 300, 16383, 16384, 70000}
	sec := vfBytes("secret", s.nh)
	var label, ctx []byte
	if vfChoice("which", 2) == 0 {
		label, ctx = vfLengthy("label", lens[vfChoice("len", len(lens))]), vfBytes("ctx", 2)
	} else {
		label, ctx = vfBytes("label", 2), vfLengthy("ctx", lens[vfChoice("len", len(lens))])
	}
	n := []int{s.nh, 256, 257, 1000, 255 * s.nh}[vfChoice("n", 5)]
	got := vfOK(s.id.expandWithLabel(sec, label, ctx, uint16(n)))
	vfAssert(vfEqual(got, s.expand(sec, string(label), ctx, n)), "labelled expansion is that of the definition")
	got = vfOK(deriveExporter(s.id, sec, label, ctx, uint16(n)))
	vfAssert(vfEqual(got, s.expand(s.derive(sec, string(label)), "exported", s.hash(ctx), n)), "the exporter is that of the definition")
	vfReach("end")
}

// Every input matters: different inputs give different results.
func vfH_C11_inputs() {
	s := rSuiteOf(vfSuites[vfChoice("suite", vfBound("suites", 2, 4))])
	ctx, raw := vfContext(s)
	ctx2, raw2 := vfContext(s)
	a, b := vfBytes("a", s.nh), vfBytes("b", s.nh)
	a2, b2 := vfBytes("a2", s.nh), vfBytes("b2", s.nh)
	same := vfAnd(vfEqual(a, a2), vfEqual(b, b2))
	eq := vfEqual(vfOK(ctx.extractJoinerSecret(a, b)), vfOK(ctx2.extractJoinerSecret(a2, b2)))
	vfAssert(vfImplies(eq, vfAnd(same, vfEqual(raw, raw2))), "joiner secrets of different inputs differ")
	eq = vfEqual(vfOK(ctx.extractEpochSecret(a, b)), vfOK(ctx2.extractEpochSecret(a2, b2)))
	vfAssert(vfImplies(eq, vfAnd(same, vfEqual(raw, raw2))), "epoch secrets of different inputs differ")
	eq = vfEqual(vfOK(extractWelcomeSecret(s.id, a, b)), vfOK(extractWelcomeSecret(s.id, a2, b2)))
	vfAssert(vfImplies(eq, same), "welcome secrets of different inputs differ")
	vfAssert(!vfEqual(vfOK(ctx.extractJoinerSecret(a, b)), vfOK(ctx2.extractEpochSecret(a2, b2))), "joiner and epoch secrets differ")
	vfReach("end")
}

func vfH_C11_exporter() {
	s := rSuiteOf(vfSuites[vfChoice("suite", len(vfSuites))])
	lens := []int{0, 1, 70}
	sec := vfBytes("secret", s.nh)
	label := vfBytes("label", lens[vfChoice("label", len(lens))])
	ctx := vfBytes("ctx", lens[vfChoice("ctxlen", len(lens))])
	n := []int{1, s.nh, 2*s.nh + 1}[vfChoice("len", 3)]
	got := vfOK(deriveExporter(s.id, sec, label, ctx, uint16(n)))
	want := s.expand(s.derive(sec, string(label)), "exported", s.hash(ctx), n)
	vfAssert(vfEqual(got, want), "the exporter is that of the definition")
	sec2, label2, ctx2 := vfBytes("secret2", s.nh), vfBytes("label2", len(label)), vfBytes("ctx2", len(ctx))
	vfAssume(n >= s.nh)
	other := vfOK(deriveExporter(s.id, sec2, label2, ctx2, uint16(n)))
	vfAssert(vfImplies(vfEqual(got, other), vfAnd(vfEqual(sec, sec2), vfAnd(vfEqual(label, label2), vfEqual(ctx, ctx2)))), "exports of different inputs differ")
	vfReach("end")
}

// vfPSKs is any list of PSK identities and values.
func vfPSKs(n int, sz int) (ids []preSharedKeyID, raw, psks [][]byte) {
	for i := 0; i < n; i++ {
		var id []byte
		switch vfChoice("psktype", 2) {
		case 0:
			id = rCat(rU8(1), rVec(vfBytes("pskid", 1+vfChoice("pskidlen", 2))))
		case 1:
			id = rCat(rU8(2), rU8(uint8(1+vfChoice("usage", 3))), rVec(vfBytes("pskgroup", 1)), rU64(vfU64("pskepoch")))
		}
		id = rCat(id, rVec(vfBytes("nonce", 2)))
		var p preSharedKeyID
		vfAssert(unmarshal(id, &p) == nil, "a PSK identity is decoded")
		ids = append(ids, p)
		raw = append(raw, id)
		psks = append(psks, vfBytes("psk", sz))
	}
	return ids, raw, psks
}

func rPSKSecret(s *rSuite, raw, psks [][]byte) []byte {
	sec := s.zero()
	for i := range raw {
		label := rCat(raw[i], rU16(uint16(i)), rU16(uint16(len(raw))))
		sec = s.extract(s.expand(s.extract(s.zero(), psks[i]), "derived psk", label, s.nh), sec)
	}
	return sec
}

func vfH_C11_psk() {
	s := rSuiteOf(vfSuites[vfChoice("suite", len(vfSuites))])
	n := vfChoice("n", vfBound("n", 4, 5))
	ids, raw, psks := vfPSKs(n, []int{0, 1, 32, 70, 140}[vfChoice("len", 5)])
	vfAssert(vfEqual(vfOK(extractPSKSecret(s.id, ids, psks)), rPSKSecret(s, raw, psks)), "the PSK secret is that of the definition")
	if n > 0 {
		_, err := extractPSKSecret(s.id, ids[:n-1], psks)
		vfAssert(err != nil, "every PSK has an identity")
		_, err = extractPSKSecret(s.id, ids, psks[:n-1])
		vfAssert(err != nil, "every identity has a PSK")
	}
	vfReach("end")
}

func vfH_C11_pskInputs() {
	s := rSuiteOf(vfSuites[0])
	ids, raw, psks := vfPSKs(vfChoice("n", 3), 8)
	ids2, raw2, psks2 := vfPSKs(vfChoice("n", 3), 8)
	same := len(raw) == len(raw2)
	if same {
		for i := range raw {
			same = vfAnd(same, vfAnd(vfEqual(raw[i], raw2[i]), vfEqual(psks[i], psks2[i])))
		}
	}
	eq := vfEqual(vfOK(extractPSKSecret(s.id, ids, psks)), vfOK(extractPSKSecret(s.id, ids2, psks2)))
	vfAssert(vfImplies(eq, same), "PSK secrets of different lists differ")
	vfReach("end")
}

// Transcript hashes.
func vfH_C11_transcript() {
	s := rSuiteOf(vfSuites[vfChoice("suite", len(vfSuites))])
	f := &rFrame{id: vfBytes("id", 2), epoch: vfU64("epoch"), stype: 1, sender: vfU32("sender"), aad: vfBytes("aad", []int{0, 1, 300}[vfChoice("aadlen", 3)]), ct: 3, wire: uint16(1 + vfChoice("wire", 2))}
	f.body = rCat(rVec(rByValue(rRemove(vfU32("removed")))), rOpt(nil))
	if vfChoice("sender", 2) == 1 {
		f.stype = 4
	}
	f.sig = vfBytes("sig", []int{0, 1, 64}[vfChoice("siglen", 3)])
	f.tag = vfBytes("tag", s.nh)
	raw := rCat(rU16(f.wire), f.content(), f.auth())
	var ac authenticatedContent
	vfAssert(unmarshal(raw, &ac) == nil, "authenticated content is decoded")
	before := vfBytes("before", s.nh*vfChoice("first", 2))
	confirmed := vfOK(ac.confirmedTranscriptHashInput().hash(s.id, before))
	vfAssert(vfEqual(confirmed, s.hash(before, rU16(f.wire), f.content(), rVec(f.sig))), "the confirmed transcript hash is that of the definition")
	tag := vfBytes("conf", s.nh)
	interim := vfOK(nextInterimTranscriptHash(s.id, confirmed, tag))
	vfAssert(vfEqual(interim, s.hash(confirmed, rVec(tag))), "the interim transcript hash is that of the definition")
	vfReach("end")
}

// The confirmation tag.
func vfH_C11_confirmation() {
	s := rSuiteOf(vfSuites[vfChoice("suite", len(vfSuites))])
	ctx, _ := vfContext(s)
	sec := vfBytes("secret", s.nh)
	tag := vfOK(ctx.signConfirmationTag(sec))
	vfAssert(vfEqual(tag, s.mac(s.derive(sec, "confirm"), ctx.confirmedTranscriptHash)), "the confirmation tag is that of the definition")
	vfReach("end")
}

func vfH_C11_verifyTag() {
	s := rSuiteOf(vfSuites[vfChoice("suite", len(vfSuites))])
	key, hash := vfBytes("key", s.nh), vfBytes("hash", s.nh)
	want := s.mac(key, hash)
	tag := want
	switch vfChoice("how", 4) {
	case 1:
		tag = vfBytes("tag", s.nh)
	case 2:
		tag = want[:vfChoice("cut", s.nh)]
	case 3:
		tag = rCat(want, vfBytes("more", 1))
	}
	f := &rFrame{stype: 1, ct: 3, wire: 1, body: rCat(rVec(), rOpt(nil)), tag: tag}
	var ac authenticatedContent
	vfAssert(unmarshal(rCat(rU16(1), f.content(), f.auth()), &ac) == nil, "authenticated content is decoded")
	vfAssert(ac.auth.verifyConfirmationTag(s.id, key, hash) == vfEqual(tag, want), "a tag is accepted exactly if it is the right one")
	vfReach("end")
}

// PSKs given by the application are mixed into the epoch of a commit.
func vfH_C11_commit() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfShared(cs, 1, 1)
	g := x.g
	n := 1 + vfChoice("n", 2)
	ids, raw, psks := vfPSKs(n, 8)
	if n == 2 {
		vfAssume(!vfEqual(raw[0], raw[1]))
	}
	var list [][]byte
	for i := range raw {
		vfAssume(raw[i][0] == 1)
		list = append(list, rByValue(rCat(rU16(4), raw[i])))
	}
	c := g.commit(list, nil)
	if vfChoice("path", 2) == 1 {
		c.withPath()
	}
	c.finish(1)
	sec := g.s.zero()
	if c.path != nil {
		sec = c.path.last
	}
	c.next = g.next(c.tree, c.frame, sec, rPSKSecret(g.s, raw, psks))
	c.frame.tag = c.next.tag
	given := psks
	how := vfChoice("how", 3)
	switch how {
	case 1:
		given = append([][]byte(nil), psks...)
		given[n-1] = vfFlip(psks[n-1])
	case 2:
		given = [][]byte{psks[n-1], psks[0]}[:n]
		vfAssume(n == 2 && !vfEqual(psks[0], psks[1]))
	}
	m := x.members()[0]
	in := rIn{b: c.message()[4:]}
	var pub publicMessage
	vfAssert(unmarshal(in.b, &pub) == nil, "a public message is decoded")
	ac, err := m.group.verifyPublicMessage(&pub)
	vfAssert(err == nil, "the message is authentic")
	err = m.group.processCommit(ac, ids, given, nil)
	vfAssert((err == nil) == (how == 0), "the commit is accepted exactly with the right PSKs")
	if err == nil {
		x.g = c.next
	}
	x.agree()
	x.refresh()
	x.agree()
	vfReach("end")
}

// As members see it: every input of the schedule is chained through epochs.
func vfH_C11_members() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfShared(cs, 1, 1)
	for i := 0; i < vfBound("epochs", 3, 5); i++ {
		switch vfChoice("kind", 3) {
		case 0:
			x.refresh()
		case 1:
			x.invite(x.members()[0], 1)
		case 2:
			k := rKeyPackage(x.g.s, "new")
			x.deliver(x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}}).withPath().finish(2))
		}
		x.agree()
	}
	vfReach("end")
}
