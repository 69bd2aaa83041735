package mls

// Invitations by the library.
func vfH_C19_invited() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfShared(cs, 1+vfChoice("lib", 2), vfChoice("ref", 3))
	ms := x.members()
	inviter := ms[vfChoice("inviter", len(ms))]
	n := 1 + vfChoice("n", 3)
	var js []*vfMember
	var kps []KeyPackage
	for i := 0; i < n; i++ {
		js = append(js, vfNewMember(cs, string(rune('A'+i))))
		kps = append(kps, js[i].kpp.Public)
	}
	w, msg, err := inviter.group.CreateWelcome(kps)
	vfAssert(err == nil, "welcome creation succeeds")
	refs := w.NewMembers()
	vfAssert(len(refs) == n, "all invitees are listed")
	for i, r := range refs {
		vfAssert(vfEqual(r, js[i].rkp().ref()), "invitees are listed by reference")
	}
	raw := w.Bytes()
	w2, err := UnmarshalWelcome(raw)
	vfAssert(err == nil && vfEqual(w2.Bytes(), raw), "the welcome decodes to itself")
	// the reference peer joins as well as the library
	peer, ok := rJoin(js[0].rkp(), raw)
	vfAssert(ok, "the welcome follows the standard")
	vfAssert(x.g.follow(msg), "the commit follows the standard")
	vfAssert(vfEqual(peer.epochSecret, x.g.epochSecret) && vfEqual(peer.interim, x.g.interim) && vfEqual(peer.context(), x.g.context()), "both lead to the same state")
	for _, m := range ms {
		vfAssert(m.recv(msg) == nil, "members accept the invitation")
	}
	for _, j := range js {
		vfAssert(j.join(raw) == nil, "every invitee joins")
		for i := 0; i < x.g.tree.leaves(); i++ {
			if l := x.g.tree.leaf(i); l != nil && vfEqual(l.enc, j.rkp().leaf.enc) {
				x.lib[i] = j
			}
		}
	}
	vfAssert(len(x.lib) == len(ms)+n, "every invitee has a leaf")
	x.agree()
	// and later commits with a path are for everybody
	x.refresh()
	x.agree()
	vfReach("end")
}

// Whoever is not invited, or lacks the keys, cannot join.
func vfH_C19_strangers() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	a := vfGroup(cs, 1)[0]
	j := vfNewMember(cs, "j")
	w, _, err := a.group.CreateWelcome([]KeyPackage{j.kpp.Public})
	vfAssert(err == nil, "welcome creation succeeds")
	raw := w.Bytes()
	o := vfNewMember(cs, "o")
	m := *j.kpp
	switch vfChoice("how", 6) {
	case 0:
		m = *o.kpp
	case 1: // somebody else's private keys
		m.Private = o.kpp.Private
	case 2:
		m.Private.InitKey = o.kpp.Private.InitKey
	case 3: // a package with the same keys that was not the one invited
		k := j.rkp()
		k.leaf.cred = rBasic([]byte("J"))
		k.signAll()
		m = *vfMemberOf(k).kpp
	case 4: // only the outer part differs
		k := j.rkp()
		k.exts = rCat(rU16(0xff00), rVec())
		k.signOuter()
		m = *vfMemberOf(k).kpp
	case 5: // the reference of the invitee replaced by one's own
		k := o.rkp()
		raw = rReplace(raw, j.rkp().ref(), k.ref())
		m = *o.kpp
	}
	s := &vfMember{cs: cs, kpp: &m}
	vfAssert(s.join(raw) != nil, "others cannot join")
	vfReach("end")
}

// rReplace replaces the one place where old occurs.
func rReplace(b, old, new []byte) []byte {
	for i := 0; i+len(old) <= len(b); i++ {
		if vfEqual(b[i:i+len(old)], old) {
			return rCat(b[:i], new, b[i+len(old):])
		}
	}
	vfAssert(false, "old value not found")
	return nil
}

const vfWelcomeForgeries = 51

// vfForgeWelcome makes a welcome for invitee 0 of the commit that deviates
// from the honest one (how 0) in one respect.
func (x *vfMixed) vfForgeWelcome(c *rCommit, how int) []byte {
	g, s := c.next, c.next.s
	info := g.info()
	resign := func() { info.sig = s.sign(g.sigPriv, "GroupInfoTBS", info.tbs()) }
	ctx := func(id []byte, epoch uint64, th, confirmed, exts []byte) {
		info.ctx = rContext(s, id, epoch, th, confirmed, exts)
		resign()
	}
	sec := *c.invite(0)
	id := g.id
	th := g.tree.root(s)
	// stage 1: the group info before it is encrypted
	switch how {
	case 1:
		info.sig = vfFlip(info.sig)
	case 2:
		info.sig = nil
	case 3: // signed by another member
		info.sig = s.sign(x.keys[1].sigPriv, "GroupInfoTBS", info.tbs())
	case 4:
		info.sig = s.sign(g.sigPriv, "LeafNodeTBS", info.tbs())
	case 5: // signature of somebody else claimed to be 1's
		info.signer = 1
		resign()
	case 6:
		info.signer = vfU32("signer")
		vfAssume(info.signer != uint32(g.me))
		resign()
	case 7: // signer changed after signing
		info.signer = vfU32("signer")
		vfAssume(info.signer != uint32(g.me))
	case 8:
		ctx(vfFlip(id), g.epoch, th, g.confirmed, nil)
	case 9:
		e := vfU64("epoch")
		vfAssume(e != g.epoch)
		ctx(id, e, th, g.confirmed, nil)
	case 10:
		ctx(id, g.epoch, vfFlip(th), g.confirmed, nil)
	case 11:
		ctx(id, g.epoch, th, vfFlip(g.confirmed), nil)
	case 12:
		ctx(id, g.epoch, th, g.confirmed, rCat(rU16(0xff00), rVec()))
	case 13:
		info.tag = vfFlip(info.tag)
		resign()
	case 14:
		info.tag = nil
		resign()
	case 15: // the tag of the previous epoch
		info.tag = c.g.tag
		resign()
	case 16:
		info.ctx = rCat(rU16(vfU16("version")), info.ctx[2:])
		vfAssume(info.ctx[0] != 0 || info.ctx[1] != 1)
		resign()
	case 17:
		v := vfU16("suite")
		vfAssume(v != uint16(s.id))
		info.ctx = rCat(info.ctx[:2], rU16(v), info.ctx[4:])
		resign()
	case 18: // changed after signing
		info.exts = rCat(info.exts, rU16(0xff00), rVec())
	case 19:
		ctx(id, g.epoch, th, nil, nil)
	case 47: // surplus bytes behind the tree
		info.exts = rCat(rU16(2), rVec(g.tree.bytes(), vfBytes("extra", 1)))
		resign()
	case 48: // a tree cut short
		b := g.tree.bytes()
		info.exts = rCat(rU16(2), rVec(b[:len(b)-1]))
		resign()
	case 49: // no tree
		info.exts = nil
		resign()
	case 20: // previous group info
		old := c.g.info()
		info = old
	}
	ei := g.sealInfo(info)
	// stage 2: encryption of the group info
	w := s.derive(s.extract(g.joiner, g.psk), "welcome")
	key, nonce := s.expand(w, "key", nil, s.nk), s.expand(w, "nonce", nil, s.nn)
	switch how {
	case 21:
		ei = rCat(ei[:len(ei)-40], vfFlip(ei[len(ei)-40:]))
	case 22:
		ei = ei[:len(ei)-1]
	case 23:
		ei = nil
	case 24:
		ei = s.aeadSeal(vfFlip(key), nonce, info.bytes(), nil)
	case 25:
		ei = s.aeadSeal(key, vfFlip(nonce), info.bytes(), nil)
	case 26:
		ei = s.aeadSeal(key, nonce, info.bytes(), []byte{0})
	case 27:
		ei = s.aeadSeal(key, nonce, rCat(info.bytes(), vfBytes("extra", 1)), nil)
	case 28:
		b := info.bytes()
		ei = s.aeadSeal(key, nonce, b[:len(b)-1], nil)
	}
	// stage 3: the group secrets
	label, info2 := "Welcome", ei
	switch how {
	case 29:
		sec.ref = vfFlip(sec.ref)
	case 30:
		sec.ref = nil
	case 31:
		sec.joiner = vfFlip(sec.joiner)
	case 32:
		sec.joiner = c.g.joiner
	case 33:
		label = "UpdatePathNode"
	case 34:
		info2 = rCat(vfFlip(ei[:40]), ei[40:])
	case 35:
		info2 = nil
	case 50: // a PSK nobody used
		sec.psks = rCat(rU8(1), rVec(vfBytes("pskID", 2)), rVec(vfBytes("pskNonce", s.nh)))
	case 36: // for another invitee
		k := rKeyPackage(s, "k")
		sec.init = k.init
	case 37: // for the leaf key instead of the init key
		sec.init = c.adds[0].leaf.enc
	}
	plain := sec.bytes()
	switch how {
	case 38:
		plain = plain[:len(plain)-1]
	case 39:
		plain = rCat(plain, vfBytes("extra", 1))
	}
	sealed := s.seal(sec.init, label, info2, plain)
	in := rIn{b: sealed}
	enc, ct := in.vec(), in.vec()
	suite := uint16(s.id)
	switch how {
	case 40:
		ct = vfFlip(ct)
	case 41:
		ct = ct[:len(ct)-1]
	case 42:
		enc = vfFlip(enc)
	case 43:
		enc = c.adds[0].init
	case 44:
		suite = vfU16("suite")
		vfAssume(suite != uint16(s.id))
	case 45: // a duplicate entry behind the real one changes nothing
		sealed = rCat(rVec(sec.ref), rVec(enc), rVec(ct), rVec(sec.ref))
		enc, ct = enc, vfFlip(ct)
		return rCat(rU16(1), rU16(3), rU16(suite), rVec(sealed, rVec(enc), rVec(ct)), rVec(ei))
	case 46: // other entries around it change nothing
		k := rKeyPackage(s, "k")
		o := rCat(rVec(k.ref()), s.seal(k.init, label, info2, plain))
		return rCat(rU16(1), rU16(3), rU16(suite), rVec(o, rVec(sec.ref), rVec(enc), rVec(ct), o), rVec(ei))
	}
	return rCat(rU16(1), rU16(3), rU16(suite), rVec(rVec(sec.ref), rVec(enc), rVec(ct)), rVec(ei))
}

// Welcomes in which one part was altered or replaced, also by a member who
// can re-sign and re-encrypt.
func vfH_C19_forged() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfNewMixed(cs)
	x.addRef(2)
	if vfChoice("refresh", 2) == 1 {
		x.refresh()
	}
	m := vfNewMember(cs, "m")
	k := m.rkp()
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}})
	if vfChoice("path", 2) == 1 {
		c.withPath()
	}
	c.finish(1)
	how := vfChoice("how", vfWelcomeForgeries)
	w := x.vfForgeWelcome(c, how)
	ok := how == 0 || how == 45 || how == 46
	vfAssert((m.join(w) == nil) == ok, "joined exactly if the welcome is genuine")
	if ok {
		x.g = c.next
		x.lib[c.added[0]] = m
		x.agree()
	}
	vfReach("end")
}

// Bytes altered on the way.  Lengths are left alone here.
func vfH_C19_altered() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	a := vfGroup(cs, 1)[0]
	j := vfNewMember(cs, "j")
	w, _, err := a.group.CreateWelcome([]KeyPackage{j.kpp.Public})
	vfAssert(err == nil, "welcome creation succeeds")
	raw := w.Bytes()
	// message header, suite, then vectors
	at := 6
	pos := vfChoice("pos", len(raw))
	in := rIn{b: raw[6:]}
	n := len(in.b)
	v := in.vec()
	l := rIn{b: v}
	head := n - len(in.b) - len(v)
	vfAssume(pos < at || pos >= at+head)
	at += head
	for i := 0; i < 3; i++ {
		n := len(l.b)
		f := l.vec()
		head := n - len(l.b) - len(f)
		vfAssume(pos < at || pos >= at+head)
		at += head + len(f)
	}
	n = len(in.b)
	v = in.vec()
	head = n - len(in.b) - len(v)
	vfAssume(pos < at || pos >= at+head)
	vfAssert(!in.bad && !l.bad && len(in.b) == 0 && len(l.b) == 0, "the welcome is well-formed")
	d := vfU8("delta")
	vfAssume(d != 0)
	raw[pos] ^= d
	vfAssume(pos != 3) // another kind of message
	vfAssert(j.join(raw) != nil, "an altered welcome is refused")
	vfReach("end")
}

// Welcomes cut short or extended.
func vfH_C19_cut() {
	a := vfGroup(vfSuites[0], 1)[0]
	j := vfNewMember(vfSuites[0], "j")
	w, _, err := a.group.CreateWelcome([]KeyPackage{j.kpp.Public})
	vfAssert(err == nil, "welcome creation succeeds")
	raw := w.Bytes()
	n := vfChoice("cut", len(raw)+2)
	if n < len(raw) {
		raw = raw[:n]
	} else {
		raw = rCat(raw, vfBytes("extra", n-len(raw)+1))
	}
	vfAssert(j.join(raw) != nil, "an incomplete welcome is refused")
	vfReach("end")
}

// Path secrets: the invitee gets the keys of the nodes above the common
// ancestor, and uses them whoever commits next.
func vfH_C19_pathSecret() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 1, 4))]
	n := 1 + vfChoice("members", vfBound("members", 4, 7))
	x := vfNewMixed(cs)
	x.addRef(n)
	if hole := vfSome("hole", n+1); hole != 0 {
		x.remove(hole)
	}
	refs := x.refs()
	x.speak(refs[vfSome("committer", len(refs))])
	m := vfNewMember(cs, "m")
	k := m.rkp()
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}}).withPath().finish(1)
	sec := c.invite(0)
	how := vfChoice("how", 5)
	ok := true
	nodes := c.path.nodes
	switch how {
	case 1:
		sec.path = vfFlip(sec.path)
		ok = false
	case 2: // the secret of another node
		i := vfChoice("node", len(nodes)+1)
		p := c.path.last
		if i < len(nodes) {
			p = nodes[i].sec
		}
		ok = vfEqual(p, sec.path)
		sec.path = p
	case 3:
		sec.path = []byte{}
		ok = false
	case 4:
		sec.path = sec.path[:len(sec.path)-1]
		ok = false
	}
	w := c.next.welcomeBytes([]*rSecret{sec}, c.next.sealInfo(c.next.info()))
	vfAssert((m.join(w) == nil) == ok, "joined exactly if the path secret fits")
	if ok {
		x.g = c.next
		x.lib[c.added[0]] = m
		x.agree()
		x.speak(refs[vfSome("next", len(refs))])
		x.refresh()
		x.agree()
	}
	vfReach("end")
}

// A path secret although the commit had no path: nobody knows one that fits.
func vfH_C19_pathlessSecret() {
	x := vfNewMixed(vfSuites[0])
	x.addRef(2)
	if vfChoice("refresh", 2) == 1 {
		x.refresh()
	}
	m := vfNewMember(vfSuites[0], "m")
	k := m.rkp()
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}}).finish(1)
	sec := c.invite(0)
	sec.path = vfBytes("secret", 32)
	w := c.next.welcomeBytes([]*rSecret{sec}, c.next.sealInfo(c.next.info()))
	vfAssert(m.join(w) != nil, "an unfounded path secret is refused")
	vfReach("end")
}

// The newcomer's own leaf must be in the tree as it was.
func vfH_C19_ownLeaf() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfNewMixed(cs)
	x.addRef(2)
	s := x.g.s
	m := vfNewMember(cs, "m")
	k := m.rkp()
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}})
	l := *k.leaf
	i := c.added[0]
	ok := false
	switch vfChoice("how", 11) {
	case 0:
		ok = true
	case 6: // one field changed
		pub, priv := s.sigKeys()
		l.sigKey = pub
		l.sign(s, priv, nil, 0)
	case 7:
		l.caps = vfCaps(s, rU16(0xf000), rU16(1))
		l.sign(s, k.sigPriv, nil, 0)
	case 8:
		l.na--
		l.sign(s, k.sigPriv, nil, 0)
	case 9:
		l.caps = vfCaps(s, rU16(0xf000), rU16(1))
		l.exts = rCat(l.exts, rU16(0xf000), rVec(vfBytes("ext", 1)))
		l.sign(s, k.sigPriv, nil, 0)
	case 10:
		l.cred = rBasic([]byte("M"))
		l.sign(s, k.sigPriv, nil, 0)
	case 1: // somebody else in its place
		l = *rKeyPackage(s, "o").leaf
	case 2: // somebody else with its encryption key
		l = *rKeyPackage(s, "o").leaf
		o := rKeyPackage(s, "o")
		l = *o.leaf
		l.enc = k.leaf.enc
		l.sign(s, o.sigPriv, nil, 0)
	case 3: // another leaf of its own
		l.cred = rBasic([]byte("x"))
		l.sign(s, k.sigPriv, nil, 0)
	case 4:
		l.enc, _ = s.encKeys()
		l.sign(s, k.sigPriv, nil, 0)
	case 5: // not there at all
		c.tree[2*i] = nil
		c.finish(1)
		vfAssert(m.join(c.welcome()) != nil, "nobody joins without a leaf")
		vfReach("end")
		return
	}
	c.tree[2*i] = &rNode{leaf: &l}
	c.finish(1)
	vfAssert((m.join(c.welcome()) == nil) == ok, "joined exactly with the own leaf")
	vfReach("end")
}

// Invitees recognise themselves by comparing references.
func vfH_C19_refs() {
	a := vfBytes("a", []int{0, 1, 3, 32}[vfChoice("alen", 4)])
	b := vfBytes("b", []int{0, 1, 3, 32}[vfChoice("blen", 4)])
	vfAssert(KeyPackageRef(a).Equal(KeyPackageRef(b)) == vfEqual(a, b), "references are equal exactly if their bytes are")
	vfReach("end")
}

// vfSparse is a group of reference members whose tree of 16 leaves has one
// run of empty leaves in its left half, which leaves parts of all paths out.
func vfSparse(cs CipherSuite) *vfMixed {
	x := vfNewMixed(cs)
	x.addRef(8 + vfChoice("right", vfBound("right", 1, 3)))
	a := 1 + vfChoice("from", 7)
	b := a + 1 + vfChoice("to", 8-a)
	var list [][]byte
	var ch []rChange
	for i := a; i < b; i++ {
		list = append(list, rByValue(rRemove(uint32(i))))
		ch = append(ch, rChange{remove: i})
	}
	x.deliver(x.g.commit(list, ch).withPath().finish(1))
	for i := a; i < b; i++ {
		delete(x.keys, i)
	}
	return x
}

// Newcomers in sparse trees get the keys of all nodes above.
func vfH_C19_sparse() {
	x := vfSparse(vfSuites[0])
	refs := x.refs()
	x.speak(refs[vfSome("inviter", len(refs))])
	x.addLib(1+vfChoice("libs", vfBound("libs", 1, 2)), true, 1)
	x.agree()
	for _, i := range []int{refs[len(refs)-1], refs[vfSome("next", len(refs))]} {
		x.speak(i)
		x.refresh()
		x.agree()
	}
	vfReach("end")
}

// Nor does it help to derive everything from a context that names another
// tree.
func vfH_C19_context() { vfWrongTree() }

// Another tree than that of the group, which may be consistent in itself.
func vfH_C19_tree() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfNewMixed(cs)
	x.addRef(2)
	m := vfNewMember(cs, "m")
	k := m.rkp()
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}})
	if vfChoice("path", 2) == 1 {
		c.withPath()
	}
	c.finish(1)
	g := c.next.clone()
	how := vfChoice("how", 7)
	switch how {
	case 1: // a member less
		g.tree = g.tree.remove(1)
	case 2: // a member more
		g.tree, _ = g.tree.add(rKeyPackage(g.s, "more").leaf)
	case 3: // another one in its place
		g.tree[2] = &rNode{leaf: rKeyPackage(g.s, "other").leaf}
	case 4: // two members swapped
		g.tree[2], g.tree[4] = g.tree[4], g.tree[2]
	case 5: // an empty parent filled
		enc, _ := g.s.encKeys()
		vfAssume(g.tree[1] == nil)
		g.tree[1] = &rNode{enc: enc}
	case 6: // a filled parent emptied
		vfAssume(g.tree[3] != nil)
		g.tree[3] = nil
	}
	info := c.next.info()
	info.exts = rTreeExt(g.tree)
	info.sig = g.s.sign(g.sigPriv, "GroupInfoTBS", info.tbs())
	w := c.next.welcomeBytes([]*rSecret{c.invite(0)}, c.next.sealInfo(info))
	vfAssert((m.join(w) == nil) == (how == 0), "joined exactly if the tree is that of the group")
	vfReach("end")
}

// Many invitations at once.
func vfH_C19_many() {
	vfSteps(100000000)
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfShared(cs, 1, 1)
	n := []int{4, 9, 17, 33}[vfChoice("n", vfBound("many", 3, 4))]
	if vfChoice("by", 2) == 0 {
		x.addLib(n, vfChoice("path", 2) == 1, 1)
	} else {
		x.invite(x.members()[0], n)
	}
	x.agree()
	vfReach("end")
}

// Groups with any epoch number and long names.
func vfH_C19_aged() {
	x := vfAged(vfSuites[vfChoice("suite", len(vfSuites))])
	if vfChoice("by", 2) == 0 {
		x.addLib(1, vfChoice("path", 2) == 1, 2)
	} else {
		x.invite(x.members()[vfChoice("member", 2)], 1)
	}
	x.agree()
	vfReach("end")
}
