package mls

// vfMemberOf is a library member with the key package k.
func vfMemberOf(k *rKP) *vfMember {
	pkg, err := UnmarshalKeyPackage(k.message())
	vfAssert(err == nil, "a well-formed key package decodes")
	priv := PrivateKeyPackage{InitKey: k.initPriv, EncryptionKey: k.encPriv, SignatureKey: k.sigPriv}
	return &vfMember{cs: k.s.id, kpp: &KeyPairPackage{Public: *pkg, Private: priv}}
}

// vfCaps are capabilities with the given extension and credential types.
func vfCaps(s *rSuite, exts, creds []byte) []byte {
	return rCat(rVec(rU16(1)), rVec(rU16(uint16(s.id))), rVec(exts), rVec(), rVec(creds))
}

// Honestly generated key packages hold what they must.
func vfH_C17_generated() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	id := vfBytes("identity", vfChoice("len", 3))
	kpp, err := GenerateKeyPairPackage(cs, NewBasicCredential(id))
	vfAssert(err == nil, "key package generation succeeds")
	m := &vfMember{cs: cs, kpp: kpp}
	k := m.rkp()
	vfAssert(k.version == 1 && k.suite == uint16(cs) && k.leaf.source == 1, "generated for the suite")
	vfAssert(vfEqual(k.leaf.cred, rBasic(id)), "with the credential")
	vfAssert(!vfEqual(k.init, k.leaf.enc), "with two keys")
	vfAssert(k.s.verify(k.leaf.sigKey, "LeafNodeTBS", k.leaf.tbs(nil, 0), k.leaf.sig), "with a signed leaf")
	vfAssert(k.s.verify(k.leaf.sigKey, "KeyPackageTBS", k.tbs(), k.sig), "signed")
	now := uint64(vfNow())
	vfAssert(k.leaf.nb <= now && now < k.leaf.na && k.leaf.na-k.leaf.nb <= 90*86400, "valid now")
	pt, ok := k.s.unseal(k.initPriv, "x", nil, k.s.seal(k.init, "x", nil, []byte{1}))
	vfAssert(ok && vfEqual(pt, []byte{1}), "with the private init key")
	pt, ok = k.s.unseal(k.encPriv, "x", nil, k.s.seal(k.leaf.enc, "x", nil, []byte{2}))
	vfAssert(ok && vfEqual(pt, []byte{2}), "with the private encryption key")
	ref, err := kpp.Public.GenerateRef()
	vfAssert(err == nil && vfEqual(ref, k.ref()), "with the reference of the standard")
	// and again after a trip over the network
	pkg, err := UnmarshalKeyPackage(kpp.Public.Bytes())
	vfAssert(err == nil, "the key package decodes")
	x := vfShared(cs, 1, 1)
	old := x.members()[0]
	m.kpp.Public = *pkg
	wel, msg, err := old.group.CreateWelcome([]KeyPackage{*pkg})
	vfAssert(err == nil && old.recv(msg) == nil && x.g.follow(msg), "everybody accepts the newcomer")
	vfAssert(m.join(wel.Bytes()) == nil, "the newcomer joins")
	x.agree()
	vfReach("end")
}

// Key packages in add proposals.
func vfH_C17_keyPackage() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfShared(cs, 1, 2)
	s := x.g.s
	k := rKeyPackage(s, "new")
	how := vfChoice("how", 18)
	switch how {
	case 1:
		k.version = vfU16("version")
		vfAssume(k.version != 1)
		k.signOuter()
	case 2:
		k.suite = vfU16("otherSuite")
		vfAssume(k.suite != uint16(cs))
		k.signOuter()
	case 3:
		k.leaf.source = 2
		k.leaf.sign(s, k.sigPriv, x.g.id, 4)
		k.signOuter()
	case 4:
		k.leaf.source, k.leaf.parentHash = 3, nil
		k.leaf.sign(s, k.sigPriv, x.g.id, 4)
		k.signOuter()
	case 5:
		k.init, k.initPriv = k.leaf.enc, k.encPriv
		k.signOuter()
	case 6:
		k.sig = vfFlip(k.sig)
	case 7:
		k.sig = s.sign(x.keys[1].sigPriv, "KeyPackageTBS", k.tbs())
	case 8:
		k.sig = s.sign(k.sigPriv, "LeafNodeTBS", k.tbs())
	case 9:
		k.init = vfFlip(k.init)
	case 10:
		k.init, k.initPriv = s.encKeys()
	case 11:
		k.exts = rCat(rU16(0xff00), rVec(vfBytes("ext", 1)))
	case 12: // resigned leaf in the old key package
		k.leaf.cred = rBasic(vfBytes("identity", 3))
		vfAssume(!vfEqual(k.leaf.cred, rBasic([]byte("new"))))
		k.leaf.sign(s, k.sigPriv, nil, 0)
	case 13:
		k.leaf.enc, k.encPriv = s.encKeys()
		k.leaf.sign(s, k.sigPriv, nil, 0)
	case 14:
		k.leaf.na += 1 + uint64(vfU16("later"))
		k.leaf.sign(s, k.sigPriv, nil, 0)
	case 15:
		k.sig = nil
	case 16: // extensions signed: fine
		k.exts = rCat(rU16(0xff00), rVec(vfBytes("ext", 1)))
		k.signOuter()
	case 17:
		k.leaf.sigKey, k.sigPriv = s.sigKeys()
		k.leaf.sign(s, k.sigPriv, nil, 0)
	}
	p := rByValue(rAdd(k))
	if vfChoice("byref", 2) == 1 {
		f := x.g.frame(2, rAdd(k), 1)
		x.g.sign(f)
		for _, m := range x.members() {
			m.recv(x.g.public(f)) // may be refused early
		}
		p = rByRef(x.g.proposalRef(f))
	}
	c := x.g.commit([][]byte{p}, []rChange{{add: k, remove: -1}})
	if vfChoice("path", 2) == 1 {
		c.withPath()
	}
	x.vfTry(c.finish(1), how == 0 || how == 16, "accepted exactly if the key package is valid")
	vfReach("end")
}

const vfLeafCases = 21

// vfLeafCase alters a leaf of the given group for position at and signs it;
// it reports whether the leaf remains valid.
func (x *vfMixed) vfLeafCase(l *rLeaf, priv []byte, at int, how int) bool {
	s := x.g.s
	id := x.g.id
	li := uint32(at)
	label := "LeafNodeTBS"
	ok := true
	other := func() *rLeaf { // a leaf of somebody else
		i := (at + 1 + vfChoice("other", 3)) % 4
		return x.g.tree.leaf(i)
	}
	sign := func() { l.sig = s.sign(priv, label, l.tbs(id, li)) }
	switch how {
	case 0:
		sign()
	case 1:
		ok = false
		sign()
		l.sig = vfFlip(l.sig)
	case 2:
		ok = false
		priv = x.keys[(at+1)%3].sigPriv
		sign()
	case 3:
		ok = false
		label = "KeyPackageTBS"
		sign()
	case 4:
		ok = l.source == 1
		id = vfFlip(id)
		sign()
	case 5:
		ok = l.source == 1
		li = vfU32("at")
		vfAssume(li != uint32(at))
		sign()
	case 6: // changed after signing
		ok = false
		sign()
		switch vfChoice("field", 5) {
		case 0:
			l.enc, _ = s.encKeys()
		case 1:
			l.cred = rBasic(vfBytes("name", 1))
			if at < 3 {
				vfAssume(!vfEqual(l.cred, rBasic([]byte{byte('r' + at - 1)})))
			}
		case 2:
			l.caps = vfCaps(s, rU16(vfU16("cap")), rU16(1))
		case 3:
			l.exts = rCat(rU16(0xff00), rVec())
			l.caps = vfCaps(s, rU16(0xff00), rU16(1))
		case 4:
			if l.source != 1 {
				vfAssume(false)
			}
			l.na -= 1 + uint64(vfU16("earlier"))
		}
	case 7: // a credential type the leaf does not support
		ok = false
		l.cred = rCat(rU16(2), rVec(rVec(vfBytes("cert", 1))))
		sign()
	case 8: // one the others do not support
		ok = false
		l.cred = rCat(rU16(2), rVec(rVec(vfBytes("cert", 1))))
		l.caps = vfCaps(s, nil, rCat(rU16(1), rU16(2)))
		sign()
	case 9: // own credential type supported or not
		a, b := vfU16("a"), vfU16("b")
		ok = vfOr(a == 1, b == 1)
		l.caps = vfCaps(s, nil, rCat(rU16(a), rU16(b)))
		sign()
	case 10: // none supported
		ok = false
		l.caps = vfCaps(s, nil, nil)
		sign()
	case 11: // extensions are listed or not
		e, a, b := vfU16("e"), vfU16("a"), vfU16("b")
		vfAssume(e > 5)
		ok = vfOr(e == a, e == b)
		l.exts = rCat(rU16(e), rVec(vfBytes("ext", 1)))
		l.caps = vfCaps(s, rCat(rU16(a), rU16(b)), rU16(1))
		sign()
	case 12: // two extensions
		e, f, a := vfU16("e"), vfU16("f"), vfU16("a")
		vfAssume(e > 5 && f > 5 && e != f)
		vfAssume(vfOr(a == e, a == f))
		ok = false
		l.exts = rCat(rU16(e), rVec(), rU16(f), rVec())
		l.caps = vfCaps(s, rU16(a), rU16(1))
		sign()
	case 13:
		ok = false
		o := other()
		l.sigKey = o.sigKey
		for _, i := range x.refs() {
			if vfEqual(x.keys[i].leaf.sigKey, o.sigKey) {
				priv = x.keys[i].sigPriv
			}
		}
		sign()
	case 14:
		ok = false
		l.enc = other().enc
		sign()
	case 15: // the key of a parent node
		ok = false
		l.enc = x.g.tree[5].enc
		sign()
	case 16:
		ok = false
		l.sig = nil
	case 17: // lifetimes
		if l.source != 1 {
			vfAssume(false)
		}
		now := uint64(vfNow())
		switch vfChoice("when", 4) {
		case 0:
			l.nb, l.na, ok = now-1000, now-100-uint64(vfU16("past")), false
		case 1:
			l.nb, l.na, ok = now+100+uint64(vfU16("future")), now+90000, false
		case 2:
			l.nb, l.na, ok = now-40*86400, now+51*86400+uint64(vfU16("long")), false
		case 3:
			l.nb, l.na = now-100-uint64(vfU16("past")), now+100+uint64(vfU16("future"))
		}
		sign()
	case 18:
		l.exts = rCat(rU16(0xff01), rVec(vfBytes("ext", 2)))
		l.caps = vfCaps(s, rCat(rU16(0xff00), rU16(0xff01)), rCat(rU16(2), rU16(1)))
		sign()
	case 20: // signature keys that are none, with any signature
		ok = false
		n := []int{0, 1, 31, 33, 48, 64, 65, 97}[vfChoice("keyLen", 8)]
		if s.curve == nil {
			vfAssume(n != 32)
		}
		l.sigKey = vfBytes("sigKey", n)
		if s.curve != nil && n > 1 {
			vfAssume(l.sigKey[0] != 4)
		}
		if vfChoice("signed", 2) == 1 {
			sign()
		} else {
			l.sig = vfBytes("sig", 64)
		}
	case 19: // altered capabilities, versions and suites, all signed
		l.caps = rCat(rVec(rU16(1), rU16(vfU16("v"))), rVec(rU16(uint16(s.id)), rU16(vfU16("c"))), rVec(rU16(vfU16("e"))), rVec(rU16(vfU16("p"))), rVec(rU16(1), rU16(vfU16("cred"))))
		sign()
	}
	return ok
}

// vfFour is a group with leaves 0..2 of reference members and 3 of the
// library; all parents are filled.
func vfFour(cs CipherSuite) *vfMixed {
	x := vfShared(cs, 1, 2)
	x.speak(2)
	x.refresh()
	x.speak(0)
	x.refresh()
	return x
}

// Leaves that are added.
func vfH_C17_added() {
	x := vfFour(vfSuites[vfChoice("suite", vfBound("suites", 2, 4))])
	k := rKeyPackage(x.g.s, "new")
	ok := x.vfLeafCase(k.leaf, k.sigPriv, 4, vfChoice("how", vfLeafCases))
	priv := k.sigPriv
	for _, i := range x.refs() {
		if vfEqual(x.keys[i].leaf.sigKey, k.leaf.sigKey) {
			priv = x.keys[i].sigPriv
		}
	}
	vfAssume(!vfEqual(k.leaf.sigKey, x.g.tree.leaf(3).sigKey)) // nobody can sign for the library
	k.sigPriv = priv
	k.signOuter()
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}})
	if vfChoice("path", 2) == 1 {
		c.withPath()
	}
	x.vfTry(c.finish(1), ok, "accepted exactly if the new leaf is valid")
	vfReach("end")
}

// Leaves that are updated.
func vfH_C17_updated() {
	x := vfFour(vfSuites[vfChoice("suite", vfBound("suites", 2, 4))])
	by := x.as(1)
	l, _ := vfUpdateLeaf(by)
	how := vfChoice("how", vfLeafCases+4)
	ok := false
	switch how {
	case vfLeafCases: // the key must change
		l.enc = by.tree.leaf(1).enc
		l.sign(by.s, by.sigPriv, by.id, 1)
	case vfLeafCases + 1: // the signature key may
		var priv []byte
		l.sigKey, priv = by.s.sigKeys()
		l.sign(by.s, priv, by.id, 1)
		ok = true
	case vfLeafCases + 2:
		l.source, l.nb, l.na = 1, uint64(vfNow())-100, uint64(vfNow())+1000
		l.sign(by.s, by.sigPriv, by.id, 1)
	case vfLeafCases + 3:
		l.source, l.parentHash = 3, vfBytes("ph", vfChoice("ph", 2)*32)
		l.sign(by.s, by.sigPriv, by.id, 1)
	default:
		ok = x.vfLeafCase(l, by.sigPriv, 1, how)
	}
	f := by.frame(2, rUpdate(l), 1)
	by.sign(f)
	for _, m := range x.members() {
		m.recv(by.public(f))
	}
	c := x.g.commit([][]byte{rByRef(by.proposalRef(f))}, []rChange{{by: 1, update: l, remove: -1}})
	x.vfTry(c.withPath().finish(1), ok, "accepted exactly if the updated leaf is valid")
	vfReach("end")
}

// Leaves in commit paths.
func vfH_C17_committed() {
	x := vfFour(vfSuites[vfChoice("suite", vfBound("suites", 2, 4))])
	c := x.g.commit(nil, nil).startPath()
	l := c.path.leaf
	ok := x.vfLeafCase(l, x.g.sigPriv, 0, vfChoice("how", vfLeafCases))
	x.vfTry(c.sealPath().finish(1), ok, "accepted exactly if the path leaf is valid")
	vfReach("end")
}

// Leaves of members as seen by somebody who joins.
func vfH_C17_joined() {
	x := vfFour(vfSuites[vfChoice("suite", vfBound("suites", 2, 4))])
	// member 1 has the altered leaf; its own kind is a key package leaf
	x.lib = map[int]*vfMember{}
	l := *x.g.tree.leaf(1)
	x.g.tree[2] = &rNode{leaf: &l}
	how := vfChoice("how", vfLeafCases)
	ok := x.vfLeafCase(&l, x.keys[1].sigPriv, 1, how)
	// blank what the change invalidates
	x.g.tree.blankPath(1)
	m := vfNewMember(x.g.s.id, "m")
	k := m.rkp()
	path := vfChoice("path", 2) == 1
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}})
	if path {
		c.withPath()
	}
	c.finish(1)
	if path && vfEqual(l.enc, x.g.tree.leaf(0).enc) {
		ok = true // a key that is gone
	}
	vfAssert((m.join(c.welcome()) == nil) == ok, "joined exactly if all leaves are valid")
	vfReach("end")
}

// Credential types in a group where members differ.
func vfH_C17_credentials() {
	vfMapOrder(vfChoice("map order", 2))
	s := rSuiteOf(vfSuites[0])
	mk := func(name string, x509 bool) *rKP {
		k := rKeyPackage(s, name)
		var creds []byte
		n := vfChoice("creds", 3) // 1; 2; both
		switch n {
		case 0:
			creds = rU16(1)
		case 1:
			creds = rU16(2)
		default:
			creds = rCat(rU16(2), rU16(1), rU16(2))
		}
		k.leaf.caps = vfCaps(s, nil, creds)
		if x509 {
			k.leaf.cred = rCat(rU16(2), rVec(rVec(vfBytes("cert", 1))))
			vfAssume(n != 0)
		} else {
			vfAssume(n != 1)
		}
		k.signAll()
		return k
	}
	supports := func(k *rKP) (basic, x509 bool) {
		in := rIn{b: k.leaf.caps}
		for i := 0; i < 4; i++ {
			in.vec()
		}
		c := rIn{b: in.vec()}
		for len(c.b) > 0 {
			if c.u16() == 1 {
				basic = true
			} else {
				x509 = true
			}
		}
		return
	}
	a := mk("a", vfBool("x509a"))
	b := mk("b", vfBool("x509b"))
	n := mk("n", vfBool("x509n"))
	ok := func(ks ...*rKP) bool {
		for _, k := range ks {
			for _, o := range ks {
				basic, x509 := supports(o)
				if k.leaf.cred[1] == 1 && !basic || k.leaf.cred[1] == 2 && !x509 {
					return false
				}
			}
		}
		return true
	}
	vfAssume(ok(a, b))
	g := rNewGroup(a, []byte("group"))
	m := vfMemberOf(b)
	c := g.commit([][]byte{rByValue(rAdd(b))}, []rChange{{add: b, remove: -1}}).finish(1)
	vfAssert(m.join(c.welcome()) == nil, "the second member joins")
	x := &vfMixed{g: c.next, lib: map[int]*vfMember{1: m}, keys: map[int]*rKP{0: a}}
	c = x.g.commit([][]byte{rByValue(rAdd(n))}, []rChange{{add: n, remove: -1}}).finish(1)
	good := ok(a, b, n)
	vfAssert((vfMemberOf(n).join(c.welcome()) == nil) == good, "the newcomer joins exactly if all types are supported")
	x.vfTry(c, good, "members accept exactly if all types are supported")
	vfReach("end")
}

// Several new leaves at once, which may use the same keys; the order in which
// they are looked at does not matter.
func vfH_C17_several() {
	x := vfFour(vfSuites[vfChoice("suite", vfBound("suites", 1, 4))])
	s := x.g.s
	by := x.as(1)
	up, _ := vfUpdateLeaf(by)
	n := 2 + vfChoice("adds", 2)
	var ks []*rKP
	leaves := []*rLeaf{up}
	for i := 0; i < n; i++ {
		k := rKeyPackage(s, string(rune('a'+i)))
		ks = append(ks, k)
		leaves = append(leaves, k.leaf)
	}
	a, b := vfChoice("a", n+1), vfChoice("b", n+1)
	vfAssume(a != b)
	how := vfChoice("how", 3)
	ok := how == 0
	switch how {
	case 1:
		leaves[a].enc = leaves[b].enc
	case 2:
		leaves[a].sigKey = leaves[b].sigKey
	}
	priv := func(i int) []byte {
		if how == 2 && i == a {
			i = b
		}
		if i == 0 {
			return by.sigPriv
		}
		return ks[i-1].sigPriv
	}
	up.sign(s, priv(0), by.id, 1)
	f := by.frame(2, rUpdate(up), 1)
	by.sign(f)
	for _, m := range x.members() {
		m.recv(by.public(f))
	}
	list := [][]byte{rByRef(by.proposalRef(f))}
	ch := []rChange{{by: 1, update: up, remove: -1}}
	for i, k := range ks {
		k.leaf.sign(s, priv(i+1), nil, 0)
		k.sigPriv = priv(i + 1)
		k.signOuter()
		list = append(list, rByValue(rAdd(k)))
		ch = append(ch, rChange{add: k, remove: -1})
	}
	c := x.g.commit(list, ch).withPath().finish(1)
	vfMapOrder(vfChoice("map order", 3))
	x.vfTry(c, ok, "accepted exactly if all keys differ")
	vfReach("end")
}

// Leaves at every place of a tree that somebody joins.
func vfH_C17_leaves() { vfBadLeaf() }
