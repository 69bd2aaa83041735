package mls

// Trees with more leaves than fit one byte.

// vfWide is a wide tree, full or almost empty, with arbitrary contents at one
// leaf and on the path above it, and that leaf.
func vfWide() (rTree, int) {
	n := vfBound("wide", 512, 1024)
	t := make(rTree, 2*n-1)
	at := []int{0, 1, 127, 128, 255, 256, 257, n - 2, n - 1}[vfChoice("at", 9)]
	few := vfChoice("few", 2) == 1
	for i := 0; i < n; i++ {
		if !few || i == n/2+3 {
			t[2*i] = &rNode{leaf: &rLeaf{enc: rU32(uint32(i)), cred: rBasic(nil), caps: rCaps(vfSuites[0]), source: 2}}
		}
	}
	t[2*at] = &rNode{leaf: vfLeaf(3)}
	if vfChoice("parents", 2) == 1 {
		for _, st := range t.path(at) {
			t[st.node()] = &rNode{enc: vfBytes("parent", 1), unmerged: []uint32{uint32(at)}}
		}
	}
	return t, at
}

func vfH_C08_wide() {
	t, at := vfWide()
	l := vfLibTree(t)
	switch vfChoice("op", 3) {
	case 0:
		k := vfSomeKP()
		p := vfLibProposal(rAdd(k))
		if vfChoice("room", 2) == 1 {
			i := (at + 7) % t.leaves()
			vfAssume(t.leaf(i) != nil)
			t = t.remove(i)
			l.remove(leafIndex(i))
		}
		li := l.add(&p.add.keyPackage.leafNode)
		t2, i := t.add(k.leaf)
		vfAssert(int(li) == i, "the newcomer gets the leftmost free leaf")
		vfSameTree(l, t2, "adding changes the tree as it should")
	case 1:
		leaf := vfLeaf(2)
		p := vfLibProposal(rUpdate(leaf))
		l.update(leafIndex(at), &p.update.leafNode)
		t[2*at] = &rNode{leaf: leaf}
		t.blankPath(at)
		vfSameTree(l, t, "updating changes the tree as it should")
	case 2:
		l.remove(leafIndex(at))
		vfSameTree(l, t.remove(at), "removing changes the tree as it should")
	}
	vfReach("end")
}

func vfH_C09_wide() {
	t, at := vfWide()
	l := vfLibTree(t)
	want := t.filtered(at)
	got := l.filteredDirectPath(leafIndex(at).nodeIndex())
	vfAssert(len(got) == len(want), "filtered direct paths have the right length")
	for j, st := range want {
		vfAssert(int(got[j]) == st.node(), "filtered direct paths have the right nodes in order")
		res := t.resolve(st.slo, st.shi)
		lib := l.resolve(nodeIndex(rMid(st.slo, st.shi)))
		vfAssert(len(res) == len(lib), "resolutions have the right length")
		for i := range res {
			vfAssert(int(lib[i]) == res[i], "resolutions have the right nodes in order")
		}
	}
	if t[at|1] != nil {
		res := l.resolve(nodeIndex(t.leaves() - 1))
		vfAssert(len(res) == 2 && int(res[0]) == t.leaves()-1 && int(res[1]) == 2*at, "unmerged leaves are resolved")
	}
	vfReach("end")
}

func vfH_C10_wide() {
	t, at := vfWide()
	s := rSuiteOf(vfSuites[0])
	l := vfLibTree(t)
	h, err := l.computeTreeHash(s.id, leafIndex(at).nodeIndex(), nil)
	vfAssert(err == nil && vfEqual(h, t.hash(s, at, at+1, nil)), "the hash of the leaf is that of the definition")
	without, exclude := []uint32(nil), map[leafIndex]struct{}(nil)
	if k := vfChoice("excluded", 4); k > 0 {
		i := (at + []int{0, 64, 256}[k-1]) % t.leaves()
		without, exclude = []uint32{uint32(i)}, map[leafIndex]struct{}{leafIndex(i): {}}
	}
	h, err = l.computeTreeHash(s.id, nodeIndex(t.leaves()-1), exclude)
	vfAssert(err == nil && vfEqual(h, t.hash(s, 0, t.leaves(), without)), "the root hash is that of the definition")
	vfReach("end")
}

func vfH_C12_wide() {
	s := rSuiteOf(vfSuites[vfChoice("suite", len(vfSuites))])
	n := vfBound("wide", 512, 1024)
	enc := vfBytes("enc", s.nh)
	tree, err := deriveSecretTree(s.id, numLeaves(n), enc)
	vfAssert(err == nil, "a secret tree is derived")
	for _, i := range []int{0, 1, 127, 128, 255, 256, 257, n - 2, n - 1} {
		for _, app := range []bool{false, true} {
			keys, nonces, _ := vfRatchets(tree, s, i, app, 1)
			k, nn := rRatchet(s, enc, n, i, app, 0)
			vfAssert(vfEqual(keys[0], k) && vfEqual(nonces[0], nn), "message keys are those of the definition")
		}
	}
	vfReach("end")
}

// Any generation.
func vfH_C12_generation() {
	s := rSuiteOf(vfSuites[vfChoice("suite", len(vfSuites))])
	sec := ratchetSecret{vfBytes("secret", s.nh), vfU32("generation")}
	g := rU32(sec.generation)
	vfAssert(vfEqual(vfOK(sec.deriveKey(s.id)), s.expand(sec.secret, "key", g, s.nk)), "the key is that of the definition")
	vfAssert(vfEqual(vfOK(sec.deriveNonce(s.id)), s.expand(sec.secret, "nonce", g, s.nn)), "the nonce is that of the definition")
	next, err := sec.deriveNext(s.id)
	vfAssert(err == nil && vfEqual(next.secret, s.expand(sec.secret, "secret", g, s.nh)), "the next secret is that of the definition")
	vfAssert(vfImplies(sec.generation != 1<<32-1, next.generation == sec.generation+1), "generations are counted")
	vfReach("end")
}

// Later generations, as members see them.
func vfH_C12_late() {
	x := vfShared(vfSuites[vfChoice("suite", vfBound("suites", 1, 4))], 1, 1)
	by := x.as(vfChoice("by", 2))
	f := by.frame(1, vfBytes("data", 1), 2)
	by.sign(f)
	gen := []uint32{255, 256, 257, 300, 1000}[vfChoice("gen", vfBound("gen", 4, 5))]
	for _, m := range x.members() {
		out, err := m.group.UnmarshalAndProcessMessage(by.private(f, by.sender(gen)))
		vfAssert(err == nil && vfEqual(out, f.body), "messages of late generations are read")
	}
	vfReach("end")
}

// Many PSKs.
func vfH_C11_manyPSKs() {
	s := rSuiteOf(vfSuites[0])
	n := []int{100, 255, 256, 257, 300}[vfChoice("n", 5)]
	var ids []preSharedKeyID
	var raw, psks [][]byte
	for i := 0; i < n; i++ {
		b := rCat(rU8(1), rVec(rU32(uint32(i))), rVec(vfBytes("nonce", i%2)))
		var id preSharedKeyID
		vfAssert(unmarshal(b, &id) == nil, "a PSK ID is decoded")
		ids, raw, psks = append(ids, id), append(raw, b), append(psks, vfBytes("psk", 1))
	}
	vfAssert(vfEqual(vfOK(extractPSKSecret(s.id, ids, psks)), rPSKSecret(s, raw, psks)), "the PSK secret is that of the definition")
	vfReach("end")
}

// A large group, as members see it.
func vfBig(n int) *vfMixed {
	vfSteps(300000000)
	x := vfNewMixed(vfSuites[0])
	x.addRef(n)
	x.addLib(1, true, 1)
	return x
}

func vfH_C15_big() {
	x := vfBig(vfBound("big", 258, 300))
	x.agree()
	switch vfChoice("op", 3) {
	case 0:
		x.remove(257)
	case 1:
		x.speak(256)
		x.refresh()
	case 2:
		x.invite(x.members()[0], 1)
	}
	x.agree()
	vfReach("end")
}

// vfFar is a leaf whose index does not fit one byte.
const vfFar = 257

func vfH_C13_big() {
	x := vfBig(258)
	by := x.as(vfFar)
	data := vfBytes("data", 2)
	for _, m := range x.members() {
		out, err := m.group.UnmarshalAndProcessMessage(by.application(data))
		vfAssert(err == nil && vfEqual(out, data), "members read messages of anybody")
		msg, err := m.group.CreateApplicationMessage(data)
		vfAssert(err == nil, "members create messages")
		f, sd, ok := by.open(msg)
		vfAssert(ok && vfEqual(f.body, data) && x.lib[int(sd.leaf)] == m, "anybody reads messages of members")
	}
	vfReach("end")
}

func vfH_C14_big() {
	x := vfBig(258)
	by := x.as(vfFar)
	f := by.frame(2, rRemove(3), uint16(1+vfChoice("wire", 2)))
	how := vfChoice("how", 4)
	switch how {
	case 0:
		by.sign(f)
	case 1: // signed by the member whose index has the same low byte
		low := x.as(vfFar & 0xff)
		f.sig = by.s.sign(low.sigPriv, "FramedContentTBS", f.tbs(by.context()))
	case 2:
		low := x.as(vfFar & 0xff)
		f.sender = uint32(low.me)
		by.sign(f)
	case 3: // beyond the tree
		f.sender = vfFar + 512
		by.sign(f)
	}
	sd := by.sender(0)
	sd.leaf = f.sender
	msg := by.public(f)
	if f.wire == 2 {
		msg = by.private(f, sd)
	}
	for _, m := range x.members() {
		vfAssert((m.recv(msg) == nil) == (how == 0), "accepted exactly if authentic")
	}
	if how == 0 {
		x.deliver(x.g.commit([][]byte{rByRef(by.proposalRef(f))}, []rChange{{remove: 3}}).withPath().finish(1))
		x.agree()
	}
	vfReach("end")
}

func vfH_C16_big() {
	x := vfBig(258)
	far, low := uint32(vfFar), uint32(vfFar&0xff)
	var list [][]byte
	var ch []rChange
	remove := func(i uint32) {
		list = append(list, rByValue(rRemove(i)))
		ch = append(ch, rChange{remove: int(i)})
	}
	ok := false
	switch vfChoice("how", 4) {
	case 0: // two different members
		remove(far)
		remove(low)
		ok = true
	case 1: // the same member twice
		remove(far)
		remove(far)
	case 2: // a member whose index has the low byte of the committer's
		x.speak(vfFar & 0xff)
		remove(far)
		ok = true
	case 3: // no member
		remove(300)
	}
	if !ok {
		ch = ch[:0]
	}
	c := x.g.commit(list, ch).withPath().finish(1)
	x.vfTry(c, ok, "accepted exactly if the list is valid")
	vfReach("end")
}

func vfH_C17_big() {
	x := vfBig(258)
	k := rKeyPackage(x.g.s, "new")
	ok := false
	switch vfChoice("how", 3) {
	case 0:
		ok = true
	case 1: // keys of a member far away
		k.leaf.enc = x.g.tree.leaf(vfFar).enc
		k.signAll()
	case 2:
		k.leaf.sigKey, k.sigPriv = x.g.tree.leaf(vfFar).sigKey, x.keys[vfFar].sigPriv
		k.signAll()
	}
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}}).withPath().finish(1)
	x.vfTry(c, ok, "accepted exactly if the new leaf is valid")
	vfReach("end")
}

func vfH_C18_big() {
	vfSteps(300000000)
	x := vfNewMixed(vfSuites[0])
	x.addRef(258)
	m := vfNewMember(x.g.s.id, "m")
	k := m.rkp()
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}})
	l := *c.tree.leaf(vfFar)
	priv := x.keys[vfFar].sigPriv
	ok := false
	switch vfChoice("how", 5) {
	case 0:
		ok = true
	case 1:
		l.sig = vfFlip(l.sig)
	case 2:
		l.enc = c.tree.leaf(2).enc
		l.sign(x.g.s, priv, nil, 0)
	case 3:
		l.sigKey = c.tree.leaf(2).sigKey
		l.sign(x.g.s, x.keys[2].sigPriv, nil, 0)
	case 4:
		l.na = l.nb
		l.sign(x.g.s, priv, nil, 0)
	}
	c.tree[2*vfFar] = &rNode{leaf: &l}
	if vfChoice("path", 2) == 1 {
		c.withPath()
	}
	c.finish(1)
	vfAssert((m.join(c.welcome()) == nil) == ok, "joined exactly if the tree is valid")
	vfReach("end")
}

func vfH_C19_big() {
	x := vfBig(258)
	x.remove(vfFar)
	wires := x.addLib(2, vfChoice("path", 2) == 1, 2)
	vfAssert(x.lib[vfFar] == wires[0], "the first newcomer takes the hole")
	x.agree()
	x.speak(256)
	x.refresh()
	x.agree()
	vfReach("end")
}

func vfH_C21_big() {
	x := vfBig(258)
	x.speak([]int{vfFar, 255, 128, 1}[vfChoice("first", 4)])
	x.refresh()
	x.speak([]int{256, 200}[vfChoice("second", 2)])
	x.refresh()
	x.agree()
	vfReach("end")
}
