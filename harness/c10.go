package mls

func vfHashOf(l ratchetTree, cs CipherSuite) []byte {
	h, err := l.computeRootTreeHash(cs)
	vfAssert(err == nil, "the tree hash is computed")
	return h
}

// The hashes of all subtrees are those of the definition, also with leaves
// excluded.
func vfC10Value(t rTree, s *rSuite) {
	l := vfLibTree(t)
	vfAssert(vfEqual(vfHashOf(l, s.id), t.root(s)), "the root hash is that of the definition")
	var without []uint32
	exclude := map[leafIndex]struct{}{}
	a := uint32(vfChoice("excluded", t.leaves()))
	b := uint32((int(a) + 1 + vfChoice("excluded", vfBound("excluded", 1, 4))) % t.leaves())
	without = []uint32{a, b}
	exclude[leafIndex(a)] = struct{}{}
	exclude[leafIndex(b)] = struct{}{}
	var all func(lo, hi int)
	all = func(lo, hi int) {
		h, err := l.computeTreeHash(s.id, nodeIndex(rMid(lo, hi)), nil)
		vfAssert(err == nil && vfEqual(h, t.hash(s, lo, hi, nil)), "hashes of subtrees are those of the definition")
		h, err = l.computeTreeHash(s.id, nodeIndex(rMid(lo, hi)), exclude)
		vfAssert(err == nil && vfEqual(h, t.hash(s, lo, hi, without)), "hashes with excluded leaves are those of the definition")
		if hi-lo > 1 {
			m := (lo + hi) / 2
			all(lo, m)
			all(m, hi)
		}
	}
	all(0, t.leaves())
	vfReach("end")
}

func vfH_C10_small() { vfC10Value(vfSmall(), rSuiteOf(vfSuites[0])) }

func vfH_C10_large() {
	t := vfLarge()
	vfAssume(t.leaves() <= 8)
	s := rSuiteOf(vfSuites[0])
	l := vfLibTree(t)
	vfAssert(vfEqual(vfHashOf(l, s.id), t.root(s)), "the root hash is that of the definition")
	a := vfSome("excluded", 8)
	b := (a + 1 + vfChoice("excluded", vfBound("excluded", 1, 7))) % 8
	span := [][2]int{{0, 8}, {0, 4}, {4, 8}}[vfChoice("subtree", 3)]
	lo, hi := span[0], span[1]
	h, err := l.computeTreeHash(s.id, nodeIndex(rMid(lo, hi)), map[leafIndex]struct{}{leafIndex(a): {}, leafIndex(b): {}})
	vfAssert(err == nil && vfEqual(h, t.hash(s, lo, hi, []uint32{uint32(a), uint32(b)})), "hashes with excluded leaves are those of the definition")
	vfReach("end")
}

func vfH_C10_suites() {
	s := rSuiteOf(vfSuites[vfChoice("suite", len(vfSuites))])
	present := []bool{true, vfChoice("present", 2) == 1, true, vfChoice("present", 2) == 1}
	t := vfPattern(4, present, func(lo, hi int) int { return vfChoice("parent", 3) - 1 })
	vfC10Value(t, s)
}

// Two trees with the same hash are the same, whatever they contain.
func vfC10Distinct(t, u rTree) {
	s := rSuiteOf(vfSuites[0])
	same := vfEqual(vfHashOf(vfLibTree(t), s.id), vfHashOf(vfLibTree(u), s.id))
	vfAssert(vfImplies(same, vfEqual(t.bytes(), u.bytes())), "equal hashes mean equal trees")
	vfReach("end")
}

func vfH_C10_distinct() {
	shape := func() rTree {
		n := 1 << vfChoice("depth", 2)
		present := make([]bool, n)
		for i := range present {
			present[i] = vfChoice("present", 2) == 1
		}
		return vfPattern(n, present, func(lo, hi int) int { return vfChoice("parent", 1+1<<(hi-lo)) - 1 })
	}
	vfC10Distinct(shape(), shape())
}

// One node differs in shape, or any contents do.
func vfH_C10_distinct4() {
	present := [4]bool{true, true, true, true}
	for i := range present {
		present[i] = vfChoice("present", 2) == 1
	}
	kind := [3]int{vfChoice("parent", 3), vfChoice("parent", 3), vfChoice("parent", 3)}
	shape := func(present [4]bool, kind [3]int) rTree {
		return vfPattern(4, present[:], func(lo, hi int) int {
			k := kind[2]
			if hi-lo == 2 {
				k = kind[lo/2]
			}
			return k - 1
		})
	}
	t := shape(present, kind)
	if d := vfChoice("differs", 7); d < 4 {
		present[d] = !present[d]
	} else {
		kind[d-4] = vfChoice("other", 3)
	}
	vfC10Distinct(t, shape(present, kind))
}

// Lengths of neighbouring fields cannot be traded against each other.
func vfH_C10_lengths() {
	leaf := func() *rLeaf {
		l := vfLeaf(uint8(1 + vfChoice("source", 3)))
		switch vfChoice("field", 6) {
		case 1:
			l.enc = vfBytes("enc", 2)
		case 2:
			l.sigKey = vfBytes("sigkey", 2)
		case 3:
			l.parentHash = vfBytes("leafhash", 2)
		case 4:
			l.sig = vfBytes("sig", 0)
		case 5:
			l.exts = rCat(rU16(vfU16("type")), rVec(vfBytes("ext", 1)))
		}
		return l
	}
	parent := func() *rNode {
		p := &rNode{enc: vfBytes("parent", 1), parentHash: vfBytes("hash", 1)}
		switch vfChoice("pfield", 3) {
		case 1:
			p.enc = vfBytes("parent", 2)
		case 2:
			p.parentHash = nil
		}
		return p
	}
	if vfChoice("what", 2) == 0 {
		vfC10Distinct(rTree{{leaf: leaf()}}, rTree{{leaf: leaf()}})
	} else {
		vfC10Distinct(rTree{{leaf: vfLeaf(1)}, parent(), {leaf: vfLeaf(1)}}, rTree{{leaf: vfLeaf(1)}, parent(), {leaf: vfLeaf(1)}})
	}
}

// As members see it: a commit computed for another tree is rejected, and one
// for the right tree accepted.
func vfH_C10_members() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 1, 4))]
	x := vfShared(cs, 1, 2+vfChoice("refs", vfBound("refs", 2, 4)))
	if vfChoice("refresh", 2) == 1 {
		x.refresh()
		x.addRef(1)
	}
	g := x.g
	k := rKeyPackage(g.s, "new")
	c := g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}}).finish(1)
	t := c.tree.clone()
	i := vfChoice("node", len(t)+1)
	if i < len(t) {
		n := t[i]
		how := vfChoice("how", 4)
		switch {
		case n == nil && i%2 == 0:
			vfAssume(how == 0)
			t[i] = &rNode{leaf: k.leaf}
		case n == nil:
			vfAssume(how == 0)
			t[i] = &rNode{enc: vfBytes("key", 1)}
		case how == 0:
			t[i] = nil
		case n.leaf != nil:
			l := *n.leaf
			switch how {
			case 1:
				l.enc = vfFlip(l.enc)
			case 2:
				l.sig = vfFlip(l.sig)
			case 3:
				l.cred = vfFlip(l.cred)
			}
			t[i] = &rNode{leaf: &l}
		default:
			switch how {
			case 1:
				n.enc = vfFlip(n.enc)
			case 2:
				n.parentHash = rCat(n.parentHash, rU8(0))
			case 3:
				if len(n.unmerged) > 0 {
					n.unmerged = n.unmerged[1:]
				} else {
					n.unmerged = []uint32{0}
				}
			}
		}
	}
	ok := i == len(t)
	if !ok {
		c.next = g.next(t, c.frame, g.s.zero(), g.s.zero())
		c.frame.tag = c.next.tag
	}
	x.vfTry(c, ok, "accepted exactly if computed for the real tree")
	vfReach("end")
}
