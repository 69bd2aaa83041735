package mls

// vfLeaf is a leaf with arbitrary contents.
func vfLeaf(source uint8) *rLeaf {
	return &rLeaf{
		enc: vfBytes("enc", 1), sigKey: vfBytes("sigkey", 1), cred: rBasic(vfBytes("name", 1)),
		caps: rCaps(vfSuites[0]), source: source, nb: 1, na: 2, parentHash: vfBytes("leafhash", 1), sig: vfBytes("sig", 1),
	}
}

// vfPattern is a tree for n leaves with arbitrary contents and any of the
// patterns of blank nodes and unmerged leaves a group can have: the tree has
// a member in its right half, and since newcomers take the leftmost hole,
// unmerged leaves are left of all holes.
func vfPattern(n int, present []bool, parent func(lo, hi int) int) rTree {
	t := make(rTree, 2*n-1)
	last := -1
	for i, p := range present {
		if p {
			t[2*i] = &rNode{leaf: vfLeaf(1)}
			last = i
		}
	}
	vfAssume(last >= n/2)
	var fill func(lo, hi int)
	fill = func(lo, hi int) {
		if hi-lo == 1 {
			return
		}
		m := (lo + hi) / 2
		fill(lo, m)
		fill(m, hi)
		k := parent(lo, hi)
		if k < 0 {
			return
		}
		p := &rNode{enc: vfBytes("parent", 1), parentHash: vfBytes("hash", 1)}
		hole := false
		for i := lo; i < hi; i++ {
			if k>>(i-lo)&1 == 1 {
				vfAssume(!hole && present[i])
				p.unmerged = append(p.unmerged, uint32(i))
			}
			hole = hole || !present[i]
		}
		t[rMid(lo, hi)] = p
	}
	fill(0, n)
	return t
}

// vfSmall is any tree of up to 4 leaves.
func vfSmall() rTree {
	n := 1 << vfChoice("depth", 3)
	present := make([]bool, n)
	for i := range present {
		present[i] = vfChoice("present", 2) == 1
	}
	return vfPattern(n, present, func(lo, hi int) int { return vfChoice("parent", 1+1<<(hi-lo)) - 1 })
}

// vfLarge is a tree of 8 leaves (in the thorough tier also 16): up to two
// holes or up to two members besides the last, and parents that are blank,
// filled or filled except above one leaf, possibly with an unmerged leaf.
func vfLarge() rTree {
	n := 8 << vfChoice("depth", vfBound("depth", 1, 2))
	present := make([]bool, n)
	few := vfChoice("few", 2) == 1
	for i := range present {
		present[i] = !few
	}
	a := vfChoice("a", n)
	b := a + vfChoice("b", n-a)
	present[a], present[b] = few, few
	if few {
		present[n/2+vfChoice("last", n/2)] = true
	}
	mode := vfChoice("parents", 4)
	at := vfChoice("at", vfBound("at", 3, n)) * (n - 1) / (vfBound("at", 3, n) - 1)
	return vfPattern(n, present, func(lo, hi int) int {
		in := lo <= at && at < hi
		switch {
		case mode == 0 || mode == 1 && in:
			return -1
		case mode == 2 && in:
			return 1 << (at - lo)
		}
		return 0
	})
}

func vfLibTree(t rTree) ratchetTree {
	var l ratchetTree
	vfAssert(unmarshal(t.bytes(), &l) == nil, "a tree is decoded")
	return l
}

func vfSameTree(l ratchetTree, t rTree, what string) {
	b, err := marshal(&l)
	vfAssert(err == nil && vfEqual(b, t.bytes()), what)
	vfAssert(int(l.numLeaves()) == t.leaves(), "the tree has the right size")
}

func vfLibProposal(b []byte) *proposal {
	p := new(proposal)
	vfAssert(unmarshal(b, p) == nil, "a proposal is decoded")
	return p
}

func vfSomeKP() *rKP {
	return &rKP{s: rSuiteOf(vfSuites[0]), version: 1, suite: uint16(vfSuites[0]), init: vfBytes("init", 1), leaf: vfLeaf(1), sig: vfBytes("kpsig", 1)}
}

func vfC08Op(t rTree) {
	l := vfLibTree(t)
	vfSameTree(l, t, "a tree survives")
	before := t.clone()
	cp := l.copy()
	switch vfChoice("op", 3) {
	case 0:
		k := vfSomeKP()
		p := vfLibProposal(rAdd(k))
		li := l.add(&p.add.keyPackage.leafNode)
		t2, i := t.add(k.leaf)
		vfAssert(int(li) == i, "the newcomer gets the leftmost free leaf")
		vfSameTree(l, t2, "adding changes the tree as it should")
	case 1:
		leaf := vfLeaf(2)
		p := vfLibProposal(rUpdate(leaf))
		i := vfChoice("leaf", t.leaves())
		vfAssume(t.leaf(i) != nil)
		l.update(leafIndex(i), &p.update.leafNode)
		t[2*i] = &rNode{leaf: leaf}
		t.blankPath(i)
		vfSameTree(l, t, "updating changes the tree as it should")
	case 2:
		i := vfChoice("leaf", t.leaves())
		vfAssume(t.leaf(i) != nil)
		members := 0
		for j := 0; j < t.leaves(); j++ {
			if t.leaf(j) != nil {
				members++
			}
		}
		vfAssume(members > 1)
		l.remove(leafIndex(i))
		vfSameTree(l, t.remove(i), "removing changes the tree as it should")
	}
	vfSameTree(cp, before, "copies are independent")
	vfReach("end")
}

func vfH_C08_small() { vfC08Op(vfSmall()) }
func vfH_C08_large() { vfC08Op(vfLarge()) }

// Lists of proposals in any order: updates first, then removals, then
// additions.
func vfH_C08_list() {
	n := 4 << vfChoice("depth", vfBound("depth", 1, 2))
	present := make([]bool, n)
	for i := range present {
		present[i] = true
	}
	present[vfChoice("hole", n)] = false
	mode := vfChoice("parents", 2)
	t := vfPattern(n, present, func(lo, hi int) int { return mode - 1 })
	l := vfLibTree(t)
	var props []proposal
	var senders []leafIndex
	var ch []rChange
	used := make([]bool, n)
	left := 0
	for _, p := range present {
		if p {
			left++
		}
	}
	num := 1 + vfChoice("len", vfBound("len", 3, 4))
	for i := 0; i < num; i++ {
		by := 0
		switch vfChoice("kind", 3) {
		case 0:
			k := vfSomeKP()
			props = append(props, *vfLibProposal(rAdd(k)))
			ch = append(ch, rChange{add: k, remove: -1})
		case 1:
			by = vfChoice("by", n)
			vfAssume(present[by] && !used[by])
			used[by] = true
			leaf := vfLeaf(2)
			props = append(props, *vfLibProposal(rUpdate(leaf)))
			ch = append(ch, rChange{by: by, update: leaf, remove: -1})
		case 2:
			r := vfChoice("removed", n)
			vfAssume(present[r] && !used[r])
			used[r] = true
			left--
			props = append(props, *vfLibProposal(rRemove(uint32(r))))
			ch = append(ch, rChange{remove: r})
		}
		senders = append(senders, leafIndex(by))
	}
	vfAssume(left > 0)
	l.apply(props, senders)
	t2, _ := rApply(t, ch)
	vfSameTree(l, t2, "a list changes the tree as it should")
	vfReach("end")
}

// The same as members see it: the tree they reach is the one of the peer,
// because its hash is confirmed, and newcomers are placed in it.
func vfH_C08_members() {
	n := 2 + vfChoice("n", vfBound("n", 4, 7))
	x := vfNewMixed(vfSuites[0])
	x.addRef(n)
	x.addLib(1, vfChoice("path", 2) == 1, 1)
	var list [][]byte
	var ch []rChange
	a := 1 + vfChoice("a", n)
	b := a + vfChoice("b", n-a+1)
	for i := a; i <= b; i++ {
		if i != a && i != b {
			continue
		}
		list = append(list, rByValue(rRemove(uint32(i))))
		ch = append(ch, rChange{remove: i})
		delete(x.keys, i)
	}
	for i := vfChoice("adds", 4); i > 0; i-- {
		k := rKeyPackage(x.g.s, "new")
		list = append(list, rByValue(rAdd(k)))
		ch = append(ch, rChange{add: k, remove: -1})
	}
	c := x.g.commit(list, ch).withPath().finish(1)
	x.deliver(c)
	for i, j := range c.added {
		x.keys[j] = c.adds[i]
	}
	x.agree()
	x.invite(x.members()[0], 1+vfChoice("invited", 2))
	x.agree()
	x.refresh()
	x.agree()
	vfReach("end")
}

// A member whose leaf is the last is removed by others until the tree halves,
// and grows again.
func vfH_C08_shrink() {
	n := 4 + vfChoice("n", vfBound("n", 2, 5))
	x := vfNewMixed(vfSuites[vfChoice("suite", vfBound("suites", 1, 4))])
	x.addLib(1, false, 1)
	x.addRef(n)
	for k := 1 + vfChoice("k", n); k > 0; k-- {
		x.remove(1 + n - k + 1)
	}
	x.agree()
	x.invite(x.members()[0], 1+vfChoice("invited", 2))
	x.agree()
	vfReach("end")
}
