package mls

// C01: index arithmetic against the complete binary tree.  A node is described
// by its level l and its position j within the level; its array index is
// j*2^(l+1) + 2^l - 1.

func vfNode(l int, j uint32) nodeIndex {
	return nodeIndex(j<<uint(l+1) | (uint32(1)<<uint(l) - 1))
}

// vfTreeNode picks a tree of 2^k leaves and any node of it.
func vfTreeNode(kmax int) (n numLeaves, k, l int, j uint32) {
	k = vfChoice("k", kmax+1)
	l = vfChoice("level", k+1)
	j = vfU32("pos")
	vfAssume(uint64(j) < uint64(1)<<uint(k-l))
	return numLeaves(uint32(1) << uint(k)), k, l, j
}

func vfH_C01_neighbours() {
	n, k, l, j := vfTreeNode(31)
	x := vfNode(l, j)

	vfAssert(uint64(n.width()) == uint64(2)<<uint(k)-1, "width is twice the leaves minus one")
	vfAssert(uint32(n.root()) == uint32(1)<<uint(k)-1, "root index")
	p, ok := n.parent(x)
	vfAssert(ok == (l < k), "only the root has no parent")
	s, sok := n.sibling(x)
	vfAssert(sok == (l < k), "only the root has no sibling")
	if l < k {
		vfAssert(p == vfNode(l+1, j>>1), "parent index")
		vfAssert(s == vfNode(l, j^1), "sibling index")
	}
	left, lok := x.left()
	right, rok := x.right()
	vfAssert(lok == (l > 0) && rok == (l > 0), "exactly the leaves have no children")
	if l > 0 {
		vfAssert(left == vfNode(l-1, 2*j), "left child index")
		vfAssert(right == vfNode(l-1, 2*j+1), "right child index")
	}
	vfObserve("parent", uint64(p))
	vfObserve("sibling", uint64(s))
	vfObserve("left", uint64(left))
	vfReach("end")
}

func vfH_C01_level() {
	_, _, l, j := vfTreeNode(31)
	x := vfNode(l, j)
	vfAssert(x.level() == uint32(l), "level")
	vfAssert(x.isLeaf() == (l == 0), "leaf test")
	a, b, ok := x.children()
	vfAssert(ok == (l > 0), "children exist above level zero")
	if l > 0 {
		vfAssert(a == vfNode(l-1, 2*j) && b == vfNode(l-1, 2*j+1), "children indices")
	}
	li, ok := x.leafIndex()
	vfAssert(ok == (l == 0), "leaf number exists exactly for leaves")
	if l == 0 {
		vfAssert(uint32(li) == j, "leaf number")
		vfAssert(li.nodeIndex() == x, "node of leaf of node")
	}
	vfReach("end")
}

func vfH_C01_paths() {
	n, k, l, j := vfTreeNode(31)
	x := vfNode(l, j)
	dp := n.directPath(x)
	cp := n.copath(x)
	vfAssert(len(dp) == k-l, "direct path length")
	vfAssert(len(cp) == k-l, "copath length")
	for i := 0; i < k-l; i++ {
		vfAssert(dp[i] == vfNode(l+i+1, j>>uint(i+1)), "direct path node")
		vfAssert(cp[i] == vfNode(l+i, (j>>uint(i))^1), "copath node")
	}
	vfReach("end")
}

// Lowest common ancestor of any two nodes of any tree.
func vfH_C01_ancestor() {
	kmax := vfBound("ancestor tree log2", 31, 31)
	lx := vfChoice("lx", kmax+1)
	ly := vfChoice("ly", kmax+1)
	jx, jy := vfU32("jx"), vfU32("jy")
	vfAssume(uint64(jx) < uint64(1)<<uint(kmax-lx) && uint64(jy) < uint64(1)<<uint(kmax-ly))
	x, y := vfNode(lx, jx), vfNode(ly, jy)
	a := commonAncestor(x, y)
	// climb from the higher level to the first common node
	m := lx
	if ly > m {
		m = ly
	}
	want, found := nodeIndex(0), false
	for h := m; h <= kmax; h++ {
		same := jx>>uint(h-lx) == jy>>uint(h-ly)
		if same && !found {
			want, found = vfNode(h, jx>>uint(h-lx)), true
			break
		}
	}
	vfAssert(found, "nodes of one tree have a common ancestor")
	vfAssert(a == want, "lowest common ancestor")
	vfReach("end")
}

func vfH_C01_conversions() {
	w := vfU32("width")
	n := numLeavesFromWidth(w)
	if w == 0 {
		vfAssert(n == 0, "no nodes, no leaves")
	} else {
		vfAssert(uint64(n) == (uint64(w)+1)/2, "leaves of a width")
	}
	if w%2 == 1 || w == 0 {
		vfAssert(n.width() == w, "width of leaves of width")
	}
	m := numLeaves(vfU32("leaves"))
	vfAssume(m <= 1<<31)
	vfAssert(numLeavesFromWidth(m.width()) == m, "leaves of width of leaves")
	li := leafIndex(vfU32("leaf"))
	vfAssume(li < 1<<31)
	back, ok := li.nodeIndex().leafIndex()
	vfAssert(ok && back == li, "leaf of node of leaf")
	vfAssert(uint64(li.nodeIndex()) == 2*uint64(li), "node of leaf")
	x := vfU32("power")
	bits := 0
	for i := 0; i < 32; i++ {
		bits += int(x >> uint(i) & 1)
	}
	vfAssert(isPowerOf2(x) == (bits == 1), "power of two test")
	vfReach("end")
}

func vfH_C01_log2() {
	x := vfU32("x")
	k := log2(x)
	if x == 0 {
		vfAssert(k == 0, "log2 of zero")
	} else {
		vfAssert(k < 32 && x>>k == 1, "log2 is the position of the highest bit")
	}
	vfReach("end")
}
