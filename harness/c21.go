package mls

// vfLibAt builds a group of n members in which the library is at leaf at, and
// everybody else is a reference member.
func vfLibAt(cs CipherSuite, n, at int) *vfMixed {
	x := vfNewMixed(cs)
	if at > 1 {
		x.addRef(at - 1)
	}
	x.addLib(1, vfChoice("joinpath", 2) == 1, 1)
	if n > at+1 {
		x.addRef(n - at - 1)
	}
	return x
}

// Paths of any committer are read by the library anywhere in the tree, twice
// in a row, so that the keys obtained from the first are used for the second.
func vfH_C21_pairs() {
	n := 2 + vfChoice("n", vfBound("n", 5, 7))
	at := 1 + vfChoice("at", n-1)
	x := vfLibAt(vfSuites[0], n, at)
	for i := 0; i < 2; i++ {
		refs := x.refs()
		x.speak(refs[vfChoice("committer", len(refs))])
		x.refresh()
		x.agree()
	}
	vfReach("end")
}

// The same with holes and unmerged leaves, for several library members.
func vfH_C21_patterns() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 1, 4))]
	n := 4 + vfChoice("n", vfBound("n", 2, 5))
	at := 1 + vfSome("at", n-1)
	x := vfLibAt(cs, n, at)
	refs := x.refs()
	x.speak(refs[vfSome("committer", len(refs))])
	x.refresh()
	switch vfChoice("then", 4) {
	case 0:
		i := refs[vfSome("removed", len(refs))]
		vfAssume(i != x.g.me)
		x.remove(i)
	case 1:
		x.addLib(1, false, 2)
	case 2:
		i := refs[vfSome("removed", len(refs))]
		vfAssume(i != x.g.me)
		x.remove(i)
		x.addLib(1, vfChoice("path", 2) == 1, 1)
	case 3:
		i := refs[vfSome("updated", len(refs))]
		vfAssume(i != x.g.me)
		by := x.as(i)
		l, _ := vfUpdateLeaf(by)
		ref := x.propose(by, rUpdate(l), 1)
		x.deliver(x.g.commit([][]byte{rByRef(ref)}, []rChange{{by: i, update: l, remove: -1}}).withPath().finish(1))
		delete(x.keys, i)
	}
	x.agree()
	refs = x.refs()
	x.speak(refs[vfSome("committer2", len(refs))])
	x.refresh()
	x.agree()
	vfReach("end")
}

// vfMine finds the ciphertext for the member at leaf: the index of the path
// node and of the ciphertext in it.
func (c *rCommit) vfMine(leaf int) (int, int) {
	for i, st := range c.steps {
		if leaf < st.slo || leaf >= st.shi {
			continue
		}
		for j, x := range c.path.nodes[i].to {
			lo, hi := x/2, x/2+1
			for w := 1; rMid(lo, hi) != x; w *= 2 {
				lo = (x / 2) / (2 * w) * (2 * w)
				hi = lo + 2*w
			}
			if lo <= leaf && leaf < hi && (x == 2*leaf || !rHas(c.tree[x].unmerged, uint32(leaf))) {
				return i, j
			}
		}
	}
	vfAssert(false, "somebody has no ciphertext")
	return 0, 0
}

// Paths that do not fit.
func vfH_C21_altered() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	n := 3 + vfChoice("n", vfBound("n", 2, 4))
	at := 1 + vfSome("at", n-1)
	x := vfLibAt(cs, n, at)
	if vfChoice("refreshed", 2) == 1 {
		refs := x.refs()
		x.speak(refs[len(refs)-1])
		x.refresh()
		x.speak(0)
	}
	g, s := x.g, x.g.s
	c := g.commit(nil, nil).startPath()
	p := c.path
	last := len(p.nodes) - 1
	how := vfChoice("how", 25)
	rehash := func() { g.setHashes(c.tree, p, c.steps) }
	put := func(i int, key []byte) {
		p.nodes[i].enc = key
		c.tree[p.nodes[i].node].enc = key
		rehash()
	}
	switch how {
	case 1: // a key the secret does not give
		k, _ := s.encKeys()
		i := vfChoice("node", last+1)
		// below the library the mismatch is not its to see
		mine := 0
		for j, st := range c.steps {
			if st.slo <= at && at < st.shi {
				mine = j
			}
		}
		vfAssume(i >= mine)
		put(i, k)
	case 2: // a key of another leaf
		put(vfChoice("node", last+1), g.tree.leaf(at).enc)
	case 3: // the key of another path node
		vfAssume(last > 0)
		put(0, p.nodes[last].enc)
	case 4:
		put(vfChoice("node", last+1), p.leaf.enc)
	case 21: // a correct path whose leaf does not point to it
		p.leaf.parentHash = vfFlip(p.leaf.parentHash)
	case 22:
		p.leaf.parentHash = nil
	case 23:
		p.leaf.parentHash = p.leaf.parentHash[:vfInt("cut", 1, len(p.leaf.parentHash))]
	case 24:
		p.leaf.parentHash = rCat(p.leaf.parentHash, vfBytes("extra", 1))
	}
	if how > 20 {
		p.leaf.sign(s, g.sigPriv, g.id, uint32(g.me))
	}
	c.sealPath()
	i, j := c.vfMine(at)
	mine := p.nodes[i]
	other := func(sec, ctx []byte, label string, key []byte) {
		mine.cts[j] = s.seal(key, label, ctx, sec)
	}
	key := c.tree[mine.to[j]].key()
	switch how {
	case 5: // path too long
		k, _ := s.encKeys()
		p.nodes = append(p.nodes, &rPathNode{enc: k, cts: [][]byte{s.seal(key, "UpdatePathNode", c.pathCtx, p.last)}})
	case 6: // too short
		p.nodes = p.nodes[:last]
	case 7:
		p.nodes = nil
	case 8: // ciphertexts missing
		k := vfChoice("node", last+1)
		p.nodes[k].cts = p.nodes[k].cts[:len(p.nodes[k].cts)-1]
	case 9: // and surplus
		k := vfChoice("node", last+1)
		p.nodes[k].cts = append(p.nodes[k].cts, s.seal(key, "UpdatePathNode", c.pathCtx, p.nodes[k].sec))
	case 10: // another secret
		other(vfFlip(mine.sec), c.pathCtx, "UpdatePathNode", key)
	case 11: // another context
		other(mine.sec, g.context(), "UpdatePathNode", key)
	case 12:
		other(mine.sec, vfFlip(c.pathCtx), "UpdatePathNode", key)
	case 13:
		other(mine.sec, c.pathCtx, "Welcome", key)
	case 14:
		k, _ := s.encKeys()
		other(mine.sec, c.pathCtx, "UpdatePathNode", k)
	case 15:
		in := rIn{b: mine.cts[j]}
		enc := in.vec()
		ct := in.vec()
		mine.cts[j] = rCat(rVec(enc), rVec(vfFlip(ct)))
	case 16:
		in := rIn{b: mine.cts[j]}
		enc := in.vec()
		ct := in.vec()
		mine.cts[j] = rCat(rVec(vfFlip(enc)), rVec(ct))
	case 17: // in another order
		vfAssume(len(mine.cts) > 1)
		k := 0
		if j == 0 {
			k = 1
		}
		mine.cts[j], mine.cts[k] = mine.cts[k], mine.cts[j]
	case 18: // nodes in another order
		vfAssume(last > 0)
		p.nodes[0], p.nodes[last] = p.nodes[last], p.nodes[0]
	case 19: // secrets of another length
		other(mine.sec[:len(mine.sec)-1], c.pathCtx, "UpdatePathNode", key)
	case 20:
		other(nil, c.pathCtx, "UpdatePathNode", key)
	}
	x.vfTry(c.finish(uint16(1+vfChoice("wire", 2))), how == 0, "accepted exactly if the path fits")
	vfReach("end")
}

// Members of sparse trees, who joined with or without a path, follow paths
// from everywhere.
func vfH_C21_sparse() {
	x := vfSparse(vfSuites[0])
	refs := x.refs()
	x.addLib(1, vfChoice("path", 2) == 1, 1)
	for i := vfBound("commits", 2, 3); i > 0; i-- {
		x.speak(refs[vfSome("committer", len(refs))])
		x.refresh()
		x.agree()
	}
	x.speak(refs[len(refs)-1])
	x.refresh()
	x.agree()
	vfReach("end")
}

// Newcomers who take any free leaf with the path they are left out of.
func vfH_C21_newcomers() {
	n := 4 + vfChoice("n", vfBound("newcomer members", 2, 4))
	at := 1 + vfChoice("at", n-1)
	hole := vfChoice("hole", n)
	vfAssume(hole != at)
	x := vfLibAt(vfSuites[0], n, at)
	// fill the parents
	for _, i := range x.refs() {
		if i != hole {
			x.speak(i)
			x.refresh()
		}
	}
	x.remove(hole)
	refs := x.refs()
	x.speak(refs[0])
	x.refresh()
	x.speak(refs[len(refs)-1])
	x.refresh()
	x.speak(refs[vfChoice("by", len(refs))])
	x.addLib(1+vfChoice("libs", 2), true, 1)
	x.agree()
	x.speak(refs[vfSome("next", len(refs))])
	x.refresh()
	x.agree()
	vfReach("end")
}

// Paths before and after the tree grows and shrinks.
func vfH_C21_grown() {
	n := []int{2, 4, 3}[vfChoice("n", vfBound("n", 2, 3))]
	at := 1 + vfChoice("at", n-1)
	x := vfLibAt(vfSuites[vfChoice("suite", vfBound("suites", 1, 4))], n, at)
	path := func(name string) {
		refs := x.refs()
		x.speak(refs[vfChoice(name, len(refs))])
		x.refresh()
		x.agree()
	}
	path("before")
	x.addRef(1 + vfChoice("more", 2))
	path("grown")
	var out []int
	for _, i := range x.refs() {
		if i >= n {
			out = append(out, i)
		}
	}
	x.speak(0)
	for _, i := range out {
		x.remove(i)
		x.agree()
	}
	if vfChoice("again", 2) == 1 {
		x.addRef(1)
		x.speak(n)
		x.refresh()
	} else {
		x.speak(0)
		x.refresh()
	}
	x.agree()
	vfReach("end")
}
