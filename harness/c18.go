package mls

// rLinked decides whether the parent node over [lo,hi) is linked by its
// parent hash to exactly one of its sides.  strict adds the condition of RFC
// 9420 section 7.9.2 on unmerged leaves.
func (t rTree) rLinked(s *rSuite, lo, hi int, strict bool) bool {
	n := t[rMid(lo, hi)]
	m := (lo + hi) / 2
	side := func(lo, hi, slo, shi int) bool {
		ph := s.hash(rVec(n.enc), rVec(n.parentHash), rVec(t.hash(s, slo, shi, n.unmerged)))
		res := t.resolve(lo, hi)
		for _, x := range res {
			d := t[x]
			have := d.parentHash
			if d.leaf != nil {
				have = nil
				if d.leaf.source == 3 {
					have = d.leaf.parentHash
				}
			}
			if !vfEqual(have, ph) {
				continue
			}
			if strict {
				same := true
				for _, y := range res {
					same = same && (y == x || y%2 == 0 && rHas(n.unmerged, uint32(y/2)))
				}
				for _, u := range n.unmerged {
					if int(u) >= lo && int(u) < hi {
						same = same && rHasInt(res, 2*int(u)) && 2*int(u) != x
					}
				}
				if !same {
					continue
				}
			}
			return true
		}
		return false
	}
	return side(lo, m, m, hi) != side(m, hi, lo, m)
}

// rIntact decides the tree checks of RFC 9420 section 12.4.3.1 that are not
// about single leaves.
func (t rTree) rIntact(s *rSuite, strict bool) bool {
	var keys, sigs [][]byte
	var walk func(lo, hi int) bool
	walk = func(lo, hi int) bool {
		n := t[rMid(lo, hi)]
		if n != nil {
			for _, k := range keys {
				if vfEqual(k, n.key()) {
					return false
				}
			}
			keys = append(keys, n.key())
		}
		if hi-lo == 1 {
			if n != nil {
				for _, k := range sigs {
					if vfEqual(k, n.leaf.sigKey) {
						return false
					}
				}
				sigs = append(sigs, n.leaf.sigKey)
			}
			return true
		}
		if n != nil {
			if !t.rLinked(s, lo, hi, strict) {
				return false
			}
		}
		m := (lo + hi) / 2
		return walk(lo, m) && walk(m, hi)
	}
	return t.rUnmerged(0, t.leaves()) && walk(0, t.leaves())
}

// rUnmerged decides the rules on unmerged leaves.
func (t rTree) rUnmerged(lo, hi int) bool {
	if hi-lo == 1 {
		return true
	}
	if n := t[rMid(lo, hi)]; n != nil {
		for _, u := range n.unmerged {
			if u < uint32(lo) || u >= uint32(hi) || t.leaf(int(u)) == nil {
				return false
			}
			for _, st := range t.path(int(u)) {
				if b := t[st.node()]; st.hi-st.lo < hi-lo && b != nil && !rHas(b.unmerged, u) {
					return false
				}
			}
		}
	}
	m := (lo + hi) / 2
	return t.rUnmerged(lo, m) && t.rUnmerged(m, hi)
}

// vfSome is any value below n; the quick tier takes three of them.
func vfSome(name string, n int) int {
	if vfBound("exhaustive", 0, 1) == 1 || n <= 3 {
		return vfChoice(name, n)
	}
	return []int{0, 1, n - 1}[vfChoice(name, 3)]
}

// vfShape builds a group of reference members with parent nodes of different
// age, unmerged leaves and holes.
func vfShape(cs CipherSuite) *vfMixed {
	x := vfNewMixed(cs)
	n := []int{3, 4, 2, 5, 6}[vfChoice("members", vfBound("members", 2, 5))]
	x.addRef(n)
	x.speak(vfSome("first", n+1))
	x.refresh()
	switch vfChoice("then", 4) {
	case 1:
		x.addRef(1)
	case 2:
		x.speak(vfSome("second", n+1))
		x.refresh()
	case 3:
		i := vfSome("removed", n+1)
		vfAssume(i != x.g.me)
		x.remove(i)
		x.addRef(1)
	}
	return x
}

// vfParents lists the filled parent nodes.
func (t rTree) vfParents() []int {
	var r []int
	for i := 1; i < len(t); i += 2 {
		if t[i] != nil {
			r = append(r, i)
		}
	}
	return r
}

// vfTamper changes one thing in the tree.
func (x *vfMixed) vfTamper(t rTree, how int) {
	s := x.g.s
	ps := t.vfParents()
	if how == 0 {
		return
	}
	p := ps[vfChoice("parent", len(ps))]
	c := *t[p]
	n := &c
	switch how {
	case 1:
		n.enc = vfFlip(n.enc)
	case 2:
		n.enc, _ = s.encKeys()
	case 3:
		if len(n.parentHash) == 0 {
			n.parentHash = vfBytes("ph", 4)
		} else {
			n.parentHash = vfFlip(n.parentHash)
		}
	case 4:
		vfAssume(len(n.parentHash) > 0)
		n.parentHash = nil
	case 5: // unmerged leaves anywhere, also outside of the tree
		n.unmerged = append(append([]uint32(nil), n.unmerged...), uint32(vfChoice("leaf", t.leaves()+2)))
		u := n.unmerged
		for i := len(u) - 1; i > 0 && u[i] < u[i-1]; i-- {
			u[i], u[i-1] = u[i-1], u[i]
		}
		for i := 1; i < len(u); i++ {
			vfAssume(u[i] != u[i-1])
		}
	case 6:
		n.unmerged = []uint32{vfU32("leaf")}
		vfAssume(n.unmerged[0] >= uint32(t.leaves()))
	case 7: // one less
		vfAssume(len(n.unmerged) > 0)
		i := vfChoice("gone", len(n.unmerged))
		n.unmerged = append(append([]uint32(nil), n.unmerged[:i]...), n.unmerged[i+1:]...)
	case 8: // blank
		n = nil
	case 9: // the key of another node
		var ks [][]byte
		for i, o := range t {
			if o != nil && i != p {
				ks = append(ks, o.key())
			}
		}
		n.enc = ks[vfSome("dup", len(ks))]
	case 10: // a leaf with another parent hash
		i := vfChoice("leaf", t.leaves())
		vfAssume(t.leaf(i) != nil && t.leaf(i).source == 3 && x.keys[i] != nil)
		l := *t.leaf(i)
		l.parentHash = vfFlip(l.parentHash)
		l.sign(s, x.keys[i].sigPriv, x.g.id, uint32(i))
		t[2*i] = &rNode{leaf: &l}
		return
	case 11: // a filled node where none was
		var q []int
		for i := 1; i < len(t); i += 2 {
			if t[i] == nil {
				q = append(q, i)
			}
		}
		vfAssume(len(q) > 0)
		n = &rNode{}
		n.enc, _ = s.encKeys()
		p = q[vfChoice("filled", len(q))]
	case 12: // another member's fresh leaf
		i := vfChoice("leaf", t.leaves())
		vfAssume(t.leaf(i) != nil && x.keys[i] != nil)
		l := *t.leaf(i)
		l.enc, _ = s.encKeys()
		l.sign(s, x.keys[i].sigPriv, x.g.id, uint32(i))
		t[2*i] = &rNode{leaf: &l}
		return
	case 13: // a blank leaf where a member was
		i := vfChoice("leaf", t.leaves())
		vfAssume(t.leaf(i) != nil && x.keys[i] != nil && i != x.g.me)
		t[2*i] = nil
		return
	case 14: // two members swap their leaves
		i := vfChoice("leaf", t.leaves()-1)
		vfAssume(t[2*i] != nil && t[2*i+2] != nil && x.keys[i] != nil && x.keys[i+1] != nil)
		t[2*i], t[2*i+2] = t[2*i+2], t[2*i]
		for _, j := range []int{i, i + 1} {
			if l := t.leaf(j); l.source != 1 {
				for _, k := range x.keys {
					if vfEqual(k.leaf.sigKey, l.sigKey) {
						d := *l
						d.sign(s, k.sigPriv, x.g.id, uint32(j))
						t[2*j] = &rNode{leaf: &d}
					}
				}
			}
		}
		return
	}
	t[p] = n
}

// A newcomer accepts exactly the trees that are intact; the group context
// always has the hash of the tree, as a malicious member can arrange.
func vfH_C18_tampered() {
	x := vfShape(vfSuites[0])
	m := vfNewMember(x.g.s.id, "m")
	k := m.rkp()
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}})
	how := vfChoice("how", 15)
	x.vfTamper(c.tree, how)
	vfAssume(c.tree.leaf(x.g.me) != nil && vfEqual(c.tree.leaf(x.g.me).sigKey, x.g.tree.leaf(x.g.me).sigKey))
	c.finish(1)
	ok := c.tree.rIntact(x.g.s, false)
	vfAssume(ok == c.tree.rIntact(x.g.s, true))
	vfAssert(how != 0 || ok, "honest trees are intact")
	vfAssert((m.join(c.welcome()) == nil) == ok, "joined exactly if the tree is intact")
	vfReach("end")
}

// Paths with keys used twice, with correct hashes and signatures throughout.
func vfH_C18_keys() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfNewMixed(cs)
	n := 3 + vfChoice("members", vfBound("members", 1, 3))
	x.addRef(n)
	x.speak(vfChoice("first", n+1))
	x.refresh()
	x.speak(vfChoice("second", n+1))
	g := x.g
	c := g.commit(nil, nil).startPath()
	vfAssume(len(c.path.nodes) > 0)
	i := vfChoice("node", len(c.path.nodes))
	how := vfChoice("how", 3)
	var ks [][]byte
	for j, o := range c.tree {
		if o != nil && j != c.path.nodes[i].node {
			ks = append(ks, o.key())
		}
	}
	switch how {
	case 1:
		c.path.nodes[i].enc = ks[vfSome("dup", len(ks))]
	case 2: // a key of the leaf itself
		c.path.nodes[i].enc = c.path.leaf.enc
	}
	c.tree[c.path.nodes[i].node].enc = c.path.nodes[i].enc
	g.setHashes(c.tree, c.path, c.steps)
	m := vfNewMember(cs, "m")
	k := m.rkp()
	c.finish(1)
	x.g = c.next
	d := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}}).finish(1)
	vfAssert((m.join(d.welcome()) == nil) == (how == 0), "joined exactly if all keys differ")
	vfReach("end")
}

// The tree in the welcome must be the one the group context names.
func vfH_C18_hash() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfNewMixed(cs)
	x.addRef(3)
	x.speak(1)
	x.refresh()
	m := vfNewMember(cs, "m")
	k := m.rkp()
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}}).finish(1)
	info := c.next.info()
	t := c.next.tree.clone()
	how := vfChoice("how", 8)
	switch how {
	case 1: // a tree with other, equally valid members
		y := rKeyPackage(x.g.s, "other")
		t[0] = &rNode{leaf: y.leaf}
		info.exts = rTreeExt(t)
	case 2:
		y := rKeyPackage(x.g.s, "other")
		t, _ = t.add(y.leaf)
		info.exts = rTreeExt(t)
	case 3:
		t.blankPath(0)
		info.exts = rTreeExt(t)
	case 4:
		info.exts = rTreeExt(x.g.tree)
	case 5:
		info.exts = nil
	case 6: // another extension before it
		info.exts = rCat(rU16(0xff00), rVec(vfBytes("ext", 2)), info.exts)
	case 7: // only the first tree counts, or none
		t.blankPath(0)
		info.exts = rTreeExt(t)
		info.ctx = rContext(x.g.s, x.g.id, c.next.epoch, vfFlip(c.next.tree.root(x.g.s)), c.next.confirmed, nil)
	}
	if how == 5 {
		vfAssume(len(info.exts) == 0)
	}
	info.sig = x.g.s.sign(c.next.sigPriv, "GroupInfoTBS", info.tbs())
	w := c.next.welcomeBytes([]*rSecret{c.invite(0)}, c.next.sealInfo(info))
	vfAssert((m.join(w) == nil) == (how == 0 || how == 6), "joined exactly if the tree is the announced one")
	vfReach("end")
}

// A malicious member may derive everything from a group context that names
// another tree, or none.
func vfH_C18_context() { vfWrongTree() }

func vfWrongTree() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfNewMixed(cs)
	x.addRef(1 + vfChoice("members", 3))
	s := x.g.s
	m := vfNewMember(cs, "m")
	k := m.rkp()
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}})
	if vfChoice("path", 2) == 1 {
		c.withPath()
	}
	root := c.tree.root(s)
	how := vfChoice("how", 7)
	c.g = c.g.clone()
	c.g.wrongHash = how != 0
	switch how {
	case 2: // none
		c.g.treeHash = nil
	case 3: // cut short
		c.g.treeHash = root[:1+vfChoice("n", len(root)-1)]
	case 4:
		c.g.treeHash = rCat(root, vfBytes("extra", 1))
	case 5: // of the previous tree
		c.g.treeHash = x.g.tree.root(s)
	case 6:
		c.g.treeHash = vfFlip(root)
	case 1:
		c.g.treeHash = vfBytes("hash", len(root))
	}
	c.finish(1)
	vfAssert((m.join(c.welcome()) == nil) == (how == 0), "joined exactly if the tree is the announced one")
	vfReach("end")
}

// Any member's leaf may be the invalid one, with the newcomer before or after
// it.
func vfH_C18_leaves() { vfBadLeaf() }

func vfBadLeaf() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 1, 4))]
	x := vfNewMixed(cs)
	n := []int{4, 3, 8, 5, 7}[vfChoice("members", vfBound("members", 3, 5))]
	x.addRef(n - 1)
	bad := vfChoice("bad", n)
	hole := vfChoice("hole", n+1) // n: the newcomer comes last
	vfAssume(hole != bad)
	if hole < n {
		x.speak(bad)
		c := x.g.commit([][]byte{rByValue(rRemove(uint32(hole)))}, []rChange{{remove: hole}})
		if vfChoice("path", 2) == 1 {
			c.withPath()
		}
		x.deliver(c.finish(1))
		delete(x.keys, hole)
	}
	s := x.g.s
	speaker := x.refs()[vfChoice("speaker", 2)]
	x.speak(speaker)
	l := *x.g.tree.leaf(bad)
	priv := x.keys[bad].sigPriv
	var others []int
	for _, i := range x.refs() {
		if i != bad {
			others = append(others, i)
		}
	}
	o := others[vfSome("other", len(others))]
	how := vfChoice("how", 6)
	switch how {
	case 1:
		l.sig = vfFlip(l.sig)
	case 2:
		l.sig = nil
	case 3: // the encryption key of somebody else
		l.enc = x.g.tree.leaf(o).enc
	case 4: // the signature key of somebody else
		vfAssume(bad != speaker)
		priv = x.keys[o].sigPriv
		l.sigKey = x.keys[o].leaf.sigKey
	case 5: // an extension it does not list
		l.exts = rCat(rU16(0xff00), rVec(vfBytes("ext", 1)))
	}
	if how > 2 {
		l.sign(s, priv, x.g.id, uint32(bad))
	}
	m := vfNewMember(cs, "m")
	k := m.rkp()
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}})
	c.tree[2*bad] = &rNode{leaf: &l}
	c.finish(1)
	vfAssert((m.join(c.welcome()) == nil) == (how == 0), "joined exactly if every leaf is valid")
	vfReach("end")
}

// Leaves of a malicious group may name their parent node on both sides, or on
// none, with leaves being unmerged or not.
func vfH_C18_sides() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 1, 4))]
	x := vfNewMixed(cs)
	n := 1 + 2*vfChoice("members", 2)
	x.addRef(n)
	x.refresh()
	s := x.g.s
	m := vfNewMember(cs, "m")
	k := m.rkp()
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}})
	t := c.tree
	// the node over all old leaves, or the one over the first two
	hi := n + 1
	if n == 3 && vfChoice("low", 2) == 1 {
		hi = 2
	}
	q := *t[rMid(0, hi)]
	p := &q
	p.unmerged = nil
	for i := 0; i < hi; i++ {
		if vfChoice("unmerged", 2) == 1 {
			p.unmerged = append(p.unmerged, uint32(i))
		}
	}
	t[rMid(0, hi)] = p
	if n == 3 && hi == 4 {
		// directly above the leaves nothing is left
		t[rMid(0, 2)], t[rMid(2, 4)] = nil, nil
	}
	if n == 3 && hi == 2 {
		t[rMid(0, 4)] = nil
	}
	link := func(i, lo, hi int) {
		l := *t.leaf(i)
		l.source = 3
		l.parentHash = s.hash(rVec(p.enc), rVec(p.parentHash), rVec(t.hash(s, lo, hi, p.unmerged)))
		if vfChoice("wrong", 2) == 1 {
			d := vfU8("delta")
			vfAssume(d != 0)
			l.parentHash[0] ^= d
		}
		l.sign(s, x.keys[i].sigPriv, x.g.id, uint32(i))
		t[2*i] = &rNode{leaf: &l}
	}
	i := vfChoice("left", hi/2)
	j := hi/2 + vfChoice("right", hi/2)
	if vfChoice("first", 2) == 0 {
		link(i, hi/2, hi)
		link(j, 0, hi/2)
	} else {
		link(j, 0, hi/2)
		link(i, hi/2, hi)
	}
	c.finish(1)
	ok := t.rIntact(s, false)
	vfAssume(ok == t.rIntact(s, true))
	vfAssert((m.join(c.welcome()) == nil) == ok, "joined exactly if the tree is intact")
	vfReach("end")
}
