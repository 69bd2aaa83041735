package mls

import "time"

const vfMaxLife = 90 * 86400

// vfValidAt is the rule, for a time of sec seconds and nsec nanoseconds.
func vfValidAt(nb, na, sec, nsec uint64) bool {
	in := vfAnd(vfOr(nb < sec, vfAnd(nb == sec, nsec > 0)), sec < na)
	return vfAnd(vfAnd(nb < na, na-nb <= vfMaxLife), in)
}

// All 64-bit bounds and all current times from April 1970 for 30000 years.
func vfH_C20_rule() {
	nb, na := vfU64("nb"), vfU64("na")
	sec, nsec := vfU64("sec"), vfU64("nsec")
	vfAssume(sec > vfMaxLife)
	vfAssume(sec < 1<<40)
	vfAssume(nsec < 1000000000)
	lt := lifetime{notBefore: nb, notAfter: na}
	vfAssert(lt.verify(time.Unix(int64(sec), int64(nsec))) == vfValidAt(nb, na, sec, nsec), "valid exactly within the bounds")
	vfReach("end")
}

// vfLife gives a leaf any lifetime, except that its bounds are not within two
// seconds of now, and tells whether it is valid.
func vfLife(l *rLeaf) bool {
	// The clock of the model stands still; when the case is run, all times
	// are moved by how late it is then.
	const then = 1790000000
	now := uint64(vfNow())
	nb, na := vfU64("nb"), vfU64("na")
	vfAssume(vfOr(nb < then-2, nb > then+2))
	vfAssume(vfOr(na < then-2, na > then+2))
	l.nb, l.na = nb+(now-then), na+(now-then)
	return vfAnd(vfAnd(l.nb < l.na, l.na-l.nb <= vfMaxLife), vfAnd(l.nb < now, now < l.na))
}

// Leaves that are added.
func vfH_C20_added() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfShared(cs, 1, 1+vfChoice("refs", 2))
	k := rKeyPackage(x.g.s, "new")
	ok := vfLife(k.leaf)
	k.leaf.sign(x.g.s, k.sigPriv, nil, 0)
	k.signOuter()
	changes := []rChange{{add: k, remove: -1}}
	list := [][]byte{rByValue(rAdd(k))}
	by := x.as(x.refs()[0])
	switch vfChoice("how", 4) {
	case 1: // by reference
		f := by.frame(2, rAdd(k), 1)
		by.sign(f)
		for _, m := range x.members() {
			m.recv(by.public(f))
		}
		list = [][]byte{rByRef(by.proposalRef(f))}
	case 2: // after another
		o := rKeyPackage(x.g.s, "other")
		list = [][]byte{rByValue(rAdd(o)), list[0]}
		changes = []rChange{{add: o, remove: -1}, changes[0]}
	case 3: // before another
		o := rKeyPackage(x.g.s, "other")
		list = append(list, rByValue(rAdd(o)))
		changes = append(changes, rChange{add: o, remove: -1})
	}
	c := x.g.commit(list, changes)
	if vfChoice("path", 2) == 1 {
		c.withPath()
	}
	x.vfTry(c.finish(uint16(1+vfChoice("wire", 2))), ok, "added exactly while the lifetime is valid")
	vfReach("end")
}

// Leaves of a tree one joins; members who refreshed have no lifetime.
func vfH_C20_joined() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfNewMixed(cs)
	x.addRef(1 + vfChoice("members", vfBound("members", 3, 5)))
	refs := x.refs()
	x.speak(refs[vfChoice("by", len(refs))])
	path := vfChoice("path", 2) == 1
	m := vfNewMember(cs, "lib")
	k := m.rkp()
	c := x.g.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}})
	at := refs[vfChoice("at", len(refs))]
	ok := true
	if at != x.g.me || !path {
		l := *c.tree.leaf(at)
		ok = vfLife(&l)
		l.sign(x.g.s, x.keys[at].sigPriv, nil, 0)
		c.tree[2*at] = &rNode{leaf: &l}
	}
	if path {
		c.withPath()
	}
	c.finish(1)
	vfAssert((m.join(c.welcome()) == nil) == ok, "joined exactly while the lifetimes are valid")
	vfReach("end")
}

// Leaves without a lifetime are accepted at any time, and so are all when
// checking is disabled.
func vfH_C20_disabled() {
	cs := vfSuites[0]
	x := vfNewMixed(cs)
	x.addRef(1)
	s := x.g.s
	t := x.g.tree.clone()
	l := *t.leaf(1)
	l.nb, l.na = vfU64("nb"), vfU64("na")
	l.sign(s, x.keys[1].sigPriv, nil, 0)
	t[2] = &rNode{leaf: &l}
	var ctx groupContext
	vfAssert(unmarshal(rContext(s, x.g.id, 1, t.root(s), s.zero(), nil), &ctx) == nil, "a group context is decoded")
	none := func() time.Time { return time.Time{} }
	vfAssert(vfLibTree(t).verifyIntegrity(&ctx, none) == nil, "no lifetime is checked when disabled")
	sec := vfU64("sec")
	vfAssume(sec > vfMaxLife)
	vfAssume(sec < 1<<40)
	u, _ := vfUpdateLeaf(x.as(1))
	v := u
	if vfChoice("commit", 2) == 1 {
		w := *u
		w.source = 3
		v = &w
		v.sign(s, x.keys[1].sigPriv, x.g.id, 1)
	}
	t[2] = &rNode{leaf: v}
	t0 := *t.leaf(0)
	t0.nb, t0.na = sec-1, sec+1
	t0.sign(s, x.keys[0].sigPriv, nil, 0)
	t[0] = &rNode{leaf: &t0}
	vfAssert(unmarshal(rContext(s, x.g.id, 1, t.root(s), s.zero(), nil), &ctx) == nil, "a group context is decoded")
	then := func() time.Time { return time.Unix(int64(sec), 0) }
	vfAssert(vfLibTree(t).verifyIntegrity(&ctx, then) == nil, "leaves without lifetime are accepted at any time")
	vfReach("end")
}

// Generated key packages are valid now and for less than 90 days.
func vfH_C20_generated() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	l := vfNewMember(cs, "lib").rkp().leaf
	now := uint64(vfNow())
	vfAssert(l.nb <= now && now+60 < l.na && l.na-l.nb <= vfMaxLife, "valid now")
	vfReach("end")
}
