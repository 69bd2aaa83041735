package mls

// Groups of library members, built through the exported API, and groups
// shared with the reference peer.

type vfMember struct {
	cs    CipherSuite
	kpp   *KeyPairPackage
	group *Group
}

var vfSuites = []CipherSuite{
	CipherSuiteMLS_128_DHKEMX25519_AES128GCM_SHA256_Ed25519,
	CipherSuiteMLS_128_DHKEMP256_AES128GCM_SHA256_P256,
	CipherSuiteMLS_128_DHKEMX25519_CHACHA20POLY1305_SHA256_Ed25519,
	CipherSuiteMLS_256_DHKEMP384_AES256GCM_SHA384_P384,
}

func vfNewMember(cs CipherSuite, name string) *vfMember {
	kpp, err := GenerateKeyPairPackage(cs, NewBasicCredential([]byte(name)))
	vfAssert(err == nil, "key package generation succeeds")
	return &vfMember{cs: cs, kpp: kpp}
}

// vfDelta is what callers do to their buffers after a call: all bytes change
// by it.
var vfDelta uint8

// vfWatched is what callers keep when they do not reuse buffers, and what was
// in them.
var vfWatching bool
var vfWatched [][2][]byte

// vfSettled checks that buffers the caller kept still hold what they did.
func vfSettled() {
	for _, w := range vfWatched {
		vfAssert(vfEqual(w[0], w[1]), "buffers keep their contents")
	}
	vfWatching, vfWatched = false, nil
}

// vfLend calls f with a copy of b, which f must not change and which is
// overwritten afterwards when buffers are reused.
func vfLend(b []byte, f func([]byte)) {
	if vfDelta == 0 && !vfWatching {
		f(b)
		return
	}
	c := append([]byte(nil), b...)
	f(c)
	vfAssert(vfEqual(c, b), "the input is left as it was")
	vfSpoil(c)
}

// vfSpoil overwrites a buffer when buffers are reused.
func vfSpoil(b []byte) {
	if vfWatching {
		vfWatched = append(vfWatched, [2][]byte{b, append([]byte(nil), b...)})
	}
	if vfDelta == 0 {
		return
	}
	for i := range b {
		b[i] ^= vfDelta
	}
}

// vfKept is a copy of a result that is overwritten afterwards.
func vfKept(b []byte) []byte {
	if vfDelta == 0 && !vfWatching {
		return b
	}
	c := append([]byte(nil), b...)
	vfSpoil(b)
	return c
}

func (m *vfMember) join(welcome []byte) error {
	var w *Welcome
	var err error
	vfLend(welcome, func(b []byte) { w, err = UnmarshalWelcome(b) })
	if err != nil {
		return err
	}
	g, err := GroupFromWelcome(w, m.kpp)
	if err == nil {
		m.group = g
	}
	return err
}

// recv processes a message that carries no application data.
func (m *vfMember) recv(msg []byte) error {
	var out []byte
	var err error
	vfLend(msg, func(b []byte) { out, err = m.group.UnmarshalAndProcessMessage(b) })
	vfAssert(err == nil || out == nil, "an error comes without data")
	vfAssert(err != nil || out == nil, "handshake messages carry no data")
	return err
}

// rkp is the key package as the reference peer sees it.
func (m *vfMember) rkp() *rKP {
	in := rIn{b: vfKept(m.kpp.Public.Bytes())}
	vfAssert(in.u16() == 1 && in.u16() == 5, "key package message header")
	k := rReadKP(rSuiteOf(m.cs), &in)
	vfAssert(!in.bad && len(in.b) == 0, "key package is well-formed")
	k.initPriv, k.encPriv, k.sigPriv = m.kpp.Private.InitKey, m.kpp.Private.EncryptionKey, m.kpp.Private.SignatureKey
	return k
}

// vfAdd lets members[by] invite n newcomers; everybody follows.
func vfAdd(members []*vfMember, by, n int) []*vfMember {
	cs := members[by].cs
	var joiners []*vfMember
	var kps []KeyPackage
	for i := 0; i < n; i++ {
		m := vfNewMember(cs, string(rune('a'+len(members)+i)))
		joiners = append(joiners, m)
		kps = append(kps, m.kpp.Public)
	}
	wel, msg, err := members[by].group.CreateWelcome(kps)
	vfAssert(err == nil, "welcome creation succeeds")
	for _, m := range members {
		vfAssert(m.recv(msg) == nil, "members process the commit")
	}
	raw := wel.Bytes()
	for _, m := range joiners {
		vfAssert(m.join(raw) == nil, "invited member joins")
	}
	return append(members, joiners...)
}

// vfGroup creates a group of n members invited one after the other.
func vfGroup(cs CipherSuite, n int) []*vfMember {
	m := vfNewMember(cs, "a")
	var err error
	m.group, err = CreateGroup(GroupID("group"), m.kpp)
	vfAssert(err == nil, "group creation succeeds")
	members := []*vfMember{m}
	for len(members) < n {
		members = vfAdd(members, 0, 1)
	}
	return members
}

// vfMixed is a group with one reference peer and library members.  Leaf i is
// held by lib[i], the peer itself (g.me) or a silent reference member whose
// keys are in keys[i].
type vfMixed struct {
	g    *rGroup
	lib  map[int]*vfMember
	keys map[int]*rKP
	rnd  uint32 // decides in long histories
}

func vfNewMixed(cs CipherSuite) *vfMixed {
	k := rKeyPackage(rSuiteOf(cs), "ref")
	return &vfMixed{g: rNewGroup(k, vfBytes("group", 5)), lib: map[int]*vfMember{}, keys: map[int]*rKP{0: k}}
}

// vfAged is a group of any age and name with two library members.
func vfAged(cs CipherSuite) *vfMixed {
	k := rKeyPackage(rSuiteOf(cs), "ref")
	id := vfBytes("group", []int{0, 1, 16, 64, 300}[vfChoice("idlen", 5)])
	x := &vfMixed{g: rNewGroup(k, id), lib: map[int]*vfMember{}, keys: map[int]*rKP{0: k}}
	if vfChoice("extensions", 2) == 1 {
		x.g.exts = rCat(rU16(0xff00), rVec(vfBytes("extension", 2)))
	}
	x.g.epoch = vfU64("epoch")
	vfAssume(x.g.epoch < 1<<64-16)
	x.addLib(2, vfChoice("path", 2) == 1, 1)
	return x
}

func (x *vfMixed) members() []*vfMember {
	var r []*vfMember
	for i := 0; i < x.g.tree.leaves(); i++ {
		if m := x.lib[i]; m != nil {
			r = append(r, m)
		}
	}
	return r
}

// deliver gives a commit to all library members and checks they follow.
func (x *vfMixed) deliver(c *rCommit) {
	msg := c.message()
	for i := 0; i < x.g.tree.leaves(); i++ {
		m := x.lib[i]
		if m == nil {
			continue
		}
		if c.tree.leaf(i) == nil || rHasInt(c.added, i) {
			delete(x.lib, i)
			continue
		}
		vfAssert(m.recv(msg) == nil, "members accept an honest commit")
	}
	x.g = c.next
}

// addLib invites library members, with or without a path.
func (x *vfMixed) addLib(n int, path bool, wire uint16) []*vfMember {
	var ms []*vfMember
	var list [][]byte
	var ch []rChange
	for i := 0; i < n; i++ {
		m := vfNewMember(x.g.s.id, string(rune('A'+i)))
		k := m.rkp()
		ms = append(ms, m)
		list = append(list, rByValue(rAdd(k)))
		ch = append(ch, rChange{add: k, remove: -1})
	}
	c := x.g.commit(list, ch)
	if path {
		c.withPath()
	}
	c.finish(wire)
	w := c.welcome()
	x.deliver(c)
	for i, m := range ms {
		vfAssert(m.join(w) == nil, "an honest invitee joins")
		x.lib[c.added[i]] = m
	}
	return ms
}

// addRef adds silent reference members by a commit without path.
func (x *vfMixed) addRef(n int) {
	var list [][]byte
	var ch []rChange
	for i := 0; i < n; i++ {
		k := rKeyPackage(x.g.s, string(rune('r'+i)))
		list = append(list, rByValue(rAdd(k)))
		ch = append(ch, rChange{add: k, remove: -1})
	}
	c := x.g.commit(list, ch).finish(1)
	x.deliver(c)
	for i, li := range c.added {
		x.keys[li] = ch[i].add
	}
}

// remove removes a leaf, with the path this requires.
func (x *vfMixed) remove(i int) {
	c := x.g.commit([][]byte{rByValue(rRemove(uint32(i)))}, []rChange{{remove: i}})
	x.deliver(c.withPath().finish(1))
	delete(x.keys, i)
}

// refresh commits an empty list with a path.
func (x *vfMixed) refresh() { x.deliver(x.g.commit(nil, nil).withPath().finish(1)) }

// as returns the state of the silent reference member at leaf i, which has
// followed the group.
func (x *vfMixed) as(i int) *rGroup {
	g := x.g.clone()
	g.me = i
	g.sigPriv = x.keys[i].sigPriv
	g.priv = map[int][]byte{2 * i: x.keys[i].encPriv}
	return g
}

// agree checks by exchanging messages that all library members share the
// state of the reference peer.
func (x *vfMixed) agree() {
	text := vfBytes("text", 2)
	ping := x.g.application(text)
	for _, m := range x.members() {
		var out, pong []byte
		var err error
		vfLend(ping, func(b []byte) { out, err = m.group.UnmarshalAndProcessMessage(b) })
		vfAssert(err == nil && vfEqual(out, text), "members read messages of the peer")
		vfSpoil(out)
		vfLend(text, func(b []byte) { pong, err = m.group.CreateApplicationMessage(b) })
		vfAssert(err == nil, "members create messages")
		pong = vfKept(pong)
		f, _, ok := x.g.open(pong)
		vfAssert(ok && f.ct == 1 && vfEqual(f.body, text), "the peer reads messages of members")
	}
}

// vfFlip changes one byte of b, at any position, to any other value.
func vfFlip(b []byte) []byte {
	c := append([]byte(nil), b...)
	d := vfU8("delta")
	vfAssume(d != 0)
	c[vfInt("pos", 0, len(c))] ^= d
	return c
}

// vfFlipAt is vfFlip with a case split over the position, for messages the
// receiver has to parse.
func vfFlipAt(b []byte) []byte {
	c := append([]byte(nil), b...)
	d := vfU8("delta")
	vfAssume(d != 0)
	c[vfChoice("pos", len(c))] ^= d
	return c
}

// speak makes reference member i the one who acts; its keys have not changed
// since it was added.
func (x *vfMixed) speak(i int) { x.g = x.as(i) }

// refs lists the leaves of silent reference members.
func (x *vfMixed) refs() []int {
	var r []int
	for i := 0; i < x.g.tree.leaves(); i++ {
		if x.keys[i] != nil {
			r = append(r, i)
		}
	}
	return r
}

// libs lists the leaves of library members.
func (x *vfMixed) libs() []int {
	var r []int
	for i := 0; i < x.g.tree.leaves(); i++ {
		if x.lib[i] != nil {
			r = append(r, i)
		}
	}
	return r
}

// invite lets library member m invite n library members.
func (x *vfMixed) invite(m *vfMember, n int) {
	var joiners []*vfMember
	var kps []KeyPackage
	for i := 0; i < n; i++ {
		j := vfNewMember(x.g.s.id, string(rune('A'+i)))
		joiners = append(joiners, j)
		kps = append(kps, j.kpp.Public)
	}
	wel, msg, err := m.group.CreateWelcome(kps)
	vfAssert(err == nil, "welcome creation succeeds")
	msg = vfKept(msg)
	for _, o := range x.members() {
		vfAssert(o.recv(msg) == nil, "members accept an invitation of the library")
	}
	vfAssert(x.g.follow(msg), "the peer accepts an invitation of the library")
	raw := vfKept(wel.Bytes())
	for _, j := range joiners {
		vfAssert(j.join(raw) == nil, "an honest invitee joins")
		key := j.rkp().leaf.enc
		for i := 0; i < x.g.tree.leaves(); i++ {
			if l := x.g.tree.leaf(i); l != nil && vfEqual(l.enc, key) {
				x.lib[i] = j
			}
		}
	}
}

// propose sends a proposal of member by to everybody.
func (x *vfMixed) propose(by *rGroup, p []byte, wire uint16) []byte {
	f := by.frame(2, p, wire)
	by.sign(f)
	msg := by.public(f)
	if wire == 2 {
		msg = by.private(f, by.sender(0))
	}
	for _, m := range x.members() {
		vfAssert(m.recv(msg) == nil, "members accept an honest proposal")
	}
	return by.proposalRef(f)
}

// vfOps is the number of operations of step.
const vfOps = 9

// pick chooses who acts in step.
func (x *vfMixed) pick(name string, n int) int {
	if x.rnd == 0 {
		return vfChoice(name, n)
	}
	x.rnd = x.rnd*1664525 + 1013904223 | 1
	return int(x.rnd>>12) % n
}

// step performs one membership operation and checks that everybody follows.
func (x *vfMixed) step(op int) {
	refs, libs := x.refs(), x.libs()
	switch op {
	case 0:
		x.addLib(1, false, 1)
	case 1:
		x.addLib(1, true, 2)
	case 2:
		x.addRef(1)
	case 3: // another reference member commits a path
		x.speak(refs[x.pick("committer", len(refs))])
		x.refresh()
	case 4: // remove a library member
		vfAssume(len(libs) > 1)
		x.remove(libs[x.pick("removed", len(libs))])
	case 5: // remove a reference member
		i := refs[x.pick("removed", len(refs))]
		vfAssume(i != x.g.me)
		x.remove(i)
	case 6: // the library invites
		vfAssume(len(libs) > 0)
		x.invite(x.lib[libs[x.pick("inviter", len(libs))]], 1)
	case 7: // update of a silent member by reference
		i := refs[x.pick("updated", len(refs))]
		vfAssume(i != x.g.me)
		by := x.as(i)
		l, priv := vfUpdateLeaf(by)
		ref := x.propose(by, rUpdate(l), 1)
		x.deliver(x.g.commit([][]byte{rByRef(ref)}, []rChange{{by: i, update: l, remove: -1}}).withPath().finish(1))
		k := *x.keys[i]
		k.encPriv = priv
		x.keys[i] = &k
	case 8: // remove and add in one commit
		i := refs[x.pick("removed", len(refs))]
		vfAssume(i != x.g.me)
		m := vfNewMember(x.g.s.id, "M")
		k := m.rkp()
		c := x.g.commit([][]byte{rByValue(rAdd(k)), rByValue(rRemove(uint32(i)))}, []rChange{{add: k, remove: -1}, {remove: i}})
		c.withPath().finish(2)
		w := c.welcome()
		x.deliver(c)
		delete(x.keys, i)
		vfAssert(m.join(w) == nil, "an honest invitee joins")
		x.lib[c.added[0]] = m
	}
}

// vfShared is a group of the reference peer, nlib library members and nref
// silent reference members.
func vfShared(cs CipherSuite, nlib, nref int) *vfMixed {
	x := vfNewMixed(cs)
	if nref > 0 {
		x.addRef(nref)
	}
	x.addLib(nlib, true, 1)
	return x
}

// vfFounded is a group that the library created; its creator invited nlib
// library members and the reference peer together.
func vfFounded(cs CipherSuite, id []byte, nlib int) *vfMixed {
	a := vfNewMember(cs, "founder")
	g, err := CreateGroup(id, a.kpp)
	vfAssert(err == nil, "group creation succeeds")
	a.group = g
	k := rKeyPackage(rSuiteOf(cs), "ref")
	var pkg *KeyPackage
	vfLend(k.message(), func(b []byte) { pkg, err = UnmarshalKeyPackage(b) })
	vfAssert(err == nil, "a well-formed key package decodes")
	kps := []KeyPackage{*pkg}
	x := &vfMixed{lib: map[int]*vfMember{0: a}, keys: map[int]*rKP{1: k}}
	for i := 0; i < nlib; i++ {
		m := vfNewMember(cs, string(rune('A'+i)))
		x.lib[2+i] = m
		kps = append(kps, m.kpp.Public)
	}
	wel, msg, err := g.CreateWelcome(kps)
	vfAssert(err == nil, "welcome creation succeeds")
	vfAssert(a.recv(vfKept(msg)) == nil, "the creator follows its own commit")
	raw := vfKept(wel.Bytes())
	var ok bool
	x.g, ok = rJoin(k, raw)
	vfAssert(ok && vfEqual(x.g.id, id) && x.g.epoch == 1 && x.g.me == 1, "the peer joins")
	for i := 0; i < nlib; i++ {
		vfAssert(x.lib[2+i].join(raw) == nil, "an honest invitee joins")
	}
	return x
}

// vfUpdateLeaf is a fresh leaf of the member at leaf i for an update proposal.
func vfUpdateLeaf(g *rGroup) (*rLeaf, []byte) {
	l := *g.tree.leaf(g.me)
	l.source = 2
	var priv []byte
	l.enc, priv = g.s.encKeys()
	l.sign(g.s, g.sigPriv, g.id, uint32(g.me))
	return &l, priv
}

// vfTry delivers a commit that is acceptable or not and checks that everybody
// is in the expected epoch afterwards.
func (x *vfMixed) vfTry(c *rCommit, ok bool, what string) {
	msg := c.message()
	for _, m := range x.members() {
		vfAssert((m.recv(msg) == nil) == ok, what)
	}
	if ok {
		x.g = c.next
	}
	x.agree()
}
