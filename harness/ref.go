package mls

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"hash"
	"math/big"
	"time"

	"github.com/cloudflare/circl/hpke"
)

// A reference peer: RFC 9420 written from the RFC on top of cryptographic
// primitives and byte strings, sharing no code with the package.  It creates
// groups, joins them, invites, proposes, commits and exchanges messages, and
// it can be told to deviate from the protocol.

// ---- byte strings

func rCat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

func rU8(v uint8) []byte   { return []byte{v} }
func rU16(v uint16) []byte { return []byte{byte(v >> 8), byte(v)} }
func rU32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }
func rU64(v uint64) []byte { return append(rU32(uint32(v>>32)), rU32(uint32(v))...) }

func rLen(n int) []byte {
	if n < 64 {
		return rU8(uint8(n))
	}
	if n < 16384 {
		return rU16(uint16(n) | 0x4000)
	}
	return rU32(uint32(n) | 0x80000000)
}

func rVec(parts ...[]byte) []byte {
	b := rCat(parts...)
	return append(rLen(len(b)), b...)
}

func rOpt(b []byte) []byte {
	if b == nil {
		return rU8(0)
	}
	return append(rU8(1), b...)
}

type rIn struct {
	b   []byte
	bad bool
}

func (s *rIn) take(n int) []byte {
	if s.bad || len(s.b) < n {
		s.bad = true
		return make([]byte, 8)
	}
	r := s.b[:n]
	s.b = s.b[n:]
	return r
}

func (s *rIn) u8() uint8   { return s.take(1)[0] }
func (s *rIn) u16() uint16 { b := s.take(2); return uint16(b[0])<<8 | uint16(b[1]) }
func (s *rIn) u32() uint32 { return uint32(s.u16())<<16 | uint32(s.u16()) }
func (s *rIn) u64() uint64 { return uint64(s.u32())<<32 | uint64(s.u32()) }

func (s *rIn) vec() []byte {
	n := int(s.u8())
	switch n >> 6 {
	case 1:
		n = (n&63)<<8 | int(s.u8())
	case 2:
		n = (n&63)<<24 | int(s.u8())<<16 | int(s.u16())
	case 3:
		s.bad = true
		n = 0
	}
	return s.take(n)
}

func (s *rIn) raw(f func()) []byte {
	before := s.b
	f()
	return before[:len(before)-len(s.b)]
}

// ---- cipher suites

type rSuite struct {
	id         CipherSuite
	hp         hpke.Suite
	kem        hpke.KEM
	kdf        hpke.KDF
	aead       hpke.AEAD
	newHash    func() hash.Hash
	nh, nk, nn int
	curve      elliptic.Curve // nil: Ed25519
}

func rSuiteOf(id CipherSuite) *rSuite {
	s := &rSuite{id: id, nh: 32, nk: 16, nn: 12, newHash: sha256.New}
	s.kem, s.kdf, s.aead = hpke.KEM_X25519_HKDF_SHA256, hpke.KDF_HKDF_SHA256, hpke.AEAD_AES128GCM
	switch uint16(id) {
	case 1:
	case 2:
		s.kem = hpke.KEM_P256_HKDF_SHA256
		s.curve = elliptic.P256()
	case 3:
		s.aead = hpke.AEAD_ChaCha20Poly1305
		s.nk = 32
	case 7:
		s.kem, s.kdf, s.aead = hpke.KEM_P384_HKDF_SHA384, hpke.KDF_HKDF_SHA384, hpke.AEAD_AES256GCM
		s.nh, s.nk, s.newHash = 48, 32, sha512.New384
		s.curve = elliptic.P384()
	default:
		panic("reference: cipher suite")
	}
	s.hp = hpke.NewSuite(s.kem, s.kdf, s.aead)
	return s
}

func (s *rSuite) hash(parts ...[]byte) []byte {
	h := s.newHash()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func (s *rSuite) mac(key []byte, parts ...[]byte) []byte {
	m := hmac.New(s.newHash, key)
	for _, p := range parts {
		m.Write(p)
	}
	return m.Sum(nil)
}

func (s *rSuite) random(n int) []byte {
	b := make([]byte, n)
	rand.Read(b)
	return b
}

func (s *rSuite) zero() []byte { return make([]byte, s.nh) }

func (s *rSuite) extract(salt, ikm []byte) []byte { return s.mac(salt, ikm) }

func (s *rSuite) expand(secret []byte, label string, context []byte, n int) []byte {
	info := rCat(rU16(uint16(n)), rVec([]byte("MLS 1.0 "+label)), rVec(context))
	var out, t []byte
	for i := 1; len(out) < n; i++ {
		t = s.mac(secret, t, info, rU8(uint8(i)))
		out = append(out, t...)
	}
	return out[:n]
}

func (s *rSuite) derive(secret []byte, label string) []byte {
	return s.expand(secret, label, nil, s.nh)
}

func (s *rSuite) refHash(label string, value []byte) []byte {
	return s.hash(rVec([]byte(label)), rVec(value))
}

func (s *rSuite) sigKeys() (pub, priv []byte) {
	if s.curve == nil {
		p, k, err := ed25519.GenerateKey(rand.Reader)
		if err != nil {
			panic("reference: keys")
		}
		return []byte(p), k.Seed()
	}
	k, err := ecdsa.GenerateKey(s.curve, rand.Reader)
	if err != nil {
		panic("reference: keys")
	}
	return elliptic.Marshal(s.curve, k.X, k.Y), k.D.Bytes()
}

func rSignContent(label string, content []byte) []byte {
	return rCat(rVec([]byte("MLS 1.0 "+label)), rVec(content))
}

func (s *rSuite) sign(priv []byte, label string, content []byte) []byte {
	msg := rSignContent(label, content)
	if s.curve == nil {
		return ed25519.Sign(ed25519.NewKeyFromSeed(priv), msg)
	}
	k := &ecdsa.PrivateKey{D: new(big.Int).SetBytes(priv)}
	k.Curve = s.curve
	k.X, k.Y = s.curve.ScalarBaseMult(priv)
	sig, err := ecdsa.SignASN1(rand.Reader, k, s.hash(msg))
	if err != nil {
		panic("reference: signing")
	}
	return sig
}

func (s *rSuite) verify(pub []byte, label string, content, sig []byte) bool {
	msg := rSignContent(label, content)
	if s.curve == nil {
		return len(pub) == ed25519.PublicKeySize && ed25519.Verify(ed25519.PublicKey(pub), msg, sig)
	}
	x, y := elliptic.Unmarshal(s.curve, pub)
	if x == nil {
		return false
	}
	return ecdsa.VerifyASN1(&ecdsa.PublicKey{Curve: s.curve, X: x, Y: y}, s.hash(msg), sig)
}

func (s *rSuite) encKeys() (pub, priv []byte) {
	return s.deriveKeys(s.random(s.kem.Scheme().SeedSize()))
}

func (s *rSuite) deriveKeys(seed []byte) (pub, priv []byte) {
	p, k := s.kem.Scheme().DeriveKeyPair(seed)
	pub, err1 := p.MarshalBinary()
	priv, err2 := k.MarshalBinary()
	if err1 != nil || err2 != nil {
		panic("reference: keys")
	}
	return pub, priv
}

// seal is EncryptWithLabel; the result is an encoded HPKECiphertext.
func (s *rSuite) seal(pub []byte, label string, context, plaintext []byte) []byte {
	info := rCat(rVec([]byte("MLS 1.0 "+label)), rVec(context))
	p, err := s.kem.Scheme().UnmarshalBinaryPublicKey(pub)
	if err != nil {
		panic("reference: public key")
	}
	snd, err := s.hp.NewSender(p, info)
	if err != nil {
		panic("reference: sender")
	}
	enc, sealer, err := snd.Setup(rand.Reader)
	if err != nil {
		panic("reference: setup")
	}
	ct, err := sealer.Seal(plaintext, nil)
	if err != nil {
		panic("reference: seal")
	}
	return rCat(rVec(enc), rVec(ct))
}

func (s *rSuite) open(priv []byte, label string, context, enc, ct []byte) ([]byte, bool) {
	info := rCat(rVec([]byte("MLS 1.0 "+label)), rVec(context))
	k, err := s.kem.Scheme().UnmarshalBinaryPrivateKey(priv)
	if err != nil {
		return nil, false
	}
	rcv, err := s.hp.NewReceiver(k, info)
	if err != nil {
		return nil, false
	}
	opener, err := rcv.Setup(enc)
	if err != nil {
		return nil, false
	}
	pt, err := opener.Open(ct, nil)
	return pt, err == nil
}

// unseal opens what seal returned.
func (s *rSuite) unseal(priv []byte, label string, context, sealed []byte) ([]byte, bool) {
	in := rIn{b: sealed}
	enc := in.vec()
	ct := in.vec()
	return s.open(priv, label, context, enc, ct)
}

func (s *rSuite) aeadSeal(key, nonce, plaintext, ad []byte) []byte {
	c, err := s.aead.New(key)
	if err != nil {
		panic("reference: aead")
	}
	return c.Seal(nil, nonce, plaintext, ad)
}

func (s *rSuite) aeadOpen(key, nonce, ciphertext, ad []byte) ([]byte, bool) {
	c, err := s.aead.New(key)
	if err != nil {
		return nil, false
	}
	pt, err := c.Open(nil, nonce, ciphertext, ad)
	return pt, err == nil
}

// ---- ratchet trees

type rLeaf struct {
	enc, sigKey []byte
	cred        []byte // encoded
	caps        []byte // encoded
	source      uint8
	nb, na      uint64 // source 1
	parentHash  []byte // source 3
	exts        []byte // contents of the vector
	sig         []byte
}

func (l *rLeaf) core() []byte {
	b := rCat(rVec(l.enc), rVec(l.sigKey), l.cred, l.caps, rU8(l.source))
	switch l.source {
	case 1:
		b = rCat(b, rU64(l.nb), rU64(l.na))
	case 3:
		b = rCat(b, rVec(l.parentHash))
	}
	return rCat(b, rVec(l.exts))
}

func (l *rLeaf) bytes() []byte { return rCat(l.core(), rVec(l.sig)) }

func (l *rLeaf) tbs(groupID []byte, at uint32) []byte {
	if l.source == 1 {
		return l.core()
	}
	return rCat(l.core(), rVec(groupID), rU32(at))
}

func (l *rLeaf) sign(s *rSuite, priv, groupID []byte, at uint32) {
	l.sig = s.sign(priv, "LeafNodeTBS", l.tbs(groupID, at))
}

func rReadLeaf(in *rIn) *rLeaf {
	l := &rLeaf{}
	l.enc = in.vec()
	l.sigKey = in.vec()
	l.cred = in.raw(func() { in.u16(); in.vec() })
	l.caps = in.raw(func() {
		for i := 0; i < 5; i++ {
			in.vec()
		}
	})
	l.source = in.u8()
	switch l.source {
	case 1:
		l.nb = in.u64()
		l.na = in.u64()
	case 3:
		l.parentHash = in.vec()
	}
	l.exts = in.vec()
	l.sig = in.vec()
	return l
}

type rNode struct {
	leaf *rLeaf

	// parent nodes
	enc, parentHash []byte
	unmerged        []uint32
}

func (n *rNode) key() []byte {
	if n.leaf != nil {
		return n.leaf.enc
	}
	return n.enc
}

func (n *rNode) parentBytes(without []uint32) []byte {
	var u []byte
	for _, x := range n.unmerged {
		if !rHas(without, x) {
			u = append(u, rU32(x)...)
		}
	}
	return rCat(rVec(n.enc), rVec(n.parentHash), rVec(u))
}

func rHas(l []uint32, x uint32) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// rTree has 2n-1 nodes for a power of two n; nil is blank.  A subtree is
// given by the range of its leaves.
type rTree []*rNode

func rMid(lo, hi int) int { return lo + hi - 1 }

func (t rTree) leaves() int { return (len(t) + 1) / 2 }

func (t rTree) leaf(i int) *rLeaf {
	if i < 0 || i >= t.leaves() || t[2*i] == nil {
		return nil
	}
	return t[2*i].leaf
}

func (t rTree) clone() rTree {
	r := make(rTree, len(t))
	for i, n := range t {
		if n != nil {
			c := *n
			c.unmerged = append([]uint32(nil), n.unmerged...)
			r[i] = &c
		}
	}
	return r
}

// rStep is a node of the direct path, as its leaf range, with the range of
// its child on the copath.
type rStep struct{ lo, hi, slo, shi int }

func (p rStep) node() int { return rMid(p.lo, p.hi) }

// path is the direct path of leaf i from the bottom to the root.
func (t rTree) path(i int) []rStep {
	var r []rStep
	lo, hi := 0, t.leaves()
	for hi-lo > 1 {
		m := (lo + hi) / 2
		if i < m {
			r = append(r, rStep{lo, hi, m, hi})
			hi = m
		} else {
			r = append(r, rStep{lo, hi, lo, m})
			lo = m
		}
	}
	for a, b := 0, len(r)-1; a < b; a, b = a+1, b-1 {
		r[a], r[b] = r[b], r[a]
	}
	return r
}

func (t rTree) resolve(lo, hi int) []int {
	x := rMid(lo, hi)
	if n := t[x]; n != nil {
		r := []int{x}
		for _, u := range n.unmerged {
			r = append(r, 2*int(u))
		}
		return r
	}
	if hi-lo == 1 {
		return nil
	}
	m := (lo + hi) / 2
	return append(t.resolve(lo, m), t.resolve(m, hi)...)
}

func (t rTree) filtered(i int) []rStep {
	var r []rStep
	for _, p := range t.path(i) {
		if len(t.resolve(p.slo, p.shi)) != 0 {
			r = append(r, p)
		}
	}
	return r
}

func (t rTree) hash(s *rSuite, lo, hi int, without []uint32) []byte {
	n := t[rMid(lo, hi)]
	if hi-lo == 1 {
		var b []byte
		if n != nil && !rHas(without, uint32(lo)) {
			b = n.leaf.bytes()
		}
		return s.hash(rU8(1), rU32(uint32(lo)), rOpt(b))
	}
	var b []byte
	if n != nil {
		b = n.parentBytes(without)
	}
	m := (lo + hi) / 2
	return s.hash(rU8(2), rOpt(b), rVec(t.hash(s, lo, m, without)), rVec(t.hash(s, m, hi, without)))
}

func (t rTree) root(s *rSuite) []byte { return t.hash(s, 0, t.leaves(), nil) }

func (t rTree) bytes() []byte {
	end := len(t)
	for end > 0 && t[end-1] == nil {
		end--
	}
	var b []byte
	for i, n := range t[:end] {
		switch {
		case n == nil:
			b = append(b, 0)
		case i%2 == 0:
			b = rCat(b, rU8(1), rU8(1), n.leaf.bytes())
		default:
			b = rCat(b, rU8(1), rU8(2), n.parentBytes(nil))
		}
	}
	return rVec(b)
}

func rReadTree(b []byte) (rTree, bool) {
	out := rIn{b: b}
	in := rIn{b: out.vec()}
	var t rTree
	for len(in.b) > 0 && !in.bad {
		if in.u8() == 0 {
			t = append(t, nil)
			continue
		}
		n := &rNode{}
		if in.u8() == 1 {
			n.leaf = rReadLeaf(&in)
		} else {
			n.enc = in.vec()
			n.parentHash = in.vec()
			u := rIn{b: in.vec()}
			for len(u.b) > 0 && !u.bad {
				n.unmerged = append(n.unmerged, u.u32())
			}
		}
		t = append(t, n)
	}
	w := 1
	for w < len(t) {
		w = 2*w + 1
	}
	for len(t) < w {
		t = append(t, nil)
	}
	return t, !in.bad && !out.bad && len(out.b) == 0
}

// add puts a leaf into the leftmost empty position.
func (t rTree) add(l *rLeaf) (rTree, int) {
	i := 0
	for i < t.leaves() && t.leaf(i) != nil {
		i++
	}
	for i >= t.leaves() {
		t = append(t, make(rTree, len(t)+1)...)
	}
	t[2*i] = &rNode{leaf: l}
	for _, p := range t.path(i) {
		if n := t[p.node()]; n != nil {
			n.unmerged = append(n.unmerged, uint32(i))
		}
	}
	return t, i
}

func (t rTree) blankPath(i int) {
	for _, p := range t.path(i) {
		t[p.node()] = nil
	}
}

func (t rTree) remove(i int) rTree {
	t[2*i] = nil
	t.blankPath(i)
	for t.leaves() > 1 {
		half := t.leaves() / 2
		empty := true
		for j := half; j < 2*half; j++ {
			empty = empty && t.leaf(j) == nil
		}
		if !empty {
			break
		}
		t = t[:2*half-1]
	}
	return t
}

// ---- key packages

type rKP struct {
	s       *rSuite
	version uint16
	suite   uint16
	init    []byte
	leaf    *rLeaf
	exts    []byte
	sig     []byte

	initPriv, encPriv, sigPriv []byte
}

func vfNow() int64 { return time.Now().Unix() }

func rCaps(id CipherSuite) []byte {
	return rCat(rVec(rU16(1)), rVec(rU16(uint16(id))), rVec(), rVec(), rVec(rU16(1)))
}

func rBasic(identity []byte) []byte { return rCat(rU16(1), rVec(identity)) }

func rKeyPackage(s *rSuite, name string) *rKP {
	k := &rKP{s: s, version: 1, suite: uint16(s.id)}
	k.init, k.initPriv = s.encKeys()
	now := uint64(vfNow())
	k.leaf = &rLeaf{source: 1, nb: now - 3600, na: now + 86400*30, cred: rBasic([]byte(name)), caps: rCaps(s.id)}
	k.leaf.enc, k.encPriv = s.encKeys()
	k.leaf.sigKey, k.sigPriv = s.sigKeys()
	k.signAll()
	return k
}

func (k *rKP) signAll() {
	k.leaf.sign(k.s, k.sigPriv, nil, 0)
	k.signOuter()
}

func (k *rKP) tbs() []byte {
	return rCat(rU16(k.version), rU16(k.suite), rVec(k.init), k.leaf.bytes(), rVec(k.exts))
}

func (k *rKP) signOuter() { k.sig = k.s.sign(k.sigPriv, "KeyPackageTBS", k.tbs()) }

func (k *rKP) bytes() []byte { return rCat(k.tbs(), rVec(k.sig)) }

// message is the key package as an MLS message.
func (k *rKP) message() []byte { return rCat(rU16(1), rU16(5), k.bytes()) }

func (k *rKP) ref() []byte { return k.s.refHash("MLS 1.0 KeyPackage Reference", k.bytes()) }

// rReadKP reads a key package without message header.
func rReadKP(s *rSuite, in *rIn) *rKP {
	k := &rKP{s: s}
	k.version = in.u16()
	k.suite = in.u16()
	k.init = in.vec()
	k.leaf = rReadLeaf(in)
	k.exts = in.vec()
	k.sig = in.vec()
	return k
}

// ---- groups

type rGroup struct {
	s                  *rSuite
	id                 []byte
	epoch              uint64
	tree               rTree
	confirmed, interim []byte
	exts               []byte

	epochSecret, initSecret []byte
	joiner, psk             []byte // of the current epoch

	me      int
	sigPriv []byte
	priv    map[int][]byte // by node

	tag []byte // confirmation tag of the current epoch

	// the group context has treeHash instead of the hash of the tree
	wrongHash bool
	treeHash  []byte
}

func rNewGroup(k *rKP, id []byte) *rGroup {
	s := k.s
	g := &rGroup{s: s, id: id, tree: rTree{{leaf: k.leaf}}, sigPriv: k.sigPriv, psk: s.zero()}
	g.priv = map[int][]byte{0: k.encPriv}
	g.epochSecret = s.random(s.nh)
	g.confirmed = nil
	g.tag = s.mac(s.derive(g.epochSecret, "confirm"), g.confirmed)
	g.interim = s.hash(g.confirmed, rVec(g.tag))
	g.initSecret = s.derive(g.epochSecret, "init")
	return g
}

func (g *rGroup) clone() *rGroup {
	c := *g
	c.tree = g.tree.clone()
	c.priv = map[int][]byte{}
	for i := range c.tree {
		if p, ok := g.priv[i]; ok {
			c.priv[i] = p
		}
	}
	return &c
}

func rContext(s *rSuite, id []byte, epoch uint64, treeHash, confirmed, exts []byte) []byte {
	return rCat(rU16(1), rU16(uint16(s.id)), rVec(id), rU64(epoch), rVec(treeHash), rVec(confirmed), rVec(exts))
}

func (g *rGroup) context() []byte {
	th := g.tree.root(g.s)
	if g.wrongHash {
		th = g.treeHash
	}
	return rContext(g.s, g.id, g.epoch, th, g.confirmed, g.exts)
}

// ---- framing

// rFrame is a FramedContent with its authentication data.
type rFrame struct {
	id      []byte
	epoch   uint64
	stype   uint8
	sender  uint32
	aad     []byte
	ct      uint8 // 1 application, 2 proposal, 3 commit
	body    []byte
	wire    uint16 // 1 public, 2 private
	sig     []byte
	tag     []byte // confirmation tag
	padding []byte
}

func (g *rGroup) frame(ct uint8, body []byte, wire uint16) *rFrame {
	return &rFrame{id: g.id, epoch: g.epoch, stype: 1, sender: uint32(g.me), ct: ct, body: body, wire: wire}
}

func (f *rFrame) content() []byte {
	b := rCat(rVec(f.id), rU64(f.epoch), rU8(f.stype))
	if f.stype == 1 || f.stype == 2 {
		b = rCat(b, rU32(f.sender))
	}
	body := f.body
	if f.ct == 1 {
		body = rVec(body)
	}
	return rCat(b, rVec(f.aad), rU8(f.ct), body)
}

func (f *rFrame) tbs(ctx []byte) []byte {
	b := rCat(rU16(1), rU16(f.wire), f.content())
	if f.stype == 1 || f.stype == 4 {
		b = rCat(b, ctx)
	}
	return b
}

func (f *rFrame) auth() []byte {
	b := rVec(f.sig)
	if f.ct == 3 {
		b = rCat(b, rVec(f.tag))
	}
	return b
}

func (g *rGroup) sign(f *rFrame) { f.sig = g.s.sign(g.sigPriv, "FramedContentTBS", f.tbs(g.context())) }

func (g *rGroup) memberTag(f *rFrame) []byte {
	return g.s.mac(g.s.derive(g.epochSecret, "membership"), f.tbs(g.context()), f.auth())
}

func rPublic(f *rFrame, tag []byte) []byte {
	b := rCat(rU16(1), rU16(1), f.content(), f.auth())
	if f.stype == 1 {
		b = rCat(b, rVec(tag))
	}
	return b
}

func (g *rGroup) public(f *rFrame) []byte { return rPublic(f, g.memberTag(f)) }

// leafSecret is the secret of leaf i in the secret tree.
func (g *rGroup) leafSecret(i int) []byte {
	sec := g.s.derive(g.epochSecret, "encryption")
	lo, hi := 0, g.tree.leaves()
	for hi-lo > 1 {
		m := (lo + hi) / 2
		if i < m {
			sec = g.s.expand(sec, "tree", []byte("left"), g.s.nh)
			hi = m
		} else {
			sec = g.s.expand(sec, "tree", []byte("right"), g.s.nh)
			lo = m
		}
	}
	return sec
}

// ratchet returns key and nonce of a generation.
func (g *rGroup) ratchet(i int, ct uint8, gen uint32) (key, nonce []byte) {
	label := "handshake"
	if ct == 1 {
		label = "application"
	}
	sec := g.s.expand(g.leafSecret(i), label, nil, g.s.nh)
	for j := uint32(0); j < gen; j++ {
		sec = g.s.expand(sec, "secret", rU32(j), g.s.nh)
	}
	return g.s.expand(sec, "key", rU32(gen), g.s.nk), g.s.expand(sec, "nonce", rU32(gen), g.s.nn)
}

// rSender is the sender data of a private message, and the ratchet position
// really used.
type rSender struct {
	leaf, gen uint32
	guard     []byte
	useLeaf   int
	useGen    uint32
}

func (g *rGroup) sender(gen uint32) rSender {
	return rSender{uint32(g.me), gen, g.s.random(4), g.me, gen}
}

func (s rSender) bytes() []byte { return rCat(rU32(s.leaf), rU32(s.gen), s.guard) }

func (g *rGroup) private(f *rFrame, sd rSender) []byte {
	body := f.body
	if f.ct == 1 {
		body = rVec(body)
	}
	return g.privateRaw(f, sd, rCat(body, f.auth(), f.padding))
}

func (g *rGroup) privateRaw(f *rFrame, sd rSender, plain []byte) []byte {
	s := g.s
	key, nonce := g.ratchet(sd.useLeaf, f.ct, sd.useGen)
	for i := 0; i < 4; i++ {
		nonce[i] ^= sd.guard[i]
	}
	head := rCat(rVec(f.id), rU64(f.epoch), rU8(f.ct))
	ct := s.aeadSeal(key, nonce, plain, rCat(head, rVec(f.aad)))
	k, n := g.senderKeys(ct)
	sdct := s.aeadSeal(k, n, sd.bytes(), head)
	return rCat(rU16(1), rU16(2), head, rVec(f.aad), rVec(sdct), rVec(ct))
}

func (g *rGroup) senderKeys(ct []byte) (key, nonce []byte) {
	sample := ct
	if len(sample) > g.s.nh {
		sample = sample[:g.s.nh]
	}
	sec := g.s.derive(g.epochSecret, "sender data")
	return g.s.expand(sec, "key", sample, g.s.nk), g.s.expand(sec, "nonce", sample, g.s.nn)
}

// application makes an application message.
func (g *rGroup) application(data []byte) []byte {
	f := g.frame(1, data, 2)
	g.sign(f)
	return g.private(f, g.sender(0))
}

// open reads a private message.
func (g *rGroup) open(msg []byte) (*rFrame, *rSender, bool) {
	s := g.s
	in := rIn{b: msg}
	if in.u16() != 1 || in.u16() != 2 {
		return nil, nil, false
	}
	f := &rFrame{wire: 2, stype: 1}
	f.id = in.vec()
	f.epoch = in.u64()
	f.ct = in.u8()
	f.aad = in.vec()
	sdct := in.vec()
	ct := in.vec()
	if in.bad || len(in.b) != 0 || !vfEqual(f.id, g.id) || f.epoch != g.epoch {
		return nil, nil, false
	}
	head := rCat(rVec(f.id), rU64(f.epoch), rU8(f.ct))
	k, n := g.senderKeys(ct)
	raw, ok := s.aeadOpen(k, n, sdct, head)
	if !ok || len(raw) != 12 {
		return nil, nil, false
	}
	in = rIn{b: raw}
	sd := &rSender{leaf: in.u32(), gen: in.u32(), guard: in.take(4)}
	l := g.tree.leaf(int(sd.leaf))
	if l == nil || sd.gen > 1000 {
		return nil, nil, false
	}
	f.sender = sd.leaf
	key, nonce := g.ratchet(int(sd.leaf), f.ct, sd.gen)
	for i := 0; i < 4; i++ {
		nonce[i] ^= sd.guard[i]
	}
	plain, ok := s.aeadOpen(key, nonce, ct, rCat(head, rVec(f.aad)))
	if !ok {
		return nil, nil, false
	}
	in = rIn{b: plain}
	switch f.ct {
	case 1:
		f.body = in.vec()
	case 3:
		f.body = in.raw(func() { in.vec(); vfAssert(in.u8() == 0, "the library commits without a path") })
	default:
		return nil, nil, false
	}
	f.sig = in.vec()
	if f.ct == 3 {
		f.tag = in.vec()
	}
	f.padding = in.b
	for _, b := range f.padding {
		if b != 0 {
			return nil, nil, false
		}
	}
	if in.bad || !s.verify(l.sigKey, "FramedContentTBS", f.tbs(g.context()), f.sig) {
		return nil, nil, false
	}
	return f, sd, true
}

// follow processes a commit made by the library (adds by value, no path).
func (g *rGroup) follow(msg []byte) bool {
	f, _, ok := g.open(msg)
	if !ok || f.ct != 3 {
		return false
	}
	in := rIn{b: f.body}
	list := rIn{b: in.vec()}
	t := g.tree.clone()
	for len(list.b) > 0 {
		if list.u8() != 1 || list.u16() != 1 {
			return false
		}
		t, _ = t.add(rReadKP(g.s, &list).leaf)
		if list.bad {
			return false
		}
	}
	n := g.next(t, f, g.s.zero(), g.s.zero())
	if !vfEqual(n.tag, f.tag) {
		return false
	}
	*g = *n
	return true
}

// ---- commits

// next computes the epoch after a commit; f carries the signature.
func (g *rGroup) next(t rTree, f *rFrame, commitSecret, psk []byte) *rGroup {
	s := g.s
	n := g.clone()
	n.tree = t
	n.epoch = g.epoch + 1
	n.confirmed = s.hash(g.interim, rU16(f.wire), f.content(), rVec(f.sig))
	ctx := n.context()
	n.joiner = s.expand(s.extract(g.initSecret, commitSecret), "joiner", ctx, s.nh)
	n.psk = psk
	n.epochSecret = s.expand(s.extract(n.joiner, psk), "epoch", ctx, s.nh)
	n.tag = s.mac(s.derive(n.epochSecret, "confirm"), n.confirmed)
	n.interim = s.hash(n.confirmed, rVec(n.tag))
	n.initSecret = s.derive(n.epochSecret, "init")
	return n
}

// Proposals.

func rAdd(k *rKP) []byte       { return rCat(rU16(1), k.bytes()) }
func rUpdate(l *rLeaf) []byte  { return rCat(rU16(2), l.bytes()) }
func rRemove(i uint32) []byte  { return rCat(rU16(3), rU32(i)) }
func rByValue(p []byte) []byte { return rCat(rU8(1), p) }
func rByRef(r []byte) []byte   { return rCat(rU8(2), rVec(r)) }

func (g *rGroup) proposalRef(f *rFrame) []byte {
	return g.s.refHash("MLS 1.0 Proposal Reference", rCat(rU16(f.wire), f.content(), f.auth()))
}

// rPathNode is a node of an update path.
type rPathNode struct {
	enc   []byte
	cts   [][]byte // encoded HPKECiphertext values
	to    []int    // recipients
	node  int
	sec   []byte
	privK []byte
}

type rPath struct {
	leaf  *rLeaf
	nodes []*rPathNode
	last  []byte // commit secret
	priv  []byte // of the leaf
}

func (p *rPath) bytes() []byte {
	var ns []byte
	for _, n := range p.nodes {
		ns = rCat(ns, rVec(n.enc), rVec(n.cts...))
	}
	return rCat(p.leaf.bytes(), rVec(ns))
}

// makePath draws a fresh path and puts it into t.
func (g *rGroup) makePath(t rTree) *rPath {
	s := g.s
	p := &rPath{}
	old := g.tree.leaf(g.me)
	leaf := *old
	leaf.source = 3
	leaf.enc, p.priv = s.encKeys()
	p.leaf = &leaf
	steps := t.filtered(g.me)
	t.blankPath(g.me)
	sec := s.random(s.nh)
	for _, st := range steps {
		n := &rPathNode{node: st.node(), sec: sec}
		n.enc, n.privK = s.deriveKeys(s.derive(sec, "node"))
		p.nodes = append(p.nodes, n)
		t[st.node()] = &rNode{enc: n.enc}
		sec = s.derive(sec, "path")
	}
	p.last = sec
	g.setHashes(t, p, steps)
	return p
}

// setHashes fills the parent hashes from the root down and signs the leaf.
func (g *rGroup) setHashes(t rTree, p *rPath, steps []rStep) {
	s := g.s
	var ph []byte
	for i := len(steps) - 1; i >= 0; i-- {
		st := steps[i]
		n := t[st.node()]
		n.parentHash = ph
		ph = s.hash(rVec(n.enc), rVec(n.parentHash), rVec(t.hash(s, st.slo, st.shi, n.unmerged)))
	}
	p.leaf.parentHash = ph
	p.leaf.sign(s, g.sigPriv, g.id, uint32(g.me))
	t[2*g.me] = &rNode{leaf: p.leaf}
}

// encryptPath encrypts the path secrets under the given group context.
func (g *rGroup) encryptPath(t rTree, p *rPath, steps []rStep, added []int, ctx []byte) {
	for i, st := range steps {
		n := p.nodes[i]
		n.cts, n.to = nil, nil
		for _, x := range t.resolve(st.slo, st.shi) {
			if x%2 == 0 && rHasInt(added, x/2) {
				continue
			}
			n.cts = append(n.cts, g.s.seal(t[x].key(), "UpdatePathNode", ctx, n.sec))
			n.to = append(n.to, x)
		}
	}
}

func rHasInt(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// rChange is one effective proposal.
type rChange struct {
	by     int // sender
	add    *rKP
	update *rLeaf
	remove int // leaf, -1: none
}

func rApply(t rTree, cs []rChange) (rTree, []int) {
	t = t.clone()
	for _, c := range cs {
		if c.update != nil {
			t[2*c.by] = &rNode{leaf: c.update}
			t.blankPath(c.by)
		}
	}
	for _, c := range cs {
		if c.add == nil && c.update == nil && c.remove >= 0 {
			t = t.remove(c.remove)
		}
	}
	var added []int
	for _, c := range cs {
		if c.add != nil {
			var i int
			t, i = t.add(c.add.leaf)
			added = append(added, i)
		}
	}
	return t, added
}

// rCommit is a commit under construction.  The stages can be altered
// between the calls.
type rCommit struct {
	g       *rGroup
	list    [][]byte // encoded ProposalOrRef values
	tree    rTree
	added   []int
	adds    []*rKP
	path    *rPath
	steps   []rStep
	pathCtx []byte
	frame   *rFrame
	next    *rGroup
}

func (g *rGroup) commit(list [][]byte, changes []rChange) *rCommit {
	c := &rCommit{g: g, list: list}
	c.tree, c.added = rApply(g.tree, changes)
	for _, ch := range changes {
		if ch.add != nil {
			c.adds = append(c.adds, ch.add)
		}
	}
	return c
}

// provisional is the group context path secrets are encrypted under.
func (c *rCommit) provisional() []byte {
	return rContext(c.g.s, c.g.id, c.g.epoch+1, c.tree.root(c.g.s), c.g.confirmed, c.g.exts)
}

func (c *rCommit) withPath() *rCommit { return c.startPath().sealPath() }

// startPath draws the path; sealPath encrypts it.
func (c *rCommit) startPath() *rCommit {
	c.steps = c.tree.filtered(c.g.me)
	c.path = c.g.makePath(c.tree)
	return c
}

func (c *rCommit) sealPath() *rCommit {
	c.pathCtx = c.provisional()
	c.g.encryptPath(c.tree, c.path, c.steps, c.added, c.pathCtx)
	return c
}

func (c *rCommit) body() []byte {
	var p []byte
	if c.path != nil {
		p = c.path.bytes()
	}
	return rCat(rVec(c.list...), rOpt(p))
}

// finish signs and computes the next epoch.
func (c *rCommit) finish(wire uint16) *rCommit {
	c.frame = c.g.frame(3, c.body(), wire)
	c.g.sign(c.frame)
	return c.schedule()
}

func (c *rCommit) schedule() *rCommit {
	secret := c.g.s.zero()
	if c.path != nil {
		secret = c.path.last
	}
	c.next = c.g.next(c.tree, c.frame, secret, c.g.s.zero())
	if c.path != nil {
		c.next.priv[2*c.g.me] = c.path.priv
		for _, n := range c.path.nodes {
			c.next.priv[n.node] = n.privK
		}
	}
	c.frame.tag = c.next.tag
	return c
}

func (c *rCommit) message() []byte {
	if c.frame.wire == 1 {
		return c.g.public(c.frame)
	}
	return c.g.private(c.frame, c.g.sender(0))
}

// ---- welcomes

type rInfo struct {
	ctx, exts, tag []byte
	signer         uint32
	sig            []byte
}

func (i *rInfo) tbs() []byte {
	return rCat(i.ctx, rVec(i.exts), rVec(i.tag), rU32(i.signer))
}

func (i *rInfo) bytes() []byte { return rCat(i.tbs(), rVec(i.sig)) }

func rTreeExt(t rTree) []byte { return rCat(rU16(2), rVec(t.bytes())) }

// info is the group info of the current epoch.
func (g *rGroup) info() *rInfo {
	i := &rInfo{ctx: g.context(), exts: rTreeExt(g.tree), tag: g.tag, signer: uint32(g.me)}
	i.sig = g.s.sign(g.sigPriv, "GroupInfoTBS", i.tbs())
	return i
}

// rSecret is the group secrets of one invitee.
type rSecret struct {
	ref, init []byte
	joiner    []byte
	path      []byte // nil: none
	psks      []byte
}

func (x *rSecret) bytes() []byte {
	var p []byte
	if x.path != nil {
		p = rVec(x.path)
	}
	return rCat(rVec(x.joiner), rOpt(p), rVec(x.psks))
}

// invite is the group secrets of invitee i of a commit.
func (c *rCommit) invite(i int) *rSecret {
	k := c.adds[i]
	x := &rSecret{ref: k.ref(), init: k.init, joiner: c.next.joiner}
	if c.path != nil {
		li := c.added[i]
		for j, st := range c.steps {
			if st.lo <= li && li < st.hi {
				x.path = c.path.nodes[j].sec
				break
			}
		}
	}
	return x
}

func (g *rGroup) sealInfo(i *rInfo) []byte {
	s := g.s
	w := s.derive(s.extract(g.joiner, g.psk), "welcome")
	return s.aeadSeal(s.expand(w, "key", nil, s.nk), s.expand(w, "nonce", nil, s.nn), i.bytes(), nil)
}

func (g *rGroup) welcomeBytes(secrets []*rSecret, encInfo []byte) []byte {
	var ss []byte
	for _, x := range secrets {
		ss = rCat(ss, rVec(x.ref), g.s.seal(x.init, "Welcome", encInfo, x.bytes()))
	}
	return rCat(rU16(1), rU16(3), rU16(uint16(g.s.id)), rVec(ss), rVec(encInfo))
}

// welcome makes the welcome message for all invitees of a commit.
func (c *rCommit) welcome() []byte {
	var ss []*rSecret
	for i := range c.adds {
		ss = append(ss, c.invite(i))
	}
	return c.next.welcomeBytes(ss, c.next.sealInfo(c.next.info()))
}

// rJoin joins a group from a welcome; it does not validate the tree.
func rJoin(k *rKP, msg []byte) (*rGroup, bool) {
	s := k.s
	in := rIn{b: msg}
	if in.u16() != 1 || in.u16() != 3 || in.u16() != uint16(s.id) {
		return nil, false
	}
	list := rIn{b: in.vec()}
	encInfo := in.vec()
	if in.bad || len(in.b) != 0 {
		return nil, false
	}
	var secrets []byte
	found := false
	for len(list.b) > 0 && !list.bad {
		ref := list.vec()
		enc := list.vec()
		ct := list.vec()
		if !found && vfEqual(ref, k.ref()) {
			secrets, found = s.open(k.initPriv, "Welcome", encInfo, enc, ct)
		}
	}
	if !found {
		return nil, false
	}
	in = rIn{b: secrets}
	g := &rGroup{s: s, sigPriv: k.sigPriv, psk: s.zero(), priv: map[int][]byte{}}
	g.joiner = in.vec()
	if in.u8() != 0 || len(in.vec()) != 0 || in.bad || len(in.b) != 0 {
		return nil, false
	}
	w := s.derive(s.extract(g.joiner, g.psk), "welcome")
	raw, ok := s.aeadOpen(s.expand(w, "key", nil, s.nk), s.expand(w, "nonce", nil, s.nn), encInfo, nil)
	if !ok {
		return nil, false
	}
	in = rIn{b: raw}
	var treeHash []byte
	ctx := in.raw(func() {
		if in.u16() != 1 || in.u16() != uint16(s.id) {
			in.bad = true
		}
		g.id = in.vec()
		g.epoch = in.u64()
		treeHash = in.vec()
		g.confirmed = in.vec()
		g.exts = in.vec()
	})
	exts := in.vec()
	g.tag = in.vec()
	signer := in.u32()
	sig := in.vec()
	if in.bad || len(in.b) != 0 {
		return nil, false
	}
	ex := rIn{b: exts}
	if ex.u16() != 2 {
		return nil, false
	}
	g.tree, ok = rReadTree(ex.vec())
	if !ok || ex.bad || len(ex.b) != 0 {
		return nil, false
	}
	l := g.tree.leaf(int(signer))
	if l == nil || !s.verify(l.sigKey, "GroupInfoTBS", rCat(ctx, rVec(exts), rVec(g.tag), rU32(signer)), sig) {
		return nil, false
	}
	g.epochSecret = s.expand(s.extract(g.joiner, g.psk), "epoch", ctx, s.nh)
	if !vfEqual(g.tag, s.mac(s.derive(g.epochSecret, "confirm"), g.confirmed)) || !vfEqual(treeHash, g.tree.root(s)) {
		return nil, false
	}
	g.interim = s.hash(g.confirmed, rVec(g.tag))
	g.initSecret = s.derive(g.epochSecret, "init")
	for i := 0; i < g.tree.leaves(); i++ {
		if m := g.tree.leaf(i); m != nil && vfEqual(m.bytes(), k.leaf.bytes()) {
			g.me = i
			g.priv[2*i] = k.encPriv
			return g, true
		}
	}
	return nil, false
}
