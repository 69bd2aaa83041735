package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Idealised cryptography.  Hashes, MACs, key derivation, signatures, AEAD and
// key encapsulation are functions of a free algebra (see App); decryption and
// verification succeed exactly on the outputs of the corresponding encryption
// and signing calls of the same execution.

type sealRec struct {
	app                *App
	key, nonce, pt, ad []*Expr
	id                 string
}

type sigRec struct {
	sig, pub, msg []*Expr
	scheme        string
}

type cryptoState struct {
	seals []*sealRec
	sigs  []*sigRec
	big   map[*value][]*Expr
}

func newCryptoState() *cryptoState {
	return &cryptoState{big: map[*value][]*Expr{}}
}

func (in *Interp) fresh(n int) []*Expr {
	a := in.c.App(fmt.Sprintf("rand#%d", in.nrand), n)
	in.nrand++
	return a.bytes
}

type randReader struct{}

func (randReader) call(in *Interp, m string, args []value) value {
	if m != "Read" {
		unsupported("rand.Reader.%s", m)
	}
	return in.randRead(args[0])
}

func (in *Interp) randRead(b value) value {
	s := in.mat(b.(Slice))
	for i, e := range in.fresh(len(s.v)) {
		s.v[i] = e
	}
	return Tuple{in.c.Const(64, uint64(len(s.v))), Iface{}}
}

// ---- hashes

type hashAlg struct {
	name        string
	size, block int
}

var hashAlgs = map[uint64]hashAlg{
	5: {"SHA256", 32, 64},
	6: {"SHA384", 48, 128},
	7: {"SHA512", 64, 128},
}

type hashObj struct {
	alg hashAlg
	key []*Expr
	mac bool
	buf []*Expr
}

// hmacKey drops trailing constant zeros, which HMAC does not distinguish.
func hmacKey(alg hashAlg, key []*Expr) []*Expr {
	if len(key) > alg.block {
		return key
	}
	for len(key) > 0 && key[len(key)-1].op == OpConst && key[len(key)-1].val == 0 {
		key = key[:len(key)-1]
	}
	return key
}

func (h *hashObj) sum(in *Interp) []*Expr {
	if h.mac {
		return in.c.App("hmac:"+h.alg.name, h.alg.size, hmacKey(h.alg, h.key), h.buf).bytes
	}
	return in.c.App("hash:"+h.alg.name, h.alg.size, h.buf).bytes
}

func (h *hashObj) call(in *Interp, m string, args []value) value {
	c := in.c
	switch m {
	case "Write":
		b := in.bytesOf(args[0])
		h.buf = append(h.buf, b...)
		return Tuple{c.Const(64, uint64(len(b))), Iface{}}
	case "Sum":
		s := in.mat(args[0].(Slice))
		var add []value
		for _, e := range h.sum(in) {
			add = append(add, e)
		}
		return in.appendVals(s, add, types.Typ[types.Uint8])
	case "Reset":
		h.buf = nil
		return nil
	case "Size":
		return c.Const(64, uint64(h.alg.size))
	case "BlockSize":
		return c.Const(64, uint64(h.alg.block))
	}
	unsupported("hash.%s", m)
	return nil
}

func (in *Interp) hashFromFunc(fr *frame, f value) hashAlg {
	r := in.call(fr, f, nil)
	h, ok := r.(Iface).v.(*hashObj)
	if !ok {
		unsupported("unknown hash function")
	}
	return h.alg
}

// expand is HKDF-Expand in terms of HMAC.
func (in *Interp) expand(alg hashAlg, prk, info []*Expr, n int) []*Expr {
	var out, t []*Expr
	for i := 1; len(out) < n; i++ {
		msg := append(append(append([]*Expr(nil), t...), info...), in.c.small[i])
		t = in.c.App("hmac:"+alg.name, alg.size, hmacKey(alg, prk), msg).bytes
		out = append(out, t...)
	}
	return out[:n]
}

type expandReader struct {
	alg       hashAlg
	prk, info []*Expr
	used      bool
}

func (r *expandReader) call(in *Interp, m string, args []value) value {
	if m != "Read" || r.used {
		unsupported("hkdf reader")
	}
	r.used = true
	s := in.mat(args[0].(Slice))
	if len(s.v) > 255*r.alg.size {
		return Tuple{in.c.Const(64, 0), in.newErr("hkdf: entropy limit reached")}
	}
	for i, e := range in.expand(r.alg, r.prk, r.info, len(s.v)) {
		s.v[i] = e
	}
	return Tuple{in.c.Const(64, uint64(len(s.v))), Iface{}}
}

// ---- AEAD

type blockObj struct{ key []*Expr }

func (b *blockObj) call(in *Interp, m string, args []value) value {
	unsupported("cipher.Block.%s", m)
	return nil
}

type aeadObj struct {
	id  string
	key []*Expr
}

func (a *aeadObj) call(in *Interp, m string, args []value) value {
	c := in.c
	switch m {
	case "NonceSize":
		return c.Const(64, 12)
	case "Overhead":
		return c.Const(64, 16)
	case "Seal":
		dst := in.mat(args[0].(Slice))
		nonce, pt, ad := in.bytesOf(args[1]), in.bytesOf(args[2]), in.bytesOf(args[3])
		if len(nonce) != 12 {
			in.rtPanic("crypto/cipher: incorrect nonce length given to AEAD")
		}
		app := c.App("aead:"+a.id, len(pt)+16, a.key, nonce, pt, ad)
		in.crypto.seals = append(in.crypto.seals, &sealRec{app: app, key: a.key, nonce: nonce, pt: pt, ad: ad, id: a.id})
		var add []value
		for _, e := range app.bytes {
			add = append(add, e)
		}
		return in.appendVals(dst, add, types.Typ[types.Uint8])
	case "Open":
		dst := in.mat(args[0].(Slice))
		nonce, ct, ad := in.bytesOf(args[1]), in.bytesOf(args[2]), in.bytesOf(args[3])
		if len(nonce) != 12 {
			in.rtPanic("crypto/cipher: incorrect nonce length given to AEAD")
		}
		for _, r := range in.crypto.seals {
			if r.id != a.id || r.app.out != len(ct) || len(r.key) != len(a.key) || len(r.ad) != len(ad) {
				continue
			}
			cond := c.EqBytes(ct, r.app.bytes)
			if cond.IsFalse() {
				continue
			}
			cond = c.And(cond, c.EqBytes(r.key, a.key))
			if cond.IsFalse() {
				continue
			}
			cond = c.And(cond, c.And(c.EqBytes(r.nonce, nonce), c.EqBytes(r.ad, ad)))
			if in.branch(cond) {
				var add []value
				for _, e := range r.pt {
					add = append(add, e)
				}
				res := in.appendVals(dst, add, types.Typ[types.Uint8])
				if len(add) == 0 && !dst.ok {
					res = Slice{} // Open of an empty plaintext into nil
				}
				return Tuple{res, Iface{}}
			}
		}
		return Tuple{Slice{}, in.newErr("cipher: message authentication failed")}
	}
	unsupported("cipher.AEAD.%s", m)
	return nil
}

// ---- KEM

type kemInfo struct {
	name          string
	npk, nsk, nss int
	x             bool
}

var kems = map[uint64]kemInfo{
	0x10: {"P256", 65, 32, 32, false},
	0x11: {"P384", 97, 48, 48, false},
	0x12: {"P521", 133, 66, 64, false},
	0x20: {"X25519", 32, 32, 32, true},
	0x21: {"X448", 56, 56, 64, true},
}

type kemObj struct{ k kemInfo }
type kemPub struct {
	k kemInfo
	b []*Expr
}
type kemPriv struct {
	k kemInfo
	b []*Expr
}

func (in *Interp) pubOf(k kemInfo, priv []*Expr) []*Expr {
	return in.c.App("pub:"+k.name, k.npk, priv).bytes
}

func (p *kemPub) call(in *Interp, m string, args []value) value {
	switch m {
	case "MarshalBinary":
		return Tuple{in.mkBytes(p.b), Iface{}}
	case "Scheme":
		return Iface{modelType, &kemObj{p.k}}
	case "Equal":
		o, ok := args[0].(Iface).v.(*kemPub)
		if !ok {
			return in.c.False
		}
		return in.c.EqBytes(p.b, o.b)
	}
	unsupported("kem public key.%s", m)
	return nil
}

func (p *kemPriv) call(in *Interp, m string, args []value) value {
	switch m {
	case "MarshalBinary":
		return Tuple{in.mkBytes(p.b), Iface{}}
	case "Scheme":
		return Iface{modelType, &kemObj{p.k}}
	case "Public":
		return Iface{modelType, &kemPub{p.k, in.pubOf(p.k, p.b)}}
	case "Equal":
		o, ok := args[0].(Iface).v.(*kemPriv)
		if !ok {
			return in.c.False
		}
		return in.c.EqBytes(p.b, o.b)
	}
	unsupported("kem private key.%s", m)
	return nil
}

func (o *kemObj) validPub(in *Interp, b []*Expr) ([]*Expr, bool) {
	if o.k.x {
		if len(b) < o.k.npk {
			return nil, false
		}
		return b[:o.k.npk], true
	}
	if len(b) != o.k.npk {
		return nil, false
	}
	// a point on the curve: some party's public key, unmodified
	app, lo, n := run(b)
	if app == nil || lo != 0 || n != len(b) || app.out != n || !strings.HasPrefix(app.fn, "pub:"+o.k.name) && !strings.HasPrefix(app.fn, "enc:"+o.k.name) {
		return nil, false
	}
	if !in.branch(in.c.EqBytes(b, app.bytes)) {
		return nil, false
	}
	return app.bytes, true
}

func (o *kemObj) call(in *Interp, m string, args []value) value {
	c := in.c
	k := o.k
	switch m {
	case "Name":
		return in.str("HPKE_KEM_" + k.name)
	case "PublicKeySize", "CiphertextSize":
		return c.Const(64, uint64(k.npk))
	case "PrivateKeySize", "SeedSize", "EncapsulationSeedSize":
		return c.Const(64, uint64(k.nsk))
	case "SharedKeySize":
		return c.Const(64, uint64(k.nss))
	case "GenerateKeyPair":
		priv := in.fresh(k.nsk)
		return Tuple{Iface{modelType, &kemPub{k, in.pubOf(k, priv)}}, Iface{modelType, &kemPriv{k, priv}}, Iface{}}
	case "DeriveKeyPair":
		seed := in.bytesOf(args[0])
		if len(seed) != k.nsk {
			in.rtPanic("kem: seed size mismatch")
		}
		priv := c.App("dkp:"+k.name, k.nsk, seed).bytes
		return Tuple{Iface{modelType, &kemPub{k, in.pubOf(k, priv)}}, Iface{modelType, &kemPriv{k, priv}}}
	case "UnmarshalBinaryPublicKey":
		b, ok := o.validPub(in, in.bytesOf(args[0]))
		if !ok {
			return Tuple{Iface{}, in.newErr("hpke: invalid KEM public key")}
		}
		return Tuple{Iface{modelType, &kemPub{k, b}}, Iface{}}
	case "UnmarshalBinaryPrivateKey":
		b := in.bytesOf(args[0])
		if k.x && len(b) >= k.nsk {
			b = b[:k.nsk]
		}
		if len(b) != k.nsk {
			return Tuple{Iface{}, in.newErr("hpke: invalid KEM private key")}
		}
		return Tuple{Iface{modelType, &kemPriv{k, b}}, Iface{}}
	case "EncapsulateDeterministically":
		pk, ok := args[0].(Iface).v.(*kemPub)
		if !ok {
			unsupported("encapsulate to foreign key")
		}
		seed := in.bytesOf(args[1])
		enc := c.App("enc:"+k.name, k.npk, seed).bytes
		ss := c.App("ss:"+k.name, k.nss, pk.b, enc).bytes
		return Tuple{in.mkBytes(enc), in.mkBytes(ss), Iface{}}
	case "Decapsulate":
		sk, ok := args[0].(Iface).v.(*kemPriv)
		if !ok {
			unsupported("decapsulate with foreign key")
		}
		ct := in.bytesOf(args[1])
		if _, ok := o.validPub(in, ct); !ok {
			return Tuple{Slice{}, in.newErr("hpke: invalid KEM public key")}
		}
		ss := c.App("ss:"+k.name, k.nss, in.pubOf(k, sk.b), ct).bytes
		return Tuple{in.mkBytes(ss), Iface{}}
	}
	unsupported("kem scheme.%s", m)
	return nil
}

// ---- signatures

func (in *Interp) sign(scheme string, size int, priv, pub, msg []*Expr, salt []*Expr) []*Expr {
	sig := in.c.App("sig:"+scheme, size, priv, msg, salt).bytes
	in.crypto.sigs = append(in.crypto.sigs, &sigRec{sig, pub, msg, scheme})
	return sig
}

func (in *Interp) verify(scheme string, pub, msg, sig []*Expr) *Expr {
	c := in.c
	r := c.False
	for _, s := range in.crypto.sigs {
		if s.scheme != scheme || len(s.sig) != len(sig) || len(s.pub) != len(pub) || len(s.msg) != len(msg) {
			continue
		}
		e := c.EqBytes(s.sig, sig)
		if !e.IsFalse() {
			e = c.And(e, c.EqBytes(s.pub, pub))
		}
		if !e.IsFalse() {
			e = c.And(e, c.EqBytes(s.msg, msg))
		}
		r = c.Or(r, e)
	}
	return in.simp(r)
}

type curveObj struct {
	name string
	n    int
}

var curves = map[string]*curveObj{
	"P-256": {"P-256", 32}, "P-384": {"P-384", 48}, "P-521": {"P-521", 66},
}

func (in *Interp) bigOf(b []*Expr) *value {
	p := new(value)
	bt := in.p.prog.ImportedPackage("math/big")
	if bt != nil {
		*p = in.zero(bt.Type("Int").Type())
	} else {
		*p = Structure{}
	}
	in.crypto.big[p] = b
	return p
}

func (in *Interp) bigBytes(v value) []*Expr {
	p := in.deref(v)
	b, ok := in.crypto.big[p]
	if !ok {
		unsupported("unknown big integer")
	}
	return b
}

// point is the public key of a scalar.  Scalars of the kinds vfRareKeys asks
// for have a coordinate with a leading zero.
func (cv *curveObj) point(in *Interp, k []*Expr) (x, y []*Expr) {
	k = in.noZeros(k)
	mk := func(name, mark string) []*Expr {
		if app, _, _ := run(k); app != nil && strings.HasSuffix(app.fn, mark) {
			return append([]*Expr{in.c.small[0]}, in.c.App(name+cv.name, cv.n-1, k).bytes...)
		}
		return in.c.App(name+cv.name, cv.n, k).bytes
	}
	return mk("ecx:", ":x"), mk("ecy:", ":y")
}

// noZeros drops leading zeros.
func (in *Interp) noZeros(b []*Expr) []*Expr {
	for len(b) > 0 && b[0] == in.c.small[0] {
		b = b[1:]
	}
	return b
}

// padded extends a number to n bytes.
func (in *Interp) padded(b []*Expr, n int) []*Expr {
	b = in.noZeros(b)
	r := make([]*Expr, 0, n)
	for i := len(b); i < n; i++ {
		r = append(r, in.c.small[0])
	}
	return append(r, b...)
}

func (cv *curveObj) call(in *Interp, m string, args []value) value {
	switch m {
	case "ScalarBaseMult":
		x, y := cv.point(in, in.bytesOf(args[0]))
		return Tuple{in.bigOf(x), in.bigOf(y)}
	}
	if m == "Params" {
		t := in.p.prog.ImportedPackage("crypto/elliptic").Type("CurveParams").Type()
		p := new(value)
		*p = in.zero(t)
		(*p).(Structure)[in.fieldOf(t, "BitSize")] = in.c.Const(64, uint64(map[string]int{"P-256": 256, "P-384": 384, "P-521": 521}[cv.name]))
		(*p).(Structure)[in.fieldOf(t, "Name")] = in.str(cv.name)
		return p
	}
	unsupported("elliptic.Curve.%s", m)
	return nil
}

func (in *Interp) fieldOf(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	unsupported("no field %s in %v", name, t)
	return 0
}

func (in *Interp) ecdsaKey(curve value, d []*Expr) *value {
	x, y := curve.(Iface).v.(*curveObj).point(in, d)
	t := in.p.prog.ImportedPackage("crypto/ecdsa").Type("PrivateKey").Type()
	pt := in.p.prog.ImportedPackage("crypto/ecdsa").Type("PublicKey").Type()
	priv := in.zero(t).(Structure)
	pub := priv[in.fieldOf(t, "PublicKey")].(Structure)
	pub[in.fieldOf(pt, "Curve")] = curve
	pub[in.fieldOf(pt, "X")] = in.bigOf(x)
	pub[in.fieldOf(pt, "Y")] = in.bigOf(y)
	priv[in.fieldOf(t, "D")] = in.bigOf(d)
	p := new(value)
	*p = priv
	return p
}

// extract is HKDF-Extract.
func (in *Interp) extract(alg hashAlg, secret, salt value) []*Expr {
	return in.c.App("hmac:"+alg.name, alg.size, hmacKey(alg, in.bytesOf(salt)), in.bytesOf(secret)).bytes
}

func (in *Interp) expandN(alg hashAlg, prk, info []*Expr, n *Expr) value {
	l := int64(in.concretize(n, "output length"))
	if l < 0 || l > int64(255*alg.size) {
		return Tuple{Slice{}, in.newErr("hkdf: requested key length too large")}
	}
	return Tuple{in.mkBytes(in.expand(alg, prk, info, int(l))), Iface{}}
}

func xorBytes(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
	d, x, y := in.mat(args[0].(Slice)).v, in.bytesOf(args[1]), in.bytesOf(args[2])
	n := min(len(x), len(y))
	if n > len(d) {
		in.rtPanic("subtle.XORBytes: dst too short")
	}
	for i := 0; i < n; i++ {
		d[i] = in.c.BXor(x[i], y[i])
	}
	return in.c.Const(64, uint64(n))
}

func cryptoIntrinsics() map[string]intrinsic {
	newHash := func(id uint64) intrinsic {
		return func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return Iface{modelType, &hashObj{alg: hashAlgs[id]}}
		}
	}
	sum := func(id uint64) intrinsic {
		return func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			h := &hashObj{alg: hashAlgs[id], buf: in.bytesOf(args[0])}
			var a Array
			for _, e := range h.sum(in) {
				a = append(a, e)
			}
			return a
		}
	}
	curve := func(name string) intrinsic {
		return func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return Iface{modelType, curves[name]}
		}
	}
	edKey := func(scheme string, size int) intrinsic {
		return func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			seed := in.bytesOf(args[0])
			if len(seed) != size {
				in.rtPanic(scheme + ": bad seed length")
			}
			pub := in.c.App("edpub:"+scheme, size, seed).bytes
			return in.mkBytes(append(append([]*Expr(nil), seed...), pub...))
		}
	}
	edGen := func(scheme string, size int) intrinsic {
		return func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			seed := in.fresh(size)
			pub := in.c.App("edpub:"+scheme, size, seed).bytes
			return Tuple{in.mkBytes(pub), in.mkBytes(append(append([]*Expr(nil), seed...), pub...)), Iface{}}
		}
	}
	edSeed := func(size int) intrinsic {
		return func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.mkBytes(in.bytesOf(args[0])[:size])
		}
	}
	edSign := func(scheme string, size, sigSize int) intrinsic {
		return func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			priv := in.bytesOf(args[0])
			if len(priv) != 2*size {
				in.rtPanic(scheme + ": bad private key length")
			}
			return in.mkBytes(in.sign(scheme, sigSize, priv[:size], priv[size:], in.bytesOf(args[1]), nil))
		}
	}
	edVerify := func(scheme string, size, sigSize int) intrinsic {
		return func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			pub, sig := in.bytesOf(args[0]), in.bytesOf(args[2])
			if len(pub) != size {
				if scheme == "ed25519" {
					in.rtPanic(scheme + ": bad public key length")
				}
				return in.c.False
			}
			return in.verify(scheme, pub, in.bytesOf(args[1]), sig)
		}
	}
	return map[string]intrinsic{
		"crypto/rand.Read": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.randRead(args[0])
		},
		"(crypto.Hash).New": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			alg, ok := hashAlgs[in.concretize(args[0].(*Expr), "hash")]
			if !ok {
				in.rtPanic("crypto: requested hash function is unavailable")
			}
			return Iface{modelType, &hashObj{alg: alg}}
		},
		"(crypto.Hash).Size": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			alg, ok := hashAlgs[in.concretize(args[0].(*Expr), "hash")]
			if !ok {
				unsupported("size of unknown hash")
			}
			return in.c.Const(64, uint64(alg.size))
		},
		"(crypto.Hash).Available": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			_, ok := hashAlgs[in.concretize(args[0].(*Expr), "hash")]
			return in.c.Bool(ok)
		},
		"crypto/sha256.New":    newHash(5),
		"crypto/sha512.New":    newHash(7),
		"crypto/sha512.New384": newHash(6),
		"crypto/sha256.Sum256": sum(5),
		"crypto/sha512.Sum512": sum(7),
		"crypto/sha512.Sum384": sum(6),
		"crypto/hmac.New": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return Iface{modelType, &hashObj{alg: in.hashFromFunc(fr, args[0]), mac: true, key: in.bytesOf(args[1])}}
		},
		"golang.org/x/crypto/hkdf.Expand": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return Iface{modelType, &expandReader{alg: in.hashFromFunc(fr, args[0]), prk: in.bytesOf(args[1]), info: in.bytesOf(args[2])}}
		},
		"crypto/aes.NewCipher": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			k := in.bytesOf(args[0])
			if n := len(k); n != 16 && n != 24 && n != 32 {
				return Tuple{Iface{}, in.newErr("crypto/aes: invalid key size")}
			}
			return Tuple{Iface{modelType, &blockObj{k}}, Iface{}}
		},
		"crypto/cipher.NewGCM": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			b, ok := args[0].(Iface).v.(*blockObj)
			if !ok {
				unsupported("NewGCM of unknown block cipher")
			}
			return Tuple{Iface{modelType, &aeadObj{"aesgcm", b.key}}, Iface{}}
		},
		"golang.org/x/crypto/chacha20poly1305.New": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			k := in.bytesOf(args[0])
			if len(k) != 32 {
				return Tuple{Iface{}, in.newErr("chacha20poly1305: bad key length")}
			}
			return Tuple{Iface{modelType, &aeadObj{"chacha", k}}, Iface{}}
		},
		"(github.com/cloudflare/circl/hpke.KEM).Scheme": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			k, ok := kems[in.concretize(args[0].(*Expr), "kem")]
			if !ok {
				in.rtPanic("hpke: invalid KEM identifier")
			}
			return Iface{modelType, &kemObj{k}}
		},
		"crypto/ed25519.NewKeyFromSeed":    edKey("ed25519", 32),
		"crypto/ed25519.GenerateKey":       edGen("ed25519", 32),
		"crypto/ed25519.Sign":              edSign("ed25519", 32, 64),
		"crypto/ed25519.Verify":            edVerify("ed25519", 32, 64),
		"(crypto/ed25519.PrivateKey).Seed": edSeed(32),
		"(crypto/ed25519.PrivateKey).Public": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			t := in.p.prog.ImportedPackage("crypto/ed25519").Type("PublicKey").Type()
			return Iface{t, in.mkBytes(in.bytesOf(args[0])[32:])}
		},
		"github.com/cloudflare/circl/sign/ed448.NewKeyFromSeed":    edKey("ed448", 57),
		"github.com/cloudflare/circl/sign/ed448.GenerateKey":       edGen("ed448", 57),
		"github.com/cloudflare/circl/sign/ed448.Sign":              edSign("ed448", 57, 114),
		"github.com/cloudflare/circl/sign/ed448.Verify":            edVerify("ed448", 57, 114),
		"(github.com/cloudflare/circl/sign/ed448.PrivateKey).Seed": edSeed(57),

		"(crypto/ed25519.PrivateKey).Sign": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			opts, ok := args[3].(Iface)
			if h, isC := opts.v.(*Expr); ok && isC && (h.op != OpConst || h.val != 0) {
				unsupported("ed25519 with a hash")
			}
			return Tuple{edSign("ed25519", 32, 64)(in, fr, fn, []value{args[0], args[2]}), Iface{}}
		},
		"crypto/subtle.XORBytes":                  xorBytes,
		"crypto/internal/fips140/subtle.XORBytes": xorBytes,
		"crypto/hkdf.Extract": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return Tuple{in.mkBytes(in.extract(in.hashFromFunc(fr, args[0]), args[1], args[2])), Iface{}}
		},
		"crypto/hkdf.Expand": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.expandN(in.hashFromFunc(fr, args[0]), in.bytesOf(args[1]), args[2].(Str), args[3].(*Expr))
		},
		"crypto/hkdf.Key": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			alg := in.hashFromFunc(fr, args[0])
			return in.expandN(alg, in.extract(alg, args[1], args[2]), args[3].(Str), args[4].(*Expr))
		},
		"crypto/ecdsa.ParseUncompressedPublicKey": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			r := intrinsics["crypto/elliptic.Unmarshal"](in, fr, fn, args).(Tuple)
			if p, _ := r[0].(*value); p == nil {
				return Tuple{(*value)(nil), in.newErr("ecdsa: invalid public key")}
			}
			pt := in.p.prog.ImportedPackage("crypto/ecdsa").Type("PublicKey").Type()
			pub := in.zero(pt).(Structure)
			pub[in.fieldOf(pt, "Curve")] = args[0]
			pub[in.fieldOf(pt, "X")] = r[0]
			pub[in.fieldOf(pt, "Y")] = r[1]
			p := new(value)
			*p = pub
			return Tuple{p, Iface{}}
		},
		"crypto/ecdsa.ParseRawPrivateKey": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			cv := args[0].(Iface).v.(*curveObj)
			d := in.bytesOf(args[1])
			if len(d) != cv.n {
				return Tuple{(*value)(nil), in.newErr("ecdsa: invalid private key")}
			}
			return Tuple{in.ecdsaKey(args[0], d), Iface{}}
		},
		"(*crypto/ecdsa.PublicKey).Bytes": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			pt := in.p.prog.ImportedPackage("crypto/ecdsa").Type("PublicKey").Type()
			pub := (*in.deref(args[0])).(Structure)
			return Tuple{intrinsics["crypto/elliptic.Marshal"](in, fr, fn, []value{pub[in.fieldOf(pt, "Curve")], pub[in.fieldOf(pt, "X")], pub[in.fieldOf(pt, "Y")]}), Iface{}}
		},
		"(*crypto/ecdsa.PrivateKey).Bytes": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			t := in.p.prog.ImportedPackage("crypto/ecdsa").Type("PrivateKey").Type()
			priv := (*in.deref(args[0])).(Structure)
			pt := in.p.prog.ImportedPackage("crypto/ecdsa").Type("PublicKey").Type()
			cv := priv[in.fieldOf(t, "PublicKey")].(Structure)[in.fieldOf(pt, "Curve")].(Iface).v.(*curveObj)
			return Tuple{in.mkBytes(in.padded(in.bigBytes(priv[in.fieldOf(t, "D")]), cv.n)), Iface{}}
		},
		"(*crypto/ecdsa.PrivateKey).Sign": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return intrinsics["crypto/ecdsa.SignASN1"](in, fr, fn, []value{args[1], args[0], args[2]})
		},

		"crypto/elliptic.P256": curve("P-256"),
		"crypto/elliptic.P384": curve("P-384"),
		"crypto/elliptic.P521": curve("P-521"),
		"(*math/big.Int).SetBytes": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			in.crypto.big[in.deref(args[0])] = in.noZeros(in.bytesOf(args[1]))
			return args[0]
		},
		"(*math/big.Int).Bytes": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.mkBytes(in.noZeros(in.bigBytes(args[0])))
		},
		"(*math/big.Int).FillBytes": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			s := in.mat(args[1].(Slice))
			b := in.padded(in.bigBytes(args[0]), len(s.v))
			if len(b) != len(s.v) {
				in.rtPanic("math/big: buffer too small to fit value")
			}
			for i := range b {
				s.v[i] = b[i]
			}
			return s
		},
		"crypto/elliptic.Marshal": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			r := []*Expr{in.c.small[4]}
			cv := args[0].(Iface).v.(*curveObj)
			r = append(r, in.padded(in.bigBytes(args[1]), cv.n)...)
			r = append(r, in.padded(in.bigBytes(args[2]), cv.n)...)
			return in.mkBytes(r)
		},
		"crypto/elliptic.Unmarshal": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			cv := args[0].(Iface).v.(*curveObj)
			b := in.bytesOf(args[1])
			none := Tuple{(*value)(nil), (*value)(nil)}
			if len(b) != 1+2*cv.n || !in.branch(in.c.Eq(b[0], in.c.small[4])) {
				return none
			}
			x, y := b[1:1+cv.n], b[1+cv.n:]
			app, lo, n := run(in.noZeros(x))
			if app == nil || lo != 0 || n != len(in.noZeros(x)) || app.fn != "ecx:"+cv.name {
				return none
			}
			xx, yy := cv.point(in, app.args[0])
			if !in.branch(in.c.And(in.c.EqBytes(x, xx), in.c.EqBytes(y, yy))) {
				return none
			}
			return Tuple{in.bigOf(xx), in.bigOf(yy)}
		},
		"crypto/ecdsa.GenerateKey": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			cv := args[0].(Iface).v.(*curveObj)
			n, mark := cv.n, ""
			switch in.rareKeys {
			case 1:
				n--
			case 2:
				mark = ":x"
			case 3:
				mark = ":y"
			}
			d := in.c.App(fmt.Sprintf("rand#%d%s", in.nrand, mark), n).bytes
			in.nrand++
			return Tuple{in.ecdsaKey(args[0], d), Iface{}}
		},
		"crypto/ecdsa.SignASN1": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			t := in.p.prog.ImportedPackage("crypto/ecdsa").Type("PrivateKey").Type()
			pt := in.p.prog.ImportedPackage("crypto/ecdsa").Type("PublicKey").Type()
			priv := (*in.deref(args[1])).(Structure)
			pub := priv[in.fieldOf(t, "PublicKey")].(Structure)
			cv := pub[in.fieldOf(pt, "Curve")].(Iface).v.(*curveObj)
			d := in.noZeros(in.bigBytes(priv[in.fieldOf(t, "D")]))
			x, y := cv.point(in, d)
			sig := in.sign("ecdsa:"+cv.name, 2*cv.n+7, d, append(append([]*Expr(nil), x...), y...), in.bytesOf(args[2]), nil)
			return Tuple{in.mkBytes(sig), Iface{}}
		},
		"crypto/ecdsa.VerifyASN1": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			pt := in.p.prog.ImportedPackage("crypto/ecdsa").Type("PublicKey").Type()
			pub := (*in.deref(args[0])).(Structure)
			cv := pub[in.fieldOf(pt, "Curve")].(Iface).v.(*curveObj)
			xv, yv := pub[in.fieldOf(pt, "X")], pub[in.fieldOf(pt, "Y")]
			if p, ok := xv.(*value); ok && p == nil {
				if ecdsaNilPanics {
					in.rtPanic("runtime error: invalid memory address or nil pointer dereference (ecdsa public key)")
				}
				return in.c.False
			}
			x, y := in.padded(in.bigBytes(xv), cv.n), in.padded(in.bigBytes(yv), cv.n)
			return in.verify("ecdsa:"+cv.name, append(append([]*Expr(nil), x...), y...), in.bytesOf(args[1]), in.bytesOf(args[2]))
		},
	}
}

// ecdsaNilPanics: crypto/ecdsa of the pinned toolchain dereferences the
// coordinates of the public key.
var ecdsaNilPanics = true
