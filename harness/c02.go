package mls

import (
	"io"

	"golang.org/x/crypto/cryptobyte"
)

// vfVarint is the oracle of the length encoding: ok, value and size of the
// length at the start of b.
func vfVarint(b []byte) (v uint32, n int, ok bool) {
	if len(b) == 0 {
		return 0, 0, false
	}
	switch b[0] >> 6 {
	case 0:
		return uint32(b[0]), 1, true
	case 1:
		if len(b) < 2 {
			return 0, 0, false
		}
		v = uint32(b[0]&0x3f)*256 + uint32(b[1])
		return v, 2, v > 63
	case 2:
		if len(b) < 4 {
			return 0, 0, false
		}
		v = uint32(b[0]&0x3f)<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
		return v, 4, v > 16383
	}
	return 0, 0, false
}

func vfH_C02_varintEncode() {
	n := vfU32("n")
	var b cryptobyte.Builder
	writeVarint(&b, n)
	raw, err := b.Bytes()
	vfAssert((err == nil) == (n < 1<<30), "exactly lengths below 2^30 are encodable")
	if err != nil {
		return
	}
	v, size, ok := vfVarint(raw)
	vfAssert(ok && v == n && size == len(raw), "length is encoded in the shortest form")
	tail := vfBytes("tail", 3)
	s := cryptobyte.String(append(append([]byte(nil), raw...), tail...))
	var out uint32
	vfAssert(readVarint(&s, &out), "encoded length decodes")
	vfAssert(out == n, "decoded length equals the encoded one")
	vfAssert(vfEqual(s, tail), "decoding consumes exactly the written bytes")
	vfObserve("n", uint64(out))
	vfReach("end")
}

func vfH_C02_varintDecode() {
	l := vfChoice("len", 12)
	in := vfBytes("in", l)
	s := cryptobyte.String(in)
	var out uint32
	ok := readVarint(&s, &out)
	v, size, want := vfVarint(in)
	vfAssert(ok == want, "exactly shortest-form lengths are accepted")
	if ok {
		vfAssert(out == v, "decoded length value")
		vfAssert(len(s) == l-size, "decoded length size")
		vfAssert(vfEqual(s, in[size:]), "rest of the input is untouched")
		vfReach("accepted")
	} else {
		vfReach("rejected")
	}
}

func vfH_C02_opaqueDecode() {
	l := vfChoice("len", vfBound("opaque input bytes", 72, 140))
	in := vfBytes("in", l)
	s := cryptobyte.String(in)
	var out []byte
	vfAllocLimit(1 << 16)
	ok := readOpaqueVec(&s, &out)
	vfAllocCheck()
	v, size, want := vfVarint(in)
	if want && uint64(v) > uint64(l-size) {
		want = false
	}
	vfAssert(ok == want, "byte string accepted exactly when complete")
	if ok {
		n := vfConcrete(int(v))
		vfAssert(len(out) == n, "byte string length")
		vfAssert(vfEqual(out, in[size:size+n]), "byte string contents")
		vfAssert(vfEqual(s, in[size+n:]), "bytes after the byte string are untouched")
		var b cryptobyte.Builder
		writeOpaqueVec(&b, out)
		raw, err := b.Bytes()
		vfAssert(err == nil && vfEqual(raw, in[:size+n]), "re-encoding gives the same bytes")
		vfReach("accepted")
	} else {
		vfReach("rejected")
	}
}

func vfH_C02_opaqueEncode() {
	l := vfChoice("len", vfBound("opaque value bytes", 80, 200))
	if l >= 75 {
		l = []int{255, 256, 16383, 16384, 16385}[l%5]
	}
	val := make([]byte, l)
	k := l
	if k > 75 {
		k = 75
	}
	copy(val, vfBytes("val", k))
	var b cryptobyte.Builder
	b.AddUint8(7)
	writeOpaqueVec(&b, val)
	b.AddUint8(9)
	raw, err := b.Bytes()
	vfAssert(err == nil && raw[0] == 7 && raw[len(raw)-1] == 9, "encoding succeeds in place")
	v, size, ok := vfVarint(raw[1:])
	vfAssert(ok && int(v) == l && len(raw) == l+size+2, "length prefix")
	s := cryptobyte.String(raw[1:])
	var out []byte
	vfAssert(readOpaqueVec(&s, &out), "encoded byte string decodes")
	vfAssert(vfEqual(out, val), "same byte string")
	vfAssert(len(s) == 1 && s[0] == 9, "consumes exactly what was written")
	// the decoded value is a copy
	for i := range raw {
		raw[i] = 0
	}
	vfAssert(vfEqual(out, val), "decoded byte string does not alias the input")
	vfReach("end")
}

// Lists of two-byte elements and of byte strings.
func vfH_C02_vectorDecode() {
	l := vfChoice("len", vfBound("vector input bytes", 12, 20))
	in := vfBytes("in", l)
	s := cryptobyte.String(in)
	var out []uint16
	vfAllocLimit(1 << 16)
	err := readVector(&s, func(s *cryptobyte.String) error {
		var v uint16
		if !s.ReadUint16(&v) {
			return io.ErrUnexpectedEOF
		}
		out = append(out, v)
		return nil
	})
	vfAllocCheck()
	v, size, want := vfVarint(in)
	if want && (uint64(v) > uint64(l-size) || v%2 != 0) {
		want = false
	}
	vfAssert((err == nil) == want, "list accepted exactly when complete")
	if err != nil {
		vfReach("rejected")
		return
	}
	n := vfConcrete(int(v))
	vfAssert(len(out) == n/2, "number of elements")
	for i, e := range out {
		vfAssert(e == uint16(in[size+2*i])<<8|uint16(in[size+2*i+1]), "element value")
	}
	vfAssert(vfEqual(s, in[size+n:]), "bytes after the list are untouched")
	var b cryptobyte.Builder
	writeVector(&b, len(out), func(b *cryptobyte.Builder, i int) { b.AddUint16(out[i]) })
	raw, err := b.Bytes()
	vfAssert(err == nil && vfEqual(raw, in[:size+n]), "re-encoding gives the same bytes")
	vfReach("accepted")
}

func vfH_C02_vectorNested() {
	n := vfChoice("n", vfBound("vector elements", 5, 7))
	vals := make([][]byte, n)
	total := 0
	for i := range vals {
		vals[i] = vfBytes("val", vfChoice("vlen", 3)*(1+16*(i%2)))
		total += 1 + len(vals[i])
	}
	var b cryptobyte.Builder
	writeVector(&b, n, func(b *cryptobyte.Builder, i int) { writeOpaqueVec(b, vals[i]) })
	raw, err := b.Bytes()
	vfAssert(err == nil, "list encodes")
	v, size, ok := vfVarint(raw)
	vfAssert(ok && int(v) == total && len(raw) == total+size, "list length counts bytes")
	tail := vfBytes("tail", 2)
	s := cryptobyte.String(append(append([]byte(nil), raw...), tail...))
	i := 0
	err = readVector(&s, func(s *cryptobyte.String) error {
		var e []byte
		if !readOpaqueVec(s, &e) {
			return io.ErrUnexpectedEOF
		}
		vfAssert(i < n && vfEqual(e, vals[i]), "element equals the encoded one")
		i++
		return nil
	})
	vfAssert(err == nil && i == n, "same number of elements")
	vfAssert(vfEqual(s, tail), "consumes exactly what was written")
	vfReach("end")
}

// An element that cannot be encoded makes the whole encoding fail.
func vfH_C02_vectorError() {
	n := vfInt("n", 1, 4)
	bad := vfInt("bad", 0, 4)
	l := vfU32("l")
	var b cryptobyte.Builder
	writeVector(&b, vfConcrete(n), func(b *cryptobyte.Builder, i int) {
		if i == bad {
			writeVarint(b, l)
		} else {
			writeVarint(b, 5)
		}
	})
	b.AddUint8(1)
	_, err := b.Bytes()
	vfAssert((err != nil) == (bad < n && l >= 1<<30), "failure of an element is reported")
	vfReach("end")
}

func vfH_C02_optional() {
	l := vfChoice("len", 3)
	in := vfBytes("in", l)
	s := cryptobyte.String(in)
	init := vfBool("init")
	p := init
	ok := readOptional(&s, &p)
	vfAssert(ok == (l > 0 && in[0] <= 1), "exactly the markers 0 and 1 are accepted")
	if ok {
		vfAssert(p == (in[0] == 1), "presence value")
		vfAssert(len(s) == l-1, "consumes one byte")
	}
	q := vfBool("q")
	var b cryptobyte.Builder
	writeOptional(&b, q)
	raw, err := b.Bytes()
	vfAssert(err == nil && len(raw) == 1 && (raw[0] == 1) == q && raw[0] <= 1, "marker bytes")
	vfReach("end")
}

type vfPair struct{ a, b uint16 }

func (p *vfPair) unmarshal(s *cryptobyte.String) error {
	if !s.ReadUint16(&p.a) || !s.ReadUint16(&p.b) {
		return io.ErrUnexpectedEOF
	}
	return nil
}

func (p *vfPair) marshal(b *cryptobyte.Builder) {
	b.AddUint16(p.a)
	b.AddUint16(p.b)
}

// Whole-message decoding rejects surplus bytes.
func vfH_C02_whole() {
	l := vfChoice("len", 8)
	in := vfBytes("in", l)
	var p vfPair
	err := unmarshal(in, &p)
	vfAssert((err == nil) == (l == 4), "exactly the full message is accepted")
	if err == nil {
		raw, err := marshal(&p)
		vfAssert(err == nil && vfEqual(raw, in), "same bytes")
	}
	vfReach("end")
}
