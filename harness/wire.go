package mls

// Wire format grammar of RFC 9420, independent of the package's own encoders.
//
// Contents and numbers are symbolic.  Every length and every variant of the
// grammar has a default; at most budget of them deviate from it, and every
// deviation is explored.

type vfW struct {
	b      []byte
	budget *int
	// some enumerator has a value outside of its range
	bad *bool
	// enumerators may be out of range
	corrupt bool
	// contents are this byte instead of symbolic, unless negative
	fill int
	// data of many bytes is never in a ratchet tree extension
	noTree bool
	// other variants are the default: resumption PSKs, X.509 credentials and
	// senders of this type
	other int
}

// def is the default of an enumerator whose usual default is 1.
func (w *vfW) def(n int) int {
	if w.other < n {
		return 1 + w.other
	}
	return n
}

func vfWire(budget int, corrupt bool) *vfW {
	return &vfW{budget: &budget, bad: new(bool), corrupt: corrupt, fill: -1}
}

// pick returns def, or one of opts at the cost of one deviation.
func (w *vfW) pick(name string, def int, opts ...int) int {
	if *w.budget == 0 {
		return def
	}
	c := vfChoice(name, len(opts)+1)
	if c == 0 {
		return def
	}
	*w.budget--
	return opts[c-1]
}

func (w *vfW) num(name string, n int) {
	if w.fill < 0 {
		w.b = append(w.b, vfBytes(name, n)...)
		return
	}
	for i := 0; i < n; i++ {
		w.b = append(w.b, byte(w.fill))
	}
}

func (w *vfW) varint(n int) {
	switch {
	case n < 1<<6:
		w.b = append(w.b, byte(n))
	case n < 1<<14:
		w.b = append(w.b, 0x40|byte(n>>8), byte(n))
	default:
		w.b = append(w.b, 0x80|byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
}

func (w *vfW) opaque(name string, def int) {
	n := w.pick(name+".len", def, 0, 2, 64)
	w.varint(n)
	w.num(name, n)
}

// enum writes a number which is one of the first n positive numbers.
func (w *vfW) enum(name string, size, n, def int) int {
	var opts []int
	for v := 1; v <= n; v++ {
		if v != def {
			opts = append(opts, v)
		}
	}
	if w.corrupt {
		opts = append(opts, -1)
	}
	v := def
	if len(opts) > 0 {
		v = w.pick(name, def, opts...)
	}
	if v < 0 {
		*w.bad = true
		var x int
		if size == 1 {
			x = int(vfU8(name))
		} else {
			x = int(vfU16(name))
		}
		vfAssume(vfOr(x == 0, x > n))
		if size == 2 {
			w.b = append(w.b, byte(x>>8))
		}
		w.b = append(w.b, byte(x))
		return def
	}
	if size == 2 {
		w.b = append(w.b, byte(v>>8))
	}
	w.b = append(w.b, byte(v))
	return v
}

func (w *vfW) optional(name string, def int) bool {
	opts := []int{1 - def}
	if w.corrupt {
		opts = append(opts, 2)
	}
	v := w.pick(name, def, opts...)
	if v == 2 {
		*w.bad = true
		x := vfU8(name)
		vfAssume(x > 1)
		w.b = append(w.b, x)
		return false
	}
	w.b = append(w.b, byte(v))
	return v == 1
}

func (w *vfW) sub() *vfW {
	return &vfW{budget: w.budget, bad: w.bad, corrupt: w.corrupt, fill: w.fill, noTree: w.noTree, other: w.other}
}

func (w *vfW) list(name string, def int, f func(w *vfW)) {
	var n int
	switch def {
	case 0:
		n = w.pick(name+".len", 0, 1, 2)
	default:
		n = w.pick(name+".len", def, 0, def+1)
	}
	c := w.sub()
	for i := 0; i < n; i++ {
		f(c)
	}
	w.varint(len(c.b))
	w.b = append(w.b, c.b...)
}

func (w *vfW) version() { w.enum("version", 2, 1, 1) }

func (w *vfW) extensions() {
	w.list("extensions", 1, func(w *vfW) {
		at := len(w.b)
		w.num("extension type", 2)
		end := len(w.b)
		w.opaque("extension data", 1)
		if w.noTree && len(w.b) > end+10 {
			vfAssume(vfOr(w.b[at] != 0, w.b[at+1] != 2))
		}
	})
}

func (w *vfW) credential() {
	switch w.enum("credential type", 2, 2, w.def(2)) {
	case 1:
		w.opaque("identity", 1)
	case 2:
		w.list("certificates", 1, func(w *vfW) { w.opaque("certificate", 1) })
	}
}

func (w *vfW) leafNode(source int) {
	w.opaque("encryption key", 1)
	w.opaque("signature key", 1)
	w.credential()
	for _, name := range []string{"versions", "suites", "exts", "proposals", "credentials"} {
		w.list(name, 1, func(w *vfW) { w.num(name, 2) })
	}
	switch w.enum("leaf node source", 1, 3, source) {
	case 1:
		w.num("not before", 8)
		w.num("not after", 8)
	case 3:
		w.opaque("parent hash", 1)
	}
	w.extensions()
	w.opaque("leaf signature", 1)
}

func (w *vfW) parentNode() {
	w.opaque("encryption key", 1)
	w.opaque("parent hash", 1)
	w.list("unmerged leaves", 1, func(w *vfW) { w.num("unmerged leaf", 4) })
}

func (w *vfW) keyPackage() {
	w.version()
	w.num("cipher suite", 2)
	w.opaque("init key", 1)
	w.leafNode(1)
	w.extensions()
	w.opaque("signature", 1)
}

func (w *vfW) hpkeCiphertext() {
	w.opaque("kem output", 1)
	w.opaque("ciphertext", 1)
}

func (w *vfW) updatePath() {
	w.leafNode(3)
	w.list("path nodes", 1, func(w *vfW) {
		w.opaque("path key", 1)
		w.list("path secrets", 1, func(w *vfW) { w.hpkeCiphertext() })
	})
}

func (w *vfW) pskID() {
	switch w.enum("psk type", 1, 2, w.def(2)) {
	case 1:
		w.opaque("psk id", 1)
	case 2:
		w.enum("usage", 1, 3, 1)
		w.opaque("psk group", 1)
		w.num("psk epoch", 8)
	}
	w.opaque("psk nonce", 1)
}

func (w *vfW) reInit() {
	w.opaque("group id", 1)
	w.num("new version", 2)
	w.num("new suite", 2)
	w.extensions()
}

func (w *vfW) proposal(def int) {
	switch w.enum("proposal type", 2, 7, def) {
	case 1:
		w.keyPackage()
	case 2:
		w.leafNode(2)
	case 3:
		w.num("removed", 4)
	case 4:
		w.pskID()
	case 5:
		w.reInit()
	case 6:
		w.opaque("kem output", 1)
	case 7:
		w.extensions()
	}
}

func (w *vfW) commit() {
	i := 0
	w.list("proposals", 2, func(w *vfW) {
		i++
		switch w.enum("proposal or ref", 1, 2, 1+i%2) {
		case 1:
			w.proposal(3)
		case 2:
			w.opaque("reference", 1)
		}
	})
	if w.optional("has path", 1) {
		w.updatePath()
	}
}

func (w *vfW) sender() int {
	s := w.enum("sender type", 1, 4, w.def(4))
	if s <= 2 {
		w.num("sender index", 4)
	}
	return s
}

func (w *vfW) content(ct, prop int) {
	switch ct {
	case 1:
		w.opaque("application data", 1)
	case 2:
		w.proposal(prop)
	case 3:
		w.commit()
	}
}

func (w *vfW) authData(ct int) {
	w.opaque("signature", 1)
	if ct == 3 {
		w.opaque("confirmation tag", 1)
	}
}

func (w *vfW) framedContent(ct, prop int) (int, int) {
	w.opaque("group id", 1)
	w.num("epoch", 8)
	s := w.sender()
	w.opaque("authenticated data", 1)
	ct = w.enum("content type", 1, 3, ct)
	w.content(ct, prop)
	return s, ct
}

func (w *vfW) publicMessage(ct, prop int) {
	s, ct := w.framedContent(ct, prop)
	w.authData(ct)
	if s == 1 {
		w.opaque("membership tag", 1)
	}
}

func (w *vfW) privateMessage() {
	w.opaque("group id", 1)
	w.num("epoch", 8)
	w.enum("content type", 1, 3, 1)
	w.opaque("authenticated data", 1)
	w.opaque("sender data", 1)
	w.opaque("ciphertext", 1)
}

func (w *vfW) groupContext() {
	w.version()
	w.num("cipher suite", 2)
	w.opaque("group id", 1)
	w.num("epoch", 8)
	w.opaque("tree hash", 1)
	w.opaque("transcript hash", 1)
	w.extensions()
}

func (w *vfW) groupInfo() {
	w.groupContext()
	w.extensions()
	w.opaque("confirmation tag", 1)
	w.num("signer", 4)
	w.opaque("signature", 1)
}

func (w *vfW) groupSecrets() {
	w.opaque("joiner secret", 1)
	if w.optional("has path secret", 1) {
		w.opaque("path secret", 1)
	}
	w.list("psks", 1, func(w *vfW) { w.pskID() })
}

func (w *vfW) welcome() {
	w.num("cipher suite", 2)
	w.list("secrets", 1, func(w *vfW) {
		w.opaque("new member", 1)
		w.hpkeCiphertext()
	})
	w.opaque("encrypted group info", 1)
}

// message writes an MLS message of wire format wf (1..5).
func (w *vfW) message(wf, ct, prop int) {
	w.version()
	bad := w.corrupt && w.pick("wire format", 0, 1) == 1
	if bad {
		*w.bad = true
		x := vfU16("wire format")
		vfAssume(vfOr(x == 0, x > 5))
		w.b = append(w.b, byte(x>>8), byte(x))
	} else {
		w.b = append(w.b, 0, byte(wf))
	}
	switch wf {
	case 1:
		w.publicMessage(ct, prop)
	case 2:
		w.privateMessage()
	case 3:
		w.welcome()
	case 4:
		w.groupInfo()
	case 5:
		w.keyPackage()
	}
}

// ratchetTree writes a tree; the last node is never blank.
func (w *vfW) ratchetTree() {
	n := w.pick("tree nodes", 3, 1, 2, 4, 5, 6, 7)
	c := w.sub()
	for i := 0; i < n; i++ {
		present := i == n-1
		if !present {
			present = c.optional("has node", 1)
		} else {
			c.b = append(c.b, 1)
		}
		if !present {
			continue
		}
		bad := c.corrupt && c.pick("node type", 0, 1) == 1
		switch {
		case bad:
			// wrong type for the position or no type at all
			*c.bad = true
			x := vfU8("node type")
			vfAssume(x != byte(1+i%2))
			c.b = append(c.b, x)
			if i%2 == 0 {
				c.parentNode()
			} else {
				c.leafNode(3)
			}
		case i%2 == 0:
			c.b = append(c.b, 1)
			c.leafNode(3)
		default:
			c.b = append(c.b, 2)
			c.parentNode()
		}
	}
	w.varint(len(c.b))
	w.b = append(w.b, c.b...)
}
