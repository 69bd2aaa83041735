package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Expr is a hash-consed bit-vector (w>0, at most 64 bits) or boolean (w==0)
// term.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpByteOf // byte lo of the output of app
	OpNot    // bool
	OpAnd    // bool
	OpOr     // bool
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLShr
	OpAShr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpSext
	OpExtract // lo .. lo+w-1
	OpConcat  // msb first
	OpDur     // args[0]*1e9 + args[1], without overflow, args[1] in 0..1e9-1
)

var opName = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem",
	OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpBNot: "bvnot", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpConcat: "concat",
}

type Expr struct {
	op     Op
	w      int
	id     int32
	val    uint64
	lo     int
	args   []*Expr
	name   string
	app    *App
	hasApp bool // mentions crypto output bytes
	hasVar bool // mentions any variable or crypto output
}

// App is an application of an idealised cryptographic function to byte
// strings, producing out bytes.  Apps form a free algebra: two apps are equal
// iff function, shapes and arguments are equal.
type App struct {
	fn    string
	args  [][]*Expr
	out   int
	id    int
	bytes []*Expr
}

type ekey struct {
	op      Op
	w, lo   int
	val     uint64
	a, b, c int32
	s       string
}

type Ctx struct {
	tab      map[ekey]*Expr
	nextID   int32
	appBytes int // size of the arguments of all apps
	apps     map[string]*App
	True     *Expr
	False    *Expr
	small    [256]*Expr
	eqApps   map[[2]int]*Expr
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[ekey]*Expr{}, apps: map[string]*App{}, eqApps: map[[2]int]*Expr{}}
	c.True = c.intern(ekey{op: OpConst, w: 0, val: 1}, nil, nil)
	c.False = c.intern(ekey{op: OpConst, w: 0, val: 0}, nil, nil)
	for i := range c.small {
		c.small[i] = c.intern(ekey{op: OpConst, w: 8, val: uint64(i)}, nil, nil)
	}
	return c
}

func (c *Ctx) intern(k ekey, args []*Expr, app *App) *Expr {
	if e, ok := c.tab[k]; ok {
		return e
	}
	c.nextID++
	e := &Expr{op: k.op, w: k.w, id: c.nextID, val: k.val, lo: k.lo, args: args, name: k.s, app: app}
	if k.op == OpConcat {
		e.name = ""
	}
	if k.op == OpVar {
		e.hasVar = true
	}
	if k.op == OpByteOf {
		e.hasApp, e.hasVar = true, true
	}
	for _, a := range args {
		e.hasApp = e.hasApp || a.hasApp
		e.hasVar = e.hasVar || a.hasVar
	}
	c.tab[k] = e
	return e
}

func (c *Ctx) mk(op Op, w, lo int, args ...*Expr) *Expr {
	k := ekey{op: op, w: w, lo: lo}
	switch len(args) {
	case 3:
		k.c = args[2].id
		fallthrough
	case 2:
		k.b = args[1].id
		fallthrough
	case 1:
		k.a = args[0].id
	}
	if e, ok := c.tab[k]; ok {
		return e
	}
	return c.intern(k, append([]*Expr(nil), args...), nil)
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *Ctx) Const(w int, v uint64) *Expr {
	v &= mask(w)
	if w == 8 && c.small[v] != nil {
		return c.small[v]
	}
	return c.intern(ekey{op: OpConst, w: w, val: v}, nil, nil)
}

func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Var(w int, name string) *Expr {
	return c.intern(ekey{op: OpVar, w: w, s: name}, nil, nil)
}

func (e *Expr) IsConst() bool { return e.op == OpConst }
func (e *Expr) IsTrue() bool  { return e.op == OpConst && e.w == 0 && e.val == 1 }
func (e *Expr) IsFalse() bool { return e.op == OpConst && e.w == 0 && e.val == 0 }

func sx(w int, v uint64) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

// ---- crypto applications

func (c *Ctx) App(fn string, out int, args ...[]*Expr) *App {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s/%d", fn, out)
	for _, a := range args {
		sb.WriteByte('|')
		for _, e := range a {
			sb.WriteByte(byte(e.id))
			sb.WriteByte(byte(e.id >> 8))
			sb.WriteByte(byte(e.id >> 16))
			sb.WriteByte(byte(e.id >> 24))
		}
	}
	k := sb.String()
	if a, ok := c.apps[k]; ok {
		return a
	}
	cp := make([][]*Expr, len(args))
	for i, a := range args {
		cp[i] = append([]*Expr(nil), a...)
	}
	c.appBytes += len(k)/4 + out
	app := &App{fn: fn, args: cp, out: out, id: len(c.apps)}
	c.apps[k] = app
	app.bytes = make([]*Expr, out)
	for i := range app.bytes {
		app.bytes[i] = c.intern(ekey{op: OpByteOf, w: 8, lo: i, val: uint64(app.id)}, nil, app)
	}
	return app
}

// fullRun reports whether bytes b start with the complete output of an app.
func fullRun(b []*Expr) *App {
	if len(b) == 0 || b[0].op != OpByteOf || b[0].lo != 0 {
		return nil
	}
	app := b[0].app
	if app.out > len(b) {
		return nil
	}
	for i := 1; i < app.out; i++ {
		if b[i] != app.bytes[i] {
			return nil
		}
	}
	return app
}

// appByte recognises a byte of an app output, possibly with an app-free byte
// XORed in.
func appByte(e *Expr) (src, delta *Expr) {
	switch {
	case e.op == OpByteOf:
		return e, nil
	case e.op == OpBXor && e.args[0].op == OpByteOf && !e.args[1].hasApp:
		return e.args[0], e.args[1]
	case e.op == OpBXor && e.args[1].op == OpByteOf && !e.args[0].hasApp:
		return e.args[1], e.args[0]
	}
	return nil, nil
}

// run returns the longest prefix of b made of consecutive bytes of one app
// (with app-free bytes XORed in).
func run(b []*Expr) (app *App, lo, n int) {
	for n < len(b) {
		src, _ := appByte(b[n])
		if src == nil || (n > 0 && (src.app != app || src.lo != lo+n)) {
			break
		}
		if n == 0 {
			app, lo = src.app, src.lo
		}
		n++
	}
	return
}

func (c *Ctx) EqApp(a, b *App) *Expr {
	if a == b {
		return c.True
	}
	if a.fn != b.fn || a.out != b.out || len(a.args) != len(b.args) {
		return c.False
	}
	for i := range a.args {
		if len(a.args[i]) != len(b.args[i]) {
			return c.False
		}
	}
	if strings.HasPrefix(a.fn, "rand#") || strings.HasPrefix(a.fn, "sym#") {
		return c.False
	}
	k := [2]int{min(a.id, b.id), max(a.id, b.id)}
	if r, ok := c.eqApps[k]; ok {
		return r
	}
	r := c.True
	for i := range a.args {
		r = c.And(r, c.EqBytes(a.args[i], b.args[i]))
		if r.IsFalse() {
			break
		}
	}
	c.eqApps[k] = r
	return r
}

func (c *Ctx) EqBytes(a, b []*Expr) *Expr {
	if len(a) != len(b) {
		return c.False
	}
	// cheap pass: constant mismatch
	for i := range a {
		if a[i] != b[i] && a[i].op == OpConst && b[i].op == OpConst {
			return c.False
		}
	}
	r := c.True
	var same map[[2]int]int
	for i := 0; i < len(a); {
		if a[i] == b[i] {
			i++
			continue
		}
		x, y := a[i:], b[i:]
		ax, lx, nx := run(x)
		ay, ly, ny := run(y)
		m := 0
		switch {
		case nx >= minRun && ny >= minRun:
			m = min(nx, ny)
			if lx != ly {
				return c.False
			}
			r = c.And(r, c.EqApp(ax, ay))
			for j := 0; j < m; j++ {
				_, dx := appByte(x[j])
				_, dy := appByte(y[j])
				if dx == nil {
					dx = c.small[0]
				}
				if dy == nil {
					dy = c.small[0]
				}
				r = c.And(r, c.Eq(dx, dy))
			}
		case nx >= minRun && appFree(y[:nx]) || ny >= minRun && appFree(x[:ny]):
			return c.False
		case nx >= minRun && len(y) >= nx && freeCount(y[:nx]) >= minRun || ny >= minRun && len(x) >= ny && freeCount(x[:ny]) >= minRun:
			return c.False
		default:
			e := c.Eq(a[i], b[i])
			if e.op == OpEq && e.args[0].op == OpByteOf && e.args[1].op == OpByteOf {
				// random values do not collide
				p, q := e.args[0], e.args[1]
				if p.lo == q.lo && p.app.out == q.app.out && p.app.out >= minRandom && isRandom(p.app) && isRandom(q.app) {
					k := [2]int{min(p.app.id, q.app.id), max(p.app.id, q.app.id)}
					if same == nil {
						same = map[[2]int]int{}
					}
					same[k]++
					if same[k] == p.app.out {
						return c.False
					}
				}
			}
			r = c.And(r, e)
			m = 1
		}
		if r.IsFalse() {
			return r
		}
		i += m
	}
	return r
}

// minRun is the number of bytes of an idealised cryptographic output that are
// taken to determine it: matching that many bytes by accident is excluded.
const minRun = 8

// minRandom is the length from which random values are taken to be different.
const minRandom = 4

func isRandom(a *App) bool { return strings.HasPrefix(a.fn, "rand#") }

func freeCount(b []*Expr) int {
	n := 0
	for _, e := range b {
		if !e.hasApp {
			n++
		}
	}
	return n
}

func appFree(b []*Expr) bool {
	for _, e := range b {
		if e.hasApp {
			return false
		}
	}
	return true
}

// ---- boolean operators

func (c *Ctx) Not(a *Expr) *Expr {
	switch {
	case a.IsTrue():
		return c.False
	case a.IsFalse():
		return c.True
	case a.op == OpNot:
		return a.args[0]
	case a.op == OpUlt:
		return c.Ule(a.args[1], a.args[0])
	case a.op == OpUle:
		return c.Ult(a.args[1], a.args[0])
	case a.op == OpSlt:
		return c.Sle(a.args[1], a.args[0])
	case a.op == OpSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.mk(OpNot, 0, 0, a)
}

func (c *Ctx) And(a, b *Expr) *Expr {
	switch {
	case a.IsFalse() || b.IsFalse():
		return c.False
	case a.IsTrue():
		return b
	case b.IsTrue() || a == b:
		return a
	case a == c.notPeek(b):
		return c.False
	}
	return c.mk(OpAnd, 0, 0, a, b)
}

func (c *Ctx) notPeek(a *Expr) *Expr {
	if a.op == OpNot {
		return a.args[0]
	}
	return nil
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	switch {
	case a.IsTrue() || b.IsTrue():
		return c.True
	case a.IsFalse():
		return b
	case b.IsFalse() || a == b:
		return a
	case a == c.notPeek(b) || b == c.notPeek(a):
		return c.True
	}
	return c.mk(OpOr, 0, 0, a, b)
}

func (c *Ctx) Ite(cond, a, b *Expr) *Expr {
	switch {
	case cond.IsTrue():
		return a
	case cond.IsFalse():
		return b
	case a == b:
		return a
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite width mismatch %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.IsTrue() {
			return c.Or(cond, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.IsFalse() {
			return c.And(cond, a)
		}
	}
	if cond.op == OpNot {
		return c.Ite(cond.args[0], b, a)
	}
	return c.mk(OpIte, a.w, 0, cond, a, b)
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.IsTrue() {
			return b
		}
		if b.IsTrue() {
			return a
		}
		if a.IsFalse() {
			return c.Not(b)
		}
		if b.IsFalse() {
			return c.Not(a)
		}
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a.op == OpDur || b.op == OpDur {
		if x, n, ok := c.durParts(a); ok {
			if y, k, ok := c.durParts(b); ok {
				return c.And(c.Eq(x, y), c.Eq(n, k))
			}
		}
	}
	if a.op == OpBXor && b.op == OpBXor {
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if a.args[i] == b.args[j] {
					return c.Eq(a.args[1-i], b.args[1-j])
				}
			}
		}
	}
	if a.op == OpConcat || b.op == OpConcat {
		if r, ok := c.eqPieces(a, b); ok {
			return r
		}
	}
	if b.op == OpConst {
		switch a.op {
		case OpIte:
			x, y := a.args[1], a.args[2]
			if x.op == OpConst && y.op == OpConst {
				switch {
				case x.val == b.val && y.val == b.val:
					return c.True
				case x.val == b.val:
					return a.args[0]
				case y.val == b.val:
					return c.Not(a.args[0])
				default:
					return c.False
				}
			}
			if x.op == OpConst && x.val != b.val {
				return c.And(c.Not(a.args[0]), c.Eq(y, b))
			}
			if y.op == OpConst && y.val != b.val {
				return c.And(a.args[0], c.Eq(x, b))
			}
		case OpAdd:
			if a.args[1].op == OpConst {
				return c.Eq(a.args[0], c.Const(a.w, b.val-a.args[1].val))
			}
		case OpBXor:
			if a.args[1].op == OpConst {
				return c.Eq(a.args[0], c.Const(a.w, b.val^a.args[1].val))
			}
			if b.val == 0 {
				return c.Eq(a.args[0], a.args[1])
			}
		case OpBNot:
			return c.Eq(a.args[0], c.Const(a.w, ^b.val))
		}
	}
	// x ^ d == x  <=>  d == 0
	if a.op == OpBXor {
		if a.args[0] == b {
			return c.Eq(a.args[1], c.Const(a.w, 0))
		}
		if a.args[1] == b {
			return c.Eq(a.args[0], c.Const(a.w, 0))
		}
	}
	if b.op == OpBXor {
		if b.args[0] == a {
			return c.Eq(b.args[1], c.Const(a.w, 0))
		}
		if b.args[1] == a {
			return c.Eq(b.args[0], c.Const(a.w, 0))
		}
	}
	if a.id > b.id && b.op != OpConst {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, a, b)
}

// pieces views e as a list of terms, msb first.
func pieces(e *Expr) []*Expr {
	if e.op == OpConcat {
		return e.args
	}
	return []*Expr{e}
}

func (c *Ctx) eqPieces(a, b *Expr) (*Expr, bool) {
	r := c.True
	for _, seg := range cuts(a, b) {
		x := c.Extract(a, seg[0], seg[1])
		y := c.Extract(b, seg[0], seg[1])
		if x.w == a.w {
			return nil, false
		}
		r = c.And(r, c.Eq(x, y))
		if r.IsFalse() {
			return r, true
		}
	}
	return r, true
}

// cuts returns the common refinement of the piece boundaries of a and b as
// (lo, width) segments.
func cuts(a, b *Expr) [][2]int {
	var cut [65]bool
	for _, e := range []*Expr{a, b} {
		pos := e.w
		for _, p := range pieces(e) {
			cut[pos] = true
			pos -= p.w
		}
	}
	cut[0] = true
	var segs [][2]int
	lo := 0
	for i := 1; i <= a.w; i++ {
		if cut[i] {
			segs = append(segs, [2]int{lo, i - lo})
			lo = i
		}
	}
	return segs
}

// ---- bit-vector structure

func (c *Ctx) Extract(e *Expr, lo, w int) *Expr {
	if lo == 0 && w == e.w {
		return e
	}
	switch e.op {
	case OpConst:
		return c.Const(w, e.val>>uint(lo))
	case OpExtract:
		return c.Extract(e.args[0], e.lo+lo, w)
	case OpConcat:
		var ps []*Expr
		pos := e.w
		for _, p := range e.args {
			plo := pos - p.w
			l, h := lo, lo+w
			if l < plo {
				l = plo
			}
			if h > pos {
				h = pos
			}
			if l < h {
				ps = append(ps, c.Extract(p, l-plo, h-l))
			}
			pos = plo
		}
		return c.Concat(ps...)
	case OpBAnd, OpBOr, OpBXor:
		return c.bitop(e.op, c.Extract(e.args[0], lo, w), c.Extract(e.args[1], lo, w))
	case OpBNot:
		return c.BNot(c.Extract(e.args[0], lo, w))
	case OpIte:
		if e.args[1].op == OpConst || e.args[2].op == OpConst {
			return c.Ite(e.args[0], c.Extract(e.args[1], lo, w), c.Extract(e.args[2], lo, w))
		}
	case OpSext:
		if lo+w <= e.args[0].w {
			return c.Extract(e.args[0], lo, w)
		}
	case OpAdd, OpSub, OpMul:
		// higher bits do not matter
		if h := lo + w; h < e.w {
			return c.Extract(c.arith(e.op, c.Extract(e.args[0], 0, h), c.Extract(e.args[1], 0, h)), lo, w)
		}
	}
	return c.mk(OpExtract, w, lo, e)
}

// join is the concatenation of l and q if that is simpler, nil otherwise.
func (c *Ctx) join(l, q *Expr) *Expr {
	if l.op == OpConst && q.op == OpConst {
		return c.Const(l.w+q.w, l.val<<uint(q.w)|q.val)
	}
	lb, llo := l, 0
	if l.op == OpExtract {
		lb, llo = l.args[0], l.lo
	}
	qb, qlo := q, 0
	if q.op == OpExtract {
		qb, qlo = q.args[0], q.lo
	}
	if llo != qlo+q.w {
		return nil
	}
	if lb == qb || (lb.op == OpAdd || lb.op == OpSub || lb.op == OpMul) && c.Extract(lb, qlo, q.w) == q {
		return c.Extract(lb, qlo, l.w+q.w)
	}
	return nil
}

func (c *Ctx) Concat(ps ...*Expr) *Expr {
	var out []*Expr
	total := 0
	for _, p := range ps {
		total += p.w
		for _, q := range pieces(p) {
			for len(out) > 0 {
				m := c.join(out[len(out)-1], q)
				if m == nil {
					break
				}
				out, q = out[:len(out)-1], m
			}
			out = append(out, q)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	if total > 64 {
		panic("concat too wide")
	}
	var sb strings.Builder
	for _, p := range out {
		fmt.Fprintf(&sb, "%d,", p.id)
	}
	k := ekey{op: OpConcat, w: total, s: sb.String()}
	if e, ok := c.tab[k]; ok {
		return e
	}
	return c.intern(k, out, nil)
}

func (c *Ctx) Zext(e *Expr, w int) *Expr {
	if w == e.w {
		return e
	}
	if w < e.w {
		return c.Extract(e, 0, w)
	}
	return c.Concat(c.Const(w-e.w, 0), e)
}

func (c *Ctx) Sext(e *Expr, w int) *Expr {
	if w == e.w {
		return e
	}
	if w < e.w {
		return c.Extract(e, 0, w)
	}
	if e.op == OpConst {
		return c.Const(w, uint64(sx(e.w, e.val)))
	}
	if e.op == OpConcat && e.args[0].op == OpConst && e.args[0].val>>uint(e.args[0].w-1) == 0 {
		return c.Zext(e, w)
	}
	return c.mk(OpSext, w, 0, e)
}

// maxVal gives an upper bound on the unsigned value.
func maxVal(e *Expr) uint64 {
	switch e.op {
	case OpConst:
		return e.val
	case OpConcat:
		if e.args[0].op == OpConst {
			lw := e.w - e.args[0].w
			return e.args[0].val<<uint(lw) | mask(lw)
		}
	case OpIte:
		a, b := maxVal(e.args[1]), maxVal(e.args[2])
		if a > b {
			return a
		}
		return b
	case OpURem:
		if e.args[1].op == OpConst && e.args[1].val > 0 {
			return e.args[1].val - 1
		}
	}
	return mask(e.w)
}

func (c *Ctx) bitop(op Op, a, b *Expr) *Expr {
	if a.op == OpConst && b.op == OpConst {
		switch op {
		case OpBAnd:
			return c.Const(a.w, a.val&b.val)
		case OpBOr:
			return c.Const(a.w, a.val|b.val)
		default:
			return c.Const(a.w, a.val^b.val)
		}
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a == b {
		if op == OpBXor {
			return c.Const(a.w, 0)
		}
		return a
	}
	if b.op == OpConst {
		if b.val == 0 {
			if op == OpBAnd {
				return b
			}
			return a
		}
		if b.val == mask(a.w) {
			switch op {
			case OpBAnd:
				return a
			case OpBOr:
				return b
			default:
				return c.BNot(a)
			}
		}
		if op != OpBXor {
			// split into runs of equal mask bits
			var ps []*Expr
			hi := a.w
			for hi > 0 {
				bit := b.val >> uint(hi-1) & 1
				lo := hi - 1
				for lo > 0 && b.val>>uint(lo-1)&1 == bit {
					lo--
				}
				w := hi - lo
				switch {
				case op == OpBAnd && bit == 0:
					ps = append(ps, c.Const(w, 0))
				case op == OpBOr && bit == 1:
					ps = append(ps, c.Const(w, ^uint64(0)))
				default:
					ps = append(ps, c.Extract(a, lo, w))
				}
				hi = lo
			}
			return c.Concat(ps...)
		}
	}
	if op == OpBXor {
		// (x ^ y) ^ y
		if a.op == OpBXor {
			if a.args[0] == b {
				return a.args[1]
			}
			if a.args[1] == b {
				return a.args[0]
			}
		}
		if b.op == OpBXor {
			if b.args[0] == a {
				return b.args[1]
			}
			if b.args[1] == a {
				return b.args[0]
			}
		}
	}
	if a.op == OpConcat || b.op == OpConcat {
		segs := cuts(a, b)
		if len(segs) > 1 {
			ps := make([]*Expr, len(segs))
			for i, s := range segs {
				ps[len(segs)-1-i] = c.bitop(op, c.Extract(a, s[0], s[1]), c.Extract(b, s[0], s[1]))
			}
			return c.Concat(ps...)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, a.w, 0, a, b)
}

func (c *Ctx) BAnd(a, b *Expr) *Expr { return c.bitop(OpBAnd, a, b) }
func (c *Ctx) BOr(a, b *Expr) *Expr  { return c.bitop(OpBOr, a, b) }
func (c *Ctx) BXor(a, b *Expr) *Expr { return c.bitop(OpBXor, a, b) }

func (c *Ctx) BNot(a *Expr) *Expr {
	if a.op == OpConst {
		return c.Const(a.w, ^a.val)
	}
	if a.op == OpBNot {
		return a.args[0]
	}
	return c.mk(OpBNot, a.w, 0, a)
}

// disjoint reports whether a and b never have a common set bit (piecewise).
func (c *Ctx) disjoint(a, b *Expr) bool {
	for _, s := range cuts(a, b) {
		x, y := c.Extract(a, s[0], s[1]), c.Extract(b, s[0], s[1])
		if !(x.op == OpConst && x.val == 0) && !(y.op == OpConst && y.val == 0) {
			return false
		}
	}
	return true
}

func (c *Ctx) arith(op Op, a, b *Expr) *Expr {
	w := a.w
	if op == OpSDiv && a.op == OpDur && b.op == OpConst && b.val%second == 0 && b.val != 0 && int64(b.val) > 0 {
		// towards zero, first to seconds
		x, n := a.args[0], a.args[1]
		zero := c.Const(64, 0)
		up := c.And(c.Slt(x, zero), c.Not(c.Eq(n, zero)))
		x = c.Ite(up, c.Add(x, c.Const(64, 1)), x)
		if b.val == second {
			return x
		}
		return c.arith(OpSDiv, x, c.Const(64, b.val/second))
	}
	if a.op == OpConst && b.op == OpConst {
		switch op {
		case OpAdd:
			return c.Const(w, a.val+b.val)
		case OpSub:
			return c.Const(w, a.val-b.val)
		case OpMul:
			return c.Const(w, a.val*b.val)
		case OpUDiv:
			if b.val != 0 {
				return c.Const(w, a.val/b.val)
			}
		case OpURem:
			if b.val != 0 {
				return c.Const(w, a.val%b.val)
			}
		case OpSDiv:
			if b.val != 0 {
				x, y := sx(w, a.val), sx(w, b.val)
				if y == -1 {
					return c.Const(w, uint64(-x))
				}
				return c.Const(w, uint64(x/y))
			}
		case OpSRem:
			if b.val != 0 {
				x, y := sx(w, a.val), sx(w, b.val)
				if y == -1 {
					return c.Const(w, 0)
				}
				return c.Const(w, uint64(x%y))
			}
		}
	}
	switch op {
	case OpAdd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.args[1].op == OpConst {
				return c.arith(OpAdd, a.args[0], c.Const(w, a.args[1].val+b.val))
			}
		}
		if (a.op == OpConcat || b.op == OpConcat) && c.disjoint(a, b) {
			return c.BOr(a, b)
		}
		if a.op == OpIte && b.op == OpConst && a.args[1].op == OpConst && a.args[2].op == OpConst {
			return c.Ite(a.args[0], c.arith(op, a.args[1], b), c.arith(op, a.args[2], b))
		}
	case OpSub:
		if a == b {
			return c.Const(w, 0)
		}
		if b.op == OpConst {
			return c.arith(OpAdd, a, c.Const(w, -b.val))
		}
	case OpMul:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return b
			}
			if b.val&(b.val-1) == 0 {
				return c.ShlC(a, bits.TrailingZeros64(b.val))
			}
		}
	case OpUDiv:
		if b.op == OpConst && b.val != 0 && b.val&(b.val-1) == 0 {
			return c.LShrC(a, bits.TrailingZeros64(b.val))
		}
	case OpURem:
		if b.op == OpConst && b.val != 0 && b.val&(b.val-1) == 0 {
			return c.BAnd(a, c.Const(w, b.val-1))
		}
	case OpSDiv:
		if b.op == OpConst && sx(w, b.val) > 0 && maxVal(a) <= mask(w-1) {
			return c.arith(OpUDiv, a, b)
		}
	case OpSRem:
		if b.op == OpConst && sx(w, b.val) > 0 && maxVal(a) <= mask(w-1) {
			return c.arith(OpURem, a, b)
		}
	}
	if (op == OpAdd || op == OpMul) && a.id > b.id && b.op != OpConst {
		a, b = b, a
	}
	return c.mk(op, w, 0, a, b)
}

func (c *Ctx) Add(a, b *Expr) *Expr { return c.arith(OpAdd, a, b) }
func (c *Ctx) Sub(a, b *Expr) *Expr { return c.arith(OpSub, a, b) }

func (c *Ctx) ShlC(a *Expr, n int) *Expr {
	if n == 0 {
		return a
	}
	if n >= a.w {
		return c.Const(a.w, 0)
	}
	return c.Concat(c.Extract(a, 0, a.w-n), c.Const(n, 0))
}

func (c *Ctx) LShrC(a *Expr, n int) *Expr {
	if n == 0 {
		return a
	}
	if n >= a.w {
		return c.Const(a.w, 0)
	}
	return c.Concat(c.Const(n, 0), c.Extract(a, n, a.w-n))
}

// shift with Go semantics: n is an unsigned amount of any width; amounts of at
// least the width give 0 (or the sign).
func (c *Ctx) shift(op Op, a, n *Expr) *Expr {
	w := a.w
	if n.op == OpConst {
		v := n.val
		switch op {
		case OpShl:
			if v >= uint64(w) {
				return c.Const(w, 0)
			}
			return c.ShlC(a, int(v))
		case OpLShr:
			if v >= uint64(w) {
				return c.Const(w, 0)
			}
			return c.LShrC(a, int(v))
		default:
			if v >= uint64(w) {
				v = uint64(w - 1)
			}
			if a.op == OpConst {
				return c.Const(w, uint64(sx(w, a.val)>>v))
			}
			if maxVal(a) <= mask(w-1) {
				return c.LShrC(a, int(v))
			}
			return c.Sext(c.Extract(a, int(v), w-int(v)), w)
		}
	}
	// normalise amount to w bits, saturating
	var amt *Expr
	if n.w <= w {
		amt = c.Zext(n, w)
	} else {
		big := c.Ult(c.Const(n.w, uint64(w)), n)
		amt = c.Ite(big, c.Const(w, uint64(w)), c.Extract(n, 0, w))
	}
	return c.mk(op, w, 0, a, amt)
}

// ---- comparisons

func (c *Ctx) Ult(a, b *Expr) *Expr {
	if a == b {
		return c.False
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(a.val < b.val)
	}
	if b.op == OpConst && b.val == 0 {
		return c.False
	}
	if a.op == OpConst && a.val >= maxVal(b) {
		return c.False
	}
	if b.op == OpConst && maxVal(a) < b.val {
		return c.True
	}
	if x, y, ok := c.trimHigh(a, b); ok {
		return c.Ult(x, y)
	}
	if b.op == OpConst && b.val == 1 {
		return c.Eq(a, c.Const(a.w, 0))
	}
	return c.mk(OpUlt, 0, 0, a, b)
}

func (c *Ctx) Ule(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(a.val <= b.val)
	}
	if a.op == OpConst && a.val == 0 {
		return c.True
	}
	if b.op == OpConst && maxVal(a) <= b.val {
		return c.True
	}
	if a.op == OpConst && a.val > maxVal(b) {
		return c.False
	}
	if x, y, ok := c.trimHigh(a, b); ok {
		return c.Ule(x, y)
	}
	if b.op == OpConst && b.val == 0 {
		return c.Eq(a, b)
	}
	return c.mk(OpUle, 0, 0, a, b)
}

// trimHigh removes common leading zero bits.
func (c *Ctx) trimHigh(a, b *Expr) (*Expr, *Expr, bool) {
	z := lzeros(a)
	if y := lzeros(b); y < z {
		z = y
	}
	if z == 0 || z >= a.w {
		return nil, nil, false
	}
	return c.Extract(a, 0, a.w-z), c.Extract(b, 0, b.w-z), true
}

func lzeros(e *Expr) int {
	switch e.op {
	case OpConst:
		return e.w - bits.Len64(e.val)
	case OpConcat:
		if e.args[0].op == OpConst && e.args[0].val == 0 {
			return e.args[0].w
		}
	}
	return 0
}

func (c *Ctx) Slt(a, b *Expr) *Expr {
	if a == b {
		return c.False
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(sx(a.w, a.val) < sx(b.w, b.val))
	}
	if a.op == OpDur || b.op == OpDur {
		if x, n, ok := c.durParts(a); ok {
			if y, k, ok := c.durParts(b); ok {
				return c.Or(c.Slt(x, y), c.And(c.Eq(x, y), c.Ult(n, k)))
			}
		}
	}
	if nonNeg(a) && nonNeg(b) {
		return c.Ult(a, b)
	}
	if b.op == OpConst && b.val == 0 {
		return c.Eq(c.Extract(a, a.w-1, 1), c.Const(1, 1))
	}
	return c.mk(OpSlt, 0, 0, a, b)
}

func (c *Ctx) Sle(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(sx(a.w, a.val) <= sx(b.w, b.val))
	}
	if a.op == OpDur || b.op == OpDur {
		if x, n, ok := c.durParts(a); ok {
			if y, k, ok := c.durParts(b); ok {
				return c.Or(c.Slt(x, y), c.And(c.Eq(x, y), c.Ule(n, k)))
			}
		}
	}
	if nonNeg(a) && nonNeg(b) {
		return c.Ule(a, b)
	}
	if a.op == OpConst && a.val == 0 {
		return c.Eq(c.Extract(b, b.w-1, 1), c.Const(1, 0))
	}
	return c.mk(OpSle, 0, 0, a, b)
}

const second = 1000000000

// Dur is a*1e9+n for values that do not overflow and 0 <= n < 1e9.
func (c *Ctx) Dur(a, n *Expr) *Expr {
	if a.op == OpConst && n.op == OpConst {
		return c.Const(64, a.val*second+n.val)
	}
	return c.mk(OpDur, 64, 0, a, n)
}

func (c *Ctx) durParts(e *Expr) (a, n *Expr, ok bool) {
	switch e.op {
	case OpDur:
		return e.args[0], e.args[1], true
	case OpConst:
		v := int64(e.val)
		q, r := v/second, v%second
		if r < 0 {
			q, r = q-1, r+second
		}
		return c.Const(64, uint64(q)), c.Const(64, uint64(r)), true
	}
	return nil, nil, false
}

func nonNeg(e *Expr) bool { return maxVal(e) <= mask(e.w-1) }

// ---- evaluation and substitution

type Model map[*Expr]uint64

func (c *Ctx) Eval(e *Expr, m Model, memo map[*Expr]uint64) uint64 {
	switch e.op {
	case OpConst:
		return e.val
	case OpVar, OpByteOf:
		return m[e]
	}
	if v, ok := memo[e]; ok {
		return v
	}
	var r uint64
	ev := func(i int) uint64 { return c.Eval(e.args[i], m, memo) }
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch e.op {
	case OpNot:
		r = 1 - ev(0)
	case OpAnd:
		if ev(0) == 1 {
			r = ev(1)
		}
	case OpOr:
		r = 1
		if ev(0) == 0 {
			r = ev(1)
		}
	case OpEq:
		r = b2u(ev(0) == ev(1))
	case OpIte:
		if ev(0) == 1 {
			r = ev(1)
		} else {
			r = ev(2)
		}
	case OpAdd:
		r = ev(0) + ev(1)
	case OpDur:
		r = ev(0)*second + ev(1)
	case OpSub:
		r = ev(0) - ev(1)
	case OpMul:
		r = ev(0) * ev(1)
	case OpUDiv:
		if y := ev(1); y != 0 {
			r = ev(0) / y
		} else {
			r = ^uint64(0)
		}
	case OpURem:
		if y := ev(1); y != 0 {
			r = ev(0) % y
		} else {
			r = ev(0)
		}
	case OpSDiv:
		x, y := sx(e.w, ev(0)), sx(e.w, ev(1))
		switch {
		case y == 0 && x < 0:
			r = 1
		case y == 0:
			r = ^uint64(0)
		case y == -1:
			r = uint64(-x)
		default:
			r = uint64(x / y)
		}
	case OpSRem:
		x, y := sx(e.w, ev(0)), sx(e.w, ev(1))
		switch {
		case y == 0:
			r = uint64(x)
		case y == -1:
			r = 0
		default:
			r = uint64(x % y)
		}
	case OpBAnd:
		r = ev(0) & ev(1)
	case OpBOr:
		r = ev(0) | ev(1)
	case OpBXor:
		r = ev(0) ^ ev(1)
	case OpBNot:
		r = ^ev(0)
	case OpShl:
		if n := ev(1); n < uint64(e.w) {
			r = ev(0) << n
		}
	case OpLShr:
		if n := ev(1); n < uint64(e.w) {
			r = ev(0) >> n
		}
	case OpAShr:
		n := ev(1)
		if n >= uint64(e.w) {
			n = uint64(e.w - 1)
		}
		r = uint64(sx(e.w, ev(0)) >> n)
	case OpUlt:
		r = b2u(ev(0) < ev(1))
	case OpUle:
		r = b2u(ev(0) <= ev(1))
	case OpSlt:
		r = b2u(sx(e.args[0].w, ev(0)) < sx(e.args[0].w, ev(1)))
	case OpSle:
		r = b2u(sx(e.args[0].w, ev(0)) <= sx(e.args[0].w, ev(1)))
	case OpSext:
		r = uint64(sx(e.args[0].w, ev(0)))
	case OpExtract:
		r = ev(0) >> uint(e.lo)
	case OpConcat:
		for i, a := range e.args {
			r = r<<uint(a.w) | ev(i)
		}
	default:
		panic("eval op")
	}
	if e.w > 0 {
		r &= mask(e.w)
	}
	memo[e] = r
	return r
}

// rebuild re-applies the operator of e to new arguments.
func (c *Ctx) rebuild(e *Expr, a []*Expr) *Expr {
	switch e.op {
	case OpNot:
		return c.Not(a[0])
	case OpAnd:
		return c.And(a[0], a[1])
	case OpOr:
		return c.Or(a[0], a[1])
	case OpEq:
		return c.Eq(a[0], a[1])
	case OpIte:
		return c.Ite(a[0], a[1], a[2])
	case OpAdd, OpSub, OpMul, OpUDiv, OpURem, OpSDiv, OpSRem:
		return c.arith(e.op, a[0], a[1])
	case OpBAnd, OpBOr, OpBXor:
		return c.bitop(e.op, a[0], a[1])
	case OpBNot:
		return c.BNot(a[0])
	case OpShl, OpLShr, OpAShr:
		return c.shift(e.op, a[0], a[1])
	case OpUlt:
		return c.Ult(a[0], a[1])
	case OpUle:
		return c.Ule(a[0], a[1])
	case OpSlt:
		return c.Slt(a[0], a[1])
	case OpSle:
		return c.Sle(a[0], a[1])
	case OpSext:
		return c.Sext(a[0], e.w)
	case OpExtract:
		return c.Extract(a[0], e.lo, e.w)
	case OpConcat:
		return c.Concat(a...)
	case OpDur:
		return c.Dur(a[0], a[1])
	}
	panic("rebuild")
}

func (c *Ctx) Subst(e *Expr, known map[*Expr]*Expr, memo map[*Expr]*Expr) *Expr {
	if !e.hasVar {
		return e
	}
	if r, ok := known[e]; ok {
		return r
	}
	if len(e.args) == 0 {
		return e
	}
	if r, ok := memo[e]; ok {
		return r
	}
	var na []*Expr
	for i, a := range e.args {
		b := c.Subst(a, known, memo)
		if b != a && na == nil {
			na = append([]*Expr(nil), e.args...)
		}
		if na != nil {
			na[i] = b
		}
	}
	r := e
	if na != nil {
		r = c.rebuild(e, na)
		if k, ok := known[r]; ok {
			r = k
		}
	}
	memo[e] = r
	return r
}

func (e *Expr) String() string { return exprString(e, 6) }

func exprString(e *Expr, depth int) string {
	switch e.op {
	case OpConst:
		if e.w == 0 {
			return fmt.Sprint(e.val == 1)
		}
		return fmt.Sprintf("%d:%d", e.val, e.w)
	case OpVar:
		return e.name
	case OpByteOf:
		return fmt.Sprintf("%s#%d[%d]", e.app.fn, e.app.id, e.lo)
	}
	if depth == 0 {
		return "..."
	}
	var sb strings.Builder
	n := opName[e.op]
	if e.op == OpExtract {
		n = fmt.Sprintf("ext%d+%d", e.lo, e.w)
	}
	if e.op == OpSext {
		n = "sext"
	}
	fmt.Fprintf(&sb, "(%s", n)
	for _, a := range e.args {
		sb.WriteByte(' ')
		sb.WriteString(exprString(a, depth-1))
	}
	sb.WriteByte(')')
	return sb.String()
}
