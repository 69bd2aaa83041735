package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of standard library functions that have no Go source, use unsafe
// tricks or would be wasteful to interpret.

// dataPtr is the result of unsafe.SliceData and unsafe.StringData.
type dataPtr struct{ cells []value }

// Chan is a channel.  Goroutines run to completion when they are started, so
// an unbuffered channel behaves like a large buffer; an operation that would
// block is not supported.
type Chan struct {
	elem   types.Type
	q      []value
	cap    int
	closed bool
}

func (in *Interp) chanRecv(x value, commaOk bool) value {
	c, _ := x.(*Chan)
	if c == nil {
		unsupported("receive from a nil channel")
	}
	var v value
	ok := len(c.q) > 0
	switch {
	case ok:
		v = c.q[0]
		c.q = c.q[1:]
	case c.closed:
		v = in.zero(c.elem)
	default:
		unsupported("blocking receive")
	}
	if commaOk {
		return Tuple{v, in.c.Bool(ok)}
	}
	return v
}

func (c *Chan) room() bool { return c.cap == 0 || len(c.q) < c.cap }

func (in *Interp) chanSend(x, v value) {
	c, _ := x.(*Chan)
	if c == nil {
		unsupported("send to a nil channel")
	}
	if c.closed {
		in.rtPanic("send on closed channel")
	}
	if !c.room() {
		unsupported("blocking send")
	}
	c.q = append(c.q, copyVal(v))
}

func (in *Interp) selectStmt(fr *frame, ins *ssa.Select, ci *cinstr) value {
	r := Tuple{in.c.Const(64, 0), in.c.False}
	pick := -1
	var got value
	for i, st := range ins.States {
		c, _ := in.get(fr, ci.ops[2*i]).(*Chan)
		if c == nil {
			continue
		}
		if st.Dir == types.SendOnly {
			if c.cap > 0 && c.room() || c.closed {
				in.chanSend(c, in.get(fr, ci.ops[2*i+1]))
				pick = i
				break
			}
			continue
		}
		if len(c.q) > 0 || c.closed {
			t := in.chanRecv(c, true).(Tuple)
			got, r[1] = t[0], t[1]
			pick = i
			break
		}
	}
	if pick < 0 && ins.Blocking {
		unsupported("blocking select")
	}
	r[0] = in.c.Const(64, uint64(int64(pick)))
	for i, st := range ins.States {
		if st.Dir == types.RecvOnly {
			if i == pick {
				r = append(r, got)
			} else {
				r = append(r, in.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return r
}

// ---- formatting

// injective stands for the text of a symbolic value: different values have
// different texts of the same length.
func (in *Interp) injective(i Iface) (b []*Expr) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(pathEnd); !ok || e.kind != "unsupported" {
				panic(r)
			}
			b = in.str("?")
		}
	}()
	in.dump(&b, i.t, i.v)
	return b
}

func (in *Interp) hexDigits(b []*Expr, upper bool) []*Expr {
	c := in.c
	base := byte('a')
	if upper {
		base = 'A'
	}
	var r []*Expr
	for _, x := range b {
		for _, lo := range []int{4, 0} {
			d := c.Zext(c.Extract(x, lo, 4), 8)
			r = append(r, c.Ite(c.Ult(d, c.Const(8, 10)), c.Add(d, c.Const(8, '0')), c.Add(d, c.Const(8, uint64(base-10)))))
		}
	}
	return r
}

func (in *Interp) formatArg(fr *frame, verb string, a value) []*Expr {
	i, ok := a.(Iface)
	if !ok {
		return in.str("?")
	}
	v := verb[len(verb)-1]
	if v == 'T' {
		if i.t == nil {
			return in.str("<nil>")
		}
		return in.str(types.TypeString(i.t, func(p *types.Package) string { return p.Name() }))
	}
	if i.t == nil {
		return in.str("<nil>")
	}
	if v == 'v' || v == 's' || v == 'w' || v == 'q' {
		if _, model := i.v.(modelObj); !model {
			for _, m := range []string{"Error", "String"} {
				if p, isp := i.v.(*value); isp && p == nil {
					break
				}
				if f := in.method(i.t, m); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
					if s, ok := in.callSSA(fr, f, []value{i.v}, nil).(Str); ok {
						return s
					}
				}
			}
		}
	}
	switch x := i.v.(type) {
	case Str:
		switch v {
		case 'x', 'X':
			return in.hexDigits(x, v == 'X')
		case 'q':
			if s, ok := x.concrete(); ok {
				return in.str(fmt.Sprintf("%q", s))
			}
		}
		return x
	case Slice:
		if e, ok := i.t.Underlying().(*types.Slice); ok {
			if b, ok := e.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				switch v {
				case 'x', 'X':
					return in.hexDigits(in.bytesOf(x), v == 'X')
				case 's':
					return in.bytesOf(x)
				}
			}
		}
	case Array:
		if e, ok := i.t.Underlying().(*types.Array); ok && (v == 'x' || v == 'X') {
			if b, ok := e.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				bs := make([]*Expr, len(x))
				for j := range x {
					bs[j] = x[j].(*Expr)
				}
				return in.hexDigits(bs, v == 'X')
			}
		}
	case *Expr:
		x = in.simp(x)
		if x.op == OpConst {
			return in.str(fmt.Sprintf(verb, in.goVal(Iface{i.t, x})))
		}
	case float64:
		return in.str(fmt.Sprintf(verb, x))
	case *value:
		if x == nil {
			return in.str("<nil>")
		}
		if v == 'p' {
			unsupported("formatting of a pointer")
		}
	}
	return in.injective(i)
}

func (in *Interp) sprintf(fr *frame, f string, args []value) Str {
	var r Str
	n := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			r = append(r, in.c.small[f[i]])
			i++
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		if f[j] == '%' {
			r = append(r, in.c.small['%'])
		} else if n < len(args) {
			r = append(r, in.formatArg(fr, f[i:j+1], args[n])...)
			n++
		}
		i = j + 1
	}
	return r
}

func (in *Interp) sprint(fr *frame, args []value, sep string) Str {
	var r Str
	for i, a := range args {
		if i > 0 {
			r = append(r, in.str(sep)...)
		}
		r = append(r, in.formatArg(fr, "%v", a)...)
	}
	return r
}

func (in *Interp) fprint(fr *frame, w value, s Str) value {
	if i, ok := w.(Iface); ok && i.t != nil && i.t.String() != "*os.File" {
		b := in.mkBytes(s)
		if mo, ok := i.v.(modelObj); ok {
			return mo.call(in, "Write", []value{b})
		}
		if f := in.method(i.t, "Write"); f != nil {
			return in.callSSA(fr, f, []value{i.v, b}, nil)
		}
	}
	return Tuple{in.c.Const(64, uint64(len(s))), Iface{}}
}

// ---- errors

// method returns an exported method of a type, or nil.
func (in *Interp) method(t types.Type, name string) *ssa.Function {
	if s := in.p.prog.MethodSets.MethodSet(t).Lookup(nil, name); s != nil {
		return in.p.prog.MethodValue(s)
	}
	return nil
}

// unwrap returns what an error wraps.
func (in *Interp) unwrap(err Iface) []Iface {
	if _, ok := err.v.(modelObj); ok {
		return nil
	}
	m := in.method(err.t, "Unwrap")
	if m == nil || m.Signature.Results().Len() != 1 || m.Signature.Params().Len() != 0 {
		return nil
	}
	switch r := in.callSSA(nil, m, []value{err.v}, nil).(type) {
	case Iface:
		if r.t != nil {
			return []Iface{r}
		}
	case Slice:
		var l []Iface
		for _, e := range in.mat(r).v {
			if i, ok := e.(Iface); ok && i.t != nil {
				l = append(l, i)
			}
		}
		return l
	}
	return nil
}

func (in *Interp) errorsAs(err Iface, target Iface) *Expr {
	if err.t == nil {
		return in.c.False
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		in.rtPanic("errors: target must be a non-nil pointer")
	}
	if types.AssignableTo(err.t, pt.Elem()) {
		cell := in.deref(target.v)
		if types.IsInterface(pt.Elem()) {
			storeInto(cell, err)
		} else {
			storeInto(cell, err.v)
		}
		return in.c.True
	}
	for _, e := range in.unwrap(err) {
		if r := in.errorsAs(e, target); r.IsTrue() {
			return r
		}
	}
	return in.c.False
}

// ---- deep equality

func (in *Interp) deepEqual(t types.Type, x, y value) *Expr {
	c := in.c
	all := func(n int, f func(int) *Expr) *Expr {
		r := c.True
		for i := 0; i < n && !r.IsFalse(); i++ {
			r = c.And(r, f(i))
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		xs, ys := x.(Slice), y.(Slice)
		if isNilSlice(xs) != isNilSlice(ys) {
			return c.False
		}
		xs, ys = in.mat(xs), in.mat(ys)
		if len(xs.v) != len(ys.v) {
			return c.False
		}
		return all(len(xs.v), func(i int) *Expr { return in.deepEqual(u.Elem(), xs.v[i], ys.v[i]) })
	case *types.Array:
		xs, ys := x.(Array), y.(Array)
		return all(len(xs), func(i int) *Expr { return in.deepEqual(u.Elem(), xs[i], ys[i]) })
	case *types.Struct:
		xs, ok1 := x.(Structure)
		ys, ok2 := y.(Structure)
		if ok1 && ok2 {
			return all(len(xs), func(i int) *Expr { return in.deepEqual(u.Field(i).Type(), xs[i], ys[i]) })
		}
	case *types.Pointer:
		xp, ok1 := x.(*value)
		yp, ok2 := y.(*value)
		if ok1 && ok2 {
			if xp == yp || xp == nil || yp == nil {
				return c.Bool(xp == yp)
			}
			return in.deepEqual(u.Elem(), *xp, *yp)
		}
	case *types.Interface:
		xi, yi := x.(Iface), y.(Iface)
		if xi.t == nil || yi.t == nil {
			return c.Bool(xi.t == nil && yi.t == nil)
		}
		if !types.Identical(xi.t, yi.t) {
			return c.False
		}
		return in.deepEqual(xi.t, xi.v, yi.v)
	case *types.Map:
		xm, ym := x.(*Map), y.(*Map)
		if (xm == nil) != (ym == nil) {
			return c.False
		}
		if xm == nil {
			return c.True
		}
		if len(xm.ents) != len(ym.ents) {
			return c.False
		}
		return all(len(xm.ents), func(i int) *Expr {
			e := in.mapFind(ym, xm.ents[i].k)
			if e == nil {
				return c.False
			}
			return in.deepEqual(u.Elem(), xm.ents[i].v, e.v)
		})
	case *types.Signature:
		a, _ := x.(*Closure)
		b, _ := y.(*Closure)
		return c.Bool(a == nil && b == nil)
	}
	return in.equal(x, y)
}

// ---- search in bytes

func (in *Interp) countByte(s []*Expr, b *Expr) *Expr {
	c := in.c
	r := c.Const(64, 0)
	for _, x := range s {
		r = c.Add(r, c.Ite(c.Eq(x, b), c.Const(64, 1), c.Const(64, 0)))
	}
	return r
}

func (in *Interp) lastIndexByte(s []*Expr, b *Expr) *Expr {
	c := in.c
	r := c.Const(64, ^uint64(0))
	for i, x := range s {
		r = c.Ite(c.Eq(x, b), c.Const(64, uint64(i)), r)
	}
	return r
}

func (in *Interp) indexBytes(s, sep []*Expr) *Expr {
	c := in.c
	r := c.Const(64, ^uint64(0))
	for i := len(s) - len(sep); i >= 0; i-- {
		r = c.Ite(c.EqBytes(s[i:i+len(sep)], sep), c.Const(64, uint64(i)), r)
	}
	return r
}

func (in *Interp) anyBytes(v value) []*Expr {
	if s, ok := v.(Str); ok {
		return s
	}
	return in.bytesOf(v)
}

func overlaps(a, b []value) bool {
	a, b = a[:len(a):len(a)], b[:len(b):len(b)]
	for i := range a {
		if len(b) > 0 && &a[i] == &b[0] {
			return true
		}
	}
	for i := range b {
		if len(a) > 0 && &b[i] == &a[0] {
			return true
		}
	}
	return false
}

// side returns the contents of a sync.Map.
func (in *Interp) side(p value) *Map {
	k := in.deref(p)
	if in.sides == nil {
		in.sides = map[*value]*Map{}
	}
	m := in.sides[k]
	if m == nil {
		e := types.NewInterfaceType(nil, nil)
		m = &Map{keyT: e, elemT: e}
		in.sides[k] = m
	}
	return m
}

func stdlibIntrinsics() map[string]intrinsic {
	type fun = func(in *Interp, fr *frame, args []value) value
	m := map[string]intrinsic{}
	def := func(names string, f fun) {
		for _, n := range strings.Fields(names) {
			m[n] = func(in *Interp, fr *frame, fn *ssa.Function, args []value) value { return f(in, fr, args) }
		}
	}
	none := func(in *Interp, fr *frame, args []value) value { return nil }

	// formatting and output
	def("fmt.Sprintf", func(in *Interp, fr *frame, args []value) value {
		return in.sprintf(fr, strArg(args[0]), variadic(in, args[1]))
	})
	def("fmt.Sprint", func(in *Interp, fr *frame, args []value) value { return in.sprint(fr, variadic(in, args[0]), "") })
	def("fmt.Sprintln", func(in *Interp, fr *frame, args []value) value {
		return append(in.sprint(fr, variadic(in, args[0]), " "), in.c.small['\n'])
	})
	def("fmt.Appendf", func(in *Interp, fr *frame, args []value) value {
		var add []value
		for _, e := range in.sprintf(fr, strArg(args[1]), variadic(in, args[2])) {
			add = append(add, e)
		}
		return in.appendVals(in.mat(args[0].(Slice)), add, types.Typ[types.Uint8])
	})
	def("fmt.Fprintf", func(in *Interp, fr *frame, args []value) value {
		return in.fprint(fr, args[0], in.sprintf(fr, strArg(args[1]), variadic(in, args[2])))
	})
	def("fmt.Fprint", func(in *Interp, fr *frame, args []value) value {
		return in.fprint(fr, args[0], in.sprint(fr, variadic(in, args[1]), ""))
	})
	def("fmt.Fprintln", func(in *Interp, fr *frame, args []value) value {
		return in.fprint(fr, args[0], append(in.sprint(fr, variadic(in, args[1]), " "), in.c.small['\n']))
	})
	def("fmt.Println fmt.Printf fmt.Print", func(in *Interp, fr *frame, args []value) value {
		return Tuple{in.c.Const(64, 0), Iface{}}
	})
	def(`log.Printf log.Println log.Print (*log.Logger).Printf (*log.Logger).Println (*log.Logger).Print
		log/slog.Debug log/slog.Info log/slog.Warn log/slog.Error (*log/slog.Logger).Debug (*log/slog.Logger).Info
		(*log/slog.Logger).Warn (*log/slog.Logger).Error`, none)
	def("log.Default log/slog.Default", func(in *Interp, fr *frame, args []value) value {
		p := new(value)
		*p = Structure{}
		return p
	})
	def("os.Getenv", func(in *Interp, fr *frame, args []value) value { return Str(nil) })
	def("os.LookupEnv", func(in *Interp, fr *frame, args []value) value { return Tuple{Str(nil), in.c.False} })

	// errors
	def("errors.Is", func(in *Interp, fr *frame, args []value) value {
		return in.errorsIs(args[0].(Iface), args[1].(Iface))
	})
	def("errors.As", func(in *Interp, fr *frame, args []value) value {
		return in.errorsAs(args[0].(Iface), args[1].(Iface))
	})
	m["errors.AsType"] = func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
		t := fn.Signature.Results().At(0).Type()
		p := new(value)
		*p = in.zero(t)
		ok := in.errorsAs(args[0].(Iface), Iface{types.NewPointer(t), p})
		return Tuple{*p, ok}
	}

	def("reflect.DeepEqual", func(in *Interp, fr *frame, args []value) value {
		e := types.NewInterfaceType(nil, nil)
		return in.deepEqual(e, args[0], args[1])
	})

	// synchronisation: goroutines run to completion when started
	def(`(*sync.WaitGroup).Add (*sync.WaitGroup).Done (*sync.WaitGroup).Wait
		(*sync.Mutex).Lock (*sync.Mutex).Unlock (*sync.RWMutex).Lock (*sync.RWMutex).Unlock
		(*sync.RWMutex).RLock (*sync.RWMutex).RUnlock runtime.KeepAlive runtime.GC runtime.Gosched
		internal/race.Acquire internal/race.Release internal/race.ReleaseMerge internal/race.Disable internal/race.Enable`, none)
	def("(*sync.Mutex).TryLock (*sync.RWMutex).TryLock (*sync.RWMutex).TryRLock", func(in *Interp, fr *frame, args []value) value { return in.c.True })
	def("(*sync.WaitGroup).Go", func(in *Interp, fr *frame, args []value) value {
		in.call(fr, args[1], nil)
		return nil
	})
	m["(*sync.Pool).Get"] = func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
		t := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		f := (*in.deref(args[0])).(Structure)[in.fieldOf(t, "New")]
		if c, _ := f.(*Closure); c != nil {
			return in.call(fr, c, nil)
		}
		return Iface{}
	}
	def("(*sync.Pool).Put", none)
	def("(*sync.Map).Load", func(in *Interp, fr *frame, args []value) value {
		if e := in.mapFind(in.side(args[0]), args[1]); e != nil {
			return Tuple{e.v, in.c.True}
		}
		return Tuple{Iface{}, in.c.False}
	})
	def("(*sync.Map).Store", func(in *Interp, fr *frame, args []value) value {
		in.mapSet(in.side(args[0]), args[1], args[2])
		return nil
	})
	def("(*sync.Map).LoadOrStore", func(in *Interp, fr *frame, args []value) value {
		s := in.side(args[0])
		if e := in.mapFind(s, args[1]); e != nil {
			return Tuple{e.v, in.c.True}
		}
		in.mapSet(s, args[1], args[2])
		return Tuple{args[2], in.c.False}
	})
	def("(*sync.Map).LoadAndDelete", func(in *Interp, fr *frame, args []value) value {
		s := in.side(args[0])
		if e := in.mapFind(s, args[1]); e != nil {
			in.mapDelete(s, args[1])
			return Tuple{e.v, in.c.True}
		}
		return Tuple{Iface{}, in.c.False}
	})
	def("(*sync.Map).Delete", func(in *Interp, fr *frame, args []value) value {
		in.mapDelete(in.side(args[0]), args[1])
		return nil
	})
	def("(*sync.Map).Clear", func(in *Interp, fr *frame, args []value) value {
		s := in.side(args[0])
		s.ents, s.idx = nil, nil
		return nil
	})
	def("(*sync.Map).Range", func(in *Interp, fr *frame, args []value) value {
		for _, e := range append([]*mapEntry(nil), in.side(args[0]).ents...) {
			if !in.branch(in.call(fr, args[1], []value{e.k, e.v}).(*Expr)) {
				break
			}
		}
		return nil
	})

	// atomics
	for _, t := range strings.Fields("Int32 Int64 Uint32 Uint64 Uintptr Pointer") {
		def("sync/atomic.Load"+t, func(in *Interp, fr *frame, args []value) value { return *in.deref(args[0]) })
		def("sync/atomic.Store"+t, func(in *Interp, fr *frame, args []value) value {
			*in.deref(args[0]) = args[1]
			return nil
		})
		def("sync/atomic.Swap"+t, func(in *Interp, fr *frame, args []value) value {
			p := in.deref(args[0])
			old := *p
			*p = args[1]
			return old
		})
		def("sync/atomic.Add"+t, func(in *Interp, fr *frame, args []value) value {
			p := in.deref(args[0])
			v := in.c.Add((*p).(*Expr), args[1].(*Expr))
			*p = v
			return v
		})
		def("sync/atomic.And"+t, func(in *Interp, fr *frame, args []value) value {
			p := in.deref(args[0])
			old := *p
			*p = in.c.BAnd(old.(*Expr), args[1].(*Expr))
			return old
		})
		def("sync/atomic.Or"+t, func(in *Interp, fr *frame, args []value) value {
			p := in.deref(args[0])
			old := *p
			*p = in.c.BOr(old.(*Expr), args[1].(*Expr))
			return old
		})
		def("sync/atomic.CompareAndSwap"+t, func(in *Interp, fr *frame, args []value) value {
			p := in.deref(args[0])
			if in.branch(in.equal(*p, args[1])) {
				*p = args[2]
				return in.c.True
			}
			return in.c.False
		})
	}
	def("(*sync/atomic.Value).Load", func(in *Interp, fr *frame, args []value) value {
		return (*in.deref(args[0])).(Structure)[0]
	})
	def("(*sync/atomic.Value).Store", func(in *Interp, fr *frame, args []value) value {
		(*in.deref(args[0])).(Structure)[0] = args[1]
		return nil
	})

	// maps and slices
	def("maps.clone", func(in *Interp, fr *frame, args []value) value {
		i := args[0].(Iface)
		x, _ := i.v.(*Map)
		if x == nil {
			return i
		}
		n := &Map{keyT: x.keyT, elemT: x.elemT}
		for _, e := range x.ents {
			n.ents = append(n.ents, &mapEntry{copyVal(e.k), copyVal(e.v)})
		}
		return Iface{i.t, n}
	})
	def("slices.overlaps", func(in *Interp, fr *frame, args []value) value {
		return in.c.Bool(overlaps(in.mat(args[0].(Slice)).v, in.mat(args[1].(Slice)).v))
	})
	def("slices.startIdx", func(in *Interp, fr *frame, args []value) value {
		h, n := in.mat(args[0].(Slice)).v, in.mat(args[1].(Slice)).v
		for i := range h {
			if len(n) > 0 && &h[i] == &n[0] {
				return in.c.Const(64, uint64(i))
			}
		}
		unsupported("slices.startIdx")
		return nil
	})

	// bytes and strings
	def("internal/bytealg.MakeNoZero", func(in *Interp, fr *frame, args []value) value {
		n := in.concretize(args[0].(*Expr), "length")
		b := make([]*Expr, n)
		for i := range b {
			b[i] = in.c.small[0]
		}
		return in.mkBytes(b)
	})
	def("internal/bytealg.Count internal/bytealg.CountString", func(in *Interp, fr *frame, args []value) value {
		return in.countByte(in.anyBytes(args[0]), args[1].(*Expr))
	})
	def("internal/bytealg.LastIndexByte internal/bytealg.LastIndexByteString", func(in *Interp, fr *frame, args []value) value {
		return in.lastIndexByte(in.anyBytes(args[0]), args[1].(*Expr))
	})
	def("internal/bytealg.Index internal/bytealg.IndexString bytes.Index strings.Index", func(in *Interp, fr *frame, args []value) value {
		return in.indexBytes(in.anyBytes(args[0]), in.anyBytes(args[1]))
	})
	def("internal/bytealg.CompareString", func(in *Interp, fr *frame, args []value) value {
		return in.compareBytes(args[0].(Str), args[1].(Str))
	})
	def("(*strings.Builder).grow", none)
	def("strings.Clone internal/stringslite.Clone", func(in *Interp, fr *frame, args []value) value { return args[0] })

	// floating point
	for n, f := range map[string]func(float64) float64{"Ceil": math.Ceil, "Floor": math.Floor, "Trunc": math.Trunc, "Round": math.Round,
		"Log2": math.Log2, "Log": math.Log, "Log10": math.Log10, "Sqrt": math.Sqrt, "Exp": math.Exp, "Exp2": math.Exp2, "Abs": math.Abs} {
		def("math."+n, func(in *Interp, fr *frame, args []value) value { return f(args[0].(float64)) })
	}
	def("math.Pow", func(in *Interp, fr *frame, args []value) value { return math.Pow(args[0].(float64), args[1].(float64)) })

	return m
}
