package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Values of the symbolic interpreter:
//
//	bool, integers   *Expr
//	float            float64 (concrete only)
//	string           Str
//	struct, array    Structure, Array (cells; copied on load/store)
//	pointer          *value, or SymPtr for an element at a symbolic index
//	slice            Slice
//	map              *Map
//	interface        Iface
//	func             *Closure
type value = any

type Str []*Expr
type Structure []value
type Array []value
type Tuple []value

type Slice struct {
	v    []value
	ok   bool // non-nil
	lazy *Lazy
}

// Lazy is a slice allocated with a symbolic length that nobody has looked
// into yet.
type Lazy struct {
	n    *Expr
	elem types.Type
	done bool
	mat  []value
}

type SymPtr struct {
	cells []value
	idx   *Expr
}

type Iface struct {
	t types.Type
	v value
}

type Closure struct {
	fn  *ssa.Function
	env []value
	nat func(in *Interp, args []value) value // model function
}

type mapEntry struct {
	k, v value
}

type Map struct {
	keyT, elemT types.Type
	ents        []*mapEntry
	idx         map[string]int // position of entries with constant keys
}

type mapIter struct {
	m    *Map
	ents []*mapEntry
	i    int
}

type strIter struct {
	s Str
	i int
}

// modelObj is an object implemented by the engine and used through interface
// method calls or pointer method calls.
type modelObj interface {
	call(in *Interp, method string, args []value) value
}

type goPanic struct {
	val Iface
	msg string
}

type pathEnd struct {
	kind string // infeasible, assume, unsupported, steps, violation, exit
	msg  string
}

func unsupported(format string, a ...any) {
	panic(pathEnd{"unsupported", fmt.Sprintf(format, a...)})
}

func basicWidth(b *types.Basic) (w int, signed, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func scalarType(t types.Type) (w int, signed, ok bool) {
	if b, isb := t.Underlying().(*types.Basic); isb {
		return basicWidth(b)
	}
	return 0, false, false
}

func (in *Interp) zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		if w, _, ok := basicWidth(t); ok {
			if w == 0 {
				return in.c.False
			}
			return in.c.Const(w, 0)
		}
		switch t.Kind() {
		case types.String, types.UntypedString:
			return Str(nil)
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.UnsafePointer:
			return (*value)(nil)
		case types.UntypedNil:
			return (*value)(nil)
		}
		unsupported("zero of basic type %v", t)
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Structure, t.NumFields())
		for i := range s {
			s[i] = in.zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		n := t.Len()
		if n > 1<<20 {
			unsupported("array of %d elements", n)
		}
		a := make(Array, n)
		for i := range a {
			a[i] = in.zero(t.Elem())
		}
		return a
	case *types.Tuple:
		if t.Len() == 1 {
			return in.zero(t.At(0).Type())
		}
		tt := make(Tuple, t.Len())
		for i := range tt {
			tt[i] = in.zero(t.At(i).Type())
		}
		return tt
	case *types.Named, *types.Alias, *types.TypeParam:
		return in.zero(t.Underlying())
	}
	unsupported("zero of %T %v", t, t)
	return nil
}

func copyVal(v value) value {
	switch v := v.(type) {
	case Structure:
		n := make(Structure, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	}
	return v
}

// storeInto assigns v to the cell, keeping addresses of fields and elements
// valid.
func storeInto(cell *value, v value) {
	switch v := v.(type) {
	case Structure:
		if old, ok := (*cell).(Structure); ok && len(old) == len(v) {
			if len(v) > 0 && &old[0] == &v[0] {
				return
			}
			for i := range v {
				storeInto(&old[i], v[i])
			}
			return
		}
		*cell = copyVal(v)
	case Array:
		if old, ok := (*cell).(Array); ok && len(old) == len(v) {
			if len(v) > 0 && &old[0] == &v[0] {
				return
			}
			for i := range v {
				storeInto(&old[i], v[i])
			}
			return
		}
		*cell = copyVal(v)
	default:
		*cell = v
	}
}

func (in *Interp) constVal(c *ssa.Const) value {
	t := c.Type()
	if c.Value == nil {
		return in.zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		if w, _, ok := basicWidth(b); ok {
			if w == 0 {
				return in.c.Bool(constant.BoolVal(c.Value))
			}
			v := constant.ToInt(c.Value)
			if i, exact := constant.Int64Val(v); exact {
				return in.c.Const(w, uint64(i))
			}
			u, _ := constant.Uint64Val(v)
			return in.c.Const(w, u)
		}
		switch b.Kind() {
		case types.String, types.UntypedString:
			return in.str(constant.StringVal(c.Value))
		case types.Float32, types.Float64, types.UntypedFloat:
			f, _ := constant.Float64Val(c.Value)
			return f
		}
	}
	unsupported("constant %v of type %v", c, t)
	return nil
}

func (in *Interp) str(s string) Str {
	r := make(Str, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = in.c.small[s[i]]
	}
	return r
}

func (s Str) concrete() (string, bool) {
	b := make([]byte, len(s))
	for i, e := range s {
		if e.op != OpConst {
			return "", false
		}
		b[i] = byte(e.val)
	}
	return string(b), true
}

func (in *Interp) bytesOf(v value) []*Expr {
	s := in.mat(v.(Slice))
	r := make([]*Expr, len(s.v))
	for i, x := range s.v {
		r[i] = x.(*Expr)
	}
	return r
}

func (in *Interp) mkBytes(b []*Expr) Slice {
	v := make([]value, len(b))
	for i, e := range b {
		v[i] = e
	}
	return Slice{v: v, ok: true}
}

func (in *Interp) constBytes(b []byte) []*Expr {
	r := make([]*Expr, len(b))
	for i, x := range b {
		r[i] = in.c.small[x]
	}
	return r
}

// mat forces a lazily allocated slice.
func (in *Interp) mat(s Slice) Slice {
	if s.lazy == nil {
		return s
	}
	l := s.lazy
	if !l.done {
		n := in.concretize(l.n, "slice length")
		if n > 1<<20 {
			unsupported("slice of %d elements", n)
		}
		l.mat = make([]value, n)
		for i := range l.mat {
			l.mat[i] = in.zero(l.elem)
		}
		l.done = true
	}
	return Slice{v: l.mat, ok: true}
}

func (in *Interp) sliceLen(s Slice) *Expr {
	if s.lazy != nil {
		if !s.lazy.done {
			return s.lazy.n
		}
		return in.c.Const(64, uint64(len(s.lazy.mat)))
	}
	return in.c.Const(64, uint64(len(s.v)))
}

// equal compares two values of type t and returns a boolean term.
func (in *Interp) equal(x, y value) *Expr {
	c := in.c
	switch x := x.(type) {
	case *Expr:
		return c.Eq(x, y.(*Expr))
	case float64:
		return c.Bool(x == y.(float64))
	case Str:
		return c.EqBytes(x, y.(Str))
	case *value:
		switch y := y.(type) {
		case *value:
			return c.Bool(x == y)
		case SymPtr:
			if x == nil {
				return c.False
			}
			unsupported("comparison with symbolic pointer")
		case modelObj:
			return c.False
		}
		return c.Bool(x == nil && y == nil)
	case SymPtr:
		if p, ok := y.(*value); ok && p == nil {
			return c.False
		}
		unsupported("comparison of symbolic pointers")
	case Iface:
		yi, ok := y.(Iface)
		if !ok {
			unsupported("interface comparison with %T", y)
		}
		if x.t == nil || yi.t == nil {
			return c.Bool(x.t == nil && yi.t == nil)
		}
		if !types.Identical(x.t, yi.t) {
			return c.False
		}
		if !types.Comparable(x.t) {
			in.rtPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return in.equal(x.v, yi.v)
	case Structure:
		ys := y.(Structure)
		r := c.True
		for i := range x {
			r = c.And(r, in.equal(x[i], ys[i]))
		}
		return r
	case Array:
		ys := y.(Array)
		r := c.True
		for i := range x {
			r = c.And(r, in.equal(x[i], ys[i]))
		}
		return r
	case Slice: // comparison with nil only
		if ys, ok := y.(Slice); ok {
			return c.Bool(isNilSlice(x) && isNilSlice(ys))
		}
	case *Map:
		return c.Bool(x == y.(*Map))
	case *Chan:
		return c.Bool(x == y.(*Chan))
	case *Closure:
		return c.Bool(x == y.(*Closure))
	case modelObj:
		if p, ok := y.(*value); ok {
			return c.Bool(p == nil && x == nil)
		}
		return c.Bool(any(x) == any(y))
	case nil:
		return c.Bool(y == nil)
	}
	unsupported("comparison of %T", x)
	return nil
}

func isNilSlice(s Slice) bool { return !s.ok && s.lazy == nil }

// ---- maps

func constKey(v value) (string, bool) {
	switch v := v.(type) {
	case *Expr:
		if v.op == OpConst {
			return fmt.Sprintf("i%d:%d", v.w, v.val), true
		}
	case Str:
		if s, ok := v.concrete(); ok {
			return "s" + s, true
		}
	case *value, *Chan:
		return fmt.Sprintf("p%p", v), true
	case Array:
		r := "a"
		for _, e := range v {
			k, ok := constKey(e)
			if !ok {
				return "", false
			}
			r += k + ";"
		}
		return r, true
	case Structure:
		r := "t"
		for _, e := range v {
			k, ok := constKey(e)
			if !ok {
				return "", false
			}
			r += k + ";"
		}
		return r, true
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := constKey(v.v)
		return "I" + v.t.String() + k, ok
	}
	return "", false
}

// mapFind locates the entry with key k, forking on symbolic key equality.
func (in *Interp) mapFind(m *Map, k value) *mapEntry {
	if m == nil {
		return nil
	}
	if len(m.ents) > 24 {
		if ck, ok := constKey(k); ok && m.allConst() {
			if i, ok := m.idx[ck]; ok {
				return m.ents[i]
			}
			return nil
		}
	}
	// an entry that is certainly equal wins without forking only if all others
	// are certainly different or checked first: keys are pairwise distinct, so
	// a certain match is the match.
	var maybe []*mapEntry
	var conds []*Expr
	for _, e := range m.ents {
		eq := in.simp(in.equal(e.k, k))
		if eq.IsTrue() {
			return e
		}
		if !eq.IsFalse() {
			maybe = append(maybe, e)
			conds = append(conds, eq)
		}
	}
	for i, e := range maybe {
		if in.branch(conds[i]) {
			return e
		}
	}
	return nil
}

func (m *Map) allConst() bool {
	if m.idx != nil && len(m.idx) == len(m.ents) {
		return true
	}
	m.idx = map[string]int{}
	for i, e := range m.ents {
		ck, ok := constKey(e.k)
		if !ok {
			m.idx = nil
			return false
		}
		m.idx[ck] = i
	}
	return true
}

// mapLookup returns (value, ok) without forking when the element is scalar or
// empty.
func (in *Interp) mapLookup(m *Map, k value, elemT types.Type) (value, *Expr) {
	c := in.c
	if m == nil || len(m.ents) == 0 {
		return in.zero(elemT), c.False
	}
	w, _, scalar := scalarType(elemT)
	_ = w
	st, isStruct := elemT.Underlying().(*types.Struct)
	if !scalar && !(isStruct && st.NumFields() == 0) || len(m.ents) > 24 {
		e := in.mapFind(m, k)
		if e == nil {
			return in.zero(elemT), c.False
		}
		return copyVal(e.v), c.True
	}
	found := c.False
	var val *Expr
	if scalar {
		val = in.zero(elemT).(*Expr)
	}
	for _, e := range m.ents {
		eq := in.simp(in.equal(e.k, k))
		if eq.IsFalse() {
			continue
		}
		found = c.Or(found, eq)
		if scalar {
			val = c.Ite(eq, e.v.(*Expr), val)
		}
	}
	if scalar {
		return val, found
	}
	return in.zero(elemT), found
}

func (in *Interp) mapSet(m *Map, k, v value) {
	if m == nil {
		in.rtPanic("assignment to entry in nil map")
	}
	if e := in.mapFind(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	m.ents = append(m.ents, &mapEntry{copyVal(k), copyVal(v)})
	if m.idx != nil {
		if ck, ok := constKey(k); ok {
			m.idx[ck] = len(m.ents) - 1
		} else {
			m.idx = nil
		}
	}
}

func (in *Interp) mapDelete(m *Map, k value) {
	e := in.mapFind(m, k)
	if e == nil {
		return
	}
	var n []*mapEntry
	for _, x := range m.ents {
		if x != e {
			n = append(n, x)
		}
	}
	m.ents = n
	m.idx = nil
}
