package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, fr *frame, fn *ssa.Function, args []value) value

var modelType types.Type = types.NewNamed(types.NewTypeName(0, nil, "model", nil), types.NewStruct(nil, nil), nil)

// noInit lists packages whose initialisers are not executed: their relevant
// functions are modelled.
var noInit = map[string]bool{
	"github.com/cloudflare/circl/hpke": true,
	"crypto/internal/fips140":          true,
	"runtime":                          true,
	"os":                               true,
	"fmt":                              true,
	"reflect":                          true,
	"sync":                             true,
	"syscall":                          true,
	"crypto/rand":                      true,
	"math/big":                         true,
	"crypto/elliptic":                  true,
	"crypto/ecdsa":                     true,
	"crypto/ed25519":                   true,
	"crypto/sha256":                    true,
	"crypto/sha512":                    true,
	"crypto/internal/boring":           true,
	"time":                             true,
}

var modelGlobals = map[string]func(in *Interp) value{
	"crypto/rand.Reader": func(in *Interp) value { return Iface{modelType, randReader{}} },
	// labels of the HPKE key schedule: constants of the package, without its init
	"github.com/cloudflare/circl/hpke.versionLabel": func(in *Interp) value { return in.str("HPKE-v1") },
}

var intrinsics map[string]intrinsic

func lookupIntrinsic(fn *ssa.Function, name string) intrinsic {
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if o := fn.Origin(); o != nil {
		if i, ok := intrinsics[o.String()]; ok {
			return i
		}
	}
	if strings.HasPrefix(name, "(*math/big.Int).") {
		return func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			unsupported("no model of %s", name)
			return nil
		}
	}
	if fn.Pkg != nil && strings.HasPrefix(fn.Name(), "vf") && fn.Signature.Recv() == nil {
		if i, ok := vfAPI[fn.Name()]; ok {
			return i
		}
	}
	return nil
}

func (in *Interp) errType(pkg, name string) types.Type {
	p := in.p.prog.ImportedPackage(pkg)
	if p == nil || p.Type(name) == nil {
		unsupported("package %s not loaded", pkg)
	}
	return types.NewPointer(p.Type(name).Type())
}

func (in *Interp) newErr(msg string) Iface {
	var v value = Structure{in.str(msg)}
	return Iface{in.errType("errors", "errorString"), &v}
}

// err returns a fresh error; identical texts are still distinct errors.
func (in *Interp) errorf(format string, args []value) Iface {
	if strings.Contains(format, "%w") {
		for _, a := range args {
			if i, ok := a.(Iface); ok && i.t != nil {
				if i.t != modelType && types.Implements(i.t, in.errorIface()) {
					var v value = Structure{in.str(format), i}
					return Iface{in.errType("fmt", "wrapError"), &v}
				}
			}
		}
	}
	return in.newErr(format)
}

func (in *Interp) errorIface() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

func strArg(v value) string {
	s, ok := v.(Str).concrete()
	if !ok {
		unsupported("symbolic string argument")
	}
	return s
}

func (in *Interp) allocated(n *Expr, elem types.Type) {
	if in.allocLimit == 0 {
		return
	}
	sz := in.p.sizes.Sizeof(elem)
	if sz <= 0 {
		return
	}
	max := in.allocLimit / uint64(sz)
	in.assert(in.c.Ule(n, in.c.Const(64, max)), "allocation out of proportion to the input")
}

func (in *Interp) goVal(i Iface) any {
	if i.t == nil {
		return nil
	}
	switch v := i.v.(type) {
	case *Expr:
		if v.op != OpConst {
			return "?"
		}
		w, signed, _ := scalarType(i.t)
		if w == 0 {
			return v.val == 1
		}
		if signed {
			return sx(w, v.val)
		}
		return v.val
	case Str:
		if s, ok := v.concrete(); ok {
			return s
		}
		return "?"
	}
	return "?"
}

func variadic(in *Interp, v value) []value {
	s, ok := v.(Slice)
	if !ok {
		return nil
	}
	return in.mat(s).v
}

type nop = struct{}

func init() {
	retNil := func(in *Interp, fr *frame, fn *ssa.Function, args []value) value { return nil }
	intrinsics = map[string]intrinsic{
		"fmt.Errorf": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.errorf(strArg(args[0]), variadic(in, args[1]))
		},

		"bytes.Equal": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.eqSlices(args[0], args[1])
		},
		"bytes.Compare": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.compareBytes(in.bytesOf(args[0]), in.bytesOf(args[1]))
		},
		"internal/bytealg.Compare": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.compareBytes(in.bytesOf(args[0]), in.bytesOf(args[1]))
		},
		"internal/bytealg.Equal": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.eqSlices(args[0], args[1])
		},
		"internal/bytealg.IndexByte": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.indexByte(in.bytesOf(args[0]), args[1].(*Expr))
		},
		"internal/bytealg.IndexByteString": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.indexByte(args[0].(Str), args[1].(*Expr))
		},
		"strings.Compare": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.compareBytes(args[0].(Str), args[1].(Str))
		},
		"crypto/subtle.ConstantTimeCompare": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.c.Ite(in.eqSlices(args[0], args[1]), in.c.Const(64, 1), in.c.Const(64, 0))
		},
		"crypto/hmac.Equal": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.eqSlices(args[0], args[1])
		},

		"(*strings.Builder).copyCheck": retNil,
		"(*strings.Builder).String": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			st := (*in.deref(args[0])).(Structure)
			return Str(in.bytesOf(st[1]))
		},

		"time.Now": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.mkTime(nowSec)
		},
		"time.Since": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.timeSub(in.mkTime(nowSec), args[0].(Structure))
		},
		"(time.Time).Sub": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.timeSub(args[0].(Structure), args[1].(Structure))
		},
		"(time.Time).String":   func(in *Interp, fr *frame, fn *ssa.Function, args []value) value { return in.str("time") },
		"(*time.Location).get": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value { return args[0] },
		"(time.Time).UTC":      func(in *Interp, fr *frame, fn *ssa.Function, args []value) value { return args[0] },
		"(time.Time).Local":    func(in *Interp, fr *frame, fn *ssa.Function, args []value) value { return args[0] },

		"sort.Slice": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			in.sortSlice(fr, args[0].(Iface), args[1])
			return nil
		},
		"sort.SliceStable": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			in.sortSlice(fr, args[0].(Iface), args[1])
			return nil
		},
	}
	for k, v := range stdlibIntrinsics() {
		intrinsics[k] = v
	}
	for k, v := range cryptoIntrinsics() {
		intrinsics[k] = v
	}
}

const nowSec = 1790000000 // the clock of the model (September 2026)

const unixToInternal = 62135596800

// mkTime returns a time half way through the given second: a real clock
// practically never reads a whole second.
func (in *Interp) mkTime(unix int64) Structure {
	return Structure{in.c.Const(64, 500000000), in.c.Const(64, uint64(unix+unixToInternal)), (*value)(nil)}
}

// timeSub is the saturating difference of two times as the time package
// computes it, including times whose seconds wrap around (second granularity
// at the saturation boundary).
func (in *Interp) timeSub(t, u Structure) value {
	c := in.c
	sec := func(s Structure) (*Expr, *Expr) {
		wall := in.simp(s[0].(*Expr))
		if !in.branch(c.Eq(c.Extract(wall, 63, 1), c.Const(1, 0))) {
			unsupported("monotonic time")
		}
		return s[1].(*Expr), c.Zext(c.Extract(wall, 0, 30), 64)
	}
	ts, tn := sec(t)
	us, un := sec(u)
	ge := c.Sle(us, ts)
	d := c.Sub(ts, us)
	lim := c.Const(64, 9223372035)
	if !in.branch(c.And(c.Sle(d, lim), c.Sle(c.Sub(c.Const(64, 0), lim), d))) {
		return c.Ite(ge, c.Const(64, 1<<63-1), c.Const(64, 1<<63))
	}
	if in.branch(c.Ule(un, tn)) {
		return c.Dur(d, c.Sub(tn, un))
	}
	return c.Dur(c.Sub(d, c.Const(64, 1)), c.Add(c.Sub(tn, un), c.Const(64, second)))
}

func (in *Interp) errorsIs(err, target Iface) *Expr {
	c := in.c
	if err.t == nil || target.t == nil {
		return c.Bool(err.t == nil && target.t == nil)
	}
	r := c.False
	if types.Identical(err.t, target.t) && types.Comparable(err.t) {
		r = in.equal(err.v, target.v)
	}
	if r.IsTrue() {
		return r
	}
	if _, model := err.v.(modelObj); !model {
		if m := in.method(err.t, "Is"); m != nil && m.Signature.Params().Len() == 1 {
			r = c.Or(r, in.callSSA(nil, m, []value{err.v, target}, nil).(*Expr))
		}
	}
	for _, e := range in.unwrap(err) {
		r = c.Or(r, in.errorsIs(e, target))
	}
	return r
}

func (in *Interp) eqSlices(x, y value) *Expr {
	xs, ys := x.(Slice), y.(Slice)
	c := in.c
	eq := in.simp(c.Eq(in.sliceLen(xs), in.sliceLen(ys)))
	if !in.branch(eq) {
		return c.False
	}
	return in.simp(c.EqBytes(in.bytesOf(xs), in.bytesOf(ys)))
}

func (in *Interp) compareBytes(a, b []*Expr) *Expr {
	c := in.c
	eq := c.EqBytes(a, b)
	return c.Ite(eq, c.Const(64, 0), c.Ite(in.strLess(a, b), c.Const(64, ^uint64(0)), c.Const(64, 1)))
}

func (in *Interp) indexByte(s []*Expr, b *Expr) *Expr {
	c := in.c
	r := c.Const(64, ^uint64(0))
	for i := len(s) - 1; i >= 0; i-- {
		r = c.Ite(c.Eq(s[i], b), c.Const(64, uint64(i)), r)
	}
	return r
}

func (in *Interp) sortSlice(fr *frame, x Iface, less value) {
	s := in.mat(x.v.(Slice)).v
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			lt := in.call(fr, less, []value{in.c.Const(64, uint64(j)), in.c.Const(64, uint64(j-1))}).(*Expr)
			if !in.branch(lt) {
				break
			}
			a, b := copyVal(s[j]), copyVal(s[j-1])
			storeInto(&s[j], b)
			storeInto(&s[j-1], a)
		}
	}
}

// ---- the harness API

func (in *Interp) input(name string, w int) *Expr {
	n := in.ninput[name]
	in.ninput[name]++
	e := in.c.Var(w, fmt.Sprintf("%s#%d", name, n))
	in.inputs = append(in.inputs, inputVar{name, e})
	return e
}

var vfAPI map[string]intrinsic

func init() {
	scalar := func(w int) intrinsic {
		return func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.input(strArg(args[0]), w)
		}
	}
	vfAPI = map[string]intrinsic{
		"vfU8":  scalar(8),
		"vfU16": scalar(16),
		"vfU32": scalar(32),
		"vfU64": scalar(64),
		"vfBool": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			e := in.input(strArg(args[0]), 8)
			in.assume(in.c.Ule(e, in.c.Const(8, 1)))
			return in.c.Eq(e, in.c.Const(8, 1))
		},
		"vfBytes": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			name := strArg(args[0])
			n := in.concretize(args[1].(*Expr), "input length")
			v := make([]value, n)
			for i := range v {
				v[i] = in.input(name, 8)
			}
			return Slice{v: v, ok: true}
		},
		// vfInt: lo <= x < hi
		"vfInt": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			lo, hi := args[1].(*Expr), args[2].(*Expr)
			e := in.input(strArg(args[0]), 64)
			in.assume(in.c.And(in.c.Sle(lo, e), in.c.Slt(e, hi)))
			return e
		},
		// vfChoice: a value in [0,n), one path per value
		"vfChoice": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			e := in.input(strArg(args[0]), 64)
			n := in.concretize(args[1].(*Expr), "choice")
			in.assume(in.c.Ult(e, in.c.Const(64, n)))
			return in.c.Const(64, in.concretize(e, "choice"))
		},
		"vfConcrete": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.c.Const(64, in.concretize(args[0].(*Expr), "vfConcrete"))
		},
		"vfAssume": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			in.assume(args[0].(*Expr))
			return nil
		},
		"vfAssert": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			in.assert(args[0].(*Expr), strArg(args[1]))
			return nil
		},
		"vfReach": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			in.reached[strArg(args[0])] = true
			return nil
		},
		"vfObserve": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			in.observes = append(in.observes, observation{strArg(args[0]), args[1].(*Expr)})
			return nil
		},
		"vfBound": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			if in.ex.tier == "thorough" {
				return args[2]
			}
			return args[1]
		},
		"vfSymbolic": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.c.True
		},
		"vfAllocLimit": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			in.allocLimit = in.concretize(args[0].(*Expr), "limit")
			return nil
		},
		"vfAllocCheck": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			in.allocLimit = 0
			return nil
		},
		"vfSteps": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			in.maxStepsH = int64(in.concretize(args[0].(*Expr), "steps"))
			return nil
		},
		"vfMapOrder": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			in.mapOrder = int(in.concretize(args[0].(*Expr), "map order"))
			return nil
		},

		"vfRareKeys": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			in.rareKeys = int(in.concretize(args[0].(*Expr), "rare keys"))
			return nil
		},
		"vfEqual": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.eqSlices(args[0], args[1])
		},
		"vfUnequal": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			a, b := in.bytesOf(args[0]), in.bytesOf(args[1])
			if len(a) == len(b) {
				for i := range a {
					x, _ := appByte(a[i])
					y, _ := appByte(b[i])
					if x != nil && y != nil && in.c.EqApp(x.app, y.app).IsFalse() {
						return in.c.True
					}
				}
			}
			return in.c.Not(in.eqSlices(args[0], args[1]))
		},
		"vfDump": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			var b []*Expr
			i := args[0].(Iface)
			if i.t == nil {
				b = append(b, in.c.small[0])
			} else {
				in.dump(&b, i.t, i.v)
			}
			return in.mkBytes(b)
		},
		"vfLog": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			if in.ex.verbose {
				fmt.Printf("  vfLog %s: %s\n", strArg(args[0]), in.debug(args[1]))
			}
			return nil
		},
		// vfBoth evaluates && without forking
		"vfAnd": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.c.And(args[0].(*Expr), args[1].(*Expr))
		},
		"vfOr": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.c.Or(args[0].(*Expr), args[1].(*Expr))
		},
		"vfImplies": func(in *Interp, fr *frame, fn *ssa.Function, args []value) value {
			return in.c.Or(in.c.Not(args[0].(*Expr)), args[1].(*Expr))
		},
	}
}

func (in *Interp) debug(v value) string {
	switch v := v.(type) {
	case Slice:
		s := "["
		for i, x := range in.mat(v).v {
			if i > 0 {
				s += " "
			}
			if i > 60 {
				s += "..."
				break
			}
			s += in.debug(x)
		}
		return s + "]"
	case Iface:
		return in.debug(v.v)
	case *Expr:
		return exprString(v, 3)
	case Str:
		s, ok := v.concrete()
		if ok {
			return s
		}
		return "<sym str>"
	case Structure:
		s := "{"
		for _, x := range v {
			s += in.debug(x) + " "
		}
		return s + "}"
	case *value:
		if v == nil {
			return "nil"
		}
		return "&" + in.debug(*v)
	}
	return fmt.Sprintf("%T", v)
}

// dump mirrors vfDump of the harness API.
func (in *Interp) dump(b *[]*Expr, t types.Type, v value) {
	c := in.c
	put := func(e *Expr) {
		for lo := e.w - 8; lo >= 0; lo -= 8 {
			*b = append(*b, c.Extract(e, lo, 8))
		}
	}
	seq := func(n int) { put(c.Const(32, uint64(n))) }
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, signed, ok := basicWidth(u); ok {
			e := v.(*Expr)
			switch {
			case w == 0:
				*b = append(*b, c.Ite(e, c.small[1], c.small[0]))
			case u.Kind() == types.Uint8:
				*b = append(*b, e)
			case signed:
				put(c.Sext(e, 64))
			default:
				put(c.Zext(e, 64))
			}
			return
		}
		if s, ok := v.(Str); ok {
			seq(len(s))
			*b = append(*b, s...)
			return
		}
	case *types.Slice:
		s := in.mat(v.(Slice))
		seq(len(s.v))
		for _, x := range s.v {
			in.dump(b, u.Elem(), x)
		}
		return
	case *types.Array:
		for _, x := range v.(Array) {
			in.dump(b, u.Elem(), x)
		}
		return
	case *types.Struct:
		for i, x := range v.(Structure) {
			in.dump(b, u.Field(i).Type(), x)
		}
		return
	case *types.Pointer:
		switch p := v.(type) {
		case *value:
			if p == nil {
				*b = append(*b, c.small[0])
				return
			}
			*b = append(*b, c.small[1])
			in.dump(b, u.Elem(), *p)
			return
		}
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			*b = append(*b, c.small[0])
			return
		}
		*b = append(*b, c.small[1])
		in.dump(b, i.t, i.v)
		return
	case *types.Signature, *types.Map:
		*b = append(*b, c.small[0])
		return
	}
	unsupported("dump of %v", t)
}
