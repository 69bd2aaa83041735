package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- compiled functions (shared by all workers)

const (
	kReg = iota
	kConst
	kGlobal
	kFunc
	kBuiltin
)

type opnd struct {
	kind int
	idx  int // register or constant number
	v    ssa.Value
}

type cinstr struct {
	ins ssa.Instruction
	dst int
	ops []opnd
	// phi edges: ops indexed by predecessor
}

type fnInfo struct {
	fn       *ssa.Function
	nregs    int
	blocks   [][]cinstr
	nphi     []int
	predIdx  []map[int]int
	hasDefer bool
	intr     intrinsic
	name     string
	user     bool // function of the package under test
}

type Program struct {
	prog    *ssa.Program
	main    *ssa.Package
	mu      sync.Mutex
	infos   map[*ssa.Function]*fnInfo
	nconst  int
	built   map[*ssa.Package]bool
	sizes   types.Sizes
	mainDir string
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if fi, ok := p.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, name: fn.String()}
	p.infos[fn] = fi
	fi.intr = lookupIntrinsic(fn, fi.name)
	if fn.Pkg != nil && fn.Pkg == p.main {
		fi.user = true
	}
	if fi.intr != nil {
		return fi
	}
	if fn.Blocks == nil {
		pkg := fn.Pkg
		if pkg == nil && fn.Origin() != nil {
			pkg = fn.Origin().Pkg
		}
		if pkg != nil && !p.built[pkg] {
			p.built[pkg] = true
			pkg.Build()
		}
	}
	if fn.Blocks == nil {
		return fi
	}
	regs := map[ssa.Value]int{}
	reg := func(v ssa.Value) int {
		i, ok := regs[v]
		if !ok {
			i = len(regs)
			regs[v] = i
		}
		return i
	}
	for _, pa := range fn.Params {
		reg(pa)
	}
	for _, fv := range fn.FreeVars {
		reg(fv)
	}
	mkop := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case *ssa.Const:
			p.nconst++
			return opnd{kConst, p.nconst - 1, v}
		case *ssa.Global:
			return opnd{kGlobal, 0, v}
		case *ssa.Function:
			return opnd{kFunc, 0, v}
		case *ssa.Builtin:
			return opnd{kBuiltin, 0, v}
		}
		return opnd{kReg, reg(v), v}
	}
	fi.blocks = make([][]cinstr, len(fn.Blocks))
	fi.nphi = make([]int, len(fn.Blocks))
	fi.predIdx = make([]map[int]int, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		fi.predIdx[bi] = map[int]int{}
		for i, pr := range b.Preds {
			fi.predIdx[bi][pr.Index] = i
		}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = reg(v)
			}
			for _, op := range ins.Operands(nil) {
				if *op == nil {
					ci.ops = append(ci.ops, opnd{kind: -1})
				} else {
					ci.ops = append(ci.ops, mkop(*op))
				}
			}
			switch ins.(type) {
			case *ssa.Phi:
				fi.nphi[bi]++
			case *ssa.Defer:
				fi.hasDefer = true
			}
			fi.blocks[bi] = append(fi.blocks[bi], ci)
		}
	}
	fi.nregs = len(regs)
	return fi
}

// ---- interpreter (one per worker; state reset per path)

type deferred struct {
	fn   value
	args []value
	site *ssa.Defer
	next *deferred
}

type frame struct {
	fi        *fnInfo
	env       []value
	block     int
	prev      int
	defers    *deferred
	result    value
	panicking bool
	panicVal  any
	caller    *frame
}

type Interp struct {
	sides    map[*value]*Map // contents of sync.Map values
	p        *Program
	c        *Ctx
	s        *Solver
	ex       *Explorer
	consts   []value
	fcache   map[*ssa.Function]*fnInfo
	pureMemo map[*ssa.Function]bool
	merging  *mergeState

	// per path
	globals    map[*ssa.Global]*value
	inited     map[*ssa.Package]bool
	steps      int64
	depth      int
	prefix     []Decision
	pos        int
	pc         []*Expr
	pcVars     []*Expr
	pcSeen     map[*Expr]bool
	model      Model
	known      map[*Expr]*Expr
	smemo      map[*Expr]*Expr
	inputs     []inputVar
	observes   []observation
	nrand      int
	mapOrder   int // 0 insertion, 1 reverse, 2 rotated
	rareKeys   int // leading zero in new keys: 1 scalar, 2 and 3 coordinates
	crypto     *cryptoState
	fnSeen     map[*ssa.Function]bool
	pending    []workItem
	reached    map[string]bool
	asserts    int
	cur        *harness
	ninput     map[string]int
	allocLimit uint64
	viol       bool
	maxStepsH  int64
	discharged int
	undecided  int
	nsat       int64
	nunsat     int64
	nmodel     int
}

type inputVar struct {
	name string
	e    *Expr
}

type observation struct {
	name string
	e    *Expr
}

func (in *Interp) fi(fn *ssa.Function) *fnInfo {
	if fi, ok := in.fcache[fn]; ok {
		return fi
	}
	fi := in.p.info(fn)
	in.fcache[fn] = fi
	return fi
}

func (in *Interp) get(fr *frame, o opnd) value {
	switch o.kind {
	case kReg:
		return fr.env[o.idx]
	case kConst:
		for o.idx >= len(in.consts) {
			in.consts = append(in.consts, make([]value, 1024)...)
		}
		v := in.consts[o.idx]
		if v == nil {
			v = in.constVal(o.v.(*ssa.Const))
			in.consts[o.idx] = v
		}
		switch v.(type) {
		case Structure, Array:
			return copyVal(v)
		}
		return v
	case kGlobal:
		return in.global(o.v.(*ssa.Global))
	case kFunc:
		return &Closure{fn: o.v.(*ssa.Function)}
	}
	panic("bad operand")
}

func (in *Interp) global(g *ssa.Global) *value {
	if p, ok := in.globals[g]; ok {
		return p
	}
	if mg, ok := modelGlobals[g.String()]; ok {
		v := mg(in)
		p := &v
		in.globals[g] = p
		return p
	}
	in.initPkg(g.Pkg)
	if p, ok := in.globals[g]; ok {
		return p
	}
	if et := g.Type().Underlying().(*types.Pointer).Elem(); noInit[g.Pkg.Pkg.Path()] && types.Identical(et, types.Universe.Lookup("error").Type()) {
		var v value = in.newErr(g.String())
		in.globals[g] = &v
		return &v
	}
	v := in.zero(g.Type().Underlying().(*types.Pointer).Elem())
	p := &v
	in.globals[g] = p
	return p
}

func (in *Interp) initPkg(pkg *ssa.Package) {
	if in.inited[pkg] {
		return
	}
	in.inited[pkg] = true
	init := pkg.Func("init")
	if init == nil || noInit[pkg.Pkg.Path()] {
		return
	}
	in.callSSA(nil, init, nil, nil)
}

func (in *Interp) rtPanic(msg string) {
	panic(goPanic{Iface{types.Typ[types.String], in.str(msg)}, msg})
}

// call invokes a function value.
func (in *Interp) call(fr *frame, fn value, args []value) value {
	switch fn := fn.(type) {
	case *Closure:
		if fn == nil {
			in.rtPanic("runtime error: invalid memory address or nil pointer dereference (nil func)")
		}
		if fn.nat != nil {
			return fn.nat(in, args)
		}
		return in.callSSA(fr, fn.fn, args, fn.env)
	case *ssa.Builtin:
		return in.builtin(fr, fn, args, nil)
	}
	unsupported("call of %T", fn)
	return nil
}

func (in *Interp) callSSA(caller *frame, fn *ssa.Function, args []value, env []value) value {
	fi := in.fi(fn)
	if fi.intr != nil {
		return fi.intr(in, caller, fn, args)
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" {
		if caller != nil {
			return nil // imported packages are initialised on demand
		}
	}
	if len(args) > 0 && fn.Signature.Recv() != nil {
		if mo, ok := args[0].(modelObj); ok {
			return mo.call(in, fn.Name(), args[1:])
		}
	}
	if fi.blocks == nil {
		unsupported("no source for %s", fi.name)
	}
	if in.merging == nil && in.mergeable(fi) {
		if v, ok := in.mergeCall(caller, fi, args); ok {
			return v
		}
	}
	return in.execSSA(caller, fi, args, env)
}

func (in *Interp) execSSA(caller *frame, fi *fnInfo, args []value, env []value) value {
	fn := fi.fn
	if in.depth > 4000 {
		panic(pathEnd{"steps", "recursion depth"})
	}
	in.fnSeen[fn] = true
	in.depth++
	fr := &frame{fi: fi, env: make([]value, fi.nregs), caller: caller}
	n := copy(fr.env, args)
	copy(fr.env[n:], env)
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("arg count mismatch calling %s: %d vs %d", fi.name, len(args), len(fn.Params)))
	}
	if fi.hasDefer {
		for fr.block >= 0 {
			in.runProtected(fr)
		}
	} else {
		in.run(fr)
	}
	in.depth--
	return fr.result
}

func (in *Interp) runProtected(fr *frame) {
	depth := in.depth
	defer func() {
		if fr.block < 0 {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(goPanic); !ok {
			panic(r)
		}
		in.depth = depth
		fr.panicking = true
		fr.panicVal = r
		in.runDefers(fr)
		if fr.fi.fn.Recover != nil {
			fr.block = fr.fi.fn.Recover.Index
		} else {
			fr.block = -1
			fr.result = in.zero(fr.fi.fn.Signature.Results())
			if fr.fi.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
		}
	}()
	in.run(fr)
}

func (in *Interp) runDefers(fr *frame) {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.next
		in.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (in *Interp) runDefer(fr *frame, d *deferred) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(goPanic); !ok {
			panic(r)
		}
		fr.panicking = true
		fr.panicVal = r
	}()
	if b, ok := d.fn.(*ssa.Builtin); ok {
		in.builtin(fr, b, d.args, d.site)
		return
	}
	in.call(fr, d.fn, d.args)
}

func (in *Interp) run(fr *frame) {
	for {
		bi := fr.block
		instrs := fr.fi.blocks[bi]
		i := 0
		if np := fr.fi.nphi[bi]; np > 0 {
			e := fr.fi.predIdx[bi][fr.prev]
			if np == 1 {
				fr.env[instrs[0].dst] = in.get(fr, instrs[0].ops[e])
			} else {
				tmp := make([]value, np)
				for j := 0; j < np; j++ {
					tmp[j] = in.get(fr, instrs[j].ops[e])
				}
				for j := 0; j < np; j++ {
					fr.env[instrs[j].dst] = tmp[j]
				}
			}
			i = np
		}
		in.steps += int64(len(instrs))
		if in.steps > in.maxStepsH {
			panic(pathEnd{"steps", "instruction budget"})
		}
		next := -1
		for ; i < len(instrs); i++ {
			ci := &instrs[i]
			switch ins := ci.ins.(type) {
			case *ssa.Jump:
				next = ins.Block().Succs[0].Index
			case *ssa.If:
				cond := in.get(fr, ci.ops[0]).(*Expr)
				if in.branch(cond) {
					next = ins.Block().Succs[0].Index
				} else {
					next = ins.Block().Succs[1].Index
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = in.get(fr, ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for j := range t {
						t[j] = in.get(fr, ci.ops[j])
					}
					fr.result = t
				}
				fr.block = -1
				return
			default:
				in.exec(fr, ci)
			}
		}
		if next < 0 {
			panic("fell off block in " + fr.fi.name)
		}
		fr.prev, fr.block = bi, next
	}
}

func (in *Interp) deref(p value) *value {
	switch p := p.(type) {
	case *value:
		if p == nil {
			in.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return p
	case SymPtr:
		i := in.concretize(p.idx, "pointer index")
		return &p.cells[i]
	}
	unsupported("dereference of %T", p)
	return nil
}

func (in *Interp) load(p value) value {
	if sp, ok := p.(SymPtr); ok {
		if r, ok := in.symLoad(sp.cells, sp.idx); ok {
			return r
		}
	}
	if mo, ok := p.(modelObj); ok {
		return mo // dereferencing a model pointer yields the model itself
	}
	return copyVal(*in.deref(p))
}

// symLoad builds an if-then-else chain over scalar cells.
func (in *Interp) symLoad(cells []value, idx *Expr) (value, bool) {
	if len(cells) > 600 {
		return nil, false
	}
	for _, x := range cells {
		if _, ok := x.(*Expr); !ok {
			return nil, false
		}
	}
	if len(cells) == 0 {
		return nil, false
	}
	r := cells[len(cells)-1].(*Expr)
	for i := len(cells) - 2; i >= 0; i-- {
		if uint64(i) > maxVal(idx) {
			continue
		}
		r = in.c.Ite(in.c.Eq(idx, in.c.Const(64, uint64(i))), cells[i].(*Expr), r)
	}
	return r, true
}

func (in *Interp) store(p, v value) {
	if sp, ok := p.(SymPtr); ok {
		if e, ok := v.(*Expr); ok {
			for i := range sp.cells {
				sp.cells[i] = in.c.Ite(in.c.Eq(sp.idx, in.c.Const(64, uint64(i))), e, sp.cells[i].(*Expr))
			}
			return
		}
	}
	if mo, ok := p.(modelObj); ok {
		if mo2, ok := v.(modelObj); ok && mo == mo2 {
			return
		}
		unsupported("store to model object")
	}
	storeInto(in.deref(p), v)
}

// index checks bounds and returns either a constant index or a symbolic one
// (when allowed).
func (in *Interp) index(iv *Expr, it types.Type, n *Expr, what string) *Expr {
	_, signed, _ := scalarType(it)
	c := in.c
	var i *Expr
	if signed {
		i = c.Sext(iv, 64)
	} else {
		i = c.Zext(iv, 64)
	}
	i = in.simp(i)
	if !in.branch(c.Ult(i, n)) {
		in.rtPanic("runtime error: index out of range")
	}
	return in.simp(i)
}

func (in *Interp) exec(fr *frame, ci *cinstr) {
	c := in.c
	switch ins := ci.ins.(type) {
	case *ssa.Alloc:
		v := in.zero(ins.Type().Underlying().(*types.Pointer).Elem())
		p := new(value)
		*p = v
		fr.env[ci.dst] = p
	case *ssa.BinOp:
		fr.env[ci.dst] = in.binop(ins.Op, ins.X.Type(), ins.Y.Type(), in.get(fr, ci.ops[0]), in.get(fr, ci.ops[1]))
	case *ssa.UnOp:
		fr.env[ci.dst] = in.unop(ins, in.get(fr, ci.ops[0]))
	case *ssa.Call:
		fr.env[ci.dst] = in.doCall(fr, &ins.Call, ci.ops, nil)
	case *ssa.ChangeInterface:
		fr.env[ci.dst] = in.get(fr, ci.ops[0])
	case *ssa.ChangeType:
		fr.env[ci.dst] = in.get(fr, ci.ops[0])
	case *ssa.Convert:
		fr.env[ci.dst] = in.convert(ins.X.Type(), ins.Type(), in.get(fr, ci.ops[0]))
	case *ssa.MultiConvert:
		fr.env[ci.dst] = in.convert(ins.X.Type(), ins.Type(), in.get(fr, ci.ops[0]))
	case *ssa.MakeInterface:
		fr.env[ci.dst] = Iface{ins.X.Type(), copyVal(in.get(fr, ci.ops[0]))}
	case *ssa.Extract:
		fr.env[ci.dst] = in.get(fr, ci.ops[0]).(Tuple)[ins.Index]
	case *ssa.Slice:
		fr.env[ci.dst] = in.slice(fr, ins, ci)
	case *ssa.SliceToArrayPointer:
		s := in.mat(in.get(fr, ci.ops[0]).(Slice))
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s.v) < n {
			in.rtPanic("runtime error: cannot convert slice to array pointer: length too short")
		}
		if !s.ok {
			fr.env[ci.dst] = (*value)(nil)
			return
		}
		p := new(value)
		*p = Array(s.v[:n:n])
		fr.env[ci.dst] = p
	case *ssa.Store:
		in.store(in.get(fr, ci.ops[0]), in.get(fr, ci.ops[1]))
	case *ssa.MakeClosure:
		env := make([]value, len(ins.Bindings))
		for i := range env {
			env[i] = in.get(fr, ci.ops[1+i])
		}
		fr.env[ci.dst] = &Closure{fn: ins.Fn.(*ssa.Function), env: env}
	case *ssa.MakeMap:
		mt := ins.Type().Underlying().(*types.Map)
		fr.env[ci.dst] = &Map{keyT: mt.Key(), elemT: mt.Elem()}
	case *ssa.MakeSlice:
		fr.env[ci.dst] = in.makeSlice(ins, in.get(fr, ci.ops[0]).(*Expr), in.get(fr, ci.ops[1]).(*Expr))
	case *ssa.MapUpdate:
		in.mapSet(in.get(fr, ci.ops[0]).(*Map), in.get(fr, ci.ops[1]), in.get(fr, ci.ops[2]))
	case *ssa.Lookup:
		x := in.get(fr, ci.ops[0])
		if s, ok := x.(Str); ok {
			i := in.index(in.get(fr, ci.ops[1]).(*Expr), ins.Index.Type(), c.Const(64, uint64(len(s))), "string")
			if i.op == OpConst {
				fr.env[ci.dst] = s[i.val]
			} else {
				cells := make([]value, len(s))
				for j := range s {
					cells[j] = s[j]
				}
				r, _ := in.symLoad(cells, i)
				fr.env[ci.dst] = r
			}
			return
		}
		mt := ins.X.Type().Underlying().(*types.Map)
		v, ok := in.mapLookup(x.(*Map), in.get(fr, ci.ops[1]), mt.Elem())
		if ins.CommaOk {
			fr.env[ci.dst] = Tuple{v, ok}
		} else {
			fr.env[ci.dst] = v
		}
	case *ssa.Range:
		switch x := in.get(fr, ci.ops[0]).(type) {
		case *Map:
			it := &mapIter{m: x}
			if x != nil {
				it.ents = append(it.ents, x.ents...)
				in.reorder(it.ents)
			}
			fr.env[ci.dst] = it
		case Str:
			fr.env[ci.dst] = &strIter{s: x}
		default:
			unsupported("range over %T", x)
		}
	case *ssa.Next:
		switch it := in.get(fr, ci.ops[0]).(type) {
		case *mapIter:
			fr.env[ci.dst] = in.mapNext(it, ins)
		case *strIter:
			if it.i >= len(it.s) {
				fr.env[ci.dst] = Tuple{c.False, c.Const(64, 0), c.Const(32, 0)}
				return
			}
			b := it.s[it.i]
			if !in.branch(c.Ult(b, c.Const(8, 0x80))) {
				s, ok := it.s.concrete()
				if !ok {
					unsupported("range over symbolic non-ASCII string")
				}
				for j, r := range s[it.i:] {
					_ = j
					n := len(string(r))
					fr.env[ci.dst] = Tuple{c.True, c.Const(64, uint64(it.i)), c.Const(32, uint64(r))}
					it.i += n
					return
				}
			}
			fr.env[ci.dst] = Tuple{c.True, c.Const(64, uint64(it.i)), c.Zext(b, 32)}
			it.i++
		}
	case *ssa.FieldAddr:
		x := in.get(fr, ci.ops[0])
		if mo, ok := x.(modelObj); ok {
			unsupported("field %d of model object %T", ins.Field, mo)
		}
		p := in.deref(x)
		if mo, ok := (*p).(modelObj); ok {
			unsupported("field %d of model object %T", ins.Field, mo)
		}
		fr.env[ci.dst] = &(*p).(Structure)[ins.Field]
	case *ssa.Field:
		fr.env[ci.dst] = in.get(fr, ci.ops[0]).(Structure)[ins.Field]
	case *ssa.IndexAddr:
		in.indexAddr(fr, ins, ci)
	case *ssa.Index:
		x := in.get(fr, ci.ops[0])
		var cells []value
		switch x := x.(type) {
		case Array:
			cells = x
		case Str:
			cells = make([]value, len(x))
			for j := range x {
				cells[j] = x[j]
			}
		}
		i := in.index(in.get(fr, ci.ops[1]).(*Expr), ins.Index.Type(), c.Const(64, uint64(len(cells))), "array")
		if i.op == OpConst {
			fr.env[ci.dst] = copyVal(cells[i.val])
		} else if r, ok := in.symLoad(cells, i); ok {
			fr.env[ci.dst] = r
		} else {
			fr.env[ci.dst] = copyVal(cells[in.concretize(i, "array index")])
		}
	case *ssa.TypeAssert:
		fr.env[ci.dst] = in.typeAssert(ins, in.get(fr, ci.ops[0]).(Iface))
	case *ssa.Panic:
		v := in.get(fr, ci.ops[0]).(Iface)
		panic(goPanic{v, in.panicMsg(v)})
	case *ssa.Defer:
		fnv, args := in.prepareCall(fr, &ins.Call, ci.ops)
		d := &deferred{fn: fnv, args: args, site: ins, next: fr.defers}
		if ins.DeferStack != nil {
			// deferred from a range-over-func body: attach to the outer frame
			outer, _ := in.get(fr, ci.ops[len(ci.ops)-1]).(*deferStack)
			if outer != nil {
				d.next = outer.fr.defers
				outer.fr.defers = d
				return
			}
		}
		fr.defers = d
	case *ssa.RunDefers:
		in.runDefers(fr)
	case *ssa.Go:
		fnv, args := in.prepareCall(fr, &ins.Call, ci.ops)
		if b, ok := fnv.(*ssa.Builtin); ok {
			in.builtinTyped(fr, b, args, &ins.Call)
		} else {
			in.call(fr, fnv, args)
		}
	case *ssa.MakeChan:
		n := in.concretize(in.get(fr, ci.ops[0]).(*Expr), "channel size")
		fr.env[ci.dst] = &Chan{elem: ins.Type().Underlying().(*types.Chan).Elem(), cap: int(n)}
	case *ssa.Send:
		in.chanSend(in.get(fr, ci.ops[0]), in.get(fr, ci.ops[1]))
	case *ssa.Select:
		fr.env[ci.dst] = in.selectStmt(fr, ins, ci)
	default:
		unsupported("instruction %T", ins)
	}
}

type deferStack struct{ fr *frame }

func (in *Interp) panicMsg(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	switch x := v.v.(type) {
	case Str:
		if s, ok := x.concrete(); ok {
			return s
		}
		return "<symbolic string>"
	case *value:
		if x != nil {
			if st, ok := (*x).(Structure); ok && len(st) > 0 {
				if s, ok := st[0].(Str); ok {
					if cs, ok := s.concrete(); ok {
						return cs
					}
				}
			}
		}
	}
	return v.t.String()
}

// reorder permutes the entries of a map for an iteration as chosen by
// vfMapOrder.
func (in *Interp) reorder(ents []*mapEntry) {
	n := len(ents)
	switch {
	case n < 2:
	case in.mapOrder == 1:
		for i := 0; i < n/2; i++ {
			ents[i], ents[n-1-i] = ents[n-1-i], ents[i]
		}
	case in.mapOrder == 2:
		first := ents[0]
		copy(ents, ents[1:])
		ents[n-1] = first
	}
}

func (in *Interp) mapNext(it *mapIter, ins *ssa.Next) value {
	c := in.c
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		// skip entries deleted meanwhile
		alive := false
		for _, x := range it.m.ents {
			if x == e {
				alive = true
				break
			}
		}
		if alive {
			return Tuple{c.True, copyVal(e.k), copyVal(e.v)}
		}
	}
	var k, v value
	if it.m != nil {
		k, v = in.zero(it.m.keyT), in.zero(it.m.elemT)
	}
	return Tuple{c.False, k, v}
}

func (in *Interp) indexAddr(fr *frame, ins *ssa.IndexAddr, ci *cinstr) {
	c := in.c
	x := in.get(fr, ci.ops[0])
	iv := in.get(fr, ci.ops[1]).(*Expr)
	var cells []value
	switch x := x.(type) {
	case Slice:
		if x.lazy != nil && !x.lazy.done {
			in.index(iv, ins.Index.Type(), x.lazy.n, "slice")
		}
		cells = in.mat(x).v
	case *value, SymPtr:
		cells = (*in.deref(x)).(Array)
	default:
		unsupported("index of %T", x)
	}
	i := in.index(iv, ins.Index.Type(), c.Const(64, uint64(len(cells))), "slice")
	if i.op == OpConst {
		fr.env[ci.dst] = &cells[i.val]
		return
	}
	if len(cells) > 0 {
		if _, ok := cells[0].(*Expr); ok {
			fr.env[ci.dst] = SymPtr{cells, i}
			return
		}
	}
	fr.env[ci.dst] = &cells[in.concretize(i, "slice index")]
}

func (in *Interp) toInt64(v value, t types.Type) *Expr {
	_, signed, _ := scalarType(t)
	e := v.(*Expr)
	if signed {
		return in.c.Sext(e, 64)
	}
	return in.c.Zext(e, 64)
}

func (in *Interp) makeSlice(ins *ssa.MakeSlice, ln, cp *Expr) value {
	c := in.c
	elem := ins.Type().Underlying().(*types.Slice).Elem()
	n := in.simp(in.toInt64(ln, ins.Len.Type()))
	k := in.simp(in.toInt64(cp, ins.Cap.Type()))
	if n.op != OpConst {
		if n != k {
			n = c.Const(64, in.concretize(n, "make length"))
		} else {
			if !in.branch(c.Ult(n, c.Const(64, 1<<40))) {
				in.rtPanic("runtime error: makeslice: len out of range")
			}
			n = in.simp(n)
			in.allocated(n, elem)
			if n.op != OpConst {
				return Slice{ok: true, lazy: &Lazy{n: n, elem: elem}}
			}
		}
	} else {
		if int64(n.val) < 0 {
			in.rtPanic("runtime error: makeslice: len out of range")
		}
		in.allocated(n, elem)
	}
	var kc uint64
	if k.op != OpConst {
		kc = in.concretize(k, "make capacity")
	} else {
		kc = k.val
	}
	if kc < n.val {
		in.rtPanic("runtime error: makeslice: cap out of range")
	}
	if kc > 1<<22 {
		// large constant allocations are lazily represented
		if kc == n.val {
			return Slice{ok: true, lazy: &Lazy{n: n, elem: elem}}
		}
		unsupported("make of %d elements", kc)
	}
	v := make([]value, kc)
	for i := range v {
		v[i] = in.zero(elem)
	}
	return Slice{v: v[:n.val:kc], ok: true}
}

func (in *Interp) slice(fr *frame, ins *ssa.Slice, ci *cinstr) value {
	c := in.c
	x := in.get(fr, ci.ops[0])
	bound := func(k int, t func() types.Type) *Expr {
		if ci.ops[k].kind < 0 {
			return nil
		}
		return in.simp(in.toInt64(in.get(fr, ci.ops[k]), t()))
	}
	lo := bound(1, func() types.Type { return ins.Low.Type() })
	hi := bound(2, func() types.Type { return ins.High.Type() })
	mx := bound(3, func() types.Type { return ins.Max.Type() })
	if lo == nil {
		lo = c.Const(64, 0)
	}
	if s, ok := x.(Str); ok {
		if hi == nil {
			hi = c.Const(64, uint64(len(s)))
		}
		if !in.branch(c.And(c.Ule(hi, c.Const(64, uint64(len(s)))), c.Ule(lo, hi))) {
			in.rtPanic("runtime error: slice bounds out of range")
		}
		l, h := in.concretize(lo, "slice bound"), in.concretize(hi, "slice bound")
		return s[l:h]
	}
	var cells []value
	nonNil := true
	switch x := x.(type) {
	case Slice:
		if x.lazy != nil && !x.lazy.done && hi == nil && mx == nil && lo.op == OpConst && lo.val == 0 {
			return x
		}
		s := in.mat(x)
		cells = s.v
		nonNil = s.ok
	case *value, SymPtr:
		a := (*in.deref(x)).(Array)
		cells = a
	default:
		unsupported("slice of %T", x)
	}
	capN := c.Const(64, uint64(cap(cells)))
	if hi == nil {
		hi = c.Const(64, uint64(len(cells)))
	}
	m := capN
	if mx != nil {
		m = mx
	}
	ok := c.And(c.And(c.Ule(m, capN), c.Ule(hi, m)), c.Ule(lo, hi))
	if !in.branch(ok) {
		in.rtPanic("runtime error: slice bounds out of range")
	}
	h := in.concretize(hi, "slice bound")
	l := in.concretize(lo, "slice bound")
	mm := uint64(cap(cells))
	if mx != nil {
		mm = in.concretize(mx, "slice bound")
	}
	return Slice{v: cells[l:h:mm], ok: nonNil}
}

func (in *Interp) unop(ins *ssa.UnOp, x value) value {
	c := in.c
	switch ins.Op {
	case token.MUL:
		return in.load(x)
	case token.NOT:
		return c.Not(x.(*Expr))
	case token.SUB:
		if f, ok := x.(float64); ok {
			return -f
		}
		e := x.(*Expr)
		return c.Sub(c.Const(e.w, 0), e)
	case token.XOR:
		return c.BNot(x.(*Expr))
	case token.ARROW:
		return in.chanRecv(x, ins.CommaOk)
	}
	unsupported("unop %v", ins.Op)
	return nil
}

func (in *Interp) binop(op token.Token, xt, yt types.Type, x, y value) value {
	c := in.c
	switch op {
	case token.EQL:
		return in.equal(x, y)
	case token.NEQ:
		return c.Not(in.equal(x, y))
	}
	if xs, ok := x.(Str); ok {
		ys := y.(Str)
		switch op {
		case token.ADD:
			r := make(Str, 0, len(xs)+len(ys))
			return append(append(r, xs...), ys...)
		case token.LSS:
			return in.strLess(xs, ys)
		case token.GTR:
			return in.strLess(ys, xs)
		case token.LEQ:
			return c.Not(in.strLess(ys, xs))
		case token.GEQ:
			return c.Not(in.strLess(xs, ys))
		}
	}
	if xf, ok := x.(float64); ok {
		yf := y.(float64)
		switch op {
		case token.ADD:
			return xf + yf
		case token.SUB:
			return xf - yf
		case token.MUL:
			return xf * yf
		case token.QUO:
			return xf / yf
		case token.LSS:
			return c.Bool(xf < yf)
		case token.LEQ:
			return c.Bool(xf <= yf)
		case token.GTR:
			return c.Bool(xf > yf)
		case token.GEQ:
			return c.Bool(xf >= yf)
		}
	}
	a, ok1 := x.(*Expr)
	b, ok2 := y.(*Expr)
	if !ok1 || !ok2 {
		unsupported("binop %v on %T, %T", op, x, y)
	}
	_, signed, _ := scalarType(xt)
	switch op {
	case token.ADD:
		return c.Add(a, b)
	case token.SUB:
		return c.Sub(a, b)
	case token.MUL:
		return c.arith(OpMul, a, b)
	case token.QUO, token.REM:
		if in.branch(c.Eq(b, c.Const(b.w, 0))) {
			in.rtPanic("runtime error: integer divide by zero")
		}
		b = in.simp(b)
		switch {
		case op == token.QUO && signed:
			return c.arith(OpSDiv, a, b)
		case op == token.QUO:
			return c.arith(OpUDiv, a, b)
		case signed:
			return c.arith(OpSRem, a, b)
		default:
			return c.arith(OpURem, a, b)
		}
	case token.AND:
		if a.w == 0 {
			return c.And(a, b)
		}
		return c.BAnd(a, b)
	case token.OR:
		if a.w == 0 {
			return c.Or(a, b)
		}
		return c.BOr(a, b)
	case token.XOR:
		return c.BXor(a, b)
	case token.AND_NOT:
		return c.BAnd(a, c.BNot(b))
	case token.SHL, token.SHR:
		_, ysigned, _ := scalarType(yt)
		if ysigned {
			if in.branch(c.Slt(b, c.Const(b.w, 0))) {
				in.rtPanic("runtime error: negative shift amount")
			}
		}
		b = in.simp(b)
		switch {
		case op == token.SHL:
			return c.shift(OpShl, a, b)
		case signed:
			return c.shift(OpAShr, a, b)
		default:
			return c.shift(OpLShr, a, b)
		}
	case token.LSS:
		if signed {
			return c.Slt(a, b)
		}
		return c.Ult(a, b)
	case token.LEQ:
		if signed {
			return c.Sle(a, b)
		}
		return c.Ule(a, b)
	case token.GTR:
		if signed {
			return c.Slt(b, a)
		}
		return c.Ult(b, a)
	case token.GEQ:
		if signed {
			return c.Sle(b, a)
		}
		return c.Ule(b, a)
	}
	unsupported("binop %v", op)
	return nil
}

func (in *Interp) strLess(a, b []*Expr) *Expr {
	c := in.c
	// lexicographic, from the end
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := c.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		r = c.Ite(c.Eq(a[i], b[i]), r, c.Ult(a[i], b[i]))
	}
	return r
}

func (in *Interp) convert(from, to types.Type, x value) value {
	c := in.c
	fu, tu := from.Underlying(), to.Underlying()
	if tw, _, ok := scalarType(to); ok {
		if e, ok := x.(*Expr); ok {
			_, fsigned, _ := scalarType(from)
			if tw <= e.w {
				return c.Extract(e, 0, tw)
			}
			if fsigned {
				return c.Sext(e, tw)
			}
			return c.Zext(e, tw)
		}
		if f, ok := x.(float64); ok {
			return c.Const(tw, uint64(int64(f)))
		}
		unsupported("convert %v to %v", from, to)
	}
	switch tu := tu.(type) {
	case *types.Basic:
		switch tu.Kind() {
		case types.String:
			switch x := x.(type) {
			case Slice:
				if et, ok := fu.(*types.Slice); ok {
					if w, _, _ := scalarType(et.Elem()); w == 8 {
						return Str(in.bytesOf(x))
					}
				}
				var rs []rune
				for _, v := range in.mat(x).v {
					e := v.(*Expr)
					if e.op != OpConst {
						unsupported("symbolic runes to string")
					}
					rs = append(rs, rune(e.val))
				}
				return in.str(string(rs))
			case *Expr:
				if x.op == OpConst {
					return in.str(string(rune(sx(x.w, x.val))))
				}
				unsupported("symbolic rune to string")
			case Str:
				return x
			}
		case types.Float32, types.Float64:
			switch x := x.(type) {
			case float64:
				if tu.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			case *Expr:
				if x.op == OpConst {
					_, s, _ := scalarType(from)
					if s {
						return float64(sx(x.w, x.val))
					}
					return float64(x.val)
				}
			}
			unsupported("symbolic float")
		case types.UnsafePointer:
			return x
		}
	case *types.Slice:
		if s, ok := x.(Str); ok {
			if w, _, _ := scalarType(tu.Elem()); w == 8 {
				return in.mkBytes(s)
			}
			cs, ok := s.concrete()
			if !ok {
				unsupported("symbolic string to runes")
			}
			var v []value
			for _, r := range cs {
				v = append(v, c.Const(32, uint64(r)))
			}
			return Slice{v: v, ok: true}
		}
		return x
	case *types.Pointer:
		return x
	}
	unsupported("convert %v to %v", from, to)
	return nil
}

func (in *Interp) typeAssert(ins *ssa.TypeAssert, x Iface) value {
	c := in.c
	at := ins.AssertedType
	var v value
	ok := false
	if x.t != nil {
		if it, isI := at.Underlying().(*types.Interface); isI {
			if _, isModel := x.v.(modelObj); isModel && x.t == modelType {
				ok = true
			} else {
				ok = types.Implements(x.t, it)
			}
			v = x
		} else {
			ok = types.Identical(x.t, at)
			if ok {
				v = copyVal(x.v)
			}
		}
	}
	if !ok {
		if !ins.CommaOk {
			in.rtPanic(fmt.Sprintf("interface conversion: interface is %v, not %v", x.t, at))
		}
		return Tuple{in.zero(at), c.False}
	}
	if ins.CommaOk {
		return Tuple{v, c.True}
	}
	return v
}

// prepareCall evaluates callee and arguments.
func (in *Interp) prepareCall(fr *frame, call *ssa.CallCommon, ops []opnd) (value, []value) {
	if call.IsInvoke() {
		recv := in.get(fr, ops[0]).(Iface)
		if recv.t == nil {
			in.rtPanic("runtime error: invalid memory address or nil pointer dereference (nil interface method call)")
		}
		args := make([]value, 1+len(call.Args))
		for i := range call.Args {
			args[1+i] = in.get(fr, ops[1+i])
		}
		if mo, ok := recv.v.(modelObj); ok {
			m := call.Method.Name()
			return &Closure{nat: func(in *Interp, a []value) value { return mo.call(in, m, a[1:]) }}, args
		}
		fn := in.p.prog.LookupMethod(recv.t, call.Method.Pkg(), call.Method.Name())
		if fn == nil {
			unsupported("method %v of %v", call.Method, recv.t)
		}
		args[0] = recv.v
		return &Closure{fn: fn}, args
	}
	args := make([]value, len(call.Args))
	for i := range call.Args {
		args[i] = in.get(fr, ops[1+i])
	}
	if ops[0].kind == kBuiltin {
		return ops[0].v.(*ssa.Builtin), args
	}
	return in.get(fr, ops[0]), args
}

func (in *Interp) doCall(fr *frame, call *ssa.CallCommon, ops []opnd, site *ssa.Defer) value {
	if !call.IsInvoke() && ops[0].kind == kBuiltin {
		args := make([]value, len(call.Args))
		for i := range call.Args {
			args[i] = in.get(fr, ops[1+i])
		}
		return in.builtinTyped(fr, ops[0].v.(*ssa.Builtin), args, call)
	}
	if !call.IsInvoke() && ops[0].kind == kFunc {
		args := make([]value, len(call.Args))
		for i := range call.Args {
			args[i] = in.get(fr, ops[1+i])
		}
		return in.callSSA(fr, ops[0].v.(*ssa.Function), args, nil)
	}
	fn, args := in.prepareCall(fr, call, ops)
	return in.call(fr, fn, args)
}

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []value, site *ssa.Defer) value {
	var call *ssa.CallCommon
	if site != nil {
		call = &site.Call
	}
	return in.builtinTyped(fr, b, args, call)
}

func (in *Interp) builtinTyped(fr *frame, b *ssa.Builtin, args []value, call *ssa.CallCommon) value {
	c := in.c
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return c.Const(64, uint64(len(x)))
		case Slice:
			return in.sliceLen(x)
		case *Map:
			if x == nil {
				return c.Const(64, 0)
			}
			return c.Const(64, uint64(len(x.ents)))
		case Array:
			return c.Const(64, uint64(len(x)))
		case *value:
			return c.Const(64, uint64(len((*x).(Array))))
		case *Chan:
			if x == nil {
				return c.Const(64, 0)
			}
			return c.Const(64, uint64(len(x.q)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			if x.lazy != nil {
				return in.sliceLen(x)
			}
			return c.Const(64, uint64(cap(x.v)))
		case Array:
			return c.Const(64, uint64(len(x)))
		case *value:
			return c.Const(64, uint64(len((*x).(Array))))
		}
	case "append":
		s := in.mat(args[0].(Slice))
		var add []value
		switch y := args[1].(type) {
		case Slice:
			add = in.mat(y).v
		case Str:
			add = make([]value, len(y))
			for i := range y {
				add[i] = y[i]
			}
		}
		var elem types.Type
		if call != nil {
			elem = call.Args[0].Type().Underlying().(*types.Slice).Elem()
		}
		return in.appendVals(s, add, elem)
	case "copy":
		d := in.mat(args[0].(Slice)).v
		var src []value
		switch y := args[1].(type) {
		case Slice:
			src = in.mat(y).v
		case Str:
			src = make([]value, len(y))
			for i := range y {
				src[i] = y[i]
			}
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeInto(&d[i], tmp[i])
		}
		return c.Const(64, uint64(n))
	case "delete":
		in.mapDelete(args[0].(*Map), args[1])
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(goPanic{v, in.panicMsg(v)})
	case "recover":
		// the caller of the deferred function must be panicking
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			return fr.caller.panicVal.(goPanic).val
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		var t types.Type
		if call != nil {
			t = call.Args[0].Type()
		}
		for _, a := range args[1:] {
			lt := in.binop(token.LSS, t, t, a, r).(*Expr)
			if b.Name() == "max" {
				lt = in.binop(token.LSS, t, t, r, a).(*Expr)
			}
			re, ok1 := r.(*Expr)
			ae, ok2 := a.(*Expr)
			if ok1 && ok2 {
				r = c.Ite(lt, ae, re)
			} else if in.branch(lt) {
				r = a
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				x.ents = nil
				x.idx = nil
			}
		case Slice:
			s := in.mat(x)
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range s.v {
				storeInto(&s.v[i], in.zero(et))
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			in.rtPanic("runtime error: invalid memory address or nil pointer dereference (method value)")
		}
		return args[0]
	case "ssa:deferstack":
		return &deferStack{fr}
	case "close":
		x, _ := args[0].(*Chan)
		if x == nil || x.closed {
			in.rtPanic("close of nil or closed channel")
		}
		x.closed = true
		return nil
	case "Sizeof":
		return c.Const(64, uint64(in.p.sizes.Sizeof(call.Args[0].Type())))
	case "SliceData":
		if x := in.mat(args[0].(Slice)); x.ok {
			return &dataPtr{x.v[:cap(x.v)]}
		}
		return (*value)(nil)
	case "StringData":
		x := args[0].(Str)
		d := &dataPtr{make([]value, len(x))}
		for i := range x {
			d.cells[i] = x[i]
		}
		return d
	case "String", "Slice": // unsafe
		n := in.concretize(args[1].(*Expr), "length")
		var cells []value
		switch p := args[0].(type) {
		case *value:
			if p != nil {
				unsupported("unsafe.%s", b.Name())
			}
			if b.Name() == "Slice" {
				return Slice{}
			}
		case *dataPtr:
			if n > uint64(len(p.cells)) {
				unsupported("unsafe.%s", b.Name())
			}
			cells = p.cells[:n]
		}
		if b.Name() == "Slice" {
			return Slice{v: cells, ok: true}
		}
		s := make(Str, len(cells))
		for i := range s {
			s[i] = cells[i].(*Expr)
		}
		return s
	}
	unsupported("builtin %s on %T", b.Name(), first(args))
	return nil
}

func first(a []value) value {
	if len(a) == 0 {
		return nil
	}
	return a[0]
}

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int64) int64 {
	for _, s := range sizeClasses {
		if n <= s {
			return s
		}
	}
	return (n + 8191) &^ 8191
}

func (in *Interp) appendVals(s Slice, add []value, elem types.Type) Slice {
	n := len(s.v) + len(add)
	if len(add) == 0 {
		return s
	}
	if n <= cap(s.v) {
		r := s.v[:n]
		tmp := make([]value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			if r[len(s.v)+i] == nil {
				r[len(s.v)+i] = tmp[i]
			} else {
				storeInto(&r[len(s.v)+i], tmp[i])
			}
		}
		return Slice{v: r, ok: true}
	}
	// growth like runtime.growslice, so that aliasing of spare capacity is
	// the same as in the compiled code
	oldCap := cap(s.v)
	newCap := oldCap
	if n > 2*oldCap {
		newCap = n
	} else if oldCap < 256 {
		newCap = 2 * oldCap
	} else {
		for newCap < n {
			newCap += (newCap + 3*256) / 4
		}
	}
	if elem != nil {
		sz := in.p.sizes.Sizeof(elem)
		if sz > 0 {
			newCap = int(roundSize(int64(newCap)*sz) / sz)
		}
	}
	v := make([]value, newCap)
	for i := range s.v {
		v[i] = copyVal(s.v[i])
	}
	for i := range add {
		v[len(s.v)+i] = copyVal(add[i])
	}
	if elem != nil {
		for i := n; i < newCap; i++ {
			v[i] = in.zero(elem)
		}
	}
	return Slice{v: v[:n], ok: true}
}

func shortName(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), "github.com/emersion/go-mls.", "")
}
