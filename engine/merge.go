package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Calls of functions that only read memory and return scalars are merged: all
// feasible local outcomes are explored and joined into one term, so the paths
// of the caller do not multiply.

const maxMerge = 6

type mergeState struct {
	prefix []bool
	pos    int
	guards []*Expr
	paths  [][]bool // recorded outcomes, when replaying
	fresh  bool     // outcomes are being discovered
	used   bool     // a symbolic branch was met
	todo   [][]bool
}

type mergeAbort struct{}

var mergeableIntr = map[string]bool{
	"bytes.Equal": true,
}

// pure reports whether fn only computes on its arguments and memory.
func (p *Program) pure(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false // recursive
	}
	fi := p.info(fn)
	if fi.intr != nil {
		return mergeableIntr[fi.name]
	}
	if fi.blocks == nil || fi.hasDefer || fn.Signature.Results().Len() == 0 || len(fn.FreeVars) > 0 {
		return false
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if _, _, ok := scalarType(fn.Signature.Results().At(i).Type()); !ok {
			return false
		}
	}
	seen[fn] = true
	defer delete(seen, fn)
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return,
				*ssa.Extract, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.DebugRef, *ssa.Panic, *ssa.MakeInterface, *ssa.TypeAssert:
			case *ssa.UnOp:
				if ins.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				switch callee := ins.Call.Value.(type) {
				case *ssa.Builtin:
					switch callee.Name() {
					case "len", "cap", "min", "max":
					default:
						return false
					}
				case *ssa.Function:
					if !p.pure(callee, seen) {
						return false
					}
				default:
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func (in *Interp) mergeable(fi *fnInfo) bool {
	if v, ok := in.pureMemo[fi.fn]; ok {
		return v
	}
	v := len(fi.blocks) > 1 && in.p.pure(fi.fn, map[*ssa.Function]bool{})
	in.pureMemo[fi.fn] = v
	return v
}

// mergeCall runs fn on all feasible local paths; ok is false when the call
// must be executed normally.
func (in *Interp) mergeCall(caller *frame, fi *fnInfo, args []value) (res value, ok bool) {
	ms := &mergeState{}
	in.merging = ms
	depth, steps := in.depth, in.steps
	abort := false
	var outs []value
	var conds []*Expr
	var done [][]bool
	runOne := func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case mergeAbort, goPanic:
					abort = true
				case pathEnd:
					if r.kind == "steps" || r.kind == "unsupported" {
						abort = true
						return
					}
					panic(r)
				default:
					panic(r)
				}
			}
		}()
		ms.pos, ms.guards = 0, nil
		v := in.execSSA(caller, fi, args, nil)
		g := in.c.True
		for _, x := range ms.guards {
			g = in.c.And(g, x)
		}
		outs = append(outs, v)
		conds = append(conds, g)
		done = append(done, append([]bool(nil), ms.prefix...))
	}
	runOne()
	if !abort && ms.fresh {
		for len(ms.todo) > 0 && !abort {
			if len(outs) >= maxMerge {
				abort = true
				break
			}
			ms.prefix = ms.todo[len(ms.todo)-1]
			ms.todo = ms.todo[:len(ms.todo)-1]
			runOne()
		}
	} else if !abort && ms.paths != nil {
		for _, p := range ms.paths[1:] {
			ms.prefix = p
			runOne()
			if abort {
				break
			}
		}
	}
	in.merging = nil
	in.depth = depth
	if abort {
		in.steps = steps
		if ms.fresh {
			in.prefix = append(in.prefix[:in.pos], Decision{kind: 'm'})
			in.pos++
		}
		return nil, false
	}
	if ms.fresh {
		in.prefix = append(in.prefix[:in.pos], Decision{kind: 'm', paths: done})
		in.pos++
	}
	res = outs[len(outs)-1]
	for i := len(outs) - 2; i >= 0; i-- {
		res = in.iteVal(conds[i], outs[i], res)
	}
	return res, true
}

func (in *Interp) iteVal(g *Expr, a, b value) value {
	switch a := a.(type) {
	case *Expr:
		return in.c.Ite(g, a, b.(*Expr))
	case Tuple:
		t := make(Tuple, len(a))
		for i := range a {
			t[i] = in.iteVal(g, a[i], b.(Tuple)[i])
		}
		return t
	}
	panic(mergeAbort{})
}

// mergeBranch decides a (non-constant) condition inside a merged call.
func (in *Interp) mergeBranch(cond *Expr) bool {
	ms := in.merging
	c := in.c
	if !ms.used {
		ms.used = true
		if in.pos < len(in.prefix) {
			d := in.prefix[in.pos]
			if d.kind != 'm' {
				panic("replay divergence: merged call vs " + string(d.kind))
			}
			in.pos++
			if d.paths == nil {
				panic(mergeAbort{})
			}
			ms.paths = d.paths
			ms.prefix = d.paths[0]
		} else {
			ms.fresh = true
		}
	}
	var v bool
	if ms.pos < len(ms.prefix) {
		v = ms.prefix[ms.pos]
	} else {
		if !ms.fresh {
			panic("replay divergence in merged call")
		}
		in.addVars(cond)
		pc := append(append([]*Expr(nil), in.pc...), ms.guards...)
		r1, _ := in.s.Check(pc, cond, in.pcVars)
		in.tally(r1)
		v = true
		if r1 == Unsat {
			v = false
		} else {
			r0, _ := in.s.Check(pc, c.Not(cond), in.pcVars)
			in.tally(r0)
			if r0 != Unsat {
				if len(ms.todo) > maxMerge {
					panic(mergeAbort{})
				}
				alt := append(append([]bool(nil), ms.prefix...), false)
				ms.todo = append(ms.todo, alt)
			}
		}
		ms.prefix = append(append([]bool(nil), ms.prefix...), v)
	}
	ms.pos++
	if v {
		ms.guards = append(ms.guards, cond)
	} else {
		ms.guards = append(ms.guards, c.Not(cond))
	}
	return v
}
