package main

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one symbolic choice on a path.
type Decision struct {
	kind   byte // 'b' branch, 'v' concretised value, 'x' any value but excl
	val    uint64
	forced bool
	excl   []uint64
	paths  [][]bool // 'm' merged call: outcomes, nil if executed normally
}

type workItem struct {
	h      *harness
	prefix []Decision
	model  Model // valid for the worker that produced it (ctx)
	ctx    *Ctx
}

type harness struct {
	name  string
	fn    *ssa.Function
	mu    sync.Mutex
	stats hstats
	busy  atomic.Int64
}

type hstats struct {
	Paths       int64
	Completed   int64
	Infeasible  int64
	Steps       int64
	Asserts     int64
	Discharged  int64
	Undecided   int64
	Unsupported map[string]int64
	Truncated   int64
	Reached     map[string]int64
	Remaining   int64
	viols       []*candidate
	violKeys    map[string]int
	witnesses   []*witness
	fns         map[*ssa.Function]bool
	started     time.Time
	wall        time.Duration
}

type candidate struct {
	harness string
	kind    string // assert, panic, hang
	msg     string
	inputs  []uint64
	names   []string
	trail   string
}

type witness struct {
	harness  string
	inputs   []uint64
	observes []obsVal
	outcome  string
}

type obsVal struct {
	Name string
	Val  uint64
}

type Explorer struct {
	p         *Program
	tier      string
	seed      int64
	solver    string
	timeoutMS int
	maxSteps  int64
	maxPaths  int64
	deadline  time.Time
	perH      time.Duration
	verbose   bool

	mu     sync.Mutex
	cond   *sync.Cond
	shared []workItem
	late   []workItem // of harnesses which used up their share of time
	share  time.Duration
	idle   int
	n      int
	stop   bool
	first  bool         // stop at the first candidates
	hits   atomic.Int64 // candidates so far

	Queries  int64
	Unknowns int64
	SolverT  time.Duration
	Sat      int64
	Unsat    int64
	fatal    error
}

func (ex *Explorer) Run(hs []*harness, workers int) {
	ex.cond = sync.NewCond(&ex.mu)
	ex.n = workers
	ex.share = time.Until(ex.deadline) * time.Duration(workers) / time.Duration(len(hs)+1)
	for i := len(hs) - 1; i >= 0; i-- {
		h := hs[i]
		h.stats.Unsupported = map[string]int64{}
		h.stats.Reached = map[string]int64{}
		h.stats.violKeys = map[string]int{}
		h.stats.fns = map[*ssa.Function]bool{}
		ex.shared = append(ex.shared, workItem{h: h})
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ex.worker()
		}()
	}
	wg.Wait()
	for _, it := range append(ex.shared, ex.late...) {
		it.h.stats.Remaining++
	}
}

func (ex *Explorer) take() (workItem, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return workItem{}, false
		}
		if n := len(ex.shared); n > 0 {
			it := ex.shared[n-1]
			ex.shared = ex.shared[:n-1]
			return it, true
		}
		if n := len(ex.late); n > 0 {
			it := ex.late[n-1]
			ex.late = ex.late[:n-1]
			return it, true
		}
		ex.idle++
		if ex.idle == ex.n {
			ex.stop = true
			ex.cond.Broadcast()
			return workItem{}, false
		}
		ex.cond.Wait()
		ex.idle--
	}
}

func (ex *Explorer) newInterp() *Interp {
	return &Interp{
		p: ex.p, ex: ex, c: NewCtx(), s: NewSolver(ex.solver, ex.timeoutMS),
		fcache: map[*ssa.Function]*fnInfo{}, pureMemo: map[*ssa.Function]bool{},
	}
}

func (ex *Explorer) worker() {
	in := ex.newInterp()
	defer func() {
		ex.collect(in)
		in.s.Close()
	}()
	var local []workItem
	for {
		if len(local) == 0 {
			it, ok := ex.take()
			if !ok {
				return
			}
			local = append(local, it)
		}
		it := local[len(local)-1]
		local = local[:len(local)-1]
		if time.Now().After(ex.deadline) || it.h.stats.Paths > ex.maxPaths || ex.fatal != nil || ex.first && ex.hits.Load() >= 4 {
			it.h.mu.Lock()
			it.h.stats.Remaining++
			it.h.mu.Unlock()
			continue
		}
		if in.c.nextID > 4000000 || in.c.appBytes > 20000000 {
			ex.collect(in)
			in.s.Close()
			in = ex.newInterp()
			it.model = nil
			for i := range local {
				local[i].model = nil
			}
		}
		if it.ctx != in.c {
			it.model = nil
			it.ctx = nil
		}
		t0 := time.Now()
		in.runPath(it)
		if ex.first && len(it.h.stats.viols) > 0 {
			ex.hits.Add(1)
		}
		it.h.busy.Add(int64(time.Since(t0)))
		local = append(local, in.pending...)
		in.pending = nil
		if it.h.busy.Load() > int64(ex.share) {
			ex.mu.Lock()
			if len(ex.shared) > 0 && ex.shared[len(ex.shared)-1].h != it.h {
				for _, l := range local {
					l.model = nil
					ex.late = append(ex.late, l)
				}
				local = local[:0]
			}
			ex.mu.Unlock()
		}
		// give shallow items to idle workers
		if len(local) > 1 {
			ex.mu.Lock()
			for ex.idle > 0 && len(local) > 1 && len(ex.shared) < ex.idle {
				d := local[0]
				d.model = nil
				local = local[1:]
				ex.shared = append(ex.shared, d)
				ex.cond.Signal()
			}
			ex.mu.Unlock()
		}
	}
}

func (ex *Explorer) collect(in *Interp) {
	ex.mu.Lock()
	ex.Queries += in.s.queries
	ex.Unknowns += in.s.unknowns
	ex.SolverT += in.s.time
	ex.mu.Unlock()
}

func (in *Interp) reset(it workItem) {
	in.globals = map[*ssa.Global]*value{}
	in.inited = map[*ssa.Package]bool{}
	in.steps, in.depth = 0, 0
	in.prefix = append([]Decision(nil), it.prefix...)
	in.pos = 0
	in.pc = nil
	in.pcVars = nil
	in.pcSeen = map[*Expr]bool{}
	in.model = it.model
	if len(it.prefix) == 0 {
		in.model = Model{}
	}
	in.known = map[*Expr]*Expr{}
	in.smemo = map[*Expr]*Expr{}
	in.inputs, in.observes = nil, nil
	in.nrand = 0
	in.mapOrder = 0
	in.rareKeys = 0
	in.sides = nil
	in.crypto = newCryptoState()
	in.pending = nil
	in.reached = map[string]bool{}
	in.asserts = 0
	in.fnSeen = map[*ssa.Function]bool{}
	in.cur = it.h
	in.ninput = map[string]int{}
	in.allocLimit = 0
	in.viol = false
	in.maxStepsH = in.ex.maxSteps
	in.discharged, in.undecided = 0, 0
	in.nmodel = 0
	in.merging = nil
}

func (in *Interp) runPath(it workItem) {
	in.reset(it)
	h := it.h
	t0 := time.Now()
	outcome, msg := "ok", ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case pathEnd:
				outcome, msg = r.kind, r.msg
			case goPanic:
				outcome, msg = "panic", r.msg
			default:
				// a gap of the engine: the path counts as not explored
				outcome, msg = "unsupported", fmt.Sprintf("engine error: %v", r)
				if in.ex.verbose {
					fmt.Printf("# %s: %v\n%s\n", h.name, r, debug.Stack())
				}
			}
		}()
		in.callSSA(nil, h.fn, nil, nil)
	}()
	h.mu.Lock()
	defer h.mu.Unlock()
	st := &h.stats
	if st.started.IsZero() {
		st.started = t0
	}
	st.wall = time.Since(st.started)
	st.Paths++
	st.Steps += in.steps
	st.Asserts += int64(in.asserts)
	st.Discharged += int64(in.discharged)
	st.Undecided += int64(in.undecided)
	for k := range in.reached {
		st.Reached[k]++
	}
	for f := range in.fnSeen {
		st.fns[f] = true
	}
	switch outcome {
	case "ok":
		st.Completed++
		in.addWitness(h, "ok")
	case "assume", "infeasible":
		st.Infeasible++
	case "violation":
	case "panic":
		in.addCandidate(h, "panic", msg)
	case "steps":
		st.Truncated++
		in.addCandidate(h, "hang", msg)
	case "unsupported":
		st.Unsupported[msg]++
		if st.Unsupported[msg] <= 8 {
			in.addWitness(h, "unsupported")
		}
	}
	if in.ex.verbose {
		fmt.Printf("# %s path %d: %s %s steps=%d pc=%d t=%v\n", h.name, st.Paths, outcome, msg, in.steps, len(in.pc), time.Since(t0).Round(time.Millisecond))
	}
}

// needModel makes in.model a model of the current path condition.
func (in *Interp) needModel() bool {
	if in.model != nil {
		return true
	}
	r, m := in.s.Check(in.pc, nil, in.pcVars)
	in.tally(r)
	switch r {
	case Unsat:
		panic(pathEnd{"infeasible", ""})
	case Sat:
		in.model = m
		return true
	}
	return false
}

func (in *Interp) tally(r Result) {
	switch r {
	case Sat:
		in.nsat++
	case Unsat:
		in.nunsat++
	}
}

func (in *Interp) simp(e *Expr) *Expr {
	if !e.hasVar || len(in.known) == 0 {
		return e
	}
	return in.c.Subst(e, in.known, in.smemo)
}

func (in *Interp) learn(cond *Expr, v bool) {
	in.setKnown(cond, in.c.Bool(v))
	in.smemo = map[*Expr]*Expr{}
	in.learnRec(cond, v, 0)
}

func (in *Interp) setKnown(e, v *Expr) {
	if e.op == OpConst {
		return
	}
	in.known[e] = v
}

func (in *Interp) learnRec(cond *Expr, v bool, depth int) {
	c := in.c
	if depth > 64 {
		return
	}
	switch cond.op {
	case OpNot:
		in.setKnown(cond.args[0], c.Bool(!v))
		in.learnRec(cond.args[0], !v, depth+1)
	case OpAnd:
		if v {
			for _, a := range cond.args {
				in.setKnown(a, c.True)
				in.learnRec(a, true, depth+1)
			}
		}
	case OpOr:
		if !v {
			for _, a := range cond.args {
				in.setKnown(a, c.False)
				in.learnRec(a, false, depth+1)
			}
		}
	case OpEq:
		if v {
			a, b := cond.args[0], cond.args[1]
			if a.op == OpConst {
				a, b = b, a
			}
			if b.op == OpConst && a.w > 0 {
				in.setKnown(a, b)
				in.learnPieces(a, b)
			}
		}
	}
}

// learnPieces propagates a known value into the bytes of a concatenation.
func (in *Interp) learnPieces(a, v *Expr) {
	if a.op != OpConcat {
		return
	}
	hi := a.w
	for _, p := range a.args {
		hi -= p.w
		if p.op != OpConst {
			in.setKnown(p, in.c.Const(p.w, v.val>>uint(hi)))
		}
	}
}

func (in *Interp) addVars(e *Expr) {
	if !e.hasVar || in.pcSeen[e] {
		return
	}
	in.pcSeen[e] = true
	if e.op == OpVar || e.op == OpByteOf {
		in.pcVars = append(in.pcVars, e)
		return
	}
	for _, a := range e.args {
		in.addVars(a)
	}
}

func (in *Interp) assertPC(e *Expr) {
	in.addVars(e)
	in.pc = append(in.pc, e)
}

func (in *Interp) check(extra *Expr) (Result, Model) {
	if extra != nil {
		in.addVars(extra)
	}
	r, m := in.s.Check(in.pc, extra, in.pcVars)
	in.tally(r)
	return r, m
}

func (in *Interp) evalBool(e *Expr) bool {
	return in.c.Eval(e, in.model, map[*Expr]uint64{}) == 1
}

func (in *Interp) push(d Decision, m Model) {
	p := make([]Decision, in.pos, in.pos+1)
	copy(p, in.prefix[:in.pos])
	p = append(p, d)
	in.pending = append(in.pending, workItem{h: in.cur, prefix: p, model: m, ctx: in.c})
}

// branch decides a boolean term on this path, scheduling the other outcome if
// it is feasible.
func (in *Interp) branch(cond *Expr) bool {
	if cond.op == OpConst {
		return cond.val == 1
	}
	cond = in.simp(cond)
	if cond.op == OpConst {
		return cond.val == 1
	}
	if in.merging != nil {
		return in.mergeBranch(cond)
	}
	c := in.c
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		if d.kind != 'b' {
			panic(fmt.Sprintf("replay divergence: branch vs %c", d.kind))
		}
		v := d.val == 1
		if !d.forced {
			if v {
				in.assertPC(cond)
			} else {
				in.assertPC(c.Not(cond))
			}
		}
		in.learn(cond, v)
		return v
	}
	lit := func(v bool) *Expr {
		if v {
			return cond
		}
		return c.Not(cond)
	}
	var v bool
	forced := false
	if in.needModel() {
		v = in.evalBool(cond)
		r, m := in.check(lit(!v))
		switch r {
		case Unsat:
			forced = true
		case Sat:
			in.push(Decision{kind: 'b', val: b2u(!v)}, m)
		default:
			in.push(Decision{kind: 'b', val: b2u(!v)}, nil)
		}
	} else {
		// the solver could not produce a model: try both sides
		r1, m1 := in.check(cond)
		r0, m0 := in.check(c.Not(cond))
		switch {
		case r1 == Unsat && r0 == Unsat:
			panic(pathEnd{"infeasible", ""})
		case r1 == Unsat:
			v, forced = false, true
			in.model = m0
		case r0 == Unsat:
			v, forced = true, true
			in.model = m1
		default:
			v = true
			in.model = m1
			in.push(Decision{kind: 'b', val: 0}, m0)
		}
	}
	in.prefix = append(in.prefix[:in.pos], Decision{kind: 'b', val: b2u(v), forced: forced})
	in.pos++
	if !forced {
		in.assertPC(lit(v))
	}
	in.learn(cond, v)
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// concretize fixes the value of a term on this path, scheduling all other
// feasible values.
func (in *Interp) concretize(e *Expr, why string) uint64 {
	if e.op == OpConst {
		return e.val
	}
	e = in.simp(e)
	if e.op == OpConst {
		return e.val
	}
	if in.merging != nil {
		panic(mergeAbort{})
	}
	c := in.c
	var excl []uint64
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		switch d.kind {
		case 'v':
			in.pos++
			eq := c.Eq(e, c.Const(e.w, d.val))
			if !d.forced {
				in.assertPC(eq)
			}
			in.learnEq(e, d.val)
			return d.val
		case 'x':
			excl = d.excl
			for _, x := range excl {
				in.assertPC(c.Not(c.Eq(e, c.Const(e.w, x))))
			}
			in.prefix = in.prefix[:in.pos]
		default:
			panic(fmt.Sprintf("replay divergence: value vs %c", d.kind))
		}
	}
	if !in.needModel() {
		panic(pathEnd{"unsupported", "solver gave up on " + why})
	}
	v := c.Eval(e, in.model, map[*Expr]uint64{})
	eq := c.Eq(e, c.Const(e.w, v))
	r, m := in.check(c.Not(eq))
	forced := r == Unsat
	if !forced {
		ne := append(append([]uint64(nil), excl...), v)
		if len(ne) > in.ex.maxFan() {
			in.undecided++
			in.note("more than %d values for %s", in.ex.maxFan(), why)
		} else {
			in.push(Decision{kind: 'x', excl: ne}, m)
		}
	}
	in.prefix = append(in.prefix[:in.pos], Decision{kind: 'v', val: v, forced: forced && len(excl) == 0})
	in.pos++
	if !forced {
		in.assertPC(eq)
	}
	in.learnEq(e, v)
	return v
}

func (ex *Explorer) maxFan() int { return 4096 }

func (in *Interp) note(f string, a ...any) {
	in.cur.mu.Lock()
	in.cur.stats.Unsupported[fmt.Sprintf(f, a...)]++
	in.cur.mu.Unlock()
}

func (in *Interp) learnEq(e *Expr, v uint64) {
	in.setKnown(e, in.c.Const(e.w, v))
	in.learnPieces(e, in.c.Const(e.w, v))
	in.smemo = map[*Expr]*Expr{}
}

func (in *Interp) assume(cond *Expr) {
	cond = in.simp(cond)
	if cond.op == OpConst {
		if cond.val == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if in.pos >= len(in.prefix) {
		if in.model == nil || !in.evalBool(cond) {
			r, m := in.check(cond)
			switch r {
			case Unsat:
				panic(pathEnd{"assume", ""})
			case Sat:
				in.model = m
			default:
				in.model = nil
			}
		}
	}
	in.assertPC(cond)
	in.learn(cond, true)
}

func (in *Interp) assert(cond *Expr, msg string) {
	cond = in.simp(cond)
	if in.pos < len(in.prefix) {
		// already checked by the path this one was split from
		if cond.op == OpConst {
			if cond.val == 0 {
				panic(pathEnd{"violation", msg})
			}
			return
		}
		in.assertPC(cond)
		in.learn(cond, true)
		return
	}
	in.asserts++
	if cond.IsTrue() {
		in.discharged++
		return
	}
	neg := in.c.Not(cond)
	var m Model
	r := Unsat
	if in.model != nil && !in.evalBool(cond) {
		r, m = Sat, in.model
	} else {
		r, m = in.check(neg)
	}
	switch r {
	case Unsat:
		in.discharged++
		if cond.op == OpConst {
			panic(pathEnd{"infeasible", ""})
		}
		in.assertPC(cond)
		in.learn(cond, true)
	case Sat:
		in.violation("assert", msg, m)
		if cond.op == OpConst {
			panic(pathEnd{"violation", msg})
		}
		// continue with the executions that satisfy the assertion
		r2, m2 := in.check(cond)
		if r2 == Unsat {
			panic(pathEnd{"violation", msg})
		}
		in.model = m2
		in.assertPC(cond)
		in.learn(cond, true)
	default:
		in.undecided++
		in.assertPC(cond)
		in.learn(cond, true)
		in.model = nil
	}
}

func (in *Interp) inputVals(m Model) ([]uint64, []string) {
	vals := make([]uint64, len(in.inputs))
	names := make([]string, len(in.inputs))
	memo := map[*Expr]uint64{}
	for i, iv := range in.inputs {
		vals[i] = in.c.Eval(iv.e, m, memo)
		names[i] = iv.name
	}
	return vals, names
}

func (in *Interp) violation(kind, msg string, m Model) {
	vals, names := in.inputVals(m)
	in.recordCandidate(&candidate{harness: in.cur.name, kind: kind, msg: msg, inputs: vals, names: names})
}

func (in *Interp) recordCandidate(cd *candidate) {
	in.cur.mu.Lock()
	defer in.cur.mu.Unlock()
	in.recordLocked(cd)
}

func (in *Interp) recordLocked(cd *candidate) {
	st := &in.cur.stats
	k := cd.kind + ":" + cd.msg
	st.violKeys[k]++
	if st.violKeys[k] <= 6 {
		st.viols = append(st.viols, cd)
	}
}

// addCandidate is called with the harness lock held, after the path ended.
func (in *Interp) addCandidate(h *harness, kind, msg string) {
	k := kind + ":" + msg
	if h.stats.violKeys[k] >= 6 {
		h.stats.violKeys[k]++
		return
	}
	if in.pos < len(in.prefix) {
		return
	}
	if in.model == nil {
		r, m := in.s.Check(in.pc, nil, in.pcVars)
		if r == Unsat {
			h.stats.Infeasible++
			return
		}
		in.model = m
	}
	vals, names := in.inputVals(in.model)
	in.recordLocked(&candidate{harness: h.name, kind: kind, msg: msg, inputs: vals, names: names})
}

var maxWitness = 24

func (in *Interp) addWitness(h *harness, outcome string) {
	if in.model == nil {
		if len(h.stats.witnesses) >= maxWitness {
			return
		}
		r, m := in.s.Check(in.pc, nil, in.pcVars)
		if r != Sat {
			if r == Unsat && outcome == "ok" {
				h.stats.Completed--
				h.stats.Infeasible++
			}
			return
		}
		in.model = m
	}
	w := &witness{harness: h.name, outcome: outcome}
	if len(h.stats.witnesses) >= maxWitness {
		// deterministic-ish reservoir: keep early and late paths
		if h.stats.Completed&(h.stats.Completed-1) != 0 {
			return
		}
		h.stats.witnesses = h.stats.witnesses[:maxWitness-1]
	}
	w.inputs, _ = in.inputVals(in.model)
	memo := map[*Expr]uint64{}
	for _, o := range in.observes {
		if o.e.hasApp {
			continue
		}
		w.observes = append(w.observes, obsVal{o.name, in.c.Eval(o.e, in.model, memo)})
	}
	h.stats.witnesses = append(h.stats.witnesses, w)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func trimMsg(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}
