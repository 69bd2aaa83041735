// Command gosym decides assertions about the Go package in /repo by symbolic
// execution of its SSA form with an SMT solver.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	root := flag.String("root", ".", "verification directory")
	only := flag.String("only", "", "only harnesses containing this text")
	solver := flag.String("solver", "z3-new", "SMT solver")
	solverMS := flag.Int("solver-timeout", 20000, "per-query limit (ms)")
	workers := flag.Int("j", min(8, runtime.NumCPU()), "workers")
	budget := flag.Duration("budget", 0, "time limit of the exploration")
	maxSteps := flag.Int64("steps", 3000000, "instruction limit per path")
	maxPaths := flag.Int64("paths", 2000000, "path limit per harness")
	verbose := flag.Bool("v", false, "log every path")
	replay := flag.String("replay", "", "replay a recorded violation")
	first := flag.Bool("first", false, "stop exploring soon after the first candidate violation")
	flag.IntVar(&maxWitness, "witnesses", maxWitness, "paths per harness compared with the compiled code")
	vectors := flag.String("vectors", "", "write the inputs of those paths to a file")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	debug.SetGCPercent(100)
	debug.SetMemoryLimit(10 << 30)
	if *tier == "" {
		*tier = "quick"
	}
	if *budget == 0 {
		*budget = 240 * time.Second
		if *tier == "thorough" {
			*budget = 780 * time.Second
		}
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	abs, _ := filepath.Abs(*root)
	r := &runner{prop: *prop, tier: *tier, repo: *repo, root: abs, only: *only, vectors: *vectors, seed: seed, t0: time.Now(), verbose: *verbose}
	var code int
	if *replay != "" {
		code = r.replayFile(*replay)
	} else {
		ex := &Explorer{tier: *tier, seed: seed, solver: *solver, timeoutMS: *solverMS, maxSteps: *maxSteps, maxPaths: *maxPaths, deadline: r.t0.Add(*budget), verbose: *verbose, first: *first}
		code = r.run(ex, *workers)
	}
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

type runner struct {
	prop, tier, repo, root, only, vectors string
	seed                                  int64
	t0                                    time.Time
	verbose                               bool
}

func (r *runner) fail(err error) int {
	fmt.Fprintf(os.Stderr, "%s: %v\n", r.prop, err)
	return 2
}

func (r *runner) workDir() (string, error) {
	w := filepath.Join(r.root, "work")
	if err := os.MkdirAll(w, 0o755); err != nil {
		return "", err
	}
	return os.MkdirTemp(w, r.prop+"-")
}

func (r *runner) run(ex *Explorer, workers int) int {
	o, err := readOverlay(r.repo, filepath.Join(r.root, "harness"))
	if err != nil {
		return r.fail(err)
	}
	p, err := load(r.repo, o)
	if err != nil {
		return r.fail(err)
	}
	ex.p = p
	hs := p.harnesses(r.prop, r.only)
	if len(hs) == 0 {
		return r.fail(fmt.Errorf("no harness for %s fits the source (%s)", r.prop, strings.Join(o.dropped, "; ")))
	}
	work, err := r.workDir()
	if err != nil {
		return r.fail(err)
	}
	defer os.RemoveAll(work)
	type nres struct {
		n   *native
		err error
	}
	nch := make(chan nres, 1)
	var names []string
	for _, h := range hs {
		names = append(names, h.name)
	}
	go func() {
		n, err := buildNative(r.repo, work, o, names)
		nch <- nres{n, err}
	}()
	ex.Run(hs, workers)
	nr := <-nch
	if ex.fatal != nil {
		return r.fail(ex.fatal)
	}
	if nr.err != nil {
		return r.fail(nr.err)
	}
	return r.report(ex, hs, o, nr.n)
}

type harnessReport struct {
	Harness     string           `json:"harness"`
	Paths       int64            `json:"paths"`
	Completed   int64            `json:"completed_paths"`
	Infeasible  int64            `json:"infeasible_paths"`
	Asserts     int64            `json:"assertions_checked"`
	Discharged  int64            `json:"assertions_discharged"`
	Undecided   int64            `json:"undecided"`
	Remaining   int64            `json:"unexplored_branches"`
	Truncated   int64            `json:"truncated_paths"`
	Unsupported map[string]int64 `json:"unsupported,omitempty"`
	Reached     map[string]int64 `json:"reached,omitempty"`
	WallS       float64          `json:"wall_s"`
}

func (r *runner) report(ex *Explorer, hs []*harness, o *overlay, n *native) int {
	known := loadKnown(filepath.Join(r.root, "known_findings.txt"), r.prop)
	var reps []harnessReport
	var states, trans, asserts, discharged int64
	fns := map[string]bool{}
	exhaustive := len(o.dropped) == 0
	var unconfirmed []string
	violations := 0
	validated := 0
	var mismatches []string
	var samples []any
	completed := int64(0)
	repDir := filepath.Join(r.root, "evidence", "replays")
	os.MkdirAll(repDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(repDir, r.prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	var knownSeen []string
	var allVecs []replayVec
	for _, h := range hs {
		st := &h.stats
		reps = append(reps, harnessReport{h.name, st.Paths, st.Completed, st.Infeasible, st.Asserts, st.Discharged, st.Undecided, st.Remaining, st.Truncated, st.Unsupported, st.Reached, st.wall.Seconds()})
		states += st.Paths
		trans += st.Steps
		asserts += st.Asserts
		discharged += st.Discharged
		completed += st.Completed
		if st.Remaining > 0 || st.Undecided > 0 || len(st.Unsupported) > 0 || st.Truncated > 0 {
			exhaustive = false
		}
		for f := range st.fns {
			if f.Pkg != nil && f.Pkg == ex.p.main && !strings.HasPrefix(f.Name(), "vf") && f.Parent() == nil {
				fns[shortName(f)] = true
			}
		}
		// candidate violations
		confirmedKeys := map[string]bool{}
		tried := 0
		for _, cd := range st.viols {
			key := cd.kind + ":" + cd.msg
			if confirmedKeys[key] || tried > 40 {
				continue
			}
			tried++
			res, ok := n.confirm(cd, r.tier)
			if !ok {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s %s %q (native: %s %s)", h.name, cd.kind, trimMsg(cd.msg), res.Outcome, trimMsg(res.Msg)))
				continue
			}
			confirmedKeys[key] = true
			if k := known.match(h.name, cd); k != "" {
				knownSeen = append(knownSeen, k)
				continue
			}
			violations++
			path := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", r.prop, violations))
			rec := map[string]any{
				"property": r.prop, "harness": cd.harness, "kind": cd.kind, "assertion": cd.msg,
				"inputs": cd.inputs, "names": cd.names, "tier": r.tier,
				"native_outcome": res.Outcome, "native_message": res.Msg,
				"rerun": "cd /verif && bin/gosym -replay " + path,
			}
			b, _ := json.MarshalIndent(rec, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, path)
			fmt.Printf("  %s: %s %s; native run: %s %s\n", cd.harness, cd.kind, trimMsg(cd.msg), res.Outcome, trimMsg(res.Msg))
		}
		// path witnesses against the compiled code
		var vecs []replayVec
		for _, w := range st.witnesses {
			vecs = append(vecs, replayVec{Harness: h.name, Inputs: w.inputs, Tier: r.tier})
		}
		allVecs = append(allVecs, vecs...)
		res := n.run(vecs, 120*time.Second)
		for i, w := range st.witnesses {
			if i >= len(res) {
				break
			}
			if d := compare(w, res[i]); d != "" {
				mismatches = append(mismatches, fmt.Sprintf("%s: %s inputs=%v", h.name, d, clip(w.inputs)))
				// a completed path predicted to be fine that fails for real
				// is a violation in its own right
				if res[i].Outcome == "fail" || res[i].Outcome == "panic" || res[i].Outcome == "crash" || res[i].Outcome == "hang" {
					cd := &candidate{harness: h.name, kind: "native-" + res[i].Outcome, msg: res[i].Msg, inputs: w.inputs}
					res2, ok := n.confirm(cd, r.tier)
					key := cd.kind + ":" + cd.msg
					if ok && !confirmedKeys[key] {
						confirmedKeys[key] = true
						if k := known.match(h.name, cd); k != "" {
							knownSeen = append(knownSeen, k)
							continue
						}
						violations++
						path := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", r.prop, violations))
						b, _ := json.MarshalIndent(map[string]any{"property": r.prop, "harness": h.name, "kind": cd.kind, "inputs": w.inputs, "tier": r.tier, "native_outcome": res2.Outcome, "native_message": res2.Msg}, "", " ")
						os.WriteFile(path, b, 0o644)
						fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, path)
						fmt.Printf("  %s: native run of a path witness: %s %s\n", h.name, res2.Outcome, trimMsg(res2.Msg))
					}
				}
				continue
			}
			if w.outcome == "unsupported" {
				continue
			}
			validated++
			if len(samples) < 6 && (i == len(res)-1 || i == 0) {
				samples = append(samples, map[string]any{"harness": h.name, "inputs": clip(w.inputs), "observed": w.observes})
			}
		}
	}
	sort.Strings(knownSeen)
	for i, k := range knownSeen {
		if i > 0 && knownSeen[i-1] == k {
			continue
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, k)
	}
	if r.vectors != "" {
		b, _ := json.Marshal(allVecs)
		if err := os.WriteFile(r.vectors, b, 0o644); err != nil {
			return r.fail(err)
		}
	}
	if samples == nil {
		samples = []any{}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var bounds string
	if b, err := os.ReadFile(filepath.Join(r.root, "bounds.json")); err == nil {
		var m map[string]string
		if json.Unmarshal(b, &m) == nil {
			bounds = m[r.prop]
		}
	}
	cov := map[string]any{
		"states":                        states,
		"transitions":                   trans,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"completed_paths":               completed,
		"assertions":                    asserts,
		"assertions_discharged":         discharged,
		"solver_queries":                ex.Queries,
		"solver_unknown":                ex.Unknowns,
		"solver_seconds":                round2(ex.SolverT.Seconds()),
		"solver":                        ex.solver,
		"functions_encoded":             fl,
		"harnesses":                     reps,
		"bounds":                        bounds,
		"exhaustive":                    exhaustive,
	}
	if len(o.dropped) > 0 {
		cov["harness_declarations_not_applicable_to_this_source"] = o.dropped
	}
	if len(unconfirmed) > 0 {
		cov["unconfirmed_candidates"] = unconfirmed
	}
	if len(mismatches) > 0 {
		cov["witness_mismatches"] = mismatches
	}
	ev := map[string]any{
		"property": r.prop, "tier": r.tier, "seed": r.seed, "level": "model_checking",
		"coverage": cov, "wall_s": round2(time.Since(r.t0).Seconds()), "violations": violations,
		"assumptions": assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(r.root, "evidence", r.prop+".json"), append(b, '\n'), 0o644); err != nil {
		return r.fail(err)
	}
	for _, u := range unconfirmed {
		fmt.Printf("note: unconfirmed %s\n", u)
	}
	for _, m := range mismatches {
		fmt.Printf("note: mismatch %s\n", m)
	}
	for _, d := range o.dropped {
		fmt.Printf("note: not applicable: %s\n", d)
	}
	for _, h := range reps {
		fmt.Printf("%s: paths=%d completed=%d asserts=%d/%d undecided=%d remaining=%d truncated=%d unsupported=%v reached=%v wall=%.1fs\n", h.Harness, h.Paths, h.Completed, h.Discharged, h.Asserts, h.Undecided, h.Remaining, h.Truncated, h.Unsupported, h.Reached, h.WallS)
	}
	fmt.Printf("%s %s: paths=%d queries=%d solver=%.1fs validated=%d violations=%d wall=%.1fs\n", r.prop, r.tier, states, ex.Queries, ex.SolverT.Seconds(), validated, violations, time.Since(r.t0).Seconds())
	if violations > 0 {
		return 1
	}
	if completed == 0 {
		return r.fail(fmt.Errorf("no path of any harness completed"))
	}
	return 0
}

var assumptions = []string{
	"cryptographic primitives are ideal: hashes, MACs, KDFs and key derivations are injective and collide with nothing else; signatures, AEAD and HPKE accept exactly what was produced with the matching key",
	"the Go compiler, the standard library and golang.org/x/crypto/cryptobyte behave as their source; golang.org/x/tools SSA is faithful; the SMT solver is sound",
	"inputs lie within the stated bounds; map iteration follows insertion order, and in C15 and C17 also other orders",
}

func compare(w *witness, r replayRes) string {
	if w.outcome == "unsupported" && (r.Outcome == "ok" || r.Outcome == "assume" || r.Outcome == "missing") {
		return ""
	}
	if w.outcome == "unsupported" {
		return fmt.Sprintf("path not followed to its end, native run: %s %s", r.Outcome, trimMsg(r.Msg))
	}
	if r.Outcome != "ok" {
		return fmt.Sprintf("symbolic path completes, native run: %s %s", r.Outcome, trimMsg(r.Msg))
	}
	nat := map[string][]uint64{}
	for _, o := range r.Observes {
		nat[o.Name] = append(nat[o.Name], o.Val)
	}
	for _, o := range w.observes {
		vs := nat[o.Name]
		if len(vs) == 0 {
			return fmt.Sprintf("observation %s missing natively", o.Name)
		}
		if vs[0] != o.Val {
			return fmt.Sprintf("observation %s: symbolic %d native %d", o.Name, o.Val, vs[0])
		}
		nat[o.Name] = vs[1:]
	}
	return ""
}

func clip(v []uint64) []uint64 {
	if len(v) > 80 {
		return v[:80]
	}
	return v
}

func round2(f float64) float64 { return float64(int64(f*100)) / 100 }

type knownFindings []map[string]string

// loadKnown reads lines `known: property=<id> harness=<name> assertion=<text>; <what fails>`.
func loadKnown(path, prop string) knownFindings {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks knownFindings
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+prop+" ")
		head, what, ok := strings.Cut(rest, "; ")
		if !ok {
			continue
		}
		hn, msg, ok := strings.Cut(strings.TrimPrefix(head, "harness="), " assertion=")
		if !ok {
			continue
		}
		ks = append(ks, map[string]string{"harness": hn, "msg": msg, "what": what})
	}
	return ks
}

func (ks knownFindings) match(h string, cd *candidate) string {
	for _, k := range ks {
		if k["harness"] == h && k["msg"] == cd.msg {
			return k["what"]
		}
	}
	return ""
}

func (r *runner) replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		return r.fail(err)
	}
	var rec struct {
		Property, Harness, Kind, Tier string
		Inputs                        []uint64
	}
	if err := json.Unmarshal(b, &rec); err != nil {
		return r.fail(err)
	}
	r.prop = rec.Property
	o, err := readOverlay(r.repo, filepath.Join(r.root, "harness"))
	if err != nil {
		return r.fail(err)
	}
	if _, err := load(r.repo, o); err != nil {
		return r.fail(err)
	}
	work, err := r.workDir()
	if err != nil {
		return r.fail(err)
	}
	defer os.RemoveAll(work)
	n, err := buildNative(r.repo, work, o, []string{rec.Harness})
	if err != nil {
		return r.fail(err)
	}
	res, ok := n.confirm(&candidate{harness: rec.Harness, kind: rec.Kind, inputs: rec.Inputs}, rec.Tier)
	fmt.Printf("%s: %s %s\n", rec.Harness, res.Outcome, res.Msg)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rec.Property, path)
		return 1
	}
	return 0
}
