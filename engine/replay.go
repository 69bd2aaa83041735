package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Native replay: the harness is compiled into the package's test binary with
// the ordinary toolchain and run on concrete inputs.

type replayVec struct {
	Harness string   `json:"harness"`
	Inputs  []uint64 `json:"inputs"`
	Names   []string `json:"names,omitempty"`
	Tier    string   `json:"tier"`
}

type replayRes struct {
	Outcome  string   `json:"outcome"` // ok, assume, fail, panic, missing, crash, hang
	Msg      string   `json:"msg"`
	Observes []obsVal `json:"observes"`
}

type native struct {
	bin  string
	dir  string
	repo string
}

func buildNative(repo, work string, o *overlay, names []string) (*native, error) {
	repl := map[string]string{}
	i := 0
	for path, src := range o.files {
		f := filepath.Join(work, fmt.Sprintf("h%d_%s", i, filepath.Base(path)))
		i++
		if err := os.WriteFile(f, src, 0o644); err != nil {
			return nil, err
		}
		repl[path] = f
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString("package mls\n\nvar vfRegistry = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: %s,\n", n, n)
	}
	sb.WriteString("}\n")
	reg := filepath.Join(work, "registry.go")
	if err := os.WriteFile(reg, []byte(sb.String()), 0o644); err != nil {
		return nil, err
	}
	repl[filepath.Join(repo, "zz_vf_registry_test.go")] = reg
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	ovf := filepath.Join(work, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return nil, err
	}
	n := &native{bin: filepath.Join(work, "replay.test"), dir: work, repo: repo}
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", n.bin, ".")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("native harness does not build: %v\n%s", err, out)
	}
	return n, nil
}

// run executes vectors in one process; results stop at a crash or hang.
func (n *native) run(vecs []replayVec, timeout time.Duration) []replayRes {
	if len(vecs) == 0 {
		return nil
	}
	in, err := os.CreateTemp(n.dir, "vec*.json")
	if err != nil {
		return nil
	}
	b, _ := json.Marshal(vecs)
	in.Write(b)
	in.Close()
	outf := in.Name() + ".out"
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin, "-test.run", "^TestVFReplay$")
	cmd.Dir = n.repo
	cmd.Env = append(os.Environ(), "VF_REPLAY_IN="+in.Name(), "VF_REPLAY_OUT="+outf, "GOMEMLIMIT=6GiB")
	out, err := cmd.CombinedOutput()
	var res []replayRes
	if rb, e := os.ReadFile(outf); e == nil {
		for _, l := range strings.Split(string(rb), "\n") {
			if l == "" {
				continue
			}
			var r replayRes
			if json.Unmarshal([]byte(l), &r) == nil {
				res = append(res, r)
			}
		}
	}
	os.Remove(in.Name())
	os.Remove(outf)
	if len(res) < len(vecs) {
		r := replayRes{Outcome: "crash", Msg: lastLines(string(out))}
		if ctx.Err() != nil {
			r = replayRes{Outcome: "hang", Msg: fmt.Sprintf("no result after %v", timeout)}
		}
		res = append(res, r)
	}
	return res
}

func lastLines(s string) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	for i, l := range ls {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") {
			return strings.Join(ls[i:min(i+3, len(ls))], " | ")
		}
	}
	if len(ls) > 3 {
		ls = ls[len(ls)-3:]
	}
	return strings.Join(ls, " | ")
}

// confirm replays a candidate violation and tells whether the real code fails.
func (n *native) confirm(cd *candidate, tier string) (replayRes, bool) {
	to := 60 * time.Second
	if cd.kind == "hang" {
		to = 20 * time.Second
	}
	v := []replayVec{{Harness: cd.harness, Inputs: cd.inputs, Names: cd.names, Tier: tier}}
	var last replayRes
	for try := 0; try < 8; try++ {
		rs := n.run(v, to)
		if len(rs) == 0 {
			continue
		}
		last = rs[0]
		switch last.Outcome {
		case "fail", "panic", "crash", "hang":
			return last, true
		}
	}
	return last, false
}
