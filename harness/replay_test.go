package mls

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"testing"
)

type vfVec struct {
	Harness string   `json:"harness"`
	Inputs  []uint64 `json:"inputs"`
	Tier    string   `json:"tier"`
}

type vfRes struct {
	Outcome  string  `json:"outcome"`
	Msg      string  `json:"msg"`
	Observes []vfObs `json:"observes"`
}

func vfRunOne(v vfVec) (res vfRes) {
	f, ok := vfRegistry[v.Harness]
	if !ok {
		return vfRes{Outcome: "missing"}
	}
	vfDelta = 0
	vfCur = &vfState{inputs: v.Inputs, thorough: v.Tier == "thorough"}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case vfSkip:
				res = vfRes{Outcome: "assume"}
			case vfFail:
				res = vfRes{Outcome: "fail", Msg: r.msg}
			default:
				res = vfRes{Outcome: "panic", Msg: fmt.Sprint(r) + "\n" + strings.Join(strings.Split(string(debug.Stack()), "\n")[:], "\n")}
			}
		}
		res.Observes = vfCur.obs
	}()
	f()
	vfAllocCheck()
	return vfRes{Outcome: "ok"}
}

func TestVFReplay(t *testing.T) {
	in := os.Getenv("VF_REPLAY_IN")
	if in == "" {
		t.Skip()
	}
	b, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	var vecs []vfVec
	if err := json.Unmarshal(b, &vecs); err != nil {
		t.Fatal(err)
	}
	out, err := os.Create(os.Getenv("VF_REPLAY_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	for _, v := range vecs {
		r, _ := json.Marshal(vfRunOne(v))
		fmt.Fprintf(out, "%s\n", r)
	}
}
