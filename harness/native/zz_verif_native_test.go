package nanomux

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"
	"time"
)

type zzRun struct {
	Harness string    `json:"harness"`
	Inputs  []zzInput `json:"inputs"`
	Repeat  int       `json:"repeat"`
	Timeout int       `json:"timeout_ms"`
}

type zzResult struct {
	Status string    `json:"status"` // ok, assume, violation, panic, hang, mismatch
	Msg    string    `json:"msg"`
	Obs    []zzInput `json:"obs"`
}

func zzRunOne(r zzRun) (res zzResult) {
	f := zzHarnesses[r.Harness]
	if f == nil {
		return zzResult{Status: "mismatch", Msg: "no harness " + r.Harness}
	}
	zzState.in, zzState.pos, zzState.obs, zzState.violated, zzState.mismatch = r.Inputs, 0, nil, "", ""
	done := make(chan zzResult, 1)
	go func() {
		var res zzResult
		defer func() {
			p := recover()
			res.Obs = zzState.obs
			switch {
			case zzState.violated != "":
				res.Status, res.Msg = "violation", zzState.violated
			case zzState.mismatch != "":
				res.Status, res.Msg = "mismatch", zzState.mismatch
			case p == nil:
				res.Status = "ok"
			default:
				if s, ok := p.(zzStop); ok {
					res.Status, res.Msg = "assume", s.why
				} else {
					res.Status, res.Msg = "panic", fmt.Sprint(p)
				}
			}
			done <- res
		}()
		f()
	}()
	t := time.Duration(r.Timeout) * time.Millisecond
	if t == 0 {
		t = 60 * time.Second
	}
	select {
	case res = <-done:
	case <-time.After(t):
		res = zzResult{Status: "hang", Msg: "no answer within " + t.String()}
	}
	return
}

func TestZZReplay(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("ZZ_REPLAY"))
	if err != nil {
		t.Skip("no replay file")
	}
	var runs []zzRun
	if err := json.Unmarshal(b, &runs); err != nil {
		t.Fatal(err)
	}
	var out []zzResult
	for _, r := range runs {
		n := r.Repeat
		if n < 1 {
			n = 1
		}
		var res zzResult
		for i := 0; i < n; i++ {
			res = zzRunOne(r)
			if res.Status == "violation" || res.Status == "panic" || res.Status == "hang" {
				break
			}
		}
		out = append(out, res)
		if res.Status == "hang" {
			break
		}
	}
	ob, _ := json.Marshal(out)
	if p := os.Getenv("ZZ_OUT"); p != "" {
		if err := os.WriteFile(p, ob, 0o644); err != nil {
			t.Fatal(err)
		}
	} else {
		fmt.Println(string(ob))
	}
	for i, r := range out {
		if r.Status == "violation" || r.Status == "panic" || r.Status == "hang" {
			t.Errorf("run %d: %s: %s", i, r.Status, r.Msg)
		}
	}
}
