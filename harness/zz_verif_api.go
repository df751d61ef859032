package nanomux

// The verification API used by the harnesses. The symbolic engine intercepts
// every function of this file; the bodies below are the native meaning, used
// when a concrete run (a replay or a translation check) executes a harness.

import (
	"encoding/hex"
	"fmt"
	"os"
	"strings"
	"sync"
)

type zzInput struct {
	K string `json:"k"`
	N string `json:"n"`
	V int64  `json:"v"`
	S string `json:"s,omitempty"`
}

var zzState struct {
	mu       sync.Mutex
	in       []zzInput
	pos      int
	obs      []zzInput
	violated string
	mismatch string
}

type zzStop struct{ why string }

func zzNext(kind, name string) zzInput {
	if zzState.pos >= len(zzState.in) {
		panic(zzStop{"inputs exhausted"})
	}
	x := zzState.in[zzState.pos]
	zzState.pos++
	if x.K != kind || x.N != name {
		zzState.mismatch = fmt.Sprintf("input %d: have %s %s, want %s %s", zzState.pos-1, x.K, x.N, kind, name)
		panic(zzStop{zzState.mismatch})
	}
	return x
}

func zzStrOf(x zzInput) string {
	b, err := hex.DecodeString(x.S)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// zzStr is an arbitrary string of min to max bytes.
func zzStr(name string, min, max int) string { return zzStrOf(zzNext("str", name)) }

// zzStrIn is an arbitrary string of min to max bytes of the alphabet.
func zzStrIn(name, alphabet string, min, max int) string {
	var s = zzStrOf(zzNext("str", name))
	zzAssume(min <= len(s) && len(s) <= max)
	for i := 0; i < len(s); i++ {
		zzAssume(strings.IndexByte(alphabet, s[i]) >= 0)
	}

	return s
}

func zzInt(name string, lo, hi int) int {
	var i = int(zzNext("int", name).V)
	zzAssume(lo <= i && i <= hi)
	return i
}

func zzByte(name string) byte { return byte(zzNext("byte", name).V) }
func zzBool(name string) bool { return zzNext("bool", name).V != 0 }

// zzPick is an arbitrary number in [0,n), one path each.
func zzPick(name string, n int) int {
	var i = int(zzNext("pick", name).V)
	zzAssume(0 <= i && i < n)
	return i
}

func zzAssume(c bool) {
	if !c {
		panic(zzStop{"assumption"})
	}
}

func zzAssert(c bool, msg string) {
	if !c {
		zzFail(msg)
	}
}

func zzFail(msg string) {
	zzState.mu.Lock()
	if zzState.violated == "" {
		zzState.violated = msg
	}
	zzState.mu.Unlock()
	panic(zzStop{"violation: " + msg})
}

func zzObs(x zzInput) {
	zzState.mu.Lock()
	zzState.obs = append(zzState.obs, x)
	zzState.mu.Unlock()
}

func zzObsStr(name, v string)     { zzObs(zzInput{K: "str", N: name, S: hex.EncodeToString([]byte(v))}) }
func zzObsInt(name string, v int) { zzObs(zzInput{K: "int", N: name, V: int64(v)}) }
func zzObsBool(name string, v bool) {
	var n int64
	if v {
		n = 1
	}
	zzObs(zzInput{K: "bool", N: name, V: n})
}

func zzCover(name string)          {}
func zzNative() bool               { return true }
func zzMapNondet(on bool)          {}
func zzPoolMonitor(on bool)        {}
func zzConcretize(s string) string { return s }

// zzOnce is f(), which may be reused for the same key. f has no inputs and changes
// no global state.
func zzOnce(key string, f func() interface{}) interface{} { return f() }

func zzAnd(a, b bool) bool { return a && b }
func zzOr(a, b bool) bool  { return a || b }
func zzIte(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func zzTier() int {
	if os.Getenv("ZZ_TIER") == "thorough" {
		return 1
	}
	return 0
}

// zzConcurrent runs f twice; in race replays many times in parallel.
func zzConcurrent(f func()) {
	if os.Getenv("ZZ_RACE") == "" {
		f()
		f()
		return
	}
	var wg sync.WaitGroup
	var once sync.Once
	var first interface{}
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					once.Do(func() { first = r })
				}
			}()
			for i := 0; i < 300; i++ {
				f()
			}
		}()
	}
	wg.Wait()
	if first != nil {
		panic(first)
	}
}
