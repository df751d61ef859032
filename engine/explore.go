package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	prefix []Decision
	model  []uint64
}

type outcome uint8

const (
	outOK outcome = iota
	outAssume
	outUnsupported
	outSteps
	outUnknown
	outViolation
	outDeadline
	outInfeasible
)

// Sample is one completed path's concrete witness.
type Sample struct {
	Inputs   []ReplayInput `json:"inputs"`
	Observed []ReplayInput `json:"observed"`
}

type HarnessResult struct {
	Name        string
	Bounds      string
	Paths       int64
	Dead        int64 // paths ended by an infeasible assumption
	Decisions   int64
	Asserts     int64
	AssertQ     int64
	Unsupported map[string]int64
	Unknown     int64
	Leftover    int // queue entries not explored (budget)
	Violations  []*violationRec
	StepPaths   []*violationRec
	Samples     []Sample
	Covered     map[string]bool
	Labels      []string
	Steps       int64
	Wall        float64
	Mismatch    int
	Validated   int
}

func (r *HarnessResult) complete() bool {
	return r.Leftover == 0 && len(r.Unsupported) == 0 && r.Unknown == 0 && len(r.StepPaths) == 0 && r.Paths > 0
}

type Explorer struct {
	fn       *ssa.Function
	workers  []*Interp
	deadline time.Time
	maxPaths int64
	maxSteps int64
	nsamples int
	rng      *rand.Rand

	mu     sync.Mutex
	cond   *sync.Cond
	queue  []workItem
	active int
	stop   bool
	pops   int
	rand   uint64
	seenV  map[string]bool
	okSeen int64
	known  func(v *violationRec) bool
	res    *HarnessResult
}

func zzLabels(fn *ssa.Function) []string {
	set := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil && s.Name() == "zzCover" {
						if k, ok := c.Common().Args[0].(*ssa.Const); ok {
							set[strings.Trim(k.Value.ExactString(), `"`)] = true
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// resume goes on with an exploration that ran out of its time.
func (e *Explorer) resume(deadline time.Time) {
	e.deadline, e.stop, e.active = deadline, false, 0
	e.explore()
}

// unfinished tells whether only time kept the exploration from finishing.
func (e *Explorer) unfinished() bool {
	return len(e.queue) > 0 && len(e.res.Violations) == 0 && e.res.Paths < e.maxPaths
}

func (e *Explorer) run() *HarnessResult {
	e.cond = sync.NewCond(&e.mu)
	e.res = &HarnessResult{Name: e.fn.Name(), Unsupported: map[string]int64{}, Covered: map[string]bool{}, Labels: zzLabels(e.fn)}
	e.seenV = map[string]bool{}
	e.queue = []workItem{{}}
	e.explore()
	return e.res
}

func (e *Explorer) explore() {
	t0 := time.Now()
	var wg sync.WaitGroup
	for _, in := range e.workers {
		wg.Add(1)
		go func(in *Interp) {
			defer wg.Done()
			e.worker(in)
		}(in)
	}
	wg.Wait()
	e.res.Leftover = len(e.queue)
	e.res.Wall += time.Since(t0).Seconds()
}

func (e *Explorer) worker(in *Interp) {
	in.spawn = func(dec []Decision, model []uint64) {
		e.mu.Lock()
		e.queue = append(e.queue, workItem{dec, model})
		e.mu.Unlock()
		e.cond.Signal()
	}
	in.deadline = func() bool { return time.Now().After(e.deadline) || e.stop }
	for {
		e.mu.Lock()
		for len(e.queue) == 0 && e.active > 0 && !e.stop {
			e.cond.Wait()
		}
		if e.stop || len(e.queue) == 0 {
			e.mu.Unlock()
			e.cond.Broadcast()
			return
		}
		if time.Now().After(e.deadline) || e.res.Paths >= e.maxPaths {
			e.stop = true
			e.mu.Unlock()
			e.cond.Broadcast()
			return
		}
		// Mostly depth first, which keeps the queue short. Now and then any
		// item, so that an unfinished exploration has been everywhere.
		last := len(e.queue) - 1
		if e.pops++; e.pops%4 == 0 && last < 100_000 {
			e.rand = e.rand*6364136223846793005 + 1442695040888963407
			i := int(e.rand>>33) % len(e.queue)
			e.queue[i], e.queue[last] = e.queue[last], e.queue[i]
		}
		it := e.queue[last]
		e.queue = e.queue[:last]
		e.active++
		e.mu.Unlock()

		out, msg := in.runPath(e.fn, it, e.maxSteps)

		e.mu.Lock()
		e.active--
		e.record(in, it, out, msg)
		e.mu.Unlock()
		e.cond.Broadcast()
	}
}

func (e *Explorer) record(in *Interp, it workItem, out outcome, msg string) {
	r := e.res
	r.Steps += in.steps
	r.Asserts += in.asserts
	r.AssertQ += in.assertsQ
	r.Decisions += int64(len(in.decisions) - len(it.prefix))
	for k := range in.covered {
		r.Covered[k] = true
	}
	if in.inconcl != "" {
		r.Unknown++
		if os.Getenv("ZZ_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "inconclusive:", in.inconcl)
		}
	}
	switch out {
	case outOK:
		r.Paths++
		if len(in.opaque) == 0 && e.nsamples > 0 {
			e.okSeen++
			i := -1
			if len(r.Samples) < e.nsamples {
				r.Samples = append(r.Samples, Sample{})
				i = len(r.Samples) - 1
			} else if j := e.rng.Int63n(e.okSeen); j < int64(e.nsamples) {
				i = int(j)
			}
			if i >= 0 {
				r.Samples[i] = Sample{in.replayInputs(in.model), in.evalObserved()}
			}
		}
	case outAssume, outInfeasible:
		r.Dead++
	case outUnsupported:
		r.Unsupported[msg]++
	case outUnknown:
		r.Unknown++
	case outDeadline:
		// It goes on from its last decision when there is time left. The model
		// is that of the whole prefix, so a path that was interrupted within
		// the prefix starts again with all of it.
		if in.pos > len(it.prefix) {
			it = workItem{
				append([]Decision(nil), in.decisions...),
				append([]uint64(nil), in.model...),
			}
		}
		e.queue = append(e.queue, it)
	case outSteps:
		r.Paths++
		if len(r.StepPaths) < 3 {
			r.StepPaths = append(r.StepPaths, &violationRec{Msg: msg, Kind: "steps", inputs: in.replayInputs(in.model)})
		}
	case outViolation:
		r.Paths++
		if v := in.violation; v != nil {
			key := v.Kind + v.Msg
			if !e.seenV[key] {
				e.seenV[key] = true
				r.Violations = append(r.Violations, v)
			} else if len(r.Violations) < 12 {
				r.Violations = append(r.Violations, v)
			}
			n := 0
			for _, v := range r.Violations {
				if e.known == nil || !e.known(v) {
					n++
				}
			}
			if n >= 4 {
				e.stop = true
			}
		}
	}
}

func (in *Interp) evalObserved() []ReplayInput {
	var out []ReplayInput
	for _, o := range in.observed {
		x := ReplayInput{K: o.kind, N: o.name}
		switch o.kind {
		case "str":
			x.S = fmt.Sprintf("%x", in.evalStr(o.v.str(), in.model))
		case "bool":
			x.V = int64(in.tc.Eval(in.term(o.v, 0), in.model))
		default:
			x.V = int64(in.tc.Eval(in.term(o.v, 64), in.model))
		}
		out = append(out, x)
	}
	return out
}

func (in *Interp) resetPath(it workItem) {
	in.rollback()
	for _, o := range in.pooledObj {
		o.pooled = false
	}
	in.pooledObj = in.pooledObj[:0]
	in.pools = map[*Obj][]Val{}
	in.prefix = append([]Decision(nil), it.prefix...)
	in.model = append([]uint64(nil), it.model...)
	in.decisions = nil
	in.pos, in.nvars = 0, 0
	in.pc = nil
	in.pcSet = map[int32]bool{}
	in.inputs, in.observed = nil, nil
	in.covered = map[string]bool{}
	in.mapNondet = false
	in.inconcl = ""
	in.violation = nil
	in.asserts, in.assertsQ = 0, 0
	in.opaque = nil
	in.mon = monitors{}
	in.frozen = 0
	in.locks, in.inLazy = 0, 0
	in.top, in.depth, in.steps = nil, 0, 0
	if len(in.tc.tab) > 2_000_000 {
		in.tc = newTermCtx()
		in.solver.ctx = in.tc
	}
}

func (in *Interp) runPath(fn *ssa.Function, it workItem, maxSteps int64) (out outcome, msg string) {
	in.resetPath(it)
	in.limit = maxSteps
	in.fork, in.logging, in.baseEpoch = true, true, false
	defer func() {
		in.fork, in.logging, in.baseEpoch = false, false, true
		r := recover()
		switch r := r.(type) {
		case nil:
		case abort:
			msg = r.msg
			switch r.kind {
			case abAssume:
				out = outAssume
			case abUnsupported:
				out = outUnsupported
			case abSteps:
				out = outSteps
			case abUnknown:
				out = outUnknown
			case abViolation:
				out = outViolation
			case abDeadline:
				out = outDeadline
			}
		case goPanic:
			out = outViolation
			msg = "panic: " + in.panicText(r.v)
			in.report("panic", msg)
		default:
			out = outUnsupported
			msg = fmt.Sprintf("engine fault: %v at %s", r, in.where())
			if os.Getenv("ZZ_DEBUG") != "" {
				panic(r)
			}
		}
	}()
	in.call(fn, nil, nil)
	return outOK, ""
}

// newWorker creates an interpreter and runs the target package's initializer.
func newWorker(p *Program, cache *SharedCache, tier int) (in *Interp, err error) {
	in = newInterp(p, cache)
	in.tier = tier
	in.inited[p.target] = 1
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case abort:
				err = fmt.Errorf("package initializer: %s", r.msg)
			case goPanic:
				err = fmt.Errorf("package initializer panics: %s", in.panicText(r.v))
			default:
				panic(r)
			}
		}
	}()
	in.call(p.target.Func("init"), nil, nil)
	return in, nil
}
