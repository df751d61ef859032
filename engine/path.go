package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"regexp"
)

// ---- path condition and branching ----

func (in *Interp) newVar(w uint8, init uint64) *Term {
	n := in.nvars
	in.nvars++
	if n >= len(in.model) {
		in.model = append(in.model, init&mask(w))
	}
	return in.tc.Var(n, w)
}

func (in *Interp) addPC(t *Term) {
	if t.isConst() {
		return
	}
	if t.op == oAnd {
		in.addPC(t.a)
		in.addPC(t.b)
		return
	}
	if in.pcSet[t.id] {
		return
	}
	in.pcSet[t.id] = true
	in.pc = append(in.pc, t)
}

// slice returns the path constraints connected to t's variables.
func (in *Interp) slicePC(t *Term) []*Term {
	vars := map[int32]bool{}
	for _, v := range t.vars {
		vars[v] = true
	}
	used := make([]bool, len(in.pc))
	out := []*Term{t}
	for changed := true; changed; {
		changed = false
		for i, c := range in.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if vars[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				for _, v := range c.vars {
					if !vars[v] {
						vars[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

// solve decides pc && t; on IsSat it returns a full model.
func (in *Interp) solve(t *Term) (Sat, []uint64) {
	if t.isConst() {
		if t.k == 0 {
			return Unsat, nil
		}
		return IsSat, in.model
	}
	res, order, vals := in.solver.check(in.slicePC(t))
	if res != IsSat {
		return res, nil
	}
	// Variables that aren't made yet may come to mean something else.
	known := in.model
	if len(known) > in.nvars {
		known = known[:in.nvars]
	}
	m := append([]uint64(nil), known...)
	for i, v := range order {
		for int(v) >= len(m) {
			m = append(m, 0)
		}
		m[v] = vals[i]
	}
	return IsSat, m
}

func (in *Interp) branch(cond *Term) bool {
	if cond.isConst() {
		return cond.k == 1
	}
	if in.pcSet[cond.id] {
		return true
	}
	neg := in.tc.Not(cond)
	if in.pcSet[neg.id] {
		return false
	}
	if !in.fork {
		in.unsupported("symbolic branch outside a path")
	}
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		in.decisions = append(in.decisions, d)
		if !d.forced {
			if d.b {
				in.addPC(cond)
			} else {
				in.addPC(neg)
			}
		}
		return d.b
	}
	side := in.tc.Eval(cond, in.model) == 1
	other := neg
	if !side {
		other = cond
	}
	res, m := in.solve(other)
	d := Decision{b: side}
	switch res {
	case Unsat:
		d.forced = true
	case IsSat:
		alt := make([]Decision, len(in.decisions)+1)
		copy(alt, in.decisions)
		alt[len(alt)-1] = Decision{b: !side}
		in.spawn(alt, m)
	default:
		in.inconcl = "solver gave no answer for a branch"
	}
	in.pos++
	in.prefix = append(in.prefix, d)
	in.decisions = append(in.decisions, d)
	if !d.forced {
		if side {
			in.addPC(cond)
		} else {
			in.addPC(neg)
		}
	}
	return side
}

// concretize forks over the feasible values of t. Every iteration records a
// decision, so that replays of a prefix see the same sequence of values.
func (in *Interp) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	if !in.fork {
		in.unsupported("symbolic value outside a path")
	}
	for i := 0; ; i++ {
		if i > 512 {
			in.unsupported("too many values to concretise")
		}
		var d Decision
		if in.pos < len(in.prefix) {
			d = in.prefix[in.pos]
			in.pos++
			in.decisions = append(in.decisions, d)
		} else {
			v := in.tc.Eval(t, in.model)
			cond := in.tc.Eq(t, in.tc.Const(t.w, v))
			d = Decision{b: true, v: v}
			if cond.isConst() || in.pcSet[cond.id] {
				d.forced = true
			} else {
				res, m := in.solve(in.tc.Not(cond))
				switch res {
				case Unsat:
					d.forced = true
				case IsSat:
					alt := make([]Decision, len(in.decisions)+1)
					copy(alt, in.decisions)
					alt[len(alt)-1] = Decision{b: false, v: v}
					in.spawn(alt, m)
				default:
					in.inconcl = "solver gave no answer for a branch"
				}
			}
			in.pos++
			in.prefix = append(in.prefix, d)
			in.decisions = append(in.decisions, d)
		}
		if !d.forced {
			cond := in.tc.Eq(t, in.tc.Const(t.w, d.v))
			if d.b {
				in.addPC(cond)
			} else {
				in.addPC(in.tc.Not(cond))
			}
		}
		if d.b {
			return d.v
		}
	}
}

// choose returns an arbitrary value in [0,n), forked.
func (in *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	t := in.newVar(8, 0)
	in.assume(in.tc.Ult(t, in.tc.Const(8, uint64(n))))
	return int(in.concretize(t))
}

func (in *Interp) assume(t *Term) {
	if t.isConst() {
		if t.k == 0 {
			panic(abort{abAssume, ""})
		}
		return
	}
	if in.pcSet[t.id] {
		return
	}
	if in.tc.Eval(t, in.model) == 1 {
		in.addPC(t)
		return
	}
	res, m := in.solve(t)
	switch res {
	case Unsat:
		panic(abort{abAssume, ""})
	case Unknown:
		panic(abort{abUnknown, "assumption undecided"})
	}
	in.model = m
	in.addPC(t)
}

// assert checks t on every value of the current path.
func (in *Interp) assert(t *Term, msg string) {
	in.asserts++
	if t.isConst() && t.k == 1 {
		return
	}
	if !t.isConst() && in.pcSet[t.id] {
		return
	}
	if in.pos < len(in.prefix) {
		// already decided when the parent path executed this point
		if t.isConst() {
			panic(abort{abViolation, msg})
		}
		in.assume(t)
		return
	}
	in.assertsQ++
	res, m := in.solve(in.tc.Not(t))
	switch res {
	case Unsat:
		in.addPC(t)
		return
	case Unknown:
		in.inconcl = "solver gave no answer for an assertion: " + msg
		in.assume(t)
		return
	}
	save := in.model
	savePC, saveSet := len(in.pc), in.pcSet
	in.model = m
	if !t.isConst() {
		in.pcSet = map[int32]bool{}
		for k, v := range saveSet {
			in.pcSet[k] = v
		}
		in.addPC(in.tc.Not(t))
	}
	in.report("assert", msg)
	in.pc = in.pc[:savePC]
	in.pcSet = saveSet
	in.model = save
	panic(abort{abViolation, msg})
}

// report records a violation at the current model.
func (in *Interp) report(kind, msg string) {
	if in.violation != nil {
		return
	}
	if !in.fixOpaque() {
		in.inconcl = "candidate violation depends on an opaque regexp; not realisable: " + msg
		return
	}
	for _, c := range in.pc {
		if in.tc.Eval(c, in.model) != 1 {
			in.inconcl = "candidate violation doesn't fit its path: " + msg
			return
		}
	}
	in.violation = &violationRec{Msg: msg, Kind: kind, inputs: in.replayInputs(in.model)}
}

// fixOpaque makes the current model consistent with the assumed outcomes of
// regexp.Compile on symbolic patterns (which were left unconstrained).
func (in *Interp) fixOpaque() bool {
	if len(in.opaque) == 0 {
		return true
	}
	for try := 0; try < 200; try++ {
		bad := -1
		for i, o := range in.opaque {
			s := in.evalStr(o.pattern, in.model)
			_, err := regexp.Compile(s)
			if (err == nil) != o.ok {
				bad = i
				break
			}
		}
		if bad < 0 {
			return true
		}
		o := in.opaque[bad]
		s := in.evalStr(o.pattern, in.model)
		block := in.tc.Not(in.strEq(o.pattern, &Str{s: s}))
		res, m := in.solve(block)
		if res != IsSat {
			return false
		}
		in.model = m
		in.addPC(block)
	}
	return false
}

func (in *Interp) evalStr(s *Str, m []uint64) string {
	if s.b == nil {
		return s.s
	}
	b := make([]byte, len(s.b))
	for i, t := range s.b {
		b[i] = byte(in.tc.Eval(t, m))
	}
	return string(b)
}

// ReplayInput is one nondeterministic value of a concrete run.
type ReplayInput struct {
	K string `json:"k"`
	N string `json:"n"`
	V int64  `json:"v"`
	S string `json:"s,omitempty"` // hex
}

func (in *Interp) replayInputs(m []uint64) []ReplayInput {
	var out []ReplayInput
	for _, r := range in.inputs {
		x := ReplayInput{K: r.Kind, N: r.Name}
		switch r.Kind {
		case "str":
			b := make([]byte, len(r.str))
			for i, t := range r.str {
				b[i] = byte(in.tc.Eval(t, m))
			}
			x.S = hex.EncodeToString(b)
			x.V = int64(len(b))
		case "pick":
			x.V = r.n
		default:
			x.V = sext(in.tc.Eval(r.t, m), r.w)
			if r.Kind == "byte" || r.Kind == "bool" {
				x.V = int64(in.tc.Eval(r.t, m))
			}
		}
		out = append(out, x)
	}
	return out
}

func describeInputs(ins []ReplayInput) string {
	s := ""
	for _, r := range ins {
		if s != "" {
			s += " "
		}
		if r.K == "str" {
			b, _ := hex.DecodeString(r.S)
			s += fmt.Sprintf("%s=%q", r.N, b)
		} else {
			s += fmt.Sprintf("%s=%d", r.N, r.V)
		}
	}
	return s
}

// ---- events (monitors) ----

func (in *Interp) event(kind, msg string) {
	if in.pos < len(in.prefix) {
		// seen by the parent path already
		panic(abort{abViolation, msg})
	}
	in.report(kind, msg)
	panic(abort{abViolation, msg})
}

func (in *Interp) sharedWrite(o *Obj, i int) {
	in.event("shared", fmt.Sprintf("write to shared state (%s) while serving, in %s", o.what, in.where()))
}

func (in *Interp) poolAccess(o *Obj, how string) {
	if !in.mon.pool || in.inLazy > 0 {
		return
	}
	in.event("pool", how+" of an object that is in the pool, in "+in.where())
}

// runtimeErr builds a runtime.Error interface value.
func (in *Interp) runtimeErr(msg string) Val {
	t := in.p.rtErrT
	if t == nil {
		return Val{p: &Iface{in.canon(types.Typ[types.String]), strV(msg)}}
	}
	return Val{p: &Iface{in.canon(t), strV(msg)}}
}

func (in *Interp) panicText(v Val) string {
	if v.p == nil {
		return "nil"
	}
	f, ok := v.p.(*Iface)
	if !ok {
		return fmt.Sprintf("%T", v.p)
	}
	if in.ti(f.t).k == kString && f.v.str().concrete() {
		return f.v.str().s
	}
	defer func() { recover() }()
	if s, ok := in.callStringMethod(f, "Error"); ok {
		return s
	}
	return f.t.String()
}

func (in *Interp) callStringMethod(f *Iface, name string) (res string, ok bool) {
	ms := in.p.prog.MethodSets.MethodSet(f.t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return "", false
	}
	fn := in.p.prog.MethodValue(sel)
	if fn == nil {
		return "", false
	}
	top, depth := in.top, in.depth
	defer func() {
		if r := recover(); r != nil {
			in.top, in.depth = top, depth
			if a, isA := r.(abort); isA && a.kind != abUnsupported {
				panic(r)
			}
			res, ok = "", false
		}
	}()
	v := in.call(fn, []Val{f.v}, nil)
	s := v.str()
	if !s.concrete() {
		return "<symbolic text>", true
	}
	return s.s, true
}
