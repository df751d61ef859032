package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// ---- control transfers ----

type abortKind uint8

const (
	abAssume abortKind = iota // assumption infeasible
	abUnsupported
	abSteps
	abUnknown // solver gave no answer
	abViolation
	abDeadline
)

type abort struct {
	kind abortKind
	msg  string
}

type goPanic struct{ v Val } // a Go panic with an interface value

func (in *Interp) unsupported(format string, args ...any) {
	panic(abort{abUnsupported, fmt.Sprintf(format, args...) + " at " + in.where()})
}

func (in *Interp) where() string {
	var out []string
	f := in.top
	for i := 0; f != nil && i < 4; i++ {
		out = append(out, f.code.name)
		f = f.caller
	}
	return strings.Join(out, " < ")
}

func (in *Interp) goPanicMsg(msg string) goPanic {
	return goPanic{in.runtimeErr(msg)}
}

type frame struct {
	code   *fnCode
	regs   []Val
	defers []func()
	caller *frame
	// panic state while running deferred calls
	panicking *goPanic
	recovered bool
	deferOf   *frame // frame whose deferred call this is
}

type monitors struct {
	shared bool
	pool   bool
}

// Decision is one recorded branch outcome on a path.
type Decision struct {
	b      bool
	forced bool
	v      uint64
}

type Interp struct {
	p        *Program
	tc       *TermCtx
	solver   *Solver
	codes    map[*ssa.Function]*fnCode
	tinfos   map[types.Type]*tinfo
	canons   map[types.Type]types.Type
	canonMap typeutil.Map
	globals  map[*ssa.Global]*Obj
	inited   map[*ssa.Package]int
	implC    map[[2]types.Type]bool
	methC    map[methKey]*ssa.Function
	nobj     int

	baseEpoch bool
	logging   bool
	undo      []undoRec
	inLazy    int

	top    *frame
	steps  int64
	limit  int64
	depth  int
	locks  int
	mon    monitors
	events []string

	// path state
	prefix    []Decision
	decisions []Decision
	pos       int
	model     []uint64
	nvars     int
	pc        []*Term
	pcSet     map[int32]bool
	inputs    []inputRec
	observed  []obsRec
	covered   map[string]bool
	mapNondet bool
	spawn     func(dec []Decision, model []uint64)
	fork      bool
	inconcl   string
	pools     map[*Obj][]Val
	pooledObj []*Obj
	regexOpq  int
	violation *violationRec
	asserts   int64
	assertsQ  int64
	deadline  func() bool
	tier      int
	stdout    strings.Builder
	opaque    []opaqueRe
	rtypes    map[types.Type]*Obj
	once      map[string]Val
	frozen    int // objects up to this id count as shared
}

type methKey struct {
	t types.Type
	n string
}

type inputRec struct {
	Kind string // "int", "bool", "byte", "str", "pick"
	Name string
	t    *Term
	str  []*Term
	n    int64 // concrete (pick)
	w    uint8
}

type obsRec struct {
	name string
	v    Val
	kind string
}

type opaqueRe struct {
	pattern *Str
	ok      bool
}

type violationRec struct {
	Msg    string
	Kind   string // assert, panic, steps, event
	inputs []ReplayInput
	path   int
}

func newInterp(p *Program, cache *SharedCache) *Interp {
	in := &Interp{p: p, tc: newTermCtx()}
	in.solver = newSolver(in.tc, cache)
	in.codes = map[*ssa.Function]*fnCode{}
	in.tinfos = map[types.Type]*tinfo{}
	in.canons = map[types.Type]types.Type{}
	in.globals = map[*ssa.Global]*Obj{}
	in.inited = map[*ssa.Package]int{}
	in.implC = map[[2]types.Type]bool{}
	in.methC = map[methKey]*ssa.Function{}
	in.pcSet = map[int32]bool{}
	in.covered = map[string]bool{}
	in.pools = map[*Obj][]Val{}
	in.rtypes = map[types.Type]*Obj{}
	p.setPoolOff(in)
	in.limit = 1 << 40
	in.baseEpoch = true
	return in
}

func (in *Interp) isTarget(fn *ssa.Function) bool {
	if fn.Pkg != in.p.target {
		if fn.Origin() == nil || fn.Origin().Pkg != in.p.target {
			return false
		}
	}
	pos := fn.Pos()
	if !pos.IsValid() {
		return false
	}
	f := in.p.prog.Fset.Position(pos).Filename
	return !strings.Contains(f, "zz_verif_")
}

func (in *Interp) global(g *ssa.Global) *Obj {
	if o, ok := in.globals[g]; ok {
		return o
	}
	saved := in.baseEpoch
	in.baseEpoch = true
	o := in.newObj(in.ti(deref(g.Type())).size, "global "+g.String())
	in.baseEpoch = saved
	in.globals[g] = o
	if g.Pkg != nil && in.inited[g.Pkg] == 0 && g.Pkg != in.p.target {
		in.lazyInit(g.Pkg)
	}
	return o
}

// lazyInit runs a (non-target) package initializer the first time one of its
// globals is referenced. It is concrete, belongs to the base state, and
// tolerates unsupported calls by leaving poison values.
func (in *Interp) lazyInit(pkg *ssa.Package) {
	in.inited[pkg] = 1
	fn := pkg.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	if strings.HasPrefix(pkg.Pkg.Path(), "vendor/golang.org/x/") && pkg.Pkg.Path() != "vendor/golang.org/x/net/http/httpguts" {
		// Large tables nothing here needs: reading one is reported as
		// unsupported.
		for _, m := range pkg.Members {
			if g, ok := m.(*ssa.Global); ok {
				o := in.global(g)
				for i := range o.cells {
					o.cells[i] = Val{p: poisonT{"not initialised: " + g.String()}}
				}
			}
		}
		return
	}
	sb, sl, st := in.baseEpoch, in.logging, in.steps
	in.baseEpoch, in.logging = true, false
	in.inLazy++
	defer func() {
		in.inLazy--
		in.baseEpoch, in.logging, in.steps = sb, sl, st
		in.inited[pkg] = 2
	}()
	in.runInit(fn)
}

var skipInit = map[string]bool{"runtime": true, "syscall": true, "os": true, "reflect": true, "internal/poll": true, "internal/godebug": true, "crypto/tls": true, "time": true, "internal/cpu": true}

func (in *Interp) runInit(fn *ssa.Function) {
	// The global may be referenced first by another package's initializer;
	// a call that has no caller is never taken for a dependency's.
	top := in.top
	in.top = nil
	defer func() {
		in.top = top
		if r := recover(); r != nil {
			switch r := r.(type) {
			case abort:
				if r.kind != abUnsupported {
					panic(r)
				}
			case goPanic:
			default:
				panic(r)
			}
		}
	}()
	in.call(fn, nil, nil)
}

// ---- calls ----

func (in *Interp) call(fn *ssa.Function, args []Val, env []Val) Val {
	c := in.code(fn)
	return in.callCode(c, args, env, nil)
}

func (in *Interp) callCode(c *fnCode, args []Val, env []Val, deferOf *frame) Val {
	if c.intr != nil {
		c.calls++
		return c.intr(in, args, in.top)
	}
	if c.noBody {
		if c.fn.Name() == "init" && len(args) == 0 {
			return Val{}
		}
		in.unsupported("no body and no model for %s", c.name)
	}
	if len(args) > 0 && in.inLazy == 0 {
		if _, bad := args[0].p.(poisonT); bad {
			in.unsupported("uninitialised (unmodelled) value passed to %s", c.name)
		}
	}
	if c.fn.Synthetic == "package initializer" && in.top != nil && in.top.code.fn.Synthetic == "package initializer" {
		return Val{} // dependencies are initialised on demand
	}
	c.calls++
	fr := &frame{code: c, caller: in.top, deferOf: deferOf}
	fr.regs = make([]Val, c.nslots)
	copy(fr.regs, args)
	copy(fr.regs[c.nparams:], env)
	in.top = fr
	in.depth++
	if in.depth > 3000 {
		in.depth = 0
		panic(abort{abSteps, "call depth limit (possible infinite recursion) in " + c.name})
	}
	ret := in.run(fr)
	in.depth--
	in.top = fr.caller
	return ret
}

// callVal calls a function value.
func (in *Interp) callVal(f Val, args []Val) Val {
	if f.p == nil {
		panic(in.goPanicMsg("invalid memory address or nil pointer dereference"))
	}
	fn, ok := f.p.(*Func)
	if !ok {
		in.unsupported("call of %T", f.p)
	}
	if fn.native != nil {
		return fn.native(in, args)
	}
	if fn.fn == nil {
		in.unsupported("call of builtin value %s", fn.name)
	}
	return in.callCode(in.code(fn.fn), args, fn.env, nil)
}

func (in *Interp) run(fr *frame) (ret Val) {
	c := fr.code
	depth := in.depth
	if !hasDefer(c) {
		return in.exec(fr, 0)
	}
	// with defers: catch Go panics, run the deferred calls, maybe recover
	normal := false
	func() {
		defer func() {
			if normal {
				return
			}
			r := recover()
			gp, ok := r.(goPanic)
			if !ok {
				if r == nil {
					return
				}
				panic(r)
			}
			in.top, in.depth = fr, depth
			fr.panicking = &gp
			in.runDefers(fr)
			if fr.panicking != nil {
				panic(*fr.panicking)
			}
		}()
		ret = in.exec(fr, 0)
		normal = true
	}()
	if !normal {
		// recovered: execute the recover block to produce the results
		in.top, in.depth = fr, depth
		if c.recover_ >= 0 {
			return in.exec(fr, c.recover_)
		}
		if n := c.results.Len(); n == 1 {
			return in.zero(in.ti(c.results.At(0).Type()))
		} else if n > 1 {
			a := &Agg{make([]Val, n)}
			for i := range a.c {
				a.c[i] = in.zero(in.ti(c.results.At(i).Type()))
			}
			return Val{p: a}
		}
		return Val{}
	}
	return ret
}

func hasDefer(c *fnCode) bool { return c.recover_ >= 0 || c.fn.Recover != nil }

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := in.depth
		func() {
			defer func() {
				if r := recover(); r != nil {
					if gp, ok := r.(goPanic); ok {
						in.top, in.depth = fr, depth
						fr.panicking = &gp
						return
					}
					panic(r)
				}
			}()
			d()
		}()
	}
}

func (fr *frame) get(o *operand) Val {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	return o.v
}

func (in *Interp) nilDeref() {
	panic(in.goPanicMsg("invalid memory address or nil pointer dereference"))
}

func (in *Interp) obj(v Val) *Obj {
	switch o := v.p.(type) {
	case *Obj:
		return o
	case nil:
		in.nilDeref()
	case poisonT:
		in.unsupported("use of unmodelled value (%s)", o.why)
	}
	in.unsupported("pointer expected, got %T", v.p)
	return nil
}

func (in *Interp) exec(fr *frame, start int32) Val {
	c := fr.code
	bi := start
	regs := fr.regs
	tolerant := in.inLazy > 0 && c.fn.Synthetic == "package initializer"
	var tmp [8]Val
blocks:
	for {
		b := &c.blocks[bi]
		*b.hits++
		for ii := range b.ins {
			ci := &b.ins[ii]
			in.steps++
			if in.steps > in.limit {
				panic(abort{abSteps, "step limit in " + in.where()})
			}
			if in.steps&0xfff == 0 && in.deadline != nil && in.deadline() {
				panic(abort{abDeadline, "deadline"})
			}
			switch ci.op {
			case iAlloc:
				regs[ci.dst] = Val{p: in.newObj(ci.ti.size, c.name)}
			case iBin:
				regs[ci.dst] = in.binop(ci, fr.get(&ci.a), fr.get(&ci.b))
			case iNot:
				v := fr.get(&ci.a)
				if v.p == nil {
					regs[ci.dst] = Val{n: 1 - v.n}
				} else {
					regs[ci.dst] = normT(in.tc.Not(in.term(v, 0)))
				}
			case iNeg:
				v := fr.get(&ci.a)
				if ci.ti.k == kFloat {
					regs[ci.dst] = fval(-f64(v, ci.ti), ci.ti)
				} else if v.p == nil {
					regs[ci.dst] = Val{n: -v.n & mask(ci.ti.w)}
				} else {
					regs[ci.dst] = normT(in.tc.Bin(oSub, in.tc.Const(ci.ti.w, 0), in.term(v, ci.ti.w)))
				}
			case iCompl:
				v := fr.get(&ci.a)
				if v.p == nil {
					regs[ci.dst] = Val{n: ^v.n & mask(ci.ti.w)}
				} else {
					regs[ci.dst] = normT(in.tc.Bin(oBxor, in.term(v, ci.ti.w), in.tc.Const(ci.ti.w, mask(ci.ti.w))))
				}
			case iLoad:
				v := fr.get(&ci.a)
				o, ok := v.p.(*Obj)
				if !ok {
					if sp, ok := v.p.(*symPtr); ok {
						regs[ci.dst] = in.loadSym(sp, ci.ti)
						continue
					}
					if v.p == nil && ci.ti.size == 0 {
						in.nilDeref()
					}
					o = in.obj(v)
				}
				regs[ci.dst] = in.loadCells(o, int(v.n), ci.ti)
			case iStore:
				v := fr.get(&ci.a)
				if sp, ok := v.p.(*symPtr); ok {
					v = in.resolveSym(sp)
				}
				in.storeCells(in.obj(v), int(v.n), ci.ti, fr.get(&ci.b))
			case iCallStatic:
				var args []Val
				if len(ci.args) <= len(tmp) {
					args = tmp[:len(ci.args)]
				} else {
					args = make([]Val, len(ci.args))
				}
				for k := range ci.args {
					args[k] = fr.get(&ci.args[k])
				}
				if tolerant {
					regs[ci.dst] = in.tolerantCall(ci.fn, append([]Val(nil), args...))
				} else {
					regs[ci.dst] = in.callCode(in.code(ci.fn), args, nil, nil)
				}
			case iCallInvoke:
				recv := fr.get(&ci.a)
				args := make([]Val, len(ci.args)+1)
				for k := range ci.args {
					args[k+1] = fr.get(&ci.args[k])
				}
				cc := ci.src.(ssa.CallInstruction).Common()
				regs[ci.dst] = in.invoke(recv, cc.Method, args, ci.ic)
			case iCallDyn:
				args := make([]Val, len(ci.args))
				for k := range ci.args {
					args[k] = fr.get(&ci.args[k])
				}
				regs[ci.dst] = in.callVal(fr.get(&ci.a), args)
			case iBuiltin:
				args := make([]Val, len(ci.args))
				for k := range ci.args {
					args[k] = fr.get(&ci.args[k])
				}
				cc := ci.src.(ssa.CallInstruction).Common()
				regs[ci.dst] = in.builtin(fr, cc, args)
			case iMove:
				regs[ci.dst] = fr.get(&ci.a)
			case iConvert:
				regs[ci.dst] = in.convert(ci, fr.get(&ci.a))
			case iDefer:
				in.pushDefer(fr, ci)
			case iExtract:
				v := fr.get(&ci.a)
				a, ok := v.p.(*Agg)
				if !ok {
					if p, ok := v.p.(poisonT); ok {
						regs[ci.dst] = Val{p: p}
						continue
					}
					in.unsupported("extract from %T", v.p)
				}
				regs[ci.dst] = a.c[ci.n]
			case iField:
				v := fr.get(&ci.a)
				a, ok := v.p.(*Agg)
				if !ok {
					in.unsupported("field of %T", v.p)
				}
				regs[ci.dst] = subVal(a.c, ci.n, ci.ti)
			case iFieldAddr:
				v := fr.get(&ci.a)
				if sp, ok := v.p.(*symPtr); ok {
					v = in.resolveSym(sp)
				}
				o := in.obj(v)
				regs[ci.dst] = Val{p: o, n: v.n + uint64(ci.n)}
			case iIf:
				v := fr.get(&ci.a)
				var t bool
				if v.p == nil {
					t = v.n != 0
				} else if tt, ok := v.p.(*Term); ok {
					t = in.branch(tt)
				} else {
					in.unsupported("branch on unmodelled value")
				}
				s := 1
				if t {
					s = 0
				}
				bi = in.enter(fr, b, s)
				continue blocks
			case iJump:
				bi = in.enter(fr, b, 0)
				continue blocks
			case iIndex:
				regs[ci.dst] = in.index(ci, fr.get(&ci.a), fr.get(&ci.b))
			case iIndexAddr:
				regs[ci.dst] = in.indexAddr(ci, fr.get(&ci.a), fr.get(&ci.b))
			case iLookup:
				regs[ci.dst] = in.lookup(ci, fr.get(&ci.a), fr.get(&ci.b))
			case iClosure:
				env := make([]Val, len(ci.args))
				for k := range ci.args {
					env[k] = fr.get(&ci.args[k])
				}
				regs[ci.dst] = Val{p: &Func{fn: ci.fn, env: env}}
			case iMakeIface:
				regs[ci.dst] = Val{p: &Iface{ci.t, fr.get(&ci.a)}}
			case iMakeMap:
				regs[ci.dst] = Val{p: in.newMap(c.name)}
			case iMakeSlice:
				n := int(sext(in.concretize(in.term(fr.get(&ci.a), ci.ti2.w)), ci.ti2.w))
				cp := int(sext(in.concretize(in.term(fr.get(&ci.b), 64)), 64))
				if n < 0 || n > 1<<24 {
					panic(in.goPanicMsg("makeslice: len out of range"))
				}
				if cp < n || cp > 1<<24 {
					panic(in.goPanicMsg("makeslice: cap out of range"))
				}
				regs[ci.dst] = Val{p: &Slice{o: in.newObj(cp*ci.ti.esize, c.name), len: n, cap: cp}}
			case iMapUpdate:
				v := fr.get(&ci.a)
				m, ok := v.p.(*MapObj)
				if !ok {
					if v.p == nil {
						panic(in.goPanicMsg("assignment to entry in nil map"))
					}
					in.unsupported("map update on %T", v.p)
				}
				in.mapSet(m, ci.t, fr.get(&ci.b), fr.get(&ci.c))
			case iRange:
				regs[ci.dst] = in.rangeStart(ci, fr.get(&ci.a))
			case iNext:
				regs[ci.dst] = in.rangeNext(ci, fr.get(&ci.a))
			case iPanic:
				v := fr.get(&ci.a)
				panic(goPanic{v})
			case iReturn:
				switch len(ci.args) {
				case 0:
					return Val{}
				case 1:
					return fr.get(&ci.args[0])
				}
				a := &Agg{make([]Val, len(ci.args))}
				for k := range ci.args {
					a.c[k] = fr.get(&ci.args[k])
				}
				return Val{p: a}
			case iRunDefers:
				in.runDefers(fr)
				if fr.panicking != nil {
					gp := *fr.panicking
					fr.panicking = nil
					panic(gp)
				}
			case iSlice:
				regs[ci.dst] = in.slice(fr, ci)
			case iSliceToArr:
				v := fr.get(&ci.a)
				s, _ := v.p.(*Slice)
				if s == nil {
					if ci.ti.alen == 0 {
						regs[ci.dst] = Val{}
						continue
					}
					panic(in.goPanicMsg("cannot convert slice to array pointer"))
				}
				if s.len < ci.ti.alen {
					panic(in.goPanicMsg("cannot convert slice to array pointer"))
				}
				regs[ci.dst] = Val{p: s.o, n: uint64(s.off)}
			case iTypeAssert:
				regs[ci.dst] = in.typeAssert(ci, fr.get(&ci.a))
			default:
				in.unsupported("instruction %s", ci.src)
			}
		}
		in.unsupported("block without terminator in %s", c.name)
	}
}

func (in *Interp) tolerantCall(fn *ssa.Function, args []Val) (ret Val) {
	top, depth := in.top, in.depth
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case abort:
				if r.kind != abUnsupported {
					panic(r)
				}
				in.top, in.depth = top, depth
				ret = in.poisonResult(fn, r.msg)
			case goPanic:
				in.top, in.depth = top, depth
				ret = in.poisonResult(fn, "panic in init")
			default:
				panic(r)
			}
		}
	}()
	return in.call(fn, args, nil)
}

func (in *Interp) poisonResult(fn *ssa.Function, why string) Val {
	n := fn.Signature.Results().Len()
	p := Val{p: poisonT{why}}
	if n <= 1 {
		return p
	}
	a := &Agg{make([]Val, n)}
	for i := range a.c {
		a.c[i] = p
	}
	return Val{p: a}
}

// enter performs the phi assignments for the edge b->succ s.
func (in *Interp) enter(fr *frame, b *cblock, s int) int32 {
	ni := b.succs[s]
	nb := &fr.code.blocks[ni]
	if np := len(nb.phis); np > 0 {
		pi := b.predIdx[s]
		if np == 1 {
			fr.regs[nb.phis[0].dst] = fr.get(&nb.phis[0].in[pi])
		} else {
			var buf [8]Val
			vals := buf[:0]
			for i := range nb.phis {
				vals = append(vals, fr.get(&nb.phis[i].in[pi]))
			}
			for i := range nb.phis {
				fr.regs[nb.phis[i].dst] = vals[i]
			}
		}
	}
	return ni
}

func (in *Interp) invoke(recv Val, m *types.Func, args []Val, ic *callCache) Val {
	if recv.p == nil {
		in.nilDeref()
	}
	f, ok := recv.p.(*Iface)
	if !ok {
		if p, ok := recv.p.(poisonT); ok {
			in.unsupported("method %s of unmodelled value (%s)", m.Name(), p.why)
		}
		in.unsupported("invoke on %T", recv.p)
	}
	args[0] = f.v
	if ic != nil && ic.t == f.t {
		return in.callCode(in.code(ic.fn), args, nil, nil)
	}
	fn := in.method(f.t, m)
	if fn == nil {
		in.unsupported("no method %s on %s", m.Name(), f.t)
	}
	if ic != nil {
		ic.t, ic.fn = f.t, fn
	}
	return in.callCode(in.code(fn), args, nil, nil)
}

func (in *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if fn, ok := in.methC[k]; ok {
		return fn
	}
	fn := in.p.prog.LookupMethod(t, m.Pkg(), m.Name())
	in.methC[k] = fn
	return fn
}

func (in *Interp) pushDefer(fr *frame, ci *cinstr) {
	args := make([]Val, len(ci.args))
	for k := range ci.args {
		args[k] = fr.get(&ci.args[k])
	}
	cc := ci.src.(ssa.CallInstruction).Common()
	switch uint8(ci.n) {
	case iCallStatic:
		fn := ci.fn
		fr.defers = append(fr.defers, func() { in.callCode(in.code(fn), args, nil, fr) })
	case iCallInvoke:
		recv := fr.get(&ci.a)
		fr.defers = append(fr.defers, func() {
			in.invoke(recv, cc.Method, append([]Val{{}}, args...), nil)
		})
	case iBuiltin:
		fr.defers = append(fr.defers, func() { in.builtin(fr, cc, args) })
	default:
		f := fr.get(&ci.a)
		fr.defers = append(fr.defers, func() {
			if f.p == nil {
				in.nilDeref()
			}
			fn := f.p.(*Func)
			if fn.native != nil {
				fn.native(in, args)
				return
			}
			in.callCode(in.code(fn.fn), args, fn.env, fr)
		})
	}
}

// ---- operators ----

var binOps = map[token.Token][2]Op{
	token.ADD: {oAdd, oAdd}, token.SUB: {oSub, oSub}, token.MUL: {oMul, oMul},
	token.QUO: {oUdiv, oSdiv}, token.REM: {oUrem, oSrem},
	token.AND: {oBand, oBand}, token.OR: {oBor, oBor}, token.XOR: {oBxor, oBxor},
	token.SHL: {oShl, oShl}, token.SHR: {oLshr, oAshr},
}

func (in *Interp) binop(ci *cinstr, a, b Val) Val {
	ti := ci.ti
	if ti.k == kInt && a.p == nil && b.p == nil {
		x, y := a.n, b.n
		w := ti.w
		switch ci.tok {
		case token.ADD:
			return Val{n: (x + y) & mask(w)}
		case token.SUB:
			return Val{n: (x - y) & mask(w)}
		case token.EQL:
			return boolV(x == y)
		case token.NEQ:
			return boolV(x != y)
		case token.LSS:
			if ti.signed {
				return boolV(sext(x, w) < sext(y, w))
			}
			return boolV(x < y)
		case token.LEQ:
			if ti.signed {
				return boolV(sext(x, w) <= sext(y, w))
			}
			return boolV(x <= y)
		case token.GTR:
			if ti.signed {
				return boolV(sext(x, w) > sext(y, w))
			}
			return boolV(x > y)
		case token.GEQ:
			if ti.signed {
				return boolV(sext(x, w) >= sext(y, w))
			}
			return boolV(x >= y)
		case token.AND:
			return Val{n: x & y}
		case token.OR:
			return Val{n: x | y}
		case token.AND_NOT:
			return Val{n: x &^ y}
		case token.XOR:
			return Val{n: x ^ y}
		}
	}
	if pa, ok := a.p.(poisonT); ok {
		in.unsupported("operand is unmodelled (%s)", pa.why)
	}
	switch ci.tok {
	case token.EQL, token.NEQ:
		var r *Term
		if ti.k == kIface {
			av, bv := a, b
			// mixed interface/concrete comparison
			bin := ci.src.(*ssa.BinOp)
			if _, ok := bin.X.Type().Underlying().(*types.Interface); !ok {
				av = Val{p: &Iface{in.canon(bin.X.Type()), a}}
			}
			if _, ok := bin.Y.Type().Underlying().(*types.Interface); !ok {
				bv = Val{p: &Iface{in.canon(bin.Y.Type()), b}}
			}
			r = in.ifaceEq(av, bv)
		} else {
			r = in.eqVal(ci.t, a, b)
		}
		if ci.tok == token.NEQ {
			r = in.tc.Not(r)
		}
		return normT(r)
	}
	switch ti.k {
	case kString:
		x, y := a.str(), b.str()
		switch ci.tok {
		case token.ADD:
			return in.concat(x, y)
		case token.LSS:
			return normT(in.strLt(x, y))
		case token.GTR:
			return normT(in.strLt(y, x))
		case token.LEQ:
			return normT(in.tc.Not(in.strLt(y, x)))
		case token.GEQ:
			return normT(in.tc.Not(in.strLt(x, y)))
		}
	case kFloat:
		x, y := f64(a, ti), f64(b, ti)
		switch ci.tok {
		case token.ADD:
			return fval(x+y, ti)
		case token.SUB:
			return fval(x-y, ti)
		case token.MUL:
			return fval(x*y, ti)
		case token.QUO:
			return fval(x/y, ti)
		case token.LSS:
			return boolV(x < y)
		case token.LEQ:
			return boolV(x <= y)
		case token.GTR:
			return boolV(x > y)
		case token.GEQ:
			return boolV(x >= y)
		}
	case kBool:
		x, y := in.term(a, 0), in.term(b, 0)
		switch ci.tok {
		case token.AND, token.LAND:
			return normT(in.tc.And(x, y))
		case token.OR, token.LOR:
			return normT(in.tc.Or(x, y))
		}
	case kInt:
		w := ti.w
		x := in.term(a, w)
		switch ci.tok {
		case token.SHL, token.SHR:
			y := in.term(b, ci.ti2.w)
			if ci.ti2.signed {
				if in.branch(in.tc.Slt(y, in.tc.Const(ci.ti2.w, 0))) {
					panic(in.goPanicMsg("negative shift amount"))
				}
			}
			// bring the count to width w, saturating
			var yy *Term
			switch {
			case ci.ti2.w == w:
				yy = y
			case ci.ti2.w < w:
				yy = in.tc.Zext(y, w)
			default:
				yy = in.tc.Ite(in.tc.Ult(y, in.tc.Const(ci.ti2.w, uint64(w))), in.tc.Trunc(y, w), in.tc.Const(w, uint64(w)))
			}
			op := binOps[ci.tok][0]
			if ti.signed {
				op = binOps[ci.tok][1]
			}
			return normT(in.tc.Bin(op, x, yy))
		}
		y := in.term(b, w)
		s := 0
		if ti.signed {
			s = 1
		}
		switch ci.tok {
		case token.QUO, token.REM:
			if in.branch(in.tc.Eq(y, in.tc.Const(w, 0))) {
				panic(in.goPanicMsg("integer divide by zero"))
			}
			return normT(in.tc.Bin(binOps[ci.tok][s], x, y))
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			return normT(in.tc.Bin(binOps[ci.tok][0], x, y))
		case token.AND_NOT:
			return normT(in.tc.Bin(oBand, x, in.tc.Bin(oBxor, y, in.tc.Const(w, mask(w)))))
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return normT(in.cmp(ci.tok, x, y, ti.signed))
		}
	}
	in.unsupported("operator %s on %s", ci.tok, ci.t)
	return Val{}
}

func (in *Interp) cmp(tok token.Token, x, y *Term, signed bool) *Term {
	switch tok {
	case token.GTR:
		x, y = y, x
		tok = token.LSS
	case token.GEQ:
		x, y = y, x
		tok = token.LEQ
	}
	if tok == token.LSS {
		if signed {
			return in.tc.Slt(x, y)
		}
		return in.tc.Ult(x, y)
	}
	if signed {
		return in.tc.Sle(x, y)
	}
	return in.tc.Ule(x, y)
}

func (in *Interp) concat(x, y *Str) Val {
	if x.len() == 0 {
		if y.len() == 0 {
			return Val{}
		}
		return Val{p: y}
	}
	if y.len() == 0 {
		return Val{p: x}
	}
	if x.b == nil && y.b == nil {
		return strV(x.s + y.s)
	}
	b := make([]*Term, 0, x.len()+y.len())
	b = append(b, in.strBytes(x)...)
	b = append(b, in.strBytes(y)...)
	return symStr(b)
}

func (in *Interp) convert(ci *cinstr, v Val) Val {
	d, s := ci.ti, ci.ti2
	if _, ok := v.p.(poisonT); ok {
		return v
	}
	switch {
	case d.k == kInt && s.k == kInt:
		if v.p == nil {
			if s.signed {
				return Val{n: uint64(sext(v.n, s.w)) & mask(d.w)}
			}
			return Val{n: v.n & mask(d.w)}
		}
		t := in.term(v, s.w)
		switch {
		case d.w == s.w:
			return v
		case d.w < s.w:
			return normT(in.tc.Trunc(t, d.w))
		case s.signed:
			return normT(in.tc.Sext(t, d.w))
		default:
			return normT(in.tc.Zext(t, d.w))
		}
	case d.k == kFloat && s.k == kFloat:
		return fval(f64(v, s), d)
	case d.k == kFloat && s.k == kInt:
		n := in.concretize(in.term(v, s.w))
		if s.signed {
			return fval(float64(sext(n, s.w)), d)
		}
		return fval(float64(n), d)
	case d.k == kInt && s.k == kFloat:
		f := f64(v, s)
		if d.signed {
			return Val{n: uint64(int64(f)) & mask(d.w)}
		}
		return Val{n: uint64(f) & mask(d.w)}
	case d.k == kString && s.k == kString:
		return v
	case d.k == kString && s.k == kInt:
		t := in.term(v, s.w)
		return in.runeToStr(t, s)
	case d.k == kString && s.k == kSlice:
		sl, _ := v.p.(*Slice)
		if sl == nil {
			return Val{}
		}
		if in.ti(s.elem).w == 8 {
			return in.bytesToStr(sl)
		}
		// []rune
		r := Val{}
		for i := 0; i < sl.len; i++ {
			x := in.runeToStr(in.term(sl.o.cells[sl.off+i], 32), in.ti(s.elem))
			r = in.concat(r.str(), x.str())
		}
		return r
	case d.k == kSlice && s.k == kString:
		st := v.str()
		if in.ti(d.elem).w == 8 {
			return in.strToBytes(st)
		}
		var runes []Val
		for i := 0; i < st.len(); {
			r, n := in.decodeRune(st, i)
			runes = append(runes, r)
			i += n
		}
		o := in.newObj(0, "[]rune")
		o.cells = runes
		return Val{p: &Slice{o: o, len: len(runes), cap: len(runes)}}
	case d.k == kPtr && s.k == kPtr:
		return v
	case d.k == kInt && s.k == kPtr:
		// uintptr(unsafe.Pointer): only identity is meaningful
		if v.p == nil {
			return Val{}
		}
		if o, ok := v.p.(*Obj); ok {
			return Val{n: uint64(o.id)<<24 + v.n*8}
		}
	}
	if ci.ti.k == ci.ti2.k {
		return v
	}
	in.unsupported("conversion %s -> %s", s.t, d.t)
	return Val{}
}

func (in *Interp) bytesToStr(sl *Slice) Val {
	if sl.o.pooled {
		in.poolAccess(sl.o, "read")
	}
	sym := false
	for i := 0; i < sl.len; i++ {
		if sl.o.cells[sl.off+i].p != nil {
			sym = true
			break
		}
	}
	if !sym {
		b := make([]byte, sl.len)
		for i := range b {
			b[i] = byte(sl.o.cells[sl.off+i].n)
		}
		return strV(string(b))
	}
	b := make([]*Term, sl.len)
	for i := range b {
		b[i] = in.term(sl.o.cells[sl.off+i], 8)
	}
	return symStr(b)
}

func (in *Interp) strToBytes(st *Str) Val {
	n := st.len()
	o := in.newObj(n, "[]byte(string)")
	for i := 0; i < n; i++ {
		o.cells[i] = in.strByteV(st, i)
	}
	return Val{p: &Slice{o: o, len: n, cap: n}}
}

func (in *Interp) runeToStr(t *Term, s *tinfo) Val {
	if t.isConst() {
		if s.signed {
			return strV(string(rune(sext(t.k, s.w))))
		}
		if t.k > utf8.MaxRune {
			return strV("\uFFFD")
		}
		return strV(string(rune(t.k)))
	}
	if in.branch(in.tc.Ult(t, in.tc.Const(t.w, 0x80))) {
		if t.w < 8 {
			in.unsupported("rune width")
		}
		return symStr([]*Term{in.tc.Trunc(t, 8)})
	}
	n := in.concretize(t)
	return strV(string(rune(sext(n, s.w))))
}

// decodeRune decodes at i, forking on the ASCII case.
func (in *Interp) decodeRune(s *Str, i int) (Val, int) {
	if s.b == nil {
		r, n := utf8.DecodeRuneInString(s.s[i:])
		return Val{n: uint64(r) & mask(32)}, n
	}
	b := s.b[i]
	if b.isConst() && b.k < 0x80 {
		return Val{n: b.k}, 1
	}
	if !b.isConst() && in.branch(in.tc.Ult(b, in.tc.Const(8, 0x80))) {
		return normT(in.tc.Zext(b, 32)), 1
	}
	fn := in.p.fnDecodeRune
	if fn == nil {
		in.unsupported("utf8.DecodeRuneInString unavailable")
	}
	j := i + 4
	if j > len(s.b) {
		j = len(s.b)
	}
	r := in.call(fn, []Val{s.slice(i, j)}, nil).p.(*Agg)
	return r.c[0], int(in.concretize(in.term(r.c[1], 64)))
}

// ---- indexing ----

// symPtr is an element address with a symbolic index.
type symPtr struct {
	o     *Obj
	off   int
	n     int
	esize int
	idx   *Term
}

func (in *Interp) boundsFail(idx Val, n int) {
	panic(in.goPanicMsg(fmt.Sprintf("index out of range with length %d", n)))
}

// checkIdx verifies 0 <= idx < n and returns either a concrete index or a
// symbolic one.
func (in *Interp) checkIdx(v Val, t *tinfo, n int) (int, *Term) {
	if v.p == nil {
		var i int64
		if t.signed {
			i = sext(v.n, t.w)
		} else {
			i = int64(v.n)
			if t.w == 64 && v.n > 1<<62 {
				i = -1
			}
		}
		if i < 0 || i >= int64(n) {
			in.boundsFail(v, n)
		}
		return int(i), nil
	}
	x := in.term(v, t.w)
	if t.w < 64 {
		if t.signed {
			x = in.tc.Sext(x, 64)
		} else {
			x = in.tc.Zext(x, 64)
		}
	}
	if !in.branch(in.tc.Ult(x, in.tc.Const(64, uint64(n)))) {
		in.boundsFail(v, n)
	}
	if x.isConst() {
		return int(x.k), nil
	}
	return 0, x
}

const maxIteRuns = 48

// selectVals builds the value at symbolic index x of scalar cells.
func (in *Interp) selectVals(get func(i int) *Term, n int, x *Term) *Term {
	type run struct {
		hi int
		t  *Term
	}
	var runs []run
	for i := 0; i < n; i++ {
		t := get(i)
		if t == nil {
			return nil
		}
		if k := len(runs); k > 0 && runs[k-1].t == t {
			runs[k-1].hi = i
		} else {
			runs = append(runs, run{i, t})
			if len(runs) > maxIteRuns {
				return nil
			}
		}
	}
	if len(runs) == 0 {
		return nil
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if lo == hi {
			return runs[lo].t
		}
		m := (lo + hi) / 2
		return in.tc.Ite(in.tc.Ule(x, in.tc.Const(64, uint64(runs[m].hi))), build(lo, m), build(m+1, hi))
	}
	return build(0, len(runs)-1)
}

func (in *Interp) loadSym(p *symPtr, t *tinfo) Val {
	if t.k == kInt || t.k == kBool {
		r := in.selectVals(func(i int) *Term {
			v := p.o.cells[p.off+i*p.esize]
			if v.p != nil {
				if _, ok := v.p.(*Term); !ok {
					return nil
				}
			}
			return in.term(v, t.w)
		}, p.n, p.idx)
		if r != nil {
			return normT(r)
		}
	}
	v := in.resolveSym(p)
	return in.loadCells(v.p.(*Obj), int(v.n), t)
}

func (in *Interp) resolveSym(p *symPtr) Val {
	i := in.concretize(p.idx)
	return Val{p: p.o, n: uint64(p.off + int(i)*p.esize)}
}

func (in *Interp) index(ci *cinstr, x, idx Val) Val {
	if ci.ti.k == kString {
		s := x.str()
		i, t := in.checkIdx(idx, ci.ti2, s.len())
		if t == nil {
			return in.strByteV(s, i)
		}
		if r := in.selectVals(func(i int) *Term { return in.strByte(s, i) }, s.len(), t); r != nil {
			return normT(r)
		}
		return in.strByteV(s, int(in.concretize(t)))
	}
	a := x.p.(*Agg)
	i, t := in.checkIdx(idx, ci.ti2, ci.ti.alen)
	et := in.ti(ci.ti.elem)
	if t != nil {
		if et.k == kInt || et.k == kBool {
			if r := in.selectVals(func(i int) *Term { return in.term(a.c[i], et.w) }, ci.ti.alen, t); r != nil {
				return normT(r)
			}
		}
		i = int(in.concretize(t))
	}
	return subVal(a.c, i*ci.ti.esize, et)
}

func (in *Interp) indexAddr(ci *cinstr, x, idx Val) Val {
	if sp, ok := x.p.(*symPtr); ok {
		x = in.resolveSym(sp)
	}
	if ci.ti.k == kArray {
		o := in.obj(x)
		i, t := in.checkIdx(idx, ci.ti2, ci.ti.alen)
		if t != nil {
			return Val{p: &symPtr{o, int(x.n), ci.ti.alen, ci.ti.esize, t}}
		}
		return Val{p: o, n: x.n + uint64(i*ci.ti.esize)}
	}
	s, ok := x.p.(*Slice)
	if !ok {
		if x.p != nil {
			in.unsupported("index of %T", x.p)
		}
		in.boundsFail(idx, 0)
	}
	i, t := in.checkIdx(idx, ci.ti2, s.len)
	if t != nil {
		return Val{p: &symPtr{s.o, s.off, s.len, ci.ti.esize, t}}
	}
	return Val{p: s.o, n: uint64(s.off + i*ci.ti.esize)}
}

func (in *Interp) lookup(ci *cinstr, x, k Val) Val {
	if ci.ti.k == kString {
		c2 := *ci
		return in.index(&c2, x, k)
	}
	var v Val
	found := false
	if x.p != nil {
		m, ok := x.p.(*MapObj)
		if !ok {
			in.unsupported("lookup in %T", x.p)
		}
		if i := in.mapFind(m, ci.t, k); i >= 0 {
			v = m.ents[i].v
			found = true
		}
	} else if h := in.ti(ci.t); h.k == kIface {
		in.hashKey(ci.t, k) // may panic for unhashable
	}
	if !found {
		v = in.zero(ci.ti2)
	}
	if ci.flag {
		return Val{p: &Agg{[]Val{v, boolV(found)}}}
	}
	return v
}

// ---- slicing ----

func (in *Interp) concInt(v Val) int {
	if v.p == nil {
		return int(int64(v.n))
	}
	return int(int64(in.concretize(in.term(v, 64))))
}

func (in *Interp) slice(fr *frame, ci *cinstr) Val {
	x := fr.get(&ci.a)
	if sp, ok := x.p.(*symPtr); ok {
		x = in.resolveSym(sp)
	}
	bound := func(bit int, o *operand, def int) int {
		if ci.n&bit == 0 {
			return def
		}
		return in.concInt(fr.get(o))
	}
	fail := func(l, h, c int) {
		panic(in.goPanicMsg(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, c)))
	}
	switch ci.ti.k {
	case kString:
		s := x.str()
		l := bound(1, &ci.b, 0)
		h := bound(2, &ci.c, s.len())
		if l < 0 || h < l || h > s.len() {
			fail(l, h, s.len())
		}
		return s.slice(l, h)
	case kArray:
		o := in.obj(x)
		l := bound(1, &ci.b, 0)
		h := bound(2, &ci.c, ci.ti.alen)
		m := bound(4, &ci.d, ci.ti.alen)
		if l < 0 || h < l || m < h || m > ci.ti.alen {
			fail(l, h, m)
		}
		return Val{p: &Slice{o: o, off: int(x.n) + l*ci.ti.esize, len: h - l, cap: m - l}}
	case kSlice:
		if x.p == nil {
			l := bound(1, &ci.b, 0)
			h := bound(2, &ci.c, 0)
			m := bound(4, &ci.d, 0)
			if l != 0 || h != 0 || m != 0 {
				fail(l, h, 0)
			}
			return Val{}
		}
		s, ok := x.p.(*Slice)
		if !ok {
			in.unsupported("slice of %T", x.p)
		}
		l := bound(1, &ci.b, 0)
		h := bound(2, &ci.c, s.len)
		m := bound(4, &ci.d, s.cap)
		if l < 0 || h < l || m < h || m > s.cap {
			fail(l, h, s.cap)
		}
		return Val{p: &Slice{o: s.o, off: s.off + l*ci.ti.esize, len: h - l, cap: m - l}}
	}
	in.unsupported("slice of %s", ci.ti.t)
	return Val{}
}

// ---- range ----

type iter struct {
	s   *Str
	pos int
	m   *MapObj
	kt  types.Type
	ord []int
	i   int
}

func (in *Interp) rangeStart(ci *cinstr, v Val) Val {
	if ci.ti.k == kString {
		return Val{p: &iter{s: v.str()}}
	}
	it := &iter{}
	if v.p != nil {
		it.m = v.p.(*MapObj)
		for i := range it.m.ents {
			if !it.m.ents[i].dead {
				it.ord = append(it.ord, i)
			}
		}
		if in.mapNondet && len(it.ord) > 1 {
			// arbitrary iteration order
			for i := 0; i < len(it.ord)-1; i++ {
				j := i + in.choose(len(it.ord)-i)
				it.ord[i], it.ord[j] = it.ord[j], it.ord[i]
			}
		}
	}
	return Val{p: it}
}

func (in *Interp) rangeNext(ci *cinstr, v Val) Val {
	it := v.p.(*iter)
	if ci.flag {
		if it.pos >= it.s.len() {
			return Val{p: &Agg{[]Val{{}, {}, {}}}}
		}
		p := it.pos
		r, n := in.decodeRune(it.s, p)
		it.pos += n
		return Val{p: &Agg{[]Val{boolV(true), intV(p), r}}}
	}
	tup := ci.t.(*types.Tuple)
	z := func() Val {
		return Val{p: &Agg{[]Val{{}, in.zeroOr(tup.At(1).Type()), in.zeroOr(tup.At(2).Type())}}}
	}
	if it.m == nil {
		return z()
	}
	for it.i < len(it.ord) {
		e := it.m.ents[it.ord[it.i]]
		it.i++
		if e.dead {
			continue
		}
		return Val{p: &Agg{[]Val{boolV(true), e.k, e.v}}}
	}
	return z()
}

func (in *Interp) zeroOr(t types.Type) Val {
	ti := in.ti(t)
	if ti.k == kInvalid {
		return Val{}
	}
	return in.zero(ti)
}

// ---- type assertion ----

func (in *Interp) implements(t types.Type, it *types.Interface, key types.Type) bool {
	k := [2]types.Type{t, key}
	if r, ok := in.implC[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	in.implC[k] = r
	return r
}

func (in *Interp) typeAssert(ci *cinstr, v Val) Val {
	if p, ok := v.p.(poisonT); ok {
		in.unsupported("type assertion on unmodelled value (%s)", p.why)
	}
	ok := false
	var r Val
	if v.p != nil {
		f := v.p.(*Iface)
		if it, isI := ci.t.Underlying().(*types.Interface); isI {
			ok = in.implements(f.t, it, ci.t)
			r = v
		} else {
			ok = f.t == ci.t || in.canon(f.t) == ci.t
			r = f.v
		}
	}
	if !ok {
		if !ci.flag {
			s := "nil"
			if v.p != nil {
				s = v.p.(*Iface).t.String()
			}
			panic(in.goPanicMsg("interface conversion: interface is " + s + ", not " + ci.t.String()))
		}
		r = in.zero(ci.ti)
	}
	if ci.flag {
		return Val{p: &Agg{[]Val{r, boolV(ok)}}}
	}
	return r
}

// ---- builtins ----

func (in *Interp) builtin(fr *frame, cc *ssa.CallCommon, args []Val) Val {
	name := cc.Value.(*ssa.Builtin).Name()
	switch name {
	case "len", "cap":
		v := args[0]
		switch x := v.p.(type) {
		case nil:
			if t := in.ti(cc.Args[0].Type()); t.k == kArray {
				return intV(t.alen)
			}
			return Val{}
		case *Str:
			return intV(x.len())
		case *Slice:
			if name == "cap" {
				return intV(x.cap)
			}
			return intV(x.len)
		case *MapObj:
			if x.nsym > 0 {
				return intV(x.live)
			}
			return intV(x.live)
		case *Agg:
			return intV(in.ti(cc.Args[0].Type()).alen)
		case *Obj:
			return intV(in.ti(deref(cc.Args[0].Type())).alen)
		}
		in.unsupported("len of %T", v.p)
	case "append":
		return in.appendB(cc, args)
	case "copy":
		dst, _ := args[0].p.(*Slice)
		if dst == nil {
			return Val{}
		}
		es := in.ti(cc.Args[0].Type()).esize
		if st, ok := args[1].p.(*Str); ok {
			n := st.len()
			if dst.len < n {
				n = dst.len
			}
			for i := 0; i < n; i++ {
				in.store(dst.o, dst.off+i, in.strByteV(st, i))
			}
			return intV(n)
		}
		src, _ := args[1].p.(*Slice)
		if src == nil {
			return Val{}
		}
		n := src.len
		if dst.len < n {
			n = dst.len
		}
		if src.o.pooled {
			in.poolAccess(src.o, "read")
		}
		tmp := append([]Val(nil), src.o.cells[src.off:src.off+n*es]...)
		for i, v := range tmp {
			in.store(dst.o, dst.off+i, v)
		}
		return intV(n)
	case "delete":
		if args[0].p == nil {
			return Val{}
		}
		in.mapDelete(args[0].p.(*MapObj), cc.Args[0].Type().Underlying().(*types.Map).Key(), args[1])
		return Val{}
	case "clear":
		switch x := args[0].p.(type) {
		case *MapObj:
			in.mapTouch(x)
			x.ents, x.idx, x.nsym, x.live = nil, map[string]int{}, 0, 0
		case *Slice:
			es := in.ti(cc.Args[0].Type()).esize
			for i := 0; i < x.len*es; i++ {
				in.store(x.o, x.off+i, Val{})
			}
		}
		return Val{}
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		// the frame that called us must be a deferred call of a panicking one
		if fr != nil && fr.deferOf != nil && fr.deferOf.panicking != nil {
			v := fr.deferOf.panicking.v
			fr.deferOf.panicking = nil
			if v.p == nil { // panic(nil)
				v = in.runtimeErr("panic called with nil argument")
			}
			return v
		}
		return Val{}
	case "print", "println":
		return Val{}
	case "min", "max":
		t := in.ti(cc.Args[0].Type())
		r := args[0]
		for _, a := range args[1:] {
			var lt *Term
			switch t.k {
			case kInt:
				lt = in.cmp(token.LSS, in.term(a, t.w), in.term(r, t.w), t.signed)
			case kString:
				lt = in.strLt(a.str(), r.str())
			case kFloat:
				lt = in.tc.Bool(f64(a, t) < f64(r, t))
			default:
				in.unsupported("%s on %s", name, t.t)
			}
			if name == "max" {
				switch t.k {
				case kInt:
					lt = in.cmp(token.LSS, in.term(r, t.w), in.term(a, t.w), t.signed)
				case kString:
					lt = in.strLt(r.str(), a.str())
				case kFloat:
					lt = in.tc.Bool(f64(r, t) < f64(a, t))
				}
			}
			if t.k == kInt {
				r = normT(in.tc.Ite(lt, in.term(a, t.w), in.term(r, t.w)))
			} else if in.branch(lt) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			panic(in.goPanicMsg("value method called using nil pointer"))
		}
		return args[0]
	case "ssa:deferstack":
		return Val{}
	case "String": // unsafe.String
		n := in.concInt(args[1])
		if n == 0 {
			return Val{}
		}
		o := in.obj(args[0])
		return in.bytesToStr(&Slice{o: o, off: int(args[0].n), len: n, cap: n})
	case "StringData":
		if args[0].p == nil {
			return Val{}
		}
		s := in.strToBytes(args[0].str()).p.(*Slice)
		return Val{p: s.o, n: uint64(s.off)}
	case "SliceData":
		if args[0].p == nil {
			return Val{}
		}
		s := args[0].p.(*Slice)
		return Val{p: s.o, n: uint64(s.off)}
	case "Slice":
		n := in.concInt(args[1])
		if args[0].p == nil {
			return Val{}
		}
		return Val{p: &Slice{o: in.obj(args[0]), off: int(args[0].n), len: n, cap: n}}
	}
	in.unsupported("builtin %s", name)
	return Val{}
}

func (in *Interp) appendB(cc *ssa.CallCommon, args []Val) Val {
	st := in.ti(cc.Args[0].Type())
	es := st.esize
	old, _ := args[0].p.(*Slice)
	var add []Val
	n := 0
	switch x := args[1].p.(type) {
	case nil:
		return args[0]
	case *Str:
		n = x.len()
		add = make([]Val, n)
		for i := range add {
			add[i] = in.strByteV(x, i)
		}
	case *Slice:
		n = x.len
		if x.o.pooled {
			in.poolAccess(x.o, "read")
		}
		add = x.o.cells[x.off : x.off+n*es]
	default:
		in.unsupported("append of %T", args[1].p)
	}
	if n == 0 {
		return args[0]
	}
	if old == nil {
		old = &Slice{}
	}
	if old.o != nil && old.len+n <= old.cap {
		add = append([]Val(nil), add...)
		for i, v := range add {
			in.store(old.o, old.off+old.len*es+i, v)
		}
		return Val{p: &Slice{o: old.o, off: old.off, len: old.len + n, cap: old.cap}}
	}
	nc := old.cap * 2
	if nc < old.len+n {
		nc = old.len + n
	}
	// round up small capacities as the runtime's size classes do (8 bytes)
	if es == 1 && st.elem != nil && in.ti(st.elem).w == 8 && nc < 8 {
		nc = 8
	}
	o := in.newObj(nc*es, "append in "+in.topName())
	if old.o != nil {
		if old.o.pooled {
			in.poolAccess(old.o, "read")
		}
		copy(o.cells, old.o.cells[old.off:old.off+old.len*es])
	}
	copy(o.cells[old.len*es:], add)
	return Val{p: &Slice{o: o, len: old.len + n, cap: nc}}
}

func (in *Interp) topName() string {
	if in.top == nil {
		return "?"
	}
	return in.top.code.name
}
