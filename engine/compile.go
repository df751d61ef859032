package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type operand struct {
	slot int32 // >= 0: frame register
	v    Val   // constant when slot < 0
}

type phi struct {
	dst int32
	in  []operand // by predecessor index
}

type cblock struct {
	phis  []phi
	ins   []cinstr
	succs []int32
	// predIdx[i] = for each successor, the index of this block among its preds
	predIdx []int32
	hits    *int64
}

type cinstr struct {
	op   uint8
	dst  int32
	a, b operand
	c, d operand
	args []operand
	ti   *tinfo // result (or relevant) type info
	ti2  *tinfo
	t    types.Type
	n    int
	n2   int
	tok  token.Token
	flag bool
	fn   *ssa.Function
	src  ssa.Instruction
	ic   *callCache
}

type callCache struct {
	t  types.Type
	fn *ssa.Function
}

const (
	iAlloc uint8 = iota
	iBin
	iNot
	iNeg
	iCompl
	iLoad
	iStore
	iCallStatic
	iCallInvoke
	iCallDyn
	iBuiltin
	iMove
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSlice
	iSliceToArr
	iTypeAssert
	iUnsupported
)

type fnCode struct {
	fn       *ssa.Function
	name     string
	nslots   int
	nparams  int
	blocks   []cblock
	intr     func(in *Interp, args []Val, fr *frame) Val
	noBody   bool
	target   bool // function of the package under verification (not harness)
	calls    int64
	instrs   int
	recover_ int32 // index of the recover block or -1
	results  *types.Tuple
}

func (in *Interp) code(fn *ssa.Function) *fnCode {
	if c, ok := in.codes[fn]; ok {
		return c
	}
	c := in.compile(fn)
	in.codes[fn] = c
	return c
}

func fnFullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (in *Interp) compile(fn *ssa.Function) *fnCode {
	c := &fnCode{fn: fn, name: fnFullName(fn), recover_: -1, results: fn.Signature.Results()}
	if f, ok := intrinsics[c.name]; ok {
		c.intr = f
		return c
	}
	if f := in.findIntrinsic(fn, c.name); f != nil {
		c.intr = f
		return c
	}
	return in.compileBody(fn)
}

func (in *Interp) compileBody(fn *ssa.Function) *fnCode {
	c := &fnCode{fn: fn, name: fnFullName(fn), recover_: -1, results: fn.Signature.Results()}
	if len(fn.Blocks) == 0 {
		c.noBody = true
		return c
	}
	slots := map[ssa.Value]int32{}
	next := int32(0)
	add := func(v ssa.Value) int32 {
		s := next
		slots[v] = s
		next++
		return s
	}
	for _, p := range fn.Params {
		add(p)
	}
	c.nparams = len(fn.Params)
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	c.nslots = int(next)
	op := func(v ssa.Value) operand {
		if v == nil {
			return operand{slot: -1}
		}
		if s, ok := slots[v]; ok {
			return operand{slot: s}
		}
		return operand{slot: -1, v: in.constOperand(v)}
	}
	c.target = in.isTarget(fn)
	c.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &c.blocks[bi]
		cb.hits = new(int64)
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, int32(s.Index))
		}
		// predecessor positions: handle duplicate edges in order
		used := map[*ssa.BasicBlock]int{}
		for _, s := range b.Succs {
			k := used[s]
			used[s]++
			pi := -1
			for j, p := range s.Preds {
				if p == b {
					if k == 0 {
						pi = j
						break
					}
					k--
				}
			}
			cb.predIdx = append(cb.predIdx, int32(pi))
		}
		for _, i := range b.Instrs {
			if p, ok := i.(*ssa.Phi); ok {
				ph := phi{dst: slots[p]}
				for _, e := range p.Edges {
					ph.in = append(ph.in, op(e))
				}
				cb.phis = append(cb.phis, ph)
				continue
			}
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			cb.ins = append(cb.ins, in.compileInstr(fn, i, slots, op))
			c.instrs++
		}
	}
	if fn.Recover != nil {
		c.recover_ = int32(fn.Recover.Index)
	}
	return c
}

func (in *Interp) constOperand(v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return in.constVal(v)
	case *ssa.Global:
		return Val{p: in.global(v)}
	case *ssa.Function:
		return Val{p: &Func{fn: v}}
	case *ssa.Builtin:
		return Val{p: &Func{name: v.Name()}}
	}
	panic(fmt.Sprintf("constOperand %T", v))
}

func (in *Interp) constVal(c *ssa.Const) Val {
	ti := in.ti(c.Type())
	if c.Value == nil {
		return in.zero(ti)
	}
	switch ti.k {
	case kBool:
		return boolV(constant.BoolVal(c.Value))
	case kInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Val{n: uint64(i) & mask(ti.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Val{n: u & mask(ti.w)}
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		return fval(f, ti)
	case kString:
		if c.Value.Kind() == constant.String {
			return strV(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return strV(string(rune(i)))
	}
	return Val{p: poisonT{"constant of type " + c.Type().String()}}
}

func f64(v Val, t *tinfo) float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(v.n)))
	}
	return math.Float64frombits(v.n)
}

func fval(f float64, t *tinfo) Val {
	if t.w == 32 {
		return Val{n: uint64(math.Float32bits(float32(f)))}
	}
	return Val{n: math.Float64bits(f)}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (in *Interp) compileInstr(fn *ssa.Function, i ssa.Instruction, slots map[ssa.Value]int32, op func(ssa.Value) operand) cinstr {
	ci := cinstr{src: i, dst: -1}
	if v, ok := i.(ssa.Value); ok {
		ci.dst = slots[v]
	}
	call := func(cc *ssa.CallCommon) {
		for _, a := range cc.Args {
			ci.args = append(ci.args, op(a))
		}
		if cc.IsInvoke() {
			ci.op = iCallInvoke
			ci.a = op(cc.Value)
			ci.ic = &callCache{}
			return
		}
		switch f := cc.Value.(type) {
		case *ssa.Function:
			ci.op = iCallStatic
			ci.fn = f
		case *ssa.Builtin:
			ci.op = iBuiltin
		default:
			ci.op = iCallDyn
			ci.a = op(cc.Value)
		}
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		ci.op = iAlloc
		ci.ti = in.ti(deref(x.Type()))
		ci.flag = x.Heap
	case *ssa.BinOp:
		ci.op = iBin
		ci.tok = x.Op
		ci.a, ci.b = op(x.X), op(x.Y)
		ci.ti = in.ti(x.X.Type())
		ci.t = x.X.Type()
		ci.ti2 = in.ti(x.Y.Type())
		// comparisons between interface and concrete
		if _, ok := x.X.Type().Underlying().(*types.Interface); !ok {
			if _, ok := x.Y.Type().Underlying().(*types.Interface); ok {
				ci.ti = in.ti(x.Y.Type())
			}
		}
	case *ssa.UnOp:
		ci.a = op(x.X)
		ci.ti = in.ti(x.Type())
		switch x.Op {
		case token.MUL:
			ci.op = iLoad
		case token.NOT:
			ci.op = iNot
		case token.SUB:
			ci.op = iNeg
		case token.XOR:
			ci.op = iCompl
		default:
			ci.op = iUnsupported
		}
	case *ssa.Store:
		ci.op = iStore
		ci.a, ci.b = op(x.Addr), op(x.Val)
		ci.ti = in.ti(x.Val.Type())
	case *ssa.Call:
		call(&x.Call)
		ci.t = x.Type()
	case *ssa.Go:
		ci.op = iUnsupported
	case *ssa.Defer:
		call(&x.Call)
		ci.n = int(ci.op)
		ci.op = iDefer
	case *ssa.ChangeInterface, *ssa.ChangeType:
		ci.op = iMove
		ci.a = op((*i.Operands(nil)[0]))
	case *ssa.Convert:
		ci.op = iConvert
		ci.a = op(x.X)
		ci.ti = in.ti(x.Type())
		ci.ti2 = in.ti(x.X.Type())
	case *ssa.MultiConvert:
		ci.op = iConvert
		ci.a = op(x.X)
		ci.ti = in.ti(x.Type())
		ci.ti2 = in.ti(x.X.Type())
	case *ssa.Extract:
		ci.op = iExtract
		ci.a = op(x.Tuple)
		ci.n = x.Index
	case *ssa.Field:
		ci.op = iField
		ci.a = op(x.X)
		ci.n = in.ti(x.X.Type()).foff[x.Field]
		ci.ti = in.ti(x.Type())
	case *ssa.FieldAddr:
		ci.op = iFieldAddr
		ci.a = op(x.X)
		ci.n = in.ti(deref(x.X.Type())).foff[x.Field]
	case *ssa.If:
		ci.op = iIf
		ci.a = op(x.Cond)
	case *ssa.Index:
		ci.op = iIndex
		ci.a, ci.b = op(x.X), op(x.Index)
		ci.ti = in.ti(x.X.Type())
		ci.ti2 = in.ti(x.Index.Type())
		if ci.ti.k == kArray {
			ci.t = ci.ti.elem
		}
	case *ssa.IndexAddr:
		ci.op = iIndexAddr
		ci.a, ci.b = op(x.X), op(x.Index)
		ci.ti2 = in.ti(x.Index.Type())
		xt := x.X.Type()
		if _, ok := xt.Underlying().(*types.Pointer); ok {
			ci.ti = in.ti(deref(xt))
		} else {
			ci.ti = in.ti(xt)
		}
	case *ssa.Jump:
		ci.op = iJump
	case *ssa.Lookup:
		ci.op = iLookup
		ci.a, ci.b = op(x.X), op(x.Index)
		ci.ti = in.ti(x.X.Type())
		ci.ti2 = in.ti(x.Index.Type())
		ci.flag = x.CommaOk
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			ci.t = m.Key()
			ci.ti2 = in.ti(m.Elem())
		}
	case *ssa.MakeClosure:
		ci.op = iClosure
		ci.fn = x.Fn.(*ssa.Function)
		for _, b := range x.Bindings {
			ci.args = append(ci.args, op(b))
		}
	case *ssa.MakeInterface:
		ci.op = iMakeIface
		ci.a = op(x.X)
		ci.t = in.canon(x.X.Type())
	case *ssa.MakeMap:
		ci.op = iMakeMap
	case *ssa.MakeSlice:
		ci.op = iMakeSlice
		ci.a, ci.b = op(x.Len), op(x.Cap)
		ci.ti = in.ti(x.Type())
		ci.ti2 = in.ti(x.Len.Type())
	case *ssa.MapUpdate:
		ci.op = iMapUpdate
		ci.a, ci.b, ci.c = op(x.Map), op(x.Key), op(x.Value)
		ci.t = x.Map.Type().Underlying().(*types.Map).Key()
	case *ssa.Next:
		ci.op = iNext
		ci.a = op(x.Iter)
		ci.flag = x.IsString
		ci.t = x.Type()
	case *ssa.Panic:
		ci.op = iPanic
		ci.a = op(x.X)
	case *ssa.Range:
		ci.op = iRange
		ci.a = op(x.X)
		ci.ti = in.ti(x.X.Type())
		ci.t = x.X.Type()
	case *ssa.Return:
		ci.op = iReturn
		for _, r := range x.Results {
			ci.args = append(ci.args, op(r))
		}
	case *ssa.RunDefers:
		ci.op = iRunDefers
	case *ssa.Slice:
		ci.op = iSlice
		ci.a, ci.b, ci.c, ci.d = op(x.X), op(x.Low), op(x.High), op(x.Max)
		if x.Low != nil {
			ci.n |= 1
		}
		if x.High != nil {
			ci.n |= 2
		}
		if x.Max != nil {
			ci.n |= 4
		}
		xt := x.X.Type()
		if _, ok := xt.Underlying().(*types.Pointer); ok {
			ci.ti = in.ti(deref(xt)) // array
		} else {
			ci.ti = in.ti(xt)
		}
	case *ssa.SliceToArrayPointer:
		ci.op = iSliceToArr
		ci.a = op(x.X)
		ci.ti = in.ti(deref(x.Type()))
	case *ssa.TypeAssert:
		ci.op = iTypeAssert
		ci.a = op(x.X)
		ci.t = in.canon(x.AssertedType)
		ci.ti = in.ti(x.AssertedType)
		ci.flag = x.CommaOk
	default:
		ci.op = iUnsupported
	}
	return ci
}
