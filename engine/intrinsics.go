package main

import (
	"errors"
	"fmt"
	"go/types"
	"net/textproto"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrFn = func(in *Interp, args []Val, fr *frame) Val

var intrinsics map[string]intrFn

func unit(in *Interp, args []Val, fr *frame) Val { return Val{} }
func ident(in *Interp, args []Val, fr *frame) Val {
	return args[0]
}

func tuple(vs ...Val) Val { return Val{p: &Agg{vs}} }

// indexByte returns the first (last) i with s[i]==c, forking per byte.
func (in *Interp) idxByte(n int, at func(int) *Term, c *Term, last bool) Val {
	if last {
		for i := n - 1; i >= 0; i-- {
			if in.branch(in.tc.Eq(at(i), c)) {
				return intV(i)
			}
		}
		return intV(-1)
	}
	for i := 0; i < n; i++ {
		if in.branch(in.tc.Eq(at(i), c)) {
			return intV(i)
		}
	}
	return intV(-1)
}

func (in *Interp) sliceTerms(v Val) (int, func(int) *Term) {
	s, _ := v.p.(*Slice)
	if s == nil {
		return 0, nil
	}
	return s.len, func(i int) *Term { return in.term(s.o.cells[s.off+i], 8) }
}

func (in *Interp) strTerms(v Val) (int, func(int) *Term) {
	s := v.str()
	return s.len(), func(i int) *Term { return in.strByte(s, i) }
}

func (in *Interp) indexSub(n int, at func(int) *Term, m int, bt func(int) *Term) Val {
	for i := 0; i+m <= n; i++ {
		c := in.tc.true_
		for j := m - 1; j >= 0; j-- {
			c = in.tc.And(in.tc.Eq(at(i+j), bt(j)), c)
		}
		if in.branch(c) {
			return intV(i)
		}
	}
	return intV(-1)
}

func (in *Interp) countB(n int, at func(int) *Term, c *Term) Val {
	k := 0
	for i := 0; i < n; i++ {
		if in.branch(in.tc.Eq(at(i), c)) {
			k++
		}
	}
	return intV(k)
}

func (in *Interp) cmpStr(a, b *Str) Val {
	if in.branch(in.strEq(a, b)) {
		return intV(0)
	}
	if in.branch(in.strLt(a, b)) {
		return intV(-1)
	}
	return intV(1)
}

func (in *Interp) caseMap(v Val, lo, hi byte, delta uint64) (Val, bool) {
	s := v.str()
	if s.concrete() {
		return Val{}, false
	}
	ascii := in.tc.true_
	for _, t := range s.b {
		ascii = in.tc.And(ascii, in.tc.Ult(t, in.tc.Const(8, 0x80)))
	}
	if !in.branch(ascii) {
		return Val{}, false
	}
	out := make([]*Term, len(s.b))
	for i, t := range s.b {
		up := in.tc.And(in.tc.Ule(in.tc.Const(8, uint64(lo)), t), in.tc.Ule(t, in.tc.Const(8, uint64(hi))))
		out[i] = in.tc.Ite(up, in.tc.Bin(oAdd, t, in.tc.Const(8, delta)), t)
	}
	return symStr(out), true
}

// concreteArg turns an interface value into a native Go value for formatting.
func (in *Interp) concreteArg(v Val) (any, bool) {
	if v.p == nil {
		return nil, true
	}
	f, ok := v.p.(*Iface)
	if !ok {
		return nil, false
	}
	ti := in.ti(f.t)
	if _, named := f.t.(*types.Basic); !named {
		if s, ok := in.callStringMethod(f, "Error"); ok {
			return errors.New(s), s != "<symbolic text>"
		}
		if s, ok := in.callStringMethod(f, "String"); ok {
			return stringerText(s), s != "<symbolic text>"
		}
	}
	switch ti.k {
	case kString:
		s := f.v.str()
		return s.s, s.concrete()
	case kInt:
		if f.v.p != nil {
			return nil, false
		}
		if ti.w == 32 && ti.signed {
			return rune(sext(f.v.n, 32)), true
		}
		if ti.w == 8 && !ti.signed {
			return byte(f.v.n), true
		}
		if ti.signed {
			return sext(f.v.n, ti.w), true
		}
		return f.v.n, true
	case kBool:
		if f.v.p != nil {
			return nil, false
		}
		return f.v.n == 1, true
	case kFloat:
		return f64(f.v, ti), true
	case kSlice:
		if in.ti(ti.elem).w == 8 {
			s, _ := f.v.p.(*Slice)
			if s == nil {
				return []byte(nil), true
			}
			st := in.bytesToStr(s).str()
			return []byte(st.s), st.concrete()
		}
	}
	return nil, false
}

type stringerText string

func (s stringerText) String() string { return string(s) }

// fmtArgs converts a ...interface{} slice.
func (in *Interp) fmtArgs(v Val) ([]any, bool) {
	s, _ := v.p.(*Slice)
	if s == nil {
		return nil, true
	}
	all := true
	var out []any
	for i := 0; i < s.len; i++ {
		a, ok := in.concreteArg(s.o.cells[s.off+i])
		if !ok {
			all = false
			a = "<symbolic>"
		}
		out = append(out, a)
	}
	return out, all
}

const opaqueText = "<text of symbolic values>"

func (in *Interp) sprintf(format Val, args Val) Val {
	f := format.str()
	a, ok := in.fmtArgs(args)
	if !f.concrete() || !ok {
		// simple exact case: only %s and %v of strings
		if f.concrete() {
			if r, ok := in.sprintfSym(f.s, args); ok {
				return r
			}
		}
		return strV(opaqueText)
	}
	return strV(fmt.Sprintf(f.s, a...))
}

func (in *Interp) sprintfSym(f string, args Val) (Val, bool) {
	s, _ := args.p.(*Slice)
	if s == nil {
		return Val{}, false
	}
	r := Val{}
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			r = in.concat(r.str(), &Str{s: f[i : i+1]})
			continue
		}
		i++
		if i >= len(f) || (f[i] != 's' && f[i] != 'v') || k >= s.len {
			return Val{}, false
		}
		a, _ := s.o.cells[s.off+k].p.(*Iface)
		k++
		if a == nil || in.ti(a.t).k != kString {
			return Val{}, false
		}
		r = in.concat(r.str(), a.v.str())
	}
	return r, k == s.len
}

// makeError builds a *errors.errorString.
func (in *Interp) makeError(msg Val) Val {
	o := in.newObj(1, "error")
	o.cells[0] = msg
	return Val{p: &Iface{in.canon(types.NewPointer(in.p.errStringT)), Val{p: o}}}
}

func (in *Interp) errorf(args []Val) Val {
	f := args[0].str()
	msg := Val{}
	if f.concrete() {
		msg = in.sprintf(strV(strings.ReplaceAll(f.s, "%w", "%v")), args[1])
	} else {
		msg = strV(opaqueText)
	}
	// the wrapped errors: arguments of %w verbs in order
	var wrapped []Val
	if f.concrete() {
		s, _ := args[1].p.(*Slice)
		k := 0
		for i := 0; i < len(f.s); i++ {
			if f.s[i] != '%' {
				continue
			}
			i++
			for i < len(f.s) && strings.IndexByte("+-# 0123456789.[]", f.s[i]) >= 0 {
				i++
			}
			if i >= len(f.s) {
				break
			}
			if f.s[i] == '%' {
				continue
			}
			if f.s[i] == 'w' && s != nil && k < s.len {
				a := s.o.cells[s.off+k]
				if a.p != nil {
					if it, ok := a.p.(*Iface); ok && in.implements(it.t, in.p.errorIface, types.Universe.Lookup("error").Type()) {
						wrapped = append(wrapped, a)
					}
				}
			}
			k++
		}
	}
	switch len(wrapped) {
	case 0:
		return in.makeError(msg)
	case 1:
		o := in.newObj(2, "fmt.Errorf")
		o.cells[0] = msg
		o.cells[1] = wrapped[0]
		return Val{p: &Iface{in.canon(types.NewPointer(in.p.wrapErrT)), Val{p: o}}}
	}
	so := in.newObj(len(wrapped), "fmt.Errorf")
	copy(so.cells, wrapped)
	o := in.newObj(2, "fmt.Errorf")
	o.cells[0] = msg
	o.cells[1] = Val{p: &Slice{o: so, len: len(wrapped), cap: len(wrapped)}}
	return Val{p: &Iface{in.canon(types.NewPointer(in.p.wrapErrsT)), Val{p: o}}}
}

func (in *Interp) lookupMethod(t types.Type, name string) *ssa.Function {
	sel := in.p.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return in.p.prog.MethodValue(sel)
}

func (in *Interp) errorsIs(err, target Val) bool {
	for n := 0; n < 100; n++ {
		if err.p == nil || target.p == nil {
			return err.p == nil && target.p == nil
		}
		e := err.p.(*Iface)
		if types.Comparable(target.p.(*Iface).t) && in.branch(in.ifaceEq(err, target)) {
			return true
		}
		if fn := in.lookupMethod(e.t, "Is"); fn != nil && fn.Signature.Params().Len() == 1 && fn.Signature.Results().Len() == 1 {
			r := in.call(fn, []Val{e.v, target}, nil)
			if in.branch(in.term(r, 0)) {
				return true
			}
		}
		fn := in.lookupMethod(e.t, "Unwrap")
		if fn == nil {
			return false
		}
		r := in.call(fn, []Val{e.v}, nil)
		if s, ok := r.p.(*Slice); ok {
			for i := 0; i < s.len; i++ {
				if in.errorsIs(s.o.cells[s.off+i], target) {
					return true
				}
			}
			return false
		}
		if r.p == nil {
			return false
		}
		err = r
	}
	return false
}

func (in *Interp) writeTo(w Val, s Val) Val {
	if w.p == nil {
		in.nilDeref()
	}
	f := w.p.(*Iface)
	fn := in.lookupMethod(f.t, "Write")
	if fn == nil {
		in.unsupported("io.Writer %s", f.t)
	}
	var b Val
	if s.p != nil {
		b = in.strToBytes(s.str())
	} else {
		b = Val{p: &Slice{o: in.newObj(0, "[]byte"), len: 0, cap: 0}}
	}
	return in.call(fn, []Val{f.v, b}, nil)
}

func (in *Interp) sprint(args Val, ln bool) Val {
	a, ok := in.fmtArgs(args)
	if !ok {
		if s, _ := args.p.(*Slice); s != nil && s.len == 1 {
			if f, _ := s.o.cells[s.off].p.(*Iface); f != nil && in.ti(f.t).k == kString {
				r := f.v
				if ln {
					r = in.concat(r.str(), &Str{s: "\n"})
				}
				return r
			}
		}
		return strV(opaqueText)
	}
	if ln {
		return strV(fmt.Sprintln(a...))
	}
	return strV(fmt.Sprint(a...))
}

func lockFn(d int) intrFn {
	return func(in *Interp, args []Val, fr *frame) Val {
		in.obj(args[0])
		in.locks += d
		return Val{}
	}
}

func atomicLoad(in *Interp, args []Val, fr *frame) Val {
	return in.obj(args[0]).cells[args[0].n]
}

func (in *Interp) atomicSet(p Val, v Val) {
	o := in.obj(p)
	if o.base && in.logging {
		in.undo = append(in.undo, undoRec{o: o, i: int(p.n), old: o.cells[p.n]})
	}
	o.cells[p.n] = v
}

func init() {
	intrinsics = map[string]intrFn{
		// bytealg
		"internal/bytealg.IndexByteString": func(in *Interp, a []Val, _ *frame) Val {
			n, at := in.strTerms(a[0])
			return in.idxByte(n, at, in.term(a[1], 8), false)
		},
		"internal/bytealg.IndexByte": func(in *Interp, a []Val, _ *frame) Val {
			n, at := in.sliceTerms(a[0])
			return in.idxByte(n, at, in.term(a[1], 8), false)
		},
		"internal/bytealg.LastIndexByteString": func(in *Interp, a []Val, _ *frame) Val {
			n, at := in.strTerms(a[0])
			return in.idxByte(n, at, in.term(a[1], 8), true)
		},
		"internal/bytealg.LastIndexByte": func(in *Interp, a []Val, _ *frame) Val {
			n, at := in.sliceTerms(a[0])
			return in.idxByte(n, at, in.term(a[1], 8), true)
		},
		"internal/bytealg.CountString": func(in *Interp, a []Val, _ *frame) Val {
			n, at := in.strTerms(a[0])
			return in.countB(n, at, in.term(a[1], 8))
		},
		"internal/bytealg.Count": func(in *Interp, a []Val, _ *frame) Val {
			n, at := in.sliceTerms(a[0])
			return in.countB(n, at, in.term(a[1], 8))
		},
		"internal/bytealg.Equal": func(in *Interp, a []Val, _ *frame) Val {
			return normT(in.strEq(in.bytesStr(a[0]), in.bytesStr(a[1])))
		},
		"bytes.Equal": func(in *Interp, a []Val, _ *frame) Val {
			return normT(in.strEq(in.bytesStr(a[0]), in.bytesStr(a[1])))
		},
		"internal/bytealg.Compare": func(in *Interp, a []Val, _ *frame) Val {
			return in.cmpStr(in.bytesStr(a[0]), in.bytesStr(a[1]))
		},
		"internal/bytealg.CompareString": func(in *Interp, a []Val, _ *frame) Val {
			return in.cmpStr(a[0].str(), a[1].str())
		},
		"strings.Compare": func(in *Interp, a []Val, _ *frame) Val {
			return in.cmpStr(a[0].str(), a[1].str())
		},
		"cmp.Compare":          nil,
		"internal/bytealg.MakeNoZero": func(in *Interp, a []Val, _ *frame) Val {
			n := in.concInt(a[0])
			return Val{p: &Slice{o: in.newObj(n, "bytes"), len: n, cap: n}}
		},
		"internal/stringslite.Index": func(in *Interp, a []Val, _ *frame) Val {
			n, at := in.strTerms(a[0])
			m, bt := in.strTerms(a[1])
			return in.indexSub(n, at, m, bt)
		},
		"strings.Index": func(in *Interp, a []Val, _ *frame) Val {
			n, at := in.strTerms(a[0])
			m, bt := in.strTerms(a[1])
			return in.indexSub(n, at, m, bt)
		},
		"internal/bytealg.IndexString": func(in *Interp, a []Val, _ *frame) Val {
			n, at := in.strTerms(a[0])
			m, bt := in.strTerms(a[1])
			return in.indexSub(n, at, m, bt)
		},
		"strings.LastIndex": func(in *Interp, a []Val, _ *frame) Val {
			x, y := a[0].str(), a[1].str()
			n, m := x.len(), y.len()
			for i := n - m; i >= 0; i-- {
				if in.branch(in.strEq(x.slice(i, i+m).str(), y)) {
					return intV(i)
				}
			}
			return intV(-1)
		},
		"strings.ToUpper": nil,
		"strings.ToLower": nil,

		// unsafe helpers
		"internal/abi.NoEscape":                    ident,
		"internal/abi.Escape":                      ident,
		"strings.noescape":                         ident,
		"(*strings.Builder).copyCheck":             unit,
		"internal/race.Enabled":                    unit,
		"internal/race.Acquire":                    unit,
		"internal/race.Release":                    unit,
		"internal/race.ReleaseMerge":               unit,
		"internal/race.Disable":                    unit,
		"internal/race.Enable":                     unit,
		"runtime.KeepAlive":                        unit,
		"runtime.SetFinalizer":                     unit,
		"runtime.GC":                               unit,
		"runtime.Gosched":                          unit,
		"(*internal/godebug.Setting).Value":        func(in *Interp, a []Val, _ *frame) Val { return Val{} },
		"(*internal/godebug.Setting).IncNonDefault": unit,
		"internal/godebug.New": func(in *Interp, a []Val, _ *frame) Val {
			return Val{p: in.newObj(8, "godebug")}
		},

		// sync
		"(*sync.Mutex).Lock":      lockFn(1),
		"(*sync.Mutex).Unlock":    lockFn(-1),
		"(*sync.Mutex).TryLock":   func(in *Interp, a []Val, _ *frame) Val { in.locks++; return boolV(true) },
		"(*sync.RWMutex).Lock":    lockFn(1),
		"(*sync.RWMutex).Unlock":  lockFn(-1),
		"(*sync.RWMutex).RLock":   unit,
		"(*sync.RWMutex).RUnlock": unit,
		"(*sync.Once).Do": func(in *Interp, a []Val, _ *frame) Val {
			o := in.obj(a[0])
			i := int(a[0].n)
			if o.cells[i].n != 0 {
				return Val{}
			}
			in.atomicSet(a[0], Val{n: 1})
			in.locks++
			in.callVal(a[1], nil)
			in.locks--
			return Val{}
		},
		"(*sync.Pool).Get": func(in *Interp, a []Val, _ *frame) Val {
			p := in.obj(a[0])
			if l := in.pools[p]; len(l) > 0 {
				v := l[len(l)-1]
				in.pools[p] = l[:len(l)-1]
				if o := ifaceObj(v); o != nil {
					o.pooled = false
					o.exempt = true
				}
				return v
			}
			// New is the last field
			nf := p.cells[int(a[0].n)+in.p.poolNewOff]
			if nf.p == nil {
				return Val{}
			}
			return in.callVal(nf, nil)
		},
		"(*sync.Pool).Put": func(in *Interp, a []Val, _ *frame) Val {
			p := in.obj(a[0])
			if a[1].p == nil {
				return Val{}
			}
			if o := ifaceObj(a[1]); o != nil {
				if o.pooled {
					in.poolAccess(o, "second Put")
				}
				o.pooled = true
				in.pooledObj = append(in.pooledObj, o)
			}
			in.pools[p] = append(in.pools[p], a[1])
			return Val{}
		},

		// runtime
		"runtime.Caller": func(in *Interp, a []Val, fr *frame) Val {
			skip := in.concInt(a[0])
			f := in.top
			for i := 0; i < skip && f != nil; i++ {
				f = f.caller
			}
			if f == nil {
				return tuple(Val{}, Val{}, Val{}, boolV(false))
			}
			in.p.pcMu.Lock()
			pc := in.p.pcOf(f.code.fn)
			in.p.pcMu.Unlock()
			return tuple(Val{n: pc}, strV("file.go"), intV(1), boolV(true))
		},
		"runtime.FuncForPC": func(in *Interp, a []Val, _ *frame) Val {
			o := in.newObj(1, "runtime.Func")
			o.cells[0] = a[0]
			return Val{p: o}
		},
		"(*runtime.Func).Name": func(in *Interp, a []Val, _ *frame) Val {
			in.p.pcMu.Lock()
			defer in.p.pcMu.Unlock()
			pc := in.obj(a[0]).cells[0].n
			if fn := in.p.pcFns[pc]; fn != nil {
				return strV(nativeFuncName(fn))
			}
			return strV("unknown.func")
		},

		// errors, fmt
		"fmt.Errorf": func(in *Interp, a []Val, _ *frame) Val { return in.errorf(a) },
		"fmt.Sprintf": func(in *Interp, a []Val, _ *frame) Val {
			return in.sprintf(a[0], a[1])
		},
		"fmt.Sprint":   func(in *Interp, a []Val, _ *frame) Val { return in.sprint(a[0], false) },
		"fmt.Sprintln": func(in *Interp, a []Val, _ *frame) Val { return in.sprint(a[0], true) },
		"fmt.Fprintln": func(in *Interp, a []Val, _ *frame) Val {
			return in.writeTo(a[0], in.sprint(a[1], true))
		},
		"fmt.Fprint": func(in *Interp, a []Val, _ *frame) Val {
			return in.writeTo(a[0], in.sprint(a[1], false))
		},
		"fmt.Fprintf": func(in *Interp, a []Val, _ *frame) Val {
			return in.writeTo(a[0], in.sprintf(a[1], a[2]))
		},
		"fmt.Println": func(in *Interp, a []Val, _ *frame) Val { return tuple(Val{}, Val{}) },
		"fmt.Printf":  func(in *Interp, a []Val, _ *frame) Val { return tuple(Val{}, Val{}) },
		"fmt.Print":   func(in *Interp, a []Val, _ *frame) Val { return tuple(Val{}, Val{}) },
		"log.Println": unit,
		"log.Printf":  unit,
		"errors.Is": func(in *Interp, a []Val, _ *frame) Val {
			return boolV(in.errorsIs(a[0], a[1]))
		},
		"net/textproto.CanonicalMIMEHeaderKey": func(in *Interp, a []Val, _ *frame) Val {
			s := a[0].str()
			if !s.concrete() {
				in.unsupported("symbolic header key")
			}
			return strV(textproto.CanonicalMIMEHeaderKey(s.s))
		},
		"(*sync/atomic.Value).Load": func(in *Interp, a []Val, _ *frame) Val {
			return in.obj(a[0]).cells[a[0].n]
		},
		"(*sync/atomic.Value).Store": func(in *Interp, a []Val, _ *frame) Val {
			in.atomicSet(a[0], a[1])
			return Val{}
		},
	}
	delete(intrinsics, "strings.ToUpper")
	delete(intrinsics, "strings.ToLower")
	delete(intrinsics, "cmp.Compare")
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := uint8(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		for _, pk := range []string{"sync/atomic."} {
			intrinsics[pk+"Load"+ty] = atomicLoad
			intrinsics[pk+"Store"+ty] = func(in *Interp, a []Val, _ *frame) Val {
				in.atomicSet(a[0], a[1])
				return Val{}
			}
			intrinsics[pk+"Swap"+ty] = func(in *Interp, a []Val, _ *frame) Val {
				old := in.obj(a[0]).cells[a[0].n]
				in.atomicSet(a[0], a[1])
				return old
			}
			isPtr := ty == "Pointer"
			intrinsics[pk+"CompareAndSwap"+ty] = func(in *Interp, a []Val, _ *frame) Val {
				old := in.obj(a[0]).cells[a[0].n]
				var eq bool
				if isPtr {
					eq = ptrEq(old, a[1])
				} else {
					eq = in.branch(in.tc.Eq(in.term(old, w), in.term(a[1], w)))
				}
				if eq {
					in.atomicSet(a[0], a[2])
				}
				return boolV(eq)
			}
			if !isPtr {
				intrinsics[pk+"Add"+ty] = func(in *Interp, a []Val, _ *frame) Val {
					old := in.obj(a[0]).cells[a[0].n]
					nv := normT(in.tc.Bin(oAdd, in.term(old, w), in.term(a[1], w)))
					in.atomicSet(a[0], nv)
					return nv
				}
			}
		}
	}
	addRegexIntrinsics()
	addReflectIntrinsics()
}

func ifaceObj(v Val) *Obj {
	f, ok := v.p.(*Iface)
	if !ok {
		return nil
	}
	o, _ := f.v.p.(*Obj)
	return o
}

func (in *Interp) bytesStr(v Val) *Str {
	s, _ := v.p.(*Slice)
	if s == nil {
		return &Str{}
	}
	return in.bytesToStr(s).str()
}

// nativeFuncName renders a function's name the way the runtime does.
func nativeFuncName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return nativeFuncName(fn.Parent()) + ".func1"
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok {
				return pkg + ".(*" + n.Obj().Name() + ")." + fn.Name()
			}
		}
		if n, ok := t.(*types.Named); ok {
			return pkg + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	return pkg + "." + fn.Name()
}

// findIntrinsic handles functions that need a look at the receiver package or
// that are intercepted only for symbolic arguments.
func (in *Interp) findIntrinsic(fn *ssa.Function, name string) intrFn {
	if fn.Pkg == in.p.target && strings.HasPrefix(fn.Name(), "zz") {
		if f, ok := apiIntrinsics[fn.Name()]; ok {
			return f
		}
	}
	switch name {
	case "strings.ToUpper", "strings.ToLower":
		body := in.bodyOf(fn)
		up := name == "strings.ToUpper"
		return func(in *Interp, a []Val, _ *frame) Val {
			var r Val
			var ok bool
			if s := a[0].str(); s.concrete() {
				if up {
					return strV(strings.ToUpper(s.s))
				}
				return strV(strings.ToLower(s.s))
			}
			if up {
				r, ok = in.caseMap(a[0], 'a', 'z', 0xe0)
			} else {
				r, ok = in.caseMap(a[0], 'A', 'Z', 0x20)
			}
			if ok {
				return r
			}
			return in.callCode(body(), a, nil, nil)
		}
	}
	return nil
}

// bodyOf compiles fn's body bypassing interception.
func (in *Interp) bodyOf(fn *ssa.Function) func() *fnCode {
	var c *fnCode
	return func() *fnCode {
		if c == nil {
			c = in.compileBody(fn)
		}
		return c
	}
}
