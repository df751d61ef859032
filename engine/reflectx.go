package main

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// A small model of reflect: types and method values, enough for method
// detection. reflect.Type values are *reflect.rtype pointers to one canonical
// object per type; reflect.Value keeps its content in the first cell.

type reflVal struct {
	t types.Type
	v Val
	m *types.Selection // a bound method, if non-nil
}

func (in *Interp) rtypeIface(t types.Type) Val {
	ct := in.canon(t)
	o, ok := in.rtypes[ct]
	if !ok {
		saved := in.baseEpoch
		in.baseEpoch = true
		o = in.newObj(64, "rtype "+t.String())
		in.baseEpoch = saved
		o.native = ct
		in.rtypes[ct] = o
	}
	if in.p.rtypeT == nil {
		in.unsupported("reflect.rtype unavailable")
	}
	return Val{p: &Iface{in.canon(types.NewPointer(in.p.rtypeT)), Val{p: o}}}
}

func (in *Interp) rtypeOf(v Val) types.Type {
	t, ok := in.obj(v).native.(types.Type)
	if !ok {
		in.unsupported("reflect type of unknown origin")
	}
	return t
}

func (in *Interp) exported(t types.Type) []*types.Selection {
	ms := in.p.prog.MethodSets.MethodSet(t)
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Exported() {
			out = append(out, s)
		}
	}
	// sorted by name
	for i := range out {
		for j := i; j > 0 && out[j].Obj().Name() < out[j-1].Obj().Name(); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func noRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func (in *Interp) reflValue(r *reflVal) Val {
	return Val{p: &Agg{[]Val{{p: r}, {}, {}}}}
}

func (in *Interp) reflOf(v Val) *reflVal {
	a, ok := v.p.(*Agg)
	if !ok || len(a.c) == 0 {
		return nil
	}
	r, _ := a.c[0].p.(*reflVal)
	return r
}

func (in *Interp) reflKind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16,
			types.Int32: reflect.Int32, types.Int64: reflect.Int64, types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16,
			types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr, types.Float32: reflect.Float32,
			types.Float64: reflect.Float64, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer}
		return m[u.Kind()]
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func (in *Interp) boundMethod(r *reflVal) Val {
	fn := in.p.prog.MethodValue(r.m)
	recv := r.v
	return Val{p: &Func{name: fn.String(), native: func(in *Interp, args []Val) Val {
		return in.callCode(in.code(fn), append([]Val{recv}, args...), nil, nil)
	}}}
}

func addReflectIntrinsics() {
	intrinsics["reflect.TypeOf"] = func(in *Interp, a []Val, _ *frame) Val {
		if a[0].p == nil {
			return Val{}
		}
		return in.rtypeIface(a[0].p.(*Iface).t)
	}
	intrinsics["(*reflect.rtype).NumMethod"] = func(in *Interp, a []Val, _ *frame) Val {
		return intV(len(in.exported(in.rtypeOf(a[0]))))
	}
	method := func(in *Interp, s *types.Selection, i int) Val {
		// reflect.Method{Name, PkgPath string; Type Type; Func Value; Index int}
		return Val{p: &Agg{[]Val{strV(s.Obj().Name()), {}, in.rtypeIface(noRecv(s.Type().(*types.Signature))), {}, {}, {}, intV(i)}}}
	}
	intrinsics["(*reflect.rtype).Method"] = func(in *Interp, a []Val, _ *frame) Val {
		ms := in.exported(in.rtypeOf(a[0]))
		i := in.concInt(a[1])
		if i < 0 || i >= len(ms) {
			panic(in.goPanicMsg("reflect: Method index out of range"))
		}
		return method(in, ms[i], i)
	}
	intrinsics["(*reflect.rtype).MethodByName"] = func(in *Interp, a []Val, _ *frame) Val {
		n := a[1].str()
		if !n.concrete() {
			in.unsupported("symbolic method name")
		}
		for i, s := range in.exported(in.rtypeOf(a[0])) {
			if s.Obj().Name() == n.s {
				return tuple(method(in, s, i), boolV(true))
			}
		}
		return tuple(Val{p: &Agg{make([]Val, 7)}}, Val{})
	}
	intrinsics["(*reflect.rtype).Kind"] = func(in *Interp, a []Val, _ *frame) Val {
		return intV(int(in.reflKind(in.rtypeOf(a[0]))))
	}
	intrinsics["(*reflect.rtype).String"] = func(in *Interp, a []Val, _ *frame) Val {
		return strV(types.TypeString(in.rtypeOf(a[0]), func(p *types.Package) string { return p.Name() }))
	}
	intrinsics["(*reflect.rtype).Comparable"] = func(in *Interp, a []Val, _ *frame) Val {
		return boolV(types.Comparable(in.rtypeOf(a[0])))
	}
	intrinsics["reflect.ValueOf"] = func(in *Interp, a []Val, _ *frame) Val {
		if a[0].p == nil {
			return Val{p: &Agg{make([]Val, 3)}}
		}
		f := a[0].p.(*Iface)
		return in.reflValue(&reflVal{t: f.t, v: f.v})
	}
	intrinsics["(reflect.Value).MethodByName"] = func(in *Interp, a []Val, _ *frame) Val {
		r := in.reflOf(a[0])
		n := a[1].str()
		if r == nil || !n.concrete() {
			in.unsupported("MethodByName")
		}
		for _, s := range in.exported(r.t) {
			if s.Obj().Name() == n.s {
				return in.reflValue(&reflVal{t: noRecv(s.Type().(*types.Signature)), v: r.v, m: s})
			}
		}
		return Val{p: &Agg{make([]Val, 3)}}
	}
	intrinsics["(reflect.Value).Method"] = func(in *Interp, a []Val, _ *frame) Val {
		r := in.reflOf(a[0])
		i := in.concInt(a[1])
		if r == nil {
			in.unsupported("Method of zero Value")
		}
		ms := in.exported(r.t)
		if i < 0 || i >= len(ms) {
			panic(in.goPanicMsg("reflect: Method index out of range"))
		}
		return in.reflValue(&reflVal{t: noRecv(ms[i].Type().(*types.Signature)), v: r.v, m: ms[i]})
	}
	intrinsics["(reflect.Value).NumMethod"] = func(in *Interp, a []Val, _ *frame) Val {
		r := in.reflOf(a[0])
		if r == nil {
			in.unsupported("NumMethod of zero Value")
		}
		return intV(len(in.exported(r.t)))
	}
	intrinsics["(reflect.Value).Kind"] = func(in *Interp, a []Val, _ *frame) Val {
		r := in.reflOf(a[0])
		if r == nil {
			return Val{}
		}
		return intV(int(in.reflKind(r.t)))
	}
	intrinsics["(reflect.Value).IsValid"] = func(in *Interp, a []Val, _ *frame) Val {
		return boolV(in.reflOf(a[0]) != nil)
	}
	intrinsics["(reflect.Value).Type"] = func(in *Interp, a []Val, _ *frame) Val {
		r := in.reflOf(a[0])
		if r == nil {
			panic(in.goPanicMsg("reflect: call of Type on zero Value"))
		}
		return in.rtypeIface(r.t)
	}
	intrinsics["(reflect.Value).Interface"] = func(in *Interp, a []Val, _ *frame) Val {
		r := in.reflOf(a[0])
		if r == nil {
			panic(in.goPanicMsg("reflect: call of Interface on zero Value"))
		}
		if r.m != nil {
			return Val{p: &Iface{in.canon(r.t), in.boundMethod(r)}}
		}
		return Val{p: &Iface{in.canon(r.t), r.v}}
	}
	intrinsics["(reflect.Value).IsNil"] = func(in *Interp, a []Val, _ *frame) Val {
		r := in.reflOf(a[0])
		if r == nil {
			panic(in.goPanicMsg("reflect: call of IsNil on zero Value"))
		}
		return boolV(r.m == nil && r.v.p == nil)
	}
	intrinsics["(reflect.Value).Pointer"] = func(in *Interp, a []Val, _ *frame) Val {
		r := in.reflOf(a[0])
		if r == nil {
			in.unsupported("Pointer of zero Value")
		}
		if f, ok := r.v.p.(*Func); ok && f.fn != nil {
			in.p.pcMu.Lock()
			defer in.p.pcMu.Unlock()
			return Val{n: in.p.pcOf(f.fn)}
		}
		if o, ok := r.v.p.(*Obj); ok {
			return Val{n: uint64(o.id)<<24 + r.v.n*8}
		}
		return Val{}
	}
	intrinsics["internal/reflectlite.TypeOf"] = func(in *Interp, a []Val, _ *frame) Val {
		if a[0].p == nil {
			return Val{}
		}
		return in.rtypeIface(a[0].p.(*Iface).t) // only Comparable is used on it
	}
	// sort.Slice with the caller's less function (stable insertion sort)
	sortSlice := func(in *Interp, a []Val, _ *frame) Val {
		f, _ := a[0].p.(*Iface)
		if f == nil {
			return Val{}
		}
		s, _ := f.v.p.(*Slice)
		if s == nil {
			return Val{}
		}
		es := in.ti(f.t).esize
		for i := 1; i < s.len; i++ {
			for j := i; j > 0; j-- {
				r := in.callVal(a[1], []Val{intV(j), intV(j - 1)})
				if !in.branch(in.term(r, 0)) {
					break
				}
				for k := 0; k < es; k++ {
					x, y := s.off+j*es+k, s.off+(j-1)*es+k
					vx, vy := s.o.cells[x], s.o.cells[y]
					in.store(s.o, x, vy)
					in.store(s.o, y, vx)
				}
			}
		}
		return Val{}
	}
	intrinsics["sort.Slice"] = sortSlice
	intrinsics["sort.SliceStable"] = sortSlice
}

var _ = ssa.InstantiateGenerics
