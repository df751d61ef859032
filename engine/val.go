package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is one interpreter value; its shape is determined by the static type:
//
//	bool, integers   n (concrete) or p=*Term (symbolic)
//	floats           n = bits (concrete only)
//	string           p=*Str (nil: "")
//	pointers         p=*Obj, n=cell offset (nil: nil pointer)
//	slices           p=*Slice (nil: nil slice)
//	interfaces       p=*Iface (nil: nil interface)
//	structs, arrays  p=*Agg with flattened cells
//	tuples           p=*Agg with one element per component
//	funcs            p=*Func (nil: nil func)
//	maps             p=*MapObj (nil: nil map)
type Val struct {
	n uint64
	p any
}

type Str struct {
	s string
	b []*Term // non-nil: symbolic bytes (every element width 8)
}

type Slice struct {
	o        *Obj
	off      int // first cell
	len, cap int // in elements
}

type Iface struct {
	t types.Type // canonical
	v Val
}

type Agg struct{ c []Val }

type Func struct {
	fn     *ssa.Function
	env    []Val
	native func(in *Interp, args []Val) Val
	name   string
}

type Obj struct {
	cells  []Val
	id     int
	base   bool // created before the path began (shared state)
	pooled bool // currently inside a sync.Pool
	exempt bool // not counted by the shared-write monitor
	native any
	what   string
}

type mapEntry struct {
	k, v Val
	dead bool
}

type MapObj struct {
	ents  []mapEntry
	idx   map[string]int
	nsym  int
	live  int
	base  bool
	saved bool
	gen   int
	id    int
	what  string
}

type poisonT struct{ why string }

func intV(n int) Val    { return Val{n: uint64(int64(n))} }
func termV(t *Term) Val { return normT(t) }
func normT(t *Term) Val {
	if t.isConst() {
		return Val{n: t.k}
	}
	return Val{p: t}
}
func boolV(b bool) Val {
	if b {
		return Val{n: 1}
	}
	return Val{}
}
func strV(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{p: &Str{s: s}}
}

func symStr(b []*Term) Val {
	if len(b) == 0 {
		return Val{}
	}
	for _, t := range b {
		if !t.isConst() {
			return Val{p: &Str{b: b}}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.k)
	}
	return Val{p: &Str{s: string(bs)}}
}

func (v Val) str() *Str {
	if v.p == nil {
		return &Str{}
	}
	return v.p.(*Str)
}

func (s *Str) len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s *Str) concrete() bool { return s.b == nil }

func (s *Str) slice(i, j int) Val {
	if s.b != nil {
		return symStr(s.b[i:j:j])
	}
	return strV(s.s[i:j])
}

func (in *Interp) strByte(s *Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return in.tc.Const(8, uint64(s.s[i]))
}

func (in *Interp) strBytes(s *Str) []*Term {
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = in.tc.Const(8, uint64(s.s[i]))
	}
	return out
}

func (in *Interp) strByteV(s *Str, i int) Val {
	if s.b != nil {
		return normT(s.b[i])
	}
	return Val{n: uint64(s.s[i])}
}

// term converts an integer/bool value of width w to a term.
func (in *Interp) term(v Val, w uint8) *Term {
	if v.p != nil {
		if t, ok := v.p.(*Term); ok {
			return t
		}
		in.unsupported("non-scalar used as scalar: %T", v.p)
	}
	return in.tc.Const(w, v.n)
}

// ---- type information ----

type kind uint8

const (
	kInvalid kind = iota
	kBool
	kInt
	kFloat
	kString
	kPtr
	kSlice
	kIface
	kStruct
	kArray
	kFunc
	kMap
	kChan
	kTuple
)

type tinfo struct {
	k      kind
	w      uint8
	signed bool
	size   int // cells
	agg    bool
	elem   types.Type
	esize  int   // element cells for slices, arrays, pointers
	alen   int   // arrays
	foff   []int // struct field offsets
	t      types.Type
}

func (in *Interp) ti(t types.Type) *tinfo {
	if x, ok := in.tinfos[t]; ok {
		return x
	}
	x := in.mkti(t)
	in.tinfos[t] = x
	return x
}

func (in *Interp) mkti(t types.Type) *tinfo {
	x := &tinfo{size: 1, t: t}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			x.k, x.w = kBool, 0
		case types.Int, types.Int64, types.UntypedInt:
			x.k, x.w, x.signed = kInt, 64, true
		case types.Int32, types.UntypedRune:
			x.k, x.w, x.signed = kInt, 32, true
		case types.Int16:
			x.k, x.w, x.signed = kInt, 16, true
		case types.Int8:
			x.k, x.w, x.signed = kInt, 8, true
		case types.Uint, types.Uint64, types.Uintptr:
			x.k, x.w = kInt, 64
		case types.Uint32:
			x.k, x.w = kInt, 32
		case types.Uint16:
			x.k, x.w = kInt, 16
		case types.Uint8:
			x.k, x.w = kInt, 8
		case types.Float64, types.UntypedFloat:
			x.k, x.w = kFloat, 64
		case types.Float32:
			x.k, x.w = kFloat, 32
		case types.String, types.UntypedString:
			x.k = kString
		case types.UnsafePointer:
			x.k = kPtr
		case types.UntypedNil:
			x.k = kPtr
		default:
			x.k = kInvalid
		}
	case *types.Pointer:
		x.k = kPtr
		x.elem = u.Elem()
	case *types.Slice:
		x.k = kSlice
		x.elem = u.Elem()
		x.esize = in.ti(u.Elem()).size
	case *types.Interface:
		x.k = kIface
	case *types.Struct:
		x.k = kStruct
		x.agg = true
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			x.foff = append(x.foff, off)
			off += in.ti(u.Field(i).Type()).size
		}
		x.size = off
	case *types.Array:
		x.k = kArray
		x.agg = true
		x.elem = u.Elem()
		x.esize = in.ti(u.Elem()).size
		x.alen = int(u.Len())
		x.size = x.esize * x.alen
	case *types.Signature:
		x.k = kFunc
	case *types.Map:
		x.k = kMap
	case *types.Chan:
		x.k = kChan
	case *types.Tuple:
		x.k = kTuple
	case *types.TypeParam:
		x.k = kInvalid
	default:
		x.k = kInvalid
	}
	return x
}

func (in *Interp) zero(t *tinfo) Val {
	if t.agg {
		return Val{p: &Agg{make([]Val, t.size)}}
	}
	return Val{}
}

// canon returns a representative for identical types.
func (in *Interp) canon(t types.Type) types.Type {
	if c, ok := in.canons[t]; ok {
		return c
	}
	c := in.canonMap.At(t)
	if c == nil {
		in.canonMap.Set(t, t)
		in.canons[t] = t
		return t
	}
	ct := c.(types.Type)
	in.canons[t] = ct
	return ct
}

// ---- memory ----

func (in *Interp) newObj(n int, what string) *Obj {
	in.nobj++
	return &Obj{cells: make([]Val, n), id: in.nobj, base: in.baseEpoch, what: what}
}

type undoRec struct {
	o   *Obj
	i   int
	old Val
	m   *MapObj
	ms  *MapObj
}

func (in *Interp) store(o *Obj, i int, v Val) {
	if o.base {
		if in.logging {
			in.undo = append(in.undo, undoRec{o: o, i: i, old: o.cells[i]})
		}
	}
	if in.mon.shared && (o.base || o.id <= in.frozen) && !o.exempt && in.locks == 0 && in.inLazy == 0 {
		in.sharedWrite(o, i)
	}
	if o.pooled {
		in.poolAccess(o, "write")
	}
	o.cells[i] = v
}

func (in *Interp) loadCells(o *Obj, off int, t *tinfo) Val {
	if o.pooled {
		in.poolAccess(o, "read")
	}
	if t.agg {
		if off+t.size > len(o.cells) {
			in.unsupported("load outside object (%s)", t.t)
		}
		c := make([]Val, t.size)
		copy(c, o.cells[off:off+t.size])
		return Val{p: &Agg{c}}
	}
	if off >= len(o.cells) {
		in.unsupported("load outside object (%s) off %d of %d", t.t, off, len(o.cells))
	}
	return o.cells[off]
}

func (in *Interp) storeCells(o *Obj, off int, t *tinfo, v Val) {
	if t.agg {
		if off+t.size > len(o.cells) {
			in.unsupported("store outside object (%s)", t.t)
		}
		if v.p == nil {
			for i := 0; i < t.size; i++ {
				in.store(o, off+i, Val{})
			}
			return
		}
		if pp, ok := v.p.(poisonT); ok {
			for i := 0; i < t.size; i++ {
				in.store(o, off+i, Val{p: pp})
			}
			return
		}
		for i, c := range v.p.(*Agg).c {
			in.store(o, off+i, c)
		}
		return
	}
	if off >= len(o.cells) {
		in.unsupported("store outside object (%s)", t.t)
	}
	in.store(o, off, v)
}

// ---- equality ----

func (in *Interp) eqVal(t types.Type, a, b Val) *Term {
	ti := in.ti(t)
	switch ti.k {
	case kBool, kInt:
		return in.tc.Eq(in.term(a, ti.w), in.term(b, ti.w))
	case kFloat:
		return in.tc.Bool(f64(a, ti) == f64(b, ti))
	case kString:
		return in.strEq(a.str(), b.str())
	case kPtr:
		return in.tc.Bool(ptrEq(a, b))
	case kIface:
		return in.ifaceEq(a, b)
	case kStruct:
		st := t.Underlying().(*types.Struct)
		r := in.tc.true_
		ac, bc := aggCells(a, ti.size), aggCells(b, ti.size)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "_" {
				continue
			}
			ft := in.ti(st.Field(i).Type())
			r = in.tc.And(r, in.eqVal(st.Field(i).Type(), subVal(ac, ti.foff[i], ft), subVal(bc, ti.foff[i], ft)))
		}
		return r
	case kArray:
		r := in.tc.true_
		et := in.ti(ti.elem)
		ac, bc := aggCells(a, ti.size), aggCells(b, ti.size)
		for i := 0; i < ti.alen; i++ {
			r = in.tc.And(r, in.eqVal(ti.elem, subVal(ac, i*ti.esize, et), subVal(bc, i*ti.esize, et)))
		}
		return r
	case kFunc, kMap, kSlice, kChan:
		if a.p == nil || b.p == nil {
			return in.tc.Bool(a.p == nil && b.p == nil)
		}
		if ti.k == kMap || ti.k == kChan {
			return in.tc.Bool(a.p == b.p)
		}
		panic(in.goPanicMsg("comparing uncomparable type " + t.String()))
	}
	in.unsupported("comparison of %s", t)
	return nil
}

func aggCells(v Val, n int) []Val {
	if v.p == nil {
		return make([]Val, n)
	}
	return v.p.(*Agg).c
}

func subVal(c []Val, off int, t *tinfo) Val {
	if t.agg {
		return Val{p: &Agg{c[off : off+t.size : off+t.size]}}
	}
	return c[off]
}

func ptrEq(a, b Val) bool {
	if a.p == nil || b.p == nil {
		return a.p == nil && b.p == nil
	}
	ao, aok := a.p.(*Obj)
	bo, bok := b.p.(*Obj)
	if aok && bok {
		return ao == bo && a.n == b.n
	}
	return a.p == b.p
}

func (in *Interp) ifaceEq(a, b Val) *Term {
	if a.p == nil || b.p == nil {
		return in.tc.Bool(a.p == nil && b.p == nil)
	}
	ia, ok1 := a.p.(*Iface)
	ib, ok2 := b.p.(*Iface)
	if !ok1 || !ok2 {
		in.unsupported("interface comparison with %T/%T", a.p, b.p)
	}
	if in.canon(ia.t) != in.canon(ib.t) {
		return in.tc.false_
	}
	if !types.Comparable(ia.t) {
		panic(in.goPanicMsg("comparing uncomparable type " + ia.t.String()))
	}
	return in.eqVal(ia.t, ia.v, ib.v)
}

func (in *Interp) strEq(a, b *Str) *Term {
	if a.len() != b.len() {
		return in.tc.false_
	}
	if a.b == nil && b.b == nil {
		return in.tc.Bool(a.s == b.s)
	}
	r := in.tc.true_
	for i := a.len() - 1; i >= 0; i-- {
		r = in.tc.And(in.tc.Eq(in.strByte(a, i), in.strByte(b, i)), r)
		if r == in.tc.false_ {
			return r
		}
	}
	return r
}

// strLt is the lexicographic order as a term.
func (in *Interp) strLt(a, b *Str) *Term {
	if a.b == nil && b.b == nil {
		return in.tc.Bool(a.s < b.s)
	}
	n := a.len()
	if b.len() < n {
		n = b.len()
	}
	r := in.tc.Bool(a.len() < b.len())
	for i := n - 1; i >= 0; i-- {
		x, y := in.strByte(a, i), in.strByte(b, i)
		r = in.tc.Or(in.tc.Ult(x, y), in.tc.And(in.tc.Eq(x, y), r))
	}
	return r
}

// ---- maps ----

// hashKey renders a fully concrete key; ok is false if any part is symbolic.
func (in *Interp) hashKey(t types.Type, v Val) (string, bool) {
	ti := in.ti(t)
	switch ti.k {
	case kBool, kInt, kFloat:
		if v.p != nil {
			return "", false
		}
		return fmt.Sprintf("i%x", v.n), true
	case kString:
		s := v.str()
		if !s.concrete() {
			return "", false
		}
		return "s" + s.s, true
	case kPtr, kChan:
		if v.p == nil {
			return "p0", true
		}
		if o, ok := v.p.(*Obj); ok {
			return fmt.Sprintf("p%d.%d", o.id, v.n), true
		}
		return fmt.Sprintf("P%p", v.p), true
	case kIface:
		if v.p == nil {
			return "n", true
		}
		f := v.p.(*Iface)
		if !types.Comparable(f.t) {
			panic(in.goPanicMsg("hash of unhashable type " + f.t.String()))
		}
		h, ok := in.hashKey(f.t, f.v)
		return fmt.Sprintf("f%p:%s", in.canon(f.t), h), ok
	case kStruct:
		st := t.Underlying().(*types.Struct)
		c := aggCells(v, ti.size)
		var sb strings.Builder
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			h, ok := in.hashKey(ft, subVal(c, ti.foff[i], in.ti(ft)))
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s|", len(h), h)
		}
		return "t" + sb.String(), true
	case kArray:
		c := aggCells(v, ti.size)
		et := in.ti(ti.elem)
		var sb strings.Builder
		for i := 0; i < ti.alen; i++ {
			h, ok := in.hashKey(ti.elem, subVal(c, i*ti.esize, et))
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s|", len(h), h)
		}
		return "a" + sb.String(), true
	}
	in.unsupported("map key of type %s", t)
	return "", false
}

func (in *Interp) newMap(what string) *MapObj {
	in.nobj++
	return &MapObj{idx: map[string]int{}, base: in.baseEpoch, id: in.nobj, what: what}
}

// mapFind returns the index of the key's entry or -1, forking on equality
// with entries when symbolic keys are involved.
func (in *Interp) mapFind(m *MapObj, kt types.Type, k Val) int {
	h, ok := in.hashKey(kt, k)
	if ok {
		if i, ok := m.idx[h]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.dead {
			continue
		}
		c := in.eqVal(kt, e.k, k)
		if in.branch(c) {
			return i
		}
	}
	return -1
}

func (in *Interp) mapTouch(m *MapObj) {
	if m.base {
		if in.logging && !m.saved {
			m.saved = true
			s := &MapObj{ents: append([]mapEntry(nil), m.ents...), idx: map[string]int{}, nsym: m.nsym, live: m.live}
			for k, v := range m.idx {
				s.idx[k] = v
			}
			in.undo = append(in.undo, undoRec{m: m, ms: s})
		}
	}
	if in.mon.shared && (m.base || m.id <= in.frozen) && in.locks == 0 && in.inLazy == 0 {
		in.event("shared", "map write to shared state ("+m.what+") while serving, in "+in.where())
	}
}

func (in *Interp) mapSet(m *MapObj, kt types.Type, k, v Val) {
	in.mapTouch(m)
	i := in.mapFind(m, kt, k)
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	h, ok := in.hashKey(kt, k)
	if ok {
		m.idx[h] = len(m.ents)
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, mapEntry{k: k, v: v})
	m.live++
}

func (in *Interp) mapDelete(m *MapObj, kt types.Type, k Val) {
	in.mapTouch(m)
	i := in.mapFind(m, kt, k)
	if i < 0 {
		return
	}
	if h, ok := in.hashKey(kt, m.ents[i].k); ok {
		delete(m.idx, h)
	} else {
		m.nsym--
	}
	m.ents[i].dead = true
	m.live--
}

func (in *Interp) rollback() {
	for i := len(in.undo) - 1; i >= 0; i-- {
		r := in.undo[i]
		if r.m != nil {
			r.m.ents, r.m.idx, r.m.nsym, r.m.live = r.ms.ents, r.ms.idx, r.ms.nsym, r.ms.live
			r.m.saved = false
			continue
		}
		r.o.cells[r.i] = r.old
	}
	in.undo = in.undo[:0]
}
