package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms are hash-consed bit-vector (width 1..64) and Boolean (width 0) nodes.
// Every worker has its own table, so no locking is needed.

type Op uint8

const (
	oConst Op = iota
	oVar
	oNot // Boolean
	oAnd // Boolean, binary
	oOr  // Boolean, binary
	oIte // c ? a : b
	oEq  // any width -> Boolean
	oUlt
	oUle
	oSlt
	oSle
	oAdd
	oSub
	oMul
	oUdiv
	oUrem
	oSdiv
	oSrem
	oBand
	oBor
	oBxor
	oShl
	oLshr
	oAshr
	oZext
	oSext
	oTrunc
)

var opSMT = [...]string{"", "", "not", "and", "or", "ite", "=", "bvult", "bvule", "bvslt", "bvsle",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor",
	"bvshl", "bvlshr", "bvashr", "zext", "sext", "trunc"}

type Term struct {
	op      Op
	w       uint8 // result width; 0 = Boolean
	k       uint64
	a, b, c *Term
	id      int32
	vars    []int32 // sorted variable numbers
	// evaluation memo
	evGen int64
	evVal uint64
}

type termKey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
}

type TermCtx struct {
	tab    map[termKey]*Term
	next   int32
	true_  *Term
	false_ *Term
	vars   []*Term // by variable number
	evGen  int64
	small  [65][256]*Term
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}}
	c.true_ = c.mk(oConst, 0, 1, nil, nil, nil)
	c.false_ = c.mk(oConst, 0, 0, nil, nil, nil)
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *TermCtx) mk(op Op, w uint8, k uint64, x, y, z *Term) *Term {
	key := termKey{op, w, k, tid(x), tid(y), tid(z)}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, k: k, a: x, b: y, c: z, id: c.next}
	c.next++
	switch {
	case op == oVar:
		t.vars = []int32{int32(k)}
	case x != nil:
		t.vars = x.vars
		if y != nil {
			t.vars = unionVars(t.vars, y.vars)
		}
		if z != nil {
			t.vars = unionVars(t.vars, z.vars)
		}
	}
	c.tab[key] = t
	return t
}

func unionVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset tests avoid allocation
	i, j := 0, 0
	aSub, bSub := true, true
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			aSub = false
			i++
		case i >= len(a) || b[j] < a[i]:
			bSub = false
			j++
		default:
			i++
			j++
		}
	}
	if bSub {
		return a
	}
	if aSub {
		return b
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *TermCtx) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if v < 256 {
		if t := c.small[w][v]; t != nil {
			return t
		}
		t := c.mk(oConst, w, v, nil, nil, nil)
		c.small[w][v] = t
		return t
	}
	return c.mk(oConst, w, v, nil, nil, nil)
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.true_
	}
	return c.false_
}

// Var returns variable number n of width w.
func (c *TermCtx) Var(n int, w uint8) *Term {
	t := c.mk(oVar, w, uint64(n), nil, nil, nil)
	return t
}

func (t *Term) isConst() bool { return t.op == oConst }

func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case oConst:
		return c.Bool(a.k == 0)
	case oNot:
		return a.a
	case oUlt:
		return c.Ule(a.b, a.a)
	case oUle:
		return c.Ult(a.b, a.a)
	case oSlt:
		return c.Sle(a.b, a.a)
	case oSle:
		return c.Slt(a.b, a.a)
	}
	return c.mk(oNot, 0, 0, a, nil, nil)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == oNot && a.a == b) || (b.op == oNot && b.a == a) {
		return c.false_
	}
	return c.mk(oAnd, 0, 0, a, b, nil)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == oNot && a.a == b) || (b.op == oNot && b.a == a) {
		return c.true_
	}
	return c.mk(oOr, 0, 0, a, b, nil)
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.isConst() {
		if cond.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() {
			if a.k == 1 {
				return c.Or(cond, b)
			}
			return c.And(c.Not(cond), b)
		}
		if b.isConst() {
			if b.k == 1 {
				return c.Or(c.Not(cond), a)
			}
			return c.And(cond, a)
		}
	}
	if cond.op == oNot {
		return c.Ite(cond.a, b, a)
	}
	return c.mk(oIte, a.w, 0, cond, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.true_
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.k == 1 {
				return a
			}
			return c.Not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case oZext:
			if b.k > mask(a.a.w) {
				return c.false_
			}
			return c.Eq(a.a, c.Const(a.a.w, b.k))
		case oSext:
			if uint64(sext(b.k&mask(a.a.w), a.a.w))&mask(a.w) != b.k {
				return c.false_
			}
			return c.Eq(a.a, c.Const(a.a.w, b.k))
		case oIte:
			// push equality with a constant into constant-leaf ites
			if a.b.isConst() || a.c.isConst() {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case oAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(a.w, b.k-a.b.k))
			}
		case oBxor:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(a.w, b.k^a.b.k))
			}
		}
	} else {
		if a.op == oZext && b.op == oZext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(oEq, 0, 0, a, b, nil)
}

// constRange returns conservative unsigned bounds.
func urange(t *Term) (lo, hi uint64) {
	switch t.op {
	case oConst:
		return t.k, t.k
	case oZext:
		return urange(t.a)
	case oIte:
		l1, h1 := urange(t.b)
		l2, h2 := urange(t.c)
		if l2 < l1 {
			l1 = l2
		}
		if h2 > h1 {
			h1 = h2
		}
		return l1, h1
	case oBand:
		if t.b.isConst() {
			return 0, t.b.k
		}
	case oLshr:
		if t.b.isConst() && t.b.k < 64 {
			_, h := urange(t.a)
			return 0, h >> t.b.k
		}
	case oUrem:
		if t.b.isConst() && t.b.k > 0 {
			return 0, t.b.k - 1
		}
	}
	return 0, mask(t.w)
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.false_
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k < b.k)
	}
	al, ah := urange(a)
	bl, bh := urange(b)
	if ah < bl {
		return c.true_
	}
	if al >= bh {
		return c.false_
	}
	if a.op == oZext && b.isConst() && b.k <= mask(a.a.w) {
		return c.Ult(a.a, c.Const(a.a.w, b.k))
	}
	if b.op == oZext && a.isConst() && a.k <= mask(b.a.w) {
		return c.Ult(c.Const(b.a.w, a.k), b.a)
	}
	if a.op == oZext && b.op == oZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	return c.mk(oUlt, 0, 0, a, b, nil)
}

func (c *TermCtx) Ule(a, b *Term) *Term {
	if a == b {
		return c.true_
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k <= b.k)
	}
	al, ah := urange(a)
	bl, bh := urange(b)
	if ah <= bl {
		return c.true_
	}
	if al > bh {
		return c.false_
	}
	if a.op == oZext && b.isConst() && b.k <= mask(a.a.w) {
		return c.Ule(a.a, c.Const(a.a.w, b.k))
	}
	if b.op == oZext && a.isConst() && a.k <= mask(b.a.w) {
		return c.Ule(c.Const(b.a.w, a.k), b.a)
	}
	if a.op == oZext && b.op == oZext && a.a.w == b.a.w {
		return c.Ule(a.a, b.a)
	}
	return c.mk(oUle, 0, 0, a, b, nil)
}

func nonneg(t *Term) bool {
	_, h := urange(t)
	return h <= mask(t.w)>>1
}

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.false_
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sext(a.k, a.w) < sext(b.k, b.w))
	}
	an, bn := nonneg(a), nonneg(b)
	if an && bn {
		return c.Ult(a, b)
	}
	if an && b.isConst() { // b negative
		return c.false_
	}
	if bn && a.isConst() {
		return c.true_
	}
	return c.mk(oSlt, 0, 0, a, b, nil)
}

func (c *TermCtx) Sle(a, b *Term) *Term {
	if a == b {
		return c.true_
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sext(a.k, a.w) <= sext(b.k, b.w))
	}
	an, bn := nonneg(a), nonneg(b)
	if an && bn {
		return c.Ule(a, b)
	}
	if an && b.isConst() {
		return c.false_
	}
	if bn && a.isConst() {
		return c.true_
	}
	return c.mk(oSle, 0, 0, a, b, nil)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case oAdd:
		return (x + y) & m
	case oSub:
		return (x - y) & m
	case oMul:
		return (x * y) & m
	case oUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case oUrem:
		if y == 0 {
			return x
		}
		return x % y
	case oSdiv:
		if y == 0 {
			if sext(x, w) < 0 {
				return 1
			}
			return m
		}
		sx, sy := sext(x, w), sext(y, w)
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case oSrem:
		if y == 0 {
			return x
		}
		sx, sy := sext(x, w), sext(y, w)
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case oBand:
		return x & y
	case oBor:
		return x | y
	case oBxor:
		return x ^ y
	case oShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case oLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case oAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("evalBin")
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.Const(w, evalBin(op, w, a.k, b.k))
	}
	switch op {
	case oAdd, oMul, oBand, oBor, oBxor:
		if a.isConst() {
			a, b = b, a
		}
	case oSub:
		if b.isConst() {
			op = oAdd
			b = c.Const(w, -b.k)
		} else if a == b {
			return c.Const(w, 0)
		}
	}
	if b.isConst() {
		switch op {
		case oAdd, oBor, oBxor, oShl, oLshr, oAshr:
			if b.k == 0 {
				return a
			}
		case oMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if bits.OnesCount64(b.k) == 1 {
				return c.Bin(oShl, a, c.Const(w, uint64(bits.TrailingZeros64(b.k))))
			}
		case oUdiv, oSdiv:
			if b.k == 1 {
				return a
			}
		case oBand:
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
		}
		if op == oAdd && a.op == oAdd && a.b.isConst() {
			return c.Bin(oAdd, a.a, c.Const(w, a.b.k+b.k))
		}
		if op == oBand && a.op == oBand && a.b.isConst() {
			return c.Bin(oBand, a.a, c.Const(w, a.b.k&b.k))
		}
		// distribute over constant ites (keeps flag words readable)
		if a.op == oIte && (a.b.isConst() && a.c.isConst()) {
			return c.Ite(a.a, c.Bin(op, a.b, b), c.Bin(op, a.c, b))
		}
		if op == oBand && a.op == oBor {
			return c.Bin(oBor, c.Bin(oBand, a.a, b), c.Bin(oBand, a.b, b))
		}
	}
	if (op == oBand || op == oBor) && a == b {
		return a
	}
	if op == oBxor && a == b {
		return c.Const(w, 0)
	}
	return c.mk(op, w, 0, a, b, nil)
}

func (c *TermCtx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, a.k)
	}
	if a.op == oZext {
		return c.Zext(a.a, w)
	}
	if a.op == oIte && a.b.isConst() && a.c.isConst() {
		return c.Ite(a.a, c.Zext(a.b, w), c.Zext(a.c, w))
	}
	return c.mk(oZext, w, 0, a, nil, nil)
}

func (c *TermCtx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, uint64(sext(a.k, a.w)))
	}
	if a.op == oZext && a.w > a.a.w {
		return c.Zext(a.a, w)
	}
	return c.mk(oSext, w, 0, a, nil, nil)
}

func (c *TermCtx) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, a.k)
	}
	if a.op == oZext || a.op == oSext {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Trunc(a.a, w)
		}
		if a.op == oZext {
			return c.Zext(a.a, w)
		}
		return c.Sext(a.a, w)
	}
	if a.op == oIte {
		return c.Ite(a.a, c.Trunc(a.b, w), c.Trunc(a.c, w))
	}
	switch a.op {
	case oBand, oBor, oBxor, oAdd, oSub, oMul:
		return c.Bin(a.op, c.Trunc(a.a, w), c.Trunc(a.b, w))
	}
	return c.mk(oTrunc, w, 0, a, nil, nil)
}

// Eval evaluates t under the model (missing variables are 0).
func (c *TermCtx) Eval(t *Term, m []uint64) uint64 {
	c.evGen++
	return c.eval(t, m)
}

func (c *TermCtx) eval(t *Term, m []uint64) uint64 {
	switch t.op {
	case oConst:
		return t.k
	case oVar:
		if int(t.k) < len(m) {
			return m[t.k] & mask(t.w)
		}
		return 0
	}
	if t.evGen == c.evGen {
		return t.evVal
	}
	var v uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case oNot:
		v = 1 - c.eval(t.a, m)
	case oAnd:
		v = c.eval(t.a, m)
		if v == 1 {
			v = c.eval(t.b, m)
		}
	case oOr:
		v = c.eval(t.a, m)
		if v == 0 {
			v = c.eval(t.b, m)
		}
	case oIte:
		if c.eval(t.a, m) == 1 {
			v = c.eval(t.b, m)
		} else {
			v = c.eval(t.c, m)
		}
	case oEq:
		v = b2u(c.eval(t.a, m) == c.eval(t.b, m))
	case oUlt:
		v = b2u(c.eval(t.a, m) < c.eval(t.b, m))
	case oUle:
		v = b2u(c.eval(t.a, m) <= c.eval(t.b, m))
	case oSlt:
		v = b2u(sext(c.eval(t.a, m), t.a.w) < sext(c.eval(t.b, m), t.b.w))
	case oSle:
		v = b2u(sext(c.eval(t.a, m), t.a.w) <= sext(c.eval(t.b, m), t.b.w))
	case oZext:
		v = c.eval(t.a, m)
	case oSext:
		v = uint64(sext(c.eval(t.a, m), t.a.w)) & mask(t.w)
	case oTrunc:
		v = c.eval(t.a, m) & mask(t.w)
	default:
		v = evalBin(t.op, t.w, c.eval(t.a, m), c.eval(t.b, m))
	}
	t.evGen, t.evVal = c.evGen, v
	return v
}

// ---- SMT-LIB rendering with canonical variable names ----

type smtWriter struct {
	sb     strings.Builder
	ren    map[int32]int
	order  []int32 // original numbers in renamed order
	widths []uint8
	names  map[int32]string // term id -> defined name
	refs   map[int32]int
	nd     int
}

func newSmtWriter() *smtWriter {
	return &smtWriter{ren: map[int32]int{}, names: map[int32]string{}, refs: map[int32]int{}}
}

func (w *smtWriter) count(t *Term) {
	if t.op == oConst || t.op == oVar {
		if t.op == oVar {
			if _, ok := w.ren[int32(t.k)]; !ok {
				w.ren[int32(t.k)] = len(w.order)
				w.order = append(w.order, int32(t.k))
				w.widths = append(w.widths, t.w)
			}
		}
		return
	}
	w.refs[t.id]++
	if w.refs[t.id] > 1 {
		return
	}
	w.count(t.a)
	if t.b != nil {
		w.count(t.b)
	}
	if t.c != nil {
		w.count(t.c)
	}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// define emits define-fun lines for shared nodes below t (post-order).
func (w *smtWriter) define(t *Term) {
	if t.op == oConst || t.op == oVar {
		return
	}
	if _, ok := w.names[t.id]; ok {
		return
	}
	w.define(t.a)
	if t.b != nil {
		w.define(t.b)
	}
	if t.c != nil {
		w.define(t.c)
	}
	if w.refs[t.id] > 1 {
		if _, ok := w.names[t.id]; ok {
			return
		}
		n := fmt.Sprintf("d%d", w.nd)
		w.nd++
		w.sb.WriteString("(define-fun " + n + " () " + sortOf(t.w) + " ")
		w.write(t)
		w.sb.WriteString(")\n")
		w.names[t.id] = n
	}
}

func (w *smtWriter) write(t *Term) {
	if n, ok := w.names[t.id]; ok {
		w.sb.WriteString(n)
		return
	}
	switch t.op {
	case oConst:
		if t.w == 0 {
			if t.k == 1 {
				w.sb.WriteString("true")
			} else {
				w.sb.WriteString("false")
			}
		} else if t.w%4 == 0 {
			fmt.Fprintf(&w.sb, "#x%0*x", int(t.w)/4, t.k)
		} else {
			fmt.Fprintf(&w.sb, "(_ bv%d %d)", t.k, t.w)
		}
	case oVar:
		fmt.Fprintf(&w.sb, "v%d", w.ren[int32(t.k)])
	case oZext:
		fmt.Fprintf(&w.sb, "((_ zero_extend %d) ", t.w-t.a.w)
		w.write(t.a)
		w.sb.WriteByte(')')
	case oSext:
		fmt.Fprintf(&w.sb, "((_ sign_extend %d) ", t.w-t.a.w)
		w.write(t.a)
		w.sb.WriteByte(')')
	case oTrunc:
		fmt.Fprintf(&w.sb, "((_ extract %d 0) ", t.w-1)
		w.write(t.a)
		w.sb.WriteByte(')')
	default:
		w.sb.WriteByte('(')
		w.sb.WriteString(opSMT[t.op])
		w.sb.WriteByte(' ')
		w.write(t.a)
		if t.b != nil {
			w.sb.WriteByte(' ')
			w.write(t.b)
		}
		if t.c != nil {
			w.sb.WriteByte(' ')
			w.write(t.c)
		}
		w.sb.WriteByte(')')
	}
}

// render returns the SMT-LIB text deciding the conjunction of ts.
func (w *smtWriter) render(ts []*Term) string {
	for _, t := range ts {
		w.count(t)
	}
	for i, wd := range w.widths {
		fmt.Fprintf(&w.sb, "(declare-const v%d %s)\n", i, sortOf(wd))
	}
	for _, t := range ts {
		w.define(t)
	}
	for _, t := range ts {
		w.sb.WriteString("(assert ")
		w.write(t)
		w.sb.WriteString(")\n")
	}
	return w.sb.String()
}

func (t *Term) String() string {
	w := newSmtWriter()
	w.count(t)
	for i, o := range w.order {
		w.ren[o] = int(w.order[i])
	}
	w.write(t)
	return w.sb.String()
}
