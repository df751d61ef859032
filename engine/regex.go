package main

import (
	"regexp"
	"regexp/syntax"
	"strings"
)

// reObj is the native side of an interpreted *regexp.Regexp.
type reObj struct {
	re     *regexp.Regexp // nil: opaque
	prog   *syntax.Prog
	pat    *Str
	opaque bool
}

func (in *Interp) newRe(re *regexp.Regexp, pat *Str) Val {
	o := in.newObj(0, "regexp")
	r := &reObj{re: re, pat: pat, opaque: re == nil}
	if re != nil {
		if p, err := syntax.Parse(re.String(), syntax.Perl); err == nil {
			r.prog, _ = syntax.Compile(p.Simplify())
		}
	}
	o.native = r
	return Val{p: o}
}

func (in *Interp) reOf(v Val) *reObj {
	o := in.obj(v)
	r, ok := o.native.(*reObj)
	if !ok {
		in.unsupported("regexp value of unknown origin")
	}
	return r
}

// samePattern says whether two strings consist of identical terms.
func (in *Interp) samePattern(a, b *Str) bool {
	if a.len() != b.len() {
		return false
	}
	for i := 0; i < a.len(); i++ {
		if in.strByte(a, i) != in.strByte(b, i) {
			return false
		}
	}
	return true
}

func (in *Interp) reCompile(pat *Str) (Val, Val) {
	if pat.concrete() {
		re, err := regexp.Compile(pat.s)
		if err != nil {
			return Val{}, in.makeError(strV(err.Error()))
		}
		return in.newRe(re, pat), Val{}
	}
	for _, o := range in.opaque {
		if in.samePattern(o.pattern, pat) {
			if o.ok {
				return in.newRe(nil, pat), Val{}
			}
			return Val{}, in.makeError(strV(opaqueText))
		}
	}
	ok := in.branch(in.newVar(0, 1))
	in.opaque = append(in.opaque, opaqueRe{pat, ok})
	if ok {
		return in.newRe(nil, pat), Val{}
	}
	return Val{}, in.makeError(strV(opaqueText))
}

// runes is the decoded subject string.
type runePos struct {
	t   *Term // 8-bit term for ASCII, 32-bit otherwise
	off int
	w   int
}

func (in *Interp) decodeAll(s *Str) []runePos {
	var out []runePos
	for i := 0; i < s.len(); {
		if s.b != nil && !s.b[i].isConst() {
			if in.branch(in.tc.Ult(s.b[i], in.tc.Const(8, 0x80))) {
				out = append(out, runePos{s.b[i], i, 1})
				i++
				continue
			}
		} else if b := in.strByte(s, i); b.k < 0x80 {
			out = append(out, runePos{b, i, 1})
			i++
			continue
		}
		r, n := in.decodeRune(s, i)
		out = append(out, runePos{in.term(r, 32), i, n})
		i += n
	}
	return out
}

func (in *Interp) inRange(t *Term, lo, hi uint64) *Term {
	if t.w == 8 {
		if lo > 0x7f {
			return in.tc.false_
		}
		if hi > 0x7f {
			hi = 0x7f
		}
	}
	if lo == hi {
		return in.tc.Eq(t, in.tc.Const(t.w, lo))
	}
	r := in.tc.true_
	if lo > 0 {
		r = in.tc.Ule(in.tc.Const(t.w, lo), t)
	}
	if t.w == 8 && hi == 0x7f {
		return r // ASCII already
	}
	return in.tc.And(r, in.tc.Ule(t, in.tc.Const(t.w, hi)))
}

func (in *Interp) runeCond(i *syntax.Inst, t *Term) *Term {
	if t.isConst() {
		return in.tc.Bool(i.MatchRune(rune(t.k)))
	}
	switch i.Op {
	case syntax.InstRuneAny:
		return in.tc.true_
	case syntax.InstRuneAnyNotNL:
		return in.tc.Not(in.tc.Eq(t, in.tc.Const(t.w, '\n')))
	}
	if t.w == 8 {
		// decide per ASCII code point (covers folding), as ranges
		r := in.tc.false_
		for c := 0; c < 128; {
			if !i.MatchRune(rune(c)) {
				c++
				continue
			}
			lo := c
			for c < 128 && i.MatchRune(rune(c)) {
				c++
			}
			r = in.tc.Or(r, in.inRange(t, uint64(lo), uint64(c-1)))
		}
		return r
	}
	if len(i.Rune) == 1 || syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
		if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
			in.unsupported("case-folding regexp on non-ASCII text")
		}
		return in.tc.Eq(t, in.tc.Const(32, uint64(i.Rune[0])))
	}
	r := in.tc.false_
	for k := 0; k+1 < len(i.Rune); k += 2 {
		r = in.tc.Or(r, in.inRange(t, uint64(i.Rune[k]), uint64(i.Rune[k+1])))
	}
	return r
}

func (in *Interp) wordCond(t *Term) *Term {
	if t == nil {
		return in.tc.false_
	}
	r := in.inRange(t, 'a', 'z')
	r = in.tc.Or(r, in.inRange(t, 'A', 'Z'))
	r = in.tc.Or(r, in.inRange(t, '0', '9'))
	return in.tc.Or(r, in.tc.Eq(t, in.tc.Const(t.w, '_')))
}

func (in *Interp) emptyCond(op syntax.EmptyOp, rs []runePos, k int) *Term {
	var prev, next *Term
	if k > 0 {
		prev = rs[k-1].t
	}
	if k < len(rs) {
		next = rs[k].t
	}
	nl := func(t *Term) *Term { return in.tc.Eq(t, in.tc.Const(t.w, '\n')) }
	r := in.tc.true_
	if op&syntax.EmptyBeginText != 0 && prev != nil {
		return in.tc.false_
	}
	if op&syntax.EmptyEndText != 0 && next != nil {
		return in.tc.false_
	}
	if op&syntax.EmptyBeginLine != 0 && prev != nil {
		r = in.tc.And(r, nl(prev))
	}
	if op&syntax.EmptyEndLine != 0 && next != nil {
		r = in.tc.And(r, nl(next))
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		same := in.tc.Eq(in.wordCond(prev), in.wordCond(next))
		if op&syntax.EmptyWordBoundary != 0 {
			r = in.tc.And(r, in.tc.Not(same))
		}
		if op&syntax.EmptyNoWordBoundary != 0 {
			r = in.tc.And(r, same)
		}
	}
	return r
}

type reCand struct {
	cond *Term
	caps []int
}

// candidates enumerates the matches starting at rune index k0 in priority
// order.
func (in *Interp) candidates(p *syntax.Prog, rs []runePos, k0, slen int, out []reCand) []reCand {
	off := func(k int) int {
		if k < len(rs) {
			return rs[k].off
		}
		return slen
	}
	steps := 0
	var walk func(pc uint32, k int, cond *Term, caps []int, seen []uint32)
	walk = func(pc uint32, k int, cond *Term, caps []int, seen []uint32) {
		for {
			steps++
			if steps > 20000 || len(out) > 3000 {
				in.unsupported("regexp search too large")
			}
			i := &p.Inst[pc]
			switch i.Op {
			case syntax.InstFail:
				return
			case syntax.InstNop:
				pc = i.Out
			case syntax.InstCapture:
				if int(i.Arg) < len(caps) {
					caps = append([]int(nil), caps...)
					caps[i.Arg] = off(k)
				}
				pc = i.Out
			case syntax.InstAlt, syntax.InstAltMatch:
				for _, s := range seen {
					if s == pc {
						return
					}
				}
				seen = append(seen[:len(seen):len(seen)], pc)
				walk(i.Out, k, cond, caps, seen)
				pc = i.Arg
			case syntax.InstEmptyWidth:
				cond = in.tc.And(cond, in.emptyCond(syntax.EmptyOp(i.Arg), rs, k))
				if cond == in.tc.false_ {
					return
				}
				pc = i.Out
			case syntax.InstMatch:
				caps = append([]int(nil), caps...)
				caps[1] = off(k)
				out = append(out, reCand{cond, caps})
				return
			default: // rune instructions
				if k >= len(rs) {
					return
				}
				cond = in.tc.And(cond, in.runeCond(i, rs[k].t))
				if cond == in.tc.false_ {
					return
				}
				k++
				seen = nil
				pc = i.Out
			}
		}
	}
	caps := make([]int, p.NumCap)
	if len(caps) < 2 {
		caps = make([]int, 2)
	}
	for i := range caps {
		caps[i] = -1
	}
	caps[0] = off(k0)
	walk(uint32(p.Start), k0, in.tc.true_, caps, nil)
	return out
}

func sameInts(a, b []int) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

// execRe returns the leftmost-first match at or after byte position pos.
// ncap limits how many capture positions the caller distinguishes.
func (in *Interp) execRe(r *reObj, s *Str, rs []runePos, pos, ncap int) []int {
	if r.opaque {
		in.unsupported("matching with a symbolic pattern")
	}
	if s.concrete() && pos == 0 {
		m := r.re.FindStringSubmatchIndex(s.s)
		if m == nil {
			return nil
		}
		if ncap < len(m) {
			m = m[:ncap]
		}
		return m
	}
	if r.prog == nil {
		in.unsupported("regexp program unavailable")
	}
	k0 := 0
	for k0 < len(rs) && rs[k0].off < pos {
		k0++
	}
	if s.len() > 0 && k0 == len(rs) && pos < s.len() {
		in.unsupported("regexp position inside a rune")
	}
	var cands []reCand
	for k := k0; k <= len(rs); k++ {
		cands = in.candidates(r.prog, rs, k, s.len(), cands)
	}
	for i := range cands {
		if ncap < len(cands[i].caps) {
			cands[i].caps = cands[i].caps[:ncap]
		}
	}
	for i := 0; i < len(cands); {
		c := cands[i].cond
		j := i + 1
		for j < len(cands) && sameInts(cands[i].caps, cands[j].caps) {
			c = in.tc.Or(c, cands[j].cond)
			j++
		}
		if in.branch(c) {
			return cands[i].caps
		}
		i = j
	}
	return nil
}

func (in *Interp) matchAll(r *reObj, s *Str, n, ncap int) [][]int {
	if n < 0 {
		n = s.len() + 1
	}
	rs := in.decodeAll(s)
	var out [][]int
	end := s.len()
	for pos, i, prev := 0, 0, -1; i < n && pos <= end; {
		m := in.execRe(r, s, rs, pos, ncap)
		if m == nil {
			break
		}
		accept := true
		if m[1] == pos {
			if m[0] == prev {
				accept = false
			}
			w := 0
			for _, x := range rs {
				if x.off == pos {
					w = x.w
				}
			}
			if w > 0 {
				pos += w
			} else {
				pos = end + 1
			}
		} else {
			pos = m[1]
		}
		prev = m[1]
		if accept {
			out = append(out, m)
			i++
		}
	}
	return out
}

func (in *Interp) replaceAll(r *reObj, s *Str, repl func(m []int) Val) Val {
	if r.opaque {
		in.unsupported("matching with a symbolic pattern")
	}
	rs := in.decodeAll(s)
	res := Val{}
	last, search := 0, 0
	for search <= s.len() {
		m := in.execRe(r, s, rs, search, 1<<20)
		if m == nil {
			break
		}
		res = in.concat(res.str(), s.slice(last, m[0]).str())
		if m[1] > last || m[0] == 0 {
			res = in.concat(res.str(), repl(m).str())
		}
		last = m[1]
		w := 0
		for _, x := range rs {
			if x.off == search {
				w = x.w
			}
		}
		switch {
		case search+w > m[1]:
			search += w
		case search+1 > m[1]:
			search++
		default:
			search = m[1]
		}
	}
	return in.concat(res.str(), s.slice(last, s.len()).str())
}

func (in *Interp) intSlice(xs []int) Val {
	if xs == nil {
		return Val{}
	}
	o := in.newObj(len(xs), "[]int")
	for i, x := range xs {
		o.cells[i] = intV(x)
	}
	return Val{p: &Slice{o: o, len: len(xs), cap: len(xs)}}
}

func (in *Interp) valSlice(vs []Val) Val {
	if vs == nil {
		return Val{}
	}
	o := in.newObj(len(vs), "slice")
	copy(o.cells, vs)
	return Val{p: &Slice{o: o, len: len(vs), cap: len(vs)}}
}

func (in *Interp) find(a []Val, ncap int) ([]int, *Str) {
	r, s := in.reOf(a[0]), a[1].str()
	return in.execRe(r, s, in.decodeAll(s), 0, ncap), s
}

func addRegexIntrinsics() {
	const pre = "(*regexp.Regexp)."
	intrinsics["regexp.Compile"] = func(in *Interp, a []Val, _ *frame) Val {
		re, err := in.reCompile(a[0].str())
		return tuple(re, err)
	}
	intrinsics["regexp.MustCompile"] = func(in *Interp, a []Val, _ *frame) Val {
		re, err := in.reCompile(a[0].str())
		if err.p != nil {
			panic(in.goPanicMsg("regexp: Compile failed"))
		}
		return re
	}
	intrinsics["regexp.QuoteMeta"] = func(in *Interp, a []Val, _ *frame) Val {
		s := a[0].str()
		if s.concrete() {
			return strV(regexp.QuoteMeta(s.s))
		}
		var out []*Term
		for _, b := range s.b {
			special := in.tc.false_
			for _, c := range []byte(`\.+*?()|[]{}^$`) {
				special = in.tc.Or(special, in.tc.Eq(b, in.tc.Const(8, uint64(c))))
			}
			if in.branch(special) {
				out = append(out, in.tc.Const(8, '\\'))
			}
			out = append(out, b)
		}
		return symStr(out)
	}
	intrinsics["regexp.MatchString"] = func(in *Interp, a []Val, _ *frame) Val {
		re, err := in.reCompile(a[0].str())
		if err.p != nil {
			return tuple(Val{}, err)
		}
		m, _ := in.find([]Val{re, a[1]}, 2)
		return tuple(boolV(m != nil), Val{})
	}
	intrinsics[pre+"String"] = func(in *Interp, a []Val, _ *frame) Val {
		p := in.reOf(a[0]).pat
		if p.len() == 0 {
			return Val{}
		}
		return Val{p: p}
	}
	intrinsics[pre+"MatchString"] = func(in *Interp, a []Val, _ *frame) Val {
		r, s := in.reOf(a[0]), a[1].str()
		if r.opaque {
			in.unsupported("matching with a symbolic pattern")
		}
		if s.concrete() {
			return boolV(r.re.MatchString(s.s))
		}
		rs := in.decodeAll(s)
		c := in.tc.false_
		for k := 0; k <= len(rs); k++ {
			for _, x := range in.candidates(r.prog, rs, k, s.len(), nil) {
				c = in.tc.Or(c, x.cond)
			}
		}
		return normT(c)
	}
	intrinsics[pre+"FindStringIndex"] = func(in *Interp, a []Val, _ *frame) Val {
		m, _ := in.find(a, 2)
		return in.intSlice(m)
	}
	intrinsics[pre+"FindString"] = func(in *Interp, a []Val, _ *frame) Val {
		m, s := in.find(a, 2)
		if m == nil {
			return Val{}
		}
		return s.slice(m[0], m[1])
	}
	intrinsics[pre+"FindStringSubmatchIndex"] = func(in *Interp, a []Val, _ *frame) Val {
		m, _ := in.find(a, 1<<20)
		return in.intSlice(m)
	}
	sub := func(in *Interp, m []int, s *Str) Val {
		var vs []Val
		for i := 0; i+1 < len(m); i += 2 {
			v := Val{}
			if m[i] >= 0 {
				v = s.slice(m[i], m[i+1])
			}
			vs = append(vs, v)
		}
		return in.valSlice(vs)
	}
	intrinsics[pre+"FindStringSubmatch"] = func(in *Interp, a []Val, _ *frame) Val {
		m, s := in.find(a, 1<<20)
		if m == nil {
			return Val{}
		}
		return sub(in, m, s)
	}
	intrinsics[pre+"FindAllStringIndex"] = func(in *Interp, a []Val, _ *frame) Val {
		var vs []Val
		for _, m := range in.matchAll(in.reOf(a[0]), a[1].str(), in.concInt(a[2]), 2) {
			vs = append(vs, in.intSlice(m))
		}
		return in.valSlice(vs)
	}
	intrinsics[pre+"FindAllString"] = func(in *Interp, a []Val, _ *frame) Val {
		var vs []Val
		s := a[1].str()
		for _, m := range in.matchAll(in.reOf(a[0]), s, in.concInt(a[2]), 2) {
			vs = append(vs, s.slice(m[0], m[1]))
		}
		return in.valSlice(vs)
	}
	intrinsics[pre+"FindAllStringSubmatchIndex"] = func(in *Interp, a []Val, _ *frame) Val {
		var vs []Val
		for _, m := range in.matchAll(in.reOf(a[0]), a[1].str(), in.concInt(a[2]), 1<<20) {
			vs = append(vs, in.intSlice(m))
		}
		return in.valSlice(vs)
	}
	intrinsics[pre+"FindAllStringSubmatch"] = func(in *Interp, a []Val, _ *frame) Val {
		var vs []Val
		s := a[1].str()
		for _, m := range in.matchAll(in.reOf(a[0]), s, in.concInt(a[2]), 1<<20) {
			vs = append(vs, sub(in, m, s))
		}
		return in.valSlice(vs)
	}
	intrinsics[pre+"ReplaceAllLiteralString"] = func(in *Interp, a []Val, _ *frame) Val {
		return in.replaceAll(in.reOf(a[0]), a[1].str(), func([]int) Val { return a[2] })
	}
	intrinsics[pre+"ReplaceAllString"] = func(in *Interp, a []Val, _ *frame) Val {
		if t := a[2].str(); !t.concrete() || strings.Contains(t.s, "$") {
			in.unsupported("regexp replacement template")
		}
		return in.replaceAll(in.reOf(a[0]), a[1].str(), func([]int) Val { return a[2] })
	}
	intrinsics[pre+"ReplaceAllStringFunc"] = func(in *Interp, a []Val, _ *frame) Val {
		s := a[1].str()
		return in.replaceAll(in.reOf(a[0]), s, func(m []int) Val {
			return in.callVal(a[2], []Val{s.slice(m[0], m[1])})
		})
	}
	intrinsics[pre+"NumSubexp"] = func(in *Interp, a []Val, _ *frame) Val {
		r := in.reOf(a[0])
		if r.opaque {
			in.unsupported("symbolic pattern")
		}
		return intV(r.re.NumSubexp())
	}
	intrinsics[pre+"LiteralPrefix"] = func(in *Interp, a []Val, _ *frame) Val {
		r := in.reOf(a[0])
		if r.opaque {
			in.unsupported("symbolic pattern")
		}
		p, c := r.re.LiteralPrefix()
		return tuple(strV(p), boolV(c))
	}
}
