package main

import "fmt"

// The harness API. In the interpreter these functions create symbolic values,
// assumptions and assertions; natively (in replays) the same functions read
// concrete values from a replay file.

var apiIntrinsics map[string]intrFn

func (in *Interp) conc(v Val) string {
	s := v.str()
	if !s.concrete() {
		in.unsupported("harness API name must be concrete")
	}
	return s.s
}

func (in *Interp) freshStr(name string, n int, constrain func(b *Term) *Term, init byte) Val {
	bs := make([]*Term, n)
	for i := range bs {
		bs[i] = in.newVar(8, uint64(init))
		if constrain != nil {
			in.assume(constrain(bs[i]))
		}
	}
	in.inputs = append(in.inputs, inputRec{Kind: "str", Name: name, str: bs})
	if n == 0 {
		return Val{}
	}
	return Val{p: &Str{b: bs}}
}

func (in *Interp) inSet(b *Term, set string) *Term {
	var has [256]bool
	for i := 0; i < len(set); i++ {
		has[set[i]] = true
	}
	r := in.tc.false_
	for c := 0; c < 256; {
		if !has[c] {
			c++
			continue
		}
		lo := c
		for c < 256 && has[c] {
			c++
		}
		k := in.tc.true_
		if lo == c-1 {
			k = in.tc.Eq(b, in.tc.Const(8, uint64(lo)))
		} else {
			k = in.tc.And(in.tc.Ule(in.tc.Const(8, uint64(lo)), b), in.tc.Ule(b, in.tc.Const(8, uint64(c-1))))
		}
		r = in.tc.Or(r, k)
	}
	return r
}

func init() {
	apiIntrinsics = map[string]intrFn{
		// zzStr(name, min, max): any bytes, any length in [min,max]
		"zzStr": func(in *Interp, a []Val, _ *frame) Val {
			min, max := in.concInt(a[1]), in.concInt(a[2])
			n := min + in.choose(max-min+1)
			return in.freshStr(in.conc(a[0]), n, nil, 'a')
		},
		// zzStrIn(name, alphabet, min, max)
		"zzStrIn": func(in *Interp, a []Val, _ *frame) Val {
			set := in.conc(a[1])
			min, max := in.concInt(a[2]), in.concInt(a[3])
			n := min + in.choose(max-min+1)
			return in.freshStr(in.conc(a[0]), n, func(b *Term) *Term { return in.inSet(b, set) }, set[0])
		},
		"zzInt": func(in *Interp, a []Val, _ *frame) Val {
			lo, hi := in.concInt(a[1]), in.concInt(a[2])
			if lo > hi {
				in.unsupported("zzInt range")
			}
			t := in.newVar(64, uint64(int64(lo)))
			in.assume(in.tc.Sle(in.tc.Const(64, uint64(int64(lo))), t))
			in.assume(in.tc.Sle(t, in.tc.Const(64, uint64(int64(hi)))))
			in.inputs = append(in.inputs, inputRec{Kind: "int", Name: in.conc(a[0]), t: t, w: 64})
			return Val{p: t}
		},
		"zzByte": func(in *Interp, a []Val, _ *frame) Val {
			t := in.newVar(8, 'a')
			in.inputs = append(in.inputs, inputRec{Kind: "byte", Name: in.conc(a[0]), t: t, w: 8})
			return Val{p: t}
		},
		"zzBool": func(in *Interp, a []Val, _ *frame) Val {
			t := in.newVar(0, 0)
			in.inputs = append(in.inputs, inputRec{Kind: "bool", Name: in.conc(a[0]), t: t, w: 0})
			return Val{p: t}
		},
		// zzPick(name, n): one of 0..n-1, each explored as its own path
		"zzPick": func(in *Interp, a []Val, _ *frame) Val {
			n := in.concInt(a[1])
			k := in.choose(n)
			in.inputs = append(in.inputs, inputRec{Kind: "pick", Name: in.conc(a[0]), n: int64(k)})
			return intV(k)
		},
		"zzAssume": func(in *Interp, a []Val, _ *frame) Val {
			in.assume(in.term(a[0], 0))
			return Val{}
		},
		"zzAssert": func(in *Interp, a []Val, _ *frame) Val {
			msg := "assertion"
			if s := a[1].str(); s.concrete() {
				msg = s.s
			}
			in.assert(in.term(a[0], 0), msg)
			return Val{}
		},
		"zzFail": func(in *Interp, a []Val, _ *frame) Val {
			msg := "failure"
			if s := a[0].str(); s.concrete() {
				msg = s.s
			}
			in.assert(in.tc.false_, msg)
			return Val{}
		},
		"zzObsStr": func(in *Interp, a []Val, _ *frame) Val {
			in.observed = append(in.observed, obsRec{in.conc(a[0]), a[1], "str"})
			return Val{}
		},
		"zzObsInt": func(in *Interp, a []Val, _ *frame) Val {
			in.observed = append(in.observed, obsRec{in.conc(a[0]), a[1], "int"})
			return Val{}
		},
		"zzObsBool": func(in *Interp, a []Val, _ *frame) Val {
			in.observed = append(in.observed, obsRec{in.conc(a[0]), a[1], "bool"})
			return Val{}
		},
		"zzCover": func(in *Interp, a []Val, _ *frame) Val {
			in.covered[in.conc(a[0])] = true
			return Val{}
		},
		"zzTier":   func(in *Interp, a []Val, _ *frame) Val { return intV(in.tier) },
		"zzNative": func(in *Interp, a []Val, _ *frame) Val { return boolV(false) },
		"zzMapNondet": func(in *Interp, a []Val, _ *frame) Val {
			in.mapNondet = a[0].n == 1
			return Val{}
		},
		// zzConcurrent(f): f may run any number of times in parallel. Decided
		// here: f writes nothing that existed before (outside locks) and
		// touches no object after releasing it to a pool; a second run shows
		// objects handed over through pools.
		"zzConcurrent": func(in *Interp, a []Val, _ *frame) Val {
			s, fz := in.mon, in.frozen
			in.mon.shared, in.mon.pool = true, true
			in.frozen = in.nobj
			// What's in the pools may be dropped any time.
			for k := range in.pools {
				delete(in.pools, k)
			}
			in.callVal(a[0], nil)
			in.callVal(a[0], nil)
			in.mon, in.frozen = s, fz
			return Val{}
		},
		"zzPoolMonitor": func(in *Interp, a []Val, _ *frame) Val {
			in.mon.pool = a[0].n == 1
			return Val{}
		},
		// zzOnce(key, f): f's result; f has no symbolic inputs and changes no
		// global state, so it runs once per interpreter and is reused by
		// the other paths (changes to the result are undone per path)
		"zzOnce": func(in *Interp, a []Val, _ *frame) Val {
			key := in.conc(a[0])
			if v, ok := in.once[key]; ok {
				return v
			}
			sb, sl, st, sm, sf := in.baseEpoch, in.logging, in.steps, in.mon, in.fork
			in.baseEpoch, in.logging, in.mon, in.fork = true, false, monitors{}, false
			pools := in.pools
			in.pools = map[*Obj][]Val{}
			defer func() {
				in.pools = pools
				in.baseEpoch, in.logging, in.steps, in.mon, in.fork = sb, sl, st, sm, sf
			}()
			v := in.callVal(a[1], nil)
			if in.once == nil {
				in.once = map[string]Val{}
			}
			in.once[key] = v
			return v
		},
		// zzSym(b): whether a string is not a constant on this path (never
		// natively); for harness-side diagnostics only
		"zzConcretize": func(in *Interp, a []Val, _ *frame) Val {
			v := a[0]
			s := v.str()
			if s.concrete() {
				return v
			}
			b := make([]byte, len(s.b))
			for i, t := range s.b {
				b[i] = byte(in.concretize(t))
			}
			return strV(string(b))
		},
		"zzIte": func(in *Interp, a []Val, _ *frame) Val {
			return normT(in.tc.Ite(in.term(a[0], 0), in.term(a[1], 64), in.term(a[2], 64)))
		},
		// non-forking Boolean connectives (Go's && and || branch)
		"zzAnd": func(in *Interp, a []Val, _ *frame) Val {
			return normT(in.tc.And(in.term(a[0], 0), in.term(a[1], 0)))
		},
		"zzOr": func(in *Interp, a []Val, _ *frame) Val {
			return normT(in.tc.Or(in.term(a[0], 0), in.term(a[1], 0)))
		},
	}
}

var _ = fmt.Sprint
