//zz:use tmpl

package nanomux

import "errors"

// zzC04Values assigns to each name of the segments either nothing or a value.
func zzC04Values(segs []zzSeg, alphabet string, max int) TemplateValues {
	var vs TemplateValues
	var seen = map[string]bool{}
	for _, sg := range segs {
		if sg.k == zzStatic || seen[sg.text] {
			continue
		}

		seen[sg.text] = true
		if zzBool("has-" + sg.text) {
			vs.Set(sg.text, zzStrIn("v-"+sg.text, alphabet, 0, max))
		}
	}

	return vs
}

// ZZ_C04_Apply: the template shapes with every pattern of the pool; each value
// is missing or any string of length 0..3 (thorough: 0..4) over a b - 1 5 0.
func ZZ_C04_Apply() {
	var segs = zzPickTmpl(zzPats)
	var t, err = TryToParse(zzTmplOf(segs))
	zzAssert(err == nil, "a well-formed template is accepted")
	var vs = zzC04Values(segs, "ab-150", 2+zzTier())
	vs.Set("foreign", "f")
	var ignore = zzBool("ignore")

	// The first problem from left to right decides.
	var want string
	var wantErr error
	var w = len(segs)
	for i, sg := range segs {
		if sg.k == zzWild {
			w = i
		}
	}

	for i, sg := range segs {
		if sg.k == zzStatic {
			want += sg.text
			continue
		}

		var j, v = vs.get(sg.text)
		if j < 0 {
			if !ignore {
				wantErr = ErrMissingValue
				break
			}

			continue
		}

		if sg.k == zzPattern && !zzPicks(sg.pat, v, i > w || i == len(segs)-1) {
			wantErr = ErrInvalidValue
			break
		}

		want += v
	}

	var got, gotErr = t.TryToApply(vs, ignore)
	zzObsStr("applied", got)
	zzObsBool("err", gotErr != nil)
	if wantErr != nil {
		zzCover("error")
		zzAssert(gotErr != nil, "a missing or unfitting value is reported")
		zzAssert(errors.Is(gotErr, wantErr), "with the right error")
		zzAssert(got == "", "no text with an error")
	} else {
		zzCover("applied")
		zzAssert(gotErr == nil, "fitting values are accepted")
		zzAssert(got == want, "the text is made of the static texts and the values")
	}

	var p string
	var panicked = zzPanics(func() { p = t.Apply(vs, ignore) })
	zzAssert(panicked == (wantErr != nil), "Apply panics exactly on an error")
	zzAssert(panicked || p == want, "Apply gives the same text")
}

// zzPicks reports whether the pattern picks the whole of v. At the end of a
// template (or after a wildcard) any full match counts.
func zzPicks(pat, v string, end bool) bool {
	if end {
		return zzFull(pat, v)
	}

	var ix = zzPrefixRe(pat).FindStringIndex(v)
	return ix != nil && ix[1] == len(v)
}

// ZZ_C04_RoundTrip: what is applied is matched with the same values. Templates
// in which the split is unambiguous; values of length 0..3 (thorough: 0..4)
// over a b 1 2.
func ZZ_C04_RoundTrip() {
	var pool = [][]zzSeg{
		{{zzStatic, "x-", ""}, {zzPattern, "p", `[0-9]+`}},
		{{zzPattern, "p", `[a-b]*`}, {zzStatic, "-", ""}, {zzPattern, "q", `1|2|12`}},
		{{zzWild, "w", ""}},
		{{zzStatic, "x-", ""}, {zzWild, "w", ""}, {zzStatic, "-y", ""}},
		{{zzPattern, "p", `[ab]+`}, {zzStatic, "-", ""}, {zzPattern, "p", `[ab]+`}},
		{{zzPattern, "p", `[ab]+`}, {zzStatic, "-", ""}, {zzWild, "w", ""}, {zzStatic, "-", ""}, {zzPattern, "q", `[12]+`}},
		{{zzWild, "w", ""}, {zzStatic, "-", ""}, {zzPattern, "p", `[12]{2}|a`}},
	}

	var segs = pool[zzPick("t", len(pool))]
	var t = Parse(zzTmplOf(segs))
	var vs TemplateValues
	for _, sg := range segs {
		if sg.k != zzStatic && vs.Get(sg.text) == "" {
			var min = 0
			if sg.k == zzWild {
				min = 1
			}
			vs.Set(sg.text, zzStrIn("v-"+sg.text, "ab12", min, 3+zzTier()))
		}
	}

	var s, err = t.TryToApply(vs, false)
	if err != nil {
		zzCover("rejected")
		return
	}

	zzCover("applied")
	var ok, got = t.Match(s, nil)
	zzAssert(ok, "the filled template is matched")
	for _, n := range t.ValueNames() {
		zzAssert(got.Get(n) == vs.Get(n), "with the same values")
	}
}

// ZZ_C04_MatchApply: the values of a match are accepted and give back the
// string. The template shapes and the pool; subjects of length 0..4
// (thorough: 0..5) over a b - 1 5 0.
func ZZ_C04_MatchApply() {
	var segs = zzPickTmpl(zzPats)
	var t = Parse(zzTmplOf(segs))
	var s = zzStrIn("s", "ab-150", 0, 3+zzTier())
	var ok, vs = t.Match(s, nil)
	if !ok {
		return
	}

	zzCover("match")
	// A pattern before the end may see more of the string than its value.
	for _, sg := range segs {
		if sg.k == zzPattern && !zzPicks(sg.pat, vs.Get(sg.text), false) {
			return
		}
	}

	var got, err = t.TryToApply(vs, true)
	zzAssert(err == nil, "the matched values fit")
	zzAssert(got == s, "and give back the string")
}
