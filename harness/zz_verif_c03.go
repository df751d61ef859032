//zz:use tmpl

package nanomux

func zzCopyVs(vs TemplateValues) TemplateValues {
	var c = make(TemplateValues, len(vs))
	copy(c, vs)
	return c
}

func zzSameVs(a, b TemplateValues) bool {
	if len(a) != len(b) {
		return false
	}

	for i := range a {
		if a[i].key != b[i].key || a[i].value != b[i].value {
			return false
		}
	}

	return true
}

// zzC03Initial makes the values collected before: any of the names with any
// value, with room to append or without.
func zzC03Initial() TemplateValues {
	var vs TemplateValues
	switch zzPick("cap", 3) {
	case 0:
		vs = make(TemplateValues, 0, 8)
	case 1:
		vs = make(TemplateValues, 0, 1)
	}

	for _, n := range []string{"o", "p", "q", "w"} {
		if zzBool("has-" + n) {
			vs.Set(n, zzStrIn("v-"+n, "a1", 0, 1))
		}
	}

	return vs
}

// ZZ_C03_Match: the template shapes with a pool of four patterns; values of any
// subset of the template's names and a foreign one are present, each 0..1
// characters; subjects of length 0..4 (thorough: 0..5) over a b - 1.
func ZZ_C03_Match() {
	var segs = zzPickTmpl([]string{`\d`, `[ab]`, `a?`, `1|ab`})
	var t, err = TryToParse(zzTmplOf(segs))
	zzAssert(err == nil, "a well-formed template is accepted")
	var vs = zzC03Initial()
	var before = zzCopyVs(vs)
	var s = zzStrIn("s", "ab-1", 0, 3+zzTier())

	var ok, after = t.Match(s, vs)
	zzObsBool("match", ok)
	zzAssert(zzSameVs(vs, before), "the passed values are not changed")
	if !ok {
		zzCover("mismatch")
		zzAssert(zzSameVs(after, before), "a mismatch returns the passed values")
		zzAssert((after == nil) == (vs == nil), "nil stays nil")
		return
	}

	zzCover("match")
	zzAssert(len(after) >= len(before), "values are only added")
	zzAssert(zzSameVs(after[:len(before)], before), "present values are kept")
	var whole string
	for _, sg := range segs {
		if sg.k == zzStatic {
			whole += sg.text
			continue
		}

		var v = after.Get(sg.text)
		if sg.k == zzWild {
			// A present value of the name doesn't matter.
			v = TemplateValues(after[len(before):]).Get(sg.text)
		}

		whole += v
		if i, bv := before.get(sg.text); i >= 0 && sg.k == zzPattern {
			zzAssert(v == bv, "a present value is the one in the string")
		}
	}

	zzAssert(whole == s, "the values spell the string")
	zzAssert(after.Get("o") == before.Get("o"), "foreign values are untouched")

	// Without the values, the template matches too.
	var ok2, _ = t.Match(s, nil)
	zzAssert(ok2, "present values only restrict")
}

// ZZ_C03_Conflict: a template whose value is already present matches exactly
// the strings that carry the same value; subjects of length 0..4.
func ZZ_C03_Conflict() {
	var t = Parse("x{p:[0-9]+}")
	var vs TemplateValues
	var v = zzStrIn("v", "123", 1, 2)
	vs.Set("p", v)
	var s = zzStrIn("s", "x123", 0, 4)
	var ok, after = t.Match(s, vs)
	zzAssert(ok == (s == "x"+v), "only the same value is accepted")
	zzAssert(len(after) == 1 && after.Get("p") == v, "the value stays")
	if ok {
		zzCover("match")
	}
}

// ZZ_C03_Siblings: three templates are tried one after another over the same
// values, as siblings are when a request is routed; the values afterwards are
// those of the matching template only. Subjects of length 0..4 over a b - 1.
func ZZ_C03_Siblings() {
	var pool = []string{
		"{p:[ab]+}-{q:[0-9]}", "{p:[ab]}{w}-b", "{w}-{p:1}{q:a}", "{p:a}{q:b}{p}", "a{q:[0-9-]}{w}b",
	}

	var vs TemplateValues
	if zzBool("prior") {
		vs.Set("o", "z")
	}

	var n = len(vs)
	var s = zzStrIn("s", "ab-1", 0, 4+zzTier())
	var a, b = zzPick("a", len(pool)), zzPick("b", len(pool))
	for _, i := range []int{a, b, 0} {
		var t = Parse(pool[i])
		var ok bool
		ok, vs = t.Match(s, vs)
		if ok {
			zzCover("match")
			var _, own = t.Match(s, nil)
			zzAssert(len(vs) == n+len(own), "only the values of the matching template")
			for _, nm := range t.ValueNames() {
				zzAssert(vs.Get(nm) == own.Get(nm), "its own values")
			}

			return
		}
	}

	zzCover("none")
	zzAssert(len(vs) == n, "no values when nothing matched")
}
