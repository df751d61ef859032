//zz:use tmpl

package nanomux

func zzC01RoundTrip(t *Template, subject string, match bool) {
	var str = t.String()
	var t2, err = TryToParse(str)
	zzAssert(err == nil, "the printed template can be parsed")
	zzAssert(t2.Name() == t.Name(), "the name survives printing and parsing")
	zzAssert(
		zzSameStrs(t.ValueNames(), t2.ValueNames()),
		"the value names survive printing and parsing",
	)

	zzAssert(t.SimilarityWith(t2) == TheSame, "the printed template is similar")
	zzAssert(t2.SimilarityWith(t) == TheSame, "similarity is symmetric")
	zzAssert(t2.String() == str, "printing is stable")
	zzAssert(t.IsStatic() == t2.IsStatic(), "the same kind (static)")
	zzAssert(t.IsWildcard() == t2.IsWildcard(), "the same kind (wildcard)")
	zzAssert(t.HasPattern() == t2.HasPattern(), "the same kind (pattern)")
	zzAssert(
		t.UnescapedContent() == t2.UnescapedContent(), "the same unescaped content",
	)

	if match {
		var ok, vs = t.Match(subject, nil)
		var ok2, vs2 = t2.Match(subject, nil)
		zzAssert(ok == ok2, "the printed template matches the same strings")
		for _, n := range t.ValueNames() {
			zzAssert(vs.Get(n) == vs2.Get(n), "the same values")
		}
	}
}

func zzC01Check(s string) {
	var t, err = TryToParse(s)
	var p = zzPanics(func() { Parse(s) })
	zzAssert(p == (err != nil), "Parse panics exactly when TryToParse fails")
	zzObsBool("err", err != nil)
	if err != nil {
		zzCover("rejected")
		zzAssert(t == nil, "no template together with an error")
		return
	}

	zzCover("parsed")
	zzObsStr("string", t.String())
	zzObsStr("name", t.Name())
	zzC01RoundTrip(t, "", false)
}

// ZZ_C01_Bytes: every byte string of length 0..4 (thorough: 0..5).
func ZZ_C01_Bytes() {
	zzC01Check(zzStr("s", 0, 4+zzTier()))
}

// ZZ_C01_Syntax: every string of length 0..7 (thorough: 0..9) over the
// template syntax characters { } : \ $ a [ ] | ^ .
func ZZ_C01_Syntax() {
	zzC01Check(zzStrIn("s", `{}:\$a[]|^`, 0, 7+2*zzTier()))
}

// ZZ_C01_Pattern: a pattern segment whose pattern is every string of length
// 1..2 (thorough: 1..3) over { } \ [ ] | $ ^ ( ) a ?, before, after or without
// another segment.
func ZZ_C01_Pattern() {
	var pat = zzConcretize(zzStrIn("pat", `{}\[]|$^()a?`, 1, 2+zzTier()))
	var s string
	switch zzPick("form", 3) {
	case 0:
		s = "{v:" + pat + "}"
	case 1:
		s = "{v:" + pat + "}x"
	default:
		s = "{w}{v:" + pat + "}"
	}

	zzC01Check(s)
}

// ZZ_C01_OpenPattern: as ZZ_C01_Pattern with patterns of length 3..4, without
// the round trip.
func ZZ_C01_OpenPattern() {
	var pat = zzStrIn("pat", `{}\[]|$^()a?`, 3, 4)
	var s = []string{"{v:" + pat + "}", "{w}{v:" + pat + "}"}[zzPick("form", 2)]
	var t, err = TryToParse(s)
	if err == nil {
		zzCover("parsed")
		zzAssert(!t.IsStatic() && t.String() != "", "a template")
	}
}

// ZZ_C01_Names: template and value names of length 0..4 (thorough: 0..5) over
// : \ { } $ n.
func ZZ_C01_Names() {
	var n = zzStrIn("n", `:\{}$n`, 0, 4+zzTier())
	var s string
	switch zzPick("form", 4) {
	case 0:
		s = "$" + n + ":s"
	case 1:
		s = "{" + n + "}"
	case 2:
		s = "{" + n + ":p}s"
	default:
		s = "$m:" + n + "s{w}"
	}

	zzC01Check(s)
}

// ZZ_C01_Renamed: templates of 7 shapes renamed to every name of length 1..4
// (thorough: 1..5) over : \ { } $ n that doesn't end with a backslash.
func ZZ_C01_Renamed() {
	var n = zzStrIn("n", `:\{}$n`, 1, 4+zzTier())
	zzAssume(n[len(n)-1] != '\\')
	var s = []string{"s", `\$s`, "{v}", "$m:{v:a+}", "a{v}", `$m\::a{v:a+}{w}b{v}`, `$:\$`}[zzPick("template", 7)]
	var t, other = Parse(s), Parse(s)
	var names = t.ValueNames()
	t.SetName(n)
	zzAssert(t.Name() == n, "the name is the one set")
	zzAssert(zzSameStrs(t.ValueNames(), names), "the value names stay")
	for _, vn := range names {
		zzAssert(t.HasValueName(vn), "the template has its value names")
		zzAssert(t.HasValueName("none", vn), "one of the names is a value name")
	}

	zzAssert(!t.HasValueName() && !t.HasValueName("none") && !t.HasValueName("m"), "not a value name")
	zzAssert(other.UnescapedContent() == t.UnescapedContent(), "the content stays")
	zzObsStr("string", t.String())
	zzC01RoundTrip(t, []string{"s", "$s", "aa", "aaab"}[zzPick("subject", 4)], true)
	var sim = t.SimilarityWith(other)
	zzAssert(sim == TheSame && n == other.Name() || sim == DifferentNames && n != other.Name(), "the names differ")
	zzCover("renamed")
}

// ZZ_C01_Match: the template shapes of the reference model with every pattern
// of the pool; the subject is every string of length 0..4 (thorough: 0..5) over
// a b - 1 5 0 x.
func ZZ_C01_Match() {
	var segs = zzPickTmpl(zzPats)
	var name = []string{"", "$n:", `$n\:m:`}[zzPick("name", 3)]
	var t, err = TryToParse(name + zzTmplOf(segs))
	zzAssert(err == nil, "a well-formed template is accepted")
	zzCover("parsed")
	zzC01RoundTrip(t, zzStrIn("s", "ab-150x", 0, 3+zzTier()), name == "")
}
