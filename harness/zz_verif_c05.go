//zz:use tmpl

package nanomux

import "errors"

var zzC05Pats = []string{`\d+`, `[ab]`, `a|b`, `a?`}

// zzRename gives the value names of the segments new names.
func zzRename(segs []zzSeg, from, to string) []zzSeg {
	var out []zzSeg
	for _, sg := range segs {
		if sg.k != zzStatic && sg.text == from {
			sg.text = to
		}
		out = append(out, sg)
	}

	return out
}

func zzSameSegs(a, b []zzSeg) bool {
	if len(a) != len(b) {
		return false
	}

	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}

	return true
}

// zzUnnamed reports whether the segments are the same apart from value names.
func zzUnnamed(a, b []zzSeg) bool {
	if len(a) != len(b) {
		return false
	}

	for i := range a {
		if a[i].k != b[i].k || a[i].pat != b[i].pat ||
			a[i].k == zzStatic && a[i].text != b[i].text {
			return false
		}
	}

	return true
}

func zzRepeats(segs []zzSeg) bool {
	for i := range segs {
		for j := range segs[:i] {
			if segs[i].k != zzStatic && segs[j].k != zzStatic && segs[i].text == segs[j].text {
				return true
			}
		}
	}

	return false
}

func zzErrOf(s Similarity) error {
	switch s {
	case Different:
		return ErrDifferentTemplates
	case DifferentValueNames:
		return ErrDifferentValueNames
	case DifferentNames:
		return ErrDifferentNames
	}

	return nil
}

// ZZ_C05_Pairs: every pair of the template shapes with a pool of four
// patterns, each with one of three template names and with or without another
// value name; compared on every string of length 0..3 (thorough: 0..4) over
// a b - 1.
func ZZ_C05_Pairs() {
	var sa, sb []zzSeg
	sa = zzPickTmpl(zzC05Pats)
	if zzBool("variant") {
		sb = sa
	} else {
		sb = zzPickTmpl(zzC05Pats[2-2*zzTier():])
	}

	switch zzPick("rename", 3) {
	case 1:
		sb = zzRename(sb, "p", "r")
	case 2:
		sb = zzRename(sb, "w", "v")
	}

	var names = []string{"", "$m:", "$n:"}
	var na, nb = names[zzPick("na", 2)], names[zzPick("nb", 3)]
	var a, b = Parse(na + zzTmplOf(sa)), Parse(nb + zzTmplOf(sb))

	var sim = a.SimilarityWith(b)
	zzObsInt("similarity", int(sim))
	zzAssert(sim == b.SimilarityWith(a), "symmetric")
	zzAssert(a.SimilarityWith(a) == TheSame, "reflexive")
	zzAssert(
		errors.Is(sim.Err(), zzErrOf(sim)) && (sim.Err() == nil) == (sim == TheSame),
		"the error tells the difference",
	)

	switch {
	case !zzUnnamed(sa, sb):
		zzCover("different")
		zzAssert(sim == Different, "different texts or patterns")
	case !zzSameSegs(sa, sb):
		zzCover("value names")
		zzAssert(sim == DifferentValueNames, "different value names only")
	case a.Name() != b.Name():
		zzCover("names")
		zzAssert(sim == DifferentNames, "different names only")
	default:
		zzCover("same")
		zzAssert(sim == TheSame, "parsed from the same string")
	}

	if sim == Different || sim == DifferentValueNames && (zzRepeats(sa) || zzRepeats(sb)) {
		return
	}

	var s = zzStrIn("s", "ab-1", 0, 2+zzTier())
	var oka, va = a.Match(s, nil)
	var okb, vb = b.Match(s, nil)
	zzAssert(oka == okb, "similar templates match the same strings")
	if oka && sim != DifferentValueNames {
		for _, n := range a.ValueNames() {
			zzAssert(va.Get(n) == vb.Get(n), "with the same values")
		}
	}
}

// ZZ_C05_Static: static templates and templates with static parts of any text
// of length 1..2 (thorough: 1..3) over a A b $, with the static part before,
// after and between other segments, are the same exactly when the texts are.
func ZZ_C05_Static() {
	var max = 2 + zzTier()
	var x, y = zzStrIn("x", "aAb$", 1, max), zzStrIn("y", "aAb$", 1, max)
	var n, m = zzStrIn("n", "jK", 1, 1), zzStrIn("m", "jkK", 1, 1)
	var i = zzPick("form", 8)
	var before = []string{"", "", "", "", "{w}", `{p:\d}{w}`, "{w}", "b{w}"}[i]
	var after = []string{"", "{w}", `{p:\d}`, `{p:\d}{w}`, "", "", `{p:\d}`, ""}[i]
	var a = Parse("$" + n + ":" + before + x + after)
	var b = Parse("$" + m + ":" + before + y + after)
	var sim = a.SimilarityWith(b)
	zzAssert(sim == b.SimilarityWith(a), "symmetric")
	if x == y {
		zzCover("same text")
		if n == m {
			zzAssert(sim == TheSame, "the same text and name")
		} else {
			zzAssert(sim == DifferentNames, "the same text, another name")
		}
	} else {
		zzCover("other text")
		zzAssert(sim == Different, "another text")
	}
}

// ZZ_C05_Two: templates with two static parts of any text of length 1..2 over
// a A b around a wildcard or a pattern are the same exactly when both texts are.
func ZZ_C05_Two() {
	var x, y = zzStrIn("x", "aAb", 1, 2), zzStrIn("y", "aAb", 1, 2)
	var u, v = zzStrIn("u", "aAb", 1, 2), zzStrIn("v", "aAb", 1, 2)
	var mid = []string{"{w}", `{p:\d}`}[zzPick("form", 2)]
	var a, b = Parse(x + mid + u), Parse(y + mid + v)
	var sim = a.SimilarityWith(b)
	zzAssert(sim == b.SimilarityWith(a), "symmetric")
	if x == y && u == v {
		zzCover("same texts")
		zzAssert(sim == TheSame, "the same texts")
	} else {
		zzCover("other texts")
		zzAssert(sim == Different, "another text")
	}
}

// ZZ_C05_Nil: comparing with nothing panics.
func ZZ_C05_Nil() {
	zzAssert(zzPanics(func() { Parse("a").SimilarityWith(nil) }), "panics")
	zzAssert(zzPanics(func() { _ = Similarity(zzInt("x", 4, 255)).Err() }), "undefined")
	zzCover("done")
}
