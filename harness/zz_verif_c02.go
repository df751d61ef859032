//zz:use tmpl

package nanomux

func zzC02Check(segs []zzSeg, s string) {
	var t, err = TryToParse(zzTmplOf(segs))
	zzAssert(err == nil, "a well-formed template is accepted")
	var ok, vs = t.Match(s, nil)
	var rok, rvals = zzRefMatch(segs, s)
	zzObsBool("match", ok)
	if ok {
		zzCover("match")
		var whole string
		for i, sg := range segs {
			if sg.k == zzStatic {
				whole += sg.text
				continue
			}

			var v = vs.Get(sg.text)
			zzObsStr("value", v)
			whole += v
			if sg.k == zzPattern {
				zzAssert(zzFull(sg.pat, v), "the pattern accepts the whole value")
				zzAssert(rok, "the reference matches too")
				zzAssert(v == rvals[i], "the value is what the pattern picks")
			}
		}

		zzAssert(whole == s, "the template filled with the values spells the string")
		var names = 0
		var seen = map[string]bool{}
		for _, sg := range segs {
			if sg.k != zzStatic && !seen[sg.text] {
				seen[sg.text] = true
				names++
			}
		}

		zzAssert(len(vs) <= names, "no values other than the template's")
	} else {
		zzCover("mismatch")
		zzAssert(len(vs) == 0, "no values without a match")
	}

	zzAssert(ok == rok, "a string is matched exactly when the template describes it")
}

// ZZ_C02_Shapes: 16 template shapes with every pattern of a pool of nine; the
// subject is every string of length 0..4 (thorough: 0..6) over a b - 1 5 0 x.
func ZZ_C02_Shapes() {
	var segs = zzPickTmpl(zzPats)
	zzC02Check(segs, zzStrIn("s", "ab-150x", 0, 4+2*zzTier()))
}

// ZZ_C02_Case: templates with a value name that's repeated or a text that has
// letters; the subject is every string of length 0..5 (thorough: 0..7) over
// a A b B -.
func ZZ_C02_Case() {
	var pats = []string{`[aAbB]`, `[a-zA-Z]+`, `(?i)ab`, `[ab]?`}
	var i = []int{3, 4, 8, 9, 12, 13, 14}[zzPick("shape", 7)]
	var segs = zzShape(i, pats[zzPick("p", len(pats))], "[aB]")
	zzC02Check(segs, zzStrIn("s", "aAbB-", 0, 5+2*zzTier()))
}

// ZZ_C02_Long: templates with one pattern or wildcard segment, a pool of five
// patterns; the subject is every string of length 5..6 (thorough: 5..9) over 0 5 9 1 a x y z -.
func ZZ_C02_Long() {
	var pats = []string{`[0-9]+`, `5|10`, `[a-z]{2,3}`, `(x|yz)+`, `[^-]*`}
	var i = []int{2, 3, 4, 6, 7, 8, 10}[zzPick("shape", 7)]
	var segs = zzShape(i, pats[zzPick("p", len(pats))], "")
	zzC02Check(segs, zzStrIn("s", "0591axyz-", 5, 6+3*zzTier()))
}

// ZZ_C02_Bytes: one-segment templates; the subject is every byte string of
// length 0..3 (thorough: 0..4), valid UTF-8 or not.
func ZZ_C02_Bytes() {
	var pats = []string{
		`.`, `.*`, `\w+`, `[^a]`, `é|ü`, `[а-я]+`, `\S\s`, `a$`, `^b`,
	}
	var i = []int{2, 4, 6}[zzPick("shape", 3)]
	var segs = zzShape(i, pats[zzPick("p", len(pats))], "")
	zzC02Check(segs, zzStr("s", 0, 3+zzTier()))
}

// ZZ_C02_Braces: patterns with curly braces, character classes, escapes and
// alternations in groups; subjects of length 0..4 (thorough: 0..5) over
// { } a b ] | \ .
func ZZ_C02_Braces() {
	var pats = []string{
		`[{]`, `[}]`, `\{+`, `\}`, `a{2}`, `[^{]`, `[]a]`, `[^]]b`, `(a|b){2}`,
		`a{1}|b{2}`, `\[{2}`, `[^]}]`, `[]{]+`, `[^}]{2}`, `[|]`, `\|`, `(?:a|b)|ab`, `[\]{]`, `\\`,
	}
	var i = []int{2, 3, 6, 8}[zzPick("shape", 4)]
	var segs = zzShape(i, pats[zzPick("p", len(pats))], "")
	zzC02Check(segs, zzStrIn("s", `{}ab]|\-`, 0, 4+zzTier()))
}

// ZZ_C02_Static: a static template written from every text of length 1..3
// matches exactly that text (subjects of length 0..4).
func ZZ_C02_Static() {
	var text = zzStrIn("text", "a{}$:é", 1, 3)
	var src string
	for i := 0; i < len(text); i++ {
		if text[i] == '{' || text[i] == '}' || i == 0 && text[i] == '$' {
			src += `\`
		}
		src += text[i : i+1]
	}

	var t, err = TryToParse(src)
	zzAssert(err == nil, "an escaped static template is accepted")
	zzAssert(t.IsStatic(), "it is static")
	var s = zzStr("s", 0, 4)
	var ok, vs = t.Match(s, nil)
	zzAssert(ok == (s == text), "it matches its text only")
	zzAssert(len(vs) == 0, "no values")
	if ok {
		zzCover("match")
	}
}
