package nanomux

import (
	"regexp"
	"strings"
)

// Reference model of templates.

const (
	zzStatic = iota
	zzPattern
	zzWild
)

// zzSeg is a segment of a template: static text, a pattern segment or the
// wildcard segment.
type zzSeg struct {
	k    int
	text string // static text or value name
	pat  string
}

func zzEsc(s string) string {
	s = strings.ReplaceAll(s, "{", `\{`)
	return strings.ReplaceAll(s, "}", `\}`)
}

// zzTmplOf writes the template of the segments. The pattern of a repeated value
// is written only once.
func zzTmplOf(segs []zzSeg) string {
	var out string
	var seen = map[string]bool{}
	for _, s := range segs {
		switch s.k {
		case zzStatic:
			out += zzEsc(s.text)
		case zzWild:
			out += "{" + s.text + "}"
		default:
			if seen[s.text] {
				out += "{" + s.text + "}"
			} else {
				out += "{" + s.text + ":" + s.pat + "}"
			}
			seen[s.text] = true
		}
	}

	// A dollar sign at the beginning would begin a template name.
	if strings.HasPrefix(out, "$") {
		out = `\` + out
	}

	return out
}

// zzFull reports whether the pattern accepts the whole of v.
func zzFull(pat, v string) bool {
	return regexp.MustCompile("^(?:" + pat + ")$").MatchString(v)
}

func zzPrefixRe(pat string) *regexp.Regexp {
	return regexp.MustCompile("^(?:" + pat + ")")
}

// zzRefMatch is the reference matcher. The values are those of the segments, in
// the order of the segments, empty for static segments.
func zzRefMatch(segs []zzSeg, s string) (bool, []string) {
	var n = len(segs)
	var vals = make([]string, n)
	var w = n
	for i, sg := range segs {
		if sg.k == zzWild {
			w = i
		}
	}

	var earlier = func(i int, v string) bool {
		for j := 0; j < n; j++ {
			if j != i && segs[j].k == zzPattern && segs[j].text == segs[i].text {
				if j < w && i < w && j < i || j > w && i > w && j > i || j < w && i > w {
					if vals[j] != v {
						return false
					}
				}
			}
		}

		return true
	}

	for i := 0; i < w; i++ {
		var sg = segs[i]
		if sg.k == zzStatic {
			if !strings.HasPrefix(s, sg.text) {
				return false, nil
			}

			s = s[len(sg.text):]
			continue
		}

		var v string
		if i == n-1 {
			if !zzFull(sg.pat, s) {
				return false, nil
			}

			v = s
		} else {
			var ix = regexp.MustCompile("^(?:" + sg.pat + ")").FindStringIndex(s)
			if ix == nil {
				return false, nil
			}

			v = s[:ix[1]]
		}

		if !earlier(i, v) {
			return false, nil
		}

		vals[i], s = v, s[len(v):]
	}

	for i := n - 1; i > w; i-- {
		var sg = segs[i]
		if sg.k == zzStatic {
			if !strings.HasSuffix(s, sg.text) {
				return false, nil
			}

			s = s[:len(s)-len(sg.text)]
			continue
		}

		var ix = regexp.MustCompile("(?:" + sg.pat + ")$").FindStringIndex(s)
		if ix == nil {
			return false, nil
		}

		var v = s[ix[0]:]
		if !earlier(i, v) {
			return false, nil
		}

		vals[i], s = v, s[:ix[0]]
	}

	if w < n {
		vals[w] = s
		return true, vals
	}

	return len(s) == 0, vals
}

var zzPats = []string{
	`[0-9]+`, `5|10`, `[ab]{2}`, `x?`, `a|b|ab`, `\d`, `(ab)*`, `[^-]+`, `(?i)ab|c`,
}

// zzShape returns one of the template shapes. p, q choose the patterns.
func zzShape(i int, p, q string) []zzSeg {
	var st = func(t string) zzSeg { return zzSeg{zzStatic, t, ""} }
	var pt = func(n, p string) zzSeg { return zzSeg{zzPattern, n, p} }
	var wc = func(n string) zzSeg { return zzSeg{zzWild, n, ""} }
	switch i {
	case 0:
		return []zzSeg{st("a-b")}
	case 1:
		return []zzSeg{wc("w")}
	case 2:
		return []zzSeg{pt("p", p)}
	case 3:
		return []zzSeg{pt("p", p), st("-a")}
	case 4:
		return []zzSeg{st("a-"), pt("p", p)}
	case 5:
		return []zzSeg{pt("p", p), st("-"), pt("q", q)}
	case 6:
		return []zzSeg{wc("w"), st("-"), pt("p", p)}
	case 7:
		return []zzSeg{pt("p", p), st("-"), wc("w")}
	case 8:
		return []zzSeg{pt("p", p), st("-"), pt("p", p)}
	case 9:
		return []zzSeg{pt("p", p), wc("w"), pt("p", p)}
	case 10:
		return []zzSeg{st("a"), wc("w"), st("b")}
	case 11:
		return []zzSeg{wc("w"), pt("p", p), st("-"), pt("q", q), st("b")}
	case 12:
		return []zzSeg{pt("p", p), pt("q", q), st("-"), pt("p", p)}
	case 13:
		return []zzSeg{pt("p", p), st("-"), wc("w"), st("-"), pt("q", q), st("-"), pt("p", p)}
	case 14:
		return []zzSeg{wc("w"), pt("p", p), st("-"), pt("p", p)}
	default:
		return []zzSeg{st("{a"), pt("p", p), st("}")}
	}
}

const zzShapes = 16

// zzShapePatterns tells how many patterns the shape uses.
func zzShapePatterns(i int) int {
	switch i {
	case 0, 1, 10:
		return 0
	case 5, 11, 12, 13:
		return 2
	default:
		return 1
	}
}

// zzPickTmpl picks a shape and its patterns.
func zzPickTmpl(pats []string) []zzSeg {
	var i = zzPick("shape", zzShapes)
	var p, q string
	switch zzShapePatterns(i) {
	case 1:
		p = pats[zzPick("p", len(pats))]
	case 2:
		p = pats[zzPick("p", len(pats))]
		q = pats[zzPick("q", len(pats))]
	}

	return zzShape(i, p, q)
}
