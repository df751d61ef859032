//zz:use flags
//zz:use route
//zz:use lib

package nanomux

import (
	"crypto/tls"
	"errors"
	"net/http"
	"net/url"
)

// zzURLPart is a host's or path segment's template with the text it has when the
// value is v.
type zzURLPart struct {
	segs  []zzSeg
	value string // "" if it has none
	text  string
}

// zzAskURL makes a request to the URL as it is or as it's written.
func zzAskURL(u *url.URL, written bool) *http.Request {
	if written {
		var p, err = url.Parse(u.String())
		zzAssert(err == nil, "the URL can't be parsed")
		u = p
	}

	var ru = &url.URL{Path: u.Path, RawPath: u.RawPath, RawQuery: u.RawQuery}
	if ru.Path == "" {
		// That is what clients do.
		ru.Path = "/"
	}

	var r = &http.Request{Method: "GET", URL: ru, Host: u.Host, Header: http.Header{}}
	if u.Scheme == "https" {
		r.TLS = &tls.ConnectionState{}
	}

	return r
}

// zzURLChain makes nodes from the parts, each below the previous.
func zzURLChain(t *zzTree, host *zzURLPart, parts []*zzURLPart) []*zzNode {
	var chain []*zzNode
	var top *zzNode
	if host != nil {
		top = zzHost(zzNew("host", host.segs))
		t.hosts = []*zzNode{top}
	} else {
		top = zzRoot()
		t.root = top
	}

	chain = append(chain, top)
	for i, p := range parts {
		var n = zzNew(string(rune('1'+i)), p.segs)
		n.up = top
		top.kids = []*zzNode{n}
		top = n
		chain = append(chain, n)
	}

	return chain
}

// zzURLLeadsBack asks for the URL of the last one of the chain and for the URL.
func zzURLLeadsBack(t *zzTree, n *zzNode, host *zzURLPart, parts []*zzURLPart, written bool) {
	var vs HostPathValues
	vs.Set("foreign", "f")
	var want []string
	if host != nil {
		want = append(want, zzURLValue(host)...)
	}

	for _, p := range parts {
		want = append(want, zzURLValue(p)...)
	}

	// The values may come in any order.
	for i := len(want) - 2; i >= 0; i -= 2 {
		vs.Set(want[i], want[i+1])
	}

	var u, err = n.real().URL(vs)
	zzAssert(err == nil, "there is no URL for values that fit")
	var scheme = "http"
	if n.secure {
		scheme = "https"
	}

	zzAssert(u.Scheme == scheme, "the scheme differs")
	if host != nil {
		zzAssert(u.Host == host.text, "the host differs")
	} else {
		zzAssert(u.Host == "", "there is a host")
	}

	if len(parts) > 0 || n.host {
		var slash = len(u.Path) > 0 && u.Path[len(u.Path)-1] == '/'
		if len(parts) > 0 {
			var last = parts[len(parts)-1].text
			slash = len(u.EscapedPath()) > 0 && u.EscapedPath()[len(u.EscapedPath())-1] == '/'
			zzAssert(last != "", "the segment isn't empty")
		}

		zzAssert(slash == n.tslash, "the trailing slash differs")
	} else {
		zzAssert(u.Path == "/", "the root's path isn't a slash")
	}

	defer zzInstall()()
	t.ro.ServeHTTP(&zzWriter{}, zzAskURL(u, written))
	zzAssert(len(zzHits) == 1, "the URL's request isn't answered once")
	var hit = zzHits[0]
	zzAssert(hit.kind == "handler" && hit.id == n.id, "the URL leads elsewhere")
	zzAssert(len(hit.vals) == len(want)/2, "there are more or fewer values")
	for i := 0; i < len(want); i += 2 {
		var v = hit.vals[i/2]
		zzAssert(v.key == want[i] && v.value == want[i+1], "a value differs")
	}
}

func zzURLValue(p *zzURLPart) []string {
	for _, sg := range p.segs {
		if sg.k != zzStatic {
			return []string{sg.text, p.value}
		}
	}

	return nil
}

// zzURLPartOf is one of the kinds of parts, with its value filled in.
func zzURLPartOf(kind, i int, value func(name string) string) *zzURLPart {
	var name = string(rune('p' + i))
	switch kind {
	case 0:
		return &zzURLPart{segs: []zzSeg{{zzStatic, "st", ""}}, text: "st"}
	case 1:
		var v = value(name)
		return &zzURLPart{segs: []zzSeg{{zzWild, name, ""}}, value: v, text: v}
	case 2:
		var v = value(name)
		return &zzURLPart{segs: []zzSeg{{zzPattern, name, "[^x]+"}}, value: v, text: v}
	case 3:
		var v = value(name)
		return &zzURLPart{
			segs:  []zzSeg{{zzStatic, "a/", ""}, {zzWild, name, ""}, {zzStatic, " %2F", ""}},
			value: v, text: "a/" + v + " %2F",
		}
	case 4:
		var v = value(name)
		return &zzURLPart{
			segs:  []zzSeg{{zzStatic, ".", ""}, {zzPattern, name, "[.a/]*"}},
			value: v, text: "." + v,
		}
	case 5:
		return &zzURLPart{segs: []zzSeg{{zzStatic, "..", ""}}, text: ".."}
	case 6:
		return &zzURLPart{segs: []zzSeg{{zzStatic, "50%/\u00e9?#{}", ""}}, text: "50%/\u00e9?#{}"}
	}

	return nil
}

// ZZ_C25_AnyValue: a wildcard segment below the root or a host, with or without
// a segment and a trailing slash after it; the value is any 1 to 3 bytes (4 when
// thorough). The URL is used as it is or as it's written.
func ZZ_C25_AnyValue() {
	var t zzTree
	var host *zzURLPart
	if zzPick("host", 2) == 1 {
		host = &zzURLPart{segs: []zzSeg{{zzStatic, "h", ""}}, text: "h"}
	}

	var v = zzStr("value", 1, 3+zzTier())
	var parts = []*zzURLPart{{segs: []zzSeg{{zzWild, "w", ""}}, value: v, text: v}}
	if zzPick("below", 2) == 1 {
		parts = append(parts, &zzURLPart{segs: []zzSeg{{zzStatic, "s", ""}}, text: "s"})
	}

	var chain = zzURLChain(&t, host, parts)
	var n = chain[len(chain)-1]
	n.slash = zzPick("slash", 2) == 1
	t.make()
	zzURLLeadsBack(&t, n, host, parts, zzPick("written", 2) == 1)
}

// ZZ_C25_Chains: one or two segments (three when thorough) of seven kinds below the root, a host, or
// a host with a pattern or a wildcard; the host's value is 1 or 2 bytes of a and
// the dot, the values of the segments are 1 or 2 bytes of a / . % (1 when there
// are two segments, or three when thorough). The last one
// or the one above it is asked; it may be secure with a trailing slash. The URL
// is used as it is or as it's written (written if secure, and as it is otherwise
// when quick).
func ZZ_C25_Chains() {
	var t zzTree
	var host *zzURLPart
	switch zzPick("host", 4) {
	case 1:
		host = &zzURLPart{segs: []zzSeg{{zzStatic, "h.org", ""}}, text: "h.org"}
	case 2:
		var v = zzStrIn("host value", "a.", 1, 2)
		host = &zzURLPart{
			segs:  []zzSeg{{zzPattern, "hv", "[a.]+"}, {zzStatic, "h", ""}},
			value: v, text: v + "h",
		}
	case 3:
		var v = zzStrIn("host value", "a.", 1, 2)
		host = &zzURLPart{
			segs:  []zzSeg{{zzStatic, "h", ""}, {zzWild, "hv", ""}},
			value: v, text: "h" + v,
		}
	}

	var parts []*zzURLPart
	for i, n := 0, 1+zzPick("segments", 2+zzTier()); i < n; i++ {
		var kind = zzPick("kind", 7)
		parts = append(parts, zzURLPartOf(kind, i, func(name string) string {
			var max = 2
			if kind == 3 || n > 1+zzTier() {
				max = 1
			}

			var v string
			if kind == 4 {
				v = zzStrIn("value", "a/.", 1, max)
			} else {
				v = zzStrIn("value", "a/.%", 1, max)
			}

			return v
		}))
	}

	var chain = zzURLChain(&t, host, parts)
	var n = chain[len(chain)-1]
	if zzPick("above", 2) == 1 {
		parts = parts[:len(parts)-1]
		n = chain[len(chain)-2]
	}

	var written bool
	n.https = zzPick("https, slash", 2) == 1
	n.slash, written = n.https, n.https
	if zzTier() > 0 && !n.https {
		written = zzPick("written", 2) == 1
	}

	n.slash = n.slash && !n.root
	t.make()
	zzURLLeadsBack(&t, n, host, parts, written)
}

// ZZ_C25_Direct: the same for a tree that is served without a router, from
// the host or the first resource, with values of 1 or 2 bytes of a / . %.
func ZZ_C25_Direct() {
	var top, n *zzNode
	var v = zzStrIn("value", "a/.%", 1, 2)
	n = zzNew("n", []zzSeg{{zzWild, "v", ""}})
	n.slash = zzPick("slash", 2) == 1
	n.https = zzPick("https", 2) == 1
	switch zzPick("top", 3) {
	case 0:
		top = zzHost(zzSt("top", "h", n))
	case 1:
		top = zzSt("top", "a/b", n)
	case 2:
		top = zzRoot(n)
	}

	top.make()
	var vs HostPathValues
	vs.Set("v", v)
	var u, err = n.real().URL(vs)
	zzAssert(err == nil, "there is no URL for values that fit")
	defer zzInstall()()
	top.real().ServeHTTP(&zzWriter{}, zzAskURL(u, zzPick("written", 2) == 1))
	zzAssert(len(zzHits) == 1, "the URL's request isn't answered once")
	zzAssert(zzHits[0].kind == "handler" && zzHits[0].id == "n", "the URL leads elsewhere")
	zzAssert(
		len(zzHits[0].vals) == 1 && zzHits[0].vals[0].value == v,
		"the value differs",
	)
}

// ZZ_C25_Siblings: a pattern and a wildcard resource among other siblings, with
// values of 1 to 3 bytes of a b. The URL leads to the resource or to a sibling
// that comes before it and matches.
func ZZ_C25_Siblings() {
	var t zzTree
	var st, p1 = zzSt("st", "ab"), zzPt("p1", "a+")
	var p2, w = zzPt("p2", "[ab]{2}"), zzWc("w")
	t.root = zzRoot(st, p1, p2, w)
	t.make()
	var v = zzStrIn("value", "ab", 1, 3)
	var n = []*zzNode{p1, p2, w}[zzPick("resource", 3)]
	var vs HostPathValues
	vs.Set("v"+n.id, v)
	var u, err = n.real().URL(vs)
	var onlyA = true
	for i := 0; i < len(v); i++ {
		onlyA = onlyA && v[i] == 'a'
	}

	var fits = n == w || n == p1 && onlyA || n == p2 && len(v) == 2
	zzAssert((err == nil) == fits, "values that don't fit are errors")
	if err != nil {
		zzAssert(errors.Is(err, ErrInvalidValue), "a value that doesn't fit is invalid")
		return
	}

	var want = "w"
	switch {
	case v == "ab":
		want = "st"
	case onlyA:
		want = "p1"
	case len(v) == 2:
		want = "p2"
	}

	defer zzInstall()()
	t.ro.ServeHTTP(&zzWriter{}, zzAskURL(u, false))
	zzAssert(len(zzHits) == 1 && zzHits[0].kind == "handler", "the URL leads nowhere")
	zzAssert(zzHits[0].id == want, "the URL leads elsewhere")
}

// ZZ_C25_Errors: a host with a pattern and two segments, with a pattern and with
// a wildcard and a text. Each of the values is missing or any string of up to 2
// bytes (3 when thorough) of a b. The host or one of the resources is asked.
func ZZ_C25_Errors() {
	var t zzTree
	var w = zzNew("w", []zzSeg{{zzStatic, "x", ""}, {zzWild, "c", ""}})
	var p = zzNew("p", []zzSeg{{zzPattern, "b", "b+"}}, w)
	var h = zzHost(zzNew("h", []zzSeg{{zzPattern, "a", "a+"}, {zzStatic, "h", ""}}, p))
	t.hosts = []*zzNode{h}
	t.make()
	var vs HostPathValues
	var missing, invalid bool
	var target = zzPick("target", 3)
	var text = [3]string{}
	for i, name := range []string{"a", "b", "c"} {
		if zzPick("missing", 2) == 1 {
			missing = missing || i <= target
			continue
		}

		var v = zzStrIn("value", "ab", 0, 2+zzTier())
		vs.Set(name, v)
		text[i] = v
		if i > target || i == 2 {
			continue
		}

		invalid = invalid || v == ""
		for k := 0; k < len(v); k++ {
			invalid = invalid || v[k] != name[0]
		}
	}

	var n = []*zzNode{h, p, w}[target]
	var u, err = n.real().URL(vs)
	zzAssert((err == nil) == (!missing && !invalid), "missing or unfitting values aren't reported")
	if err != nil {
		zzAssert(
			missing && errors.Is(err, ErrMissingValue) ||
				invalid && errors.Is(err, ErrInvalidValue),
			"another error is reported",
		)

		zzAssert(u == nil, "there is a URL with an error")
		return
	}

	var want = ""
	switch target {
	case 1:
		want = "/" + text[1]
	case 2:
		want = "/" + text[1] + "/x" + text[2]
	}

	zzAssert(u.Host == text[0]+"h" && u.Path == want, "the URL differs")
}

// ZZ_C25_Empty: a segment or a host that would be empty isn't a URL's. The value
// is up to 2 bytes of a b.
func ZZ_C25_Empty() {
	var t zzTree
	var n *zzNode
	var seg = [][]zzSeg{
		{{zzWild, "v", ""}},
		{{zzPattern, "v", "[ab]*"}},
		{{zzPattern, "v", "[ab]?"}, {zzPattern, "v", "[ab]?"}},
	}[zzPick("template", 3)]

	switch zzPick("place", 3) {
	case 0:
		zzAssume(seg[0].k == zzPattern)
		n = zzHost(zzNew("n", seg))
		t.hosts = []*zzNode{n}
	case 1:
		n = zzNew("n", seg)
		t.root = zzRoot(n)
	case 2:
		n = zzNew("n", seg, zzSt("k", "k"))
		t.hosts = []*zzNode{zzHost(zzSt("h", "h", n))}
		n.up = t.hosts[0]
	}

	t.make()
	var v = zzStrIn("value", "ab", 0, 1)
	var vs HostPathValues
	vs.Set("v", v)
	if len(n.kids) > 0 {
		n = n.kids[0]
	}

	var u, err = n.real().URL(vs)
	zzAssert((err != nil) == (v == ""), "an empty host or segment isn't reported")
	if err != nil {
		return
	}

	defer zzInstall()()
	t.ro.ServeHTTP(&zzWriter{}, zzAskURL(u, true))
	zzAssert(len(zzHits) == 1 && zzHits[0].kind == "handler" && zzHits[0].id == n.id, "the URL leads elsewhere")
}

// ZZ_C25_Flags: the last of one or two segments below the root, the first one,
// or a host has any configuration, with or without the https scheme and the
// trailing slash in its URL template. The values are 1 byte of a / . %; the URL
// is used as it is or as it's written.
func ZZ_C25_Flags() {
	var t zzTree
	var host *zzURLPart
	if zzPick("host", 2) == 1 {
		host = &zzURLPart{segs: []zzSeg{{zzStatic, "h.org", ""}}, text: "h.org"}
	}

	var parts []*zzURLPart
	for i, n := 0, zzPick("segments", 3); i < n; i++ {
		parts = append(parts, zzURLPartOf(i, i, func(name string) string {
			return zzStrIn("value", "a/.%", 1, 1)
		}))
	}

	var chain = zzURLChain(&t, host, parts)
	var n = chain[len(chain)-1]
	if !n.root {
		n.https = zzPick("https", 2) == 1
		n.slash = zzPick("slash", 2) == 1
	}

	t.make()
	n.configure(zzSymConfig(true))
	zzURLLeadsBack(&t, n, host, parts, zzPick("written", 2) == 1)
}

// ZZ_C25_Static: a static segment's text is 1 or 2 bytes of $ { } : * a / . % or
// a space, or starts or ends with one of them, below the root or a host, with or
// without a resource below it.
func ZZ_C25_Static() {
	var t zzTree
	var host *zzURLPart
	if zzPick("host", 2) == 1 {
		host = &zzURLPart{segs: []zzSeg{{zzStatic, "h", ""}}, text: "h"}
	}

	var s = zzConcretize(zzStrIn("text", "$}:*a.% ~+&=;@!", 1, 2))
	switch zzPick("place", 3) {
	case 0:
		s += "a"
	case 1:
		s = "a" + s
	}

	zzAssume(s != "." && s != "..")
	var parts = []*zzURLPart{{segs: []zzSeg{{zzStatic, s, ""}}, text: s}}
	if zzPick("below", 2) == 1 {
		parts = append(parts, zzURLPartOf(1, 1, func(string) string { return "v" }))
	}

	var chain = zzURLChain(&t, host, parts)
	t.make()
	zzURLLeadsBack(&t, chain[len(chain)-1], host, parts, zzPick("written", 2) == 1)
}
