//zz:use policy

package nanomux

import "strings"

func init() { zzHandledBy = zzAllMethods }

// zzC29Same asserts that two answers to the same request are the same.
func zzC29Same(a, b zzHit) {
	zzCover(b.kind)
	zzAssert(a.kind == b.kind, "served directly the answer is "+a.kind+", through the router "+b.kind)
	zzAssert(a.id == b.id, "another handler answers when served directly")
	zzAssert(a.code == b.code, "the status differs when served directly")
	zzAssert(a.url == b.url, "the redirect differs when served directly")
	zzAssert(a.rem == b.rem, "the remaining path differs when served directly")
	zzAssert(a.res == b.res && a.hst == b.hst, "Args.CurrentResource or Args.Host differs when served directly")
	zzAssert(len(a.vals) == len(b.vals), "the values differ when served directly")
	for i := range b.vals {
		zzAssert(a.vals[i] == b.vals[i], "the values differ when served directly")
	}
}

func zzC29Config() Config {
	return Config{
		SubtreeHandler:           zzBool("subtree"),
		HasTrailingSlash:         zzBool("has"),
		RedirectsInsecureRequest: zzBool("redirects"),
		LenientOnTrailingSlash:   zzBool("lenient"),
		LenientOnUncleanPath:     zzBool("unclean"),
	}
}

// ZZ_C29_Policy: the subject is a root resource, a static or wildcard resource,
// or a host, with any of five flags set and a target to redirect to or not;
// every path of up to 5 bytes (thorough: 6) over / a b .
func ZZ_C29_Policy() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", 4), false, false)
	p.n.configure(zzC29Config())
	switch zzPick("redirect", 3) {
	case 1:
		p.n.redirect("/t", 301)
	case 2:
		p.n.redirectAny("/t", 301)
	}

	var q = &zzReq{host: p.host, query: "k=v", method: zzAnyMethod()}
	q.path = "/" + zzStrIn("path", "/ab.", 0, 4+zzTier())
	q.split()
	if !p.n.root && !p.n.host {
		if len(q.segs) == 0 || q.segs[0] != "a" && p.n.segs[0].k == zzStatic {
			zzAssert(zzServe(p.n.real(), q).kind == "notfound", "a request of another resource was answered")
			return
		}
	}

	zzC29Same(zzServe(p.n.real(), q), zzServe(p.t.ro, q))
}

// ZZ_C29_AnyPath: the same subjects with three of the flags set or not, and
// paths that don't have to start with a slash: 1 to 3 bytes (thorough: 4) over / a * .
func ZZ_C29_AnyPath() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", 4), false, false)
	p.n.configure(Config{
		SubtreeHandler:           zzBool("subtree"),
		RedirectsInsecureRequest: zzBool("redirects"),
		LenientOnUncleanPath:     zzBool("unclean"),
	})

	var q = &zzReq{host: p.host, method: zzAnyMethod()}
	q.path = zzStrIn("path", "/a*.", 1, 3+zzTier())
	q.split()
	if !p.n.root && !p.n.host {
		if len(q.segs) == 0 || q.segs[0] != "a" && p.n.segs[0].k == zzStatic {
			zzAssert(zzServe(p.n.real(), q).kind == "notfound", "a request of another resource was answered")
			return
		}
	}

	zzC29Same(zzServe(p.n.real(), q), zzServe(p.t.ro, q))
}

func zzC29Tree() *zzTree {
	return zzOnce("c29", func() interface{} {
		var t = &zzTree{}
		t.hosts = []*zzNode{zzHost(zzNew("h", []zzSeg{
			{zzPattern, "v1", "[ab]"}, {zzStatic, ".", ""}, {zzPattern, "v2", ".+"},
		}, zzWc("hw", zzSt("hwa", "a")), zzPt("hp", "b+", zzWc("hpw"))))}
		t.root = zzRoot(
			zzPt("p", "[ab]+", zzSt("pa", "a"), zzWc("pw")),
			zzNew("m", []zzSeg{{zzStatic, "%", ""}, {zzWild, "vm", ""}}, zzPt("mp", "/|a")),
		)

		t.make()
		t.hosts[0].node("hp").real().SetConfiguration(Config{SubtreeHandler: true})
		t.root.node("m").real().SetConfiguration(Config{SubtreeHandler: true, HasTrailingSlash: true})
		return t
	}).(*zzTree)
}

// ZZ_C29_Host: a pattern host of which every request host of up to 5 bytes over
// a b . : 1 is served, with another host in the request's URL or not, with paths of
// up to 5 bytes over / a b; a host that does not match is not found.
func ZZ_C29_Host() {
	defer zzInstall()()
	var t = zzC29Tree()
	var q = &zzReq{
		host:   zzStrIn("host", "ab.:1", 0, 5),
		path:   "/" + zzStrIn("path", "/ab", 0, 4),
		method: zzAnyMethod(),
	}

	switch zzPick("url host", 4) {
	case 1:
		q.urlHost = true
	case 2:
		q.otherHost = "a.b"
	case 3:
		q.otherHost = "x"
	}

	q.split()
	var h = t.hosts[0]
	var got = zzServe(h.hst, q)
	if ok, _ := zzRefMatch(h.segs, zzHostOnly(q.host)); q.host == "" || !ok {
		zzAssert(got.kind == "notfound", "a request for another host was answered")
		return
	}

	zzC29Same(got, zzServe(t.ro, q))
}

// ZZ_C29_Resource: resources with a pattern and with a mixed template; paths of
// up to 5 bytes of any value, and raw paths of up to 7 over / % 2 F 5 a.
func ZZ_C29_Resource() {
	defer zzInstall()()
	var t = zzC29Tree()
	var n = t.root.kids[zzPick("resource", 2)]
	var q = &zzReq{host: "x", raw: zzPick("raw", 2) == 1}
	if q.raw {
		q.path = "/" + zzStrIn("path", "/%2F5a", 0, 6)
	} else {
		q.path = "/" + zzStr("path", 0, 4)
	}

	q.split()
	var got = zzServe(n.res, q)
	if len(q.segs) == 0 {
		zzAssert(got.kind == "notfound", "a request without the resource's segment was answered")
		return
	}

	var seg, ok = q.seg(0)
	if !ok {
		zzAssert(got.kind == "bad", "a malformed segment was accepted")
		return
	}

	if m, _ := zzRefMatch(n.segs, seg); !m {
		zzAssert(got.kind == "notfound", "a request of another resource was answered")
		return
	}

	zzC29Same(got, zzServe(t.ro, q))
}

// ZZ_C29_OddTexts: resources and hosts with curly braces, dollar signs, colons,
// percent signs, slashes and spaces in their templates; every host or segment of up to 4
// bytes (thorough: 5) of those.
func ZZ_C29_OddTexts() {
	defer zzInstall()()
	var t = zzOnce("c29odd", func() interface{} {
		var t = &zzTree{}
		t.root = zzRoot(
			zzSt("braces", "{a}", zzWc("below")),
			zzSt("dollar", "$a"),
			zzSt("colon", "a:"),
			zzSt("percent", "%"),
			zzSt("slash", "a/"),
			zzNew("mixed", []zzSeg{{zzStatic, "{", ""}, {zzWild, "vm", ""}}),
			zzNew("end", []zzSeg{{zzPattern, "ve", "[a$]+"}, {zzStatic, "}$", ""}}),
		)

		t.hosts = []*zzNode{
			zzHost(zzSt("h1", "{a}")),
			zzHost(zzSt("h2", "$a")),
			zzHost(zzNew("h3", []zzSeg{{zzStatic, "{", ""}, {zzWild, "vh", ""}, {zzStatic, "%", ""}})),
		}

		t.make()
		return t
	}).(*zzTree)

	var text = zzStrIn("text", "{}$:a%/ ", 0, 4+zzTier())
	if zzPick("what", 2) == 0 {
		var n = t.hosts[zzPick("host", len(t.hosts))]
		var q = &zzReq{host: text, path: "/", method: zzAnyMethod()}
		q.split()
		var got = zzServe(n.hst, q)
		if ok, _ := zzRefMatch(n.segs, zzHostOnly(text)); text == "" || !ok {
			zzAssert(got.kind == "notfound", "a request for another host was answered")
			return
		}

		var want = zzServe(t.ro, q)
		if want.id == n.id || want.kind == "status" {
			zzC29Same(got, want)
		}

		zzAssert(got.kind == "handler" && got.id == n.id || q.method == zzUnhandled && got.kind == "status",
			"a request for the host was not handled")
		return
	}

	var n = t.root.kids[zzPick("resource", len(t.root.kids))]
	var q = &zzReq{host: "x", path: "/" + text, method: zzAnyMethod()}
	if zzPick("raw", 2) == 1 {
		q.raw = true
		q.path = strings.ReplaceAll(strings.ReplaceAll("/"+strings.ReplaceAll(text, "%", "%25"), "a/", "a%2F"), " ", "%20")
	}

	q.split()
	zzAssume(!q.unclean && !q.slash && len(q.segs) == 1)
	var seg, ok = q.seg(0)
	zzAssume(ok)
	var got = zzServe(n.res, q)
	if m, _ := zzRefMatch(n.segs, seg); !m {
		zzAssert(got.kind == "notfound", "a request of another resource was answered")
		return
	}

	zzAssert(got.kind == "handler" && got.id == n.id || q.method == zzUnhandled && got.kind == "status",
		"a request of the resource was not handled")
}
