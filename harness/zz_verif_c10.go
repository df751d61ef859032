//zz:use route

package nanomux

import (
	"net/http"
	"net/url"
)

// zzAnswering writes a response or declines.
func zzAnswering(w http.ResponseWriter, _ *http.Request, _ *Args) bool {
	if zzDeclining && zzBool("handler declines") {
		return false
	}

	w.WriteHeader(200)
	return true
}

var zzDeclining bool

func zzDecliner(next Handler) Handler {
	return func(w http.ResponseWriter, r *http.Request, args *Args) bool {
		if zzDeclining && zzBool("middleware declines") {
			return false
		}

		return next(w, r, args)
	}
}

// zzC10Tree is a router with every kind of host and resource, some of which have
// no handlers, redirect, or have middlewares.
func zzC10Tree(mw bool) *zzTree {
	var key = "c10"
	if mw {
		key += "mw"
	}

	return zzOnce(key, func() interface{} {
		var t = &zzTree{}
		var h = zzHost(zzSt("h", "h", zzSt("ha", "a", zzWc("haw")), zzPt("hp", "b+")))
		var g = zzHost(zzNew("g", []zzSeg{{zzStatic, "g", ""}, {zzWild, "vg", ""}}, zzWc("gw")))
		var a = zzSt("a", "a", zzWc("aw", zzSt("awb", "b")), zzPt("ap", "a"))
		var b = zzPt("b", "b+", zzSt("bb", "b"))
		var c = zzSt("c", "c")
		var e = zzSt("e", "e", zzSt("eb", "b"))
		g.silent, b.kids[0].silent, e.silent = true, true, true
		t.hosts = []*zzNode{h, g}
		t.root = zzRoot(a, b, c, e)
		t.make()
		zzWarm(t.ro, "h", "x")
		var all = append([]*zzNode{t.root}, t.hosts...)
		for _, n := range all {
			n.each(func(n *zzNode) {
				if !n.silent {
					n.real().SetHandlerFor("GET", zzAnswering)
				}
			})

			if mw {
				n.each(func(n *zzNode) {
					n.real().WrapRequestPasser(zzDecliner)
					if !n.silent {
						n.real().WrapRequestHandler(zzDecliner)
					}
				})
			}
		}

		h.real().SetConfiguration(Config{SubtreeHandler: true})
		a.real().SetConfiguration(Config{SubtreeHandler: true})
		a.kids[0].real().SetConfiguration(Config{SubtreeHandler: true, HasTrailingSlash: true})
		b.real().SetConfiguration(Config{Secure: true})
		g.kids[0].real().SetConfiguration(Config{RedirectsInsecureRequest: true, StrictOnTrailingSlash: true})
		c.real().RedirectRequestTo("/a", 302)
		e.kids[0].real().RedirectAnyRequestTo("a/", 301)
		if mw {
			t.ro.WrapRequestPasser(zzDecliner)
		}

		return t
	}).(*zzTree)
}

// zzC10Serve serves the request with the default handlers of the package.
func zzC10Serve(h http.Handler, q *zzReq) {
	var w = &zzWriter{}
	h.ServeHTTP(w, q.request())
	zzAssert(len(w.codes) > 0, "the request was not answered")
	zzAssert(len(w.codes) == 1, "the request was answered more than once")
	zzObsInt("status", w.codes[0])
}

func zzC10Handler(t *zzTree) http.Handler {
	switch zzPick("server", 5) {
	case 1:
		return t.hosts[0].hst
	case 2:
		return t.root.res
	case 3:
		return t.root.kids[0].res
	case 4:
		return t.root.kids[0].kids[0].res
	}

	return t.ro
}

// ZZ_C10_Paths: any path of up to 4 bytes, which needn't start with a slash and
// may be empty, sent to the router, a host, the root or a resource of a tree
// with subtree handlers, secure and strict responders, redirects and responders
// without handlers.
func ZZ_C10_Paths() {
	var t = zzC10Tree(false)
	var q = &zzReq{forwarded: true, host: []string{"h", "gg", "", "x"}[zzPick("host", 4)], tls: zzBool("tls")}
	q.path = zzStr("path", 0, 3+zzTier())
	zzC10Serve(zzC10Handler(t), q)
}

// ZZ_C10_Shapes: paths of up to 7 bytes (thorough: 8) over / a b . e and five
// methods, sent to the router.
func ZZ_C10_Shapes() {
	var t = zzC10Tree(false)
	var q = &zzReq{forwarded: true, host: []string{"h", "gg", "x"}[zzPick("host", 3)], tls: zzBool("tls")}
	q.method = []string{"GET", "PUT", "OPTIONS", "HEAD", "CONNECT"}[zzPick("method", 5)]
	q.path = "/" + zzStrIn("path", "/ab.e", 0, 6+zzTier())
	zzC10Serve(t.ro, q)
}

// ZZ_C10_Raw: raw paths of up to 5 bytes (thorough: 6) over / % 2 F . a, well formed or not,
// whose path may also be something else.
func ZZ_C10_Raw() {
	var t = zzC10Tree(false)
	var q = &zzReq{forwarded: true, host: []string{"h", "gg", "x"}[zzPick("host", 3)], raw: true}
	q.path = zzStrIn("path", "/%2F.a", 1, 5+zzTier())
	var r = q.request()
	if zzBool("different") {
		r.URL.Path = zzStrIn("decoded", "/a", 0, 2)
	}

	var w = &zzWriter{}
	zzC10Handler(t).ServeHTTP(w, r)
	zzAssert(len(w.codes) > 0, "the request was not answered")
	zzAssert(len(w.codes) == 1, "the request was answered more than once")
}

// ZZ_C10_Decline: every handler, request handler middleware and request passer
// middleware decides anew for each call whether it declines; paths of up to 6
// bytes over / a b.
func ZZ_C10_Decline() {
	var t = zzC10Tree(true)
	zzDeclining = true
	defer func() { zzDeclining = false }()
	var q = &zzReq{forwarded: true, host: []string{"h", "gg", "x"}[zzPick("host", 3)], tls: true}
	q.path = "/" + zzStrIn("path", "/ab", 0, 5+zzTier())
	zzC10Serve(zzC10Handler(t), q)
}

// ZZ_C10_Chain: a tree of four levels below the root or a host, in which each of
// five responders is a subtree handler or not; each handler may decline and the
// next one above that is a subtree handler is asked then, or not found answers.
// The method may be one that only the handlers for not allowed methods handle. Clean paths of up to 9 bytes over / a b c without a trailing slash.
func ZZ_C10_Chain() {
	defer zzInstall()()
	var i = zzPick("tree", 2)
	var t = zzOnce("c10chain"+string(rune('0'+i)), func() interface{} {
		var c = zzSt("c", "c", zzWc("cw"))
		var b = zzWc("b", c, zzPt("bp", "a+"))
		var d = zzPt("d", "b+", zzSt("dd", "a"))
		d.kids[0].silent = true
		var a = zzSt("a", "a", b)
		var t = &zzTree{}
		if i == 0 {
			t.root = zzRoot(a, d)
		} else {
			t.hosts = []*zzNode{zzHost(zzNew("h", []zzSeg{{zzPattern, "vh", "h+"}}, a, d))}
			t.root = zzRoot()
		}

		t.make()
		for _, n := range append(append([]*zzNode(nil), t.hosts...), t.root) {
			n.each(func(n *zzNode) {
				if !n.silent {
					n.real().SetHandlerFor("!", zzHandler(n.id))
				}
			})
		}

		zzWarm(t.ro, "h", "x")
		return t
	}).(*zzTree)

	var top = t.root
	if i == 1 {
		top = t.hosts[0]
	}

	for _, id := range []string{top.id, "a", "b", "c", "d"} {
		if zzBool("subtree " + id) {
			top.node(id).configure(Config{SubtreeHandler: true})
		}
	}

	var q = &zzReq{host: "hh", path: "/" + zzStrIn("path", "/abc", 0, 8+zzTier())}
	if zzBool("not allowed") {
		q.method = zzUnhandled
	}

	q.split()
	zzAssume(!q.unclean && !q.slash)
	zzCheckChain(t, q)
}

// ZZ_C10_Empty: routers, hosts and resources without anything registered, asked
// for any path of up to 2 bytes and any host of up to 2.
func ZZ_C10_Empty() {
	var q = &zzReq{forwarded: true, host: zzStr("host", 0, 2), path: zzStr("path", 0, 2)}
	var h http.Handler
	switch zzPick("server", 4) {
	case 0:
		h = NewRouter()
	case 1:
		h = NewDormantHost("http://a")
	case 2:
		h = NewDormantResource("/")
	case 3:
		h = NewDormantResource("/a")
	}

	zzC10Serve(h, q)
}

// ZZ_C10_Odd: methods of up to 2 bytes of any value (thorough: 3), hosts of up
// to 2 (thorough: 3) and a query of up to 1, sent to a path that's handled, redirected or not found.
func ZZ_C10_Odd() {
	var t = zzC10Tree(false)
	var r = &http.Request{
		Method: zzStr("method", 0, 2+zzTier()),
		Host:   zzStr("host", 0, 2+zzTier()),
		Header: http.Header{},
		URL: &url.URL{
			Path:     []string{"/", "*", "/a", "/a/", "//a", "/c", "/e/b", "/n"}[zzPick("path", 8)],
			RawQuery: zzStr("query", 0, 1),
		},
	}

	var w = &zzWriter{}
	t.ro.ServeHTTP(w, r)
	zzAssert(len(w.codes) == 1, "the request was not answered exactly once")
}
