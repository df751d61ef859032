//zz:use route
//zz:use lib

package nanomux

import (
	"net/http"
	"net/url"
)

type zzC22Impl struct{ id string }

func (i *zzC22Impl) HandleGet(w http.ResponseWriter, r *http.Request, args *Args) bool {
	return zzC22Handler(w, r, args)
}

type zzC22Key struct{}

// zzC22Handler uses everything a handler may and answers with what it read.
func zzC22Handler(w http.ResponseWriter, r *http.Request, args *Args) bool {
	args.Set(zzC22Key{}, r.URL.Path)
	var s = args.RemainingPath()
	for _, n := range []string{"va", "vp", "vw", "vg", "vc"} {
		s += "," + args.HostPathValues().Get(n)
	}

	s += "," + args.Get(zzC22Key{}).(string)
	if h := args.Host(); h != nil {
		s += ",host"
	}

	if cr := args.CurrentResource(); cr != nil {
		s += ",resource " + cr.Name()
		if u, err := cr.URL(args.HostPathValues()); err == nil {
			s += u.Path
		}
	}

	if d, ok := args.ResponderSharedData().(string); ok {
		s += "," + d
	}

	if i, ok := args.ResponderImpl().(*zzC22Impl); ok {
		s += "," + i.id
	}

	w.Header()["X-Read"] = []string{s}
	if r.Method == "DECLINED" {
		return false
	}

	w.WriteHeader(200)
	return true
}

// zzC22Tree is a router with hosts and resources of each kind, configurations,
// redirects, middlewares and implementations.
func zzC22Tree() *zzTree {
	return zzOnce("c22", func() interface{} {
		var t = &zzTree{}
		t.hosts = []*zzNode{
			zzHost(zzSt("h", "h", zzSt("ha", "a", zzWc("w")), zzPt("hb", "b+"))),
			zzHost(zzNew("g", []zzSeg{{zzStatic, "g", ""}, {zzWild, "vg", ""}}, zzWc("c"))),
		}

		t.root = zzRoot(
			zzSt("a", "a", zzPt("p", "b+", zzSt("aba", "a")), zzWc("w")),
			zzNew("q", []zzSeg{{zzPattern, "va", "a+"}, {zzStatic, "b", ""}, {zzPattern, "vb", "a"}}),
			zzPt("p", "b+", zzWc("w")),
			zzWc("c", zzSt("wa", "a")),
		)

		t.make()
		t.hosts[0].configure(Config{SubtreeHandler: true})
		var a = t.root.kids[0]
		a.configure(Config{SubtreeHandler: true, HasTrailingSlash: true})
		t.root.kids[2].configure(Config{RedirectsInsecureRequest: true})
		t.root.kids[3].redirect("/a", 302)
		t.hosts[0].kids[1].redirectAny("/x", 301)
		t.hosts[1].kids[0].configure(Config{HandlesThePathAsIs: true})
		var pass Middleware = func(next Handler) Handler {
			return func(w http.ResponseWriter, r *http.Request, args *Args) bool {
				return next(w, r, args)
			}
		}

		for _, n := range append([]*zzNode{t.root}, t.hosts...) {
			n.each(func(n *zzNode) {
				n.real().SetSharedData(n.id)
				n.real().SetImplementation(&zzC22Impl{n.id})
				n.real().SetHandlerFor("DECLINED", zzC22Handler)
			})
		}

		t.ro.WrapRequestPasser(pass)
		t.ro.WrapAllRequestPassers(pass)
		t.ro.WrapAllRequestHandlers(pass)
		t.ro.WrapAllHandlersOf("*", pass)
		a.real().WrapRequestHandler(Mw(func(next http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				next.ServeHTTP(w, r)
			})
		}))

		return t
	}).(*zzTree)
}

// zzC22NotFound installs a not-found handler that uses its arguments.
func zzC22NotFound() func() {
	var nf = HandlerOfNotFound()
	SetHandlerForNotFound(func(w http.ResponseWriter, r *http.Request, args *Args) bool {
		args.Set(zzC22Key{}, r.URL.Path)
		var s = args.RemainingPath()
		for _, n := range []string{"va", "vp", "vw", "vg", "vc"} {
			s += "," + args.HostPathValues().Get(n)
		}

		w.Header()["X-Read"] = []string{s + "," + args.Get(zzC22Key{}).(string)}
		w.WriteHeader(404)
		return true
	})

	return func() { SetHandlerForNotFound(nf) }
}

// zzC22Serve serves the request twice as if at the same time as others, with the
// same outcome.
func zzC22Serve(h http.Handler, q *zzReq) {
	defer zzC22NotFound()()
	var request = func() (int, string, string) {
		var w = &zzWriter{}
		h.ServeHTTP(w, q.request())
		var read string
		if v := w.Header()["X-Read"]; len(v) > 0 {
			read = v[0]
		}

		var to string
		if v := w.Header()["Location"]; len(v) > 0 {
			to = v[0]
		}

		zzAssert(len(w.codes) > 0, "the request was not answered")
		return w.codes[0], read, to
	}

	// The first requests are served at the same time too.
	zzConcurrent(func() { request() })
	var code, read, to = request()
	zzConcurrent(func() {
		var c, r, t = request()
		zzAssert(c == code, "the status differs from that of the request alone")
		zzAssert(r == read, "the handler read something else than alone")
		zzAssert(t == to, "the redirect differs from that of the request alone")
	})
}

// ZZ_C22_Router: a request with any of five methods and any path of up to 4 bytes
// of a b c / % . (5 when thorough), escaped or not, for any of four hosts, writes
// nothing that other requests see, uses no arguments given back, and each time has
// the outcome it has alone.
func ZZ_C22_Router() {
	var t = zzC22Tree()
	var q = &zzReq{path: "/" + zzStrIn("path", "abc/%.", 0, 4+zzTier()), raw: zzBool("raw")}
	q.host = []string{"h", "gx", "h:1", "x"}[zzPick("host", 4)]
	q.tls = zzBool("tls")
	q.method = []string{"GET", "DECLINED", "OPTIONS", "X"}[zzPick("method", 4)]
	zzC22Serve(t.ro, q)
}

// ZZ_C22_Direct: the same for a host, the root or a resource that's served
// directly, with paths of up to 4 bytes of a b c / (5 when thorough).
func ZZ_C22_Direct() {
	var t = zzC22Tree()
	var n = []*zzNode{
		t.hosts[0], t.hosts[1], t.root, t.root.kids[0], t.root.kids[2], t.root.kids[3],
	}[zzPick("served", 6)]

	var q = &zzReq{path: zzStrIn("path", "abc/", 0, 4+zzTier())}
	q.host = []string{"h", "gx", "x"}[zzPick("host", 3)]
	q.tls = zzBool("tls")
	zzC22Serve(n.real(), q)
}

// ZZ_C22_Unusual: URLs without a path, with an opaque part or a host, and requests
// without a host.
func ZZ_C22_Unusual() {
	var t = zzC22Tree()
	var u = &url.URL{Path: zzStrIn("path", "/a", 0, 1)}
	u.Host = []string{"", "h", "gx:1"}[zzPick("url host", 3)]
	u.Opaque = []string{"", "x"}[zzPick("opaque", 2)]
	var host = []string{"", "h", ":", "[::1]"}[zzPick("host", 4)]
	var h = []http.Handler{t.ro, t.hosts[0].hst, t.root.res, t.root.kids[0].res}[zzPick("served", 4)]
	defer zzC22NotFound()()
	zzConcurrent(func() {
		var r = &http.Request{Method: "GET", URL: u, Host: host, Header: http.Header{}}
		var w = &zzWriter{}
		h.ServeHTTP(w, r)
		zzAssert(len(w.codes) > 0, "the request was not answered")
	})
}

// ZZ_C22_Pool: with a handler or a middleware that serves another request of the
// same router meanwhile, each request has its own arguments, which go back to the
// pool once, after their last use.
func ZZ_C22_Pool() {
	var t = zzC22Tree()
	var inner = &zzReq{host: []string{"h", "x"}[zzPick("inner host", 2)]}
	inner.path = "/" + zzStrIn("inner path", "ab/%", 0, 2)
	inner.raw = zzBool("inner raw")
	var nest Middleware = func(next Handler) Handler {
		return func(w http.ResponseWriter, r *http.Request, args *Args) bool {
			if r.Header["X-Nested"] != nil {
				return next(w, r, args)
			}

			args.Set(zzC22Key{}, "outer")
			var values = len(args.HostPathValues())
			var r2 = inner.request()
			r2.Header["X-Nested"] = []string{"1"}
			t.ro.ServeHTTP(&zzWriter{}, r2)
			zzAssert(args.Get(zzC22Key{}) == "outer", "the other request changed the arguments")
			zzAssert(len(args.HostPathValues()) == values, "the other request changed the values")
			return next(w, r, args)
		}
	}

	switch zzPick("wrapped", 4) {
	case 0:
		t.ro.WrapRequestPasser(nest)
	case 1:
		t.root.real().WrapRequestPasser(nest)
	case 2:
		t.root.kids[0].real().WrapRequestHandler(nest)
	case 3:
		t.root.kids[0].kids[0].real().WrapHandlerOf("*", nest)
	}

	zzC22Serve(t.ro, &zzReq{
		host: "x",
		path: []string{"/a/", "/a/b", "/a/bb/a", "/b", "/%"}[zzPick("path", 5)],
	})
}

// ZZ_C22_Targets: a root resource, a resource, a host or a host's resource, whose
// requests or any requests are redirected to one of eight targets, with or without
// a redirect handler of its own, and below which there are resources or none;
// paths of up to 4 bytes of a b / (5 when thorough).
func ZZ_C22_Targets() {
	var where, target = zzPick("where", 4), zzPick("target", 8)
	var any, own = zzPick("any", 2) == 1, zzPick("own handler", 2) == 1
	var key = "c22t" + string([]byte{'0' + byte(where), '0' + byte(target)})
	if any {
		key += "a"
	}

	if own {
		key += "o"
	}

	var t = zzOnce(key, func() interface{} {
		var n = zzSt("n", "a", zzSt("below", "b"))
		var t = &zzTree{root: zzRoot(zzSt("other", "o"))}
		switch where {
		case 0:
			t.root = zzRoot(zzSt("below", "b"))
			n = t.root
		case 1:
			t.root = zzRoot(n)
		case 2:
			t.hosts = []*zzNode{zzHost(n)}
		case 3:
			t.hosts = []*zzNode{zzHost(zzSt("h", "a", n))}
		}

		t.make()
		for _, n := range append([]*zzNode{t.root}, t.hosts...) {
			n.each(func(n *zzNode) { n.real().SetHandlerFor("GET", zzC22Handler) })
		}

		n.configure(Config{SubtreeHandler: true, HandlesThePathAsIs: true})
		var to = []string{"/", "/t", "t", "/t/", "t/u/", "http://o", "http://o/", "https://o/t"}[target]
		if any {
			n.redirectAny(to, 302)
		} else {
			n.redirect(to, 307)
		}

		if own {
			n.real().SetRedirectHandler(func(
				w http.ResponseWriter, _ *http.Request, url string, code int, _ *Args,
			) bool {
				w.Header()["Location"] = []string{url}
				w.WriteHeader(code)
				return true
			})
		}

		return t
	}).(*zzTree)

	zzC22Serve(t.ro, &zzReq{
		host: "a", path: "/" + zzStrIn("path", "ab/", 0, 3+zzTier()), query: "q",
	})
}
