//zz:use policy
//zz:use via
//zz:use lib

package nanomux

import (
	"net/http"
	"strings"
)

// zzTrace has the names of the middlewares in the order of their start, and of
// their end with a slash.
var zzTrace []string

func zzTracer(name string) Middleware {
	return func(next Handler) Handler {
		return func(w http.ResponseWriter, r *http.Request, args *Args) bool {
			zzTrace = append(zzTrace, name)
			var handled = next(w, r, args)
			zzTrace = append(zzTrace, "/"+name)
			return handled
		}
	}
}

// zzStack has the names of the middlewares that wrap something.
type zzStack []string

// around returns the trace of the stack with the trace in it.
func (s zzStack) around(in []string) []string {
	var out []string
	for i := len(s) - 1; i >= 0; i-- {
		out = append(out, s[i])
	}

	out = append(out, in...)
	for _, n := range s {
		out = append(out, "/"+n)
	}

	return out
}

// zzWrapped is a model of what wraps the functions of a responder.
type zzWrapped struct {
	passer, handler zzStack

	methods  []string
	handlers []zzStack
	na       zzStack // of the methods that are not allowed
}

func (w *zzWrapped) index(m string) int {
	for i := range w.methods {
		if w.methods[i] == m {
			return i
		}
	}

	return -1
}

// wrap wraps the handlers of the listed methods and reports whether all exist.
func (w *zzWrapped) wrap(list []string, mws zzStack) bool {
	if len(w.methods) == 0 {
		return false
	}

	if len(list) == 1 && list[0] == "!" {
		w.na = append(w.na, mws...)
		return true
	}

	var ok = true
	for _, m := range list {
		if i := w.index(m); i >= 0 {
			w.handlers[i] = append(w.handlers[i], mws...)
		} else if m == "*" && len(list) == 1 {
			for i := range w.handlers {
				w.handlers[i] = append(w.handlers[i], mws...)
			}
		} else {
			ok = false
		}
	}

	return ok
}

// answer is the trace of the request handled by the responder.
func (w *zzWrapped) answer(m string) []string {
	if i := w.index(m); i >= 0 {
		return w.handler.around(w.handlers[i].around(nil))
	}

	return w.handler.around(w.na.around(nil))
}

func zzSameTrace(want []string, what string) {
	zzAssert(len(zzTrace) == len(want), what+": a different number of middlewares ran")
	for i := range want {
		zzAssert(zzTrace[i] == want[i], what+": a middleware ran out of order")
	}
}

// zzListOf splits a list of methods.
func zzListOf(s string) (ms []string) {
	for _, f := range strings.Fields(strings.ReplaceAll(s, ",", " ")) {
		ms = append(ms, strings.ToUpper(f))
	}

	return ms
}

// ZZ_C19_Order: a root resource, a static or wildcard resource, a host or a
// resource below it gets two (three when thorough) calls that wrap its request
// passer, its request handler or the handlers of methods with one or two
// middlewares, by each of three ways; the router's request passer is wrapped
// too. A request for the responder and for the resource below it, with any of
// four methods, meets the middlewares in the right order.
func ZZ_C19_Order() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), false, false)
	var v = zzPick("via", zzVias)
	p.n.real().SetHandlerFor("post", zzHandler(p.n.id))
	var w = &zzWrapped{
		methods:  []string{"GET", "POST", "OPTIONS"},
		handlers: make([]zzStack, 3),
	}

	var lists = []string{"GET", "post, get", "*", "!"}
	for i := 0; i < 2+zzTier(); i++ {
		var names = zzStack{string([]byte{'a' + byte(i)}), string([]byte{'A' + byte(i)})}
		var mws = []Middleware{zzTracer(names[0]), zzTracer(names[1])}
		if zzBool("one") {
			names, mws = names[:1], mws[:1]
		}

		switch op := zzPick("wrapped", 2+len(lists)); op {
		case 0:
			w.passer = append(w.passer, names...)
			p.n.wrapPasser(p.t.ro, v, mws...)
		case 1:
			w.handler = append(w.handler, names...)
			p.n.wrapRequestHandler(p.t.ro, v, mws...)
		default:
			w.wrap(zzListOf(lists[op-2]), names)
			p.n.wrapHandler(p.t.ro, v, lists[op-2], mws...)
		}
	}

	var ro zzStack
	if zzBool("router") {
		ro = zzStack{"x", "y"}
		p.t.ro.WrapRequestPasser(zzTracer("x"), zzTracer("y"))
	}

	var q = &zzReq{host: p.host, path: "/a"}
	if p.n.root || p.n.host {
		q.path = "/"
	}

	zzTrace = nil
	if zzBool("below") {
		q.path = strings.TrimSuffix(q.path, "/") + "/b"
		var got = zzServe(p.t.ro, q)
		zzAssert(got.kind == "handler" && got.id == "below", "the handler below didn't run")
		zzSameTrace(ro.around(w.passer.around(nil)), "below")
		return
	}

	q.method = []string{"GET", "POST", "OPTIONS", "PUT"}[zzPick("method", 4)]
	var got = zzServe(p.t.ro, q)
	if q.method == "OPTIONS" || q.method == "PUT" {
		zzAssert(got.kind == "status", "a default handler didn't answer")
	} else {
		zzAssert(got.kind == "handler" && got.id == p.n.id, "the handler didn't run")
	}

	zzSameTrace(ro.around(w.answer(q.method)), "responder")
}

// ZZ_C19_Many: a call that wraps the request passer, the request handler or the
// handlers of methods, by each of three ways or in bulk, or the router's request
// passer or the not-found handler, with three to five middlewares, after it was
// wrapped with one. A request meets all of them in order.
func ZZ_C19_Many() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), false, false)
	var w = &zzWrapped{methods: []string{"GET", "OPTIONS"}, handlers: make([]zzStack, 2)}
	var ro, nf zzStack
	var names = zzStack{"a", "b", "c", "d", "e"}[:3+zzPick("count", 3)]
	var mws []Middleware
	for _, n := range names {
		mws = append(mws, zzTracer(n))
	}

	var wrapped = zzPick("wrapped", 5)
	var list = []string{"GET", "*", "!"}[zzPick("methods", 3)]
	zzAssume(list == "GET" || wrapped == 2)
	var v = zzPick("via", zzVias+1)
	zzAssume(v == 0 || wrapped < 3)
	var all = p.t.ro
	for i, ms := range [][]Middleware{{zzTracer("z")}, mws} {
		var ns = zzStack{"z"}
		if i > 0 {
			ns = names
		}

		switch wrapped {
		case 0:
			w.passer = append(w.passer, ns...)
			if v == zzVias {
				all.WrapAllRequestPassers(ms...)
			} else {
				p.n.wrapPasser(p.t.ro, v, ms...)
			}
		case 1:
			w.handler = append(w.handler, ns...)
			if v == zzVias {
				all.WrapAllRequestHandlers(ms...)
			} else {
				p.n.wrapRequestHandler(p.t.ro, v, ms...)
			}
		case 2:
			w.wrap(zzListOf(list), ns)
			if v == zzVias {
				all.WrapAllHandlersOf(list, ms...)
			} else {
				p.n.wrapHandler(p.t.ro, v, list, ms...)
			}
		case 3:
			ro = append(ro, ns...)
			p.t.ro.WrapRequestPasser(ms...)
		case 4:
			nf = append(nf, ns...)
			WrapHandlerOfNotFound(ms...)
		}
	}

	var q = &zzReq{host: p.host, path: "/a", method: []string{"GET", "OPTIONS", "PUT"}[zzPick("method", 3)]}
	if p.n.root || p.n.host {
		q.path = "/"
	}

	if wrapped == 4 {
		q.path = "/q/q/q"
	} else if v == zzVias && p.n.up != nil {
		// The responder above it was wrapped too.
		zzAssume(wrapped != 0)
	}

	if wrapped == 0 {
		q.path = strings.TrimSuffix(q.path, "/") + "/b"
	}

	zzTrace = nil
	var got = zzServe(p.t.ro, q)
	if wrapped == 0 {
		zzSameTrace(w.passer.around(nil), "below")
		return
	}

	if wrapped == 4 {
		zzAssert(got.kind == "notfound", "the not-found handler didn't run")
		zzSameTrace(nf.around(nil), "not found")
		return
	}

	zzAssert(got.kind == "handler" || got.kind == "status", "the handler didn't run")
	zzSameTrace(ro.around(w.answer(q.method)), "responder")
}

// zzC19Tree is a router with two hosts, a root and resources of each kind, and
// the models of what wraps their functions.
type zzC19Tree struct {
	t   *zzTree
	all []*zzNode
}

func zzC19Make() *zzC19Tree {
	return zzOnce("c19", func() interface{} {
		var t = &zzTree{}
		t.hosts = []*zzNode{
			zzHost(zzSt("h", "h", zzSt("ha", "a", zzWc("haw")))),
			zzHost(zzNew("g", []zzSeg{{zzStatic, "g", ""}, {zzWild, "vg", ""}}, zzPt("gp", "b+"))),
		}

		t.root = zzRoot(
			zzSt("a", "a", zzSt("ab", "b"), zzPt("ap", "c+")),
			zzPt("p", "b+", zzWc("pw")),
			zzWc("w"),
		)

		var c = &zzC19Tree{t: t}
		for _, n := range append(append([]*zzNode(nil), t.hosts...), t.root) {
			n.each(func(n *zzNode) {
				n.silent = true
				c.all = append(c.all, n)
			})
		}

		t.make()
		for _, n := range c.all {
			switch n.id {
			case "ha", "p": // no handlers
			case "g", "ap", "w":
				n.real().SetHandlerFor("A", zzHandler(n.id))
			case "gp":
				n.real().SetHandlerFor("A B", zzHandler(n.id))
				n.real().SetHandlerFor("!", zzHandler(n.id))
			default:
				n.real().SetHandlerFor("A", zzHandler(n.id))
				n.real().SetHandlerFor("B", zzHandler(n.id))
			}
		}

		return c
	}).(*zzC19Tree)
}

// wrapped is the model of what wraps the functions of the node.
func (c *zzC19Tree) wrapped(n *zzNode) *zzWrapped {
	var ms []string
	switch n.id {
	case "ha", "p":
	case "g", "ap", "w":
		ms = []string{"A", "OPTIONS"}
	default:
		ms = []string{"A", "B", "OPTIONS"}
	}

	return &zzWrapped{methods: ms, handlers: make([]zzStack, len(ms))}
}

// path is the path of requests for the node.
func (c *zzC19Tree) path(n *zzNode) string {
	switch n.id {
	case "root", "h", "g":
		return "/"
	case "a", "ha":
		return "/a"
	case "ab":
		return "/a/b"
	case "ap":
		return "/a/cc"
	case "haw":
		return "/a/x"
	case "p", "gp":
		return "/bb"
	case "pw":
		return "/bb/x"
	}

	return "/x"
}

// ZZ_C19_Bulk: a call that wraps the method handlers listed in any list of up to 3 bytes (4 when thorough) of
// A b * ! , of everything or of what's below any responder in a router with hosts
// and resources of each kind. A request for any of the responders meets them in
// the right order and meets no other. Responders without handlers get their first
// one after that, which is then wrapped by what wraps the request handler.
func ZZ_C19_Bulk() {
	var list = zzStrIn("methods", "Ab*!,", 0, 3+zzTier())
	zzC19Bulk(list, 1)
}

// ZZ_C19_Bulks: two calls that wrap request passers, request handlers or the
// handlers of certain methods, the second for what's below a host or the root or
// for everything (three calls for anything when thorough).
func ZZ_C19_Bulks() {
	zzC19Bulk("", 2+zzTier())
}

func zzC19Bulk(list string, calls int) {
	defer zzInstall()()
	var ms = zzListOf(list)
	for i, m := range ms {
		// The marks must be used alone.
		zzAssume(len(ms) == 1 || strings.IndexAny(m, "!*") < 0)
		for _, o := range ms[:i] {
			zzAssume(o != m)
		}
	}

	var c = zzC19Make()
	var ws = map[string]*zzWrapped{}
	for _, n := range c.all {
		ws[n.id] = c.wrapped(n)
	}

	var names = []string{"a", "b", "c"}
	for i := 0; i < calls; i++ {
		var nm = zzStack{names[i], strings.ToUpper(names[i])}
		var mws = []Middleware{zzTracer(nm[0]), zzTracer(nm[1])}
		var op = zzPick("wrapped", 3)
		if calls == 1 {
			op = 2
		}

		if calls > 1 && op == 2 {
			list = []string{"A", "a, b", "*", "!"}[zzPick("methods", 4)]
			ms = zzListOf(list)
		}

		var from int
		if i == 0 || zzTier() > 0 {
			from = zzPick("from", len(c.all)+1)
		} else {
			// The host h, the root or everything.
			from = []int{0, len(c.all) - 7, len(c.all)}[zzPick("from", 3)]
		}

		var rejected bool
		if from == len(c.all) {
			rejected = zzPanics(func() {
				switch op {
				case 0:
					c.t.ro.WrapAllRequestPassers(mws...)
				case 1:
					c.t.ro.WrapAllRequestHandlers(mws...)
				default:
					c.t.ro.WrapAllHandlersOf(list, mws...)
				}
			})
		} else {
			var n = c.all[from].settings()
			rejected = zzPanics(func() {
				switch op {
				case 0:
					n.WrapSubtreeRequestPassers(mws...)
				case 1:
					n.WrapSubtreeRequestHandlers(mws...)
				default:
					n.WrapSubtreeHandlersOf(list, mws...)
				}
			})
		}

		zzAssert(
			rejected == (op == 2 && len(ms) == 0),
			"a bulk wrapping was accepted or rejected wrongly",
		)

		if rejected {
			return
		}

		for _, n := range c.all {
			var in = from == len(c.all)
			for u := n.up; u != nil; u = u.up {
				in = in || u == c.all[from]
			}

			if !in {
				continue
			}

			var w = ws[n.id]
			switch op {
			case 0:
				w.passer = append(w.passer, nm...)
			case 1:
				w.handler = append(w.handler, nm...)
			default:
				w.wrap(ms, nm)
			}
		}
	}

	var n = c.all[zzPick("asked", len(c.all))]
	var w = ws[n.id]
	if len(w.methods) == 0 {
		// The responder gets its first handler after it was wrapped.
		n.real().SetHandlerFor("A", zzHandler(n.id))
		w.methods = []string{"A", "OPTIONS"}
		w.handlers = make([]zzStack, 2)
	}

	var q = &zzReq{host: "x", path: c.path(n)}
	if t := n.top(); t.id == "h" {
		q.host = "h"
	} else if t.id == "g" {
		q.host = "gg"
	}

	q.method = []string{"A", "B", "OPTIONS", "X"}[zzPick("method", 4)]
	zzTrace = nil
	var got = zzServe(c.t.ro, q)
	var na = w.index(q.method) < 0
	if q.method == "OPTIONS" || na && n.id != "gp" {
		zzAssert(got.kind == "status", "a default handler didn't answer")
	} else {
		zzAssert(got.kind == "handler" && got.id == n.id, "the handler didn't run")
	}

	var want = w.answer(q.method)
	for u := n.up; u != nil; u = u.up {
		want = ws[u.id].passer.around(want)
	}

	zzSameTrace(want, "bulk")
}

// ZZ_C19_Transparent: with everything wrapped by middlewares that only call the
// next handler, a request for any path of up to 7 bytes (8 when thorough) of
// / a b c with any of three hosts has the outcome it has without them.
func ZZ_C19_Transparent() {
	defer zzInstall()()
	var pass Middleware = func(next Handler) Handler {
		return func(w http.ResponseWriter, r *http.Request, args *Args) bool {
			return next(w, r, args)
		}
	}

	var t = zzOnce("c19t", func() interface{} {
		var t = &zzTree{}
		t.hosts = []*zzNode{
			zzHost(zzSt("h", "h", zzSt("ha", "a", zzWc("haw")))),
			zzHost(zzNew("g", []zzSeg{{zzStatic, "g", ""}, {zzWild, "vg", ""}}, zzPt("gp", "b+"))),
		}

		t.root = zzRoot(
			zzSt("a", "a", zzSt("ab", "b"), zzPt("ap", "c+")),
			zzPt("p", "b+", zzWc("pw")),
			zzWc("w"),
		)

		t.make()
		t.hosts[0].configure(Config{SubtreeHandler: true})
		t.root.kids[0].configure(Config{SubtreeHandler: true, LenientOnTrailingSlash: true})
		t.root.kids[1].configure(Config{RedirectsInsecureRequest: true})
		t.root.kids[2].redirect("/a", 302)
		return t
	}).(*zzTree)

	t.ro.WrapRequestPasser(pass)
	t.ro.WrapAllRequestPassers(pass)
	t.ro.WrapAllRequestHandlers(pass)
	t.ro.WrapAllHandlersOf("*", pass)
	t.ro.WrapAllHandlersOf("!", pass)
	var q = &zzReq{
		host: []string{"h", "gx", "x"}[zzPick("host", 3)],
		path: "/" + zzStrIn("path", "/abc", 0, 6+zzTier()),
	}

	q.split()
	zzCheck(zzServe(t.ro, q), q, t.route(q))
}

// ZZ_C19_Set: a handler set after the wrapping isn't wrapped, and what wraps the
// others, the request handler and the request passer stays.
func ZZ_C19_Set() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), false, false)
	var v = zzPick("via", zzVias)
	p.n.real().SetHandlerFor("POST", zzHandler("post"))
	p.n.wrapRequestHandler(p.t.ro, v, zzTracer("a"))
	p.n.wrapHandler(p.t.ro, v, "*", zzTracer("b"))
	p.n.wrapHandler(p.t.ro, v, "!", zzTracer("c"))
	var set = []string{"GET", "PUT", "!", "OPTIONS"}[zzPick("set", 4)]
	p.n.setHandler(p.t.ro, v, set, zzHandler("new"))
	p.n.wrapRequestHandler(p.t.ro, v, zzTracer("d"))

	var q = &zzReq{host: p.host, path: "/a"}
	if p.n.root || p.n.host {
		q.path = "/"
	}

	q.method = []string{"GET", "POST", "PUT", "OPTIONS", "X"}[zzPick("method", 5)]
	zzTrace = nil
	var got = zzServe(p.t.ro, q)
	var in = zzStack{"b"}
	if q.method == "X" || q.method == "PUT" && set != "PUT" {
		in = zzStack{"c"}
		if set == "!" {
			in = nil
		}
	} else if q.method == set {
		in = nil
	}

	if in == nil {
		zzAssert(got.kind == "handler" && got.id == "new", "the new handler didn't run")
	}

	zzSameTrace(zzStack{"a", "d"}.around(in.around(nil)), "set")
}

// ZZ_C19_NotFound: the handler of not-found resources is wrapped in order.
func ZZ_C19_NotFound() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), false, false)
	if zzBool("at once") {
		WrapHandlerOfNotFound(zzTracer("a"), zzTracer("b"))
	} else {
		WrapHandlerOfNotFound(zzTracer("a"))
		WrapHandlerOfNotFound(zzTracer("b"))
	}

	zzTrace = nil
	var q = &zzReq{host: p.host, path: "/q/" + zzStrIn("path", "ac", 1, 2)}
	var got = zzServe(p.t.ro, q)
	zzAssert(got.kind == "notfound", "the not-found handler didn't run")
	zzSameTrace(zzStack{"a", "b"}.around(nil), "not found")
}

// ZZ_C19_Invalid: no middleware, a middleware that's nil, a method without a
// handler and an empty list are rejected.
func ZZ_C19_Invalid() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), false, false)
	var v = zzPick("via", zzVias)
	var mws = [][]Middleware{nil, {nil}, {zzTracer("a"), nil}, {zzTracer("a")}}[zzPick("middlewares", 4)]
	var bad = len(mws) != 1 || mws[0] == nil
	switch zzPick("wrapped", 7) {
	case 0:
		zzAssert(bad == zzPanics(func() { p.n.wrapPasser(p.t.ro, v, mws...) }), "passer")
	case 1:
		zzAssert(bad == zzPanics(func() { p.n.wrapRequestHandler(p.t.ro, v, mws...) }), "request handler")
	case 2:
		var l = zzStrIn("methods", "PUT*! ,GE", 0, 3)
		var ms = zzListOf(l)
		for _, m := range ms {
			zzAssume(len(ms) == 1 || strings.IndexAny(m, "!*") < 0)
			bad = bad || m != "GET" && m != "!" && m != "*"
		}

		bad = bad || len(ms) == 0
		zzAssert(bad == zzPanics(func() { p.n.wrapHandler(p.t.ro, v, l, mws...) }), "handlers")
	case 3:
		zzAssert(bad == zzPanics(func() { p.t.ro.WrapRequestPasser(mws...) }), "router's passer")
	case 4:
		zzAssert(bad == zzPanics(func() { p.t.ro.WrapAllRequestPassers(mws...) }), "passers")
	case 5:
		zzAssert(bad == zzPanics(func() { p.t.ro.WrapAllRequestHandlers(mws...) }), "request handlers")
	case 6:
		zzAssert(bad == zzPanics(func() { WrapHandlerOfNotFound(mws...) }), "not-found handler")
	}
}

// ZZ_C19_Lists: a call that wraps the method handlers of one or two methods
// (thorough: up to three), in lower or upper case, of A, B, OPTIONS and one
// that nothing has, of everything or of what's below any responder.
func ZZ_C19_Lists() {
	var list string
	for i, n := 0, 1+zzPick("count", 2+zzTier()); i < n; i++ {
		if i > 0 {
			list += ", "
		}

		list += []string{"A", "b", "OPTIONS", "options", "C"}[zzPick("word", 5)]
	}

	zzC19Bulk(list, 1)
}
