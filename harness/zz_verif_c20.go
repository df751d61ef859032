//zz:use route
//zz:use lib

package nanomux

import (
	"context"
	"net/http"
	"net/url"
)

// zzStd is a standard middleware that answers by itself when it's told to.
type zzStd struct {
	name string
	next http.Handler
}

// zzStops tells for each middleware whether it answers the request by itself.
var zzStops map[string]bool

// zzRan has the names of the middlewares and handlers that ran.
var zzRan []string

type zzStdKey string

func (s *zzStd) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	zzRan = append(zzRan, s.name)
	if zzStops[s.name] {
		w.WriteHeader(299)
		return
	}

	// Middlewares usually add something to the request's context.
	var c = context.WithValue(r.Context(), zzStdKey(s.name), s.name)
	s.next.ServeHTTP(w, r.WithContext(c))
}

func zzStdMw(name string) Middleware {
	return Mw(func(next http.Handler) http.Handler { return &zzStd{name, next} })
}

// ZZ_C20_Reports: three converted middlewares, one around the
// other, serve three requests one after another with the same or other
// arguments. Each may answer by itself and the handler may answer or decline, and
// each time the report is of this request.
func ZZ_C20_Reports() {
	var answer bool
	var inner Handler = func(http.ResponseWriter, *http.Request, *Args) bool {
		zzRan = append(zzRan, "handler")
		return answer
	}

	var names = []string{"a", "b", "c"}[:3]
	var h = inner
	for _, n := range names {
		h = zzStdMw(n)(h)
	}

	var args = &Args{}
	for i := 0; i < 3; i++ {
		zzStops = map[string]bool{}
		for _, n := range names {
			zzStops[n] = zzBool("stops")
		}

		answer = zzBool("answer")
		if i > 0 && zzBool("other arguments") {
			args = &Args{}
		}

		zzRan = nil
		var r = &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: http.Header{}}
		var handled = h(&zzWriter{}, r, args)
		var want []string
		var report = answer
		for k := len(names) - 1; k >= 0; k-- {
			want = append(want, names[k])
			if zzStops[names[k]] {
				report = true
				break
			}
		}

		if len(want) == len(names) && !zzStops[names[0]] {
			want = append(want, "handler")
		}

		zzAssert(zzSameStrs(zzRan, want), "the wrong handlers ran")
		zzAssert(handled == report, "the report is not of this request")
	}
}

// ZZ_C20_Twice: a middleware may call the next handler again if it declined, or
// serve another request meanwhile; the last answer for the request is reported.
func ZZ_C20_Twice() {
	var first, second = zzBool("first"), zzBool("second")
	var answers = []bool{first, second}
	var calls int
	var inner Handler = func(_ http.ResponseWriter, r *http.Request, _ *Args) bool {
		if r.Method == "OTHER" {
			return zzBool("other's")
		}

		calls++
		return answers[calls-1]
	}

	var other Handler
	var std = func(next http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if r.Method == "OTHER" {
				next.ServeHTTP(w, r)
				return
			}

			next.ServeHTTP(w, r)
			if zzBool("serves another") {
				var r2 = &http.Request{Method: "OTHER", URL: &url.URL{Path: "/"}, Header: http.Header{}}
				other(w, r2, &Args{})
			}

			if zzBool("again") {
				next.ServeHTTP(w, r)
			}
		})
	}

	var h = Mw(std)(inner)
	other = h
	var r = &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: http.Header{}}
	var handled = h(&zzWriter{}, r, &Args{})
	zzAssert(handled == answers[calls-1], "the report is not the next handler's answer")
}

// ZZ_C20_Served: converted middlewares wrap the request passers of a router, its
// host or root and a resource, and the request handler and the method handler of
// the resource. Two requests (three when thorough) in a row are each answered by
// the middleware that answers by itself, by the handler, or, when that declines,
// by the subtree handler above it, if there is one, or else by the handler of
// not-found resources.
func ZZ_C20_Served() {
	defer zzInstall()()
	var top = zzPick("top", 2)
	var a, b *zzNode
	var host = "x"
	b = zzWc("b")
	a = zzSt("a", "a", b)
	var t = &zzTree{}
	if top == 0 {
		t.root = zzRoot(a)
	} else {
		host = "h"
		t.hosts = []*zzNode{zzHost(zzSt("h", "h", a))}
	}

	t.make()
	var subtree = zzPick("subtree handler", 3)
	switch subtree {
	case 1:
		a.configure(Config{SubtreeHandler: true})
	case 2:
		a.up.configure(Config{SubtreeHandler: true})
	}

	var answer bool
	b.real().SetHandlerFor("GET", func(w http.ResponseWriter, _ *http.Request, args *Args) bool {
		zzRan = append(zzRan, "handler")
		zzAssert(args.HostPathValues().Get("vb") == "x", "the handler has no value")
		zzAssert(len(args.HostPathValues()) == 1, "there are other values")
		zzAssert(args.CurrentResource() == b.res, "the handler has another resource")
		if answer {
			w.WriteHeader(200)
		}

		return answer
	})

	var names = []string{"router", "top", "passer", "request", "method"}
	t.ro.WrapRequestPasser(zzStdMw("router"))
	a.up.real().WrapRequestPasser(zzStdMw("top"))
	a.real().WrapRequestPasser(zzStdMw("passer"))
	b.real().WrapRequestHandler(zzStdMw("request"))
	b.real().WrapHandlerOf("GET", zzStdMw("method"))
	for i := 0; i < 2+zzTier(); i++ {
		var stop = zzPick("stops", len(names)+1)
		zzStops = map[string]bool{}
		var want []string
		for k, n := range names {
			if k <= stop {
				want = append(want, n)
			}

			zzStops[n] = k == stop
		}

		answer = zzBool("answer")
		if stop == len(names) {
			want = append(want, "handler")
		}

		zzRan = nil
		var got = zzServe(t.ro, &zzReq{host: host, path: "/a/x"})
		zzAssert(zzSameStrs(zzRan, want), "the wrong handlers ran")
		switch {
		case stop < len(names):
			zzAssert(got.kind == "status" && got.code == 299, "the middleware's answer was not the only one")
		case answer:
			zzAssert(got.kind == "status" && got.code == 200, "the handler's answer was not the only one")
		case subtree > 0:
			var id = []string{a.id, a.up.id}[subtree-1]
			zzAssert(got.kind == "handler" && got.id == id, "a declined request was not answered by the subtree handler")
		default:
			zzAssert(got.kind == "notfound", "a declined request was not answered not found")
		}
	}
}

// ZZ_C20_Data: the middleware and the handlers get the same response writer,
// request and arguments, with what was set in them.
func ZZ_C20_Data() {
	var w0 = &zzWriter{}
	var args0 = &Args{}
	var key = zzStdKey(zzStr("key", 0, 2))
	args0.Set(key, "value")
	var r0 = &http.Request{
		Method: zzStr("method", 0, 2),
		URL:    &url.URL{Path: zzStr("path", 0, 2)},
		Host:   zzStr("host", 0, 2),
		Header: http.Header{},
	}

	r0 = r0.WithContext(context.WithValue(context.Background(), zzStdKey("before"), 1))
	var ran int
	var same = func(w http.ResponseWriter, r *http.Request, args *Args) {
		ran++
		zzAssert(w == http.ResponseWriter(w0), "the response writer differs")
		zzAssert(args == args0 && args.Get(key) == "value", "the arguments differ")
		zzAssert(
			r.Method == r0.Method && r.URL == r0.URL && r.Host == r0.Host,
			"the request differs",
		)

		zzAssert(r.Context().Value(zzStdKey("before")) == 1, "the context lost a value")
	}

	var std = func(next http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			same(w, r, ArgsFrom(r))
			var c = context.WithValue(r.Context(), zzStdKey("added"), 2)
			next.ServeHTTP(w, r.WithContext(c))
		})
	}

	var plain = func(w http.ResponseWriter, r *http.Request) { same(w, r, args0) }
	var withArgs = func(w http.ResponseWriter, r *http.Request) {
		same(w, r, ArgsFrom(r))
	}

	var h Handler
	switch zzPick("handler", 5) {
	case 0:
		h = Hr(http.HandlerFunc(plain))
	case 1:
		h = FnHr(plain)
	case 2:
		h = HrWithArgs(http.HandlerFunc(withArgs))
	case 3:
		h = FnHrWithArgs(withArgs)
	case 4:
		h = func(w http.ResponseWriter, r *http.Request, args *Args) bool {
			same(w, r, args)
			zzAssert(
				r.Context().Value(zzStdKey("added")) == 2,
				"what the middleware added was lost",
			)

			return true
		}
	}

	zzAssert(Mw(std)(h)(w0, r0, args0), "an answered request wasn't reported handled")
	zzAssert(ran == 2, "the middleware or the handler didn't run once")
}

// ZZ_C20_NoArgs: a request that nothing was put in has no arguments.
func ZZ_C20_NoArgs() {
	var r = &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: http.Header{}}
	zzAssert(ArgsFrom(r) == nil, "a request has arguments")
}

// ZZ_C20_Concurrent: requests that are served at the same time by a router with
// converted middlewares change nothing that the others can see.
func ZZ_C20_Concurrent() {
	var t = &zzTree{}
	var a = zzSt("a", "a", zzWc("b"))
	t.root = zzRoot(a)
	a.silent = true
	t.make()
	var std = func(next http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if r.Method == "STOP" {
				w.WriteHeader(299)
				return
			}

			next.ServeHTTP(w, r)
		})
	}

	a.kids[0].real().SetHandlerFor("GET STOP", func(w http.ResponseWriter, r *http.Request, _ *Args) bool {
		if r.Host == "declined" {
			return false
		}

		w.WriteHeader(200)
		return true
	})

	switch zzPick("wrapped", 4) {
	case 0:
		t.ro.WrapRequestPasser(Mw(std), Mw(std))
	case 1:
		a.real().WrapRequestPasser(Mw(std))
	case 2:
		a.kids[0].real().WrapRequestHandler(Mw(std))
	case 3:
		a.kids[0].real().WrapHandlerOf("*", Mw(std))
	}

	var stop, decline = zzBool("stop"), zzBool("decline")
	zzConcurrent(func() {
		var q = &zzReq{host: "x", path: "/a/x"}
		var want = 200
		if decline {
			q.host, want = "declined", 404
		}

		if stop {
			q.method, want = "STOP", 299
		}

		var w = &zzWriter{}
		t.ro.ServeHTTP(w, q.request())
		zzAssert(len(w.codes) == 1 && w.codes[0] == want, "the answer is wrong")
	})
}

// ZZ_C20_Nested: a router serves as a handler of another router, behind converted
// middlewares. The inner router's middlewares and handlers get the arguments of
// the inner router, the outer's get the outer's, also after the inner router
// answered. The values have up to 3 bytes of a b.
func ZZ_C20_Nested() {
	defer zzInstall()()
	var order []string
	var values = func(what string, r *http.Request, args *Args, name, value string) {
		order = append(order, what)
		zzAssert(args != nil, what+": there are no arguments")
		zzAssert(len(args.HostPathValues()) == 1, what+": the values are not of this router")
		zzAssert(args.HostPathValues().Get(name) == value, what+": the value is not of this router")
	}

	var host = zzStrIn("host", "ab", 1, 2)
	var path = zzStrIn("path", "ab", 1, 3)
	var std = func(what, name, value string) Middleware {
		return Mw(func(next http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				values(what, r, ArgsFrom(r), name, value)
				next.ServeHTTP(w, r)
				values("/"+what, r, ArgsFrom(r), name, value)
			})
		})
	}

	var h Handler
	switch zzPick("handler", 3) {
	case 0:
		h = HrWithArgs(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			values("handler", r, ArgsFrom(r), "v", path)
		}))
	case 1:
		h = FnHrWithArgs(func(w http.ResponseWriter, r *http.Request) {
			values("handler", r, ArgsFrom(r), "v", path)
		})
	case 2:
		h = func(w http.ResponseWriter, r *http.Request, args *Args) bool {
			values("handler", r, args, "v", path)
			return true
		}
	}

	// Middlewares of the inner router.
	var in = NewRouter()
	in.SetURLHandlerFor("GET", "/{v}", h)
	var inner = zzPick("inner", 3)
	switch inner {
	case 1:
		in.WrapRequestHandlerAt("/{v}", std("in", "v", path))
	case 2:
		in.WrapURLHandlerOf("GET", "/{v}", std("in", "v", path))
	}

	// The inner router as a handler of the outer one.
	var out = NewRouter()
	switch zzPick("as", 3) {
	case 0:
		h = Hr(in)
	case 1:
		h = HrWithArgs(in)
	case 2:
		h = FnHrWithArgs(in.ServeHTTP)
	}

	out.SetURLHandlerFor("GET", "http://{o:[ab]+}", h)
	out.SetConfigurationAt("http://{o:[ab]+}", Config{SubtreeHandler: true})
	var outer = zzPick("outer", 3)
	switch outer {
	case 1:
		out.WrapRequestHandlerAt("http://{o:[ab]+}", std("out", "o", host))
	case 2:
		out.WrapURLHandlerOf("GET", "http://{o:[ab]+}", std("out", "o", host))
	}

	var want []string
	if outer > 0 {
		want = append(want, "out")
	}

	if inner > 0 {
		want = append(want, "in", "handler", "/in")
	} else {
		want = append(want, "handler")
	}

	if outer > 0 {
		want = append(want, "/out")
	}

	var q = &zzReq{host: host, path: "/" + path}
	out.ServeHTTP(&zzWriter{}, q.request())
	zzAssert(zzSameStrs(order, want), "the wrong handlers ran")
}
