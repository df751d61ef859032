//zz:use route
//zz:use lib

package nanomux

import "net/http"

type zzKeyA int
type zzKeyB int
type zzKeyS string

// zzC21Tree is a router with hosts and resources of each kind. Its middlewares
// and handlers put arguments in the request and look for those of others.
func zzC21Tree() *zzTree {
	return zzOnce("c21", func() interface{} {
		var t = &zzTree{}
		t.hosts = []*zzNode{
			zzHost(zzSt("h", "h", zzSt("ha", "a", zzWc("haw")), zzPt("hb", "b+"))),
			zzHost(zzNew("g", []zzSeg{{zzStatic, "g", ""}, {zzWild, "vg", ""}}, zzWc("gw"))),
		}

		t.root = zzRoot(
			zzSt("a", "a", zzPt("ab", "b+", zzSt("aba", "a")), zzWc("aw")),
			zzPt("p", "b+", zzWc("pw")),
			zzWc("w", zzSt("wa", "a")),
		)

		t.make()
		t.hosts[0].configure(Config{SubtreeHandler: true})
		var a = t.root.kids[0]
		a.configure(Config{SubtreeHandler: true, HasTrailingSlash: true})
		t.root.kids[1].configure(Config{Secure: true})
		t.root.kids[2].redirect("/a", 302)
		t.hosts[0].kids[1].redirectAny("/x", 301)
		t.hosts[1].kids[0].configure(Config{HandlesThePathAsIs: true})

		var fresh Middleware = func(next Handler) Handler {
			return func(w http.ResponseWriter, r *http.Request, args *Args) bool {
				zzAssert(args.Get(zzKeyA(0)) == nil, "another request's argument was found")
				zzAssert(args.Get(zzKeyS("s")) == nil, "another request's argument was found")
				zzAssert(args.Get(zzKeyB(0)) == nil, "a key that was never set was found")
				zzAssert(len(args.HostPathValues()) == 0, "another request's values were found")
				zzAssert(args.Host() == nil, "another request's host was found")
				zzAssert(args.CurrentResource() == nil, "another request's resource was found")
				zzAssert(args.ResponderSharedData() == nil, "another request's data was found")
				zzAssert(args.ResponderImpl() == nil, "another request's implementation was found")
				args.Set(zzKeyA(0), r)
				args.Set(zzKeyS("s"), 1)
				args.Set(zzKeyS("s"), 2)
				var handled = next(w, r, args)
				zzAssert(args.Get(zzKeyA(0)) == r, "the request's argument is another's")
				return handled
			}
		}

		t.ro.WrapRequestPasser(fresh)
		var all = append([]*zzNode{t.root}, t.hosts...)
		for _, n := range all {
			n.each(func(n *zzNode) {
				n.real().SetSharedData(n.id)
				n.real().WrapRequestHandler(func(next Handler) Handler {
					return func(w http.ResponseWriter, r *http.Request, args *Args) bool {
						if r.Header["X-Direct"] == nil {
							zzAssert(args.Get(zzKeyA(0)) == r, "the request's argument was not found")
							zzAssert(args.Get(zzKeyS("s")) == 2, "the last value was not found")
						} else {
							zzAssert(args.Get(zzKeyA(0)) == nil, "another request's argument was found")
							zzAssert(args.Get(zzKeyS("s")) == nil, "another request's argument was found")
						}

						zzAssert(args.ResponderSharedData() == n.id, "the data is another's")
						args.Set(zzKeyB(1), n.id)
						return next(w, r, args)
					}
				})
			})
		}

		return t
	}).(*zzTree)
}

// zzC21Before serves a request for any path of up to n bytes of the alphabet.
func zzC21Before(t *zzTree, name string, n int) {
	var q = &zzReq{path: "/" + zzStrIn(name, "ab/%.", 0, n), raw: zzBool("raw")}
	var way = zzPick("way", 7)
	q.host = []string{"h", "gx", "x", "", "gx", "x", "x"}[way]
	q.tls = zzBool("tls")
	var r = q.request()
	zzHits = nil
	switch {
	case way < 4:
		t.ro.ServeHTTP(&zzWriter{}, r)
	case way < 6:
		r.Header["X-Direct"] = []string{"1"}
		t.hosts[1].hst.ServeHTTP(&zzWriter{}, r)
	default:
		r.Header["X-Direct"] = []string{"1"}
		t.root.kids[0].res.ServeHTTP(&zzWriter{}, r)
	}
}

// ZZ_C21_Fresh: after a request with any path of up to 4 bytes of a b / % . (5 when
// thorough), escaped or not, with one of four hosts, sent to a router, a host or a
// resource, another of certain requests (any path of up to 3 bytes when thorough)
// finds only its own arguments, values, responder and data, and has the outcome it
// would have alone.
func ZZ_C21_Fresh() {
	defer zzInstall()()
	var t = zzC21Tree()
	zzC21Before(t, "path", 4+zzTier())
	zzC21After(t)
}

// ZZ_C21_FreshAgain: the same after two requests with paths of up to a byte (2 when thorough).
func ZZ_C21_FreshAgain() {
	defer zzInstall()()
	var t = zzC21Tree()
	zzC21Before(t, "first path", 1+zzTier())
	zzC21Before(t, "second path", 1+zzTier())
	zzC21After(t)
}

func zzC21After(t *zzTree) {
	var q = &zzReq{host: "x"}
	if zzTier() > 0 {
		q.path = "/" + zzStrIn("last path", "ab/", 0, 3)
		q.host = []string{"h", "gx", "x"}[zzPick("last host", 3)]
	} else {
		switch zzPick("last", 6) {
		case 0:
			q.path = "/a/bb"
		case 1:
			q.path = "/a/bb/x"
		case 2:
			q.path = "/b/a"
		case 3:
			q.path, q.host = "/a/b", "gg"
		case 4:
			q.path, q.host = "/c", "h"
		case 5:
			q.path = "/c/a"
		}
	}

	q.split()
	var got = zzServe(t.ro, q)
	var want = t.route(q)
	zzCheck(got, q, want)
	if want.kind == "handler" {
		zzAssert(got.data == want.id, "the data is another's")
	}
}

// ZZ_C21_Panic: the same after a request whose handler panicked, whether the panic
// was recovered by a middleware or by the server.
func ZZ_C21_Panic() {
	defer zzInstall()()
	var t = zzC21Tree()
	var boom bool
	t.root.kids[0].kids[0].real().SetHandlerFor("GET", func(w http.ResponseWriter, r *http.Request, args *Args) bool {
		if boom {
			panic("boom")
		}

		return zzHandler("ab")(w, r, args)
	})

	var recoverer Middleware = func(next Handler) Handler {
		return func(w http.ResponseWriter, r *http.Request, args *Args) (handled bool) {
			defer func() {
				if e := recover(); e != nil {
					handled = true
				}
			}()

			return next(w, r, args)
		}
	}

	if zzBool("recovered") {
		t.ro.WrapRequestPasser(recoverer)
	}

	boom = true
	zzPanics(func() {
		t.ro.ServeHTTP(&zzWriter{}, (&zzReq{host: "x", path: "/a/b"}).request())
	})

	boom = false
	zzC21After(t)
}

// ZZ_C21_Map: after any 4 (5 when thorough) settings of values, some nil, for any of 3 keys of
// two types each, the arguments have the last one for each.
func ZZ_C21_Map() {
	var args = &Args{}
	var n = 4 + zzTier()
	var isA [5]bool
	var keys [5]int
	var vals [5]int
	var key = func(a bool, k int) interface{} {
		if a {
			return zzKeyA(k)
		}

		return zzKeyB(k)
	}

	for i := 0; i < n; i++ {
		isA[i], keys[i], vals[i] = zzBool("type"), zzInt("key", 0, 2), zzInt("value", 0, 1)
		if vals[i] == 0 {
			args.Set(key(isA[i], keys[i]), nil)
		} else {
			args.Set(key(isA[i], keys[i]), i)
		}
	}

	var a, k = zzBool("asked type"), zzInt("asked key", 0, 3)
	var want interface{}
	for i := 0; i < n; i++ {
		if isA[i] == a && keys[i] == k {
			want = nil
			if vals[i] != 0 {
				want = i
			}
		}
	}

	zzAssert(args.Get(key(a, k)) == want, "the value is not the last one set")
}

// ZZ_C21_Strings: after any 3 settings (4 when thorough) of values for strings of 3 bytes (up to 4
// when thorough) over a b, that are plain or of another type, the arguments have the last one for each.
func ZZ_C21_Strings() {
	var args = &Args{}
	var n = 3 + zzTier()
	var key = func(what string) interface{} {
		var s = zzStrIn(what, "ab", 3-2*zzTier(), 3+zzTier())
		if zzPick(what+" type", 2) == 1 {
			return zzKeyS(s)
		}

		return s
	}

	var keys []interface{}
	for i := 0; i < n; i++ {
		keys = append(keys, key("key"))
		args.Set(keys[i], i)
	}

	var asked = key("asked")
	var want interface{}
	for i := range keys {
		if keys[i] == asked {
			want = i
		}
	}

	zzAssert(args.Get(asked) == want, "the value is not the last one set")
}

// ZZ_C21_Values: after any 4 settings (5 when thorough) of values for names of up to a byte, the values
// have the last one for each, and none for the others.
func ZZ_C21_Values() {
	var vs HostPathValues
	var n = 4 + zzTier()
	var names, vals []string
	for i := 0; i < n; i++ {
		names = append(names, zzStrIn("name", "ab", 0, 1))
		vals = append(vals, zzStr("value", 0, 1))
		vs.Set(names[i], vals[i])
	}

	var name = zzStrIn("asked", "abc", 0, 1)
	var want string
	for i := range names {
		if names[i] == name {
			want = vals[i]
		}
	}

	zzAssert(vs.Get(name) == want, "the value is not the last one set")
}

// ZZ_C21_Many: up to 24 arguments (40 when thorough) of one type are set one after
// another and one of them again; each has its last value, and another has none.
func ZZ_C21_Many() {
	var args = &Args{}
	var n = 1 + zzPick("count", 24+16*zzTier())
	for i := 0; i < n; i++ {
		args.Set(zzKeyA(i), i)
	}

	var again, asked = zzInt("again", 0, n), zzInt("asked", 0, n+1)
	args.Set(zzKeyA(again), -1)
	var want interface{}
	if asked == again {
		want = -1
	} else if asked < n {
		want = asked
	}

	zzAssert(args.Get(zzKeyA(asked)) == want, "the value is not the last one set")
	zzAssert(args.Get(zzKeyB(asked)) == nil, "a key of another type was found")
}

// ZZ_C21_ManyValues: the same of up to 12 host and path values (20 when thorough).
func ZZ_C21_ManyValues() {
	var vs HostPathValues
	var n = 1 + zzPick("count", 12+8*zzTier())
	var names = "abcdefghijklmnopqrstuvwxyz"
	for i := 0; i < n; i++ {
		vs.Set(names[i:i+1], names[i:i+1])
	}

	var again, asked = zzStrIn("again", names[:n+1], 1, 1), zzStrIn("asked", names[:n+2], 1, 1)
	vs.Set(again, "again")
	var want string
	if asked == again {
		want = "again"
	} else if asked < names[n:n+1] {
		want = asked
	}

	zzAssert(vs.Get(asked) == want, "the value is not the last one set")
}
