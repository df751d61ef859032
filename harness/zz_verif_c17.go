//zz:use methods

package nanomux

import "strings"

var zzManyMethods = []string{
	"GET", "M", "PUT", "A", "Z", "HEAD", "POST", "PATCH", "TRACE", "DELETE", "CONNECT",
	"B", "COPY", "LOCK", "MOVE", "MKCOL", "PURGE", "AB", "BA", "LINK", "UNLINK", "PROPFIND",
}

// zzNamedMethods are methods that mean something somewhere.
var zzNamedMethods = []string{
	"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PRI", "QUERY",
	"get", "head", "Head", "options", "GET ", "HEAD, GET", "!", "*",
}

// zzC17Many is a policy whose subject has got handlers of n methods one by one.
func zzC17Many(i, n, order int) (*zzPolicy, *zzHandlers) {
	type both struct {
		p  *zzPolicy
		hs *zzHandlers
	}

	var key = "c17" + string([]rune{rune('0' + i), rune('0' + n), rune('0' + order)})
	var b = zzOnce(key, func() interface{} {
		var p = &zzPolicy{t: &zzTree{}, host: "x"}
		var hs = &zzHandlers{}
		switch i {
		case 0:
			p.n = zzRoot()
			p.t.root = p.n
		case 1:
			p.n = zzSt("subject", "a")
			p.t.root = zzRoot(p.n)
		case 2:
			p.host = "h"
			p.n = zzHost(zzSt("subject", "h"))
			p.t.hosts = []*zzNode{p.n}
		}

		p.n.silent = true
		p.t.make()
		for k := 0; k < n; k++ {
			var j = k
			if order == 1 {
				j = n - 1 - k
			}

			var m = zzManyMethods[j]
			p.n.real().SetHandlerFor(m, zzHandler("old "+m))
			hs.set(m, "old "+m)
			if k == 0 {
				hs.set("OPTIONS", "options")
			}
		}

		zzWarm(p.t.ro, "x", "h")

		return &both{p, hs}
	}).(*both)

	// The model is copied because it's changed.
	return b.p, &zzHandlers{
		append([]string(nil), b.hs.names...), append([]string(nil), b.hs.ids...), "",
	}
}

// ZZ_C17_Sequences: a root resource, a resource or a host with none to 22
// handlers that were set one by one in two orders gets another one or two for
// lists of methods of up to 2 and 1 bytes (3 and 2 when thorough) over A b ! , and a space, by each of three
// ways; then any method of a byte (2 when thorough) of A B a ! is requested, looked up, and
// is in the lists if and only if it has a handler.
func ZZ_C17_Sequences() {
	defer zzInstall()()
	var n = []int{0, 1, 12, 13, 14, 22}[zzPick("methods", 6)]
	var p, hs = zzC17Many(zzPick("subject", 3), n, zzPick("order", 2))
	var v = zzPick("via", zzVias)
	for i, id := range []string{"first", "second"} {
		if i > 0 && !zzBool("another") {
			break
		}

		var list = zzStrIn(id+" list", "Ab!, ", 0, 2+zzTier()-i)
		var ms = zzMethods(list)
		for _, m := range ms {
			// The exclamation mark must be used alone.
			zzAssume(strings.IndexByte(m, '!') < 0 || len(ms) == 1)
		}

		hs.apply(p, v, list, id)
	}

	hs.sameSet(p.n.settings().AllowedHTTPMethods(), "AllowedHTTPMethods")
	var m = zzStrIn("method", "ABa!", 1, 1+zzTier())
	zzAssume(m != "!")
	hs.check(p, m)
	hs.lookup(p.n.handlerOf(p.t.ro, v, m), m)
}

// ZZ_C17_AnyMethod: a subject with 1, 13, 14, 15 or 22 handlers gets one more for
// any method of 1 or 2 upper-case letters and is asked for each of the methods
// and for any of up to 3 bytes.
func ZZ_C17_AnyMethod() {
	defer zzInstall()()
	var n = []int{1, 12, 13, 14, 21}[zzPick("methods", 5)]
	var p, hs = zzC17Many(1, n, zzPick("order", 2))
	var m = zzStrIn("new", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", 1, 2)
	hs.apply(p, 0, m, "new")
	hs.sameSet(p.n.settings().AllowedHTTPMethods(), "AllowedHTTPMethods")
	switch zzPick("asked", 4) {
	case 0:
		hs.check(p, m)
	case 1:
		hs.check(p, zzManyMethods[zzPick("old", n)])
	case 2:
		hs.check(p, zzStr("method", 1, 2+zzTier()))
	case 3:
		hs.check(p, zzNamedMethods[zzPick("named", len(zzNamedMethods))])
	}
}

// ZZ_C17_Options: OPTIONS and the not-allowed handler may be set before, between
// or after another list (two others when thorough), with or without requests between; lists of names with mixed case and separators.
func ZZ_C17_Options() {
	defer zzInstall()()
	var p, hs = zzC17Many(zzPick("subject", 3), 0, 0)
	var v = zzPick("via", zzVias)
	var lists = []string{"get, post", "OPTIONS", "!", " Put,get ,", "options put", "a,,b  c", ",", ""}
	var served = zzBool("served")
	for i, id := range []string{"1", "2", "3"}[:2+zzTier()] {
		if i > 0 && served {
			// Requests between the settings.
			hs.check(p, "OPTIONS")
			hs.check(p, "X")
		}

		hs.apply(p, v, lists[zzPick("list", len(lists))], id)
	}

	hs.sameSet(p.n.settings().AllowedHTTPMethods(), "AllowedHTTPMethods")
	var m = []string{"GET", "POST", "OPTIONS", "PUT", "get", "B", "X", "HEAD", "CONNECT"}[zzPick("method", 9)]
	hs.check(p, m)
	var l = []string{"get", "Options", "!", "put get", ", b", "x"}[zzPick("lookup", 6)]
	hs.lookup(p.n.handlerOf(p.t.ro, v, l), l)
}

// ZZ_C17_Invalid: a nil handler is rejected and changes nothing.
func ZZ_C17_Invalid() {
	defer zzInstall()()
	var p, hs = zzC17Many(zzPick("subject", 3), zzPick("methods", 2), 0)
	var v = zzPick("via", zzVias)
	var l = []string{"GET", "!", "NEW"}[zzPick("list", 3)]
	zzAssert(zzPanics(func() { p.n.setHandler(p.t.ro, v, l, nil) }), "a nil handler was accepted")
	zzAssert(zzPanics(func() { p.n.handlerOf(p.t.ro, v, " , ") }), "no method was looked up")
	hs.check(p, []string{"GET", "NEW", "!"}[zzPick("method", 3)])
}
