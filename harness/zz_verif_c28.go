//zz:use methods
//zz:use lib

package nanomux

import (
	"io"
	"net/http"
)

// Types with methods of all kinds. Each handler reports the type, the method
// and the number in its receiver.

func zzRan(id string, n int, args *Args) bool {
	return zzHandler(id+string(rune('0'+n)))(nil, nil, args)
}

// zzImplPlain has methods with a value receiver.
type zzImplPlain struct{ n int }

func (t zzImplPlain) HandleGet(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("plain get ", t.n, a)
}

func (t zzImplPlain) HandlePost(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("plain post ", t.n, a)
}

func (t zzImplPlain) Name() string { return "plain" }

// zzImplMixed has both kinds of receivers and all kinds of names.
type zzImplMixed struct{ n int }

func (t *zzImplMixed) HandleGET(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("mixed get ", t.n, a)
}

func (t zzImplMixed) HandlecopyIt(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("mixed copyit ", t.n, a)
}

func (t *zzImplMixed) HandlerPut(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("mixed rput ", t.n, a)
}

func (t zzImplMixed) Handle_1(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("mixed _1 ", t.n, a)
}

func (t zzImplMixed) HandleOptions(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("mixed options ", t.n, a)
}

func (t *zzImplMixed) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("mixed na ", t.n, a)
}

func (t zzImplMixed) Handle(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("mixed bare ", t.n, a)
}

func (t zzImplMixed) GetHandle(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("mixed suffix ", t.n, a)
}

func (t zzImplMixed) ReHandleGet(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("mixed middle ", t.n, a)
}

func (t zzImplMixed) handleTrace(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("mixed private ", t.n, a)
}

func (t zzImplMixed) HandleHandleX(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("mixed handlex ", t.n, a)
}

type zzBool2 bool

// zzImplOdd has one handler and methods that have its name but not its type.
type zzImplOdd struct{ n int }

func (t *zzImplOdd) HandleGet()                                                  {}
func (t *zzImplOdd) HandlePut(http.ResponseWriter, *http.Request)                {}
func (t *zzImplOdd) HandlePost(http.ResponseWriter, *http.Request, *Args)        {}
func (t *zzImplOdd) HandleHead(http.ResponseWriter, *http.Request, Args) bool    { return true }
func (t *zzImplOdd) HandleLock(io.Writer, *http.Request, *Args) bool             { return true }
func (t *zzImplOdd) HandleMove(http.ResponseWriter, *http.Request, *Args) int    { return 1 }
func (t *zzImplOdd) HandleTrace(http.ResponseWriter, *http.Request, *Args) error { return nil }
func (t *zzImplOdd) HandleX(http.ResponseWriter, *http.Request, *Args) zzBool2   { return true }
func (t *zzImplOdd) HandleY(http.ResponseWriter, *http.Request, ...*Args) bool   { return true }
func (t *zzImplOdd) HandleZ(http.ResponseWriter, *http.Request, *Args) (bool, error) {
	return true, nil
}

func (t *zzImplOdd) HandleNotAllowedMethod(http.ResponseWriter, *http.Request, *Args) {}
func (t *zzImplOdd) HandleOptions(http.ResponseWriter, *http.Request) bool            { return true }
func (t *zzImplOdd) HandleDelete(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("odd delete ", t.n, a)
}

// zzImplOuter has promoted methods, one of them shadowed.
type zzImplOuter struct {
	zzImplPlain
	*zzImplOdd
	m int
}

func (t zzImplOuter) HandlePost(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("outer post ", t.m, a)
}

// zzImplFunc and zzImplNum aren't structs.
type zzImplFunc func() int

func (t zzImplFunc) HandleGet(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("func get ", t(), a)
}

type zzImplNum int

func (t zzImplNum) HandleGet(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("num get ", int(t), a)
}

func (t zzImplNum) HandleNotallowedMethod(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("num na ", int(t), a)
}

// zzImplRefuses has only the handler of methods that are not allowed.
type zzImplRefuses struct{ n int }

func (t *zzImplRefuses) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("refuses na ", t.n, a)
}

// zzImplNone has no handlers.
type zzImplNone struct{ n int }

func (t *zzImplNone) Get(w http.ResponseWriter, r *http.Request, a *Args) bool    { return true }
func (t *zzImplNone) Handle(w http.ResponseWriter, r *http.Request, a *Args) bool { return true }

// zzImplFace is an interface, not all of whose methods the type has.
type zzImplFace interface {
	HandleGet(w http.ResponseWriter, r *http.Request, a *Args) bool
}

// zzImplNames has methods with names near those that mean something.
type zzImplNames struct{ n int }

func (t *zzImplNames) HandleNotAllowed(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("names na1 ", t.n, a)
}

func (t *zzImplNames) HandleNotAllowedMethods(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("names na2 ", t.n, a)
}

func (t *zzImplNames) HandleNotAllowedHTTPMethod(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("names na3 ", t.n, a)
}

func (t *zzImplNames) HandleAllowedMethod(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("names allowed ", t.n, a)
}

func (t *zzImplNames) HandleMethod(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("names method ", t.n, a)
}

func (t *zzImplNames) HandleGetHead(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("names gethead ", t.n, a)
}

func (t *zzImplNames) HandleHandle(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("names handle ", t.n, a)
}

func (t *zzImplNames) HandleGET_(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("names get_ ", t.n, a)
}

func (t *zzImplNames) HandlerGet(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("names rget ", t.n, a)
}

func (t *zzImplNames) HandlesPut(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("names sput ", t.n, a)
}

func (t *zzImplNames) HandleÄ(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("names ae ", t.n, a)
}

func (t *zzImplNames) HandlNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("names handl ", t.n, a)
}

func (t *zzImplNames) HANDLEDelete(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("names caps ", t.n, a)
}

func (t *zzImplNames) HandleAny(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("names any ", t.n, a)
}

// zzImplNil is used as a nil pointer.
type zzImplNil struct{ n int }

func (t *zzImplNil) num() int {
	if t == nil {
		return 0
	}

	return t.n
}

func (t *zzImplNil) HandleGet(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("nil get ", t.num(), a)
}

func (t *zzImplNil) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *Args) bool {
	return zzRan("nil na ", t.num(), a)
}

const zzImpls = 16

// zzImplOf returns an implementation with the number and what it must have.
func zzImplOf(i, n int) (Impl, *zzHandlers) {
	var num = string(rune('0' + n))
	var hs = &zzHandlers{}
	var im Impl
	var set = func(m, id string) { hs.set(m, id+num) }
	switch i {
	case 0:
		im = zzImplPlain{n}
		set("GET", "plain get ")
		set("POST", "plain post ")
	case 1:
		im = &zzImplPlain{n}
		set("GET", "plain get ")
		set("POST", "plain post ")
	case 2, 3:
		set("COPYIT", "mixed copyit ")
		set("_1", "mixed _1 ")
		set("HANDLEX", "mixed handlex ")
		set("OPTIONS", "mixed options ")
		im = zzImplMixed{n}
		if i == 3 {
			im = &zzImplMixed{n}
			set("GET", "mixed get ")
			set("RPUT", "mixed rput ")
			hs.na = "mixed na " + num
		}
	case 4:
		im = &zzImplOdd{n}
		set("DELETE", "odd delete ")
	case 5:
		im = zzImplOdd{n}
	case 6, 7:
		// HandleGet is ambiguous.
		im = zzImplOuter{zzImplPlain{n}, &zzImplOdd{n}, n}
		if i == 7 {
			im = &zzImplOuter{zzImplPlain{n}, &zzImplOdd{n}, n}
		}

		set("POST", "outer post ")
		set("DELETE", "odd delete ")
	case 8:
		im = zzImplFunc(func() int { return n })
		set("GET", "func get ")
	case 9:
		im = zzImplNum(n)
		set("GET", "num get ")
		hs.na = "num na " + num
	case 10:
		im = &zzImplRefuses{n}
		hs.na = "refuses na " + num
	case 11:
		im = &zzImplNone{n}
	case 12:
		im = "no methods"
	case 13:
		im = struct{ zzImplFace }{zzImplPlain{n}}
		set("GET", "plain get ")
	case 14:
		im = (*zzImplNil)(nil)
		hs.set("GET", "nil get 0")
		hs.na = "nil na 0"
	case 15:
		im = &zzImplNames{n}
		set("NOTALLOWED", "names na1 ")
		set("NOTALLOWEDMETHODS", "names na2 ")
		set("NOTALLOWEDHTTPMETHOD", "names na3 ")
		set("ALLOWEDMETHOD", "names allowed ")
		set("METHOD", "names method ")
		set("GETHEAD", "names gethead ")
		set("HANDLE", "names handle ")
		set("GET_", "names get_ ")
		set("RGET", "names rget ")
		set("SPUT", "names sput ")
		set("Ä", "names ae ")
		set("ANY", "names any ")
	}

	if len(hs.names) > 0 && hs.index("OPTIONS") < 0 {
		hs.set("OPTIONS", "options")
	}

	return im, hs
}

var zzImplMethods = []string{
	"GET", "POST", "PUT", "HEAD", "OPTIONS", "COPYIT", "RPUT", "_1", "DELETE", "LOCK",
	"MOVE", "TRACE", "X", "Y", "Z", "HANDLEX", "get", "Get", "",
	"NOTALLOWEDMETHOD", "NotAllowedMethod", "HANDLEGET", "PATCH",
	"NOTALLOWED", "NOTALLOWEDMETHODS", "ALLOWEDMETHOD", "GETHEAD", "HANDLE", "GET_", "RGET", "ANY",
}

// same asserts that the responder has the handlers of the model and that a
// request with one of the methods, or any of up to two bytes, gets its answer.
func (hs *zzHandlers) same(p *zzPolicy) {
	hs.sameSet(p.n.settings().AllowedHTTPMethods(), "AllowedHTTPMethods")
	switch i := zzPick("method", len(zzImplMethods)+2); {
	case i == 0:
		hs.check(p, zzStr("any method", 1, 2))
	case i == 1:
		if h := p.n.settings().HandlerOf("!"); len(hs.names) > 0 || hs.na != "" {
			hs.lookup(h, "!")
		}
	default:
		var m = zzImplMethods[i-2]
		// The standard library takes no method for GET.
		if m != "" {
			hs.check(p, m)
			hs.lookup(p.n.settings().HandlerOf(m), m)
		}
	}
}

// ZZ_C28_Set: one of 16 implementations (values and pointers of types whose
// methods have value and pointer receivers, other signatures, other names, are
// promoted, ambiguous or unexported, and ones that aren't structs) is set on a
// root resource, a resource or a host in one of the three ways, where none, a
// handler or another implementation was before and another handler may be set
// after; then a request is made with any of 30 methods or any of up to two bytes.
func ZZ_C28_Set() {
	defer zzInstall()()
	var p = zzPolicyOf([]int{0, 1, 3}[zzPick("subject", 3)], false, false)
	switch b := zzPick("before", zzImpls+2); b {
	case 0:
	case 1:
		p.n.settings().SetHandlerFor("!", zzHandler("na"))
		p.n.settings().SetHandlerFor("PUT", zzHandler("put"))
	default:
		if zzTier() == 0 {
			zzAssume(b == 5 || b == 12)
		}

		var im, _ = zzImplOf(b-2, 1)
		p.n.settings().SetImplementation(im)
	}

	var im, hs = zzImplOf(zzPick("impl", zzImpls), 2)
	var v = zzPick("via", zzVias)
	p.n.setImpl(p.t.ro, v, im)
	if im, ok := im.(*zzImplMixed); ok {
		zzAssert(p.n.impl(p.t.ro, v) == Impl(im), "the implementation isn't kept")
	}

	switch zzPick("after", 3) {
	case 1:
		hs.apply(p, 0, "post, purge", "after")
	case 2:
		hs.apply(p, 0, "!", "after")
	}

	hs.same(p)
}

// ZZ_C28_Create: a resource or a host is made from one of the 16
// implementations, with or without a configuration, and is registered.
func ZZ_C28_Create() {
	defer zzInstall()()
	var p = &zzPolicy{t: &zzTree{ro: NewRouter()}, host: "h"}
	var im, hs = zzImplOf(zzPick("impl", zzImpls), 3)
	var using = zzPick("using config", 2) == 1
	switch zzPick("what", 4) {
	case 0:
		p.n = zzRoot()
		if using {
			p.n.res = NewResourceUsingConfig("/", im, Config{})
		} else {
			p.n.res = NewResource("/", im)
		}

		p.t.ro.RegisterResource(p.n.res)
	case 1:
		p.n = zzSt("subject", "a")
		if using {
			p.n.res = NewResourceUsingConfig("/a", im, Config{})
		} else {
			p.n.res = NewResource("/a", im)
		}

		p.t.ro.RegisterResource(p.n.res)
	case 2:
		p.n = zzHost(zzSt("subject", "h"))
		if using {
			p.n.hst = NewHostUsingConfig("h", im, Config{})
		} else {
			p.n.hst = NewHost("h", im)
		}

		p.t.ro.RegisterHost(p.n.hst)
	case 3:
		// Merged with an existing one.
		p.n = zzSt("subject", "a")
		p.t.ro.Resource("/a/b")
		if using {
			p.n.res = NewResourceUsingConfig("/a", im, Config{})
		} else {
			p.n.res = NewResource("/a", im)
		}

		p.t.ro.RegisterResource(p.n.res)
	}

	hs.same(p)
}

// ZZ_C28_Two: the handlers of two responders with implementations of the same
// type use their own value.
func ZZ_C28_Two() {
	defer zzInstall()()
	var i = zzPick("impl", zzImpls)
	var a, as = zzImplOf(i, 4)
	var b, bs = zzImplOf(i, 5)
	var p = zzPolicyOf(1, false, false)
	p.n.settings().SetImplementation(a)
	var q = &zzPolicy{t: p.t, n: p.t.root, host: p.host}
	q.n.settings().SetImplementation(b)
	if zzPick("which", 2) == 0 {
		as.same(p)
	} else {
		bs.same(q)
	}

	zzAssert(zzPanics(func() { p.n.settings().SetImplementation(nil) }), "no implementation was accepted")
}
