//zz:use policy
//zz:use via

package nanomux

import "net/http"

// zzMark is a redirect handler that notes its name.
func zzMark(id string) RedirectHandler {
	return func(_ http.ResponseWriter, _ *http.Request, url string, code int, _ *Args) bool {
		zzHits = append(zzHits, zzHit{kind: "redirect", id: id, url: url, code: code})
		return true
	}
}

// zzOuter is a wrapper that notes its name and passes a changed status on.
func zzOuter(id string) func(RedirectHandler) RedirectHandler {
	return func(next RedirectHandler) RedirectHandler {
		return func(w http.ResponseWriter, r *http.Request, url string, code int, args *Args) bool {
			zzTrail += id
			return next(w, r, url, code, args)
		}
	}
}

var zzTrail string

// ZZ_C18_Status: any common and own status (each set or not), given to a root
// resource, a resource, a host or a host's resource by each of the three ways;
// 301 and 308 are accepted and nothing else. An insecure, an unclean and a
// trailing slash redirect use the own one, else the common one, and responders
// around it the common one.
func ZZ_C18_Status() {
	defer zzInstall()()
	var old = PermanentRedirectCode()
	defer SetPermanentRedirectCode(old)
	zzAssert(old == 308, "the default status is not 308")
	var p = zzPolicyOf(zzPick("subject", zzPolicies), false, false)
	var v = zzPick("via", zzVias)
	var want = 308
	var common = 308
	if zzBool("common") {
		var c = zzInt("commonCode", -10, 1000)
		var ok = !zzPanics(func() { SetPermanentRedirectCode(c) })
		zzAssert(ok == (c == 301 || c == 308), "a common status was accepted or rejected wrongly")
		if ok {
			common = c
		}

		want = common
		zzAssert(PermanentRedirectCode() == want, "the common status isn't the one that was set")
	}

	for _, name := range []string{"own", "own2"} {
		if !zzBool(name) {
			continue
		}

		var c = zzInt(name+"Code", -10, 1000)
		var ok = !zzPanics(func() { p.n.setCode(p.t.ro, v, c) })
		zzAssert(ok == (c == 301 || c == 308), "a responder's status was accepted or rejected wrongly")
		if ok {
			want = c
		}
	}

	zzAssert(p.n.codeOf(p.t.ro, v) == want, "the responder's status is not the nearest one")
	zzAssert(p.n.codeOf(p.t.ro, 0) == want, "the responder's status is not the nearest one")
	var q = &zzReq{host: p.host, path: "//a/."}
	if p.n.root || p.n.host {
		q.path = "//"
	}

	if zzPick("why", 2) == 1 && !p.n.root && !p.n.host {
		p.n.configure(Config{LenientOnUncleanPath: true})
		q.path = "/a/"
	}

	q.split()
	var got = zzServe(p.t.ro, q)
	zzAssert(got.kind == "redirect", "the request was not redirected")
	zzAssert(got.code == want, "the redirect's status isn't the nearest one")

	// Another responder has the common one.
	var below = &zzReq{host: p.host, path: "/b/"}
	if !p.n.root && !p.n.host {
		below.path = "/a/b/"
	}

	got = zzServe(p.t.ro, below)
	zzAssert(got.kind == "redirect", "the request below was not redirected")
	zzAssert(got.code == common, "the status of another responder has changed")
}

// ZZ_C18_Handler: the common redirect handler is replaced or not and wrapped by
// up to two wrappers in one or two calls, and so is the responder's own, which
// may have its own status too, set before or after; an
// automatic redirect and one to a target, set before or after that, are written by the own one if set and
// by the common one otherwise, through the wrappers of that one in order.
func ZZ_C18_Handler() {
	defer zzInstall()()
	defer SetPermanentRedirectCode(PermanentRedirectCode())
	var p = zzPolicyOf(zzPick("subject", zzPolicies), false, false)
	var v = zzPick("via", zzVias)
	var id, trail string

	// The target to redirect to may be set before everything else.
	var why = zzPick("why", 5)
	if why > 2 {
		p.n.redirectVia(p.t.ro, v, why == 4, "/t", 307)
	}

	if zzBool("common") {
		SetCommonRedirectHandler(zzMark("common"))
		id = "common"
	}

	switch zzPick("wrapCommon", 3) {
	case 1:
		WrapCommonRedirectHandler(zzOuter("1"), zzOuter("2"))
		trail = "21"
	case 2:
		WrapCommonRedirectHandler(zzOuter("1"))
		WrapCommonRedirectHandler(zzOuter("2"))
		trail = "21"
	}

	var auto = 308
	if zzBool("commonCode") {
		SetPermanentRedirectCode(301)
		auto = 301
	}

	var ownCode = zzPick("ownCode", 3)
	if ownCode == 1 {
		auto = 609 - auto
		p.n.setCode(p.t.ro, v, auto)
	}

	var late = zzBool("late")
	var own = zzBool("own")
	if own {
		p.n.setRedirectHandler(p.t.ro, v, zzMark("own"))
		id, trail = "own", ""
	}

	switch zzPick("wrapOwn", 3) {
	case 1:
		p.n.wrapRedirectHandler(p.t.ro, v, zzOuter("a"), zzOuter("b"))
		trail = "ba" + trail
	case 2:
		p.n.wrapRedirectHandler(p.t.ro, v, zzOuter("a"))
		p.n.wrapRedirectHandler(p.t.ro, v, zzOuter("b"))
		trail = "ba" + trail
	default:
		if late && !own {
			// The responder follows the common handler's changes.
			WrapCommonRedirectHandler(zzOuter("3"))
			trail = "3" + trail
		}
	}

	var q = &zzReq{host: p.host, path: "//a/."}
	if p.n.root || p.n.host {
		q.path = "//"
	}

	if ownCode == 2 {
		auto = 609 - auto
		p.n.setCode(p.t.ro, v, auto)
	}

	var code = auto
	if why == 1 || why == 2 {
		p.n.redirectVia(p.t.ro, v, why == 2, "/t", 307)
	}

	if why > 0 {
		code = 307
	}

	if why == 1 || why == 3 {
		q.path = "/a"
		if p.n.root || p.n.host {
			q.path = "/"
		}
	}

	zzTrail = ""
	var got = zzServe(p.t.ro, q)
	zzAssert(got.kind == "redirect", "the request was not redirected")
	zzAssert(got.id == id, "the redirect was written by another handler")
	zzAssert(got.code == code, "the redirect has another status")
	zzAssert(zzTrail == trail, "the redirect handler is not wrapped in order")

	zzTrail, zzHits = "", nil
	p.n.redirectHandler(p.t.ro, v)(&zzWriter{}, q.request(), "/u", 301, &Args{})
	zzAssert(len(zzHits) == 1 && zzHits[0].id == id && zzTrail == trail,
		"the redirect handler that is read back isn't the one that writes redirects")
}

// ZZ_C18_Invalid: nil handlers, no wrappers and nil wrappers are rejected and
// change nothing.
func ZZ_C18_Invalid() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), false, false)
	var v = zzPick("via", zzVias)
	zzAssert(zzPanics(func() { SetCommonRedirectHandler(nil) }), "a nil common redirect handler was accepted")
	zzAssert(zzPanics(func() { WrapCommonRedirectHandler() }), "wrapping with nothing was accepted")
	zzAssert(zzPanics(func() { WrapCommonRedirectHandler(nil) }), "wrapping with nil was accepted")
	zzAssert(zzPanics(func() { p.n.setRedirectHandler(p.t.ro, v, nil) }), "a nil redirect handler was accepted")
	zzAssert(zzPanics(func() { p.n.wrapRedirectHandler(p.t.ro, v) }), "wrapping with nothing was accepted")
	zzAssert(zzPanics(func() { p.n.wrapRedirectHandler(p.t.ro, v, nil) }), "wrapping with nil was accepted")
	var q = &zzReq{host: p.host, path: "//a"}
	if p.n.root || p.n.host {
		q.path = "//"
	}

	q.split()
	zzCheck(zzServe(p.t.ro, q), q, p.t.route(q))
}

// ZZ_C18_Policy: a subject with either own status and the other one as the
// common status, with and without https and a trailing slash, has any of the
// flags; for every path of up to 4 bytes (thorough: 6) over / a b . with and
// without TLS, a redirect has the status of the responder it is for.
func ZZ_C18_Policy() {
	defer zzInstall()()
	defer SetPermanentRedirectCode(PermanentRedirectCode())
	var p = zzPolicyOf(zzPick("subject", zzPolicies), zzPick("https", 2) == 1, zzPick("slash", 2) == 1)
	var q = &zzReq{host: p.host, tls: zzBool("tls")}
	q.path = "/" + zzStrIn("path", "/ab.", 0, 3+2*zzTier())
	q.split()
	p.n.configure(Config{
		SubtreeHandler:           zzBool("subtree"),
		StrictOnTrailingSlash:    zzBool("strict"),
		LenientOnTrailingSlash:   zzBool("lenient"),
		RedirectsInsecureRequest: p.n.https && zzBool("redirects"),
		LenientOnUncleanPath:     zzBool("unclean"),
	})

	var own = 301 + 7*zzPick("own", 2)
	SetPermanentRedirectCode(609 - own)
	p.n.setCode(p.t.ro, 0, own)
	var want = p.t.route(q)
	var got = zzServe(p.t.ro, q)
	zzCover(got.kind)
	if got.kind != "redirect" || want.kind != "redirect" {
		return
	}

	if want.node == p.n {
		zzAssert(got.code == own, "the redirect's status isn't the responder's own")
	} else {
		zzAssert(got.code == 609-own, "the redirect's status isn't the common one")
	}
}
