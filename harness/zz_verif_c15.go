//zz:use policy
//zz:use via

package nanomux

func init() { zzHandledBy = zzAllMethods }

func zzC15Target() (string, int) {
	var to string
	if i := zzPick("target", 8); i < 7 {
		to = []string{"/t", "t", "/t/", "t/u/", "http://o", "http://o/", "https://o/t"}[i]
	} else {
		to = zzStrIn("to", "/ht", 1, 3)
	}

	return to, zzInt("code", 300, 399)
}

func zzC15Check(p *zzPolicy, q *zzReq) {
	q.split()
	var want = p.t.route(q)
	var got = zzServe(p.t.ro, q)
	zzCover(want.kind)
	if want.node != nil && want.node.to != "" && want.kind == "redirect" {
		zzAssert(got.kind == "redirect", "the request was not redirected but answered with "+got.kind)
		if want.scheme || want.unclean || want.slash {
			return
		}

		zzCheck(got, q, want)
		return
	}

	zzAssert(got.kind == want.kind, "the answer is "+got.kind+" instead of "+want.kind)
}

// ZZ_C15_Redirect: the subject is a root resource, a static or wildcard
// resource, a host or a host's resource with a method handler, which redirects
// its requests to one of seven targets or any of 1 to 3 bytes over / h t, with
// any status from 300 to 399; it may be a subtree handler or have a trailing
// slash, and have a resource below. Every path of up to 6 bytes (thorough: 7)
// over / a b . that's unclean, too.
func ZZ_C15_Redirect() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), false, zzBool("slash"))
	p.n.configure(Config{SubtreeHandler: zzBool("subtree"), HandlesThePathAsIs: zzBool("asIs")})
	p.n.redirect(zzC15Target())
	var q = &zzReq{host: p.host, query: "k=v"}
	q.path = "/" + zzStrIn("path", "/ab.", 0, 5+zzTier())
	zzC15Check(p, q)
}

// ZZ_C15_Any: the same for a subject that redirects any request, which may be
// secure and strict; paths of up to 5 bytes (thorough: 6).
func ZZ_C15_Any() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), zzBool("https"), zzBool("slash"))
	p.n.configure(Config{SubtreeHandler: zzBool("subtree"), StrictOnTrailingSlash: zzBool("strict")})
	p.n.redirectAny(zzC15Target())
	var q = &zzReq{host: p.host, tls: zzBool("tls")}
	q.path = "/" + zzStrIn("path", "/ab.", 0, 4+zzTier())
	zzC15Check(p, q)
}

// ZZ_C15_Methods: requests of each method and of one that has no handler, for
// either redirect from any of the subjects, and paths of up to 4 bytes (thorough:
// 5) over / a b .
func ZZ_C15_Methods() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), zzBool("https"), zzBool("slash"))
	p.n.configure(Config{
		SubtreeHandler: zzBool("subtree"), RedirectsInsecureRequest: zzBool("redirects"),
	})

	if zzBool("any") {
		p.n.redirectAny("/t", 307)
	} else {
		p.n.redirect("/t", 307)
	}

	var q = &zzReq{host: p.host, tls: zzBool("tls"), method: zzAnyMethod()}
	q.path = "/" + zzStrIn("path", "/ab.", 0, 3+zzTier())
	zzC15Check(p, q)
}

// ZZ_C15_Bytes: the remaining path is escaped: any bytes in a path of up to 4
// bytes, and raw paths over / % 2 F a of up to 6.
func ZZ_C15_Bytes() {
	defer zzInstall()()
	var p = zzPolicyOf(2+zzPick("subject", 3), false, false)
	p.n.configure(Config{SubtreeHandler: true, HandlesThePathAsIs: true})
	var any = zzBool("any")
	if any {
		p.n.redirectAny("/t", 302)
	} else {
		p.n.redirect("/t", 302)
	}

	var q = &zzReq{host: p.host, raw: zzPick("raw", 2) == 1}
	if q.raw {
		q.path = "/" + zzStrIn("path", "/%2Fa", 0, 5)
		var _, ok = zzDecode(q.path)
		zzAssume(ok)
	} else {
		q.path = "/" + zzStr("path", 0, 3)
	}

	zzC15Check(p, q)
}

// ZZ_C15_Rejected: every status and targets of up to 2 bytes of any value; an
// empty target and a status outside 300 to 399 are rejected and nothing is
// redirected.
func ZZ_C15_Rejected() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), false, false)
	var to, code = zzStr("to", 0, 2), zzInt("code", -1000, 1000)
	var any = zzBool("any")
	var v = zzPick("via", zzVias)
	var ok = !zzPanics(func() { p.n.redirectVia(p.t.ro, v, any, to, code) })

	zzAssert(
		ok == (to != "" && 300 <= code && code <= 399),
		"a redirect was accepted or rejected wrongly",
	)

	var q = &zzReq{host: p.host, path: "/"}
	if p.n.id == "subject" && !p.n.host {
		q.path = "/a"
	}

	var got = zzServe(p.t.ro, q)
	if ok {
		zzAssert(got.kind == "redirect" && got.code == code, "the request was not redirected with the code")
	} else {
		zzAssert(got.kind == "handler" && got.id == p.n.id, "a rejected redirect had an effect")
	}
}

// ZZ_C15_Dormant: a subject without method handlers redirects, too; a second
// target replaces the first one, by each of the three ways. Paths of up to 5 bytes over / a b.
func ZZ_C15_Dormant() {
	defer zzInstall()()
	var p = zzOnce("c15dormant", func() interface{} {
		var p = &zzPolicy{host: "x", t: &zzTree{}}
		p.n = zzSt("subject", "a", zzSt("below", "b"))
		p.n.silent = true
		p.t.root = zzRoot(p.n)
		p.t.make()
		return p
	}).(*zzPolicy)

	if zzBool("configured") {
		p.n.configure(Config{SubtreeHandler: zzBool("subtree")})
	}

	var v, any = zzPick("via", zzVias), zzBool("any")
	if zzBool("twice") {
		p.n.redirectVia(p.t.ro, v, any, "/x", 301)
	}

	p.n.redirectVia(p.t.ro, v, any, "/t", 302)

	var q = &zzReq{host: p.host, path: "/" + zzStrIn("path", "/ab", 0, 4)}
	zzC15Check(p, q)
}

// ZZ_C15_Again: three requests in a row for a subject that redirects its requests
// or any requests to one of eight targets; paths of up to 2 bytes (thorough: 3)
// over / a b below it, and the last of up to 3 (thorough: 4).
func ZZ_C15_Again() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), false, false)
	p.n.configure(Config{SubtreeHandler: true, HandlesThePathAsIs: true})
	var to = []string{"/", "/t", "t", "/t/", "t/u/", "http://o", "http://o/", "https://o/t"}[zzPick("target", 8)]
	if zzBool("any") {
		p.n.redirectAny(to, 301)
	} else {
		p.n.redirect(to, 301)
	}

	var at = "/a/"
	if p.n.root || p.n.host {
		at = "/"
	}

	for i := 0; i < 2; i++ {
		zzServe(p.t.ro, &zzReq{
			host: p.host, path: at + []string{"", "x", "x/", "/x/y"}[zzPick("before", 4)],
		})
	}

	zzC15Check(p, &zzReq{host: p.host, path: at + zzStrIn("path", "/ab", 0, 2+zzTier())})
}
