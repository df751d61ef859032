//zz:use policy

package nanomux

import "strings"

func init() { zzHandledBy = zzAllMethods }

// ZZ_C11_Secure: the subject is a root resource, a static or wildcard resource,
// a host or a host's resource, declared secure by its URL template, by its
// configuration or not at all; any setting of the other flags; with and without
// TLS; with or without header fields of proxies, the request's URL in the origin
// form or in the absolute form with either scheme; every path of up to 5 bytes (thorough: 6) over / a b that reaches it.
func ZZ_C11_Secure() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), zzBool("https"), zzBool("slash"))
	var q = &zzReq{host: p.host, tls: zzBool("tls"), query: "k=v"}
	q.path = "/" + zzStrIn("path", "/ab", 0, 4+zzTier())
	var form = zzPick("form", 4)
	q.absolute = []string{"", "", "http", "https"}[form]
	q.forwarded = form%2 == 1
	q.split()

	var cfg = Config{
		SubtreeHandler:           zzBool("subtree"),
		Secure:                   zzBool("secure"),
		RedirectsInsecureRequest: zzBool("redirects"),
		StrictOnTrailingSlash:    zzBool("strict"),
		LenientOnTrailingSlash:   zzBool("lenient"),
		LenientOnUncleanPath:     zzBool("unclean"),
	}

	zzC11Check(p, q, cfg, false)
}

// ZZ_C11_Methods: requests of each method and of one that has no handler, for a
// subject that may have a target to redirect to; any setting of four flags; paths of
// up to 3 bytes (thorough: 5) over / a b.
func ZZ_C11_Methods() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), zzBool("https"), zzBool("slash"))
	var q = &zzReq{host: p.host, tls: zzBool("tls"), method: zzAnyMethod()}
	q.path = "/" + zzStrIn("path", "/ab", 0, 2+2*zzTier())
	q.split()
	zzC11Check(p, q, Config{
		SubtreeHandler:           zzBool("subtree"),
		Secure:                   zzBool("secure"),
		RedirectsInsecureRequest: zzBool("redirects"),
		LenientOnTrailingSlash:   zzBool("lenient"),
	}, zzBool("own redirect"))
}

func zzC11Check(p *zzPolicy, q *zzReq, cfg Config, own bool) {
	p.n.configure(cfg)
	if own {
		p.n.redirect("/t", 301)
	}

	var want = p.t.route(q)
	zzAssume(want.node == p.n || want.kind == "notfound")

	var got = zzServe(p.t.ro, q)
	if !p.n.secure || q.tls {
		if !q.unclean && !want.slash {
			zzAssert(got.kind == want.kind, "a request that is secure enough was not treated as such")
		}

		if got.kind == "redirect" && !(own && got.code == 301) {
			zzAssert(
				strings.HasPrefix(got.url, "https://") ==
					(q.absolute == "https" || q.absolute == "" && q.tls),
				"the scheme was changed by the redirect",
			)
		}

		return
	}

	zzAssert(got.kind != "handler", "a secure responder handled an insecure request")
	if !p.n.cfg.RedirectsInsecureRequest {
		zzAssert(got.kind == "notfound", "an insecure request wasn't answered not found")
		return
	}

	if want.kind == "redirect" {
		zzAssert(got.kind == "redirect", "an insecure request wasn't redirected")
		zzAssert(got.code == want.code, "an insecure request was redirected elsewhere")
		zzAssert(strings.HasPrefix(got.url, "https://"+q.host+"/"), "the redirect is not to the same host under https")
		if !want.unclean && !want.slash {
			zzCheck(got, q, want)
		}
	}
}
