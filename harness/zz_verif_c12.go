//zz:use policy

package nanomux

func init() { zzHandledBy = zzAllMethods }

// ZZ_C12_Slash: the subject is a root resource, a static or wildcard resource,
// a host or a host's resource, with a trailing slash given by its URL template,
// by its configuration or not at all; any setting of the subtree and trailing
// slash flags; every clean path of up to 8 bytes (thorough: 9) over / a b,
// with and without TLS.
func ZZ_C12_Slash() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), false, zzBool("slash"))
	var q = &zzReq{forwarded: true, host: p.host, tls: zzBool("tls"), method: zzAnyMethod()}
	q.path = "/" + zzStrIn("path", "/ab", 0, 7+zzTier())
	q.split()
	zzAssume(!q.unclean)
	p.n.configure(Config{
		SubtreeHandler:         zzBool("subtree"),
		HasTrailingSlash:       zzBool("has"),
		StrictOnTrailingSlash:  zzBool("strict"),
		LenientOnTrailingSlash: zzBool("lenient"),
		HandlesThePathAsIs:     zzBool("asIs"),
	})

	zzC12Check(p, q)
}

func zzC12Check(p *zzPolicy, q *zzReq) {
	var want = p.t.route(q)
	var got = zzServe(p.t.ro, q)
	zzCover(want.kind)
	zzAssert(got.kind == want.kind, "the answer is "+got.kind+" instead of "+want.kind)
	if want.kind == "redirect" && len(q.segs) > 0 {
		zzAssert(
			len(got.url) > 0 && (got.url[len(got.url)-1] == '/') == want.trail,
			"the redirect isn't to the responder's form of the path",
		)
	}

	if want.kind == "handler" {
		zzAssert(got.id == want.id, "another responder handled the request")
	}
}

// ZZ_C12_Mixed: the same policies for requests that are also insecure or have
// an unclean path: the same subjects, every path of up to 5 bytes (thorough: 6)
// over / a b .
func ZZ_C12_Mixed() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), false, zzBool("slash"))
	var q = &zzReq{host: p.host, tls: zzBool("tls"), method: zzAnyMethod()}
	q.path = "/" + zzStrIn("path", "/ab.", 0, 4+zzTier())
	q.split()
	p.n.configure(Config{
		SubtreeHandler:           zzBool("subtree"),
		HasTrailingSlash:         zzBool("has"),
		StrictOnTrailingSlash:    zzBool("strict"),
		LenientOnTrailingSlash:   zzBool("lenient"),
		RedirectsInsecureRequest: zzBool("redirects"),
		LenientOnUncleanPath:     zzBool("unclean"),
	})

	zzC12Check(p, q)
}

// ZZ_C12_Root: a root resource and a host that has not been configured as a
// subtree handler never distinguish the forms: any flags, and every path that
// is the root's.
func ZZ_C12_Root() {
	defer zzInstall()()
	var p = zzPolicyOf(3*zzPick("subject", 2), false, false)
	var q = &zzReq{forwarded: true, host: p.host, path: []string{"/", "//", "/./"}[zzPick("path", 3)]}
	q.split()
	p.n.configure(Config{
		SubtreeHandler:         zzBool("subtree"),
		HasTrailingSlash:       zzBool("has"),
		StrictOnTrailingSlash:  zzBool("strict"),
		LenientOnTrailingSlash: zzBool("lenient"),
		LenientOnUncleanPath:   true,
	})

	var got = zzServe(p.t.ro, q)
	zzAssert(got.kind == "handler" && got.id == p.n.id, "the root wasn't handled by its responder")
}

// ZZ_C12_Raw: the same policies for raw paths of up to 5 bytes over / % 2 F a,
// where an escaped slash at the end is not a trailing slash.
func ZZ_C12_Raw() {
	defer zzInstall()()
	var p = zzPolicyOf(1+zzPick("subject", 3), false, zzBool("slash"))
	var q = &zzReq{forwarded: true, host: p.host, raw: true}
	q.path = "/" + zzStrIn("path", "/%2Fa", 0, 5)
	q.split()
	zzAssume(!q.unclean)
	p.n.configure(Config{
		SubtreeHandler:         zzBool("subtree"),
		StrictOnTrailingSlash:  zzBool("strict"),
		LenientOnTrailingSlash: zzBool("lenient"),
	})

	zzC12Check(p, q)
}
