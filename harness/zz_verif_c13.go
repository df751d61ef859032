//zz:use policy

package nanomux

func init() { zzHandledBy = zzAllMethods }

// ZZ_C13_Unclean: the subject is a root resource, a static or wildcard resource,
// a host or a host's resource; any setting of the subtree, trailing slash and
// unclean path flags; every path of up to 8 bytes (thorough: 9) over / a b .
func ZZ_C13_Unclean() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), false, false)
	var q = &zzReq{host: p.host, method: zzAnyMethod()}
	q.path = "/" + zzStrIn("path", "/ab.", 0, 7+zzTier())
	zzC13Check(p, q, Config{
		SubtreeHandler:         zzBool("subtree"),
		LenientOnTrailingSlash: zzBool("lenient"),
		LenientOnUncleanPath:   zzBool("unclean"),
		HandlesThePathAsIs:     zzBool("asIs"),
	})
}

// ZZ_C13_NoSlash: paths of up to 5 bytes over / a . that needn't start with a
// slash.
func ZZ_C13_NoSlash() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), false, false)
	var q = &zzReq{host: p.host}
	q.path = zzStrIn("path", "/a.", 1, 5)
	zzC13Check(p, q, Config{
		SubtreeHandler:       zzBool("subtree"),
		LenientOnUncleanPath: zzBool("unclean"),
	})
}

// ZZ_C13_Raw: raw paths of up to 7 bytes over / . % 2 E a, in which escaped dots
// are not dot segments.
func ZZ_C13_Raw() {
	defer zzInstall()()
	var p = zzPolicyOf(2+zzPick("subject", 3), false, false)
	var q = &zzReq{host: p.host, raw: true}
	q.path = "/" + zzStrIn("path", "/.%2Ea", 0, 6)
	var _, ok = zzDecode(q.path)
	zzAssume(ok)
	zzC13Check(p, q, Config{
		SubtreeHandler:       true,
		LenientOnUncleanPath: zzBool("unclean"),
	})
}

func zzC13Check(p *zzPolicy, q *zzReq, cfg Config) {
	p.n.configure(cfg)
	q.split()
	var want = p.t.route(q)
	var got = zzServe(p.t.ro, q)
	zzCover(want.kind)
	zzAssert(got.kind == want.kind, "the answer is "+got.kind+" instead of "+want.kind)
	switch want.kind {
	case "redirect":
		if want.unclean {
			zzCheck(got, q, want)
		}
	case "handler":
		zzAssert(got.id == want.id, "another responder handled the request")
	}
}
