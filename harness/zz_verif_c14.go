//zz:use policy

package nanomux

import (
	"crypto/tls"
	"net/http"
	"net/url"
	"strings"
)

func init() { zzHandledBy = zzAllMethods }

// zzFollow serves the request to the target of a redirect.
func zzFollow(h http.Handler, method, target string) zzHit {
	var u, err = url.Parse(target)
	zzAssert(err == nil, "the target of the redirect is not a valid URL")
	var r = &http.Request{
		Method: method,
		URL:    &url.URL{Path: u.Path, RawPath: u.RawPath, RawQuery: u.RawQuery},
		Host:   u.Host,
		Header: http.Header{},
	}

	if u.Scheme == "https" {
		r.TLS = &tls.ConnectionState{}
	}

	zzHits = nil
	var w = &zzWriter{}
	h.ServeHTTP(w, r)
	if method == zzUnhandled {
		zzAssert(len(zzHits) == 0 && len(w.codes) == 1, "the request to the target was not answered once")
		return zzHit{kind: "status", code: w.codes[0]}
	}

	zzAssert(len(zzHits) == 1, "the request to the target was not answered once")
	return zzHits[0]
}

func zzC14Check(p *zzPolicy, q *zzReq) {
	var want = p.t.route(q)
	zzAssume(want.kind == "redirect")
	var got = zzServe(p.t.ro, q)
	zzAssume(got.kind == "redirect")
	zzCheck(got, q, want)
	var got2 = zzFollow(p.t.ro, q.request().Method, got.url)
	if q.method == zzUnhandled {
		zzAssert(got2.code == http.StatusMethodNotAllowed, "the target of the redirect isn't handled")
		return
	}

	zzAssert(got2.kind == "handler", "the target of the redirect isn't handled: "+got2.kind)
	zzAssert(got2.id == want.node.id, "the target of the redirect belongs to another responder")
}

// ZZ_C14_OneHop: the subject is a root resource, a static or wildcard resource,
// a host or a host's resource, secure or not, with a trailing slash or not; any
// setting of the other flags, with and without TLS; every path of up to 5 bytes
// (thorough: 6) over / a b . for which the subject's tree redirects.
func ZZ_C14_OneHop() {
	defer zzInstall()()
	var p = zzPolicyOf(zzPick("subject", zzPolicies), zzBool("https"), zzBool("slash"))
	var q = &zzReq{forwarded: true, host: p.host, tls: zzBool("tls"), query: "k=%2F", method: zzAnyMethod()}
	q.path = "/" + zzStrIn("path", "/ab.", 0, 4+zzTier())
	q.split()
	p.n.configure(Config{
		SubtreeHandler:           zzBool("subtree"),
		RedirectsInsecureRequest: zzBool("redirects"),
		LenientOnTrailingSlash:   zzBool("lenient"),
		LenientOnUncleanPath:     zzBool("unclean"),
	})

	zzC14Check(p, q)
}

// ZZ_C14_Bytes: paths of up to 4 bytes of any value, without a raw path, with
// an unclean path, a differing trailing slash or a wrong scheme.
func ZZ_C14_Bytes() {
	defer zzInstall()()
	var p = zzPolicyOf(2+zzPick("subject", 3), false, zzBool("slash"))
	var q = &zzReq{forwarded: true, host: p.host}
	q.path = "/" + zzStr("path", 0, 3)
	q.split()
	p.n.configure(Config{
		SubtreeHandler:           true,
		RedirectsInsecureRequest: zzBool("redirects"),
	})

	zzC14Check(p, q)
}

// ZZ_C14_Raw: raw paths of up to 6 bytes (thorough: 7) over / . % 2 F 5 and a
// space, well formed.
func ZZ_C14_Raw() {
	defer zzInstall()()
	var p = zzPolicyOf(2+zzPick("subject", 2), false, zzBool("slash"))
	var q = &zzReq{forwarded: true, host: p.host, raw: true, query: "a=b"}
	q.path = "/" + zzStrIn("path", "/.%2F5", 0, 5+zzTier())
	var _, ok = zzDecode(q.path)
	zzAssume(ok)
	q.split()
	p.n.configure(Config{
		SubtreeHandler:           true,
		RedirectsInsecureRequest: zzBool("redirects"),
		LenientOnUncleanPath:     zzBool("unclean"),
	})

	zzC14Check(p, q)
}

// ZZ_C14_Host: redirects keep the request's host with its port of up to 2 digits,
// a name or an address, given in the request or in its URL, and its query of up
// to 4 bytes, whichever responder the request is for.
func ZZ_C14_Host() {
	defer zzInstall()()
	var i = zzPick("subject", zzPolicies)
	var p = zzPolicyOf(i, true, i == 3)
	var host = p.host
	if i < 3 {
		host = []string{"x", "[::1]", "1.2.3.4"}[zzPick("host", 3)]
	}

	if zzBool("port") {
		host += ":" + zzStrIn("digits", "0123456789", 1, 2)
	}

	var q = &zzReq{forwarded: true, host: host, path: "//a/b/", urlHost: zzBool("urlHost")}
	q.tls = zzBool("tls")
	q.query = zzStrIn("query", "a=%&/?", 0, 4)
	q.split()
	p.n.configure(Config{RedirectsInsecureRequest: true, SubtreeHandler: true})
	var want = p.t.route(q)
	var got = zzServe(p.t.ro, q)
	zzCheck(got, q, want)
	zzAssert(strings.Contains(got.url, "://"+q.host+"/"), "the redirect lost the host")
}
