//zz:use tmpl

package nanomux

import (
	"crypto/tls"
	"net"
	"net/http"
	"net/url"
	"strings"
)

// A reference model of routing. It's written from the documentation: a tree of
// nodes, a request split into segments, and the outcome the request must have.

// zzNode is a host, a root resource or a resource.
type zzNode struct {
	id     string
	host   bool
	root   bool
	segs   []zzSeg
	https  bool // its URL template has the https scheme
	slash  bool // its URL template has a trailing slash
	secure bool
	tslash bool
	cfg    Config
	silent bool // it has no HTTP method handlers

	to   string // redirect target
	code int
	any  bool // the node redirects any request

	kids []*zzNode
	up   *zzNode

	res *Resource
	hst *Host
}

// zzResponder is what hosts and resources have in common.
type zzResponder interface {
	http.Handler
	Resource(string) *Resource
	RegisterResource(*Resource)
	SetConfiguration(Config)
	SetHandlerFor(string, Handler)
	RedirectRequestTo(string, int)
	RedirectAnyRequestTo(string, int)
	WrapRequestPasser(...Middleware)
	WrapRequestHandler(...Middleware)
	WrapHandlerOf(string, ...Middleware)
	SetPermanentRedirectCode(int)
	SetRedirectHandler(RedirectHandler)
	WrapRedirectHandler(...func(RedirectHandler) RedirectHandler)
	SetSharedData(interface{})
	SetImplementation(Impl)
	URL(HostPathValues) (*url.URL, error)
	Configuration() Config
	Template() *Template
	Router() *Router
}

func (n *zzNode) real() zzResponder {
	if n.host {
		return n.hst
	}

	return n.res
}

func zzSt(id, text string, kids ...*zzNode) *zzNode {
	return zzNew(id, []zzSeg{{zzStatic, text, ""}}, kids...)
}

func zzPt(id, pat string, kids ...*zzNode) *zzNode {
	return zzNew(id, []zzSeg{{zzPattern, "v" + id, pat}}, kids...)
}

func zzWc(id string, kids ...*zzNode) *zzNode {
	return zzNew(id, []zzSeg{{zzWild, "v" + id, ""}}, kids...)
}

func zzNew(id string, segs []zzSeg, kids ...*zzNode) *zzNode {
	var n = &zzNode{id: id, segs: segs, kids: kids}
	for _, k := range kids {
		k.up = n
	}

	return n
}

func zzRoot(kids ...*zzNode) *zzNode {
	var n = zzNew("root", nil, kids...)
	n.root = true
	return n
}

func zzHost(n *zzNode) *zzNode {
	n.host = true
	return n
}

// zzHandledBy are the methods that the nodes with handlers handle.
var zzHandledBy = "GET"

const zzUnhandled = "X"

// zzAllMethods are the methods that zzAnyMethod chooses from.
const zzAllMethods = "GET, PUT, HEAD, POST, OPTIONS, CONNECT"

// zzAnyMethod returns one of zzAllMethods or a method that is never handled.
func zzAnyMethod() string {
	var m = zzUnhandled
	switch zzPick("method", 4) {
	case 0:
		m = zzStr("GET or PUT", 3, 3)
		zzAssume(zzOr(m == "GET", m == "PUT"))
	case 1:
		m = zzStr("HEAD or POST", 4, 4)
		zzAssume(zzOr(m == "HEAD", m == "POST"))
	case 2:
		m = zzStr("OPTIONS or CONNECT", 7, 7)
		zzAssume(zzOr(m == "OPTIONS", m == "CONNECT"))
	}

	return m
}

// zzHits are the answers to the request being served.
var zzHits []zzHit

type zzHit struct {
	kind string // handler, redirect, notfound
	id   string
	vals HostPathValues
	rem  string
	url  string
	code int
	res  *Resource
	hst  *Host
	data interface{}

	declined bool
}

func zzHandler(id string) Handler {
	return func(_ http.ResponseWriter, _ *http.Request, args *Args) bool {
		var declined = zzMayDecline && zzBool(id+" declines")
		zzHits = append(zzHits, zzHit{
			kind: "handler",
			id:   id,

			declined: declined,

			vals: append(HostPathValues(nil), args.HostPathValues()...),
			rem:  args.RemainingPath(),
			res:  args.CurrentResource(),
			hst:  args.Host(),
			data: args.ResponderSharedData(),
		})

		return !declined
	}
}

// zzMayDecline lets every handler decide for each call whether it declines.
var zzMayDecline bool

// zzInstall replaces the common redirect and not-found handlers by ones that
// only take notes. The returned function puts the old ones back.
func zzInstall() func() {
	var nf, rh = HandlerOfNotFound(), CommonRedirectHandler()
	zzHits = nil
	SetHandlerForNotFound(
		func(http.ResponseWriter, *http.Request, *Args) bool {
			zzHits = append(zzHits, zzHit{kind: "notfound"})
			return true
		},
	)

	SetCommonRedirectHandler(
		func(
			_ http.ResponseWriter, _ *http.Request,
			url string, code int, _ *Args,
		) bool {
			zzHits = append(zzHits, zzHit{kind: "redirect", url: url, code: code})
			return true
		},
	)

	return func() {
		SetHandlerForNotFound(nf)
		SetCommonRedirectHandler(rh)
	}
}

// zzWriter is a response writer that counts.
type zzWriter struct {
	h     http.Header
	codes []int
	body  string
}

func (w *zzWriter) Header() http.Header {
	if w.h == nil {
		w.h = http.Header{}
	}

	return w.h
}

func (w *zzWriter) WriteHeader(code int) { w.codes = append(w.codes, code) }

func (w *zzWriter) Write(b []byte) (int, error) {
	if len(w.codes) == 0 {
		w.codes = append(w.codes, 200)
	}

	return len(b), nil
}

// -------------------------

// make creates the real host or resource and everything below it with default
// configurations.
func (n *zzNode) make() {
	var u = "http://"
	if n.https {
		u = "https://"
		n.secure = true
	}

	if n.host {
		u += zzTmplOf(n.segs)
	} else if n.root {
		u += "/"
	} else {
		u += "/" + zzPathTmpl(n.segs)
	}

	if n.slash {
		u += "/"
		n.tslash = true
	}

	if n.host {
		n.hst = NewDormantHost(u)
	} else {
		n.res = NewDormantResource(u)
		if n.up != nil {
			n.up.real().RegisterResource(n.res)
		}
	}

	if !n.silent {
		n.real().SetHandlerFor(zzHandledBy, zzHandler(n.id))
	}

	for _, k := range n.kids {
		k.up = n
		k.make()
	}
}

func zzPathTmpl(segs []zzSeg) string {
	return strings.ReplaceAll(zzTmplOf(segs), "/", "%2F")
}

// configure sets the configuration of the node, with which it must have had
// only the defaults before.
func (n *zzNode) configure(cfg Config) {
	n.cfg = cfg
	n.secure = n.secure || cfg.Secure || cfg.RedirectsInsecureRequest
	n.tslash = n.tslash || cfg.HasTrailingSlash && !n.root
	n.real().SetConfiguration(cfg)
}

func (n *zzNode) redirect(to string, code int) {
	n.to, n.code = to, code
	n.real().RedirectRequestTo(to, code)
}

func (n *zzNode) redirectAny(to string, code int) {
	n.to, n.code, n.any = to, code, true
	n.real().RedirectAnyRequestTo(to, code)
}

func (n *zzNode) lenientSlash() bool {
	return n.cfg.LenientOnTrailingSlash || n.cfg.HandlesThePathAsIs
}

func (n *zzNode) lenientPath() bool {
	return n.cfg.LenientOnUncleanPath || n.cfg.HandlesThePathAsIs
}

// each calls f for the node and everything below it.
func (n *zzNode) each(f func(*zzNode)) {
	f(n)
	for _, k := range n.kids {
		k.each(f)
	}
}

func (n *zzNode) node(id string) *zzNode {
	if n.id == id {
		return n
	}

	for _, k := range n.kids {
		if f := k.node(id); f != nil {
			return f
		}
	}

	return nil
}

// -------------------------

// zzReq is a request. The path is escaped if raw is true.
type zzReq struct {
	host, path, query string
	raw, tls          bool
	urlHost           bool   // the host is only in the URL
	otherHost         string // the URL's host if it's another one
	method            string
	absolute          string // scheme of a URL in the absolute form
	forwarded         bool   // with the header fields that proxies add

	segs    []string // segments of the clean path as they are in the path
	slash   bool     // the clean path has a trailing slash
	unclean bool
}

// split finds the segments of the clean path.
func (q *zzReq) split() {
	var p = q.path
	if len(p) < 2 {
		return
	}

	if p[0] != '/' {
		p = "/" + p
	}

	var segs []string
	var i = 1
	for i <= len(p) {
		var j = i
		for j < len(p) && p[j] != '/' {
			j++
		}

		switch s := p[i:j]; s {
		case "", ".":
		case "..":
			if len(segs) > 0 {
				segs = segs[:len(segs)-1]
			}
		default:
			segs = append(segs, s)
		}

		i = j + 1
	}

	q.segs = segs
	q.slash = len(segs) > 0 && p[len(p)-1] == '/'
	q.unclean = len(q.clean()) != len(p)
}

// clean returns the clean form of the path.
func (q *zzReq) clean() string {
	var p = "/" + strings.Join(q.segs, "/")
	if q.slash {
		p += "/"
	}

	return p
}

func zzHex(c byte) (byte, bool) {
	switch {
	case '0' <= c && c <= '9':
		return c - '0', true
	case 'a' <= c && c <= 'f':
		return c - 'a' + 10, true
	case 'A' <= c && c <= 'F':
		return c - 'A' + 10, true
	}

	return 0, false
}

// zzDecode decodes the percent-encoded bytes once.
func zzDecode(s string) (string, bool) {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			b = append(b, s[i])
			continue
		}

		if i+2 >= len(s) {
			return "", false
		}

		var h, ok1 = zzHex(s[i+1])
		var l, ok2 = zzHex(s[i+2])
		if !ok1 || !ok2 {
			return "", false
		}

		b = append(b, h<<4|l)
		i += 2
	}

	return string(b), true
}

// seg returns the decoded segment.
func (q *zzReq) seg(i int) (string, bool) {
	if q.raw {
		return zzDecode(q.segs[i])
	}

	return q.segs[i], true
}

// zzForwarded are header fields that have no meaning for the router.
var zzForwarded = [][2]string{
	{"X-Forwarded-Proto", "https"}, {"X-Forwarded-Scheme", "https"}, {"X-Forwarded-Ssl", "on"},
	{"X-Forwarded-Host", "other"}, {"X-Forwarded-Port", "443"}, {"Forwarded", "proto=https;host=other"},
	{"Front-End-Https", "on"}, {"X-Url-Scheme", "https"}, {"Upgrade-Insecure-Requests", "1"},
	{"X-Forwarded-Prefix", "/other"}, {"X-Original-Url", "/other"}, {"X-Rewrite-Url", "/other"},
	{"X-Http-Method-Override", "OTHER"}, {"X-Http-Method", "OTHER"}, {"X-Method-Override", "OTHER"},
	{"Connection", "upgrade"}, {"Upgrade", "h2c"}, {"Origin", "https://other"}, {"Referer", "https://other/"},
	{"Access-Control-Request-Method", "OTHER"},
}

// request makes the real request.
func (q *zzReq) request() *http.Request {
	var m = q.method
	if m == "" {
		m = "GET"
	}

	var u = &url.URL{Path: q.path, RawQuery: q.query}
	if q.raw {
		u.RawPath = q.path
		var p, ok = zzDecode(q.path)
		if !ok {
			p = q.path
		}

		u.Path = p
	}

	var r = &http.Request{
		Method: m, URL: u, Host: q.host, Header: http.Header{},
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		RequestURI: q.path, RemoteAddr: "127.0.0.1:443",
	}

	if q.forwarded {
		for _, h := range zzForwarded {
			r.Header[h[0]] = []string{h[1]}
		}
	}

	if q.absolute != "" {
		u.Scheme, u.Host = q.absolute, q.host
	}

	if q.urlHost {
		r.Host, u.Host = "", q.host
	}

	if q.otherHost != "" && q.host != "" && !q.urlHost {
		u.Host = q.otherHost
	}

	if q.tls {
		r.TLS = &tls.ConnectionState{}
	}

	return r
}

// zzOut is the outcome that a request must have.
type zzOut struct {
	kind string // handler, redirect, notfound, bad
	id   string
	node *zzNode
	vals []string // names and values

	// Remaining path of a handler, path of a redirect.
	lead, trail bool
	segs        []string

	// Reasons of an automatic redirect or of not found.
	scheme, unclean, slash bool

	asIs string // the path of the redirect may also be this

	pre  string // what precedes the path of the redirect
	post string // what follows it
	code int
}

// pick chooses the child that the segment is routed to.
func (n *zzNode) pick(seg string) (*zzNode, []string) {
	for _, k := range n.kids {
		if len(k.segs) == 1 && k.segs[0].k == zzStatic && k.segs[0].text == seg {
			return k, nil
		}
	}

	for _, k := range n.kids {
		if len(k.segs) == 1 && k.segs[0].k != zzPattern {
			continue
		}

		if ok, vals := zzRefMatch(k.segs, seg); ok {
			return k, k.named(vals)
		}
	}

	for _, k := range n.kids {
		if len(k.segs) == 1 && k.segs[0].k == zzWild {
			return k, []string{k.segs[0].text, seg}
		}
	}

	return nil, nil
}

// named pairs the values of the segments with their names.
func (n *zzNode) named(vals []string) []string {
	var out []string
	for i, sg := range n.segs {
		if sg.k == zzStatic {
			continue
		}

		var dup bool
		for j := 0; j < len(out); j += 2 {
			dup = dup || out[j] == sg.text
		}

		if !dup {
			out = append(out, sg.text, vals[i])
		}
	}

	return out
}

// respond returns the outcome of the request whose segment i is the first one
// below n, or nil if the part of the tree has no answer.
func (q *zzReq) respond(n *zzNode, i int, vals []string) *zzOut {
	if n.any {
		return q.toTarget(n, i)
	}

	var deep bool
	if i < len(q.segs) {
		var seg, ok = q.seg(i)
		if !ok {
			return &zzOut{kind: "bad"}
		}

		var k, kvals = n.pick(seg)
		if k != nil {
			var all = append(append([]string(nil), vals...), kvals...)
			if out := q.respond(k, i+1, all); out != nil {
				return out
			}
		}

		if !n.cfg.SubtreeHandler {
			return nil
		}

		deep = true
	}

	return q.handle(n, i, deep, vals)
}

var zzNotFound = &zzOut{kind: "notfound"}

// handle returns the outcome of the request that reached n.
func (q *zzReq) handle(n *zzNode, i int, deep bool, vals []string) *zzOut {
	if n.silent && n.to == "" {
		return zzNotFound
	}

	var out = &zzOut{kind: "notfound", node: n}
	var scheme = "http"
	if q.tls {
		scheme = "https"
	}

	if n.secure && !q.tls {
		scheme, out.scheme = "https", true
		if !n.cfg.RedirectsInsecureRequest {
			return out
		}
	}

	out.unclean = q.unclean && !n.lenientPath()
	var slash = q.slash
	var applies = !deep && !n.host || n.host && n.cfg.SubtreeHandler
	if len(q.segs) > 0 && applies && !n.lenientSlash() && n.tslash != q.slash {
		slash, out.slash = n.tslash, true
		if n.cfg.StrictOnTrailingSlash {
			return out
		}
	}

	if out.scheme || out.unclean || out.slash {
		out.kind = "redirect"
		out.pre = scheme + "://" + q.host
		out.segs = q.segs
		out.lead = true
		out.code = http.StatusPermanentRedirect
		out.trail = slash && len(q.segs) > 0
		if q.unclean && n.lenientPath() && slash == q.slash {
			out.asIs = q.path
		}

		if q.query != "" {
			out.post = "?" + q.query
		}

		return out
	}

	if n.to != "" {
		return q.toTarget(n, i)
	}

	out = &zzOut{kind: "handler", id: n.id, node: n, vals: vals}
	q.remaining(n, i, out)
	return out
}

// allowed returns the outcome with the method regarded.
func (q *zzReq) allowed(out *zzOut) *zzOut {
	if out.kind == "handler" && q.method == zzUnhandled {
		out.kind, out.code = "status", http.StatusMethodNotAllowed
	}

	return out
}

// chain returns the answers of the request whose segment i is the first one
// below n, in the order in which they are asked for when those before decline.
// The handlers never redirect.
func (q *zzReq) chain(n *zzNode, i int, vals []string) []*zzOut {
	var outs []*zzOut
	var deep bool
	if i < len(q.segs) {
		var seg, _ = q.seg(i)
		if k, kvals := n.pick(seg); k != nil {
			var all = append(append([]string(nil), vals...), kvals...)
			outs = q.chain(k, i+1, all)
		}

		if !n.cfg.SubtreeHandler {
			return outs
		}

		deep = true
	}

	if l := len(outs); l > 0 && outs[l-1].kind != "handler" {
		return outs
	}

	return append(outs, q.handle(n, i, deep, vals))
}

// chain returns the answers of the request sent to the router.
func (t *zzTree) chain(q *zzReq) []*zzOut {
	var outs []*zzOut
	var top = &zzNode{kids: t.hosts}
	if h, vals := top.pick(zzHostOnly(q.host)); h != nil && q.host != "" {
		outs = q.chain(h, 0, vals)
	} else if t.root != nil {
		outs = q.chain(t.root, 0, nil)
	}

	if l := len(outs); l == 0 || outs[l-1].kind == "handler" {
		outs = append(outs, zzNotFound)
	}

	return outs
}

// zzCheckChain serves the request to the router of the tree, whose handlers may
// decline, and asserts that each of them is asked after those before declined.
func zzCheckChain(t *zzTree, q *zzReq) {
	var outs = t.chain(q)
	zzHits = nil
	zzMayDecline = true
	defer func() { zzMayDecline = false }()
	t.ro.ServeHTTP(&zzWriter{}, q.request())
	var hits = zzHits
	zzAssert(len(hits) > 0, "the request was not answered")
	zzAssert(len(hits) <= len(outs), "the request was answered too many times")
	for i, got := range hits {
		zzCheck(got, q, outs[i])
		if i+1 < len(hits) {
			zzAssert(got.declined, "a handler ran after another one had answered")
		} else {
			zzAssert(!got.declined, "the request was declined and left without an answer")
		}
	}
}

// remaining sets the remaining path below n.
func (q *zzReq) remaining(n *zzNode, i int, out *zzOut) {
	if i == len(q.segs) {
		return
	}

	out.segs = q.segs[i:]
	out.lead = !(n.tslash && !n.host)
	out.trail = q.slash
}

// toTarget is the outcome of a redirect that was set on n.
func (q *zzReq) toTarget(n *zzNode, i int) *zzOut {
	var to = n.to
	if !strings.HasPrefix(to, "http") && to[0] != '/' {
		to = "/" + to
	}

	var out = &zzOut{kind: "redirect", node: n, code: n.code, pre: to}
	q.remaining(n, i, out)
	out.lead = false
	if len(out.segs) > 0 {
		if to[len(to)-1] == '/' {
			out.pre = to[:len(to)-1]
		}

		out.lead = true
	}

	return out
}

// zzTree is a router's hosts and root, in the order of their registration.
type zzTree struct {
	ro    *Router
	hosts []*zzNode
	root  *zzNode
}

func (t *zzTree) make() {
	t.ro = NewRouter()
	for _, h := range t.hosts {
		h.make()
		t.ro.RegisterHost(h.hst)
	}

	if t.root != nil {
		t.root.make()
		t.ro.RegisterResource(t.root.res)
	}
}

// zzWarm serves requests of each kind, so that what is kept between requests is
// there.
func zzWarm(h http.Handler, hosts ...string) {
	for _, host := range hosts {
		for i, p := range []string{"/", "/a", "/a/", "//a", "/a/b", "/b", "/1", "/ab/1/a", "/a%2Fb", "/%"} {
			for j, m := range []string{"GET", "OPTIONS", "X"} {
				var q = &zzReq{host: host, path: p, method: m, tls: i%2 == j, raw: i > 7}
				h.ServeHTTP(&zzWriter{}, q.request())
			}
		}
	}

	zzHits = nil
}

// zzHostOnly returns the host without its port.
func zzHostOnly(h string) string {
	if s, _, err := net.SplitHostPort(h); err == nil {
		return s
	}

	return h
}

// route returns the outcome of the request sent to the router.
func (t *zzTree) route(q *zzReq) *zzOut {
	var host = zzHostOnly(q.host)
	var out *zzOut
	if host != "" {
		var top = &zzNode{kids: t.hosts}
		if h, vals := top.pick(host); h != nil {
			out = q.respond(h, 0, vals)
			if out == nil {
				out = zzNotFound
			}

			return q.allowed(out)
		}
	}

	if t.root != nil && q.path != "" {
		out = q.respond(t.root, 0, nil)
	}

	if out == nil {
		out = zzNotFound
	}

	return q.allowed(out)
}

// direct returns the outcome of the request sent to the node itself.
func (n *zzNode) direct(q *zzReq) *zzOut {
	var out *zzOut
	switch {
	case n.host:
		if h := zzHostOnly(q.host); h != "" {
			var top = &zzNode{kids: []*zzNode{n}}
			if k, vals := top.pick(h); k != nil {
				out = q.respond(n, 0, vals)
			}
		}
	case n.root:
		out = q.respond(n, 0, nil)
	default:
		if len(q.segs) == 0 {
			break
		}

		var seg, ok = q.seg(0)
		if !ok {
			return &zzOut{kind: "bad"}
		}

		var top = &zzNode{kids: []*zzNode{n}}
		if k, vals := top.pick(seg); k != nil {
			out = q.respond(n, 1, vals)
		}
	}

	if out == nil {
		out = zzNotFound
	}

	return q.allowed(out)
}

// -------------------------

// zzSamePath reports whether s is the path of the segments, each of which may
// be escaped in s.
func zzSamePath(s string, q *zzReq, segs []string, lead, trail bool) bool {
	var want = strings.Join(segs, "/")
	if lead {
		want = "/" + want
	}

	if trail {
		want += "/"
	}

	if len(segs) == 0 {
		want = ""
		if lead {
			want = "/"
		}
	}

	if len(s) == len(want) && s == want {
		return true
	}

	// The escaping differs.
	if lead {
		if s == "" || s[0] != '/' {
			return false
		}

		s = s[1:]
	}

	if trail {
		if s == "" || s[len(s)-1] != '/' {
			return false
		}

		s = s[:len(s)-1]
	}

	var parts = strings.Split(s, "/")
	if len(parts) != len(segs) {
		return false
	}

	for i, p := range parts {
		var got, ok = zzDecode(p)
		if !ok || !zzLegal(p) {
			return false
		}

		var w = segs[i]
		if q.raw {
			w, _ = zzDecode(w)
		}

		if got != w {
			return false
		}
	}

	return true
}

// zzLegal reports whether every character may be in a URL's path.
func zzLegal(p string) bool {
	for i := 0; i < len(p); i++ {
		var c = p[i]
		if 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' ||
			strings.IndexByte("%-._~!$&'()*+,;=:@/", c) >= 0 {
			continue
		}

		return false
	}

	return true
}

// zzServe serves the request and returns its only answer.
func zzServe(h http.Handler, q *zzReq) zzHit {
	return zzServeTo(h, q, &zzWriter{})
}

func zzServeTo(h http.Handler, q *zzReq, w *zzWriter) zzHit {
	zzHits = nil
	h.ServeHTTP(w, q.request())
	var n = len(zzHits)
	if len(w.codes) > 0 {
		n += len(w.codes)
	}

	if n == 0 {
		zzFail("the request was not answered")
	}

	if n > 1 {
		zzFail("the request was answered more than once")
	}

	if len(zzHits) == 1 {
		return zzHits[0]
	}

	if w.codes[0] == http.StatusBadRequest {
		return zzHit{kind: "bad"}
	}

	return zzHit{kind: "status", code: w.codes[0]}
}

// zzCheck asserts that the answer is the expected outcome.
func zzCheck(got zzHit, q *zzReq, want *zzOut) {
	zzCover(want.kind)
	if got.kind != want.kind {
		zzFail("the answer is " + got.kind + " instead of " + want.kind)
	}

	switch want.kind {
	case "status":
		zzAssert(got.code == want.code, "the status is wrong")
	case "handler":
		zzAssert(got.id == want.id, "the wrong handler ran")
		var gn, wn int
		for _, v := range got.vals {
			if v.value != "" {
				gn++
			}
		}

		for i := 1; i < len(want.vals); i += 2 {
			if want.vals[i] != "" {
				wn++
			}
		}

		zzAssert(gn == wn, "the handler has a different number of values")
		for i := 0; i < len(want.vals); i += 2 {
			zzAssert(
				got.vals.Get(want.vals[i]) == want.vals[i+1],
				"the handler read a wrong value",
			)
		}

		zzAssert(
			zzSamePath(got.rem, q, want.segs, want.lead, want.trail),
			"the remaining path is wrong",
		)

		if want.node.host {
			zzAssert(got.hst == want.node.hst, "Args.Host is not the responder")
		} else {
			zzAssert(
				got.res == want.node.res,
				"Args.CurrentResource is not the responder",
			)
		}
	case "redirect":
		zzAssert(got.code == want.code, "the redirect has a wrong status code")
		var s = got.url
		zzAssert(strings.HasPrefix(s, want.pre), "the redirect has a wrong target")
		s = s[len(want.pre):]
		zzAssert(strings.HasSuffix(s, want.post), "the redirect lost the query")
		s = s[:len(s)-len(want.post)]
		if want.asIs != "" && s == want.asIs {
			return
		}

		zzAssert(
			zzSamePath(s, q, want.segs, want.lead, want.trail),
			"the redirect's path is wrong",
		)
	}
}
