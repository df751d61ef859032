//zz:use tree
//zz:use via
//zz:use flags

package nanomux

import (
	"net/http"
	"net/url"
	"strconv"
)

// zzC30Ran has what ran while a request was served.
var zzC30Ran []string

func zzC30Handler(id string) Handler {
	return func(http.ResponseWriter, *http.Request, *Args) bool {
		zzC30Ran = append(zzC30Ran, id)
		return true
	}
}

func zzC30Mw(id string) Middleware {
	return func(next Handler) Handler {
		return func(w http.ResponseWriter, r *http.Request, args *Args) bool {
			zzC30Ran = append(zzC30Ran, id)
			return next(w, r, args)
		}
	}
}

func zzC30Redirect(id string) RedirectHandler {
	return func(_ http.ResponseWriter, _ *http.Request, url string, code int, _ *Args) bool {
		zzC30Ran = append(zzC30Ran, id+strconv.Itoa(code), url)
		return true
	}
}

func zzC30RedirectMw(next RedirectHandler) RedirectHandler {
	return func(w http.ResponseWriter, r *http.Request, url string, code int, args *Args) bool {
		zzC30Ran = append(zzC30Ran, "redirect mw")
		return next(w, r, url, code, args)
	}
}

type zzC30Impl struct{ id string }

func (i *zzC30Impl) HandlePut(http.ResponseWriter, *http.Request, *Args) bool {
	zzC30Ran = append(zzC30Ran, "put "+i.id)
	return true
}

// zzC30Own gives a responder settings of its own.
func zzC30Own(d zzDirect, id string, code int) {
	d.SetImplementation(&zzC30Impl{id})
	d.SetHandlerFor("GET", zzC30Handler("get "+id))
	d.SetSharedData("data of " + id)
	d.(zzC30Codes).SetPermanentRedirectCode(code)
	d.(zzC30Codes).SetRedirectHandler(zzC30Redirect("redirected by " + id))
}

type zzC30Codes interface {
	SetPermanentRedirectCode(int)
	SetRedirectHandler(RedirectHandler)
	WrapRedirectHandler(...func(RedirectHandler) RedirectHandler)
	RedirectRequestTo(string, int)
	RedirectAnyRequestTo(string, int)
	WrapRequestPasser(...Middleware)
	WrapRequestHandler(...Middleware)
	WrapHandlerOf(string, ...Middleware)
}

// zzC30Trees returns two trees that are the same.
func zzC30Trees() (a, b *Router) {
	var key = "c30"
	if zzOnceBool {
		key += " root"
	}

	var t = zzOnce(key, func() interface{} {
		return &[2]*Router{zzC30Tree(), zzC30Tree()}
	}).(*[2]*Router)
	return t[0], t[1]
}

func zzC30Tree() *Router {
	var ro = NewRouter()
	var subtree = Config{SubtreeHandler: true}
	if zzOnceBool {
		zzC30Own(ro.Resource("/"), "root", 301)
		zzC30Own(ro.Host("http://h"), "h", 308)
	}

	zzC30Own(ro.ResourceUsingConfig("/a/b", subtree), "b", 308)
	zzC30Own(ro.Resource("https:///s/"), "s", 301)
	zzC30Own(ro.Resource("/$n:{v}"), "v", 308)
	zzC30Own(ro.Resource("http://h/a/b"), "hb", 301)
	zzC30Own(ro.HostUsingConfig("https://s/", subtree), "sh", 301)
	zzC30Own(ro.Resource("https://s/a"), "sa", 308)
	zzC30Own(ro.Host(`http://{p:\d+}`), "ph", 301)
	return ro
}

// zzOnceBool tells whether the root and the host h have settings.
var zzOnceBool bool

// zzC30Line describes a responder.
func zzC30Line(r zzDirect, under string) []string {
	var c = r.(zzFlagged).Configuration()
	var cs string
	for _, b := range []bool{
		c.SubtreeHandler, c.Secure, c.RedirectsInsecureRequest, c.HasTrailingSlash,
		c.StrictOnTrailingSlash, c.LenientOnTrailingSlash, c.LenientOnUncleanPath,
	} {
		if b {
			cs += "1"
		} else {
			cs += "0"
		}
	}

	var data, _ = r.SharedData().(string)
	var impl, _ = r.Implementation().(*zzC30Impl)
	if impl != nil {
		data += " " + impl.id
	}

	var t = r.(interface{ Template() *Template }).Template()
	return []string{under + t.Content(), t.Name(), cs, data, strconv.Itoa(r.PermanentRedirectCode())}
}

func zzC30Lines(r zzDirect, under string) [][]string {
	var ls = [][]string{zzC30Line(r, under)}
	under = ls[0][0] + "/"
	for _, k := range r.(zzKeeper).ChildResources() {
		ls = append(ls, zzC30Lines(k, under)...)
	}

	return ls
}

func zzC30Dump(ro *Router) (ls [][]string) {
	for _, h := range ro.Hosts() {
		ls = append(ls, zzC30Lines(h, "")...)
	}

	if r := zzRootOf(ro); r != nil {
		ls = append(ls, zzC30Lines(r, "")...)
	}

	return
}

// zzC30Same asserts that the two routers have responders with the same settings.
func zzC30Same(a, b *Router) {
	var la, lb = zzC30Dump(a), zzC30Dump(b)
	zzAssert(len(la) == len(lb), "different responders were made")
	for i, x := range la {
		var same = zzSameStrs(x, lb[i])
		for k := 0; k < len(lb) && !same; k++ {
			same = zzSameStrs(x, lb[k])
		}

		zzAssert(same, "the settings differ")
	}
}

// zzC30Host reports whether the URL template is of a host.
func zzC30Host(u string) bool {
	if len(u) < 7 || u[:4] != "http" {
		return false
	}

	if u[4] == 's' {
		u = u[8:]
	} else {
		u = u[7:]
	}

	for i := 0; i < len(u); i++ {
		if u[i] == '/' {
			return i > 0 && i == len(u)-1
		}
	}

	return true
}

type zzC30Keeper interface {
	Resource(string) *Resource
	ResourceUsingConfig(string, Config) *Resource
	RegisteredResource(string) *Resource
}

// zzC30Ask finds the responder or, when told to, creates it.
func zzC30Ask(from zzC30Keeper, u string, create bool, c *Config) zzDirect {
	if ro, ok := from.(*Router); ok && zzC30Host(u) {
		var h *Host
		switch {
		case c != nil:
			h = ro.HostUsingConfig(u, *c)
		case create:
			h = ro.Host(u)
		default:
			h = ro.RegisteredHost(u)
		}

		if h == nil {
			return nil
		}

		return h
	}

	var r *Resource
	switch {
	case c != nil:
		r = from.ResourceUsingConfig(u, *c)
	case create:
		r = from.Resource(u)
	default:
		r = from.RegisteredResource(u)
	}

	if r == nil {
		return nil
	}

	return r
}

func zzC30From(ro *Router, i int) zzC30Keeper {
	switch i {
	case 1:
		for _, h := range ro.Hosts() {
			if h.Template().Content() == "h" {
				return h
			}
		}
	case 2, 3:
		var root = zzRootOf(ro)
		if i == 2 {
			return root
		}

		for _, r := range root.ChildResources() {
			if r.Template().Content() == "a" {
				return r
			}
		}
	}

	return ro
}

const zzC30Setters = 12

// zzC30Set sets the thing through the template.
func zzC30Set(k int, at zzAt, u string, c Config) {
	var ro, isRouter = at.(*Router)
	var pa, _ = at.(zzPathAt)
	switch k {
	case zzC30Setters:
		at.SetSharedDataAt(u, nil)
	case 0:
		at.SetSharedDataAt(u, "new")
	case 1:
		at.SetImplementationAt(u, &zzC30Impl{"new"})
	case 2:
		if isRouter {
			ro.SetURLHandlerFor("POST get", u, zzC30Handler("new"))
		} else {
			pa.SetPathHandlerFor("POST get", u, zzC30Handler("new"))
		}
	case 3:
		at.WrapRequestPasserAt(u, zzC30Mw("passer 1"), zzC30Mw("passer 2"))
	case 4:
		at.WrapRequestHandlerAt(u, zzC30Mw("request 1"), zzC30Mw("request 2"))
	case 5:
		if isRouter {
			ro.WrapURLHandlerOf("GET", u, zzC30Mw("get 1"), zzC30Mw("get 2"))
		} else {
			pa.WrapPathHandlerOf("GET", u, zzC30Mw("get 1"), zzC30Mw("get 2"))
		}
	case 6:
		at.SetPermanentRedirectCodeAt(u, 301)
	case 7:
		at.SetRedirectHandlerAt(u, zzC30Redirect("new"))
	case 8:
		at.WrapRedirectHandlerAt(u, zzC30RedirectMw)
	case 9:
		at.RedirectRequestAt(u, "/t", 303)
	case 10:
		at.RedirectAnyRequestAt(u, "/t/", 307)
	default:
		at.SetConfigurationAt(u, c)
	}
}

// zzC30Direct does the same with the responder's own methods.
func zzC30Direct(k int, from zzC30Keeper, u string, c Config) {
	if k == 11 {
		if d := zzC30Ask(from, u, false, nil); d != nil {
			d.SetConfiguration(c)
		} else {
			zzC30Ask(from, u, true, &c)
		}

		return
	}

	var d = zzC30Ask(from, u, k != 5, nil)
	var m = d.(zzC30Codes)
	switch k {
	case zzC30Setters:
		d.SetSharedData(nil)
	case 0:
		d.SetSharedData("new")
	case 1:
		d.SetImplementation(&zzC30Impl{"new"})
	case 2:
		d.SetHandlerFor("POST get", zzC30Handler("new"))
	case 3:
		m.WrapRequestPasser(zzC30Mw("passer 1"), zzC30Mw("passer 2"))
	case 4:
		m.WrapRequestHandler(zzC30Mw("request 1"), zzC30Mw("request 2"))
	case 5:
		m.WrapHandlerOf("GET", zzC30Mw("get 1"), zzC30Mw("get 2"))
	case 6:
		m.SetPermanentRedirectCode(301)
	case 7:
		m.SetRedirectHandler(zzC30Redirect("new"))
	case 8:
		m.WrapRedirectHandler(zzC30RedirectMw)
	case 9:
		m.RedirectRequestTo("/t", 303)
	default:
		m.RedirectAnyRequestTo("/t/", 307)
	}
}

// zzC30URL is the template given to the method, and a host and a path that it
// matches.
func zzC30URL(router bool) (u, host, path string) {
	host, path = "x", "/"
	zzOnceBool = false
	var scheme = "http://"
	if zzPick("https", 2) == 1 {
		scheme = "https://"
	}

	if router {
		switch i := zzPick("host", 7); i {
		case 0:
			zzOnceBool = zzPick("root", 2) == 1
			if scheme == "https://" {
				u = scheme
			}
		default:
			u = scheme + []string{"h", "s", "new", `{p:\d+}`, `{q:\d+}`, "$h:h"}[i-1]
			host = []string{"h", "s", "new", "1", "1", "h"}[i-1]
		}
	} else {
		zzOnceBool = zzPick("root and host", 2) == 1
		if scheme == "https://" {
			u = scheme
		}
	}

	if zzPick("path", 2) == 1 {
		if u != "" || zzPick("leading slash", 2) == 1 {
			u += "/"
		}

		switch kind := zzPick("kind", 5+zzTier()); kind {
		case 0:
			var t = zzStrIn("segment", "as1", 0, 1)
			u, path = u+t, path+t
		default:
			u += []string{"$n:{v}", "{w}", "$n:a", "{", "$m:s"}[kind-1]
			path += []string{"1", "1", "a", "{", "s"}[kind-1]
		}

		if zzPick("below", 2) == 1 {
			var t = zzStrIn("below", "bc", 1, 1)
			u, path = u+"/"+t, path+"/"+t
		}
	}

	if zzPick("slash", 2) == 1 {
		u += "/"
		path += "/"
	}

	return
}

// zzC30OnTheWay reports whether the template is of a responder that was only made
// on the way to another one.
func zzC30OnTheWay(from int, u string) (on bool) {
	zzFails(func() {
		var a, _ = zzC30Trees()
		var d = zzC30Ask(zzC30From(a, from), u, false, nil)
		on = d != nil && d.SharedData() == nil
	})

	return
}

// ZZ_C30_Set: each of the 12 methods that set something (no data, too) through a template,
// called on a router, a host, the root or a resource, with templates of hosts and
// of resources at one or two segments, with any scheme and trailing slash, that
// are there, were only made on the way, are new, conflict or are invalid; against
// finding or making the responder in another tree and calling its own method.
// Both trees have the same responders and settings and answer requests in the same way:
// one that the template matches, one below it and those of paths of up to 2 bytes (thorough: 4)
// over a b s /. A router's methods that set the configuration and wrap method handlers may be
// rejected for a responder that was only made on the way, and aren't called for one.
func ZZ_C30_Set() {
	defer zzInstall()()
	var from = zzPick("from", 4)
	var u, host, path = zzC30URL(from == 0)
	var a, b = zzC30Trees()
	var c Config
	var k = zzPick("setter", zzC30Setters+1)
	if k == 11 {
		c = Config{
			SubtreeHandler: true, LenientOnUncleanPath: true,
			RedirectsInsecureRequest: zzPick("redirects", 2) == 1,
			HasTrailingSlash:         zzPick("has slash", 2) == 1,
		}

	}

	if (k == 5 || k == 11) && from == 0 && zzC30OnTheWay(from, u) {
		return
	}

	if from == 1 {
		host = "h"
	}

	if from == 3 {
		path = "/a" + path
	}

	var failed = zzFails(func() { zzC30Direct(k, zzC30From(b, from), u, c) })
	var rejected = zzPanics(func() { zzC30Set(k, zzC30From(a, from).(zzAt), u, c) })
	zzAssert(failed == rejected, "one of them was rejected")
	zzC30Same(a, b)
	if failed {
		zzCover("rejected")
		return
	}

	zzCover("set")
	var q = &zzReq{host: host, tls: zzBool("tls"), method: "GET"}
	if k == 1 {
		q.method = "PUT"
	}

	switch zzPick("request", 3) {
	case 0:
		q.path = path
	case 1:
		q.path = path + "/b"
	default:
		q.path = "/" + zzStrIn("path", "abs/", 0, 1+2*zzTier())
	}

	var ta = zzC30Serve(a, q)
	var tb = zzC30Serve(b, q)
	zzAssert(zzSameStrs(ta, tb), "a request is answered in another way")
}

func zzC30Serve(ro *Router, q *zzReq) []string {
	zzC30Ran, zzHits = nil, nil
	var w = &zzWriter{}
	ro.ServeHTTP(w, q.request())
	var out = zzC30Ran
	for _, h := range zzHits {
		out = append(out, h.kind, h.url, strconv.Itoa(h.code))
	}

	for _, c := range w.codes {
		out = append(out, strconv.Itoa(c))
	}

	return out
}

// zzC30Get reads the thing through the template.
func zzC30Get(k int, at zzAt, u string) interface{} {
	var ro, isRouter = at.(*Router)
	switch k {
	case 0:
		return at.SharedDataAt(u)
	case 1:
		return at.ImplementationAt(u)
	case 2:
		if isRouter {
			return ro.URLHandlerOf("GET", u)
		}

		return at.(zzPathAt).PathHandlerOf("GET", u)
	case 3:
		return at.ConfigurationAt(u)
	case 4:
		return at.PermanentRedirectCodeAt(u)
	default:
		return at.RedirectHandlerAt(u)
	}
}

func zzC30GetDirect(k int, d zzDirect) interface{} {
	switch k {
	case 0:
		return d.SharedData()
	case 1:
		return d.Implementation()
	case 2:
		return d.HandlerOf("GET")
	case 3:
		return d.(zzFlagged).Configuration()
	case 4:
		return d.PermanentRedirectCode()
	default:
		return d.RedirectHandler()
	}
}

// ZZ_C30_Get: each of the 6 methods that read something through such a template,
// against reading it from the responder that's registered there; they are
// rejected if there is none and nothing is made. The router's ones aren't called for a
// responder that was only made on the way.
func ZZ_C30_Get() {
	defer zzInstall()()
	var from = zzPick("from", 4)
	var u, _, _ = zzC30URL(from == 0)
	if from == 0 && zzC30OnTheWay(from, u) {
		return
	}

	var a, b = zzC30Trees()
	var k = zzPick("getter", 6)
	var want, got interface{}
	var failed = zzFails(func() {
		want = zzC30GetDirect(k, zzC30Ask(zzC30From(b, from), u, false, nil))
	})
	var rejected = zzPanics(func() { got = zzC30Get(k, zzC30From(a, from).(zzAt), u) })
	zzAssert(failed == rejected, "one of them was rejected")
	zzC30Same(a, b)
	if failed {
		zzCover("rejected")
		return
	}

	zzCover("read")
	switch w := want.(type) {
	case string:
		zzAssert(got == w, "other shared data")
	case *zzC30Impl:
		var g, _ = got.(*zzC30Impl)
		zzAssert(g != nil && g.id == w.id, "another implementation")
	case Handler:
		var g, _ = got.(Handler)
		zzAssert((w == nil) == (g == nil), "another handler")
		if w != nil {
			zzC30Ran = nil
			w(&zzWriter{}, &http.Request{URL: &url.URL{}}, nil)
			g(&zzWriter{}, &http.Request{URL: &url.URL{}}, nil)
			zzAssert(len(zzC30Ran) == 2 && zzC30Ran[0] == zzC30Ran[1], "the handler of another")
		}
	case Config:
		zzAssert(got == interface{}(w), "another configuration")
	case int:
		zzAssert(got == w, "another code")
	case RedirectHandler:
		var g, _ = got.(RedirectHandler)
		zzC30Ran, zzHits = nil, nil
		var r = &http.Request{URL: &url.URL{}}
		w(&zzWriter{}, r, "u", 300, nil)
		g(&zzWriter{}, r, "u", 300, nil)
		zzAssert(len(zzC30Ran)+len(zzHits)*2 == 4, "another redirect handler")
		if len(zzC30Ran) > 0 {
			zzAssert(zzC30Ran[0] == zzC30Ran[2], "the redirect handler of another")
		}
	default:
		zzAssert(want == nil && got == nil, "not set")
	}
}

var _ = url.Parse
