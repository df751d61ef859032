//zz:use route

package nanomux

// The ways to reach a responder's settings: by its own methods (0), by those of
// its parent, given the path template (1), and by those of the router, given the
// URL template (2).

const zzVias = 3

// path is the path template of the node, below and including a root's child or
// a host's child.
func (n *zzNode) path() string {
	if n.host || n.root {
		return ""
	}

	var p = "/" + zzPathTmpl(n.segs)
	if n.up != nil {
		p = n.up.path() + p
	}

	return p
}

func (n *zzNode) top() *zzNode {
	for n.up != nil {
		n = n.up
	}

	return n
}

// rel is the template of the node relative to its parent.
func (n *zzNode) rel() string {
	var p = "/" + zzPathTmpl(n.segs)
	if n.tslash {
		p += "/"
	}

	if n.secure {
		p = "https://" + p
	}

	return p
}

// abs is the URL template of the node for its router.
func (n *zzNode) abs() string {
	var u = n.path()
	if t := n.top(); t.host {
		u = zzTmplOf(t.segs) + u
		if n.secure {
			u = "https://" + u
		} else {
			u = "http://" + u
		}
	} else {
		if n.root {
			u = "/"
		}

		if n.secure {
			u = "https://" + u
		}
	}

	if n.tslash {
		u += "/"
	}

	return u
}

func (n *zzNode) via(v int) int {
	if v == 1 && n.up == nil {
		return 0
	}

	return v
}

type zzAt interface {
	SetSharedDataAt(string, interface{})
	SharedDataAt(string) interface{}
	SetConfigurationAt(string, Config)
	ConfigurationAt(string) Config
	SetImplementationAt(string, Impl)
	ImplementationAt(string) Impl
	WrapRequestPasserAt(string, ...Middleware)
	WrapRequestHandlerAt(string, ...Middleware)
	SetPermanentRedirectCodeAt(string, int)
	PermanentRedirectCodeAt(string) int
	SetRedirectHandlerAt(string, RedirectHandler)
	RedirectHandlerAt(string) RedirectHandler
	WrapRedirectHandlerAt(string, ...func(RedirectHandler) RedirectHandler)
	RedirectRequestAt(string, string, int)
	RedirectAnyRequestAt(string, string, int)
}

type zzPathAt interface {
	zzAt
	SetPathHandlerFor(string, string, Handler)
	PathHandlerOf(string, string) Handler
	WrapPathHandlerOf(string, string, ...Middleware)
}

type zzDirect interface {
	zzResponder
	SharedData() interface{}
	Implementation() Impl
	HandlerOf(string) Handler
	AllowedHTTPMethods() []string
	PermanentRedirectCode() int
	RedirectHandler() RedirectHandler
	SetSharedDataForSubtree(interface{})
	SetConfigurationForSubtree(Config)
	WrapSubtreeRequestPassers(...Middleware)
	WrapSubtreeRequestHandlers(...Middleware)
	WrapSubtreeHandlersOf(string, ...Middleware)
}

func (n *zzNode) settings() zzDirect { return n.real().(zzDirect) }

// at returns what to call for the node and the template to call it with, when it
// isn't called directly.
func (n *zzNode) at(ro *Router, v int) (zzAt, string) {
	if v == 1 {
		return n.up.real().(zzAt), n.rel()
	}

	return ro, n.abs()
}

func (n *zzNode) setHandler(ro *Router, v int, methods string, h Handler) {
	switch n.via(v) {
	case 0:
		n.settings().SetHandlerFor(methods, h)
	case 1:
		n.up.real().(zzPathAt).SetPathHandlerFor(methods, n.rel(), h)
	default:
		ro.SetURLHandlerFor(methods, n.abs(), h)
	}
}

func (n *zzNode) handlerOf(ro *Router, v int, method string) Handler {
	switch n.via(v) {
	case 0:
		return n.settings().HandlerOf(method)
	case 1:
		return n.up.real().(zzPathAt).PathHandlerOf(method, n.rel())
	default:
		return ro.URLHandlerOf(method, n.abs())
	}
}

func (n *zzNode) wrapHandler(ro *Router, v int, methods string, mws ...Middleware) {
	switch n.via(v) {
	case 0:
		n.settings().WrapHandlerOf(methods, mws...)
	case 1:
		n.up.real().(zzPathAt).WrapPathHandlerOf(methods, n.rel(), mws...)
	default:
		ro.WrapURLHandlerOf(methods, n.abs(), mws...)
	}
}

func (n *zzNode) wrapPasser(ro *Router, v int, mws ...Middleware) {
	if v = n.via(v); v == 0 {
		n.settings().WrapRequestPasser(mws...)
	} else {
		var a, s = n.at(ro, v)
		a.WrapRequestPasserAt(s, mws...)
	}
}

func (n *zzNode) wrapRequestHandler(ro *Router, v int, mws ...Middleware) {
	if v = n.via(v); v == 0 {
		n.settings().WrapRequestHandler(mws...)
	} else {
		var a, s = n.at(ro, v)
		a.WrapRequestHandlerAt(s, mws...)
	}
}

func (n *zzNode) setCode(ro *Router, v int, code int) {
	if v = n.via(v); v == 0 {
		n.settings().SetPermanentRedirectCode(code)
	} else {
		var a, s = n.at(ro, v)
		a.SetPermanentRedirectCodeAt(s, code)
	}
}

func (n *zzNode) codeOf(ro *Router, v int) int {
	if v = n.via(v); v == 0 {
		return n.settings().PermanentRedirectCode()
	}

	var a, s = n.at(ro, v)
	return a.PermanentRedirectCodeAt(s)
}

func (n *zzNode) setRedirectHandler(ro *Router, v int, h RedirectHandler) {
	if v = n.via(v); v == 0 {
		n.settings().SetRedirectHandler(h)
	} else {
		var a, s = n.at(ro, v)
		a.SetRedirectHandlerAt(s, h)
	}
}

func (n *zzNode) redirectHandler(ro *Router, v int) RedirectHandler {
	if v = n.via(v); v == 0 {
		return n.settings().RedirectHandler()
	}

	var a, s = n.at(ro, v)
	return a.RedirectHandlerAt(s)
}

func (n *zzNode) wrapRedirectHandler(ro *Router, v int, mws ...func(RedirectHandler) RedirectHandler) {
	if v = n.via(v); v == 0 {
		n.settings().WrapRedirectHandler(mws...)
	} else {
		var a, s = n.at(ro, v)
		a.WrapRedirectHandlerAt(s, mws...)
	}
}

func (n *zzNode) redirectVia(ro *Router, v int, any bool, to string, code int) {
	n.to, n.code, n.any = to, code, n.any || any
	if v = n.via(v); v == 0 {
		if any {
			n.settings().RedirectAnyRequestTo(to, code)
		} else {
			n.settings().RedirectRequestTo(to, code)
		}

		return
	}

	var a, s = n.at(ro, v)
	if any {
		a.RedirectAnyRequestAt(s, to, code)
	} else {
		a.RedirectRequestAt(s, to, code)
	}
}

func (n *zzNode) setShared(ro *Router, v int, data interface{}) {
	if v = n.via(v); v == 0 {
		n.settings().SetSharedData(data)
	} else {
		var a, s = n.at(ro, v)
		a.SetSharedDataAt(s, data)
	}
}

func (n *zzNode) shared(ro *Router, v int) interface{} {
	if v = n.via(v); v == 0 {
		return n.settings().SharedData()
	}

	var a, s = n.at(ro, v)
	return a.SharedDataAt(s)
}

func (n *zzNode) setConfig(ro *Router, v int, cfg Config) {
	if v = n.via(v); v == 0 {
		n.settings().SetConfiguration(cfg)
	} else {
		var a, s = n.at(ro, v)
		a.SetConfigurationAt(s, cfg)
	}

	n.cfg = cfg
	n.secure = n.secure || cfg.Secure || cfg.RedirectsInsecureRequest
	n.tslash = n.tslash || cfg.HasTrailingSlash && !n.root
}

func (n *zzNode) config(ro *Router, v int) Config {
	if v = n.via(v); v == 0 {
		return n.settings().Configuration()
	}

	var a, s = n.at(ro, v)
	return a.ConfigurationAt(s)
}

func (n *zzNode) setImpl(ro *Router, v int, impl Impl) {
	if v = n.via(v); v == 0 {
		n.settings().SetImplementation(impl)
	} else {
		var a, s = n.at(ro, v)
		a.SetImplementationAt(s, impl)
	}
}

func (n *zzNode) impl(ro *Router, v int) Impl {
	if v = n.via(v); v == 0 {
		return n.settings().Implementation()
	}

	var a, s = n.at(ro, v)
	return a.ImplementationAt(s)
}
