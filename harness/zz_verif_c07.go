//zz:use lib

package nanomux

import "strings"

// zzURLT is what a URL template says, by the reference reading of it.
type zzURLT struct {
	host   string
	segs   []string // decoded
	root   bool
	secure bool
	slash  bool
	ok     bool
	two    bool // the path is two slashes, which are taken as the root's
}

// zzUnslash decodes the percent-encoded slashes.
func zzUnslash(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) && s[i+1] == '2' &&
			(s[i+2] == 'F' || s[i+2] == 'f') {
			b = append(b, '/')
			i += 2
			continue
		}

		b = append(b, s[i])
	}

	return string(b)
}

// zzSplitPath splits the path into decoded segments. It reports whether they all
// are segments.
func zzSplitPath(p string) (segs []string, slash, ok bool) {
	if p != "" && p[0] == '/' {
		p = p[1:]
	}

	if p != "" && p[len(p)-1] == '/' {
		slash = true
		p = p[:len(p)-1]
	}

	var from = 0
	for i := 0; i <= len(p); i++ {
		if i < len(p) && p[i] != '/' {
			continue
		}

		if i == from {
			return nil, false, false
		}

		segs = append(segs, zzUnslash(p[from:i]))
		from = i + 1
	}

	return segs, slash, true
}

func zzReadURLT(u string) (t zzURLT) {
	var abs bool
	var p = u
	if strings.HasPrefix(u, "https://") {
		abs, t.secure, p = true, true, u[8:]
	} else if strings.HasPrefix(u, "http://") {
		abs, p = true, u[7:]
	}

	if abs {
		var i = strings.IndexByte(p, '/')
		if i < 0 {
			i = len(p)
		}

		t.host, p = p[:i], p[i:]
	}

	t.two = t.host == "" && p == "//"
	switch {
	case p == "":
		t.ok = t.host != ""
	case p == "/":
		t.ok = true
		t.root = t.host == ""
		t.slash = !t.root
	default:
		t.segs, t.slash, t.ok = zzSplitPath(p)
	}

	return t
}

// zzChain returns the texts of the segments from the top to the resource.
func zzChain(r *Resource) (segs []string) {
	for p := r; p != nil; p = p.Parent() {
		if p.Parent() == nil && p.Host() == nil && p.Router() != nil {
			break // root
		}

		segs = append([]string{p.Template().UnescapedContent()}, segs...)
	}

	return segs
}

// zzNothing asserts that nothing is registered in the router.
func zzNothing(ro *Router) {
	zzAssert(!ro.HasAnyHost(), "a rejected URL template left a host")
	if r := ro.RegisteredResource("/"); r != nil {
		zzAssert(
			!r.HasAnyChildResources(),
			"a rejected URL template left a resource",
		)
	}
}

// placed asserts that the resource is where the URL template says.
func (t *zzURLT) placed(ro *Router, r *Resource) {
	zzAssert(r != nil, "there is no resource")
	zzAssert(r.Router() == ro, "the resource is in another router")
	zzAssert(r.IsSecure() == t.secure, "the security differs from the scheme")
	zzAssert(r.HasTrailingSlash() == t.slash, "the trailing slash differs")
	if t.host == "" {
		zzAssert(r.Host() == nil, "the resource has a host")
		zzAssert(!ro.HasAnyHost(), "a host was made")
	} else {
		zzAssert(r.Host() != nil, "the resource has no host")
		zzAssert(
			r.Host().Template().UnescapedContent() == t.host,
			"the resource has another host",
		)

		zzAssert(len(ro.Hosts()) == 1, "there is another host")
	}

	if t.root {
		zzAssert(r.Parent() == nil, "the root has a parent")
		zzAssert(r.Template().UnescapedContent() == "/", "it's not the root")
		return
	}

	var chain = zzChain(r)
	zzAssert(len(chain) == len(t.segs), "the path has a different length")
	for i := range chain {
		zzAssert(chain[i] == t.segs[i], "a path segment differs")
	}

	for p := r.Parent(); p != nil; p = p.Parent() {
		zzAssert(len(p.ChildResources()) == 1, "there is another resource")
		zzAssert(
			!p.IsSecure() && !p.HasTrailingSlash(),
			"the properties were given to a prefix",
		)
	}
}

var zzSchemes = []string{"", "http://", "https://"}

// zzC07Ways are the ways to make a resource at a URL template.
func zzC07Make(way int, ro *Router, u string) (r *Resource, ok bool) {
	ok = !zzPanics(func() {
		switch way {
		case 0:
			r = NewDormantResource(u)
			ro.RegisterResource(r)
		case 1:
			r = ro.Resource(u)
		case 2:
			r = ro.ResourceUsingConfig(u, Config{})
		case 3:
			r = NewResourceUsingConfig(u, zzImplNone{}, Config{SubtreeHandler: true})
			ro.RegisterResource(r)
		case 4:
			ro.SetSharedDataAt(u, 1)
			r = ro.RegisteredResource(u)
		case 5:
			ro.SetConfigurationAt(u, Config{})
			r = ro.RegisteredResource(u)
		}
	})

	return r, ok
}

type zzImplNone struct{}

// ZZ_C07_Resource: any URL template that's one of the schemes or none followed by
// up to 7 bytes (8 when thorough) of a b / % 2 F, made into a resource of an
// empty router in six ways.
func ZZ_C07_Resource() {
	var u = zzSchemes[zzPick("scheme", 3)] + zzStrIn("rest", "a/b%2F", 0, 7+zzTier())
	zzC07Resource(u, zzPick("way", 6))
}

// ZZ_C07_Schemes: the same with near misses of the schemes and up to 4 bytes (5 when thorough) of
// a / : h %.
func ZZ_C07_Schemes() {
	var schemes = []string{"http:/", "https:/", "http:", "https", "HTTP://", "/", "//", "ht", "http:///", "https:///"}
	var u = schemes[zzPick("scheme", len(schemes))] + zzStrIn("rest", "a/:h%", 0, 4+zzTier())
	zzC07Resource(u, zzPick("way", 6))
}

func zzC07Resource(u string, way int) {
	var t = zzReadURLT(u)

	zzAssume(!t.two)

	// Resources are expected.
	zzAssume(!t.ok || t.host == "" || len(t.segs) > 0)

	var slashOnly bool
	for _, s := range t.segs {
		slashOnly = slashOnly || s == "/"
	}

	var ro = NewRouter()
	var r, ok = zzC07Make(way, ro, u)
	if slashOnly {
		// A segment that is only a slash is rejected.
		zzAssert(!ok, "a segment that is a slash was accepted")
		zzNothing(ro)
		return
	}

	zzAssert(ok == t.ok, "a URL template was accepted or rejected wrongly")
	if !ok {
		zzNothing(ro)
		return
	}

	t.placed(ro, r)
}

// ZZ_C07_HostOnly: a URL template with only a host is no resource's URL, except
// to the ways that take both, and one with a path is no host's. The host is up
// to 3 bytes of a . : -, the path up to 3 bytes of a /.
func ZZ_C07_HostOnly() {
	var scheme = zzSchemes[zzPick("scheme", 3)]
	var host = zzStrIn("host", "a.:-", 0, 3)
	var path = zzStrIn("path", "a/", 0, 3)
	zzAssume(path == "" || path[0] == '/')
	var ro = NewRouter()
	var h *Host
	var way = zzPick("way", 6)
	var u = scheme + host + path
	if way < 4 {
		var ok = !zzPanics(func() {
			switch way {
			case 0:
				h = NewDormantHost(u)
				ro.RegisterHost(h)
			case 1:
				h = ro.Host(u)
			case 2:
				h = ro.HostUsingConfig(u, Config{})
			case 3:
				h = NewHostUsingConfig(u, zzImplNone{}, Config{})
				ro.RegisterHost(h)
			}
		})

		zzAssert(
			ok == (host != "" && (path == "" || path == "/")),
			"a host's URL template was accepted or rejected wrongly",
		)

		if !ok {
			zzNothing(ro)
			return
		}
	} else {
		// Without a scheme it's a path.
		zzAssume(scheme != "" && host != "" && (path == "" || path == "/"))
		if way == 4 {
			ro.SetSharedDataAt(u, 1)
			h = ro.Hosts()[0]
		} else {
			for w := 0; w < 4; w++ {
				var ro = NewRouter()
				var _, ok = zzC07Make(w, ro, u)
				zzAssert(!ok, "a host was taken as a resource")
				zzNothing(ro)
			}

			zzAssert(
				zzPanics(func() { NewDormantHost("h").Resource(u) }) &&
					zzPanics(func() { NewDormantResource("h").RegisteredResource(u) }),
				"a host was taken as a path",
			)

			return
		}
	}

	zzAssert(h.Template().UnescapedContent() == host, "the host differs")
	zzAssert(h.IsSecure() == (scheme == "https://"), "the security differs from the scheme")
	zzAssert(h.HasTrailingSlash() == (path == "/"), "the trailing slash differs")
	zzAssert(h.Router() == ro && len(ro.Hosts()) == 1 && ro.HasHost(h), "the host isn't registered")
	zzAssert(!h.HasAnyChildResources(), "there is a resource")
}

// ZZ_C07_Dynamic: URL templates of a host and one or two segments that have
// dynamic parts, names and encoded slashes.
func ZZ_C07_Dynamic() {
	var hosts = []string{"", "h", "{s}.h", "$hn:h", "{s:a+}"}
	var segs = []string{"a", "{x}", "{y:b+}", "$n:c", "a%2Fb", "{z}%2f{w:d}", "$m:%2F{v}", "{u:a%2Fb}"}
	var host = hosts[zzPick("host", len(hosts))]
	var u = zzSchemes[1+zzPick("scheme", 2)] + host
	var n = 1 + zzPick("segments", 2)
	var want []string
	for i := 0; i < n; i++ {
		var s = segs[zzPick("segment", len(segs))]
		for _, w := range want {
			zzAssume(w != s)
		}

		want = append(want, s)
		u += "/" + s
	}

	var slash = zzBool("slash")
	if slash {
		u += "/"
	}

	var ro = NewRouter()
	var r, ok = zzC07Make(zzPick("way", 6), ro, u)
	zzAssert(ok, "a URL template was rejected")
	zzAssert(r.IsSecure() == strings.HasPrefix(u, "https"), "the security differs")
	zzAssert(r.HasTrailingSlash() == slash, "the trailing slash differs")
	if host == "" {
		zzAssert(r.Host() == nil, "there is a host")
	} else {
		zzAssert(
			r.Host().Template().SimilarityWith(Parse(host)) == TheSame,
			"the host differs",
		)
	}

	for i := n - 1; i >= 0; i-- {
		zzAssert(
			r.Template().SimilarityWith(Parse(zzUnslash(want[i]))) == TheSame,
			"a segment differs",
		)

		r = r.Parent()
	}

	zzAssert(r == nil || host == "" && r.Parent() == nil, "there are more segments")
}

// zzC07Registrar makes a router, a host h or a resource to register at: the
// host, /a below the host, /a/b below the host, /a below the root, or /a alone.
func zzC07Registrar(i int) (ro *Router, at zzRegistrar, host string, chain []string) {
	ro = NewRouter()
	switch i {
	case 0:
		return ro, ro, "", nil
	case 1:
		return ro, ro.Host("http://h"), "h", nil
	case 2:
		return ro, ro.Resource("http://h/a"), "h", []string{"a"}
	case 3:
		return ro, ro.Resource("http://h/a/b"), "h", []string{"a", "b"}
	case 4:
		return ro, ro.Resource("/a"), "", []string{"a"}
	}

	return nil, NewDormantResource("/a"), "", []string{"a"}
}

func zzJoin(a, b []string) []string {
	return append(append([]string(nil), a...), b...)
}

// ZZ_C07_Register: a resource whose URL template is the host h, g or none
// followed by a path of up to 7 bytes (8 when thorough) of a b / is registered at
// a router, a host or a resource up to two levels deep.
func ZZ_C07_Register() {
	var hosts = []string{"", "http://h", "https://g", "https://"}
	var u = hosts[zzPick("host", len(hosts))] + zzStrIn("path", "ab/", 1, 7+zzTier())
	var t = zzReadURLT(u)
	zzAssume(t.ok && len(t.segs) > 0)
	var which = zzPick("registrar", 6)
	var ro, at, host, chain = zzC07Registrar(which)
	var r = NewDormantResource(u)
	var prefix = t.segs[:len(t.segs)-1]
	var accept = true
	var want, wantHost = prefix, host
	switch {
	case which == 0:
		wantHost = t.host
	case t.host == "" && len(prefix) == 0:
		want = chain
	default:
		accept = (t.host == "" || t.host == host) && len(prefix) >= len(chain) &&
			zzSameStrs(prefix[:len(chain)], chain)
	}

	zzC07Placed(ro, at, r, &t, accept, wantHost, want, func() { at.RegisterResource(r) })
}

// ZZ_C07_RegisterUnder: a resource whose URL template is the host h, g or none
// followed by none to three segments of a and b is registered at a router, a host
// or a resource under a prefix path of up to 4 bytes (5 when thorough) of a b /.
func ZZ_C07_RegisterUnder() {
	var hosts = []string{"", "http://h/", "https://g/", "https:///"}
	var u = hosts[zzPick("host", len(hosts))]
	for i, n := 0, zzPick("prefix segments", 4); i < n; i++ {
		u += []string{"a/", "b/"}[zzPick("segment", 2)]
	}

	u += "c"
	var t = zzReadURLT(u)
	var which = zzPick("registrar", 6)
	var ro, at, host, chain = zzC07Registrar(which)
	var r = NewDormantResource(u)
	var prefix = t.segs[:len(t.segs)-1]
	var under = zzStrIn("under", "ab/", 0, 4+zzTier())
	var up []string
	var accept = true
	if under != "" && (under != "/" || which > 1) {
		up, _, accept = zzSplitPath(under)
	}

	if which == 0 {
		zzAssume(under != "//")
		switch zzPick("under the host", 3) {
		case 1:
			zzAssume(under == "" || under[0] == '/')
			host = "h"
			under = "http://h" + under
		case 2:
			zzAssume(len(under) > 0 && under[0] == '/')
			under = "https://" + under
			t.secure = true
		}
	}

	if t.host != "" || len(prefix) > 0 {
		accept = accept && zzSameStrs(zzJoin(chain, up), prefix) &&
			(t.host == "" || t.host == host)
	}

	zzC07Placed(
		ro, at, r, &t, accept, host, zzJoin(chain, up),
		func() { at.RegisterResourceUnder(under, r) },
	)
}

// zzC07Placed registers the resource and asserts that it's where it must be.
func zzC07Placed(
	ro *Router, at zzRegistrar, r *Resource, t *zzURLT,
	accept bool, host string, prefix []string, register func(),
) {
	var count = func() int {
		if ro == nil {
			return zzCount(at.(*Resource).ChildResources())
		}

		var n = len(ro.Hosts())
		for _, h := range ro.Hosts() {
			n += zzCount(h.ChildResources())
		}

		if root := ro.RegisteredResource("/"); root != nil {
			n += zzCount(root.ChildResources())
		}

		return n
	}

	var before = count()
	zzAssert(accept != zzPanics(register), "a resource was accepted or rejected wrongly")
	if !accept {
		zzAssert(r.Parent() == nil && r.Router() == nil, "a rejected resource has a parent")
		zzAssert(count() == before, "a rejected resource changed the tree")
		return
	}

	var got = r
	zzAssert(got.Router() == ro, "the resource is in another router")
	zzAssert(got.IsSecure() == t.secure, "the security differs from the scheme")
	zzAssert(got.HasTrailingSlash() == t.slash, "the trailing slash differs")
	if host == "" {
		zzAssert(got.Host() == nil, "the resource has a host")
	} else {
		zzAssert(
			got.Host() != nil && got.Host().Template().UnescapedContent() == host,
			"the resource has another host",
		)
	}

	zzAssert(
		zzSameStrs(zzChain(got), append(zzJoin(nil, prefix), t.segs[len(t.segs)-1])),
		"the path differs",
	)
}

// ZZ_C07_RegisterNames: a resource whose URL template has one of seven hosts or none and
// up to one of ten segments is registered at one of five hosts, or at one of
// five resources of it, that are static or have patterns or wildcards and names.
// It's placed there only if the written host and segment are exactly those, names
// and value names included.
func ZZ_C07_RegisterNames() {
	var hosts = []string{"h", "$n:h", "{s:a+}", "$n:{s:a+}", "{s}.h", "$o:h", "{t:a+}"}
	var segs = []string{"a", "$m:a", "{x}", "{y:b+}", "$m:{y:b+}", "$k:a", "{z}", "$m:{x}", "{z:b+}", "{x}a"}
	var ro = NewRouter()
	var host = hosts[zzPick("host", 5)]
	var h = ro.Host("http://" + host)
	var at zzRegistrar = h
	var parent *Resource
	var seg string
	if zzPick("below", 2) == 1 {
		seg = segs[zzPick("segment", 5)]
		parent = h.Resource(seg)
		at = parent
	}

	var u = "https://"
	var written, under string
	if i := zzPick("written host", len(hosts)+1); i > 0 {
		written = hosts[i-1]
	}

	u += written
	if i := zzPick("written segment", len(segs)+1); i > 0 {
		under = segs[i-1]
		u += "/" + under
	}

	var r = NewDormantResource(u + "/c")
	var ok bool
	if zzPick("under", 2) == 0 {
		ok = !zzPanics(func() { at.RegisterResource(r) })
	} else {
		ok = !zzPanics(func() { at.RegisterResourceUnder("", r) })
		if parent == nil && under != "" {
			zzAssert(!ok, "a resource was placed elsewhere than written")
			return
		}
	}

	// Without a host and a segment before it, it's placed anywhere.
	var want = written == "" && under == "" ||
		(written == "" || written == host) && (parent == nil || under == seg)
	if want {
		zzAssert(ok, "a resource was rejected at the place that is written")
		zzAssert(r.Host() == h, "it has another host")
		if parent != nil {
			zzAssert(r.Parent() == parent, "it has another parent")
		} else if under != "" {
			zzAssert(
				r.Parent().Template().SimilarityWith(Parse(under)) == TheSame && r.Parent().Parent() == nil,
				"it is below another segment",
			)
		} else {
			zzAssert(r.Parent() == nil, "it has a parent")
		}

		return
	}

	zzAssert(!ok, "a resource was placed elsewhere than written")
	zzAssert(r.Router() == nil && r.Parent() == nil && r.Host() == nil, "a rejected resource is in the tree")
	zzAssert(len(ro.Hosts()) == 1, "there is another host")
	if parent != nil {
		zzAssert(!parent.HasAnyChildResources() && len(h.ChildResources()) == 1, "there are other resources")
	} else {
		zzAssert(!h.HasAnyChildResources(), "there are resources")
	}
}
