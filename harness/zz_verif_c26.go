//zz:use flags
//zz:use policy
//zz:use via
//zz:use lib

package nanomux

// ZZ_C26_Create: a root resource, a resource, a host or a host's resource is
// made in one of the ten ways from a URL template with any scheme and trailing
// slash and any configuration.
func ZZ_C26_Create() {
	var i = zzPick("what", 4)
	var root, host = i == 0, i == 2
	var secure, slash = zzPick("https", 2) == 1, false
	var u = []string{"/", "/a", "", "/a"}[i]
	if !root && zzPick("slash", 2) == 1 {
		slash = true
		u += "/"
	}

	var rel, h = "https://" + u, ""
	if i > 1 {
		h = "h"
	}

	if secure {
		u = "https://" + h + u
	} else {
		u, rel = "http://"+h+u, "http://"+rel[8:]
	}

	var way = zzPick("way", 10)
	var c Config
	var using = way != 0 && way != 2 && way != 4 && way != 6
	if using {
		c = zzSymConfig(true)
	}

	// Below its parent.
	var parent zzAt
	var ro = NewRouter()
	if way > 5 {
		zzAssume(i == 1 || i == 3)
		if i == 1 {
			parent = ro.Resource("/")
		} else {
			parent = ro.Host("h")
		}
	}

	var r zzFlagged
	var ok = !zzPanics(func() {
		switch way {
		case 0:
			if host {
				r = NewDormantHost(u)
			} else {
				r = NewDormantResource(u)
			}
		case 1:
			if host {
				r = NewDormantHostUsingConfig(u, c)
			} else {
				r = NewDormantResourceUsingConfig(u, c)
			}
		case 2:
			if host {
				r = NewHost(u, zzImplNothing{})
			} else {
				r = NewResource(u, zzImplNothing{})
			}
		case 3:
			if host {
				r = NewHostUsingConfig(u, zzImplNothing{}, c)
			} else {
				r = NewResourceUsingConfig(u, zzImplNothing{}, c)
			}
		case 4:
			if host {
				r = ro.Host(u)
			} else {
				r = ro.Resource(u)
			}
		case 5:
			if host {
				r = ro.HostUsingConfig(u, c)
			} else {
				r = ro.ResourceUsingConfig(u, c)
			}
		case 6:
			r = parent.(zzResponder).Resource(rel)
		case 7:
			r = parent.(interface {
				ResourceUsingConfig(string, Config) *Resource
			}).ResourceUsingConfig(rel, c)
		case 8:
			parent.SetConfigurationAt(rel, c)
		case 9:
			ro.SetConfigurationAt(u, c)
		}
	})

	if using && c.RedirectsInsecureRequest && !secure {
		zzAssert(!ok, "a URL template without https was accepted with redirecting to https")
		return
	}

	zzAssert(ok, "a configuration was rejected")
	if way >= 8 {
		switch {
		case host:
			r = ro.Hosts()[0]
		case i == 3:
			r = ro.Hosts()[0].ChildResources()[0]
		case root:
			r = zzRootOf26(ro, secure || c.Secure)
		default:
			r = zzRootOf26(ro, false).ChildResources()[0]
		}
	}

	var want zzFlags
	if using {
		if way < 5 {
			// The constructors ignore them.
			c.Secure, c.HasTrailingSlash = false, false
		}

		want = zzFlagsFor(c, root)
	}

	want.secure = zzOr(want.secure, secure)
	want.slash = zzOr(want.slash, slash)
	want.of(r)
}

type zzImplNothing struct{}

// zzRootOf26 returns the root resource.
func zzRootOf26(ro *Router, secure bool) *Resource {
	if secure {
		return ro.RegisteredResource("https:///")
	}

	return ro.RegisteredResource("/")
}

// ZZ_C26_Set: a root resource, a resource or a host with any scheme and trailing
// slash is configured twice, by its own method, its parent's or its router's. The second configuration
// is any, the first any that is not strict or lenient in one way (any when
// thorough). It's read in the three ways.
func ZZ_C26_Set() {
	var i = []int{0, 1, 3}[zzPick("subject", 3)]
	var both = zzPick("https, slash", 2) == 1
	var p = zzPolicyOf(i, both, both)
	var n = p.n
	var root = i == 0
	var want zzFlags
	want.secure, want.slash = both, both && !root
	for k := 0; k < 2; k++ {
		var c = zzSymConfig(k > 0 || zzTier() > 0)
		var f = zzFlagsFor(c, root)
		// The URL template must have the properties.
		var via = 0
		if k > 0 {
			via = zzPick("via", zzVias)
		}

		n.setConfig(p.t.ro, via, c)
		want = want.set(f)
	}

	want.of(n.real().(zzFlagged))
	want.is(n.config(p.t.ro, 1))
	want.is(n.config(p.t.ro, 2))

	// The others have theirs.
	var other = p.t.root
	if root {
		other = n.kids[0]
	}

	zzFlags{}.of(other.real().(zzFlagged))
}

// ZZ_C26_Again: a resource or a host is configured twice in any way with any
// settings of all but the scheme and the trailing slash.
func ZZ_C26_Again() {
	var i = []int{1, 3}[zzPick("subject", 2)]
	var p = zzPolicyOf(i, false, false)
	var want zzFlags
	for k := 0; k < 2; k++ {
		var c Config
		c.StrictOnTrailingSlash = zzBool("strict")
		c.LenientOnTrailingSlash = zzBool("lenient slash")
		c.LenientOnUncleanPath = zzBool("lenient path")
		c.SubtreeHandler = zzBool("subtree")
		c.HandlesThePathAsIs = zzBool("as is")
		p.n.setConfig(p.t.ro, zzPick("via", zzVias), c)
		want = want.set(zzFlagsFor(c, false))
	}

	want.of(p.n.real().(zzFlagged))
}

// ZZ_C26_Ask: a resource or a host that has any configuration (not strict or
// lenient in one way when quick) is asked for with any scheme, trailing slash
// and any configuration, through the router or its parent, or is configured
// through a URL template.
func ZZ_C26_Ask() {
	var i = []int{1, 3}[zzPick("subject", 2)]
	var p = zzPolicyOf(i, false, false)
	var n = p.n
	var c = zzSymConfig(zzTier() > 0)
	var want = zzFlagsFor(c, false)
	n.configure(c)
	var d = zzSymConfig(true)
	var asked = zzFlagsFor(d, false)
	var secure, slash = zzPick("https", 2) == 1, zzPick("slash", 2) == 1
	var rel = "/a"
	var host = ""
	if i == 3 {
		rel, host = "", "h"
	}

	if slash {
		rel += "/"
	}

	var abs = "http://" + host + rel
	if secure {
		abs = "https://" + host + rel
	}

	var ro = p.t.ro
	var ok bool
	var way = zzPick("way", 3)
	var flags = zzAnd(want.secure == secure, zzOr(want.laxSlash, want.slash == slash))
	switch way {
	case 0:
		ok = !zzPanics(func() {
			if i == 3 {
				ro.HostUsingConfig(abs, d)
			} else {
				ro.ResourceUsingConfig(abs, d)
			}
		})

		zzAssert(
			ok == zzAnd(zzAnd(flags, zzOr(!d.RedirectsInsecureRequest, secure)), want.has(asked)),
			"a conflicting configuration was accepted or another rejected",
		)
	case 1:
		zzAssume(i == 1)
		if secure {
			rel = "https://" + rel
		}

		ok = !zzPanics(func() { p.t.root.res.ResourceUsingConfig(rel, d) })
		zzAssert(
			ok == zzAnd(zzAnd(flags, zzOr(!d.RedirectsInsecureRequest, secure)), want.has(asked)),
			"a conflicting configuration was accepted or another rejected",
		)
	case 2:
		ok = !zzPanics(func() { ro.SetConfigurationAt(abs, d) })
		zzAssert(ok == flags, "a conflicting URL template was accepted or another rejected")
		if ok {
			want = want.set(asked)
		}
	}

	want.of(n.real().(zzFlagged))
}

// ZZ_C26_OnTheWay: a resource or a host that was only made on the way to another
// one is asked for with any scheme, trailing slash and any configuration, through
// the router, its parent or a URL template. That's accepted and is what it has.
// Or it's configured with any settings before that (not strict or lenient in one
// way when quick) and then only what doesn't conflict with them is accepted.
func ZZ_C26_OnTheWay() {
	var ro = NewRouter()
	var host = ""
	var rel = "/a"
	var r, parent zzResponder
	if zzPick("subject", 2) == 0 {
		var b = ro.Resource("/a/b")
		r = b.Parent()
		parent = ro.RegisteredResource("/")
	} else {
		host, rel = "h", ""
		ro.Resource("http://h/b")
		r = ro.Hosts()[0]
	}

	zzFlags{}.of(r.(zzFlagged))
	var configured = zzPick("configured", 2) == 1
	var want zzFlags
	if configured {
		var c = zzSymConfig(zzTier() > 0)
		want = zzFlagsFor(c, false)
		r.SetConfiguration(c)
		want.of(r.(zzFlagged))
	}

	var d = zzSymConfig(true)
	var asked = zzFlagsFor(d, false)
	var secure, slash = zzPick("https", 2) == 1, zzPick("slash", 2) == 1
	if slash {
		rel += "/"
	}

	var abs = "http://" + host + rel
	if secure {
		abs = "https://" + host + rel
	}

	var ok = !zzPanics(func() {
		switch {
		case host != "":
			zzAssert(ro.HostUsingConfig(abs, d) == r, "another host was made")
		case zzPick("via", 2) == 0:
			zzAssert(ro.ResourceUsingConfig(abs, d) == r, "another resource was made")
		default:
			if secure {
				rel = "https://" + rel
			}

			var a = parent.(interface {
				ResourceUsingConfig(string, Config) *Resource
			}).ResourceUsingConfig(rel, d)
			zzAssert(a == r, "another resource was made")
		}
	})

	if !configured {
		zzAssert(
			ok == zzOr(!d.RedirectsInsecureRequest, secure),
			"a configuration was rejected or a redirecting one accepted without https",
		)

		if ok {
			asked.secure = zzOr(asked.secure, secure)
			asked.slash = zzOr(asked.slash, slash)
			asked.of(r.(zzFlagged))
		}

		return
	}

	var flags = zzAnd(want.secure == secure, zzOr(want.laxSlash, want.slash == slash))
	zzAssert(
		ok == zzAnd(zzAnd(flags, zzOr(!d.RedirectsInsecureRequest, secure)), want.has(asked)),
		"a conflicting configuration was accepted or another rejected",
	)

	want.of(r.(zzFlagged))
}

// ZZ_C26_SlashText: a resource that isn't registered and whose text is a slash isn't
// a root resource. It's made in one of two ways from a URL template with an escaped
// slash, with or without a name, and then configured.
func ZZ_C26_SlashText() {
	var u = []string{"/%2F", "/$n:%2f", "/%2F/"}[zzPick("template", 3)]
	var want zzFlags
	var r *Resource
	if zzPick("using", 2) == 1 {
		var c = zzSymConfig(true)
		c.Secure, c.RedirectsInsecureRequest, c.HasTrailingSlash = false, false, false
		r = NewDormantResourceUsingConfig(u, c)
		want = zzFlagsFor(c, false)
	} else {
		r = NewDormantResource(u)
	}

	want.slash = u[len(u)-1] == '/'
	want.of(r)
	var c = zzSymConfig(true)
	r.SetConfiguration(c)
	want.set(zzFlagsFor(c, false)).of(r)
}

// ZZ_C26_Registered: a resource with any configuration (not strict or lenient in
// one way when quick), from a URL template or a path, is registered below a
// router, a host, a root or a resource, under a prefix with any scheme or none,
// where there is nothing, a resource made on the way or a similar one with
// handlers or a name. It keeps its flags and becomes secure only if it's
// registered under a prefix of https; a rejected one keeps exactly what it had.
func ZZ_C26_Registered() {
	var ro = NewRouter()
	ro.Host("http://h").SetHandlerFor("GET", zzHandler("h"))
	ro.Resource("/").SetHandlerFor("GET", zzHandler("root"))
	var c = zzSymConfig(zzTier() > 0)
	c.Secure, c.HasTrailingSlash = false, false
	var way = zzPick("way", 4)
	var host, under = "", []string{"", "/u"}[zzPick("under", 2)]
	if zzPick("host", 2) == 1 {
		host = "h"
	}

	var https = zzPick("https", 2) == 1
	var prefix = under
	if host != "" || https {
		prefix = "http://" + host + under
		if https {
			prefix = "https://" + host + under
		}
	}

	// The router's method takes no prefix that's only a scheme.
	zzAssume(way > 0 || prefix != "https://")
	var there = zzPick("there", 5)
	var path = "http://" + host + under + "/a"
	switch there {
	case 1:
		ro.Resource(path + "/b")
	case 2:
		ro.Resource(path).SetHandlerFor("GET", zzHandler("there"))
	case 3:
		ro.Resource("http://" + host + under + "/$n:a")
	case 4:
		ro.Resource("https://" + host + under + "/a")
	}

	var r *Resource
	var redirects = c.RedirectsInsecureRequest
	var url = "a"
	var own = zzPick("own https", 2) == 1
	zzAssume(zzOr(!redirects, own))
	if own {
		url = "https://" + host + under + "/a"
	}

	r = NewDormantResourceUsingConfig(url, c)
	var want = zzFlagsFor(c, false)
	want.secure = zzOr(want.secure, own)
	if zzPick("handles", 2) == 1 {
		r.SetHandlerFor("GET", zzHandler("new"))
	}

	want.of(r)
	var ok = !zzPanics(func() {
		switch way {
		case 0:
			ro.RegisterResourceUnder(prefix, r)
		case 1:
			ro.RegisterResource(r)
		case 2:
			zzUnder26(ro, host).RegisterResourceUnder(under, r)
		case 3:
			zzUnder26(ro, host).RegisterResource(r)
		}
	})

	if ok {
		zzCover("registered")
		if way == 0 && https {
			want.secure = true
		}
	} else {
		zzCover("rejected")
	}

	want.of(r)
}

func zzUnder26(ro *Router, host string) interface {
	RegisterResource(*Resource)
	RegisterResourceUnder(string, *Resource)
} {
	if host != "" {
		return ro.Hosts()[0]
	}

	return ro.RegisteredResource("/")
}
