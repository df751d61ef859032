package nanomux

// The consistency of a registration tree, seen through the public API.

// zzKeeper is a host or a resource seen as a parent.
type zzKeeper interface {
	Name() string
	Template() *Template
	Router() *Router
	ChildResources() []*Resource
	ChildResourceNamed(name string) *Resource
	HasChildResource(r *Resource) bool
	HasAnyChildResources() bool
}

// zzTreeOK asserts that the tree of the router is consistent. It returns the
// number of hosts and resources, without the root.
func zzTreeOK(ro *Router) int {
	var hosts = ro.Hosts()
	var n = len(hosts)
	zzAssert(ro.HasAnyHost() == (n > 0), "HasAnyHost disagrees with Hosts")
	for i, h := range hosts {
		zzAssert(h.Router() == ro, "a host's parent isn't its router")
		zzAssert(ro.HasHost(h), "a host isn't listed")
		for _, o := range hosts[:i] {
			zzApart(h.Template(), o.Template(), "hosts")
		}

		if h.Name() != "" {
			zzAssert(ro.HostNamed(h.Name()) == h, "a host isn't found by its name")
		}

		n += zzBelowOK(
			ro, h, nil, h, []string{h.Name()}, h.Template().ValueNames(),
		)
	}

	if root := zzRootOf(ro); root != nil {
		zzAssert(root.Parent() == nil && root.Host() == nil, "the root has a parent")
		zzAssert(root.Router() == ro, "the root's parent isn't its router")
		n += zzBelowOK(ro, nil, root, root, []string{root.Name()}, nil)
	}

	return n
}

func zzApart(a, b *Template, what string) {
	zzAssert(
		a.SimilarityWith(b) == Different && b.SimilarityWith(a) == Different,
		"two "+what+" have the same template",
	)

	zzAssert(a.Name() == "" || a.Name() != b.Name(), "two "+what+" have the same name")
}

func zzBelowOK(
	ro *Router, host *Host, parent *Resource, k zzKeeper,
	names, values []string,
) int {
	var rs = k.ChildResources()
	var n = len(rs)
	zzAssert(k.HasAnyChildResources() == (n > 0), "HasAnyChildResources disagrees")
	for i, r := range rs {
		zzAssert(r.Parent() == parent, "a resource's parent isn't the one that lists it")
		zzAssert(r.Host() == host, "a resource has another host")
		zzAssert(r.Router() == ro, "a resource has another router")
		zzAssert(k.HasChildResource(r), "a resource isn't listed by its parent")
		for _, o := range rs[:i] {
			zzApart(r.Template(), o.Template(), "siblings")
		}

		if r.Name() != "" {
			zzAssert(
				k.ChildResourceNamed(r.Name()) == r,
				"a resource isn't found by its name",
			)

			for _, name := range names {
				zzAssert(r.Name() != name, "a name repeats along a URL")
			}
		}

		var vs = r.Template().ValueNames()
		for _, v := range vs {
			for _, value := range values {
				zzAssert(v != value, "a value name repeats along a URL")
			}
		}

		n += zzBelowOK(
			ro, host, r, r,
			append(append([]string(nil), names...), r.Name()),
			append(append([]string(nil), values...), vs...),
		)
	}

	return n
}

// zzWalk returns the resource at the segments below, or nil.
func zzWalk(k zzKeeper, segs []string) *Resource {
	var at *Resource
	for _, s := range segs {
		var t = Parse(s)
		var next *Resource
		for _, r := range k.ChildResources() {
			if r.Template().SimilarityWith(t) == TheSame {
				next = r
			}
		}

		if next == nil {
			return nil
		}

		at, k = next, next
	}

	return at
}

// zzTop is the host with the template or the root.
func zzTop(ro *Router, host string) zzKeeper {
	if host == "" {
		if root := zzRootOf(ro); root != nil {
			return root
		}

		return nil
	}

	var t = Parse(host)
	for _, h := range ro.Hosts() {
		if h.Template().SimilarityWith(t) == TheSame {
			return h
		}
	}

	return nil
}

// zzFind returns the resource below the host or the root.
func zzFind(ro *Router, host string, segs []string) *Resource {
	if top := zzTop(ro, host); top != nil {
		return zzWalk(top, segs)
	}

	return nil
}

// zzRootOf returns the root resource or nil.
func zzRootOf(ro *Router) (root *Resource) {
	if zzPanics(func() { root = ro.RegisteredResource("/") }) {
		root = ro.RegisteredResource("https:///")
	}

	return root
}
