//zz:use lib
//zz:use tree

package nanomux

import "net/http"

// zzAnswer is the number of the handler called last.
var zzAnswer int

func zzNumbered(k int) Handler {
	return func(http.ResponseWriter, *http.Request, *Args) bool {
		zzAnswer = k
		return true
	}
}

// zzNumberOf is the number of the responder's handler, or 0.
func zzNumberOf(r interface{ HandlerOf(string) Handler }) int {
	var h = r.HandlerOf("GET")
	if h == nil {
		return 0
	}

	zzAnswer = -1
	h(nil, nil, nil)
	return zzAnswer
}

// zzImplNumbered is an implementation with a handler.
type zzImplNumbered struct{ k int }

func (i *zzImplNumbered) HandleGet(http.ResponseWriter, *http.Request, *Args) bool {
	zzAnswer = i.k
	return true
}

// zzC23Seg is one of the path segment templates: static, a wildcard, named,
// named with another text or a pattern. The name and the value name are any of
// the names.
func zzC23Seg(kinds int, names string) string {
	switch zzPick("segment", kinds) {
	case 1:
		return "{" + zzStrIn("value", names, 1, 1) + "}"
	case 2:
		return "$" + zzStrIn("name", names, 1, 1) + ":a"
	case 3:
		return "$" + zzStrIn("name", names, 1, 1) + ":b"
	case 4:
		return "{" + zzStrIn("value", names, 1, 1) + ":a+}"
	}

	return "a"
}

// zzC23Op does one registration at the segments. It reports whether it was
// accepted and the resource that must be there, if it's known.
func zzC23Op(ro *Router, way, k int, host string, segs []string) (ok bool, r *Resource, handler bool) {
	var top, prefix = "", "/"
	if host != "" {
		top = "http://" + host
	}

	for _, s := range segs[:len(segs)-1] {
		prefix += s + "/"
	}

	var last = segs[len(segs)-1]
	var u = top + prefix + last
	ok = !zzPanics(func() {
		switch way {
		case 0:
			r = ro.Resource(u)
		case 1:
			ro.RegisterResource(NewDormantResource(u))
		case 2:
			handler = true
			r = NewResource(u, &zzImplNumbered{k})
			ro.RegisterResource(r)
		case 3:
			handler = true
			ro.SetURLHandlerFor("GET", u, zzNumbered(k))
		case 4:
			handler = true
			r = NewDormantResource(last)
			r.SetHandlerFor("GET", zzNumbered(k))
			ro.RegisterResourceUnder(top+prefix, r)
		case 5:
			var at = ro.Host
			if host != "" {
				r = at("http://" + host).Resource(prefix[1:] + last)
			} else {
				r = ro.Resource("/").Resource(prefix[1:] + last)
			}
		case 6:
			handler = true
			r = NewDormantResource(last)
			r.SetHandlerFor("GET", zzNumbered(k))
			if len(segs) > 1 {
				ro.Resource(top + prefix[:len(prefix)-1]).RegisterResource(r)
			} else if host != "" {
				ro.Host(top).RegisterResource(r)
			} else {
				ro.Resource("/").RegisterResource(r)
			}
		}
	})

	return ok, r, handler
}

type zzC23Entry struct {
	host string
	segs []string
	r    *Resource
	k    int
}

// zzC23Run does n registrations, the first in one of the firstWays, the other in
// one of the ways.
func zzC23Run(n, depth int, firstWays, ways []int, hosts []string) {
	var ro = NewRouter()
	var entries []*zzC23Entry
	for k := 1; k <= n; k++ {
		// The first of two names is x as good as y.
		var names, ws = "x", firstWays
		if k > 1 {
			names, ws = "xy", ways
		}

		var host = hosts[zzPick("host", len(hosts))]
		var segs []string
		if depth > 1 && zzPick("depth", 2) == 1 {
			segs = append(segs, zzC23Seg(3+2*zzTier(), names))
			if zzTier() > 0 {
				names = "xy"
			}
		}

		segs = append(segs, zzC23Seg(5, names))
		var ok, r, handler = zzC23Op(ro, ws[zzPick("way", len(ws))], k, host, segs)
		if !ok {
			continue
		}

		var at = zzFind(ro, host, segs)
		zzAssert(at != nil, "an accepted registration isn't in the tree")
		zzAssert(r == nil || r == at, "another resource is in the place of the registered one")
		var found bool
		for _, e := range entries {
			if zzFind(ro, e.host, e.segs) == at {
				found = true
				if handler {
					e.k = k
				}
			}
		}

		if !found {
			var e = &zzC23Entry{host: host, segs: segs}
			if handler {
				e.k = k
			}

			entries = append(entries, e)
		}
	}

	zzTreeOK(ro)
	for _, e := range entries {
		var at = zzFind(ro, e.host, e.segs)
		zzAssert(at != nil, "an earlier resource was lost")
		zzAssert(zzNumberOf(at) == e.k, "a resource has another's handler or lost its own")
	}
}

// ZZ_C23_Sequence: two registrations, the first in one of two ways, the second
// in any of seven, each at one or two segments below the root or a host. The
// segments are static, named, patterns or wildcards (the upper one is no pattern
// when quick) with any names out of two.
func ZZ_C23_Sequence() {
	zzC23Run(2, 2, []int{0, 2}, []int{0, 1, 2, 3, 4, 5, 6}, []string{"", "h"})
}

// ZZ_C23_Sequence3: three registrations in one of three ways, each at a segment
// below the root or a named pattern host.
func ZZ_C23_Sequence3() {
	zzC23Run(3, 1, []int{0, 2}, []int{0, 2, 3}, []string{"", "$x:{y:b}.h"})
}

// ZZ_C23_Sequence4 (thorough only): four registrations in one of two ways, each
// at a segment below a named pattern host.
func ZZ_C23_Sequence4() {
	zzC23Run(4, 1, []int{0, 2}, []int{0, 2}, []string{"$x:{y:b}.h"})
}

// zzC23Tree is a description of a resource and what is below it.
type zzC23Tree struct {
	seg  string
	k    int // handler's number, or 0
	subs []*zzC23Tree
}

func (t *zzC23Tree) build() *Resource {
	var r = NewDormantResource(t.seg)
	if t.k > 0 {
		r.SetHandlerFor("GET", zzNumbered(t.k))
	}

	for _, s := range t.subs {
		r.RegisterResource(s.build())
	}

	return r
}

// answers asserts that the handlers of the description are in the tree.
func (t *zzC23Tree) answers(k zzKeeper) {
	var r = zzWalk(k, []string{t.seg})
	zzAssert(r != nil, "a resource was lost")
	if t.k > 0 {
		zzAssert(zzNumberOf(r) == t.k, "a resource lost its handler")
	}

	for _, s := range t.subs {
		s.answers(r)
	}
}

// is asserts that the resource is what the description says, and nothing else.
func (t *zzC23Tree) is(r *Resource) {
	zzAssert(r.Template().SimilarityWith(Parse(t.seg)) == TheSame, "a resource has another template")
	zzAssert(zzNumberOf(r) == t.k, "a resource has another handler")
	zzAssert(len(r.ChildResources()) == len(t.subs), "resources were added or lost")
	for _, s := range t.subs {
		var c = zzWalk(r, []string{s.seg})
		zzAssert(c != nil && c.Parent() == r, "a resource was moved")
		s.is(c)
	}
}

// zzC23Sub describes a resource without resources below.
func zzC23Sub(k int, segs ...string) *zzC23Tree {
	var t = &zzC23Tree{seg: segs[zzPick("sub", len(segs))]}
	if zzPick("handler", 2) == 1 {
		t.k = k
	}

	return t
}

// ZZ_C23_Merge: a resource with two resources below, one with another below, is
// registered where there is such a one. Each may have a handler. They're
// registered at a router, a host or a resource, or are hosts or root resources
// themselves.
func ZZ_C23_Merge() {
	var a = &zzC23Tree{seg: "a", k: zzPick("handler", 2)}
	var b = &zzC23Tree{seg: "a", k: 10 * zzPick("handler", 2)}
	a.subs = append(a.subs, zzC23Sub(2, "s", "$n:s"), zzC23Sub(3, "{v:a}", "{w}"))
	b.subs = append(b.subs, zzC23Sub(20, "s", "$n:t"), zzC23Sub(30, "{v:a}", "{v}"))
	a.subs[1].subs = []*zzC23Tree{zzC23Sub(4, "u")}
	b.subs[1].subs = []*zzC23Tree{zzC23Sub(40, "u")}
	zzC23MergeAt(zzPick("way", 5), a, b)
}

// zzC23MergeAt registers what is described by a and then by b at the same place.
func zzC23MergeAt(way int, a, b *zzC23Tree) {
	var ro = NewRouter()
	var at zzKeeper
	var at2 zzRegistrar
	var rb *Resource
	var ok bool
	switch way {
	case 0:
		at = ro.Resource("/")
		at2 = ro
	case 1:
		var h = ro.Host("http://h")
		at, at2 = h, h
	case 2:
		var r = ro.Resource("http://h/r")
		at, at2 = r, r
	case 3:
		// Hosts.
		a.seg, b.seg = "", ""
		var ha, hb = NewDormantHost("h"), NewDormantHost("h")
		var hosts = []*Host{ha, hb}
		for i, t := range []*zzC23Tree{a, b} {
			if t.k > 0 {
				hosts[i].SetHandlerFor("GET", zzNumbered(t.k))
			}

			for _, s := range t.subs {
				hosts[i].RegisterResource(s.build())
			}
		}

		ro.RegisterHost(ha)
		ok = !zzPanics(func() { ro.RegisterHost(hb) })
		zzTreeOK(ro)
		var h = ro.Hosts()[0]
		if ok {
			zzC23Answers(a, h)
			zzC23Answers(b, h)
			return
		}

		zzAssert(h == ha, "a rejected host replaced another")
		zzAssert(hb.Router() == nil, "a rejected host has a router")
		zzC23Is(a, ha, ha, nil)
		zzC23Is(b, hb, hb, nil)
		return
	case 4:
		a.seg, b.seg = "/", "/"
		var ra = a.build()
		rb = b.build()
		ro.RegisterResource(ra)
		ok = !zzPanics(func() { ro.RegisterResource(rb) })
		zzTreeOK(ro)
		var r = ro.RegisteredResource("/")
		if ok {
			zzC23Answers(a, r)
			zzC23Answers(b, r)
			return
		}

		zzAssert(r == ra, "a rejected root replaced another")
		zzAssert(rb.Router() == nil, "a rejected root has a router")
		zzC23Is(a, ra, nil, ra)
		zzC23Is(b, rb, nil, rb)
		return
	}

	var ra = a.build()
	rb = b.build()
	at2.RegisterResource(ra)
	ok = !zzPanics(func() { at2.RegisterResource(rb) })
	zzTreeOK(ro)
	if ok {
		a.answers(at)
		b.answers(at)
		return
	}

	zzAssert(rb.Parent() == nil && rb.Router() == nil, "a rejected resource has a parent")
	zzAssert(len(at.ChildResources()) == 1 && at.HasChildResource(ra), "a rejected resource is in the tree")
	a.is(ra)
	b.is(rb)
}

// zzC23Answers is answers of a host or a root.
func zzC23Answers(t *zzC23Tree, k interface {
	zzKeeper
	HandlerOf(string) Handler
}) {
	if t.k > 0 {
		zzAssert(zzNumberOf(k) == t.k, "a host or a root lost its handler")
	}

	for _, s := range t.subs {
		s.answers(k)
	}
}

// zzC23Is is is of a host or a root.
func zzC23Is(t *zzC23Tree, k interface {
	zzKeeper
	HandlerOf(string) Handler
}, host *Host, parent *Resource) {
	zzAssert(zzNumberOf(k) == t.k, "a host or a root has another handler")
	zzAssert(len(k.ChildResources()) == len(t.subs), "resources were added or lost")
	for _, s := range t.subs {
		var c = zzWalk(k, []string{s.seg})
		zzAssert(c != nil && c.Parent() == parent && c.Host() == host, "a resource was moved")
		s.is(c)
	}
}

// ZZ_C23_Below: a resource is registered at itself or below itself, in one of
// two ways, with or without a resource of the same template being there.
func ZZ_C23_Below() {
	var depth = zzPick("depth", 3)
	var a = NewDormantResource("/a")
	var at = a
	for i := 0; i < depth; i++ {
		at = at.Resource("b")
	}

	if zzPick("same", 2) == 1 {
		at.Resource("a/b")
	}

	var n = zzCount(a.ChildResources())
	var ok = !zzPanics(func() {
		if zzPick("under", 2) == 1 {
			at.RegisterResourceUnder("c", a)
		} else {
			at.RegisterResource(a)
		}
	})

	zzAssert(!ok, "a resource was registered below itself")
	zzAssert(a.Parent() == nil, "a resource is below itself")
	zzAssert(zzCount(a.ChildResources()) == n, "resources were added or lost")
}

// ZZ_C23_HostNames: two hosts, static or with a pattern, with any names out of
// two, each made in one of eight ways.
func ZZ_C23_HostNames() {
	var ro = NewRouter()
	for i, names := range []string{"x", "xy"} {
		var t = "$" + zzStrIn("name", names, 1, 1) + []string{":h", ":{v:g}"}[zzPick("template", 2)]
		if i > 0 {
			t += "i"
		}

		var u = "http://" + t
		var way = zzPick("way", 8)
		var ok = !zzPanics(func() {
			switch way {
			case 0:
				ro.Host(t)
			case 1:
				ro.HostUsingConfig(t, Config{SubtreeHandler: true})
			case 2:
				ro.RegisterHost(NewDormantHost(t))
			case 3:
				ro.SetSharedDataAt(u, 1)
			case 4:
				ro.Resource(u + "/r")
			case 5:
				ro.ResourceUsingConfig(u+"/r", Config{SubtreeHandler: true})
			case 6:
				ro.RegisterResource(NewDormantResource(u + "/r"))
			case 7:
				ro.RegisterResourceUnder(u, NewDormantResource("r"))
			}
		})

		zzAssert(!ok || zzTop(ro, t) != nil, "an accepted host isn't there")
		zzAssert(ok || i > 0, "the first host was rejected")
		zzTreeOK(ro)
	}
}

// ZZ_C23_Values: two or three segments below the root or a host with two
// values, each with two values (a pattern and a wildcard or two patterns) that
// have any names out of four, and a name out of two or none, are registered at
// once or one by one in any of seven ways.
func ZZ_C23_Values() {
	var ro = NewRouter()
	var host = []string{"", "$m:{p:h}.{q:i}"}[zzPick("host", 2)]
	var names, values []string
	if host != "" {
		names, values = []string{"m"}, []string{"p", "q"}
		ro.Host("http://" + host)
	}

	var fits = true
	var segs []string
	var once = zzPick("once", 2) == 1
	var n = 2
	if once {
		n += zzTier()
	}

	for i := 0; i < n; i++ {
		var a, b = zzStrIn("value", "pqrs", 1, 1), zzStrIn("value", "pqrs", 1, 1)
		zzAssume(a != b)
		var s = "{" + a + ":x}{" + b + []string{"}", ":y}"}[zzPick("last", 2)]
		for _, v := range values {
			fits = zzAnd(fits, zzAnd(v != a, v != b))
		}

		values = append(values, a, b)
		if zzPick("named", 2) == 1 {
			var name = zzStrIn("name", "mn", 1, 1)
			for _, o := range names {
				fits = zzAnd(fits, o != name)
			}

			names = append(names, name)
			s = "$" + name + ":" + s
		}

		segs = append(segs, s)
	}

	var ok = true
	if !once {
		ok, _, _ = zzC23Op(ro, 0, 1, host, segs[:1])
	}

	if ok {
		ok, _, _ = zzC23Op(ro, zzPick("way", 7), 2, host, segs)
	}

	zzAssert(ok == fits, "names that repeat along a URL were accepted or others rejected")
	zzTreeOK(ro)
}

// ZZ_C23_Deep: three resources, one below the other, each static, a wildcard, named
// or a named wildcard (the upper two static or named when quick) with names out of
// two and with or without a handler, are registered in one of three ways below a named host or resource with
// a value, where there may be resources without handlers like them.
func ZZ_C23_Deep() {
	var ro = NewRouter()
	var up = []string{"http://$n:{v:h}", "/$n:{v:u}", "http://h/r/$n:{v:u}"}[zzPick("up", 3)]
	if zzPick("existing", 2) == 1 {
		ro.Resource(up + "/s/s/s/s")
	} else if up[0] == '/' || up[7] == 'h' {
		ro.Resource(up)
	} else {
		ro.Host(up)
	}

	var names, values = []string{"n"}, []string{"v"}
	var fits = true
	var chain []*Resource
	for i := 0; i < 3; i++ {
		var s = "s"
		var name, value string
		var kind = 2 * zzPick("named", 2)
		if zzTier() > 0 || i == 2 {
			kind += zzPick("value", 2)
		}

		if kind > 1 {
			name = zzStrIn("name", "nm", 1, 1)
			s = "$" + name + ":t"
			for k, o := range names {
				fits = zzAnd(fits, o != name)
				zzAssume(k == 0 || o != name)
			}

			names = append(names, name)
		}

		if kind%2 == 1 {
			value = zzStrIn("value", "vw", 1, 1)
			s = "{" + value + "}"
			for k, o := range values {
				fits = zzAnd(fits, o != value)
				zzAssume(k == 0 || o != value)
			}

			values = append(values, value)
			if kind == 3 {
				s = "$" + name + ":" + s
			}
		}

		var r = NewDormantResource(s)
		if zzPick("handler", 2) == 1 {
			r.SetHandlerFor("GET", zzNumbered(i+1))
		}

		chain = append(chain, r)
		if i > 0 {
			// It's registered below the others at once or before them.
			chain[i-1].RegisterResource(r)
		}
	}

	var ok = !zzPanics(func() {
		switch zzPick("way", 3) {
		case 0:
			ro.RegisterResourceUnder(up, chain[0])
		case 1:
			ro.Resource(up + "/x").RegisterResource(chain[0])
		case 2:
			if up[0] == '/' || up[7] == 'h' {
				ro.Resource(up).RegisterResource(chain[0])
			} else {
				ro.Host(up).RegisterResource(chain[0])
			}
		}
	})

	zzAssert(ok == fits, "names that repeat along a URL were accepted or others rejected")
	zzTreeOK(ro)
	if !ok {
		zzAssert(chain[0].Parent() == nil && chain[0].Router() == nil, "a rejected resource has a parent")
	}
}

// zzC23Subset describes any of three kinds of resources below, with or without
// handlers, and one below one of them.
func zzC23Subset(k int) (subs []*zzC23Tree) {
	var n = zzPick("subset", 8)
	for i, seg := range []string{"s", "{v:a}", "{w}"} {
		if n>>uint(i)&1 == 0 {
			continue
		}

		var t = &zzC23Tree{seg: seg}
		if i == 2 || zzPick("handler", 2) == 1 {
			t.k = k + i
		}

		if i == 1 && zzPick("below", 2) == 1 {
			t.subs = []*zzC23Tree{{seg: "{u:b}", k: k + 5}, {seg: "{x}"}}
		}

		subs = append(subs, t)
	}

	return
}

// ZZ_C23_Subsets: the same with any of three kinds of resources below each of the
// two, some with handlers, and with two resources below the one with a pattern.
func ZZ_C23_Subsets() {
	var a = &zzC23Tree{seg: "a", k: zzPick("handler", 2)}
	var b = &zzC23Tree{seg: "a", k: 10 * zzPick("handler", 2)}
	a.subs, b.subs = zzC23Subset(20), zzC23Subset(30)
	zzC23MergeAt([]int{0, 3, 4, 1, 2}[zzPick("way", 3+2*zzTier())], a, b)
}

// ZZ_C23_Listed: a root, a host and resources below them, which are static, have
// patterns, are wildcards or are like others elsewhere in the tree, registered
// or not. Each lists exactly those whose parent it is, and the router exactly the
// hosts registered.
func ZZ_C23_Listed() {
	var ro = NewRouter()
	var segs = []string{"a", "{x:b+}", "{y}", "$n:c"}
	var root = ro.Resource("/")
	var host, other = ro.Host("http://h"), ro.Host("http://$k:{v:g}.h")
	var keepers = []zzKeeper{root, host, other}
	var parents = []zzKeeper{nil, nil, nil}
	var rs []*Resource
	for i := 0; i < 3; i++ {
		var at = keepers[zzPick("at", len(keepers))]
		var seg = segs[zzPick("segment", len(segs))]
		var r = NewDormantResource(seg)
		var there = zzWalk(at, []string{seg})
		if zzPick("registered", 2) == 1 {
			if zzPanics(func() { at.(zzRegistrar).RegisterResource(r) }) {
				zzAssert(at.(*Resource) != nil, "a resource was rejected below a host or a root")
			} else if there == nil {
				rs, keepers, parents = append(rs, r), append(keepers, r), append(parents, at)
				continue
			}
		}

		// It's not registered or was merged.
		rs, keepers, parents = append(rs, r), append(keepers, r), append(parents, nil)
	}

	for _, k := range keepers {
		var n int
		for j, r := range keepers {
			var r, ok = r.(*Resource)
			if !ok {
				continue
			}

			var child = parents[j] == k
			zzAssert(k.HasChildResource(r) == child, "HasChildResource differs")
			if child {
				n++
			}

			var listed bool
			for _, l := range k.ChildResources() {
				listed = listed || l == r
			}

			zzAssert(listed == child, "ChildResources differs")
		}

		zzAssert(len(k.ChildResources()) == n, "other resources are listed")
		zzAssert(k.HasAnyChildResources() == (n > 0), "HasAnyChildResources differs")
		zzAssert(!k.HasChildResource(nil), "there is nil")
		for _, name := range []string{"a", "n", "x", "y", "k", ""} {
			var want *Resource
			for j, r := range keepers {
				if r, ok := r.(*Resource); ok && parents[j] == k && name != "" && r.Name() == name {
					want = r
				}
			}

			zzAssert(k.ChildResourceNamed(name) == want, "ChildResourceNamed differs")
		}
	}

	for _, h := range []*Host{NewDormantHost("h"), NewDormantHost("$k:{v:g}.h"), nil} {
		zzAssert(!ro.HasHost(h), "a host is listed that isn't registered")
	}

	zzAssert(ro.HasHost(host) && ro.HasHost(other), "a host isn't listed")
	zzAssert(ro.HostNamed("k") == other && ro.HostNamed("h") == nil && ro.HostNamed("") == nil, "HostNamed differs")
}
