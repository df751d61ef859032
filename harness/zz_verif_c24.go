//zz:use lib
//zz:use tree

package nanomux

// zzModel is a node of the reference tree: the router (with hosts below, and the root
// apart), a host or a resource.
type zzModel struct {
	tmpl   zzModelTmpl
	up     *zzModel
	subs   []*zzModel
	active bool
	secure bool
	slash  bool
	sub    bool
	lax    bool
	redir  bool
	obj    interface{}
}

// zzModelTmpl is a template: static (0), a wildcard (1) or a pattern (2).
type zzModelTmpl struct {
	kind  int
	text  string // the static text or the pattern
	name  string
	value string
	str   string
}

// zzModelCall is what a call asks for.
type zzModelCall struct {
	secure, slash    bool
	config           bool
	sub, lax, redir  bool
	create, nameOnly bool
}

// child returns the node below with the template and whether there is one that
// differs only in the names.
func (m *zzModel) child(t *zzModelTmpl) (*zzModel, bool) {
	for _, s := range m.subs {
		if s.tmpl.kind != t.kind || s.tmpl.text != t.text {
			continue
		}

		if s.tmpl.name != t.name || s.tmpl.value != t.value {
			return nil, true
		}

		return s, false
	}

	return nil, false
}

// fits reports whether the names don't repeat in the URL or among the siblings.
func (m *zzModel) fits(t *zzModelTmpl) bool {
	for p := m; p != nil; p = p.up {
		if t.name != "" && p.tmpl.name == t.name ||
			t.value != "" && p.tmpl.value == t.value {
			return false
		}
	}

	for _, s := range m.subs {
		if t.name != "" && s.tmpl.name == t.name {
			return false
		}
	}

	return true
}

// ask finds or makes the node at the templates below. It returns nil and true when there
// is nothing to be found.
func (m *zzModel) ask(ts []*zzModelTmpl, c *zzModelCall) (n *zzModel, ok bool) {
	if c.config && c.redir && !c.secure {
		return nil, false
	}

	n = m
	var made *zzModel
	for _, t := range ts {
		var s, conflict = n.child(t)
		if conflict {
			return nil, false
		}

		if s == nil {
			if !c.create {
				return nil, true
			}

			if !n.fits(t) {
				return nil, false
			}

			s = &zzModel{tmpl: *t, up: n}
			if made == nil {
				made = s
			} else {
				n.subs = append(n.subs, s)
			}
		}

		n = s
	}

	if made != nil {
		made.up.subs = append(made.up.subs, made)
	}

	return n, n.compatible(c)
}

func (n *zzModel) compatible(c *zzModelCall) bool {
	if !n.active {
		n.active = true
		n.secure, n.slash = n.secure || c.secure, n.slash || c.slash
		if c.config {
			n.sub, n.lax, n.redir = n.sub || c.sub, n.lax || c.lax, n.redir || c.redir
		}

		return true
	}

	if n.secure != c.secure || !n.lax && n.slash != c.slash {
		return false
	}

	return !c.config || (!c.sub || n.sub) && (!c.lax || n.lax) && (!c.redir || n.redir)
}

func (n *zzModel) count() int {
	var k int
	for _, s := range n.subs {
		k += 1 + s.count()
	}

	return k
}

// is asserts that the object is always the same for the node.
func (n *zzModel) is(obj interface{}) {
	if n.obj == nil {
		n.obj = obj
	}

	zzAssert(n.obj == obj, "another host or resource was returned")
}

// zzModelSeg is any of the templates with any of the names.
func zzModelSeg(kinds int, names string) *zzModelTmpl {
	var t = &zzModelTmpl{}
	switch zzPick("template", kinds) {
	case 0:
		t.text, t.str = "a", "a"
	case 1:
		t.kind, t.value = 1, zzStrIn("value", names, 1, 1)
		t.name, t.str = t.value, "{"+t.value+"}"
	case 2:
		t.text, t.name = "a", zzStrIn("name", names, 1, 1)
		t.str = "$" + t.name + ":a"
	case 3:
		t.kind, t.text, t.value = 2, "b+", zzStrIn("value", names, 1, 1)
		t.name, t.str = t.value, "{"+t.value+":b+}"
	case 4:
		t.text, t.name = "b", zzStrIn("name", names, 1, 1)
		t.str = "$" + t.name + ":b"
	case 5:
		t.kind, t.value, t.name = 1, zzStrIn("value", names, 1, 1), "z"
		t.str = "$z:{" + t.value + "}"
	case 6:
		t.kind, t.text, t.value, t.name = 2, "b+", zzStrIn("value", names, 1, 1), "z"
		t.str = "$z:{" + t.value + ":b+}"
	}

	return t
}

// zzAsker is a host or a resource as the one that is asked.
type zzAsker interface {
	Resource(string) *Resource
	ResourceUsingConfig(string, Config) *Resource
	RegisteredResource(string) *Resource
	SetSharedDataAt(string, interface{})
}

// zzAskTemplates asks for resources n times.
func zzAskTemplates(n, depth, kinds int, ways []int) {
	var ro = NewRouter()
	var top = &zzModel{}
	var asker zzAsker
	var abs string
	if zzPick("host", 2) == 1 {
		asker, abs = ro.Host("$x:{y:b}.h"), "http://$x:{y:b}.h"
		top.tmpl = zzModelTmpl{name: "x", value: "y"}
	} else {
		asker = ro.Resource("/")
	}

	for i := 0; i < n; i++ {
		var names, ws = "xy", ways
		if i == 0 {
			// The first call makes a resource.
			ws = []int{0, 4}
		}

		var ts []*zzModelTmpl
		var path string
		for k, l := 0, 1+zzPick("depth", depth); k < l; k++ {
			ts = append(ts, zzModelSeg(kinds, names))
			path += "/" + ts[k].str
		}

		var way = ws[zzPick("way", len(ws))]
		var call = &zzModelCall{create: way != 2 && way != 3}
		var want, wantOK = top.ask(ts, call)
		var r *Resource
		var ok = !zzPanics(func() {
			switch way {
			case 0:
				r = ro.Resource(abs + path)
			case 1:
				r = ro.ResourceUsingConfig(abs+path, Config{})
			case 2:
				r = ro.RegisteredResource(abs + path)
			case 3:
				r = asker.RegisteredResource(path)
			case 4:
				r = asker.Resource(path)
			case 5:
				r = asker.ResourceUsingConfig(path, Config{})
			case 6:
				ro.SetSharedDataAt(abs+path, i)
				r = ro.RegisteredResource(abs + path)
			case 7:
				asker.SetSharedDataAt(path, i)
				r = asker.RegisteredResource(path)
			}
		})

		if wantOK {
			zzAssert(ok, "a call was rejected")
		} else {
			zzAssert(!ok, "a call wasn't rejected")
			continue
		}

		if want == nil {
			zzAssert(r == nil, "something that wasn't made was found")
			continue
		}

		zzAssert(r != nil, "nothing was returned")
		want.is(r)
		zzAssert(
			r.Template().SimilarityWith(Parse(ts[len(ts)-1].str)) == TheSame,
			"a resource with another template was returned",
		)
	}

	var k = top.count()
	if abs != "" {
		k++
	}

	zzAssert(zzTreeOK(ro) == k, "more or fewer resources were made")
}

// ZZ_C24_Templates: two calls for resources at one or two segments, in any of
// the ways through the router or below a named pattern host or the root. The
// segments are static, named, patterns and wildcards with any names out of two.
func ZZ_C24_Templates() {
	zzAskTemplates(2, 2, 4+3*zzTier(), []int{0, 1, 2, 3, 4, 5, 6, 7})
}

// ZZ_C24_Templates3: three calls for resources at a segment.
func ZZ_C24_Templates3() {
	zzAskTemplates(3, 1, 7, []int{0, 2, 5})
}

// ZZ_C24_Names: a resource and one below it, either named or with a wildcard,
// are looked up by the names or templates.
func ZZ_C24_Names() {
	var ro = NewRouter()
	var names = [2]string{"", zzStrIn("name", "xyz", 1, 1)}
	var tmpls = [2]string{"a", "$" + names[1] + ":b"}
	switch zzPick("first", 3) {
	case 1:
		names[0] = zzStrIn("name", "xyz", 1, 1)
		tmpls[0] = "$" + names[0] + ":a"
	case 2:
		names[0] = zzStrIn("value", "xyz", 1, 1)
		tmpls[0] = "{" + names[0] + "}"
	}

	zzAssume(names[0] != names[1])
	var host = []string{"", "http://h"}[zzPick("host", 2)]
	var below = ro.Resource(host + "/" + tmpls[0] + "/" + tmpls[1])
	var r = below.Parent()
	var asked [2]string
	var same = true
	for i := range asked {
		if zzPick("by name", 2) == 1 {
			var name = zzStrIn("asked", "xyz", 1, 1)
			asked[i] = "$" + name
			same = same && name == names[i]
		} else {
			asked[i] = tmpls[i]
		}
	}

	var u = "/" + asked[0] + "/" + asked[1]
	var got *Resource
	var at = r
	switch zzPick("way", 3) {
	case 0:
		got = ro.RegisteredResource(host + u)
	case 1:
		got = zzTop(ro, []string{"", "h"}[zzIte(host == "", 0, 1)]).(zzAsker).RegisteredResource(u)
	case 2:
		if got = ro.RegisteredResource(host + "/" + asked[0]); got != nil {
			zzAssert(got == at, "another resource was found")
			got = got.RegisteredResource("/" + asked[1])
		}
	}

	if same {
		zzAssert(got == below, "a resource isn't found by its name")
	} else {
		zzAssert(got == nil, "a resource is found by another name")
	}
}

// zzAskFlags are the hosts and resources asked for: the root, a resource, one
// below it, a host, a resource of the host.
var zzAskFlags = []struct {
	host string
	segs []string
	path string
}{
	{"", nil, "/"},
	{"", []string{"a"}, "/a"},
	{"", []string{"a", "b"}, "/a/b"},
	{"h", nil, ""},
	{"h", []string{"a"}, "/a"},
}

// ZZ_C24_Flags: two calls for the same host or resource or for one above it,
// in any of the ways with any scheme, trailing slash and three settings of the configuration.
func ZZ_C24_Flags() {
	zzC24Flags(2)
}

// ZZ_C24_Flags3 (thorough only): three calls.
func ZZ_C24_Flags3() {
	zzC24Flags(3)
}

func zzC24Flags(n int) {
	var ro = NewRouter()
	var root, host = &zzModel{}, &zzModel{}
	var last = zzPick("target", 5)
	var hasRoot bool
	for i := 0; i < n; i++ {
		var at = last
		if i > 0 && zzPick("above", 2) == 1 {
			zzAssume(at != 0 && at != 3)
			at--
		}

		var target = &zzAskFlags[at]
		var c = &zzModelCall{create: true, secure: zzBool("secure")}
		if at != 0 {
			c.slash = zzBool("slash")
		}

		var ways = 8
		if i == 0 {
			ways = 2
		}

		var way = zzPick("way", ways)
		var config Config
		if way == 1 || way == 4 {
			c.config = true
			c.sub, c.lax, c.redir = zzBool("subtree"), at != 0 && zzBool("lenient"), zzBool("redirects")
			config = Config{
				SubtreeHandler:           c.sub,
				LenientOnTrailingSlash:   c.lax,
				RedirectsInsecureRequest: c.redir,
			}
		}

		var lookup = way == 2 || way == 5
		c.create = !lookup
		var u = target.path
		if c.slash {
			u += "/"
		}

		var rel = u
		if c.secure {
			u, rel = "https://"+target.host+u, "https://"+u
		} else {
			u, rel = "http://"+target.host+u, "http://"+u
		}

		// The others are asked of the host or the root.
		var asker zzAsker
		if way >= 3 && way != 6 {
			zzAssume(len(target.segs) > 0)
			var ok bool
			if target.host != "" {
				asker, ok = zzTop(ro, "h").(zzAsker)
			} else {
				asker, ok = zzTop(ro, "").(zzAsker)
				root.compatible(&zzModelCall{})
			}

			zzAssume(ok)
		}

		var m = root
		if target.host != "" {
			m = host
		}

		var ts []*zzModelTmpl
		for _, s := range target.segs {
			ts = append(ts, &zzModelTmpl{text: s})
		}

		var want *zzModel
		var wantOK bool
		if lookup && (at == 0 && !hasRoot || at == 3 && !ro.HasAnyHost()) {
			wantOK = true
		} else {
			want, wantOK = m.ask(ts, c)
		}

		hasRoot = hasRoot || target.host == "" && !lookup && !(c.config && c.redir && !c.secure)
		var got interface{}
		var ok = !zzPanics(func() {
			switch way {
			case 0:
				if at == 3 {
					got = ro.Host(u)
				} else {
					got = ro.Resource(u)
				}
			case 1:
				if at == 3 {
					got = ro.HostUsingConfig(u, config)
				} else {
					got = ro.ResourceUsingConfig(u, config)
				}
			case 2:
				if at == 3 {
					if h := ro.RegisteredHost(u); h != nil {
						got = h
					}
				} else if r := ro.RegisteredResource(u); r != nil {
					got = r
				}
			case 3:
				got = asker.Resource(rel)
			case 4:
				got = asker.ResourceUsingConfig(rel, config)
			case 5:
				if r := asker.RegisteredResource(rel); r != nil {
					got = r
				}
			case 6:
				ro.SetSharedDataAt(u, i)
			case 7:
				asker.SetSharedDataAt(rel, i)
			}
		})

		if wantOK {
			zzAssert(ok, "a call was rejected")
		} else {
			zzAssert(!ok, "a call wasn't rejected")
			continue
		}

		switch {
		case way > 5:
		case want == nil:
			zzAssert(got == nil, "something that wasn't made was found")
		default:
			zzAssert(got != nil, "nothing was returned")
			want.is(got)
		}
	}

	var k = root.count() + host.count()
	if ro.HasAnyHost() {
		k++
	}

	zzAssert(zzTreeOK(ro) == k, "more or fewer resources were made")
}

// ZZ_C24_Hosts: three calls for hosts, static or with a pattern and named by
// any of two names or not, in any of the ways.
func ZZ_C24_Hosts() {
	var ro = NewRouter()
	var top = &zzModel{}
	for i := 0; i < 3; i++ {
		var names = "xy"
		if i == 0 {
			names = "x"
		}

		var t = &zzModelTmpl{}
		switch zzPick("template", 5) {
		case 0:
			t.text, t.str = "h", "h"
		case 1:
			t.text, t.name = "h", zzStrIn("name", names, 1, 1)
			t.str = "$" + t.name + ":h"
		case 2:
			t.text, t.name = "i", zzStrIn("name", names, 1, 1)
			t.str = "$" + t.name + ":i"
		case 3:
			t.kind, t.text, t.value = 2, "b", zzStrIn("value", names, 1, 1)
			t.name, t.str = t.value, "{"+t.value+":b}.h"
		case 4:
			t.kind, t.text, t.value, t.name = 2, "b", zzStrIn("value", names, 1, 1), "x"
			t.str = "$x:{" + t.value + ":b}.h"
		}

		var ways = 6
		if i < 2 {
			ways = 2
		}

		var way = zzPick("way", ways)
		var c = &zzModelCall{create: way != 2 && way != 3}
		var ts = []*zzModelTmpl{t}
		if way == 1 || way == 3 {
			ts = append(ts, &zzModelTmpl{text: "r"})
		}

		var want, wantOK = top.ask(ts, c)
		var got interface{}
		var ok = !zzPanics(func() {
			switch way {
			case 0:
				got = ro.Host(t.str)
			case 1:
				got = ro.Resource("http://" + t.str + "/r")
			case 2:
				if h := ro.RegisteredHost(t.str); h != nil {
					got = h
				}
			case 3:
				if r := ro.RegisteredResource("http://" + t.str + "/r"); r != nil {
					got = r
				}
			case 4:
				got = ro.HostUsingConfig(t.str, Config{})
			case 5:
				ro.SetSharedDataAt("http://"+t.str, i)
				got = ro.RegisteredHost(t.str)
			}
		})

		if wantOK {
			zzAssert(ok, "a call was rejected")
		} else {
			zzAssert(!ok, "a call wasn't rejected")
			continue
		}

		if want == nil {
			zzAssert(got == nil, "something that wasn't made was found")
			continue
		}

		zzAssert(got != nil, "nothing was returned")
		want.is(got)
	}

	zzAssert(zzTreeOK(ro) == top.count(), "more or fewer hosts were made")
}
