//zz:use flags
//zz:use policy
//zz:use via
//zz:use lib

package nanomux

import "net/http"

// zzBulk is a router with two levels below its root resource and a host, and a
// resource that exists only as the prefix of another.
type zzBulk struct {
	t     *zzTree
	nodes []*zzNode
	live  int // number of nodes that can be requested
	at    map[*zzNode]int
}

func zzBulkTree() *zzBulk {
	return zzOnce("bulk", func() interface{} {
		var b = &zzBulk{at: map[*zzNode]int{}}
		b.t = &zzTree{
			root: zzRoot(
				zzSt("a", "a", zzSt("b", "b")),
				zzPt("p", "p.", zzSt("c", "c")),
				zzWc("w", zzSt("d", "d")),
			),
			hosts: []*zzNode{
				zzHost(zzSt("h", "h", zzSt("e", "e", zzSt("f", "f")))),
				zzHost(zzPt("ph", "i.")),
			},
		}

		b.t.make()
		var add = func(n *zzNode) {
			b.at[n] = len(b.nodes)
			b.nodes = append(b.nodes, n)
		}

		b.t.root.each(add)
		b.t.hosts[0].each(add)
		b.t.hosts[1].each(add)
		b.live = len(b.nodes)
		for _, n := range b.nodes {
			n.real().SetHandlerFor("GET", zzOwnHandler(n.id))
		}

		// A dormant one, and one without handlers below it.
		b.t.ro.Resource("/x/y")
		var x = zzSt("x", "x", zzSt("y", "y"))
		x.up, x.kids[0].up = b.t.root, x
		x.res = zzChildOf(b.t.root.res, "x")
		x.kids[0].res = zzChildOf(x.res, "y")
		x.each(add)
		return b
	}).(*zzBulk)
}

func zzChildOf(r *Resource, c string) *Resource {
	for _, k := range r.ChildResources() {
		if k.Template().Content() == c {
			return k
		}
	}

	return nil
}

// below reports whether the node is below the start; the router is nil.
func (n *zzNode) below(start *zzNode) bool {
	if start == nil {
		return true
	}

	for n = n.up; n != nil; n = n.up {
		if n == start {
			return true
		}
	}

	return false
}

// request is a request for the node.
func (b *zzBulk) request(n *zzNode) *zzReq {
	var q = &zzReq{host: "o"}
	if t := n.top(); t.host {
		q.host = "h"
		if t.segs[0].k == zzPattern {
			q.host = "i1"
		}
	}

	for m := n; m.up != nil; m = m.up {
		var s = m.segs[0].text
		switch m.segs[0].k {
		case zzPattern:
			s = "p1"
		case zzWild:
			s = "any"
		}

		q.path = "/" + s + q.path
	}

	if q.path == "" {
		q.path = "/"
	}

	return q
}

// zzOwn is what a handler saw of its responder.
type zzOwn struct {
	id         string
	data, impl interface{}
}

var zzOwns []zzOwn

func zzOwnHandler(id string) Handler {
	return func(_ http.ResponseWriter, _ *http.Request, args *Args) bool {
		zzOwns = append(
			zzOwns,
			zzOwn{id, args.ResponderSharedData(), args.ResponderImpl()},
		)

		return true
	}
}

// serves asserts what the node's handler sees.
func (b *zzBulk) serves(n *zzNode, data, impl interface{}) {
	var q = b.request(n)
	zzOwns = nil
	b.t.ro.ServeHTTP(&zzWriter{}, q.request())
	zzAssert(len(zzOwns) == 1, "no handler ran or several did")
	zzAssert(zzOwns[0].id == n.id, "another responder's handler ran")
	zzAssert(zzOwns[0].data == data, "a handler read other shared data than its responder's")
	zzAssert(zzOwns[0].impl == impl, "a handler read another implementation than its responder's")
}

// start returns one of the nodes or nil for the router.
func (b *zzBulk) start(name string) *zzNode {
	if i := zzPick(name, len(b.nodes)+1); i > 0 {
		return b.nodes[i-1]
	}

	return nil
}

func (b *zzBulk) setData(start *zzNode, data interface{}) {
	if start == nil {
		b.t.ro.SetSharedDataForAll(data)
	} else {
		start.settings().SetSharedDataForSubtree(data)
	}
}

type zzData struct{ s string }

// ZZ_C27_Data: shared data is set for everything or for the subtree of any of
// 13 hosts and resources (static, pattern, wildcard, two levels below a root
// and two hosts, one dormant), of which any six (all when thorough) may have
// data of their own, among which are values that aren't nil only in their type.
func ZZ_C27_Data() {
	var b = zzBulkTree()
	var data = make([]interface{}, len(b.nodes))
	var some = [...]bool{1: true, 2: true, 4: true, 7: true, 8: true, 11: true, 12: false}
	for i, n := range b.nodes {
		if !some[i] && zzTier() == 0 {
			continue
		}

		if zzBool("has own data") {
			switch i {
			case 2:
				data[i] = (*zzData)(nil)
			case 8:
				data[i] = false
			case 7:
				data[i] = ""
			default:
				data[i] = &zzData{n.id}
			}

			n.settings().SetSharedData(data[i])
		}
	}

	var common = &zzData{"common"}
	var start = b.start("start")
	b.setData(start, common)
	for i, n := range b.nodes {
		if data[i] == nil && n.below(start) {
			data[i] = common
		}

		zzAssert(
			n.settings().SharedData() == data[i],
			"shared data was set on a responder that had its own or isn't in the subtree, or wasn't set on another",
		)
	}

	// One of the requests.
	if i := zzPick("request", b.live+1); i > 0 {
		b.serves(b.nodes[i-1], data[i-1], nil)
	}
}

// ZZ_C27_Data_Steps: three times shared data is set for everything, a subtree or
// one of the 13 hosts and resources (directly, by its parent or by the router
// in the last step), or removed from one; then each is requested.
func ZZ_C27_Data_Steps() {
	var b = zzBulkTree()
	var data = make([]interface{}, len(b.nodes))
	for k := 0; k < 3; k++ {
		var d = &zzData{string(rune('0' + k))}
		switch k {
		case 1:
			var i = zzPick("subject", len(b.nodes)+1)
			if i == 0 {
				break
			}

			data[i-1] = nil
			if zzPick("removed", 2) == 0 {
				data[i-1] = d
				b.nodes[i-1].settings().SetSharedData(d)
			} else {
				b.nodes[i-1].settings().SetSharedData(nil)
			}
		default:
			var start = b.start("start")
			b.setData(start, d)
			for i, n := range b.nodes {
				if data[i] == nil && n.below(start) {
					data[i] = d
				}
			}
		}
	}

	for i, n := range b.nodes {
		zzAssert(n.settings().SharedData() == data[i], "shared data differs")
		if i < b.live && n.id != "a" && n.id != "e" {
			b.serves(n, data[i], nil)
		}
	}
}

// ZZ_C27_Own: shared data and an implementation are set for any two of the
// hosts and resources, each in one of the three ways, and are read in the three
// ways and by the handlers of each of them.
func ZZ_C27_Own() {
	var b = zzBulkTree()
	var data = make([]interface{}, len(b.nodes))
	var impl = make([]interface{}, len(b.nodes))
	var ro = b.t.ro
	for k := 0; k < 2; k++ {
		var i = zzPick("subject", b.live)
		var n = b.nodes[i]
		data[i] = &zzData{string(rune('0' + k))}
		var v = zzPick("via", zzVias)
		n.setShared(ro, v, data[i])
		impl[i] = &zzImplOwn{n.id, k}
		n.setImpl(ro, v, impl[i])
	}

	var v = zzPick("read via", zzVias)
	for i, n := range b.nodes[:b.live] {
		zzAssert(n.shared(ro, v) == data[i], "shared data differs")
		var im = n.impl(ro, v)
		zzAssert(im == impl[i], "the implementation differs")
		b.serves(n, data[i], impl[i])
	}
}

type zzImplOwn struct {
	id string
	n  int
}

func (im *zzImplOwn) HandleGet(w http.ResponseWriter, r *http.Request, args *Args) bool {
	return zzOwnHandler(im.id)(w, r, args)
}

// zzUnset reports whether the responder has no configuration of its own.
func (f zzFlags) unset() bool {
	return !zzOr(zzOr(zzOr(f.sub, f.redir), zzOr(f.strict, f.laxSlash)), f.laxPath)
}

func (b *zzBulk) setConfig(start *zzNode, c Config) {
	if start == nil {
		b.t.ro.SetConfigurationForAll(c)
	} else {
		start.settings().SetConfigurationForSubtree(c)
	}
}

// ZZ_C27_Config: a configuration is set for everything or for the subtree of
// any of 13 hosts and resources, each of which has one of seven configurations
// (every combination of two of them next to each other), and the configuration
// is any of eight; then another one is set from any start.
func ZZ_C27_Config() {
	var b = zzBulkTree()
	var own = []Config{
		{}, {Secure: true}, {SubtreeHandler: true}, {HasTrailingSlash: true},
		{LenientOnUncleanPath: true}, {StrictOnTrailingSlash: true},
		{RedirectsInsecureRequest: true},
	}

	var flags = make([]zzFlags, len(b.nodes))
	var k, step = zzPick("first", len(own)), zzPick("step", len(own))
	for i, n := range b.nodes {
		var c = own[(k+step*i)%len(own)]
		if c != (Config{}) {
			n.settings().SetConfiguration(c)
		}

		flags[i] = zzFlagsFor(c, n.root)
	}

	var bulk = []Config{
		{}, {Secure: true}, {SubtreeHandler: true, HasTrailingSlash: true},
		{RedirectsInsecureRequest: true, StrictOnTrailingSlash: true},
		{LenientOnTrailingSlash: true}, {LenientOnUncleanPath: true},
		{HandlesThePathAsIs: true}, {HasTrailingSlash: true},
	}

	var steps = 1
	if zzTier() > 0 {
		steps = 2
	}

	for s := 0; s < steps; s++ {
		var c = bulk[zzPick("bulk", len(bulk))]
		var start = b.start("start")
		b.setConfig(start, c)
		for i, n := range b.nodes {
			if flags[i].unset() && n.below(start) {
				flags[i] = flags[i].set(zzFlagsFor(c, n.root))
			}
		}
	}

	for i, n := range b.nodes {
		flags[i].is(n.settings().(zzFlagged).Configuration())
	}
}

// ZZ_C27_Config_One: a configuration, any, is set for a subtree or for
// everything. A resource, a host or a root resource in it has any configuration
// (not strict or lenient in one way, or one of those alone, when quick).
func ZZ_C27_Config_One() {
	var i = []int{0, 1, 3}[zzPick("subject", 3)]
	var p = zzPolicyOf(i, zzPick("https", 2) == 1, zzPick("slash", 2) == 1)
	var n = p.n
	var c Config
	switch {
	case zzTier() > 0:
		c = zzSymConfig(true)
	case zzPick("own", 2) == 0:
		c = zzSymConfig(false)
	default:
		c.Secure = zzBool("own secure")
		switch zzPick("own", 3) {
		case 0:
			c.StrictOnTrailingSlash = true
		case 1:
			c.LenientOnTrailingSlash = true
		case 2:
			c.LenientOnUncleanPath = true
		}
	}

	var was = zzFlags{secure: n.secure, slash: n.tslash}
	var first = zzBool("configured")
	if first {
		n.settings().SetConfiguration(c)
		was = was.set(zzFlagsFor(c, n.root))
	}

	var d = zzSymConfig(zzTier() > 0 || !first)
	if n.up != nil && zzPick("start", 2) == 1 {
		n.up.settings().SetConfigurationForSubtree(d)
	} else {
		p.t.ro.SetConfigurationForAll(d)
	}

	if was.unset() {
		was = was.set(zzFlagsFor(d, n.root))
	}

	was.is(n.settings().(zzFlagged).Configuration())
}

// zzBulkShape is a tree below a root resource, or below the first of two hosts, of
// any shape with the number of nodes. The kinds of resources rotate.
func zzBulkShape(nodes int, hosts bool) *zzBulk {
	var b = &zzBulk{at: map[*zzNode]int{}, t: &zzTree{}}
	var top *zzNode
	if hosts {
		top = zzHost(zzSt("h", "h"))
		var other = zzHost(zzSt("i", "i", zzSt("ia", "a", zzSt("ib", "b"))))
		b.t.hosts = []*zzNode{top, other}
		b.t.root = zzRoot(zzSt("r", "r"))
	} else {
		top = zzRoot()
		b.t.root = top
	}

	var path = []*zzNode{top}
	for i := 1; i < nodes; i++ {
		var d = 1
		if i > 1 {
			d = 1 + zzPick("depth", len(path))
		}

		path = path[:d]
		var up = path[d-1]
		var id = string(rune('0' + i))
		var n *zzNode
		switch len(up.kids) {
		case 0, 3:
			n = zzSt(id, id)
		case 1:
			n = zzWc(id)
		default:
			n = zzPt(id, "x"+id)
		}

		if len(up.kids) > 0 || i%2 == 0 {
			n.slash = i%2 == 0
		} else {
			n = zzPt(id, "x"+id)
		}

		n.up = up
		up.kids = append(up.kids, n)
		path = append(path, n)
	}

	b.t.make()
	var add = func(n *zzNode) { b.nodes = append(b.nodes, n) }
	if hosts {
		b.t.hosts[1].each(add)
	}

	b.t.root.each(add)
	if hosts {
		top.each(add)
	}

	return b
}

// ZZ_C27_Shapes: below a root resource, or the first of two hosts, there is a
// tree of any shape with seven nodes (with eight when thorough) of rotating
// kinds. Each of the nodes may have shared data and a configuration; then shared
// data and a configuration are set for everything, the top's subtree, or the
// subtree of its first child.
func ZZ_C27_Shapes() {
	var b = zzBulkShape(7+zzTier(), zzPick("hosts", 2) == 1)
	var data = make([]interface{}, len(b.nodes))
	var flags = make([]zzFlags, len(b.nodes))
	var own, every = zzInt("has own", 0, 31), zzPick("every", 2) == 1
	for i, n := range b.nodes {
		if zzOr(own == i, zzAnd(every, own%2 == i%2)) {
			data[i] = &zzData{n.id}
			n.settings().SetSharedData(data[i])
			n.settings().SetConfiguration(Config{SubtreeHandler: true})
			flags[i].sub = true
		}

		flags[i].slash = n.tslash
	}

	var start *zzNode
	var top = b.nodes[len(b.nodes)-7-zzTier()]
	switch zzPick("start", 3) {
	case 1:
		start = top
	case 2:
		start = top.kids[0]
	}

	var common = &zzData{"common"}
	b.setData(start, common)
	b.setConfig(start, Config{LenientOnUncleanPath: true, HasTrailingSlash: true})
	for i, n := range b.nodes {
		if n.below(start) {
			if data[i] == nil {
				data[i] = common
			}

			if flags[i].unset() {
				flags[i].laxPath = true
				flags[i].slash = flags[i].slash || !n.root
			}
		}

		zzAssert(
			n.settings().SharedData() == data[i],
			"shared data was set on a responder that had its own or isn't in the subtree, or wasn't set on another",
		)

		flags[i].is(n.settings().(zzFlagged).Configuration())
	}
}
