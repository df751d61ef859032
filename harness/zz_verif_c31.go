//zz:use route

package nanomux

import "net/http"

// zzSeen is what the arguments said at a stage of a request.
type zzSeen struct {
	stage string
	n     *zzNode
	hit   zzHit
	impl  interface{}
}

var zzSeens []zzSeen

func zzSee(stage string, n *zzNode, args *Args) {
	zzSeens = append(zzSeens, zzSeen{stage, n, zzHit{
		vals: append(HostPathValues(nil), args.HostPathValues()...),
		rem:  args.RemainingPath(),
		res:  args.CurrentResource(),
		hst:  args.Host(),
		data: args.ResponderSharedData(),
	}, args.ResponderImpl()})
}

type zzC31Impl struct{ n *zzNode }

func (im *zzC31Impl) HandleGet(_ http.ResponseWriter, _ *http.Request, args *Args) bool {
	zzSee("method", im.n, args)
	return true
}

func (im *zzC31Impl) HandleNotAllowedMethod(_ http.ResponseWriter, _ *http.Request, args *Args) bool {
	zzSee("method", im.n, args)
	return true
}

// zzC31Tree is a tree of four levels below the root (0), a static host (1) or a
// pattern host (2), in which everything that a request passes notes what the
// arguments say.
func zzC31Tree(i, slash int) *zzTree {
	return zzOnce("c31"+string([]rune{rune('0' + i), rune('0' + slash)}), func() interface{} {
		var c = zzSt("c", "c", zzWc("cw"))
		var b = zzWc("b", c, zzPt("bp", "a+"))
		var a = zzSt("a", "a", b)
		var d = zzPt("d", "b+", zzSt("dd", "a"), zzWc("dw"))
		var top *zzNode
		var t = &zzTree{}
		switch i {
		case 0:
			top = zzRoot(a, d)
			t.root = top
		case 1:
			top = zzHost(zzSt("h", "hh", a, d))
		case 2:
			top = zzHost(zzNew("h", []zzSeg{{zzPattern, "vh", "h+"}}, a, d))
		}

		if i > 0 {
			t.hosts = []*zzNode{top}
			t.root = zzRoot()
		}

		switch slash {
		case 1:
			a.slash, d.slash = true, true
		case 2:
			b.slash, c.slash = true, true
		}

		top.each(func(n *zzNode) { n.silent = true })
		t.make()
		zzWarm(t.ro, "hh", "x")
		top.each(func(n *zzNode) {
			n.silent = n.id == "dd"
			var r = n.real()
			if !n.silent {
				r.SetImplementation(&zzC31Impl{n})
			}

			r.SetSharedData("data of " + n.id)
			r.WrapRequestPasser(zzSeer("passer", n))
			if !n.silent {
				r.WrapRequestHandler(zzSeer("handler", n))
			}

			r.SetRedirectHandler(func(
				_ http.ResponseWriter, _ *http.Request, _ string, _ int, args *Args,
			) bool {
				zzSee("redirect", n, args)
				return true
			})
		})

		return t
	}).(*zzTree)
}

func zzSeer(stage string, n *zzNode) Middleware {
	return func(next Handler) Handler {
		return func(w http.ResponseWriter, r *http.Request, args *Args) bool {
			zzSee(stage, n, args)
			return next(w, r, args)
		}
	}
}

// depth is the number of the segments down to the node.
func (n *zzNode) depth() int {
	if n.root || n.host {
		return 0
	}

	return n.up.depth() + 1
}

func zzC31Run(t *zzTree, top *zzNode, q *zzReq) {
	for _, id := range []string{top.id, "a", "b", "d"} {
		if zzBool("subtree " + id) {
			top.node(id).configure(Config{SubtreeHandler: true})
		}
	}

	zzSeens = nil
	t.ro.ServeHTTP(&zzWriter{}, q.request())
	for _, s := range zzSeens {
		zzCover(s.stage)
		var n, i = s.n, s.n.depth()
		zzAssert(i <= len(q.segs), "the request went below its path")
		var vals []string
		for u := n; u != nil; u = u.up {
			if len(u.segs) == 0 || u.segs[0].k == zzStatic {
				continue
			}

			var v, ok = q.host, true
			if !u.host {
				v, ok = q.seg(u.depth() - 1)
			}

			zzAssert(ok, "a malformed segment was matched")
			zzAssert(s.hit.vals.Get(u.segs[0].text) == v, s.stage+": a value of the responder's URL is another")
			vals = append(vals, v)
		}

		zzAssert(len(s.hit.vals) == len(vals), s.stage+": the values aren't those of the responder's URL")
		var lead = i < len(q.segs) && !(n.tslash && !n.host)
		var segs = q.segs[i:]
		zzAssert(
			zzSamePath(s.hit.rem, q, segs, lead, q.slash && len(segs) > 0),
			s.stage+": the remaining path isn't what is below the responder",
		)

		if n.host {
			zzAssert(s.hit.res == nil && s.hit.hst == n.hst, s.stage+": the arguments have another host")
		} else {
			var h *Host
			if top.host {
				h = top.hst
			}

			zzAssert(s.hit.res == n.res && s.hit.hst == h, s.stage+": the arguments have another resource")
		}

		var data, ok = s.hit.data.(string)
		zzAssert(ok && data == "data of "+n.id, s.stage+": the arguments have another responder's data")
		if n.silent {
			zzAssert(s.impl == nil, s.stage+": the arguments have another responder's implementation")
		} else {
			var im, ok = s.impl.(*zzC31Impl)
			zzAssert(ok && im.n == n, s.stage+": the arguments have another responder's implementation")
		}
	}
}

// ZZ_C31_Stages: what the arguments say to the request passers, the request
// handlers, the redirect handlers and the method handlers of all the responders
// that a request meets in a tree of four levels below a root, a static or a
// pattern host, with any four of them as subtree handlers or not and three
// choices of trailing slashes; every path of up to 7 bytes (thorough: 9) over
// / a b c . and a handled method.
func ZZ_C31_Stages() {
	defer zzInstall()()
	var i = zzPick("tree", 3)
	var t = zzC31Tree(i, zzPick("slash", 3))
	var top = t.root
	if i > 0 {
		top = t.hosts[0]
	}

	var q = &zzReq{host: "hh"}
	q.path = "/" + zzStrIn("path", "/abc.", 0, 6+2*zzTier())
	q.split()
	zzC31Run(t, top, q)
}

// ZZ_C31_Escaped: the same with raw paths of up to 6 bytes (thorough: 7) over
// / % 2 F a below /a and any 2 bytes (thorough: 3) in other paths, and a method
// that isn't allowed.
func ZZ_C31_Escaped() {
	defer zzInstall()()
	var i = zzPick("tree", 3)
	var t = zzC31Tree(i, zzPick("slash", 3))
	var top = t.root
	if i > 0 {
		top = t.hosts[0]
	}

	var q = &zzReq{host: "hh", raw: zzPick("raw", 2) == 1, path: "/a", method: "PUT"}
	if q.raw {
		q.path += zzStrIn("rest", "/%2Fa", 0, 5+zzTier())
	} else {
		q.path += "/" + zzStr("rest", 0, 2+zzTier()) + "/c"
	}

	q.split()
	zzC31Run(t, top, q)
}
