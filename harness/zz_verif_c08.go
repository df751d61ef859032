//zz:use route

package nanomux

func init() { zzHandledBy = zzAllMethods }

// zzC08Tree returns one of the trees of resources.
func zzC08Tree(i int) *zzNode {
	var t *zzNode
	switch i {
	case 0:
		t = zzRoot(
			zzPt("p1", `\d+`, zzSt("p1s", "a"), zzWc("p1w")),
			zzPt("p2", `[1a]+`, zzSt("p2s", "b")),
			zzWc("w", zzSt("ws", "a", zzPt("wsp", "a|b"))),
			zzSt("s", "a", zzSt("sb", "b")),
			zzSt("s2", "11"),
		)
	case 1:
		t = zzRoot(
			zzNew("m1", []zzSeg{{zzStatic, "a", ""}, {zzWild, "vm1", ""}},
				zzWc("m1w"), zzSt("m1s", "1")),
			zzNew("m2", []zzSeg{{zzWild, "vm2", ""}, {zzStatic, "1", ""}},
				zzPt("m2p", `a?1`)),
			zzPt("p", `b*1?`, zzWc("pw", zzWc("pww"))),
			zzSt("s", "ab"),
		)
	case 2:
		t = zzRoot(
			zzSt("s", "a",
				zzPt("sp", `(a|b)1`),
				zzPt("sq", `b.`),
				zzWc("sw")),
			zzPt("q", `a.*`, zzSt("qs", "b")),
			zzNew("r", []zzSeg{{zzPattern, "vr", `[ab]`}, {zzStatic, "-", ""}, {zzPattern, "vr", `[ab]`}}),
		)
	}

	t.silent = i == 1
	t.make()
	zzWarm(t.res, "x")
	return t
}

// ZZ_C08_Dispatch: three trees of up to three levels with static, pattern,
// wildcard and mixed templates; every clean path of up to 5 bytes (thorough: 7)
// over / a b 1 - served by the root resource.
func ZZ_C08_Dispatch() {
	defer zzInstall()()
	var i = zzPick("tree", 3)
	var t = zzOnce("c08"+string(rune('0'+i)), func() interface{} { return zzC08Tree(i) }).(*zzNode)
	var n = 11 + 2*zzTier()
	var q = &zzReq{host: "x", path: "/" + zzStrIn("path", "/ab1-", 0, n-1)}
	q.split()
	zzAssume(!q.unclean && !q.slash)
	zzCheck(zzServe(t.res, q), q, t.direct(q))
}

// ZZ_C08_Order: three siblings chosen from seven overlapping templates and
// registered in every order below the root, a resource or a host; every segment
// of up to 4 bytes over a b 1.
func ZZ_C08_Order() {
	defer zzInstall()()
	var k [3]int
	var key = "c08o"
	for i := range k {
		k[i] = zzPick("template", 7)
		for j := 0; j < i; j++ {
			zzAssume(k[j] != k[i])
		}

		key += string(rune('0' + k[i]))
	}

	var where = zzPick("parent", 3)
	key += string(rune('a' + where))
	var t = zzOnce(key, func() interface{} {
		var kids []*zzNode
		for i := range k {
			var r *zzNode
			switch k[i] {
			case 0:
				r = zzSt("r0", "a")
			case 1:
				r = zzSt("r1", "ab")
			case 2:
				r = zzPt("r2", "[ab]+")
			case 3:
				r = zzPt("r3", "a?b1?")
			case 4:
				r = zzNew("r4", []zzSeg{{zzStatic, "a", ""}, {zzWild, "v4", ""}})
			case 5:
				r = zzNew("r5", []zzSeg{{zzPattern, "v5", "[ab]"}, {zzStatic, "1", ""}})
			case 6:
				r = zzWc("r6")
			}

			kids = append(kids, r)
		}

		var t = &zzTree{}
		switch where {
		case 0:
			t.root = zzRoot(kids...)
		case 1:
			t.root = zzRoot(zzPt("up", "a+", kids...))
		case 2:
			t.hosts = []*zzNode{zzHost(zzNew("up", []zzSeg{{zzWild, "vup", ""}, {zzStatic, "x", ""}}, kids...))}
		}

		t.make()
		zzWarm(t.ro, "xx")
		return t
	}).(*zzTree)

	var q = &zzReq{host: "xx"}
	if where == 1 {
		q.path = "/aa"
	}

	q.path += "/" + zzStrIn("segment", "ab1", 1, 4)
	q.method = zzAnyMethod()
	q.split()
	zzCheck(zzServe(t.ro, q), q, t.route(q))
}

// ZZ_C08_Replaced: of three overlapping pattern siblings one or two have no
// handlers at first and are replaced, in any order, by resources with handlers
// that are registered later, or get handlers later; every segment of up to 3
// bytes over a b 1.
func ZZ_C08_Replaced() {
	defer zzInstall()()
	var order = zzPick("order", 6)
	var how = [3]int{zzPick("first", 3), zzPick("second", 3), zzPick("third", 3)}
	var where = zzPick("parent", 2)
	var late = zzPick("later first", 3)
	var key = "c08r" + string([]rune{
		rune('0' + order), rune('0' + how[0]), rune('0' + how[1]), rune('0' + how[2]),
		rune('0' + where), rune('0' + late),
	})

	var t = zzOnce(key, func() interface{} {
		var kids = []*zzNode{
			zzPt("r0", "[ab]+"), zzPt("r1", "a?b1?"),
			zzNew("r2", []zzSeg{{zzStatic, "a", ""}, {zzWild, "v4", ""}}),
		}

		kids = [][]*zzNode{
			{kids[0], kids[1], kids[2]}, {kids[0], kids[2], kids[1]}, {kids[1], kids[0], kids[2]},
			{kids[1], kids[2], kids[0]}, {kids[2], kids[0], kids[1]}, {kids[2], kids[1], kids[0]},
		}[order]

		var t = &zzTree{root: zzRoot()}
		var up = t.root
		if where == 1 {
			up = zzHost(zzSt("h", "h"))
			t.hosts = []*zzNode{up}
		}

		t.make()
		var register = func(k *zzNode) {
			k.res = NewDormantResource("/" + zzTmplOf(k.segs))
			k.res.SetHandlerFor("GET", zzHandler(k.id))
			up.real().RegisterResource(k.res)
		}

		for i, k := range kids {
			k.up = up
			switch how[i] {
			case 0:
				register(k)
			case 1, 2:
				// A resource without handlers, with a child.
				up.real().Resource("/" + zzTmplOf(k.segs) + "/b/b")
			}
		}

		up.kids = kids
		for i := range kids {
			i = (i + late) % 3
			switch k := kids[i]; how[i] {
			case 1:
				register(k)
			case 2:
				k.res = up.real().Resource("/" + zzTmplOf(k.segs))
				k.res.SetHandlerFor("GET", zzHandler(k.id))
			}
		}

		zzWarm(t.ro, "x", "h")
		return t
	}).(*zzTree)

	var q = &zzReq{host: "x"}
	if where == 1 {
		q.host = "h"
	}

	q.path += "/" + zzStrIn("segment", "ab1", 1, 3)
	q.split()
	zzCheck(zzServe(t.ro, q), q, t.route(q))
}

// ZZ_C08_Merged: a resource without handlers and with three overlapping pattern
// children in any order is replaced by a resource with handlers that is registered
// later, or it's registered itself where there is one with or without handlers; the
// resource is the root, a resource, a host or a host's resource, and the other has
// static and wildcard children or none. Every segment of up to 3 bytes over a b 1.
func ZZ_C08_Merged() {
	defer zzInstall()()
	var order = zzPick("order", 6)
	var where = zzPick("where", 4)
	var way = zzPick("way", 3)
	var others = zzPick("others", 2)
	var key = "c08m" + string([]rune{
		rune('0' + order), rune('0' + where), rune('0' + way), rune('0' + others),
	})

	var t = zzOnce(key, func() interface{} {
		var kids = []*zzNode{
			zzPt("r0", "[ab]+"), zzPt("r1", "a?b1?"),
			zzNew("r2", []zzSeg{{zzStatic, "a", ""}, {zzWild, "v4", ""}}),
		}

		kids = [][]*zzNode{
			{kids[0], kids[1], kids[2]}, {kids[0], kids[2], kids[1]}, {kids[1], kids[0], kids[2]},
			{kids[1], kids[2], kids[0]}, {kids[2], kids[0], kids[1]}, {kids[2], kids[1], kids[0]},
		}[order]

		var own []*zzNode
		if others == 1 {
			own = []*zzNode{zzSt("s", "b"), zzWc("w")}
		}

		// create returns the resource or the host.
		var create = func(handlers bool, kids []*zzNode) zzResponder {
			var u = []string{"/", "/m", "http://h", "http://h/m"}[where]
			var r zzResponder
			if where == 2 {
				r = NewDormantHost(u)
			} else {
				r = NewDormantResource(u)
			}

			if handlers {
				r.SetHandlerFor("GET", zzHandler("m"))
			}

			for _, k := range kids {
				k.res = r.Resource("/" + zzTmplOf(k.segs))
				k.res.SetHandlerFor("GET", zzHandler(k.id))
			}

			return r
		}

		var t = &zzTree{ro: NewRouter()}
		var register = func(r zzResponder) {
			if where == 2 {
				t.ro.RegisterHost(r.(*Host))
			} else {
				t.ro.RegisterResource(r.(*Resource))
			}
		}

		switch way {
		case 0:
			register(create(false, kids))
			register(create(true, own))
		case 1:
			register(create(true, own))
			register(create(false, kids))
		case 2:
			register(create(false, own))
			register(create(false, kids))
		}

		zzWarm(t.ro, "x", "h")
		var m = zzNew("m", nil, append(append([]*zzNode(nil), kids...), own...)...)
		m.silent = way == 2
		switch where {
		case 0:
			m.root = true
			t.root = m
		case 1:
			m.segs = []zzSeg{{zzStatic, "m", ""}}
			t.root = zzRoot(m)
			t.root.silent = true
		case 2:
			m.segs = []zzSeg{{zzStatic, "h", ""}}
			t.hosts = []*zzNode{zzHost(m)}
		case 3:
			m.segs = []zzSeg{{zzStatic, "m", ""}}
			t.hosts = []*zzNode{zzHost(zzSt("h", "h", m))}
			t.hosts[0].silent = true
		}

		// Only the responders that answer are compared.
		return t
	}).(*zzTree)

	var q = &zzReq{host: []string{"x", "x", "h", "h"}[where]}
	q.path = []string{"/", "/m/", "/", "/m/"}[where] + zzStrIn("segment", "ab1", 1, 3)
	q.split()
	zzCheck(zzServe(t.ro, q), q, t.route(q))
}

// ZZ_C08_Bytes: every path of up to 5 bytes of any value, clean and not only a
// slash, served by the root resource of the three trees.
func ZZ_C08_Bytes() {
	defer zzInstall()()
	var i = zzPick("tree", 3)
	var t = zzOnce("c08"+string(rune('0'+i)), func() interface{} { return zzC08Tree(i) }).(*zzNode)
	var q = &zzReq{host: "x", path: "/" + zzStr("path", 1, 4), method: zzAnyMethod()}
	q.split()
	zzAssume(!q.unclean && !q.slash)
	zzCheck(zzServe(t.res, q), q, t.direct(q))
}

// ZZ_C08_OddTexts: templates of a host and of resources with curly braces, dollar
// signs, colons, percent signs, spaces and backslashes in their texts; every
// clean path of up to 4 bytes (thorough: 5) of those.
func ZZ_C08_OddTexts() {
	defer zzInstall()()
	var i = zzPick("tree", 2)
	var t = zzOnce("c08odd"+string(rune('0'+i)), func() interface{} {
		var kids = []*zzNode{
			zzSt("braces", "{a}", zzSt("below", "{")),
			zzSt("dollar", "$a"),
			zzSt("colon", "a:"),
			zzSt("percent", "%"),
			zzSt("space", "a "),
			zzNew("mixed", []zzSeg{{zzStatic, "{", ""}, {zzWild, "vm", ""}}),
			zzNew("end", []zzSeg{{zzPattern, "ve", "[a$]+"}, {zzStatic, "}$", ""}}),
			zzPt("pattern", "[:{]+"),
		}

		var t = &zzTree{}
		if i == 0 {
			t.root = zzRoot(kids...)
		} else {
			t.hosts = []*zzNode{zzHost(zzSt("h", "$h{}", kids...))}
		}

		t.make()
		return t
	}).(*zzTree)

	var q = &zzReq{host: "$h{}", method: zzAnyMethod()}
	q.path = "/" + zzStrIn("path", "{}$:a% ", 0, 4+zzTier())
	if zzBool("below") {
		q.path += "/{"
	}

	q.split()
	zzAssume(!q.unclean)
	zzCheck(zzServe(t.ro, q), q, t.route(q))
}
