//zz:use route

package nanomux

func init() { zzHandledBy = zzAllMethods }

// zzC16Tree returns a tree below the root (0) or a host (1) with responders on
// four levels, some of which have no handlers.
func zzC16Tree(i int, slash int) *zzTree {
	return zzOnce("c16"+string([]rune{rune('0' + i), rune('0' + slash)}), func() interface{} {
		var c = zzSt("c", "c", zzWc("cw"))
		var b = zzWc("b", c, zzPt("bp", "a+"))
		var d = zzPt("d", "b+", zzSt("dd", "a"))
		var a = zzSt("a", "a", b)
		d.kids[0].silent = true
		var top *zzNode
		var t = &zzTree{}
		if i == 0 {
			top = zzRoot(a, d)
			t.root = top
		} else {
			top = zzHost(zzNew("h", []zzSeg{{zzPattern, "vh", "h+"}}, a, d))
			t.hosts = []*zzNode{top}
			t.root = zzRoot()
		}

		switch slash {
		case 1:
			a.slash = true
		case 2:
			b.slash, c.slash = true, true
		}

		t.make()
		zzWarm(t.ro, "h", "x")
		top.each(func(n *zzNode) { n.real().SetSharedData("data of " + n.id) })
		return t
	}).(*zzTree)
}

func zzC16Check(t *zzTree, q *zzReq) {
	q.split()
	zzAssume(!q.unclean)
	var want = t.route(q)
	zzAssume(want.kind == "handler" || want.kind == "notfound" || want.kind == "status")
	var got = zzServe(t.ro, q)
	zzCheck(got, q, want)
	if want.kind == "handler" {
		var data, ok = got.data.(string)
		zzAssert(ok && data == "data of "+want.id, "the handler sees another responder's data")
	}
}

func zzC16Flags(t *zzTree, i int) {
	var top = t.root
	if i == 1 {
		top = t.hosts[0]
	}

	for _, id := range []string{top.id, "a", "b", "c", "d"} {
		if zzBool("subtree " + id) {
			top.node(id).configure(Config{SubtreeHandler: true})
		}
	}
}

// ZZ_C16_Deepest: trees of four levels below a root resource or a pattern host,
// with static, pattern and wildcard resources, one of them without handlers;
// each of five responders is a subtree handler or not; three choices of which
// have a trailing slash. Every clean path of up to 9 bytes (thorough: 10) over
// / a b c.
func ZZ_C16_Deepest() {
	defer zzInstall()()
	var i = zzPick("tree", 2)
	var t = zzC16Tree(i, zzPick("slash", 3))
	zzC16Flags(t, i)
	var q = &zzReq{host: "hh", method: zzAnyMethod()}
	q.path = "/" + zzStrIn("path", "/abc", 0, 8+zzTier())
	zzC16Check(t, q)
}

// ZZ_C16_Escaped: any bytes in a remaining path of up to 2 bytes (thorough: 3),
// and raw paths over / % 2 F a of up to 4 (thorough: 5) in it, for a subtree handler at the top, in the
// middle or both.
func ZZ_C16_Escaped() {
	defer zzInstall()()
	var i = zzPick("tree", 2)
	var t = zzC16Tree(i, zzPick("slash", 2))
	var top = t.root
	if i == 1 {
		top = t.hosts[0]
	}

	for k, n := 0, zzPick("subtree", 3); k < 2; k++ {
		if n != 1-k {
			[]*zzNode{top, top.node("b")}[k].configure(Config{SubtreeHandler: true})
		}
	}

	var q = &zzReq{host: "hh", raw: zzPick("raw", 2) == 1}
	q.path = []string{"/", "/a/b/c/d/"}[zzPick("prefix", 2)]
	if q.raw {
		q.path += zzStrIn("rest", "/%2Fa", 0, 4+zzTier())
		var _, ok = zzDecode(q.path)
		zzAssume(ok)
	} else {
		q.path += zzStr("rest", 0, 2+zzTier())
	}

	zzC16Check(t, q)
}

// ZZ_C16_Silent: one of six responders of a tree like that (with every kind of
// resource below each of two levels) has no handlers, and each of them
// is a subtree handler or not. Every clean path of up to 8 bytes (thorough: 10)
// over / a b c.
func ZZ_C16_Silent() {
	defer zzInstall()()
	var who = zzPick("silent", 6)
	var t = zzOnce("c16s"+string(rune('0'+who)), func() interface{} {
		var p = zzPt("p", "b+", zzSt("ps", "a"), zzPt("pp", "b+"), zzWc("pw"))
		var w = zzWc("w", zzPt("wp", "a+"))
		var s = zzSt("s", "a", zzSt("ss", "b"), zzPt("sp", "[ac]+"))
		var top = zzRoot(s, p, w)
		for i, n := range []*zzNode{top, s, p, w, p.kids[1], p.kids[2]} {
			n.silent = i == who
		}

		var t = &zzTree{root: top}
		t.make()
		zzWarm(t.ro, "h")
		top.each(func(n *zzNode) { n.real().SetSharedData("data of " + n.id) })
		return t
	}).(*zzTree)

	for _, id := range []string{"root", "s", "p", "w", "pp", "pw"} {
		if zzBool("subtree " + id) {
			t.root.node(id).configure(Config{SubtreeHandler: true})
		}
	}

	var q = &zzReq{host: "h", method: "GET"}
	q.path = "/" + zzStrIn("path", "/abc", 0, 7+2*zzTier())
	zzC16Check(t, q)
}
