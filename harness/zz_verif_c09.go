//zz:use route

package nanomux

func init() { zzHandledBy = zzAllMethods }

func zzC09Tree(i int) *zzTree {
	return zzOnce("c09"+string(rune('0'+i)), func() interface{} {
		var t = &zzTree{}
		var wild = func(id, before, after string, kids ...*zzNode) *zzNode {
			var segs []zzSeg
			if before != "" {
				segs = append(segs, zzSeg{zzStatic, before, ""})
			}

			segs = append(segs, zzSeg{zzWild, "v" + id, ""})
			if after != "" {
				segs = append(segs, zzSeg{zzStatic, after, ""})
			}

			return zzHost(zzNew(id, segs, kids...))
		}

		switch i {
		case 0:
			t.hosts = []*zzNode{
				zzHost(zzPt("p", `[ab]+`, zzWc("pw"))),
				wild("w", "", ".b"),
				zzHost(zzSt("s", "a.b", zzSt("sa", "a"))),
				zzHost(zzNew("q", []zzSeg{
					{zzPattern, "v1", "a"}, {zzStatic, ".", ""}, {zzPattern, "v2", ".+"},
				}, zzWc("qw"))),
				zzHost(zzSt("s2", "b")),
			}

			t.root = zzRoot(zzWc("rw"))
		case 1:
			t.hosts = []*zzNode{
				// Without handlers of its own.
				zzHost(zzPt("p", `b`, zzSt("pa", "a"))),
				zzHost(zzNew("d", []zzSeg{
					{zzPattern, "v", "a+"}, {zzStatic, ".", ""}, {zzPattern, "v", "a+"},
				})),
				wild("w", "a", "", zzWc("ww")),
				wild("x", "", "a"),
				zzHost(zzSt("s", "::1")),
				zzHost(zzSt("t", "[::1]")),
			}

			t.hosts[0].silent = true
			t.root = zzRoot(zzSt("ra", "a"))
		case 2:
			t.hosts = []*zzNode{
				wild("w", "a", "b"),
				zzHost(zzSt("s", "ab")),
			}
		case 3:
			t.root = zzRoot(zzSt("ra", "a"))
		case 4:
			// Static hosts that have nothing or only redirect.
			t.hosts = []*zzNode{
				zzHost(zzSt("s", "a.b")),
				zzHost(zzSt("s2", "b")),
				zzHost(zzSt("s3", "a")),
				wild("w", "", "b", zzWc("ww")),
				zzHost(zzPt("p", "[ab]+")),
			}

			t.hosts[0].silent, t.hosts[1].silent, t.hosts[3].silent = true, true, true
			t.root = zzRoot(zzWc("rw"))
		}

		t.make()
		if i == 4 {
			t.hosts[1].redirect("/t", 302)
			t.hosts[2].redirectAny("/u", 301)
		}

		return t
	}).(*zzTree)
}

// ZZ_C09_Hosts: five routers with up to six static, pattern and mixed hosts,
// with and without a root resource; every request host of up to 6 bytes
// (thorough: 8) over a b . : 1 [ ] given in the request, with another host in its
// URL or not, or only in its URL, and the paths /, /a, /b and an empty one.
func ZZ_C09_Hosts() {
	defer zzInstall()()
	var t = zzC09Tree(zzPick("router", 5))
	var q = &zzReq{
		host:   zzStrIn("host", "ab.:1[]", 0, 6+2*zzTier()),
		path:   []string{"/", "/a", "/b", ""}[zzPick("path", 4)],
		method: zzAnyMethod(),
	}

	switch zzPick("url host", 3) {
	case 1:
		q.urlHost = true
	case 2:
		zzAssume(q.path != "")
		q.otherHost = "b"
	}

	q.split()
	zzCheck(zzServe(t.ro, q), q, t.route(q))
}

// ZZ_C09_Declining: the same routers, whose handlers may decline; no other host
// and not the root is asked then. Hosts of up to 4 bytes (thorough: 6) over a b .
func ZZ_C09_Declining() {
	defer zzInstall()()
	var q = &zzReq{
		host:   zzStrIn("host", "ab.", 0, 4+2*zzTier()),
		path:   []string{"/", "/a", "/b"}[zzPick("path", 3)],
		method: "PUT",
	}

	q.split()
	zzCheckChain(zzC09Tree(zzPick("router", 4)), q)
}

// ZZ_C09_AnyHost: the same with any host of up to 4 bytes.
func ZZ_C09_AnyHost() {
	defer zzInstall()()
	var t = zzC09Tree(zzPick("router", 5))
	var q = &zzReq{host: zzStr("host", 0, 4), path: "/a", method: zzAnyMethod()}
	q.split()
	zzCheck(zzServe(t.ro, q), q, t.route(q))
}

// ZZ_C09_Order: three hosts chosen from six overlapping templates and registered
// in every order, with or without a root resource; every host of up to 4 bytes
// over a b . - static hosts come first and pattern hosts in order.
func ZZ_C09_Order() {
	defer zzInstall()()
	var k [3]int
	var key = "c09o"
	for i := range k {
		k[i] = zzPick("template", 6)
		for j := 0; j < i; j++ {
			zzAssume(k[j] != k[i])
		}

		key += string(rune('0' + k[i]))
	}

	var root = zzPick("root", 2) == 1
	if root {
		key += "r"
	}

	var t = zzOnce(key, func() interface{} {
		var t = &zzTree{}
		for i := range k {
			var h *zzNode
			switch k[i] {
			case 0:
				h = zzSt("h0", "a")
			case 1:
				h = zzSt("h1", "a.b")
			case 2:
				h = zzPt("h2", "[ab]+")
			case 3:
				h = zzPt("h3", "a.?b?")
			case 4:
				h = zzNew("h4", []zzSeg{{zzWild, "v4", ""}, {zzStatic, ".b", ""}})
			case 5:
				h = zzNew("h5", []zzSeg{{zzStatic, "a", ""}, {zzWild, "v5", ""}})
			}

			t.hosts = append(t.hosts, zzHost(h))
		}

		if root {
			t.root = zzRoot()
		}

		t.make()
		return t
	}).(*zzTree)

	var q = &zzReq{host: zzStrIn("host", "ab.", 0, 4), path: "/"}
	q.split()
	zzCheck(zzServe(t.ro, q), q, t.route(q))
}
