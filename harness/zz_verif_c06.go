//zz:use route

package nanomux

// zzC06Tree has static segments with a slash, a percent sign, a space and with
// what looks like an escape, and wildcards everywhere else.
func zzC06Tree() *zzTree {
	return zzOnce("c06", func() interface{} {
		var below = func(p string) []*zzNode {
			return []*zzNode{
				zzSt(p+"slash", "a/2"),
				zzSt(p+"esc", "%5F"),
				zzSt(p+"a", "a"),
				zzWc(p + "w"),
			}
		}

		var sub = zzWc("w", below("w")...)
		var t = &zzTree{
			root: zzRoot(append(below("r")[:3], sub)...),
			hosts: []*zzNode{
				zzHost(zzSt("h", "h", zzPt("hp", `[a/%]+`, zzWc("hpw")), zzSt("hs", " "))),
			},
		}

		t.make()
		zzWarm(t.ro, "h", "x")
		return t
	}).(*zzTree)
}

func zzC06Check(q *zzReq) {
	defer zzInstall()()
	var t = zzC06Tree()
	q.split()
	var want = t.route(q)
	zzAssume(want.kind == "handler" || want.kind == "bad" || want.kind == "notfound")
	var got = zzServe(t.ro, q)
	zzCover(want.kind)
	zzAssert(got.kind == want.kind, "the answer is "+got.kind+" instead of "+want.kind)
	if want.kind == "handler" {
		zzAssert(got.id == want.id, "the segments led to the wrong resource")
		for i := 0; i < len(want.vals); i += 2 {
			zzAssert(
				got.vals.Get(want.vals[i]) == want.vals[i+1],
				"a value isn't the decoded segment",
			)
		}
	}
}

// ZZ_C06_Raw: every raw (escaped) path of up to 9 bytes (thorough: 11) over
// / % 2 F 5 a, whose escapes may be malformed, sent to a host or to the root
// resource with static, pattern and wildcard resources two levels deep.
func ZZ_C06_Raw() {
	var q = &zzReq{host: "h", raw: true}
	if zzPick("tree", 2) == 1 {
		q.host = "x"
	}

	q.path = "/" + zzStrIn("path", "/%2F5a", 0, 8+2*zzTier())
	zzC06Check(q)
}

// ZZ_C06_Hex: raw paths with an escape of any two characters between any bytes,
// in the first or in the second segment.
func ZZ_C06_Hex() {
	var q = &zzReq{host: "x", raw: true}
	var esc = zzStr("before", 0, 1) + "%" + zzStr("hex", 2, 2) + zzStr("after", 0, 1)
	if zzPick("where", 2) == 0 {
		q.path = "/" + esc
	} else {
		q.path = "/a2/" + esc
	}

	zzC06Check(q)
}

// ZZ_C06_Subtree: every raw path of up to 6 bytes (thorough: 8) over / % 2 F a
// with every host and resource being a subtree handler that takes any path as it is.
func ZZ_C06_Subtree() {
	defer zzInstall()()
	var t = zzOnce("c06 subtree", func() interface{} {
		var t = &zzTree{
			root:  zzRoot(zzSt("a", "a/", zzPt("p", "[a2]")), zzWc("w", zzWc("ww"))),
			hosts: []*zzNode{zzHost(zzSt("h", "h", zzPt("hp", `[a/%]+`, zzSt("hs", "2"))))},
		}

		t.make()
		for _, n := range []*zzNode{t.root, t.hosts[0]} {
			n.each(func(n *zzNode) {
				n.configure(Config{SubtreeHandler: true, HandlesThePathAsIs: true})
			})
		}

		return t
	}).(*zzTree)

	var q = &zzReq{host: []string{"h", "x"}[zzPick("host", 2)], raw: true}
	q.path = "/" + zzStrIn("path", "/%2Fa", 0, 6+2*zzTier())
	q.split()
	var want = t.route(q)
	var got = zzServe(t.ro, q)
	zzCover(want.kind)
	zzAssert(got.kind == want.kind, "the answer is "+got.kind+" instead of "+want.kind)
	if want.kind == "handler" {
		zzAssert(got.id == want.id, "the segments led to the wrong resource")
		for i := 0; i < len(want.vals); i += 2 {
			zzAssert(
				got.vals.Get(want.vals[i]) == want.vals[i+1],
				"a value isn't the decoded segment",
			)
		}
	}
}

// ZZ_C06_Plain: every path of up to 5 bytes without a raw path, in which
// percent signs are ordinary.
func ZZ_C06_Plain() {
	var q = &zzReq{host: "x"}
	if zzPick("tree", 2) == 1 {
		q.host = "h"
	}

	q.path = "/" + zzStr("path", 0, 4)
	zzC06Check(q)
}
