//zz:use route

package nanomux

// zzPolicy is a router with a host and a root resource, in which one responder
// is the subject of the check. Everything else has the default configuration.
type zzPolicy struct {
	t    *zzTree
	n    *zzNode
	host string // host of the requests that go to the subject's tree
}

const zzPolicies = 5

// zzPolicyOf returns the tree in which the subject is the root resource (0),
// a static (1) or a wildcard (2) resource below it, a host (3), or a resource
// below the host (4). The subject's URL template has the https scheme and a
// trailing slash if asked (the root never has one).
func zzPolicyOf(i int, https, slash bool) *zzPolicy {
	slash = slash && i != 0
	var key = "policy" + string(rune('0'+i))
	if https {
		key += "s"
	}

	if slash {
		key += "/"
	}

	return zzOnce(key, func() interface{} {
		var p = &zzPolicy{host: "x"}
		var below = zzSt("below", "b")
		switch i {
		case 0:
			p.n = zzRoot(below)
		case 1:
			p.n = zzSt("subject", "a", below)
		case 2:
			p.n = zzWc("subject", below)
		case 3:
			p.host = "h"
			p.n = zzHost(zzSt("subject", "h", below))
		case 4:
			p.host = "h"
			p.n = zzSt("subject", "a", below)
		}

		p.n.https, p.n.slash = https, slash
		p.t = &zzTree{}
		switch i {
		case 0:
			p.t.root = p.n
		case 1, 2:
			p.t.root = zzRoot(p.n)
		case 3:
			p.t.root = zzRoot()
			p.t.hosts = []*zzNode{p.n}
		case 4:
			p.t.root = zzRoot()
			p.t.hosts = []*zzNode{zzHost(zzSt("host", "h", p.n))}
		}

		p.t.make()
		zzWarm(p.t.ro, "x", "h")
		return p
	}).(*zzPolicy)
}
