package nanomux

// Helpers shared by the harnesses. They use the public API only.

// zzPanics calls f and reports whether it panicked.
// zzPanics reports whether f was rejected with a panic. A run-time error isn't a
// rejection: it panics on.
func zzPanics(f func()) (p bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(interface{ RuntimeError() }); ok {
				panic(e)
			}

			p = true
		}
	}()

	f()
	return false
}

// zzFails reports whether f panicked, for whatever reason.
func zzFails(f func()) (p bool) {
	defer func() {
		if e := recover(); e != nil {
			p = true
		}
	}()

	f()
	return false
}

func zzSameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}

	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}

	return true
}

type zzRegistrar interface {
	RegisterResource(*Resource)
	RegisterResourceUnder(string, *Resource)
}

// zzCount is the number of resources below.
func zzCount(rs []*Resource) int {
	var n int
	for _, r := range rs {
		n += 1 + zzCount(r.ChildResources())
	}

	return n
}
