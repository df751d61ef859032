//zz:use policy
//zz:use via

package nanomux

import (
	"net/http"
	"strings"
)

// zzMethods splits a list of methods separated by commas and spaces.
func zzMethods(s string) []string {
	var ms []string
	var m string
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == ',' || s[i] == ' ' {
			if m != "" {
				ms = append(ms, m)
			}

			m = ""
			continue
		}

		var c = s[i]
		if 'a' <= c && c <= 'z' {
			c -= 'a' - 'A'
		}

		m += string([]byte{c})
	}

	return ms
}

// zzHandlers is a reference model of the handlers of a responder.
type zzHandlers struct {
	names []string
	ids   []string
	na    string // of the methods that are not allowed
}

func (hs *zzHandlers) index(m string) int {
	for i := range hs.names {
		if hs.names[i] == m {
			return i
		}
	}

	return -1
}

func (hs *zzHandlers) set(m, id string) {
	if i := hs.index(m); i >= 0 {
		hs.ids[i] = id
		return
	}

	hs.names = append(hs.names, m)
	hs.ids = append(hs.ids, id)
}

// sameSet asserts that the list has the methods of the model once each.
func (hs *zzHandlers) sameSet(list []string, what string) {
	zzAssert(len(list) == len(hs.names), what+" has a different number of methods")
	for i, m := range list {
		for j := 0; j < i; j++ {
			zzAssert(list[j] != m, what+" has a method twice")
		}

		zzAssert(hs.index(m) >= 0, what+" has a method without a handler")
	}
}

// check asserts that the request with the method gets the right answer.
func (hs *zzHandlers) check(p *zzPolicy, m string) {
	var q = &zzReq{host: p.host, method: m, path: "/a"}
	if p.n.root || p.n.host {
		q.path = "/"
	}

	var w = &zzWriter{}
	var got = zzServeTo(p.t.ro, q, w)
	var i = hs.index(m)
	switch {
	case len(hs.names) == 0:
		zzAssert(got.kind == "notfound", "a responder without handlers answered")
	case i >= 0 && hs.ids[i] == "options":
		zzAssert(got.kind == "status" && got.code == 200, "OPTIONS was not answered")
		hs.allow(w)
	case i >= 0:
		zzAssert(got.kind == "handler", "the method's handler did not run")
		zzAssert(got.id == hs.ids[i], "the wrong handler ran for the method")
	case hs.na != "":
		zzAssert(got.kind == "handler" && got.id == hs.na, "the not-allowed handler did not run")
	default:
		zzAssert(got.kind == "status" && got.code == 405, "a method without a handler was not answered 405")
		hs.allow(w)
	}
}

func (hs *zzHandlers) allow(w *zzWriter) {
	var v = w.Header()["Allow"]
	zzAssert(len(v) == 1, "there is not one Allow header")
	var list []string
	if v[0] != "" {
		list = strings.Split(v[0], ", ")
	}

	hs.sameSet(list, "Allow")
}

// lookup asserts that the handler found for the method is the one that runs.
func (hs *zzHandlers) lookup(h Handler, list string) {
	var ms = zzMethods(list)
	var id string
	if ms[0] == "!" {
		id = hs.na
		if id == "" {
			id = "405"
		}
	} else if i := hs.index(ms[0]); i >= 0 {
		id = hs.ids[i]
	}

	if id == "" {
		zzAssert(h == nil, "a handler was found for a method that has none")
		return
	}

	zzAssert(h != nil, "the handler of the method was not found")
	zzHits = nil
	var w = &zzWriter{}
	h(w, &http.Request{Method: "X", Header: http.Header{}}, &Args{})
	switch id {
	case "options", "405":
		zzAssert(len(zzHits) == 0 && len(w.codes) == 1, "the found handler is another one")
		hs.allow(w)
	default:
		zzAssert(len(zzHits) == 1 && zzHits[0].id == id, "the found handler is another one")
	}
}

// apply sets a handler for the list of methods and asserts whether it's accepted.
func (hs *zzHandlers) apply(p *zzPolicy, v int, list, id string) {
	var ms = zzMethods(list)
	var ok = !zzPanics(func() { p.n.setHandler(p.t.ro, v, list, zzHandler(id)) })
	zzAssert(ok == (len(ms) > 0), "a list of methods was accepted or rejected wrongly")
	if len(ms) == 0 {
		return
	}

	if len(ms) == 1 && ms[0] == "!" {
		hs.na = id
		return
	}

	for _, m := range ms {
		hs.set(m, id)
	}

	if hs.index("OPTIONS") < 0 {
		hs.set("OPTIONS", "options")
	}
}
