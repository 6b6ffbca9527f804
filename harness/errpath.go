package hx

import (
	"reflect"
	"strconv"
	"strings"
)

func init() { props["errpath"] = monErrPath }

// shownPath takes the dotted path out of an error text.
func shownPath(s string) (string, bool) {
	const pre = "error parsing '"
	i := strings.Index(s, pre)
	if i < 0 {
		return "", false
	}
	s = s[i+len(pre):]
	k := strings.Index(s, "': ")
	if k < 0 {
		return "", false
	}
	return s[:k], true
}

// subPath: got is made of steps of want, in order.
func subPath(got string, want []string) bool {
	if got == "" {
		return true
	}
	for i, w := range want {
		if got == w {
			return true
		}
		if strings.HasPrefix(got, w+".") && subPath(got[len(w)+1:], want[i+1:]) {
			return true
		}
	}
	return false
}

// monErrPath breaks one place of a good document and reads the error.
func monErrPath(c *Ctx) {
	c.Each(func(t *TypeInfo, r *Rnd) {
		if !t.Dec() {
			return
		}
		c.Count("types-exercised", 1)
		for i := 0; i < 4*c.Scale; i++ {
			j, ok := c.base(t, r, i%2 == 0)
			if !ok {
				continue
			}
			var cause string
			judge := func(doc *J, path []string, exact bool, what string) {
				txt := doc.Text(nil)
				for _, k := range path {
					if k == "" || k[0] == '.' {
						return // not told apart from the separator
					}
				}
				// the specification must refuse it for this very reason
				me := modelFor(t).Decode(t.Val(), doc, FieldOpt{Top: true})
				if me == nil || me.Why != cause {
					return
				}
				err := DecInto(t.Val(), []byte(txt))
				if err == nil || isPanic(err) {
					c.Count("not-refused", 1) // judged elsewhere
					return
				}
				c.Case(true, t.ID+"\x00"+txt)
				dot := strings.Join(path, ".")
				// how a declared text type and an inlined struct label themselves
				s := strings.ReplaceAll(strings.ReplaceAll(err.Error(), ".(root)", ""), "parsing '.", "parsing '")
				flat := s // without the empty steps of embedded parts
				for strings.Contains(flat, "..") || strings.Contains(flat, "parsing '.") {
					flat = strings.ReplaceAll(strings.ReplaceAll(flat, "..", "."), "parsing '.", "parsing '")
				}
				c.Sample(t.Class, what+" at "+dot+": "+s)
				if strings.Contains(s, "%!") && !strings.Contains(txt, "%!") {
					c.Report(Verdict{What: what + ": the error text is garbled: " + s}, t, txt, s)
				}
				if cause == "required" || cause == "duplicate" || cause == "unknown" {
					// every place such a text names is on the way to the member
					if ws, wf := strings.Split(s, "'"), strings.Split(flat, "'"); len(ws) == len(wf) && len(ws)%2 == 1 && !strings.Contains(dot, "'") {
						for k := 1; k < len(ws); k += 2 {
							c.Count("places-named", 1)
							if !subPath(ws[k], path) && !subPath(wf[k], path) {
								c.Report(Verdict{What: what + " at " + strconv.Quote(dot) + ": the error names " + strconv.Quote(ws[k]) + ": " + s}, t, txt, s)
								break
							}
						}
					}
				}
				if exact {
					c.Count("exact-"+cause, 1)
					named := strings.Contains(s, "'"+dot+"'") || strings.Contains(flat, "'"+dot+"'")
					if !named && cause == "unknown" {
						// the container, then the member
						n := len(path) - 1
						named = strings.Contains(s, "'"+path[n]+"'") && (n == 0 || strings.Contains(s, "'"+strings.Join(path[:n], ".")+"'"))
					}
					if !named {
						c.Report(Verdict{What: what + ": the error does not name " + strconv.Quote(dot) + ": " + s}, t, txt, s)
					}
				} else if p, ok := shownPath(s); ok {
					c.Count("partial-"+cause, 1)
					f, _ := shownPath(flat)
					if !subPath(p, path) && !subPath(f, path) {
						c.Report(Verdict{What: what + " at " + strconv.Quote(dot) + ": the error names another place: " + s}, t, txt, s)
					}
				}
			}
			ps := places(t.Type(), j)
			for _, p := range ps {
				if p.t == nil {
					continue
				}
				if len(p.path) > 0 {
					exact := lastIsKey(t.Type(), p.path) && !isBytes(p.t)
					cause = "kind"
					v := jArr(jArr(jObj()))
					if k := p.t.Kind(); k == reflect.Slice || k == reflect.Array {
						v = jStr("zz")
					}
					judge(edit(j, p.i, func(n *J) { *n = *v })(), p.path, exact, "kind")
					if p.j.K == KNum {
						cause = "range"
						judge(edit(j, p.i, func(n *J) { n.Num = "99999999999999999999999" })(), p.path, exact, "number out of range")
						judge(edit(j, p.i, func(n *J) { n.Num = "70000" })(), p.path, exact, "number out of range")
						judge(edit(j, p.i, func(n *J) { n.Num = "1.5" })(), p.path, exact, "fraction")
					}
					if p.j.K == KStr && (isTime(p.t) || isUUID(p.t)) {
						cause = "format"
						judge(edit(j, p.i, func(n *J) { n.S = "never" })(), p.path, exact, "bad text")
					}
				}
				if !p.isStruct() {
					continue
				}
				sub := func(k string) []string { return append(append([]string(nil), p.path...), k) }
				exact := len(p.path) == 0 || lastIsKey(t.Type(), p.path)
				for x, k := range p.j.Keys {
					known := false
					req := false
					for _, f := range fieldsOf(p.t) {
						if f.Opt.Name == k {
							known, req = true, f.Opt.Required && !f.Opt.HasDef
						}
					}
					if !known {
						continue
					}
					x := x
					cause = "duplicate"
					judge(edit(j, p.i, func(o *J) { insert(o, len(o.Keys), k, o.Vals[x].clone()) })(), sub(k), exact, "duplicate")
					if req {
						cause = "required"
						judge(edit(j, p.i, func(o *J) { remove(o, x) })(), sub(k), exact, "required member missing")
					}
				}
				cause = "unknown"
				for _, k := range []string{"no-such-key", "Nope", "ключик"} {
					judge(edit(j, p.i, func(o *J) { insert(o, r.N(len(o.Keys)+1), k, jNum("1")) })(), sub(k), exact, "unknown member")
				}
			}
		}
	})
}

// lastIsKey: the last step of the path is a member or a map key, and no step
// before is an element of a list of lists or of a list of declared lists.
func lastIsKey(t reflect.Type, path []string) bool {
	last := false
	for _, s := range path {
		for t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		switch t.Kind() {
		case reflect.Struct:
			last = true
			ok := false
			for _, f := range fieldsOf(t) {
				if f.Opt.Name == s {
					t, ok = f.Type, true
					break
				}
			}
			if !ok {
				return false
			}
		case reflect.Map:
			last = true
			t = t.Elem()
		case reflect.Slice, reflect.Array:
			last = false
			t = t.Elem()
		default:
			return false
		}
	}
	return last
}
