package hx

import (
	"encoding/base64"
	"reflect"
	"strconv"
	"strings"
)

// Monitors of the decoding direction. Each starts from documents the type
// accepts, checks that the code handles them, then changes exactly the thing
// the property talks about and judges the outcome against the specification.

func init() {
	props["decode"] = monDecode
	props["kind"] = focus("kind", mutKind)
	props["range"] = focus("range", mutNum)
	props["dup"] = focus("dup", mutDup)
	props["unknown"] = focus("unknown", mutUnknown)
	props["required"] = focusT("required", hasRequired, mutDrop(func(o FieldOpt) bool { return o.Required }))
	props["default"] = focusT("default", hasDefault, mutDrop(func(o FieldOpt) bool { return o.HasDef }))
	props["null"] = focus("null", mutNull)
	props["fixed"] = focusT("fixed", hasArray, mutLen)
}

// mutation is one changed document and what was changed.
type mutation struct {
	doc  func() *J
	what string
}

func styles(r *Rnd, i int) *Style {
	return &Style{R: r, Space: i%2 == 0, Escape: i%3 == 0, Shuf: i%4 == 1}
}

// try decodes one document and judges it; it returns whether the code was right.
func (c *Ctx) try(t *TypeInfo, j *J, txt, what string) bool {
	got := t.Val()
	ge := DecInto(got, []byte(txt))
	vd, me := c.JudgeDec(t, j, t.Val(), got, ge, FieldOpt{})
	c.Case(true, t.ID+"\x00"+txt)
	if me != nil {
		c.Count("refused", 1)
		c.Count("refused-"+me.Why, 1)
	} else {
		c.Count("accepted", 1)
	}
	if what != "" && !vd.OK() {
		vd.What = what + ": " + vd.What
	}
	return c.Report(vd, t, txt, ShowV(got))
}

// base makes a document that the code decodes as specified; ok is false when
// it does not (a matter of the decode property, not of the focused ones).
func (c *Ctx) base(t *TypeInfo, r *Rnd, full bool) (*J, bool) {
	m := modelFor(t)
	m.Full = full
	j := m.RandDoc(t.Type(), r, 0, FieldOpt{})
	got := t.Val()
	ge := DecInto(got, []byte(j.Text(nil)))
	vd, _ := c.JudgeDec(t, j, t.Val(), got, ge, FieldOpt{})
	if !vd.OK() {
		c.Count("baseline-skipped", 1)
		return nil, false
	}
	c.Count("baseline", 1)
	return j, true
}

func focus(name string, f func(t *TypeInfo, j *J, r *Rnd) []mutation) func(*Ctx) {
	return focusT(name, func(reflect.Type) bool { return true }, f)
}

func focusT(name string, want func(reflect.Type) bool, f func(t *TypeInfo, j *J, r *Rnd) []mutation) func(*Ctx) {
	return func(c *Ctx) {
		c.Each(func(t *TypeInfo, r *Rnd) {
			if !t.Dec() || !want(t.Type()) {
				return
			}
			c.Count("types-exercised", 1)
			n := 4 * c.Scale
			for i := 0; i < n; i++ {
				j, ok := c.base(t, r, i%2 == 0)
				if !ok {
					continue
				}
				ms := f(t, j, r)
				lim := 250
				if len(ms) > lim {
					for k := range ms {
						o := k + r.N(len(ms)-k)
						ms[k], ms[o] = ms[o], ms[k]
					}
					ms = ms[:lim]
				}
				for k, x := range ms {
					doc := x.doc()
					txt := doc.Text(styles(r, k))
					if k < 2 {
						c.Sample(t.Class, x.what+" "+txt)
					}
					c.try(t, doc, txt, x.what)
				}
			}
		})
	}
}

func monDecode(c *Ctx) {
	c.Each(func(t *TypeInfo, r *Rnd) {
		if !t.Dec() {
			return
		}
		c.Count("types-exercised", 1)
		m := modelFor(t)
		for i := 0; i < 60*c.Scale; i++ {
			m.Full = i%5 == 0
			j := m.RandDoc(t.Type(), r, 0, FieldOpt{})
			txt := j.Text(styles(r, i))
			if i < 1 {
				c.Sample(t.Class, txt)
			}
			c.try(t, j, txt, "")
		}
	})
}

// place is a node of a document together with the type it decodes into.
type place struct {
	i    int // preorder index
	j    *J
	t    reflect.Type // nil below unknown members
	o    FieldOpt
	path []string
}

func places(t reflect.Type, j *J) []place {
	var out []place
	var rec func(t reflect.Type, o FieldOpt, j *J, path []string)
	rec = func(t reflect.Type, o FieldOpt, j *J, path []string) {
		for t != nil && t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		out = append(out, place{len(out), j, t, o, append([]string(nil), path...)})
		switch j.K {
		case KArr:
			var e reflect.Type
			if t != nil && (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) {
				e = t.Elem()
			}
			for i, x := range j.A {
				rec(e, FieldOpt{}, x, append(path, strconv.Itoa(i)))
			}
		case KObj:
			for i, k := range j.Keys {
				var e reflect.Type
				var fo FieldOpt
				if t != nil && t.Kind() == reflect.Map {
					e = t.Elem()
				} else if t != nil && t.Kind() == reflect.Struct && !isTime(t) {
					for _, f := range fieldsOf(t) {
						if f.Opt.Name == k {
							e, fo = f.Type, f.Opt
						}
					}
				}
				rec(e, fo, j.Vals[i], append(path, k))
			}
		}
	}
	rec(t, FieldOpt{}, j, nil)
	return out
}

func (p place) isStruct() bool {
	return p.t != nil && p.t.Kind() == reflect.Struct && !isTime(p.t) && p.j.K == KObj
}

func (p place) dot() string { return strings.Join(p.path, ".") }

// edit copies a document and changes the copy at one place.
func edit(j *J, i int, f func(n *J)) func() *J {
	return func() *J {
		d := j.clone()
		f(nodes(d, nil, nil)[i].j)
		return d
	}
}

func insert(o *J, p int, k string, v *J) {
	o.Keys = append(o.Keys[:p:p], append([]string{k}, o.Keys[p:]...)...)
	o.Vals = append(o.Vals[:p:p], append([]*J{v}, o.Vals[p:]...)...)
}

func remove(o *J, p int) {
	o.Keys = append(o.Keys[:p:p], o.Keys[p+1:]...)
	o.Vals = append(o.Vals[:p:p], o.Vals[p+1:]...)
}

func mutKind(t *TypeInfo, j *J, r *Rnd) []mutation {
	var out []mutation
	repl := []func() *J{
		func() *J { return jBool(r.N(2) == 0) },
		func() *J { return jNum(pick(r, []string{"0", "1", "-1", "1.5", "12345"})) },
		func() *J { return jStr(pick(r, []string{"", "1", "true", "null", "[]", "text", "{}"})) },
		func() *J { return jArr() },
		func() *J { return jArr(jNum("1")) },
		func() *J { return jArr(jStr("a"), jNull()) },
		func() *J { return jObj() },
		func() *J { return jObj().put("k", jNum("1")) },
		func() *J { return jArr(jObj()) },
		func() *J { return jArr(jArr()) },
	}
	for _, p := range places(t.Type(), j) {
		if p.t == nil {
			continue
		}
		for _, f := range repl {
			v := f()
			if v.K == p.j.K {
				continue
			}
			out = append(out, mutation{edit(j, p.i, func(n *J) { *n = *v }), "kind " + v.K.String() + " at " + p.dot()})
		}
	}
	return out
}

func mutNum(t *TypeInfo, j *J, r *Rnd) []mutation {
	var out []mutation
	for _, p := range places(t.Type(), j) {
		if p.j.K != KNum || p.t == nil {
			continue
		}
		set := func(s string) {
			out = append(out, mutation{edit(j, p.i, func(n *J) { n.Num = s }), "number " + s + " for " + p.t.Kind().String()})
		}
		for _, s := range numPool {
			set(s)
		}
		set(strconv.FormatInt(int64(r.U64()), 10))
		set(strconv.FormatInt(int64(r.U64())>>33, 10))
	}
	return out
}

func mutDup(t *TypeInfo, j *J, r *Rnd) []mutation {
	var out []mutation
	for _, p := range places(t.Type(), j) {
		if !p.isStruct() {
			continue
		}
		for _, f := range fieldsOf(p.t) {
			key := f.Opt.Name
			has := -1
			for k := range p.j.Keys {
				if p.j.Keys[k] == key {
					has = k
				}
			}
			if has < 0 {
				continue
			}
			for v := 0; v < 3; v++ {
				val := p.j.Vals[has].clone()
				switch v {
				case 1:
					val = jNull()
				case 2:
					val = randScalar(r)
				}
				q := r.N(len(p.j.Keys) + 1)
				n := r.N(8)
				out = append(out, mutation{edit(j, p.i, func(o *J) {
					insert(o, q, key, val)
					if n == 0 { // three times
						insert(o, len(o.Keys), key, val)
					}
				}), "duplicate " + strconv.Quote(key)})
			}
		}
	}
	return out
}

func mutUnknown(t *TypeInfo, j *J, r *Rnd) []mutation {
	var out []mutation
	for _, p := range places(t.Type(), j) {
		if !p.isStruct() {
			continue
		}
		known := map[string]bool{}
		keys := append([]string(nil), unknownKeys...)
		for _, f := range fieldsOf(p.t) {
			k := f.Opt.Name
			known[k] = true
			keys = append(keys, k+"x", "x"+k, strings.ToUpper(k), strings.ToLower(k), " "+k, k+" ", k+"\x00", f.GoName, strings.ToLower(f.GoName), k+"."+k)
			if len(k) > 1 {
				keys = append(keys, toValid(k[:len(k)-1]), toValid(k[1:]))
			}
		}
		for i := 0; i < p.t.NumField(); i++ {
			if f := p.t.Field(i); parseOpt(f.Tag).Skip {
				keys = append(keys, "-", "-", f.Name, strings.ToLower(f.Name))
			}
		}
		for n := 0; n < 40; n++ {
			k := pick(r, keys)
			if known[k] {
				continue
			}
			v := randScalar(r)
			if r.N(6) == 0 {
				v = jObj().put("a", jArr(jObj(), jNull())).put("a", jNum("1"))
			}
			q := r.N(len(p.j.Keys) + 1)
			m := r.N(6)
			out = append(out, mutation{edit(j, p.i, func(o *J) {
				insert(o, q, k, v)
				if m == 0 { // an unknown key may even come twice
					insert(o, r.N(len(o.Keys)+1), k, v)
				}
			}), "unknown key " + strconv.Quote(k)})
		}
	}
	return out
}

// mutDrop removes or nulls members chosen by their declaration.
func mutDrop(want func(FieldOpt) bool) func(t *TypeInfo, j *J, r *Rnd) []mutation {
	return func(t *TypeInfo, j *J, r *Rnd) []mutation {
		var out []mutation
		for _, p := range places(t.Type(), j) {
			if !p.isStruct() {
				continue
			}
			var idx []int
			for k, key := range p.j.Keys {
				for _, f := range fieldsOf(p.t) {
					if f.Opt.Name == key && want(f.Opt) {
						idx = append(idx, k)
						k := k
						out = append(out, mutation{edit(j, p.i, func(o *J) { remove(o, k) }), "without " + strconv.Quote(key)})
						out = append(out, mutation{edit(j, p.i, func(o *J) { *o.Vals[k] = *jNull() }), "null for " + strconv.Quote(key)})
					}
				}
			}
			if len(idx) == 0 {
				continue
			}
			for x := 0; x < 3 && len(idx) > 1; x++ { // several at once
				var mask []int
				for i := len(idx) - 1; i >= 0; i-- {
					if r.N(2) == 0 {
						mask = append(mask, idx[i])
					}
				}
				nul := r.N(3) == 0
				out = append(out, mutation{edit(j, p.i, func(o *J) {
					for _, k := range mask {
						if nul {
							*o.Vals[k] = *jNull()
						} else {
							remove(o, k)
						}
					}
				}), "several members left out"})
			}
			out = append(out, mutation{edit(j, p.i, func(o *J) { o.Keys, o.Vals = nil, nil }), "empty object"})
		}
		return out
	}
}

func mutNull(t *TypeInfo, j *J, r *Rnd) []mutation {
	var out []mutation
	ps := places(t.Type(), j)
	for _, p := range ps {
		if p.t == nil {
			continue
		}
		out = append(out, mutation{edit(j, p.i, func(n *J) { *n = *jNull() }), "null at " + p.dot()})
	}
	for x := 0; x < 20; x++ {
		s := r.U64()
		out = append(out, mutation{func() *J {
			d, r := j.clone(), NewRnd(s)
			for _, n := range nodes(d, nil, nil)[1:] {
				if r.N(6) == 0 {
					*n.j = *jNull()
				}
			}
			return d
		}, "several nulls"})
	}
	for _, x := range mutDrop(func(o FieldOpt) bool { return !o.Required && !o.HasDef })(t, j, r) {
		if strings.HasPrefix(x.what, "without") {
			out = append(out, x)
		}
	}
	return out
}

func mutLen(t *TypeInfo, j *J, r *Rnd) []mutation {
	var out []mutation
	for _, p := range places(t.Type(), j) {
		if p.t == nil || p.t.Kind() != reflect.Array || isUUID(p.t) {
			continue
		}
		if p.j.K == KStr {
			for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 15, 16, 17, 20, 31, 32, 33} {
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(r.U64())
				}
				s := base64.StdEncoding.EncodeToString(b)
				out = append(out, mutation{edit(j, p.i, func(o *J) { o.S = s }), strconv.Itoa(n) + " bytes for " + p.t.String()})
			}
			continue
		}
		if p.j.K != KArr || len(p.j.A) == 0 {
			continue
		}
		for _, l := range []int{0, 1, 2, 3, 4, 5, 7, 20, len(p.j.A) - 1, len(p.j.A) + 1, 2 * len(p.j.A)} {
			l := l
			out = append(out, mutation{edit(j, p.i, func(a *J) {
				e := a.A[len(a.A)-1]
				if len(a.A) > l {
					a.A = a.A[:l]
				}
				for len(a.A) < l {
					a.A = append(a.A, e.clone())
				}
			}), "list of " + strconv.Itoa(l) + " for " + p.t.String()})
		}
	}
	return out
}

// ---- which types a focused monitor looks at ----

func anyType(t reflect.Type, f func(reflect.Type, FieldOpt) bool) bool {
	return anyTypeOpt(t, FieldOpt{}, f, map[reflect.Type]bool{})
}

func anyTypeOpt(t reflect.Type, o FieldOpt, f func(reflect.Type, FieldOpt) bool, seen map[reflect.Type]bool) bool {
	if f(t, o) {
		return true
	}
	if isTime(t) || isUUID(t) {
		return false
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return anyTypeOpt(t.Elem(), FieldOpt{}, f, seen)
	case reflect.Struct:
		if seen[t] {
			return false
		}
		seen[t] = true
		for i := 0; i < t.NumField(); i++ {
			if anyTypeOpt(t.Field(i).Type, parseOpt(t.Field(i).Tag), f, seen) {
				return true
			}
		}
	}
	return false
}

func hasRequired(t reflect.Type) bool {
	return anyType(t, func(_ reflect.Type, o FieldOpt) bool { return o.Required })
}
func hasDefault(t reflect.Type) bool {
	return anyType(t, func(_ reflect.Type, o FieldOpt) bool { return o.HasDef })
}
func hasArray(t reflect.Type) bool {
	return anyType(t, func(t reflect.Type, o FieldOpt) bool { return t.Kind() == reflect.Array && !isUUID(t) })
}
