package hx

import (
	"bytes"
	"encoding/json"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/mailru/easyjson/jwriter"
	"github.com/valyala/fastjson"
)

// Monitors of the encoding direction and of the two directions together.

func init() {
	props["encode"] = monEncode
	props["omitempty"] = monOmit
	props["roundtrip"] = monRoundTrip
	props["api"] = monAPI
	props["iszero"] = monIsZero
	props["reset"] = monReset
}

// sparse makes a value most of whose leaves are zero, nil or empty.
func sparse(v reflect.Value, r *Rnd, o FieldOpt) { sparseAt(v, r, 0, o) }

func sparseAt(v reflect.Value, r *Rnd, depth int, o FieldOpt) {
	t := v.Type()
	if isTime(t) || isUUID(t) {
		if r.N(2) == 0 {
			RandValue(v, r, 0, o)
		}
		return
	}
	if depth > 5 && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Slice || v.Kind() == reflect.Map) {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if fo := parseOpt(t.Field(i).Tag); v.Field(i).CanSet() && (!fo.Skip || Hidden) {
				sparseAt(v.Field(i), r, depth, fo)
			}
		}
		return
	case reflect.Ptr:
		switch r.N(3) {
		case 0:
			p := reflect.New(t.Elem())
			sparseAt(p.Elem(), r, depth+1, o)
			if namedPtr(t.Elem()) && p.Elem().IsNil() {
				return
			}
			v.Set(p.Convert(t))
		}
		return
	case reflect.Slice:
		switch r.N(4) {
		case 0:
			v.Set(reflect.MakeSlice(t, 0, r.N(3)))
		case 1:
			s := reflect.MakeSlice(t, 1+r.N(2), 4)
			for i := 0; i < s.Len(); i++ {
				sparseAt(s.Index(i), r, depth+1, FieldOpt{})
			}
			v.Set(s)
		}
		return
	case reflect.Map:
		switch r.N(4) {
		case 0:
			v.Set(reflect.MakeMap(t))
		case 1:
			m := reflect.MakeMap(t)
			for i := r.N(3); i >= 0; i-- {
				e := reflect.New(t.Elem()).Elem()
				sparseAt(e, r, depth+1, FieldOpt{})
				m.SetMapIndex(randKey(t.Key(), r), e)
			}
			v.Set(m)
		}
		return
	case reflect.Array:
		if r.N(2) == 0 {
			for i := 0; i < v.Len(); i++ {
				sparseAt(v.Index(i), r, depth+1, FieldOpt{})
			}
		}
		return
	}
	if r.N(5) < 2 {
		RandValue(v, r, 3, o)
	}
}

// randVal picks a value of t: the zero value first, then dense and sparse ones.
func randVal(t *TypeInfo, r *Rnd, i int) reflect.Value {
	v := t.Val()
	switch {
	case i == 0:
	case i%2 == 0:
		sparse(v, r, FieldOpt{})
	default:
		RandValue(v, r, 0, FieldOpt{})
	}
	return v
}

func monEncode(c *Ctx) {
	c.Each(func(t *TypeInfo, r *Rnd) {
		if !t.Enc() {
			return
		}
		c.Count("types-exercised", 1)
		for i := 0; i < 60*c.Scale; i++ {
			v := randVal(t, r, i)
			b, err := Enc(v)
			vd, _ := c.JudgeEnc(t, v, b, err)
			c.Case(i > 0, t.ID+"\x00"+string(b))
			if i == 1 {
				c.Sample(t.Class, string(b))
			}
			c.Report(vd, t, ShowV(v), string(b))
		}
	})
}

// monOmit judges only which members are present and how they are separated.
func monOmit(c *Ctx) {
	c.Each(func(t *TypeInfo, r *Rnd) {
		if !t.Enc() || !anyType(t.Type(), func(u reflect.Type, _ FieldOpt) bool { return u.Kind() == reflect.Struct && !isTime(u) }) {
			return
		}
		c.Count("types-exercised", 1)
		for i := 0; i < 80*c.Scale; i++ {
			v := t.Val()
			if i > 0 {
				sparse(v, r, FieldOpt{})
			}
			b, err := Enc(v)
			vd, j := c.JudgeEnc(t, v, b, err)
			c.Case(true, t.ID+"\x00"+string(b))
			if j != nil {
				c.Count("members-seen", int64(len(j.Keys)))
				if j.K == KObj && len(j.Keys) < len(membersOf(t.Type())) {
					c.Count("documents-with-omitted-members", 1)
				}
			}
			if i == 1 {
				c.Sample(t.Class, ShowV(v)+" -> "+string(b))
			}
			w := vd.What
			if vd.OK() || strings.Contains(w, "omitempty") || strings.Contains(w, "is missing") || strings.Contains(w, "not valid JSON") ||
				strings.Contains(w, "keys emitted") || strings.Contains(w, "emitted twice") || strings.Contains(w, "panic") {
				c.Report(vd, t, ShowV(v), string(b))
			} else {
				c.Count("other-differences", 1)
			}
		}
	})
}

func membersOf(t reflect.Type) []FieldRef {
	if t.Kind() == reflect.Struct && !isTime(t) {
		return fieldsOf(t)
	}
	return nil
}

// monRoundTrip: what the encoder writes, the decoder reads back as an equal value.
func monRoundTrip(c *Ctx) {
	c.Each(func(t *TypeInfo, r *Rnd) {
		if !t.Enc() || !t.Dec() {
			return
		}
		c.Count("types-exercised", 1)
		for i := 0; i < 60*c.Scale; i++ {
			v := randVal(t, r, i)
			if hasNonFinite(v) {
				continue
			}
			b, err := Enc(v)
			c.Case(i > 0, t.ID+"\x00"+string(b))
			if err != nil {
				c.Report(Verdict{What: "value cannot be encoded: " + err.Error()}, t, ShowV(v), "")
				continue
			}
			if i == 1 {
				c.Sample(t.Class, string(b))
			}
			got := t.Val()
			ge := DecInto(got, b)
			what := ""
			if ge != nil && nilRequired(v) {
				c.Count("nil-required-member", 1) // null is what the required rule refuses
				continue
			}
			if ge != nil {
				what = "own document is refused: " + ge.Error()
			} else if d := Diff(normalize(v), normalize(got), CmpOpt{NilEmpty: true, FloatULP: 4}); d != "" {
				what = "decode(encode(v)) differs from v (want/got): " + d
			}
			if what == "" {
				continue
			}
			vd := Verdict{What: what}
			if c.Known["comma-after-nil-pointer"] {
				// the encoder's missing comma is the only fault of the document
				if q, j := c.JudgeEnc(t, v, b, err); len(q.Known) == 1 && q.Known[0] == "comma-after-nil-pointer" && j != nil {
					vd.Known = q.Known
				}
			}
			if len(vd.Known) == 0 && c.Known["nil-named-list-null"] && ge != nil {
				// null written for a nil declared list or map, which the decoder refuses
				if j, e := ParseJ(b); e == nil {
					m := modelFor(t)
					if me := m.Decode(t.Val(), j, FieldOpt{Top: true}); me != nil && (me.Why == "kind" || me.Why == "required") {
						m2 := modelFor(t)
						m2.NullOK = true
						if m2.Decode(t.Val(), j, FieldOpt{Top: true}) == nil {
							vd.Known = []string{"nil-named-list-null"}
						}
					}
				}
			}
			c.Report(vd, t, ShowV(v), string(b)+" => "+ShowV(got))
		}
	})
}

// normalize maps values that are one and the same JSON text onto one value:
// strings with invalid UTF-8, and nil or zero leaves that defaults replace are
// left alone (values with defaults are compared through presence).
func normalize(v reflect.Value) reflect.Value {
	v = DeepCopy(v)
	var rec func(v reflect.Value, o FieldOpt)
	rec = func(v reflect.Value, o FieldOpt) {
		t := v.Type()
		if isTime(t) && o.Layout != "" {
			// a layout keeps only what it shows
			tm := v.Convert(tTime).Interface().(time.Time)
			if p, err := time.Parse(o.Layout, tm.Format(o.Layout)); err == nil {
				v.Set(reflect.ValueOf(p).Convert(t))
			}
			return
		}
		if isTime(t) || isUUID(t) {
			return
		}
		switch v.Kind() {
		case reflect.String:
			v.SetString(toValid(v.String()))
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			if e := v.Elem(); (e.Kind() == reflect.Slice || e.Kind() == reflect.Map) && e.IsNil() {
				v.Set(reflect.Zero(t)) // both are null
				return
			}
			rec(v.Elem(), o)
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i), o)
			}
		case reflect.Map:
			if v.IsNil() {
				return
			}
			out := reflect.MakeMap(t)
			it := v.MapRange()
			for it.Next() {
				e := DeepCopy(it.Value())
				rec(e, FieldOpt{})
				out.SetMapIndex(sameKey(it.Key(), t.Key()), e)
			}
			v.Set(out)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if !f.CanSet() {
					continue
				}
				o := parseOpt(t.Field(i).Tag)
				if o.Skip {
					f.Set(reflect.Zero(f.Type()))
					continue
				}
				if o.HasDef && o.Omit && f.IsZero() {
					_ = setDefault(f, o.Def) // omitted, so read back as the default
					continue
				}
				rec(f, o)
			}
		}
	}
	rec(v, FieldOpt{})
	return v
}

// nilRequired: some required member without default holds a nil pointer, list
// or map, which is written as null.
func nilRequired(v reflect.Value) bool {
	t := v.Type()
	if isTime(t) || isUUID(t) {
		return false
	}
	switch v.Kind() {
	case reflect.Ptr:
		return !v.IsNil() && nilRequired(v.Elem())
	case reflect.Slice, reflect.Array:
		if isBytes(t) {
			return false
		}
		for i := 0; i < v.Len(); i++ {
			if nilRequired(v.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			if nilRequired(it.Value()) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			o := parseOpt(t.Field(i).Tag)
			if o.Skip {
				continue
			}
			f := v.Field(i)
			if isPart(t.Field(i)) && deepZeroLoose(f) {
				for _, pf := range fieldsOf(f.Type()) {
					if pf.Opt.Required && !pf.Opt.HasDef {
						return true // left out with the part
					}
				}
			}
			if o.Required && !o.HasDef {
				switch f.Kind() {
				case reflect.Ptr, reflect.Slice, reflect.Map:
					if f.IsNil() || f.Kind() == reflect.Ptr && encodesNull(f.Elem()) {
						return true
					}
				case reflect.Array:
					if isBytes(f.Type()) && f.IsZero() {
						return true // may be written as null
					}
				}
			}
			if nilRequired(f) {
				return true
			}
		}
	}
	return false
}

func encodesNull(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.Ptr:
		return v.IsNil()
	}
	return false
}

// monAPI: all ways into the generated code agree, and encoding changes nothing.
func monAPI(c *Ctx) {
	c.Each(func(t *TypeInfo, r *Rnd) {
		n := 25 * c.Scale
		bad := func(what, in, got string) { c.Report(Verdict{What: what}, t, in, got) }
		if t.Enc() {
			c.Count("types-encoding", 1)
			for i := 0; i < n; i++ {
				v := randVal(t, r, i)
				snap := DeepCopy(v)
				b1, e1 := Enc(v)
				c.Case(i > 0, t.ID+"\x00e"+string(b1))
				mt, ok := v.Addr().Interface().(marshalerTo)
				if !ok {
					bad("no MarshalTo", "", "")
					break
				}
				w := jwriter.Writer{}
				e2 := guard(func() error { return mt.MarshalTo(&w) })
				b2, e2b := w.BuildBytes()
				if e2 == nil {
					e2 = e2b
				}
				if (e1 == nil) != (e2 == nil) {
					bad("MarshalJSON and MarshalTo disagree on failure: "+errText(e1)+" / "+errText(e2), ShowV(v), "")
					continue
				}
				if e1 != nil {
					continue
				}
				if !sameJSON(b1, b2) {
					bad("MarshalJSON and MarshalTo disagree", string(b1), string(b2))
				}
				w = jwriter.Writer{}
				w.RawString("[7,")
				_ = guard(func() error { return mt.MarshalTo(&w) })
				w.RawString(",8]")
				b2, _ = w.BuildBytes()
				if !bytes.HasPrefix(b2, []byte("[7,")) || !bytes.HasSuffix(b2, []byte(",8]")) || !sameJSON(b1, b2[3:len(b2)-3]) {
					bad("MarshalTo does not append to what the writer already holds", string(b1), string(b2))
				}
				// writers set up in other ways, already long, and used for several values
				w = jwriter.Writer{NoEscapeHTML: i%2 == 0}
				if i%3 == 0 {
					w.Flags = jwriter.NilMapAsEmpty | jwriter.NilSliceAsEmpty
				}
				pad := strings.Repeat(" ", []int{0, 100, 511, 512, 513, 5000, 70000}[i%7])
				w.RawString("[" + pad)
				for k := 0; k < 3; k++ {
					if k > 0 {
						w.RawByte(',')
					}
					_ = guard(func() error { return mt.MarshalTo(&w) })
				}
				w.RawByte(']')
				b2, e2b = w.BuildBytes()
				if json.Valid(b1) {
					var each []json.RawMessage
					if e2b != nil || json.Unmarshal(b2, &each) != nil || len(each) != 3 || !sameJSON(each[0], b1) || !sameJSON(each[1], b1) || !sameJSON(each[2], b1) {
						bad("MarshalTo into a used writer gives another document: "+errText(e2b), string(b1), string(b2))
					}
					c.Count("used-writers", 1)
				}
				if json.Valid(b1) {
					b3, e3 := json.Marshal(v.Addr().Interface())
					if e3 != nil {
						bad("json.Marshal refuses: "+e3.Error(), string(b1), "")
					} else if !sameJSON(b1, b3) {
						bad("json.Marshal gives another document", string(b1), string(b3))
					}
				}
				b4, _ := Enc(v)
				if !sameJSON(b1, b4) {
					bad("encoding twice gives different documents", string(b1), string(b4))
				}
				if d := Diff(snap, v, CmpOpt{}); d != "" {
					bad("encoding changed the value: "+d, ShowV(snap), ShowV(v))
				}
			}
			if z, ok := reflect.Zero(reflect.PtrTo(t.Type())).Interface().(json.Marshaler); ok && t.Type().Kind() != reflect.Map && nilPtrEncodes(t) {
				var b []byte
				e := guard(func() (e error) { b, e = z.MarshalJSON(); return })
				c.Count("nil-receivers", 1)
				// a type without members has one document only
				if empty := len(membersOf(t.Type())) == 0 && string(b) == "{}"; e != nil || string(b) != "null" && !empty {
					bad("nil "+t.Type().String()+" does not encode as null: "+errText(e), "nil", string(b))
				}
			}
		}
		if t.Dec() {
			c.Count("types-decoding", 1)
			m := modelFor(t)
			for i := 0; i < n; i++ {
				j := m.RandDoc(t.Type(), r, 0, FieldOpt{})
				if i%3 == 2 {
					Mutate(j, r, pick(r, []string{"kind", "num", "null", "unknown", "dup", "drop"}))
				}
				txt := []byte(j.Text(styles(r, i)))
				c.Case(true, t.ID+"\x00d"+string(txt))
				a, b, d, s := t.Val(), t.Val(), t.Val(), t.Val()
				ea := DecInto(a, txt)
				f, ok := b.Addr().Interface().(filler)
				if !ok {
					bad("no FillFromJSON", "", "")
					break
				}
				fv, pe := fastjson.ParseBytes(txt)
				if pe != nil {
					continue
				}
				eb := guard(func() error { return f.FillFromJSON(fv) })
				ed := guard(func() error { return json.Unmarshal(txt, d.Addr().Interface()) })
				// the parsed document is read, not consumed
				if eb == nil {
					b9 := t.Val()
					e9 := guard(func() error { return b9.Addr().Interface().(filler).FillFromJSON(fv) })
					c.Count("second-fills", 1)
					if e9 != nil {
						bad("a second FillFromJSON of the same document fails: "+e9.Error(), string(txt), "")
					} else if df := Diff(b, b9, CmpOpt{}); df != "" {
						bad("a second FillFromJSON of the same document gives another value: "+df, string(txt), ShowV(b9))
					}
					if fresh, _ := fastjson.ParseBytes(txt); showFJ(fv) != showFJ(fresh) {
						bad("FillFromJSON changes the document", string(txt), showFJ(fv))
					}
				}
				// the value below a larger document
				var p fastjson.Parser
				wv, pe := p.Parse(`{"in":[0,` + string(txt) + `]}`)
				if pe != nil {
					continue
				}
				es := guard(func() error { return s.Addr().Interface().(filler).FillFromJSON(wv.Get("in", "1")) })
				if j.K == KNull {
					ed = ea // package json handles null itself
					d = a
				}
				for k, x := range []struct {
					n string
					e error
					v reflect.Value
				}{{"FillFromJSON", eb, b}, {"json.Unmarshal", ed, d}, {"FillFromJSON below a document", es, s}} {
					if (ea == nil) != (x.e == nil) {
						bad("UnmarshalJSON and "+x.n+" disagree: "+errText(ea)+" / "+errText(x.e), string(txt), "")
					} else if ea == nil {
						if df := Diff(a, x.v, CmpOpt{}); df != "" {
							bad("UnmarshalJSON and "+x.n+" give different values: "+df, string(txt), ShowV(x.v))
						}
						if k == 0 {
							c.Count("agreed-accept", 1)
						}
					} else if k == 0 {
						c.Count("agreed-refuse", 1)
					}
				}
			}
		}
	})
}

// nilPtrEncodes: MarshalJSON of these types has a pointer receiver that is
// documented to cope with nil.
func nilPtrEncodes(t *TypeInfo) bool {
	return t.Type().Kind() == reflect.Struct && !isTime(t.Type()) && !isUUID(t.Type())
}

// showFJ writes down what a parsed document holds.
func showFJ(v *fastjson.Value) string {
	switch v.Type() {
	case fastjson.TypeString:
		return strconv.Quote(string(v.GetStringBytes()))
	case fastjson.TypeArray:
		s := "["
		for _, e := range v.GetArray() {
			s += showFJ(e) + ","
		}
		return s + "]"
	case fastjson.TypeObject:
		s := "{"
		v.GetObject().Visit(func(k []byte, e *fastjson.Value) { s += strconv.Quote(string(k)) + ":" + showFJ(e) + "," })
		return s + "}"
	}
	return v.String()
}

// sameJSON compares two documents up to the order of object members.
func sameJSON(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	if len(a) != len(b) {
		// json.Marshal compacts and escapes HTML characters
		var x, y any
		if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
			return false
		}
	}
	x, e1 := ParseLenient(a)
	y, e2 := ParseLenient(b)
	if e1 != nil || e2 != nil {
		return e1 != nil && e2 != nil && len(a) == len(b)
	}
	return canon(x) == canon(y)
}

func canon(j *J) string {
	c := j.clone()
	for _, n := range nodes(c, nil, nil) {
		if n.j.K == KObj {
			o := n.j
			for i := 1; i < len(o.Keys); i++ {
				for k := i; k > 0 && o.Keys[k-1] > o.Keys[k]; k-- {
					o.Keys[k-1], o.Keys[k] = o.Keys[k], o.Keys[k-1]
					o.Vals[k-1], o.Vals[k] = o.Vals[k], o.Vals[k-1]
				}
			}
		}
	}
	return c.Text(nil)
}

// monIsZero: IsZero holds exactly for the empty value.
func monIsZero(c *Ctx) {
	c.Each(func(t *TypeInfo, r *Rnd) {
		for i := 0; i < 80*c.Scale; i++ {
			v := t.Val()
			switch {
			case i == 0:
			case i%3 == 1:
				oneLeaf(v, r)
			default:
				sparse(v, r, FieldOpt{})
			}
			z, ok := v.Interface().(zeroer)
			if !ok {
				if t.Enc() {
					c.Report(Verdict{What: "no IsZero"}, t, "", "")
				}
				return
			}
			if i == 0 {
				c.Count("types-exercised", 1)
			}
			var got bool
			e := guard(func() error { got = z.IsZero(); return nil })
			want, loose := deepZero(v), deepZeroLoose(v)
			c.Case(true, t.ID+"\x00"+ShowV(v))
			if want {
				c.Count("zero-values", 1)
			}
			what := ""
			switch {
			case e != nil:
				what = "IsZero panics: " + e.Error()
			case want && !got:
				what = "IsZero is false for the empty value"
			case got && !loose:
				what = "IsZero is true for a value that is not empty"
			}
			if what == "" {
				continue
			}
			vd := Verdict{What: what}
			if c.Known["iszero-fixed-array"] && e == nil && zeroArrayQuirk(v, got) {
				vd.Known = []string{"iszero-fixed-array"}
			}
			c.Report(vd, t, ShowV(v), "")
		}
	})
}

// zeroArrayQuirk: the answers the code is known to give around fixed arrays:
// false for every struct with an array member, and the negated answer of the
// elements for a declared array of declared types.
func zeroArrayQuirk(v reflect.Value, got bool) bool {
	return quirkZero(v) == got || hasFixedArray(v.Type()) && v.Kind() == reflect.Struct && !got
}

func quirkZero(v reflect.Value) bool {
	t := v.Type()
	if t.Kind() == reflect.Array && !isUUID(t) && !isBytes(t) {
		e := t.Elem()
		if e.Kind() == reflect.Struct || e.Name() != "" && e.PkgPath() != "" {
			for i := 0; i < v.Len(); i++ {
				if quirkZero(v.Index(i)) {
					return false
				}
			}
			return true
		}
	}
	if t.Kind() == reflect.Struct && hasFixedArray(t) {
		return false
	}
	return deepZero(v)
}

// oneLeaf sets exactly one leaf of a zero value to something non-zero.
func oneLeaf(v reflect.Value, r *Rnd) {
	t := v.Type()
	if isTime(t) || isUUID(t) {
		for i := 0; i < 20 && v.IsZero(); i++ {
			RandValue(v, r, 0, FieldOpt{})
		}
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		var idx []int
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() && (Hidden || !parseOpt(t.Field(i).Tag).Skip) {
				idx = append(idx, i)
			}
		}
		if len(idx) > 0 {
			oneLeaf(v.Field(pick(r, idx)), r)
		}
	case reflect.Array:
		oneLeaf(v.Index(r.N(v.Len())), r)
	case reflect.Ptr:
		if !namedPtr(t.Elem()) {
			v.Set(reflect.New(t.Elem()))
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(t, 1, 1))
	case reflect.Map:
		m := reflect.MakeMap(t)
		m.SetMapIndex(reflect.Zero(t.Key()), reflect.Zero(t.Elem()))
		v.Set(m)
	default:
		for i := 0; i < 50 && v.IsZero(); i++ {
			RandValue(v, r, 0, FieldOpt{})
		}
	}
}

// monReset: a value that was used and then Reset is empty, and decoding into it
// gives what decoding into a new value gives.
func monReset(c *Ctx) {
	c.Each(func(t *TypeInfo, r *Rnd) {
		if _, ok := t.New().(resetter); !ok {
			if t.Enc() {
				c.Report(Verdict{What: "no Reset"}, t, "", "")
			}
			return
		}
		c.Count("types-exercised", 1)
		m := modelFor(t)
		for i := 0; i < 30*c.Scale; i++ {
			v := t.Val()
			grown := 0
			if i%2 == 0 {
				RandValue(v, r, 0, FieldOpt{})
			} else {
				sparse(v, r, FieldOpt{})
			}
			if i < 2 { // more content than a value ever has at random
				grown = grow(v, 10001-i, r)
			}
			before := ""
			if grown > 0 {
				before = strconv.Itoa(grown) + " lists and maps grown to many elements"
				c.Count("grown-values", 1)
			} else {
				before = ShowV(v)
			}
			c.Case(true, t.ID+"\x00"+before)
			if e := guard(func() error { v.Addr().Interface().(resetter).Reset(); return nil }); e != nil {
				c.Report(Verdict{What: "Reset panics: " + e.Error()}, t, before, "")
				continue
			}
			if !resetEmpty(v) {
				vd := Verdict{What: "value is not empty after Reset"}
				if c.Known["reset-map-keys"] && resetMapQuirk(v) {
					vd.Known = []string{"reset-map-keys"}
				}
				after := "grown value"
				if grown == 0 {
					after = ShowV(v)
				}
				c.Report(vd, t, before, after)
				continue
			}
			if i%3 == 0 && t.Enc() {
				b1, e1 := Enc(v)
				b2, e2 := Enc(t.Val())
				if (e1 == nil) != (e2 == nil) {
					c.Report(Verdict{What: "encoding after Reset: " + errText(e1) + " / new value: " + errText(e2)}, t, before, string(b1)+" / "+string(b2))
				}
			}
			if !t.Dec() {
				continue
			}
			for k := 0; k < 3; k++ { // several rounds of reuse
				j := m.RandDoc(t.Type(), r, 0, FieldOpt{})
				txt := []byte(j.Text(styles(r, i)))
				fresh := t.Val()
				ef := DecInto(fresh, txt)
				er := DecInto(v, txt)
				c.Count("reuses", 1)
				what := ""
				if (ef == nil) != (er == nil) {
					what = "reused value: " + errText(er) + ", new value: " + errText(ef)
				} else if ef == nil {
					if d := Diff(fresh, v, CmpOpt{NilEmpty: true}); d != "" {
						what = "decoding into a Reset value differs from a new one (new/reused): " + d
					}
				}
				if what != "" {
					c.Report(Verdict{What: what}, t, before+" reset, then "+string(txt), ShowV(v))
					break
				}
				if e := guard(func() error { v.Addr().Interface().(resetter).Reset(); return nil }); e != nil {
					c.Report(Verdict{What: "Reset panics: " + e.Error()}, t, string(txt), "")
					break
				}
			}
		}
	})
}

// grow gives the maps and lists of the value n elements each; it tells how many were grown.
func grow(v reflect.Value, n int, r *Rnd) int {
	if isTime(v.Type()) || isUUID(v.Type()) {
		return 0
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			return grow(v.Elem(), n, r)
		}
	case reflect.Struct:
		k := 0
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() && !parseOpt(v.Type().Field(i).Tag).Skip {
				k += grow(v.Field(i), n, r)
			}
		}
		return k
	case reflect.Map:
		if v.Type().Key().Kind() != reflect.String {
			return 0
		}
		m := reflect.MakeMapWithSize(v.Type(), n)
		for i := 0; i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			k.SetString("k" + strconv.Itoa(i))
			e := reflect.New(v.Type().Elem()).Elem()
			if i < 100 {
				RandValue(e, r, 3, FieldOpt{})
			}
			m.SetMapIndex(k, e)
		}
		v.Set(m)
		return 1
	case reflect.Slice:
		if n > 300 {
			n = 300
		}
		l := reflect.MakeSlice(v.Type(), n, n+n/2)
		for i := 0; i < n; i++ {
			RandValue(l.Index(i), r, 3, FieldOpt{})
		}
		v.Set(l)
		return 1
	}
	return 0
}

// resetEmpty: every leaf is zero; lists and maps may keep their storage.
func resetEmpty(v reflect.Value) bool { return deepZeroLoose(v) }

// resetMapQuirk: everything but the keys of maps is empty.
func resetMapQuirk(v reflect.Value) bool {
	ok := true
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		if isTime(v.Type()) || isUUID(v.Type()) {
			ok = ok && deepZero(v)
			return
		}
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if Hidden || !parseOpt(v.Type().Field(i).Tag).Skip {
					rec(v.Field(i))
				}
			}
		case reflect.Map:
		default:
			ok = ok && deepZeroLoose(v)
		}
	}
	rec(v)
	return ok
}

func init() { props["methods"] = monMethods }

// monMethods: each declaration has the methods its tag promises and no others.
func monMethods(c *Ctx) {
	c.EachAll(4, func(t *TypeInfo, r *Rnd) {
		if strings.HasPrefix(t.Class, "fault.") {
			return
		}
		none := t.Has("none") || t.Has("custom")
		p := reflect.PtrTo(t.Type())
		own := func(n string) bool {
			if t.Type().Kind() == reflect.Struct {
				for i := 0; i < t.Type().NumField(); i++ {
					if t.Type().Field(i).Anonymous {
						return true // may come from the embedded type
					}
				}
			}
			return false
		}
		for n, want := range map[string]bool{
			"UnmarshalJSON": t.Dec() && !none, "FillFromJSON": t.Dec() && !none,
			"MarshalJSON": t.Enc() && !none, "MarshalTo": t.Enc() && !none, "IsZero": t.Enc() && !none, "Reset": t.Enc() && !none,
		} {
			_, has := p.MethodByName(n)
			c.Case(true, t.ID+n)
			switch {
			case want && !has:
				c.Report(Verdict{What: n + " is missing"}, t, strings.Join(t.Tags, ","), "")
			case !want && has && !own(n) && !isTime(t.Type()) && !isUUID(t.Type()):
				c.Report(Verdict{What: n + " is there although the tag excludes it"}, t, strings.Join(t.Tags, ","), "")
			case want:
				c.Count("methods-present", 1)
			default:
				c.Count("methods-absent", 1)
			}
		}
		c.Sample(t.Class, strings.Join(t.Tags, ","))
	})
}
