package hx

import (
	"encoding/json"
	"reflect"
	"strings"
	"time"
	"unicode"

	"github.com/google/uuid"
)

func init() { props["std"] = monStd }

// mirror builds, by reflection, a type with the same members and tags as t but
// without any generated method, so that encoding/json handles it by itself.
func mirror(t reflect.Type, u8num bool, seen map[reflect.Type]bool) (reflect.Type, bool) {
	switch {
	case isTime(t):
		return tTime, true
	case isUUID(t):
		return tUUID, true
	}
	switch t.Kind() {
	case reflect.Bool:
		return reflect.TypeOf(false), true
	case reflect.String:
		return reflect.TypeOf(""), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return basic[t.Kind()], true
	case reflect.Ptr:
		e, ok := mirror(t.Elem(), u8num, seen)
		if !ok {
			return nil, false
		}
		return reflect.PtrTo(e), true
	case reflect.Slice:
		if isBytes(t) {
			return reflect.TypeOf([]byte(nil)), !u8num
		}
		e, ok := mirror(t.Elem(), u8num, seen)
		if !ok || e.Kind() == reflect.Uint8 {
			return nil, false
		}
		return reflect.SliceOf(e), true
	case reflect.Array:
		if isBytes(t) {
			return nil, false // base64 here, numbers there
		}
		e, ok := mirror(t.Elem(), u8num, seen)
		if !ok {
			return nil, false
		}
		return reflect.ArrayOf(t.Len(), e), true
	case reflect.Map:
		e, ok := mirror(t.Elem(), u8num, seen)
		if !ok {
			return nil, false
		}
		return reflect.MapOf(reflect.TypeOf(""), e), true
	case reflect.Struct:
		if seen[t] || ownNameInline(t) {
			return nil, false
		}
		seen[t] = true
		defer delete(seen, t)
		var fs []reflect.StructField
		used := map[string]bool{}
		for i, f := range fieldsOf(t) {
			if f.Opt.Layout != "" || f.Opt.HasDef || used[f.Opt.Name] || strings.ContainsAny(f.Opt.Name, "\"\\'`, ") || !stdName(f.Opt.Name) {
				return nil, false
			}
			used[f.Opt.Name] = true
			e, ok := mirror(f.Type, u8num, seen)
			if !ok {
				return nil, false
			}
			tag := f.Opt.Name
			if f.Opt.Omit {
				tag += ",omitempty"
			}
			fs = append(fs, reflect.StructField{Name: "F" + string(rune('A'+i/26)) + string(rune('A'+i%26)), Type: e, Tag: reflect.StructTag(`json:"` + tag + `"`)})
		}
		return reflect.StructOf(fs), true
	}
	return nil, false
}

// stdName: names encoding/json accepts, and that differ in more than case.
func stdName(s string) bool {
	if s == "" || s == "-" {
		return false
	}
	for _, c := range s {
		if strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) {
			continue
		}
		if unicode.IsLetter(c) || unicode.IsDigit(c) {
			continue
		}
		return false
	}
	return true
}

var basic = map[reflect.Kind]reflect.Type{
	reflect.Int: reflect.TypeOf(int(0)), reflect.Int8: reflect.TypeOf(int8(0)), reflect.Int16: reflect.TypeOf(int16(0)), reflect.Int32: reflect.TypeOf(int32(0)), reflect.Int64: reflect.TypeOf(int64(0)),
	reflect.Uint: reflect.TypeOf(uint(0)), reflect.Uint8: reflect.TypeOf(uint8(0)), reflect.Uint16: reflect.TypeOf(uint16(0)), reflect.Uint32: reflect.TypeOf(uint32(0)), reflect.Uint64: reflect.TypeOf(uint64(0)),
	reflect.Float32: reflect.TypeOf(float32(0)), reflect.Float64: reflect.TypeOf(float64(0)),
}

// copyTo copies v into its mirror m (or a mirror back into a value).
func copyTo(m, v reflect.Value) {
	t := v.Type()
	if isTime(t) || isUUID(t) {
		m.Set(v.Convert(m.Type()))
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(m.Type().Elem())
			copyTo(p.Elem(), v.Elem())
			m.Set(p)
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		s := reflect.MakeSlice(m.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			copyTo(s.Index(i), v.Index(i))
		}
		m.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			copyTo(m.Index(i), v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		o := reflect.MakeMap(m.Type())
		for it := v.MapRange(); it.Next(); {
			e := reflect.New(m.Type().Elem()).Elem()
			copyTo(e, it.Value())
			o.SetMapIndex(it.Key().Convert(m.Type().Key()), e)
		}
		m.Set(o)
	case reflect.Struct:
		for i, f := range fieldsOf(t) {
			copyTo(m.Field(i), v.FieldByIndex(f.Index))
		}
	default:
		m.Set(v.Convert(m.Type()))
	}
}

// caseClash: keys of one struct that encoding/json would mix up.
func caseClash(t reflect.Type) bool {
	return anyType(t, func(u reflect.Type, _ FieldOpt) bool {
		if u.Kind() != reflect.Struct || isTime(u) {
			return false
		}
		seen := map[string]bool{}
		for _, f := range fieldsOf(u) {
			k := strings.ToLower(f.Opt.Name)
			if seen[k] {
				return true
			}
			seen[k] = true
		}
		return false
	})
}

// monStd: documents travel between the generated code and encoding/json.
func monStd(c *Ctx) {
	c.Each(func(t *TypeInfo, r *Rnd) {
		if !t.Dec() || !t.Enc() {
			return
		}
		mt, ok := mirror(t.Type(), t.Feature("u8num"), map[reflect.Type]bool{})
		if !ok || caseClash(t.Type()) {
			c.Count("types-without-mirror", 1)
			return
		}
		c.Count("types-exercised", 1)
		for i := 0; i < 40*c.Scale; i++ {
			v := normalize(randVal(t, r, i))
			if hasNonFinite(v) || !stdTimes(v) {
				continue
			}
			want := reflect.New(mt).Elem()
			copyTo(want, v)
			b, err := Enc(v)
			if err != nil || !json.Valid(b) {
				c.Count("baseline-skipped", 1) // the encode property's matter
				continue
			}
			c.Case(i > 0, t.ID+"\x00"+string(b))
			if i == 1 {
				c.Sample(t.Class, string(b))
			}
			got := reflect.New(mt)
			if e := json.Unmarshal(b, got.Interface()); e != nil {
				c.Report(Verdict{What: "encoding/json refuses the generated document: " + e.Error()}, t, string(b), "")
				continue
			}
			c.Count("read-by-std", 1)
			if d := Diff(want, got.Elem(), CmpOpt{NilEmpty: true, FloatULP: 4}); d != "" {
				c.Report(Verdict{What: "encoding/json reads another value from the generated document: " + d}, t, string(b), "")
			}
			sb, e := json.Marshal(want.Interface())
			if e != nil {
				continue
			}
			if nilRequired(v) {
				c.Count("nil-required-member", 1)
				continue
			}
			back := t.Val()
			ge := DecInto(back, sb)
			c.Count("read-from-std", 1)
			what := ""
			if ge != nil {
				what = "a document written by encoding/json is refused: " + ge.Error()
			} else if d := Diff(v, back, CmpOpt{NilEmpty: true, FloatULP: 4}); d != "" {
				what = "a document written by encoding/json is read as another value: " + d
			}
			if what == "" {
				continue
			}
			vd := Verdict{What: what}
			if ge != nil && c.Known["nil-named-list-null"] {
				if j, e := ParseJ(sb); e == nil {
					m := modelFor(t)
					me := m.Decode(t.Val(), j, FieldOpt{Top: true})
					m2 := modelFor(t)
					m2.NullOK = true
					if me != nil && m2.Decode(t.Val(), j, FieldOpt{Top: true}) == nil {
						vd.Known = []string{"nil-named-list-null"}
					}
				}
			}
			c.Report(vd, t, string(sb), ShowV(back))
		}
		// documents made for the type: both decoders take or both refuse
		m := modelFor(t)
		for i := 0; i < 25*c.Scale; i++ {
			j := m.RandDoc(t.Type(), r, 0, FieldOpt{})
			txt := j.Text(styles(r, i))
			a := t.Val()
			ea := DecInto(a, []byte(txt))
			sm := reflect.New(mt)
			es := json.Unmarshal([]byte(txt), sm.Interface())
			c.Case(true, t.ID+"\x01"+txt)
			if ea != nil || es != nil {
				c.Count("refused-by-one", 1)
				continue
			}
			c.Count("read-by-both", 1)
			am := reflect.New(mt).Elem()
			copyTo(am, a)
			if d := Diff(sm.Elem(), am, CmpOpt{NilEmpty: true, FloatULP: 4}); d != "" {
				c.Report(Verdict{What: "encoding/json and the generated decoder read different values (std/generated): " + d}, t, txt, ShowV(a))
			}
		}
	})
}

// stdTimes: encoding/json writes only years 0 to 9999 and whole-minute zones.
func stdTimes(v reflect.Value) bool {
	ok := true
	walk(v, func(x reflect.Value) {
		if isTime(x.Type()) {
			tm := x.Convert(tTime).Interface().(time.Time)
			_, off := tm.Zone()
			if y := tm.Year(); y < 0 || y > 9999 || off%60 != 0 || off >= 86400 || off <= -86400 {
				ok = false
			}
		}
	})
	return ok
}

var _ = uuid.Nil
