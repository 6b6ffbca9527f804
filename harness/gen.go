package hx

import (
	"encoding/base64"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/google/uuid"
)

var strPool = []string{
	"", "a", "x", "null", "true", "0", "-1", "[]", "{}", "hello world", "Ünïcödé", "日本語", "\U0001F600", "a\U0001F468\u200d\U0001F469b",
	"quote\"inside", `back\slash`, `\u0041`, "tab\there", "nl\nhere", "cr\rhere", "\x00", "\x01\x02\x1f", "\x7f", "<b>&amp;'</b>", "\u2028\u2029",
	"\ufeff", "/slash/", "\b\f", " lead", "trail ", "%s%d%v", "a.b.c", "a,b", "`tick`", "\ufffd", "key", "f", "z", "A", "ключ",
}

func randStr(r *Rnd) string {
	if r.once && r.N(200) == 0 {
		r.once = false
		return strings.Repeat(pick(r, strPool)+"_", 200+r.N(9000))
	}
	switch r.N(12) {
	case 0:
		n := 1 + r.N(40)
		var b strings.Builder
		for i := 0; i < n; i++ {
			switch r.N(6) {
			case 0:
				b.WriteRune(rune(r.N(0x20)))
			case 1:
				b.WriteRune(rune(0x80 + r.N(0x700)))
			case 2:
				b.WriteRune(rune(0x10000 + r.N(0x1000)))
			case 3:
				b.WriteRune(rune(0x2000 + r.N(0x100)))
			default:
				b.WriteByte(byte(0x20 + r.N(0x5f)))
			}
		}
		return b.String()
	case 1:
		return strings.Repeat(pick(r, strPool), 1+r.N(30))
	}
	return pick(r, strPool)
}

func randInt(r *Rnd, bits int) int64 {
	max := int64(1)<<(bits-1) - 1
	min := -max - 1
	switch r.N(12) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return -1
	case 3:
		return max
	case 4:
		return min
	case 5:
		return max - 1
	case 6:
		return min + 1
	case 7:
		return int64(r.N(100))
	case 8:
		v := int64(1) << r.N(bits-1)
		return v
	}
	return int64(r.U64()) >> (64 - bits) >> r.N(bits)
}

func randUint(r *Rnd, bits int) uint64 {
	max := uint64(math.MaxUint64) >> (64 - bits)
	switch r.N(9) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return max
	case 3:
		return max - 1
	case 4:
		return max/2 + 1
	case 5:
		return uint64(r.N(100))
	}
	return r.U64() >> (64 - bits) >> r.N(bits)
}

func randFloat(r *Rnd, bits int) float64 {
	var f float64
	switch r.N(13) {
	case 0:
		f = 0
	case 1:
		f = 1
	case 2:
		f = -1.5
	case 3:
		f = 0.1
	case 4:
		f = float64(r.N(1000000)) / 1000
	case 5:
		f = math.Pow(10, float64(r.N(60)-30))
	case 6:
		f = float64(int64(r.U64()) >> 12)
	case 7:
		f = 1e21
	case 8:
		f = 123456789.125
	case 9:
		f = 1e-7
	default:
		f = (float64(r.N(2000001)) - 1000000) * math.Pow(2, float64(r.N(40)-20))
	}
	if r.N(4) == 0 {
		f = -f
	}
	if f == 0 {
		f = 0 // no negative zero
	}
	if bits == 32 {
		f = float64(float32(f))
	}
	return f
}

var zones = []*time.Location{time.UTC, time.UTC, time.FixedZone("", 3*3600), time.FixedZone("", -(5*3600 + 1800)), time.FixedZone("", 14*3600)}

func randTime(r *Rnd) time.Time {
	var t time.Time
	switch r.N(8) {
	case 0:
		return time.Time{}
	case 1:
		t = time.Unix(0, 0)
	case 2:
		t = time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC).Add(-24 * time.Hour)
	case 3:
		t = time.Date(2, 1, 2, 3, 4, 5, 0, time.UTC)
	case 4:
		t = time.Date(2024, 2, 29, 23, 59, 59, 1, time.UTC)
	default:
		t = time.Unix(int64(r.N(4000000000)), int64(r.N(1000000000)))
		if r.N(2) == 0 {
			t = t.Truncate(time.Second)
		}
	}
	return t.In(pick(r, zones))
}

// start is called once for each document or value: it decides whether that has something long.
func (r *Rnd) start() { r.once = r.Large && r.N(4) == 0 }

func randLen(r *Rnd, depth int, elem reflect.Type) int {
	if depth > 3 {
		return r.N(2)
	}
	if r.once && r.N(12) == 0 {
		r.once = false
		for elem.Kind() == reflect.Ptr {
			elem = elem.Elem()
		}
		switch elem.Kind() {
		case reflect.Struct, reflect.Slice, reflect.Array, reflect.Map:
			if depth < 2 {
				return 10 + r.N(30)
			}
		default:
			if depth < 2 && r.N(6) == 0 {
				return 200 + r.N(1200)
			}
			return 16 + r.N(60)
		}
	}
	switch r.N(10) {
	case 0:
		return 0
	case 1:
		return 4 + r.N(12)
	}
	return 1 + r.N(3)
}

// RandValue fills v with a random value of its type.
func RandValue(v reflect.Value, r *Rnd, depth int, opt FieldOpt) {
	if depth == 0 {
		r.start()
	}
	t := v.Type()
	if isTime(t) {
		tm := randTime(r)
		if opt.Layout != "" {
			p, err := time.Parse(opt.Layout, tm.Format(opt.Layout))
			if err != nil {
				p = time.Time{}
			}
			tm = p
		}
		v.Set(reflect.ValueOf(tm).Convert(t))
		return
	}
	if isUUID(t) {
		if r.N(6) == 0 {
			v.Set(reflect.Zero(t))
			return
		}
		var u uuid.UUID
		for i := range u {
			u[i] = byte(r.U64())
		}
		v.Set(reflect.ValueOf(u).Convert(t))
		return
	}
	if r.N(7) == 0 {
		v.Set(reflect.Zero(t))
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if depth > 4 || r.N(5) == 0 {
			return
		}
		p := reflect.New(t.Elem())
		RandValue(p.Elem(), r, depth+1, opt)
		if namedPtr(t.Elem()) && p.Elem().IsNil() {
			return // a pointer to a nil declared pointer has no form of its own
		}
		v.Set(p.Convert(t))
	case reflect.Bool:
		v.SetBool(r.N(2) == 0)
	case reflect.String:
		v.SetString(randStr(r))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(randInt(r, intBits(t.Kind())))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(randUint(r, intBits(t.Kind())))
	case reflect.Float32:
		v.SetFloat(randFloat(r, 32))
	case reflect.Float64:
		v.SetFloat(randFloat(r, 64))
	case reflect.Slice:
		if depth > 5 {
			return
		}
		n := randLen(r, depth, t.Elem())
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			RandValue(s.Index(i), r, depth+1, FieldOpt{})
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			RandValue(v.Index(i), r, depth+1, FieldOpt{})
		}
	case reflect.Map:
		if depth > 5 {
			return
		}
		n := randLen(r, depth, t.Elem())
		mm := reflect.MakeMap(t)
		for i := 0; i < n; i++ {
			e := reflect.New(t.Elem()).Elem()
			RandValue(e, r, depth+1, FieldOpt{})
			mm.SetMapIndex(randKey(t.Key(), r), e)
		}
		v.Set(mm)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !v.Field(i).CanSet() {
				continue
			}
			o := parseOpt(t.Field(i).Tag)
			if o.Skip && !Hidden {
				continue
			}
			RandValue(v.Field(i), r, depth+1, o)
		}
	}
}

func fmtFloat(r *Rnd, f float64, bits int) string {
	switch r.N(4) {
	case 0:
		return strconv.FormatFloat(f, 'e', -1, bits)
	case 1:
		s := strconv.FormatFloat(f, 'f', -1, bits)
		if len(s) < 40 {
			return s
		}
	case 2:
		return strings.Replace(strconv.FormatFloat(f, 'E', -1, bits), "E+0", "E", 1)
	}
	return strconv.FormatFloat(f, 'g', -1, bits)
}

func (m *Model) timeText(r *Rnd, opt FieldOpt) string {
	tm := randTime(r)
	if opt.Layout != "" {
		s := tm.Format(opt.Layout)
		if _, err := time.Parse(opt.Layout, s); err != nil {
			s = tm.UTC().Format(opt.Layout) // a zone the layout cannot state
		}
		return s
	}
	switch r.N(5) {
	case 0:
		return tm.Truncate(time.Second).Format(time.RFC3339)
	case 1:
		return tm.Truncate(time.Second).Format("2006-01-02 15:04:05Z07:00")
	case 2:
		return tm.Truncate(time.Second).Format("02.01.2006 15:04:05Z07:00")
	}
	return tm.Format(time.RFC3339Nano)
}

// RandDoc builds a document that is valid for t.
func (m *Model) RandDoc(t reflect.Type, r *Rnd, depth int, opt FieldOpt) *J {
	if depth == 0 {
		r.start()
	}
	nullOK := !namedColl(t)
	if isTime(t) {
		return jStr(m.timeText(r, opt))
	}
	if isUUID(t) {
		var u uuid.UUID
		for i := range u {
			u[i] = byte(r.U64())
		}
		s := u.String()
		switch r.N(6) {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			s = "urn:uuid:" + s
		case 2:
			s = "{" + s + "}"
		case 3:
			s = strings.ReplaceAll(s, "-", "")
		}
		return jStr(s)
	}
	switch t.Kind() {
	case reflect.Ptr:
		if (depth > 4 || !m.Full && r.N(6) == 0) && nullOK {
			return jNull()
		}
		return m.RandDoc(t.Elem(), r, depth+1, opt)
	case reflect.Bool:
		return jBool(r.N(2) == 0)
	case reflect.String:
		return jStr(randStr(r))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return jNum(strconv.FormatInt(randInt(r, intBits(t.Kind())), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return jNum(strconv.FormatUint(randUint(r, intBits(t.Kind())), 10))
	case reflect.Float32:
		return jNum(fmtFloat(r, randFloat(r, 32), 32))
	case reflect.Float64:
		return jNum(fmtFloat(r, randFloat(r, 64), 64))
	case reflect.Slice:
		if nullOK && !m.Full && r.N(8) == 0 {
			return jNull()
		}
		if isBytes(t) && !m.U8Num {
			b := make([]byte, r.N(20))
			for i := range b {
				b[i] = byte(r.U64())
			}
			return jStr(base64.StdEncoding.EncodeToString(b))
		}
		j := jArr()
		n := randLen(r, depth, t.Elem())
		if m.Full {
			n = 1 + r.N(2)
		}
		if depth > 5 {
			n = 0
		}
		for i := 0; i < n; i++ {
			j.A = append(j.A, m.RandDoc(t.Elem(), r, depth+1, FieldOpt{}))
		}
		return j
	case reflect.Array:
		if isBytes(t) && !m.U8Num {
			b := make([]byte, t.Len())
			for i := range b {
				b[i] = byte(r.U64())
			}
			return jStr(base64.StdEncoding.EncodeToString(b))
		}
		j := jArr()
		for i := 0; i < t.Len(); i++ {
			j.A = append(j.A, m.RandDoc(t.Elem(), r, depth+1, FieldOpt{}))
		}
		return j
	case reflect.Map:
		if nullOK && !m.Full && r.N(8) == 0 {
			return jNull()
		}
		j := jObj()
		n := randLen(r, depth, t.Elem())
		if m.Full {
			n = 1 + r.N(2)
		}
		if depth > 5 {
			n = 0
		}
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			k := randStr(r)
			if seen[k] {
				continue
			}
			seen[k] = true
			j.put(k, m.RandDoc(t.Elem(), r, depth+1, FieldOpt{}))
		}
		return j
	case reflect.Struct:
		j := jObj()
		for _, f := range fieldsOf(t) {
			if !m.Full && !f.Opt.Required && r.N(6) == 0 {
				continue
			}
			v := m.RandDoc(f.Type, r, depth+1, f.Opt)
			if f.Opt.Required && !f.Opt.HasDef && v.K == KNull {
				for i := 0; i < 50 && v.K == KNull; i++ {
					v = m.RandDoc(f.Type, r, 0, f.Opt)
				}
			}
			j.put(f.Opt.Name, v)
		}
		return j
	}
	return jNull()
}

// node is a place in a document.
type node struct {
	j    *J
	path []string
}

func nodes(j *J, path []string, out []node) []node {
	out = append(out, node{j, append([]string(nil), path...)})
	switch j.K {
	case KArr:
		for i, e := range j.A {
			out = nodes(e, append(path, strconv.Itoa(i)), out)
		}
	case KObj:
		for i, e := range j.Vals {
			out = nodes(e, append(path, j.Keys[i]), out)
		}
	}
	return out
}

var numPool = []string{
	"0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536",
	"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
	"18446744073709551615", "18446744073709551616", "100000000000000000000", "1.0", "1.5", "-0.5", "1e2", "1E400", "-1e400", "3.5e38", "-3.5e38", "1e39", "-1e39", "1e300", "-1e300",
}

func randScalar(r *Rnd) *J {
	switch r.N(8) {
	case 0:
		return jNull()
	case 1:
		return jBool(r.N(2) == 0)
	case 2, 3:
		return jNum(pick(r, numPool))
	case 4, 5:
		return jStr(randStr(r))
	case 6:
		j := jArr()
		for i := r.N(3); i > 0; i-- {
			j.A = append(j.A, jNum("1"))
		}
		return j
	default:
		j := jObj()
		if r.N(2) == 0 {
			j.put("k", jNum("1"))
		}
		return j
	}
}

var unknownKeys = []string{"unknown", "", "F", "Z1", "x y", "日本", "z11", "a\"b", "$", "A", "extra", "f.f", "\x00", "fF", "zz", "json"}

// Mutate applies one random mutation of the given sort and names it.
func Mutate(j *J, r *Rnd, sort string) string {
	ns := nodes(j, nil, nil)
	switch sort {
	case "kind":
		n := pick(r, ns)
		*n.j = *randScalar(r)
	case "num":
		var c []node
		for _, n := range ns {
			if n.j.K == KNum {
				c = append(c, n)
			}
		}
		if len(c) == 0 {
			return ""
		}
		pick(r, c).j.Num = pick(r, numPool)
	case "null":
		n := pick(r, ns)
		*n.j = *jNull()
	case "len":
		var c []node
		for _, n := range ns {
			if n.j.K == KArr {
				c = append(c, n)
			}
		}
		if len(c) == 0 {
			return ""
		}
		a := pick(r, c).j
		if len(a.A) > 0 && r.N(2) == 0 {
			a.A = a.A[:len(a.A)-1]
		} else if len(a.A) > 0 {
			a.A = append(a.A, a.A[0].clone())
		} else {
			a.A = append(a.A, jNum("1"))
		}
	case "str":
		var c []node
		for _, n := range ns {
			if n.j.K == KStr {
				c = append(c, n)
			}
		}
		if len(c) == 0 {
			return ""
		}
		s := pick(r, c).j
		switch r.N(3) {
		case 0:
			s.S = randStr(r)
		case 1:
			s.S += pick(r, []string{"x", " ", "=", "Z", "+00:00", "-"})
		default:
			if len(s.S) > 1 {
				s.S = s.S[:len(s.S)-1]
				s.S = toValid(s.S)
			}
		}
	case "unknown", "dup", "drop":
		var c []node
		for _, n := range ns {
			if n.j.K == KObj {
				c = append(c, n)
			}
		}
		if len(c) == 0 {
			return ""
		}
		o := pick(r, c).j
		switch sort {
		case "unknown":
			k := pick(r, unknownKeys)
			if len(o.Keys) > 0 && r.N(2) == 0 {
				// near miss of a known key
				base := pick(r, o.Keys)
				switch r.N(5) {
				case 0:
					k = base + "x"
				case 1:
					k = strings.ToUpper(base)
				case 2:
					k = " " + base
				case 3:
					if len(base) > 0 {
						k = toValid(base[:len(base)-1])
					}
				case 4:
					k = base + "\x00"
				}
			}
			v := randScalar(r)
			at := r.N(len(o.Keys) + 1)
			o.Keys = append(o.Keys[:at:at], append([]string{k}, o.Keys[at:]...)...)
			o.Vals = append(o.Vals[:at:at], append([]*J{v}, o.Vals[at:]...)...)
		case "dup":
			if len(o.Keys) == 0 {
				return ""
			}
			i := r.N(len(o.Keys))
			v := o.Vals[i].clone()
			if r.N(2) == 0 {
				v = randScalar(r)
			}
			o.put(o.Keys[i], v)
		case "drop":
			if len(o.Keys) == 0 {
				return ""
			}
			i := r.N(len(o.Keys))
			o.Keys = append(o.Keys[:i:i], o.Keys[i+1:]...)
			o.Vals = append(o.Vals[:i:i], o.Vals[i+1:]...)
		}
	}
	return sort
}

// keyText is the member name of a map key.
func keyText(k reflect.Value) string {
	switch k.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(k.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(k.Uint(), 10)
	case reflect.String:
		return k.String()
	}
	return fmt.Sprint(k.Interface())
}

func randKey(t reflect.Type, r *Rnd) reflect.Value {
	k := reflect.New(t).Elem()
	if t.Kind() == reflect.String {
		k.SetString(randStr(r))
	} else {
		RandValue(k, r, 0, FieldOpt{})
	}
	return k
}

func sameKey(k reflect.Value, t reflect.Type) reflect.Value {
	if k.Kind() == reflect.String {
		return reflect.ValueOf(toValid(k.String())).Convert(t)
	}
	return k.Convert(t)
}
