package hx

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/valyala/fastjson"
)

func init() {
	props["malformed"] = monMalformed
	props["alias"] = monAlias
	props["history"] = monHistory
	props["numbers"] = monNumbers
	props["strings"] = monStrings
	props["time"] = monFormat("time", isTimeLeaf, timePool)
	props["uuid"] = monFormat("uuid", func(t reflect.Type, _ FieldOpt) bool { return isUUID(t) }, uuidPool)
	props["base64"] = monFormat("base64", func(t reflect.Type, _ FieldOpt) bool { return isBytes(t) }, base64Pool)
	props["inline"] = sub(hasInline, monDecode, props["dup"], props["unknown"], monEncode, monRoundTrip)
	props["compose"] = sub(hasComposed, monDecode, props["dup"], props["required"], props["null"], props["unknown"], monEncode, monOmit, monRoundTrip, monOver, monIsZero, monReset)
	props["hidden"] = monHidden
	props["declared"] = sub(nil, monDecode, monEncode, props["required"], props["unknown"])
	props["maps"] = sub(hasMap, monMapDoc, monMapEnc)
	props["over"] = monOver
}

// sub runs other monitors over the types that satisfy want.
func sub(want func(reflect.Type) bool, ms ...func(*Ctx)) func(*Ctx) {
	return func(c *Ctx) {
		all := c.Types
		defer func() { c.Types = all }()
		var use []*TypeInfo
		for _, t := range all {
			if want == nil && declaredClass(t) || want != nil && want(t.Type()) {
				use = append(use, t)
			}
		}
		c.Types = use
		for _, m := range ms {
			m(c)
		}
	}
}

func hasInline(t reflect.Type) bool {
	return anyType(t, func(_ reflect.Type, o FieldOpt) bool { return o.Inline })
}

// hasComposed: somewhere in the type an embedded structure without a tag
// shares the object of the structure around it.
func hasComposed(t reflect.Type) bool {
	return t.Kind() == reflect.Struct && composed(t) || anyType(t, func(u reflect.Type, _ FieldOpt) bool { return u.Kind() == reflect.Struct && composed(u) })
}

// monHidden: members tagged json:"-" have content and are no part of any document.
func monHidden(c *Ctx) {
	Hidden = true
	defer func() { Hidden = false }()
	sub(hasHidden, monEncode, monOmit, monRoundTrip, monDecode, props["unknown"], props["dup"], monOver, monIsZero, monReset, monAPI)(c)
}

func hasHidden(t reflect.Type) bool {
	own := func(u reflect.Type) bool {
		if u.Kind() != reflect.Struct || isTime(u) {
			return false
		}
		for i := 0; i < u.NumField(); i++ {
			if parseOpt(u.Field(i).Tag).Skip {
				return true
			}
		}
		return false
	}
	return own(t) || anyType(t, func(u reflect.Type, _ FieldOpt) bool { return own(u) })
}

func hasMap(t reflect.Type) bool {
	return anyType(t, func(u reflect.Type, _ FieldOpt) bool { return u.Kind() == reflect.Map })
}

// declaredClass: types built from other declared types: transit types,
// untagged named types, types of other packages, aliases, several files.
func declaredClass(t *TypeInfo) bool {
	for _, p := range []string{"Tr", "Un", "ext", "E", "transit", "alias", "multi", "inherit", "combo|transit", "St|", "N"} {
		if strings.HasPrefix(t.Class, p) {
			return true
		}
	}
	return anyType(t.Type(), func(u reflect.Type, _ FieldOpt) bool {
		return u.Name() != "" && u.PkgPath() != "" && u != t.Type() && !isTime(u) && !isUUID(u)
	})
}

// ---- malformed text ----

func bothReject(txt []byte) bool {
	return fastjson.ValidateBytes(txt) != nil && !json.Valid(txt) && !parses(txt)
}

func parses(txt []byte) bool {
	_, err := fastjson.ParseBytes(txt)
	return err == nil
}

func monMalformed(c *Ctx) {
	c.Each(func(t *TypeInfo, r *Rnd) {
		if !t.Dec() {
			return
		}
		c.Count("types-exercised", 1)
		m := modelFor(t)
		check := func(txt []byte, what string) {
			got := t.Val()
			err := DecInto(got, append([]byte(nil), txt...))
			c.Case(true, t.ID+"\x00"+string(txt))
			vd := Verdict{}
			if isPanic(err) {
				c.Count("panics", 1)
				vd.What = what + ": decoder panics: " + err.Error()
				if c.Known["base64-overlong-panic"] && strings.Contains(err.(*panicErr).stack, "encoding/base64.") {
					vd.Known = []string{"base64-overlong-panic"}
				}
				c.Report(vd, t, string(txt), "")
				return
			}
			if bothReject(txt) {
				c.Count("not-json", 1)
				if err == nil {
					vd.What = what + ": text that is not JSON is accepted"
				}
			} else {
				c.Count("json", 1)
				if err != nil {
					c.Count("json-refused", 1)
				}
				if j, e := ParseJ(txt); e == nil && depth(j) < 100 && utf8.Valid(txt) {
					vd, _ = c.JudgeDec(t, j, t.Val(), got, err, FieldOpt{})
					if !vd.OK() && strings.Contains(string(txt), `\ud`) {
						return // lone surrogates have no value to compare with
					}
				}
			}
			if !vd.OK() {
				c.Report(vd, t, fmt.Sprintf("%q", txt), ShowV(got))
			}
			if err != nil {
				_ = guard(func() error { _ = err.Error(); return nil })
			}
		}
		for i, s := range hostileTexts {
			if len(s) > 600 && (hashStr(t.ID)+uint64(i))%40 != 0 {
				continue // the big ones for some types each
			}
			check([]byte(s), "hostile text")
		}
		for i := 0; i < 3*c.Scale; i++ {
			m.Full = i%2 == 0
			j := m.RandDoc(t.Type(), r, 0, FieldOpt{})
			txt := []byte(j.Text(styles(r, i)))
			if i == 0 {
				c.Sample(t.Class, string(txt))
			}
			for n := 0; n < 30; n++ {
				check(txt[:r.N(len(txt)+1)], "truncated")
			}
			for n := 0; n < 60; n++ {
				x := append([]byte(nil), txt...)
				k := 1 + r.N(2)
				for ; k > 0 && len(x) > 0; k-- {
					p := r.N(len(x))
					switch r.N(5) {
					case 0:
						x[p] ^= 1 << r.N(8)
					case 1:
						x = append(x[:p], x[p+1:]...)
					case 2:
						x[p] = pick(r, []byte("{}[]:,\"\\0123456789-+.eEtfn \x00\xff\x7f'/*"))
					case 3:
						x = append(x[:p:p], append([]byte{pick(r, []byte("{}[]:,\"\\0-+.eEn\x00\x80 "))}, x[p:]...)...)
					case 4:
						q := r.N(len(x))
						if p > q {
							p, q = q, p
						}
						x = append(x[:p:p], append(append([]byte(nil), x[p:q]...), x[p:]...)...)
					}
				}
				check(x, "damaged")
			}
			for _, s := range []string{"{}", "x", ",", "]", "}", "null", " \x00", "//c"} {
				check(append(append([]byte(nil), txt...), s...), "trailing "+s)
				check(append([]byte(s), txt...), "leading "+s)
			}
		}
	})
}

func depth(j *J) int {
	d := 0
	for _, x := range j.A {
		if n := depth(x); n > d {
			d = n
		}
	}
	for _, x := range j.Vals {
		if n := depth(x); n > d {
			d = n
		}
	}
	return d + 1
}

var hostileTexts = []string{
	"", " ", "\n\t", "\x00", "\xef\xbb\xbf{}", "{", "}", "[", "]", "\"", "\"\\", "\"\\u", "\"\\u12", "\"\\ud800\"", "nul", "nulll", "tru", "truee", "-", "+1", "01", "1.", ".5",
	"1e", "1e+", "0x1", "NaN", "Infinity", "-Infinity", "{,}", "[,]", "[1,]", "{\"a\":1,}", "{\"a\"}", "{\"a\":}", "{a:1}", "{'a':1}", "{1:1}", "{null:1}", "[1 2]", "{\"a\":1 \"b\":2}",
	"{\"\":{\"\":{\"\":[[[[]]]]}}}", "\"\x01\"", "\"\xff\"", "{\"\xff\":1}", "[]]", "{}}", "[[]", "{}{}", "[][]", "1 1", "true false", "/**/{}", "{}//", "undefined", "None",
	strings.Repeat("[", 200), strings.Repeat("[", 5000), strings.Repeat("{\"a\":", 5000), strings.Repeat("[", 250) + strings.Repeat("]", 250), strings.Repeat("[", 5000) + strings.Repeat("]", 5000),
	strings.Repeat("{\"f\":", 200) + "1" + strings.Repeat("}", 200), strings.Repeat("{\"f\":[", 140) + strings.Repeat("]}", 140), "\"" + strings.Repeat("\\", 1001) + "\"", strings.Repeat(" ", 10000), strings.Repeat("9", 3000), "-" + strings.Repeat("9", 3000), "1e99999999999", "1E-99999999999",
	"{\"f\":" + strings.Repeat("9", 500) + "}", "{\"f\":1e999}", "{\"f\":\"" + strings.Repeat("A", 70000) + "\"}", "{\"f\":[" + strings.Repeat("null,", 3000) + "null]}", "{\"f\":{\"f\":{\"f\":null}}}", "null", "[null]", "{\"\":null}", "[[null]]", "{\"f\":[null]}", "{\"f\":[[null]]}", "{\"f\":{\"\":null}}",
}

// ---- storage is not shared ----

func monAlias(c *Ctx) {
	c.Each(func(t *TypeInfo, r *Rnd) {
		m := modelFor(t)
		if t.Dec() {
			c.Count("types-decoding", 1)
			for i := 0; i < 8*c.Scale; i++ {
				m.Full = i%3 != 2
				j := m.RandDoc(t.Type(), r, 0, FieldOpt{})
				txt := j.Text(styles(r, i))
				buf := []byte(txt)
				a := t.Val()
				if DecInto(a, buf) != nil {
					c.Count("baseline-skipped", 1)
					continue
				}
				if i == 0 {
					c.Sample(t.Class, txt)
				}
				c.Case(true, t.ID+"\x00"+txt)
				if string(buf) != txt {
					c.Report(Verdict{What: "decoding changes the caller's bytes"}, t, txt, string(buf))
				}
				snap := DeepCopy(a)
				for k := range buf {
					buf[k] = 0xA5
				}
				same := func(what string) bool {
					if d := Diff(snap, a, CmpOpt{}); d != "" {
						c.Report(Verdict{What: what + " changes an already decoded value: " + d}, t, txt, ShowV(a))
						return false
					}
					return true
				}
				if !same("overwriting the input bytes") {
					continue
				}
				for k := 0; k < 3; k++ {
					o := t.Val()
					_ = DecInto(o, []byte(scramble(txt, r)))
					c.Count("later-decodes", 1)
				}
				if !same("a later decode of another document") {
					continue
				}
				// a caller-owned parser that is used again
				var p fastjson.Parser
				b := t.Val()
				if v, e := p.Parse(txt); e == nil {
					if f, ok := b.Addr().Interface().(filler); ok && guard(func() error { return f.FillFromJSON(v) }) == nil {
						sb := DeepCopy(b)
						for k := 0; k < 2; k++ {
							_, _ = p.Parse(scramble(txt, r))
						}
						c.Count("parser-reuses", 1)
						if d := Diff(sb, b, CmpOpt{}); d != "" {
							c.Report(Verdict{What: "using the caller's parser again changes an already decoded value: " + d}, t, txt, ShowV(b))
						}
					}
				}
				// two values decoded from one text are independent
				d := t.Val()
				if DecInto(d, []byte(txt)) == nil {
					scribble(d, r)
					c.Count("scribbled", 1)
					if !same("writing into another value decoded from the same text") {
						continue
					}
					e := t.Val()
					if DecInto(e, []byte(txt)) == nil {
						if df := Diff(snap, e, CmpOpt{}); df != "" {
							c.Report(Verdict{What: "writing into a decoded value changes what later decodes give: " + df}, t, txt, ShowV(e))
						}
					}
				}
			}
		}
		if t.Enc() {
			c.Count("types-encoding", 1)
			for i := 0; i < 8*c.Scale; i++ {
				v := randVal(t, r, i+1)
				b, err := Enc(v)
				if err != nil {
					continue
				}
				keep := string(b)
				c.Case(true, t.ID+"\x01"+keep)
				vs := DeepCopy(v)
				for k := 0; k < 3; k++ {
					o := randVal(t, r, k+1)
					_, _ = Enc(o)
				}
				b2, _ := Enc(v)
				if string(b) != keep {
					c.Report(Verdict{What: "a later encode overwrites the bytes returned by an earlier one"}, t, keep, string(b))
					continue
				}
				keep2 := string(b2)
				for k := range b {
					b[k] = 'X'
				}
				b = append(b[:cap(b)], 'Y')
				if string(b2) != keep2 {
					c.Report(Verdict{What: "two encodes return the same memory"}, t, keep, string(b2))
				}
				if d := Diff(vs, v, CmpOpt{}); d != "" {
					c.Report(Verdict{What: "writing into the returned bytes changes the value: " + d}, t, keep, ShowV(v))
				}
				if b3, _ := Enc(v); !sameJSON(b3, []byte(keep)) {
					c.Report(Verdict{What: "writing into the returned bytes changes later encodes"}, t, keep, string(b3))
				}
			}
		}
	})
}

// scramble gives a text of the same shape and length with other content.
func scramble(s string, r *Rnd) string {
	b := []byte(s)
	for i, c := range b {
		switch {
		case c >= 'a' && c <= 'z' && r.N(3) == 0:
		case c >= 'g' && c <= 'z' && c != 'n' && c != 'r' && c != 't' && c != 'u' && c != 'l' && c != 's':
			b[i] = 'g' + (c-'g'+7)%20
		case c >= '1' && c <= '8':
			b[i] = c + 1
		case c >= 'A' && c <= 'Y':
			b[i] = c + 1
		}
	}
	return string(b)
}

// scribble overwrites everything reachable from v in place.
func scribble(v reflect.Value, r *Rnd) {
	t := v.Type()
	if isTime(t) {
		v.Set(reflect.ValueOf(time.Unix(7, 7)).Convert(t))
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem(), r)
		}
	case reflect.Slice:
		if !v.IsNil() {
			v = v.Slice(0, v.Cap())
			for i := 0; i < v.Len(); i++ {
				scribble(v.Index(i), r)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), r)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			e := reflect.New(t.Elem()).Elem()
			e.Set(v.MapIndex(k))
			scribble(e, r)
			v.SetMapIndex(k, e)
		}
		e := reflect.New(t.Elem()).Elem()
		v.SetMapIndex(reflect.ValueOf("scribbled").Convert(t.Key()), e)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				scribble(v.Field(i), r)
			}
		}
	case reflect.String:
		v.SetString("~scribbled~")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 0x55)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() ^ 0x55)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(-7.5)
	}
}

// ---- histories ----

// monHistory: whatever was decoded or encoded before, and however it failed,
// the next decode and encode give what they give in a fresh process.
func monHistory(c *Ctx) {
	c.Each(func(t *TypeInfo, r *Rnd) {
		if !t.Dec() {
			return
		}
		c.Count("types-exercised", 1)
		m := modelFor(t)
		type probe struct {
			txt string
			j   *J
		}
		var ps []probe
		for i := 0; i < 4; i++ {
			m.Full = i == 0
			j := m.RandDoc(t.Type(), r, 0, FieldOpt{})
			txt := j.Text(nil)
			got := t.Val()
			ge := DecInto(got, []byte(txt))
			if vd, _ := c.JudgeDec(t, j, t.Val(), got, ge, FieldOpt{}); vd.OK() {
				ps = append(ps, probe{txt, j})
			}
		}
		if len(ps) == 0 {
			c.Count("baseline-skipped", 1)
			return
		}
		hist := []string{}
		for i := 0; i < 60*c.Scale; i++ {
			// one disturbing step
			var txt string
			switch r.N(5) {
			case 0:
				txt = pick(r, hostileTexts)
				if len(txt) > 600 {
					txt = txt[:600]
				}
			case 1:
				p := pick(r, ps)
				txt = p.txt[:r.N(len(p.txt)+1)]
			default:
				j := m.RandDoc(t.Type(), r, 0, FieldOpt{})
				for k := r.N(3); k >= 0; k-- {
					Mutate(j, r, pick(r, []string{"kind", "num", "null", "len", "str", "unknown", "dup", "drop"}))
				}
				txt = j.Text(styles(r, i))
			}
			if len(hist) > 3 {
				hist = hist[1:]
			}
			hist = append(hist, txt)
			v := t.Val()
			if err := DecInto(v, []byte(txt)); err != nil {
				c.Count("failed-steps", 1)
			} else {
				c.Count("passed-steps", 1)
			}
			if t.Enc() {
				_, _ = Enc(v) // also of half-filled values
			}
			p := pick(r, ps)
			got := t.Val()
			ge := DecInto(got, []byte(p.txt))
			vd, _ := c.JudgeDec(t, p.j, t.Val(), got, ge, FieldOpt{})
			c.Case(true, t.ID+"\x00"+txt+"\x00"+p.txt)
			if i == 0 {
				c.Sample(t.Class, txt+"  then  "+p.txt)
			}
			if !vd.OK() {
				vd.What = "after earlier calls: " + vd.What
				c.Report(vd, t, strings.Join(hist, "  then  ")+"  then  "+p.txt, ShowV(got))
				return
			}
			if t.Enc() {
				b, err := Enc(got)
				if hasNonFinite(got) {
					continue
				}
				vd, _ := c.JudgeEnc(t, got, b, err)
				if !vd.OK() {
					vd.What = "encoding after earlier calls: " + vd.What
					c.Report(vd, t, strings.Join(hist, "  then  "), string(b))
				}
			}
		}
	})
}

// ---- numbers ----

// monNumbers: every 8 and 16 bit value, and the edges of the wider types, are
// read and written exactly, at every place a number can have.
func monNumbers(c *Ctx) {
	c.Each(func(t *TypeInfo, r *Rnd) {
		if !t.Dec() || !t.Enc() {
			return
		}
		var leaf reflect.Type
		anyType(t.Type(), func(u reflect.Type, _ FieldOpt) bool {
			if u.Kind() >= reflect.Int && u.Kind() <= reflect.Float64 && u.Kind() != reflect.Uintptr && leaf == nil {
				leaf = u
			}
			return leaf != nil
		})
		if leaf == nil {
			return
		}
		c.Count("types-exercised", 1)
		var vals []string
		bits := intBits(leaf.Kind())
		fl := leaf.Kind() == reflect.Float32 || leaf.Kind() == reflect.Float64
		switch {
		case fl:
			for i := 0; i < 300*c.Scale; i++ {
				b := 64
				if leaf.Kind() == reflect.Float32 {
					b = 32
				}
				f := randFloat(r, b)
				if f != f || f-f != 0 {
					continue
				}
				vals = append(vals, strconv.FormatFloat(f, 'g', -1, b), strconv.FormatFloat(f, 'e', -1, b))
				if math.Abs(f) < 1e25 && math.Abs(f) > 1e-15 {
					vals = append(vals, strconv.FormatFloat(f, 'f', -1, b))
				}
			}
			for _, s := range []string{"0", "-0", "0.0", "1", "-1", "0.1", "0.2", "0.3", "1.5", "100", "1e2", "1E2", "1e+2", "1e-2", "3.4028234663852886e38", "-3.4028234663852886e38", "1.401298464324817e-45", "16777216", "16777217", "9007199254740993", "123456789", "0.30000000000000004", "1e22", "1e23", "1e21", "1e20", "5e-1", "2.5", "1e-7", "1e-6", "1e-5"} {
				vals = append(vals, s)
			}
		case bits <= 16 && t.Feature("exhaustive") || bits == 8:
			lo, hi := -(1 << (bits - 1)), 1<<(bits-1)-1
			if leaf.Kind() >= reflect.Uint {
				lo, hi = 0, 1<<bits-1
			}
			for i := lo; i <= hi; i++ {
				vals = append(vals, strconv.Itoa(i))
			}
		case bits == 16:
			lo, hi := -32768, 32767
			if leaf.Kind() >= reflect.Uint {
				lo, hi = 0, 65535
			}
			step := 37
			if c.Scale > 3 {
				step = 1
			}
			for i := lo; i <= hi; i += step {
				vals = append(vals, strconv.Itoa(i))
			}
			vals = append(vals, strconv.Itoa(hi), strconv.Itoa(hi-1), strconv.Itoa(lo+1))
		default:
			for k := 0; k <= bits; k++ {
				for d := int64(-2); d <= 2; d++ {
					if leaf.Kind() >= reflect.Uint {
						var b uint64
						if k < 64 {
							b = 1 << k
						}
						n := b + uint64(d)
						if bits < 64 && n >= 1<<bits {
							continue
						}
						vals = append(vals, strconv.FormatUint(n, 10))
					} else {
						for _, s := range []int64{1, -1} {
							n := s*int64(1<<(k%64)) + d
							if bits == 32 && int64(int32(n)) != n {
								continue
							}
							vals = append(vals, strconv.FormatInt(n, 10))
						}
					}
				}
			}
			p := 1.0
			for i := 0; i < 19; i++ {
				s := strconv.FormatFloat(p, 'f', 0, 64)
				if n, e := strconv.ParseUint(s, 10, 64); e == nil && (bits == 64 && n < math.MaxInt64 || n < math.MaxInt32) {
					vals = append(vals, s)
				}
				p *= 10
			}
			for i := 0; i < 100*c.Scale; i++ {
				if leaf.Kind() >= reflect.Uint {
					vals = append(vals, strconv.FormatUint(randUint(r, bits), 10))
				} else {
					vals = append(vals, strconv.FormatInt(randInt(r, bits), 10))
				}
			}
		}
		m := modelFor(t)
		m.Full = true
		base := m.RandDoc(t.Type(), r, 0, FieldOpt{})
		type slot struct{ i int }
		var slots []slot
		for _, p := range places(t.Type(), base) {
			if p.j.K == KNum && p.t == leaf {
				slots = append(slots, slot{p.i})
			}
		}
		if len(slots) == 0 {
			return
		}
		if got := t.Val(); DecInto(got, []byte(base.Text(nil))) != nil {
			c.Count("baseline-skipped", 1)
			return
		}
		// every number goes through every place at least once in the long run
		for k := 0; k < len(vals); k++ {
			d := base.clone()
			ns := nodes(d, nil, nil)
			for x, s := range slots {
				ns[s.i].j.Num = vals[(k+x*7)%len(vals)]
			}
			txt := d.Text(nil)
			got := t.Val()
			ge := DecInto(got, []byte(txt))
			c.Count("numbers", int64(len(slots)))
			c.Case(true, t.ID+"\x00"+txt)
			if k == 0 {
				c.Sample(t.Class, txt)
			}
			vd, _ := c.JudgeDec(t, d, t.Val(), got, ge, FieldOpt{})
			if !c.Report(vd, t, txt, ShowV(got)) || ge != nil {
				continue
			}
			b, err := Enc(got)
			ve, _ := c.JudgeEnc(t, got, b, err)
			c.Report(ve, t, ShowV(got), string(b))
		}
	})
}

// ---- strings ----

// monStrings: every Unicode code point in every place that holds text.
func monStrings(c *Ctx) {
	c.Each(func(t *TypeInfo, r *Rnd) {
		if !t.Dec() || !t.Enc() {
			return
		}
		if !anyType(t.Type(), func(u reflect.Type, _ FieldOpt) bool { return u.Kind() == reflect.String || u.Kind() == reflect.Map }) {
			return
		}
		c.Count("types-exercised", 1)
		m := modelFor(t)
		m.Full = true
		base := m.RandDoc(t.Type(), r, 0, FieldOpt{})
		if got := t.Val(); DecInto(got, []byte(base.Text(nil))) != nil {
			c.Count("baseline-skipped", 1)
			return
		}
		ps := places(t.Type(), base)
		var texts []int
		var maps []int
		for _, p := range ps {
			if p.t == nil {
				continue
			}
			if p.t.Kind() == reflect.String && p.j.K == KStr {
				texts = append(texts, p.i)
			}
			if p.t.Kind() == reflect.Map && p.j.K == KObj && len(p.j.Keys) > 0 {
				maps = append(maps, p.i)
			}
		}
		if len(texts)+len(maps) == 0 {
			return
		}
		run := func(s, what string, st *Style) {
			d := base.clone()
			ns := nodes(d, nil, nil)
			for k, i := range texts {
				ns[i].j.S = s
				if k > 2 {
					ns[i].j.S = s + s
				}
			}
			for _, i := range maps {
				ns[i].j.Keys[0] = s
			}
			txt := d.Text(st)
			got := t.Val()
			ge := DecInto(got, []byte(txt))
			c.Count("texts", int64(len(texts)))
			c.Count("map-keys", int64(len(maps)))
			c.Case(true, t.ID+"\x00"+txt)
			vd, _ := c.JudgeDec(t, d, t.Val(), got, ge, FieldOpt{})
			if !vd.OK() {
				vd.What = what + ": " + vd.What
			}
			if !c.Report(vd, t, txt, ShowV(got)) || ge != nil {
				return
			}
			b, err := Enc(got)
			ve, _ := c.JudgeEnc(t, got, b, err)
			if !ve.OK() {
				ve.What = what + ": " + ve.What
			}
			c.Report(ve, t, ShowV(got), string(b))
		}
		// all of Latin-1 and the borders one by one, the planes in rows of 64
		for cp := rune(0); cp < 0x180; cp++ {
			if c.Scale < 4 && cp > 0x22 && (uint64(cp)+r.U64())%8 != 0 && cp != '\\' && cp != 0x7f && cp != '/' {
				continue
			}
			run(string(cp), fmt.Sprintf("U+%04X", cp), nil)
		}
		for _, cp := range []rune{0x7ff, 0x800, 0xfff, 0x1000, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff} {
			run("a"+string(cp)+"b", fmt.Sprintf("U+%04X", cp), nil)
			run(string(cp), fmt.Sprintf("escaped U+%04X", cp), &Style{R: r, Escape: true})
		}
		step := rune(64 * 128) // another offset for every type
		if c.Scale > 3 {
			step = 64
		}
		for row := rune(r.N(int(step/64))) * 64; row < 0x110000; row += step {
			if row >= 0xd800 && row < 0xe000 {
				continue
			}
			var b strings.Builder
			for k := rune(0); k < 64; k++ {
				b.WriteRune(row + k)
			}
			run(b.String(), fmt.Sprintf("U+%04X..", row), nil)
		}
		for _, s := range []string{"", "\x00", "null", "\"", "\\", "\\\\", "\\\"", "\\u0041", "</script>", "a\x00b", "\r\n", "\u2028", "'", "`", "%s%d", "{}", "[]", ":", ",", " ", "\t", "\x7f", "\x1f", strings.Repeat("x", 70000), strings.Repeat("\"\\\n", 3000), strings.Repeat("é", 5000), strings.Repeat("😀", 2000)} {
			if len(s) > 5000 && hashStr(t.ID+s[:2])%30 != 0 {
				continue
			}
			run(s, "text", nil)
			run(s, "escaped text", &Style{R: r, Escape: true})
		}
		// bytes that are not UTF-8: the encoder's own document must be JSON and
		// must keep the valid parts
		if len(texts) > 0 || len(maps) > 0 {
			for _, s := range []string{"\xff", "a\xffb", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x82", "\x80\x80", "é\xc3"} {
				v := t.Val()
				if DecInto(v, []byte(base.Text(nil))) != nil {
					break
				}
				walk(v, func(x reflect.Value) {
					if x.CanSet() && x.Kind() == reflect.String {
						x.SetString(s)
					}
				})
				b, err := Enc(v)
				c.Count("invalid-utf8", 1)
				ve, _ := c.JudgeEnc(t, v, b, err)
				if ve.OK() && err == nil && !utf8.Valid(b) {
					ve.What = "document is not valid UTF-8"
				}
				c.Report(ve, t, fmt.Sprintf("%q", s), string(b))
			}
		}
	})
}

// ---- text formats ----

func isTimeLeaf(t reflect.Type, _ FieldOpt) bool { return isTime(t) }

func timePool(r *Rnd, o FieldOpt) []string {
	l := o.Layout
	if l == "" {
		l = time.RFC3339
	}
	out := []string{"", " ", "null", "0", "2020", "2020-02-30T00:00:00Z", "2019-02-29T00:00:00Z", "2020-02-29T00:00:00Z", "2020-13-01T00:00:00Z", "2020-00-10T00:00:00Z", "2020-01-01T24:00:00Z",
		"2020-01-01T00:60:00Z", "2020-01-01T23:59:60Z", "2020-01-01t00:00:00z", "2020-01-01 00:00:00Z", "2020-01-01T00:00:00", "2020-01-01T00:00:00+24:00", "2020-01-01T00:00:00+23:59", "2020-01-01T00:00:00-00:00",
		"2020-01-01T00:00:00.Z", "2020-01-01T00:00:00.1Z", "2020-01-01T00:00:00.123456789Z", "2020-01-01T00:00:00.1234567891Z", "2020-01-01T00:00:00,5Z", "0000-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999Z", "10000-01-01T00:00:00Z",
		"-001-01-01T00:00:00Z", "2020-01-01T00:00:00Z ", " 2020-01-01T00:00:00Z", "2020-01-01", "00:00:00", "Mon, 02 Jan 2006 15:04:05 MST", "02 Jan 06 15:04 MST", "3:04PM", "13:04PM", "Monday, 02-Jan-06 15:04:05 MST",
		"2020-1-1T0:0:0Z", "２０２０-01-01T00:00:00Z", "2020-01-01T00:00:00\x00Z", "2006-01-02T15:04:05Z07:00", "1577836800", "2020-W01-1", "2020-001"}
	for i := 0; i < 12; i++ {
		s := randTime(r).Format(l)
		out = append(out, s, s+"x", "x"+s)
		if len(s) > 1 {
			p := r.N(len(s))
			out = append(out, s[:p]+s[p+1:], s[:p]+string('0'+rune(r.N(10)))+s[p+1:], s[:p])
		}
		out = append(out, randTime(r).Format(pick(r, []string{time.RFC3339Nano, time.RFC3339, time.RFC1123, time.RFC822, time.Kitchen, time.ANSIC, time.RFC850, "2006-01-02", "15:04:05"})))
	}
	return out
}

func uuidPool(r *Rnd, _ FieldOpt) []string {
	base := func() string {
		return fmt.Sprintf("%08x-%04x-%04x-%04x-%012x", r.U64()&0xffffffff, r.U64()&0xffff, r.U64()&0xffff, r.U64()&0xffff, r.U64()&0xffffffffffff)
	}
	out := []string{"", " ", "0", "null", "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff", "00000000-0000-0000-0000-00000000000", "00000000-0000-0000-0000-0000000000000", "g0000000-0000-0000-0000-000000000000",
		"urn:uuid:", "{}", "00000000x0000x0000x0000x000000000000", "000000000000-0000-0000-000000000000", strings.Repeat("0", 31), strings.Repeat("0", 33), strings.Repeat("-", 36), strings.Repeat("0", 36)}
	for i := 0; i < 8; i++ {
		s := base()
		p := r.N(len(s))
		out = append(out, s, strings.ToUpper(s), "{"+s+"}", "urn:uuid:"+s, "URN:UUID:"+s, "urn:uuix:"+s, strings.ReplaceAll(s, "-", ""), "("+s+")", "{"+s, s+"}", s+" ", " "+s, s[:p]+s[p+1:], s[:p]+"z"+s[p+1:], s[:p]+"-"+s[p+1:], s+s[:1])
	}
	return out
}

func base64Pool(r *Rnd, _ FieldOpt) []string {
	out := []string{"", " ", "=", "==", "====", "A", "AA", "AAA", "AA=", "A===", "AA==", "AAA=", "AAAA", "AAAA=", "AB==", "AAB=", "A=A=", "AA==AA==", "AA==\n", "A\nA==", "AA\r\n==", "-_-_", "+/+/", "AAA-", "A A=", "AA==x", "????", "\x00", "ÀÀ==", "AAAAA", "AAAAA===", "null", "[]", "{}"}
	for n := 0; n < 24; n++ {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.U64())
		}
		s := base64.StdEncoding.EncodeToString(b)
		out = append(out, s, base64.RawStdEncoding.EncodeToString(b), base64.URLEncoding.EncodeToString(b), s+"=", s+"A", s+"\n")
		if len(s) > 0 {
			p := r.N(len(s))
			out = append(out, s[:p]+s[p+1:], s[:p]+"!"+s[p+1:], s[:p]+"\n"+s[p:])
		}
	}
	out = append(out, base64.StdEncoding.EncodeToString(make([]byte, 5000)), strings.Repeat("A", 4001))
	return out
}

// monFormat replaces texts of one format by valid, borderline and broken ones,
// and encodes values of the format.
func monFormat(name string, leaf func(reflect.Type, FieldOpt) bool, pool func(*Rnd, FieldOpt) []string) func(*Ctx) {
	return func(c *Ctx) {
		has := func(t reflect.Type) bool { return anyType(t, leaf) }
		focusT(name, has, func(t *TypeInfo, j *J, r *Rnd) []mutation {
			var out []mutation
			for _, p := range places(t.Type(), j) {
				if p.t == nil || p.j.K != KStr || !leaf(p.t, p.o) {
					continue
				}
				for _, s := range pool(r, p.o) {
					s := toValid(s)
					out = append(out, mutation{edit(j, p.i, func(n *J) { n.S = s }), name + " text " + strconv.Quote(s) + " at " + p.dot()})
				}
			}
			return out
		})(c)
		sub(has, monEncode, monRoundTrip)(c)
	}
}

// ---- maps ----

func monMapDoc(c *Ctx) {
	focusT("maps", hasMap, func(t *TypeInfo, j *J, r *Rnd) []mutation {
		var out []mutation
		for _, p := range places(t.Type(), j) {
			if p.t == nil || p.t.Kind() != reflect.Map || p.j.K != KObj || len(p.j.Keys) == 0 {
				continue
			}
			for n := 0; n < 30; n++ {
				keys := append([]string{"", " ", "-", "f", "g", "null", "0", "a.b", "a/b", "\x00", "é", "日本", "<&>", "\"", "\\", "\n", "a\\u0062", strings.Repeat("k", 300)}, randStr(r), randStr(r))
				cnt := 1 + r.N(6)
				if n == 0 {
					cnt = 300
				}
				var ks []string
				var vs []*J
				for k := 0; k < cnt; k++ {
					key := toValid(pick(r, keys))
					if cnt > 100 {
						key = strconv.Itoa(k)
					}
					ks = append(ks, key)
					vs = append(vs, p.j.Vals[r.N(len(p.j.Vals))].clone())
				}
				if n%7 == 3 { // the same key again, with another value
					ks = append(ks, ks[0])
					vs = append(vs, p.j.Vals[len(p.j.Vals)-1].clone())
				}
				if n%11 == 5 {
					vs[r.N(len(vs))] = jNull()
				}
				if n%13 == 6 {
					vs[r.N(len(vs))] = randScalar(r)
				}
				out = append(out, mutation{edit(j, p.i, func(o *J) { o.Keys, o.Vals = ks, vs }), "map of " + strconv.Itoa(len(ks)) + " at " + p.dot()})
			}
		}
		return out
	})(c)
}

func monMapEnc(c *Ctx) {
	monEncode(c)
	monRoundTrip(c)
}

// ---- decoding over a value that is not new ----

func monOver(c *Ctx) {
	c.Each(func(t *TypeInfo, r *Rnd) {
		if !t.Dec() {
			return
		}
		c.Count("types-exercised", 1)
		m := modelFor(t)
		whole := anyType(t.Type(), func(u reflect.Type, _ FieldOpt) bool { return isBytes(u) })
		for i := 0; i < 12*c.Scale; i++ {
			cur := t.Val()
			switch i % 3 {
			case 0:
				RandValue(cur, r, 0, FieldOpt{})
			case 1:
				sparse(cur, r, FieldOpt{})
			}
			// a chain of documents read into the same value
			for k := 0; k < 5; k++ {
				m.Full = whole || r.N(4) == 0
				j := m.RandDoc(t.Type(), r, 0, FieldOpt{})
				m.Full = false
				if r.N(3) == 0 {
					Mutate(j, r, "drop")
				}
				txt := j.Text(styles(r, i+k))
				init := DeepCopy(cur)
				ge := DecInto(cur, []byte(txt))
				vd, _ := c.JudgeDec(t, j, init, cur, ge, FieldOpt{})
				c.Case(true, t.ID+"\x00"+ShowV(init)+txt)
				c.Report(vd, t, "over "+ShowV(init)+" : "+txt, ShowV(cur))
				if ge != nil {
					c.Count("refused", 1)
					break
				}
				c.Count(fmt.Sprintf("step-%d", k+1), 1)
			}
		}
	})
}

var _ = bytes.Equal
