package hx

import (
	"fmt"
	"reflect"
	"strings"
)

// Verdict of one comparison between the specification and the code.
type Verdict struct {
	What  string   // "" when the code did what the specification says
	Known []string // the known deviations that fully explain a difference
}

func (v Verdict) OK() bool { return v.What == "" }

func errText(e error) string {
	if e == nil {
		return "accepted"
	}
	return "refused: " + e.Error()
}

func cmpDec(want reflect.Value, me *Err, got reflect.Value, ge error) string {
	if isPanic(ge) {
		if me != nil && me.Why == "panic" {
			return ""
		}
		return "decoder panics: " + ge.Error()
	}
	if me != nil && ge == nil {
		return fmt.Sprintf("accepted, although it must be refused (%s)", me.Error())
	}
	if me == nil && ge != nil {
		return fmt.Sprintf("refused, although it is valid: %v", ge)
	}
	if me != nil && me.Why == "panic" {
		return "no panic"
	}
	if me == nil {
		if d := Diff(want, got, CmpOpt{FloatULP: 4}); d != "" {
			return "decoded value differs (want/got): " + d
		}
	}
	return ""
}

// JudgeDec decides whether decoding document j over the value init, which
// produced got or ge, did what the specification says.
func (c *Ctx) JudgeDec(t *TypeInfo, j *J, init, got reflect.Value, ge error, opt FieldOpt) (Verdict, *Err) {
	opt.Top = true
	m := modelFor(t)
	want := DeepCopy(init)
	me := m.Decode(want, j, opt)
	what := cmpDec(want, me, got, ge)
	if what == "" {
		return Verdict{}, me
	}
	// where two readings of the specification are right, either will do
	for k := 1; k < 4; k++ {
		m2 := modelFor(t)
		m2.NullOK, m2.MapWhole = k&1 != 0, k&2 != 0
		want2 := DeepCopy(init)
		if e2 := m2.Decode(want2, j, opt); cmpDec(want2, e2, got, ge) == "" {
			return Verdict{}, e2
		}
	}
	if len(c.Known) > 0 {
		for k := 0; k < 4; k++ {
			q := modelFor(t)
			q.NullOK, q.MapWhole = k&1 != 0, k&2 != 0
			q.Q, q.Hits = c.Known, map[string]bool{}
			w2 := DeepCopy(init)
			qe := q.Decode(w2, j, opt)
			if q.PanicAt && isPanic(ge) && c.Known["base64-overlong-panic"] {
				return Verdict{what, []string{"base64-overlong-panic"}}, me
			}
			if len(q.Hits) > 0 && cmpDec(w2, qe, got, ge) == "" {
				return Verdict{what, q.hits()}, me
			}
		}
	}
	return Verdict{What: what}, me
}

// JudgeEnc decides whether b, err is what encoding v must give.
func (c *Ctx) JudgeEnc(t *TypeInfo, v reflect.Value, b []byte, err error) (Verdict, *J) {
	m := modelFor(t)
	what := ""
	var j *J
	switch {
	case isPanic(err):
		what = "encoder panics: " + err.Error()
	case err != nil:
		if hasNonFinite(v) {
			return Verdict{}, nil
		}
		what = "encoder fails: " + err.Error()
	default:
		var e error
		if j, e = ParseJ(b); e != nil {
			what = "not valid JSON: " + e.Error()
		} else if d := m.Matches(v, j, FieldOpt{}); d != "" {
			what = "document does not state the value: " + d
		}
	}
	if what == "" {
		return Verdict{}, j
	}
	if len(c.Known) > 0 {
		q := modelFor(t)
		q.Q, q.Hits = c.Known, map[string]bool{}
		if isPanic(err) {
			if q.Q["nil-uuid-panic"] && hasNilUUID(v, false) && strings.Contains(err.Error(), "nil pointer") {
				return Verdict{what, []string{"nil-uuid-panic"}}, nil
			}
		} else if err == nil {
			if lj, e := ParseLenient(b); e == nil {
				if q.Matches(v, lj, FieldOpt{}) == "" && len(q.Hits) > 0 {
					return Verdict{what, q.hits()}, lj
				}
			}
		}
	}
	return Verdict{What: what}, nil
}

// Report files a verdict and says whether the code was right.
func (c *Ctx) Report(v Verdict, t *TypeInfo, input, got string) bool {
	if v.OK() {
		return true
	}
	if len(v.Known) > 0 {
		c.KnownHit(v.Known, t, v.What, input, got)
		return false
	}
	c.Violation(t, v.What, input, got)
	return false
}

func walk(v reflect.Value, f func(reflect.Value)) {
	f(v)
	if isTime(v.Type()) || isUUID(v.Type()) {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			walk(v.Elem(), f)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), f)
		}
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			walk(it.Value(), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			walk(v.Field(i), f)
		}
	}
}

func hasNonFinite(v reflect.Value) bool {
	found := false
	walk(v, func(x reflect.Value) {
		if x.Kind() == reflect.Float32 || x.Kind() == reflect.Float64 {
			if f := x.Float(); f != f || f-f != 0 {
				found = true
			}
		}
	})
	return found
}

func hasNilUUID(v reflect.Value, _ bool) bool {
	found := false
	walk(v, func(x reflect.Value) {
		if x.Kind() == reflect.Struct && !isTime(x.Type()) {
			for i := 0; i < x.NumField(); i++ {
				f := x.Field(i)
				if f.Kind() == reflect.Ptr && isUUID(f.Type().Elem()) && f.IsNil() && !parseOpt(x.Type().Field(i).Tag).Omit {
					found = true
				}
			}
		}
	})
	return found
}
