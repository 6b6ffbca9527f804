package hx

import (
	"encoding/base64"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/google/uuid"
)

// TypeInfo describes one generated type of the corpus.
type TypeInfo struct {
	ID    string // package.Type
	Class string // shape class, stable across runs
	Tags  []string
	Pkg   string
	New   func() any // new(real type)
	Feat  string     // free-form features of the corpus entry, comma separated
}

func (t *TypeInfo) Has(tag string) bool {
	for _, x := range t.Tags {
		if x == tag {
			return true
		}
	}
	return false
}

func (t *TypeInfo) Feature(f string) bool {
	for _, x := range strings.Split(t.Feat, ",") {
		if x == f {
			return true
		}
	}
	return false
}
func (t *TypeInfo) Dec() bool          { return !t.Has("encode") && !t.Has("custom") }
func (t *TypeInfo) Enc() bool          { return !t.Has("decode") && !t.Has("custom") }
func (t *TypeInfo) Type() reflect.Type { return reflect.TypeOf(t.New()).Elem() }
func (t *TypeInfo) Val() reflect.Value { return reflect.ValueOf(t.New()).Elem() }

var (
	metaByType = map[reflect.Type]*TypeInfo{}
	tTime      = reflect.TypeOf(time.Time{})
	tUUID      = reflect.TypeOf(uuid.UUID{})
)

// Register tells the model about the generated types.
func Register(ts []*TypeInfo) {
	for _, t := range ts {
		metaByType[t.Type()] = t
	}
}

// FieldOpt is what a struct tag says about one field.
type FieldOpt struct {
	Name     string
	Omit     bool
	Required bool
	Inline   bool
	Skip     bool
	Def      string
	HasDef   bool
	Layout   string
	Direct   bool   // the value of a struct field itself (possibly behind a pointer), not an element
	Top      bool   // the document itself
	Nested   bool   // element of a list
	Pkg      string // package of the declared type around the value ("" for a document itself)
}

// Hidden makes values have content in the members that are no part of the
// document (json:"-"), and takes these into account where a value is judged empty.
var Hidden bool

func parseOpt(tag reflect.StructTag) (o FieldOpt) {
	js := strings.Split(tag.Get("json"), ",")
	o.Name = js[0]
	if o.Name == "-" {
		o.Skip = true
	}
	if len(js) > 1 {
		switch js[1] {
		case "omitempty":
			o.Omit = true
		case "required":
			o.Required = true
		case "inline":
			o.Inline = true
		}
	}
	o.Def = tag.Get("default")
	o.HasDef = o.Def != ""
	o.Layout = tag.Get("layout")
	switch o.Layout {
	case "time.RFC3339":
		o.Layout = time.RFC3339
	case "time.RFC3339Nano":
		o.Layout = time.RFC3339Nano
	case "time.RFC1123":
		o.Layout = time.RFC1123
	case "time.RFC822":
		o.Layout = time.RFC822
	case "time.Kitchen":
		o.Layout = time.Kitchen
	case "time.RFC850":
		o.Layout = time.RFC850
	case "time.ANSIC":
		o.Layout = time.ANSIC
	}
	return
}

// FieldRef is a (possibly promoted) JSON field of a struct.
type FieldRef struct {
	Opt    FieldOpt
	Index  []int
	Type   reflect.Type
	GoName string
	Parts  [][]int // the embedded parts of a composed structure it comes through
}

// isPart: an embedded structure without a tag, it shares the object of the structure around it.
func isPart(f reflect.StructField) bool {
	return f.Anonymous && f.Tag == "" && f.Type.Kind() == reflect.Struct && !isTime(f.Type)
}

func composed(t reflect.Type) bool {
	for i := 0; i < t.NumField(); i++ {
		if isPart(t.Field(i)) {
			return true
		}
	}
	return false
}

// partZero: the field comes from an embedded part without any content.
func partZero(v reflect.Value, f FieldRef) bool {
	for _, p := range f.Parts {
		if deepZeroLoose(v.FieldByIndex(p)) {
			return true
		}
	}
	return false
}

func fieldsOf(t reflect.Type) []FieldRef {
	var out []FieldRef
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		o := parseOpt(f.Tag)
		if o.Skip {
			continue
		}
		if o.Inline && o.Name == "" && f.Type.Kind() == reflect.Struct || isPart(f) {
			for _, sub := range fieldsOf(f.Type) {
				sub.Index = append([]int{i}, sub.Index...)
				var parts [][]int
				for _, p := range sub.Parts {
					parts = append(parts, append([]int{i}, p...))
				}
				sub.Parts = parts
				if isPart(f) {
					sub.Parts = append(sub.Parts, []int{i})
				}
				out = append(out, sub)
			}
			continue
		}
		out = append(out, FieldRef{Opt: o, Index: []int{i}, Type: f.Type, GoName: f.Name})
	}
	return out
}

// Err is a refusal of the model.
type Err struct {
	Why  string
	Path []string
}

func (e *Err) Error() string { return e.Why + " at " + strings.Join(e.Path, ".") }

func fail(why string) *Err { return &Err{Why: why} }
func (e *Err) at(p string) *Err {
	if e == nil {
		return nil
	}
	e.Path = append([]string{p}, e.Path...)
	return e
}

func isBytes(t reflect.Type) bool {
	return (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) && t.Elem() == reflect.TypeOf(byte(0))
}

func nullable(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map:
		return true
	}
	return false
}

var timeFormats = []string{time.RFC3339Nano, time.RFC3339, "2006-01-02 15:04:05Z07:00", "02.01.2006 15:04:05Z07:00"}

func parseTime(s, layout string) (time.Time, error) {
	if layout != "" {
		return time.Parse(layout, s)
	}
	for _, f := range timeFormats {
		if t, err := time.Parse(f, s); err == nil {
			return t, nil
		}
	}
	return time.Time{}, fmt.Errorf("bad time")
}

func truncInt(w int64, bits int) int64 { return w << (64 - bits) >> (64 - bits) }

func intBits(k reflect.Kind) int {
	switch k {
	case reflect.Int8, reflect.Uint8:
		return 8
	case reflect.Int16, reflect.Uint16:
		return 16
	case reflect.Int32, reflect.Uint32:
		return 32
	}
	return 64
}

// Model is the executable specification of decoding and encoding.
type Model struct {
	// Bytes as numbers for this type tree ([]uint8 spelled shapes)
	U8Num bool
	// Full: generated documents have every member, no nulls and no empty lists.
	Full bool
	// NullOK: declared list and map types take null (unchanged) or refuse it;
	// either is right, so documents are judged under both readings.
	NullOK bool
	// MapWhole: members of declared map types are read as a whole or keep the
	// entries the document does not name; either is right.
	MapWhole bool
	// Q lists the known deviations of the code from the specification that this
	// model instance reproduces; nil for the specification itself.
	Q    map[string]bool
	Hits map[string]bool // deviations that were needed
	// PanicAt is set when an over-long base64 text meets a fixed byte array.
	PanicAt bool
}

// quirk says whether a known deviation applies here and notes its use.
func (m *Model) quirk(id string) bool {
	if m.Q[id] {
		m.Hits[id] = true
		return true
	}
	return false
}

func (m *Model) hits() []string {
	var out []string
	for k := range m.Hits {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func isTime(t reflect.Type) bool { return t.Kind() == reflect.Struct && t.ConvertibleTo(tTime) }

func isUUID(t reflect.Type) bool {
	return t == tUUID || metaByType[t] != nil && metaByType[t].Feature("uuid")
}

// namedColl: a declared list or map type, which has its own decoder, or a
// declared pointer type; both may refuse null.
func namedColl(t reflect.Type) bool {
	return t.Name() != "" && (t.Kind() == reflect.Slice || t.Kind() == reflect.Map || t.Kind() == reflect.Ptr) && !isBytes(t)
}

func namedPtr(t reflect.Type) bool { return t.Name() != "" && t.Kind() == reflect.Ptr }

// Decode applies document j to dst the way the specification demands. On
// refusal dst is in an unspecified state.
func (m *Model) Decode(dst reflect.Value, j *J, opt FieldOpt) *Err {
	t := dst.Type()
	if t == tTime {
		if j.K != KStr {
			return fail("kind")
		}
		tm, err := parseTime(j.S, opt.Layout)
		if err != nil {
			return fail("format")
		}
		dst.Set(reflect.ValueOf(tm))
		return nil
	}
	if isTime(t) {
		v := reflect.New(tTime).Elem()
		if e := m.Decode(v, j, opt); e != nil {
			return e
		}
		dst.Set(v.Convert(t))
		return nil
	}
	if isUUID(t) {
		if j.K != KStr {
			return fail("kind")
		}
		u, err := uuid.ParseBytes([]byte(j.S))
		if err != nil {
			return fail("format")
		}
		dst.Set(reflect.ValueOf(u).Convert(t))
		return nil
	}
	if t.PkgPath() != "" && t.PkgPath() != opt.Pkg {
		if metaByType[t] != nil {
			opt.Direct = true // its own methods read it and check the range
		}
		opt.Pkg = t.PkgPath()
	}
	switch t.Kind() {
	case reflect.Ptr:
		if j.K == KNull {
			if namedColl(t) && !m.NullOK {
				return fail("kind")
			}
			return nil
		}
		p := reflect.New(t.Elem())
		if namedPtr(t) {
			opt.Direct = false // range checks as for elements
		}
		if e := m.Decode(p.Elem(), j, opt); e != nil {
			return e
		}
		dst.Set(p.Convert(t))
		return nil
	case reflect.Bool:
		if j.K != KBool {
			return fail("kind")
		}
		dst.SetBool(j.B)
	case reflect.String:
		if j.K != KStr {
			return fail("kind")
		}
		dst.SetString(j.S)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if j.K != KNum {
			return fail("kind")
		}
		n, err := strconv.ParseInt(j.Num, 10, intBits(t.Kind()))
		if err != nil {
			if w, e := strconv.ParseInt(j.Num, 10, 64); e == nil {
				if opt.Direct && w < 0 && m.quirk("range-low") || !opt.Direct && m.quirk("range-elem") {
					dst.SetInt(truncInt(w, intBits(t.Kind())))
					return nil
				}
			}
			return fail("range")
		}
		dst.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if j.K != KNum {
			return fail("kind")
		}
		n, err := strconv.ParseUint(j.Num, 10, intBits(t.Kind()))
		if err != nil {
			if w, e := strconv.ParseUint(j.Num, 10, 64); e == nil && !opt.Direct && m.quirk("range-elem") {
				dst.SetUint(w << (64 - intBits(t.Kind())) >> (64 - intBits(t.Kind())))
				return nil
			}
			return fail("range")
		}
		dst.SetUint(n)
	case reflect.Float32, reflect.Float64:
		if j.K != KNum {
			return fail("kind")
		}
		bits := 64
		if t.Kind() == reflect.Float32 {
			bits = 32
		}
		n, err := strconv.ParseFloat(j.Num, bits)
		if err != nil {
			w, e := strconv.ParseFloat(j.Num, 64)
			switch {
			case bits == 64:
				if m.quirk("float-overflow") {
					dst.SetFloat(w)
					return nil
				}
			case e == nil || math.IsInf(w, 0):
				if opt.Direct && w < 0 && m.quirk("range-low") || !opt.Direct && m.quirk("range-elem") {
					dst.SetFloat(math.Inf(int(math.Copysign(1, w))))
					return nil
				}
			}
			return fail("range")
		}
		dst.SetFloat(n)
	case reflect.Slice:
		if j.K == KNull {
			if namedColl(t) && !m.NullOK {
				return fail("kind")
			}
			return nil
		}
		if isBytes(t) && !m.U8Num {
			if j.K != KStr {
				return fail("kind")
			}
			b, err := base64.StdEncoding.DecodeString(j.S)
			if err != nil {
				return fail("format")
			}
			if b == nil {
				b = []byte{}
			}
			dst.Set(reflect.ValueOf(b).Convert(t))
			return nil
		}
		if j.K != KArr {
			return fail("kind")
		}
		out := reflect.MakeSlice(t, len(j.A), len(j.A))
		if m.Q["list-element-merge"] && (metaByType[t] == nil || !opt.Top || transit(t)) && dst.Cap() >= len(j.A) && dst.Cap() > 0 {
			// elements are decoded over what the storage of the list held before
			old := DeepCopy(dst.Slice(0, dst.Cap())).Slice(0, len(j.A))
			if mergeable(t.Elem()) {
				m.Hits["list-element-merge"] = true
			}
			out = old
		}
		for i, e := range j.A {
			if nullable(t.Elem()) && e.K == KNull {
				out.Index(i).Set(reflect.Zero(t.Elem()))
			}
			if err := m.Decode(out.Index(i), e, FieldOpt{Pkg: opt.Pkg}); err != nil {
				return err.at(strconv.Itoa(i))
			}
		}
		dst.Set(out)
	case reflect.Array:
		if isBytes(t) && !m.U8Num {
			if j.K == KNull {
				return nil
			}
			if j.K != KStr {
				return fail("kind")
			}
			b, err := base64.StdEncoding.DecodeString(j.S)
			if len(j.S)*3/4 > t.Len() {
				m.PanicAt = true
			}
			if err != nil {
				return fail("format")
			}
			if len(b) > t.Len() {
				m.PanicAt = true
			}
			if len(b) != t.Len() {
				return fail("length")
			}
			reflect.Copy(dst, reflect.ValueOf(b))
			return nil
		}
		if j.K == KNull {
			return nil
		}
		if j.K != KArr {
			return fail("kind")
		}
		if len(j.A) != t.Len() {
			return fail("length")
		}
		out := reflect.New(t).Elem()
		for i, e := range j.A {
			if err := m.Decode(out.Index(i), e, FieldOpt{Pkg: opt.Pkg}); err != nil {
				return err.at(strconv.Itoa(i))
			}
		}
		dst.Set(out)
	case reflect.Map:
		if j.K == KNull {
			if namedColl(t) && !m.NullOK {
				return fail("kind")
			}
			return nil
		}
		if j.K != KObj {
			return fail("kind")
		}
		if dst.IsNil() || metaByType[t] != nil && (opt.Top || m.MapWhole) {
			dst.Set(reflect.MakeMap(t)) // a declared map is read as a whole
		}
		for i, k := range j.Keys {
			v := reflect.New(t.Elem()).Elem()
			if err := m.Decode(v, j.Vals[i], FieldOpt{Pkg: opt.Pkg}); err != nil {
				return err.at(k)
			}
			dst.SetMapIndex(reflect.ValueOf(k).Convert(t.Key()), v)
		}
	case reflect.Struct:
		if m.Q["transit-replaces"] && transit(t) && !deepZero(dst) {
			m.Hits["transit-replaces"] = true
			dst.Set(reflect.Zero(t))
		}
		return m.decodeStruct(dst, j, opt.Pkg)
	default:
		return fail("unsupported " + t.String())
	}
	return nil
}

// transit: t is declared from another declared structure.
func transit(t reflect.Type) bool {
	m := metaByType[t]
	return m != nil && (strings.Contains(m.Class, "transit") || m.Feature("top") && strings.HasSuffix(m.Class, "|v"))
}

// mergeable: an element of this type keeps content that a document does not overwrite.
func mergeable(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct, reflect.Slice:
		return !isTime(t)
	}
	return false
}

func (m *Model) decodeStruct(dst reflect.Value, j *J, pkg string) *Err {
	t := dst.Type()
	if j.K != KObj {
		return fail("kind")
	}
	fs := fieldsOf(t)
	known := map[string]int{}
	for i, f := range fs {
		known[f.Opt.Name] = i
	}
	seen := map[string]*J{}
	strict := metaByType[t] != nil && metaByType[t].Has("strict")
	for i, k := range j.Keys {
		if _, ok := known[k]; !ok {
			if k == "" && (ownNameInline(t) || composed(t)) && m.Q["inline-own-name-empty-key"] {
				if seen[k] != nil {
					m.quirk("inline-own-name-empty-key")
					return fail("duplicate").at(k)
				}
				seen[k] = j.Vals[i]
				continue
			}
			if strict {
				return fail("unknown").at(k)
			}
			continue
		}
		if seen[k] != nil {
			return fail("duplicate").at(k)
		}
		seen[k] = j.Vals[i]
	}
	for _, f := range fs {
		fv := dst.FieldByIndex(f.Index)
		v := seen[f.Opt.Name]
		absent := v == nil
		if !absent && v.K == KNull && nullable(f.Type) && (!namedColl(f.Type) || m.NullOK) || (!absent && v.K == KNull && f.Type.Kind() == reflect.Array && f.Type != tUUID) {
			if f.Opt.Required && !f.Opt.HasDef && !((isBytes(f.Type) && f.Type.Name() != "" || namedColl(f.Type)) && m.quirk("required-null-named-list")) {
				return fail("required").at(f.Opt.Name)
			}
			continue
		}
		if absent {
			if f.Opt.HasDef {
				if err := setDefault(fv, f.Opt.Def); err != nil {
					return fail("default " + err.Error())
				}
				continue
			}
			if f.Opt.Required {
				return fail("required").at(f.Opt.Name)
			}
			continue
		}
		o := f.Opt
		o.Direct = true
		o.Pkg = pkg
		if err := m.Decode(fv, v, o); err != nil {
			return err.at(f.Opt.Name)
		}
	}
	return nil
}

func setDefault(v reflect.Value, def string) error {
	switch v.Kind() {
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		if err := setDefault(p.Elem(), def); err != nil {
			return err
		}
		v.Set(p.Convert(v.Type()))
	case reflect.Bool:
		v.SetBool(def == "true")
	case reflect.String:
		v.SetString(def)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(def, 0, 64)
		if err != nil {
			return err
		}
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(def, 0, 64)
		if err != nil {
			return err
		}
		v.SetUint(n)
	case reflect.Float32, reflect.Float64:
		n, err := strconv.ParseFloat(def, 64)
		if err != nil {
			return err
		}
		v.SetFloat(n)
	default:
		return fmt.Errorf("default for %s", v.Type())
	}
	return nil
}

// ---- encoding model -------------------------------------------------------

// isEmpty is the omitempty notion: zero value, nil pointer, nil collection.
// For empty but non-nil collections the answer is "either" (second result).
func isEmpty(v reflect.Value) (empty, either bool) {
	t := v.Type()
	switch {
	case isUUID(t):
		return false, true
	case isTime(t):
		return v.Convert(tTime).Interface().(time.Time).IsZero(), false
	}
	switch v.Kind() {
	case reflect.Ptr:
		return v.IsNil(), false
	case reflect.Slice, reflect.Map:
		return v.IsNil(), v.Len() == 0 && !v.IsNil()
	case reflect.Array:
		return false, deepZero(v)
	case reflect.Struct:
		if hasFixedArray(t) {
			return false, deepZero(v)
		}
		if deepZeroLoose(v) && !deepZero(v) {
			return false, true
		}
		return deepZero(v), false
	}
	return v.IsZero(), false
}

func hasFixedArray(t reflect.Type) bool {
	if t == tTime || t == tUUID {
		return false
	}
	switch t.Kind() {
	case reflect.Array:
		return true
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasFixedArray(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

// deepZero: every leaf zero, pointers and collections nil.
func deepZero(v reflect.Value) bool {
	t := v.Type()
	if isTime(t) {
		return v.Convert(tTime).Interface().(time.Time).IsZero()
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !Hidden && parseOpt(t.Field(i).Tag).Skip {
				continue
			}
			if !deepZero(v.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !deepZero(v.Index(i)) {
				return false
			}
		}
		return true
	}
	return v.IsZero()
}

// deepZeroLoose: as deepZero but empty collections count as zero.
func deepZeroLoose(v reflect.Value) bool {
	t := v.Type()
	if isTime(t) {
		return v.Convert(tTime).Interface().(time.Time).IsZero()
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !Hidden && parseOpt(t.Field(i).Tag).Skip {
				continue
			}
			if !deepZeroLoose(v.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !deepZeroLoose(v.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	}
	return v.IsZero()
}

// Matches compares an emitted document with the value it was emitted from.
// It returns "" or a description of the first difference.
func (m *Model) Matches(v reflect.Value, j *J, opt FieldOpt) string {
	t := v.Type()
	if isTime(t) {
		if j.K != KStr {
			return "time is not a string"
		}
		tm := v.Convert(tTime).Interface().(time.Time)
		want := tm.Format(time.RFC3339Nano)
		if opt.Layout != "" {
			want = tm.Format(opt.Layout)
		}
		if j.S == want {
			return ""
		}
		return fmt.Sprintf("time %q, want %q", j.S, want)
	}
	if isUUID(t) {
		u := v.Convert(tUUID).Interface().(uuid.UUID)
		if j.K != KStr || j.S != u.String() {
			return fmt.Sprintf("uuid %s, want %s", j.Text(nil), u)
		}
		return ""
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			if j.K != KNull {
				return "nil pointer is not null: " + j.Text(nil)
			}
			return ""
		}
		return m.Matches(v.Elem(), j, opt)
	case reflect.Bool:
		if j.K != KBool || j.B != v.Bool() {
			return fmt.Sprintf("bool %s, want %v", j.Text(nil), v.Bool())
		}
	case reflect.String:
		want := toValid(v.String())
		if j.K != KStr || j.S != want {
			return fmt.Sprintf("string %s, want %q", j.Text(nil), want)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if j.K != KNum || j.Num != strconv.FormatInt(v.Int(), 10) {
			return fmt.Sprintf("int %s, want %d", j.Text(nil), v.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if j.K != KNum || j.Num != strconv.FormatUint(v.Uint(), 10) {
			return fmt.Sprintf("uint %s, want %d", j.Text(nil), v.Uint())
		}
	case reflect.Float32, reflect.Float64:
		bits := 64
		if v.Kind() == reflect.Float32 {
			bits = 32
		}
		if j.K != KNum {
			return fmt.Sprintf("float %s, want %v", j.Text(nil), v.Float())
		}
		f, err := strconv.ParseFloat(j.Num, bits)
		if err != nil || (f != v.Float()) {
			return fmt.Sprintf("float %s, want %v", j.Text(nil), v.Float())
		}
	case reflect.Slice:
		if v.IsNil() {
			if j.K == KNull || opt.Nested && (j.K == KArr && len(j.A) == 0 || j.K == KStr && j.S == "" && isBytes(t)) {
				return "" // a nil list inside a list or map may be written as an empty one
			}
			return "nil slice is not null: " + j.Text(nil)
		}
		fallthrough
	case reflect.Array:
		if isBytes(t) && !m.U8Num {
			b := make([]byte, v.Len())
			reflect.Copy(reflect.ValueOf(b), v)
			if j.K == KNull && v.Kind() == reflect.Array && v.IsZero() {
				return ""
			}
			if j.K != KStr || j.S != base64.StdEncoding.EncodeToString(b) {
				return fmt.Sprintf("bytes %s, want base64 of %x", j.Text(nil), b)
			}
			return ""
		}
		if j.K != KArr || len(j.A) != v.Len() {
			return fmt.Sprintf("list %s, want %d elements", j.Text(nil), v.Len())
		}
		for i := range j.A {
			if d := m.Matches(v.Index(i), j.A[i], FieldOpt{Nested: true}); d != "" {
				return fmt.Sprintf("[%d] %s", i, d)
			}
		}
	case reflect.Map:
		if v.IsNil() {
			if j.K != KNull {
				return "nil map is not null: " + j.Text(nil)
			}
			return ""
		}
		if j.K != KObj {
			return "map is not an object: " + j.Text(nil)
		}
		want := map[string]reflect.Value{}
		it := v.MapRange()
		for it.Next() {
			want[toValid(keyText(it.Key()))] = it.Value()
		}
		if len(j.Keys) != v.Len() {
			return fmt.Sprintf("map has %d keys, want %d", len(j.Keys), v.Len())
		}
		seen := map[string]bool{}
		for i, k := range j.Keys {
			mv, ok := want[k]
			if !ok {
				return fmt.Sprintf("map has extra key %q", k)
			}
			if seen[k] {
				return fmt.Sprintf("map key %q appears twice", k)
			}
			seen[k] = true
			if d := m.Matches(mv, j.Vals[i], FieldOpt{Nested: true}); d != "" {
				return fmt.Sprintf("[%q] %s", k, d)
			}
		}
	case reflect.Struct:
		if j.K != KObj {
			return "struct is not an object: " + j.Text(nil)
		}
		got := map[string]*J{}
		for i, k := range j.Keys {
			if got[k] != nil {
				return fmt.Sprintf("key %q emitted twice", k)
			}
			got[k] = j.Vals[i]
		}
		for i, gap := range j.Gap {
			if !gap {
				continue
			}
			// tolerated only where every member before it is a nil pointer
			// in the same object, or the same embedded part of it
			for k := partStart(t, j.Keys, i); k < i; k++ {
				if !nilPtrField(v, j.Keys[k]) {
					return fmt.Sprintf("comma before %q is missing", j.Keys[i])
				}
			}
			if !m.quirk("comma-after-nil-pointer") {
				return fmt.Sprintf("comma before %q is missing", j.Keys[i])
			}
		}
		n, last := 0, -1
		at := map[string]int{}
		for i, k := range j.Keys {
			at[k] = i
		}
		for _, f := range fieldsOf(t) {
			fv := v.FieldByIndex(f.Index)
			g := got[f.Opt.Name]
			if g != nil {
				if at[f.Opt.Name] < last {
					return fmt.Sprintf("key %q is not in declaration order: %q", f.Opt.Name, j.Keys)
				}
				last = at[f.Opt.Name]
			}
			if f.Opt.Omit {
				empty, either := isEmpty(fv)
				if g == nil && (empty || either) {
					continue
				}
				if g != nil && empty && !either {
					return fmt.Sprintf("empty omitempty field %q emitted as %s", f.Opt.Name, g.Text(nil))
				}
			}
			if g == nil && partZero(v, f) {
				continue
			}
			if g == nil && len(f.Index) > 1 && inlineFallback(v, f.Index) && m.quirk("inline-own-name-zero") {
				continue
			}
			if g == nil {
				return fmt.Sprintf("field %q is missing", f.Opt.Name)
			}
			n++
			if d := m.Matches(fv, g, f.Opt); d != "" {
				return fmt.Sprintf("%s: %s", f.Opt.Name, d)
			}
		}
		if n != len(j.Keys) {
			return fmt.Sprintf("%d keys emitted, %d expected: %v", len(j.Keys), n, j.Keys)
		}
	default:
		return "unsupported " + t.String()
	}
	return ""
}

// ownNameInline: t inlines a struct that has a field of the struct's own name.
func ownNameInline(t reflect.Type) bool {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Anonymous && f.Type.Kind() == reflect.Struct && parseOpt(f.Tag).Inline {
			if _, own := f.Type.FieldByName(f.Type.Name()); own {
				return true
			}
		}
	}
	return false
}

// inlineFallback: the field is promoted from a zero embedded struct that has a
// field of its own name (such structs are not flattened by the generator).
func inlineFallback(v reflect.Value, index []int) bool {
	e := v.Type().Field(index[0])
	if e.Type.Kind() != reflect.Struct || !deepZero(v.Field(index[0])) {
		return false
	}
	_, own := e.Type.FieldByName(e.Type.Name())
	return own
}

// partStart: where the embedded part that has the i-th key begins, if the key is not
// the first one written of it (a part keeps its commas apart from the structure around it).
func partStart(t reflect.Type, keys []string, i int) int {
	parts := map[string]map[string]bool{}
	for _, f := range fieldsOf(t) {
		ps := map[string]bool{}
		for _, p := range f.Parts {
			ps[fmt.Sprint(p)] = true
		}
		parts[f.Opt.Name] = ps
	}
	start := 0
	for p := range parts[keys[i]] {
		k := i
		for k > 0 && parts[keys[k-1]][p] {
			k--
		}
		if k < i && k > start {
			start = k
		}
	}
	return start
}

func nilPtrField(v reflect.Value, key string) bool {
	for _, f := range fieldsOf(v.Type()) {
		if f.Opt.Name == key {
			fv := v.FieldByIndex(f.Index)
			return fv.Kind() == reflect.Ptr && fv.IsNil()
		}
	}
	return false
}

func toValid(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}

// ---- deep comparison ------------------------------------------------------

// CmpOpt relaxes a comparison.
type CmpOpt struct {
	NilEmpty bool // nil and empty collections are equal
	FloatULP uint64
	// Slots maps declared default/omit info? not needed
}

// Diff compares two values structurally (types may differ in name).
func Diff(a, b reflect.Value, o CmpOpt) string {
	if a.Kind() != b.Kind() {
		return fmt.Sprintf("kind %s/%s", a.Kind(), b.Kind())
	}
	t := a.Type()
	if isTime(t) {
		x := a.Convert(tTime).Interface().(time.Time)
		y := b.Convert(tTime).Interface().(time.Time)
		if !x.Equal(y) {
			return fmt.Sprintf("time %s/%s", x, y)
		}
		_, ox := x.Zone()
		_, oy := y.Zone()
		if ox != oy {
			return fmt.Sprintf("zone offset %s/%s", x, y)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("pointer nil=%v/nil=%v", a.IsNil(), b.IsNil())
			}
			return ""
		}
		return Diff(a.Elem(), b.Elem(), o)
	case reflect.Float32, reflect.Float64:
		if a.Float() == b.Float() || (math.IsNaN(a.Float()) && math.IsNaN(b.Float())) {
			return ""
		}
		if ulps(a, b) <= o.FloatULP {
			return ""
		}
		return fmt.Sprintf("float %v/%v", a.Float(), b.Float())
	case reflect.Slice:
		if a.IsNil() != b.IsNil() && !(o.NilEmpty && a.Len() == 0 && b.Len() == 0) {
			return fmt.Sprintf("slice nil=%v/nil=%v", a.IsNil(), b.IsNil())
		}
		fallthrough
	case reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("len %d/%d", a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := Diff(a.Index(i), b.Index(i), o); d != "" {
				return fmt.Sprintf("[%d]%s", i, d)
			}
		}
	case reflect.Map:
		if a.IsNil() != b.IsNil() && !(o.NilEmpty && a.Len() == 0 && b.Len() == 0) {
			return fmt.Sprintf("map nil=%v/nil=%v", a.IsNil(), b.IsNil())
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("map len %d/%d", a.Len(), b.Len())
		}
		it := a.MapRange()
		for it.Next() {
			k := it.Key().Convert(b.Type().Key())
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("map key %q missing", keyText(k))
			}
			if d := Diff(it.Value(), y, o); d != "" {
				return fmt.Sprintf("[%q]%s", keyText(k), d)
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := Diff(a.Field(i), b.Field(i), o); d != "" {
				return "." + t.Field(i).Name + " " + d
			}
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("bool %v/%v", a.Bool(), b.Bool())
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("string %q/%q", a.String(), b.String())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("int %d/%d", a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("uint %d/%d", a.Uint(), b.Uint())
		}
	default:
		return "unsupported kind " + a.Kind().String()
	}
	return ""
}

func ulps(a, b reflect.Value) uint64 {
	if a.Kind() == reflect.Float32 {
		x, y := math.Float32bits(float32(a.Float())), math.Float32bits(float32(b.Float()))
		if x>>31 != y>>31 {
			return math.MaxUint64
		}
		if x > y {
			return uint64(x - y)
		}
		return uint64(y - x)
	}
	x, y := math.Float64bits(a.Float()), math.Float64bits(b.Float())
	if x>>63 != y>>63 {
		return math.MaxUint64
	}
	if x > y {
		return x - y
	}
	return y - x
}

// DeepCopy clones a value tree (never sharing backing stores).
func DeepCopy(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	if v.Type().Kind() == reflect.Struct && v.Type().ConvertibleTo(tTime) {
		out.Set(v)
		return out
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(DeepCopy(v.Elem()))
			out.Set(p)
		}
	case reflect.Slice:
		if !v.IsNil() {
			// the spare capacity is part of the value: decoders reuse it
			n := v.Cap()
			s := reflect.MakeSlice(v.Type(), n, n)
			full := v.Slice(0, n)
			for i := 0; i < n; i++ {
				s.Index(i).Set(DeepCopy(full.Index(i)))
			}
			out.Set(s.Slice(0, v.Len()))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(DeepCopy(v.Index(i)))
		}
	case reflect.Map:
		if !v.IsNil() {
			mm := reflect.MakeMapWithSize(v.Type(), v.Len())
			it := v.MapRange()
			for it.Next() {
				k := reflect.New(v.Type().Key()).Elem()
				k.Set(it.Key())
				if k.Kind() == reflect.String {
					k.SetString(strings.Clone(k.String()))
				}
				mm.SetMapIndex(k, DeepCopy(it.Value()))
			}
			out.Set(mm)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if out.Field(i).CanSet() {
				out.Field(i).Set(DeepCopy(v.Field(i)))
			}
		}
	case reflect.String:
		out.SetString(strings.Clone(v.String()))
	default:
		out.Set(v)
	}
	return out
}
