package hx

import (
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"

	"github.com/mailru/easyjson/jwriter"
	"github.com/valyala/fastjson"
)

type filler interface{ FillFromJSON(*fastjson.Value) error }
type marshalerTo interface {
	MarshalTo(*jwriter.Writer) error
}
type zeroer interface{ IsZero() bool }
type resetter interface{ Reset() }

type panicErr struct {
	v     any
	stack string
}

func (p *panicErr) Error() string { return fmt.Sprintf("panic: %v", p.v) }

func guard(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 3000)
			err = &panicErr{p, string(buf[:runtime.Stack(buf, false)])}
		}
	}()
	return f()
}

func isPanic(err error) bool { _, ok := err.(*panicErr); return ok }

// Enc calls MarshalJSON on an addressable value.
func Enc(v reflect.Value) (b []byte, err error) {
	m, ok := v.Addr().Interface().(json.Marshaler)
	if !ok {
		return nil, fmt.Errorf("no MarshalJSON on %s", v.Type())
	}
	err = guard(func() (e error) { b, e = m.MarshalJSON(); return })
	return
}

// DecInto calls UnmarshalJSON.
func DecInto(v reflect.Value, data []byte) error {
	m, ok := v.Addr().Interface().(json.Unmarshaler)
	if !ok {
		return fmt.Errorf("no UnmarshalJSON on %s", v.Type())
	}
	return guard(func() error { return m.UnmarshalJSON(data) })
}

func ShowV(v reflect.Value) string {
	return clip(showV(v, 0))
}

func showV(v reflect.Value, d int) string {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return "nil"
		}
		return "&" + showV(v.Elem(), d+1)
	}
	switch v.Kind() {
	case reflect.Struct:
		if v.Type().ConvertibleTo(tTime) {
			return fmt.Sprint(v.Convert(tTime).Interface())
		}
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).IsZero() {
				continue
			}
			s += v.Type().Field(i).Name + ":" + showV(v.Field(i), d+1) + " "
		}
		return s + "}"
	case reflect.Slice:
		if v.IsNil() {
			return "nil"
		}
		fallthrough
	case reflect.Array:
		s := "["
		for i := 0; i < v.Len() && i < 40; i++ {
			s += showV(v.Index(i), d+1) + " "
		}
		return s + "]"
	case reflect.Map:
		if v.IsNil() {
			return "nil"
		}
		s := "map["
		it := v.MapRange()
		for it.Next() {
			s += fmt.Sprintf("%q:", keyText(it.Key())) + showV(it.Value(), d+1) + " "
		}
		return s + "]"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	}
	return fmt.Sprintf("%v", v)
}

func modelFor(t *TypeInfo) *Model { return &Model{U8Num: t.Feature("u8num")} }
