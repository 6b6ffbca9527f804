package hx

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/mailru/easyjson/jwriter"
	"github.com/valyala/fastjson"
)

func init() { props["faults"] = monFaults }

// Hooks of the hand-written type of the fault corpus.

type HandWriter = *jwriter.Writer

var (
	ErrHandFill = errors.New("hand-written decoder fails")
	ErrHandTo   = errors.New("hand-written encoder fails")
	handFills   int64
	handWrites  int64
	handMu      sync.Mutex
	handSeen    []string
)

const handBad = "FAIL-HERE"

func HandFill(s *string, v *fastjson.Value) error {
	atomic.AddInt64(&handFills, 1)
	b, err := v.StringBytes()
	if err != nil {
		return err
	}
	if string(b) == handBad {
		return ErrHandFill
	}
	*s = string(b)
	handMu.Lock()
	handSeen = append(handSeen, *s)
	handMu.Unlock()
	return nil
}

func HandUnmarshal(s *string, b []byte) error {
	v, err := fastjson.ParseBytes(b)
	if err != nil {
		return err
	}
	return HandFill(s, v)
}

func HandTo(s string, w HandWriter) error {
	atomic.AddInt64(&handWrites, 1)
	if s == handBad {
		w.RawString(`"half`) // what a failing encoder may have written already
		return ErrHandTo
	}
	w.String(s)
	return nil
}

func HandMarshal(s string) ([]byte, error) {
	w := jwriter.Writer{}
	if err := HandTo(s, &w); err != nil {
		return nil, err
	}
	return w.BuildBytes()
}

func isHand(t reflect.Type) bool {
	return t.Name() == "H" && strings.HasSuffix(t.PkgPath(), "/hand") || t.Name() == "HC" && strings.HasSuffix(t.PkgPath(), "/faulty")
}

// fillHand makes a value with hand-written parts everywhere.
func fillHand(v reflect.Value, r *Rnd, n *int) {
	t := v.Type()
	if isHand(t) {
		*n++
		v.Field(0).SetString("h" + strconv.Itoa(*n))
		return
	}
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fillHand(v.Field(i), r, n)
		}
	case reflect.Ptr:
		p := reflect.New(t.Elem())
		fillHand(p.Elem(), r, n)
		v.Set(p)
	case reflect.Slice:
		s := reflect.MakeSlice(t, 1+r.N(3), 4)
		for i := 0; i < s.Len(); i++ {
			fillHand(s.Index(i), r, n)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillHand(v.Index(i), r, n)
		}
	case reflect.Map:
		m := reflect.MakeMap(t)
		for i := 1 + r.N(3); i > 0; i-- {
			e := reflect.New(t.Elem()).Elem()
			fillHand(e, r, n)
			m.SetMapIndex(reflect.ValueOf("k"+strconv.Itoa(i)), e)
		}
		v.Set(m)
	default:
		RandValue(v, r, 3, FieldOpt{})
	}
}

// setHand sets the k-th hand-written part (maps are rebuilt on the way).
func setHand(v reflect.Value, k *int, s string) {
	t := v.Type()
	if isHand(t) {
		if *k == 0 {
			v.Field(0).SetString(s)
		}
		*k--
		return
	}
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			setHand(v.Field(i), k, s)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			setHand(v.Elem(), k, s)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			setHand(v.Index(i), k, s)
		}
	case reflect.Map:
		for i := 1; i < 5; i++ {
			key := reflect.ValueOf("k" + strconv.Itoa(i))
			if x := v.MapIndex(key); x.IsValid() {
				e := reflect.New(t.Elem()).Elem()
				e.Set(x)
				setHand(e, k, s)
				v.SetMapIndex(key, e)
			}
		}
	}
}

// handNodes: the nodes of a document that belong to hand-written parts.
func handNodes(j *J, out []int) []int {
	for i, n := range nodes(j, nil, nil) {
		if n.j.K == KStr && len(n.j.S) > 1 && n.j.S[0] == 'h' && n.j.S[1] >= '0' && n.j.S[1] <= '9' {
			if _, e := strconv.Atoi(n.j.S[1:]); e == nil {
				out = append(out, i)
			}
		}
	}
	return out
}

// monFaults makes the hand-written part at each position fail in turn.
func monFaults(c *Ctx) {
	c.EachAll(1, func(t *TypeInfo, r *Rnd) {
		if !strings.HasPrefix(t.Class, "fault.") || t.Has("custom") {
			return
		}
		c.Count("types-exercised", 1)
		bad := func(what, in, got string) { c.Report(Verdict{What: what}, t, in, got) }
		for i := 0; i < 60*c.Scale; i++ {
			v := t.Val()
			n := 0
			fillHand(v, r, &n)
			atomic.StoreInt64(&handWrites, 0)
			b, err := Enc(v)
			c.Case(true, t.ID+"\x00"+string(b))
			if err != nil {
				bad("encoder fails: "+err.Error(), ShowV(v), "")
				continue
			}
			if i == 0 {
				c.Sample(t.Class, string(b))
			}
			j, e := ParseJ(b)
			if e != nil {
				bad("not valid JSON: "+e.Error(), ShowV(v), string(b))
				continue
			}
			if w := atomic.LoadInt64(&handWrites); w != int64(n) {
				bad(fmt.Sprintf("%d parts, but their encoder ran %d times", n, w), ShowV(v), string(b))
			}
			c.Count("encoder-calls", int64(n))
			hn := handNodes(j, nil)
			if len(hn) != n {
				bad(fmt.Sprintf("%d parts, but %d in the document", n, len(hn)), ShowV(v), string(b))
				continue
			}
			good := string(b)
			// every part fails once while encoding
			for k := 0; k < n; k++ {
				x := DeepCopy(v)
				kk := k
				setHand(x, &kk, handBad)
				fb, fe := Enc(x)
				c.Case(true, t.ID+"\x02"+strconv.Itoa(k)+string(b))
				c.Count("encode-faults", 1)
				switch {
				case isPanic(fe):
					bad("encoder panics when a part fails: "+fe.Error(), ShowV(x), "")
				case fe == nil:
					bad("a failing part does not make the encoder fail", ShowV(x), string(fb))
				case !errors.Is(fe, ErrHandTo):
					bad("the error of the failing part is lost: "+fe.Error(), ShowV(x), "")
				case strings.Contains(fe.Error(), "%!") || !strings.Contains(fe.Error(), ErrHandTo.Error()):
					bad("the error text is garbled: "+fe.Error(), ShowV(x), "")
				}
				w := jwriter.Writer{}
				te := guard(func() error { return x.Addr().Interface().(marshalerTo).MarshalTo(&w) })
				if te == nil || isPanic(te) || !errors.Is(te, ErrHandTo) {
					bad("MarshalTo loses the error of a failing part: "+errText(te), ShowV(x), "")
				}
				if k%5 == 0 {
					b2, e2 := Enc(v)
					if e2 != nil || !sameJSON(b2, []byte(good)) {
						bad("an encode after a failed one differs: "+errText(e2), good, string(b2))
					}
				}
			}
			// plain decode: every part read once, with its own text
			for pass := 0; pass < 2; pass++ {
				atomic.StoreInt64(&handFills, 0)
				handMu.Lock()
				handSeen = nil
				handMu.Unlock()
				got := t.Val()
				if ge := DecInto(got, b); ge != nil {
					bad("own document is refused: "+ge.Error(), good, "")
					break
				}
				if d := Diff(v, got, CmpOpt{NilEmpty: true, FloatULP: 4}); d != "" {
					bad("decoded value differs: "+d, good, ShowV(got))
				}
				if f := atomic.LoadInt64(&handFills); f != int64(n) {
					bad(fmt.Sprintf("%d parts, but their decoder ran %d times", n, f), good, "")
				}
				c.Count("decoder-calls", int64(n))
			}
			// every part fails once while decoding
			for _, k := range hn {
				for _, mode := range []string{"fail", "kind"} {
					d := j.clone()
					nd := nodes(d, nil, nil)[k]
					if mode == "fail" {
						nd.j.S = handBad
					} else {
						*nd.j = *jNum("5")
					}
					txt := d.Text(styles(r, k))
					got := t.Val()
					ge := DecInto(got, []byte(txt))
					c.Case(true, t.ID+"\x03"+txt)
					c.Count("decode-faults", 1)
					switch {
					case isPanic(ge):
						bad("decoder panics when a part fails: "+ge.Error(), txt, "")
					case ge == nil:
						bad("a failing part does not make the decoder fail", txt, ShowV(got))
					case mode == "fail" && !errors.Is(ge, ErrHandFill):
						bad("the error of the failing part is lost: "+ge.Error(), txt, "")
					case mode == "fail" && !strings.Contains(ge.Error(), ErrHandFill.Error()):
						bad("the error text hides the cause: "+ge.Error(), txt, "")
					case strings.Contains(ge.Error(), "%!") && !strings.Contains(txt, "%!"):
						bad("the error text is garbled: "+ge.Error(), txt, "")
					}
				}
			}
			got := t.Val()
			if ge := DecInto(got, b); ge != nil || Diff(v, got, CmpOpt{NilEmpty: true, FloatULP: 4}) != "" {
				bad("a decode after failed ones differs: "+errText(ge), good, ShowV(got))
			}
		}
	})
}
