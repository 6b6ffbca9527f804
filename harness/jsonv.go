// Package hx holds the monitors that watch generated valyjson code.
package hx

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Kind of a JSON node.
type Kind int

const (
	KNull Kind = iota
	KBool
	KNum
	KStr
	KArr
	KObj
)

func (k Kind) String() string {
	return [...]string{"null", "bool", "number", "string", "array", "object"}[k]
}

// J is a JSON document tree. Objects keep order and duplicates.
type J struct {
	K    Kind
	B    bool
	Num  string
	S    string
	A    []*J
	Keys []string
	Vals []*J
	Gap  []bool // object: the comma before this member is missing (lenient parse only)
}

func jNull() *J        { return &J{K: KNull} }
func jBool(b bool) *J  { return &J{K: KBool, B: b} }
func jNum(s string) *J { return &J{K: KNum, Num: s} }
func jStr(s string) *J { return &J{K: KStr, S: s} }
func jArr(a ...*J) *J  { return &J{K: KArr, A: a} }
func jObj() *J         { return &J{K: KObj} }
func (j *J) put(k string, v *J) *J {
	j.Keys = append(j.Keys, k)
	j.Vals = append(j.Vals, v)
	return j
}

func (j *J) clone() *J {
	if j == nil {
		return nil
	}
	c := *j
	c.A = make([]*J, len(j.A))
	for i := range j.A {
		c.A[i] = j.A[i].clone()
	}
	c.Keys = append([]string(nil), j.Keys...)
	c.Vals = make([]*J, len(j.Vals))
	for i := range j.Vals {
		c.Vals[i] = j.Vals[i].clone()
	}
	return &c
}

// Style controls how a tree is written out.
type Style struct {
	R      *Rnd
	Space  bool // random insignificant white space
	Escape bool // random \uXXXX escapes inside strings and keys
	Shuf   bool // shuffled object keys (duplicates keep their relative order)
}

func (j *J) Text(st *Style) string {
	var b strings.Builder
	j.write(&b, st)
	return b.String()
}

func (st *Style) ws(b *strings.Builder) {
	if st == nil || !st.Space || st.R.N(3) != 0 {
		return
	}
	b.WriteString([]string{" ", "\n", "\t", "\r\n", "  "}[st.R.N(5)])
}

func writeStr(b *strings.Builder, s string, st *Style) {
	b.WriteByte('"')
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		esc := st != nil && st.Escape && st.R.N(6) == 0
		switch {
		case r == utf8.RuneError && n == 1:
			b.WriteByte(s[i]) // raw byte, the caller wanted it
		case r == '"':
			b.WriteString(`\"`)
		case r == '\\':
			b.WriteString(`\\`)
		case r == '\n' && !esc:
			b.WriteString(`\n`)
		case r == '\t' && !esc:
			b.WriteString(`\t`)
		case r == '\r' && !esc:
			b.WriteString(`\r`)
		case r == '\b' && !esc:
			b.WriteString(`\b`)
		case r == '\f' && !esc:
			b.WriteString(`\f`)
		case r == '/' && esc:
			b.WriteString(`\/`)
		case r < 0x20 || esc:
			if r > 0xffff {
				r2 := r - 0x10000
				fmt.Fprintf(b, `\u%04x\u%04x`, 0xd800+(r2>>10), 0xdc00+(r2&0x3ff))
			} else if st != nil && st.R != nil && st.R.N(2) == 0 {
				fmt.Fprintf(b, `\u%04X`, r)
			} else {
				fmt.Fprintf(b, `\u%04x`, r)
			}
		default:
			b.WriteString(s[i : i+n])
		}
		i += n
	}
	b.WriteByte('"')
}

func (j *J) write(b *strings.Builder, st *Style) {
	st.ws(b)
	switch j.K {
	case KNull:
		b.WriteString("null")
	case KBool:
		b.WriteString(strconv.FormatBool(j.B))
	case KNum:
		b.WriteString(j.Num)
	case KStr:
		writeStr(b, j.S, st)
	case KArr:
		b.WriteByte('[')
		for i, e := range j.A {
			if i > 0 {
				b.WriteByte(',')
			}
			e.write(b, st)
		}
		st.ws(b)
		b.WriteByte(']')
	case KObj:
		b.WriteByte('{')
		idx := make([]int, len(j.Keys))
		for i := range idx {
			idx[i] = i
		}
		if st != nil && st.Shuf {
			for i := len(idx) - 1; i > 0; i-- {
				k := st.R.N(i + 1)
				idx[i], idx[k] = idx[k], idx[i]
			}
			// duplicates keep relative order
			pos := map[string][]int{}
			for p, i := range idx {
				pos[j.Keys[i]] = append(pos[j.Keys[i]], p)
			}
			for key, ps := range pos {
				if len(ps) < 2 {
					continue
				}
				n := 0
				for i := range j.Keys {
					if j.Keys[i] == key {
						idx[ps[n]] = i
						n++
					}
				}
			}
		}
		for n, i := range idx {
			if n > 0 {
				b.WriteByte(',')
			}
			st.ws(b)
			writeStr(b, j.Keys[i], st)
			st.ws(b)
			b.WriteByte(':')
			j.Vals[i].write(b, st)
		}
		st.ws(b)
		b.WriteByte('}')
	}
	st.ws(b)
}

// ParseJ parses a document strictly (encoding/json decides validity) keeping duplicate keys.
func ParseJ(data []byte) (*J, error) {
	if !json.Valid(data) {
		var v any
		err := json.Unmarshal(data, &v)
		if err == nil {
			err = fmt.Errorf("invalid JSON")
		}
		return nil, err
	}
	p := &jparser{s: data}
	p.ws()
	return p.value(), nil
}

type jparser struct {
	s []byte
	i int
}

func (p *jparser) ws() {
	for p.i < len(p.s) {
		switch p.s[p.i] {
		case ' ', '\t', '\n', '\r':
			p.i++
		default:
			return
		}
	}
}

func (p *jparser) str() string {
	st := p.i
	p.i++
	for p.s[p.i] != '"' {
		if p.s[p.i] == '\\' {
			p.i++
		}
		p.i++
	}
	p.i++
	var out string
	if err := json.Unmarshal(p.s[st:p.i], &out); err != nil {
		panic(err)
	}
	return out
}

func (p *jparser) value() *J {
	p.ws()
	defer p.ws()
	switch p.s[p.i] {
	case 'n':
		p.i += 4
		return jNull()
	case 't':
		p.i += 4
		return jBool(true)
	case 'f':
		p.i += 5
		return jBool(false)
	case '"':
		return jStr(p.str())
	case '[':
		p.i++
		j := jArr()
		p.ws()
		if p.s[p.i] == ']' {
			p.i++
			return j
		}
		for {
			j.A = append(j.A, p.value())
			c := p.s[p.i]
			p.i++
			if c == ']' {
				return j
			}
		}
	case '{':
		p.i++
		j := jObj()
		p.ws()
		if p.s[p.i] == '}' {
			p.i++
			return j
		}
		for {
			p.ws()
			k := p.str()
			p.ws()
			p.i++ // colon
			j.put(k, p.value())
			c := p.s[p.i]
			p.i++
			if c == '}' {
				return j
			}
		}
	default:
		st := p.i
		for p.i < len(p.s) && strings.IndexByte("+-0123456789.eE", p.s[p.i]) >= 0 {
			p.i++
		}
		return jNum(string(p.s[st:p.i]))
	}
}

// ParseLenient reads a document that may lack commas between the members of an
// object and may hold NaN and Inf tokens; everything else must be in order.
func ParseLenient(data []byte) (j *J, err error) {
	defer func() {
		if p := recover(); p != nil {
			j, err = nil, fmt.Errorf("invalid JSON: %v", p)
		}
	}()
	p := &lparser{jparser{s: data}}
	j = p.value()
	if p.i != len(p.s) {
		return nil, fmt.Errorf("trailing data at %d", p.i)
	}
	return j, nil
}

type lparser struct{ jparser }

func (p *lparser) need(c byte) {
	if p.s[p.i] != c {
		panic(fmt.Sprintf("want %q at %d", c, p.i))
	}
	p.i++
}

func (p *lparser) lit(s string) bool {
	if strings.HasPrefix(string(p.s[p.i:]), s) {
		p.i += len(s)
		return true
	}
	return false
}

func (p *lparser) value() *J {
	switch c := p.s[p.i]; {
	case c == '"':
		return jStr(p.str())
	case c == '[':
		p.i++
		j := jArr()
		if p.lit("]") {
			return j
		}
		for {
			j.A = append(j.A, p.value())
			if p.lit("]") {
				return j
			}
			p.need(',')
		}
	case c == '{':
		p.i++
		j := jObj()
		if p.lit("}") {
			return j
		}
		gap := false
		for {
			k := p.str()
			p.need(':')
			j.put(k, p.value())
			j.Gap = append(j.Gap, gap)
			if p.lit("}") {
				return j
			}
			gap = !p.lit(",")
			if p.s[p.i] != '"' {
				panic("want a key")
			}
		}
	case p.lit("null"):
		return jNull()
	case p.lit("true"):
		return jBool(true)
	case p.lit("false"):
		return jBool(false)
	case p.lit("NaN"):
		return jNum("NaN")
	case p.lit("+Inf"):
		return jNum("+Inf")
	case p.lit("-Inf"):
		return jNum("-Inf")
	}
	st := p.i
	for p.i < len(p.s) && strings.IndexByte("+-0123456789.eE", p.s[p.i]) >= 0 {
		p.i++
	}
	if !json.Valid(p.s[st:p.i]) {
		panic("bad token")
	}
	return jNum(string(p.s[st:p.i]))
}

// Rnd is a small deterministic PRNG (splitmix64).
type Rnd struct {
	s     uint64
	Large bool // now and then one long list, map or text per document or value
	once  bool
}

func NewRnd(seed uint64) *Rnd { return &Rnd{s: seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (r *Rnd) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rnd) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rnd) P(num, den int) bool { return r.N(den) < num }

func pick[T any](r *Rnd, xs []T) T { return xs[r.N(len(xs))] }

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}
