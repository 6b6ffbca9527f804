package hx

import (
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/mailru/easyjson/jwriter"
	"github.com/valyala/fastjson"
)

func init() { props["concurrent"] = monConcurrent }

// task is one call with the result it has when it runs alone.
type task struct {
	t    *TypeInfo
	enc  bool
	txt  string
	val  reflect.Value // decoded value (reference), or the value to encode
	err  string
	doc  string
	j    *J
	bad  bool
	busy int32
}

// monConcurrent runs the same calls alone and then many at a time.
func monConcurrent(c *Ctx) {
	byType := map[*TypeInfo][]*task{}
	var types []*TypeInfo
	var mu sync.Mutex
	c.Each(func(t *TypeInfo, r *Rnd) {
		m := modelFor(t)
		var ts []*task
		for i := 0; i < 6; i++ {
			if t.Dec() {
				m.Full = i == 0
				j := m.RandDoc(t.Type(), r, 0, FieldOpt{})
				if i > 3 {
					Mutate(j, r, pick(r, []string{"kind", "unknown", "dup", "drop", "num"}))
				}
				txt := j.Text(styles(r, i))
				if i == 5 {
					txt = txt[:len(txt)/2]
				}
				v := t.Val()
				err := DecInto(v, []byte(txt))
				if isPanic(err) {
					continue
				}
				k := &task{t: t, txt: txt, val: v, j: j}
				if err != nil {
					k.err, k.bad = err.Error(), true
				}
				ts = append(ts, k)
			}
			if t.Enc() && i < 3 {
				v := randVal(t, r, i)
				b, err := Enc(v)
				if err != nil {
					continue
				}
				ts = append(ts, &task{t: t, enc: true, val: v, doc: string(b)})
			}
		}
		if len(ts) > 0 {
			mu.Lock()
			byType[t] = ts
			mu.Unlock()
		}
	})
	var all []*task
	for _, t := range c.Types {
		if ts := byType[t]; len(ts) > 0 {
			types = append(types, t)
			all = append(all, ts...)
		}
	}
	inflight := map[*TypeInfo]*int32{}
	for _, t := range types {
		inflight[t] = new(int32)
	}
	var overlaps, decs, encs, fails int64
	do := func(k *task, r *Rnd) {
		n := inflight[k.t]
		if atomic.AddInt32(n, 1) > 1 {
			atomic.AddInt64(&overlaps, 1)
		}
		defer atomic.AddInt32(n, -1)
		if k.enc {
			atomic.AddInt64(&encs, 1)
			var b []byte
			var err error
			if r.N(2) == 0 {
				b, err = Enc(k.val) // the value is shared by all goroutines
			} else {
				w := jwriter.Writer{}
				err = guard(func() error { return k.val.Addr().Interface().(marshalerTo).MarshalTo(&w) })
				if err == nil {
					b, err = w.BuildBytes()
				}
			}
			if r.N(3) == 0 {
				runtime.Gosched()
			}
			if err != nil {
				c.Report(Verdict{What: "encoding fails only when other calls run: " + err.Error()}, k.t, ShowV(k.val), "")
			} else if string(b) != k.doc && !sameJSON(b, []byte(k.doc)) {
				c.Report(Verdict{What: "encoding gives another document when other calls run"}, k.t, k.doc, string(b))
			}
			if r.N(4) == 0 {
				if z, ok := k.val.Addr().Interface().(zeroer); ok {
					_ = guard(func() error { _ = z.IsZero(); return nil })
				}
			}
			return
		}
		atomic.AddInt64(&decs, 1)
		v := k.t.Val()
		buf := []byte(k.txt)
		var err error
		if r.N(3) == 0 {
			var p fastjson.Parser
			jv, e := p.ParseBytes(buf)
			if e != nil {
				return
			}
			err = guard(func() error { return v.Addr().Interface().(filler).FillFromJSON(jv) })
		} else {
			err = DecInto(v, buf)
		}
		if r.N(3) == 0 {
			runtime.Gosched()
		}
		for i := range buf {
			buf[i] = '#'
		}
		switch {
		case err != nil && !k.bad:
			c.Report(Verdict{What: "decoding fails only when other calls run: " + err.Error()}, k.t, k.txt, "")
		case err == nil && k.bad:
			c.Report(Verdict{What: "decoding accepts only when other calls run"}, k.t, k.txt, ShowV(v))
		case err != nil:
			atomic.AddInt64(&fails, 1)
		default:
			if d := Diff(k.val, v, CmpOpt{}); d != "" {
				c.Report(Verdict{What: "decoding gives another value when other calls run: " + d}, k.t, k.txt, ShowV(v))
			}
		}
	}
	const G = 16
	run := func(rounds int, pickTask func(g, i int, r *Rnd) *task) {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				r := NewRnd(c.Seed*7919 + uint64(g)*104729 + uint64(rounds))
				<-start
				for i := 0; i < rounds; i++ {
					do(pickTask(g, i, r), r)
				}
			}(g)
		}
		close(start)
		wg.Wait()
	}
	// everyone on one type, type after type: the type's parser pool
	for _, t := range types {
		ts := byType[t]
		run(12*c.Scale, func(g, i int, r *Rnd) *task { return ts[(g+i*7+r.N(2))%len(ts)] })
		c.Case(true, t.ID)
		for _, k := range ts[:1] {
			c.Sample(t.Class, k.txt+k.doc)
		}
	}
	// everyone on everything
	run(4000*c.Scale, func(g, i int, r *Rnd) *task { return pick(r, all) })
	c.St.mu.Lock()
	c.St.Counts["evaluations"] = decs + encs
	c.St.mu.Unlock()
	c.Count("overlapping-calls", overlaps)
	c.Count("decodes", decs)
	c.Count("encodes", encs)
	c.Count("refused-as-alone", fails)
	c.Count("goroutines", G)
	c.Count("types-exercised", int64(len(types)))
}
