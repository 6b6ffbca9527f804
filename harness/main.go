package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
)

// Finding is one observed disagreement between the code and the property.
type Finding struct {
	Kind  string `json:"kind"` // violation | known
	Known string `json:"known,omitempty"`
	Type  string `json:"type"`
	Class string `json:"class"`
	What  string `json:"what"`
	Input string `json:"input,omitempty"`
	Got   string `json:"got,omitempty"`
}

// Stats is what the monitors saw.
type Stats struct {
	mu      sync.Mutex
	Counts  map[string]int64
	Samples []string
	seen    map[uint64]struct{}
	Finds   []Finding
	nviol   int
	known   map[string]int
	sampled map[string]int
	exampl  map[string]Finding
}

func newStats() *Stats {
	return &Stats{Counts: map[string]int64{}, seen: map[uint64]struct{}{}, known: map[string]int{}, sampled: map[string]int{}, exampl: map[string]Finding{}}
}

// Ctx is handed to the property monitors.
type Ctx struct {
	Types []*TypeInfo
	Seed  uint64
	Scale int // work multiplier
	Known map[string]bool
	St    *Stats
	Prop  string
}

func (c *Ctx) Count(k string, n int64) {
	c.St.mu.Lock()
	c.St.Counts[k] += n
	c.St.mu.Unlock()
}

// Case records one evaluation; distinct inputs are counted by hash.
func (c *Ctx) Case(nontrivial bool, key string) {
	h := hashStr(key)
	c.St.mu.Lock()
	c.St.Counts["evaluations"]++
	if nontrivial {
		c.St.seen[h] = struct{}{}
	}
	c.St.mu.Unlock()
}

func (c *Ctx) Sample(group, s string) {
	c.St.mu.Lock()
	defer c.St.mu.Unlock()
	if c.St.sampled[group] >= 2 || len(c.St.Samples) >= 40 {
		return
	}
	c.St.sampled[group]++
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	c.St.Samples = append(c.St.Samples, group+": "+s)
}

func (c *Ctx) Violation(t *TypeInfo, what, input, got string) {
	c.St.mu.Lock()
	defer c.St.mu.Unlock()
	c.St.nviol++
	if len(c.St.Finds) < 5000 {
		f := Finding{Kind: "violation", What: what, Input: clip(input), Got: clip(got)}
		if t != nil {
			f.Type, f.Class = t.ID, t.Class
		}
		c.St.Finds = append(c.St.Finds, f)
	}
}

func (c *Ctx) KnownHit(ids []string, t *TypeInfo, what, input, got string) {
	c.St.mu.Lock()
	defer c.St.mu.Unlock()
	for _, id := range ids {
		c.St.known[id]++
		if _, ok := c.St.exampl[id]; !ok || len(input) < len(c.St.exampl[id].Input) {
			c.St.exampl[id] = Finding{Kind: "known", Known: id, Type: t.ID, Class: t.Class, What: what, Input: clip(input), Got: clip(got)}
		}
	}
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:3000] + fmt.Sprintf("…(%d bytes)", len(s))
	}
	return s
}

// Each runs f for every type on all cores, in a deterministic way per type.
func (c *Ctx) Each(f func(t *TypeInfo, r *Rnd)) {
	c.EachN(runtime.NumCPU(), f)
}

func (c *Ctx) EachN(n int, f func(t *TypeInfo, r *Rnd)) {
	c.EachAll(n, func(t *TypeInfo, r *Rnd) {
		if !t.Has("none") {
			f(t, r)
		}
	})
}

// EachAll includes the types that only special monitors understand.
func (c *Ctx) EachAll(n int, f func(t *TypeInfo, r *Rnd)) {
	ch := make(chan *TypeInfo)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for t := range ch {
				func() {
					defer func() {
						if p := recover(); p != nil {
							buf := make([]byte, 4096)
							buf = buf[:runtime.Stack(buf, false)]
							c.Violation(t, fmt.Sprintf("panic: %v", p), "", string(buf))
						}
					}()
					r := NewRnd(c.Seed*1000003 + hashStr(c.Prop+t.ID))
					r.Large = largeIn[c.Prop]
					f(t, r)
				}()
			}
		}()
	}
	for _, t := range c.Types {
		ch <- t
	}
	close(ch)
	wg.Wait()
	c.St.mu.Lock()
	c.St.Counts["types"] = int64(len(c.Types))
	c.St.mu.Unlock()
}

var props = map[string]func(c *Ctx){}

// Main is the entry point of the generated monitor binary.
func Main(types []*TypeInfo) {
	prop := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 1, "seed")
	scale := flag.Int("scale", 1, "work multiplier")
	known := flag.String("known", "", "known deviations")
	only := flag.String("only", "", "only types whose id has this prefix")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *list {
		var ks []string
		for k := range props {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
		return
	}
	Register(types)
	var use []*TypeInfo
	for _, t := range types {
		if strings.HasPrefix(t.Class, "prelude.") && t.Pkg != "required" {
			continue
		}
		if strings.HasPrefix(t.Class, "ext.") && !strings.Contains(t.Class, "|") && t.Pkg != "gextes" {
			continue
		}
		if *only != "" && !strings.HasPrefix(t.ID, *only) {
			continue
		}
		use = append(use, t)
	}
	c := &Ctx{Types: use, Seed: *seed, Scale: *scale, Known: map[string]bool{}, St: newStats(), Prop: *prop}
	for _, k := range strings.Split(*known, ",") {
		if k != "" {
			c.Known[k] = true
		}
	}
	f := props[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	f(c)
	c.St.Counts["distinct"] = int64(len(c.St.seen))
	for _, e := range c.St.exampl {
		c.St.Finds = append(c.St.Finds, e)
	}
	out := map[string]any{
		"counts": c.St.Counts, "samples": c.St.Samples, "finds": c.St.Finds, "violations": c.St.nviol, "known": c.St.known,
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	_ = enc.Encode(out)
}

// largeIn: the monitors that also see long lists, maps and texts (the others look at every place of a document in turn).
var largeIn = map[string]bool{"encode": true, "decode": true, "roundtrip": true, "omitempty": true, "over": true, "reset": true, "alias": true, "api": true, "std": true}
