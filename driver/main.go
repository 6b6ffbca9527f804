// Command vgen drives the valyjson generator of the working tree under test.
//
//	vgen [-internals a,b] [-order ed|de|d|e] [-repeat N] IN OUT [IN OUT ...]
//
// Every IN/OUT pair is generated in turn in this one process; the result of
// each pair is printed as one JSON line {"in","out","ok","panic","err"}.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"

	"github.com/iv-menshenin/valyjson/generator"
)

type result struct {
	In    string `json:"in"`
	Out   string `json:"out"`
	OK    bool   `json:"ok"`
	Panic string `json:"panic,omitempty"`
	Err   string `json:"err,omitempty"`
}

func one(in, out, order string, internals []string) (r result) {
	r = result{In: in, Out: out}
	defer func() {
		if p := recover(); p != nil {
			r.OK = false
			r.Panic = fmt.Sprint(p)
		}
	}()
	g := generator.New(in)
	if err := g.Parse(); err != nil {
		r.Err = err.Error()
		return r
	}
	for _, c := range order {
		switch c {
		case 'd':
			g.BuildDecoders()
		case 'e':
			g.BuildEncoders()
		}
	}
	g.FixImports(internals...)
	g.Print(out)
	r.OK = true
	return r
}

func main() {
	internals := flag.String("internals", "", "comma separated name,path pairs for FixImports")
	order := flag.String("order", "de", "build order")
	chdir := flag.String("C", "", "chdir")
	flag.Parse()
	if *chdir != "" {
		if err := os.Chdir(*chdir); err != nil {
			panic(err)
		}
	}
	var ints []string
	if *internals != "" {
		ints = strings.Split(*internals, ",")
	}
	args := flag.Args()
	enc := json.NewEncoder(os.Stdout)
	for i := 0; i+1 < len(args); i += 2 {
		_ = enc.Encode(one(args[i], args[i+1], *order, ints))
	}
}
