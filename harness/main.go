package main

import (
	"encoding/json"
	"flag"
	"os"
	"runtime/debug"
	"strings"
)

var (
	prop  = flag.String("prop", "", "property")
	seed  = flag.Int64("seed", 1, "seed")
	deep  = flag.Bool("thorough", false, "thorough tier")
	out   = flag.String("out", "", "trace file to write")
	progs = flag.String("programs", "", "file with programs enumerated by TLC")
	tmp   = flag.String("tmp", "", "scratch directory")
)

var drivers = map[string]func(*Rec){}

// programs reads the programs that TLC enumerated: one JSON array of calls per line.
func programs() [][]map[string]interface{} {
	b, err := os.ReadFile(*progs)
	if err != nil {
		fatal(err)
	}
	var ps [][]map[string]interface{}
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		var p []map[string]interface{}
		if err := json.Unmarshal([]byte(l), &p); err != nil {
			fatal(err, l)
		}
		ps = append(ps, p)
	}
	if len(ps) == 0 {
		fatal("no programs")
	}
	return ps
}

func n(quick, thorough int) int {
	if *deep {
		return thorough
	}
	return quick
}

func main() {
	flag.Parse()
	d, ok := drivers[*prop]
	if !ok {
		fatal("no driver for", *prop)
	}
	r := NewRec(*out)
	defer func() {
		// The driver cannot go on: what was recorded until then is still worth looking at.
		if p := recover(); p != nil {
			stack := string(debug.Stack())
			if _, ok := p.(driverError); !ok && strings.Contains(stack, "github.com/cubeflix/nn.") {
				panic(p) // a crash inside the library
			}
			r.End()
			r.Close()
			fatal(p, stack)
		}
	}()
	d(r)
	r.Close()
}
