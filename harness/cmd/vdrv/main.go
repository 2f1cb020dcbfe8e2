// vdrv runs scenarios on the code under test and records traces for TLC.
package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"time"

	"verifharness/trace"
)

// Env is what a subcommand gets.
type Env struct {
	Seed     int64
	Thorough bool
	N        int    // number of scenarios, 0: default
	In       string // scenario file
	Part     int    // this process is part Part of Parts
	Parts    int
	T        *trace.W
	R        *rand.Rand
	Scratch  string
}

// Count is n, or q/t by tier if the command line gives none, divided among the parts.
func (e *Env) Count(q, t int) int {
	n := e.N
	if n == 0 {
		n = q
		if e.Thorough {
			n = t
		}
	}
	return (n + e.Parts - 1) / e.Parts
}

var subs = map[string]func(*Env){}

func main() {
	if len(os.Args) < 2 {
		var l []string
		for k := range subs {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(l)
		os.Exit(2)
	}
	name := os.Args[1]
	fs := flag.NewFlagSet(name, flag.ExitOnError)
	e := &Env{}
	out := fs.String("out", "", "trace file")
	tier := fs.String("tier", "quick", "")
	fs.Int64Var(&e.Seed, "seed", 1, "")
	fs.IntVar(&e.N, "n", 0, "")
	fs.StringVar(&e.In, "in", "", "")
	fs.IntVar(&e.Part, "part", 0, "")
	fs.IntVar(&e.Parts, "parts", 1, "")
	fs.Parse(os.Args[2:])
	f, ok := subs[name]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown subcommand", name)
		os.Exit(2)
	}
	e.Thorough = *tier == "thorough"
	e.R = rand.New(rand.NewSource(e.Seed*1000003 + int64(e.Part)))
	e.T = trace.New(*out)
	switch name {
	case "c01", "c02", "template", "sml", "codec", "access":
		go watch(e.T)
	}
	f(e)
	e.T.Close()
}

// watch ends a driver whose trace does not grow: a call into the code under test does not return.
func watch(t *trace.W) {
	last, since := -1, time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		if n := t.Lines(); n != last {
			last, since = n, time.Now()
			continue
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		idle := time.Since(since)
		if idle > 60*time.Second || idle > 10*time.Second && m.HeapAlloc > 2500<<20 {
			buf := make([]byte, 1<<20)
			fmt.Fprintf(os.Stderr, "fatal error: a call does not return\n%s", buf[:runtime.Stack(buf, true)])
			os.Exit(77)
		}
	}
}
