// vyield writes a build overlay which yields at random between the statements
// of the given packages, so that rare interleavings of goroutines are common.
//
//	vyield REPO MODULE OUTDIR DIR...
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const pkg = `// Package verifyield is part of the build for verification only.
package verifyield

import (
	"os"
	"runtime"
	"strconv"
	"sync/atomic"
	"time"
)

var (
	seed atomic.Uint64
	rate uint64
)

func init() {
	n, _ := strconv.Atoi(os.Getenv("VERIF_YIELD"))
	rate = uint64(n)
}

// Y yields one time in eight and sleeps up to 300 microseconds VERIF_YIELD times in 1000, or, for periods, 8 times more or less often.
func Y() {
	if rate == 0 {
		return
	}
	n := seed.Add(1)
	x := n * 0x9e3779b97f4a7c15
	r := []uint64{rate, rate * 8, rate / 8, rate * 4}[n>>9&3]
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	if x%1000 < r {
		time.Sleep(time.Duration(x>>32%300) * time.Microsecond)
	} else if x&7 == 0 {
		runtime.Gosched()
	}
}
`

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	repo, mod, out := os.Args[1], os.Args[2], os.Args[3]
	rep := map[string]string{}
	put := func(name string, data string) string {
		f := filepath.Join(out, strings.ReplaceAll(name, "/", "_")+".src")
		must(os.WriteFile(f, []byte(data), 0o644))
		return f
	}
	rep[filepath.Join(repo, "internal/verifyield/y.go")] = put("verifyield", pkg)
	for _, dir := range os.Args[4:] {
		files, err := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		must(err)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			must(err)
			fs := token.NewFileSet()
			a, err := parser.ParseFile(fs, f, src, 0)
			if err != nil { // the compiler will tell
				continue
			}
			off := func(p token.Pos) int { return fs.Position(p).Offset }
			var at []int
			list := func(ss []ast.Stmt) {
				for _, s := range ss {
					if _, empty := s.(*ast.EmptyStmt); !empty {
						at = append(at, off(s.Pos()))
					}
				}
			}
			ast.Inspect(a, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					for _, s := range x.List {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					list(x.List)
				case *ast.CaseClause:
					list(x.Body)
				case *ast.CommClause:
					list(x.Body)
				}
				return true
			})
			if len(at) == 0 {
				continue
			}
			sort.Ints(at)
			var b strings.Builder
			p := off(a.Name.End())
			b.Write(src[:p])
			b.WriteString("; import verifyield \"" + mod + "/internal/verifyield\"")
			for _, q := range at {
				b.Write(src[p:q])
				b.WriteString("verifyield.Y(); ")
				p = q
			}
			b.Write(src[p:])
			rep[f] = put(strings.TrimPrefix(f, repo+"/"), b.String())
		}
	}
	j, err := json.Marshal(map[string]interface{}{"Replace": rep})
	must(err)
	must(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644))
}
