package main

import (
	"math/rand"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"

	"verifharness/astx"
	"verifharness/trace"
	"verifharness/wire"
)

func init() { subs["access"] = access }

// access reads messages, built and received, at random positions.
func access(e *Env) {
	for i := e.Count(4000, 40000); i > 0; i-- {
		it := randItem(e.R, 1+e.R.Intn(4), 4, ascii7)
		if e.R.Intn(20) == 0 {
			it = nil
		}
		m := randMsg(e.R)
		msg := buildMsg(m, it, e.R)
		if e.R.Intn(2) == 0 {
			p, ok := hsms.Parse(msg.ToBytes())
			if !ok {
				panic("hsms.Parse refuses a message of secs4go")
			}
			msg = p.(*ast.DataMessage)
		}
		var reads []trace.E
		for k := 0; k < 12; k++ {
			if e.R.Intn(6) == 0 {
				scribble(e.R, msg, it)
			}
			reads = append(reads, readAt(e.R, msg, it))
		}
		b := msg.ToBytes()
		back, err := wire.ParseFrame(b[4:])
		if err != nil {
			panic("ToBytes gives no message")
		}
		left, err := back.Item()
		if err != nil {
			panic("ToBytes gives no item")
		}
		sys := make([]int, 0, 4)
		for _, x := range msg.SystemBytes() {
			sys = append(sys, int(x))
		}
		e.T.Log(trace.E{"op": "read", "nodes": nodes(it), "reads": reads, "back": nodes(left), "sys": m.Sys, "sys2": sys})
	}
}

// randPath leads into the item, mostly to something.
func randPath(r *rand.Rand, it *wire.Item) []int {
	path := []int{}
	for it != nil {
		n := it.Len()
		if r.Intn(6) == 0 {
			break
		}
		i := r.Intn(n+3) - 1
		if n > 0 && r.Intn(4) > 0 {
			i = r.Intn(n)
		}
		path = append(path, i)
		if it.F != "L" || i < 0 || i >= n {
			break
		}
		it = it.Items[i]
	}
	if r.Intn(15) == 0 {
		path = append(path, r.Intn(3))
	}
	return path
}

// scribble changes what the accessors hand out, which is the caller's own.
func scribble(r *rand.Rand, msg *ast.DataMessage, it *wire.Item) {
	if r.Intn(3) == 0 {
		clear(msg.SystemBytes())
		return
	}
	n, err := msg.Get(randPath(r, it)...)
	if err != nil {
		return
	}
	switch v := n.Values().(type) {
	case []int:
		for i := range v {
			v[i] ^= 1
		}
	case []bool:
		for i := range v {
			v[i] = !v[i]
		}
	case []int64:
		for i := range v {
			v[i] ^= 1
		}
	case []uint64:
		for i := range v {
			v[i] ^= 1
		}
	case []float64:
		for i := range v {
			v[i]++
		}
	case []ast.ItemNode:
		for i := range v {
			v[i] = ast.NewASCIINode("overwritten")
		}
	}
}

func readAt(r *rand.Rand, msg *ast.DataMessage, it *wire.Item) (res trace.E) {
	path := randPath(r, it)
	fn := []string{"item", "ascii", "byte", "bool", "int", "float"}[r.Intn(6)]
	if r.Intn(3) > 0 { // the function for what lies there
		at := it
		for _, i := range path {
			if at == nil || at.F != "L" || i < 0 || i >= at.Len() {
				break
			}
			at = at.Items[i]
		}
		if at != nil {
			switch at.F[0] {
			case 'A':
				fn = "ascii"
				if n := len(path); n > 0 && at.F == "A" && r.Intn(2) == 0 {
					path = path[:n-1] // the item, not a character
				}
			case 'B':
				fn = map[bool]string{true: "byte", false: "bool"}[at.F == "B"]
			case 'I':
				fn = "int"
			case 'F':
				fn = "float"
			}
		}
	}
	res = trace.E{"fn": fn, "path": path, "r": "err", "x": []int{}, "x4": []int{}, "x8": []int{}}
	defer func() {
		if p := recover(); p != nil {
			res["r"] = "panic"
		}
	}()
	val := func(err error, it *wire.Item) {
		if err == nil {
			res["r"] = "val"
			res["x"] = nodes(it)[0].V
		}
	}
	switch fn {
	case "item":
		n, err := msg.Get(path...)
		if err != nil {
			return
		}
		got, err := astx.From(n)
		if err != nil {
			res["r"] = "unreadable: " + err.Error()
			return
		}
		if got == nil && len(path) > 0 {
			got = wire.L()
		}
		res["r"], res["x"] = "val", nodes(got)
	case "ascii":
		s, err := msg.GetAscii(path...)
		val(err, wire.A(s))
	case "byte":
		b, err := msg.GetByte(path...)
		val(err, wire.B(b))
	case "bool":
		b, err := msg.GetBoolean(path...)
		val(err, wire.Bool(b))
	case "int":
		v, err := msg.GetInt(path...)
		val(err, wire.I(8, v))
	case "float":
		v, err := msg.GetFloat(path...)
		val(err, wire.F(8, v))
		if err == nil {
			res["x8"] = res["x"]
			res["x4"] = nodes(wire.F(4, v))[0].V
		}
	}
	return
}
