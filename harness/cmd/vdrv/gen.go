package main

import (
	"math"
	"math/rand"

	"verifharness/wire"
)

// randItem makes a random item tree with at most depth nested lists.
func randItem(r *rand.Rand, depth, maxLen int, ascii func(*rand.Rand) byte) *wire.Item {
	f := wire.Formats[r.Intn(len(wire.Formats))]
	if depth > 0 && r.Intn(3) == 0 {
		f = "L"
	}
	if f == "L" && depth == 0 {
		f = "A"
	}
	n := r.Intn(maxLen + 1)
	if r.Intn(4) == 0 {
		n = 1
	}
	it := &wire.Item{F: f}
	for i := 0; i < n; i++ {
		switch f[0] {
		case 'L':
			it.Items = append(it.Items, randItem(r, depth-1, maxLen, ascii))
		case 'I':
			it.Ints = append(it.Ints, randInt(r, wire.Width(f)))
		case 'U':
			it.Uints = append(it.Uints, randUint(r, wire.Width(f)))
		case 'F':
			it.Flts = append(it.Flts, randFloat(r, wire.Width(f)))
		case 'A':
			it.Raw = append(it.Raw, ascii(r))
		default:
			b := byte(r.Intn(256))
			if f == "BOOL" {
				b &= 1
			}
			it.Raw = append(it.Raw, b)
		}
	}
	return it
}

func ascii7(r *rand.Rand) byte { return byte(r.Intn(128)) }
func printable(r *rand.Rand) byte {
	return "abcXYZ 0189_-.,:;<>[]()/*'#@!$%&+=?^`{|}~"[r.Intn(41)]
}

func randUint(r *rand.Rand, w int) uint64 {
	max := uint64(math.MaxUint64) >> (64 - 8*uint(w))
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return max
	case 2:
		return max/2 + uint64(r.Intn(3)) - 1
	case 3:
		return uint64(r.Intn(256)) & max
	}
	return r.Uint64() & max
}

func randInt(r *rand.Rand, w int) int64 {
	s := 64 - 8*uint(w)
	switch r.Intn(6) {
	case 0:
		return int64(math.MinInt64) >> s
	case 1:
		return int64(math.MaxInt64) >> s
	case 2:
		return int64(r.Intn(3) - 1)
	}
	return int64(r.Uint64()) >> s
}

func randFloat(r *rand.Rand, w int) float64 {
	for {
		var v float64
		switch r.Intn(9) {
		case 8: // an integer of a narrow type
			v = []float64{127, -128, 128, 255, 32767, -32768, 40000, 65535, 2147483647, -2147483648, 3e9, 4294967295, 1e13}[r.Intn(13)]
			if w == 4 {
				v = float64(float32(v))
			}
		case 0:
			v = 0
		case 1:
			v = math.Copysign(0, -1)
		case 2:
			v = float64(r.Intn(2001)-1000) / 8
		case 3:
			v = []float64{math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 1, -1}[r.Intn(5)]
		case 4:
			if w == 8 {
				v = []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64, 2.2250738585072014e-308}[r.Intn(4)]
			} else {
				v = float64(math.Float32frombits(uint32(r.Intn(1 << 24))))
			}
		default:
			if w == 4 {
				v = float64(math.Float32frombits(r.Uint32()))
			} else {
				v = math.Float64frombits(r.Uint64())
			}
		}
		if !math.IsNaN(v) && !math.IsInf(v, 0) {
			return v
		}
	}
}

// node is the specification's form of an item node (see Secs2.tla).
type node struct {
	F string `json:"f"`
	N int    `json:"n"`
	V []int  `json:"v"`
}

func bytes8(v uint64) []int {
	out := make([]int, 8)
	for i := range out {
		out[i] = int(v >> (56 - 8*uint(i)) & 255)
	}
	return out
}

func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

// nodes is the preorder node sequence of an item.
func nodes(it *wire.Item) []node { return appendNodes([]node{}, it) }

func appendNodes(out []node, it *wire.Item) []node {
	if it == nil {
		return out
	}
	nd := node{F: it.F, N: it.Len(), V: []int{}}
	switch it.F[0] {
	case 'L':
		out = append(out, nd)
		for _, c := range it.Items {
			out = appendNodes(out, c)
		}
		return out
	case 'U':
		for _, v := range it.Uints {
			nd.V = append(nd.V, bytes8(v)...)
		}
	case 'I':
		for _, v := range it.Ints {
			s, m := 0, uint64(v)
			if v < 0 {
				s, m = 1, -uint64(v)
			}
			nd.V = append(append(nd.V, s), bytes8(m)...)
		}
	case 'F':
		bits, min := 53, -1074
		if it.F == "F4" {
			bits, min = 24, -149
		}
		for _, v := range it.Flts {
			s := 0
			if math.Signbit(v) {
				s, v = 1, -v
			}
			e := min
			if v != 0 && !math.IsInf(v, 0) && !math.IsNaN(v) {
				_, x := math.Frexp(v)
				if x-bits > min {
					e = x - bits
				}
				v = math.Ldexp(v, -e)
			}
			nd.V = append(append(nd.V, s, e), bytes8(uint64(v))[1:]...)
		}
	default:
		nd.V = ints(it.Raw)
	}
	return append(out, nd)
}

// itemOf is the inverse of nodes.
func itemOf(ns []node) *wire.Item {
	if len(ns) == 0 {
		return nil
	}
	it, _ := itemFrom(ns)
	return it
}

func itemFrom(ns []node) (*wire.Item, []node) {
	nd := ns[0]
	ns = ns[1:]
	it := &wire.Item{F: nd.F}
	u8 := func(b []int) (v uint64) {
		for _, x := range b {
			v = v<<8 | uint64(x)
		}
		return
	}
	for i := 0; i < nd.N; i++ {
		switch nd.F[0] {
		case 'L':
			var c *wire.Item
			c, ns = itemFrom(ns)
			it.Items = append(it.Items, c)
		case 'U':
			it.Uints = append(it.Uints, u8(nd.V[8*i:8*i+8]))
		case 'I':
			v := int64(u8(nd.V[9*i+1 : 9*i+9]))
			if nd.V[9*i] == 1 {
				v = -v
			}
			it.Ints = append(it.Ints, v)
		case 'F':
			v := math.Ldexp(float64(u8(nd.V[9*i+2:9*i+9])), nd.V[9*i+1])
			if nd.V[9*i] == 1 {
				v = -v
			}
			it.Flts = append(it.Flts, v)
		default:
			it.Raw = append(it.Raw, byte(nd.V[i]))
		}
	}
	return it, ns
}
