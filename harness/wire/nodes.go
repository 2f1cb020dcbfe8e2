package wire

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// Node is one item of a preorder listing, as the specifications see it:
// T the format, N the number of elements, V the elements as strings.
type Node struct {
	T string   `json:"t"`
	N int      `json:"n"`
	V []string `json:"v"`
}

// Esc writes bytes as printable ASCII.
func Esc(b []byte) string {
	var sb strings.Builder
	for _, c := range b {
		switch {
		case c == '\\':
			sb.WriteString(`\\`)
		case c >= 0x20 && c < 0x7f:
			sb.WriteByte(c)
		default:
			fmt.Fprintf(&sb, `\x%02x`, c)
		}
	}
	return sb.String()
}

// Unesc is the inverse of Esc.
func Unesc(s string) []byte {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			if s[i+1] == 'x' && i+3 < len(s) {
				v, _ := strconv.ParseUint(s[i+2:i+4], 16, 8)
				out = append(out, byte(v))
				i += 3
				continue
			}
			i++
		}
		out = append(out, s[i])
	}
	return out
}

// Nodes lists the item in preorder; empty for no item.
func (it *Item) Nodes() []Node { return it.nodes([]Node{}) }

func (it *Item) nodes(out []Node) []Node {
	if it == nil {
		return out
	}
	n := Node{T: it.F, N: it.Len(), V: []string{}}
	switch it.F[0] {
	case 'L':
		out = append(out, n)
		for _, c := range it.Items {
			out = c.nodes(out)
		}
		return out
	case 'A':
		n.V = []string{Esc(it.Raw)}
	case 'I':
		for _, v := range it.Ints {
			n.V = append(n.V, strconv.FormatInt(v, 10))
		}
	case 'U':
		for _, v := range it.Uints {
			n.V = append(n.V, strconv.FormatUint(v, 10))
		}
	case 'F':
		for _, v := range it.Flts {
			n.V = append(n.V, strconv.FormatUint(math.Float64bits(v), 16))
		}
	default:
		for _, v := range it.Raw {
			n.V = append(n.V, strconv.Itoa(int(v)))
		}
	}
	return append(out, n)
}

// FromNodes builds the item of a preorder listing; nil if it is empty.
func FromNodes(ns []Node) *Item {
	if len(ns) == 0 {
		return nil
	}
	it, rest := fromNodes(ns)
	if len(rest) != 0 {
		panic(fmt.Sprintf("nodes left over: %v", rest))
	}
	return it
}

func fromNodes(ns []Node) (*Item, []Node) {
	n := ns[0]
	ns = ns[1:]
	it := &Item{F: n.T}
	must := func(err error) {
		if err != nil {
			panic(fmt.Sprintf("harness: bad node %v: %v", n, err))
		}
	}
	switch n.T[0] {
	case 'L':
		for i := 0; i < n.N; i++ {
			var c *Item
			c, ns = fromNodes(ns)
			it.Items = append(it.Items, c)
		}
	case 'A':
		it.Raw = Unesc(n.V[0])
	case 'I':
		for _, s := range n.V {
			v, err := strconv.ParseInt(s, 10, 64)
			must(err)
			it.Ints = append(it.Ints, v)
		}
	case 'U':
		for _, s := range n.V {
			v, err := strconv.ParseUint(s, 10, 64)
			must(err)
			it.Uints = append(it.Uints, v)
		}
	case 'F':
		for _, s := range n.V {
			v, err := strconv.ParseUint(s, 16, 64)
			must(err)
			it.Flts = append(it.Flts, math.Float64frombits(v))
		}
	default:
		for _, s := range n.V {
			v, err := strconv.ParseUint(s, 10, 8)
			must(err)
			it.Raw = append(it.Raw, byte(v))
		}
	}
	return it, ns
}
