// Package astx converts between the harness's items and the item nodes of the
// code under test, through the public API of the latter only.
package astx

import (
	"fmt"
	"math/rand"
	"strconv"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/wire"
)

// To builds an item node. With rnd, the Go types of the values vary.
func To(it *wire.Item, rnd *rand.Rand) ast.ItemNode {
	if it == nil {
		return ast.NewEmptyItemNode()
	}
	pick := func(n int) int {
		if rnd == nil {
			return 0
		}
		return rnd.Intn(n)
	}
	var vs []interface{}
	w := wire.Width(it.F)
	switch it.F {
	case "L":
		for _, c := range it.Items {
			vs = append(vs, To(c, rnd))
		}
		return ast.NewListNode(vs...)
	case "A":
		return ast.NewASCIINode(string(it.Raw))
	case "B":
		for _, b := range it.Raw {
			switch pick(3) {
			case 0:
				vs = append(vs, int(b))
			case 1:
				vs = append(vs, b)
			default:
				vs = append(vs, "0b"+strconv.FormatInt(int64(b), 2))
			}
		}
		return ast.NewBinaryNode(vs...)
	case "BOOL":
		for _, b := range it.Raw {
			vs = append(vs, b != 0)
		}
		return ast.NewBooleanNode(vs...)
	}
	switch it.F[0] {
	case 'I':
		for _, v := range it.Ints {
			switch k := pick(6); {
			case k == 1 && v == int64(int8(v)):
				vs = append(vs, int8(v))
			case k == 2 && v == int64(int16(v)):
				vs = append(vs, int16(v))
			case k == 3 && v == int64(int32(v)):
				vs = append(vs, int32(v))
			case k == 4 && v >= 0:
				vs = append(vs, uint64(v))
			case k == 5:
				vs = append(vs, int(v))
			default:
				vs = append(vs, v)
			}
		}
		return ast.NewIntNode(w, vs...)
	case 'U':
		for _, v := range it.Uints {
			switch k := pick(7); {
			case k == 1 && v == uint64(uint8(v)):
				vs = append(vs, uint8(v))
			case k == 2 && v == uint64(uint16(v)):
				vs = append(vs, uint16(v))
			case k == 3 && v == uint64(uint32(v)):
				vs = append(vs, uint32(v))
			case k == 4 && v <= 1<<62:
				vs = append(vs, int(v))
			case k == 5:
				vs = append(vs, uint(v))
			case k == 6 && v <= 1<<62:
				vs = append(vs, int64(v))
			default:
				vs = append(vs, v)
			}
		}
		return ast.NewUintNode(w, vs...)
	case 'F':
		for _, v := range it.Flts {
			n := int64(0) // the integer it is, unless 0
			if v > -1e15 && v < 1e15 && v == float64(int64(v)) {
				n = int64(v)
			}
			switch k := pick(13); {
			case k < 4 && v == float64(float32(v)):
				vs = append(vs, float32(v))
			case k == 4 && n != 0:
				vs = append(vs, int(n))
			case k == 5 && n != 0 && n == int64(int8(n)):
				vs = append(vs, int8(n))
			case k == 6 && n != 0 && n == int64(int16(n)):
				vs = append(vs, int16(n))
			case k == 7 && n != 0 && n == int64(int32(n)):
				vs = append(vs, int32(n))
			case k == 8 && n != 0:
				vs = append(vs, n)
			case k == 9 && n > 0:
				vs = append(vs, uint64(n))
			case k == 10 && n > 0:
				vs = append(vs, uint(n))
			case k == 11 && n > 0 && n == int64(uint16(n)):
				vs = append(vs, uint16(n))
			case k == 12 && n > 0 && n == int64(uint8(n)):
				vs = append(vs, uint8(n))
			default:
				vs = append(vs, v)
			}
		}
		return ast.NewFloatNode(w, vs...)
	}
	panic("bad item format " + it.F)
}

var symbols = map[string]string{"list": "L", "binary": "B", "boolean": "BOOL", "ascii": "A", "i1": "I1", "i2": "I2",
	"i4": "I4", "i8": "I8", "u1": "U1", "u2": "U2", "u4": "U4", "u8": "U8", "f4": "F4", "f8": "F8"}

// From reads an item node through Type and Values; nil for the empty item.
func From(n ast.ItemNode) (it *wire.Item, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("cannot read node: %v", r)
		}
	}()
	if n == nil || n.Type() == "empty" {
		return nil, nil
	}
	it = &wire.Item{F: symbols[n.Type()]}
	switch v := n.Values().(type) {
	case []ast.ItemNode:
		for _, c := range v {
			ci, err := From(c)
			if err != nil {
				return nil, err
			}
			if ci == nil {
				ci = wire.L()
			}
			it.Items = append(it.Items, ci)
		}
	case string:
		it.Raw = []byte(v)
	case []int:
		for _, x := range v {
			it.Raw = append(it.Raw, byte(x))
		}
	case []bool:
		it.Raw = wire.Bool(v...).Raw
	case []int64:
		it.Ints = append(it.Ints, v...)
	case []uint64:
		it.Uints = append(it.Uints, v...)
	case []float64:
		it.Flts = append(it.Flts, v...)
	default:
		return nil, fmt.Errorf("unknown values %T", v)
	}
	if it.F == "" {
		return nil, fmt.Errorf("unknown type %q", n.Type())
	}
	return it, nil
}

// MsgItem is the body of a data message.
func MsgItem(m *ast.DataMessage) (*wire.Item, error) {
	n, err := m.Get()
	if err != nil {
		return nil, err
	}
	return From(n)
}
