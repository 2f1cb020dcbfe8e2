// Package wire is an independent implementation of the HSMS framing and the
// SECS-II item encoding (SEMI E37/E5). It shares no code with the code under
// test; the scripted peers of the harness speak through it.
package wire

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
)

// Item is a SECS-II item. F is one of L A B BOOL I1 I2 I4 I8 U1 U2 U4 U8 F4 F8.
type Item struct {
	F     string
	Items []*Item   // L
	Raw   []byte    // A, B, BOOL
	Ints  []int64   // I*
	Uints []uint64  // U*
	Flts  []float64 // F*
}

var codes = map[string]byte{"L": 0, "B": 0o10, "BOOL": 0o11, "A": 0o20, "I8": 0o30, "I1": 0o31, "I2": 0o32, "I4": 0o34,
	"F8": 0o40, "F4": 0o44, "U8": 0o50, "U1": 0o51, "U2": 0o52, "U4": 0o54}
var names = func() map[byte]string {
	m := map[byte]string{}
	for k, v := range codes {
		m[v] = k
	}
	return m
}()

// Formats lists all item formats.
var Formats = []string{"L", "B", "BOOL", "A", "I1", "I2", "I4", "I8", "F4", "F8", "U1", "U2", "U4", "U8"}

func Width(f string) int {
	switch f {
	case "A", "B", "BOOL", "I1", "U1":
		return 1
	case "I2", "U2":
		return 2
	case "I4", "U4", "F4":
		return 4
	case "I8", "U8", "F8":
		return 8
	}
	return 0
}

func L(items ...*Item) *Item { return &Item{F: "L", Items: items} }
func A(s string) *Item       { return &Item{F: "A", Raw: []byte(s)} }
func B(b ...byte) *Item      { return &Item{F: "B", Raw: b} }
func Bool(b ...bool) *Item {
	it := &Item{F: "BOOL"}
	for _, x := range b {
		if x {
			it.Raw = append(it.Raw, 1)
		} else {
			it.Raw = append(it.Raw, 0)
		}
	}
	return it
}
func U(w int, v ...uint64) *Item  { return &Item{F: "U" + strconv.Itoa(w), Uints: v} }
func I(w int, v ...int64) *Item   { return &Item{F: "I" + strconv.Itoa(w), Ints: v} }
func F(w int, v ...float64) *Item { return &Item{F: "F" + strconv.Itoa(w), Flts: v} }

// UMin is an unsigned item of the smallest width that holds v.
func UMin(v uint64) *Item {
	switch {
	case v <= math.MaxUint8:
		return U(1, v)
	case v <= math.MaxUint16:
		return U(2, v)
	case v <= math.MaxUint32:
		return U(4, v)
	}
	return U(8, v)
}

// Len is the number of elements (children) of the item.
func (it *Item) Len() int {
	switch it.F[0] {
	case 'L':
		return len(it.Items)
	case 'I':
		return len(it.Ints)
	case 'U':
		return len(it.Uints)
	case 'F':
		return len(it.Flts)
	}
	return len(it.Raw)
}

func (it *Item) header(n int) []byte {
	c := codes[it.F] << 2
	switch {
	case n < 1<<8:
		return []byte{c | 1, byte(n)}
	case n < 1<<16:
		return []byte{c | 2, byte(n >> 8), byte(n)}
	}
	return []byte{c | 3, byte(n >> 16), byte(n >> 8), byte(n)}
}

// Encode appends the wire form of the item.
func (it *Item) Encode(out []byte) []byte {
	if it == nil {
		return out
	}
	if it.F == "L" {
		out = append(out, it.header(len(it.Items))...)
		for _, c := range it.Items {
			out = c.Encode(out)
		}
		return out
	}
	w := Width(it.F)
	out = append(out, it.header(w*it.Len())...)
	put := func(v uint64) {
		for i := w - 1; i >= 0; i-- {
			out = append(out, byte(v>>(8*uint(i))))
		}
	}
	switch it.F[0] {
	case 'I':
		for _, v := range it.Ints {
			put(uint64(v))
		}
	case 'U':
		for _, v := range it.Uints {
			put(v)
		}
	case 'F':
		for _, v := range it.Flts {
			if w == 4 {
				put(uint64(math.Float32bits(float32(v))))
			} else {
				put(math.Float64bits(v))
			}
		}
	default:
		out = append(out, it.Raw...)
	}
	return out
}

var ErrItem = errors.New("malformed item")

// Decode reads one item and returns the rest.
func Decode(b []byte) (*Item, []byte, error) {
	if len(b) < 2 {
		return nil, nil, ErrItem
	}
	f, ok := names[b[0]>>2]
	nl := int(b[0] & 3)
	if !ok || nl == 0 || len(b) < 1+nl {
		return nil, nil, ErrItem
	}
	n := 0
	for _, x := range b[1 : 1+nl] {
		n = n<<8 | int(x)
	}
	b = b[1+nl:]
	it := &Item{F: f}
	if f == "L" {
		for i := 0; i < n; i++ {
			c, rest, err := Decode(b)
			if err != nil {
				return nil, nil, err
			}
			it.Items, b = append(it.Items, c), rest
		}
		return it, b, nil
	}
	w := Width(f)
	if n > len(b) || n%w != 0 {
		return nil, nil, ErrItem
	}
	for i := 0; i < n; i += w {
		var v uint64
		for _, x := range b[i : i+w] {
			v = v<<8 | uint64(x)
		}
		switch f[0] {
		case 'I':
			it.Ints = append(it.Ints, int64(v<<(64-8*uint(w)))>>(64-8*uint(w)))
		case 'U':
			it.Uints = append(it.Uints, v)
		case 'F':
			if w == 4 {
				it.Flts = append(it.Flts, float64(math.Float32frombits(uint32(v))))
			} else {
				it.Flts = append(it.Flts, math.Float64frombits(v))
			}
		default:
			it.Raw = append(it.Raw, byte(v))
		}
	}
	return it, b[n:], nil
}

// Tokens is the item as a preorder sequence of strings, with exact formats.
func (it *Item) Tokens() []string { return it.tokens(nil, false) }

// Loose is Tokens with all unsigned widths written "U" and all signed "I".
func (it *Item) Loose() []string { return it.tokens(nil, true) }

func (it *Item) tokens(out []string, loose bool) []string {
	if it == nil {
		return out
	}
	switch it.F[0] {
	case 'L':
		out = append(out, "L:"+strconv.Itoa(len(it.Items)))
		for _, c := range it.Items {
			out = c.tokens(out, loose)
		}
		return out
	case 'A':
		return append(out, "A:"+strings.Trim(strconv.QuoteToASCII(string(it.Raw)), `"`))
	}
	f := it.F
	if loose && (f[0] == 'U' || f[0] == 'I') {
		f = f[:1]
	}
	if f == "BOOL" {
		f = "T"
	}
	var vs []string
	for _, v := range it.Raw {
		vs = append(vs, strconv.Itoa(int(v)))
	}
	for _, v := range it.Ints {
		vs = append(vs, strconv.FormatInt(v, 10))
	}
	for _, v := range it.Uints {
		vs = append(vs, strconv.FormatUint(v, 10))
	}
	for _, v := range it.Flts {
		vs = append(vs, fmt.Sprintf("%x", math.Float64bits(v)))
	}
	return append(out, f+":"+strings.Join(vs, ","))
}

// Msg is an HSMS message.
type Msg struct {
	Session uint16
	B2, B3  byte // W+stream and function, or the control bytes
	PType   byte
	SType   byte
	Sys     uint32
	Text    []byte
}

const (
	Data = iota
	SelectReq
	SelectRsp
	DeselectReq
	DeselectRsp
	LinktestReq
	LinktestRsp
	RejectReq
	_
	SeparateReq
)

func (m *Msg) Stream() int   { return int(m.B2 & 0x7f) }
func (m *Msg) Function() int { return int(m.B3) }
func (m *Msg) Wait() bool    { return m.B2&0x80 != 0 }

// Bytes is the wire form with the length prefix.
func (m *Msg) Bytes() []byte {
	out := make([]byte, 14, 14+len(m.Text))
	binary.BigEndian.PutUint32(out, uint32(10+len(m.Text)))
	binary.BigEndian.PutUint16(out[4:], m.Session)
	out[6], out[7], out[8], out[9] = m.B2, m.B3, m.PType, m.SType
	binary.BigEndian.PutUint32(out[10:], m.Sys)
	return append(out, m.Text...)
}

// Header is the 10-byte header.
func (m *Msg) Header() []byte { return m.Bytes()[4:14] }

// ParseFrame reads a message from the bytes after the length prefix.
func ParseFrame(b []byte) (*Msg, error) {
	if len(b) < 10 {
		return nil, errors.New("short frame")
	}
	return &Msg{Session: binary.BigEndian.Uint16(b), B2: b[2], B3: b[3], PType: b[4], SType: b[5],
		Sys: binary.BigEndian.Uint32(b[6:]), Text: append([]byte(nil), b[10:]...)}, nil
}

// Item decodes the text; nil without error if it is empty.
func (m *Msg) Item() (*Item, error) {
	if len(m.Text) == 0 {
		return nil, nil
	}
	it, rest, err := Decode(m.Text)
	if err == nil && len(rest) != 0 {
		err = ErrItem
	}
	return it, err
}

// SF makes a data message.
func SF(session uint16, stream, function int, wait bool, sys uint32, it *Item) *Msg {
	m := &Msg{Session: session, B2: byte(stream), B3: byte(function), Sys: sys, Text: it.Encode(nil)}
	if wait {
		m.B2 |= 0x80
	}
	return m
}

// Ctl makes a control message.
func Ctl(stype byte, session uint16, b2, b3 byte, sys uint32) *Msg {
	return &Msg{Session: session, B2: b2, B3: b3, SType: stype, Sys: sys}
}
