package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"time"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"

	"verifharness/astx"
	"verifharness/trace"
	"verifharness/wire"
)

func init() { subs["c01"] = c01; subs["c02"] = c02 }

// scnLines reads the scenarios of this part from the scenario file.
func scnLines(e *Env, f func(line []byte)) {
	if e.In == "" {
		return
	}
	fd, err := os.Open(e.In)
	if err != nil {
		panic(err)
	}
	defer fd.Close()
	sc := bufio.NewScanner(fd)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for i := 0; sc.Scan(); i++ {
		if i%e.Parts == e.Part {
			f(sc.Bytes())
		}
	}
}

type specMsg struct {
	Sess, Stream, Func, Wait int
	Sys                      []int
	Nodes                    []node
}

func sysBytes(s []int) []byte { return []byte{byte(s[0]), byte(s[1]), byte(s[2]), byte(s[3])} }
func randSys(r *rand.Rand) []int {
	return []int{r.Intn(256), r.Intn(256), r.Intn(256), r.Intn(256)}
}

// decoded is what the code under test says about a byte string.
func decoded(b []byte) (d trace.E) {
	d = trace.E{"ok": false, "type": "", "sess": 0, "stream": 0, "func": 0, "wait": 0, "sys": []int{}, "nodes": []node{}, "re": []int{}, "panic": false}
	defer func() {
		if r := recover(); r != nil {
			d["panic"] = true
		}
	}()
	done := make(chan struct{})
	go func() { // a decoder that does not terminate
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			fmt.Fprintln(os.Stderr, "HANG: hsms.Parse of secs4go does not return")
			os.Exit(77)
		}
	}()
	in := append([]byte(nil), b...)
	msg, ok := hsms.Parse(in)
	close(done)
	if !ok || msg == nil {
		return
	}
	for i := range in { // the message must not depend on the buffer any more
		in[i] ^= 0xff
	}
	d["ok"], d["type"], d["sys"], d["re"] = true, msg.Type(), ints(msg.SystemBytes()), ints(msg.ToBytes())
	switch m := msg.(type) {
	case *ast.DataMessage:
		d["sess"], d["stream"], d["func"] = m.SessionID(), m.StreamCode(), m.FunctionCode()
		if m.WaitBit() == "true" {
			d["wait"] = 1
		} else if m.WaitBit() != "false" {
			d["wait"] = 2
		}
		it, err := astx.MsgItem(m)
		if err != nil {
			d["type"] = "unreadable: " + err.Error()
			return
		}
		d["nodes"] = nodes(it)
	case *ast.ControlMessage:
		d["sess"], d["func"] = int(m.SessionID()), int(m.Status())
		d["stream"] = int(m.ToBytes()[6])
	}
	return
}

// buildMsg makes the message by one of the ways the API offers.
func buildMsg(m specMsg, it *wire.Item, r *rand.Rand) *ast.DataMessage {
	node := astx.To(it, r)
	dir := []string{"H->E", "H<-E", "H<->E"}[r.Intn(3)]
	sys := sysBytes(m.Sys)
	defer func() { // the message must not depend on the caller's slice any more
		for i := range sys {
			sys[i] ^= 0x5a
		}
	}()
	switch r.Intn(4) {
	case 0:
		return ast.NewHSMSDataMessage("M", m.Stream, m.Func, m.Wait, dir, node, m.Sess, sys)
	case 1:
		return ast.NewDataMessage("", m.Stream, m.Func, m.Wait, dir, node).SetSessionIDAndSystemBytes(m.Sess, sys)
	case 2: // derived from a message with another address, of which others are derived
		base := ast.NewDataMessage("", m.Stream, m.Func, m.Wait, dir, node).SetSessionIDAndSystemBytes(r.Intn(65536), sysBytes(randSys(r)))
		msg := base.SetSessionIDAndSystemBytes(m.Sess, sys)
		for _, o := range []*ast.DataMessage{base, msg} {
			o.SetSessionIDAndSystemBytes(r.Intn(65536), sysBytes(randSys(r)))
		}
		return msg
	}
	return ast.NewDataMessage("", m.Stream, m.Func, 2, dir, node).SetSessionIDAndSystemBytes(m.Sess, sys).SetWaitBit(m.Wait == 1)
}

// wideItem holds some hundred lists side by side, at any depth.
func wideItem(r *rand.Rand) *wire.Item {
	it := wire.L()
	for n := 150 + r.Intn(250); n > 0; n-- {
		switch r.Intn(5) {
		case 0:
			it.Items = append(it.Items, wire.L(wire.L()))
		case 1:
			it.Items = append(it.Items, wire.L(wire.U(1, uint64(r.Intn(256)))))
		case 2:
			it.Items = append(it.Items, wire.L(wire.L(wire.L(), wire.L()), wire.L()))
		default:
			it.Items = append(it.Items, wire.L())
		}
	}
	for d := r.Intn(40); d > 0; d-- {
		if r.Intn(2) == 0 {
			it = wire.L(it)
		} else {
			it = wire.L(wire.L(), it, wire.L())
		}
	}
	return it
}

func encLine(e *Env, m specMsg, it *wire.Item) {
	msg := buildMsg(m, it, e.R)
	b := append([]byte(nil), msg.ToBytes()...)
	for i, x := 0, msg.ToBytes(); i < len(x); i++ { // nor on the bytes it gave out
		x[i] ^= 0x33
	}
	if again := msg.ToBytes(); string(again) != string(b) {
		b = again
	}
	e.T.Log(trace.E{"op": "enc", "sess": m.Sess, "stream": m.Stream, "func": m.Func, "wait": m.Wait, "sys": m.Sys,
		"nodes": nodes(it), "bytes": ints(b), "dec": decoded(b)})
}

func randMsg(r *rand.Rand) specMsg {
	m := specMsg{Sess: r.Intn(65536), Stream: r.Intn(128), Func: r.Intn(256), Sys: randSys(r)}
	if r.Intn(5) == 0 {
		m.Sess = []int{0, 255, 256, 32768, 65535}[r.Intn(5)]
	}
	if m.Func%2 == 1 {
		m.Wait = r.Intn(2)
	}
	return m
}

// bigItem is an item whose length lies around a boundary of the length bytes.
func bigItem(r *rand.Rand, target int) *wire.Item {
	f := wire.Formats[r.Intn(len(wire.Formats))]
	it := &wire.Item{F: f}
	n := target
	if w := wire.Width(f); w > 0 {
		n = target / w
	}
	for i := 0; i < n; i++ {
		switch f[0] {
		case 'L':
			it.Items = append(it.Items, wire.U(1, uint64(i%256)))
		case 'I':
			it.Ints = append(it.Ints, randInt(r, wire.Width(f)))
		case 'U':
			it.Uints = append(it.Uints, randUint(r, wire.Width(f)))
		case 'F':
			it.Flts = append(it.Flts, randFloat(r, wire.Width(f)))
		case 'A':
			it.Raw = append(it.Raw, ascii7(r))
		default:
			it.Raw = append(it.Raw, byte(r.Intn(2)))
		}
	}
	return it
}

func c01(e *Env) {
	scnLines(e, func(l []byte) {
		var m specMsg
		if err := json.Unmarshal(l, &m); err != nil {
			panic(err)
		}
		encLine(e, m, itemOf(m.Nodes))
	})
	r := e.R
	for i := e.Count(2400, 30000); i > 0; i-- {
		encLine(e, randMsg(r), randItem(r, 3, 4, ascii7))
	}
	// item sizes around the boundaries of one and two length bytes
	for i := e.Count(400, 3000); i > 0; i-- {
		encLine(e, randMsg(r), bigItem(r, 256+r.Intn(9)-4))
	}
	for i := e.Count(16, 120); i > 0; i-- {
		it := bigItem(r, 65536+r.Intn(17)-8)
		if it.F == "L" {
			it = wire.B(make([]byte, 65536)...)
		}
		encLine(e, randMsg(r), it)
	}
	for i := e.Count(40, 400); i > 0; i-- {
		encLine(e, randMsg(r), wideItem(r))
	}
	if e.Part == 0 {
		for d := 1; d <= 40; d += 13 { // deep nesting
			it := wire.U(4, uint64(d))
			for j := 0; j < d; j++ {
				it = wire.L(it, wire.A("x"))
			}
			encLine(e, randMsg(r), it)
		}
		for s := 0; s < 128; s += 3 { // headers
			for _, f := range []int{0, 1, 2, 127, 128, 254, 255} {
				m := randMsg(r)
				m.Stream, m.Func, m.Wait = s, f, 0
				encLine(e, m, nil)
				if f%2 == 1 {
					m.Wait = 1
					encLine(e, m, nil)
				}
			}
		}
	}
	for i := e.Count(800, 6000); i > 0; i-- {
		ctlLine(e)
	}
}

func ctlLine(e *Env) {
	r := e.R
	sess, sys, status, reason := r.Intn(65536), randSys(r), r.Intn(256), 1+r.Intn(5)
	if r.Intn(3) == 0 {
		sess = []int{0, 1, 255, 256, 65535}[r.Intn(5)]
	}
	sb := sysBytes(sys)
	ctor := []string{"selectreq", "selectrsp", "deselectreq", "deselectrsp", "linktestreq", "linktestrsp", "rejectreq", "rejectfrom", "separatereq"}[r.Intn(9)]
	pt, st := 0, r.Intn(10)
	if r.Intn(3) == 0 {
		pt, st = r.Intn(256), r.Intn(256)
	}
	var msg ast.HSMSMessage
	switch ctor {
	case "selectreq":
		msg = ast.NewHSMSMessageSelectReq(uint16(sess), sb)
	case "selectrsp":
		msg = ast.NewHSMSMessageSelectRsp(ast.NewHSMSMessageSelectReq(uint16(sess), sb), byte(status))
	case "deselectreq":
		msg = ast.NewHSMSMessageDeselectReq(uint16(sess), sb)
	case "deselectrsp":
		msg = ast.NewHSMSMessageDeselectRsp(ast.NewHSMSMessageDeselectReq(uint16(sess), sb), byte(status))
	case "linktestreq":
		msg = ast.NewHSMSMessageLinktestReq(sb)
	case "linktestrsp":
		msg = ast.NewHSMSMessageLinktestRsp(ast.NewHSMSMessageLinktestReq(sb))
	case "rejectreq":
		msg = ast.NewHSMSMessageRejectReq(uint16(sess), byte(pt), byte(st), sb, byte(reason))
	case "rejectfrom":
		h := wire.Ctl(byte(st), uint16(sess), byte(status), byte(r.Intn(256)), 0)
		h.PType = byte(pt)
		hd := append(h.Header()[:6], sb...)
		msg = ast.NewHSMSMessageRejectReqFromMsg(ast.NewHSMSControlMessage(hd), byte(reason))
	case "separatereq":
		msg = ast.NewHSMSMessageSeparateReq(uint16(sess), sb)
	}
	b := msg.ToBytes()
	e.T.Log(trace.E{"op": "ctl", "ctor": ctor, "sess": sess, "sys": sys, "status": status, "reason": reason, "ptype": pt, "stype": st,
		"type": msg.Type(), "bytes": ints(b), "dec": decoded(b)})
}

func decLine(e *Env, b []byte) {
	e.T.Log(trace.E{"op": "dec", "bytes": ints(b), "dec": decoded(b)})
}

// accSet records which texts prefix+alphabet^n are accepted as message text.
func accSet(e *Env, prefix []byte, alphabet []byte, n int) {
	acc := [][]int{}
	buf := make([]byte, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			text := append(append([]byte(nil), prefix...), buf...)
			m := &wire.Msg{Session: 1, B2: 1, B3: 1, Sys: 7, Text: text}
			if d := decoded(m.Bytes()); d["ok"] == true {
				acc = append(acc, ints(buf))
			}
			return
		}
		for _, a := range alphabet {
			buf[i] = a
			rec(i + 1)
		}
	}
	rec(0)
	e.T.Log(trace.E{"op": "accset", "prefix": ints(prefix), "alphabet": ints(alphabet), "n": n, "accepted": acc})
}

// accLens records with how many data bytes behind its head an item is accepted, for every format byte and declared length.
func accLens(e *Env, most int) {
	k := 0
	for c := 0; c < 256; c++ {
		for n := 0; n <= most; n++ {
			if k++; k%e.Parts != e.Part || c%4 == 0 && n > 1 || c%4 > 1 && n%3 != c%3 {
				continue
			}
			head := []byte{byte(c)}
			switch c % 4 {
			case 1:
				head = append(head, byte(n))
			case 2:
				head = append(head, 0, byte(n))
			case 3:
				head = append(head, 0, 0, byte(n))
			}
			if (c/4+n)%4 == 0 {
				head = append([]byte{1, 1}, head...)
			}
			fill, acc := byte(1), []int{}
			for d := 0; d <= most+1; d++ {
				text := append([]byte(nil), head...)
				for j := 0; j < d; j++ {
					text = append(text, fill)
				}
				if decoded((&wire.Msg{Session: 1, B2: 1, B3: 1, Sys: 7, Text: text}).Bytes())["ok"] == true {
					acc = append(acc, d)
				}
			}
			e.T.Log(trace.E{"op": "acclen", "prefix": ints(head), "byte": int(fill), "max": most + 1, "accepted": acc})
		}
	}
}

func c02(e *Env) {
	r := e.R
	emit := func(b []byte) { decLine(e, b) }
	mutate := func(b []byte) []byte {
		b = append([]byte(nil), b...)
		relen := func(b []byte) []byte {
			if len(b) >= 4 && r.Intn(5) > 0 {
				n := len(b) - 4
				b[0], b[1], b[2], b[3] = byte(n>>24), byte(n>>16), byte(n>>8), byte(n)
			}
			return b
		}
		for k := 1 + r.Intn(2); k > 0; k-- {
			switch r.Intn(7) {
			case 0: // cut
				b = relen(b[:r.Intn(len(b)+1)])
			case 1: // extend
				for j := 1 + r.Intn(3); j > 0; j-- {
					b = append(b, byte(r.Intn(256)))
				}
				b = relen(b)
			case 2: // header byte
				if len(b) >= 14 {
					b[4+r.Intn(10)] = byte(r.Intn(12))
				}
			case 3: // insert or delete in the text
				if len(b) > 14 {
					i := 14 + r.Intn(len(b)-14)
					if r.Intn(2) == 0 {
						b = append(b[:i], b[i+1:]...)
					} else {
						b = append(b[:i], append([]byte{byte(r.Intn(256))}, b[i:]...)...)
					}
					b = relen(b)
				}
			case 4: // bit flip
				if len(b) > 0 {
					b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
				}
			default: // a text byte becomes small or a format byte
				if len(b) > 14 {
					i := 14 + r.Intn(len(b)-14)
					b[i] = []byte{0, 1, 2, 3, 5, 0x21, 0x25, 0x41, 0x42, 0x43, 0xa5, 0xa9, 0xb1, 0x91, 0x81, 0xff, 0x65, 0xa1}[r.Intn(18)]
				}
			}
			if len(b) == 0 {
				break
			}
		}
		return b
	}
	for i := e.Count(9000, 120000); i > 0; i-- {
		m := randMsg(r)
		it := randItem(r, 3, 3, ascii7)
		if r.Intn(6) == 0 {
			it = nil
		}
		msg := wire.SF(uint16(m.Sess), m.Stream, m.Func, m.Wait == 1, uint32(r.Uint32()), it)
		if r.Intn(8) == 0 {
			msg = wire.Ctl(byte(r.Intn(11)), uint16(m.Sess), byte(r.Intn(256)), byte(r.Intn(256)), r.Uint32())
			if r.Intn(3) == 0 {
				msg.PType = byte(r.Intn(3))
			}
		}
		emit(mutate(msg.Bytes()))
	}
	// non-minimal length bytes, consistent
	for i := e.Count(800, 6000); i > 0; i-- {
		text := nonMinimal(r, randItem(r, 2, 3, ascii7))
		m := &wire.Msg{Session: uint16(r.Intn(65536)), B2: byte(r.Intn(128)), B3: byte(r.Intn(256)), Sys: r.Uint32(), Text: text}
		emit(m.Bytes())
	}
	for i := e.Count(40, 400); i > 0; i-- {
		b := wire.SF(uint16(r.Intn(65536)), r.Intn(128), r.Intn(256), false, r.Uint32(), wideItem(r)).Bytes()
		if r.Intn(3) == 0 {
			b = mutate(b)
		}
		emit(b)
	}
	// random bytes
	for i := e.Count(800, 20000); i > 0; i-- {
		b := make([]byte, r.Intn(24))
		r.Read(b)
		if len(b) >= 14 && r.Intn(3) > 0 {
			b[0], b[1], b[2], b[3] = 0, 0, 0, byte(len(b)-4)
			b[8], b[9] = 0, byte(r.Intn(10))
		}
		emit(b)
	}
	// hostile declared lengths and counts, deep nesting
	if e.Part == 0 {
		for _, head := range [][]byte{{3, 255, 255, 255}, {0x43, 255, 255, 255}, {0xa7, 255, 255, 255}, {0x23, 128, 0, 0}, {2, 255, 255}, {1, 255}, {0x93, 255, 255, 248}} {
			for _, tail := range [][]byte{{}, {1, 0}, {1, 1, 1, 1, 1, 1}} {
				emit((&wire.Msg{B2: 1, B3: 1, Text: append(append([]byte{}, head...), tail...)}).Bytes())
			}
		}
		for _, d := range []int{1, 2, 255, 256, 257, 1000, 20000} {
			var t []byte
			for j := 0; j < d; j++ {
				t = append(t, 1, 1)
			}
			if d <= 256 {
				emit((&wire.Msg{B2: 1, B3: 1, Text: append(append([]byte{}, t...), 1, 0)}).Bytes())
				emit((&wire.Msg{B2: 1, B3: 1, Text: t}).Bytes())
			} else { // too long for the trace: only termination without a crash counts
				decoded((&wire.Msg{B2: 1, B3: 1, Text: append(t, 1, 0)}).Bytes())
			}
		}
		var deep []byte
		for j := 0; j < 3000000; j++ {
			deep = append(deep, 1, 1)
		}
		decoded((&wire.Msg{B2: 1, B3: 1, Text: deep}).Bytes())
	}
	most := 24
	if e.Thorough {
		most = 64
	}
	accLens(e, most)
	// small texts, exhaustively
	k := 0
	part := func() bool { k++; return k%e.Parts == e.Part }
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
	}
	if part() {
		accSet(e, nil, all, 1)
	}
	for i := 0; i < 256; i++ {
		if part() && (e.Thorough || i%4 == 1 || i < 16) {
			accSet(e, []byte{byte(i)}, all, 1)
		}
	}
	small := []byte{0, 1, 2, 4, 0x21, 0x25, 0x41, 0xa5, 0xa9}
	for _, p := range [][]byte{{}, {1, 1}, {1, 2}, {1, 2, 0xa5, 1, 9}, {2, 0, 1}, {0x42, 0}, {0xa5}, {0xa9}, {0xb1}, {0x91}, {0x65}, {0x81}} {
		n := 3
		if e.Thorough {
			n = 4
		}
		if part() {
			accSet(e, p, small, n)
		}
	}
}

// nonMinimal encodes an item with more length bytes than needed.
func nonMinimal(r *rand.Rand, it *wire.Item) []byte {
	b := it.Encode(nil)
	if it.F == "L" {
		var body []byte
		for _, c := range it.Items {
			body = append(body, nonMinimal(r, c)...)
		}
		return append(longHead(r, b[0], len(it.Items)), body...)
	}
	n := wire.Width(it.F) * it.Len()
	return append(longHead(r, b[0], n), b[len(b)-n:]...)
}

func longHead(r *rand.Rand, c byte, n int) []byte {
	c &^= 3
	switch k := r.Intn(3); {
	case k == 0 && n < 256:
		return []byte{c | 1, byte(n)}
	case k == 1 && n < 65536:
		return []byte{c | 2, byte(n >> 8), byte(n)}
	}
	return []byte{c | 3, byte(n >> 16), byte(n >> 8), byte(n)}
}
