package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"math/rand"
	"reflect"
	"sync"
	"time"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"

	"verifharness/trace"
)

// Packets through stacks of the generic codecs over an in-memory pipe.

type cLim struct {
	K string
	V int
}

func (l cLim) value() int {
	if l.K == "huge" {
		return math.MaxInt64
	}
	return l.V
}

type cX struct {
	K    string
	Ann  *cLim  `json:",omitempty"`
	What string `json:",omitempty"`
	H    string
}

type codOp struct {
	Op                      string
	Base, Ord, Stack, Cut   string
	N, OutR, OutW, InR, InW int
	MaxR, MaxS              cLim
	D, Size, ID, K          int
	Kind                    string
	X                       cX
}

var errStalled = errors.New("the codec reads on")

// cPipe is one direction of a connection.
type cPipe struct {
	mu    sync.Mutex
	cond  *sync.Cond
	buf   []byte
	n     int    // bytes written since the last mark
	first []byte // the first of them
	ended bool
	block bool
	cut   string
	r     *rand.Rand
}

func newCPipe(cut string, seed int64) *cPipe {
	p := &cPipe{cut: cut, r: rand.New(rand.NewSource(seed))}
	p.cond = sync.NewCond(&p.mu)
	return p
}

func (p *cPipe) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	for len(p.buf) == 0 && !p.ended && p.block {
		p.cond.Wait()
	}
	if len(p.buf) == 0 {
		if p.ended {
			return 0, io.EOF
		}
		return 0, errStalled
	}
	n := len(b)
	switch p.cut {
	case "one":
		if len(p.buf) < 3000 || p.r.Intn(4) > 0 {
			n = 1
		}
	case "few":
		n = 1 + p.r.Intn(12)
		if p.r.Intn(20) == 0 {
			n = 1 + p.r.Intn(5000)
		}
	}
	if len(p.buf) > 20000 && n < 5000 && p.cut != "all" {
		n = 5000 + p.r.Intn(5000)
	}
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], p.buf)
	p.buf = p.buf[n:]
	if len(p.buf) == 0 && p.ended && (p.cut == "eof" || p.r.Intn(2) == 0) {
		return n, io.EOF
	}
	return n, nil
}

func (p *cPipe) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.buf = append(p.buf, b...)
	for i := 0; i < len(b) && len(p.first) < 8; i++ {
		p.first = append(p.first, b[i])
	}
	p.n += len(b)
	p.cond.Broadcast()
	return len(b), nil
}

func (p *cPipe) mark() {
	p.mu.Lock()
	p.n, p.first = 0, nil
	p.mu.Unlock()
}

func (p *cPipe) set(block, ended bool) {
	p.mu.Lock()
	p.block = block
	p.ended = p.ended || ended
	p.cond.Broadcast()
	p.mu.Unlock()
}

type cEnd struct {
	r *cPipe
	w *cPipe
}

func (e cEnd) Read(b []byte) (int, error)  { return e.r.Read(b) }
func (e cEnd) Write(b []byte) (int, error) { return e.w.Write(b) }
func (e cEnd) Close() error                { return nil }

// cBlob sends and receives everything a packet has.
type cBlob struct{}

type cBlobCodec struct{ rw io.ReadWriter }

func (cBlob) NewCodec(rw io.ReadWriter) (link.Codec, error) { return &cBlobCodec{rw}, nil }
func (c *cBlobCodec) Receive() (interface{}, error) {
	b, err := io.ReadAll(c.rw)
	if err != nil {
		return nil, err
	}
	return b, nil
}
func (c *cBlobCodec) Send(m interface{}) error {
	b := m.([]byte)
	// In pieces
	for len(b) > 0 {
		n := 1 + len(b)/3
		if _, err := c.rw.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}
func (c *cBlobCodec) Close() error { return nil }

type cReg struct {
	ID   int
	Odd  string
	Pad  string
	List []float64
	Sub  map[string]*int
}
type cNamed cReg
type cFree cReg

const cPeculiar = "a<b>&\"\\\u2028\n\x00é漢😀"

func blobOf(id, size int) []byte {
	b := make([]byte, size)
	rand.New(rand.NewSource(int64(id)*7919 + int64(size))).Read(b)
	return b
}

// cMsg is packet id of about size bytes, and what should come out.
func cMsg(o *codOp, id int) (interface{}, string) {
	if o.Base != "json" {
		b := blobOf(id, o.Size)
		return b, cHash(b)
	}
	seven := 7
	m := cReg{ID: id, Odd: cPeculiar, List: []float64{1, -2.5, 1e300}, Sub: map[string]*int{"x": &seven, "": nil}}
	doc := struct {
		Head string
		Body interface{}
	}{"github.com/younglifestyle/x", m}
	b, _ := json.Marshal(doc)
	pad := bytes.Repeat([]byte{'x'}, int(math.Max(0, float64(o.Size-len(b)-1))))
	for i := range pad {
		pad[i] = "abc{}[]: ,"[(i*i+id)%10]
	}
	m.Pad = string(pad)
	var v interface{}
	switch o.Kind {
	case "ptr":
		v = &m
	case "named":
		v = cNamed(m)
	case "unreg":
		v = cFree(m)
		b, _ := json.Marshal(m)
		var g interface{}
		json.Unmarshal(b, &g)
		return v, cHash(g)
	default:
		v = m
	}
	return v, cHash(v)
}

func cHash(v interface{}) string {
	if v == nil {
		return "nil"
	}
	t := reflect.TypeOf(v)
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	b, ok := v.([]byte)
	if !ok {
		b, _ = json.Marshal(v)
	}
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%s/%d/%x", t, len(b), h.Sum64())
}

type codX struct {
	cfg  codOp
	ends [2]link.Codec
	pipe [2]*cPipe // by direction
	r    *rand.Rand
	wire [2]int
	dead [2]bool
}

func (x *codX) open(seed int64) error {
	o := &x.cfg
	ord := binary.ByteOrder(binary.BigEndian)
	if o.Ord == "le" {
		ord = binary.LittleEndian
	}
	x.r = rand.New(rand.NewSource(seed))
	x.pipe = [2]*cPipe{newCPipe(o.Cut, seed+1), newCPipe(o.Cut, seed+2)}
	var p link.Protocol
	switch o.Base {
	case "blob":
		p = cBlob{}
	case "byte":
		p = codec.Byte()
	case "json":
		j := codec.Json()
		if seed%2 == 0 {
			j.Register(cReg{})
		} else {
			j.Register(&cReg{})
		}
		j.RegisterName("some name", cNamed{})
		p = j
	}
	if o.Stack == "in" || o.Stack == "both" {
		p = codec.Bufio(p, o.InR, o.InW)
	}
	if o.N > 0 {
		p = codec.FixLen(p, o.N, ord, o.MaxR.value(), o.MaxS.value())
	}
	if o.Stack == "out" || o.Stack == "both" {
		p = codec.Bufio(p, o.OutR, o.OutW)
	}
	// End 0 sends in direction 1 and receives in direction 2
	var err error
	for i := range x.ends {
		x.ends[i], err = p.NewCodec(cEnd{r: x.pipe[1-i], w: x.pipe[i]})
		if err != nil {
			return err
		}
	}
	return nil
}

func cRes(err error) string {
	if err == nil {
		return "ok"
	}
	if errors.Is(err, codec.ErrTooLargePacket) {
		return "toolarge"
	}
	return "err"
}

func cSend(c link.Codec, m interface{}) (res string) {
	defer func() {
		if p := recover(); p != nil {
			res = "panic"
		}
	}()
	return cRes(c.Send(m))
}

func cRecv(c link.Codec) (m interface{}, res string) {
	defer func() {
		if p := recover(); p != nil {
			res = "panic"
		}
	}()
	m, err := c.Receive()
	if err == nil && m == nil {
		return nil, "nothing"
	}
	return m, cRes(err)
}

func (x *codX) raw(d int, v *cX) trace.E {
	p := x.pipe[d]
	o := &x.cfg
	head := func(n uint64) []byte {
		b := make([]byte, o.N)
		for i := range b {
			s := uint(8 * i)
			if o.Ord != "le" {
				s = uint(8 * (o.N - 1 - i))
			}
			b[i] = byte(n >> s)
		}
		return b
	}
	e := trace.E{"k": v.K, "what": v.What, "h": ""}
	if v.Ann != nil {
		e["ann"] = trace.E{"k": v.Ann.K, "v": v.Ann.V}
	}
	switch v.K {
	case "eof":
		p.set(false, true)
	case "raw":
		n, have := uint64(v.Ann.V), 0
		switch v.Ann.K {
		case "neg":
			n = []uint64{1 << 63, math.MaxUint64, 1<<63 + 5}[x.r.Intn(3)]
			have = x.r.Intn(100)
		case "big":
			n = []uint64{1 << 62, math.MaxInt64, 1 << 40}[x.r.Intn(3)]
			have = x.r.Intn(100)
		default:
			have = x.r.Intn(min(int(n), 20000))
			if x.r.Intn(3) == 0 {
				have = min(int(n)-1, 20000)
			}
		}
		p.Write(append(head(n), blobOf(v.Ann.V, have)...))
		p.set(false, true)
	case "doc":
		// Any JSON text
		b, h := x.doc(v.What)
		if o.N > 0 {
			p.Write(head(uint64(len(b))))
		}
		p.Write([]byte(b))
		if v.What == "trunc" {
			p.set(false, true)
		}
		e["h"] = h
	}
	return e
}

func (x *codX) doc(what string) (string, string) {
	gen := func(s string) string {
		var g interface{}
		json.Unmarshal([]byte(s), &g)
		return cHash(g)
	}
	pick := func(l ...string) string { return l[x.r.Intn(len(l))] }
	val := func() string {
		return pick(`{"A":1,"B":[null]}`, `[1,2]`, `"text"`, `-2.5`, `true`, `{}`, `[]`, `0`, `""`)
	}
	switch what {
	case "unknown":
		b := val()
		return `{"Head":"` + pick("no/such", "Cnamed", " ", "github.com/younglifestyle/secs4go/codec/cReg") + `","Body":` + b + `}` + pick("", "\n"), gen(b)
	case "nohead":
		b := val()
		return pick(`{"Head":"","Body":`+b+`}`, `{"Body":`+b+`}`, ` { "Body" : `+b+` } `, `{"Head":null,"Body":`+b+`}`), gen(b)
	case "more":
		return `{"X":[1,{}],"Head":"some name","Y":null,"Body":{"Nope":1,"ID":5,"Pad":"p"}}` + pick("", "\n"), cHash(cNamed{ID: 5, Pad: "p"})
	case "nobody":
		return pick(`{"Head":"some name"}`, `{}`, `{"Head":"x"}`), ""
	case "null":
		return pick(`{"Head":"some name","Body":null}`, `null `, `{"Body":null}`, `{"Head":"x","Body":null}`), ""
	case "notjson":
		return pick("@@@\n", "}\n", "{Head:1}", "\x00\x00\x00\x00", "{\"Head\":\"x\",,}", "\"\n\""), ""
	case "array":
		return pick("[1,2]\n", "7\n", "\"text\"\n", "true\n", `{"Head":1,"Body":2}`, `{"Head":["some name"]}`), ""
	case "badbody":
		return `{"Head":"some name","Body":` + pick("[]", "7", `"x"`, `{"ID":"no number"}`, `{"List":{}}`, `{"ID":1.5}`) + `}`, ""
	default:
		s := `{"Head":"some name","Body":{"ID":5,"Pad":"p"}}`
		return s[:1+x.r.Intn(len(s)-1)], ""
	}
}

// flow sends k packets each way at the same time.
func (x *codX) flow(o *codOp) trace.E {
	for _, p := range x.pipe {
		p.set(true, false)
	}
	var wg, rg sync.WaitGroup
	sent, got := [2][][]string{{}, {}}, [2][][]string{{}, {}}
	all := [2]bool{true, true}
	kinds := []string{"reg", "ptr", "named", "unreg"}
	for d := 0; d < 2; d++ {
		for i := 0; i < o.K; i++ {
			q := *o
			q.Kind = kinds[(i+d)%4]
			_, h := cMsg(&q, 100*(d+1)+i)
			sent[d] = append(sent[d], []string{h})
		}
		d := d
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < o.K; i++ {
				q := *o
				q.Kind = kinds[(i+d)%4]
				m, _ := cMsg(&q, 100*(d+1)+i)
				if cSend(x.ends[d], m) != "ok" {
					all[d] = false
				}
			}
		}()
		rg.Add(1)
		go func() {
			defer rg.Done()
			for i := 0; i < o.K; i++ {
				m, res := cRecv(x.ends[1-d])
				if res != "ok" {
					got[d] = append(got[d], []string{res})
					return
				}
				got[d] = append(got[d], []string{cHash(m)})
			}
		}()
	}
	wg.Wait()
	done := make(chan bool)
	go func() { rg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		// What does not come now never comes
		for _, p := range x.pipe {
			p.set(false, true)
		}
		<-done
	}
	for _, p := range x.pipe {
		p.set(false, false)
	}
	return trace.E{"sent": sent, "got": got, "allsent": all}
}

func codScn(e *Env, n int, line []byte) []trace.E {
	var ops []json.RawMessage
	must(json.Unmarshal(line, &ops))
	x := &codX{}
	var out []trace.E
	for _, raw := range ops {
		var o codOp
		must(json.Unmarshal(raw, &o))
		var l trace.E
		must(json.Unmarshal(raw, &l))
		switch o.Op {
		case "new":
			x.cfg = o
			must(x.open(e.Seed*1000 + int64(n)))
		case "send":
			d := o.D - 1
			m, h := cMsg(&o, o.ID)
			x.pipe[d].mark()
			res := cSend(x.ends[d], m)
			w := x.pipe[d].n
			hd := []int{}
			for i := 0; i < x.cfg.N && i < len(x.pipe[d].first); i++ {
				hd = append(hd, int(x.pipe[d].first[i]))
			}
			l["res"], l["wrote"], l["head"], l["h"] = res, w, hd, h
			if res == "ok" {
				x.wire[d]++
			}
		case "raw":
			if x.dead[o.D-1] {
				continue
			}
			l["x"] = x.raw(o.D-1, &o.X)
			x.wire[o.D-1]++
		case "recv":
			d := o.D - 1
			if x.wire[d] == 0 || x.dead[d] {
				continue
			}
			m, res := cRecv(x.ends[1-d])
			x.wire[d]--
			x.dead[d] = res != "ok" && res != "nothing"
			l["res"], l["h"] = res, ""
			if res == "ok" {
				l["h"] = cHash(m)
			}
		case "flow":
			if x.wire != [2]int{} || x.dead != [2]bool{} {
				continue
			}
			for k, v := range x.flow(&o) {
				l[k] = v
			}
		}
		out = append(out, l)
	}
	return out
}

func init() {
	subs["codec"] = func(e *Env) {
		pool(e, 2, func(n int, line []byte) []trace.E { return codScn(e, n, line) })
	}
}
