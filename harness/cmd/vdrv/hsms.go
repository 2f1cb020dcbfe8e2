package main

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/astx"
	"verifharness/trace"
	"verifharness/wire"
)

func init() { subs["hsms"] = hsmsDrv }

// lags remembers when this process was kept from running.
type lagMeter struct {
	mu   sync.Mutex
	at   []time.Time
	d    []time.Duration
	once sync.Once
}

var lags lagMeter

func (l *lagMeter) start() {
	l.once.Do(func() {
		go func() {
			last := time.Now()
			for {
				time.Sleep(5 * time.Millisecond)
				now := time.Now()
				if d := now.Sub(last) - 5*time.Millisecond; d > 15*time.Millisecond {
					l.mu.Lock()
					l.at, l.d = append(l.at, now), append(l.d, d)
					l.mu.Unlock()
				}
				last = now
			}
		}()
	})
}

// since is the longest stall since t, in ms.
func (l *lagMeter) since(t time.Time) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	var m time.Duration
	for i := len(l.at) - 1; i >= 0 && l.at[i].After(t); i-- {
		if l.d[i] > m {
			m = l.d[i]
		}
	}
	return int(m / time.Millisecond)
}

type hMsg struct {
	Ty                string
	Stp, Sess, B2, B3 int
	S, F, W           int
	Sys, Kind         string
	Body              []wire.Node
}
type hCall struct {
	Tok     string
	S, F, W int
	Body    []wire.Node
}
type hOp struct {
	Op, Role           string
	Sess               int
	Auto               bool
	T3, T5, T6, T7, T8 int
	Hs                 []struct {
		S, F int
		K    string
	}
	Df       string
	Cb       bool
	Msgs     []hMsg
	G        json.RawMessage
	Cut      string
	K        int
	How      string
	Cs       []hCall
	C        hCall
	Sys      string
	Ms       int
	N        int
	Nd       int
	Ncl      bool
	Deaf, En bool
	At       int
	Gem      string
	Ks       []int
}

func sysHex(v uint32) string { return fmt.Sprintf("%08x", v) }

const (
	peerSys    = 0x70000000
	barrierSys = 0x7e000000
)

// hconn is a connection as the peer sees it.
type hconn struct {
	x      *hsmsX
	c      net.Conn
	mu     sync.Mutex
	rx     []trace.E
	raw    []*wire.Msg
	closed chan struct{}
	cAt    time.Time
	bar    map[uint32]chan struct{}
	quiet  bool // answer and do not record deselect, separate
	linkts int
	flood  func(m *wire.Msg) bool
	want   map[uint32]chan *wire.Msg
	whole  sync.Mutex // held while messages are written piece by piece
	torn   bool       // a message is incomplete
}

func bodyNodes(m *wire.Msg) []wire.Node {
	it, err := m.Item()
	if err != nil {
		return []wire.Node{{T: "?", N: 0, V: []string{err.Error()}}}
	}
	return it.Nodes()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func rxLine(m *wire.Msg) trace.E {
	if m.SType != wire.Data || m.PType != 0 {
		return trace.E{"ty": "ctl", "stp": int(m.SType), "ptype": int(m.PType), "sess": int(m.Session), "b2": int(m.B2), "b3": int(m.B3), "sys": sysHex(m.Sys), "len": len(m.Text)}
	}
	l := trace.E{"ty": "data", "sess": int(m.Session), "s": m.Stream(), "f": m.Function(), "w": b2i(m.Wait()), "sys": sysHex(m.Sys), "body": bodyNodes(m)}
	if m.Stream() == 9 && m.Function() == 9 {
		h := trace.E{"sess": -1}
		if it, err := m.Item(); err == nil && it != nil && it.F == "B" && len(it.Raw) == 10 {
			r := it.Raw
			h = trace.E{"sess": int(binary.BigEndian.Uint16(r)), "s": int(r[2] & 0x7f), "w": int(r[2] >> 7), "f": int(r[3]), "ptype": int(r[4]), "stype": int(r[5]),
				"sys": hex.EncodeToString(r[6:])}
		}
		l["hdr"] = h
	}
	return l
}

func (c *hconn) read() {
	defer func() {
		c.mu.Lock()
		c.cAt = time.Now()
		c.mu.Unlock()
		close(c.closed)
	}()
	var h [4]byte
	for {
		if _, err := io.ReadFull(c.c, h[:]); err != nil {
			return
		}
		n := binary.BigEndian.Uint32(h[:])
		if n > 1<<24 {
			c.mu.Lock()
			c.rx = append(c.rx, trace.E{"ty": "garbage", "len": int(n & 0x7fffffff)})
			c.mu.Unlock()
			io.Copy(io.Discard, c.c)
			return
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(c.c, b); err != nil {
			return
		}
		m, err := wire.ParseFrame(b)
		if err != nil {
			c.mu.Lock()
			c.rx = append(c.rx, trace.E{"ty": "garbage", "len": int(n)})
			c.mu.Unlock()
			continue
		}
		c.mu.Lock()
		switch {
		case m.SType == wire.LinktestReq:
			c.linkts++
			c.mu.Unlock()
			c.write(wire.Ctl(wire.LinktestRsp, 0xffff, 0, 0, m.Sys).Bytes())
			continue
		case m.SType == wire.LinktestRsp && m.Sys >= barrierSys && c.bar[m.Sys] != nil:
			close(c.bar[m.Sys])
			delete(c.bar, m.Sys)
		case c.quiet && m.SType == wire.DeselectReq:
			deaf := c.x.deaf
			c.mu.Unlock()
			if !deaf {
				c.write(wire.Ctl(wire.DeselectRsp, m.Session, 0, 0, m.Sys).Bytes())
			}
			continue
		case c.quiet && m.SType == wire.SeparateReq:
		case c.x.gem != nil && m.SType == wire.Data && m.PType == 0: // the business of other checks
			ch := c.want[m.Sys]
			c.mu.Unlock()
			if ch != nil {
				ch <- m
			} else {
				go c.x.answer(c, m)
			}
			continue
		case c.flood != nil && m.SType == wire.Data:
			f := c.flood
			c.mu.Unlock()
			if f(m) {
				continue
			}
			c.mu.Lock()
			c.rx = append(c.rx, rxLine(m))
		default:
			c.rx = append(c.rx, rxLine(m))
		}
		c.mu.Unlock()
	}
}

func (c *hconn) write(b []byte) error {
	c.c.SetWriteDeadline(time.Now().Add(10 * time.Second))
	_, err := c.c.Write(b)
	return err
}

func (c *hconn) isClosed() bool {
	select {
	case <-c.closed:
		return true
	default:
		return false
	}
}

func (c *hconn) gone(within time.Duration) bool {
	select {
	case <-c.closed:
		return true
	case <-time.After(within):
		return false
	}
}

// barrier is true if the endpoint answered everything sent before.
func (c *hconn) barrier(within time.Duration) bool {
	ch := make(chan struct{})
	c.mu.Lock()
	c.x.bars++
	sys := uint32(barrierSys) + c.x.bars
	c.bar[sys] = ch
	c.mu.Unlock()
	if c.write(wire.Ctl(wire.LinktestReq, 0xffff, 0, 0, sys).Bytes()) != nil {
		return false
	}
	select {
	case <-ch:
		return true
	case <-c.closed:
		select {
		case <-ch:
			return true
		default:
			return false
		}
	case <-time.After(within):
		return false
	}
}

func (c *hconn) nrx() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.rx)
}

// hsmsX is an endpoint under test with its peer and application.
type hsmsX struct {
	r      *rand.Rand
	addr   string
	active bool
	proto  *hsms.HsmsProtocol
	c      *hconn
	start  time.Time
	deaf   bool
	bars   uint32
	late   bool
	t3     int
	gem    *gem.GemHandler
	kind   string
	fz     *rand.Rand // what a hostile peer does, under mu
	good   bool
	probes uint32

	mu    sync.Mutex
	calls []trace.E
	done  []trace.E
	s9    []trace.E
	sysOf map[string]string // tokens and "sel" -> system bytes
	began map[string]time.Time
	res   map[string]bool // finished
	part  []byte          // what is missing of the partial message
}

func (x *hsmsX) lock(f func()) { x.mu.Lock(); f(); x.mu.Unlock() }

func (x *hsmsX) ms(t time.Time) int { return int(t.Sub(x.start) / time.Millisecond) }

// up is the time rounded up, so that intervals contain the events.
func (x *hsmsX) up(t time.Time) int { return x.ms(t) + 1 }

func (x *hsmsX) until(within time.Duration, f func() bool) {
	if !until(within, f) {
		x.late = true
	}
}

func (x *hsmsX) linked() bool { return x.c != nil && !x.c.isClosed() }

func (x *hsmsX) seen(by string, m *ast.DataMessage) {
	body := []wire.Node{}
	it, err := astx.MsgItem(m)
	if err != nil {
		body = []wire.Node{{T: "?" + err.Error(), V: []string{}}}
	} else {
		body = it.Nodes()
	}
	w := b2i(m.WaitBit() == "true")
	if m.WaitBit() == "optional" {
		w = 2
	}
	l := trace.E{"by": by, "s": m.StreamCode(), "f": m.FunctionCode(), "w": w, "sess": m.SessionID(), "sys": hex.EncodeToString(m.SystemBytes()), "body": body}
	x.lock(func() { x.calls = append(x.calls, l) })
}

// appMsg is a message as an application makes it; it may carry any session and system bytes.
func (x *hsmsX) appMsg(s, f, w int, body []wire.Node) *ast.DataMessage {
	var n ast.ItemNode = ast.NewEmptyItemNode()
	if len(body) > 0 {
		n = astx.To(wire.FromNodes(body), x.r)
	}
	name := []string{"", "Msg", "x1"}[x.r.Intn(3)]
	if x.r.Intn(4) == 0 && w != 2 {
		return ast.NewHSMSDataMessage(name, s, f, w, "H<->E", n, x.r.Intn(65536), []byte{1, 2, 3, byte(x.r.Intn(256))})
	}
	return ast.NewDataMessage(name, s, f, w, "H<->E", n)
}

func (x *hsmsX) handler(by, kind string) hsms.DataMessageHandler {
	return func(m *ast.DataMessage) (*ast.DataMessage, error) {
		x.seen(by, m)
		x.mu.Lock()
		defer x.mu.Unlock()
		var body []wire.Node
		if it, err := astx.MsgItem(m); err == nil {
			body = it.Nodes()
		}
		w := 0
		switch kind {
		case "nil":
			return nil, nil
		case "err":
			if x.r.Intn(2) == 0 {
				return nil, errApp
			}
			return x.appMsg(m.StreamCode(), (m.FunctionCode()+1)%256, 0, nil), errApp
		case "other":
			return x.appMsg(m.StreamCode()%127+1, 2, 0, wire.A("other").Nodes()), nil
		case "drop":
			c := x.c
			time.Sleep(20 * time.Millisecond) // the peer reads what was sent
			if x.r.Intn(2) == 0 {
				c.c.(*net.TCPConn).SetLinger(0)
			}
			c.c.Close()
			time.Sleep(10 * time.Millisecond)
		case "opt":
			w = 2
		}
		return x.appMsg(m.StreamCode(), (m.FunctionCode()+1)%256, w, body), nil
	}
}

func (x *hsmsX) resolve(sys string) uint32 {
	if strings.HasPrefix(sys, "p:") {
		v, err := strconv.Atoi(sys[2:])
		must(err)
		return uint32(peerSys + v)
	}
	if strings.HasPrefix(sys, "x:") {
		v, err := strconv.ParseUint(sys[2:], 16, 32)
		must(err)
		return uint32(v)
	}
	x.mu.Lock()
	h, ok := x.sysOf[sys]
	x.mu.Unlock()
	if !ok {
		h = "7fffffff"
	}
	v, err := strconv.ParseUint(h, 16, 32)
	must(err)
	return uint32(v)
}

func (g *hMsg) frame(sys uint32, r *rand.Rand) []byte {
	if b := g.hostile(sys, r); b != nil {
		return b
	}
	switch g.Ty {
	case "data":
		return wire.SF(uint16(g.Sess), g.S, g.F, g.W == 1, sys, wire.FromNodes(g.Body)).Bytes()
	case "ctl":
		return wire.Ctl(byte(g.Stp), uint16(g.Sess), byte(g.B2), byte(g.B3), sys).Bytes()
	}
	d := wire.SF(uint16(g.Sess), 1, 1, true, sys, wire.L(wire.A("x"), wire.U(2, 7)))
	b := d.Bytes()
	switch g.Kind {
	case "len0":
		return []byte{0, 0, 0, 0}
	case "short":
		return []byte{0, 0, 0, 4, 1, 2, 3, 4}
	case "len9":
		return append([]byte{0, 0, 0, 9}, b[4:13]...)
	case "ptype":
		b[8] = byte(1 + r.Intn(255))
	case "stype":
		b[9] = []byte{8, 10, 11, 127, 128, 255}[r.Intn(6)]
	case "format":
		b[14] = 0x04 // no such format
	case "over":
		b[15] = 200 // more elements than there are
	case "trail":
		b = append(b, 0)
		binary.BigEndian.PutUint32(b, uint32(len(b)-4))
	case "lenbytes":
		b[14] &^= 3 // no length bytes
	case "ctltext":
		b = append(wire.Ctl(wire.LinktestReq, 0xffff, 0, 0, sys).Bytes(), 1, 2)
		binary.BigEndian.PutUint32(b, uint32(len(b)-4))
	default:
		panic("harness: bad kind " + g.Kind)
	}
	return b
}

func (x *hsmsX) write(frames [][]byte, cut string) {
	x.c.whole.Lock()
	defer x.c.whole.Unlock()
	var all []byte
	for _, f := range frames {
		all = append(all, f...)
	}
	switch cut {
	case "frame":
		for _, f := range frames {
			x.c.write(f)
			time.Sleep(time.Duration(x.r.Intn(3)) * time.Millisecond)
		}
	case "bytes":
		for i := 0; i < len(all); i++ {
			n := 1
			if i >= 200 {
				n = len(all) - i
			}
			if x.c.write(all[i:i+n]) != nil {
				return
			}
			i += n - 1
			if i%7 == 0 {
				time.Sleep(200 * time.Microsecond)
			}
		}
	case "rand":
		for len(all) > 0 {
			n := 1 + x.r.Intn(len(all))
			if x.r.Intn(2) == 0 && n > 40 {
				n = 1 + x.r.Intn(40)
			}
			if x.c.write(all[:n]) != nil {
				return
			}
			all = all[n:]
			if x.r.Intn(3) > 0 {
				time.Sleep(time.Duration(x.r.Intn(1500)) * time.Microsecond)
			}
		}
	default:
		x.c.write(all)
	}
}

func doneErr(err error) string {
	switch {
	case errors.Is(err, hsms.ErrT3Timeout):
		return "t3"
	case errors.Is(err, hsms.ErrNotConnected):
		return "notconn"
	case errors.Is(err, hsms.ErrNotSelected):
		return "notsel"
	}
	return "err"
}

func (x *hsmsX) call(c hCall) {
	m := x.appMsg(c.S, c.F, c.W, c.Body)
	x.lock(func() { x.began[c.Tok] = time.Now() })
	go func() {
		t0 := time.Now()
		rsp, err := x.proto.SendAndWait(m)
		el := int(time.Since(t0) / time.Millisecond)
		l := trace.E{"tok": c.Tok, "el": el}
		if err != nil {
			l["res"] = doneErr(err)
		} else if rsp == nil {
			l["res"] = "nothing"
		} else {
			l["res"] = "ok"
			body := []wire.Node{}
			if it, err := astx.MsgItem(rsp); err == nil {
				body = it.Nodes()
			} else {
				body = []wire.Node{{T: "?" + err.Error(), V: []string{}}}
			}
			l["s"], l["f"], l["w"], l["sess"], l["sys"], l["body"] = rsp.StreamCode(), rsp.FunctionCode(), b2i(rsp.WaitBit() == "true"), rsp.SessionID(), hex.EncodeToString(rsp.SystemBytes()), body
		}
		x.lock(func() { x.done = append(x.done, l); x.res[c.Tok] = true })
	}()
}

func (x *hsmsX) nDone() int { x.mu.Lock(); defer x.mu.Unlock(); return len(x.done) }

func (x *hsmsX) listen() net.Listener {
	var l net.Listener
	var err error
	for i := 0; i < 200; i++ {
		if l, err = net.Listen("tcp", x.addr); err == nil {
			return l
		}
		time.Sleep(5 * time.Millisecond)
	}
	panic("harness: " + err.Error())
}

func (x *hsmsX) newConn(c net.Conn) *hconn {
	h := &hconn{x: x, c: c, closed: make(chan struct{}), bar: map[uint32]chan struct{}{}}
	go h.read()
	return h
}

func (x *hsmsX) enable() {
	if x.gem != nil {
		x.gem.Enable()
	} else {
		x.proto.Enable()
	}
}

func (x *hsmsX) connect(en bool, ob trace.E) {
	end := time.Now().Add(12 * time.Second)
	ob["ok"], ob["conAt"] = false, 0
	if x.active {
		l := x.listen()
		defer l.Close()
		if en {
			x.enable()
		}
		l.(*net.TCPListener).SetDeadline(end)
		c, err := l.Accept()
		if err != nil {
			x.late = true
			return
		}
		ob["conAt"] = x.up(time.Now())
		x.c = x.newConn(c)
		x.until(5*time.Second, func() bool { return x.c.nrx() >= 1 })
		ob["ok"] = true
		x.c.mu.Lock()
		for _, q := range x.c.rx {
			if q["ty"] == "ctl" && q["stp"] == 1 {
				x.lock(func() { x.sysOf["sel"] = q["sys"].(string) })
			}
		}
		x.c.mu.Unlock()
		return
	}
	if en {
		x.enable()
	}
	for time.Now().Before(end) {
		c, err := net.DialTimeout("tcp", x.addr, time.Second)
		if err != nil {
			time.Sleep(2 * time.Millisecond)
			continue
		}
		x.c = x.newConn(c)
		if x.c.barrier(3 * time.Second) {
			ob["ok"], ob["conAt"] = true, x.ms(time.Now())
			return
		}
		c.Close()
	}
	x.late = true
}

func (x *hsmsX) resolveMsg(raw map[string]interface{}, sys uint32) { raw["sys"] = sysHex(sys) }

// nearT3 waits if the request with the token may run out any moment.
func (x *hsmsX) nearT3(sys string) {
	x.mu.Lock()
	t, ok := x.began[strings.TrimPrefix(sys, "c:")]
	fin := x.res[strings.TrimPrefix(sys, "c:")]
	x.mu.Unlock()
	if ok && !fin && time.Since(t) > time.Duration(x.t3)*time.Second-400*time.Millisecond {
		until(time.Duration(x.t3)*time.Second+5*time.Second, func() bool {
			x.mu.Lock()
			defer x.mu.Unlock()
			return x.res[strings.TrimPrefix(sys, "c:")]
		})
	}
}

func (x *hsmsX) step(o *hOp, raw map[string]interface{}) trace.E {
	ob := trace.E{"cAt": -1}
	t0 := time.Now()
	had := x.linked()
	willClose := o.Ncl
	switch o.Op {
	case "enable":
		x.enable()
	case "disable":
		x.deaf = o.Deaf
		if x.c != nil {
			x.c.mu.Lock()
			x.c.quiet = true
			x.c.mu.Unlock()
		}
		if x.gem != nil {
			x.gem.Disable()
		} else {
			x.proto.Disable()
		}
		willClose = had
	case "connect":
		x.connect(o.En, ob)
		x.until(3*time.Second, func() bool { return x.proto.CurrentState() == hsms.StateConnectedNotSelected })
		had = x.linked()
	case "noconn":
		got := false
		end := time.Now().Add(time.Duration(o.Ms) * time.Millisecond)
		brief := 0
		if x.active {
			l := x.listen()
			l.(*net.TCPListener).SetDeadline(end)
			for !got {
				c, err := l.Accept()
				if err != nil {
					break
				}
				h := x.newConn(c)
				if h.gone(time.Second) { // an attempt that was under way
					brief++
				} else {
					got = true
				}
				c.Close()
			}
			l.Close()
		} else {
			for time.Now().Before(end) {
				if c, err := net.DialTimeout("tcp", x.addr, time.Second); err == nil {
					if h := x.newConn(c); h.gone(time.Second) { // it was just going to listen
						brief++
					} else {
						got = true
					}
					c.Close()
				}
				time.Sleep(10 * time.Millisecond)
			}
		}
		ob["got"], ob["brief"] = got, brief
	case "in":
		var fr [][]byte
		rm := raw["msgs"].([]interface{})
		for i := range o.Msgs {
			if o.At == 0 {
				x.nearT3(o.Msgs[i].Sys)
			}
		}
		for i := range o.Msgs {
			sys := x.resolve(o.Msgs[i].Sys)
			x.resolveMsg(rm[i].(map[string]interface{}), sys)
			f := o.Msgs[i].frame(sys, x.r)
			if x.gem != nil {
				h := f
				if len(h) > 200 {
					h = h[:200]
				}
				rm[i].(map[string]interface{})["hex"] = hex.EncodeToString(h)
			}
			fr = append(fr, f)
		}
		if o.At != 0 { // around T3 of the first request
			x.mu.Lock()
			t := x.began[strings.TrimPrefix(o.Msgs[0].Sys, "c:")]
			x.mu.Unlock()
			time.Sleep(time.Until(t.Add(time.Duration(x.t3)*time.Second + time.Duration(o.At-100)*time.Millisecond)))
		}
		x.write(fr, o.Cut)
	case "part":
		var g hMsg
		must(json.Unmarshal(o.G, &g))
		sys := x.resolve(g.Sys)
		x.resolveMsg(raw["g"].(map[string]interface{}), sys)
		f := g.frame(sys, x.r)
		k := o.K
		if k >= len(f) {
			k = len(f) - 1
		}
		x.c.whole.Lock()
		x.c.torn = true
		x.c.write(f[:k])
		x.c.whole.Unlock()
		x.part = f[k:]
		time.Sleep(5 * time.Millisecond)
	case "rest":
		x.c.whole.Lock()
		x.c.torn = false
		x.c.write(x.part)
		x.c.whole.Unlock()
		x.part = nil
	case "use":
		var wg sync.WaitGroup
		for _, k := range o.Ks {
			k, r := k, rand.New(rand.NewSource(x.r.Int63()))
			wg.Add(1)
			go func() { x.use(k, r); wg.Done() }()
		}
		ch := make(chan struct{})
		go func() { wg.Wait(); close(ch) }()
		ob["ret"] = true
		select {
		case <-ch:
		case <-time.After(time.Duration(2*x.t3+10) * time.Second):
			ob["ret"] = false
		}
	case "probe":
		ob["probe"] = x.probe(o.Sess)
		ob["ctl"] = ctl(x.gem.ControlState())
	case "drop":
		if x.c == nil {
			break
		}
		if o.How == "rst" {
			x.c.c.(*net.TCPConn).SetLinger(0)
		}
		if o.How == "half" { // the peer only stops sending
			x.c.c.(*net.TCPConn).CloseWrite()
		} else {
			x.c.c.Close()
		}
		willClose = had
	case "call":
		n0 := x.nDone()
		for _, c := range o.Cs {
			x.call(c)
		}
		x.until(3*time.Second, func() bool {
			n := x.nDone() - n0
			if x.linked() {
				n += x.c.nrx()
			}
			return n >= len(o.Cs)
		})
		if x.linked() {
			x.c.mu.Lock()
			for _, c := range o.Cs {
				want, _ := json.Marshal(c.Body)
				for _, q := range x.c.rx {
					if q["ty"] == "data" {
						if got, _ := json.Marshal(q["body"]); string(got) == string(want) {
							x.lock(func() { x.sysOf["c:"+c.Tok] = q["sys"].(string) })
						}
					}
				}
			}
			x.c.mu.Unlock()
		}
	case "send", "resp":
		m := x.appMsg(o.C.S, o.C.F, o.C.W, o.C.Body)
		var err error
		if o.Op == "send" {
			err = x.proto.SendDataMessage(m)
		} else {
			sys := x.resolve(o.Sys)
			raw["sys"] = sysHex(sys)
			err = x.proto.SendResponse(m, wire.Ctl(0, 0, 0, 0, sys).Bytes()[10:14])
		}
		res := "sent"
		if err != nil {
			res = doneErr(err)
		} else if x.linked() {
			until(3*time.Second, func() bool { return x.c.nrx() >= 1 })
		}
		x.lock(func() { x.done = append(x.done, trace.E{"tok": "", "res": res}) })
	case "idle":
		if had {
			x.c.gone(time.Duration(o.Ms) * time.Millisecond)
		} else {
			time.Sleep(time.Duration(o.Ms) * time.Millisecond)
		}
	case "t3":
		x.until(time.Duration(x.t3)*time.Second+3*time.Second, func() bool {
			x.mu.Lock()
			defer x.mu.Unlock()
			for k := range x.began {
				if !x.res[k] {
					return false
				}
			}
			return true
		})
	case "flood":
		x.flood(o, raw, ob)
	default:
		panic("harness: unknown op " + o.Op)
	}
	// let it settle
	if willClose {
		if x.c != nil && !x.c.gone(5*time.Second) {
			x.late = true
		}
	} else if had && x.part == nil && !x.c.isClosed() {
		if !x.c.barrier(10*time.Second) && !x.c.gone(time.Second) {
			x.late = true
		}
	}
	if o.Nd > 0 {
		until(3*time.Second, func() bool { return x.nDone() >= o.Nd })
	}
	if o.Op == "part" {
		time.Sleep(20 * time.Millisecond)
	}
	lost := had && x.c.isClosed()
	if lost || o.Op == "disable" {
		x.until(5*time.Second, func() bool { return x.proto.CurrentState() == hsms.StateNotConnected && !x.proto.Connected() })
		x.part = nil
	}
	if lost {
		x.c.c.Close()
		x.c.mu.Lock()
		ob["cAt"] = x.up(x.c.cAt)
		x.c.mu.Unlock()
	}
	ob["closed"] = lost
	x.collect(ob, lost)
	st := map[string]string{hsms.StateNotConnected: "NC", hsms.StateConnectedNotSelected: "NS", hsms.StateConnectedSelected: "SEL"}[x.proto.CurrentState()]
	ob["st"], ob["con"] = st, x.proto.Connected()
	raw["t0"], raw["t1"], raw["lag"] = x.ms(t0), x.up(time.Now()), lags.since(t0)
	return ob
}

// collect takes what was seen. A request that ran out and the S9F9 about it belong together.
func (x *hsmsX) collect(ob trace.E, lost bool) {
	ob["rx"] = []trace.E{}
	end := time.Now().Add(2 * time.Second)
	for {
		n1 := x.nDone()
		c := x.c
		if c != nil && !lost && x.part == nil && n1 > 0 {
			c.barrier(5 * time.Second)
		}
		if c != nil {
			c.mu.Lock()
		}
		x.mu.Lock()
		z, n3 := 0, 0
		if c != nil {
			for _, q := range c.rx {
				if q["hdr"] != nil {
					z++
				}
			}
		}
		for _, d := range x.done {
			if d["res"] == "t3" {
				n3++
			}
		}
		ok := len(x.done) == n1 && z <= n3 || time.Now().After(end)
		if ok {
			if c != nil && c.rx != nil {
				ob["rx"], c.rx = c.rx, nil
			}
			ob["calls"], ob["done"], ob["s9"] = x.calls, x.done, x.s9
			x.calls, x.done, x.s9 = []trace.E{}, []trace.E{}, []trace.E{}
		}
		x.mu.Unlock()
		if c != nil {
			c.mu.Unlock()
		}
		if ok {
			break
		}
		time.Sleep(time.Millisecond)
	}
	if lost {
		x.c = nil
	}
}

// flood lets many goroutines send at once: plain messages, requests that the
// peer answers in some order, and replies to requests of the peer.
func (x *hsmsX) flood(o *hOp, raw map[string]interface{}, ob trace.E) {
	c, n := x.c, o.N
	var mu sync.Mutex
	ev, rep := []trace.E{}, []trace.E{}
	var held []*wire.Msg
	seen := 0
	rr := rand.New(rand.NewSource(x.r.Int63()))
	answer := func(k int) { // mu held
		for ; k > 0 && len(held) > 0; k-- {
			i := rr.Intn(len(held))
			m := held[i]
			held = append(held[:i], held[i+1:]...)
			ev = append(ev, trace.E{"k": "tx", "sys": sysHex(m.Sys), "g": 0, "i": 0, "w": 0})
			it, _ := m.Item()
			c.write(wire.SF(m.Session, m.Stream(), m.Function()+1, false, m.Sys, it).Bytes())
		}
	}
	c.mu.Lock()
	c.flood = func(m *wire.Msg) bool {
		it, err := m.Item()
		if err != nil || it == nil || it.F != "L" || len(it.Items) != 3 || len(it.Items[0].Uints) != 1 || len(it.Items[1].Uints) != 1 {
			return false
		}
		pad := it.Items[2].Raw
		for i := range pad {
			if pad[i] != byte('a'+int(it.Items[1].Uints[0])%26) {
				return false
			}
		}
		mu.Lock()
		defer mu.Unlock()
		w := b2i(m.Wait())
		ev = append(ev, trace.E{"k": "rx", "g": int(it.Items[0].Uints[0]), "i": int(it.Items[1].Uints[0]), "sys": sysHex(m.Sys), "w": w})
		seen++
		if w == 1 {
			held = append(held, m)
			if len(held) >= 1+rr.Intn(o.K) {
				answer(1 + rr.Intn(len(held)))
			}
		}
		return true
	}
	c.mu.Unlock()
	stop := make(chan struct{})
	go func() { // whatever is held too long
		for {
			select {
			case <-stop:
				return
			case <-time.After(3 * time.Millisecond):
				mu.Lock()
				answer(1)
				mu.Unlock()
			}
		}
	}()
	body := func(g, i, size int) []wire.Node {
		return wire.L(wire.U(4, uint64(g)), wire.U(4, uint64(i)), wire.A(strings.Repeat(string(rune('a'+i%26)), size))).Nodes()
	}
	var wg sync.WaitGroup
	gs := 0
	run := func(f func(g, i, size int)) {
		gs++
		g := gs
		seed := x.r.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			for i := 1; i <= n; i++ {
				size := r.Intn(60)
				if r.Intn(12) == 0 {
					size = r.Intn(20000)
				}
				f(g, i, size)
			}
		}()
	}
	mk := func(g, i, size, f int, w int) *ast.DataMessage {
		return ast.NewDataMessage("", 3, f, w, "H<->E", astx.To(wire.FromNodes(body(g, i, size)), nil))
	}
	for k := 0; k < 3; k++ {
		run(func(g, i, size int) {
			if err := x.proto.SendDataMessage(mk(g, i, size, 1, 0)); err != nil {
				mu.Lock()
				rep = append(rep, trace.E{"got": "error", "want": "sent"})
				mu.Unlock()
			}
		})
	}
	for k := 0; k < 4; k++ {
		run(func(g, i, size int) {
			rsp, err := x.proto.SendAndWait(mk(g, i, size, 1, 1))
			got := "error"
			if err == nil {
				if it, err := astx.MsgItem(rsp); err == nil {
					got = fmt.Sprint(it.Nodes())
				}
			}
			mu.Lock()
			rep = append(rep, trace.E{"got": got, "want": fmt.Sprint(body(g, i, size))})
			mu.Unlock()
		})
	}
	// the handler of S3F3 echoes: replies of the receiving goroutine
	x.proto.RegisterHandler(3, 3, func(m *ast.DataMessage) (*ast.DataMessage, error) {
		it, err := astx.MsgItem(m)
		if err != nil {
			return nil, err
		}
		return ast.NewDataMessage("", 3, 4, 0, "H<->E", astx.To(it, nil)), nil
	})
	run(func(g, i, size int) {
		c.write(wire.SF(1, 3, 3, true, uint32(peerSys+0x100000+i), wire.FromNodes(body(g, i, size))).Bytes())
		if i%3 == 0 {
			time.Sleep(100 * time.Microsecond)
		}
	})
	raw["g"] = gs
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(40 * time.Second):
		x.late = true
	}
	until(2*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return seen >= gs*n })
	c.barrier(5 * time.Second)
	close(stop)
	x.proto.RegisterHandler(3, 3, nil)
	c.mu.Lock()
	c.flood = nil
	c.mu.Unlock()
	mu.Lock()
	for i := range rep { // long texts only where they matter
		if rep[i]["got"] == rep[i]["want"] {
			rep[i] = trace.E{"got": "", "want": ""}
		}
	}
	ob["ev"], ob["rep"] = ev, rep
	mu.Unlock()
}

func (x *hsmsX) create(o *hOp, host string, port int) {
	x.active, x.t3 = o.Role == "A", o.T3
	p := hsms.NewHsmsProtocol(host, port, x.active, o.Sess, "ep")
	t := p.Timeouts()
	t.SetLinktest(0)
	t.SetT3ReplyTimeout(o.T3)
	t.SetT5ConnSeparateTimeout(o.T5)
	t.SetT6ControlTransTimeout(o.T6)
	t.SetT7NotSelectTimeout(o.T7)
	t.SetT8NetworkIntercharTimeout(o.T8)
	t.SetAutoReconnect(o.Auto)
	t.SetMaxReconnectAttempts(0)
	t.SetReconnectBackoffBase(1)
	t.SetReconnectBackoffMax(1)
	for _, h := range o.Hs {
		p.RegisterHandler(h.S, h.F, x.handler("own", h.K))
	}
	if o.Df != "" {
		p.RegisterDefaultHandler(x.handler("default", o.Df))
	}
	if o.Cb {
		p.OnS9Error = func(i *hsms.S9ErrorInfo) {
			x.lock(func() { x.s9 = append(x.s9, trace.E{"f": i.ErrorCode, "sys": hex.EncodeToString(i.SystemBytes)}) })
		}
	}
	x.proto = p
	if o.Gem != "" {
		x.kind, x.fz = o.Gem, rand.New(rand.NewSource(x.r.Int63()))
		x.withGem(o.Gem, o.Sess)
	}
}

func hsmsDrv(e *Env) {
	lags.start()
	pool(e, 48, func(n int, line []byte) []trace.E {
		var ops []*hOp
		var raw []map[string]interface{}
		must(json.Unmarshal(line, &ops))
		must(json.Unmarshal(line, &raw))
		x := &hsmsX{r: rand.New(rand.NewSource(e.Seed*7919 + int64(e.Part)*1000 + int64(n))), calls: []trace.E{}, done: []trace.E{}, s9: []trace.E{},
			sysOf: map[string]string{}, began: map[string]time.Time{}, res: map[string]bool{}, start: time.Now()}
		host, port := addrOf(e, n)
		x.addr = fmt.Sprintf("%s:%d", host, port)
		var out []trace.E
		for i, o := range ops {
			l := trace.E(raw[i])
			if i == 0 {
				x.create(o, host, port)
			} else {
				if (o.Op == "in" || o.Op == "part" || o.Op == "rest" || o.Op == "drop" && x.gem == nil || o.Op == "flood" || o.Op == "probe") && x.c == nil {
					break // the connection is gone although it should not be: the trace shows it
				}
				l["obs"] = x.step(o, raw[i])
			}
			out = append(out, l)
			if x.late {
				break
			}
		}
		go x.proto.Disable()
		if x.c != nil {
			x.c.c.Close()
		}
		return out
	})
}
