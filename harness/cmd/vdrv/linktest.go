package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/astx"
	"verifharness/trace"
	"verifharness/wire"
)

func init() { subs["linktest"] = linktestDrv }

type ltOp struct {
	Op     string
	Active bool
	Lt, T6 int
	Ms, V  int
	How    string
	Tease  bool
}

// ltX is the peer of an endpoint that tests its link.
type ltX struct {
	start   time.Time
	p       *hsms.HsmsProtocol
	r       *rand.Rand
	mu      sync.Mutex
	wmu     sync.Mutex
	out     []trace.E
	last    time.Time // of the last line
	cut     bool
	c       net.Conn
	gen     int
	closed  chan struct{}
	how     string
	ms      int
	call    *ltOp
	calling int32
	nsys    uint32
	pend    map[uint32]chan struct{}
}

const ltSess = 7

func (x *ltX) ms0(t time.Time) int { return int(t.Sub(x.start) / time.Millisecond) }

// log adds a line; mu is held.
func (x *ltX) log(e trace.E) {
	now := time.Now()
	lag := lags.since(x.last)
	x.last = now
	if lag > 150 {
		x.cut = true // too uncertain to judge what follows
	}
	if x.cut {
		return
	}
	e["t"], e["lag"] = x.ms0(now), lag
	x.out = append(x.out, e)
}

// send writes a message and logs it, if e is given, before.
func (x *ltX) send(c net.Conn, gen int, m *wire.Msg, e trace.E) {
	x.wmu.Lock()
	defer x.wmu.Unlock()
	x.mu.Lock()
	if gen != x.gen {
		x.mu.Unlock()
		return
	}
	if e != nil {
		x.log(e)
	}
	x.mu.Unlock()
	c.SetWriteDeadline(time.Now().Add(5 * time.Second))
	c.Write(m.Bytes())
}

func (x *ltX) read(c net.Conn, gen int, closed chan struct{}) {
	defer close(closed)
	for {
		var h [4]byte
		_, err := io.ReadFull(c, h[:])
		var b []byte
		if err == nil {
			b = make([]byte, binary.BigEndian.Uint32(h[:]))
			_, err = io.ReadFull(c, b)
		}
		var m *wire.Msg
		if err == nil {
			m, err = wire.ParseFrame(b)
		}
		x.mu.Lock()
		if gen != x.gen {
			x.mu.Unlock()
			return
		}
		if err != nil {
			x.gen++
			x.log(trace.E{"op": "down"})
			x.mu.Unlock()
			c.Close()
			return
		}
		how, ms, call := x.how, x.ms, x.call
		switch m.SType {
		case wire.LinktestReq:
			x.log(trace.E{"op": "ltreq", "sys": int(m.Sys), "head": []int{int(b[0]), int(b[1]), int(b[2]), int(b[3]), int(b[4]), int(b[5])}})
		case wire.LinktestRsp:
			x.log(trace.E{"op": "rxrsp", "sys": int(m.Sys)})
		case wire.Data:
			if m.Function()%2 == 1 && m.Stream() != 9 {
				x.log(trace.E{"op": "data", "sys": int(m.Sys)})
			}
		}
		ch := x.pend[m.Sys]
		x.mu.Unlock()
		rsp := func(sys uint32) *wire.Msg { return wire.Ctl(wire.LinktestRsp, 0xFFFF, 0, 0, sys) }
		good := trace.E{"op": "ltrsp", "sys": int(m.Sys)}
		switch m.SType {
		case wire.LinktestReq:
			switch how {
			case "good":
				x.send(c, gen, rsp(m.Sys), good)
			case "twice":
				x.send(c, gen, rsp(m.Sys), good)
				x.send(c, gen, rsp(m.Sys), nil)
			case "late":
				time.AfterFunc(time.Duration(ms)*time.Millisecond, func() { x.send(c, gen, rsp(m.Sys), good) })
			case "none":
			case "wrong":
				x.send(c, gen, rsp(m.Sys+uint32(1+x.rint(3))), trace.E{"op": "wrong"})
			case "type": // another response with its system bytes
				x.send(c, gen, wire.Ctl([]byte{wire.SelectRsp, wire.DeselectRsp}[x.rint(2)], ltSess, 0, 1, m.Sys), trace.E{"op": "wrong"})
			case "data":
				x.send(c, gen, wire.SF(ltSess, 1, 1+x.rint(2), false, m.Sys, wire.U(4, 5)), trace.E{"op": "wrong"})
			case "cross": // a test of the peer that has the same system bytes
				x.send(c, gen, wire.Ctl(wire.LinktestReq, 0xFFFF, 0, 0, m.Sys), trace.E{"op": "cross", "sys": int(m.Sys)})
			}
		case wire.SelectReq:
			x.send(c, gen, wire.Ctl(wire.SelectRsp, m.Session, 0, 0, m.Sys), trace.E{"op": "sel"})
		case wire.DeselectReq:
			x.send(c, gen, wire.Ctl(wire.DeselectRsp, m.Session, 0, 0, m.Sys), nil)
		case wire.SelectRsp, wire.DeselectRsp:
			if ch != nil {
				select {
				case ch <- struct{}{}:
				default:
				}
			}
		case wire.Data:
			if m.Function()%2 == 1 && m.Stream() != 9 && call != nil {
				if call.Tease {
					x.send(c, gen, rsp(m.Sys), nil)
				}
				time.AfterFunc(time.Duration(call.Ms)*time.Millisecond, func() {
					it, _ := m.Item()
					x.send(c, gen, wire.SF(ltSess, m.Stream(), m.Function()+1, false, m.Sys, it), trace.E{"op": "reply", "sys": int(m.Sys)})
				})
			}
		}
	}
}

// busy says whether a call of the application is open.
func (x *ltX) busy() bool { return atomic.LoadInt32(&x.calling) != 0 }

func (x *ltX) rint(n int) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.r.Intn(n)
}

// control sends a control request and waits for the answer.
func (x *ltX) control(stype byte, e trace.E) bool {
	x.mu.Lock()
	c, gen := x.c, x.gen
	x.nsys++
	sys := 0x70000000 + x.nsys
	ch := make(chan struct{}, 1)
	x.pend[sys] = ch
	x.mu.Unlock()
	x.send(c, gen, wire.Ctl(stype, ltSess, 0, 0, sys), e)
	select {
	case <-ch:
		return true
	case <-x.closed:
	case <-time.After(5 * time.Second):
	}
	return false
}

// end ends the connection from the peer's side.
func (x *ltX) end(how string) {
	if x.c == nil {
		return
	}
	x.mu.Lock()
	x.log(trace.E{"op": "ending"})
	gen := x.gen
	x.mu.Unlock()
	if how == "sep" {
		x.send(x.c, gen, wire.Ctl(wire.SeparateReq, ltSess, 0, 0, 0x71000000), nil)
		select {
		case <-x.closed:
		case <-time.After(3 * time.Second):
		}
	}
	x.mu.Lock()
	if x.gen == gen {
		x.gen++
		x.log(trace.E{"op": "down"})
	}
	x.mu.Unlock()
	if how == "rst" {
		x.c.(*net.TCPConn).SetLinger(0)
	}
	x.c.Close()
	<-x.closed
	x.c = nil
	until(5*time.Second, func() bool { return !x.p.Connected() })
	time.Sleep(30 * time.Millisecond)
}

func linktestDrv(e *Env) {
	lags.start()
	pool(e, 100, func(n int, line []byte) []trace.E {
		var ops []*ltOp
		must(json.Unmarshal(line, &ops))
		host, port := addrOf(e, n)
		addr := fmt.Sprintf("%s:%d", host, port)
		x := &ltX{start: time.Now(), r: rand.New(rand.NewSource(e.Seed*7919 + int64(e.Part)*1000 + int64(n))), how: "good", pend: map[uint32]chan struct{}{}}
		x.last = x.start
		active := ops[0].Active
		x.p = hsms.NewHsmsProtocol(host, port, active, ltSess, "ep")
		t := x.p.Timeouts()
		t.SetLinktest(ops[0].Lt)
		t.SetT5ConnSeparateTimeout(1)
		t.SetT6ControlTransTimeout(ops[0].T6)
		t.SetT7NotSelectTimeout(3600)
		t.SetT8NetworkIntercharTimeout(3600)
		t.SetT3ReplyTimeout(5)
		t.SetAutoReconnect(true)
		t.SetReconnectBackoffBase(1)
		t.SetReconnectBackoffMax(1)
		x.log(trace.E{"op": "new", "active": active, "lt": ops[0].Lt, "t6": ops[0].T6})
		over := func() bool {
			x.mu.Lock()
			defer x.mu.Unlock()
			return x.cut
		}
		body := 0
		for _, o := range ops[1:] {
			if over() {
				break
			}
			if x.c != nil {
				select {
				case <-x.closed: // the endpoint closed it, which the trace tells
					x.c.Close()
					x.c = nil
					until(5*time.Second, func() bool { return !x.p.Connected() })
					time.Sleep(30 * time.Millisecond)
				default:
				}
			}
			if x.c == nil && o.Op != "lt" && o.Op != "up" && o.Op != "disable" && o.Op != "enable" {
				continue
			}
			switch o.Op {
			case "enable":
				x.p.Enable()
			case "disable":
				x.mu.Lock()
				x.log(trace.E{"op": "ending"})
				x.mu.Unlock()
				x.p.Disable()
				x.end("fin")
			case "drop":
				x.end(o.How)
			case "lt":
				x.mu.Lock()
				x.log(trace.E{"op": "lt", "v": o.V})
				x.mu.Unlock()
				t.SetLinktest(o.V)
			case "up":
				if x.c != nil {
					continue
				}
				t0 := time.Now()
				var c net.Conn
				var err error
				if active {
					h := &hsmsX{addr: addr}
					ls := h.listen()
					ls.(*net.TCPListener).SetDeadline(t0.Add(8 * time.Second))
					c, err = ls.Accept()
					ls.Close()
				} else {
					for i := 0; i < 400; i++ {
						t0 = time.Now()
						if c, err = net.DialTimeout("tcp", addr, time.Second); err == nil {
							break
						}
						time.Sleep(10 * time.Millisecond)
					}
				}
				x.mu.Lock()
				if err != nil { // not judged here
					x.cut = true
					x.mu.Unlock()
					continue
				}
				x.gen++
				gen := x.gen
				x.c, x.closed = c, make(chan struct{})
				x.log(trace.E{"op": "up", "t0": x.ms0(t0)})
				x.mu.Unlock()
				go x.read(c, gen, x.closed)
				if !until(3*time.Second, func() bool {
					if !active {
						return x.p.Connected()
					}
					x.mu.Lock()
					defer x.mu.Unlock()
					return x.p.Connected() && len(x.out) > 0 && x.out[len(x.out)-1]["op"] != "up"
				}) {
					x.mu.Lock()
					x.cut = true
					x.mu.Unlock()
				}
			case "policy":
				x.mu.Lock()
				x.how, x.ms = o.How, o.Ms
				x.mu.Unlock()
			case "sel":
				x.control(wire.SelectReq, nil)
			case "desel":
				if !x.busy() {
					x.control(wire.DeselectReq, nil)
				}
			case "wait":
				select {
				case <-time.After(time.Duration(o.Ms) * time.Millisecond):
				case <-x.closed:
				}
			case "call":
				if x.busy() {
					continue
				}
				x.mu.Lock()
				x.call = o
				gen := x.gen
				x.mu.Unlock()
				if x.p.CurrentState() != hsms.StateConnectedSelected {
					continue // no connection, or not selected any more
				}
				body++
				val := uint64(body)
				atomic.StoreInt32(&x.calling, 1)
				go func() {
					defer atomic.StoreInt32(&x.calling, 0)
					m := ast.NewDataMessage("", 1, 1, 1, "H<->E", astx.To(wire.U(4, val), nil))
					r, err := x.p.SendAndWait(m)
					own := false
					if err == nil && r != nil {
						if g, err := wire.ParseFrame(r.ToBytes()[4:]); err == nil {
							it, _ := g.Item()
							own = it != nil && g.Stream() == 1 && g.Function() == 2 && len(it.Uints) == 1 && it.Uints[0] == val
						}
					}
					x.mu.Lock()
					x.log(trace.E{"op": "ret", "own": own, "same": gen == x.gen && x.p.CurrentState() == hsms.StateConnectedSelected})
					x.mu.Unlock()
				}()
			default:
				panic("harness: unknown op " + o.Op)
			}
		}
		time.Sleep(400 * time.Millisecond)
		x.mu.Lock()
		x.log(trace.E{"op": "end"})
		x.cut = true
		x.gen++
		out := x.out
		c := x.c
		x.mu.Unlock()
		go x.p.Disable()
		if c != nil {
			time.AfterFunc(100*time.Millisecond, func() { c.Close() })
		}
		return out
	})
}
