package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/peer"
	"verifharness/trace"
	"verifharness/wire"
)

func init() { subs["comm"] = commDrv }

type mOp struct {
	Op           string
	Host, Active bool
	T3, Delay    int
	Ms, Kind     int
	Ack          int
	How, With    string
	Tick         bool
	Q            []string
}

// commX is one handler and its scripted other side. Everything that happens is
// logged under mu with the time since start in ms.
type commX struct {
	mu    sync.Mutex
	start time.Time
	log   []trace.E
	cfg   *mOp
	h     *gem.GemHandler
	p     *hsms.HsmsProtocol
	addr  string
	sess  uint16
	c     *peer.Peer // the present connection
	up    bool       // its session is selected
	q     []string   // how to react to the next S1F13s; the last stays
	ids   int
	wg    sync.WaitGroup // reactions
	sel   chan struct{}
	en    time.Time // when it was enabled
}

func (x *commX) now() int { return int(time.Since(x.start) / time.Millisecond) }

// add logs; mu is held.
func (x *commX) add(k string, kv ...interface{}) {
	l := trace.E{"k": k, "t": x.now()}
	for i := 0; i+1 < len(kv); i += 2 {
		l[kv[i].(string)] = kv[i+1]
	}
	x.log = append(x.log, l)
}

func (x *commX) locked(f func()) {
	x.mu.Lock()
	defer x.mu.Unlock()
	f()
}

func (x *commX) s1f14(ack byte) *wire.Item {
	if x.cfg.Host {
		return wire.L(wire.B(ack), wire.L(wire.A("mdl"), wire.A("rev")))
	}
	return wire.L(wire.B(ack), wire.L())
}

func (x *commX) s1f13() *wire.Item {
	if x.cfg.Host {
		return wire.L(wire.A("mdl"), wire.A("rev"))
	}
	return wire.L()
}

// down ends the session, if p is the present one; mu is held.
func (x *commX) down(p *peer.Peer) bool {
	if x.c != p || !x.up {
		return false
	}
	x.up = false
	x.add("down")
	return true
}

func (x *commX) auto(p *peer.Peer, m *wire.Msg) bool {
	switch {
	case m.SType == wire.SelectReq:
		x.locked(func() {
			x.c, x.up = p, true
			x.add("up")
			p.Send(wire.Ctl(wire.SelectRsp, m.Session, 0, 0, m.Sys))
		})
		x.sel <- struct{}{}
	case m.SType == wire.DeselectReq:
		x.locked(func() { x.down(p) })
		p.Send(wire.Ctl(wire.DeselectRsp, m.Session, 0, 0, m.Sys))
	case m.SType == wire.SeparateReq:
		x.locked(func() { x.down(p) })
	case m.SType != wire.Data || m.Stream() == 9:
	case m.Stream() == 1 && m.Function() == 13:
		var how string
		id := 0
		x.locked(func() {
			if len(x.q) == 0 {
				x.q = []string{"ignore"}
			}
			how = x.q[0]
			if len(x.q) > 1 {
				x.q = x.q[1:]
			}
			x.ids++
			id = x.ids
			x.add("s13", "id", id, "how", how)
		})
		x.wg.Add(1)
		go x.react(p, m, how, id)
	case m.Stream() == 1 && m.Function() == 1:
		p.Send(wire.SF(x.sess, 1, 2, false, m.Sys, x.s1f13()))
	default:
		x.locked(func() { x.add("oth", "s", m.Stream(), "f", m.Function()) })
		if m.Wait() {
			p.Send(wire.SF(x.sess, m.Stream(), m.Function()+1, false, m.Sys, wire.L()))
		}
	}
	return true
}

// react answers an S1F13.
func (x *commX) react(p *peer.Peer, m *wire.Msg, how string, id int) {
	defer x.wg.Done()
	t3 := time.Duration(x.cfg.T3) * time.Millisecond
	answer := func(ack int, r *wire.Msg) {
		x.locked(func() {
			if x.c == p && x.up {
				x.add("ans", "id", id, "ack", ack)
				p.Send(r)
			}
		})
	}
	s1f14 := func(ack byte) { answer(int(ack), wire.SF(x.sess, 1, 14, false, m.Sys, x.s1f14(ack))) }
	switch how {
	case "accept":
		s1f14(0)
	case "refuse":
		s1f14([]byte{1, 2, 64, 255}[id%4])
	case "abort":
		answer(-1, wire.SF(x.sess, 1, 0, false, m.Sys, nil))
	case "other":
		// not an S1F14, whatever it holds
		answer(-1, wire.SF(x.sess, 2, 42, false, m.Sys, wire.L(wire.B(0), wire.L())))
	case "bad":
		it := []*wire.Item{nil, wire.L(), wire.B(0), wire.L(wire.B(), wire.L()), wire.L(wire.L(), wire.B(0)), wire.L(wire.A("0"), wire.L())}[id%6]
		answer(-1, wire.SF(x.sess, 1, 14, false, m.Sys, it))
	case "slow":
		time.Sleep(300 * time.Millisecond)
		s1f14(0)
	case "slowrefuse":
		time.Sleep(400 * time.Millisecond)
		s1f14(1)
	case "late":
		time.Sleep(t3 + 350*time.Millisecond)
		s1f14(0)
	case "laterefuse":
		time.Sleep(t3 + 350*time.Millisecond)
		s1f14(1)
	case "crossrefuse":
		x.s13(p)
		time.Sleep(50 * time.Millisecond)
		s1f14(1)
	case "crossignore":
		x.s13(p)
	case "drop":
		x.locked(func() { x.down(p) })
		p.Close(false)
	}
}

// s13 sends the peer's own S1F13 and waits for its answer.
func (x *commX) s13(p *peer.Peer) {
	ok := false
	m := wire.SF(x.sess, 1, 13, true, p.NextSys(), x.s1f13())
	x.locked(func() {
		if x.c == p && x.up {
			ok = true
			x.add("p13")
		}
	})
	if !ok {
		return
	}
	r, err := p.Req(m, 2*time.Second)
	if err != nil {
		return
	}
	ack := -2
	if it, err := r.Item(); err == nil && r.Stream() == 1 && r.Function() == 14 && it != nil && len(it.Items) == 2 && it.Items[0].F == "B" && len(it.Items[0].Raw) == 1 {
		ack = int(it.Items[0].Raw[0])
		if n := len(it.Items[1].Items); n != 2 && !x.cfg.Host || it.Items[1].F != "L" {
			ack = -3
		}
	}
	x.locked(func() { x.add("p14", "ack", ack) })
}

// uns sends an S1F14 nobody asked for.
func (x *commX) uns(p *peer.Peer, ack int) {
	x.locked(func() {
		if p != nil && x.c == p && x.up {
			x.add("uns", "ack", ack)
			p.Send(wire.SF(x.sess, 1, 14, false, p.NextSys(), x.s1f14(byte(ack))))
		}
	})
}

// connect brings a session up.
func (x *commX) connect() {
	if x.c != nil && !x.alive() {
		x.c = nil
	}
	if x.c == nil && x.cfg.Active {
		ls := (&hsmsX{addr: fmt.Sprintf("%s:%d", x.addr, port)}).listen()
		ls.(*net.TCPListener).SetDeadline(time.Now().Add(8 * time.Second))
		nc, err := ls.Accept()
		ls.Close()
		if err != nil {
			return
		}
		peer.New(nc, x.sess, x.auto)
		select {
		case <-x.sel:
		case <-time.After(4 * time.Second):
		}
		return
	}
	p := x.c
	if p == nil {
		var err error
		if p, err = peer.Dial(fmt.Sprintf("%s:%d", x.addr, port), 4*time.Second, x.sess, x.auto); err != nil {
			return
		}
	}
	x.locked(func() {
		x.c, x.up = p, true
		x.add("up")
	})
	if err := p.Select(3 * time.Second); err != nil {
		x.locked(func() {
			x.down(p)
			x.c = nil
		})
		p.Close(false)
	}
}

func (x *commX) alive() bool {
	select {
	case <-x.c.Closed:
		return false
	default:
		return true
	}
}

func (x *commX) sample() {
	x.locked(func() { x.add("st", "s", fmt.Sprint(commName(x.h.State()))) })
}

func commName(s gem.CommunicationState) string {
	switch s {
	case gem.CommunicationStateDisabled:
		return "DISABLED"
	case gem.CommunicationStateCommunicating:
		return "COMMUNICATING"
	}
	return "NOT"
}

func (x *commX) call(kind int) error {
	h := x.h
	var err error
	if !x.cfg.Host {
		if kind%2 == 0 {
			return h.RaiseAlarm(1, kind%4 == 0)
		}
		return h.TriggerCollectionEvent(1)
	}
	switch kind {
	case 0:
		_, err = h.RequestStatusVariables(1)
	case 1:
		_, err = h.RequestStatusVariableInfo()
	case 2:
		_, err = h.RequestEquipmentConstants(1)
	case 3:
		_, err = h.RequestEquipmentConstantInfo()
	case 4:
		_, err = h.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: 1, Value: ast.NewUintNode(4, 1)}})
	case 5:
		_, err = h.DefineReports(gem.ReportDefinitionRequest{ReportID: 1, VIDs: []interface{}{1}})
	case 6:
		_, err = h.LinkEventReports(gem.EventReportLinkRequest{CEID: 1, ReportIDs: []interface{}{1}})
	case 7:
		_, err = h.EnableEventReports(true, 1)
	case 8:
		_, err = h.RequestCollectionEventReport(1)
	case 9:
		_, err = h.SendRemoteCommand("X", nil)
	case 10:
		_, err = h.UploadProcessProgram("a", "b")
	case 11:
		_, _, err = h.RequestProcessProgram("a")
	case 12:
		_, err = h.RequestDateTime()
	case 13:
		_, err = h.SendEnableAlarm([]int{1}, true)
	case 14:
		_, err = h.RequestAlarmList()
	default:
		_, err = h.RequestEnabledAlarmList()
	}
	return err
}

// tick is how often a handler looks at its session
const tick = 500 * time.Millisecond

var port int

func commDrv(e *Env) {
	lags.start()
	_, port = addrOf(e, 0)
	pool(e, 60, func(n int, line []byte) []trace.E {
		var ops []*mOp
		var raw []map[string]interface{}
		must(json.Unmarshal(line, &ops))
		must(json.Unmarshal(line, &raw))
		x := &commX{cfg: ops[0], start: time.Now(), sess: uint16(n), sel: make(chan struct{}, 1000)}
		x.addr, _ = addrOf(e, n)
		x.p = newProto(x.addr, port, x.cfg.Active, n, "h")
		t := x.p.Timeouts()
		t.SetT3ReplyTimeout(x.cfg.T3 / 1000)
		t.SetT5ConnSeparateTimeout(1)
		t.SetT6ControlTransTimeout(2)
		t.SetT7NotSelectTimeout(3600)
		t.SetReconnectBackoffBase(1)
		t.SetReconnectBackoffMax(1)
		t.SetMaxReconnectAttempts(0)
		o := gem.Options{Protocol: x.p, DeviceType: gem.DeviceEquipment, DeviceID: x.sess, MDLN: "m", SOFTREV: "r",
			EstablishCommunicationWait: time.Duration(x.cfg.Delay) * time.Millisecond, Logging: gem.LoggingOptions{Writer: io.Discard}}
		if x.cfg.Host {
			o.DeviceType = gem.DeviceHost
		}
		var err error
		x.h, err = gem.NewGemHandler(o)
		must(err)
		if !x.cfg.Host {
			x.h.RegisterAlarm(gem.Alarm{ID: 1, Text: "a"})
			ce, err := gem.NewCollectionEvent(1, "ce")
			must(err)
			must(x.h.RegisterCollectionEvent(ce))
		}
		x.h.Events().HandlerCommunicating.AddCallback(func(map[string]interface{}) { x.locked(func() { x.add("ev") }) })
		out := []trace.E{trace.E(raw[0])}
		want := false
		for i, o := range ops[1:] {
			switch o.Op {
			case "up":
				want = true
			case "down", "disable":
				want = false
			case "p13", "uns", "react":
				if want && !x.up { // the peer dropped the connection before
					x.connect()
				}
			}
			switch o.Op {
			case "enable":
				x.locked(func() { x.add("en") })
				x.en = time.Now()
				x.h.Enable()
			case "disable":
				x.locked(func() { x.add("dis") })
				if p, with := x.c, o.With; p != nil && with != "" {
					ms := 250
					if !x.cfg.Active {
						ms = 2
					}
					d := time.Duration(rand.Intn(ms*1000)) * time.Microsecond
					x.wg.Add(1)
					go func() {
						defer x.wg.Done()
						time.Sleep(d)
						if with == "uns" {
							x.uns(p, 0)
						} else {
							x.s13(p)
						}
					}()
				}
				x.h.Disable()
				x.locked(func() {
					x.up = false
					x.add("disd")
				})
				if x.c != nil {
					x.c.Close(false)
					x.c = nil
				}
			case "up":
				if !x.up {
					x.connect()
				}
			case "down":
				p := x.c
				if p == nil || !x.up {
					break
				}
				x.locked(func() { x.down(p) })
				switch o.How {
				case "deselect":
					p.Req(wire.Ctl(wire.DeselectReq, x.sess, 0, 0, p.NextSys()), 3*time.Second)
				case "sep":
					p.Send(wire.Ctl(wire.SeparateReq, x.sess, 0, 0, p.NextSys()))
					p.Gone(3 * time.Second)
					p.Close(false)
					x.c = nil
				default:
					p.Close(o.How == "rst")
					x.c = nil
				}
			case "react":
				x.locked(func() { x.q = o.Q })
			case "wait":
				for end := time.Now().Add(time.Duration(o.Ms) * time.Millisecond); ; {
					d := time.Until(end)
					if d <= 0 {
						break
					}
					if d > 120*time.Millisecond {
						d = 120 * time.Millisecond
					}
					time.Sleep(d)
					x.sample()
				}
			case "p13":
				if o.Tick { // just when it looks at the session
					d := time.Since(x.en)%tick + time.Duration(rand.Intn(6000)-3000)*time.Microsecond
					time.Sleep(tick - d)
				}
				if x.c != nil {
					x.s13(x.c)
				}
			case "uns":
				x.uns(x.c, o.Ack)
			case "waitcomm":
				id := i
				x.locked(func() { x.add("w0", "id", id, "ms", o.Ms) })
				go func() {
					res := x.h.WaitForCommunicating(time.Duration(o.Ms) * time.Millisecond)
					x.locked(func() { x.add("w1", "id", id, "res", res) })
				}()
			case "call":
				x.locked(func() { x.add("c0", "id", i) })
				err := x.call(o.Kind)
				x.locked(func() { x.add("c1", "id", i, "nc", errors.Is(err, gem.ErrNotCommunicating)) })
			default:
				panic("harness: unknown op " + o.Op)
			}
			time.Sleep(20 * time.Millisecond)
			x.sample()
			l := trace.E(raw[i+1])
			lag := lags.since(x.start)
			x.locked(func() {
				l["log"], l["t1"], l["lag"] = x.log, x.now(), lag
				x.log = []trace.E{}
			})
			if lag > 150 {
				break // too uncertain to judge
			}
			out = append(out, l)
		}
		go x.h.Disable()
		if x.c != nil {
			x.c.Close(false)
		}
		return out
	})
}
