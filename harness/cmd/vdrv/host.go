package main

import (
	"encoding/json"
	"math/rand"
	"sync"
	"time"

	"verifharness/peer"
	"verifharness/trace"
	"verifharness/wire"
)

func init() { subs["host"] = hostDrv }

type hOp2 struct {
	pCall
	Op      string
	S, F, W int
	Nodes   []wire.Node
	Rp      struct {
		How   string
		Nodes []wire.Node
	}
}

// hostDrv plays the equipment's part to a real host.
func hostDrv(e *Env) {
	pool(e, 16, func(n int, line []byte) []trace.E {
		var ops []*hOp2
		var raw []map[string]interface{}
		must(json.Unmarshal(line, &ops))
		must(json.Unmarshal(line, &raw))
		r := rand.New(rand.NewSource(e.Seed*7919 + int64(e.Part)*1000 + int64(n)))
		addr, port := addrOf(e, n)
		sess := []uint16{0, 1, 300, 0x7fff, 0x8001, 0xfffe, uint16(r.Intn(65535))}[r.Intn(7)]
		hp := newProto(addr, port, false, int(sess), "host")
		hp.Timeouts().SetT3ReplyTimeout(3)
		h := newHost(hp, sess)
		ev := &heard{}
		ev.listen(h)
		reqs := make(chan *wire.Msg, 100)
		auto := func(p *peer.Peer, m *wire.Msg) bool {
			switch {
			case m.SType != wire.Data:
				return false
			case m.Stream() == 1 && m.Function() == 13:
				p.Send(wire.SF(sess, 1, 14, false, m.Sys, wire.L(wire.B(0), wire.L(wire.A("m"), wire.A("r")))))
			case m.Wait() && m.Function()%2 == 1:
				reqs <- m
			case m.Stream() == 9 && m.Function() == 9:
			default:
				return false
			}
			return true
		}
		h.Enable()
		q := &equip{addr: addr, port: port, sess: sess, auto2: auto}
		q.sel()
		if q.p == nil || !until(20*time.Second, func() bool { return communicating(h) }) {
			return []trace.E{{"op": "new", "sess": int(sess)}, {"op": "not communicating"}}
		}
		q.p.Barrier(10 * time.Second)
		var out []trace.E
		for i, o := range ops {
			l := trace.E(raw[i])
			out = append(out, l)
			if i == 0 {
				l["sess"] = int(sess)
				continue
			}
			ob := trace.E{}
			switch o.Op {
			case "call":
				res := make(chan trace.E, 1)
				go func() { res <- hostCall(h, &o.pCall, r) }()
				got := []trace.E{}
				for done := false; !done; {
					select {
					case m := <-reqs:
						got = append(got, msgObs(m))
						answer(q.p, sess, m, o)
					case x := <-res:
						ob["r"] = x
						done = true
					}
				}
				ob["req"] = got
			case "uns":
				q.p.Send(wire.SF(sess, o.S, o.F, o.W == 1, q.p.NextSys(), wire.FromNodes(o.Nodes)))
				until(300*time.Millisecond, func() bool { return ev.count() > 0 && q.p.Count(q.isData) >= o.W })
			case "ask":
				q.p.Send(wire.SF(sess, 1, 1, true, q.p.NextSys(), nil))
			default:
				panic("harness: unknown op " + o.Op)
			}
			q.p.Barrier(10 * time.Second)
			ob["tx"] = ev.take()
			rep := []trace.E{}
			for _, x := range q.p.Take() {
				t := msgObs(x.M)
				delete(t, "k")
				if x.M.SType != wire.Data {
					t["s"] = -int(x.M.SType)
				}
				rep = append(rep, t)
			}
			ob["rep"] = rep
			l["obs"] = ob
		}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { h.Disable(); wg.Done() }()
		q.p.Close(false)
		wg.Wait()
		return out
	})
}

// answer answers the request m as the operation says.
func answer(p *peer.Peer, sess uint16, m *wire.Msg, o *hOp2) {
	s, f, body := m.Stream(), m.Function()+1, wire.FromNodes(o.Rp.Nodes)
	switch o.Rp.How {
	case "ok":
	case "stream":
		if s = s + 1; s == 9 {
			s = 10
		}
	case "function":
		f += 2
	case "zero":
		f = 0
		if len(o.Rp.Nodes) == 1 {
			body = nil
		}
	case "swap":
		s, f = s+2, f+2
	case "reject":
		p.Send(wire.Ctl(wire.RejectReq, sess, 0, 4, m.Sys))
		return
	case "none":
		return
	default:
		panic("harness: unknown answer " + o.Rp.How)
	}
	p.Send(wire.SF(sess, s, f, false, m.Sys, body))
}
