package main

import (
	"encoding/json"
	"fmt"
	"net"
	"time"

	"github.com/younglifestyle/secs4go/hsms"

	"verifharness/trace"
	"verifharness/wire"
)

func init() { subs["backoff"] = backoffDrv }

type bOp struct {
	Op                   string
	Base, Max, Limit, T5 int
	Auto                 bool
	Ms                   int
	How                  string
}

// backoffDrv: an active endpoint whose peer listens at times.
func backoffDrv(e *Env) {
	lags.start()
	pool(e, 100, func(n int, line []byte) []trace.E {
		var ops []*bOp
		var raw []map[string]interface{}
		must(json.Unmarshal(line, &ops))
		must(json.Unmarshal(line, &raw))
		host, port := addrOf(e, n)
		addr := fmt.Sprintf("%s:%d", host, port)
		start := time.Now()
		ms := func(t time.Time) int { return int(t.Sub(start) / time.Millisecond) }
		var p *hsms.HsmsProtocol
		var c *hconn
		var out []trace.E
		for i, o := range ops {
			l := trace.E(raw[i])
			if o.Op == "lose" && c == nil {
				break // it did not connect: the trace tells
			}
			t0 := time.Now()
			l["con"] = -1
			switch o.Op {
			case "new":
				p = hsms.NewHsmsProtocol(host, port, true, 1, "ep")
				t := p.Timeouts()
				t.SetLinktest(0)
				t.SetT5ConnSeparateTimeout(o.T5)
				t.SetT6ControlTransTimeout(3600)
				t.SetT7NotSelectTimeout(3600)
				t.SetT8NetworkIntercharTimeout(3600)
				t.SetAutoReconnect(o.Auto)
				t.SetMaxReconnectAttempts(o.Limit)
				t.SetReconnectBackoffBase(o.Base)
				t.SetReconnectBackoffMax(o.Max)
			case "enable":
				p.Enable()
			case "disable":
				p.Disable()
				if c != nil {
					c.c.Close()
					c = nil
				}
			case "wait":
				time.Sleep(time.Duration(o.Ms) * time.Millisecond)
			case "listen":
				x := &hsmsX{addr: addr}
				ls := x.listen()
				t0 = time.Now()
				ls.(*net.TCPListener).SetDeadline(t0.Add(time.Duration(o.Ms) * time.Millisecond))
				nc, err := ls.Accept()
				ls.Close()
				if err == nil {
					l["con"] = ms(time.Now()) + 1
					c = x.newConn(nc)
					until(3*time.Second, func() bool { return c.nrx() > 0 || c.isClosed() }) // its select.req: it knows
				}
			case "lose":
				if o.How == "sep" {
					c.write(wire.Ctl(wire.SeparateReq, 1, 0, 0, 1).Bytes())
					until(3*time.Second, c.isClosed)
				}
				if o.How == "rst" {
					c.c.(*net.TCPConn).SetLinger(0)
				}
				c.c.Close()
				c = nil
				until(3*time.Second, func() bool { return !p.Connected() })
			default:
				panic("harness: unknown op " + o.Op)
			}
			l["t0"], l["t1"], l["lag"], l["link"] = ms(t0), ms(time.Now())+1, lags.since(t0), c != nil
			if l["lag"].(int) > 150 {
				break // too uncertain to judge
			}
			out = append(out, l)
		}
		go p.Disable()
		if c != nil {
			c.c.Close()
		}
		return out
	})
}
