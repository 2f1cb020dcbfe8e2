package main

import (
	"encoding/json"
	"io"
	"math/rand"
	"strconv"
	"sync"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/astx"
	"verifharness/trace"
	"verifharness/wire"
)

func init() { subs["pair"] = pairDrv }

// A call of the host.
type pCall struct {
	Fn string
	Ks []string
	K  string
	Es []struct {
		K   string
		Ids []string
	}
	Ups, Ps []struct {
		K   string
		Val []wire.Node
	}
	Ids  []string
	Set  bool
	Body string
	T    string
}
type pOp struct {
	gOp
	Active bool
	Calls  []pCall
	Trig   []string
	At     int
}

func ids(ks []string, r *rand.Rand) []interface{} {
	var out []interface{}
	for _, k := range ks {
		out = append(out, goID(k, r))
	}
	return out
}

func idNodes(id interface{}) []wire.Node {
	switch v := id.(type) {
	case string:
		return wire.A(v).Nodes()
	case uint64:
		return wire.U(8, v).Nodes()
	case int:
		return wire.U(8, uint64(v)).Nodes()
	case int64:
		return wire.U(8, uint64(v)).Nodes()
	}
	return []wire.Node{{T: "?" + idKey(id), V: []string{}}}
}

func valNodes(n ast.ItemNode) []wire.Node {
	if n == nil {
		return []wire.Node{{T: "?nil", V: []string{}}}
	}
	return nodesOf(n)
}

// nodeList is a body under construction.
type nodeList []wire.Node

func (l *nodeList) add(ns ...wire.Node) { *l = append(*l, ns...) }
func (l *nodeList) list(n int)          { l.add(wire.Node{T: "L", N: n, V: []string{}}) }
func (l *nodeList) text(s string)       { l.add(wire.A(s).Nodes()...) }
func (l *nodeList) code(b int)          { l.add(wire.Node{T: "B", N: 1, V: []string{strconv.Itoa(b)}}) }
func (l *nodeList) num(n int)           { l.add(wire.Node{T: "U8", N: 1, V: []string{strconv.Itoa(n)}}) }

func (l *nodeList) report(r gem.EventReport) {
	l.list(3)
	l.num(r.DATAID)
	l.add(idNodes(r.CEID)...)
	l.list(len(r.Reports))
	for _, x := range r.Reports {
		l.list(2)
		l.add(idNodes(x.RPTID)...)
		l.list(len(x.Values))
		for _, v := range x.Values {
			l.add(valNodes(v)...)
		}
	}
}

// goValue is a parameter value for SendRemoteCommand: a Go value where one stands for the item, or the item.
func goValue(ns []wire.Node, r *rand.Rand) interface{} {
	if len(ns) == 0 {
		return nil
	}
	it := wire.FromNodes(ns)
	node := astx.To(it, r)
	if r.Intn(3) == 0 || it.Len() != 1 && it.F != "A" && it.F != "B" {
		return node
	}
	switch it.F {
	case "A":
		return string(it.Raw)
	case "B":
		if len(it.Raw) > 0 {
			return append([]byte(nil), it.Raw...)
		}
	case "BOOL":
		return it.Raw[0] != 0
	case "F4":
		return float32(it.Flts[0])
	case "F8":
		return it.Flts[0]
	case "U1", "U2", "U4", "U8": // arrives in the narrowest format
		if v := it.Uints[0]; wire.UMin(v).F == it.F {
			vs := []interface{}{v, uint(v)}
			if v < 1<<8 {
				vs = append(vs, uint8(v))
			}
			if v < 1<<16 {
				vs = append(vs, uint16(v))
			}
			if v < 1<<32 {
				vs = append(vs, uint32(v))
			}
			return vs[r.Intn(len(vs))]
		}
	case "I1", "I2", "I4", "I8":
		if v := it.Ints[0]; iMin(v) == it.F {
			vs := []interface{}{v, int(v)}
			if v == int64(int8(v)) {
				vs = append(vs, int8(v))
			}
			if v == int64(int16(v)) {
				vs = append(vs, int16(v))
			}
			if v == int64(int32(v)) {
				vs = append(vs, int32(v))
			}
			return vs[r.Intn(len(vs))]
		}
	}
	return node
}

func iMin(v int64) string {
	switch {
	case v == int64(int8(v)):
		return "I1"
	case v == int64(int16(v)):
		return "I2"
	case v == int64(int32(v)):
		return "I4"
	}
	return "I8"
}

// hostCall performs a call of the host and returns what it gave.
func hostCall(h *gem.GemHandler, o *pCall, r *rand.Rand) trace.E {
	var out nodeList
	keys := []string{}
	n, err := -1, error(nil)
	switch o.Fn {
	case "sv":
		var vs []gem.StatusValue
		vs, err = h.RequestStatusVariables(ids(o.Ks, r)...)
		out.list(len(vs))
		for _, v := range vs {
			keys = append(keys, idKey(v.ID))
			out.add(valNodes(v.Value)...)
		}
	case "ec":
		var vs []gem.EquipmentConstantValue
		vs, err = h.RequestEquipmentConstants(ids(o.Ks, r)...)
		out.list(len(vs))
		for _, v := range vs {
			keys = append(keys, idKey(v.ID))
			out.add(valNodes(v.Value)...)
		}
	case "svInfo":
		var vs []gem.StatusVariableInfo
		vs, err = h.RequestStatusVariableInfo(ids(o.Ks, r)...)
		out.list(len(vs))
		for _, v := range vs {
			out.list(3)
			out.add(idNodes(v.ID)...)
			out.text(v.Name)
			out.text(v.Unit)
		}
	case "ecInfo":
		var vs []gem.EquipmentConstantInfo
		vs, err = h.RequestEquipmentConstantInfo(ids(o.Ks, r)...)
		out.list(len(vs))
		for _, v := range vs {
			out.list(6)
			out.add(idNodes(v.ID)...)
			out.text(v.Name)
			for _, x := range []ast.ItemNode{v.Min, v.Max, v.Default} {
				out.add(valNodes(x)...)
			}
			out.text(v.Unit)
		}
	case "setEc":
		us := []gem.EquipmentConstantUpdate{}
		for _, u := range o.Ups {
			x := gem.EquipmentConstantUpdate{ID: goID(u.K, r)}
			if len(u.Val) > 0 {
				x.Value = astx.To(wire.FromNodes(u.Val), r)
			}
			us = append(us, x)
		}
		n, err = h.SendEquipmentConstantValues(us)
	case "defRep":
		var ds []gem.ReportDefinitionRequest
		for _, x := range o.Es {
			ds = append(ds, gem.ReportDefinitionRequest{ReportID: goID(x.K, r), VIDs: ids(x.Ids, r)})
		}
		n, err = h.DefineReports(ds...)
	case "linkRep":
		var ds []gem.EventReportLinkRequest
		for _, x := range o.Es {
			ds = append(ds, gem.EventReportLinkRequest{CEID: goID(x.K, r), ReportIDs: ids(x.Ids, r)})
		}
		n, err = h.LinkEventReports(ds...)
	case "enRep":
		n, err = h.EnableEventReports(o.Set, ids(o.Ks, r)...)
	case "evRep":
		var rep gem.EventReport
		rep, err = h.RequestCollectionEventReport(goID(o.K, r))
		out.report(rep)
	case "cmd":
		var ps []gem.RemoteCommandParameterValue
		for _, p := range o.Ps {
			ps = append(ps, gem.RemoteCommandParameterValue{Name: goID(p.K, r), Value: goValue(p.Val, r)})
		}
		var res gem.RemoteCommandResult
		res, err = h.SendRemoteCommand(goID(o.K, r), ps)
		out.list(2)
		out.code(int(res.HCACK))
		out.list(len(res.ParameterAcks))
		for _, a := range res.ParameterAcks {
			out.list(2)
			out.add(idNodes(a.Name)...)
			out.code(int(a.Ack))
		}
	case "putPP":
		n, err = h.UploadProcessProgram(goID(o.K, r), string(wire.Unesc(o.Body)))
	case "getPP":
		var body string
		body, n, err = h.RequestProcessProgram(goID(o.K, r))
		out.text(body)
	case "time":
		var t string
		t, err = h.RequestDateTime()
		out.text(t)
	case "setTime":
		var b byte
		b, err = h.SetDateTime(o.T)
		n = int(b)
	case "enAl":
		var as []int
		for _, a := range o.Ids {
			v, err := strconv.Atoi(a)
			must(err)
			as = append(as, v)
		}
		var b byte
		b, err = h.SendEnableAlarm(as, o.Set)
		n = int(b)
	case "alList", "alEn":
		var as []gem.AlarmInfo
		if o.Fn == "alList" {
			as, err = h.RequestAlarmList()
		} else {
			as, err = h.RequestEnabledAlarmList()
		}
		out.list(len(as))
		for _, a := range as {
			c := 0
			if a.Set {
				c = 128
			}
			if a.Enabled {
				c += 64
			}
			out.list(3)
			out.code(c)
			out.num(a.ID)
			out.text(a.Text)
		}
	default:
		panic("harness: unknown call " + o.Fn)
	}
	switch o.Fn {
	case "setEc", "defRep", "linkRep", "enRep", "putPP", "setTime", "enAl", "getPP":
		out.code(n)
	}
	if err != nil {
		out, keys = nodeList{}, []string{}
		return trace.E{"err": errClass(err), "res": out, "ids": keys, "text": err.Error()}
	}
	return trace.E{"err": "none", "res": out, "ids": keys, "text": ""}
}

// heard collects the events a host's application gets, as the messages they stand for.
type heard struct {
	mu sync.Mutex
	tx []trace.E
}

func (x *heard) add(s, f int, body nodeList) {
	x.mu.Lock()
	x.tx = append(x.tx, trace.E{"s": s, "f": f, "body": body})
	x.mu.Unlock()
}
func (x *heard) count() int { x.mu.Lock(); defer x.mu.Unlock(); return len(x.tx) }
func (x *heard) take() []trace.E {
	x.mu.Lock()
	defer x.mu.Unlock()
	t := x.tx
	x.tx = nil
	if t == nil {
		t = []trace.E{}
	}
	return t
}
func (x *heard) listen(h *gem.GemHandler) {
	h.Events().AlarmReceived.AddCallback(func(d map[string]interface{}) {
		a, _ := d["alarm"].(gem.AlarmEvent)
		var b nodeList
		b.list(3)
		c := 0
		if a.Set {
			c = 128
		}
		b.code(c)
		b.num(a.ID)
		b.text(a.Text)
		x.add(5, 1, b)
	})
	h.Events().EventReportReceived.AddCallback(func(d map[string]interface{}) {
		r, _ := d["report"].(gem.EventReport)
		var b nodeList
		b.report(r)
		x.add(6, 11, b)
	})
}

func newHost(p *hsms.HsmsProtocol, sess uint16) *gem.GemHandler {
	h, err := gem.NewGemHandler(gem.Options{Protocol: p, DeviceType: gem.DeviceHost, DeviceID: sess, MDLN: "host", SOFTREV: "1", Logging: gem.LoggingOptions{Writer: io.Discard}})
	must(err)
	return h
}

func communicating(h *gem.GemHandler) bool { return h.State() == gem.CommunicationStateCommunicating }

func pairDrv(e *Env) {
	pool(e, 12, func(n int, line []byte) []trace.E {
		var ops []*pOp
		var raw []map[string]interface{}
		must(json.Unmarshal(line, &ops))
		must(json.Unmarshal(line, &raw))
		q := &equip{e: e, r: rand.New(rand.NewSource(e.Seed*7919 + int64(e.Part)*1000 + int64(n))), cbs: []trace.E{}, chg: [][]string{}, hs: []trace.E{},
			sv: map[string]*gem.StatusVariable{}, dv: map[string]*gem.DataVariable{}}
		q.addr, q.port = addrOf(e, n)
		q.sess = []uint16{0, 1, 300, 0x7fff, 0x8001, 0xfffe, uint16(q.r.Intn(65535))}[q.r.Intn(7)]
		q.active = ops[0].Active
		hp := newProto(q.addr, q.port, !q.active, int(q.sess), "host")
		host := newHost(hp, q.sess)
		ev := &heard{}
		ev.listen(host)
		var out []trace.E
		var off []*gem.GemHandler // disabled ones
		for i, o := range ops {
			l := trace.E(raw[i])
			if i == 0 {
				for _, p := range []*hsms.HsmsProtocol{hp} {
					fast(p)
				}
				q.start(&o.gOp)
				off = []*gem.GemHandler{host}
				l["sess"] = int(q.sess)
				out = append(out, l)
				continue
			}
			ob := trace.E{"err": "none", "list": [][]string{}, "now": []string{}}
			t0 := time.Now()
			switch o.Op {
			case "link":
				for _, h := range off {
					h.Enable()
				}
				off = nil
				q.until(30*time.Second, func() bool { return communicating(host) && communicating(q.h) })
			case "cut":
				h := host
				if o.By == "eqp" {
					h = q.h
				}
				h.Disable()
				off = append(off, h)
				q.until(10*time.Second, func() bool { return !communicating(host) && !communicating(q.h) })
			case "call":
				var c pCall
				must(json.Unmarshal(mustJSON(raw[i]), &c))
				ob["r"] = hostCall(host, &c, q.r)
			case "par":
				rs := make([]trace.E, len(o.Calls))
				var wg sync.WaitGroup
				for j := range o.Calls {
					j, r := j, rand.New(rand.NewSource(q.r.Int63()))
					wg.Add(1)
					go func() { defer wg.Done(); rs[j] = hostCall(host, &o.Calls[j], r) }()
				}
				for _, k := range o.Trig {
					id := goID(k, q.r)
					wg.Add(1)
					go func() { defer wg.Done(); q.h.TriggerCollectionEvent(id) }()
				}
				wg.Wait()
				ob["rs"] = rs
			case "api":
				err, list := q.api(&o.gOp)
				ob["err"], ob["list"] = errClass(err), list
			default:
				panic("harness: unknown op " + o.Op)
			}
			for t := t0; !t.After(time.Now().Add(time.Second)); t = t.Add(time.Second) {
				ob["now"] = append(ob["now"].([]string), stamp(t))
			}
			q.until(10*time.Second, func() bool {
				q.mu.Lock()
				n := len(q.chg)
				q.mu.Unlock()
				return n >= o.Nchg && ctl(q.h.ControlState()) == o.Ectl && communicating(q.h) == o.Ecom && ev.count() >= o.Await
			})
			if communicating(host) {
				for j := 0; j < 2; j++ {
					if _, err := hp.SendAndWait(ast.NewDataMessage("", 1, 1, 1, "H->E", ast.NewEmptyItemNode())); err != nil {
						q.late = true
					}
				}
			}
			ob["tx"] = ev.take()
			q.lock(func() {
				ob["cbs"], ob["chg"] = q.cbs, q.chg
				q.cbs, q.chg = []trace.E{}, [][]string{}
			})
			ob["ctl"], ob["com"] = ctl(q.h.ControlState()), communicating(q.h)
			l["obs"] = ob
			out = append(out, l)
			if q.late {
				break
			}
		}
		done := make(chan struct{}, 2)
		go func() { q.h.Disable(); done <- struct{}{} }()
		go func() { host.Disable(); done <- struct{}{} }()
		for i := 0; i < 2; i++ {
			select {
			case <-done:
			case <-time.After(10 * time.Second):
			}
		}
		return out
	})
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	must(err)
	return b
}

// fast makes an endpoint reconnect as soon as it can.
func fast(p *hsms.HsmsProtocol) {
	t := p.Timeouts()
	t.SetT5ConnSeparateTimeout(1)
	t.SetT6ControlTransTimeout(2)
	t.SetReconnectBackoffBase(1)
	t.SetReconnectBackoffMax(1)
	t.SetMaxReconnectAttempts(0)
}
