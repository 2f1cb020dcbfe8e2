package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/astx"
	"verifharness/peer"
	"verifharness/trace"
	"verifharness/wire"
)

func init() { subs["gem"] = gemDrv }

type gVar struct {
	K, Name, Unit string
	Val           []wire.Node
}
type gEc struct {
	K, Name, Unit      string
	Min, Max, Def, Val []wire.Node
	Rule               string
}
type gAlarm struct {
	ID, Text string
	Rank     int
	Set, En  bool
}
type gHandlers struct {
	Cmd struct {
		K     string
		Hcack int
		Acks  []struct {
			ID  string
			Ack int
		}
		Err bool
	}
	Up struct {
		K   string
		Ack int
	}
	Ppr struct {
		K    string
		Ack  int
		Body string
		N    int
	}
	Clk struct {
		K    string
		Code int
		Err  bool
	}
}
type gOp struct {
	Op, Init, Mode, Mdln, Rev  string
	T3                         int
	Sv, Dv                     []gVar
	Ec                         []gEc
	Ce                         []string
	Al                         json.RawMessage
	S, F, W                    int
	Nodes                      []wire.Node
	S1f1, By, How, Kind, Fn    string
	K, ID, Body, T, Name, Unit string
	Set                        bool
	Ks                         []string
	Val                        []wire.Node
	H                          gHandlers
	Ms, Await, Nchg            int
	Ectl                       string
	Ecom                       bool
}

var ctlCode = map[gem.ControlState]string{gem.ControlStateEquipmentOffline: "EO", gem.ControlStateAttemptOnline: "AO", gem.ControlStateHostOffline: "HO",
	gem.ControlStateOnlineLocal: "OL", gem.ControlStateOnlineRemote: "OR"}

func ctl(s gem.ControlState) string {
	if c, ok := ctlCode[s]; ok {
		return c
	}
	return fmt.Sprint(s)
}

// goID is an identifier for a key, in a random Go type.
func goID(k string, r *rand.Rand) interface{} {
	if strings.HasPrefix(k, "S:") {
		return k[2:]
	}
	v, err := strconv.ParseUint(k[2:], 10, 64)
	if err != nil {
		panic(err)
	}
	switch n := r.Intn(10); {
	case n == 0 && v < 256:
		return uint8(v)
	case n == 1 && v < 65536:
		return uint16(v)
	case n <= 2 && v < 1<<32:
		return uint32(v)
	case n == 3:
		return uint(v)
	case n == 4 && v < 128:
		return int8(v)
	case n == 5 && v < 32768:
		return int16(v)
	case n == 6 && v < 1<<31:
		return int32(v)
	case n == 7 && v < 1<<63:
		return int64(v)
	case n == 8:
		return uint64(v)
	}
	if v < 1<<63 {
		return int(v)
	}
	return v
}

func idKey(id interface{}) string {
	switch v := id.(type) {
	case string:
		return "S:" + wire.Esc([]byte(v))
	case nil:
		return "nil"
	}
	return fmt.Sprintf("N:%v", id)
}

func nodesOf(n ast.ItemNode) []wire.Node {
	it, err := astx.From(n)
	if err != nil {
		return []wire.Node{{T: "?" + err.Error(), V: []string{}}}
	}
	return it.Nodes()
}

// equip is one equipment under test and its scripted host.
type equip struct {
	e      *Env
	r      *rand.Rand
	addr   string
	port   int
	sess   uint16
	active bool
	auto2  func(*peer.Peer, *wire.Msg) bool // instead of auto
	proto  *hsms.HsmsProtocol
	h      *gem.GemHandler
	p      *peer.Peer
	t3     int

	mu      sync.Mutex
	accept  bool   // answer S1F13 with 0
	late    bool   // something expected did not happen in time
	s1f1    string // how to answer S1F1
	held    *wire.Msg
	heldAt  time.Time
	cbs     []trace.E
	chg     [][]string
	hs      []trace.E
	sv      map[string]*gem.StatusVariable
	dv      map[string]*gem.DataVariable
	lines   []trace.E
	timeTxt string
}

func (q *equip) lock(f func()) { q.mu.Lock(); f(); q.mu.Unlock() }

func (q *equip) auto(p *peer.Peer, m *wire.Msg) bool {
	if m.SType != wire.Data {
		return m.SType != wire.RejectReq // stray control messages are not this check's business
	}
	switch {
	case m.Stream() == 1 && m.Function() == 13:
		q.mu.Lock()
		ok := q.accept
		q.hs = append(q.hs, msgObs(m))
		q.mu.Unlock()
		ack := byte(1)
		if ok {
			ack = 0
		}
		p.Send(wire.SF(q.sess, 1, 14, false, m.Sys, wire.L(wire.B(ack), wire.L())))
	case m.Stream() == 1 && m.Function() == 1:
		q.mu.Lock()
		how := q.s1f1
		q.hs = append(q.hs, msgObs(m))
		if how == "hold" {
			q.held = m
			if q.heldAt.IsZero() {
				q.heldAt = time.Now()
			}
		}
		fail := q.r.Intn(4)
		q.mu.Unlock()
		switch how {
		case "ok":
			q.answerS1F1(p, m, "ok", fail)
		case "fail":
			q.answerS1F1(p, m, "fail", fail)
		}
	case m.Stream() == 9 && m.Function() == 9:
	default:
		return false
	}
	return true
}

func (q *equip) answerS1F1(p *peer.Peer, m *wire.Msg, how string, k int) {
	if how == "ok" {
		p.Send(wire.SF(q.sess, 1, 2, false, m.Sys, wire.L()))
		return
	}
	switch k { // anything but S1F2
	case 0:
		p.Send(wire.SF(q.sess, 1, 0, false, m.Sys, nil))
	case 1:
		p.Send(wire.SF(q.sess, 1, 4, false, m.Sys, wire.L()))
	case 2:
		p.Send(wire.SF(q.sess, 2, 2, false, m.Sys, nil))
	default:
		p.Send(wire.Ctl(wire.RejectReq, q.sess, 0, 4, m.Sys))
	}
}

func msgObs(m *wire.Msg) trace.E {
	it, err := m.Item()
	ns := it.Nodes()
	if err != nil {
		ns = []wire.Node{{T: "?", N: 0, V: []string{err.Error()}}}
	}
	w := 0
	if m.Wait() {
		w = 1
	}
	return trace.E{"k": "rep", "s": m.Stream(), "f": m.Function(), "w": w, "sess": int(m.Session), "body": ns}
}

func (q *equip) cb(k, id, a string, ps []trace.E) {
	if ps == nil {
		ps = []trace.E{}
	}
	q.lock(func() { q.cbs = append(q.cbs, trace.E{"k": k, "id": id, "a": a, "ps": ps}) })
}

var errApp = errors.New("application error")

func (q *equip) valNode(ns []wire.Node) ast.ItemNode {
	if len(ns) == 0 {
		return nil
	}
	return astx.To(wire.FromNodes(ns), q.r)
}

func (q *equip) newSV(v gVar) (*gem.StatusVariable, error) {
	n := q.valNode(v.Val)
	switch {
	case n == nil && q.r.Intn(2) == 0:
		return gem.NewStatusVariable(goID(v.K, q.r), v.Name, v.Unit, gem.WithStatusValueProvider(func() (ast.ItemNode, error) { return nil, errApp }))
	case n == nil:
		return gem.NewStatusVariable(goID(v.K, q.r), v.Name, v.Unit)
	case q.r.Intn(2) == 0:
		return gem.NewStatusVariable(goID(v.K, q.r), v.Name, v.Unit, gem.WithStatusValueProvider(func() (ast.ItemNode, error) { return n, nil }))
	}
	return gem.NewStatusVariable(goID(v.K, q.r), v.Name, v.Unit, gem.WithStatusValue(n))
}

func (q *equip) setSV(v *gem.StatusVariable, n ast.ItemNode) {
	if q.r.Intn(2) == 0 {
		v.SetValueProvider(nil)
		v.SetValue(n)
		return
	}
	if n == nil {
		v.SetValueProvider(func() (ast.ItemNode, error) { return nil, errApp })
	} else {
		v.SetValueProvider(func() (ast.ItemNode, error) { return n, nil })
	}
	if q.r.Intn(2) == 0 { // while there is a provider it has no effect
		v.SetValue(ast.NewASCIINode("stale"))
	}
}
func (q *equip) setDV(v *gem.DataVariable, n ast.ItemNode) {
	if q.r.Intn(2) == 0 {
		v.SetValueProvider(nil)
		v.SetValue(n)
		return
	}
	if n == nil {
		v.SetValueProvider(func() (ast.ItemNode, error) { return nil, errApp })
	} else {
		v.SetValueProvider(func() (ast.ItemNode, error) { return n, nil })
	}
	if q.r.Intn(2) == 0 { // while there is a provider it has no effect
		v.SetValue(ast.NewASCIINode("stale"))
	}
}

func (q *equip) newEC(c gEc) (*gem.EquipmentConstant, error) {
	opts := []gem.EquipmentConstantOption{gem.WithEquipmentConstantUnit(c.Unit)}
	if n := q.valNode(c.Min); n != nil {
		opts = append(opts, gem.WithEquipmentConstantMin(n))
	}
	if n := q.valNode(c.Max); n != nil {
		opts = append(opts, gem.WithEquipmentConstantMax(n))
	}
	def := q.valNode(c.Def)
	switch c.Rule {
	case "none":
		opts = append(opts, gem.WithEquipmentConstantValidator(func(ast.ItemNode) error { return errApp }))
	case "text":
		opts = append(opts, gem.WithEquipmentConstantValidator(func(n ast.ItemNode) error {
			if n.Type() != "ascii" {
				return errApp
			}
			return nil
		}))
	case "num":
		opts = append(opts, gem.WithEquipmentConstantValidator(func(n ast.ItemNode) error {
			if it, err := astx.From(n); err != nil || it.F[0] != 'U' || it.Len() != 1 {
				return errApp
			}
			return nil
		}))
	case "upd": // stored by the handler, and forwarded
		opts = append(opts, gem.WithEquipmentConstantValueUpdater(func(n ast.ItemNode) error {
			if it, err := astx.From(n); err != nil || it == nil || it.F[0] == 'U' && it.Len() == 1 {
				return errApp
			}
			return nil
		}))
	case "ext", "exttext":
		var mu sync.Mutex
		cur := def
		opts = append(opts, gem.WithEquipmentConstantValueProvider(func() (ast.ItemNode, error) { mu.Lock(); defer mu.Unlock(); return cur, nil }),
			gem.WithEquipmentConstantValueUpdater(func(n ast.ItemNode) error {
				mu.Lock()
				defer mu.Unlock()
				if c.Rule == "exttext" && n.Type() != "ascii" && n != def {
					return errApp
				}
				cur = n
				return nil
			}))
	}
	return gem.NewEquipmentConstant(goID(c.K, q.r), c.Name, def, opts...)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func newProto(addr string, port int, active bool, sess int, name string) *hsms.HsmsProtocol {
	p := hsms.NewHsmsProtocol(addr, port, active, sess, name)
	t := p.Timeouts()
	t.SetLinktest(0)
	t.SetT7NotSelectTimeout(60)
	t.SetT8NetworkIntercharTimeout(300)
	return p
}

// start creates, populates and enables the equipment of a "new" operation.
func (q *equip) start(o *gOp) {
	q.proto = newProto(q.addr, q.port, q.active, int(q.sess), "eq")
	if q.active {
		fast(q.proto)
	}
	q.proto.Timeouts().SetT3ReplyTimeout(o.T3)
	q.t3 = o.T3
	opt := gem.Options{Protocol: q.proto, DeviceType: gem.DeviceEquipment, DeviceID: q.sess, MDLN: o.Mdln, SOFTREV: o.Rev,
		Logging: gem.LoggingOptions{Writer: io.Discard}}
	switch o.Init {
	case "EO":
		opt.InitialControlState = gem.ControlStateEquipmentOffline
	case "HO":
		opt.InitialControlState = gem.ControlStateHostOffline
	case "AO":
		opt.InitialControlState = gem.ControlStateAttemptOnline
	case "ON":
		opt.InitialControlState = gem.ControlStateOnline
	}
	opt.InitialOnlineMode = gem.OnlineModeRemote
	if o.Mode == "LOCAL" {
		opt.InitialOnlineMode = gem.OnlineModeLocal
	}
	h, err := gem.NewGemHandler(opt)
	must(err)
	q.h = h
	for _, v := range o.Sv {
		sv, err := q.newSV(v)
		must(err)
		must(h.RegisterStatusVariable(sv))
		q.sv[v.K] = sv
	}
	for _, v := range o.Dv {
		n := q.valNode(v.Val)
		var opts []gem.DataVariableOption
		if n != nil {
			if q.r.Intn(2) == 0 {
				opts = append(opts, gem.WithDataValue(n))
			} else {
				opts = append(opts, gem.WithDataValueProvider(func() (ast.ItemNode, error) { return n, nil }))
			}
		}
		dv, err := gem.NewDataVariable(goID(v.K, q.r), v.Name, opts...)
		must(err)
		must(h.RegisterDataVariable(dv))
		q.dv[v.K] = dv
	}
	for _, c := range o.Ec {
		ec, err := q.newEC(c)
		must(err)
		must(h.RegisterEquipmentConstant(ec))
	}
	for _, k := range o.Ce {
		ce, err := gem.NewCollectionEvent(goID(k, q.r), "ev")
		must(err)
		must(h.RegisterCollectionEvent(ce))
	}
	var al []gAlarm
	must(json.Unmarshal(o.Al, &al))
	for _, a := range al {
		q.regAlarm(a)
	}
	h.Events().ControlStateChanged.AddCallback(func(d map[string]interface{}) {
		pr, _ := d["previous"].(gem.ControlState)
		cu, _ := d["current"].(gem.ControlState)
		q.lock(func() { q.chg = append(q.chg, []string{ctl(pr), ctl(cu)}) })
	})
	h.Enable()
}

func (q *equip) regAlarm(a gAlarm) {
	id, err := strconv.Atoi(a.ID)
	must(err)
	q.h.RegisterAlarm(gem.Alarm{ID: id, Text: a.Text, Set: a.Set, Enabled: q.r.Intn(2) == 0})
}

// until polls for a condition.
func until(within time.Duration, f func() bool) bool {
	end := time.Now().Add(within)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
	return true
}

func (q *equip) sel() {
	if q.p != nil {
		select {
		case <-q.p.Closed:
		default:
			if q.p.Select(10*time.Second) == nil {
				return
			}
			q.p.Close(false)
		}
	}
	auto := q.auto
	if q.auto2 != nil {
		auto = q.auto2
	}
	end := time.Now().Add(20 * time.Second)
	for {
		p, err := peer.Dial(q.addr+":"+strconv.Itoa(q.port), 20*time.Second, q.sess, auto)
		if err == nil {
			if err = p.Select(5 * time.Second); err == nil {
				q.p = p
				return
			}
			p.Close(false)
		}
		if time.Now().After(end) {
			q.p = p
			return // the trace will show it
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func (q *equip) isData(m *wire.Msg) bool { return m.SType == wire.Data }

func errClass(err error) string {
	switch {
	case err == nil:
		return "none"
	case errors.Is(err, gem.ErrNotCommunicating):
		return "notcomm"
	}
	return "err"
}

func stamp(t time.Time) string { return t.Format("20060102150405") + "00" }

func (q *equip) api(o *gOp) (err error, list [][]string) {
	h := q.h
	list = [][]string{}
	switch o.Fn {
	case "swOn":
		err = h.SwitchControlOnline()
	case "swOff":
		err = h.SwitchControlOffline()
	case "swLocal":
		err = h.SwitchControlOnlineLocal()
	case "swRemote":
		err = h.SwitchControlOnlineRemote()
	case "raise":
		id, _ := strconv.Atoi(o.ID)
		if !o.Set && q.r.Intn(2) == 0 {
			err = h.ClearAlarm(id)
		} else {
			err = h.RaiseAlarm(id, o.Set)
		}
	case "enAlarm":
		id, _ := strconv.Atoi(o.ID)
		if o.Set {
			err = h.EnableAlarm(id)
		} else {
			err = h.DisableAlarm(id)
		}
	case "regAlarm":
		var a gAlarm
		must(json.Unmarshal(o.Al, &a))
		q.regAlarm(a)
	case "trigger":
		var ids []interface{}
		for _, k := range o.Ks {
			ids = append(ids, goID(k, q.r))
		}
		err = h.TriggerCollectionEvent(ids...)
	case "setSV":
		if v := q.sv[o.K]; v != nil {
			q.setSV(v, q.valNode(o.Val))
		}
	case "setDV":
		if v := q.dv[o.K]; v != nil {
			q.setDV(v, q.valNode(o.Val))
		}
	case "regSV":
		var v *gem.StatusVariable
		v, err = q.newSV(gVar{o.K, o.Name, o.Unit, o.Val})
		if err == nil {
			if err = h.RegisterStatusVariable(v); err == nil {
				q.sv[o.K] = v
			}
		}
	case "regCE":
		var c *gem.CollectionEvent
		c, err = gem.NewCollectionEvent(goID(o.K, q.r), "late")
		if err == nil {
			err = h.RegisterCollectionEvent(c)
		}
	case "regPP":
		err = h.RegisterProcessProgram(goID(o.K, q.r), string(wire.Unesc(o.Body)))
	case "listPP":
		for _, p := range h.ListProcessPrograms() {
			p := p
			list = append(list, []string{idKey(p.ID()), wire.Esc([]byte(p.Body))})
		}
	case "handlers":
		q.handlers(o.H)
	case "time":
		q.setTime(o.T)
	default:
		panic("unknown api " + o.Fn)
	}
	return
}

func (q *equip) handlers(s gHandlers) {
	h := q.h
	if s.Cmd.K == "none" {
		h.SetRemoteCommandHandler(nil)
	} else {
		h.SetRemoteCommandHandler(func(r gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
			var ps []trace.E
			for _, p := range r.Parameters {
				ps = append(ps, trace.E{"id": idKey(p.Identifier), "nm": wire.Esc([]byte(p.Name)), "val": nodesOf(p.Value)})
			}
			q.cb("cmd", idKey(r.CommandID), wire.Esc([]byte(r.Command)), ps)
			res := gem.RemoteCommandResult{HCACK: gem.HCACKCode(s.Cmd.Hcack)}
			for _, a := range s.Cmd.Acks {
				res.ParameterAcks = append(res.ParameterAcks, gem.RemoteCommandParameterAck{Name: goID(a.ID, q.r), Ack: gem.CPACKCode(a.Ack)})
			}
			if s.Cmd.Err {
				return res, errApp
			}
			return res, nil
		})
	}
	if s.Up.K == "none" {
		h.SetProcessProgramUploadHandler(nil)
	} else {
		h.SetProcessProgramUploadHandler(func(id interface{}, body string) int {
			q.cb("upload", idKey(id), wire.Esc([]byte(body)), nil)
			return s.Up.Ack
		})
	}
	if s.Ppr.K == "none" {
		h.SetProcessProgramRequestHandler(nil)
	} else {
		h.SetProcessProgramRequestHandler(func(id interface{}) (string, int) {
			q.cb("ppreq", idKey(id), "", nil)
			return string(wire.Unesc(s.Ppr.Body)), s.Ppr.Ack
		})
	}
	if s.Clk.K == "none" {
		h.SetClockSyncHandler(nil)
	} else {
		h.SetClockSyncHandler(func(t time.Time) (byte, error) {
			q.cb("clock", "", t.Format("20060102150405"), nil)
			if s.Clk.Err {
				return byte(s.Clk.Code), errApp
			}
			return byte(s.Clk.Code), nil
		})
	}
}

func (q *equip) setTime(t string) {
	if t == "" {
		q.h.SetTimeProvider(nil)
		return
	}
	zone := time.FixedZone("z", (q.r.Intn(25)-12)*3600+q.r.Intn(4)*900)
	v, err := time.ParseInLocation("20060102150405", t[:14], zone)
	must(err)
	v = v.Add(time.Duration(q.r.Intn(1e9)))
	q.h.SetTimeProvider(func() time.Time { return v })
}

// until polls for a condition; if it does not come true the operation was not as predicted.
func (q *equip) until(within time.Duration, f func() bool) {
	if !until(within, f) {
		q.late = true
	}
}

// step performs an operation and returns what was observed.
func (q *equip) step(o *gOp) trace.E {
	ob := trace.E{"rep": trace.E{"k": "none"}, "err": "none", "list": [][]string{}, "now": []string{}}
	if o.S1f1 != "" {
		q.lock(func() { q.s1f1 = o.S1f1 })
	}
	t0 := time.Now()
	request := func(s, f int, w bool, body *wire.Item) {
		m := wire.SF(q.sess, s, f, w, q.p.NextSys(), body)
		a, err := q.p.ReqUntilBarrier(m, 20*time.Second, w)
		if err != nil {
			ob["rep"] = trace.E{"k": "error", "text": err.Error()}
		} else if a != nil {
			ob["rep"] = msgObs(a)
			if a.SType != wire.Data {
				ob["rep"] = trace.E{"k": "control", "stype": int(a.SType)}
			}
		}
	}
	switch o.Op {
	case "sel":
		q.sel()
	case "com":
		if o.By == "host" {
			request(1, 13, true, wire.L())
		} else {
			q.lock(func() { q.accept = true })
		}
		q.until(8*time.Second, func() bool { return q.h.State() == gem.CommunicationStateCommunicating })
		q.lock(func() { q.accept = false })
	case "req":
		request(o.S, o.F, o.W == 1, wire.FromNodes(o.Nodes))
		for t := t0; !t.After(time.Now().Add(time.Second)); t = t.Add(time.Second) {
			ob["now"] = append(ob["now"].([]string), stamp(t))
		}
	case "api":
		err, list := q.api(o)
		ob["err"], ob["list"] = errClass(err), list
	case "s1f1":
		var m *wire.Msg
		q.lock(func() { m = q.held; q.held = nil; q.s1f1 = "ok" })
		switch {
		case m == nil || o.How == "timeout":
		default:
			q.answerS1F1(q.p, m, o.How, q.r.Intn(4))
		}
	case "down":
		switch o.Kind {
		case "close":
			q.p.Close(false)
		case "reset":
			q.p.Close(true)
		case "separate":
			q.p.Send(wire.Ctl(wire.SeparateReq, q.sess, 0, 0, q.p.NextSys()))
		case "deselect":
			q.p.Req(wire.Ctl(wire.DeselectReq, q.sess, 0, 0, q.p.NextSys()), 10*time.Second)
		}
		q.until(5*time.Second, func() bool { return q.h.State() != gem.CommunicationStateCommunicating })
		q.lock(func() { q.held = nil })
	case "pause":
		time.Sleep(time.Duration(o.Ms) * time.Millisecond)
	case "pauseOldT3": // until the T3 of the first held S1F1 has passed
		time.Sleep(time.Until(q.heldAt.Add(time.Duration(q.t3)*time.Second + 500*time.Millisecond)))
	default:
		panic("unknown op " + o.Op)
	}
	// let the asynchronous consequences happen
	wait := 5 * time.Second
	if q.t3 < 5 {
		wait += time.Duration(q.t3) * time.Second
	}
	q.until(wait, func() bool {
		q.mu.Lock()
		n := len(q.chg)
		q.mu.Unlock()
		return n >= o.Nchg && ctl(q.h.ControlState()) == o.Ectl && (q.h.State() == gem.CommunicationStateCommunicating) == o.Ecom
	})
	if o.S1f1 == "hold" && o.Ectl == "AO" {
		q.until(wait, func() bool { q.mu.Lock(); defer q.mu.Unlock(); return q.held != nil })
	}
	if o.Await > 0 {
		q.until(wait, func() bool { return q.p.Count(q.isData) >= o.Await })
	}
	if q.p != nil && o.Op != "down" {
		q.p.Barrier(10 * time.Second)
	}
	if o.Op == "api" && (o.Fn == "raise" || o.Fn == "trigger" || strings.HasPrefix(o.Fn, "sw")) {
		time.Sleep(3 * time.Millisecond)
		if q.p != nil {
			q.p.Barrier(10 * time.Second)
		}
	}
	tx := []trace.E{}
	if q.p != nil {
		for _, r := range q.p.Take() {
			if q.isData(r.M) {
				tx = append(tx, msgObs(r.M))
			} else {
				tx = append(tx, trace.E{"k": "control", "stype": int(r.M.SType)})
			}
		}
	}
	ob["tx"] = tx
	q.lock(func() {
		ob["cbs"], ob["chg"], ob["hs"] = q.cbs, q.chg, q.hs
		q.cbs, q.chg, q.hs = []trace.E{}, [][]string{}, []trace.E{}
	})
	ob["ctl"], ob["com"] = ctl(q.h.ControlState()), q.h.State() == gem.CommunicationStateCommunicating
	return ob
}

// scenarioLimit is far more than any scenario takes.
const scenarioLimit = 200 * time.Second

// gemPool runs scenarios, several at a time, and writes each one's lines together.
func pool(e *Env, conc int, run func(i int, line []byte) []trace.E) {
	sem := make(chan struct{}, conc)
	var wg sync.WaitGroup
	i := 0
	scnLines(e, func(l []byte) {
		line := append([]byte(nil), l...)
		i++
		n := i
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			done := make(chan []trace.E, 1)
			go func() { done <- run(n, line) }()
			select {
			case out := <-done:
				e.T.LogAll(out)
			case <-time.After(scenarioLimit):
				e.T.LogAll([]trace.E{{"op": "hang", "scenario": n}})
			}
		}()
	})
	wg.Wait()
}

// addrOf is a loopback address nobody else uses.
func addrOf(e *Env, n int) (string, int) {
	return fmt.Sprintf("127.%d.%d.%d", 1+e.Part, 1+n/250%250, 1+n%250), 20000 + os.Getpid()%20000
}

func gemDrv(e *Env) {
	pool(e, 16, func(n int, line []byte) []trace.E {
		var ops []*gOp
		var raw []map[string]interface{}
		must(json.Unmarshal(line, &ops))
		must(json.Unmarshal(line, &raw))
		q := &equip{e: e, r: rand.New(rand.NewSource(e.Seed*7919 + int64(e.Part)*1000 + int64(n))), cbs: []trace.E{}, chg: [][]string{}, hs: []trace.E{},
			sv: map[string]*gem.StatusVariable{}, dv: map[string]*gem.DataVariable{}}
		q.addr, q.port = addrOf(e, n)
		q.sess = []uint16{0, 1, 300, 0x7fff, 0x8001, 0xfffe, uint16(q.r.Intn(65535))}[q.r.Intn(7)]
		var out []trace.E
		for i, o := range ops {
			l := trace.E(raw[i])
			if i == 0 {
				q.start(o)
				time.Sleep(time.Millisecond)
				l["ctl"], l["com"], l["sess"] = ctl(q.h.ControlState()), q.h.State() == gem.CommunicationStateCommunicating, int(q.sess)
			} else {
				l["obs"] = q.step(o)
			}
			out = append(out, l)
			if q.late {
				break // saves time: the trace so far shows why
			}
		}
		if q.p != nil {
			q.p.Close(false)
		}
		done := make(chan struct{})
		go func() { q.h.Disable(); close(done) }()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
		}
		return out
	})
}
