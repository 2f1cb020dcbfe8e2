package main

import (
	"encoding/binary"
	"io"
	"math/rand"
	"os"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/astx"
	"verifharness/wire"
)

// Hostile peers of endpoints with a GEM handler: near-valid bodies for every
// message the handlers know.

func fid(r *rand.Rand) *wire.Item {
	switch r.Intn(20) {
	case 0:
		return wire.A([]string{"X1", "", "V2", "PP", "nope"}[r.Intn(5)])
	case 1:
		return wire.U(1, uint64(r.Intn(8)))
	case 2:
		return wire.U(8, uint64(r.Intn(8)))
	case 3:
		return wire.I(4, int64(r.Intn(8)))
	}
	return wire.U(4, uint64(1+r.Intn(5)))
}

func fids(r *rand.Rand) *wire.Item {
	l := wire.L()
	for i := r.Intn(4); i > 0; i-- {
		l.Items = append(l.Items, fid(r))
		if r.Intn(8) == 0 {
			l.Items[len(l.Items)-1] = wire.U(4, uint64(101+r.Intn(5)))
		}
	}
	return l
}

func flist(r *rand.Rand, f func() *wire.Item) *wire.Item {
	l := wire.L()
	for i := r.Intn(4); i > 0; i-- {
		l.Items = append(l.Items, f())
	}
	return l
}

func fval(r *rand.Rand) *wire.Item { return randItem(r, 2, 3, ascii7) }

func ftext(r *rand.Rand) *wire.Item {
	b := make([]byte, r.Intn(20))
	for i := range b {
		b[i] = ascii7(r)
	}
	return &wire.Item{F: "A", Raw: b}
}

func ftime(r *rand.Rand) *wire.Item {
	return wire.A([]string{"20240229123456", "2024022912345678", "99123123595999", "", "20241332000000", "2024-01-01T00:00", "000000000000", "20240101000000000000000"}[r.Intn(8)])
}

// template is a body as a message sNfM should have it.
func template(r *rand.Rand, s, f int) *wire.Item {
	b := func() *wire.Item { return wire.B(byte([]int{0, 0, 0, 1, 2, 64, 255}[r.Intn(7)])) }
	id := func() *wire.Item { return fid(r) }
	switch s*1000 + f {
	case 1001, 1015, 1017, 2017, 5007, 5005:
		if s == 5 && f == 5 {
			return fids(r)
		}
		return nil
	case 1002:
		return wire.L(ftext(r), ftext(r))
	case 1003, 1011, 2013, 2029:
		return fids(r)
	case 1004, 2014:
		return flist(r, func() *wire.Item { return fval(r) })
	case 1012:
		return flist(r, func() *wire.Item { return wire.L(id(), ftext(r), ftext(r)) })
	case 1013:
		return wire.L(ftext(r), ftext(r))
	case 1014:
		return wire.L(b(), wire.L(ftext(r), ftext(r)))
	case 1016, 1018, 2016, 2032, 2034, 2036, 2038, 5002, 5004, 6012, 7004:
		return b()
	case 2015:
		return flist(r, func() *wire.Item { return wire.L(id(), fval(r)) })
	case 2018, 2031:
		return ftime(r)
	case 2030:
		return flist(r, func() *wire.Item { return wire.L(id(), ftext(r), fval(r), fval(r), fval(r), ftext(r)) })
	case 2033, 2035:
		return wire.L(id(), flist(r, func() *wire.Item { return wire.L(id(), fids(r)) }))
	case 2037:
		return wire.L(wire.Bool(r.Intn(3) > 0), fids(r))
	case 2041:
		return wire.L(ftext(r), flist(r, func() *wire.Item { return wire.L(ftext(r), fval(r)) }))
	case 2042:
		return wire.L(b(), flist(r, func() *wire.Item { return wire.L(ftext(r), b()) }))
	case 5001:
		return wire.L(b(), id(), ftext(r))
	case 5003:
		return wire.L(b(), id())
	case 5006, 5008:
		return flist(r, func() *wire.Item { return wire.L(b(), id(), ftext(r)) })
	case 6011, 6016:
		return wire.L(id(), id(), flist(r, func() *wire.Item { return wire.L(id(), flist(r, func() *wire.Item { return fval(r) })) }))
	case 6015, 7005:
		return id()
	case 7003, 7006:
		return wire.L(id(), ftext(r))
	case 9001, 9003, 9005, 9007, 9009, 9011:
		raw := make([]byte, 10)
		r.Read(raw)
		return &wire.Item{F: "B", Raw: raw}
	}
	return fval(r)
}

var fuzzSF = [][2]int{{1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 11}, {1, 12}, {1, 13}, {1, 14}, {1, 15}, {1, 16}, {1, 17}, {1, 18}, {2, 13}, {2, 14}, {2, 15}, {2, 16}, {2, 17}, {2, 18},
	{2, 29}, {2, 30}, {2, 31}, {2, 32}, {2, 33}, {2, 34}, {2, 35}, {2, 36}, {2, 37}, {2, 38}, {2, 41}, {2, 42}, {5, 1}, {5, 2}, {5, 3}, {5, 4}, {5, 5}, {5, 6}, {5, 7}, {5, 8},
	{6, 11}, {6, 12}, {6, 15}, {6, 16}, {7, 3}, {7, 4}, {7, 5}, {7, 6}, {9, 1}, {9, 3}, {9, 5}, {9, 7}, {9, 9}, {9, 11}}

func walk(it *wire.Item, f func(p **wire.Item), p **wire.Item) {
	if it == nil {
		return
	}
	f(p)
	for i := range it.Items {
		walk(it.Items[i], f, &it.Items[i])
	}
}

// mutate changes a node or two of an item tree.
func mutate(r *rand.Rand, it *wire.Item) *wire.Item {
	for k := 1 + r.Intn(2); k > 0; k-- {
		if it == nil {
			it = fval(r)
			continue
		}
		var ps []**wire.Item
		walk(it, func(p **wire.Item) { ps = append(ps, p) }, &it)
		p := ps[r.Intn(len(ps))]
		n := *p
		switch r.Intn(9) {
		case 0:
			*p = &wire.Item{F: n.F} // no value
		case 1:
			*p = fval(r)
		case 2:
			*p = wire.L()
		case 3:
			*p = wire.L(n)
		case 4:
			*p = wire.L(n, fval(r), fval(r))
		case 5:
			if len(n.Items) > 0 {
				i := r.Intn(len(n.Items))
				n.Items = append(append([]*wire.Item{}, n.Items[:i]...), n.Items[i+1:]...)
			} else {
				*p = wire.U(4, 1, 2, 3)
			}
		case 6:
			if n.F == "L" {
				n.Items = append(n.Items, fval(r))
			} else {
				*p = wire.A("1")
			}
		case 7:
			*p = []*wire.Item{wire.A(""), wire.B(), wire.Bool(), wire.U(8, 1<<63), wire.U(8), wire.I(8, -1<<63), wire.I(1, -1), wire.F(8, 1e300), wire.F(4), wire.B(0, 1, 2)}[r.Intn(10)]
		default:
			if p == &it {
				it = nil
			} else {
				*p = &wire.Item{F: []string{"A", "B", "BOOL", "L", "I4", "U2", "F8"}[r.Intn(7)]}
			}
		}
	}
	return it
}

func fuzzBody(r *rand.Rand, s, f int) *wire.Item {
	it := template(r, s, f)
	if r.Intn(2) > 0 {
		it = mutate(r, it)
	}
	return it
}

// order is a correct message of a host which sets reports up.
func order(r *rand.Rand) ([2]int, *wire.Item) {
	u := func(n int) *wire.Item { return wire.U(4, uint64(1+r.Intn(n))) }
	some := func(f func() *wire.Item) *wire.Item {
		l := wire.L()
		for i := 1 + r.Intn(3); i > 0; i-- {
			l.Items = append(l.Items, f())
		}
		return l
	}
	vid := func() *wire.Item { return wire.U(4, uint64(1+r.Intn(5)+100*r.Intn(2))) }
	rpt := u(3)
	switch r.Intn(8) {
	case 0, 1:
		return [2]int{2, 33}, wire.L(u(9), wire.L(wire.L(rpt, some(vid))))
	case 2:
		return [2]int{2, 35}, wire.L(u(9), wire.L(wire.L(u(3), wire.L(rpt))))
	case 3:
		return [2]int{2, 37}, wire.L(wire.Bool(r.Intn(5) > 0), wire.L())
	case 4:
		return [2]int{1, 17}, nil
	case 5:
		return [2]int{2, 15}, wire.L(wire.L(wire.U(4, 1), wire.U(4, uint64(r.Intn(12)))))
	case 6:
		return [2]int{2, 33}, wire.L(u(9), wire.L(wire.L(rpt, wire.L())))
	}
	return [2]int{6, 15}, u(3)
}

func (g *hMsg) hostile(sys uint32, r *rand.Rand) []byte {
	switch g.Kind {
	case "fuzz": // a valid message with any item tree
		if g.S == 0 && g.F == 0 {
			sf := fuzzSF[r.Intn(len(fuzzSF))]
			if r.Intn(3) == 0 {
				var it *wire.Item
				sf, it = order(r)
				return wire.SF(uint16(g.Sess), sf[0], sf[1], true, sys, it).Bytes()
			}
			g.S, g.F = sf[0], sf[1]
			if g.F%2 == 0 || g.S == 9 {
				g.W = 0
			}
		}
		return wire.SF(uint16(g.Sess), g.S, g.F, g.W == 1, sys, fuzzBody(r, g.S, g.F)).Bytes()
	case "deep":
		n := []int{200, 257, 1000, 200000, 3000000}[r.Intn(5)]
		b := make([]byte, 14+2*n)
		copy(b, wire.SF(uint16(g.Sess), 1, 3, true, sys, nil).Bytes())
		binary.BigEndian.PutUint32(b, uint32(len(b)-4))
		for i := 0; i < n; i++ {
			b[14+2*i], b[15+2*i] = 1, 1
		}
		b[len(b)-1] = 0
		return b
	case "raw":
		b := make([]byte, r.Intn(60))
		r.Read(b)
		h := wire.SF(uint16(g.Sess), g.S, g.F, r.Intn(2) == 0, sys, nil).Bytes()
		h = append(h, b...)
		binary.BigEndian.PutUint32(h, uint32(len(h)-4))
		return h
	case "noise":
		b := make([]byte, 4+r.Intn(40))
		r.Read(b)
		binary.BigEndian.PutUint32(b, uint32(len(b)-4))
		return b
	case "claims": // an item announces far more than the message has
		h := wire.SF(uint16(g.Sess), 1, 3, true, sys, nil).Bytes()
		h = append(h, byte(r.Intn(64)<<2|3), 0xff, 0xff, 0xff)
		binary.BigEndian.PutUint32(h, uint32(len(h)-4))
		return h
	case "weven":
		return wire.SF(uint16(g.Sess), g.S, g.F&^1, true, sys, fuzzBody(r, g.S, g.F&^1)).Bytes()
	case "huge": // the length field announces gigabytes
		b := wire.SF(uint16(g.Sess), 1, 3, true, sys, wire.A("abc")).Bytes()
		binary.BigEndian.PutUint32(b, []uint32{0xffffffff, 0x80000000, 0x7fffffff, 1 << 24}[r.Intn(4)])
		return b
	}
	return nil
}

// answer is what a hostile peer does about a primary message of the endpoint.
func (x *hsmsX) answer(c *hconn, m *wire.Msg) {
	if !m.Wait() {
		return
	}
	r := x.fz
	x.mu.Lock()
	k := r.Intn(100)
	s, f := m.Stream(), m.Function()+1
	var b []byte
	switch {
	case x.good:
		if s == 1 && f == 14 {
			b = wire.SF(m.Session, 1, 14, false, m.Sys, wire.L(wire.B(0), wire.L())).Bytes()
		} else if s == 1 && f == 2 {
			b = wire.SF(m.Session, 1, 2, false, m.Sys, wire.L()).Bytes()
		} else {
			b = wire.SF(m.Session, s, f, false, m.Sys, template(r, s, f)).Bytes()
		}
	case k < 4:
	case k < 8:
		b = wire.SF(m.Session, s, 0, false, m.Sys, nil).Bytes()
	case k < 12:
		b = wire.SF(m.Session, 9, []int{1, 3, 5, 7, 11}[r.Intn(5)], false, m.Sys, fuzzBody(r, 9, 1)).Bytes()
	case k < 16:
		b = wire.SF(m.Session, s, 2*r.Intn(50), false, m.Sys, fuzzBody(r, s, f)).Bytes()
	case k < 20:
		b = wire.SF(m.Session, r.Intn(128), f, false, m.Sys, fuzzBody(r, s, f)).Bytes()
	case k < 24:
		b = wire.Ctl(wire.RejectReq, m.Session, 0, byte(r.Intn(5)), m.Sys).Bytes()
	default:
		b = wire.SF(m.Session, s, f, false, m.Sys, fuzzBody(r, s, f)).Bytes()
	}
	x.mu.Unlock()
	c.whole.Lock()
	defer c.whole.Unlock()
	if b != nil && !c.torn {
		c.write(b)
	}
}

// withGem puts a GEM handler on the endpoint.
func (x *hsmsX) withGem(kind string, sess int) {
	opt := gem.Options{Protocol: x.proto, DeviceType: gem.DeviceHost, DeviceID: uint16(sess), EstablishCommunicationWait: time.Second,
		Logging: gem.LoggingOptions{Writer: io.Discard}}
	if kind == "equip" {
		opt.DeviceType = gem.DeviceEquipment
		opt.InitialControlState = []gem.ControlState{gem.ControlStateOnline, gem.ControlStateEquipmentOffline, gem.ControlStateHostOffline, gem.ControlStateAttemptOnline}[x.r.Intn(4)]
	}
	if os.Getenv("VDRV_LOG") != "" {
		opt.Logging = gem.LoggingOptions{Enabled: true, IncludeControlMessages: true, Writer: os.Stderr}
	}
	h, err := gem.NewGemHandler(opt)
	must(err)
	x.gem = h
	if kind == "host" {
		return
	}
	r := rand.New(rand.NewSource(x.r.Int63()))
	for i := 1; i <= 5; i++ {
		sv, err := gem.NewStatusVariable(i, "sv", "u", gem.WithStatusValue(astx.To(fval(r), r)))
		must(err)
		must(h.RegisterStatusVariable(sv))
		ec, err := gem.NewEquipmentConstant(i, "ec", []ast.ItemNode{ast.NewUintNode(4, 5), ast.NewASCIINode("d"), ast.NewIntNode(2, -5), ast.NewFloatNode(8, 2.5), astx.To(fval(r), r)}[i-1],
			[][]gem.EquipmentConstantOption{{gem.WithEquipmentConstantMin(ast.NewUintNode(4, 1)), gem.WithEquipmentConstantMax(ast.NewUintNode(4, 9))}, nil,
				{gem.WithEquipmentConstantMin(ast.NewIntNode(2, -9))}, {gem.WithEquipmentConstantMax(ast.NewFloatNode(8, 99.5))}, nil}[i-1]...)
		must(err)
		must(h.RegisterEquipmentConstant(ec))
		dv, err := gem.NewDataVariable(i+100, "dv", gem.WithDataValue(astx.To(fval(r), r)))
		must(err)
		must(h.RegisterDataVariable(dv))
		ce, err := gem.NewCollectionEvent(i, "ce")
		must(err)
		must(h.RegisterCollectionEvent(ce))
		h.RegisterAlarm(gem.Alarm{ID: i, Text: "al", Enabled: i%2 == 0})
	}
	must(h.RegisterProcessProgram("PP", "body"))
	h.SetRemoteCommandHandler(func(q gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
		res := gem.RemoteCommandResult{HCACK: gem.HCACKCode(len(q.Parameters) * 3)}
		for _, p := range q.Parameters {
			res.ParameterAcks = append(res.ParameterAcks, gem.RemoteCommandParameterAck{Name: p.Name, Ack: gem.CPACKCode(len(p.Name))})
		}
		if len(q.Command) > 12 {
			return res, errApp
		}
		return res, nil
	})
	if r.Intn(2) == 0 {
		return
	}
	h.SetProcessProgramUploadHandler(func(id interface{}, body string) int { return len(body) % 5 })
	h.SetProcessProgramRequestHandler(func(id interface{}) (string, int) { return "text", 0 })
	h.SetClockSyncHandler(func(time.Time) (byte, error) { return 0, nil })
}

// use makes a call of the application; the results do not matter here.
func (x *hsmsX) use(k int, r *rand.Rand) {
	h := x.gem
	id := func() interface{} { return []interface{}{1, uint8(2), int64(3), "X1", uint64(1) << 40}[r.Intn(5)] }
	switch k {
	case 0:
		h.RequestStatusVariables(id(), id())
	case 1:
		h.RequestStatusVariableInfo()
	case 2:
		h.RequestEquipmentConstants(id())
	case 3:
		h.RequestEquipmentConstantInfo(id())
	case 4:
		h.DefineReports(gem.ReportDefinitionRequest{ReportID: id(), VIDs: []interface{}{id()}})
	case 5:
		h.LinkEventReports(gem.EventReportLinkRequest{CEID: id(), ReportIDs: []interface{}{id()}})
	case 6:
		h.EnableEventReports(true, id())
	case 7:
		h.RequestCollectionEventReport(id())
	case 8:
		h.SendRemoteCommand("GO", []gem.RemoteCommandParameterValue{{Name: "A", Value: 1}})
	case 9:
		h.UploadProcessProgram(id(), "text")
	case 10:
		h.RequestProcessProgram(id())
	case 11:
		h.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: id(), Value: ast.NewUintNode(4, 3)}})
	case 12:
		h.RequestDateTime()
	case 13:
		h.SetDateTime("20240101000000")
	case 14:
		h.SendEnableAlarm([]int{1}, true)
	case 15:
		h.RequestAlarmList()
	case 16:
		h.RequestEnabledAlarmList()
	case 17:
		h.TriggerCollectionEvent(1, 2, 3)
	case 18:
		h.RaiseAlarm(1+r.Intn(5), r.Intn(2) == 0)
	case 19:
		h.SwitchControlOnline()
	case 20:
		h.SwitchControlOffline()
	case 21:
		h.SwitchControlOnlineLocal()
	case 22:
		h.SwitchControlOnlineRemote()
	case 23:
		h.EnableAlarm(1 + r.Intn(6))
	case 24:
		h.DisableAlarm(1 + r.Intn(6))
	case 25:
		h.ListProcessPrograms()
	case 26:
		h.SendEnableAlarm([]int{1, 2}, r.Intn(2) == 0)
	case 27:
		h.DefineReports()
	case 28:
		h.WaitForCommunicating(time.Duration(r.Intn(500)) * time.Millisecond)
	}
}

// probe is the exchange with a well-behaved peer on a selected connection.
func (x *hsmsX) probe(sess int) map[string]int {
	x.lock(func() { x.good = true })
	defer x.lock(func() { x.good = false })
	got := map[string]int{"lt": 0, "s1": -1, "f1": -1, "s13": -1, "f13": -1, "ack": -1}
	if x.c.barrier(10 * time.Second) {
		got["lt"] = 1
	}
	ask := func(f int, it *wire.Item) *wire.Msg {
		x.probes++
		sys := uint32(0x7d000000) + x.probes
		ch := make(chan *wire.Msg, 4)
		x.c.mu.Lock()
		x.c.want = map[uint32]chan *wire.Msg{sys: ch}
		x.c.mu.Unlock()
		x.c.write(wire.SF(uint16(sess), 1, f, true, sys, it).Bytes())
		select {
		case m := <-ch:
			return m
		case <-x.c.closed:
		case <-time.After(10 * time.Second):
		}
		return nil
	}
	if m := ask(1, nil); m != nil {
		got["s1"], got["f1"] = m.Stream(), m.Function()
	}
	var it *wire.Item = wire.L()
	if x.kind == "host" {
		it = wire.L(wire.A("md"), wire.A("rev"))
	}
	if m := ask(13, it); m != nil {
		got["s13"], got["f13"] = m.Stream(), m.Function()
		if b, err := m.Item(); err == nil && b != nil && b.F == "L" && len(b.Items) == 2 && b.Items[0].F == "B" && len(b.Items[0].Raw) == 1 {
			got["ack"] = int(b.Items[0].Raw[0])
		}
	}
	return got
}
