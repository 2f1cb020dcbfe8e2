package main

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/sml"

	"verifharness/astx"
	"verifharness/peer"
	"verifharness/trace"
	"verifharness/wire"
)

func init() { subs["msglog"] = msglogDrv }

type lgCfg struct {
	En   bool     `json:"en"`
	Mode string   `json:"mode"`
	Ctrl bool     `json:"ctrl"`
	Excl []string `json:"excl"`
	W    int      `json:"w"`
}

type lgOp struct {
	Op, Via, How  string
	Cfg           lgCfg
	S, F, T       int
	W, Resp       bool
	Out, Rep, Ins int
}

// lgW is a log. It is written slowly, and knows if it is written twice at once.
type lgW struct {
	mu       sync.Mutex
	b        []byte
	busy     int32
	overlaps int32
}

func (w *lgW) Write(b []byte) (int, error) {
	if atomic.AddInt32(&w.busy, 1) > 1 {
		atomic.AddInt32(&w.overlaps, 1)
	}
	defer atomic.AddInt32(&w.busy, -1)
	if rand.Intn(8) == 0 {
		time.Sleep(20 * time.Microsecond)
	}
	w.mu.Lock()
	w.b = append(w.b, b...)
	w.mu.Unlock()
	return len(b), nil
}

func (w *lgW) text() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return string(w.b)
}

type lgX struct {
	r      *rand.Rand
	mu     sync.Mutex
	rx, tx [][]int
	log    [2]*lgW
	file   string
	done   [2]int // what of the logs was looked at
	p      *hsms.HsmsProtocol
	c      *peer.Peer
	cfg    lgCfg
	how    string // how to answer the next request
	lastS  uint32
}

func (x *lgX) text(i int) string {
	if i == 0 && x.file != "" {
		b, err := os.ReadFile(x.file)
		if err != nil && !errors.Is(err, os.ErrNotExist) {
			panic("harness: " + err.Error())
		}
		return string(b)
	}
	return x.log[i].text()
}

func (x *lgX) rec(in bool, b []byte) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if in {
		x.tx = append(x.tx, ints(b))
	} else {
		x.rx = append(x.rx, ints(b))
	}
}

// auto answers the requests of the code under test.
func (x *lgX) auto(p *peer.Peer, m *wire.Msg) bool {
	if m.SType != wire.Data || !m.Wait() {
		return true
	}
	if m.Stream() == 1 && m.Function() == 13 {
		p.Send(wire.SF(p.Sess, 1, 14, false, m.Sys, wire.L(wire.B(0), wire.L(wire.A("m"), wire.A("r")))))
		return true
	}
	x.mu.Lock()
	how := x.how
	x.mu.Unlock()
	switch how {
	case "reply":
		p.Send(wire.SF(p.Sess, m.Stream(), m.Function()+1, false, m.Sys, wire.L(wire.U(2, 7), wire.A("re\nply"))))
	case "abort":
		p.Send(wire.SF(p.Sess, m.Stream(), 0, false, m.Sys, nil))
	}
	return true
}

func (x *lgX) item() *wire.Item {
	if x.r.Intn(6) == 0 {
		return nil
	}
	if x.r.Intn(9) == 0 { // long in the log: many bytes, many lines
		n := []int{229, 230, 231, 239, 240, 241, 256, 300, 520, 700}[x.r.Intn(10)]
		switch x.r.Intn(4) {
		case 0:
			return wire.A(strings.Repeat("long text ", n/10) + "end")
		case 1:
			b := make([]byte, n)
			x.r.Read(b)
			return wire.B(b...)
		case 2:
			v := make([]uint64, n/2)
			for i := range v {
				v[i] = uint64(x.r.Intn(256))
			}
			return wire.U(1, v...)
		}
		l := wire.L()
		for i := 0; i < n/8; i++ {
			l.Items = append(l.Items, wire.L(wire.U(2, uint64(i)), wire.A("x")))
		}
		return l
	}
	return randItem(x.r, 2, 4, ascii7)
}

// config is the configuration as an application may write it.
func (x *lgX) config(c lgCfg) hsms.LoggingConfig {
	h := hsms.LoggingConfig{Enabled: c.En, IncludeControlMessages: c.Ctrl, Writer: x.log[c.W],
		Mode: map[string]hsms.LoggingMode{"unset": hsms.LoggingModeUnset, "sml": hsms.LoggingModeSML, "bin": hsms.LoggingModeBinary, "both": hsms.LoggingModeBoth}[c.Mode]}
	if len(c.Excl) > 0 || x.r.Intn(2) == 0 {
		h.ExcludedControlMessageTypes = map[string]struct{}{}
	}
	for _, k := range c.Excl {
		h.ExcludedControlMessageTypes[x.spell(k)] = struct{}{}
	}
	return h
}

func (x *lgX) spell(k string) string {
	switch x.r.Intn(4) {
	case 0:
		k = strings.ToUpper(k)
	case 1:
		k = strings.Title(k)
	case 2:
		k = " " + k + "\t "
	}
	return k
}

var lgData = regexp.MustCompile(`^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3} \[(IN|OUT)\]\[DATA\] S(\d+)F(\d+) session=(\d+) wait=(TRUE|FALSE) system=([0-9A-F]{8})$`)
var lgCtl = regexp.MustCompile(`^\[(RX|TX)\]\[CTRL\] (\S+) session=(\d+) status=(\d+) system=([0-9A-F]{8})$`)
var lgCtlBin = regexp.MustCompile(`^\[(RX|TX)\]\[CTRL\]\[BIN\] ([0-9A-F]+)$`)

func lgInt(s string) int { n, _ := strconv.Atoi(s); return n }
func lgHex(s string) []int {
	b, err := hex.DecodeString(strings.ReplaceAll(s, " ", ""))
	if err != nil {
		return []int{-1}
	}
	return ints(b)
}

// smlBytes is the message that the text in a log is read as, on the wire.
func smlBytes(text string, sess int, sys []int) (out []int) {
	defer func() {
		if p := recover(); p != nil {
			out = []int{-3}
		}
	}()
	ms, errs, _ := sml.Parse(text)
	if len(errs) > 0 || len(ms) != 1 || len(sys) != 4 {
		return []int{-2}
	}
	m := ms[0].SetSessionIDAndSystemBytes(sess, []byte{byte(sys[0]), byte(sys[1]), byte(sys[2]), byte(sys[3])})
	return ints(m.ToBytes())
}

// lgParse takes a log apart into entries and lines that belong to none.
func lgParse(text string) (es []trace.E, junk []string) {
	es, junk = []trace.E{}, []string{}
	if text != "" && !strings.HasSuffix(text, "\n") {
		junk = append(junk, "unfinished line")
	}
	text = strings.TrimSuffix(text, "\n")
	var cur trace.E // data entry
	var sect string
	var smlT, binT []string
	var sess int
	flush := func() {
		if cur != nil {
			if len(smlT) > 0 {
				cur["sml"] = smlBytes(strings.Join(smlT, "\n"), sess, cur["sys"].([]int))
			}
			if len(binT) > 0 {
				cur["bin"] = lgHex(strings.Join(binT, ""))
			}
		}
		cur, sect, smlT, binT = nil, "", nil, nil
	}
	dir := map[string]string{"IN": "in", "RX": "in", "OUT": "out", "TX": "out"}
	if text == "" {
		return
	}
	for _, line := range strings.Split(text, "\n") {
		switch {
		case strings.HasPrefix(line, "      ") && sect == "sml":
			smlT = append(smlT, line[6:])
		case strings.HasPrefix(line, "      ") && sect == "bin":
			binT = append(binT, line[6:])
		case line == "    SML:" && cur != nil && sect == "":
			sect = "sml"
		case line == "    BIN:" && cur != nil && sect != "bin":
			sect = "bin"
		case line == "" && cur != nil:
			flush()
		case line == "":
			junk = append(junk, "blank line")
		case lgData.MatchString(line) && cur == nil:
			m := lgData.FindStringSubmatch(line)
			w := 0
			if m[5] == "TRUE" {
				w = 1
			}
			sess = lgInt(m[4])
			cur = trace.E{"dir": dir[m[1]], "kind": "data", "type": "", "head": []int{lgInt(m[2]), lgInt(m[3]), sess, w}, "sys": lgHex(m[6]), "sml": []int{}, "bin": []int{}}
			es = append(es, cur)
		case lgCtl.MatchString(line) && cur == nil:
			m := lgCtl.FindStringSubmatch(line)
			es = append(es, trace.E{"dir": dir[m[1]], "kind": "ctrl", "type": m[2], "head": []int{lgInt(m[3]), lgInt(m[4])}, "sys": lgHex(m[5]), "sml": []int{}, "bin": []int{}})
		case lgCtlBin.MatchString(line) && cur == nil:
			m := lgCtlBin.FindStringSubmatch(line)
			b := lgHex(m[2])
			if n := len(es); n > 0 && es[n-1]["kind"] == "ctrl" && es[n-1]["dir"] == dir[m[1]] && len(es[n-1]["bin"].([]int)) == 0 && len(b) == 14 && fmt.Sprint(b[10:14]) == fmt.Sprint(es[n-1]["sys"]) {
				es[n-1]["bin"] = b
				continue
			}
			es = append(es, trace.E{"dir": dir[m[1]], "kind": "ctrl", "type": "", "head": []int{}, "sys": []int{}, "sml": []int{}, "bin": b})
		default:
			junk = append(junk, line)
		}
	}
	if cur != nil {
		junk = append(junk, "unfinished entry")
	}
	flush()
	return
}

// settle waits until all that was sent before is dealt with and logged.
func (x *lgX) settle() bool {
	for i := 0; i < 2; i++ {
		sys := x.c.NextSys()
		if _, err := x.c.Req(wire.Ctl(wire.LinktestReq, 0xFFFF, 0, 0, sys), 10*time.Second); err != nil {
			return false
		}
		x.lastS = sys
	}
	want := x.cfg.En && x.cfg.Ctrl
	for _, k := range x.cfg.Excl {
		want = want && k != "linktest.rsp"
	}
	sys := fmt.Sprintf("%08X", x.lastS)
	for i := 0; want && i < 200 && strings.Count(x.text(x.cfg.W), sys) < 2; i++ {
		time.Sleep(time.Millisecond)
	}
	time.Sleep(2 * time.Millisecond)
	return true
}

// take is what happened since the last time.
func (x *lgX) take(l trace.E) trace.E {
	logs, junk, over := [][]trace.E{}, []string{}, 0
	for i := 0; i < 2; i++ {
		t := x.text(i)
		es, j := lgParse(t[x.done[i]:])
		x.done[i] = len(t)
		logs, junk = append(logs, es), append(junk, j...)
		over += int(atomic.SwapInt32(&x.log[i].overlaps, 0))
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.rx == nil {
		x.rx = [][]int{}
	}
	if x.tx == nil {
		x.tx = [][]int{}
	}
	l["rx"], l["tx"], l["logs"], l["junk"], l["overlaps"] = x.rx, x.tx, logs, junk, over
	x.rx, x.tx = nil, nil
	return l
}

func (x *lgX) message(w int) *ast.DataMessage {
	f := 2*x.r.Intn(100) + 1
	name := []string{"", "", "Some-name"}[x.r.Intn(3)]
	return ast.NewDataMessage(name, 1+x.r.Intn(8), f, w, []string{"H->E", "H<-E", "H<->E"}[x.r.Intn(3)], astx.To(x.item(), x.r))
}

func msglogDrv(e *Env) {
	lags.start()
	_, prt := addrOf(e, 0)
	dir, err := os.MkdirTemp("", "verif-msglog")
	must(err)
	defer os.RemoveAll(dir)
	pool(e, 8, func(n int, line []byte) []trace.E {
		var ops []*lgOp
		must(json.Unmarshal(line, &ops))
		x := &lgX{r: rand.New(rand.NewSource(e.Seed*7919 + int64(n))), log: [2]*lgW{{}, {}}, cfg: ops[0].Cfg, how: "none"}
		addr, _ := addrOf(e, n)
		sess := uint16(1 + n%60000)
		x.p = newProto(addr, prt, false, int(sess), "log")
		t := x.p.Timeouts()
		t.SetT3ReplyTimeout(1)
		t.SetT7NotSelectTimeout(3600)
		x.p.RegisterHandler(99, 1, func(m *ast.DataMessage) (*ast.DataMessage, error) {
			return ast.NewDataMessage("", 99, 2, 0, "H<-E", ast.NewListNode(ast.NewASCIINode("an\"swer"), ast.NewUintNode(1, 1))), nil
		})
		x.p.RegisterHandler(99, 3, func(m *ast.DataMessage) (*ast.DataMessage, error) { return nil, nil })
		x.p.RegisterHandler(99, 5, func(m *ast.DataMessage) (*ast.DataMessage, error) { return nil, errors.New("no") })
		x.p.RegisterHandler(99, 7, func(m *ast.DataMessage) (*ast.DataMessage, error) {
			x.p.SendDataMessage(ast.NewDataMessage("", 99, 9, 0, "H->E", ast.NewBinaryNode(1, 2)))
			return ast.NewDataMessage("", 99, 8, 0, "H<-E", ast.NewEmptyItemNode()), nil
		})
		var h *gem.GemHandler
		if ops[0].Via == "proto" {
			x.p.ConfigureLogging(x.config(x.cfg))
			x.p.Enable()
			defer x.p.Disable()
		} else {
			c := x.config(x.cfg)
			o := gem.Options{Protocol: x.p, DeviceType: gem.DeviceHost, DeviceID: sess, MDLN: "m", SOFTREV: "r",
				Logging: gem.LoggingOptions{Enabled: c.Enabled, Mode: c.Mode, IncludeControlMessages: c.IncludeControlMessages, Writer: x.log[0]}}
			for k := range c.ExcludedControlMessageTypes {
				o.Logging.ExcludeControlMessageTypes = append(o.Logging.ExcludeControlMessageTypes, k)
			}
			if ops[0].Via == "file" {
				x.file = filepath.Join(dir, fmt.Sprint(n, ".log"))
				o.Logging.LogFile, o.Logging.Writer = x.file, nil
			}
			h, err = gem.NewGemHandler(o)
			must(err)
			h.Enable()
			defer h.Disable()
		}
		out := []trace.E{{"op": "new", "cfg": x.cfg, "via": ops[0].Via}}
		x.c, err = peer.DialRec(fmt.Sprintf("%s:%d", addr, prt), 10*time.Second, sess, x.auto, x.rec)
		if err != nil {
			return nil
		}
		defer x.c.Close(false)
		add := func(op string, ordered, asks bool) bool {
			if !x.settle() {
				return false
			}
			out = append(out, x.take(trace.E{"op": op, "ordered": ordered, "asks": asks, "cfg": x.cfg}))
			return true
		}
		if h != nil {
			if x.c.Select(10*time.Second) != nil || !h.WaitForCommunicating(20*time.Second) {
				return nil
			}
		}
		if !add("step", h == nil, h != nil) {
			return nil
		}
		for _, o := range ops[1:] {
			op, ordered, asks := "step", true, false
			switch o.Op {
			case "cfg":
				if x.file != "" && o.Cfg.En { // back to a writer would leave the file
					o.Cfg.W = 1
				}
				op, x.cfg = "cfg", o.Cfg
				x.p.ConfigureLogging(x.config(x.cfg))
			case "ctl":
				m := wire.Ctl(byte(o.T), sess, 0, byte(x.r.Intn(3)), x.c.NextSys())
				if o.T == 5 || o.T == 6 || x.r.Intn(4) == 0 {
					m.Session = 0xFFFF
				}
				if o.T == 1 || o.T == 3 {
					m.B3 = 0
				}
				x.c.Send(m)
			case "in":
				x.c.Send(wire.SF(sess, o.S, o.F, o.W && o.F%2 == 1, x.c.NextSys(), x.item()))
			case "send":
				if o.Resp {
					x.p.SendResponse(x.message(2*x.r.Intn(2)), []byte{0x60, byte(x.r.Intn(256)), byte(x.r.Intn(256)), byte(x.r.Intn(256))})
				} else {
					x.p.SendDataMessage(x.message(x.r.Intn(3)))
				}
			case "ask":
				asks = true
				x.mu.Lock()
				x.how = o.How
				x.mu.Unlock()
				x.p.SendAndWait(x.message(1 + x.r.Intn(2)))
				x.mu.Lock()
				x.how = "none"
				x.mu.Unlock()
			case "burst":
				ordered = false
				var wg sync.WaitGroup
				for i := 0; i < o.Out; i++ {
					m := x.message(0)
					wg.Add(1)
					go func() {
						defer wg.Done()
						x.p.SendDataMessage(m)
					}()
				}
				for i := 0; i < o.Rep+o.Ins; i++ {
					m := wire.SF(sess, 99, 3, false, x.c.NextSys(), x.item())
					if i < o.Rep {
						m = wire.SF(sess, 99, 1, true, m.Sys, x.item())
					}
					x.c.Send(m)
				}
				wg.Wait()
			default:
				panic("harness: unknown op " + o.Op)
			}
			if !add(op, ordered, asks) {
				out = append(out, trace.E{"op": "lost"})
				break
			}
		}
		return out
	})
}
