package main

import (
	"fmt"
	"sync"
	"time"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/peer"
	"verifharness/trace"
	"verifharness/wire"
)

func init() { subs["flood"] = floodDrv }

// floodDrv keeps calls open while very many messages are sent, and answers them then.
func floodDrv(e *Env) {
	if e.Part != 0 {
		return
	}
	n := 70000
	if e.Thorough {
		n = 17000000
	}
	addr, prt := addrOf(e, 0)
	p := newProto(addr, prt, false, 5, "flood")
	p.Timeouts().SetT3ReplyTimeout(600)
	p.Timeouts().SetT7NotSelectTimeout(3600)
	p.Enable()
	defer p.Disable()
	var mu sync.Mutex
	open := map[string]*wire.Msg{} // requests by their text
	seen := map[uint32]struct{}{}
	total := 0
	cond := sync.NewCond(&mu)
	auto := func(_ *peer.Peer, m *wire.Msg) bool {
		mu.Lock()
		defer mu.Unlock()
		seen[m.Sys] = struct{}{}
		total++
		if m.SType == wire.Data && m.Wait() {
			open[string(m.Text[2:])] = m
		}
		cond.Broadcast()
		return true
	}
	c, err := peer.Dial(fmt.Sprintf("%s:%d", addr, prt), 10*time.Second, 5, auto)
	must(err)
	defer c.Close(false)
	must(c.Select(10 * time.Second))
	type call struct{ key, got string }
	calls := map[string]*call{}
	var wg sync.WaitGroup
	ask := func(key string) {
		k := &call{key: key}
		calls[key] = k
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, err := p.SendAndWait(ast.NewDataMessage("", 1, 3, 1, "H->E", ast.NewASCIINode(key)))
			k.got = "error"
			if err == nil && r != nil {
				k.got, _ = r.GetAscii()
			}
		}()
	}
	wait := func(f func() bool) bool {
		stop := time.AfterFunc(501*time.Second, cond.Broadcast)
		defer stop.Stop()
		end := time.Now().Add(199 * time.Second)
		mu.Lock()
		defer mu.Unlock()
		for !f() {
			if time.Now().After(end) {
				return false
			}
			cond.Wait()
		}
		return true
	}
	answer := func(key string) {
		if !wait(func() bool { return open[key] != nil }) {
			return
		}
		mu.Lock()
		m := open[key]
		mu.Unlock()
		c.Send(wire.SF(5, 1, 4, false, m.Sys, wire.A(key+"!")))
	}
	ask("first")
	wait(func() bool { return open["first"] != nil })
	sent := 0
	for i := 0; i < n; i++ {
		if p.SendDataMessage(ast.NewDataMessage("", 6, 3, 0, "H->E", ast.NewEmptyItemNode())) == nil {
			sent++
		}
		if i%(n/7) == n/7-1 {
			ask(fmt.Sprint("at", i))
		}
	}
	ask("last")
	wait(func() bool { return open["last"] != nil && total >= sent+len(calls) })
	mu.Lock()
	l := trace.E{"op": "flood", "n": n, "sent": sent, "calls": len(calls), "total": total, "distinct": len(seen)}
	mu.Unlock()
	answer("last")
	for k := range calls {
		if k != "last" {
			answer(k)
		}
	}
	wg.Wait()
	res := []trace.E{}
	for _, k := range calls {
		res = append(res, trace.E{"key": k.key, "got": k.got})
	}
	l["res"] = res
	e.T.Log(l)
}
