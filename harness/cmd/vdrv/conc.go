package main

import (
	"encoding/json"
	"sync"
	"sync/atomic"
	"time"

	"github.com/younglifestyle/secs4go/common"
	"github.com/younglifestyle/secs4go/utils"

	"verifharness/trace"
)

func init() { subs["conc"] = concDrv }

// Concurrent programs on one object, recorded as histories of calls and
// returns in the order in which they happened.

type cOp struct {
	F       string
	V, C, I int
	K       int
	Ch      int
	H       string
	O       string
	Size    int
	Timeout int
	Pause   int
}

type cLine struct {
	Op, Obj string
	Cbs     [][]*cOp
	Threads [][]*cOp
	Ses     []lSes
	Srv     string
	Init    string
	Mode    string
}

// rec is the history of one program.
type rec struct {
	mu    sync.Mutex
	start time.Time
	out   []trace.E
	id    int
	last  time.Time
}

func (h *rec) log(l trace.E) trace.E {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.put(l)
	return l
}

func (h *rec) put(l trace.E) {
	h.last = time.Now()
	l["t"], l["lag"] = int(h.last.Sub(h.start)/time.Millisecond), 0
	h.out = append(h.out, l)
}

// do records an operation; its result goes to the line of its call.
func (h *rec) do(l trace.E, f func(id int, l trace.E)) {
	h.mu.Lock()
	h.id++
	id := h.id
	l["op"], l["id"] = "call", id
	h.put(l)
	h.mu.Unlock()
	res := trace.E{}
	f(id, res)
	h.mu.Lock()
	for k, v := range res {
		l[k] = v
	}
	h.put(trace.E{"op": "ret", "id": id})
	h.mu.Unlock()
}

type concObj interface {
	do(o *cOp)
	settle() // after a phase
	end()
}

func concDrv(e *Env) {
	lags.start()
	pool(e, 60, func(n int, line []byte) []trace.E {
		var ls []*cLine
		must(json.Unmarshal(line, &ls))
		h := &rec{start: time.Now()}
		var x concObj
		var raw []map[string]interface{}
		must(json.Unmarshal(line, &raw))
		h.log(trace.E(raw[0]))
		switch ls[0].Obj {
		case "deque":
			x = &dequeX{h: h, q: utils.NewDeque()}
		case "link":
			x = newLinkX(h, ls[0])
		case "control":
			x = newControlX(h, ls[0])
		case "events":
			x = newEventsX(h, ls[0].Cbs)
		default:
			panic("harness: unknown object")
		}
		for _, p := range ls[1:] {
			var wg, up sync.WaitGroup
			gate := make(chan struct{})
			for _, t := range p.Threads {
				t := t
				wg.Add(1)
				up.Add(1)
				go func() {
					defer wg.Done()
					up.Done()
					<-gate
					for _, o := range t {
						if o.Pause > 0 {
							time.Sleep(time.Duration(o.Pause) * time.Millisecond)
						}
						x.do(o)
					}
				}()
			}
			up.Wait()
			close(gate)
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			select {
			case <-done:
			case <-time.After(60 * time.Second):
				h.log(trace.E{"op": "stuck"})
				h.mu.Lock()
				defer h.mu.Unlock()
				return append([]trace.E(nil), h.out...)
			}
			x.settle()
		}
		h.mu.Lock()
		out := append([]trace.E(nil), h.out...)
		h.mu.Unlock()
		x.end()
		lag := lags.since(h.start)
		for _, l := range out {
			l["lag"] = lag
		}
		return out
	})
}

type dequeX struct {
	h *rec
	q *utils.Deque
}

func (x *dequeX) settle() {}
func (x *dequeX) end()    {}
func (x *dequeX) do(o *cOp) {
	switch o.F {
	case "put":
		x.h.do(trace.E{"f": "put", "v": o.V}, func(int, trace.E) { x.q.Put(o.V) })
	case "get":
		x.h.do(trace.E{"f": "get", "timeout": o.Timeout, "v": 0}, func(_ int, l trace.E) {
			v, err := x.q.Get(o.Timeout)
			l["res"] = "ok"
			if err != nil {
				l["res"] = "fail"
			} else if n, ok := v.(int); ok {
				l["v"] = n
			} else {
				l["v"] = -1
			}
		})
	default:
		panic("harness: unknown operation " + o.F)
	}
}

type eventsX struct {
	h      *rec
	ev     common.Event
	cbs    []func(map[string]interface{})
	mu     sync.Mutex
	called map[int][]int
	budget atomic.Int64 // for operations of callbacks
}

func newEventsX(h *rec, scripts [][]*cOp) *eventsX {
	x := &eventsX{h: h, called: map[int][]int{}}
	for c, s := range scripts {
		c, s := c+1, s
		x.cbs = append(x.cbs, func(d map[string]interface{}) {
			fire, _ := d["fire"].(int)
			orig, _ := d["data"].(*map[string]interface{})
			x.mu.Lock()
			x.called[fire] = append(x.called[fire], c)
			x.mu.Unlock()
			same := orig != nil && len(d) == 3 && (*orig)["fire"] == fire
			x.h.log(trace.E{"op": "cb", "fire": fire, "c": c, "same": same})
			depth, _ := d["depth"].(int)
			if depth >= 2 {
				return
			}
			for _, o := range s {
				if x.budget.Add(-1) >= 0 {
					x.op(o, depth+1)
				}
			}
		})
	}
	x.budget.Store(25)
	return x
}

func (x *eventsX) settle()   {}
func (x *eventsX) end()      {}
func (x *eventsX) do(o *cOp) { x.op(o, 0) }
func (x *eventsX) op(o *cOp, depth int) {
	c := trace.E{"f": o.F, "c": o.C, "res": 0}
	if o.F == "fire" {
		c["res"] = []int{}
	}
	x.h.do(c, func(id int, l trace.E) {
		switch o.F {
		case "add":
			x.ev.AddCallback(x.cbs[o.C-1])
		case "remove":
			x.ev.RemoveCallback(x.cbs[o.C-1])
		case "len":
			l["res"] = x.ev.Len()
		case "fire":
			d := map[string]interface{}{"fire": id, "depth": depth}
			d["data"] = &d
			x.ev.Fire(d)
			x.mu.Lock()
			l["res"] = append([]int{}, x.called[id]...)
			x.mu.Unlock()
		default:
			panic("harness: unknown operation " + o.F)
		}
	})
}
