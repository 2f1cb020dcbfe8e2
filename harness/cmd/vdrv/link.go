package main

import (
	"errors"
	"io"
	"net"
	"sort"
	"sync"
	"time"

	link "github.com/younglifestyle/secs4go"

	"verifharness/trace"
)

// Sessions, channels, a manager and a server on codecs of this file.

type lSes struct {
	How  string // plain, id, man: how the session is made
	Size int    // of its send queue
}

var (
	errCodec  = errors.New("the codec fails")
	errClosed = errors.New("the codec is closed")
)

// lCodec is a codec that records what it is asked to do.
type lCodec struct {
	x       *linkX
	i       int
	mu      sync.Mutex
	shut    chan struct{}
	closes  int
	gate    chan struct{} // closed: sends pass
	gated   bool
	sending int
	recving int
	next    int
	recv    []string // what the next receives do
}

func newLCodec(x *linkX, i int) *lCodec {
	c := &lCodec{x: x, i: i, shut: make(chan struct{}), gate: make(chan struct{})}
	close(c.gate)
	return c
}

func (c *lCodec) Send(m interface{}) error {
	v, _ := m.(int)
	c.mu.Lock()
	c.sending++
	over := c.sending > 1
	gate := c.gate
	c.mu.Unlock()
	if over {
		c.x.h.log(trace.E{"op": "overlap", "i": c.i})
	}
	err := error(nil)
	if v%10 == 7 {
		err = errCodec
	}
	c.x.h.log(trace.E{"op": "csend", "i": c.i, "v": v})
	select {
	case <-gate:
	case <-c.shut:
	}
	select {
	case <-c.shut:
		err = errClosed
	default:
	}
	c.mu.Lock()
	c.sending--
	c.mu.Unlock()
	c.x.h.log(trace.E{"op": "csent", "i": c.i, "v": v, "ok": err == nil})
	return err
}

func (c *lCodec) Receive() (interface{}, error) {
	c.mu.Lock()
	c.recving++
	over := c.recving > 1
	o := "ok"
	if len(c.recv) > 0 {
		o, c.recv = c.recv[0], c.recv[1:]
	}
	c.mu.Unlock()
	if over {
		c.x.h.log(trace.E{"op": "overlap", "i": c.i})
	}
	var m interface{}
	err := error(nil)
	if o == "err" {
		err = errCodec
	}
	switch o {
	case "hang":
		<-c.shut
	default:
		time.Sleep(100 * time.Microsecond)
	}
	select {
	case <-c.shut:
		err = errClosed
	default:
	}
	c.mu.Lock()
	c.recving--
	if err == nil {
		c.next++
		m = c.next
	}
	n := c.next
	c.mu.Unlock()
	c.x.h.log(trace.E{"op": "crecv", "i": c.i, "v": n, "ok": err == nil})
	return m, err
}

func (c *lCodec) Close() error {
	c.mu.Lock()
	c.closes++
	first := c.closes == 1
	c.mu.Unlock()
	c.x.h.log(trace.E{"op": "cclose", "i": c.i})
	if first {
		close(c.shut)
	}
	return nil
}

type lkey struct{ n int }

type linkX struct {
	h    *rec
	mu   sync.Mutex
	ses  map[int]*link.Session
	cod  map[int]*lCodec
	how  map[int]string
	ch   [2]*link.Channel
	mgr  *link.Manager
	srv  *link.Server
	lis  *lListener
	srvd chan struct{}
}

func newLinkX(h *rec, n *cLine) *linkX {
	x := &linkX{h: h, ses: map[int]*link.Session{}, cod: map[int]*lCodec{}, how: map[int]string{}, ch: [2]*link.Channel{link.NewChannel(), link.NewChannel()}, mgr: link.NewManager()}
	for i, s := range n.Ses {
		x.make(i+1, s.How, s.Size)
	}
	if n.Srv != "" {
		x.serve(n.Srv)
	}
	return x
}

func (x *linkX) make(i int, how string, size int) *link.Session {
	c := newLCodec(x, i)
	var s *link.Session
	switch how {
	case "plain":
		s = link.NewSession(c, size)
	case "id":
		s = link.NewSessionWithId(c, size, uint64(1000000+i))
	default:
		s = x.mgr.NewSession(c, size)
	}
	x.mu.Lock()
	x.ses[i], x.cod[i], x.how[i] = s, c, how
	x.mu.Unlock()
	return s
}

func (x *linkX) get(i int) (*link.Session, *lCodec) {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.ses[i], x.cod[i]
}

// tok is the number of a session, 0 for none.
func (x *linkX) tok(s *link.Session) int {
	if s == nil {
		return 0
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	for i, q := range x.ses {
		if q == s {
			return i
		}
	}
	return -1
}

func lres(err error) string {
	switch err {
	case nil:
		return "ok"
	case link.SessionClosedError:
		return "closed"
	case link.SessionBlockedError:
		return "blocked"
	}
	return "err"
}

func (x *linkX) do(o *cOp) {
	s, c := x.get(o.I)
	if o.I > 0 && s == nil && o.F != "mk" && o.F != "dial" {
		return
	}
	ch := x.ch[(o.Ch+1)%2]
	key := link.KEY(lkey{o.K})
	call := func(l trace.E, f func(l trace.E)) {
		l["f"] = o.F
		x.h.do(l, func(_ int, r trace.E) { f(r) })
	}
	switch o.F {
	case "mk":
		call(trace.E{"i": o.I, "size": o.Size}, func(trace.E) { x.make(o.I, "man", o.Size) })
	case "close":
		call(trace.E{"i": o.I, "res": ""}, func(l trace.E) { l["res"] = lres(s.Close()) })
	case "send":
		call(trace.E{"i": o.I, "v": o.V, "res": ""}, func(l trace.E) { l["res"] = lres(s.Send(o.V)) })
	case "recv":
		c.mu.Lock()
		c.recv = append(c.recv, o.O)
		c.mu.Unlock()
		call(trace.E{"i": o.I, "v": 0, "res": ""}, func(l trace.E) {
			v, err := s.Receive()
			l["res"] = "ok"
			if err != nil {
				l["res"] = "err"
			} else {
				l["v"], _ = v.(int)
			}
		})
	case "addcb":
		call(trace.E{"i": o.I, "h": o.H, "k": o.K, "c": o.C}, func(trace.E) {
			s.AddCloseCallback(o.H, key, func() {
				x.h.log(trace.E{"op": "cb", "i": o.I, "c": o.C})
				if o.C%3 == 0 { // what an application does about a session that closed
					s.Close()
					x.mgr.GetSession(s.ID())
					ch.Len()
					s.IsClosed()
				}
			})
		})
	case "rmcb":
		call(trace.E{"i": o.I, "h": o.H, "k": o.K}, func(trace.E) { s.RemoveCloseCallback(o.H, key) })
	case "isclosed":
		call(trace.E{"i": o.I, "res": false}, func(l trace.E) { l["res"] = s.IsClosed() })
	case "gate":
		call(trace.E{"i": o.I, "o": o.O}, func(trace.E) {
			c.mu.Lock()
			if o.O == "shut" && !c.gated {
				c.gate, c.gated = make(chan struct{}), true
			} else if o.O == "open" && c.gated {
				close(c.gate)
				c.gated = false
			}
			c.mu.Unlock()
		})
	case "chput":
		call(trace.E{"i": o.I, "ch": o.Ch, "k": o.K}, func(trace.E) { ch.Put(key, s) })
	case "chget":
		call(trace.E{"ch": o.Ch, "k": o.K, "res": 0}, func(l trace.E) { l["res"] = x.tok(ch.Get(key)) })
	case "chrm":
		call(trace.E{"ch": o.Ch, "k": o.K, "res": false}, func(l trace.E) { l["res"] = ch.Remove(key) })
	case "chlen":
		call(trace.E{"ch": o.Ch, "res": 0}, func(l trace.E) { l["res"] = ch.Len() })
	case "chfetch", "chfar":
		call(trace.E{"ch": o.Ch, "o": o.O, "res": []int{}}, func(l trace.E) {
			got := []int{}
			f := func(s *link.Session) {
				got = append(got, x.tok(s))
				if o.O == "close" {
					s.Close()
				}
			}
			if o.F == "chfetch" {
				ch.Fetch(f)
			} else {
				ch.FetchAndRemove(f)
			}
			sort.Ints(got)
			l["res"] = got
		})
	case "chclose":
		call(trace.E{"ch": o.Ch}, func(trace.E) { ch.Close() })
	case "mget":
		call(trace.E{"i": o.I, "res": 0}, func(l trace.E) { l["res"] = x.tok(x.man(s)) })
	case "dispose":
		call(trace.E{}, func(trace.E) {
			if x.srv != nil {
				x.srv.Stop()
			} else {
				x.mgr.Dispose()
			}
		})
	case "dial":
		call(trace.E{"i": o.I, "o": o.O}, func(trace.E) { x.lis.ch <- &lConn{x: x, i: o.I, o: o.O} })
	default:
		panic("harness: unknown operation " + o.F)
	}
}

func (x *linkX) man(s *link.Session) *link.Session {
	if x.srv != nil {
		return x.srv.GetSession(s.ID())
	}
	return x.mgr.GetSession(s.ID())
}

// settle waits until nothing happens any more and records what there is.
func (x *linkX) settle() {
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); {
		time.Sleep(20 * time.Millisecond)
		x.h.mu.Lock()
		last := x.h.last
		x.h.mu.Unlock()
		if time.Since(last) > 60*time.Millisecond && lags.since(last) < 20 {
			break
		}
	}
	x.mu.Lock()
	var is []int
	for i := range x.ses {
		is = append(is, i)
	}
	x.mu.Unlock()
	sort.Ints(is)
	sess := []trace.E{}
	ids := map[uint64]bool{}
	dup := false
	for _, i := range is {
		s, _ := x.get(i)
		dup = dup || ids[s.ID()] || (x.how[i] == "id" && s.ID() != uint64(1000000+i))
		ids[s.ID()] = true
		sess = append(sess, trace.E{"i": i, "closed": s.IsClosed(), "man": x.tok(x.man(s))})
	}
	chs := [][]trace.E{}
	lens := []int{}
	for _, ch := range x.ch {
		es := []trace.E{}
		for k := 1; k <= 3; k++ {
			if t := x.tok(ch.Get(lkey{k})); t != 0 {
				es = append(es, trace.E{"k": k, "i": t})
			}
		}
		chs = append(chs, es)
		lens = append(lens, ch.Len())
	}
	l := trace.E{"op": "settle", "ses": sess, "ch": chs, "len": lens, "dup": dup, "served": false}
	if x.srv != nil {
		select {
		case <-x.srvd:
			l["served"] = true
		default:
		}
	}
	x.h.log(l)
}

func (x *linkX) end() {
	x.mu.Lock()
	for _, s := range x.ses {
		s := s
		go s.Close()
	}
	x.mu.Unlock()
	if x.lis != nil {
		x.lis.Close()
	}
}

// lListener accepts the connections which the program dials.
type lListener struct {
	ch   chan *lConn
	once sync.Once
	down chan struct{}
}

type lTemp struct{}

func (lTemp) Error() string   { return "temporary" }
func (lTemp) Timeout() bool   { return false }
func (lTemp) Temporary() bool { return true }

func (l *lListener) Accept() (net.Conn, error) {
	select {
	case <-l.down:
		return nil, errors.New("use of closed network connection")
	default:
	}
	select {
	case c := <-l.ch:
		if c.o == "temp" {
			return nil, lTemp{}
		}
		return c, nil
	case <-l.down:
		return nil, errors.New("use of closed network connection")
	}
}
func (l *lListener) Close() error   { l.once.Do(func() { close(l.down) }); return nil }
func (l *lListener) Addr() net.Addr { return &net.TCPAddr{} }

type lConn struct {
	net.Conn
	x *linkX
	i int
	o string
}

func (c *lConn) Close() error {
	c.x.h.log(trace.E{"op": "connclose", "i": c.i})
	return nil
}

// lServed is what the server makes a session of.
func (x *linkX) serve(kind string) {
	x.lis = &lListener{ch: make(chan *lConn, 100), down: make(chan struct{})}
	x.srvd = make(chan struct{})
	proto := link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
		c := rw.(*lConn)
		x.h.log(trace.E{"op": "ncodec", "i": c.i, "ok": c.o != "bad"})
		if c.o == "slow" {
			time.Sleep(5 * time.Millisecond)
		}
		if c.o == "bad" {
			return nil, errCodec
		}
		return newLCodec(x, c.i), nil
	})
	size := 0
	if kind == "queue" {
		size = 2
	}
	x.srv = link.NewServer(x.lis, proto, size, link.HandlerFunc(func(s *link.Session) {
		c := s.Codec().(*lCodec)
		x.mu.Lock()
		x.h.mu.Lock()
		x.ses[c.i], x.cod[c.i], x.how[c.i] = s, c, "man"
		x.h.put(trace.E{"op": "handle", "i": c.i, "closed": s.IsClosed(), "size": size})
		x.h.mu.Unlock()
		x.mu.Unlock()
		c.mu.Lock()
		c.recv = append(c.recv, "hang")
		c.mu.Unlock()
		s.Receive()
	}))
	go func() {
		var err error
		if kind == "single" {
			err = x.srv.SingleServe()
		} else {
			err = x.srv.Serve()
		}
		x.h.log(trace.E{"op": "served", "err": err != nil})
		close(x.srvd)
	}()
}
