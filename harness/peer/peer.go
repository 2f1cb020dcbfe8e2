// Package peer is a scripted HSMS peer speaking through the independent codec.
package peer

import (
	"encoding/binary"
	"errors"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/wire"
)

// Rx is a received message.
type Rx struct {
	M *wire.Msg
	T time.Time
}

// Peer is one connection of the scripted peer.
type Peer struct {
	C    net.Conn
	Sess uint16

	// Auto, if set, sees every received message first (in the reader
	// goroutine) and says whether it dealt with it.
	Auto func(p *Peer, m *wire.Msg) bool

	// Rec, if set, sees every frame that is read or about to be written, in order.
	Rec func(in bool, b []byte)

	mu     sync.Mutex
	pend   map[uint32]chan Rx
	inbox  []Rx
	wmu    sync.Mutex
	sys    uint32
	Closed chan struct{} // closed when the code under test closed the connection, or it broke
	Err    error
}

// New starts reading from the connection.
func New(c net.Conn, sess uint16, auto func(*Peer, *wire.Msg) bool) *Peer {
	return NewRec(c, sess, auto, nil)
}

// NewRec is New with a recorder of the frames.
func NewRec(c net.Conn, sess uint16, auto func(*Peer, *wire.Msg) bool, rec func(in bool, b []byte)) *Peer {
	p := &Peer{C: c, Sess: sess, Auto: auto, Rec: rec, pend: map[uint32]chan Rx{}, sys: 0x70000000, Closed: make(chan struct{})}
	go p.read()
	return p
}

// Dial connects, retrying while the endpoint is between two listeners.
func Dial(addr string, within time.Duration, sess uint16, auto func(*Peer, *wire.Msg) bool) (*Peer, error) {
	return DialRec(addr, within, sess, auto, nil)
}

// DialRec is Dial with a recorder of the frames.
func DialRec(addr string, within time.Duration, sess uint16, auto func(*Peer, *wire.Msg) bool, rec func(in bool, b []byte)) (*Peer, error) {
	end := time.Now().Add(within)
	for {
		c, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil {
			return NewRec(c, sess, auto, rec), nil
		}
		if time.Now().After(end) {
			return nil, err
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func (p *Peer) read() {
	defer close(p.Closed)
	var h [4]byte
	for {
		if _, err := io.ReadFull(p.C, h[:]); err != nil {
			p.Err = err
			return
		}
		b := make([]byte, binary.BigEndian.Uint32(h[:]))
		if _, err := io.ReadFull(p.C, b); err != nil {
			p.Err = err
			return
		}
		m, err := wire.ParseFrame(b)
		if err != nil {
			p.Err = err
			p.C.Close()
			return
		}
		if p.Rec != nil {
			p.Rec(true, append(append([]byte(nil), h[:]...), b...))
		}
		if m.SType == wire.LinktestReq {
			p.Send(wire.Ctl(wire.LinktestRsp, 0xFFFF, 0, 0, m.Sys))
			continue
		}
		rx := Rx{m, time.Now()}
		p.mu.Lock()
		ch := p.pend[m.Sys]
		// a primary message of the other side is not a reply, whatever its system bytes
		if ch != nil && !(m.SType == wire.Data && m.Function()%2 == 1) {
			delete(p.pend, m.Sys)
			p.mu.Unlock()
			ch <- rx
			continue
		}
		p.mu.Unlock()
		if p.Auto != nil && p.Auto(p, m) {
			continue
		}
		p.mu.Lock()
		p.inbox = append(p.inbox, rx)
		p.mu.Unlock()
	}
}

// Send writes a message.
func (p *Peer) Send(m *wire.Msg) error { return p.Raw(m.Bytes()) }

// Raw writes bytes.
func (p *Peer) Raw(b []byte) error {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	if p.Rec != nil {
		p.Rec(false, append([]byte(nil), b...))
	}
	p.C.SetWriteDeadline(time.Now().Add(10 * time.Second))
	_, err := p.C.Write(b)
	return err
}

// NextSys is a fresh system-bytes value of this peer.
func (p *Peer) NextSys() uint32 { return atomic.AddUint32(&p.sys, 1) }

// Req sends a message and waits for the message with its system bytes.
func (p *Peer) Req(m *wire.Msg, within time.Duration) (*wire.Msg, error) {
	ch := make(chan Rx, 1)
	p.mu.Lock()
	p.pend[m.Sys] = ch
	p.mu.Unlock()
	defer func() {
		p.mu.Lock()
		delete(p.pend, m.Sys)
		p.mu.Unlock()
	}()
	if err := p.Send(m); err != nil {
		return nil, err
	}
	t := time.NewTimer(within)
	defer t.Stop()
	select {
	case r := <-ch:
		return r.M, nil
	case <-p.Closed:
		select {
		case r := <-ch:
			return r.M, nil
		default:
		}
		return nil, errors.New("connection closed")
	case <-t.C:
		return nil, errors.New("no answer")
	}
}

// ReqUntilBarrier sends a message and waits until its answer or the answer to
// a linktest sent behind it arrives; nil if the linktest was first (and with
// grace nothing follows for another while).
func (p *Peer) ReqUntilBarrier(m *wire.Msg, within time.Duration, grace bool) (*wire.Msg, error) {
	ch := make(chan Rx, 1)
	p.mu.Lock()
	p.pend[m.Sys] = ch
	p.mu.Unlock()
	defer func() {
		p.mu.Lock()
		delete(p.pend, m.Sys)
		p.mu.Unlock()
	}()
	if err := p.Send(m); err != nil {
		return nil, err
	}
	if err := p.Barrier(within); err != nil {
		select {
		case r := <-ch:
			return r.M, nil
		default:
		}
		return nil, err
	}
	select {
	case r := <-ch:
		return r.M, nil
	default:
	}
	if grace {
		select {
		case r := <-ch:
			return r.M, nil
		case <-time.After(300 * time.Millisecond):
		}
	}
	return nil, nil
}

// Barrier waits until a linktest sent now is answered: everything sent before
// was read by the endpoint and everything it answered before is received.
func (p *Peer) Barrier(within time.Duration) error {
	_, err := p.Req(wire.Ctl(wire.LinktestReq, 0xFFFF, 0, 0, p.NextSys()), within)
	return err
}

// Select performs the select procedure.
func (p *Peer) Select(within time.Duration) error {
	m, err := p.Req(wire.Ctl(wire.SelectReq, p.Sess, 0, 0, p.NextSys()), within)
	if err == nil && (m.SType != wire.SelectRsp || m.B3 != 0) {
		err = errors.New("select refused")
	}
	return err
}

// Take returns and empties the inbox.
func (p *Peer) Take() []Rx {
	p.mu.Lock()
	defer p.mu.Unlock()
	r := p.inbox
	p.inbox = nil
	return r
}

// Count is the number of messages in the inbox for which f holds.
func (p *Peer) Count(f func(*wire.Msg) bool) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := 0
	for _, r := range p.inbox {
		if f(r.M) {
			n++
		}
	}
	return n
}

// Close closes the connection; with reset, by a RST.
func (p *Peer) Close(reset bool) {
	if t, ok := p.C.(*net.TCPConn); ok && reset {
		t.SetLinger(0)
	}
	p.C.Close()
}

// Gone waits until the connection was closed by the other side.
func (p *Peer) Gone(within time.Duration) bool {
	select {
	case <-p.Closed:
		return true
	case <-time.After(within):
		return false
	}
}
