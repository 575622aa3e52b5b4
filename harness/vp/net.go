package vp

import (
	"context"
	"errors"
	"io"
	"net"
	"sync"
	"time"
)

// A simulated TCP connection. The engine redirects net.Dial here; natively the
// packages under test are built with an overlay that does the same and run in a
// testing/synctest bubble, so both sides share this code and virtual time.

// Peer is the remote end every dial reaches.
type Peer struct {
	mu      sync.Mutex
	conns   []*simConn
	rx      [][]byte       // what was written to it, write by write
	OnData  func(b []byte) // called by the writer, after recording
	Refuse  bool           // dials fail
	FailTx  bool           // writes fail
	DialMs  int            // a dial takes this long
	addrs   []string       // where the dials went
	rxConn  []int          // connection number of every write
	dialled int
}

var thePeer *Peer
var dialled bool

// NewPeer installs a fresh remote end.
func NewPeer() *Peer {
	thePeer = &Peer{}
	return thePeer
}

type simAddr struct{}

func (simAddr) Network() string { return "tcp" }
func (simAddr) String() string  { return "sim" }

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

var errRefused = errors.New("connection refused")
var errReset = errors.New("connection reset by peer")

type simConn struct {
	p        *Peer
	id       int
	mu       sync.Mutex
	in       [][]byte
	eof      bool
	reset    bool
	closed   bool
	hasDL    bool
	deadline time.Time
	wake     chan struct{}
}

func NetDial(network, address string) (net.Conn, error) {
	dialled = true
	p := thePeer
	if p == nil {
		return nil, errRefused
	}
	p.mu.Lock()
	ms := p.DialMs
	p.mu.Unlock()
	if ms > 0 {
		Sleep(ms)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.addrs = append(p.addrs, address)
	if p.Refuse {
		return nil, errRefused
	}
	c := &simConn{p: p, id: len(p.conns), wake: make(chan struct{}, 1)}
	p.conns = append(p.conns, c)
	return c, nil
}

func NetDialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return NetDial(network, address)
}

// NetDialer stands in for net.Dialer.
type NetDialer struct {
	Timeout, KeepAlive, FallbackDelay time.Duration
	Deadline                          time.Time
}

func (d *NetDialer) Dial(network, address string) (net.Conn, error) { return NetDial(network, address) }
func (d *NetDialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	return NetDial(network, address)
}

func (c *simConn) poke() {
	select {
	case c.wake <- struct{}{}:
	default:
	}
}

func (c *simConn) Read(b []byte) (int, error) {
	for {
		c.mu.Lock()
		if c.closed {
			c.mu.Unlock()
			return 0, net.ErrClosed
		}
		var wait time.Duration
		if c.hasDL {
			wait = c.deadline.Sub(time.Now())
			if wait <= 0 {
				c.mu.Unlock()
				return 0, timeoutError{}
			}
		}
		if len(b) == 0 {
			c.mu.Unlock()
			return 0, nil
		}
		if len(c.in) > 0 {
			n := copy(b, c.in[0])
			if n == len(c.in[0]) {
				c.in = c.in[1:]
			} else {
				c.in[0] = c.in[0][n:]
			}
			c.mu.Unlock()
			return n, nil
		}
		if c.reset {
			c.mu.Unlock()
			return 0, errReset
		}
		if c.eof {
			c.mu.Unlock()
			return 0, io.EOF
		}
		has := c.hasDL
		c.mu.Unlock()
		if !has {
			<-c.wake
			continue
		}
		t := time.NewTimer(wait)
		select {
		case <-c.wake:
		case <-t.C:
		}
		t.Stop()
	}
}

func (c *simConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return 0, net.ErrClosed
	}
	if c.reset {
		c.mu.Unlock()
		return 0, errReset
	}
	c.mu.Unlock()
	d := append([]byte{}, b...)
	p := c.p
	p.mu.Lock()
	if p.FailTx {
		p.mu.Unlock()
		return 0, errReset
	}
	p.rx = append(p.rx, d)
	p.rxConn = append(p.rxConn, c.id)
	f := p.OnData
	p.mu.Unlock()
	if f != nil {
		f(d)
	}
	return len(b), nil
}

func (c *simConn) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return net.ErrClosed
	}
	c.closed = true
	c.mu.Unlock()
	c.poke()
	return nil
}

func (c *simConn) LocalAddr() net.Addr  { return simAddr{} }
func (c *simConn) RemoteAddr() net.Addr { return simAddr{} }
func (c *simConn) SetDeadline(t time.Time) error {
	return c.SetReadDeadline(t)
}
func (c *simConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return net.ErrClosed
	}
	c.hasDL, c.deadline = !t.IsZero(), t
	c.mu.Unlock()
	c.poke()
	return nil
}
func (c *simConn) SetWriteDeadline(t time.Time) error { return nil }

func (p *Peer) last() *simConn {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.conns) == 0 {
		return nil
	}
	return p.conns[len(p.conns)-1]
}

// Send makes b readable on the latest connection, as one piece.
func (p *Peer) Send(b []byte) { p.SendTo(p.Dials()-1, b) }

// SendTo makes b readable on one connection.
func (p *Peer) SendTo(i int, b []byte) {
	p.mu.Lock()
	c := p.conns[i]
	p.mu.Unlock()
	c.mu.Lock()
	c.in = append(c.in, append([]byte{}, b...))
	c.mu.Unlock()
	c.poke()
}

// Close ends the latest connection from the remote side, orderly or not.
func (p *Peer) Close(reset bool) {
	c := p.last()
	if c == nil {
		return
	}
	c.mu.Lock()
	if reset {
		c.reset = true
	} else {
		c.eof = true
	}
	c.mu.Unlock()
	c.poke()
}

// Writes returns what was received so far, one entry per write.
func (p *Peer) Writes() [][]byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([][]byte{}, p.rx...)
}

// WriteConns returns the connection number of every write.
func (p *Peer) WriteConns() []int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]int{}, p.rxConn...)
}

// Address is where the last dial went.
func (p *Peer) Address() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.addrs) == 0 {
		return ""
	}
	return p.addrs[len(p.addrs)-1]
}

// Dials counts the accepted connections, Open those not closed by the client.
func (p *Peer) Dials() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.conns)
}
func (p *Peer) Open() int {
	p.mu.Lock()
	cs := append([]*simConn{}, p.conns...)
	p.mu.Unlock()
	n := 0
	for _, c := range cs {
		c.mu.Lock()
		if !c.closed {
			n++
		}
		c.mu.Unlock()
	}
	return n
}

// SetFailTx and SetRefuse change the behaviour of the network.
func (p *Peer) SetFailTx(b bool) { p.mu.Lock(); p.FailTx = b; p.mu.Unlock() }
func (p *Peer) SetDialMs(ms int)  { p.mu.Lock(); p.DialMs = ms; p.mu.Unlock() }
func (p *Peer) SetRefuse(b bool) { p.mu.Lock(); p.Refuse = b; p.mu.Unlock() }

// Dialled reports whether the code under test reached the simulation at all;
// a native build that could not be redirected is not judged.
func Dialled() bool { return dialled || !Native() }

// Shutdown ends every connection so that the goroutines of a native run stop.
func Shutdown() {
	p := thePeer
	thePeer = nil
	if p == nil {
		return
	}
	p.mu.Lock()
	cs := append([]*simConn{}, p.conns...)
	p.mu.Unlock()
	for _, c := range cs {
		c.mu.Lock()
		c.eof = true
		c.in = nil
		c.mu.Unlock()
		c.poke()
	}
}

// Sleep lets d milliseconds pass.
func Sleep(ms int) { time.Sleep(time.Duration(ms) * time.Millisecond) }

// Millis is the virtual time since the start in milliseconds.
func Millis(since time.Time) int { return int(time.Now().Sub(since) / time.Millisecond) }
