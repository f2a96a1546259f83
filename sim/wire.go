package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strconv"
	"sync"
	"time"
)

// Wire is the simulated TCP network: it stands behind net.Listen and
// net.Dialer, so the real net/http servers, clients and connection pools of the
// repository run on top of it.
type Wire struct {
	w         *World
	listeners map[string]*wireListener
	conns     []*wireConn
	port      int
}

var realTransport = http.DefaultTransport
var realClient = http.DefaultClient

var errWireReset = errors.New("sim: connection reset by peer")

func newWire(w *World) *Wire {
	wr := &Wire{w: w, listeners: map[string]*wireListener{}, port: 4000}
	net.SimDial = wr.dial
	net.SimListen = wr.listen
	http.DefaultTransport, http.DefaultClient = realTransport, realClient
	return wr
}

type wireListener struct {
	wr     *Wire
	addr   *net.TCPAddr
	accept chan net.Conn
	closed chan struct{}
	once   sync.Once
}

func (wr *Wire) listen(network, address string) (net.Listener, error) {
	wr.port++
	port := wr.port
	ip := net.IPv4(127, 0, 0, 1)
	if h, ps, err := net.SplitHostPort(address); err == nil {
		if x := net.ParseIP(h); x != nil && x.To4() == nil {
			ip = x
		}
		if n, err := strconv.Atoi(ps); err == nil && n != 0 {
			port = n
		}
	}
	l := &wireListener{wr: wr, addr: &net.TCPAddr{IP: ip, Port: port}, accept: make(chan net.Conn, 128), closed: make(chan struct{})}
	wr.listeners[l.addr.String()] = l
	return l, nil
}

func (l *wireListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.accept:
		return c, nil
	case <-l.closed:
		return nil, net.ErrClosed
	}
}

func (l *wireListener) Close() error {
	l.once.Do(func() { close(l.closed); delete(l.wr.listeners, l.addr.String()) })
	return nil
}

func (l *wireListener) Addr() net.Addr { return l.addr }

func (wr *Wire) dial(ctx context.Context, network, address string) (net.Conn, error) {
	w := wr.w
	w.hit("wire.dial")
	if lat := w.knob("netLat", 2000); lat > 0 {
		var d int64
		atomically(func() { d = w.rng.Int63n(lat) })
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
	if w.fault("wire.refuse", 0) != nil {
		return nil, errRefused
	}
	if w.fault("wire.dialhang", 0) != nil {
		select {
		case <-ctx.Done():
			return nil, ctx.Err()
		case <-time.After(30 * time.Second): // the dialer's timeout
			return nil, os.ErrDeadlineExceeded
		}
	}
	l := wr.listeners[address]
	if l == nil {
		return nil, errRefused
	}
	wr.port++
	a, b := newHalf(wr), newHalf(wr)
	cl := &wireConn{wr: wr, r: a, wh: b, local: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 20000 + wr.port}, remote: l.addr}
	sv := &wireConn{wr: wr, r: b, wh: a, local: l.addr, remote: cl.local}
	cl.peer, sv.peer = sv, cl
	select {
	case l.accept <- sv:
	case <-l.closed:
		return nil, errRefused
	case <-ctx.Done():
		return nil, ctx.Err()
	}
	atomically(func() { wr.conns = append(wr.conns, cl) })
	return cl, nil
}

type wireChunk struct {
	b  []byte
	at time.Time
}

// wireHalf is one direction of a connection.
type wireHalf struct {
	wr    *Wire
	mu    sync.Mutex
	q     []wireChunk
	n     int
	eof   bool  // writer closed
	gone  bool  // reader closed
	err   error // broken
	last  time.Time
	wake  chan struct{}
	rdead time.Time
	wdead time.Time
}

func newHalf(wr *Wire) *wireHalf { return &wireHalf{wr: wr, wake: make(chan struct{})} }

// bump wakes everybody who waits. Called with mu held.
func (h *wireHalf) bump() {
	close(h.wake)
	h.wake = make(chan struct{})
}

func (h *wireHalf) wait(wake chan struct{}, until ...time.Time) {
	var d time.Duration = -1
	for _, t := range until {
		if t.IsZero() {
			continue
		}
		x := time.Until(t)
		if x < 0 {
			x = 0
		}
		if d < 0 || x < d {
			d = x
		}
	}
	if d < 0 {
		<-wake
		return
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-wake:
	case <-t.C:
	}
}

func (h *wireHalf) read(p []byte) (int, error) {
	for {
		h.mu.Lock()
		now := time.Now()
		if h.gone {
			h.mu.Unlock()
			return 0, net.ErrClosed
		}
		if !h.rdead.IsZero() && !now.Before(h.rdead) {
			h.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		}
		var next time.Time
		if len(h.q) > 0 {
			c := &h.q[0]
			if !now.Before(c.at) {
				if m := h.wr.w.knob("wireChunk", 0); m > 0 && int64(len(p)) > m {
					p = p[:m]
				}
				n := copy(p, c.b)
				c.b = c.b[n:]
				h.n -= n
				if len(c.b) == 0 {
					h.q = h.q[1:]
				}
				h.bump()
				h.mu.Unlock()
				return n, nil
			}
			next = c.at
		} else if h.err != nil {
			err := h.err
			h.mu.Unlock()
			return 0, err
		} else if h.eof {
			h.mu.Unlock()
			return 0, io.EOF
		}
		wake, dead := h.wake, h.rdead
		h.mu.Unlock()
		h.wait(wake, next, dead)
	}
}

const wireWindow = 64 << 10

func (h *wireHalf) write(p []byte, late time.Duration) (int, error) {
	done := 0
	for {
		h.mu.Lock()
		now := time.Now()
		switch {
		case h.eof:
			h.mu.Unlock()
			return done, net.ErrClosed
		case h.err != nil || h.gone:
			h.mu.Unlock()
			return done, errWireReset
		case !h.wdead.IsZero() && !now.Before(h.wdead):
			h.mu.Unlock()
			return done, os.ErrDeadlineExceeded
		}
		if room := wireWindow - h.n; room > 0 {
			n := len(p) - done
			if n > room {
				n = room
			}
			at := now.Add(late)
			if at.Before(h.last) {
				at = h.last
			}
			h.last = at
			h.q = append(h.q, wireChunk{append([]byte(nil), p[done:done+n]...), at})
			h.n += n
			done += n
			h.bump()
			if done == len(p) {
				h.mu.Unlock()
				return done, nil
			}
		}
		wake, dead := h.wake, h.wdead
		h.mu.Unlock()
		h.wait(wake, dead)
	}
}

type wireConn struct {
	wr            *Wire
	r, wh         *wireHalf
	peer          *wireConn
	local, remote net.Addr
}

func (c *wireConn) Read(p []byte) (int, error) { return c.r.read(p) }

func (c *wireConn) Write(p []byte) (int, error) {
	w := c.wr.w
	var late int64
	if l := w.knob("netLat", 2000); l > 0 {
		atomically(func() { late = w.rng.Int63n(l) })
	}
	if f := w.fault("wire.stall", 0); f != nil {
		late += f.A
	}
	if f := w.fault("wire.break", 0); f != nil {
		n := 0
		if len(p) > 0 {
			n = int(uint64(f.A) % uint64(len(p)))
		}
		n, _ = c.wh.write(p[:n], time.Duration(late)*time.Microsecond)
		c.breakBoth()
		return n, errWireReset
	}
	return c.wh.write(p, time.Duration(late)*time.Microsecond)
}

func (c *wireConn) breakBoth() {
	for _, h := range []*wireHalf{c.r, c.wh} {
		h.mu.Lock()
		if h.err == nil {
			h.err = errWireReset
		}
		h.bump()
		h.mu.Unlock()
	}
}

func (c *wireConn) Close() error {
	c.r.mu.Lock()
	c.r.gone = true
	c.r.bump()
	c.r.mu.Unlock()
	c.wh.mu.Lock()
	c.wh.eof = true
	c.wh.bump()
	c.wh.mu.Unlock()
	return nil
}

func (c *wireConn) LocalAddr() net.Addr  { return c.local }
func (c *wireConn) RemoteAddr() net.Addr { return c.remote }

func (c *wireConn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *wireConn) SetReadDeadline(t time.Time) error {
	c.r.mu.Lock()
	c.r.rdead = t
	c.r.bump()
	c.r.mu.Unlock()
	return nil
}

func (c *wireConn) SetWriteDeadline(t time.Time) error {
	c.wh.mu.Lock()
	c.wh.wdead = t
	c.wh.bump()
	c.wh.mu.Unlock()
	return nil
}

func (c *wireConn) String() string { return fmt.Sprintf("%s-%s", c.local, c.remote) }
