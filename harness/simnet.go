package main

import (
	"context"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"
)

// SimNet is an in-memory TCP: ordered byte streams with segmentation, delay,
// backpressure, half-close, resets and stalls. Nothing here is random: every
// choice is a recorded simulator decision whose default is "no fault".
type SimNet struct {
	e    *Env
	mu   sync.Mutex
	ls   map[int]*simListener
	next int
	Cfg  NetCfg
	all  []*simConn
}

// NetCfg holds probabilities in 1/65536 and sizes.
type NetCfg struct {
	SegP       int           // split a write into several segments
	ShortReadP int           // return fewer bytes than available
	DelayP     int           // delay a segment
	MaxDelay   time.Duration // up to this much
	Window     int           // bytes in flight per direction before Write blocks
	ResetP     int           // reset the connection at a read or write
	StallP     int           // a direction stops delivering for a while
	StallFor   time.Duration
	AcceptErrP int // transient accept error (EMFILE)
	RefuseP    int // dial refused
	// FaultFilter, if set, limits reset/stall faults to some connections.
	FaultFilter func(c *simConn) bool
}

func newSimNet(e *Env) *SimNet {
	n := &SimNet{e: e, ls: map[int]*simListener{}, next: 20000}
	n.Cfg.Window = 64 << 10
	net.SimListen = n.Listen
	net.SimDial = n.Dial
	return n
}

func tcpAddr(port int) *net.TCPAddr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port} }

func opErr(op string, c *simConn, err error) error {
	o := &net.OpError{Op: op, Net: "tcp", Err: err}
	if c != nil {
		o.Source, o.Addr = c.laddr, c.raddr
	}
	return o
}

// --- listener ------------------------------------------------------------

type simListener struct {
	n      *SimNet
	port   int
	mu     sync.Mutex
	cond   *sync.Cond
	q      []*simConn
	closed bool
}

func (n *SimNet) Listen(network, address string) (net.Listener, error) {
	_, ps, err := net.SplitHostPort(address)
	if err != nil {
		return nil, opErr("listen", nil, err)
	}
	port := 0
	for _, ch := range ps {
		if ch < '0' || ch > '9' {
			return nil, opErr("listen", nil, &net.AddrError{Err: "unknown port", Addr: address})
		}
		port = port*10 + int(ch-'0')
	}
	if port > 65535 {
		return nil, opErr("listen", nil, &net.AddrError{Err: "invalid port", Addr: address})
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	if port == 0 {
		n.next++
		port = n.next
	}
	if n.ls[port] != nil {
		return nil, opErr("listen", nil, os.NewSyscallError("bind", syscall.EADDRINUSE))
	}
	l := &simListener{n: n, port: port}
	l.cond = sync.NewCond(&l.mu)
	n.ls[port] = l
	return l, nil
}

func (l *simListener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for {
		if l.closed {
			return nil, opErr("accept", nil, net.ErrClosed)
		}
		if len(l.q) > 0 {
			if runtime.SimFlip(rd(&l.n.Cfg.AcceptErrP)) {
				l.n.e.Fault("accept_emfile")
				return nil, opErr("accept", nil, os.NewSyscallError("accept4", syscall.EMFILE))
			}
			c := l.q[0]
			l.q = l.q[1:]
			return c, nil
		}
		l.cond.Wait()
	}
}

func (l *simListener) Close() error {
	l.n.mu.Lock()
	if l.n.ls[l.port] == l {
		delete(l.n.ls, l.port)
	}
	l.n.mu.Unlock()
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return opErr("close", nil, net.ErrClosed)
	}
	l.closed = true
	for _, c := range l.q { // never accepted: the kernel resets them
		c.Reset()
		c.Close()
	}
	l.q = nil
	l.cond.Broadcast()
	return nil
}

func (l *simListener) Addr() net.Addr { return tcpAddr(l.port) }

// Listening reports whether something listens on port.
func (n *SimNet) Listening(port int) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.ls[port] != nil
}

// --- dial ----------------------------------------------------------------

func (n *SimNet) Dial(ctx context.Context, network, address string) (net.Conn, error) {
	_, ps, err := net.SplitHostPort(address)
	if err != nil {
		return nil, opErr("dial", nil, err)
	}
	port := 0
	for _, ch := range ps {
		port = port*10 + int(ch-'0')
	}
	if runtime.SimFlip(rd(&n.Cfg.DelayP)) {
		t := time.NewTimer(time.Duration(1+runtime.SimChoose(8)) * n.Cfg.MaxDelay / 8)
		select {
		case <-t.C:
		case <-ctx.Done():
			t.Stop()
			return nil, opErr("dial", nil, ctx.Err())
		}
	}
	if ctx.Err() != nil {
		return nil, opErr("dial", nil, ctx.Err())
	}
	if runtime.SimFlip(rd(&n.Cfg.RefuseP)) {
		n.e.Fault("dial_refused")
		return nil, opErr("dial", nil, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	n.mu.Lock()
	l := n.ls[port]
	n.next++
	lp := 20000 + n.next
	n.mu.Unlock()
	if l == nil {
		return nil, opErr("dial", nil, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return nil, opErr("dial", nil, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	a, b := n.pair(lp, port)
	l.q = append(l.q, b)
	l.cond.Broadcast()
	return a, nil
}

// DialRaw is a client connection for the harness.
func (n *SimNet) DialRaw(port int) (*simConn, error) {
	c, err := n.Dial(context.Background(), "tcp", tcpAddr(port).String())
	if err != nil {
		return nil, err
	}
	return c.(*simConn), nil
}

func (n *SimNet) pair(clientPort, serverPort int) (client, server *simConn) {
	mu := &sync.Mutex{}
	ab := &half{n: n, mu: mu, cond: sync.NewCond(mu)}
	ba := &half{n: n, mu: mu, cond: sync.NewCond(mu)}
	client = &simConn{n: n, mu: mu, r: ba, w: ab, laddr: tcpAddr(clientPort), raddr: tcpAddr(serverPort), Client: true}
	server = &simConn{n: n, mu: mu, r: ab, w: ba, laddr: tcpAddr(serverPort), raddr: tcpAddr(clientPort)}
	client.peer, server.peer = server, client
	n.mu.Lock()
	n.all = append(n.all, client, server)
	n.mu.Unlock()
	return
}

// OpenServerSide counts server-side connections not closed by the server.
func (n *SimNet) Open(client bool) (out []*simConn) {
	n.mu.Lock()
	all := n.all
	n.mu.Unlock()
	for _, c := range all {
		if c.Client == client && !c.IsClosed() {
			out = append(out, c)
		}
	}
	return
}

// --- connection ----------------------------------------------------------

type seg struct {
	b  []byte
	at int64
}

type half struct {
	n          *SimNet
	mu         *sync.Mutex
	cond       *sync.Cond
	segs       []seg
	size       int
	lastAt     int64
	fin        bool
	finAt      int64
	reset      bool
	rclosed    bool // reader closed: further writes are reset
	stallUntil int64
	total      int64 // bytes ever written
}

type simConn struct {
	n            *SimNet
	mu           *sync.Mutex
	r, w         *half
	peer         *simConn
	laddr, raddr *net.TCPAddr
	closed       bool
	rdead, wdead int64
	Client       bool
	// ResetAtWrite, if > 0, resets the connection when this side has written
	// that many bytes; ResetAtRead likewise for bytes read.
	ResetAtWrite, ResetAtRead int64
	nread                     int64
	NoFault                   bool
}

func (c *simConn) LocalAddr() net.Addr  { return c.laddr }
func (c *simConn) RemoteAddr() net.Addr { return c.raddr }

func (c *simConn) faulty() bool {
	return !c.NoFault && !c.peer.NoFault && (c.n.Cfg.FaultFilter == nil || c.n.Cfg.FaultFilter(c))
}

// wait blocks on h.cond until woken or until simulated time at (0: no limit).
func (h *half) wait(at int64) {
	if at == 0 {
		h.cond.Wait()
		return
	}
	d := at - runtime.SimMono()
	if d < 1 {
		d = 1
	}
	t := time.AfterFunc(time.Duration(d), func() {
		h.mu.Lock()
		h.cond.Broadcast()
		h.mu.Unlock()
	})
	h.cond.Wait()
	t.Stop()
}

func minT(a, b int64) int64 {
	if a == 0 || (b != 0 && b < a) {
		return b
	}
	return a
}

func (c *simConn) Read(b []byte) (int, error) {
	runtime.SimYield()
	h := c.r
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	if runtime.SimFlip(rd(&c.n.Cfg.ResetP)) && c.faulty() {
		c.n.e.Fault("conn_reset")
		c.resetLocked(true)
	}
	for {
		now := runtime.SimMono()
		if c.closed {
			return 0, opErr("read", c, net.ErrClosed)
		}
		if c.rdead != 0 && c.rdead <= now {
			return 0, opErr("read", c, os.ErrDeadlineExceeded)
		}
		if h.reset {
			return 0, opErr("read", c, os.NewSyscallError("read", syscall.ECONNRESET))
		}
		next := c.rdead
		switch {
		case h.stallUntil > now:
			next = minT(next, h.stallUntil)
		case len(h.segs) > 0 && h.segs[0].at <= now:
			s := &h.segs[0]
			n := len(s.b)
			if n > len(b) {
				n = len(b)
			}
			if n > 1 && runtime.SimFlip(rd(&c.n.Cfg.ShortReadP)) {
				c.n.e.Fault("short_read")
				n = 1 + runtime.SimChoose(n-1)
			}
			copy(b, s.b[:n])
			s.b = s.b[n:]
			if len(s.b) == 0 {
				h.segs = h.segs[1:]
			}
			h.size -= n
			c.nread += int64(n)
			if c.ResetAtRead > 0 && c.nread >= c.ResetAtRead {
				c.ResetAtRead = 0
				c.n.e.Fault("conn_reset")
				c.resetLocked(false)
			}
			h.cond.Broadcast()
			return n, nil
		case len(h.segs) > 0:
			next = minT(next, h.segs[0].at)
		case h.fin && h.finAt <= now:
			return 0, io.EOF
		case h.fin:
			next = minT(next, h.finAt)
		}
		h.wait(next)
	}
}

func (c *simConn) Write(b []byte) (int, error) {
	runtime.SimYield()
	h := c.w
	c.mu.Lock()
	defer c.mu.Unlock()
	if runtime.SimFlip(rd(&c.n.Cfg.StallP)) && c.faulty() {
		c.n.e.Fault("stall")
		h.stallUntil = runtime.SimMono() + int64(c.n.Cfg.StallFor)
	}
	if runtime.SimFlip(rd(&c.n.Cfg.ResetP)) && c.faulty() {
		c.n.e.Fault("conn_reset")
		if len(b) > 1 { // torn write: a prefix gets out
			c.push(b[:runtime.SimChoose(len(b))])
		}
		c.resetLocked(true)
	}
	done := 0
	for {
		now := runtime.SimMono()
		if c.closed {
			return done, opErr("write", c, net.ErrClosed)
		}
		if c.wdead != 0 && c.wdead <= now {
			return done, opErr("write", c, os.ErrDeadlineExceeded)
		}
		if h.reset {
			return done, opErr("write", c, os.NewSyscallError("write", syscall.ECONNRESET))
		}
		if h.fin {
			return done, opErr("write", c, os.NewSyscallError("write", syscall.EPIPE))
		}
		if h.rclosed {
			// The peer closed: this write is accepted, the RST comes back.
			c.resetLocked(false)
			return len(b), nil
		}
		if done == len(b) {
			return done, nil
		}
		room := c.n.Cfg.Window - h.size
		if room <= 0 {
			h.wait(c.wdead)
			continue
		}
		n := len(b) - done
		if n > room {
			n = room
		}
		if n > 1 && runtime.SimFlip(rd(&c.n.Cfg.SegP)) {
			c.n.e.Fault("segmented_write")
			n = 1 + runtime.SimChoose(n-1)
		}
		if c.ResetAtWrite > 0 && h.total+int64(n) >= c.ResetAtWrite {
			n = int(c.ResetAtWrite - h.total)
			if n < 0 {
				n = 0
			}
			c.ResetAtWrite = 0
			c.push(b[done : done+n])
			c.n.e.Fault("conn_reset")
			c.resetLocked(false)
			continue
		}
		c.push(b[done : done+n])
		if done += n; done == len(b) {
			return done, nil // whatever happens to the connection now
		}
	}
}

func (c *simConn) push(b []byte) {
	if len(b) == 0 {
		return
	}
	h := c.w
	at := runtime.SimMono()
	if runtime.SimFlip(rd(&c.n.Cfg.DelayP)) {
		c.n.e.Fault("segment_delay")
		at += int64(1+runtime.SimChoose(16)) * int64(c.n.Cfg.MaxDelay) / 16
	}
	if at < h.lastAt {
		at = h.lastAt
	}
	h.lastAt = at
	h.segs = append(h.segs, seg{append([]byte(nil), b...), at})
	h.size += len(b)
	h.total += int64(len(b))
	h.cond.Broadcast()
}

func (c *simConn) resetLocked(drop bool) {
	for _, h := range []*half{c.r, c.w} {
		h.reset = true
		if drop {
			h.segs = nil
			h.size = 0
		}
		h.cond.Broadcast()
	}
}

// Reset aborts the connection (RST): undelivered data is lost both ways.
func (c *simConn) Reset() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.resetLocked(true)
}

// Stall stops delivery in both directions for d, then heals.
func (c *simConn) Stall(d time.Duration) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n.e.Fault("stall")
	for _, h := range []*half{c.r, c.w} {
		h.stallUntil = runtime.SimMono() + int64(d)
		h.cond.Broadcast()
	}
}

func (c *simConn) Close() error {
	runtime.SimYield()
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.closed = true
	c.w.fin = true
	if c.w.finAt == 0 {
		c.w.finAt = minOr(c.w.lastAt, runtime.SimMono())
	}
	if len(c.r.segs) > 0 {
		// closing with unread data sends RST
		c.w.reset = true
		c.r.reset = true
	}
	c.r.rclosed = true
	c.r.cond.Broadcast()
	c.w.cond.Broadcast()
	return nil
}

func minOr(lastAt, now int64) int64 {
	if lastAt > now {
		return lastAt
	}
	return now
}

func (c *simConn) CloseWrite() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.w.fin = true
	c.w.finAt = minOr(c.w.lastAt, runtime.SimMono())
	c.w.cond.Broadcast()
	return nil
}

func (c *simConn) IsClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func deadline(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := time.Until(t)
	at := runtime.SimMono() + int64(d)
	if at <= 0 {
		at = 1
	}
	return at
}

func (c *simConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *simConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return opErr("set", c, net.ErrClosed)
	}
	c.rdead = deadline(t)
	c.r.cond.Broadcast()
	return nil
}

func (c *simConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return opErr("set", c, net.ErrClosed)
	}
	c.wdead = deadline(t)
	c.w.cond.Broadcast()
	return nil
}

// rd reads a setting that calm may change, without a race.
//
//go:norace
func rd(p *int) int { return *p }
