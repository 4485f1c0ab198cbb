// Package snet is the simulated TCP network: the only transport the server sees.
package snet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"syscall"
	"time"

	"gRedis/verifsim/sim"
)

// Net is the network of one run.
type Net struct {
	listeners map[int]*Listener
	Conns     []*Conn
	Window    int  // bytes the network plus the client's kernel will buffer for a client that does not read
	Coalesce  bool // the kernel may merge arrived segments into one read
	RstDrops  bool // a reset discards data that has arrived but was not read
	// ListenFaults maps the index of a Listen call (0-based) to a failure.
	ListenFaults map[int]string
	listens      int
	// AcceptFaults maps the index of an Accept call to an errno-like failure.
	AcceptFaults map[int]string
	accepts      int
	Refused      int
}

// N is the network of the current run.
func N() *Net {
	if sim.S.NetState == nil {
		sim.S.NetState = &Net{listeners: map[int]*Listener{}, Window: 65536, Coalesce: true}
	}
	return sim.S.NetState.(*Net)
}

type Listener struct {
	n      *Net
	addr   *net.TCPAddr
	queue  []*Conn
	closed bool
	waiter []*sim.Task
	proc   *sim.Proc
	dl     int64
}

func opErr(op string, a net.Addr, e error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: a, Err: e}
}

func parseAddr(addr string) (*net.TCPAddr, error) {
	host, port, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, err
	}
	p, err := strconv.Atoi(port)
	if err != nil || p < 0 || p > 65535 {
		return nil, &net.AddrError{Err: "invalid port", Addr: addr}
	}
	if host == "localhost" {
		host = "127.0.0.1"
	}
	var ip net.IP
	if host != "" {
		ip = net.ParseIP(host)
		if ip == nil {
			return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
		}
	}
	return &net.TCPAddr{IP: ip, Port: p}, nil
}

var errnos = map[string]error{
	"EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "ECONNABORTED": syscall.ECONNABORTED, "EINTR": syscall.EINTR,
	"ENOBUFS": syscall.ENOBUFS, "EADDRINUSE": syscall.EADDRINUSE, "EACCES": syscall.EACCES, "EADDRNOTAVAIL": syscall.EADDRNOTAVAIL,
	"ENOMEM": syscall.ENOMEM, "EPROTO": syscall.EPROTO, "EPERM": syscall.EPERM,
}

// Listen replaces net.Listen.
func Listen(network, addr string) (net.Listener, error) {
	sim.YS()
	n := N()
	i := n.listens
	n.listens++
	a, err := parseAddr(addr)
	if err != nil {
		return nil, opErr("listen", nil, err)
	}
	if f := n.ListenFaults[i]; f != "" {
		sim.Probe("fault:listen-" + f)
		return nil, opErr("listen", a, os.NewSyscallError("bind", errnos[f]))
	}
	if a.Port == 0 {
		a.Port = 30000
		for n.listeners[a.Port] != nil {
			a.Port++
		}
	}
	if l := n.listeners[a.Port]; l != nil && !l.closed {
		return nil, opErr("listen", a, os.NewSyscallError("bind", syscall.EADDRINUSE))
	}
	l := &Listener{n: n, addr: a, proc: sim.Cur().Proc}
	n.listeners[a.Port] = l
	if l.proc != nil {
		l.proc.OnDeath(func() { l.shut() })
	}
	return l, nil
}

// ListenTCP replaces net.ListenTCP.
func ListenTCP(network string, a *net.TCPAddr) (*Listener, error) {
	l, err := Listen(network, a.String())
	if err != nil {
		return nil, err
	}
	return l.(*Listener), nil
}

// The concrete types of package net, for code that asserts them.
type (
	TCPConn     = Conn
	TCPListener = Listener
)

// ListenConfig replaces net.ListenConfig.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

func (c *ListenConfig) Listen(ctx context.Context, network, addr string) (net.Listener, error) {
	return Listen(network, addr)
}
func (c *ListenConfig) SetMultipathTCP(bool) {}

// Listening tells whether a live process listens on the port, and on which address.
func (n *Net) Listening(port int) (net.IP, bool) {
	l := n.listeners[port]
	if l == nil || l.closed {
		return nil, false
	}
	return l.addr.IP, true
}

// ListenAddrs lists every address somebody listens on.
func (n *Net) ListenAddrs() []string {
	var r []string
	for p := 0; p < 65536 && len(r) < len(n.listeners); p++ {
		if l := n.listeners[p]; l != nil && !l.closed {
			r = append(r, l.addr.String())
		}
	}
	return r
}

func (l *Listener) Addr() net.Addr { return l.addr }

func (l *Listener) SetDeadline(t time.Time) error {
	sim.YS()
	l.dl = dl(t)
	l.wake()
	return nil
}
func (l *Listener) AcceptTCP() (*Conn, error) {
	c, err := l.Accept()
	if err != nil {
		return nil, err
	}
	return c.(*Conn), nil
}

func (l *Listener) Accept() (net.Conn, error) {
	for {
		sim.YS()
		if l.closed {
			return nil, opErr("accept", l.addr, net.ErrClosed)
		}
		if l.dl != 0 && sim.S.Now() >= l.dl {
			return nil, opErr("accept", l.addr, os.ErrDeadlineExceeded)
		}
		if f := l.n.AcceptFaults[l.n.accepts]; f != "" {
			l.n.accepts++
			sim.Probe("fault:accept-" + f)
			return nil, opErr("accept", l.addr, os.NewSyscallError("accept4", errnos[f]))
		}
		for len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			l.n.accepts++
			c.accepted = true
			c.proc = sim.Cur().Proc
			return c, nil
		}
		l.waiter = append(l.waiter, sim.Cur())
		if l.dl != 0 {
			sim.S.After(l.dl-sim.S.Now(), l.wake)
		}
		sim.Block("accept")
	}
}

func (l *Listener) wake() {
	for _, t := range l.waiter {
		sim.S.Ready(t)
	}
	l.waiter = nil
}

func (l *Listener) shut() {
	if l.closed {
		return
	}
	l.closed = true
	for _, c := range l.queue {
		c.kernelReset()
	}
	l.queue = nil
	l.wake()
}

func (l *Listener) Close() error {
	if sim.Dying() {
		return nil
	}
	sim.YS()
	if l.closed {
		return opErr("close", l.addr, net.ErrClosed)
	}
	l.shut()
	return nil
}

// Conn is the server's end of a connection; Client is the other end.
type Conn struct {
	n        *Net
	id       int
	local    *net.TCPAddr
	remote   *net.TCPAddr
	proc     *sim.Proc
	accepted bool

	// client -> server
	in       [][]byte
	inFin    bool
	inRst    bool
	inLast   int64
	inPend   int
	rwait    []*sim.Task
	rdl, wdl int64
	inVC     []uint32

	// server -> client
	out      []byte // arrived at the client, unread
	outFly   int    // on the wire
	outFin   bool
	outRst   bool
	outLast  int64
	outDelay int64
	cwait    []*sim.Task
	wwait    []*sim.Task
	outVC    []uint32
	wrote    int64

	closed     bool // server closed its end
	cliClosed  bool // client closed its receiving side
	cliCloseIn bool // client sent FIN
	ReadBytes  int64
	// FailWriteAt resets the connection after the server has written that many bytes (-1: never).
	FailWriteAt int64
	ClosedStep  uint64
}

// Client is the harness end.
type Client struct{ c *Conn }

// clientPort picks the client's ephemeral port. Two of three connections take, if there is one, a port whose last
// connection is over, as happens on a busy machine.
func (n *Net) clientPort(id int) int {
	if id%3 == 0 {
		return 40000 + id
	}
	for i := len(n.Conns) - 1; i >= 0; i-- {
		c, live := n.Conns[i], false
		if !c.over() {
			continue
		}
		for _, d := range n.Conns {
			live = live || d.remote.Port == c.remote.Port && !d.over()
		}
		if !live {
			sim.Probe("fault:client-port-reused")
			return c.remote.Port
		}
	}
	return 40000 + id
}

// over: neither end's kernel holds the connection any more.
func (c *Conn) over() bool { return c.inRst || c.closed && (c.cliClosed || c.outRst) }

// Dial opens a connection to a listening port.
func Dial(port int) (*Client, error) {
	sim.YS()
	n := N()
	l := n.listeners[port]
	if l == nil || l.closed {
		n.Refused++
		return nil, syscall.ECONNREFUSED
	}
	id := len(n.Conns)
	ip := l.addr.IP
	if ip == nil || ip.IsUnspecified() {
		ip = net.IPv4(127, 0, 0, 1)
	}
	c := &Conn{n: n, id: id, local: &net.TCPAddr{IP: ip, Port: port}, remote: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: n.clientPort(id)}, FailWriteAt: -1}
	n.Conns = append(n.Conns, c)
	l.queue = append(l.queue, c)
	if l.proc != nil {
		l.proc.OnDeath(func() { c.procDied() })
	}
	l.wake()
	return &Client{c}, nil
}

func (c *Conn) procDied() {
	if c.closed {
		return
	}
	c.closed = true
	if len(c.in) > 0 {
		c.outRst = true
	}
	c.sendFin()
}

func (c *Conn) kernelReset() { c.closed = true; c.outRst = true; c.wakeClient() }

func wakeAll(q *[]*sim.Task) {
	for _, t := range *q {
		sim.S.Ready(t)
	}
	*q = nil
}
func (c *Conn) wakeClient() { wakeAll(&c.cwait) }

// ---- server side (net.Conn) ----

func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.remote }

func (c *Conn) Read(p []byte) (int, error) {
	if sim.Dying() {
		return 0, io.EOF
	}
	sim.YS()
	for {
		if c.closed {
			return 0, opErr("read", c.remote, net.ErrClosed)
		}
		if c.rdl != 0 && sim.S.Now() >= c.rdl {
			return 0, opErr("read", c.remote, os.ErrDeadlineExceeded)
		}
		if c.inRst && (c.n.RstDrops || len(c.in) == 0) {
			c.in = nil
			return 0, opErr("read", c.remote, os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.in) > 0 {
			n := 0
			for n < len(p) && len(c.in) > 0 {
				k := copy(p[n:], c.in[0])
				n += k
				if k < len(c.in[0]) {
					c.in[0] = c.in[0][k:]
				} else {
					c.in = c.in[1:]
					if !c.n.Coalesce {
						break
					}
				}
			}
			c.ReadBytes += int64(n)
			sim.WSl(p[:n])
			sim.AcqFrom(c.inVC)
			return n, nil
		}
		if c.inFin {
			return 0, io.EOF
		}
		c.rwait = append(c.rwait, sim.Cur())
		if c.rdl != 0 {
			sim.S.After(c.rdl-sim.S.Now(), func() { wakeAll(&c.rwait) })
		}
		sim.Block("conn read")
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	if sim.Dying() {
		return len(p), nil
	}
	sim.YS()
	sim.RSl(p)
	done := 0
	for {
		if c.closed {
			return done, opErr("write", c.remote, net.ErrClosed)
		}
		if c.inRst {
			return done, opErr("write", c.remote, os.NewSyscallError("write", syscall.EPIPE))
		}
		if c.wdl != 0 && sim.S.Now() >= c.wdl {
			return done, opErr("write", c.remote, os.ErrDeadlineExceeded)
		}
		if done == len(p) {
			return done, nil
		}
		room := c.n.Window - len(c.out) - c.outFly
		if c.cliClosed {
			room = len(p) - done
		}
		if room > 0 {
			k := len(p) - done
			if k > room {
				k = room
			}
			if c.FailWriteAt >= 0 && c.wrote+int64(k) > c.FailWriteAt {
				k = int(c.FailWriteAt - c.wrote)
				c.send(p[done : done+k])
				done += k
				sim.Probe("fault:write-error")
				c.inRst = true
				c.outRst = true
				c.wakeClient()
				wakeAll(&c.rwait)
				return done, opErr("write", c.remote, os.NewSyscallError("write", syscall.ECONNRESET))
			}
			c.send(p[done : done+k])
			done += k
			if c.cliClosed && !c.inRst {
				// the client's kernel answers with a reset
				sim.S.After(1000, func() { c.inRst = true; wakeAll(&c.rwait); wakeAll(&c.wwait) })
			}
			if done == len(p) {
				sim.YS()
				return done, nil
			}
			continue
		}
		sim.Probe("fault:write-blocked-full-window")
		c.wwait = append(c.wwait, sim.Cur())
		if c.wdl != 0 {
			sim.S.After(c.wdl-sim.S.Now(), func() { wakeAll(&c.wwait) })
		}
		sim.Block("conn write")
	}
}

func (c *Conn) send(b []byte) {
	if len(b) == 0 {
		return
	}
	c.wrote += int64(len(b))
	sim.RelTo(&c.outVC)
	if c.cliClosed {
		return
	}
	d := append([]byte(nil), b...)
	if c.outDelay == 0 && c.outFly == 0 {
		c.out = append(c.out, d...)
		c.wakeClient()
		return
	}
	c.outFly += len(d)
	at := sim.S.Now() + c.outDelay
	if at <= c.outLast {
		at = c.outLast + 1
	}
	c.outLast = at
	sim.S.After(at-sim.S.Now(), func() {
		c.outFly -= len(d)
		if !c.cliClosed {
			c.out = append(c.out, d...)
		}
		c.wakeClient()
	})
}

func (c *Conn) sendFin() {
	if c.outFly == 0 {
		c.outFin = true
		c.wakeClient()
		return
	}
	sim.S.After(c.outLast+1-sim.S.Now(), func() { c.outFin = true; c.wakeClient() })
}

func (c *Conn) Close() error {
	if sim.Dying() {
		return nil
	}
	sim.YS()
	if c.closed {
		return opErr("close", c.remote, net.ErrClosed)
	}
	c.closed = true
	c.ClosedStep = sim.S.Steps
	wakeAll(&c.rwait)
	wakeAll(&c.wwait)
	c.sendFin()
	return nil
}

// CloseWrite is TCPConn.CloseWrite.
func (c *Conn) CloseWrite() error { sim.YS(); c.sendFin(); return nil }
func (c *Conn) CloseRead() error  { return nil }

func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	return t.UnixNano()
}
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	sim.YS()
	c.rdl = dl(t)
	wakeAll(&c.rwait)
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	sim.YS()
	c.wdl = dl(t)
	wakeAll(&c.wwait)
	return nil
}
func (c *Conn) SetKeepAlive(bool) error                      { return nil }
func (c *Conn) SetKeepAlivePeriod(time.Duration) error       { return nil }
func (c *Conn) SetNoDelay(bool) error                        { return nil }
func (c *Conn) SetLinger(int) error                          { return nil }
func (c *Conn) SetReadBuffer(int) error                      { return nil }
func (c *Conn) SetWriteBuffer(int) error                     { return nil }
func (c *Conn) SetKeepAliveConfig(net.KeepAliveConfig) error { return nil }

// ---- client side ----

// ServerClosed tells whether the server has closed its end.
func (k *Client) ServerClosed() bool  { return k.c.closed }
func (k *Client) ServerRead() int64   { return k.c.ReadBytes }
func (k *Client) Accepted() bool      { return k.c.accepted }
func (k *Client) SetOutDelay(d int64) { k.c.outDelay = d }
func (k *Client) FailWriteAt(n int64) { k.c.FailWriteAt = n }
func (k *Client) ID() int             { return k.c.id }

func (k *Client) wire(delay int64, f func()) {
	c := k.c
	now := sim.S.Now()
	at := now + delay
	if at < c.inLast {
		at = c.inLast
	}
	c.inLast = at
	if at <= now && c.inPend == 0 {
		f()
		return
	}
	// also when nothing delays it, as long as something sent earlier has still to arrive at this very moment
	c.inPend++
	sim.S.After(at-now, func() { c.inPend--; f() })
}

// Send puts one segment on the wire, to arrive after delay (in order).
func (k *Client) Send(b []byte, delay int64) {
	c := k.c
	d := append([]byte(nil), b...)
	sim.RelTo(&c.inVC)
	f := func() {
		if c.closed {
			c.outRst = true
			c.wakeClient()
			return
		}
		c.in = append(c.in, d)
		wakeAll(&c.rwait)
	}
	k.wire(delay, f)
	sim.YS()
}

// CloseWrite half-closes after everything sent so far.
func (k *Client) CloseWrite(delay int64) {
	c := k.c
	c.cliCloseIn = true
	f := func() { c.inFin = true; wakeAll(&c.rwait) }
	k.wire(delay, f)
	sim.YS()
}

// Close closes both directions: replies that arrive later are answered with a reset.
func (k *Client) Close(delay int64) {
	c := k.c
	if !c.cliCloseIn {
		k.CloseWrite(delay)
	}
	c.cliClosed = true
	c.out = nil
	wakeAll(&c.wwait)
}

// Reset aborts the connection.
func (k *Client) Reset(delay int64) {
	c := k.c
	f := func() {
		c.inRst = true
		if c.n.RstDrops {
			c.in = nil
		}
		wakeAll(&c.rwait)
		wakeAll(&c.wwait)
	}
	c.cliClosed = true
	c.out = nil
	k.wire(delay, f)
	sim.YS()
}

var ErrTimeout = errors.New("timeout")

// Recv returns what has arrived (up to max bytes), waiting at most wait nanoseconds (0: for ever).
func (k *Client) Recv(max int, wait int64) ([]byte, error) {
	c := k.c
	end := int64(0)
	if wait > 0 {
		end = sim.S.Now() + wait
		sim.S.After(wait, func() { wakeAll(&c.cwait) })
	}
	for {
		sim.YS()
		if len(c.out) > 0 {
			n := len(c.out)
			if n > max {
				n = max
			}
			b := append([]byte(nil), c.out[:n]...)
			c.out = c.out[n:]
			wakeAll(&c.wwait)
			sim.AcqFrom(c.outVC)
			return b, nil
		}
		if c.outRst {
			return nil, syscall.ECONNRESET
		}
		if c.outFin {
			return nil, io.EOF
		}
		if end != 0 && sim.S.Now() >= end {
			return nil, ErrTimeout
		}
		c.cwait = append(c.cwait, sim.Cur())
		sim.Block(fmt.Sprintf("client recv c%d", c.id))
	}
}

// OpenConns counts connections the server accepted and has not closed.
func (n *Net) OpenConns() int {
	k := 0
	for _, c := range n.Conns {
		if c.accepted && !c.closed {
			k++
		}
	}
	return k
}
