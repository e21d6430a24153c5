package main

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The simulated network. Streams behave as TCP does on Linux: bytes are never lost, repeated or
// reordered inside a connection, but they are cut at arbitrary places, delayed, held up, and the
// connection may be refused, reset, half-closed or go silent. Everything is decided by seeded
// generators that belong to one direction of one connection, so that removing one connection from a
// plan leaves the others as they were.

type Rng struct{ s uint64 }

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func newRng(parts ...uint64) *Rng {
	s := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		s = mix64(s ^ mix64(p+0x9e3779b97f4a7c15))
	}
	return &Rng{s}
}
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix64(r.s)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) In(a, b int) int     { return a + r.N(b-a+1) }
func (r *Rng) P(num, den int) bool { return r.N(den) < num }
func (r *Rng) Dur(max time.Duration) time.Duration {
	if max <= 0 {
		return 0
	}
	return time.Duration(r.U64() % uint64(max))
}

// Profile of the network on a connection.
type Profile struct {
	LatMin int `json:"lat_min_us,omitempty"` // one way, microseconds
	LatMax int `json:"lat_max_us,omitempty"`
	Seg    int `json:"seg,omitempty"`    // largest segment, 0: whole writes
	SegMin int `json:"segmin,omitempty"` // smallest
	Short  int `json:"short,omitempty"`  // 0: reads return what is there, 1: random part, 2: one byte
	Window int `json:"window,omitempty"` // bytes in flight plus unread, 0: 64k
}

func (p *Profile) maxLat() time.Duration { return time.Duration(p.LatMax) * time.Microsecond }

// env runs f as the environment: what it creates belongs to no simulated node.
func env(f func()) {
	n := runtime.SimNode()
	if n == 0 {
		f()
		return
	}
	runtime.SimEnv(0)
	f()
	runtime.SimEnv(n)
}

type segment struct {
	at  time.Time
	b   []byte
	fin bool
	rst bool
}

// End is one side of a connection.
type End struct {
	net    *Network
	c      *Pipe
	side   int // 0 dialer, 1 acceptor
	peer   *End
	node   int
	fd     int
	local  *net.TCPAddr
	remote *net.TCPAddr

	rbuf    []byte
	rfin    bool
	rerr    error
	closed  bool
	wfin    bool // our fin is queued
	linger0 bool
	rst     bool // this end knows of a reset
	rstSent bool
	rdl     time.Time
	wdl     time.Time
	rtimer  *time.Timer
	wtimer  *time.Timer
	waitR   []chan struct{}
	waitW   []chan struct{}

	// outgoing direction
	prof     Profile
	rng      *Rng
	rrng     *Rng
	inflight int
	lastAt   time.Time
	stallTo  time.Time // nothing of ours is delivered before

	// observation
	onArrive   func(n int)
	onRead     func(n int)
	onWrite    func(b []byte)
	onClose    func()
	onState    func()
	arrived    int
	blocked    int
	blockedFor time.Duration // the longest time a write waited for room without progress
}

type Pipe struct {
	id   int
	ends [2]*End
	q    [2][]segment
	busy [2]bool // a timer for the head of the queue runs
	cut  bool
	// the path is down: what is sent waits
	held  bool
	holdN int
}

type Listener struct {
	network string
	net     *Network
	addr    *net.TCPAddr
	node    int
	fd      int
	queue   []*End
	closed  bool
	wait    []chan struct{}
	faults  []AcceptFault // by accept call
	calls   int
	raw     func(e *End) // environment listener: called for every new connection
	dl      time.Time
}

// AcceptFault makes the accept call number At fail, Count times.
type AcceptFault struct {
	At    int    `json:"at"`
	Count int    `json:"count"`
	Err   string `json:"err"`
	// Lose: the handshake was aborted, the queued connection is gone
}

type Host struct {
	refuse  bool // nothing listens although a listener exists
	drop    bool // packets to and from it vanish
	backlog bool // connections are established but nobody accepts
}

type Network struct {
	seed      uint64
	listeners map[string]*Listener
	ends      map[int]*End
	nextFD    int
	nextPort  int
	nextConn  int
	faults    *Faults
	hosts     map[string]*Host
	// profile for connections dialled by code under test, by remote address
	profFor func(remote string, id int) Profile
	// opened sockets per node
	open        map[int]int
	acceptPlan  []AcceptFault
	accepted    func(e *End)
	onListen    func(l *Listener)
	onUnlisten  func(l *Listener)
	acceptCalls int
	acceptStop  int
	acceptMet   chan struct{}
	nofile      bool
	names       map[string]*hostName
	dead        map[string]string // addresses that lead nowhere, and how
}

// Faults counts what was injected.
type Faults struct {
	m map[string]int64
}

func (f *Faults) add(k string) { f.m[k]++ }
func (f *Faults) addn(k string, n int) {
	if n > 0 {
		f.m[k] += int64(n)
	}
}

func newNetwork(seed uint64, f *Faults) *Network {
	return &Network{seed: seed, listeners: map[string]*Listener{}, ends: map[int]*End{}, nextFD: 1 << 30, nextPort: 40000,
		faults: f, hosts: map[string]*Host{}, open: map[int]int{}, names: map[string]*hostName{}, dead: map[string]string{}}
}

func (n *Network) host(addr string) *Host {
	h := n.hosts[addr]
	if h == nil {
		h = &Host{}
		n.hosts[addr] = h
	}
	return h
}

func wake(l *[]chan struct{}) {
	w := *l
	*l = nil
	for _, c := range w {
		close(c)
	}
}

func (n *Network) newEnd(node int) *End {
	e := &End{net: n, node: node, fd: n.nextFD}
	n.nextFD++
	n.ends[e.fd] = e
	n.open[node]++
	return e
}

func addrOf(s string) *net.TCPAddr {
	h, p, err := splitHostPort(s)
	if err != nil {
		panic(err)
	}
	return &net.TCPAddr{IP: h, Port: p}
}

func splitHostPort(s string) (net.IP, int, error) {
	i := strings.LastIndex(s, ":")
	if i < 0 {
		return nil, 0, errors.New("bad address " + s)
	}
	p, err := strconv.Atoi(s[i+1:])
	ip := net.ParseIP(s[:i])
	if ip == nil {
		ip = net.IPv4(127, 0, 0, 1)
	}
	return ip.To4(), p, err
}

func key(a *net.TCPAddr) string {
	return "127.0.0.1:" + strconv.Itoa(a.Port)
}

// connect makes an established connection between two nodes. The acceptor side is handed to accept.
func (n *Network) pair(dnode, anode int, la, ra *net.TCPAddr, id uint64, dp, ap Profile) *Pipe {
	p := &Pipe{id: n.nextConn}
	n.nextConn++
	d, a := n.newEnd(dnode), n.newEnd(anode)
	d.c, a.c, d.peer, a.peer, a.side = p, p, a, d, 1
	d.local, d.remote, a.local, a.remote = la, ra, ra, la
	p.ends = [2]*End{d, a}
	d.prof, a.prof = dp, ap
	d.rng, a.rng = newRng(n.seed, id, 1), newRng(n.seed, id, 2)
	d.rrng, a.rrng = newRng(n.seed, id, 3), newRng(n.seed, id, 4)
	return p
}

// dial by the environment (a terminal): returns the dialer's end or an error after the handshake.
func (n *Network) dialHook(to string, id uint64, dp, ap Profile, onPair func(p *Pipe)) (*End, error) {
	return n.dialFrom(context.Background(), 0, addrOf(to), id, dp, ap, onPair)
}

func (n *Network) dialFrom(ctx context.Context, node int, ra *net.TCPAddr, id uint64, dp, ap Profile, onPair func(p *Pipe)) (*End, error) {
	r := newRng(n.seed, id, 5)
	lat := time.Duration(dp.LatMin)*time.Microsecond + r.Dur(time.Duration(dp.LatMax-dp.LatMin+1)*time.Microsecond)
	la := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1).To4(), Port: n.nextPort}
	n.nextPort++
	k := key(ra)
	h := n.host(k)
	if err := n.sleep(ctx, lat); err != nil {
		return nil, err
	}
	if how := n.dead[ra.String()]; how != "" {
		return nil, n.deadEnd(ctx, how, lat)
	}
	if h.drop {
		n.faults.add("dial-blackholed")
		// the connection attempt is repeated by the kernel; if the path heals meanwhile it succeeds
		end := time.Now().Add(127 * time.Second)
		wait := time.Second
		for h.drop {
			if err := n.sleep(ctx, wait); err != nil {
				return nil, err
			}
			wait *= 2
			if time.Now().After(end) {
				return nil, os.NewSyscallError("connect", syscall.ETIMEDOUT)
			}
		}
	}
	l := n.listeners[k]
	if l == nil || l.closed || h.refuse {
		if err := n.sleep(ctx, lat); err != nil {
			return nil, err
		}
		return nil, os.NewSyscallError("connect", syscall.ECONNREFUSED)
	}
	p := n.pair(node, l.node, la, ra, id, dp, ap)
	if onPair != nil {
		onPair(p)
	}
	l.deliver(p.ends[1])
	if err := n.sleep(ctx, lat); err != nil {
		p.ends[0].abort()
		return nil, err
	}
	return p.ends[0], nil
}

func (n *Network) sleep(ctx context.Context, d time.Duration) error {
	if d <= 0 {
		select {
		case <-ctx.Done():
			return ctx.Err()
		default:
			return nil
		}
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
}

func (l *Listener) deliver(e *End) {
	if l.raw != nil {
		l.raw(e)
		return
	}
	l.queue = append(l.queue, e)
	wake(&l.wait)
}

// listen by the environment.
func (n *Network) listenEnv(addr string, raw func(e *End)) *Listener {
	a := addrOf(addr)
	l := &Listener{net: n, addr: a, raw: raw}
	n.listeners[key(a)] = l
	return l
}

func (l *Listener) closeEnv() {
	if l.closed {
		return
	}
	l.closed = true
	if l.net.listeners[key(l.addr)] == l {
		delete(l.net.listeners, key(l.addr))
	}
	q := l.queue
	l.queue = nil
	for _, e := range q {
		e.abort()
	}
	wake(&l.wait)
}

// ---- what the patched package net calls --------------------------------------------------------

func (n *Network) Dial(ctx context.Context, la, ra *net.TCPAddr) (s net.SimSocket, a *net.TCPAddr, err error) {
	runtime.SimYield()
	runtime.SimGate()
	node := runtime.SimNode()
	env(func() {
		if n.nofile && node >= nodeRecv && node < nodeGen {
			n.faults.add("no-descriptor-dial")
			err = os.NewSyscallError("socket", syscall.EMFILE)
			return
		}
		id := uint64(1)<<40 | uint64(n.nextConn)
		var pr Profile
		if n.profFor != nil {
			pr = n.profFor(key(ra), n.nextConn)
		}
		var e *End
		e, err = n.dialFrom(ctx, node, ra, id, pr, pr, nil)
		if err == nil {
			s, a = e, e.local
		}
	})
	runtime.SimGate()
	return
}

func (n *Network) Listen(network string, la *net.TCPAddr) (s net.SimAcceptor, a *net.TCPAddr, err error) {
	runtime.SimYield()
	runtime.SimGate()
	node := runtime.SimNode()
	env(func() {
		if la == nil {
			err = errors.New("sim: listen without address")
			return
		}
		b := *la
		if b.Port == 0 {
			b.Port = n.nextPort
			n.nextPort++
		}
		k := key(&b)
		if n.listeners[k] != nil {
			err = os.NewSyscallError("bind", syscall.EADDRINUSE)
			return
		}
		l := &Listener{net: n, network: network, addr: &b, node: node, faults: n.acceptPlan}
		n.listeners[k] = l
		n.open[node]++
		s, a = l, &b
		if n.onListen != nil {
			n.onListen(l)
		}
	})
	return
}

func errnoOf(s string) error {
	switch s {
	case "EMFILE":
		return syscall.EMFILE
	case "ENFILE":
		return syscall.ENFILE
	case "ECONNABORTED":
		return syscall.ECONNABORTED
	case "ENOBUFS":
		return syscall.ENOBUFS
	case "ENOMEM":
		return syscall.ENOMEM
	case "EPROTO":
		return syscall.EPROTO
	case "EINTR":
		return syscall.EINTR
	}
	return syscall.EIO
}

func (l *Listener) Accept() (s net.SimSocket, la, ra *net.TCPAddr, err error) {
	runtime.SimYield()
	runtime.SimGate()
	n := l.net
	env(func() {
		for {
			if l.closed {
				err = net.ErrClosed
				return
			}
			if !l.dl.IsZero() && !time.Now().Before(l.dl) {
				err = os.ErrDeadlineExceeded
				return
			}
			if len(l.queue) > 0 && n.nofile && l.node >= nodeRecv && l.node < nodeGen {
				n.faults.add("no-descriptor-accept")
				n.sleep(context.Background(), 5*time.Millisecond) // what a loop may take
				err = os.NewSyscallError("accept4", syscall.EMFILE)
				return
			}
			if len(l.queue) > 0 {
				// an accept error is reported when there is something to accept
				call := n.acceptCalls
				n.acceptCalls++
				if n.acceptCalls == n.acceptStop {
					close(n.acceptMet)
				}
				for _, f := range l.faults {
					if call >= f.At && call < f.At+f.Count {
						n.faults.add("accept-" + f.Err)
						if f.Err == "ECONNABORTED" {
							continue // Go's accept retries this one itself
						}
						err = os.NewSyscallError("accept4", errnoOf(f.Err))
						return
					}
				}
				e := l.queue[0]
				l.queue = l.queue[1:]
				if n.accepted != nil {
					n.accepted(e)
				}
				s, la, ra = e, e.local, e.remote
				return
			}
			ch := make(chan struct{})
			l.wait = append(l.wait, ch)
			<-ch
		}
	})
	runtime.SimGate()
	return
}

func (l *Listener) Close() error {
	runtime.SimYield()
	runtime.SimGate()
	if l.closed {
		return net.ErrClosed
	}
	env(func() {
		l.closeEnv()
		l.net.open[l.node]--
		if l.net.onUnlisten != nil {
			l.net.onUnlisten(l)
		}
	})
	return nil
}
func (l *Listener) Read(p []byte) (int, error)  { return 0, syscall.ENOTCONN }
func (l *Listener) Write(p []byte) (int, error) { return 0, syscall.ENOTCONN }
func (l *Listener) Shutdown(how int) error      { return syscall.ENOTCONN }
func (l *Listener) SetDeadline(t time.Time, mode int) error {
	runtime.SimYield()
	runtime.SimGate()
	if l.closed {
		return net.ErrClosed
	}
	t = simTime(t)
	env(func() {
		l.dl = t
		wake(&l.wait)
		if !t.IsZero() {
			time.AfterFunc(time.Until(t), func() { wake(&l.wait) })
		}
	})
	return nil
}
func (l *Listener) RawFD() uintptr      { return uintptr(1<<30 - 1) }
func (l *Listener) WaitReadable() error { return syscall.EINVAL }
func (l *Listener) Linger(sec int)      {}

// ---- a socket ------------------------------------------------------------------------------------

func (e *End) RawFD() uintptr { return uintptr(e.fd) }

func (e *End) Linger(sec int) { e.linger0 = sec == 0 }

// Read as package internal/poll would.
func (e *End) Read(p []byte) (n int, err error) {
	runtime.SimYield()
	runtime.SimGate()
	env(func() { n, err = e.read(p, true) })
	runtime.SimGate()
	return
}

var errAgain = syscall.EAGAIN

func (e *End) read(p []byte, block bool) (int, error) {
	if e.closed {
		return 0, net.ErrClosed
	}
	if len(p) == 0 {
		return 0, nil
	}
	if block && !e.rdl.IsZero() && !time.Now().Before(e.rdl) {
		return 0, os.ErrDeadlineExceeded
	}
	for {
		if len(e.rbuf) > 0 {
			n := len(e.rbuf)
			if n > len(p) {
				n = len(p)
			}
			switch e.peer.prof.Short {
			case 1:
				if n > 1 && e.rrng.P(1, 2) {
					n = 1 + e.rrng.N(n)
					e.net.faults.add("short-read")
				}
			case 2:
				if n > 1 {
					e.net.faults.add("short-read")
				}
				n = 1
			}
			copy(p, e.rbuf[:n])
			e.rbuf = e.rbuf[n:]
			runtime.SimProgress()
			if e.onRead != nil {
				e.onRead(n)
			}
			if e.peer != nil {
				wake(&e.peer.waitW)
			}
			return n, nil
		}
		if e.rerr != nil {
			err := e.rerr
			e.rerr = nil
			e.rfin = true
			return 0, err
		}
		if e.rfin {
			return 0, io.EOF
		}
		if !block {
			return 0, errAgain
		}
		if err := e.block(&e.waitR); err != nil {
			return 0, err
		}
		if e.closed {
			return 0, net.ErrClosed
		}
		if !e.rdl.IsZero() && !time.Now().Before(e.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
	}
}

func (e *End) block(l *[]chan struct{}) error {
	ch := make(chan struct{})
	*l = append(*l, ch)
	<-ch
	return nil
}

func (e *End) WaitReadable() (err error) {
	runtime.SimYield()
	runtime.SimGate()
	env(func() {
		for len(e.rbuf) == 0 && e.rerr == nil && !e.rfin {
			if e.closed {
				err = net.ErrClosed
				return
			}
			if !e.rdl.IsZero() && !time.Now().Before(e.rdl) {
				err = os.ErrDeadlineExceeded
				return
			}
			e.block(&e.waitR)
		}
	})
	runtime.SimGate()
	return
}

func (n *Network) sysRead(fd int, p []byte) (k int, err error) {
	e := n.ends[fd]
	if e == nil {
		return -1, syscall.EBADF
	}
	env(func() { k, err = e.read(p, false) })
	if err == io.EOF {
		return 0, nil
	}
	if err != nil {
		k = -1
	}
	return
}

func (e *End) window() int {
	if e.prof.Window > 0 {
		return e.prof.Window
	}
	return 65536
}

func (e *End) Write(p []byte) (n int, err error) {
	runtime.SimYield()
	runtime.SimGate()
	if runtime.SimDead(runtime.SimNode()) {
		return 0, nil
	}
	env(func() { n, err = e.write(p) })
	runtime.SimGate()
	return
}

func (e *End) write(p []byte) (int, error) {
	if e.closed {
		return 0, net.ErrClosed
	}
	done := 0
	var since time.Time
	for {
		if e.closed {
			return done, net.ErrClosed
		}
		if !e.wdl.IsZero() && !time.Now().Before(e.wdl) {
			if done < len(p) {
				e.net.faults.add("write-timeout")
			}
			return done, os.ErrDeadlineExceeded
		}
		if e.rst || e.wfin {
			var err error = syscall.EPIPE
			if e.rerr != nil {
				err, e.rerr = e.rerr, nil
				e.rfin = true
			}
			return done, err
		}
		if done == len(p) {
			return done, nil
		}
		room := e.window() - e.inflight - len(e.peer.rbuf)
		if room > 0 {
			k := len(p) - done
			if k > room {
				k = room
			}
			e.send(p[done:done+k], false)
			runtime.SimProgress()
			done += k
			since = time.Time{}
			if done == len(p) {
				return done, nil
			}
			continue
		}
		if since.IsZero() {
			since = time.Now()
			e.net.faults.add("write-blocked")
		}
		e.blocked++
		e.block(&e.waitW)
		e.blocked--
		if d := time.Since(since); d > e.blockedFor {
			e.blockedFor = d
		}
		if runtime.SimDead(e.node) {
			return done, nil
		}
	}
}

// send queues bytes (and/or the end of the stream) for delivery.
func (e *End) send(b []byte, fin bool) {
	if e.onWrite != nil && len(b) > 0 {
		e.onWrite(b)
	}
	b = append([]byte(nil), b...)
	for len(b) > 0 || fin {
		k := len(b)
		if e.prof.Seg > 0 && k > 0 {
			lo := e.prof.SegMin
			if lo < 1 {
				lo = 1
			}
			hi := e.prof.Seg
			if hi < lo {
				hi = lo
			}
			if m := e.rng.In(lo, hi); m < k {
				k = m
				e.net.faults.add("segment-cut")
			}
		}
		s := segment{b: b[:k]}
		b = b[k:]
		if len(b) == 0 && fin {
			s.fin = true
			fin = false
		}
		e.queueSeg(s)
	}
}

func (e *End) queueSeg(s segment) {
	lat := time.Duration(e.prof.LatMin) * time.Microsecond
	if e.prof.LatMax > e.prof.LatMin {
		lat += e.rng.Dur(time.Duration(e.prof.LatMax-e.prof.LatMin) * time.Microsecond)
	}
	at := time.Now().Add(lat)
	if at.Before(e.stallTo) {
		at = e.stallTo
	}
	if at.Before(e.lastAt) {
		at = e.lastAt
	}
	e.lastAt = at
	e.inflight += len(s.b)
	e.deliverAt(s, at)
}

func (e *End) deliverAt(s segment, at time.Time) {
	d := time.Until(at)
	if d <= 0 && e.inflight == len(s.b) && len(e.c.q[e.side]) == 0 && e.prof.LatMax == 0 && !e.c.held {
		e.arrive(s)
		return
	}
	s.at = at
	e.c.q[e.side] = append(e.c.q[e.side], s)
	if !e.c.busy[e.side] && !e.c.held {
		e.c.busy[e.side] = true
		time.AfterFunc(d, e.arriveNext)
	}
}

// arriveNext delivers what is due, in order.
func (e *End) arriveNext() {
	for {
		q := e.c.q[e.side]
		if len(q) == 0 || e.c.held {
			e.c.busy[e.side] = false
			return
		}
		at := q[0].at
		if at.Before(e.stallTo) {
			// a stall that began later holds it up, too
			at = e.stallTo
		}
		if d := time.Until(at); d > 0 {
			time.AfterFunc(d, e.arriveNext)
			return
		}
		e.c.q[e.side] = q[1:]
		e.arrive(q[0])
	}
}

func (e *End) arrive(s segment) {
	p := e.peer
	if e.c.cut {
		return
	}
	e.inflight -= len(s.b)
	if s.rst {
		p.gotReset()
		return
	}
	if p.closed || p.rst {
		if len(s.b) > 0 && !e.rst {
			// data for a closed socket: the sender gets a reset
			p.sendReset()
		}
		return
	}
	if len(s.b) > 0 {
		p.rbuf = append(p.rbuf, s.b...)
		p.arrived += len(s.b)
		if p.onArrive != nil {
			p.onArrive(len(s.b))
		}
	}
	if s.fin {
		p.rfin = true
	}
	wake(&p.waitR)
	if p.onState != nil {
		p.onState()
	}
}

func (e *End) sendReset() {
	if e.rstSent {
		return
	}
	e.rstSent = true
	e.queueSeg(segment{rst: true})
}

func (e *End) gotReset() {
	if e.rst {
		return
	}
	e.rst = true
	if !e.closed {
		e.rerr = syscall.ECONNRESET
	}
	wake(&e.waitR)
	wake(&e.waitW)
	if e.onState != nil {
		e.onState()
	}
}

// fail reports a local error (keepalive or retransmission timeout).
func (e *End) fail(errno syscall.Errno) {
	if e.closed || e.rst {
		return
	}
	e.rst = true
	e.rerr = errno
	wake(&e.waitR)
	wake(&e.waitW)
	if e.onState != nil {
		e.onState()
	}
}

func (e *End) Close() error {
	runtime.SimYield()
	runtime.SimGate()
	if runtime.SimDead(runtime.SimNode()) {
		return nil
	}
	if e.closed {
		return net.ErrClosed
	}
	env(e.kclose)
	return nil
}

// kclose closes the descriptor, as the kernel does at exit too.
func (e *End) kclose() {
	if e.closed {
		return
	}
	e.closed = true
	e.net.open[e.node]--
	unread := len(e.rbuf) > 0
	e.rbuf = nil
	if !e.rst {
		if unread || e.linger0 {
			e.rst = true
			e.rstSent = true
			e.queueSeg(segment{rst: true})
		} else if !e.wfin {
			e.wfin = true
			e.send(nil, true)
		}
	}
	wake(&e.waitR)
	wake(&e.waitW)
	if e.peer != nil {
		wake(&e.peer.waitW)
	}
	if e.onClose != nil {
		e.onClose()
	}
}

// abort resets the connection.
func (e *End) abort() {
	if e.closed {
		return
	}
	e.linger0 = true
	e.kclose()
}

func (e *End) Shutdown(how int) error {
	runtime.SimYield()
	runtime.SimGate()
	if e.closed {
		return net.ErrClosed
	}
	if e.rst {
		return syscall.ENOTCONN
	}
	env(func() {
		if how == syscall.SHUT_WR || how == syscall.SHUT_RDWR {
			e.halfClose()
		}
		if how == syscall.SHUT_RD || how == syscall.SHUT_RDWR {
			e.rfin = true
			wake(&e.waitR)
		}
	})
	return nil
}

func (e *End) halfClose() {
	if !e.wfin && !e.rst {
		e.wfin = true
		e.send(nil, true)
	}
	wake(&e.waitW)
}

func (e *End) SetDeadline(t time.Time, mode int) error {
	runtime.SimYield()
	runtime.SimGate()
	if e.closed {
		return net.ErrClosed
	}
	t = simTime(t)
	env(func() {
		if mode == 'r' || mode == 'r'+'w' {
			e.rdl = t
			e.rtimer = deadline(e.rtimer, t, &e.waitR)
		}
		if mode == 'w' || mode == 'r'+'w' {
			e.wdl = t
			e.wtimer = deadline(e.wtimer, t, &e.waitW)
		}
	})
	return nil
}

// simTime is when the caller's clock, set as it is now, will show t. Its wall clock may be wrong; a time
// with a monotonic reading does not depend on it.
func simTime(t time.Time) time.Time {
	if t.IsZero() {
		return t
	}
	d := time.Until(t)
	env(func() { t = time.Now().Add(d) })
	return t
}

// deadline wakes up at t whoever waits then.
func deadline(tm *time.Timer, t time.Time, w *[]chan struct{}) *time.Timer {
	if tm != nil {
		tm.Stop()
	}
	if t.IsZero() {
		return nil
	}
	d := time.Until(t)
	if d <= 0 {
		wake(w)
		return nil
	}
	return time.AfterFunc(d, func() { wake(w) })
}

// ---- faults on an established connection -------------------------------------------------------

// stall holds up everything this end sends until d from now.
func (e *End) stall(d time.Duration) {
	t := time.Now().Add(d)
	if t.After(e.stallTo) {
		e.stallTo = t
	}
	e.net.faults.add("stall")
}

// blackhole loses everything from now on, both ways; keepalive notices it after 150 s.
func (p *Pipe) blackhole() {
	if p.cut {
		return
	}
	p.cut = true
	p.ends[0].net.faults.add("blackhole")
	time.AfterFunc(150*time.Second, func() {
		for _, e := range p.ends {
			e.fail(syscall.ETIMEDOUT)
		}
	})
}

// hold takes the path down: what is sent waits for release. The ends give up as Linux does, after
// 150 s of keepalive probes when nothing is outstanding and after 924 s of retransmissions otherwise.
func (p *Pipe) hold() {
	if p.held || p.ends[0].closed && p.ends[1].closed {
		return
	}
	p.held = true
	p.holdN++
	n := p.holdN
	for _, e := range p.ends {
		e := e
		time.AfterFunc(150*time.Second, func() {
			if !p.held || p.holdN != n {
				return
			}
			if e.inflight == 0 {
				e.fail(syscall.ETIMEDOUT)
				return
			}
			time.AfterFunc(774*time.Second, func() {
				if p.held && p.holdN == n {
					e.fail(syscall.ETIMEDOUT)
				}
			})
		})
	}
}

// release brings the path up after d: what waited comes with a retransmission, whose interval has
// grown with the time the path was down.
func (p *Pipe) release(d time.Duration, r *Rng) {
	if !p.held {
		return
	}
	p.held = false
	d = min(d, 120*time.Second)
	for i, e := range p.ends {
		e := e
		if len(p.q[i]) > 0 {
			t := time.Now().Add(r.Dur(d))
			if t.After(e.stallTo) {
				e.stallTo = t
			}
			if !p.busy[i] {
				p.busy[i] = true
				time.AfterFunc(time.Until(t), e.arriveNext)
			}
		}
		if (e.rst || e.closed) && !e.peer.rst && !e.peer.closed {
			// this end has given up meanwhile: the other one's keepalive probe is answered by a reset
			time.AfterFunc(r.Dur(15*time.Second), e.sendReset)
		}
	}
}

// dark is the loss of the host of side 1: what it had sent is gone, what comes for it waits and will
// be answered by a reset.
func (p *Pipe) dark() {
	p.hold()
	e := p.ends[1]
	p.q[1] = nil
	e.inflight = 0
	e.kcloseSilent()
}

// kcloseSilent: the end is gone and says nothing.
func (e *End) kcloseSilent() {
	if e.closed {
		return
	}
	e.closed = true
	e.net.open[e.node]--
	e.rbuf = nil
	wake(&e.waitR)
	wake(&e.waitW)
	if e.onClose != nil {
		e.onClose()
	}
}

// killNode is the death of a process: its goroutines stop where they are and the kernel closes its
// descriptors.
func (n *Network) killNode(node int) {
	runtime.SimKill(node)
	env(func() {
		for _, l := range sortedListeners(n.listeners) {
			if l.node == node {
				l.closeEnv()
			}
		}
		for fd := 1 << 30; fd < n.nextFD; fd++ {
			if e := n.ends[fd]; e != nil && e.node == node && !e.closed {
				e.kclose()
			}
		}
		n.open[node] = 0
	})
}

func sortedListeners(m map[string]*Listener) []*Listener {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []*Listener
	for _, k := range ks {
		r = append(r, m[k])
	}
	return r
}
