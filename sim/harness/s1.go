package main

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"runtime"
	"syscall"
	"time"

	"github.com/ElectroUnion/egts-gate/sim0/cli/receiver/server"
	"github.com/ElectroUnion/egts-gate/sim0/cli/receiver/storage"
)

// recJSON is the documented form of a stored record.
type recJSON struct {
	ServerID string `json:"server_id"`
	IMEI     string `json:"IMEI"`
	ClientID uint32 `json:"client_id"`
	Received string `json:"received_dt"`
	PacketID uint32 `json:"packet_id"`
	Nav      int64  `json:"navigation_unix_time"`
	An       []struct {
		N int   `json:"sensor_number"`
		V int64 `json:"value"`
	} `json:"an_sensors"`
	Liq []struct {
		N    int     `json:"sensor_number"`
		Mod  int     `json:"module_number"`
		Err  string  `json:"error_flag"`
		Unit string  `json:"value_unit"`
		Mm   int64   `json:"value_mm"`
		L    float64 `json:"value_l"`
	} `json:"liquid_sensors"`
	Loc []struct {
		Lat   float64 `json:"lat"`
		Lng   float64 `json:"lng"`
		Speed int     `json:"speed"`
		Dt    string  `json:"navigation_dt"`
	} `json:"loc_states"`
	LocN int `json:"loc_states_count"`
}

func parseRec(b []byte) (*recJSON, error) {
	r := &recJSON{}
	d := json.NewDecoder(bytes.NewReader(b))
	if err := d.Decode(r); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, errors.New("more than one JSON document")
	}
	return r, nil
}

// diffRec says how a stored record differs from what the packet means, "" if it does not.
func diffRec(r *recJSON, m *RecordM) string {
	if r.IMEI != m.IMEI {
		return fmt.Sprintf("IMEI %q, sent %q", r.IMEI, m.IMEI)
	}
	if r.ClientID != m.Client {
		return fmt.Sprintf("client_id %d, sent %d", r.ClientID, m.Client)
	}
	if r.PacketID != m.PacketID {
		return fmt.Sprintf("packet_id %d, sent %d", r.PacketID, m.PacketID)
	}
	if r.Nav != m.Nav {
		return fmt.Sprintf("navigation time %d, sent %d", r.Nav, m.Nav)
	}
	if len(r.Loc) != len(m.Loc) || r.LocN != len(m.Loc) {
		return fmt.Sprintf("%d positions (count says %d), sent %d", len(r.Loc), r.LocN, len(m.Loc))
	}
	for i, l := range r.Loc {
		s := m.Loc[i]
		if math.Abs(l.Lat-s.Lat) > 2.2e-8 || math.Abs(l.Lng-s.Lng) > 4.3e-8 || l.Speed != s.Speed || l.Dt != s.Dt {
			return fmt.Sprintf("position %d is %+v, sent %+v", i, l, s)
		}
	}
	if len(r.An) != len(m.An) {
		return fmt.Sprintf("%d analog values, sent %d", len(r.An), len(m.An))
	}
	for i, a := range r.An {
		if a.N != m.An[i].N || a.V != m.An[i].V {
			return fmt.Sprintf("analog value %d is %+v, sent %+v", i, a, m.An[i])
		}
	}
	if len(r.Liq) != len(m.Liq) {
		return fmt.Sprintf("%d liquid levels, sent %d", len(r.Liq), len(m.Liq))
	}
	for i, l := range r.Liq {
		s := m.Liq[i]
		if l.N != s.N || l.Mod != s.Mod || l.Err != s.Err || l.Unit != s.Unit || l.Mm != s.Mm || math.Abs(l.L-s.L) > 1e-6*math.Max(1, s.L) {
			return fmt.Sprintf("liquid level %d is %+v, sent %+v", i, l, s)
		}
	}
	return ""
}

// stub is a storage of the environment.
type stub struct {
	w    *World
	i    int
	s    *Store
	seen map[int64]int
}

var errStub = errors.New("storage refuses the record")

type stubTimeout struct{ temp bool }

func (stubTimeout) Error() string     { return "i/o timeout" }
func (stubTimeout) Timeout() bool     { return true }
func (e stubTimeout) Temporary() bool { return e.temp }

// stubErrs are ways in which a storage may say that it has failed.
var stubErrs = []error{
	stubTimeout{true}, stubTimeout{}, io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, net.ErrClosed,
	os.ErrDeadlineExceeded, os.ErrNotExist, os.ErrExist, os.ErrClosed, context.Canceled, context.DeadlineExceeded,
	syscall.ECONNRESET, syscall.EPIPE, syscall.EAGAIN, syscall.EINTR, syscall.ENOSPC, syscall.ETIMEDOUT,
	&net.OpError{Op: "write", Net: "tcp", Err: &os.SyscallError{Syscall: "write", Err: syscall.EPIPE}},
	&net.OpError{Op: "dial", Net: "tcp", Err: &os.SyscallError{Syscall: "connect", Err: syscall.ECONNREFUSED}},
	&net.OpError{Op: "read", Net: "tcp", Err: stubTimeout{}},
	&net.DNSError{Err: "no such host", Name: "db", IsTimeout: true, IsTemporary: true},
	driver.ErrBadConn, sql.ErrNoRows, sql.ErrTxDone, sql.ErrConnDone,
	fmt.Errorf("could not store: %w", io.EOF), fmt.Errorf("could not store: %w", stubTimeout{}),
	fmt.Errorf("could not store: %w", context.DeadlineExceeded), fmt.Errorf("could not store: %v", errStub),
	errors.New(""), errors.New("EOF"), errors.New("duplicate key value violates unique constraint"),
	errors.Join(errStub, io.EOF),
}

func (s *stub) Save(m interface{ ToBytes() ([]byte, error) }) error {
	w := s.w
	node := runtime.SimNode()
	runtime.SimEnv(0)
	defer runtime.SimEnv(node)
	ev := &SaveEv{store: s.i, node: node, t0: time.Now()}
	runtime.SimYield()
	ev.seq0 = w.next()
	w.saves = append(w.saves, ev)
	enc := func() ([]byte, error) {
		runtime.SimEnv(node)
		defer runtime.SimEnv(0)
		return m.ToBytes()
	}
	b, err := enc()
	ev.b0 = append([]byte(nil), b...)
	ev.encErr = err
	if err != nil {
		w.log("store %d: cannot encode: %v", s.i, err)
		return err
	}
	ev.rec, ev.jerr = parseRec(ev.b0)
	k := int64(0)
	if ev.rec != nil {
		k = ev.rec.Nav
		ev.conn = w.keyConn[k]
	}
	// the same record may fare differently the next time
	if s.seen == nil {
		s.seen = map[int64]int{}
	}
	r := newRng(w.p.Seed, 77, uint64(s.i), uint64(k), uint64(s.seen[k]))
	s.seen[k]++
	d := r.Dur(us(s.s.MaxDelay))
	for _, sk := range s.s.SlowKeys {
		if sk == k {
			d = us(s.s.SlowUs)
			w.f.add("slow-store")
		}
	}
	ev.delay = d
	if d > 0 {
		time.Sleep(d)
	}
	if runtime.SimDead(node) {
		runtime.Goexit()
	}
	b, err = enc()
	ev.b1 = append([]byte(nil), b...)
	runtime.SimYield()
	if s.s.FailNum > r.N(16) {
		ev.err = errStub
	}
	if s.s.FailTo > 0 {
		if t := time.Since(w.t0); t >= us(s.s.FailFrom) && t < us(s.s.FailTo) {
			ev.err = errStub
		}
	}
	if ev.err != nil {
		if k := r.N(2 * len(stubErrs)); k < len(stubErrs) {
			ev.err = stubErrs[k]
		}
		w.f.add("store-failure")
	}
	ev.t1 = time.Now()
	ev.seq1 = w.next()
	w.log("store %d: record %d -> %v", s.i, k, ev.err)
	return ev.err
}

func (w *World) runS1() {
	p := w.p
	for _, c := range p.Conns {
		w.hist(c)
		if c.Class != "warm" {
			for i := range c.Items {
				if q := c.Items[i].Pkt; q != nil {
					for _, rec := range q.records() {
						for _, s := range rec.Subs {
							if s.K == "pos" {
								w.keyConn[epoch2010+s.v(0)] = w.conns[len(w.conns)-1]
							}
						}
					}
				}
			}
		} else {
			for i := range c.Items {
				if q := c.Items[i].Pkt; q != nil && q.hasPos() {
					w.keyConn[q.model().Nav] = w.conns[len(w.conns)-1]
				}
			}
		}
	}
	for i := range p.Stores {
		s := &p.Stores[i]
		m := s.MaxDelay
		if len(s.SlowKeys) > 0 && s.SlowUs > m {
			m = s.SlowUs
		}
		w.maxSave += us(m)
	}
	start := func(node int) (*server.Server, chan struct{}) {
		repo := storage.NewRepository()
		for i := range p.Stores {
			repo.AddStore(&stub{w: w, i: i, s: &p.Stores[i]})
		}
		srv := server.New(addr, us(p.TTLus), repo)
		ret := make(chan struct{})
		go func() {
			runtime.SimSetNode(node)
			defer close(ret)
			srv.Run()
		}()
		return &srv, ret
	}
	srv, ret := start(nodeRecv)
	select {
	case <-w.listening:
	case <-time.After(10 * time.Second):
		w.viol("*", "the server does not listen")
		return
	}
	horizon := time.After(us(p.Horizon))
	left := 0
	fin := make(chan struct{}, len(p.Conns)+1)
	run := func(class string, not bool) {
		for _, h := range w.conns {
			if (h.c.Class == class) != not {
				left++
				h := h
				go func() {
					w.runConn(h)
					fin <- struct{}{}
				}()
			}
		}
	}
	wait := func() bool {
		for left > 0 {
			select {
			case <-fin:
				left--
			case <-horizon:
				return false
			}
		}
		return true
	}
	quiet := func() time.Duration { return us(p.Settle) }
	base, baseOpen := 0, 0
	var mem held
	if hasClass(p, "warm") {
		run("warm", false)
		if !wait() {
			w.viol("*", "warm-up connection got stuck")
			return
		}
		time.Sleep(quiet())
		base, baseOpen = runtime.SimCount(nodeRecv), w.net.open[nodeRecv]
		if p.Mem {
			runtime.SimAside(func() { mem = receiverHolds() })
		}
		w.log("baseline: %d goroutines, %d sockets", base, baseOpen)
		t := time.Since(w.t0)
		_ = t
	}
	if p.StopUs > 0 {
		left++
		go func() {
			met := make(chan struct{})
			if p.StopAcc > 0 {
				w.net.acceptStop, w.net.acceptMet = w.net.acceptCalls+p.StopAcc, met
			}
			select {
			case <-time.After(us(p.StopUs)):
			case <-met:
			}
			w.net.acceptStop = 0
			w.stopServer(srv, ret, start)
			fin <- struct{}{}
		}()
	}
	run("warm", true)
	ok := wait()
	if !ok {
		for _, h := range w.conns {
			if !h.done {
				w.log("conn %d: script not finished at the horizon", h.c.ID)
			}
		}
	}
	time.Sleep(quiet())
	// slow readers get the time to take their answers
	for k := 0; k < 200 && w.blocked(); k++ {
		time.Sleep(30 * time.Second)
	}
	w.checkS1()
	if hasClass(p, "warm") {
		g, o := runtime.SimCount(nodeRecv), w.net.open[nodeRecv]
		if g > base || o > baseOpen {
			w.viol("C13", "after all connections have ended and the bound has passed, %d goroutines and %d sockets are left where %d and %d were before", g, o, base, baseOpen)
		}
		if p.Mem {
			var now held
			runtime.SimAside(func() { now = receiverHolds() })
			// to the object it differs from run to run: pools and map buckets
			if n, d := int64(len(p.Conns)), now.objects-mem.objects; n >= 60 && d > n/2+30 {
				w.viol("C13", "after %d connections have ended, about %d more objects for each are held than before the first (%s)", n, max((d+n/2)/n, 1), now.growth(mem, n/4))
			}
		}
	}
}

// blocked: some connection of a terminal that reads has an answer on its way that has no room yet
func (w *World) blocked() bool {
	for _, h := range w.conns {
		if h.up && h.end != nil && h.c.ReadAt >= 0 && h.end.peer.blocked > 0 {
			return true
		}
	}
	return false
}

func hasClass(p *Plan, class string) bool {
	for _, c := range p.Conns {
		if c.Class == class {
			return true
		}
	}
	return false
}

func (w *World) stopServer(srv *server.Server, ret chan struct{}, start func(int) (*server.Server, chan struct{})) {
	select {
	case <-ret:
		w.viol("C14", "the run loop returned although nobody stopped the server")
		return
	default:
	}
	w.f.add("stop")
	stopped := make(chan struct{})
	go func() {
		runtime.SimSetNode(nodeRecv)
		_ = srv.Stop()
		close(stopped)
	}()
	select {
	case <-ret:
	case <-time.After(2 * time.Second):
		w.viol("C14", "2 s after Stop the run loop has not returned")
		return
	}
	select {
	case <-stopped:
	case <-time.After(2 * time.Second):
		w.viol("C14", "Stop has not returned after 2 s")
		return
	}
	if _, err := w.net.dialHook(addr, 1<<50, Profile{}, Profile{}, nil); err == nil {
		w.viol("C14", "after the run loop returned the address still accepts connections")
		return
	}
	if l := w.net.listeners[addr]; l != nil {
		w.viol("C14", "after the run loop returned the address cannot be listened on")
		return
	}
	w.listening = make(chan struct{})
	srv2, ret2 := start(nodeRecv + 1)
	_ = srv2
	select {
	case <-w.listening:
	case <-ret2:
		w.viol("C14", "a second server cannot run on the address of the stopped one")
	case <-time.After(2 * time.Second):
		w.viol("C14", "a second server does not listen on the address of the stopped one")
	}
}
