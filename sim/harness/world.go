package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	log "github.com/sirupsen/logrus"
)

const (
	nodeRecv = 10 // first incarnation of the receiver, then 11, 12, ...
	nodeGen  = 30
	addr     = "127.0.0.1:6000"
)

// Viol is a broken property.
type Viol struct {
	Prop string `json:"prop"`
	Msg  string `json:"msg"`
	// Known: the identity of a recorded finding
	Known string `json:"known,omitempty"`
}

// Result of one run, printed by the worker.
type Result struct {
	Viols    []Viol           `json:"viols,omitempty"`
	SimUs    int64            `json:"sim_us"`
	Steps    int64            `json:"steps"`
	Switches int64            `json:"switches"`
	Preempts int64            `json:"preempts"`
	Decs     int64            `json:"decisions"`
	Hash     string           `json:"hash"`
	Faults   map[string]int64 `json:"faults,omitempty"`
	Count    map[string]int64 `json:"count,omitempty"`
	Devs     [][3]int64       `json:"devs,omitempty"`
	MaxSteps int64            `json:"max_steps,omitempty"` // most steps without time passing
	Dropped  int64            `json:"dropped,omitempty"`
	Trace    []string         `json:"trace,omitempty"`
	Harness  string           `json:"harness,omitempty"` // trouble of the machinery itself
}

type arrival struct {
	t time.Time
	n int
}
type write struct {
	seq int64
	t   time.Time
	end int
}

// ConnH is what happened on a terminal's connection.
type ConnH struct {
	c           *Conn
	dialErr     error
	tDial       time.Time
	tPair       time.Time // the receiver's socket came into being
	up          bool
	arr         []arrival // cumulative bytes in the receiver's socket
	reads       []arrival
	writes      []write
	out         []byte // what the receiver wrote
	srvClose    time.Time
	srvCloseSeq int64
	srvOpen     bool
	endKind     string // close reset black half
	endAt       time.Time
	finAt       time.Time // end arrived at the receiver
	got         []byte
	gotAt       []arrival
	sawClose    time.Time
	sent        int
	done        bool
	end         *End
	waitG       []chan struct{}
	answers     int
	parsed      int
	acceptAt    time.Time
	peak        int

	byPID     map[uint16]*Exp
	outParsed int
	acks      []uint16
	ackAt     []time.Time
	nacks     []uint16
}

// SaveEv is one call of a stub storage.
type SaveEv struct {
	store  int
	node   int
	seq0   int64
	seq1   int64
	t0, t1 time.Time
	b0, b1 []byte
	encErr error
	err    error
	rec    *recJSON
	jerr   error
	delay  time.Duration
	conn   *ConnH
}

type World struct {
	p            *Plan
	net          *Network
	f            *Faults
	seq          int64
	t0           time.Time
	viols        []Viol
	conns        []*ConnH
	byID         map[uint64]*ConnH
	saves        []*SaveEv
	trace        []string
	count        map[string]int64
	exits        map[int]int
	exitAt       map[int]time.Time
	out          map[int]*[]byte
	listening    chan struct{}
	maxSave      time.Duration
	record       []runtime.SimDev
	verbose      bool
	keyConn      map[int64]*ConnH
	tolerateExit bool

	// whole-process setups
	brokers []*Broker
	logB    *Broker
	models  map[int64]*RecordM
	terms   []*TermH
	tl      time.Time // the receiver began to listen
	gone    map[int]chan struct{}
	planned map[int]bool
	tmp     []string
	lAddr   string
	lNet    string
	over    bool
	lastUp  time.Time // the receiver's last start
}

var W *World

func (w *World) next() int64 { w.seq++; return w.seq }

func (w *World) at() string {
	return fmt.Sprintf("%.6f", float64(time.Since(w.t0).Microseconds())/1e6)
}

func (w *World) log(f string, a ...any) {
	if len(w.trace) < 4000 {
		w.trace = append(w.trace, w.at()+" "+fmt.Sprintf(f, a...))
	}
}

func (w *World) viol(prop, f string, a ...any) {
	if len(w.viols) < 50 {
		w.viols = append(w.viols, Viol{Prop: prop, Msg: fmt.Sprintf(f, a...)})
	}
}

func (w *World) finish() {
	st := runtime.SimGetStats()
	r := Result{Viols: w.viols, SimUs: time.Since(w.t0).Microseconds(), Steps: st.Steps, Switches: st.Switches,
		Preempts: st.Preempts, Decs: st.Decisions, Hash: fmt.Sprintf("%016x", st.Hash), Faults: w.f.m, Count: w.count, Dropped: st.Dropped, MaxSteps: st.MaxBurst}
	if w.verbose {
		r.Trace = w.trace
	}
	for _, d := range st.Record {
		r.Devs = append(r.Devs, [3]int64{int64(d.Kind), d.At, int64(d.Pick)})
	}
	b, err := json.Marshal(&r)
	if err != nil {
		panic(err)
	}
	b = append([]byte("\nEGSIM-RESULT "), b...)
	b = append(b, '\n')
	for len(b) > 0 {
		n, err := syscall.Write(1, b)
		if err != nil {
			break
		}
		b = b[n:]
	}
	syscall.Exit(0)
}

// worker runs one plan in this process.
func worker(p *Plan, verbose bool) {
	if p.Mem {
		runtime.MemProfileRate = 1
	} else {
		runtime.MemProfileRate = 0
	}
	runtime.SimRun(p.Start, func() {
		w := &World{p: p, f: &Faults{map[string]int64{}}, t0: time.Now(), byID: map[uint64]*ConnH{}, count: map[string]int64{},
			exits: map[int]int{}, exitAt: map[int]time.Time{}, out: map[int]*[]byte{}, listening: make(chan struct{}), verbose: verbose, keyConn: map[int64]*ConnH{},
			models: map[int64]*RecordM{}, gone: map[int]chan struct{}{}, planned: map[int]bool{}}
		W = w
		time.Local = time.FixedZone("SIM", p.Zone)
		w.net = newNetwork(p.Seed, w.f)
		w.net.acceptPlan = p.Accept
		net.Sim = w.net
		syscall.SimRead = w.net.sysRead
		os.SimExit = w.onExit
		os.SimWrite = w.onOutput
		w.net.onListen = func(l *Listener) {
			if l.node >= nodeRecv && l.node < nodeGen {
				w.log("receiver %d listens on %s", l.node, l.addr)
				w.lAddr, w.lNet = l.addr.String(), l.network
				select {
				case <-w.listening:
				default:
					close(w.listening)
				}
			}
		}
		if p.Debug {
			log.SetLevel(log.DebugLevel)
		}
		w.record = make([]runtime.SimDev, 200000)
		cfg := &runtime.SimConfig{Seed: p.Seed, Sched: p.Sched.Seed, Base: p.Start, Policy: p.Sched.Policy, Preempt: p.Sched.Preempt,
			Steps: 20_000_000, Total: 300_000_000, Record: w.record}
		for _, d := range p.Sched.Devs {
			cfg.Devs = append(cfg.Devs, runtime.SimDev{Kind: int8(d[0]), At: d[1], Pick: int32(d[2])})
		}
		runtime.SimStart(cfg, func(kind, node int) {
			if node == 0 {
				w.viols = nil
				fmt.Fprintln(os.NewFile(2, ""), "EGSIM-HARNESS livelock in the environment")
				syscall.Exit(4)
			}
			if kind == 1 {
				w.viol("*", "livelock: node %d makes step after step while no time passes", node)
			} else {
				w.viol("*", "livelock: node %d makes step after step, hundreds of millions in %v", node, time.Since(w.t0))
			}
			w.finish()
		})
		for _, j := range p.Jumps {
			set := func() {
				runtime.SimWall(j[1] * 1000)
				w.f.add("clock-step")
				w.log("the wall clock is off by %v", us(j[1]))
			}
			if j[0] == 0 {
				set()
			} else {
				time.AfterFunc(us(j[0]), set)
			}
		}
		switch p.Kind {
		case "S1":
			w.runS1()
		case "S2":
			w.runS2()
		case "S3":
			w.runS3()
		default:
			panic("kind " + p.Kind)
		}
		w.finish()
	})
}

func (w *World) onExit(code int) {
	n := runtime.SimNode()
	if n == 0 {
		return
	}
	// a killed process has no exit status, whatever its goroutines do while they are unwound
	runtime.SimGate()
	runtime.SimEnv(0)
	if _, ok := w.exits[n]; !ok {
		w.exits[n] = code
		w.exitAt[n] = time.Now()
		w.log("node %d exits with %d", n, code)
	}
	if w.p.Kind == "S1" {
		w.viol("crash", "the receiver process exits with %d", code)
	}
	w.net.killNode(n)
	if g := w.gone[n]; g != nil {
		select {
		case <-g:
		default:
			close(g)
		}
	}
	runtime.SimEnv(n)
	runtime.Goexit()
}

func (w *World) onOutput(fd int, b []byte) (bool, int, error) {
	n := runtime.SimNode()
	if n == 0 {
		return false, 0, nil
	}
	runtime.SimEnv(0)
	defer runtime.SimEnv(n)
	if n < nodeGen {
		for _, f := range w.p.NoLog {
			if t := time.Since(w.t0); t >= us(f[0]) && t < us(f[1]) {
				w.f.add("log-disk-full")
				k := int(f[2])
				if k > len(b) {
					k = len(b)
				}
				return true, k, syscall.ENOSPC
			}
		}
	}
	o := w.out[n]
	if o == nil {
		o = new([]byte)
		w.out[n] = o
	}
	if len(*o) < 1<<22 {
		*o = append(*o, b...)
	}
	if w.p.Kind == "S2" && n < nodeGen {
		w.logged(b)
	}
	if w.verbose && len(b) < 300 {
		w.log("  [%d] %s", n, strings.TrimSpace(string(b)))
	}
	return true, len(b), nil
}

// ---- terminals -----------------------------------------------------------------------------------

func (w *World) hist(c *Conn) *ConnH {
	h := &ConnH{c: c}
	w.conns = append(w.conns, h)
	w.byID[uint64(c.ID)] = h
	return h
}

func (w *World) watch(h *ConnH, p *Pipe) {
	a := p.ends[1]
	a.onArrive = func(n int) {
		h.arr = append(h.arr, arrival{time.Now(), a.arrived})
	}
	a.onRead = func(n int) {
		k := n
		if len(h.reads) > 0 {
			k += h.reads[len(h.reads)-1].n
		}
		h.reads = append(h.reads, arrival{time.Now(), k})
	}
	a.onWrite = func(b []byte) {
		h.out = append(h.out, b...)
		h.writes = append(h.writes, write{w.next(), time.Now(), len(h.out)})
	}
	if w.p.Kind == "S2" {
		old := a.onWrite
		a.onWrite = func(b []byte) {
			old(b)
			w.answersS2(h)
		}
	}
	a.onClose = func() {
		h.srvClose = time.Now()
		h.srvCloseSeq = w.next()
		h.srvOpen = false
		w.log("conn %d: receiver closes", h.c.ID)
	}
	a.onState = func() {
		if (a.rfin || a.rst) && h.finAt.IsZero() {
			h.finAt = time.Now()
		}
	}
	h.srvOpen = true
	h.tPair = time.Now()
	d := p.ends[0]
	d.onState = func() { w.termState(h) }
	h.end = d
	h.up = true
}

func (w *World) termState(h *ConnH) {
	e := h.end
	c := h.c
	if !e.closed && c.ReadAt == 0 && c.ReadBytes == 0 {
		w.drain(h, len(e.rbuf))
	}
	if len(e.rbuf) == 0 && (e.rfin || e.rst) && h.sawClose.IsZero() {
		h.sawClose = time.Now()
	}
	wake(&h.waitG)
}

func (w *World) drain(h *ConnH, n int) {
	e := h.end
	if e.closed || n == 0 {
		return
	}
	if n > len(e.rbuf) {
		n = len(e.rbuf)
	}
	h.got = append(h.got, e.rbuf[:n]...)
	e.rbuf = e.rbuf[n:]
	h.gotAt = append(h.gotAt, arrival{time.Now(), len(h.got)})
	wake(&e.peer.waitW)
	for {
		_, k, err := parseAnswer(h.got[h.parsed:])
		if err != nil {
			break
		}
		h.parsed += k
		h.answers++
	}
	wake(&h.waitG)
}

func (h *ConnH) waitFor(cond func() bool, max time.Duration) bool {
	end := time.Now().Add(max)
	t := time.AfterFunc(max, func() { wake(&h.waitG) })
	defer t.Stop()
	for !cond() {
		if !time.Now().Before(end) {
			return false
		}
		ch := make(chan struct{})
		h.waitG = append(h.waitG, ch)
		<-ch
	}
	return true
}

func (w *World) runConn(h *ConnH) {
	c := h.c
	defer func() { h.done = true }()
	time.Sleep(us(c.Start))
	e, err := w.net.dialHook(w.p.addr(), uint64(c.ID), c.Up, c.Down, func(p *Pipe) { w.watch(h, p) })
	h.tDial = time.Now()
	if err != nil {
		h.dialErr = err
		w.log("conn %d: dial: %v", c.ID, err)
		return
	}
	w.log("conn %d: established", c.ID)
	if c.ReadAt > 0 && c.ReadBytes == 0 {
		time.AfterFunc(us(c.ReadAt), func() {
			c.ReadAt = 0
			w.termState(h)
		})
	}
	if c.ReadBytes > 0 {
		w.f.add("slow-reader")
		var tick func()
		tick = func() {
			if e.closed {
				return
			}
			w.drain(h, c.ReadBytes)
			w.termState(h)
			if !(e.rfin || e.rst) || len(e.rbuf) > 0 {
				time.AfterFunc(us(c.ReadEvery), tick)
			}
		}
		time.AfterFunc(us(c.ReadEvery), tick)
	}
	var glue []byte
	for oi, op := range c.Ops {
		if e.closed || e.c.cut {
			break
		}
		switch op.K {
		case "send":
			if op.I >= len(c.Items) {
				continue
			}
			b := c.Items[op.I].bytes()
			at, waited := 0, false
			for _, cut := range append(append([]int(nil), op.Cuts...), len(b)) {
				if cut <= at {
					continue
				}
				if cut > len(b) {
					cut = len(b)
				}
				if at > 0 {
					if op.Await > 0 && !waited {
						waited = true
						h.waitFor(func() bool { return h.answers >= op.Await || !h.sawClose.IsZero() }, us(op.Limit))
					} else {
						time.Sleep(us(op.Us))
					}
				}
				if e.closed || e.rst {
					break
				}
				piece := append(glue, b[at:cut]...)
				glue = nil
				at = cut
				if at == len(b) && oi+1 < len(c.Ops) && c.Ops[oi+1].K == "send" && c.Ops[oi+1].Glue && c.Ops[oi+1].I < len(c.Items) {
					glue = piece
					break
				}
				n, _ := e.write(piece)
				h.sent += n
			}
			w.log("conn %d: sent %s %d (%d bytes)", c.ID, c.Items[op.I].K, op.I, at)
		case "sleep":
			time.Sleep(us(op.Us))
		case "wait":
			h.waitFor(func() bool { return h.answers >= op.I || !h.sawClose.IsZero() }, us(op.Us))
		case "awaitclose":
			h.waitFor(func() bool { return !h.sawClose.IsZero() }, us(op.Us))
		case "half":
			if h.endKind == "" {
				h.endKind, h.endAt = "half", time.Now()
				w.f.add("half-close")
			}
			e.halfClose()
		case "close":
			h.endKind, h.endAt = "close", time.Now()
			w.f.add("terminal-close")
			e.kclose()
		case "reset":
			h.endKind, h.endAt = "reset", time.Now()
			w.f.add("terminal-reset")
			e.abort()
		case "black":
			h.endKind, h.endAt = "black", time.Now()
			e.c.blackhole()
		case "stallup":
			e.stall(us(op.Us))
		case "stalldown":
			e.peer.stall(us(op.Us))
		default:
			panic("op " + op.K)
		}
	}
	w.log("conn %d: script done", c.ID)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = io.EOF
