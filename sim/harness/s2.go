package main

import (
	"bytes"
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	recv0 "github.com/ElectroUnion/egts-gate/sim0/cli/receiver"
	recv1 "github.com/ElectroUnion/egts-gate/sim1/cli/receiver"
	recv2 "github.com/ElectroUnion/egts-gate/sim2/cli/receiver"
	recv3 "github.com/ElectroUnion/egts-gate/sim3/cli/receiver"
)

// Setup S2: the whole receiver program (main, configuration, storages with their client libraries)
// against simulated brokers and terminals.

var receivers = []func(){recv0.SimMain, recv1.SimMain, recv2.SimMain, recv3.SimMain}

// Event is the death of the receiver's process number I (counted from 0) and its restart.
type Event struct {
	At   int64 `json:"at_us,omitempty"`   // after it began to listen
	Step int64 `json:"step,omitempty"`    // at this statement of the process
	Down int64 `json:"down_us,omitempty"` // until it is started again
}

// memFile makes a readable file that exists only in memory.
func memFile(content string) string {
	name := []byte("sim\x00")
	fd, _, e := syscall.RawSyscall(319, uintptr(unsafe.Pointer(&name[0])), 0, 0)
	if e == 0 {
		b := []byte(content)
		for len(b) > 0 {
			n, err := syscall.Write(int(fd), b)
			if err != nil {
				break
			}
			b = b[n:]
		}
		if len(b) == 0 {
			return "/proc/self/fd/" + strconv.Itoa(int(fd))
		}
	}
	f, err := os.CreateTemp("", "egsim")
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if _, err := f.WriteString(content); err != nil {
		panic(err)
	}
	w := f.Name()
	W.tmp = append(W.tmp, w)
	return w
}

// process runs a program's main function as a node.
func (w *World) process(node int, args []string, main func()) {
	w.gone[node] = make(chan struct{})
	go func() {
		flag.CommandLine = flag.NewFlagSet(args[0], flag.ExitOnError)
		os.Args = args
		runtime.SimSetNode(node)
		main()
		w.onExit(0)
	}()
}

// keys maps what is stored to the packets it comes from.
func (w *World) addKeys(h *ConnH, c *Conn) {
	for i := range c.Items {
		if q := c.Items[i].Pkt; q != nil && c.Items[i].K == "V" && q.hasPos() {
			m := q.model()
			w.keyConn[m.Nav] = h
			w.models[m.Nav] = m
		}
	}
}

// genuine checks a message that has just reached a backend.
func (w *World) genuine(k *Broker, m *BMsg) {
	if m.err != nil || m.rec == nil {
		w.viol("C20", "%s was given something that is not one JSON record: %.120q (%v)", k.b.Kind, m.body, m.err)
		return
	}
	x := w.models[m.rec.Nav]
	if x == nil {
		w.viol("C20", "%s was given a record that no packet explains: %.300s", k.b.Kind, m.body)
		return
	}
	if d := diffRec(m.rec, x); d != "" {
		w.viol("C20", "%s was given a record of pid %d that says %s", k.b.Kind, x.PacketID, d)
		m.bad = true
		return
	}
	if m.dest != k.b.Dest {
		w.viol("C20", "%s was given the record of pid %d in %q, configured is %q", k.b.Kind, x.PacketID, m.dest, k.b.Dest)
		w.viol("C15", "%s was given the record of pid %d in %q, configured is %q", k.b.Kind, x.PacketID, m.dest, k.b.Dest)
		m.bad = true
	}
}

// has: the backend holds the record.
func (k *Broker) has(key int64) bool {
	for _, m := range k.byKey[key] {
		if !m.bad {
			return true
		}
	}
	return false
}

// answersS2 looks at what the receiver has just written to a terminal.
func (w *World) answersS2(h *ConnH) {
	for {
		a, n, err := parseAnswer(h.out[h.outParsed:])
		if err != nil {
			return
		}
		h.outParsed += n
		if a.Type != 0 {
			continue
		}
		w.answerS2(h.name(), h.byPID[a.RPID], a, h)
	}
}

func (h *ConnH) name() string { return fmt.Sprintf("conn %d", h.c.ID) }

func (w *World) answerS2(name string, e *Exp, a *Ans, h *ConnH) {
	if e == nil {
		w.viol("C15", "%s: %v for a packet that was not sent", name, a)
		return
	}
	w.count["answers"]++
	if a.PR != 0 {
		w.count["refusals"]++
		w.log("%s: pid %d is refused with %d", name, e.PID, a.PR)
		if h != nil {
			h.nacks = append(h.nacks, e.PID)
		}
		return
	}
	w.log("%s: pid %d is acknowledged", name, e.PID)
	if h != nil {
		h.acks = append(h.acks, e.PID)
		h.ackAt = append(h.ackAt, time.Now())
	}
	if !e.Pos {
		return
	}
	w.count["successes"]++
	for _, k := range w.brokers {
		if k.b.Inactive {
			continue
		}
		if !k.has(e.Key) {
			w.viol("C15", "%s: pid %d was acknowledged as successful but %s does not have its record", name, e.PID, k.b.Kind)
		}
	}
}

func (w *World) base() time.Time {
	if w.tl.IsZero() {
		return w.t0
	}
	return w.tl
}

// launch starts incarnation i of the receiver and waits until it listens (or is gone).
func (w *World) launch(i int) bool {
	w.listening = make(chan struct{})
	node := nodeRecv + i
	w.process(node, []string{"receiver", "-c", memFile(w.p.Cfg)}, receivers[i])
	w.log("receiver %d is started", node)
	select {
	case <-w.listening:
		w.lastUp = time.Now()
	case <-w.gone[node]:
		return false
	case <-time.After(700 * time.Second):
		return false
	}
	return true
}

func (w *World) runS2() {
	p := w.p
	w.gone = map[int]chan struct{}{}
	for _, c := range p.Conns {
		h := w.hist(c)
		w.addKeys(h, c)
		h.byPID = map[uint16]*Exp{}
		exps, _, _ := c.stream()
		for i := range exps {
			h.byPID[exps[i].PID] = &exps[i]
		}
	}
	for _, t := range p.Terms {
		w.addTerm(t)
	}
	w.net.profFor = func(remote string, id int) Profile {
		if p.Net.LatMax == 0 {
			return Profile{}
		}
		return p.Net
	}
	for i := range p.Backends {
		k := w.newBroker(i, &p.Backends[i])
		w.brokers = append(w.brokers, k)
		switch k.b.State {
		case "refused":
		case "noname":
			k.name.mode = "gone"
			k.up()
		case "unreach":
			w.net.host(k.addr()).drop = true
		default:
			k.up()
		}
	}
	defer func() {
		for _, f := range w.tmp {
			os.Remove(f)
		}
	}()
	if !w.launch(0) {
		for _, t := range []string{"C12", "C15", "C16", "C17", "C19", "C20"} {
			w.viol(t, "the receiver does not start (exit status %v)", w.exitText(nodeRecv))
		}
		return
	}
	w.tl = time.Now()
	w.log("faults and terminals begin")
	for _, k := range w.brokers {
		k.start()
	}
	for _, f := range p.NoFile {
		f := f
		time.AfterFunc(us(f[0]), func() { w.net.nofile = true; w.log("no more descriptors") })
		time.AfterFunc(us(f[1]), func() { w.net.nofile = false; w.log("descriptors again") })
	}
	horizon := time.After(us(p.Horizon))
	stop := make(chan struct{})
	if len(p.Events) > 0 {
		go w.supervise(stop)
	}
	left := 0
	fin := make(chan struct{}, 64)
	for _, h := range w.conns {
		left++
		h := h
		go func() {
			w.runConn(h)
			fin <- struct{}{}
		}()
	}
	for _, t := range w.terms {
		left++
		t := t
		go func() {
			w.runTerm(t)
			fin <- struct{}{}
		}()
	}
	for left > 0 {
		select {
		case <-fin:
			left--
			continue
		case <-horizon:
		}
		break
	}
	time.Sleep(us(p.Settle))
	close(stop)
	w.over = true
	w.checkS2()
}

func (w *World) exitText(node int) string {
	if c, ok := w.exits[node]; ok {
		return strconv.Itoa(c)
	}
	return "none"
}

// supervise kills the receiver as planned and starts it again.
func (w *World) supervise(stop chan struct{}) {
	for i, ev := range w.p.Events {
		node := nodeRecv + i
		dead := make(chan struct{})
		kill := func() {
			if runtime.SimDead(node) {
				return
			}
			w.f.add("receiver-crash")
			w.log("receiver %d dies at step %d", node, runtime.SimNodeSteps(node))
			w.planned[node] = true
			w.net.killNode(node)
			close(dead)
		}
		if ev.Step > 0 {
			at := runtime.SimNodeSteps(node) + ev.Step
			runtime.SimCrashAt(node, at, kill)
		} else {
			time.AfterFunc(us(ev.At), kill)
		}
		select {
		case <-dead:
		case <-w.gone[node]:
			return
		case <-stop:
			return
		}
		time.Sleep(us(ev.Down))
		// a supervisor that waits for the backends
		for w.unready(60 * time.Second) {
			time.Sleep(time.Second)
		}
		if !w.launch(i + 1) {
			w.viol("C19", "the receiver does not start again (exit status %v)", w.exitText(nodeRecv+i+1))
			return
		}
	}
}

// unready: a backend that must be reachable at start is or soon will not be.
func (w *World) unready(d time.Duration) bool {
	t := time.Since(w.base())
	for _, f := range w.p.NoFile {
		if us(f[0]) < t+d && us(f[1]) > t {
			return true
		}
	}
	for _, k := range w.brokers {
		if k.b.Kind == "redis" || k.b.Kind == "nsq" {
			continue
		}
		for _, f := range k.b.Faults {
			switch f.K {
			case "down", "power", "part", "stall", "freeze", "noauth":
				if us(f.From) < t+d && us(f.To) > t {
					return true
				}
			}
		}
	}
	return false
}

// logged records what the receiver exports to its log.
func (w *World) logged(b []byte) {
	i := bytes.Index(b, []byte(`msg="Export packet"`))
	if i < 0 {
		return
	}
	j := bytes.Index(b[i:], []byte("packet="))
	if j < 0 {
		return
	}
	s, err := strconv.QuotedPrefix(string(b[i+j+7:]))
	if err == nil {
		s, err = strconv.Unquote(s)
	}
	if w.logB == nil {
		w.logB = w.newBroker(99, &Backend{Kind: "log", Dest: "log"})
	}
	if err != nil {
		w.viol("C17", "unreadable export in the log: %.200q", b)
		return
	}
	w.logB.record("log", []byte(s))
}

func (w *World) checkS2() {
	p := w.p
	// the process
	for n := nodeRecv; n < nodeGen; n++ {
		if c, ok := w.exits[n]; ok {
			for _, t := range []string{"C12", "C15", "C16", "C17", "C19", "C20"} {
				w.viol(t, "the receiver process exits with status %d", c)
			}
		}
	}
	faulty := len(p.Events) > 0 || len(p.NoFile) > 0
	var broken bool // some backend is loaded but cannot work
	for _, k := range w.brokers {
		if len(k.b.Faults) > 0 {
			faulty = true
		}
		if k.b.Broken {
			broken = true
		}
	}
	// how often each record was sent completely
	sends := map[int64]int{}
	for _, h := range w.conns {
		exps, _, _ := h.c.stream()
		for i := range exps {
			e := &exps[i]
			if e.K == "V" && e.Pos && e.End <= h.arrived() {
				sends[e.Key]++
			}
		}
	}
	var keys []int64
	for k := range sends {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	if !faulty && len(p.Terms) == 0 {
		for _, k := range w.brokers {
			if k.b.Inactive {
				continue
			}
			for _, key := range keys {
				n := len(k.byKey[key])
				if n != sends[key] {
					for _, t := range []string{"C20", "C17"} {
						w.viol(t, "the record of pid %d was sent %d times and reached %s %d times", w.models[key].PacketID, sends[key], k.b.Kind, n)
					}
				}
			}
		}
		for _, h := range w.conns {
			if h.c.Class == "silent" {
				continue
			}
			acked := map[uint16]bool{}
			for _, a := range h.acks {
				acked[a] = true
			}
			exps, _, _ := h.c.stream()
			for i := range exps {
				e := &exps[i]
				if e.K != "V" || e.End > h.arrived() {
					continue
				}
				if !acked[e.PID] && !(broken && e.Pos) {
					for _, t := range []string{"C17", "C20"} {
						w.viol(t, "%s: pid %d was not acknowledged as successful although nothing fails", h.name(), e.PID)
					}
				}
				if acked[e.PID] && broken && e.Pos {
					w.viol("C17", "%s: pid %d was acknowledged as successful although a storage that was initialised cannot be reached", h.name(), e.PID)
				}
			}
			if h.dialErr != nil {
				w.viol("C17", "%s: the configured address does not accept connections: %v", h.name(), h.dialErr)
			}
		}
	}
	if p.Check == "C17" {
		w.checkC17(keys, sends)
	}
	if p.Check == "C12" {
		w.checkC12()
	}
	for _, h := range w.conns {
		exps, _, _ := h.c.stream()
		w.count["packets"] += int64(len(exps))
	}
	for _, t := range w.terms {
		w.checkTerm(t)
	}
	w.checkPiling()
}

// checkPiling: the connections to a storage that messages were offered on do not pile up.
// (Those that never got as far are left to the garbage collector by some of the client libraries, and
// so is what remains after both directions were shut down.)
func (w *World) checkPiling() {
	for _, k := range w.brokers {
		n, all := 0, 0
		for _, c := range k.order {
			if !c.used {
				continue
			}
			all++
			if q := c.e.peer; q != nil && !q.closed && !q.wfin && !q.rst && q.node >= nodeRecv && q.node < nodeGen && !runtime.SimDead(q.node) {
				n++
			}
		}
		// a terminal may come back while the record it gave up on is still being stored
		if t := len(w.conns) + len(w.terms); n > 2*t+6 {
			w.viol("C16", "%d of the %d connections to %s that were used are still open, for never more than %d terminals at a time", n, all, k.b.Kind, t)
		}
		w.count["storage-connections"] += int64(all)
	}
}

// checkC12: how long the terminals waited whose records the backend takes without delay.
func (w *World) checkC12() {
	own := us(w.p.Own)
	for _, h := range w.conns {
		if h.c.Class != "fast" {
			continue
		}
		at := map[uint16]time.Time{}
		for i, pid := range h.acks {
			at[pid] = h.ackAt[i]
		}
		exps, _, _ := h.c.stream()
		last := time.Time{}
		for i := range exps {
			e := &exps[i]
			t, ok := h.when(e.End)
			if e.K != "V" || !ok {
				continue
			}
			a, ok := at[e.PID]
			if !ok {
				w.viol("C12", "%s: pid %d was never acknowledged", h.name(), e.PID)
				break
			}
			d := a.Sub(laterOf(t, last))
			if d > own {
				w.viol("C12", "%s: pid %d was answered %v after it could have been (its own storage takes less than %v)", h.name(), e.PID, d, own)
				break
			}
			if int64(d) > w.count["longest-wait-ns"] {
				w.count["longest-wait-ns"] = int64(d)
			}
			last = a
		}
	}
}

// canonAddr: all ways to say all addresses are one.
func canonAddr(a string) string {
	for _, h := range []string{"0.0.0.0:", "[::]:", ":::"} {
		if strings.HasPrefix(a, h) {
			return ":" + a[len(h):]
		}
	}
	return a
}

// checkC17: what the configuration says about the listener and the log.
func (w *World) checkC17(keys []int64, sends map[int64]int) {
	p := w.p
	if canonAddr(w.lAddr) != canonAddr(p.Addr) {
		w.viol("C17", "the receiver listens on %s, configured is %s", w.lAddr, p.Addr)
	} else if w.lNet != "tcp" && (strings.HasPrefix(p.Addr, ":") || strings.HasPrefix(p.Addr, "[::]")) {
		w.viol("C17", "the receiver listens on addresses of one family only (%s), configured is %s", w.lNet, p.Addr)
	}
	none := true
	for _, k := range w.brokers {
		if !k.b.Inactive || k.b.Broken {
			none = false
		}
	}
	if none && !p.QuietLog {
		for _, key := range keys {
			n := 0
			if w.logB != nil {
				n = len(w.logB.byKey[key])
			}
			if n != sends[key] {
				w.viol("C17", "no storage could be initialised, but the record of pid %d, sent %d times, is in the log %d times", w.models[key].PacketID, sends[key], n)
			}
		}
	}
	T := us(p.TTLus)
	for _, h := range w.conns {
		if h.c.Class != "silent" || !h.up {
			continue
		}
		last := h.tPair
		if len(h.arr) > 0 {
			last = h.arr[len(h.arr)-1].t
		}
		last = laterOf(last, lastEvent(h, nil))
		if h.srvClose.IsZero() || !h.endAt.IsZero() && !h.srvClose.Before(h.endAt) {
			// the terminal parted first, if anybody did
			till := time.Now()
			if !h.endAt.IsZero() {
				till = h.endAt
			}
			if T > 0 && till.Sub(last) > 2*T+time.Second {
				w.viol("C17", "the configured lifetime is %v, but a connection silent for %v is not closed", T, till.Sub(last))
			}
			w.count["silent-kept"]++
			continue
		}
		w.count["silent-closed"]++
		if d := h.srvClose.Sub(last); T == 0 || d > 2*T+time.Second || d < T-time.Millisecond {
			w.viol("C17", "the configured lifetime is %v, but a connection was closed after %v of silence", T, d)
		}
	}
}

var _ = fmt.Sprint
