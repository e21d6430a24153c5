package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// Simulated storage backends: each speaks the server's side of its wire protocol over the simulated
// network and keeps every message that reached it.

// Backend is one backend of a plan.
type Backend struct {
	Kind     string    `json:"kind"`
	Port     int       `json:"port"`
	User     string    `json:"user,omitempty"` // credentials it demands, if any
	Pass     string    `json:"pass,omitempty"`
	DB       string    `json:"db,omitempty"`
	Dest     string    `json:"dest"` // where messages are expected
	MaxDelay int64     `json:"max_delay_us,omitempty"`
	SlowKeys []int64   `json:"slow_keys,omitempty"` // records (navigation times) kept slowly
	SlowUs   int64     `json:"slow_us,omitempty"`
	Chans    int       `json:"chans,omitempty"` // AMQP: channels a connection may have (0: 2047, -1: no limit)
	Host     *HostName `json:"host,omitempty"`  // the name the configuration has for it
	Faults   []BFault  `json:"faults,omitempty"`
	// not required to get the records (its configuration is broken or it cannot be reached at start)
	Inactive bool `json:"inactive,omitempty"`
	// it is initialised all the same and fails with every record
	Broken bool   `json:"broken,omitempty"`
	State  string `json:"state,omitempty"` // at start: "" up, refused, unreach
}

// BFault is a fault of a backend.
//
//	down     its process dies: connections close, connecting is refused; back at To
//	power    its host dies: everything is lost silently; connections it had are unknown afterwards
//	part     the path is down: packets are held up, connections survive if it is short enough
//	stall    its process is stopped: accepts connections, answers nothing
//	freeze   the same, from when N bytes came on connection number C (of those at From and after) until To
//	err      it refuses N of 16 messages with an error    nack  the same, kept for AMQP
//	lost     N of 16 messages are kept but the connection breaks before the answer
//	drop     N of 16 messages are lost with the connection
//	slow     messages are kept at once, the answer comes at the end of the window
//	cutrecv  connection number C (of those at From and after) breaks when N more bytes came from the receiver
//	cutsend  the same when N more bytes were sent
//	cutmsg   the same when N more answers were sent
type BFault struct {
	K    string `json:"k"`
	From int64  `json:"from_us,omitempty"`
	To   int64  `json:"to_us,omitempty"`
	N    int    `json:"n,omitempty"`
	C    int    `json:"c,omitempty"`
	Rst  bool   `json:"rst,omitempty"`
	// while it lasts the name does not resolve either ("gone", "servfail", "timeout"); afterwards the host has another address
	Dns  string `json:"dns,omitempty"`
	Move bool   `json:"move,omitempty"`
}

// BMsg is a message that reached a backend.
type BMsg struct {
	seq  int64
	t    time.Time
	dest string
	body []byte
	rec  *recJSON
	err  error
	bad  bool
}

type Broker struct {
	w      *World
	b      *Backend
	i      int
	l      *Listener
	msgs   []*BMsg
	byKey  map[int64][]*BMsg
	epoch  int
	conns  int
	live   map[*bconn]bool
	order  []*bconn
	rng    *Rng
	tries  int // connections made to it
	asked  int // messages offered
	frozen *BFault
	cuts   []*cutting
	name   *hostName
}

type bconn struct {
	b       *Broker
	e       *End
	epoch   int
	async   bool // answers commits before they are on disk
	n       int
	recvd   int
	sent    int
	cutR    int
	cutS    int
	cutM    int
	stop    *BFault
	stopR   int
	answers int
	used    bool // a message was offered on it
	rst     bool
	broken  bool
	r       *bufio.Reader
	pending []func() bool // transaction
	wr      chan struct{} // whoever writes
}

var errCut = errors.New("cut")

func (w *World) newBroker(i int, b *Backend) *Broker {
	k := &Broker{w: w, b: b, i: i, byKey: map[int64][]*BMsg{}, live: map[*bconn]bool{}, rng: newRng(w.p.Seed, 4242, uint64(i))}
	if b.Host != nil {
		k.name = w.net.addName(*b.Host, b.Port)
	}
	return k
}

func (k *Broker) addr() string { return "127.0.0.1:" + strconv.Itoa(k.b.Port) }

func (k *Broker) up() {
	k.l = k.w.net.listenEnv(k.addr(), k.accept)
}

// start plans the faults.
func (k *Broker) start() {
	for i := range k.b.Faults {
		f := &k.b.Faults[i]
		at := func(t int64, fn func()) { time.AfterFunc(us(t), fn) }
		if k.name != nil && (f.Dns != "" || f.Move) {
			at(f.From, func() { k.name.mode = f.Dns; k.w.log("%s: name %q %s", k.b.Kind, k.name.Name, f.Dns) })
			at(f.To, func() {
				k.name.mode = ""
				if f.Move {
					k.w.net.move(k.name, k.b.Port, f.Rst)
					k.w.f.add("broker-moved")
				}
				k.w.log("%s: name %q is %s", k.b.Kind, k.name.Name, k.name.home)
			})
		}
		switch f.K {
		case "down":
			at(f.From, func() { k.crash(f.Rst); k.w.f.add("broker-down"); k.w.log("%s: process dies", k.b.Kind) })
			at(f.To, func() { k.up(); k.w.log("%s: up again", k.b.Kind) })
		case "noauth":
			// it has been started anew and is not ready to let anybody in
			at(f.From, func() {
				k.crash(f.Rst)
				k.up()
				k.w.f.add("broker-not-ready")
				k.w.log("%s: lets nobody in", k.b.Kind)
			})
			at(f.To, func() { k.w.log("%s: lets clients in", k.b.Kind) })
		case "power":
			at(f.From, func() { k.w.f.add("broker-power"); k.w.log("%s: host dies", k.b.Kind); k.power() })
			at(f.To, func() { k.w.log("%s: host is back", k.b.Kind); k.powerOn(us(f.To - f.From)) })
		case "part":
			at(f.From, func() { k.w.f.add("broker-partition"); k.w.log("%s: path down", k.b.Kind); k.part(true, 0) })
			at(f.To, func() { k.w.log("%s: path up", k.b.Kind); k.part(false, us(f.To-f.From)) })
		case "stall":
			at(f.From, func() { k.w.f.add("broker-stall"); k.w.log("%s: stopped", k.b.Kind) })
		case "cutrecv", "cutsend", "cutmsg", "freeze":
			at(f.From, func() {
				ct := &cutting{f: f, left: f.C}
				k.cuts = append(k.cuts, ct)
				k.each(func(c *bconn) {
					if ct.left == 0 {
						c.arm(f)
					}
					ct.left--
				})
			})
			at(f.To, func() {
				for i, ct := range k.cuts {
					if ct.f == f {
						k.cuts = append(k.cuts[:i], k.cuts[i+1:]...)
						break
					}
				}
				for _, c := range k.order {
					switch f.K {
					case "cutrecv":
						c.cutR = -1
					case "cutsend":
						c.cutS = -1
					case "cutmsg":
						c.cutM = -1
					case "freeze":
						c.stop = nil
					}
				}
			})
		}
	}
}

// cutting: the connection after `left` more is the one that breaks.
type cutting struct {
	f    *BFault
	left int
}

func (c *bconn) arm(f *BFault) {
	c.rst = f.Rst
	switch f.K {
	case "cutrecv":
		c.cutR = c.recvd + f.N
	case "cutsend":
		c.cutS = c.sent + f.N
	case "cutmsg":
		c.cutM = c.answers + max(f.N, 1)
	case "freeze":
		c.stop, c.stopR = f, c.recvd+f.N
	}
}

func (k *Broker) each(fn func(c *bconn)) {
	for _, c := range k.order {
		if k.live[c] {
			fn(c)
		}
	}
}

func (k *Broker) crash(rst bool) {
	k.epoch++
	k.l.closeEnv()
	k.each(func(c *bconn) {
		c.e.linger0 = c.e.linger0 || rst
		c.e.kclose()
	})
}

func (k *Broker) power() {
	k.epoch++
	k.l.closeEnv()
	k.w.net.host(k.addr()).drop = true
	k.each(func(c *bconn) {
		c.e.c.dark()
	})
}

func (k *Broker) powerOn(d time.Duration) {
	k.w.net.host(k.addr()).drop = false
	k.up()
	for _, c := range k.order {
		c.e.c.release(d, k.rng)
	}
}

func (k *Broker) part(on bool, d time.Duration) {
	k.w.net.host(k.addr()).drop = on
	for _, c := range k.order {
		if on {
			c.e.c.hold()
		} else {
			c.e.c.release(d, k.rng)
		}
	}
}

// in says whether a fault of the kind is on, and until when.
func (k *Broker) in(kind string) (*BFault, time.Duration) {
	if k.w.tl.IsZero() {
		return nil, 0
	}
	t := time.Since(k.w.base())
	for i := range k.b.Faults {
		f := &k.b.Faults[i]
		if (f.K == kind || k.frozen == f && kind == "stall") && t >= us(f.From) && t < us(f.To) {
			return f, us(f.To) - t
		}
	}
	return nil, 0
}

func (k *Broker) accept(e *End) {
	c := &bconn{b: k, e: e, epoch: k.epoch, n: k.conns, cutR: -1, cutS: -1, cutM: -1, wr: make(chan struct{}, 1)}
	k.conns++
	k.tries++
	for _, ct := range k.cuts {
		if ct.left == 0 {
			c.arm(ct.f)
		}
		ct.left--
	}
	k.live[c] = true
	k.order = append(k.order, c)
	c.r = bufio.NewReaderSize(c, 4096)
	go func() {
		err := c.serve()
		if err != nil && err != io.EOF && k.w.verbose {
			k.w.log("%s: connection %d ends: %v", k.b.Kind, c.n, err)
		}
		c.shut(false)
		delete(k.live, c)
	}()
}

func (c *bconn) shut(rst bool) {
	if c.e.closed {
		return
	}
	c.e.linger0 = c.e.linger0 || rst
	c.e.kclose()
}

// barred: the server lets nobody in at the moment.
func (c *bconn) barred() bool {
	f, _ := c.b.in("noauth")
	if f != nil {
		c.b.w.f.add("broker-login-refused")
	}
	return f != nil
}

// gate holds the server up while its process is stopped.
func (c *bconn) gate() error {
	for {
		if c.epoch != c.b.epoch || c.broken {
			return errCut
		}
		f, d := c.b.in("stall")
		if f == nil {
			return nil
		}
		time.Sleep(d)
	}
}

func (c *bconn) Read(p []byte) (int, error) {
	if err := c.gate(); err != nil {
		return 0, err
	}
	if c.cutR >= 0 && c.recvd+len(p) > c.cutR {
		p = p[:max(c.cutR-c.recvd, 0)]
		if len(p) == 0 {
			c.b.w.f.add("broker-cutrecv")
			c.broken = true
			c.shut(c.rst)
			return 0, errCut
		}
	}
	if c.stop != nil && c.recvd+len(p) > c.stopR {
		p = p[:max(c.stopR-c.recvd, 1)]
	}
	n, err := c.e.read(p, true)
	c.recvd += n
	if c.stop != nil && c.recvd >= c.stopR {
		c.b.frozen, c.stop = c.stop, nil
		c.b.w.f.add("broker-stall")
		c.b.w.log("%s: stopped after %d bytes of a connection", c.b.b.Kind, c.recvd)
	}
	if err == nil {
		if err := c.gate(); err != nil {
			return 0, err
		}
	}
	return n, err
}

func (c *bconn) Write(p []byte) (int, error) {
	c.wr <- struct{}{}
	defer func() { <-c.wr }()
	if err := c.gate(); err != nil {
		return 0, err
	}
	if c.cutS >= 0 && c.sent+len(p) > c.cutS {
		p = p[:max(c.cutS-c.sent, 0)]
		if len(p) > 0 {
			c.e.write(p)
		}
		c.b.w.f.add("broker-cutsend")
		c.broken = true
		c.shut(c.rst)
		return 0, errCut
	}
	n, err := c.e.write(p)
	c.sent += n
	c.answers++
	if c.cutM >= 0 && c.answers >= c.cutM && err == nil {
		c.b.w.f.add("broker-cutmsg")
		c.broken = true
		c.shut(c.rst)
		return n, errCut
	}
	return n, err
}

var errRefused = errors.New("refused")

// publish: a whole message came. The result says how to answer: nil good, errRefused an error reply,
// errCut nothing.
func (c *bconn) publish(dest string, body []byte) error {
	k := c.b
	c.used = true
	k.asked++
	r := newRng(k.w.p.Seed, 4243, uint64(k.i), uint64(k.asked))
	if k.b.MaxDelay > 0 {
		time.Sleep(r.Dur(us(k.b.MaxDelay)))
	}
	if len(k.b.SlowKeys) > 0 {
		if m, err := parseRec(body); err == nil && m != nil {
			for _, key := range k.b.SlowKeys {
				if key == m.Nav {
					k.w.f.add("broker-slow-record")
					time.Sleep(us(k.b.SlowUs))
				}
			}
		}
	}
	if err := c.gate(); err != nil {
		return err
	}
	if f, _ := k.in("err"); f != nil && r.N(16) < f.N {
		k.w.f.add("broker-refusal")
		return errRefused
	}
	if f, _ := k.in("drop"); f != nil && r.N(16) < f.N {
		k.w.f.add("broker-drop")
		c.shut(f.Rst)
		return errCut
	}
	if c.async {
		// answered before it is on disk
		k.w.f.add("broker-async-commit")
		epoch := k.epoch
		time.AfterFunc(600*time.Millisecond, func() {
			if k.epoch == epoch {
				k.record(dest, body)
			}
		})
	} else {
		k.record(dest, body)
	}
	if f, _ := k.in("lost"); f != nil && r.N(16) < f.N {
		k.w.f.add("broker-lost-answer")
		c.shut(f.Rst)
		return errCut
	}
	if f, d := k.in("slow"); f != nil {
		k.w.f.add("broker-slow-answer")
		time.Sleep(d)
		if err := c.gate(); err != nil {
			return err
		}
	}
	return nil
}

// what a PostgreSQL client has to say for its commits to be answered before they are on disk
var pgAsync = regexp.MustCompile(`(?i)synchronous_commit\s*(=|\sto\s)\s*'?(off|false|no|0)\b`)

func pgOff(s string) bool {
	switch strings.ToLower(s) {
	case "off", "false", "no", "0":
		return true
	}
	return false
}

func (k *Broker) record(dest string, body []byte) {
	w := k.w
	m := &BMsg{seq: w.next(), t: time.Now(), dest: dest, body: append([]byte(nil), body...)}
	m.rec, m.err = parseRec(m.body)
	k.msgs = append(k.msgs, m)
	if m.rec != nil {
		k.byKey[m.rec.Nav] = append(k.byKey[m.rec.Nav], m)
		w.log("%s: has record %d", k.b.Kind, m.rec.Nav)
	} else {
		w.log("%s: has something: %.60q", k.b.Kind, body)
	}
	w.count["messages"]++
	w.genuine(k, m)
}

func (c *bconn) serve() error {
	switch c.b.b.Kind {
	case "redis":
		return c.redis()
	case "nats":
		return c.nats()
	case "nsq":
		return c.nsq()
	case "rabbitmq":
		return c.amqp()
	case "postgresql":
		return c.pg()
	case "tarantool_queue":
		return c.tarantool()
	}
	panic("backend " + c.b.b.Kind)
}

func (c *bconn) line() (string, error) {
	s, err := c.r.ReadString('\n')
	return strings.TrimRight(s, "\r\n"), err
}

// flush-less write of a whole answer
func (c *bconn) put(s string) error {
	_, err := c.Write([]byte(s))
	return err
}

// ---- Redis ---------------------------------------------------------------------------------------

func (c *bconn) redis() error {
	authed := c.b.b.Pass == ""
	db := "0"
	var queued [][]string
	multi := false
	for {
		l, err := c.line()
		if err != nil {
			return err
		}
		if len(l) == 0 || l[0] != '*' {
			c.put("-ERR Protocol error\r\n")
			return fmt.Errorf("redis: %q", l)
		}
		n, err := strconv.Atoi(l[1:])
		if err != nil || n < 0 || n > 1000 {
			return fmt.Errorf("redis: %q", l)
		}
		var args []string
		for i := 0; i < n; i++ {
			l, err := c.line()
			if err != nil {
				return err
			}
			if len(l) == 0 || l[0] != '$' {
				return fmt.Errorf("redis: %q", l)
			}
			m, err := strconv.Atoi(l[1:])
			if err != nil || m < 0 || m > 1<<24 {
				return fmt.Errorf("redis: %q", l)
			}
			b := make([]byte, m+2)
			if _, err := io.ReadFull(c.r, b); err != nil {
				return err
			}
			args = append(args, string(b[:m]))
		}
		if n == 0 {
			continue
		}
		cmd := strings.ToUpper(args[0])
		var out string
		do := func(args []string) (string, error) {
			switch strings.ToUpper(args[0]) {
			case "PUBLISH":
				if len(args) != 3 {
					return "-ERR wrong number of arguments\r\n", nil
				}
				switch err := c.publish(args[1], []byte(args[2])); err {
				case nil:
					return ":1\r\n", nil
				case errRefused:
					return "-OOM command not allowed when used memory > 'maxmemory'.\r\n", nil
				default:
					return "", err
				}
			}
			return "-ERR unknown command\r\n", nil
		}
		_ = db
		switch {
		case c.barred():
			out = "-LOADING Redis is loading the dataset in memory\r\n"
		case cmd == "AUTH":
			if len(args) >= 2 && args[len(args)-1] == c.b.b.Pass && c.b.b.Pass != "" {
				authed = true
				out = "+OK\r\n"
			} else if c.b.b.Pass == "" {
				out = "-ERR Client sent AUTH, but no password is set\r\n"
			} else {
				out = "-WRONGPASS invalid password\r\n"
			}
		case !authed:
			out = "-NOAUTH Authentication required.\r\n"
		case cmd == "SELECT":
			db = args[1]
			out = "+OK\r\n"
		case cmd == "PING":
			out = "+PONG\r\n"
		case cmd == "CLIENT":
			out = "+OK\r\n"
		case cmd == "HELLO":
			out = "-ERR unknown command 'HELLO'\r\n"
		case cmd == "MULTI":
			multi, queued = true, nil
			out = "+OK\r\n"
		case cmd == "EXEC" && multi:
			multi = false
			out = fmt.Sprintf("*%d\r\n", len(queued))
			for _, q := range queued {
				s, err := do(q)
				if err != nil {
					return err
				}
				out += s
			}
		case multi:
			queued = append(queued, args)
			out = "+QUEUED\r\n"
		default:
			if out, err = do(args); err != nil {
				return err
			}
		}
		if err := c.put(out); err != nil {
			return err
		}
	}
}

// ---- NATS ----------------------------------------------------------------------------------------

func (c *bconn) nats() error {
	auth := c.b.b.User != ""
	if err := c.put(fmt.Sprintf(`INFO {"server_id":"SIM","server_name":"sim","version":"2.2.0","proto":1,"host":"127.0.0.1","port":%d,"headers":true,"max_payload":1048576,"auth_required":%v,"client_id":%d} `+"\r\n", c.b.b.Port, auth, c.n+1)); err != nil {
		return err
	}
	pings := 0
	done := false
	var tick func()
	tick = func() {
		if done || c.e.closed {
			return
		}
		pings++
		if pings > 2 {
			c.shut(false)
			return
		}
		go func() {
			c.put("PING\r\n")
			time.AfterFunc(2*time.Minute, tick)
		}()
	}
	time.AfterFunc(2*time.Minute, tick)
	defer func() { done = true }()
	ok := !auth
	verbose := false
	for {
		l, err := c.line()
		if err != nil {
			return err
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		switch strings.ToUpper(f[0]) {
		case "CONNECT":
			var o struct {
				User    string `json:"user"`
				Pass    string `json:"pass"`
				Verbose bool   `json:"verbose"`
			}
			json.Unmarshal([]byte(strings.TrimSpace(l[7:])), &o)
			verbose = o.Verbose
			if c.barred() {
				if auth {
					c.put("-ERR 'Authorization Violation'\r\n")
				} else {
					c.put("-ERR 'maximum connections exceeded'\r\n")
				}
				return errors.New("nats: barred")
			}
			if auth && (o.User != c.b.b.User || o.Pass != c.b.b.Pass) {
				c.put("-ERR 'Authorization Violation'\r\n")
				return errors.New("nats: wrong credentials")
			}
			ok = true
			if verbose {
				c.put("+OK\r\n")
			}
		case "PING":
			if !ok {
				c.put("-ERR 'Authorization Violation'\r\n")
				return errors.New("nats: not connected")
			}
			if err := c.put("PONG\r\n"); err != nil {
				return err
			}
		case "PONG":
			pings = 0
		case "SUB", "UNSUB":
		case "PUB", "HPUB":
			n, err := strconv.Atoi(f[len(f)-1])
			if err != nil || n < 0 || n > 1<<20 || len(f) < 3 {
				c.put("-ERR 'Parser Error'\r\n")
				return errors.New("nats: " + l)
			}
			b := make([]byte, n+2)
			if _, err := io.ReadFull(c.r, b); err != nil {
				return err
			}
			if !ok {
				return errors.New("nats: not connected")
			}
			b = b[:n]
			if f[0] == "HPUB" || f[0] == "hpub" {
				h, _ := strconv.Atoi(f[len(f)-2])
				if h >= 0 && h <= n {
					b = b[h:]
				}
			}
			switch err := c.publish(f[1], b); err {
			case nil:
				if verbose {
					c.put("+OK\r\n")
				}
			case errRefused:
				if err := c.put(fmt.Sprintf("-ERR 'Permissions Violation for Publish to \"%s\"'\r\n", f[1])); err != nil {
					return err
				}
			default:
				return err
			}
		default:
			c.put("-ERR 'Unknown Protocol Operation'\r\n")
			return errors.New("nats: " + l)
		}
	}
}

// ---- NSQ -----------------------------------------------------------------------------------------

func (c *bconn) nsqFrame(t uint32, s string) error {
	b := binary.BigEndian.AppendUint32(nil, uint32(4+len(s)))
	b = binary.BigEndian.AppendUint32(b, t)
	_, err := c.Write(append(b, s...))
	return err
}

func (c *bconn) nsq() error {
	m := make([]byte, 4)
	if _, err := io.ReadFull(c.r, m); err != nil {
		return err
	}
	if string(m) != "  V2" {
		c.nsqFrame(1, "E_BAD_PROTOCOL")
		return errors.New("nsq: bad magic")
	}
	hb := 30 * time.Second
	seen := time.Now()
	done := false
	defer func() { done = true }()
	var tick func()
	var timer *time.Timer
	tick = func() {
		if done || c.e.closed {
			return
		}
		if time.Since(seen) > 2*hb {
			c.shut(false)
			return
		}
		go func() {
			c.nsqFrame(0, "_heartbeat_")
			timer.Reset(hb)
		}()
	}
	timer = time.AfterFunc(hb, tick)
	defer timer.Stop()
	body := func() ([]byte, error) {
		var n uint32
		if err := binary.Read(c.r, binary.BigEndian, &n); err != nil {
			return nil, err
		}
		if n > 1<<21 {
			return nil, errors.New("nsq: body too big")
		}
		b := make([]byte, n)
		_, err := io.ReadFull(c.r, b)
		return b, err
	}
	for {
		l, err := c.line()
		if err != nil {
			return err
		}
		seen = time.Now()
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		reply := "OK"
		switch f[0] {
		case "IDENTIFY":
			b, err := body()
			if err != nil {
				return err
			}
			var o struct {
				HB  int64 `json:"heartbeat_interval"`
				Neg bool  `json:"feature_negotiation"`
			}
			json.Unmarshal(b, &o)
			if c.barred() {
				c.nsqFrame(1, "E_BAD_BODY IDENTIFY exiting")
				return errors.New("nsq: barred")
			}
			if o.HB > 0 {
				hb = time.Duration(o.HB) * time.Millisecond
				timer.Reset(hb)
			}
			if o.Neg {
				reply = `{"max_rdy_count":2500,"version":"1.2.0","max_msg_timeout":900000,"msg_timeout":60000,"tls_v1":false,"deflate":false,"deflate_level":0,"max_deflate_level":0,"snappy":false,"sample_rate":0,"auth_required":false,"output_buffer_size":16384,"output_buffer_timeout":250}`
			}
		case "NOP":
			continue
		case "PUB", "DPUB":
			b, err := body()
			if err != nil {
				return err
			}
			if len(f) < 2 || !nsqTopic.MatchString(f[1]) {
				if err := c.nsqFrame(1, "E_BAD_TOPIC PUB topic name is not valid"); err != nil {
					return err
				}
				return errors.New("nsq: bad topic")
			}
			switch err := c.publish(f[1], b); err {
			case nil:
			case errRefused:
				if err := c.nsqFrame(1, "E_PUB_FAILED PUB failed exiting"); err != nil {
					return err
				}
				continue
			default:
				return err
			}
		case "MPUB":
			b, err := body()
			if err != nil || len(b) < 4 {
				return err
			}
			n := int(binary.BigEndian.Uint32(b))
			b = b[4:]
			refused := false
			for i := 0; i < n && len(b) >= 4; i++ {
				k := int(binary.BigEndian.Uint32(b))
				if 4+k > len(b) {
					return errors.New("nsq: bad MPUB")
				}
				switch err := c.publish(f[1], b[4:4+k]); err {
				case nil:
				case errRefused:
					refused = true
				default:
					return err
				}
				b = b[4+k:]
			}
			if refused {
				c.nsqFrame(1, "E_MPUB_FAILED")
				continue
			}
		case "CLS":
			reply = "CLOSE_WAIT"
		default:
			c.nsqFrame(1, "E_INVALID invalid command "+f[0])
			return errors.New("nsq: " + l)
		}
		if err := c.nsqFrame(0, reply); err != nil {
			return err
		}
	}
}

var nsqTopic = regexp.MustCompile(`^[.a-zA-Z0-9_-]{1,64}(#ephemeral)?$`)

// ---- AMQP 0-9-1 ----------------------------------------------------------------------------------

func (c *bconn) amqpFrame(t byte, ch uint16, p []byte) error {
	b := []byte{t, byte(ch >> 8), byte(ch)}
	b = binary.BigEndian.AppendUint32(b, uint32(len(p)))
	b = append(append(b, p...), 0xce)
	_, err := c.Write(b)
	return err
}

func amqpM(class, method uint16, rest ...byte) []byte {
	b := binary.BigEndian.AppendUint16(nil, class)
	return append(binary.BigEndian.AppendUint16(b, method), rest...)
}

func longstr(s string) []byte {
	return append(binary.BigEndian.AppendUint32(nil, uint32(len(s))), s...)
}
func shortstr(s string) []byte { return append([]byte{byte(len(s))}, s...) }

type amqpChan struct {
	confirm  bool
	tx       bool
	tag      uint64
	pub      bool
	exchange string
	key      string
	size     uint64
	body     []byte
	pend     [][3]string
	closing  bool
	// confirmations: all up to low are known to the client, of the others those in out; done: stored, not told yet
	low       uint64
	out, done map[uint64]bool
	nacked    map[uint64]bool
}

func (c *bconn) amqp() error {
	h := make([]byte, 8)
	if _, err := io.ReadFull(c.r, h); err != nil {
		return err
	}
	if !bytes.Equal(h, []byte("AMQP\x00\x00\x09\x01")) {
		c.put("AMQP\x00\x00\x09\x01")
		return errors.New("amqp: bad header")
	}
	start := amqpM(10, 10, 0, 9, 0, 0, 0, 0)
	start = append(start, longstr("AMQPLAIN PLAIN")...)
	start = append(start, longstr("en_US")...)
	if err := c.amqpFrame(1, 0, start); err != nil {
		return err
	}
	chans := map[uint16]*amqpChan{}
	var hb time.Duration
	seen := time.Now()
	done := false
	defer func() { done = true }()
	var tick func()
	tick = func() {
		if done || c.e.closed {
			return
		}
		if time.Since(seen) > 2*hb+time.Second {
			c.shut(false)
			return
		}
		go func() {
			c.amqpFrame(8, 0, nil)
			time.AfterFunc(hb/2, tick)
		}()
	}
	fh := make([]byte, 7)
	for {
		if _, err := io.ReadFull(c.r, fh); err != nil {
			return err
		}
		n := binary.BigEndian.Uint32(fh[3:])
		if n > 1<<20 {
			return errors.New("amqp: frame too big")
		}
		p := make([]byte, n+1)
		if _, err := io.ReadFull(c.r, p); err != nil {
			return err
		}
		seen = time.Now()
		if p[n] != 0xce {
			return errors.New("amqp: frame end missing")
		}
		p = p[:n]
		ch := binary.BigEndian.Uint16(fh[1:])
		s := chans[ch]
		if s != nil && s.closing && (fh[0] != 1 || !bytes.HasPrefix(p, []byte{0, 20, 0, 41})) && !bytes.HasPrefix(p, []byte{0, 20, 0, 40}) {
			continue // a channel being closed
		}
		switch fh[0] {
		case 8:
			continue
		case 2: // content header
			if s == nil || !s.pub || len(p) < 14 {
				return errors.New("amqp: unexpected header")
			}
			s.size = binary.BigEndian.Uint64(p[4:])
			s.body = nil
			if s.size > 0 {
				continue
			}
		case 3:
			if s == nil || !s.pub {
				return errors.New("amqp: unexpected body")
			}
			s.body = append(s.body, p...)
			if uint64(len(s.body)) < s.size {
				continue
			}
			if uint64(len(s.body)) > s.size {
				return errors.New("amqp: body too long")
			}
		case 1:
			if len(p) < 4 {
				return errors.New("amqp: short method")
			}
			m := [2]uint16{binary.BigEndian.Uint16(p), binary.BigEndian.Uint16(p[2:])}
			p = p[4:]
			if ch != 0 && s == nil && m != [2]uint16{20, 10} {
				return errors.New("amqp: channel not open")
			}
			var reply []byte
			switch m {
			case [2]uint16{10, 11}: // start-ok
				if c.barred() {
					r := amqpM(10, 50, 0x01, 0x40)
					r = append(r, shortstr("CONNECTION_FORCED - broker forced connection closure with reason 'shutdown'")...)
					c.amqpFrame(1, 0, append(r, 0, 0, 0, 0))
					return errors.New("amqp: barred")
				}
				cred := "\x00" + c.b.b.User + "\x00" + c.b.b.Pass
				if !bytes.Contains(p, append(binary.BigEndian.AppendUint32(nil, uint32(len(cred))), cred...)) {
					r := amqpM(10, 50, 0x01, 0x93)
					r = append(r, shortstr("ACCESS_REFUSED")...)
					c.amqpFrame(1, 0, append(r, 0, 0, 0, 0))
					return errors.New("amqp: wrong credentials")
				}
				limit := uint16(2047)
				if n := c.b.b.Chans; n > 0 {
					limit = uint16(n)
				} else if n < 0 {
					limit = 0
				}
				reply = binary.BigEndian.AppendUint16(amqpM(10, 30), limit)
				reply = append(reply, 0, 2, 0, 0, 0, 60)
			case [2]uint16{10, 31}: // tune-ok
				if len(p) >= 8 {
					hb = time.Duration(binary.BigEndian.Uint16(p[6:])) * time.Second
				}
				if hb > 0 {
					time.AfterFunc(hb/2, tick)
				}
				continue
			case [2]uint16{10, 40}:
				reply = amqpM(10, 41, 0)
			case [2]uint16{10, 50}:
				c.amqpFrame(1, 0, amqpM(10, 51))
				return io.EOF
			case [2]uint16{10, 51}:
				return io.EOF
			case [2]uint16{20, 10}:
				if n := c.b.b.Chans; n > 0 && len(chans) >= n {
					r := amqpM(10, 50, 0x02, 0x12)
					r = append(r, shortstr("NOT_ALLOWED - number of channels opened has reached the negotiated channel_max")...)
					c.amqpFrame(1, 0, append(r, 0, 0, 0, 0))
					return errors.New("amqp: too many channels")
				}
				chans[ch] = &amqpChan{out: map[uint64]bool{}, done: map[uint64]bool{}, nacked: map[uint64]bool{}}
				reply = amqpM(20, 11, 0, 0, 0, 0)
			case [2]uint16{20, 40}:
				s.closing = true // nothing more about its messages
				delete(chans, ch)
				reply = amqpM(20, 41)
			case [2]uint16{20, 41}:
				delete(chans, ch)
				continue
			case [2]uint16{85, 10}:
				s.confirm = true
				if len(p) > 0 && p[0]&1 != 0 {
					continue
				}
				reply = amqpM(85, 11)
			case [2]uint16{90, 10}:
				s.tx = true
				reply = amqpM(90, 11)
			case [2]uint16{90, 20}:
				bad := false
				for _, q := range s.pend {
					switch err := c.publish(q[0]+"/"+q[1], []byte(q[2])); err {
					case nil:
					case errRefused:
						bad = true
					default:
						return err
					}
				}
				s.pend = nil
				if bad {
					r := amqpM(20, 40, 0x01, 0x96)
					r = append(r, shortstr("PRECONDITION_FAILED")...)
					delete(chans, ch)
					reply = append(r, 0, 90, 0, 20)
				} else {
					reply = amqpM(90, 21)
				}
			case [2]uint16{90, 30}:
				s.pend = nil
				reply = amqpM(90, 31)
			case [2]uint16{40, 10}:
				reply = amqpM(40, 11)
			case [2]uint16{50, 10}:
				reply = append(amqpM(50, 11), append(shortstr("q"), 0, 0, 0, 0, 0, 0, 0, 0)...)
			case [2]uint16{50, 20}:
				reply = amqpM(50, 21)
			case [2]uint16{60, 10}:
				reply = amqpM(60, 11)
			case [2]uint16{60, 40}: // publish
				if len(p) < 4 {
					return errors.New("amqp: short publish")
				}
				q := p[2:]
				e := string(q[1 : 1+int(q[0])])
				q = q[1+len(e):]
				k := string(q[1 : 1+int(q[0])])
				s.pub, s.exchange, s.key, s.body = true, e, k, nil
				continue
			default:
				return fmt.Errorf("amqp: method %v", m)
			}
			if err := c.amqpFrame(1, ch, reply); err != nil {
				return err
			}
			continue
		default:
			return errors.New("amqp: frame type")
		}
		// a whole message
		s.pub = false
		s.tag++
		if s.tx {
			s.pend = append(s.pend, [3]string{s.exchange, s.key, string(s.body)})
			continue
		}
		// messages are handled concurrently and confirmed as they are done
		go func(tag uint64, dest string, body []byte) {
			if c.confirm(ch, s, tag, c.publish(dest, body)) != nil {
				c.shut(false)
			}
		}(s.tag, s.exchange+"/"+s.key, s.body)
	}
}

// confirm tells the client what became of a message: at once or later, alone or with others.
func (c *bconn) confirm(ch uint16, s *amqpChan, tag uint64, err error) error {
	if s.closing && (err == nil || err == errRefused) {
		return nil
	}
	single := func(method uint16, tag uint64, flag byte) error {
		return c.amqpFrame(1, ch, amqpM(60, method, append(binary.BigEndian.AppendUint64(nil, tag), flag)...))
	}
	if err == errRefused {
		if s.confirm && c.b.rng.N(3) < 2 {
			s.nacked[tag] = true
			s.told(tag)
			return single(120, tag, 0)
		}
		// the channel is closed by the broker
		r := amqpM(20, 40, 0x01, 0x94)
		r = append(r, shortstr("NOT_FOUND - no exchange")...)
		s.closing = true
		return c.amqpFrame(1, ch, append(r, 0, 60, 0, 40))
	}
	if err != nil || !s.confirm {
		return err
	}
	if c.b.rng.P(2, 3) {
		s.told(tag)
		return single(80, tag, 0)
	}
	// kept for a while, then with all before it
	s.done[tag] = true
	time.Sleep(c.b.rng.Dur(50 * time.Millisecond))
	if !s.done[tag] || s.closing || c.epoch != c.b.epoch {
		return nil
	}
	k := s.low
	for s.done[k+1] || s.out[k+1] && !s.nacked[k+1] {
		k++
	}
	if k < tag {
		delete(s.done, tag)
		s.told(tag)
		return single(80, tag, 0)
	}
	for ; s.low < k; s.low++ {
		delete(s.done, s.low+1)
		delete(s.out, s.low+1)
	}
	for s.out[s.low+1] {
		delete(s.out, s.low+1)
		s.low++
	}
	return single(80, k, 1)
}

// told: the client knows about one message.
func (s *amqpChan) told(tag uint64) {
	s.out[tag] = true
	for s.out[s.low+1] {
		delete(s.out, s.low+1)
		s.low++
	}
}

// ---- PostgreSQL ----------------------------------------------------------------------------------

func pgMsg(t byte, p []byte) []byte {
	b := []byte{t}
	b = binary.BigEndian.AppendUint32(b, uint32(len(p)+4))
	return append(b, p...)
}

// pgName is the table an SQL name means.
func pgName(s string) string {
	var parts []string
	for _, x := range strings.Split(s, ".") {
		if x = strings.TrimSpace(x); strings.HasPrefix(x, "\"") {
			parts = append(parts, strings.Trim(x, "\""))
		} else {
			parts = append(parts, strings.ToLower(x))
		}
	}
	if len(parts) == 2 && parts[0] == "public" {
		parts = parts[1:]
	}
	return strings.Join(parts, ".")
}

var pgInsert = regexp.MustCompile(`(?is)^\s*INSERT\s+INTO\s+((?:"[^"]+"|[A-Za-z0-9_$]+)(?:\s*\.\s*(?:"[^"]+"|[A-Za-z0-9_$]+))*)\s*\(\s*"?point"?\s*\)\s*VALUES\s*\((.*)\)\s*;?\s*(RETURNING.*)?$`)

// pgLiteral reads a string literal, perhaps with a cast.
func pgLiteral(s string) (string, bool) {
	if len(s) < 2 || s[0] != '\'' {
		return "", false
	}
	for i := 1; i < len(s); i++ {
		if s[i] != '\'' {
			continue
		}
		if i+1 < len(s) && s[i+1] == '\'' {
			i++
			continue
		}
		rest := strings.TrimSpace(s[i+1:])
		if rest != "" && !strings.HasPrefix(rest, "::") {
			return "", false
		}
		return strings.ReplaceAll(s[1:i], "''", "'"), true
	}
	return "", false
}

func (c *bconn) pg() error {
	var n uint32
	for {
		if err := binary.Read(c.r, binary.BigEndian, &n); err != nil {
			return err
		}
		if n < 8 || n > 10000 {
			return errors.New("pg: startup")
		}
		b := make([]byte, n-4)
		if _, err := io.ReadFull(c.r, b); err != nil {
			return err
		}
		v := binary.BigEndian.Uint32(b)
		if v == 80877103 { // TLS?
			if err := c.put("N"); err != nil {
				return err
			}
			continue
		}
		if v == 80877102 {
			return io.EOF
		}
		if v != 196608 {
			return errors.New("pg: version")
		}
		if c.barred() {
			c.Write(pgMsg('E', []byte("SFATAL\x00C57P03\x00Mthe database system is starting up\x00\x00")))
			return errors.New("pg: barred")
		}
		f := strings.Split(string(b[4:]), "\x00")
		for i := 0; i+1 < len(f); i += 2 {
			if f[i] == "synchronous_commit" && pgOff(f[i+1]) || f[i] == "options" && pgAsync.MatchString(f[i+1]) {
				c.async = true
			}
			if f[i] == "user" && f[i+1] != c.b.b.User {
				c.Write(pgMsg('E', []byte("SFATAL\x00C28000\x00Mrole does not exist\x00\x00")))
				return errors.New("pg: user")
			}
			if f[i] == "database" && f[i+1] != c.b.b.DB {
				c.Write(pgMsg('E', []byte("SFATAL\x00C3D000\x00Mdatabase does not exist\x00\x00")))
				return errors.New("pg: database")
			}
		}
		break
	}
	rd := func() (byte, []byte, error) {
		t, err := c.r.ReadByte()
		if err != nil {
			return 0, nil, err
		}
		var n uint32
		if err := binary.Read(c.r, binary.BigEndian, &n); err != nil {
			return 0, nil, err
		}
		if n < 4 || n > 1<<24 {
			return 0, nil, errors.New("pg: length")
		}
		b := make([]byte, n-4)
		_, err = io.ReadFull(c.r, b)
		return t, b, err
	}
	if c.b.b.Pass != "" {
		if _, err := c.Write(pgMsg('R', []byte{0, 0, 0, 3})); err != nil {
			return err
		}
		t, b, err := rd()
		if err != nil {
			return err
		}
		if t != 'p' || string(b) != c.b.b.Pass+"\x00" {
			c.Write(pgMsg('E', []byte("SFATAL\x00C28P01\x00Mpassword authentication failed\x00\x00")))
			return errors.New("pg: password")
		}
	}
	var out []byte
	out = append(out, pgMsg('R', []byte{0, 0, 0, 0})...)
	for _, kv := range []string{"server_version\x0012.3\x00", "client_encoding\x00UTF8\x00", "standard_conforming_strings\x00on\x00", "integer_datetimes\x00on\x00"} {
		out = append(out, pgMsg('S', []byte(kv))...)
	}
	out = append(out, pgMsg('K', []byte{0, 0, 0, 1, 0, 0, 0, 2})...)
	out = append(out, pgMsg('Z', []byte("I"))...)
	if _, err := c.Write(out); err != nil {
		return err
	}
	type stmt struct {
		q     string
		table string
		lit   string
		np    int
	}
	stmts := map[string]*stmt{}
	type portal struct {
		s    *stmt
		args [][]byte
	}
	portals := map[string]*portal{}
	st := byte('I')
	var pend [][2]string
	failed := false
	out = nil
	fail := func(code, msg string) {
		out = append(out, pgMsg('E', []byte("SERROR\x00C"+code+"\x00M"+msg+"\x00\x00"))...)
		if st == 'T' {
			st = 'E'
		}
	}
	cstr := func(b []byte) (string, []byte) {
		i := bytes.IndexByte(b, 0)
		if i < 0 {
			return string(b), nil
		}
		return string(b[:i]), b[i+1:]
	}
	parse := func(q string) *stmt {
		s := &stmt{q: strings.TrimSpace(q)}
		if m := pgInsert.FindStringSubmatch(q); m != nil {
			s.table, s.lit = pgName(m[1]), strings.TrimSpace(m[2])
			if i := strings.Index(s.lit, "::"); i > 0 && s.lit[0] == '$' {
				s.lit = s.lit[:i]
			}
			if s.lit == "$1" {
				s.np = 1
			}
		}
		return s
	}
	store := func(table, body string) error {
		if st == 'T' {
			// a refusal meets the insert or the commit
			c.used = true
			c.b.asked++
			r := newRng(c.b.w.p.Seed, 4244, uint64(c.b.i), uint64(c.b.asked))
			if f, _ := c.b.in("err"); f != nil && r.P(1, 2) && r.N(16) < f.N {
				c.b.w.f.add("broker-refusal")
				return errRefused
			}
			pend = append(pend, [2]string{table, body})
			return nil
		}
		return c.publish(table, []byte(body))
	}
	// exec returns the command tag
	exec := func(s *stmt, args [][]byte) (string, error) {
		u := strings.ToUpper(strings.TrimSuffix(s.q, ";"))
		switch {
		case st == 'E' && !strings.HasPrefix(u, "ROLLBACK") && !strings.HasPrefix(u, "COMMIT"):
			fail("25P02", "current transaction is aborted")
			return "", nil
		case strings.HasPrefix(u, "BEGIN"):
			st = 'T'
			return "BEGIN", nil
		case strings.HasPrefix(u, "COMMIT"):
			if st == 'E' {
				st, pend = 'I', nil
				return "ROLLBACK", nil
			}
			st = 'I'
			q := pend
			pend = nil
			for _, p := range q {
				switch err := c.publish(p[0], []byte(p[1])); err {
				case nil:
				case errRefused:
					fail("53100", "could not extend file: No space left on device")
					return "", nil
				default:
					return "", err
				}
			}
			return "COMMIT", nil
		case strings.HasPrefix(u, "ROLLBACK"):
			st, pend = 'I', nil
			return "ROLLBACK", nil
		case s.table != "":
			body := ""
			if s.np == 1 {
				if len(args) != 1 {
					fail("08P01", "bind message supplies wrong number of parameters")
					return "", nil
				}
				body = string(args[0])
				if strings.HasPrefix(body, `\x`) {
					if h, err := hex.DecodeString(body[2:]); err == nil {
						body = string(h)
					}
				}
			} else if l, ok := pgLiteral(s.lit); ok {
				body = l
			} else {
				fail("42601", "syntax error")
				return "", nil
			}
			switch err := store(s.table, body); err {
			case nil:
				return "INSERT 0 1", nil
			case errRefused:
				fail("53100", "could not extend file: No space left on device")
				return "", nil
			default:
				return "", err
			}
		case strings.HasPrefix(u, "SET") && strings.Contains(u, "SYNCHRONOUS_COMMIT"):
			c.async = pgAsync.MatchString(s.q)
			return "SET", nil
		case strings.HasPrefix(u, "SELECT"), strings.HasPrefix(u, "SET"), strings.HasPrefix(u, "CREATE"):
			return "SELECT 1", nil
		}
		fail("42601", "syntax error")
		return "", nil
	}
	row := func() {
		d := []byte{0, 1}
		d = append(d, "?column?\x00"...)
		d = append(d, 0, 0, 0, 0, 0, 0, 0, 0, 0, 25, 255, 255, 255, 255, 255, 255, 0, 0)
		out = append(out, pgMsg('T', d)...)
	}
	for {
		t, b, err := rd()
		if err != nil {
			return err
		}
		if failed && t != 'S' && t != 'X' {
			continue
		}
		before := len(out)
		switch t {
		case 'X':
			return io.EOF
		case 'Q':
			q, _ := cstr(b)
			if strings.Trim(q, "; \n") == "" {
				out = append(out, pgMsg('I', nil)...)
			} else {
				s := parse(q)
				n := len(out)
				if strings.HasPrefix(strings.ToUpper(s.q), "SELECT") {
					row()
					out = append(out, pgMsg('D', []byte{0, 1, 0, 0, 0, 1, '1'})...)
				}
				tag, err := exec(s, nil)
				if err != nil {
					return err
				}
				if tag != "" {
					out = append(out, pgMsg('C', append([]byte(tag), 0))...)
				} else {
					_ = n
				}
			}
			out = append(out, pgMsg('Z', []byte{st})...)
			if _, err := c.Write(out); err != nil {
				return err
			}
			out = nil
			continue
		case 'P':
			name, r := cstr(b)
			q, _ := cstr(r)
			s := parse(q)
			if s.table == "" && !regexp.MustCompile(`(?i)^(SELECT|BEGIN|COMMIT|ROLLBACK|SET|CREATE)`).MatchString(s.q) {
				fail("42601", "syntax error")
			} else {
				stmts[name] = s
				out = append(out, pgMsg('1', nil)...)
			}
		case 'D':
			kind := b[0]
			name, _ := cstr(b[1:])
			if kind == 'S' {
				s := stmts[name]
				if s == nil {
					fail("26000", "no such statement")
					break
				}
				pd := []byte{0, byte(s.np)}
				for i := 0; i < s.np; i++ {
					pd = binary.BigEndian.AppendUint32(pd, 3802)
				}
				out = append(out, pgMsg('t', pd)...)
				if strings.HasPrefix(strings.ToUpper(s.q), "SELECT") {
					row()
				} else {
					out = append(out, pgMsg('n', nil)...)
				}
			} else {
				out = append(out, pgMsg('n', nil)...)
			}
		case 'B':
			pn, r := cstr(b)
			sn, r := cstr(r)
			s := stmts[sn]
			if s == nil || len(r) < 2 {
				fail("26000", "no such statement")
				break
			}
			nf := int(binary.BigEndian.Uint16(r))
			if len(r) < 4+2*nf {
				return errors.New("pg: bind")
			}
			r = r[2+2*nf:]
			na := int(binary.BigEndian.Uint16(r))
			r = r[2:]
			p := &portal{s: s}
			for i := 0; i < na; i++ {
				if len(r) < 4 {
					return errors.New("pg: bind")
				}
				l := int(int32(binary.BigEndian.Uint32(r)))
				r = r[4:]
				if l < 0 {
					p.args = append(p.args, nil)
					continue
				}
				if l > len(r) {
					return errors.New("pg: bind")
				}
				p.args = append(p.args, r[:l])
				r = r[l:]
			}
			// jsonb with its binary version byte
			for i, a := range p.args {
				if len(a) > 1 && a[0] == 1 && a[1] == '{' {
					p.args[i] = a[1:]
				}
			}
			portals[pn] = p
			out = append(out, pgMsg('2', nil)...)
		case 'E':
			pn, _ := cstr(b)
			p := portals[pn]
			if p == nil {
				fail("34000", "no such portal")
				break
			}
			tag, err := exec(p.s, p.args)
			if err != nil {
				return err
			}
			if tag != "" {
				out = append(out, pgMsg('C', append([]byte(tag), 0))...)
			}
		case 'C':
			out = append(out, pgMsg('3', nil)...)
		case 'S':
			failed = false
			out = append(out, pgMsg('Z', []byte{st})...)
			if _, err := c.Write(out); err != nil {
				return err
			}
			out = nil
			continue
		case 'H':
			if _, err := c.Write(out); err != nil {
				return err
			}
			out = nil
			continue
		default:
			return fmt.Errorf("pg: message %q", t)
		}
		if len(out) > before && out[before] == 'E' {
			failed = true
		}
	}
}

// ---- Tarantool -----------------------------------------------------------------------------------

// mp decodes one msgpack value.
func mp(b []byte) (any, []byte, error) {
	bad := errors.New("msgpack")
	if len(b) == 0 {
		return nil, nil, bad
	}
	t := b[0]
	b = b[1:]
	num := func(n int) (uint64, bool) {
		if len(b) < n {
			return 0, false
		}
		var v uint64
		for i := 0; i < n; i++ {
			v = v<<8 | uint64(b[i])
		}
		b = b[n:]
		return v, true
	}
	str := func(n uint64, ok bool) (any, []byte, error) {
		if !ok || uint64(len(b)) < n {
			return nil, nil, bad
		}
		return string(b[:n]), b[n:], nil
	}
	arr := func(n uint64, ok bool) (any, []byte, error) {
		if !ok || n > uint64(len(b)) {
			return nil, nil, bad
		}
		r := []any{}
		for i := uint64(0); i < n; i++ {
			var v any
			var err error
			if v, b, err = mp(b); err != nil {
				return nil, nil, err
			}
			r = append(r, v)
		}
		return r, b, nil
	}
	mapp := func(n uint64, ok bool) (any, []byte, error) {
		if !ok || n > uint64(len(b)) {
			return nil, nil, bad
		}
		r := map[any]any{}
		for i := uint64(0); i < n; i++ {
			var k, v any
			var err error
			if k, b, err = mp(b); err != nil {
				return nil, nil, err
			}
			if v, b, err = mp(b); err != nil {
				return nil, nil, err
			}
			switch k.(type) {
			case string, uint64, int64, bool:
				r[k] = v
			default:
				return nil, nil, bad
			}
		}
		return r, b, nil
	}
	switch {
	case t < 0x80:
		return uint64(t), b, nil
	case t >= 0xe0:
		return int64(int8(t)), b, nil
	case t < 0x90:
		return mapp(uint64(t&15), true)
	case t < 0xa0:
		return arr(uint64(t&15), true)
	case t < 0xc0:
		return str(uint64(t&31), true)
	}
	switch t {
	case 0xc0:
		return nil, b, nil
	case 0xc2, 0xc3:
		return t == 0xc3, b, nil
	case 0xc4, 0xd9:
		n, ok := num(1)
		return str(n, ok)
	case 0xc5, 0xda:
		n, ok := num(2)
		return str(n, ok)
	case 0xc6, 0xdb:
		n, ok := num(4)
		return str(n, ok)
	case 0xca, 0xcb:
		n, ok := num(4 << (t&1 ^ 0))
		if t == 0xca && ok {
			return float64(n), b, nil
		}
		if !ok {
			return nil, nil, bad
		}
		return float64(n), b, nil
	case 0xcc, 0xcd, 0xce, 0xcf:
		n, ok := num(1 << (t - 0xcc))
		if !ok {
			return nil, nil, bad
		}
		return n, b, nil
	case 0xd0, 0xd1, 0xd2, 0xd3:
		n, ok := num(1 << (t - 0xd0))
		if !ok {
			return nil, nil, bad
		}
		return int64(n), b, nil
	case 0xdc:
		n, ok := num(2)
		return arr(n, ok)
	case 0xdd:
		n, ok := num(4)
		return arr(n, ok)
	case 0xde:
		n, ok := num(2)
		return mapp(n, ok)
	case 0xdf:
		n, ok := num(4)
		return mapp(n, ok)
	}
	return nil, nil, bad
}

func mpU32(b []byte, v uint32) []byte {
	return binary.BigEndian.AppendUint32(append(b, 0xce), v)
}

func (c *bconn) tntReply(sync uint64, code uint32, body []byte) error {
	p := []byte{0x83, 0x00}
	p = mpU32(p, code)
	p = append(p, 0x01, 0xcf)
	p = binary.BigEndian.AppendUint64(p, sync)
	p = append(p, 0x05)
	p = mpU32(p, 77)
	p = append(p, body...)
	b := append([]byte{0xce}, binary.BigEndian.AppendUint32(nil, uint32(len(p)))...)
	_, err := c.Write(append(b, p...))
	return err
}

func mpStr(b []byte, s string) []byte {
	if len(s) < 32 {
		b = append(b, 0xa0|byte(len(s)))
	} else {
		b = append(b, 0xd9, byte(len(s)))
	}
	return append(b, s...)
}

func (c *bconn) tntErr(sync uint64, code uint32, msg string) error {
	return c.tntReply(sync, 0x8000|code, mpStr([]byte{0x81, 0x31}, msg))
}

func (c *bconn) tarantool() error {
	salt := make([]byte, 32)
	for i := range salt {
		salt[i] = byte(c.b.rng.U64())
	}
	g := fmt.Sprintf("%-63s\n%-63s\n", "Tarantool 1.10.2 (Binary) 7170b4a4-a0a9-4f7b-8d1e-3b1b1b1b1b1b", base64.StdEncoding.EncodeToString(salt))
	if err := c.put(g); err != nil {
		return err
	}
	authed := c.b.b.User == ""
	id := uint32(0)
	for {
		h, err := c.r.ReadByte()
		if err != nil {
			return err
		}
		var n uint64
		switch {
		case h < 0x80:
			n = uint64(h)
		case h >= 0xcc && h <= 0xcf:
			for i := 0; i < 1<<(h-0xcc); i++ {
				x, err := c.r.ReadByte()
				if err != nil {
					return err
				}
				n = n<<8 | uint64(x)
			}
		default:
			return fmt.Errorf("tarantool: length %x", h)
		}
		if n > 1<<22 {
			return errors.New("tarantool: too long")
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(c.r, b); err != nil {
			return err
		}
		hd, r, err := mp(b)
		if err != nil {
			return err
		}
		hm, _ := hd.(map[any]any)
		code, _ := hm[uint64(0)].(uint64)
		sync, _ := hm[uint64(1)].(uint64)
		bm := map[any]any{}
		if len(r) > 0 {
			bd, _, err := mp(r)
			if err != nil {
				c.tntErr(sync, 20, "Invalid MsgPack")
				continue
			}
			bm, _ = bd.(map[any]any)
		}
		var e error
		switch code {
		case 64:
			e = c.tntReply(sync, 0, []byte{0x80})
		case 7:
			u, _ := bm[uint64(0x23)].(string)
			tp, _ := bm[uint64(0x21)].([]any)
			if c.barred() {
				c.tntErr(sync, 116, "Instance bootstrap hasn't finished yet")
				return errors.New("tarantool: barred")
			}
			ok := u == c.b.b.User && len(tp) == 2
			if ok {
				s, _ := tp[1].(string)
				ok = s == chapSHA1(salt, c.b.b.Pass)
			}
			if !ok && c.b.b.User != "" {
				if u != c.b.b.User {
					c.tntErr(sync, 45, "User is not found")
				} else {
					c.tntErr(sync, 47, "Incorrect password supplied for user")
				}
				return errors.New("tarantool: auth")
			}
			authed = true
			e = c.tntReply(sync, 0, []byte{0x80})
		case 1:
			e = c.tntReply(sync, 0, []byte{0x81, 0x30, 0xdd, 0, 0, 0, 0})
		case 6, 10:
			fn, _ := bm[uint64(0x22)].(string)
			tp, _ := bm[uint64(0x21)].([]any)
			if !authed {
				e = c.tntErr(sync, 55, "Execute access denied")
				break
			}
			name := strings.TrimSuffix(strings.TrimPrefix(fn, "queue.tube."), ":put")
			if fn != "queue.tube."+name+":put" || len(tp) == 0 {
				e = c.tntErr(sync, 33, "Procedure is not defined")
				break
			}
			body, _ := tp[0].(string)
			if len(tp) > 1 {
				if o, ok := tp[1].(map[any]any); ok && o["ttl"] != nil {
					// a task with an end to its life goes before anybody has taken it
					name = "expired"
				}
			}
			// calls run concurrently and are answered as they end
			go func() {
				var e error
				switch err := c.publish(name, []byte(body)); err {
				case nil:
					p := []byte{0x81, 0x30, 0xdd, 0, 0, 0, 1, 0x93}
					p = mpU32(p, id)
					id++
					p = mpStr(p, "r")
					p = append(p, 0xda, byte(len(body)>>8), byte(len(body)))
					p = append(p, body...)
					if len(body) > 65535 {
						p = []byte{0x81, 0x30, 0xdd, 0, 0, 0, 1, 0x92}
						p = mpU32(p, id)
						p = mpStr(p, "r")
					}
					if code == 10 { // values, not tuples
						p = append([]byte{0x81, 0x30, 0xdd, 0, 0, 0, 1}, p[7:]...)
					}
					e = c.tntReply(sync, 0, p)
				case errRefused:
					e = c.tntErr(sync, 32, "Failed to allocate memory for tuple")
				default:
					e = err
				}
				if e != nil {
					c.shut(false)
				}
			}()
		default:
			e = c.tntErr(sync, 48, "Unknown request type")
		}
		if e != nil {
			return e
		}
	}
}

func chapSHA1(salt []byte, pass string) string {
	s1 := sha1.Sum([]byte(pass))
	s2 := sha1.Sum(s1[:])
	h := sha1.New()
	h.Write(salt[:20])
	h.Write(s2[:])
	s3 := h.Sum(nil)
	for i := range s3 {
		s3[i] ^= s1[i]
	}
	return string(s3)
}
