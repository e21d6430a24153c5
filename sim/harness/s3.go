package main

import (
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"os"
	"strconv"
	"time"

	pgen "github.com/ElectroUnion/egts-gate/sim0/cli/packet-gen"
)

// Setup S3: the packet generator program against a scripted server.

// GenPlan is one start of the program.
type GenPlan struct {
	Args  []string `json:"args"`
	Bad   bool     `json:"bad,omitempty"` // the command line is incomplete or wrong
	PID   uint16   `json:"pid"`
	OID   uint32   `json:"oid"`
	Nav   int64    `json:"nav"` // seconds since 2010
	Lat   float64  `json:"lat"`
	Lon   float64  `json:"lon"`
	Liq   uint32   `json:"liquid"`
	Wait  int64    `json:"wait_us"`         // the waiting time
	State string   `json:"state,omitempty"` // of the server: "" up, refused, unreach, deaf (connects, takes nothing)
	Host  string   `json:"host,omitempty"`  // the name it has on the command line
	Heal  int64    `json:"heal_us,omitempty"`
	Early bool     `json:"early,omitempty"` // answers before it has the packet
	Delay int64    `json:"delay_us,omitempty"`
	Cuts  []int    `json:"cuts,omitempty"`
	Gap   int64    `json:"gap_us,omitempty"`
	Ans   []GenAns `json:"ans,omitempty"`
	End   string   `json:"end,omitempty"` // "" stays open, close, half, reset, black
	EndUs int64    `json:"end_us,omitempty"`
	Up    Profile  `json:"up"`
	Down  Profile  `json:"down"`
}

// GenAns is a packet of the server. Raw bytes if given, otherwise a response (or a data packet with a
// result code if Data) with the numbers relative to what was sent.
type GenAns struct {
	Raw   string   `json:"raw,omitempty"`
	Soft  bool     `json:"soft,omitempty"` // nothing is demanded but an end in time
	Data  bool     `json:"data,omitempty"`
	PID   uint16   `json:"pid,omitempty"`
	DPID  uint16   `json:"dpid,omitempty"` // added to the packet number it answers
	PR    uint8    `json:"pr,omitempty"`
	Recs  [][2]int `json:"recs,omitempty"` // (added to the record number, status)
	Split bool     `json:"split,omitempty"`
	Route bool     `json:"route,omitempty"`
	Prio  uint8    `json:"prio,omitempty"`
	Flip  int      `json:"flip,omitempty"` // damaged bit (from 1)
	Cut   int      `json:"cut,omitempty"`  // only so many bytes
	Zero  bool     `json:"zero,omitempty"` // all but the last byte, which would have been zero
	Tail  int      `json:"tail,omitempty"` // so many bytes of another record at the end of the body
}

const genAddr = "127.0.0.1:5555"

// sentPkt is what the generator's packet says, read independently of the code under test.
type sentPkt struct {
	n    int // its length
	pid  uint16
	typ  byte
	rns  []uint16
	oids []uint32
	noid int // records without an object
	pos  [][]byte
	liq  [][]byte
}

func parseSent(b []byte) (*sentPkt, error) {
	a, n, err := parseAnswer(b)
	if err != nil {
		return nil, err
	}
	s := &sentPkt{n: n, pid: a.PID, typ: a.Type}
	if a.Type != 1 {
		return s, nil
	}
	hl := int(b[3])
	body := b[hl : hl+int(binary.LittleEndian.Uint16(b[5:]))]
	for len(body) > 0 {
		rl := int(binary.LittleEndian.Uint16(body))
		s.rns = append(s.rns, binary.LittleEndian.Uint16(body[2:]))
		f := body[4]
		o := 5
		if f&1 != 0 {
			s.oids = append(s.oids, binary.LittleEndian.Uint32(body[5:]))
		} else {
			s.noid++
		}
		for i := 0; i < 3; i++ {
			if f>>i&1 != 0 {
				o += 4
			}
		}
		o += 2
		d := body[o : o+rl]
		body = body[o+rl:]
		for len(d) > 0 {
			l := int(binary.LittleEndian.Uint16(d[1:]))
			v := d[3 : 3+l]
			switch d[0] {
			case 16:
				s.pos = append(s.pos, v)
			case 27:
				s.liq = append(s.liq, v)
			}
			d = d[3+l:]
		}
	}
	return s, nil
}

func (a *GenAns) bytes(pid uint16, rn uint16) []byte {
	if a.Raw != "" {
		b, err := hex.DecodeString(a.Raw)
		if err != nil {
			panic(err)
		}
		return b
	}
	p := &Pkt{PID: a.PID, RPID: pid + a.DPID, PR: a.PR, Route: a.Route, Prio: a.Prio}
	rec := Rec{RN: a.PID, SST: 2, RST: 2, Fl: 0x20}
	if a.Data {
		p.Type = 1
		rec.SST, rec.RST = 1, 1
		rec.Subs = []Sub{{K: "rescode", V: []int64{0}}}
		p.Recs = []Rec{rec}
	} else if len(a.Recs) > 0 {
		for _, r := range a.Recs {
			s := Sub{K: "resp", V: []int64{int64(rn + uint16(r[0])), int64(r[1])}}
			if a.Split {
				q := rec
				q.Subs = []Sub{s}
				p.Recs = append(p.Recs, q)
			} else {
				rec.Subs = append(rec.Subs, s)
			}
		}
		if !a.Split {
			p.Recs = []Rec{rec}
		}
	}
	b := p.encode()
	if a.Tail > 0 {
		b = frame(p, append(p.body(), make([]byte, a.Tail)...))
	}
	if a.Zero {
		for b[len(b)-1] != 0 {
			p.Recs[0].RN++
			b = p.encode()
		}
		b = b[:len(b)-1]
	}
	if a.Flip > 0 {
		f := (a.Flip - 1) % (8 * len(b))
		b[f/8] ^= 1 << (f % 8)
	}
	if a.Cut > 0 && a.Cut < len(b) {
		b = b[:a.Cut]
	}
	return b
}

// verdict of the first packet of the answer: 1 success, 0 no success, -1 not decided here
func (g *GenPlan) verdict() int {
	if len(g.Ans) == 0 {
		return 0
	}
	a := &g.Ans[0]
	if a.Soft {
		return -1
	}
	if a.Data || a.DPID != 0 || a.PR != 0 || a.Flip > 0 || a.Cut > 0 || a.Zero || a.Tail > 0 {
		return 0
	}
	ok, foreign := false, false
	for _, r := range a.Recs {
		if uint16(r[0]) == 0 {
			if r[1] != 0 {
				return 0
			}
			ok = true
		} else if r[1] != 0 {
			foreign = true
		}
	}
	if !ok {
		return 0
	}
	if foreign || g.Early {
		return -1
	}
	return 1
}

func (w *World) runS3() {
	w.gone = map[int]chan struct{}{}
	for i := range w.p.Gens {
		w.runGen(nodeGen+i, &w.p.Gens[i])
		time.Sleep(time.Second)
		if len(w.viols) > 0 {
			return
		}
	}
}

// serverName: what the command line calls the server.
func (g *gen) serverName(q *GenPlan) string {
	switch g.r.N(8) {
	case 0:
		return "[::1]:5555"
	case 1, 2:
		q.Host = []string{"localhost", "tracker." + g.word() + ".example", g.word() + "1"}[g.r.N(3)]
		if q.State == "refused" && g.r.P(1, 2) {
			return "no-" + q.Host + ":5555"
		}
		return q.Host + ":5555"
	}
	return genAddr
}

func (w *World) runGen(node int, g *GenPlan) {
	name := fmt.Sprintf("start %d", node-nodeGen+1)
	type conn struct {
		e    *End
		in   []byte
		g    *End // the program's end
		arr  []arrival
		wait []chan struct{}
	}
	var conns []*conn
	h := w.net.host(genAddr)
	h.drop, h.refuse = g.State == "unreach", g.State == "refused"
	if g.Host != "" {
		w.net.addName(HostName{Name: g.Host, Addrs: []string{"home"}}, 5555)
	}
	if g.Heal > 0 {
		time.AfterFunc(us(g.Heal), func() { h.drop = false })
	}
	ended := false
	ansLen := 0
	reset := false
	l := w.net.listenEnv(genAddr, func(e *End) {
		c := &conn{e: e, g: e.peer}
		e.prof, e.peer.prof = g.Down, g.Up
		conns = append(conns, c)
		c.g.onArrive = func(n int) { c.arr = append(c.arr, arrival{time.Now(), c.g.arrived}) }
		w.log("server: connection %d", len(conns))
		take := func() {
			if g.State == "deaf" || e.closed {
				return
			}
			c.in = append(c.in, e.rbuf...)
			e.rbuf = nil
			wake(&e.peer.waitW)
			wake(&c.wait)
		}
		e.onState = take
		go func() {
			var pid, rn uint16
			pid, rn = g.PID, 1
			if !g.Early {
				for {
					take()
					if s, err := parseSent(c.in); err == nil {
						pid = s.pid
						if len(s.rns) > 0 {
							rn = s.rns[0]
						}
						break
					} else if err != errShort {
						return
					}
					if e.rst || e.rfin || ended {
						return
					}
					ch := make(chan struct{})
					c.wait = append(c.wait, ch)
					<-ch
				}
			}
			time.Sleep(us(g.Delay))
			var b []byte
			for i := range g.Ans {
				b = append(b, g.Ans[i].bytes(pid, rn)...)
				if i == 0 {
					ansLen = len(b)
				}
			}
			at := 0
			for _, cut := range append(append([]int(nil), g.Cuts...), len(b)) {
				cut = min(cut, len(b))
				if cut <= at {
					continue
				}
				if at > 0 {
					time.Sleep(us(g.Gap))
				}
				e.write(b[at:cut])
				at = cut
			}
			w.log("server: has sent %d bytes", at)
			if g.End == "" {
				return
			}
			time.Sleep(us(g.EndUs))
			w.f.add("server-" + g.End)
			w.log("server: %s", g.End)
			switch g.End {
			case "close":
				if len(e.rbuf) > 0 {
					reset = true
				}
				e.kclose()
			case "half":
				e.halfClose()
			case "reset":
				reset = true
				e.abort()
			case "black":
				e.c.blackhole()
			}
		}()
	})
	if g.State == "refused" {
		l.closeEnv()
	}
	t0 := time.Now()
	w.process(node, append([]string{"packet-gen"}, g.Args...), pgen.SimMain)
	w.log("%s: %q", name, g.Args)
	late := false
	select {
	case <-w.gone[node]:
	case <-time.After(us(g.Wait) + 20*time.Second):
		late = true
	}
	took := time.Since(t0)
	ended = true
	for _, c := range conns {
		wake(&c.wait)
	}
	w.count["cases"]++
	if late {
		w.viol("C18", "%s: still running %v after the start, its waiting time is %v", name, took, us(g.Wait))
		l.closeEnv()
		w.net.killNode(node)
		return
	}
	code := w.exits[node]
	w.log("%s: exit status %d after %v", name, code, took)
	if took > us(g.Wait)+50*time.Millisecond {
		w.viol("C18", "%s: ends after %v, its waiting time is %v", name, took, us(g.Wait))
	}
	if code == 0 {
		w.count["exit-0"]++
	} else {
		w.count["exit-other"]++
	}
	// what it sent
	time.Sleep(300 * time.Millisecond)
	var in []byte
	for _, c := range conns {
		in = append(in, c.in...)
	}
	l.closeEnv()
	if g.Bad {
		if code == 0 {
			w.viol("C18", "%s: exit status 0 for a command line that gives no packet", name)
		}
		if len(in) > 0 {
			w.viol("C18", "%s: sent %d bytes for a command line that gives no packet", name, len(in))
		}
		return
	}
	if len(conns) > 1 {
		w.viol("C18", "%s: %d connections", name, len(conns))
	}
	s, err := parseSent(in)
	switch {
	case len(conns) == 0:
		if g.State == "" {
			w.viol("C18", "%s: nothing was sent", name)
		}
	case g.State == "deaf":
	case errors.Is(err, errShort) && (g.Early || g.Wait < sec || g.Up.LatMax > 0):
		// it had its answer, or the time ran out, before all was sent
	case err != nil:
		w.viol("C18", "%s: sent no valid packet (%v): %x", name, err, in)
	default:
		w.count["packets"]++
		w.checkSent(name, g, s, in)
	}
	// the exit status
	if len(conns) == 0 {
		if code == 0 {
			w.viol("C18", "%s: exit status 0 without a connection", name)
		}
		return
	}
	c := conns[0]
	var at time.Time
	if ansLen > 0 {
		for _, a := range c.arr {
			if a.n >= ansLen {
				at = a.t
				break
			}
		}
	}
	v := g.verdict()
	if len(g.Ans) > 0 && !g.Ans[0].Soft && at.IsZero() {
		v = 0 // it did not arrive
	}
	d := at.Sub(t0) - us(g.Wait)
	if !at.IsZero() && d > 2*time.Millisecond {
		v = 0
	} else if !at.IsZero() && d > -2*time.Millisecond && v == 1 {
		v = -1
	}
	if reset && v == 1 {
		v = -1
	}
	switch {
	case v == 0 && code == 0:
		w.viol("C18", "%s: exit status 0 although no complete response acknowledges the packet and its record as successful within the waiting time", name)
	case v == 1 && code != 0:
		w.viol("C18", "%s: exit status %d although the packet was acknowledged as successful within the waiting time", name, code)
	}
	if v == 1 {
		w.count["successes"]++
	}
}

func (w *World) checkSent(name string, g *GenPlan, s *sentPkt, in []byte) {
	bad := func(f string, a ...any) {
		w.viol("C18", "%s: "+f+" (packet %x)", append(append([]any{name}, a...), in)...)
	}
	if s.n != len(in) {
		bad("%d bytes after the packet", len(in)-s.n)
	}
	if s.typ != 1 {
		bad("packet type %d", s.typ)
	}
	if s.pid != g.PID {
		bad("packet id %d, given %d", s.pid, g.PID)
	}
	if len(s.oids) == 0 {
		bad("no object id")
	}
	for _, o := range s.oids {
		if o != g.OID {
			bad("object id %d, given %d", o, g.OID)
		}
	}
	if len(s.pos) != 1 {
		bad("%d positions", len(s.pos))
		return
	}
	p := s.pos[0]
	if len(p) < 21 {
		bad("position of %d bytes", len(p))
		return
	}
	if n := int64(binary.LittleEndian.Uint32(p)); n != g.Nav {
		bad("time %v, given %v", time.Unix(1262304000+n, 0).UTC(), time.Unix(1262304000+g.Nav, 0).UTC())
	}
	lat := float64(binary.LittleEndian.Uint32(p[4:])) * 90 / 0xffffffff
	lon := float64(binary.LittleEndian.Uint32(p[8:])) * 180 / 0xffffffff
	if p[12]&0x20 != 0 {
		lat = -lat
	}
	if p[12]&0x40 != 0 {
		lon = -lon
	}
	if math.Abs(lat-g.Lat) > 5e-8 {
		bad("latitude %.9f, given %.9f", lat, g.Lat)
	}
	if math.Abs(lon-g.Lon) > 1e-7 {
		bad("longitude %.9f, given %.9f", lon, g.Lon)
	}
	if len(s.liq) != 1 || len(s.liq[0]) != 7 {
		bad("%d liquid levels", len(s.liq))
		return
	}
	if n := binary.LittleEndian.Uint32(s.liq[0][3:]); n != g.Liq {
		bad("liquid level %d, given %d", n, g.Liq)
	}
}

// ---- plans ---------------------------------------------------------------------------------------

func (g *gen) c18() {
	g.p.Kind = "S3"
	for n := g.more(1, 4); n > 0; n-- {
		g.p.Gens = append(g.p.Gens, g.oneGen())
	}
}

func (g *gen) num(v int64) string {
	if v > 9 && g.r.P(1, 10) {
		return fmt.Sprintf("0x%x", v)
	}
	return strconv.FormatInt(v, 10)
}

func (g *gen) coord(max float64) float64 {
	switch g.r.N(8) {
	case 0:
		return 0
	case 1:
		return max
	case 2:
		return -max
	case 3:
		return float64(g.r.N(int(2*max))) - max
	case 4:
		return (float64(g.r.N(2)) - 0.5) / float64(1+g.r.N(1e6))
	}
	return (float64(g.r.U64()>>11)/(1<<53)*2 - 1) * max
}

func (g *gen) oneGen() GenPlan {
	q := GenPlan{PID: uint16(g.edge(16)), OID: uint32(g.edge(32)), Nav: g.edge(32), Lat: g.coord(90), Lon: g.coord(180), Liq: uint32(g.edge(32)), Wait: 5 * sec}
	if q.PID == 0 {
		q.PID = 1
	}
	if q.OID == 0 {
		q.OID = 1
	}
	zone := time.UTC
	switch g.r.N(4) {
	case 0:
		zone = time.FixedZone("", 3*3600)
	case 1:
		zone = time.FixedZone("", (g.r.N(26)-12)*3600+1800*g.r.N(2))
	}
	ts := time.Unix(1262304000+q.Nav, 0).In(zone).Format(time.RFC3339)
	type arg struct{ k, v string }
	as := []arg{{"pid", g.num(int64(q.PID))}, {"oid", g.num(int64(q.OID))}, {"time", ts}, {"server", g.serverName(&q)}}
	f := func(v float64) string { return strconv.FormatFloat(v, 'f', -1, 64) }
	if q.Lat != 0 || g.r.P(1, 2) {
		as = append(as, arg{"lat", f(q.Lat)})
	}
	if q.Lon != 0 || g.r.P(1, 2) {
		as = append(as, arg{"lon", f(q.Lon)})
	}
	if q.Liq != 0 || g.r.P(1, 2) {
		as = append(as, arg{"liquid", g.num(int64(q.Liq))})
	}
	if g.r.P(1, 2) {
		t := []int64{1, 2, 10, 30, 60}[g.r.N(5)]
		q.Wait = t * sec
		as = append(as, arg{"timeout", g.num(t)})
	}
	if g.r.P(1, 15) {
		// the command line does not make a packet
		q.Bad = true
		switch g.r.N(4) {
		case 0, 1:
			i := g.r.N(3)
			as = append(as[:i], as[i+1:]...)
		case 2:
			as[2].v = []string{"yesterday", "2021-13-40T00:00:00Z", "2021-12-16 09:12:00", "1639646000"}[g.r.N(4)]
		case 3:
			as[g.r.N(2)].v = []string{"abc", "0", "1.5"}[g.r.N(3)]
		}
	}
	for i := len(as) - 1; i > 0; i-- {
		j := g.r.N(i + 1)
		as[i], as[j] = as[j], as[i]
	}
	for _, a := range as {
		d := []string{"-", "--"}[g.r.N(2)]
		if g.r.P(1, 2) {
			q.Args = append(q.Args, d+a.k+"="+a.v)
		} else {
			q.Args = append(q.Args, d+a.k, a.v)
		}
	}
	switch g.r.N(26) {
	case 0:
		q.State = "refused"
	case 1:
		q.State = "unreach"
		if g.r.P(1, 2) {
			q.Heal = int64(g.r.N(int(2 * q.Wait)))
		}
	case 2:
		q.State = "deaf"
	}
	if g.r.P(1, 2) {
		q.Up, q.Down = g.profile(), g.profile()
	}
	if g.r.P(1, 12) {
		q.Early = true
	}
	switch g.r.N(4) {
	case 0:
		q.Delay = int64(g.r.N(int(sec)))
	case 1:
		q.Delay = int64(g.r.N(int(q.Wait + q.Wait/2)))
	}
	for n := []int{1, 1, 1, 2, 3, 0}[g.r.N(6)]; n > 0; n-- {
		q.Ans = append(q.Ans, g.genAns())
	}
	total := 0
	for i := range q.Ans {
		total += len(q.Ans[i].bytes(q.PID, 1))
	}
	if total > 1 && g.r.P(1, 2) {
		q.Cuts = g.cuts(total, 5)
		q.Gap = int64(g.r.N(int(sec)))
		if g.r.P(1, 3) {
			q.Gap = int64(g.r.N(int(q.Wait)))
		}
	}
	switch g.r.N(6) {
	case 0:
		q.End = "close"
	case 1:
		q.End = "half"
	case 2:
		q.End = []string{"reset", "black"}[g.r.N(2)]
	}
	if g.r.P(1, 2) {
		q.EndUs = int64(g.r.N(int(sec)))
	}
	return q
}

func (g *gen) genAns() GenAns {
	a := GenAns{PID: uint16(g.bits(16)), Recs: [][2]int{{0, 0}}, Split: g.r.P(1, 3), Route: g.r.P(1, 4), Prio: uint8(g.r.N(4))}
	st := 1 + g.r.N(255)
	switch g.r.N(4) {
	case 0:
		st = 1
	case 1:
		// the codes the standard defines
		st = []int{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 147, 148, 149, 150, 151, 152, 153, 154}[g.r.N(23)]
	case 2:
		st = 1 << g.r.N(8)
	}
	off := 1 + g.r.N(65535)
	k := g.r.N(26)
	if k > 14 && g.r.P(1, 3) {
		k = g.r.N(9)
	}
	switch k {
	case 0:
		a.PR = uint8(st)
	case 1:
		a.Recs = [][2]int{{0, st}}
	case 2:
		a.DPID = uint16(off)
		if g.r.P(1, 2) {
			a.DPID = []uint16{1, 65535, 256, 65280}[g.r.N(4)]
		}
	case 3:
		a.Recs = nil
	case 4:
		a.Recs = [][2]int{{off, 0}}
		if g.r.P(1, 2) {
			a.Recs[0][0] = []int{1, 65535, 256}[g.r.N(3)]
		}
	case 5:
		a.Recs = [][2]int{{0, 0}, {off, 0}}
		if g.r.P(1, 2) {
			a.Recs[0], a.Recs[1] = a.Recs[1], a.Recs[0]
		}
	case 6:
		a.Recs = [][2]int{{0, 0}, {0, st}}
		if g.r.P(1, 2) {
			a.Recs[0], a.Recs[1] = a.Recs[1], a.Recs[0]
		}
	case 7:
		a.Recs = [][2]int{{0, 0}, {off, st}}
	case 8:
		a.Data = true
	case 9:
		a.Flip = 1 + g.r.N(8*40)
		if a.Route {
			a.Route = false
		}
	case 10:
		a.Cut = 1 + g.r.N(28)
	case 11:
		it := g.malformed()
		a = GenAns{Raw: it.Raw, Soft: true}
	case 12:
		it := g.garbage()
		a = GenAns{Raw: it.Raw, Soft: true}
	case 13:
		// a response whose inside is damaged under right checksums
		p := &Pkt{RPID: uint16(g.bits(16)), Recs: []Rec{{RN: 1, SST: 2, RST: 2, Subs: []Sub{{K: "resp", V: []int64{1, 0}}}}}}
		b := p.body()
		switch g.r.N(3) {
		case 0:
			b = b[:g.r.N(len(b)+1)]
		case 1:
			b[g.r.N(len(b))] = byte(g.edge(8))
		case 2:
			b = append(b, make([]byte, 1+g.r.N(9))...)
		}
		a = GenAns{Raw: hex.EncodeToString(frame(p, b)), Soft: true}
	case 14:
		if a.Zero = g.r.P(1, 2); !a.Zero {
			a.Tail = 1 + g.r.N(6)
		}
	}
	return a
}

var _ = os.Exit
