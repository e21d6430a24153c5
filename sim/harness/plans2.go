package main

import (
	"fmt"
	"net"
	"strings"
)

// Plans for the checks that run the whole receiver program against simulated backends (setup S2).

var kinds = []string{"redis", "nats", "nsq", "rabbitmq", "postgresql", "tarantool_queue"}

// strict: the program needs to reach it when it starts.
func strict(kind string) bool { return kind != "redis" && kind != "nsq" }

func (g *gen) word() string {
	const l = "abcdefghijklmnopqrstuvwxyz"
	n := g.r.In(1, 9)
	b := []byte{l[g.r.N(26)]}
	for len(b) < n {
		b = append(b, (l + "0123456789_")[g.r.N(37)])
	}
	return string(b)
}

// name is a word that may have capitals and some other characters in it.
func (g *gen) name(other string) string {
	if g.r.P(2, 3) {
		return g.word()
	}
	const l = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	var b []byte
	for n := g.r.In(1, 24); len(b) < n; {
		switch {
		case len(b) == 0 || len(b) == n-1 || g.r.P(3, 4):
			b = append(b, l[g.r.N(len(l))])
		case other != "" && g.r.P(1, 2):
			b = append(b, other[g.r.N(len(other))])
		default:
			b = append(b, "0123456789_"[g.r.N(11)])
		}
	}
	return string(b)
}

// secret is a name or password: any printable characters.
func (g *gen) secret() string {
	if g.r.P(1, 2) {
		return g.word()
	}
	if g.r.P(1, 8) {
		return fmt.Sprintf("%0*d", g.r.In(1, 9), g.r.N(1000000))
	}
	const l = "abcXYZ0189 '\"\\@/:#%?&=+-_.,;!$^*()[]{}<>|~`юя"
	rs := []rune(l)
	var b []rune
	for n := g.r.In(1, 16); n > 0; n-- {
		b = append(b, rs[g.r.N(len(rs))])
	}
	return string(b)
}

// section is one storage of the configuration file.
type section struct {
	name   string
	params [][2]string
}

func (s *section) set(k, v string) {
	for i := range s.params {
		if s.params[i][0] == k {
			s.params[i][1] = v
			return
		}
	}
	s.params = append(s.params, [2]string{k, v})
}

func (s *section) del(k string) {
	for i := range s.params {
		if s.params[i][0] == k {
			s.params = append(s.params[:i], s.params[i+1:]...)
			return
		}
	}
}

// backend makes a backend with its section of the configuration.
func (g *gen) backend(kind string) (Backend, *section) {
	b := Backend{Kind: kind, Port: 7000 + 10*len(g.p.Backends) + g.r.N(10)}
	s := &section{name: kind}
	host := g.hostOf(&b)
	at := net.JoinHostPort(host, fmt.Sprint(b.Port))
	switch kind {
	case "redis":
		s.set("server", at)
		b.Dest = g.name(" :-./#'")
		s.set("queue", b.Dest)
		if g.r.P(1, 2) {
			b.Pass = g.secret()
			s.set("password", b.Pass)
		} else if g.r.P(1, 2) {
			s.set("password", "")
		}
		if g.r.P(1, 2) {
			s.set("db", fmt.Sprint(g.r.N(4)))
		}
	case "nats":
		b.Dest = g.name("-:/")
		if g.r.P(1, 3) {
			b.Dest += "." + g.name("-:/")
		}
		servers := "nats://" + at
		if g.r.P(1, 4) {
			// one of several, which are down
			for k := g.r.In(1, 2); k > 0; k-- {
				dead, sep := fmt.Sprintf("nats://127.0.0.1:%d", 6990+k), []string{", ", ","}[g.r.N(2)]
				if g.r.P(1, 2) {
					servers = dead + sep + servers
				} else {
					servers += sep + dead
				}
			}
		}
		s.set("servers", servers)
		s.set("topic", b.Dest)
		if g.r.P(1, 2) {
			b.User, b.Pass = g.secret(), g.word()
			s.set("user", b.User)
			s.set("password", b.Pass)
		}
	case "nsq":
		b.Dest = g.name("-.")
		if g.r.P(1, 3) {
			b.Dest += "." + g.word()
		}
		s.set("server", at)
		s.set("topic", b.Dest)
	case "rabbitmq":
		b.User, b.Pass = g.secret(), g.word()
		if g.p.Check != "C12" && g.r.P(1, 4) {
			b.Chans = []int{-1, 1, 2, g.r.In(3, 9)}[g.r.N(4)]
		}
		ex, key := g.name("-.:"), ""
		if g.r.P(1, 2) {
			key = g.name("-.:/ #")
		}
		b.Dest = ex + "/" + key
		s.set("host", host)
		s.set("port", fmt.Sprint(b.Port))
		s.set("user", b.User)
		s.set("password", b.Pass)
		s.set("exchange", ex)
		if key != "" {
			s.set("key", key)
		}
	case "postgresql":
		b.User, b.Pass, b.Dest = g.secret(), g.secret(), g.word()
		s.set("host", host)
		s.set("port", fmt.Sprint(b.Port))
		s.set("user", b.User)
		if g.r.P(1, 5) {
			b.Pass = ""
		}
		if b.Pass != "" || g.r.P(1, 2) {
			s.set("password", b.Pass)
		}
		b.DB = g.secret()
		s.set("database", b.DB)
		table := g.name("")
		if g.r.P(1, 5) {
			table = []string{"public", "Public", g.word()}[g.r.N(3)] + "." + table
		}
		b.Dest = pgName(table)
		s.set("table", table)
		s.set("sslmode", "disable")
	case "tarantool_queue":
		b.User, b.Pass, b.Dest = g.secret(), g.secret(), g.name("")
		s.set("host", host)
		s.set("port", fmt.Sprint(b.Port))
		s.set("user", b.User)
		s.set("password", b.Pass)
		s.set("max_recons", "0")
		if c := g.p.Check; (c == "C15" || c == "C12" || c == "C17") && g.r.P(1, 3) {
			s.set("max_recons", fmt.Sprint(g.r.In(1, 5)))
		}
		s.set("timeout", fmt.Sprint(g.r.In(1, 5)))
		s.set("reconnect", fmt.Sprint(g.r.In(1, 3)))
		s.set("queue", b.Dest)
	default:
		panic(kind)
	}
	return b, s
}

// hostOf: what the configuration calls the backend's host.
func (g *gen) hostOf(b *Backend) string {
	if g.r.P(3, 5) {
		return "127.0.0.1"
	}
	if g.r.P(1, 8) {
		return "::1"
	}
	n := "localhost"
	if len(g.p.Backends) > 0 || g.r.P(2, 3) {
		n = fmt.Sprintf("%s%d", g.word(), len(g.p.Backends))
		if g.r.P(1, 3) {
			n += "." + g.word() + ".example"
		}
	}
	h := &HostName{Name: n, Addrs: []string{"home"}, LatUs: int64(g.r.N(5000))}
	switch g.r.N(4) {
	case 0:
		h.Addrs = []string{"::1", "home"}
	case 1:
		h.Addrs = [][]string{{"fd00::7", "home"}, {"2001:db8::7", "home"}, {"10.8.0.1", "home"}, {"home", "10.8.0.1"}, {"home", "::1"}}[g.r.N(5)]
	}
	if b.Kind == "tarantool_queue" && len(h.Addrs) > 1 {
		// go-tarantool gives all addresses together half a second
		h.Addrs = [][]string{{"fd00::7", "home"}, {"home", "::1"}}[g.r.N(2)]
	}
	b.Host = h
	return n
}

// config writes the configuration file.
func (g *gen) config(host, port string, ttl int, level string, ss []*section) string {
	var b strings.Builder
	top := []string{fmt.Sprintf("port: %q\n", port)}
	if host != "" || g.r.P(1, 2) {
		top = append(top, fmt.Sprintf("host: %q\n", host))
	}
	if ttl != 0 || g.r.P(1, 2) {
		top = append(top, fmt.Sprintf("conn_ttl: %d\n", ttl))
	}
	if level != "" {
		top = append(top, fmt.Sprintf("log_level: %q\n", level))
	}
	for i := len(top) - 1; i > 0; i-- {
		j := g.r.N(i + 1)
		top[i], top[j] = top[j], top[i]
	}
	for _, t := range top {
		b.WriteString(t)
	}
	if g.r.P(1, 10) {
		fmt.Fprintf(&b, "# %s\n", g.secret())
	}
	b.WriteString("\nstorage:\n")
	for _, s := range ss {
		fmt.Fprintf(&b, "  %s:\n", s.name)
		for _, p := range s.params {
			v := g.scalar(p[1])
			fmt.Fprintf(&b, "    %s: %s\n", p[0], v)
		}
	}
	return b.String()
}

// scalar writes a string as one of the spellings YAML has for it.
func (g *gen) scalar(s string) string {
	plain := s != "" && !(s[0] >= '0' && s[0] <= '9' && strings.Trim(s, "0123456789") != "")
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_') {
			plain = false
		}
	}
	switch strings.ToLower(s) {
	case "null", "y", "n", "yes", "no", "on", "off", "true", "false":
		plain = false
	}
	v := fmt.Sprintf("%q", s)
	switch g.r.N(3) {
	case 0:
		if plain {
			v = s
		}
	case 1:
		v = "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	if g.r.P(1, 20) {
		v += " # " + g.word()
	}
	return v
}

// backends picks n different kinds, each with its section.
func (g *gen) backends(n int) []*section {
	ks := append([]string(nil), kinds...)
	var ss []*section
	for ; n > 0; n-- {
		i := g.r.N(len(ks))
		k := ks[i]
		ks = append(ks[:i], ks[i+1:]...)
		b, s := g.backend(k)
		g.p.Backends = append(g.p.Backends, b)
		ss = append(ss, s)
	}
	return ss
}

// plainConfig: the receiver where the other checks have it.
func (g *gen) plainConfig(ss []*section) {
	ttl := 0
	if g.r.P(1, 2) {
		ttl = g.r.In(900, 5000)
	}
	g.p.TTLus = int64(ttl) * sec
	g.p.Cfg = g.config("127.0.0.1", "6000", ttl, g.level(), ss)
}

func (g *gen) level() string {
	l := []string{"DEBUG", "INFO", "WARN", "ERROR", "", "TRACE"}[g.r.N(6)]
	g.p.QuietLog = l == "WARN" || l == "ERROR"
	return l
}

func (g *gen) brokerNet(gentle bool) {
	switch g.r.N(5) {
	case 0:
	case 1:
		g.p.Net = Profile{LatMin: 50, LatMax: 2000}
	case 2:
		g.p.Net = Profile{LatMin: 1000, LatMax: 20000, Short: 1}
	case 3:
		g.p.Net = Profile{LatMax: 500, Seg: 60, SegMin: 1, Short: 1}
	case 4:
		g.p.Net = Profile{LatMax: 3000, Seg: 1460, SegMin: 500}
		if !gentle {
			g.p.Net.LatMax = 150000
		}
	}
}

// termNet is the terminals' side: not as rough as in the checks of the packet stream.
func (g *gen) termNet(c *Conn) {
	for _, p := range []*Profile{&c.Up, &c.Down} {
		if p.Seg == 1 {
			p.Seg = 40
		}
	}
}

// traffic is a connection of n packets with different numbers that waits for all its answers.
func (g *gen) traffic(class string, n int, gap int64) *Conn {
	c := g.newConn(class)
	g.termNet(c)
	used := map[uint16]bool{}
	for i := 0; i < n; i++ {
		o := pktOpts{noPos: g.r.P(1, 8), plain: g.r.P(1, 2)}
		if g.r.P(1, 60) {
			o = pktOpts{size: g.r.In(3000, 65000)}
		}
		p := g.fresh(used, o)
		c.send(Item{K: "V", Pkt: p}, g.sendOp(len(p.encode())))
		switch {
		case g.r.P(1, 12):
			c.Ops = append(c.Ops, Op{K: "send", I: len(c.Items) - 1})
		case g.r.P(1, 12):
			c.send(Item{K: "R", Pkt: g.response()}, Op{})
		}
		switch g.r.N(4) {
		case 0:
		case 1:
			c.op("sleep", int64(g.r.N(int(gap+1))))
		case 2:
			c.op("sleep", int64(g.r.N(3000)))
		case 3:
			c.Ops = append(c.Ops, Op{K: "wait", I: c.answersDue(), Us: gap + 1*sec})
		}
	}
	return c
}

// fresh makes a packet whose number has not been used.
func (g *gen) fresh(used map[uint16]bool, o pktOpts) *Pkt {
	p := g.packet(o)
	for used[p.PID] {
		p.PID = uint16(g.r.N(65536))
	}
	used[p.PID] = true
	return p
}

func (g *gen) finish2(c *Conn) {
	c.Ops = append(c.Ops, Op{K: "wait", I: c.answersDue(), Us: 900 * sec})
	switch g.r.N(3) {
	case 0:
		c.op("close", 0)
	case 1:
		c.op("half", 0)
		c.op("awaitclose", 20*sec)
	}
}

// window of a fault in the first `span` of the run.
func (g *gen) window(f *BFault, span, long int64) {
	f.From = int64(g.r.N(int(span)))
	if g.r.P(1, 5) {
		f.From = int64(g.r.N(int(sec)))
	}
	var d int64
	switch g.r.N(4) {
	case 0:
		d = int64(g.r.N(int(sec)))
	case 1:
		d = int64(g.r.N(int(5 * sec)))
	case 2:
		d = int64(g.r.N(int(30 * sec)))
	case 3:
		d = int64(g.r.N(int(long)))
	}
	f.To = f.From + d + 1
}

// bfaults gives a backend between lo and hi faults; returns when the last is over.
func (g *gen) bfaults(b *Backend, lo, hi int, span, long int64, quiet bool) int64 {
	var end int64
	var busy [][2]int64
	for n := g.r.In(lo, hi); n > 0; n-- {
		f := BFault{Rst: g.r.P(1, 2)}
		ks := []string{"down", "power", "part", "stall", "down", "err", "lost", "drop", "slow", "cutrecv", "cutsend", "cutmsg", "err", "noauth"}
		if quiet {
			ks = []string{"down", "power", "part", "stall", "lost", "drop", "slow", "err", "noauth"}
		}
		f.K = ks[g.r.N(len(ks))]
		g.window(&f, span, long)
		switch f.K {
		case "down", "power", "part", "noauth":
			// one of these at a time
			for again := true; again; {
				again = false
				for _, w := range busy {
					if f.From <= w[1] && w[0] <= f.To {
						d := f.To - f.From
						f.From = w[1] + 1 + int64(g.r.N(int(2*sec)))
						f.To = f.From + d
						again = true
					}
				}
			}
			busy = append(busy, [2]int64{f.From, f.To})
			if b.Host != nil && f.K != "noauth" {
				// a container that is gone for a while: no name, and another address afterwards
				if g.r.P(1, 2) {
					f.Dns = []string{"gone", "servfail", "timeout"}[g.r.N(3)]
				}
				f.Move = g.r.P(1, 3)
			}
			// and when it is back, the first connections do not last
			if !quiet && g.r.P(1, 4) {
				for k := g.r.In(1, 2); k > 0; k-- {
					c := BFault{K: []string{"cutrecv", "cutsend", "cutmsg", "cutmsg"}[g.r.N(4)], From: f.To, To: f.To + int64(g.r.In(5, 30))*sec, C: g.r.N(3), N: g.r.N(1200), Rst: g.r.P(1, 2)}
					if c.K == "cutmsg" {
						c.N = g.r.In(1, 8)
					} else if g.r.P(1, 2) {
						c.N = g.r.N(400)
					}
					b.Faults = append(b.Faults, c)
					end = max(end, c.To)
				}
			}
		case "err", "lost", "drop":
			f.N = []int{16, 16, 8, 3, 1}[g.r.N(5)]
		case "cutmsg":
			f.To = max(f.To, f.From+int64(g.r.In(5, 30))*sec)
			f.C = g.r.N(3)
			f.N = g.r.In(1, 12)
		case "cutrecv", "cutsend":
			f.To = max(f.To, f.From+int64(g.r.In(5, 30))*sec)
			f.C = g.r.N(3)
			if g.r.P(1, 2) {
				f.C = 0
			}
			f.N = g.r.N(2500)
			if g.r.P(1, 2) {
				f.N = g.r.N(120)
			}
		}
		if f.To > end {
			end = f.To
		}
		b.Faults = append(b.Faults, f)
	}
	return end
}

func (g *gen) whole(check string) bool {
	switch check {
	case "C15":
		g.c15()
	case "C16":
		g.c16()
	case "C17":
		g.c17()
	case "C18":
		g.c18()
	case "C19":
		g.c19()
	case "C20":
		g.c20()
	default:
		return false
	}
	return true
}

func (g *gen) c15() {
	g.p.Kind = "S2"
	ss := g.backends([]int{1, 1, 1, 2, 3}[g.r.N(5)])
	g.plainConfig(ss)
	g.brokerNet(false)
	for n := g.more(1, 4); n > 0; n-- {
		c := g.traffic("", g.more(1, 7), 6*sec)
		g.start(c, 20*sec)
		g.finish2(c)
	}
	for i := range g.p.Backends {
		b := &g.p.Backends[i]
		if g.r.P(1, 3) {
			b.MaxDelay = int64(g.r.N(3000000))
		} else if g.r.P(1, 2) {
			b.MaxDelay = int64(g.r.N(20000))
		}
		if i == 0 || g.r.P(1, 3) {
			g.bfaults(b, 1, 4, 25*sec, 200*sec, false)
		}
	}
	if g.r.P(1, 10) {
		g.flapping(&g.p.Backends[0])
	}
	if g.r.P(1, 10) {
		g.nofile(25 * sec)
	}
	if g.r.P(1, 6) {
		// the receiver dies at some point: whatever it acknowledged stays
		ev := Event{Down: int64(g.r.N(int(20 * sec)))}
		if g.r.P(1, 2) {
			ev.At = int64(g.r.N(int(20 * sec)))
		} else {
			ev.Step = int64(1 + g.r.N(30000))
		}
		g.p.Events = append(g.p.Events, ev)
		g.calmStart()
	}
	g.p.Horizon = 1500 * sec
}

// calmStart: with restarts of the receiver, backends it needs at start do not cut connections.
func (g *gen) calmStart() {
	for i := range g.p.Backends {
		b := &g.p.Backends[i]
		var fs []BFault
		for _, f := range b.Faults {
			if strict(b.Kind) && (strings.HasPrefix(f.K, "cut")) {
				continue
			}
			fs = append(fs, f)
		}
		b.Faults = fs
	}
}

func (g *gen) c16() {
	g.p.Kind = "S2"
	ss := g.backends([]int{1, 1, 1, 2}[g.r.N(4)])
	g.plainConfig(ss)
	g.brokerNet(true)
	for n := g.r.In(0, 3); n > 0; n-- {
		c := g.traffic("", g.more(1, 6), 8*sec)
		g.start(c, 15*sec)
		g.finish2(c)
	}
	var end int64
	long := []int64{60 * sec, 600 * sec, 1800 * sec}[g.r.N(3)]
	if g.r.P(1, 25) {
		long = 4 * 3600 * sec
	}
	for i := range g.p.Backends {
		b := &g.p.Backends[i]
		if g.r.P(1, 3) {
			b.MaxDelay = int64(g.r.N(20000))
		}
		if i == 0 || g.r.P(1, 2) {
			end = max(end, g.bfaults(b, 1, 3, 20*sec, long, false))
		}
	}
	// some more traffic inside the long outage
	if end > 60*sec {
		for n := g.r.In(0, 3); n > 0; n-- {
			c := g.traffic("", g.more(1, 4), 30*sec)
			c.Start = int64(g.r.N(int(end)))
			g.finish2(c)
		}
	}
	// a backend that refuses everything for a while, and much traffic meanwhile
	if g.r.P(1, 6) {
		b := &g.p.Backends[0]
		f := BFault{K: []string{"err", "err", "err", "drop", "slow", "slow"}[g.r.N(6)], N: 16, From: int64(g.r.N(int(5 * sec)))}
		f.To = f.From + int64(g.r.In(10, 90))*sec
		if f.K == "slow" {
			// every answer comes too late
			f.To = f.From + int64(g.r.In(150, 900))*sec
		}
		b.Faults = append(b.Faults, f)
		end = max(end, f.To)
		for n := g.r.In(1, 4); n > 0; n-- {
			c := g.newConn("")
			g.termNet(c)
			c.Start = f.From
			used := map[uint16]bool{}
			for k := g.r.In(10, 60); k > 0; k-- {
				c.send(Item{K: "V", Pkt: g.fresh(used, pktOpts{plain: true})}, Op{})
				c.op("sleep", int64(g.r.N(int(f.To-f.From)/60)))
			}
			g.finish2(c)
		}
	}
	if g.r.P(1, 6) {
		end = max(end, g.flapping(&g.p.Backends[0]))
	}
	if g.r.P(1, 6) {
		end = max(end, g.nofile(max(end, 20*sec)))
	}
	if b := &g.p.Backends[0]; g.r.P(1, 8) || b.Kind == "nsq" && g.r.P(1, 4) {
		end = max(end, g.stoppedEarly(b))
	}
	// terminals that come when all is over and send again what is refused
	for n := g.r.In(1, 3); n > 0; n-- {
		t := g.keeper(g.r.In(1, 3), 2*sec)
		t.Start = end + int64(g.r.N(int(20*sec)))
		if g.r.P(1, 3) {
			// one that has been trying for some time
			t.Start = max(0, end-int64(g.r.N(int(200*sec))))
		} else if g.r.P(1, 4) {
			t.Start += int64(g.r.N(int(900 * sec)))
		}
		g.p.Terms = append(g.p.Terms, t)
	}
	g.p.Limit = 180 * sec
	g.p.Horizon = end + 3600*sec
}

// stoppedEarly stops a backend while the receiver's connection to it is being set up.
func (g *gen) stoppedEarly(b *Backend) int64 {
	from := 300000 + int64(g.r.N(int(6*sec)))
	to := from + int64(g.r.In(5, 100))*sec
	if g.r.P(1, 3) {
		// after it has been away
		d := int64(g.r.N(int(5 * sec)))
		b.Faults = append(b.Faults, BFault{K: []string{"down", "power"}[g.r.N(2)], From: from, To: from + d, Rst: g.r.P(1, 2)})
		from += d + int64(g.r.N(20000))
		to += d
	}
	f := BFault{K: "stall", From: from, To: to}
	if g.r.P(2, 3) {
		f.K, f.N = "freeze", g.r.N(60)
		if g.r.P(1, 2) {
			f.N = g.r.N(1500)
		}
		if g.r.P(1, 3) {
			f.C = g.r.N(3)
		}
		if from < 2*sec && g.r.P(1, 2) {
			f.From = 0
		}
	}
	b.Faults = append(b.Faults, f)
	for n := g.r.In(1, 2); n > 0; n-- {
		c := g.newConn("")
		g.termNet(c)
		c.Start = max(0, from-int64(g.r.N(int(sec))))
		if g.r.P(1, 2) {
			c.Start = from + int64(g.r.N(int(10*sec)))
		}
		used := map[uint16]bool{}
		for k := g.r.In(1, 6); k > 0; k-- {
			c.send(Item{K: "V", Pkt: g.fresh(used, pktOpts{plain: true})}, Op{})
			c.op("sleep", int64(g.r.N(int(20*sec))))
		}
		g.finish2(c)
	}
	return to
}

// flapping: a backend that breaks every connection as soon as it is used, so that the clients lose the next while
// they are still repairing the last, and many terminals at a time; returns when it is over.
func (g *gen) flapping(b *Backend) (end int64) {
	from := int64(g.r.N(int(5 * sec)))
	at := from
	for n := g.r.In(1, 3); n > 0; n-- {
		f := BFault{K: "drop", N: []int{16, 8, 3}[g.r.N(3)], From: at, To: at + int64(g.r.In(2, 40))*sec, Rst: g.r.P(1, 2)}
		b.Faults = append(b.Faults, f)
		at = f.To + int64(g.r.N(int(5*sec)))
		end = max(end, f.To)
	}
	// ... or in the middle of what had to wait
	big := g.r.P(1, 2)
	if big {
		for k := g.r.In(1, 3); k > 0; k-- {
			f := BFault{K: "cutrecv", From: from, To: at + int64(g.r.In(5, 30))*sec, C: g.r.N(4), N: g.r.N(200000), Rst: g.r.P(2, 3)}
			b.Faults = append(b.Faults, f)
			end = max(end, f.To)
		}
	}
	for n := g.r.In(3, 10); n > 0; n-- {
		c := g.newConn("")
		g.termNet(c)
		c.Start = from
		used := map[uint16]bool{}
		for k := g.r.In(3, 12); k > 0; k-- {
			o := pktOpts{plain: true}
			if big && g.r.P(1, 3) {
				o.size = g.r.In(3000, 30000)
			}
			c.send(Item{K: "V", Pkt: g.fresh(used, o)}, Op{})
			c.op("sleep", int64(g.r.N(int(max(end-from, 10*sec))/8)))
		}
		g.finish2(c)
	}
	return end
}

// nofile: for a while the receiver can open nothing.
func (g *gen) nofile(span int64) int64 {
	at := int64(g.r.N(int(span)))
	to := at + int64(g.r.N(int([]int64{sec, 5 * sec, 20 * sec}[g.r.N(3)]))) + 1
	g.p.NoFile = append(g.p.NoFile, [2]int64{at, to})
	return to
}

// keeper is a terminal that keeps k packets until they are acknowledged.
func (g *gen) keeper(k int, gap int64) *Term {
	t := &Term{ID: len(g.p.Terms) + 1, Up: g.profile(), Down: g.profile(), Window: g.r.In(1, 4),
		Ack: int64(g.r.In(15, 40)) * sec, Back: int64(g.r.In(1, 5)) * sec}
	for _, p := range []*Profile{&t.Up, &t.Down} {
		if p.Seg == 1 {
			p.Seg = 40
		}
	}
	used := map[uint16]bool{}
	for ; k > 0; k-- {
		p := g.fresh(used, pktOpts{noPos: g.r.P(1, 12), plain: g.r.P(1, 2)})
		t.Pkts = append(t.Pkts, p)
		t.Gaps = append(t.Gaps, int64(g.r.N(int(gap)))*int64(g.r.N(2)))
	}
	return t
}

func (g *gen) c17() {
	g.p.Kind = "S2"
	n := []int{0, 1, 1, 2, 2, 3, 4, 6}[g.r.N(8)]
	ss := g.backends(n)
	for i := range g.p.Backends {
		b, s := &g.p.Backends[i], ss[i]
		if g.r.P(1, 2) {
			continue
		}
		b.Inactive = true
		switch {
		case b.Kind == "redis" && g.r.P(1, 2):
			switch g.r.N(3) {
			case 0:
				s.del("server")
			case 1:
				s.del("queue")
			case 2:
				s.set("db", g.word())
			}
		case b.Kind == "tarantool_queue" && g.r.P(1, 2):
			k := []string{"max_recons", "timeout", "reconnect"}[g.r.N(3)]
			if g.r.P(1, 2) {
				s.del(k)
			} else {
				s.set(k, g.word())
			}
		case b.Pass != "" && g.r.P(1, 3):
			s.set("password", b.Pass+"x")
			b.Broken = !strict(b.Kind)
		default:
			b.State = []string{"refused", "refused", "unreach"}[g.r.N(3)]
			if b.Host != nil && g.r.P(1, 2) {
				b.State = "noname"
			}
			b.Broken = !strict(b.Kind)
		}
	}
	// names nobody knows
	for k := g.r.N(3); k > 0; k-- {
		s := &section{name: g.word() + "x" + fmt.Sprint(k)}
		s.set("host", "127.0.0.1")
		at := g.r.N(len(ss) + 1)
		ss = append(ss[:at], append([]*section{s}, ss[at:]...)...)
	}
	for i := len(ss) - 1; i > 0; i-- {
		j := g.r.N(i + 1)
		ss[i], ss[j] = ss[j], ss[i]
	}
	ttl := g.r.In(6, 60)
	if g.r.P(1, 6) {
		ttl = 0
	} else if g.r.P(1, 6) {
		ttl = g.r.In(100, 2000)
	} else if g.r.P(1, 8) {
		ttl = g.r.In(3000, 30000)
	} else if g.r.P(1, 12) {
		// weeks to years
		ttl = []int{2147484, 3000000, 4294968 + g.r.N(60), 31536000}[g.r.N(4)]
	}
	host := []string{"127.0.0.1", "0.0.0.0", "", fmt.Sprintf("127.%d.%d.%d", g.r.N(256), g.r.N(256), 1+g.r.N(250))}[g.r.N(4)]
	port := 1024 + g.r.N(5000)
	g.p.Addr = fmt.Sprintf("%s:%d", host, port)
	if g.r.P(1, 8) {
		host = []string{"::1", "::", "fd00::5", "[::1]", "[::]"}[g.r.N(5)]
		g.p.Addr = net.JoinHostPort(strings.Trim(host, "[]"), fmt.Sprint(port))
	}
	g.p.TTLus = int64(ttl) * sec
	g.p.Cfg = g.config(host, fmt.Sprint(port), ttl, g.level(), ss)
	g.brokerNet(true)
	for k := g.r.In(1, 3); k > 0; k-- {
		c := g.traffic("", g.r.In(1, 4), sec)
		g.start(c, 3*sec)
		g.finish2(c)
	}
	quiet := int64(0)
	if g.r.P(2, 3) {
		c := g.newConn("silent")
		g.termNet(c)
		c.Start = int64(g.r.N(int(2 * sec)))
		used := map[uint16]bool{}
		for k := g.r.N(3); k > 0; k-- {
			p := g.fresh(used, pktOpts{plain: true})
			c.send(Item{K: "V", Pkt: p}, Op{})
			if ttl > 0 {
				c.op("sleep", int64(g.r.N(min(ttl, 6000)*600000)))
			}
		}
		if g.r.P(1, 3) {
			p := g.packet(pktOpts{plain: true})
			c.send(Item{K: "T", Pkt: p, Cut: 1 + g.r.N(len(p.encode())-1)}, Op{})
		}
		wait := max(int64(ttl)*3*sec, 300*sec)
		if ttl == 0 && g.r.P(1, 2) {
			wait = int64([]int{5000, 20000, 100000, 300000}[g.r.N(4)]) * sec
			quiet = wait
		}
		if ttl > 100000 {
			wait = 1000 * sec // long enough to see that it is not closed too early
		}
		c.op("awaitclose", wait)
		c.op("close", 0)
	}
	g.p.Horizon = max(7200, 4*min(int64(ttl), 30000))*sec + 2*quiet
}

func (g *gen) c20() {
	g.p.Kind = "S2"
	ss := g.backends([]int{1, 1, 2, 3, 6}[g.r.N(5)])
	g.plainConfig(ss)
	faults := g.r.P(1, 3)
	g.brokerNet(true)
	for n := g.more(2, 8); n > 0; n-- {
		c := g.traffic("", g.more(1, 6), 2*sec)
		if g.r.P(1, 2) {
			c.Up, c.Down = Profile{}, Profile{}
		} else {
			g.start(c, sec)
		}
		g.finish2(c)
	}
	for i := range g.p.Backends {
		b := &g.p.Backends[i]
		if g.r.P(1, 2) {
			b.MaxDelay = int64(g.r.N(20000))
		}
		if faults && (i == 0 || g.r.P(1, 2)) {
			g.bfaults(b, 1, 2, 10*sec, 60*sec, false)
		}
	}
	g.p.Horizon = 1500 * sec
}

// c12whole: many terminals at a time whose records go to a backend that is far away, or that keeps some
// of the records slowly.
func (g *gen) c12whole() {
	g.p.Kind = "S2"
	ss := g.backends(1)
	g.plainConfig(ss)
	b := &g.p.Backends[0]
	far := g.r.P(1, 2)
	slow := !far && b.Kind != "nats" && b.Kind != "nsq"
	n := g.r.In(2, 6)
	if far {
		l := g.r.In(50, 150) * 1000
		g.p.Net = Profile{LatMin: l, LatMax: l}
		n = g.r.In(50, 100)
	}
	// ten packets are stored one after another at most: the size of the smallest pool of connections
	g.p.Own = 3*sec + int64(60*g.p.Net.LatMax)
	if slow {
		b.SlowUs = int64(g.r.In(5, 40)) * sec
		if b.Kind == "rabbitmq" {
			b.SlowUs = int64(g.r.In(5, 9)) * sec
		}
		for k := g.r.In(1, 5); k > 0; k-- {
			c := g.newConn("slow")
			c.Up, c.Down = Profile{LatMax: 500}, Profile{LatMax: 500}
			c.Start = int64(g.r.N(int(3 * sec)))
			p := g.packet(pktOpts{plain: true})
			b.SlowKeys = append(b.SlowKeys, p.model().Nav)
			c.send(Item{K: "V", Pkt: p}, Op{})
			c.op("sleep", 100*sec)
		}
	}
	for ; n > 0; n-- {
		c := g.newConn("fast")
		c.Up, c.Down = Profile{LatMax: 500}, Profile{LatMax: 500}
		c.Start = int64(g.r.N(int(2 * sec)))
		if far {
			c.Start = int64(g.r.N(int(100 * 1000)))
		}
		k := g.r.In(1, 3)
		if slow {
			k = g.r.In(2, 8)
		}
		used := map[uint16]bool{}
		for ; k > 0; k-- {
			p := g.packet(pktOpts{plain: true, noPos: g.r.P(1, 12)})
			for used[p.PID] {
				p.PID = uint16(g.r.N(65536))
			}
			used[p.PID] = true
			c.send(Item{K: "V", Pkt: p}, Op{})
			if slow {
				c.op("sleep", int64(g.r.N(int(4*sec))))
			}
		}
		g.finish2(c)
	}
	g.p.Horizon = 1500 * sec
}

func (g *gen) c19() {
	g.p.Kind = "S2"
	ss := g.backends([]int{1, 1, 1, 2}[g.r.N(4)])
	g.plainConfig(ss)
	g.brokerNet(true)
	var end int64
	faulty := g.r.P(2, 3)
	for i := range g.p.Backends {
		b := &g.p.Backends[i]
		if g.r.P(1, 3) {
			b.MaxDelay = int64(g.r.N(200000))
		}
		if faulty && (i == 0 || g.r.P(1, 2)) {
			end = max(end, g.bfaults(b, 1, 2, 40*sec, 200*sec, true))
		}
	}
	for n := g.r.N(4); n > 0; n-- {
		ev := Event{Down: int64(g.r.N(int(15 * sec)))}
		if g.r.P(1, 2) {
			ev.At = int64(g.r.N(int(30 * sec)))
		} else {
			ev.Step = int64(1 + g.r.N(40000))
		}
		g.p.Events = append(g.p.Events, ev)
	}
	if faulty && len(g.p.Events) == 0 && g.r.P(1, 4) {
		end = max(end, g.flapping(&g.p.Backends[0]))
	}
	if faulty && g.r.P(1, 5) {
		end = max(end, g.nofile(40*sec))
	}
	span := 40 * sec
	for n := g.more(1, 4); n > 0; n-- {
		t := g.keeper(g.more(1, 8), 8*sec)
		t.Start = int64(g.r.N(int(10 * sec)))
		for k := g.r.N(4); k > 0; k-- {
			f := TFault{At: int64(g.r.N(int(span))), K: []string{"reset", "close", "black", "stallup", "stalldown", "half"}[g.r.N(6)], Us: int64(g.r.N(int(20 * sec)))}
			t.Faults = append(t.Faults, f)
			end = max(end, f.At+f.Us)
		}
		g.p.Terms = append(g.p.Terms, t)
	}
	g.p.Limit = 900 * sec
	g.p.Horizon = end + 2*g.p.Limit + 600*sec
}
