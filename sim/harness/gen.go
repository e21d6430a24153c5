package main

import (
	"encoding/hex"
	"slices"
	"time"
)

// Generation of plans. Everything is a function of the seed and the name of the check.

type gen struct {
	r    *Rng
	nav  int64
	hi   int64 // set in navigation times of packets that will be mutilated
	p    *Plan
	pids uint16
	oid  uint32
	tier string

	used    map[int64]bool // parts of the range of navigation times in use
	ends    map[int64]bool
	oidMode int    // 0 an object per packet, 1 per connection, 2 one for all
	curOID  uint32 // of the connection
	last    *Sub   // the position before
	imeis   []string
}

func newGen(check string, seed uint64) *gen {
	h := uint64(0)
	for _, c := range check {
		h = h*131 + uint64(c)
	}
	g := &gen{r: newRng(seed, h, 99)}
	g.nav = int64(g.r.In(1<<20, 300000000))
	g.used = map[int64]bool{0: true, 2047: true, g.nav >> 20: true, g.nav>>20 + 1: true}
	g.ends = map[int64]bool{}
	g.oidMode = g.r.N(3)
	g.p = &Plan{Check: check, Seed: seed}
	// start somewhere between 2020 and 2037, at any fraction of a second
	g.p.Start = (1577836800+int64(g.r.N(500000000)))*1e9 + int64(g.r.N(1e9))
	switch g.r.N(4) {
	case 0:
		g.p.Zone = 3 * 3600
	case 1:
		g.p.Zone = -g.r.N(12) * 3600
	case 2:
		g.p.Zone = g.r.N(14)*3600 + 1800
	}
	g.p.Debug = g.r.P(1, 4)
	g.sched()
	g.curOID = g.newOID()
	return g
}

// jump goes on with navigation times of another part of their range: earlier or later ones, the far
// past, the future, the present. No navigation time is used for two packets of a plan.
func (g *gen) jump() {
	nav := int64(g.r.N(4096))<<20 + int64(g.r.N(1<<19))
	if g.r.P(1, 4) {
		nav = g.p.Start/1e9 - epoch2010 - int64(g.r.N(100))
	}
	s := nav >> 20 & 2047
	for _, k := range []int64{s, s + 1} {
		if g.used[k] {
			return
		}
	}
	g.used[s], g.used[s+1] = true, true
	g.nav = nav
}

func (g *gen) sched() {
	s := &g.p.Sched
	s.Seed = g.r.U64() >> 1
	switch g.r.N(8) {
	case 0:
		s.Policy = 1
	case 1, 2, 3:
		s.Policy, s.Preempt = 1, []int{3, 10, 40, 200, 1000}[g.r.N(5)]
	case 4:
		s.Policy, s.Preempt = 2, []int{10, 100, 1000}[g.r.N(3)]
	case 5:
		s.Policy, s.Preempt = 3, []int{5, 30, 300}[g.r.N(3)]
	default:
		s.Policy, s.Preempt = 4, []int{5, 20, 100, 500}[g.r.N(4)]
	}
}

func u32(v uint32) *uint32 { return &v }

func (g *gen) newOID() uint32 {
	g.oid++
	switch g.r.N(12) {
	case 0:
		return 0xffffffff - g.oid
	case 1:
		return uint32(g.r.U64())
	case 2:
		// the ends of the range
		return []uint32{0, 1, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}[g.r.N(10)]
	}
	return 100000 + g.oid
}

func (g *gen) bits(n int) int64 { return int64(g.r.U64() & (1<<n - 1)) }

// edge prefers values at the ends of the range
func (g *gen) edge(n int) int64 {
	switch g.r.N(8) {
	case 0:
		return 0
	case 1:
		return 1<<n - 1
	case 2:
		return 1
	case 3:
		return 1 << (n - 1)
	case 4:
		return int64(g.r.N(256)) << (n - 8)
	}
	return g.bits(n)
}

func (g *gen) pos() Sub {
	g.nav++
	nav := g.nav ^ g.hi
	if g.hi == 0 && g.r.P(1, 150) {
		// the first and the last times there are
		if e := []int64{0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}[g.r.N(6)]; !g.ends[e] {
			g.ends[e] = true
			nav = e
		}
	}
	if g.last != nil && g.r.P(1, 6) {
		// nothing moved
		s := Sub{K: "pos", V: append([]int64(nil), g.last.V...)}
		s.V[0] = nav
		return s
	}
	fl := g.bits(8)
	s := Sub{K: "pos", V: []int64{nav, g.edge(32), g.edge(32), fl, g.edge(16), g.bits(8), g.edge(24), g.bits(8), g.bits(8), g.edge(24)}}
	g.last = &s
	return s
}

func (g *gen) sensor() Sub {
	switch g.r.N(9) {
	case 0:
		if g.r.P(1, 3) {
			v := []int64{g.edge(32), g.bits(32), g.bits(32)}
			for k := g.r.N(4); k > 0; k-- {
				// fields of which any two numbers are a right value
				v = append(v, []int64{3, 7, 8, 9, 10, 11, 12, 15, 17, 19, 20}[g.r.N(11)], g.bits(5), g.edge(32), g.edge(32))
			}
			return Sub{K: "plus", V: v}
		}
		return Sub{K: "ext", V: []int64{g.bits(5), g.bits(16), g.bits(16), g.bits(16), g.bits(8), g.bits(16)}}
	case 1, 2:
		v := []int64{0, g.bits(8), g.bits(8)}
		if g.r.P(1, 2) {
			v[0] = g.bits(8)
		}
		for i := 0; i < 8; i++ {
			v = append(v, g.bits(8))
		}
		for i := 0; i < 8; i++ {
			v = append(v, g.edge(24))
		}
		return Sub{K: "ads", V: v}
	case 3:
		v := []int64{g.bits(8)}
		for i := 0; i < 8; i++ {
			v = append(v, g.edge(24))
		}
		return Sub{K: "cnt", V: v}
	case 4:
		return Sub{K: []string{"state20", "state21"}[g.r.N(2)], V: []int64{g.bits(8), g.bits(8), g.bits(8), g.bits(8), g.bits(3)}}
	case 5:
		return Sub{K: "absan", V: []int64{g.bits(8), g.edge(24)}}
	case 6:
		// counters 110 and 111 carry the record number and are generated apart
		return Sub{K: "abscnt", V: []int64{int64(g.r.N(110)), g.edge(24)}}
	default:
		return Sub{K: "liq", V: []int64{g.bits(3) | int64(g.r.N(3))<<4 | g.bits(1)<<6, g.edge(16), g.edge(32)}}
	}
}

// everything is an EGTS+ subrecord with every field, which the library prepares itself for at the first use.
func everything() Sub {
	v := []int64{1, 1, 1, 3, 0, 0, 0}
	for f := int64(7); f <= 24; f++ {
		v = append(v, f, 1, 1, 1)
	}
	return Sub{K: "plus", V: v}
}

func (g *gen) term() Sub {
	f := g.bits(8) &^ 16
	if g.r.P(3, 4) {
		f |= 2
	}
	imei := ""
	odd := g.r.P(1, 12)
	for i := 0; i < 15; i++ {
		if odd && g.r.P(1, 2) {
			if g.r.P(1, 2) {
				imei += string("'\"\\<>&%$;{}"[g.r.N(11)])
			} else {
				imei += string(rune(' ' + g.r.N(95)))
			}
			continue
		}
		imei += string(rune('0' + g.r.N(10)))
	}
	if len(g.imeis) > 0 && g.r.P(1, 3) {
		imei = g.imeis[g.r.N(len(g.imeis))]
	}
	g.imeis = append(g.imeis, imei)
	return Sub{K: "term", V: []int64{g.bits(32), f, g.bits(16), g.bits(24), g.bits(16)}, S: imei}
}

type pktOpts struct {
	noPos, auth, noAuth bool
	mixed               bool
	plain               bool // small and simple
	oid                 *uint32
	route               int // 0 sometimes 1 always 2 never
	size                int // about this many bytes of body
}

func (g *gen) pid() uint16 {
	switch g.r.N(10) {
	case 0:
		return 65535
	case 1:
		return 0
	case 2:
		return uint16(g.r.N(65536))
	case 3, 4:
		return uint16(g.r.N(4)) // numbers come again
	}
	g.pids++
	return g.pids
}

// packet makes a valid data packet of one object.
func (g *gen) packet(o pktOpts) *Pkt {
	p := &Pkt{PID: g.pid(), Type: 1, Prio: uint8(g.r.N(4)), SKID: uint8(g.r.N(2) * g.r.N(256))}
	if o.route == 1 || o.route == 0 && g.r.P(1, 4) {
		p.Route = true
		p.PRA, p.RCA, p.TTL = uint16(g.bits(16)), uint16(g.bits(16)), uint8(g.bits(8))
	}
	if g.r.P(1, 8) {
		p.HE = uint8(g.bits(8))
	}
	if g.r.P(1, 8) {
		g.jump()
	}
	oid := o.oid
	if oid == nil {
		v := g.curOID
		if g.oidMode == 0 {
			v = g.newOID()
		}
		oid = &v
	}
	n := 1
	if !o.plain {
		n = []int{1, 1, 1, 2, 3, 4}[g.r.N(6)]
	}
	rn := uint16(g.r.N(65536))
	if g.r.P(1, 2) {
		rn = uint16(g.r.N(10))
	}
	authAt := -1
	if o.auth || (!o.noAuth && g.r.P(1, 6)) {
		authAt = g.r.N(n)
	}
	var lastPos *Sub
	posAt := -1
	if !o.noPos {
		posAt = g.r.N(n)
	}
	noOID := g.r.P(1, 12) // positions of a terminal that does not name its object
	for i := 0; i < n; i++ {
		r := Rec{RN: rn, SST: 2, RST: 2, Fl: uint8(g.r.N(32)) << 3}
		rn++
		if g.r.P(1, 6) {
			rn = uint16(g.r.N(65536))
		}
		if g.r.P(1, 8) {
			r.SST, r.RST = uint8(g.r.N(256)), uint8(g.r.N(256))
		}
		if g.r.P(1, 4) {
			r.EvID = u32(uint32(g.bits(32)))
		}
		if g.r.P(1, 4) {
			r.TM = u32(uint32(g.bits(32)))
		}
		hasPos := i == posAt || (!o.noPos && g.r.P(1, 3))
		if hasPos {
			if !noOID {
				r.OID = u32(*oid)
			}
		} else if g.r.P(1, 2) {
			if r.OID = u32(g.newOID()); g.oidMode > 0 && g.r.P(1, 2) {
				r.OID = u32(*oid)
			}
		}
		if i == authAt {
			if !hasPos {
				r.SST, r.RST = 1, 1
			}
			if g.r.P(1, 2) {
				r.Subs = append(r.Subs, g.term())
			} else {
				s := Sub{K: "auth", V: []int64{g.bits(1)}, S: "user"}
				if g.r.P(1, 8) {
					s.S = ""
				}
				r.Subs = append(r.Subs, s)
			}
			if g.r.P(1, 8) {
				r.Subs = append(r.Subs, Sub{K: "disp", V: []int64{g.bits(8), g.bits(32)}, S: "dispatcher"})
			}
			if g.r.P(1, 8) {
				r.Subs = append(r.Subs, Sub{K: "auth", S: "again"})
			}
		}
		if !o.plain {
			for k := g.r.N(3); k > 0; k-- {
				r.Subs = append(r.Subs, g.sensor())
			}
		}
		if hasPos {
			r.Subs = append(r.Subs, g.pos())
			if !o.plain && g.r.P(1, 5) {
				r.Subs = append(r.Subs, g.pos())
			}
			if lastPos == nil || g.r.P(2, 3) {
				lastPos = &r.Subs[len(r.Subs)-1]
			}
			if !o.plain && g.r.P(1, 8) {
				// another position of the same time, or the very same position again
				s := Sub{K: "pos", V: append([]int64(nil), lastPos.V...)}
				if g.r.P(1, 2) {
					s = g.pos()
					s.V[0] = lastPos.V[0]
				}
				g.last = &s
				r.Subs = append(r.Subs, s)
			}
			if !o.plain && i == posAt && g.r.P(1, 4) {
				// the two counters of one number go together, in either order
				low := Sub{K: "abscnt", V: []int64{110, g.edge(24)}}
				high := Sub{K: "abscnt", V: []int64{111, int64(g.r.N(256))}}
				switch g.r.N(6) {
				case 0, 1:
					r.Subs = append(r.Subs, low)
				case 2, 3, 4:
					r.Subs = append(r.Subs, low, high)
				case 5:
					r.Subs = append(r.Subs, high, low)
				}
			}
		}
		if !o.plain {
			for k := g.r.N(3); k > 0; k-- {
				r.Subs = append(r.Subs, g.sensor())
			}
			if g.r.P(1, 12) {
				r.Subs = append(r.Subs, Sub{K: "resp", V: []int64{g.bits(16), int64(g.r.N(3))}})
			}
			if g.r.P(1, 20) {
				r.Subs = append(r.Subs, Sub{K: "rescode", V: []int64{int64(g.r.N(256))}})
			}
		}
		if len(r.Subs) == 0 {
			r.Subs = append(r.Subs, g.sensor())
		}
		p.Recs = append(p.Recs, r)
	}
	if o.mixed && !o.noPos {
		r := Rec{RN: rn, SST: 2, RST: 2, OID: u32(*oid + 1), Subs: []Sub{g.pos()}}
		p.Recs = append(p.Recs, r)
	}
	if o.size > 0 {
		// fill up with positions, or with long records
		r := Rec{RN: rn + 1, SST: 2, RST: 2}
		if noOID && posAt >= 0 {
		} else {
			r.OID = u32(*oid)
		}
		if o.noPos {
			s := Sub{K: "ads", V: make([]int64, 19)}
			s.V[2] = 255
			for i := range s.V[3:] {
				s.V[3+i] = g.bits(8)
			}
			r.Subs = []Sub{s}
			if g.r.P(1, 2) {
				r.Subs = []Sub{{K: "absan", V: []int64{g.bits(8), g.bits(24)}}}
			}
		} else {
			r.Subs = []Sub{g.pos()}
			r.Subs[0].V[3] |= flALTE
			if g.r.P(1, 2) {
				for k := 0; k < 8; k++ {
					r.Subs = append(r.Subs, g.pos())
				}
			}
		}
		one := len(r.encode())
		have := len(p.body())
		if k := (o.size - have) / one; k > 0 {
			r.Rep = k - 1
			g.nav += int64(k) + 1
			// repeated positions count upwards from the last key
			for i := range r.Subs {
				if r.Subs[i].K == "pos" {
					r.Subs[i].V[0] = g.nav
					g.nav += int64(k) + 2
				}
			}
			p.Recs = append(p.Recs, r)
			for d := o.size - len(p.body()); d > 20 && d < 600; d = o.size - len(p.body()) {
				// the rest in one opaque name
				p.Recs = append(p.Recs, Rec{RN: rn + 9, SST: 1, RST: 1, Subs: []Sub{{K: "disp", V: []int64{1, 2}, S: string(make([]byte, d-7-3-5))}}})
				break
			}
		}
	}
	return p
}

func (g *gen) response() *Pkt {
	p := &Pkt{PID: g.pid(), Type: 0, RPID: uint16(g.bits(16)), PR: uint8(g.r.N(2) * g.r.N(256))}
	if g.r.P(3, 4) {
		p.Recs = []Rec{{RN: uint16(g.r.N(100)), SST: 2, RST: 2, Subs: []Sub{{K: "resp", V: []int64{g.bits(16), 0}}}}}
	}
	return p
}

// damage flips bits in the header or body of a valid packet, leaving the length fields, the first
// byte and (for headers) the possibility to recognise the packet type alone.
func (g *gen) damage(kind string, p *Pkt) Item {
	it := Item{K: kind, Pkt: p}
	if kind == "Db" && g.r.P(1, 6) {
		p.Odd = uint8(g.bits(8))
	}
	b := p.encode()
	hl := p.headerLen()
	for {
		it.Flip = nil
		c := append([]byte(nil), b...)
		if g.r.P(1, 3) {
			g.stuck(kind, c, hl)
			for i := range c {
				for j := 0; j < 8; j++ {
					if (c[i]^b[i])>>j&1 != 0 {
						it.Flip = append(it.Flip, i*8+j)
					}
				}
			}
		}
		for k := []int{1, 1, 1, 2, 3, 8}[g.r.N(6)]; k > 0 && len(it.Flip) == 0; k-- {
			var at int
			if kind == "Dh" {
				ok := []int{1, 2, 4, 7, 8, 9, hl - 1}
				for i := 10; i < hl-1; i++ {
					ok = append(ok, i)
				}
				at = ok[g.r.N(len(ok))]
			} else {
				at = hl + g.r.N(len(b)-hl)
			}
			bit := at*8 + g.r.N(8)
			dup := false
			for _, x := range it.Flip {
				if x == bit {
					dup = true
				}
			}
			if !dup {
				it.Flip = append(it.Flip, bit)
				c[bit/8] ^= 1 << (bit % 8)
			}
		}
		if kind == "Dh" && crc8ref(c[:hl-1]) != c[hl-1] {
			return it
		}
		n := len(c) - 2
		if kind == "Db" && crc16ref(c[hl:n]) != uint16(c[n])|uint16(c[n+1])<<8 {
			return it
		}
	}
}

// stuck overwrites neighbouring bytes the way a line stuck at one level, a swap or a shift does. Checksum
// fields are hit more often than by chance.
func (g *gen) stuck(kind string, c []byte, hl int) {
	n := len(c) - 2
	from, to := hl, len(c) // bytes that may change
	if kind == "Dh" {
		switch g.r.N(3) {
		case 0:
			from, to = hl-1, hl
		case 1:
			from, to = 7, hl
		case 2:
			from, to = 1, 3
		}
	} else {
		switch g.r.N(5) {
		case 0, 1:
			from = n
		case 2:
			from = n + g.r.N(2)
			to = from + 1
		case 3:
			from += g.r.N(n - hl)
			to = from + 1 + g.r.N(len(c)-from)
		}
	}
	part := c[from:to]
	switch g.r.N(6) {
	case 0:
		clear(part)
	case 1:
		for i := range part {
			part[i] = 0xff
		}
	case 2:
		for i, j := 0, len(part)-1; i < j; i, j = i+1, j-1 {
			part[i], part[j] = part[j], part[i]
		}
	case 3:
		v := byte(g.bits(8))
		for i := range part {
			part[i] = v
		}
	case 4:
		copy(part[1:], part)
	case 5: // a register that was not preset, or not inverted
		if kind == "Dh" {
			c[hl-1] ^= byte(0xff >> g.r.N(8))
		} else {
			w := uint16(0xffff) >> g.r.N(16)
			c[n] ^= byte(w)
			c[n+1] ^= byte(w >> 8)
		}
	}
}

func (g *gen) hexBytes(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.r.U64())
	}
	return hex.EncodeToString(b)
}

// garbage that is not the protocol: the first byte is not 1
func (g *gen) garbage() Item {
	n := []int{10, 11, 12, 40, 300, 3, 1, 5000}[g.r.N(8)]
	if g.r.P(1, 3) {
		// a valid packet behind a wrong first byte
		b := g.packet(pktOpts{}).encode()
		b[0] = byte(2 + g.r.N(254))
		if g.r.P(1, 4) {
			b[0] = 0
		}
		return Item{K: "G", Raw: hex.EncodeToString(b)}
	}
	s := []string{"GET / HTTP/1.1\r\nHost: a\r\n\r\n", "SSH-2.0-OpenSSH_9.0\r\n", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03"}
	if g.r.P(1, 3) {
		return Item{K: "G", Raw: hex.EncodeToString([]byte(s[g.r.N(3)]))}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.r.U64())
	}
	if b[0] == 1 {
		b[0] = 0
	}
	return Item{K: "G", Raw: hex.EncodeToString(b)}
}

// malformed makes a packet whose checksums are right but whose contents are not.
func (g *gen) malformed() Item {
	g.hi = 0x80000000
	defer func() { g.hi = 0 }()
	p := g.packet(pktOpts{route: 2})
	if g.r.P(1, 5) {
		p = g.response()
	}
	body := p.body()
	for k := g.r.In(1, 4); k > 0; k-- {
		switch g.r.N(7) {
		case 0: // cut
			body = body[:g.r.N(len(body)+1)]
		case 1, 2, 3:
			if len(body) > 0 {
				body[g.r.N(len(body))] = byte(g.edge(8))
			}
		case 4: // insert
			at := g.r.N(len(body) + 1)
			body = append(body[:at:at], append([]byte{byte(g.bits(8))}, body[at:]...)...)
		case 5: // lengths
			if len(body) > 1 {
				at := g.r.N(len(body) - 1)
				body[at], body[at+1] = byte(g.edge(8)), byte(g.edge(8))
			}
		case 6:
			if g.r.P(1, 4) {
				body = []byte{}
			} else if g.r.P(1, 4) {
				body = make([]byte, g.r.N(40))
			}
		}
		if len(body) == 0 {
			break
		}
	}
	b := frame(p, body)
	switch g.r.N(6) {
	case 0: // header fields with a right checksum
		at := []int{1, 2, 4, 9}[g.r.N(4)]
		b[at] = byte(g.bits(8))
		b[10] = crc8ref(b[:10])
	case 1:
		b[3] = byte(g.edge(8))
		n := int(b[3])
		if n >= 1 && n <= len(b) {
			b[n-1] = crc8ref(b[:n-1])
		}
	case 2:
		f := uint16(g.edge(16))
		b[5], b[6] = byte(f), byte(f>>8)
		b[10] = crc8ref(b[:10])
	}
	return Item{K: "M", Raw: hex.EncodeToString(b)}
}

// damagedLen breaks a length field of a valid packet.
func (g *gen) damagedLen() Item {
	p := g.packet(pktOpts{})
	b := p.encode()
	switch g.r.N(3) {
	case 0:
		b[3] ^= 1 << g.r.N(8)
	case 1:
		b[5+g.r.N(2)] ^= 1 << g.r.N(8)
	case 2:
		b[3], b[5], b[6] = byte(g.bits(8)), byte(g.bits(8)), byte(g.bits(8))
	}
	return Item{K: "Dx", Raw: hex.EncodeToString(b)}
}

func (g *gen) profile() Profile {
	switch g.r.N(7) {
	case 0:
		return Profile{}
	case 1:
		return Profile{LatMin: 100, LatMax: 30000}
	case 2:
		return Profile{LatMin: 1000, LatMax: 2000, Seg: 1460, SegMin: 1460}
	case 3:
		return Profile{LatMax: 5000, Seg: 20, SegMin: 1, Short: 1}
	case 4:
		return Profile{LatMin: 10, LatMax: 200000, Seg: 100, SegMin: 1, Short: 1}
	case 5:
		return Profile{LatMax: 100, Seg: 1, SegMin: 1}
	}
	return Profile{Short: 1 + g.r.N(2), LatMax: 1000}
}

func (g *gen) cuts(n int, max int) []int {
	var c []int
	for k := g.r.N(max + 1); k > 0; k-- {
		var v int
		if g.r.P(1, 2) {
			v = g.r.N(16) // inside the header
		} else {
			v = g.r.N(n)
		}
		c = append(c, v)
	}
	for i := range c {
		for j := i; j > 0 && c[j] < c[j-1]; j-- {
			c[j], c[j-1] = c[j-1], c[j]
		}
	}
	return c
}

func (g *gen) store() Store {
	s := Store{}
	switch g.r.N(4) {
	case 0:
		s.MaxDelay = int64(g.r.N(1000))
	case 1:
		s.MaxDelay = int64(g.r.N(300000))
	case 2:
		s.MaxDelay = int64(g.r.N(3000000))
	}
	return s
}

const sec = int64(1000000)

// add sends a new item on the connection.
func (c *Conn) send(it Item, op Op) {
	c.Items = append(c.Items, it)
	op.K, op.I = "send", len(c.Items)-1
	c.Ops = append(c.Ops, op)
}

func (c *Conn) op(k string, us int64) { c.Ops = append(c.Ops, Op{K: k, Us: us}) }

func (c *Conn) answersDue() int {
	n := 0
	exps, _, _ := c.stream()
	for _, e := range exps {
		switch e.K {
		case "V":
			n++
			if e.Auth {
				n++
			}
		case "Dh", "Db", "E":
			n++
		}
	}
	return n
}

func (g *gen) newConn(class string) *Conn {
	c := &Conn{ID: len(g.p.Conns) + 1, Class: class, Up: g.profile(), Down: g.profile()}
	g.p.Conns = append(g.p.Conns, c)
	if g.oidMode == 1 {
		g.curOID = g.newOID()
	}
	return c
}

// valid sends n valid packets (with response packets and repetitions among them).
func (g *gen) valid(c *Conn, n int, o func() pktOpts) {
	for i := 0; i < n; i++ {
		po := pktOpts{}
		if o != nil {
			po = o()
		}
		if n > 20 {
			// long sessions of small packets
			po.size, po.plain = 0, true
		}
		p := g.packet(po)
		c.send(Item{K: "V", Pkt: p}, g.sendOp(len(p.encode())))
		if g.r.P(1, 8) {
			// the terminal repeats itself
			c.Ops = append(c.Ops, Op{K: "send", I: len(c.Items) - 1})
		}
		if g.r.P(1, 8) {
			c.send(Item{K: "R", Pkt: g.response()}, Op{})
		}
		if g.p.Kind == "S1" && c.Class == "" && g.r.P(1, 24) {
			c.send(g.bodiless(), Op{})
		}
		g.pause(c)
	}
}

// bodiless is a packet of a header only (frame data length 0). done() sees to it that its number is its own.
func (g *gen) bodiless() Item {
	p := &Pkt{Type: 1, PID: uint16(g.bits(16)), Prio: uint8(g.r.N(4)), Route: g.r.P(1, 4)}
	return Item{K: "E", Raw: hex.EncodeToString(frame(p, nil))}
}

func (c *Conn) ownNumbers() {
	used := map[uint16]bool{}
	for i := range c.Items {
		if it := &c.Items[i]; it.Pkt != nil {
			used[it.Pkt.PID] = true
		}
	}
	for i := range c.Items {
		it := &c.Items[i]
		if it.K != "E" {
			continue
		}
		b := it.bytes()
		for used[uint16(b[7])|uint16(b[8])<<8] {
			if b[7]++; b[7] == 0 {
				b[8]++
			}
		}
		used[uint16(b[7])|uint16(b[8])<<8] = true
		n := int(b[3])
		b[n-1] = crc8ref(b[:n-1])
		it.Raw = hex.EncodeToString(b)
	}
}

func (g *gen) sendOp(n int) Op {
	op := Op{}
	if g.r.P(1, 3) {
		op.Cuts = g.cuts(n, 4)
		op.Us = int64(g.r.N(50000))
	}
	return op
}

func (g *gen) pause(c *Conn) {
	switch g.r.N(5) {
	case 0:
		c.op("sleep", int64(g.r.N(2000000)))
	case 1:
		c.op("sleep", int64(g.r.N(3000)))
	case 2:
		c.Ops = append(c.Ops, Op{K: "wait", I: c.answersDue(), Us: 20 * sec})
	}
}

// finishConn lets the terminal wait for its answers and part in a way that loses nothing.
func (g *gen) finishConn(c *Conn) {
	how := g.r.N(4)
	if how == 0 && c.ReadAt == 0 {
		c.op("half", 0)
		c.op("awaitclose", 60*sec)
		return
	}
	c.Ops = append(c.Ops, Op{K: "wait", I: c.answersDue(), Us: 60 * sec})
	if how == 1 {
		c.op("close", 0)
	} else if how == 2 {
		c.op("half", 0)
		c.op("awaitclose", 20*sec)
	}
}

// marathon makes a terminal send one packet, its first valid, damaged or response packet, very many times.
func (g *gen) marathon() {
	one := 250
	if g.p.Check == "C10" {
		one = 60
	}
	if g.p.Check == "C07" {
		one = 100
	}
	kinds := [][]string{{"V"}, {"V"}, {"Dh", "Db"}, {"R", "Dh", "Db"}}[g.r.N(4)]
	if len(g.p.Conns) == 0 || !g.r.P(1, one) {
		return
	}
	switch g.p.Check {
	case "C01", "C02", "C03", "C04", "C05", "C07", "C09", "C10", "C11":
	default:
		return
	}
	c := g.p.Conns[g.r.N(len(g.p.Conns))]
	if c.Class != "" || c.ReadAt != 0 || c.ReadBytes != 0 || c.Up.Window > 0 || c.Down.Window > 0 || c.Up.Short > 0 || c.Up.Seg > 0 {
		return
	}
	for j, o := range c.Ops {
		if o.K != "send" || !slices.Contains(kinds, c.Items[o.I].K) {
			continue
		}
		if len(c.Items[o.I].bytes()) > 400 || o.Await > 0 {
			return
		}
		n := g.r.In(300, 1200)
		if g.r.P(1, 3) {
			n = g.r.In(1000, 4500)
		}
		var ops []Op
		for ; n > 0; n-- {
			ops = append(ops, Op{K: "send", I: o.I})
		}
		for k := j + 1; k < len(c.Ops); k++ {
			if c.Ops[k].K == "wait" {
				if c.Items[o.I].K != "R" {
					c.Ops[k].I += len(ops)
				}
				c.Ops[k].Us += 60 * sec
			}
		}
		c.Ops = append(append(append([]Op(nil), c.Ops[:j]...), ops...), c.Ops[j:]...)
		return
	}
}

// pipeline makes a terminal send the beginning of a packet together with the packet before it, and the
// rest only after that one has been answered.
func (g *gen) pipeline(c *Conn) {
	switch g.p.Check {
	case "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C11":
	default:
		return
	}
	if c.Class != "" || len(c.Ops) > 60 || !g.r.P(1, 3) {
		return
	}
	for j := 1; j < len(c.Ops); j++ {
		o := &c.Ops[j]
		if o.K != "send" || c.Ops[j-1].K != "send" || !g.r.P(1, 2) {
			continue
		}
		n := len(c.Items[o.I].bytes())
		if n < 2 {
			continue
		}
		k := 1 + g.r.N(n-1)
		if n > 12 && g.r.P(1, 2) {
			k = []int{1, 9, 10, 11, n - 1}[g.r.N(5)]
		}
		d := *c
		d.Ops = c.Ops[:j]
		o.Glue, o.Await = true, d.answersDue()
		o.Cuts, o.Us = []int{k}, 0
		o.Limit = 20 * sec
		if T := g.p.TTLus; T > 0 && o.Limit > T/2 {
			o.Limit = T / 2
		}
	}
}

func (g *gen) done() *Plan {
	if g.p.Horizon == 0 {
		g.p.Horizon = 600 * sec
	}
	if g.p.Settle == 0 {
		g.p.Settle = 30 * sec
	}
	if g.p.Kind == "S1" {
		for _, c := range g.p.Conns {
			c.ownNumbers()
			g.pipeline(c)
		}
		g.marathon()
		g.allow()
	}
	g.clock()
	g.diskFull()
	return g.p
}

// diskFull: what the receiver logs cannot be written for a while.
func (g *gen) diskFull() {
	if k := g.p.Kind; k != "S1" && k != "S2" || g.p.Check == "C17" || !g.r.P(1, 15) {
		return
	}
	at := int64(0)
	for n := g.r.In(1, 2); n > 0; n-- {
		at += int64(g.r.N(int(20 * sec)))
		to := at + int64(g.r.N(int([]int64{sec, 20 * sec, 600 * sec}[g.r.N(3)]))) + 1
		g.p.NoLog = append(g.p.NoLog, [3]int64{at, to, int64(g.r.N(2) * g.r.N(60))})
		at = to
	}
}

// clock sets the wall clock of the machine under test wrong now and then, and steps it.
func (g *gen) clock() {
	if !g.r.P(1, 5) {
		return
	}
	const day = 86400 * sec
	off := func() int64 {
		d := []int64{sec, 30 * sec, 3600 * sec, day, 400 * day, 5000 * day}[g.r.N(6)]
		d = d/2 + int64(g.r.U64()%uint64(d))
		if g.r.P(1, 2) {
			return -d
		}
		return d
	}
	at := int64(0)
	if g.r.P(1, 2) {
		g.p.Jumps = append(g.p.Jumps, [2]int64{0, off()})
	}
	top := g.p.Horizon
	if g.r.P(2, 3) {
		// while something goes on
		top = min(top, int64(g.r.In(1, 30))*sec)
	}
	for n := g.r.In(1, 3); n > 0; n-- {
		at += 1 + int64(g.r.U64()%uint64(top))
		j := [2]int64{at, off()}
		if g.r.P(1, 3) {
			j[1] = 0
		}
		g.p.Jumps = append(g.p.Jumps, j)
	}
}

var _ = time.Second

// lastZero changes record numbers until the packet's last byte is 0, so that
// a packet cut one byte short looks like a whole one padded with zeros.
func lastZero(p *Pkt) bool {
	if len(p.Recs) == 0 {
		return false
	}
	for i := 0; i < 2048; i++ {
		if b := p.encode(); b[len(b)-1] == 0 {
			return true
		}
		p.Recs[0].RN++
	}
	return false
}
