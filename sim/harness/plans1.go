package main

import "sort"

// Plans for the checks that run the server against scripted terminals and storages (setup S1).

func genPlan(check string, seed uint64, tier string) *Plan {
	g := newGen(check, seed)
	g.tier = tier
	g.p.Kind = "S1"
	switch check {
	case "C01":
		g.c01()
	case "C02":
		g.c02()
	case "C03":
		g.c03()
	case "C04":
		g.c04()
	case "C05":
		g.c05()
	case "C06":
		g.c06()
	case "C07":
		g.c07()
	case "C08":
		g.c08()
	case "C09":
		g.c09()
	case "C10":
		g.c10()
	case "C11":
		g.c11()
	case "C12":
		g.c12()
	case "C13":
		g.c13()
	case "C14":
		g.c14()
	default:
		if !g.whole(check) {
			return nil
		}
	}
	return g.done()
}

// more scales a number up in thorough runs now and then.
func (g *gen) more(lo, hi int) int {
	n := g.r.In(lo, hi)
	if g.tier == "thorough" && g.r.P(1, 4) {
		n = g.r.In(hi, 4*hi)
	}
	return n
}

func (g *gen) stores(n int) {
	for i := 0; i < n; i++ {
		g.p.Stores = append(g.p.Stores, g.store())
	}
}

// crawling makes storages very slow now and then.
func (g *gen) crawling() {
	if !g.r.P(1, 12) {
		return
	}
	for i := range g.p.Stores {
		if g.r.P(2, 3) {
			g.p.Stores[i].MaxDelay = []int64{15, 60, 200, 900}[g.r.N(4)] * sec
		}
	}
}

// allow gives runs with very slow storages the time they need.
func (g *gen) allow() {
	var d int64
	n := int64(0)
	for _, s := range g.p.Stores {
		d += s.MaxDelay
	}
	stall := int64(0)
	for _, c := range g.p.Conns {
		m := int64(0)
		for _, o := range c.Ops {
			if o.K == "send" {
				m++
			}
			if (o.K == "stallup" || o.K == "stalldown") && o.Us > stall {
				stall = o.Us
			}
		}
		if m > n {
			n = m
		}
	}
	g.p.Settle += stall
	g.p.Horizon += stall
	if n*d > 60*sec {
		g.p.Settle += 30*sec + n*d
		g.p.Horizon += 1000*sec + 2*n*d
		for _, c := range g.p.Conns {
			for i := range c.Ops {
				if o := &c.Ops[i]; (o.K == "wait" || o.K == "awaitclose") && d > 10*sec {
					o.Us += n * d
				}
			}
		}
	} else if n > 20 {
		g.p.Horizon += 10 * n * sec
	}
}

// crowd adds many terminals that say nothing for a while.
func (g *gen) crowd() {
	if !g.r.P(1, 12) {
		return
	}
	n := g.r.In(20, 150)
	if g.r.P(1, 5) {
		n = g.r.In(150, 400)
		if g.tier == "thorough" {
			n *= 5
		}
	}
	for ; n > 0; n-- {
		c := g.newConn("slow")
		c.Up, c.Down = Profile{}, Profile{}
		c.Start = int64(g.r.N(int(sec)))
		c.op("sleep", int64(g.r.In(40, 60))*sec)
		c.op([]string{"close", "reset", "half"}[g.r.N(3)], 0)
	}
}

// passers adds many short connections, all of one or two sorts.
func (g *gen) passers(class string) {
	if !g.r.P(1, 20) {
		return
	}
	sorts := []int{g.r.N(6), g.r.N(6)}
	if g.r.P(1, 2) {
		sorts[1] = sorts[0]
	}
	cut := g.r.N(4) // where the packets break off: anywhere, in the header, in the body
	n := g.r.In(30, 150)
	if g.r.P(1, 6) {
		n = g.r.In(1025, 1200)
		if g.tier == "thorough" && g.r.P(1, 4) {
			n *= 4
		}
	}
	for ; n > 0; n-- {
		c := g.newConn(class)
		c.Up, c.Down = Profile{LatMax: 500}, Profile{LatMax: 500}
		c.Start = 1 + int64(g.r.N(int(4*sec)))
		end := []string{"close", "reset", "half"}[g.r.N(3)]
		switch sorts[g.r.N(2)] {
		case 0: // scans the port
		case 1:
			c.send(g.garbage(), Op{})
		case 2:
			p := g.packet(pktOpts{plain: true})
			zero := g.r.P(1, 6) && lastZero(p)
			it := Item{K: "T", Pkt: p, Cut: 1 + g.r.N(len(p.encode())-1)}
			if zero {
				it.Cut = len(p.encode()) - 1
			}
			switch cut {
			case 0:
				it.Cut = 1 + g.r.N(9)
			case 1:
				it.Cut = 10 + g.r.N(len(p.encode())-10)
			}
			c.send(it, Op{})
		case 3:
			g.valid(c, 1, func() pktOpts { return pktOpts{plain: true} })
		case 4:
			c.send(g.damagedLen(), Op{})
		case 5:
			c.send(g.damage([]string{"Dh", "Db"}[g.r.N(2)], g.packet(pktOpts{plain: true})), Op{})
		}
		if g.r.P(1, 2) {
			c.op("sleep", int64(g.r.N(int(sec))))
		}
		c.op(end, 0)
	}
}

// long makes a session long now and then.
func (g *gen) long(n int) int {
	if g.r.P(1, 60) {
		n = g.r.In(30, 120)
		if g.r.P(1, 6) {
			n = g.r.In(257, 300)
		}
	}
	return n
}

func (g *gen) failing(s *Store) {
	switch g.r.N(4) {
	case 0:
		s.FailNum = g.r.In(1, 15)
	case 1:
		s.FailNum = 16
	case 2:
		s.FailFrom = int64(g.r.N(3000000))
		s.FailTo = s.FailFrom + int64(g.r.N(5000000))
	case 3:
		s.FailNum = 5
	}
}

func (g *gen) start(c *Conn, max int64) {
	if g.r.P(1, 3) {
		c.Start = int64(g.r.N(int(max)))
	} else if g.r.P(1, 2) {
		c.Start = 1000 * int64(g.r.N(4))
	}
}

func (g *gen) ttl() {
	if g.r.P(1, 2) {
		g.p.TTLus = int64(g.r.In(60, 900)) * sec
	}
}

func (g *gen) slowRead(c *Conn) {
	switch g.r.N(6) {
	case 0:
		c.ReadAt = int64(g.r.N(int(8 * sec)))
	case 1:
		c.ReadBytes, c.ReadEvery = g.r.In(1, 400), int64(g.r.In(100, 200000))
		c.Down.Window = []int{0, 40, 400, 2000}[g.r.N(4)]
	case 2:
		c.Down.Window = g.r.In(1, 200)
	}
	// what is left to read when the script ends must be read in reasonable time
	if c.ReadBytes > 0 && c.ReadBytes < 20 && c.ReadEvery > 5000 {
		c.ReadEvery = 5000
	}
}

func (g *gen) c01() {
	g.ttl()
	g.stores([]int{1, 1, 2, 2, 3}[g.r.N(5)])
	g.crawling()
	for i := range g.p.Stores {
		if g.r.P(2, 3) {
			g.failing(&g.p.Stores[i])
		}
	}
	for n := g.more(1, 3); n > 0; n-- {
		c := g.newConn("")
		g.start(c, 3*sec)
		g.valid(c, g.long(g.more(1, 6)), func() pktOpts { return pktOpts{noPos: g.r.P(1, 6), plain: g.r.P(1, 2)} })
		g.finishConn(c)
	}
}

// ending lets a terminal part at an arbitrary place, possibly in the middle of a packet.
func (g *gen) ending(c *Conn) {
	if g.r.P(1, 3) {
		p := g.packet(pktOpts{})
		zero := g.r.P(1, 4) && lastZero(p)
		n := len(p.encode())
		it := Item{K: "T", Pkt: p, Cut: g.r.N(n-1) + 1}
		if zero {
			it.Cut = n - 1
		} else if g.r.P(1, 3) {
			it.Cut = n - 1 - g.r.N(3)
		} else if g.r.P(1, 3) {
			it.Cut = 1 + g.r.N(12)
		}
		c.send(it, Op{})
		if g.r.P(1, 2) {
			c.op("sleep", int64(g.r.N(int(2*sec))))
		}
		switch g.r.N(3) {
		case 0:
			c.op("half", 0)
			c.op("awaitclose", 60*sec)
		case 1:
			c.op("close", 0)
		case 2:
			c.op("reset", 0)
		}
		return
	}
	switch g.r.N(5) {
	case 0:
		c.op("close", 0)
	case 1:
		c.op("reset", 0)
	default:
		g.finishConn(c)
	}
}

func (g *gen) c02() {
	g.ttl()
	g.stores([]int{1, 1, 1, 2, 3}[g.r.N(5)])
	g.crawling()
	if g.r.P(1, 3) {
		g.failing(&g.p.Stores[g.r.N(len(g.p.Stores))])
	}
	for n := g.more(1, 4); n > 0; n-- {
		c := g.newConn("")
		g.start(c, 3*sec)
		g.valid(c, g.long(g.more(1, 7)), func() pktOpts {
			o := pktOpts{noPos: g.r.P(1, 5), plain: g.r.P(1, 3)}
			if g.r.P(1, 40) {
				o.size = []int{g.r.In(2000, 60000), 65535, g.r.In(60000, 65535)}[g.r.N(3)]
			}
			return o
		})
		if g.r.P(1, 5) {
			g.slowRead(c)
		}
		g.ending(c)
	}
}

func (g *gen) c03() {
	g.stores([]int{1, 1, 2}[g.r.N(3)])
	for n := g.more(1, 5); n > 0; n-- {
		c := g.newConn("")
		g.start(c, 2*sec)
		g.valid(c, g.more(1, 6), func() pktOpts {
			o := pktOpts{noPos: g.r.P(1, 10), mixed: g.r.P(1, 40)}
			if !o.mixed && g.r.P(1, 60) {
				o.size = []int{g.r.In(2000, 60000), 65535}[g.r.N(2)]
			}
			return o
		})
		g.finishConn(c)
	}
}

func (g *gen) c04() {
	g.ttl()
	g.stores([]int{1, 1, 2}[g.r.N(3)])
	g.crawling()
	if g.r.P(1, 4) {
		g.failing(&g.p.Stores[0])
	}
	for n := g.more(1, 4); n > 0; n-- {
		c := g.newConn("")
		g.start(c, 2*sec)
		g.valid(c, g.long(g.more(1, 7)), func() pktOpts {
			o := pktOpts{noPos: g.r.P(1, 3), plain: g.r.P(1, 4)}
			if g.r.P(1, 30) {
				o.size = []int{g.r.In(2000, 60000), 65535, g.r.In(60000, 65535)}[g.r.N(3)]
			}
			return o
		})
		if g.r.P(1, 3) {
			c.send(Item{K: "R", Pkt: g.response()}, Op{})
		}
		if g.r.P(1, 3) {
			g.slowRead(c)
		}
		g.finishConn(c)
	}
}

func (g *gen) c05() {
	g.stores([]int{1, 1, 1, 2}[g.r.N(4)])
	if g.r.P(1, 3) {
		g.failing(&g.p.Stores[g.r.N(len(g.p.Stores))])
	}
	for n := g.more(1, 4); n > 0; n-- {
		c := g.newConn("")
		g.start(c, 2*sec)
		g.valid(c, g.long(g.more(1, 6)), func() pktOpts {
			a := g.r.P(1, 2)
			return pktOpts{noPos: g.r.P(1, 2), auth: a, noAuth: !a, plain: g.r.P(1, 2)}
		})
		if g.r.P(1, 4) {
			// a damaged request gets no result code
			c.send(g.damage([]string{"Dh", "Db"}[g.r.N(2)], g.packet(pktOpts{auth: true})), Op{})
			g.valid(c, 1, func() pktOpts { return pktOpts{noAuth: true} })
		}
		if g.r.P(1, 5) {
			g.slowRead(c)
		}
		g.finishConn(c)
	}
}

func (g *gen) nasty() Profile {
	p := g.profile()
	switch g.r.N(5) {
	case 0:
		p.Seg, p.SegMin = g.r.In(1, 15), 1
	case 1:
		p.Seg, p.SegMin = g.r.In(10, 4000), 1
	case 2:
		p.Short = 1
	case 3:
		p.LatMin, p.LatMax = 0, g.r.In(1, 400000)
	}
	if g.r.P(1, 3) {
		p.Window = []int{1, 10, 100, 1000, 20000}[g.r.N(5)]
	}
	return p
}

func (g *gen) c06() {
	if g.r.P(1, 2) {
		g.p.TTLus = int64(g.r.In(5, 600)) * sec
	}
	g.stores(1)
	if g.r.P(1, 2) {
		g.p.Stores[0] = Store{}
	}
	for n := g.more(1, 2); n > 0; n-- {
		c := g.newConn("")
		c.Up, c.Down = g.nasty(), g.nasty()
		big := false
		k := g.more(1, 5)
		for i := 0; i < k; i++ {
			o := pktOpts{noPos: g.r.P(1, 4), plain: g.r.P(1, 3), route: g.r.N(3)}
			if g.r.P(1, 6) && !big {
				big = true
				o.size = []int{300, 3000, 32768, 65400, 65535}[g.r.N(5)]
				if c.Up.Seg > 0 && c.Up.Seg < 100 {
					c.Up.SegMin, c.Up.Seg = 200, 2000
				}
				if c.Up.Short == 2 {
					c.Up.Short = 1
				}
				if c.Up.Window > 0 {
					c.Up.Window = 30000
				}
				if c.Up.LatMax > 20000 {
					c.Up.LatMax = 20000
				}
			}
			switch g.r.N(12) {
			case 0:
				c.send(g.damage([]string{"Dh", "Db"}[g.r.N(2)], g.packet(pktOpts{route: g.r.N(3)})), Op{})
			case 1:
				c.send(Item{K: "R", Pkt: g.response()}, Op{})
			default:
				p := g.packet(o)
				n := len(p.encode())
				op := Op{}
				if g.r.P(2, 3) {
					op.Cuts = g.cuts(n, 6)
					op.Us = int64(g.r.N(int(2 * sec)))
				}
				if g.p.TTLus > 0 && op.Us > g.p.TTLus/2 {
					op.Us = g.p.TTLus / 2
				}
				c.send(Item{K: "V", Pkt: p}, op)
			}
			if g.r.P(1, 4) && g.p.TTLus > 2*sec {
				c.op("stallup", int64(g.r.N(int(g.p.TTLus/2))))
			} else if g.r.P(1, 3) {
				c.op("sleep", int64(g.r.N(int(sec))))
			}
		}
		g.slowRead(c)
		if g.r.P(1, 8) {
			c.send(g.garbage(), Op{})
			c.op("awaitclose", 20*sec)
		} else {
			g.finishConn(c)
		}
	}
}

func (g *gen) c07() {
	g.stores(1)
	for n := g.more(1, 3); n > 0; n-- {
		c := g.newConn("")
		g.start(c, sec)
		k := g.more(1, 6)
		for i := 0; i < k; i++ {
			p := g.packet(pktOpts{plain: g.r.P(1, 2)})
			if g.r.P(1, 8) {
				p = g.response()
				if len(p.Recs) == 0 {
					p = g.packet(pktOpts{noPos: true})
				}
			}
			if g.r.P(1, 4) {
				g.valid(c, 1, nil)
			}
			it := g.damage([]string{"Dh", "Db"}[g.r.N(2)], p)
			c.send(it, g.sendOp(len(it.bytes())))
			g.pause(c)
		}
		g.valid(c, g.r.N(3), nil)
		if g.r.P(1, 5) {
			it := g.damagedLen()
			c.send(it, Op{})
			g.valid(c, g.r.N(2), nil)
			c.op("sleep", sec)
			c.op("close", 0)
			continue
		}
		g.finishConn(c)
	}
}

func (g *gen) canary() *Conn {
	c := g.newConn("canary")
	c.Up, c.Down = Profile{LatMax: 1000}, Profile{LatMax: 1000}
	c.Start = int64(g.r.N(int(3 * sec)))
	for k := g.more(2, 5); k > 0; k-- {
		c.send(Item{K: "V", Pkt: g.packet(pktOpts{plain: true})}, Op{})
		c.op("sleep", int64(g.r.N(int(sec))))
	}
	g.finishConn(c)
	return c
}

func (g *gen) c08() {
	g.ttl()
	g.stores([]int{1, 2}[g.r.N(2)])
	for i := range g.p.Stores {
		if g.p.Stores[i].MaxDelay > 100000 {
			g.p.Stores[i].MaxDelay = 100000
		}
	}
	g.canary()
	for n := g.more(2, 8); n > 0; n-- {
		c := g.newConn("bad")
		g.start(c, 3*sec)
		for k := g.r.In(1, 6); k > 0; k-- {
			switch g.r.N(9) {
			case 0, 1, 2, 3:
				it := g.malformed()
				c.send(it, g.sendOp(len(it.bytes())))
			case 4:
				c.send(g.damagedLen(), Op{})
			case 5:
				c.send(g.garbage(), Op{})
			case 6:
				c.send(g.damage([]string{"Dh", "Db"}[g.r.N(2)], g.packet(pktOpts{})), Op{})
			default:
				g.valid(c, 1, nil)
			}
			if g.r.P(1, 3) {
				c.op("sleep", int64(g.r.N(int(sec))))
			}
		}
		if g.r.P(1, 6) {
			c.ReadAt = -1
			c.Down.Window = 50
		}
		if g.r.P(1, 4) {
			c.op("sleep", int64(g.r.N(int(3*sec))))
		}
		switch g.r.N(4) {
		case 0:
			c.op("reset", 0)
		case 1:
			c.op("close", 0)
		case 2:
			c.op("half", 0)
		case 3:
			c.op("sleep", 2*sec)
			c.op("black", 0)
		}
	}
	g.passers("bad")
	late := g.canary()
	late.Start = 8 * sec
}

func (g *gen) c09() {
	g.ttl()
	g.stores(1)
	if g.r.P(1, 2) {
		g.canary()
	}
	for n := g.more(1, 3); n > 0; n-- {
		c := g.newConn("")
		g.start(c, sec)
		g.valid(c, g.r.N(4), nil)
		if g.r.P(1, 6) {
			c.send(g.damage([]string{"Dh", "Db"}[g.r.N(2)], g.packet(pktOpts{})), Op{})
		}
		it := g.garbage()
		c.send(it, g.sendOp(len(it.bytes())))
		if g.r.P(1, 2) {
			// packets after it count for nothing
			for k := g.r.In(1, 3); k > 0; k-- {
				c.send(Item{K: "V", Pkt: g.packet(pktOpts{})}, Op{})
			}
		}
		switch g.r.N(4) {
		case 0:
			c.op("half", 0)
		}
		c.op("awaitclose", 30*sec)
	}
}

func (g *gen) c10() {
	T := []int64{sec, 2 * sec, 10 * sec, 60 * sec, 300 * sec, 900 * sec}[g.r.N(6)]
	if g.r.P(1, 3) {
		T = int64(g.r.In(1, 100)) * sec
	} else if g.r.P(1, 10) {
		T = int64(g.r.In(1, 60)) * 86400 * sec
	}
	g.p.TTLus = T
	g.stores(1)
	if m := g.p.Stores[0].MaxDelay; m > 0 && g.r.P(1, 2) {
		// storing may take longer than the lifetime
		g.p.Stores[0].MaxDelay = int64(g.r.N(int(2 * T)))
	}
	var longest int64
	for n := g.more(1, 3); n > 0; n-- {
		c := g.newConn("")
		lim := Profile{LatMax: 2000}
		c.Up, c.Down = lim, lim
		if g.r.P(1, 3) {
			c.Up.Seg, c.Up.SegMin = 40, 1
		}
		g.start(c, 2*T)
		total := c.Start
		gap := func() int64 {
			var d int64
			switch g.r.N(4) {
			case 0:
				d = T*9/10 - 4000
			case 1:
				d = T/2 + int64(g.r.N(int(T/3)))
			case 2:
				d = int64(g.r.N(int(T / 2)))
			case 3:
				d = T - 10000 - int64(g.r.N(1000))
			}
			total += d
			return d
		}
		live := func(k int) {
			for ; k > 0; k-- {
				if g.r.P(1, 3) {
					c.op("sleep", gap())
				}
				p := g.packet(pktOpts{plain: true, noPos: g.r.P(1, 3)})
				b := p.encode()
				op := Op{}
				if g.r.P(2, 3) {
					m := g.r.In(1, 8)
					if g.r.P(1, 6) {
						m = 30
					}
					op.Cuts = g.cuts(len(b), m)
					op.Us = gap()
					total += op.Us * int64(len(op.Cuts))
				}
				c.send(Item{K: "V", Pkt: p}, op)
				if g.r.P(1, 8) {
					c.send(Item{K: "R", Pkt: g.response()}, Op{})
				}
			}
		}
		live(g.r.N(4))
		switch g.r.N(4) {
		case 0: // silent for ever
		case 1: // inside a packet
			p := g.packet(pktOpts{plain: true})
			b := p.encode()
			cut := 1 + g.r.N(len(b)-1)
			if g.r.P(1, 2) {
				cut = []int{1, 9, 10, 11, len(b) - 1}[g.r.N(5)]
			}
			c.send(Item{K: "T", Pkt: p, Cut: cut}, Op{})
		case 2: // silent and then speaking up after it has been closed
			d := 3*T + int64(g.r.N(int(T)))
			c.op("sleep", d)
			total += d
			c.send(Item{K: "R", Pkt: g.response()}, Op{})
		case 3: // ends by itself
			live(1)
			g.finishConn(c)
			total += 10 * sec
			if total > longest {
				longest = total
			}
			continue
		}
		if g.r.P(1, 5) {
			c.op("black", 0)
		}
		c.op("awaitclose", 4*T+20*sec)
		total += 4*T + 20*sec
		if total > longest {
			longest = total
		}
	}
	g.p.Settle = 8*T + 200*sec
	g.p.Horizon = 2*longest + 40*T + 1000*sec
}

func (g *gen) c11() {
	g.stores(g.r.In(2, 4))
	g.crawling()
	for i := range g.p.Stores {
		if g.r.P(1, 2) {
			g.failing(&g.p.Stores[i])
		}
	}
	for n := g.more(1, 3); n > 0; n-- {
		c := g.newConn("")
		g.start(c, 3*sec)
		g.valid(c, g.long(g.more(2, 7)), func() pktOpts { return pktOpts{noPos: g.r.P(1, 8), plain: true} })
		g.finishConn(c)
	}
}

func (g *gen) c12() {
	if g.r.P(1, 5) {
		g.c12whole()
		return
	}
	g.ttl()
	if g.p.TTLus > 0 && g.r.P(1, 2) {
		g.p.TTLus = int64(g.r.In(10, 60)) * sec
	}
	g.p.Stores = []Store{{}}
	if g.r.P(1, 3) {
		g.p.Stores = append(g.p.Stores, Store{})
	}
	slow := func() *Conn {
		c := g.newConn("slow")
		c.Start = int64(g.r.N(int(3 * sec)))
		return c
	}
	for n := g.more(1, 6); n > 0; n-- {
		c := slow()
		switch g.r.N(6) {
		case 0: // stalls inside a packet
			p := g.packet(pktOpts{plain: true})
			b := p.encode()
			c.send(Item{K: "T", Pkt: p, Cut: []int{1, 5, 10, 11, len(b) / 2, len(b) - 1}[g.r.N(6)]}, Op{})
		case 1: // does not read its answers
			c.ReadAt = -1
			c.Down.Window = g.r.In(1, 120)
			for k := g.r.In(4, 12); k > 0; k-- {
				c.send(Item{K: "V", Pkt: g.packet(pktOpts{noPos: true, plain: true, auth: g.r.P(1, 2)})}, Op{})
			}
		case 2: // silent
		case 3: // its record is stored slowly
			p := g.packet(pktOpts{plain: true})
			st := &g.p.Stores[g.r.N(len(g.p.Stores))]
			st.SlowKeys = append(st.SlowKeys, p.model().Nav)
			st.SlowUs = int64(g.r.In(20, 60)) * sec
			c.send(Item{K: "V", Pkt: p}, Op{})
			c.send(Item{K: "V", Pkt: g.packet(pktOpts{plain: true})}, Op{})
		case 4: // its uplink stalls
			g.valid(c, 1, nil)
			c.op("stallup", int64(g.r.In(5, 40))*sec)
			c.send(Item{K: "V", Pkt: g.packet(pktOpts{plain: true})}, Op{})
		case 5: // trickles
			c.Up.LatMin, c.Up.LatMax, c.Up.Seg, c.Up.SegMin = 0, 3000000, 1, 1
			c.send(Item{K: "V", Pkt: g.packet(pktOpts{plain: true})}, Op{})
		}
		c.op("sleep", 40*sec)
	}
	if g.r.P(1, 12) {
		// many terminals whose records are stored slowly at the same time
		st := &g.p.Stores[g.r.N(len(g.p.Stores))]
		for n := g.r.In(8, 140); n > 0; n-- {
			c := slow()
			p := g.packet(pktOpts{plain: true})
			st.SlowKeys = append(st.SlowKeys, p.model().Nav)
			c.send(Item{K: "V", Pkt: p}, Op{})
			c.op("sleep", 60*sec)
		}
		st.SlowUs = int64(g.r.In(20, 60)) * sec
	}
	for n := g.more(1, 4); n > 0; n-- {
		c := g.newConn("fast")
		c.Up, c.Down = Profile{LatMax: 500}, Profile{LatMax: 500}
		c.Start = int64(g.r.N(int(5 * sec)))
		for k := g.more(2, 6); k > 0; k-- {
			c.send(Item{K: "V", Pkt: g.packet(pktOpts{plain: true, noPos: g.r.P(1, 4)})}, Op{})
			if g.r.P(1, 4) {
				c.send(Item{K: "R", Pkt: g.response()}, Op{})
			}
			c.op("sleep", int64(g.r.N(int(4*sec))))
		}
		g.finishConn(c)
	}
	g.crowd()
	// the slow keys decide about the fast ones' records only in their own store
	for i := range g.p.Stores {
		k := g.p.Stores[i].SlowKeys
		sort.Slice(k, func(a, b int) bool { return k[a] < k[b] })
	}
}

func (g *gen) c13() {
	T := []int64{0, sec, 10 * sec, 60 * sec, 600 * sec}[g.r.N(5)]
	g.p.TTLus = T
	g.stores(1)
	w := g.newConn("warm")
	w.Up, w.Down = Profile{}, Profile{}
	w.send(Item{K: "V", Pkt: g.packet(pktOpts{plain: true})}, Op{})
	all := g.packet(pktOpts{plain: true})
	all.Recs[0].Subs = append(all.Recs[0].Subs, everything())
	w.send(Item{K: "V", Pkt: all}, Op{})
	w.Ops = append(w.Ops, Op{K: "wait", I: w.answersDue(), Us: 20 * sec})
	w.op("close", 0)
	for n := g.more(2, 8); n > 0; n-- {
		c := g.newConn("")
		c.Start = 1
		g.start(c, 5*sec)
		g.valid(c, g.r.N(3), func() pktOpts { return pktOpts{plain: true, noPos: g.r.P(1, 3)} })
		if T > 0 && T <= 60*sec && g.r.P(1, 4) {
			// reads nothing any more
			c.ReadAt = -1
			c.Down.Window = g.r.In(1, 100)
			g.valid(c, 4, func() pktOpts { return pktOpts{noPos: true, plain: true} })
		}
		switch g.r.N(7) {
		case 0:
			c.op("close", 0)
		case 1:
			c.op("reset", 0)
		case 2:
			c.op("half", 0)
			c.op("awaitclose", 2*T+30*sec)
		case 3, 4:
			g.ending(c)
			if len(c.Ops) > 0 {
				switch c.Ops[len(c.Ops)-1].K {
				case "half", "close", "reset":
				default:
					c.op([]string{"half", "close", "reset"}[g.r.N(3)], 0)
				}
			}
		case 5:
			it := g.garbage()
			c.send(it, Op{})
			if len(it.bytes()) < 10 || g.r.P(1, 2) {
				c.op([]string{"half", "close", "reset"}[g.r.N(3)], 0)
			}
		case 6:
			c.op("black", 0)
		}
	}
	g.passers("")
	g.p.Mem = len(g.p.Conns) >= 60
	if g.r.P(1, 3) {
		// one that comes later is served as ever
		c := g.canary()
		c.Start = 4*sec + int64(g.r.N(int(6*sec)))
		switch c.Ops[len(c.Ops)-1].K {
		case "half", "close", "reset":
		default:
			c.op("close", 0)
		}
	}
	g.p.Settle = 4*T + 200*sec
	for _, s := range g.p.Stores {
		g.p.Settle += 40 * s.MaxDelay
	}
	g.p.Horizon = 100*T + 2000*sec
}

func (g *gen) c14() {
	g.stores(1)
	if g.p.Stores[0].MaxDelay > 1000000 {
		g.p.Stores[0].MaxDelay = 1000000
	}
	stop := g.r.P(1, 2)
	if stop {
		g.p.StopUs = int64(g.r.N(int(6 * sec)))
		if g.r.P(1, 8) {
			g.p.StopUs = 1
		} else if g.r.P(1, 2) {
			// while the run loop is busy with a connection, or with a failure to take one
			g.p.StopAcc = g.r.In(1, 4)
			g.p.StopUs += 6 * sec
		}
	}
	for k := g.r.N(4); k > 0; k-- {
		g.p.Accept = append(g.p.Accept, AcceptFault{At: g.r.N(8), Count: []int{1, 1, 2, 5, 30}[g.r.N(5)],
			Err: []string{"EMFILE", "ENFILE", "ECONNABORTED", "ENOBUFS", "ENOMEM", "EPROTO"}[g.r.N(6)]})
		if g.r.P(1, 8) {
			g.p.Accept[len(g.p.Accept)-1].Count = g.r.In(100, 1500)
		}
	}
	for n := g.more(1, 6); n > 0; n-- {
		c := g.newConn("")
		g.start(c, 5*sec)
		g.valid(c, g.r.In(1, 3), func() pktOpts { return pktOpts{plain: true} })
		g.finishConn(c)
	}
	g.crowd()
	if stop {
		c := g.canary()
		c.Start = g.p.StopUs + 3*sec + int64(g.r.N(int(3*sec)))
		g.p.Settle = 20 * sec
	}
}
