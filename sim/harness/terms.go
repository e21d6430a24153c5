package main

import (
	"time"
)

// Terminals that keep every packet until it is acknowledged as successful and send it again otherwise.

type Term struct {
	ID     int      `json:"id"`
	Start  int64    `json:"start_us"`
	Window int      `json:"window"`     // packets under way at a time
	Ack    int64    `json:"ack_us"`     // how long it waits for an answer before it gives the connection up
	Back   int64    `json:"backoff_us"` // pause after a refusal or a lost connection
	Up     Profile  `json:"up"`
	Down   Profile  `json:"down"`
	Pkts   []*Pkt   `json:"pkts"`
	Gaps   []int64  `json:"gaps_us"` // time between records coming into being
	Faults []TFault `json:"faults,omitempty"`
}

// TFault strikes the connection the terminal has at that time.
type TFault struct {
	At int64  `json:"at_us"`
	K  string `json:"k"` // reset close black half stallup stalldown
	Us int64  `json:"us,omitempty"`
}

type TermH struct {
	t      *Term
	w      *World
	name   string
	exp    map[uint16]*Exp
	pend   []*pend
	out    []byte // written by the receiver on the present connection
	parsed int
	e      *End
	conns  int
	gotN   int
	wait   []chan struct{}
	dead   bool
}

type pend struct {
	p     *Pkt
	key   int64
	pos   bool
	from  time.Time // not sent before
	born  time.Time
	sent  time.Time // on this connection
	acked time.Time
}

func (w *World) addTerm(t *Term) {
	h := &TermH{t: t, w: w, name: "terminal " + string(rune('0'+t.ID%10)), exp: map[uint16]*Exp{}}
	for _, p := range t.Pkts {
		e := &Exp{K: "V", PID: p.PID, Pos: p.hasPos(), Model: p.model()}
		e.Key = e.Model.Nav
		h.exp[p.PID] = e
		if e.Pos {
			w.models[e.Key] = e.Model
		}
		h.pend = append(h.pend, &pend{p: p, key: e.Key, pos: e.Pos})
	}
	w.terms = append(w.terms, h)
	w.count["packets"] += int64(len(t.Pkts))
}

func (h *TermH) left() int {
	n := 0
	for _, p := range h.pend {
		if p.acked.IsZero() {
			n++
		}
	}
	return n
}

// until waits for something to happen or the time to come.
func (h *TermH) until(t time.Time) {
	d := time.Until(t)
	if d <= 0 {
		return
	}
	tm := time.AfterFunc(d, func() { wake(&h.wait) })
	ch := make(chan struct{})
	h.wait = append(h.wait, ch)
	<-ch
	tm.Stop()
}

func (w *World) runTerm(h *TermH) {
	t := h.t
	at := time.Now().Add(us(t.Start))
	for i, p := range h.pend {
		at = at.Add(us(t.Gaps[i]))
		p.from, p.born = at, at
	}
	for _, f := range t.Faults {
		f := f
		time.AfterFunc(us(f.At), func() {
			e := h.e
			if e == nil || e.closed {
				return
			}
			w.f.add("terminal-" + f.K)
			w.log("%s: %s", h.name, f.K)
			switch f.K {
			case "reset":
				e.abort()
			case "close":
				e.kclose()
			case "half":
				e.halfClose()
			case "black":
				e.c.blackhole()
			case "stallup":
				e.stall(us(f.Us))
			case "stalldown":
				e.peer.stall(us(f.Us))
			}
			wake(&h.wait)
		})
	}
	time.Sleep(us(t.Start))
	for h.left() > 0 && !w.over {
		h.out, h.parsed = nil, 0
		h.conns++
		var got []byte
		gotParsed := 0
		e, err := w.net.dialHook(w.p.addr(), uint64(5000+100*t.ID+h.conns), t.Up, t.Down, func(p *Pipe) {
			a := p.ends[1]
			a.onWrite = func(b []byte) {
				h.out = append(h.out, b...)
				for {
					x, n, err := parseAnswer(h.out[h.parsed:])
					if err != nil {
						return
					}
					h.parsed += n
					if x.Type == 0 {
						w.answerS2(h.name, h.exp[x.RPID], x, nil)
					}
				}
			}
		})
		if err != nil {
			w.log("%s: dial: %v", h.name, err)
			time.Sleep(us(t.Back))
			continue
		}
		w.log("%s: connection %d", h.name, h.conns)
		h.e = e
		e.onState = func() { wake(&h.wait) }
		for _, p := range h.pend {
			p.sent = time.Time{}
		}
		for h.left() > 0 && !e.closed && !w.over {
			// what came
			got = append(got, e.rbuf...)
			e.rbuf = e.rbuf[:0:0]
			wake(&e.peer.waitW)
			for {
				x, n, err := parseAnswer(got[gotParsed:])
				if err != nil {
					break
				}
				gotParsed += n
				if x.Type == 0 {
					h.answer(x)
				}
			}
			if e.rfin || e.rst {
				break
			}
			// what to send
			now := time.Now()
			flying := 0
			next := now.Add(time.Hour)
			give := false
			for _, p := range h.pend {
				if p.acked.IsZero() && !p.sent.IsZero() {
					flying++
					if d := p.sent.Add(us(t.Ack)); !d.After(now) {
						give = true
					} else if d.Before(next) {
						next = d
					}
				}
			}
			if give {
				w.count["gave-up"]++
				w.log("%s: no answer in time", h.name)
				break
			}
			sent := false
			for _, p := range h.pend {
				if flying >= t.Window {
					break
				}
				if !p.acked.IsZero() || !p.sent.IsZero() {
					continue
				}
				if p.from.After(now) {
					if p.from.Before(next) {
						next = p.from
					}
					continue
				}
				p.sent = now
				flying++
				sent = true
				w.count["sends"]++
				if _, err := e.write(p.p.encode()); err != nil {
					break
				}
			}
			if sent || len(e.rbuf) > 0 {
				continue
			}
			h.until(next)
		}
		if !e.closed {
			e.kclose()
		}
		h.e = nil
		if h.left() > 0 {
			time.Sleep(us(t.Back))
		}
	}
}

func (h *TermH) answer(x *Ans) {
	for _, p := range h.pend {
		if p.p.PID != x.RPID {
			continue
		}
		if x.PR == 0 {
			if p.acked.IsZero() {
				p.acked = time.Now()
				h.w.count["acked"]++
				h.w.log("%s: drops pid %d", h.name, x.RPID)
			}
		} else if p.acked.IsZero() {
			p.sent = time.Time{}
			p.from = time.Now().Add(us(h.t.Back))
		}
	}
}

// checkTerm: nothing acknowledged is lost, and everything got through in time.
func (w *World) checkTerm(h *TermH) {
	prop := "C19"
	if w.p.Check == "C16" {
		prop = "C16"
	}
	for _, p := range h.pend {
		if p.acked.IsZero() {
			if time.Since(w.calm()) > us(w.p.Limit) {
				w.viol(prop, "%s: pid %d was not acknowledged within %v after the last fault", h.name, p.p.PID, us(w.p.Limit))
			}
			continue
		}
		if d := p.acked.Sub(w.calm()); d > us(w.p.Limit) {
			w.viol(prop, "%s: pid %d was acknowledged only %v after the last fault", h.name, p.p.PID, d)
		}
		if !p.pos {
			continue
		}
		for _, k := range w.brokers {
			if !k.b.Inactive && !k.has(p.key) {
				w.viol("C19", "%s: pid %d was acknowledged and dropped but %s does not have its record", h.name, p.p.PID, k.b.Kind)
			}
		}
	}
}

// calm is when the last fault was over and the last record had come into being.
func (w *World) calm() time.Time {
	t := w.tl
	for _, f := range w.p.NoFile {
		t = laterOf(t, w.tl.Add(us(f[1])))
	}
	for _, k := range w.brokers {
		for _, f := range k.b.Faults {
			t = laterOf(t, w.tl.Add(us(f.To)))
		}
	}
	for _, h := range w.terms {
		for _, f := range h.t.Faults {
			t = laterOf(t, w.tl.Add(us(f.At+f.Us)))
		}
		for _, p := range h.pend {
			t = laterOf(t, p.born)
		}
	}
	return laterOf(t, w.lastUp)
}
