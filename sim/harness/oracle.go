package main

import (
	"bytes"
	"fmt"
	"time"
)

const eps = 100 * time.Millisecond

func (h *ConnH) arrived() int {
	if len(h.arr) == 0 {
		return 0
	}
	return h.arr[len(h.arr)-1].n
}

// when the stream up to offset n had arrived
func (h *ConnH) when(n int) (time.Time, bool) {
	for _, a := range h.arr {
		if a.n >= n {
			return a.t, true
		}
	}
	return time.Time{}, false
}

// writeOf is the write that finished the answer ending at offset n.
func (h *ConnH) writeOf(n int) (write, bool) {
	for _, x := range h.writes {
		if x.end >= n {
			return x, true
		}
	}
	return write{}, false
}

type occ struct { // one occurrence of a packet to be stored
	e   *Exp
	evs []*SaveEv // by store
	n   int
}

// checkS1 compares what happened on every connection with what the reference model demands.
func (w *World) checkS1() {
	T := us(w.p.TTLus)
	byConn := map[*ConnH][]*SaveEv{}
	for _, ev := range w.saves {
		if ev.encErr != nil {
			w.viol("C03", "a record cannot be encoded: %v", ev.encErr)
			continue
		}
		if ev.jerr != nil || ev.rec == nil {
			w.viol("C03", "store %d was given something that is not one JSON record: %.120q (%v)", ev.store, ev.b0, ev.jerr)
			continue
		}
		if ev.conn == nil {
			w.viol("C03", "store %d was given a record that no packet explains (navigation time %d): %.300s", ev.store, ev.rec.Nav, ev.b0)
			w.viol("C02", "store %d was given a record that no packet explains (navigation time %d)", ev.store, ev.rec.Nav)
			continue
		}
		if !ev.t1.IsZero() && !bytes.Equal(ev.b0, ev.b1) {
			w.viol("C03", "the record changed while store %d was storing it: %.200s became %.200s", ev.store, ev.b0, ev.b1)
		}
		byConn[ev.conn] = append(byConn[ev.conn], ev)
	}
	for _, h := range w.conns {
		if !h.done && h.c.ReadAt == 0 && h.c.ReadBytes == 0 && h.up {
			for _, p := range []string{"C02", "C04"} {
				w.viol(p, "conn %d: the receiver stopped taking what the terminal sends", h.c.ID)
			}
			if h.c.Class == "canary" || h.c.Class == "fast" {
				w.viol("canary", "conn %d: the receiver stopped taking what the terminal sends", h.c.ID)
			}
		}
		w.checkConn(h, byConn[h], T, h.done)
	}
}

func (w *World) checkConn(h *ConnH, evs []*SaveEv, T time.Duration, finished bool) {
	c := h.c
	name := fmt.Sprintf("conn %d", c.ID)
	canary := c.Class == "canary" || c.Class == "fast"
	// bad reports under a property; one that ends in ! is about being served at all and counts, for
	// canaries, under the property the canary watches too
	bad := func(prop, f string, a ...any) {
		msg := name + ": " + fmt.Sprintf(f, a...)
		serve := prop[len(prop)-1] == '!'
		prop = prop[:3]
		w.viol(prop, "%s", msg)
		if canary && serve {
			w.viol("canary", "%s", msg)
		}
	}
	if h.dialErr != nil || !h.up {
		if w.p.StopUs == 0 || c.Class == "canary" {
			bad("C14!", "could not connect: %v", h.dialErr)
			bad("C08", "could not connect: %v", h.dialErr)
		}
		return
	}
	exps, stop, stopAt := c.stream()
	arrived := h.arrived()
	// what excuses the receiver from going on with this connection
	excuse := ""
	switch h.endKind {
	case "close", "reset", "black":
		excuse = "terminal " + h.endKind
	}
	if w.p.StopUs > 0 && c.Class != "canary" {
		excuse = "server stopped"
	}
	if excuse == "" && h.end.peer.blocked > 0 {
		excuse = "answers not read"
	}
	idle := false
	if T > 0 && !h.srvClose.IsZero() && excuse == "" {
		// the receiver may drop a connection that was silent, or whose answers could not be sent, for T
		if h.stalledOut(T) {
			idle = true
			excuse = "write blocked"
		} else if h.maxGap(w, T) > T-time.Millisecond {
			idle = true
			excuse = "silent"
		}
	}
	strict := 0 // number of leading expectations that are exact
	for strict < len(exps) && !exps[strict].Soft && exps[strict].K != "Dx" && exps[strict].K != "M" && exps[strict].K != "G" && exps[strict].K != "T" && exps[strict].K != "after" {
		strict++
	}

	// ---- what was stored
	var want []*Exp
	for i := 0; i < strict; i++ {
		if exps[i].K == "V" && exps[i].Pos && exps[i].End <= arrived {
			want = append(want, &exps[i])
		}
	}
	soft := map[int64]int{}
	for i := strict; i < len(exps); i++ {
		if exps[i].K == "V" && exps[i].Pos && exps[i].Soft {
			soft[exps[i].Key]++
		}
	}
	damaged := map[int64]string{}
	for i := range exps {
		if k := exps[i].K; k == "Dh" || k == "Db" || k == "Dx" {
			damaged[exps[i].Key] = k
		} else if k == "after" || k == "G" {
			damaged[exps[i].Key] = "after"
		} else if k == "T" {
			damaged[exps[i].Key] = "T"
		}
	}
	for i := range exps {
		if exps[i].K == "V" {
			delete(damaged, exps[i].Key)
		}
	}
	occs := make([]*occ, len(want))
	for i := range want {
		occs[i] = &occ{e: want[i], evs: make([]*SaveEv, len(w.p.Stores))}
	}
	for s := range w.p.Stores {
		j := 0
		for _, ev := range evs {
			if ev.store != s {
				continue
			}
			k := ev.rec.Nav
			if j < len(want) && want[j].Key == k {
				occs[j].evs[s] = ev
				w.checkRecord(h, ev, want[j], bad)
				j++
				continue
			}
			if d := damaged[k]; d != "" {
				switch d {
				case "after":
					bad("C09", "store %d was given a record from beyond the byte that is not the protocol", s)
				case "T":
					bad("C02", "store %d was given a record of a packet that never arrived completely", s)
				default:
					bad("C07", "store %d was given a record of a damaged packet (%s)", s, d)
				}
				continue
			}
			if j >= len(want) && soft[k] > 0 {
				soft[k]--
				continue
			}
			why := "out of turn"
			for _, o := range want[:j] {
				if o.Key == k {
					why = "again, or out of order"
				}
			}
			known := false
			for i := range exps {
				if exps[i].Key == k && exps[i].K == "V" {
					known = true
				}
			}
			if !known {
				// the record's key is a position inside one of the packets, not its last one
				bad("C03", "store %d was given a record with navigation time %d, which is not the last one of any packet", s, k)
				bad("C02", "store %d was given a record that no whole packet explains", s)
				break
			}
			bad("C02", "store %d was given the record with navigation time %d %s", s, k, why)
			bad("C11", "store %d was given the record with navigation time %d %s", s, k, why)
			break
		}
		if j < len(want) && excuse == "" && finished {
			bad("C02!", "store %d was never given packet %d of %d (pid %d, item %d), which arrived completely", s, j+1, len(want), want[j].PID, want[j].Item)
			if len(w.p.Stores) > 1 {
				bad("C11", "store %d was never offered record %d of %d", s, j+1, len(want))
			}
		} else if j < len(want) && len(w.p.Stores) > 1 && finished {
			for s2 := range w.p.Stores {
				if occs[j].evs[s2] != nil {
					bad("C11", "store %d was never offered record %d, store %d was", s, j+1, s2)
				}
			}
		}
	}

	// ---- what was answered
	var ans []*Ans
	off := 0
	var perr error
	for off < len(h.out) {
		a, n, err := parseAnswer(h.out[off:])
		if err != nil {
			perr = err
			break
		}
		off += n
		a.End = off
		ans = append(ans, a)
	}
	if perr != nil && perr != errShort {
		bad("C04!", "answer %d is malformed: %v", len(ans)+1, perr)
		bad("C05", "answer %d is malformed: %v", len(ans)+1, perr)
	}
	if perr == errShort && excuse == "" && finished && stop == "" && h.srvClose.IsZero() {
		bad("C04!", "answer %d is incomplete", len(ans)+1)
	}
	ai, oi := 0, 0
	aligned := true
	var lastAns time.Time
	for i := 0; i < strict && aligned; i++ {
		e := &exps[i]
		if e.End > arrived {
			break
		}
		if e.K == "R" {
			continue
		}
		if e.K == "E" {
			// a packet without a body: what it is answered is open, what follows it is not
			if ai < len(ans) && ans[ai].Type == 0 && ans[ai].RPID == e.PID {
				if len(ans[ai].CRN) > 0 {
					bad("C04", "the response to the bodiless packet %d confirms records", e.PID)
				}
				wr, _ := h.writeOf(ans[ai].End)
				lastAns = wr.t
				ai++
			}
			continue
		}
		var o *occ
		if e.Pos && e.K == "V" {
			o = occs[oi]
			oi++
		}
		failed, pending := false, false
		if o != nil {
			for _, ev := range o.evs {
				if ev != nil && ev.err != nil {
					failed = true
				}
				if ev != nil && ev.t1.IsZero() {
					pending = true
				}
			}
		}
		if ai >= len(ans) {
			if excuse == "" && finished && !pending && perr == nil {
				switch e.K {
				case "V":
					bad("C04!", "packet %d (pid %d, item %d) was never answered", i+1, e.PID, e.Item)
				default:
					bad("C07", "damaged packet %d (pid %d) was never answered", i+1, e.PID)
				}
			}
			aligned = false
			break
		}
		a := ans[ai]
		wr, _ := h.writeOf(a.End)
		if a.Type != 0 {
			bad("C05", "unrequested %v where the response to pid %d was due", a, e.PID)
			bad("C04!", "%v where the response to pid %d was due", a, e.PID)
			aligned = false
			break
		}
		if a.RPID != e.PID {
			p := "C04"
			if e.K != "V" {
				p = "C07"
			}
			bad(p+"!", "%v where the response to packet %d (pid %d, %s) was due", a, i+1, e.PID, e.K)
			if p == "C04" && (i > 0 && exps[i-1].K == "R") {
				bad("C04", "a response packet was answered")
			}
			aligned = false
			break
		}
		if at, ok := h.when(e.End); !ok || wr.t.Before(at) {
			bad("C04", "pid %d was answered before it had arrived", e.PID)
		}
		if e.K == "V" {
			if a.PR == 0 {
				if o != nil {
					for s, ev := range o.evs {
						switch {
						case ev == nil:
							bad("C01", "pid %d was acknowledged as successful but store %d was never given it", e.PID, s)
						case ev.t1.IsZero() || ev.seq1 > wr.seq:
							bad("C01", "pid %d was acknowledged as successful before store %d had accepted it", e.PID, s)
						case ev.err != nil:
							bad("C01", "pid %d was acknowledged as successful although store %d refused it", e.PID, s)
						}
					}
				}
				if fmt.Sprint(a.CRN) != fmt.Sprint(e.RNs) {
					bad("C04", "the response to pid %d confirms records %v, sent were %v", e.PID, a.CRN, e.RNs)
				}
				for _, r := range a.RST {
					if r != 0 {
						bad("C04", "the success response to pid %d carries record status %d", e.PID, r)
					}
				}
				if a.Other > 0 || len(a.Codes) > 0 {
					bad("C04", "the response to pid %d carries other subrecords", e.PID)
				}
			} else if !failed {
				bad("C04!", "pid %d is valid and no storage refused it, but the response says %d", e.PID, a.PR)
			}
		} else {
			if a.PR != e.Code {
				bad("C07", "the response to damaged packet pid %d (%s) carries %d instead of %d", e.PID, e.K, a.PR, e.Code)
			}
			for _, r := range a.RST {
				if r == 0 {
					bad("C07", "the response to damaged packet pid %d confirms records", e.PID)
				}
			}
		}
		if canary && w.p.Check == "C12" {
			w.checkLatency(h, e, o, wr, lastAns, bad)
		}
		if c.Down.Window == 0 && c.ReadAt == 0 && c.ReadBytes == 0 {
			if d, own := h.lag(e, o, wr, lastAns); d > own+10*time.Second {
				p := "C04"
				if e.K != "V" {
					p = "C07"
				}
				bad(p, "the answer to pid %d came %v after the packet had arrived and the ones before it were answered (its own storage took %v)", e.PID, d, own)
			}
		}
		lastAns = wr.t
		ai++
		if e.K == "V" && e.Auth {
			if ai < len(ans) && ans[ai].Type == 1 {
				b := ans[ai]
				if len(b.Codes) != 1 || b.Codes[0] != 0 || b.Other != 0 || len(b.CRN) != 0 || b.Records != 1 {
					bad("C05", "pid %d asked for authorisation and got %v", e.PID, b)
				}
				ai++
			} else {
				if ai < len(ans) || (excuse == "" && finished && perr == nil) {
					bad("C05", "pid %d asked for authorisation and got no result code after its response", e.PID)
				}
			}
		} else if ai < len(ans) && ans[ai].Type == 1 {
			bad("C05", "pid %d did not ask for authorisation but its response is followed by %v", e.PID, ans[ai])
			aligned = false
		}
	}
	if aligned && ai < len(ans) && (stop == "" || stop == "G" || stop == "T") {
		a := ans[ai]
		switch {
		case stop == "G":
			bad("C09", "%v was sent for something beyond the byte that is not the protocol", a)
		case a.Type == 1:
			bad("C05", "unrequested %v", a)
		default:
			bad("C04", "nobody asked for %v", a)
		}
	}

	// ---- when the connection was closed
	saves := func(t time.Time) time.Duration {
		var d time.Duration
		for _, ev := range evs {
			if ev.t1.IsZero() || ev.t1.After(t) {
				d += ev.delay
			}
		}
		return d
	}
	if stop == "G" && stopAt+10 <= arrived && excuse == "" {
		at, _ := h.when(stopAt + 10)
		at = laterOf(at, lastEvent(h, evs))
		if h.srvClose.IsZero() {
			bad("C09", "the receiver has not closed the connection")
		} else if h.srvClose.After(at.Add(time.Second)) {
			bad("C09", "the receiver closed the connection only %v after the bytes that are not the protocol", h.srvClose.Sub(at))
		}
	}
	if !h.srvClose.IsZero() && excuse == "" && stop != "G" && stop != "Dx" && stop != "M" {
		if h.finAt.IsZero() || h.srvClose.Before(h.finAt) {
			bad("C10", "the receiver closed a connection that was never silent for its lifetime %v (greatest gap %v)", T, h.maxGap(w, T))
			bad("C02", "the receiver closed the connection for no reason")
			bad("C04!", "the receiver closed the connection for no reason")
		}
	}
	_ = idle
	if T > 0 && stop != "G" && stop != "Dx" && stop != "M" && (h.endKind == "" || h.endKind == "black") {
		// silence from the last arrival on
		last := h.tPair
		if len(h.arr) > 0 {
			last = h.arr[len(h.arr)-1].t
		}
		busy := laterOf(last, lastEvent(h, evs))
		limit := busy.Add(2*T + time.Second)
		if time.Now().After(limit) && (h.srvClose.IsZero() || h.srvClose.After(limit)) {
			bad("C10", "nothing was received for more than %v, but the connection was not closed within %v", T, limit.Sub(last))
		}
	}
	if (h.endKind == "half" || h.endKind == "close" || h.endKind == "reset") && !h.finAt.IsZero() && (T > 0 || h.endKind != "half" || c.ReadAt >= 0) {
		at := laterOf(h.finAt, lastEvent(h, evs))
		limit := at.Add(T + time.Second)
		if c.ReadBytes > 0 || c.ReadAt != 0 {
			limit = limit.Add(10 * T)
			if T == 0 {
				limit = limit.Add(time.Hour)
			}
		}
		if time.Now().After(limit) && (h.srvClose.IsZero() || h.srvClose.After(limit)) {
			bad("C13", "the terminal ended the connection (%s) at %v, the receiver did not close its side within %v", h.endKind, h.finAt.Sub(w.t0), limit.Sub(h.finAt))
		}
	}
	_ = saves
	w.count["packets"] += int64(len(exps))
	w.count["stored"] += int64(len(evs))
	w.count["answers"] += int64(len(ans))
	w.count["bytes"] += int64(arrived)
}

func laterOf(a, b time.Time) time.Time {
	if b.After(a) {
		return b
	}
	return a
}

// lastEvent is when the receiver last did something for the connection: stored, wrote or read.
func lastEvent(h *ConnH, evs []*SaveEv) time.Time {
	var t time.Time
	for _, ev := range evs {
		t = laterOf(t, ev.t1)
	}
	if len(h.writes) > 0 {
		t = laterOf(t, h.writes[len(h.writes)-1].t)
	}
	if len(h.reads) > 0 {
		t = laterOf(t, h.reads[len(h.reads)-1].t)
	}
	return t
}

// maxGap is the longest silence seen by the receiver up to its closing the connection.
func (h *ConnH) maxGap(w *World, T time.Duration) time.Duration {
	last := h.tPair
	var g time.Duration
	for _, a := range h.arr {
		if !h.srvClose.IsZero() && a.t.After(h.srvClose) {
			break
		}
		if d := a.t.Sub(last); d > g {
			g = d
		}
		last = a.t
	}
	end := time.Now()
	if !h.srvClose.IsZero() {
		end = h.srvClose
	}
	if d := end.Sub(last); d > g {
		g = d
	}
	return g
}

// stalledOut: the last write was not taken by the terminal for T.
func (h *ConnH) stalledOut(T time.Duration) bool {
	if h.end == nil {
		return false
	}
	p := h.end.peer
	return p.blockedFor >= T-time.Millisecond
}

func (w *World) checkRecord(h *ConnH, ev *SaveEv, e *Exp, bad func(prop, f string, a ...any)) {
	if d := diffRec(ev.rec, e.Model); d != "" {
		bad("C03", "the record of pid %d says %s", e.PID, d)
	} else if e.Model.Mixed {
		w.viols = append(w.viols, Viol{Prop: "C03", Known: "mixed-objects", Msg: fmt.Sprintf("conn %d: positions of several objects in pid %d stored under the last one's id %d", h.c.ID, e.PID, ev.rec.ClientID)})
	}
	t, err := time.Parse(time.RFC3339, ev.rec.Received)
	if err != nil {
		bad("C03", "received_dt %q", ev.rec.Received)
		return
	}
	if _, o := t.Zone(); o != 0 {
		bad("C03", "received_dt %q is not in UTC", ev.rec.Received)
		return
	}
	first, ok := h.when(e.Begin + 1)
	if ok && !w.wall(t, first, ev.t0) {
		bad("C03", "received_dt %q of pid %d, which arrived from %v on and was stored at %v", ev.rec.Received, e.PID, first.UTC(), w.t0.Add(ev.t0.Sub(w.t0)).UTC())
	}
}

// wall: whether t, in whole seconds, is what the wall clock said at some time from a to b.
func (w *World) wall(t, a, b time.Time) bool {
	from, off := w.t0, time.Duration(0)
	for i := 0; i <= len(w.p.Jumps); i++ {
		to := b
		if i < len(w.p.Jumps) {
			to = w.t0.Add(us(w.p.Jumps[i][0]))
		}
		// off is in effect in [from, to]
		lo, hi := laterOf(from, a), w.t0.Add(b.Sub(w.t0))
		if to.Before(hi) {
			hi = to
		}
		if !hi.Before(lo) && !t.Before(lo.Add(off).Truncate(time.Second)) && !t.After(hi.Add(off)) {
			return true
		}
		if i < len(w.p.Jumps) {
			from, off = to, us(w.p.Jumps[i][1])
		}
	}
	return false
}

func (w *World) checkLatency(h *ConnH, e *Exp, o *occ, wr write, lastAns time.Time, bad func(prop, f string, a ...any)) {
	if d, own := h.lag(e, o, wr, lastAns); d > own+eps {
		bad("C12", "pid %d was answered %v after it could have been (its own storage took %v)", e.PID, d, own)
	}
}

// lag is how long after its arrival, or after the answer before it, a packet was answered, and how long
// storing it took.
func (h *ConnH) lag(e *Exp, o *occ, wr write, lastAns time.Time) (d, own time.Duration) {
	at, ok := h.when(e.End)
	if !ok {
		return 0, 0
	}
	if o != nil {
		for _, ev := range o.evs {
			if ev != nil {
				own += ev.delay
			}
		}
	}
	return wr.t.Sub(laterOf(at, lastAns)), own
}
