package main

import (
	"encoding/json"
	"runtime"
	"sync"
	"time"
)

// minimiser makes a failing plan smaller while it keeps failing the same check.
type minimiser struct {
	id    string
	end   time.Time
	tries int
}

func clone(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

func (m *minimiser) over() bool { return time.Now().After(m.end) }

func (m *minimiser) fails(p *Plan) bool {
	r := runPlan(p, false)
	return r.Harness == "" && match(m.id, r) != nil
}

// first tries candidates, a batch at a time, and returns the first that still fails.
func (m *minimiser) first(cs []func(p *Plan) bool, p *Plan) (int, *Plan) {
	nw := runtime.NumCPU()
	for at := 0; at < len(cs) && !m.over(); at += nw {
		n := nw
		if at+n > len(cs) {
			n = len(cs) - at
		}
		qs := make([]*Plan, n)
		ok := make([]bool, n)
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			q := clone(p)
			if !cs[at+k](q) {
				continue
			}
			qs[k] = q
			wg.Add(1)
			m.tries++
			go func(k int) {
				defer wg.Done()
				ok[k] = m.fails(qs[k])
			}(k)
		}
		wg.Wait()
		for k := 0; k < n; k++ {
			if ok[k] {
				return at + k, qs[k]
			}
		}
	}
	return -1, nil
}

// greedy applies candidates again and again until none helps.
func (m *minimiser) greedy(p *Plan, gen func(p *Plan) []func(p *Plan) bool) *Plan {
	for !m.over() {
		_, q := m.first(gen(p), p)
		if q == nil {
			return p
		}
		p = q
	}
	return p
}

func (m *minimiser) run(p *Plan) *Plan {
	p = clone(p)
	// the schedule: perhaps the plainest one fails as well
	plain := func(q *Plan) bool {
		if q.Sched.Policy == 0 && len(q.Sched.Devs) == 0 {
			return false
		}
		q.Sched = Sched{}
		return true
	}
	if _, q := m.first([]func(*Plan) bool{plain}, p); q != nil {
		p = q
	}
	p = m.greedy(p, func(p *Plan) []func(*Plan) bool {
		var cs []func(*Plan) bool
		for i := range p.Conns {
			i := i
			if p.Conns[i].Class == "warm" {
				continue
			}
			cs = append(cs, func(q *Plan) bool { q.Conns = append(q.Conns[:i], q.Conns[i+1:]...); return len(q.Conns) > 0 })
		}
		for i := range p.Terms {
			i := i
			cs = append(cs, func(q *Plan) bool { q.Terms = append(q.Terms[:i], q.Terms[i+1:]...); return len(q.Terms) > 0 })
		}
		for i := range p.Gens {
			i := i
			cs = append(cs, func(q *Plan) bool { q.Gens = append(q.Gens[:i], q.Gens[i+1:]...); return len(q.Gens) > 0 })
		}
		for i := range p.Backends {
			i := i
			for j := range p.Backends[i].Faults {
				j := j
				cs = append(cs, func(q *Plan) bool {
					b := &q.Backends[i]
					b.Faults = append(b.Faults[:j], b.Faults[j+1:]...)
					return true
				})
			}
		}
		for i := range p.Events {
			i := i
			cs = append(cs, func(q *Plan) bool { q.Events = append(q.Events[:i], q.Events[i+1:]...); return true })
		}
		if len(p.Jumps) > 0 {
			cs = append(cs, func(q *Plan) bool { q.Jumps = nil; return true })
			for i := range p.Jumps {
				i := i
				cs = append(cs, func(q *Plan) bool { q.Jumps = append(q.Jumps[:i], q.Jumps[i+1:]...); return true })
			}
		}
		if len(p.NoLog) > 0 {
			cs = append(cs, func(q *Plan) bool { q.NoLog = nil; return true })
		}
		for i := range p.NoFile {
			i := i
			cs = append(cs, func(q *Plan) bool { q.NoFile = append(q.NoFile[:i], q.NoFile[i+1:]...); return true })
		}
		for i := range p.Accept {
			i := i
			cs = append(cs, func(q *Plan) bool { q.Accept = append(q.Accept[:i], q.Accept[i+1:]...); return true })
		}
		return cs
	})
	p = m.greedy(p, func(p *Plan) []func(*Plan) bool {
		var cs []func(*Plan) bool
		for i, c := range p.Conns {
			i := i
			if c.Class == "warm" {
				continue
			}
			for n := len(c.Ops) / 2; n >= 1; n /= 2 {
				for at := 0; at+n <= len(c.Ops); at += n {
					at, n := at, n
					cs = append(cs, func(q *Plan) bool {
						c := q.Conns[i]
						c.Ops = append(c.Ops[:at], c.Ops[at+n:]...)
						return true
					})
				}
			}
			for j, op := range c.Ops {
				j := j
				if len(op.Cuts) > 0 {
					cs = append(cs, func(q *Plan) bool { q.Conns[i].Ops[j].Cuts = nil; return true })
				}
			}
		}
		return cs
	})
	p = m.greedy(p, func(p *Plan) []func(*Plan) bool {
		var cs []func(*Plan) bool
		for i, c := range p.Conns {
			i := i
			if c.Up != (Profile{}) {
				cs = append(cs, func(q *Plan) bool { q.Conns[i].Up = Profile{}; return true })
			}
			if c.Down != (Profile{}) {
				cs = append(cs, func(q *Plan) bool { q.Conns[i].Down = Profile{}; return true })
			}
			if c.Start > 1 {
				cs = append(cs, func(q *Plan) bool { q.Conns[i].Start = 0; return true })
			}
			for j, it := range c.Items {
				j := j
				if it.Pkt == nil || it.K != "V" {
					continue
				}
				for k := range it.Pkt.Recs {
					k := k
					if len(it.Pkt.Recs) > 1 {
						cs = append(cs, func(q *Plan) bool {
							p := q.Conns[i].Items[j].Pkt
							p.Recs = append(p.Recs[:k], p.Recs[k+1:]...)
							return true
						})
					}
					for l := range it.Pkt.Recs[k].Subs {
						l := l
						if len(it.Pkt.Recs[k].Subs) > 1 {
							cs = append(cs, func(q *Plan) bool {
								r := &q.Conns[i].Items[j].Pkt.Recs[k]
								r.Subs = append(r.Subs[:l], r.Subs[l+1:]...)
								return true
							})
						}
					}
				}
			}
		}
		for i, t := range p.Terms {
			i := i
			if t.Up != (Profile{}) {
				cs = append(cs, func(q *Plan) bool { q.Terms[i].Up = Profile{}; return true })
			}
			if t.Down != (Profile{}) {
				cs = append(cs, func(q *Plan) bool { q.Terms[i].Down = Profile{}; return true })
			}
			if t.Window > 1 {
				cs = append(cs, func(q *Plan) bool { q.Terms[i].Window = 1; return true })
			}
			for j := range t.Faults {
				j := j
				cs = append(cs, func(q *Plan) bool {
					t := q.Terms[i]
					t.Faults = append(t.Faults[:j], t.Faults[j+1:]...)
					return true
				})
			}
			for j := range t.Pkts {
				j := j
				cs = append(cs, func(q *Plan) bool {
					t := q.Terms[i]
					t.Pkts = append(t.Pkts[:j], t.Pkts[j+1:]...)
					t.Gaps = append(t.Gaps[:j], t.Gaps[j+1:]...)
					return len(t.Pkts) > 0
				})
			}
		}
		if p.Net != (Profile{}) {
			cs = append(cs, func(q *Plan) bool { q.Net = Profile{}; return true })
		}
		for i, b := range p.Backends {
			i := i
			if b.MaxDelay > 0 {
				cs = append(cs, func(q *Plan) bool { q.Backends[i].MaxDelay = 0; return true })
			}
		}
		for i, t := range p.Gens {
			i := i
			if t.Up != (Profile{}) {
				cs = append(cs, func(q *Plan) bool { q.Gens[i].Up = Profile{}; return true })
			}
			if t.Down != (Profile{}) {
				cs = append(cs, func(q *Plan) bool { q.Gens[i].Down = Profile{}; return true })
			}
			if t.Delay > 0 {
				cs = append(cs, func(q *Plan) bool { q.Gens[i].Delay = 0; return true })
			}
			if len(t.Cuts) > 0 {
				cs = append(cs, func(q *Plan) bool { q.Gens[i].Cuts = nil; return true })
			}
			if t.End != "" {
				cs = append(cs, func(q *Plan) bool { q.Gens[i].End = ""; return true })
			}
			if n := len(t.Ans); n > 1 {
				cs = append(cs, func(q *Plan) bool { q.Gens[i].Ans = q.Gens[i].Ans[:n-1]; return true })
			}
		}
		for i, s := range p.Stores {
			i := i
			if s.MaxDelay > 0 {
				cs = append(cs, func(q *Plan) bool { q.Stores[i].MaxDelay = 0; return true })
			}
			if s.FailNum > 0 && len(p.Stores) > 1 {
				cs = append(cs, func(q *Plan) bool { q.Stores[i].FailNum = 0; return true })
			}
		}
		if p.Debug {
			cs = append(cs, func(q *Plan) bool { q.Debug = false; return true })
		}
		return cs
	})
	// items nobody sends any more
	for _, c := range p.Conns {
		used := map[int]bool{}
		for _, op := range c.Ops {
			if op.K == "send" {
				used[op.I] = true
			}
		}
		for i := range c.Items {
			if !used[i] {
				c.Items[i] = Item{K: "R", Pkt: &Pkt{}}
			}
		}
	}
	// what is left of the schedule
	if p.Sched.Policy != 0 && !m.over() {
		if _, q := m.first([]func(*Plan) bool{plain}, p); q != nil {
			return q
		}
		r := runPlan(p, false)
		if r.Dropped == 0 {
			q := clone(p)
			q.Sched = Sched{Devs: r.Devs}
			if m.tries++; m.fails(q) {
				p = q
				for n := (len(p.Sched.Devs) + 1) / 2; n >= 1 && !m.over(); {
					var cs []func(*Plan) bool
					for at := 0; at < len(p.Sched.Devs); at += n {
						at := at
						e := at + n
						if e > len(p.Sched.Devs) {
							e = len(p.Sched.Devs)
						}
						cs = append(cs, func(q *Plan) bool {
							q.Sched.Devs = append(append([][3]int64(nil), q.Sched.Devs[:at]...), q.Sched.Devs[e:]...)
							return true
						})
					}
					if _, q := m.first(cs, p); q != nil {
						p = q
						if n > len(p.Sched.Devs) {
							n = len(p.Sched.Devs)
						}
						if n == 0 {
							break
						}
						continue
					}
					if n == 1 {
						break
					}
					n = (n + 1) / 2
				}
			}
		}
	}
	return p
}
