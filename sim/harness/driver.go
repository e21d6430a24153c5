package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type job struct {
	Plan    *Plan `json:"plan"`
	Verbose bool  `json:"verbose"`
}

func main() {
	if os.Getenv("EGSIM_WORKER") != "" {
		b, err := readAll(0)
		if err != nil {
			fmt.Fprintln(os.Stderr, "EGSIM-HARNESS", err)
			os.Exit(4)
		}
		var j job
		if err := json.Unmarshal(b, &j); err != nil {
			fmt.Fprintln(os.Stderr, "EGSIM-HARNESS", err)
			os.Exit(4)
		}
		worker(j.Plan, j.Verbose)
		return
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: egsim check ID TIER | replay FILE | run CHECK SEED [verbose] | plan CHECK SEED")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "run", "plan", "loop":
		seed, err := strconv.ParseUint(os.Args[3], 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		p := genPlan(os.Args[2], seed, tierOf())
		if os.Args[1] == "plan" {
			b, _ := json.MarshalIndent(p, "", " ")
			fmt.Println(string(b))
			return
		}
		r := runPlan(p, true)
		printResult(r)
	}
}

func tierOf() string {
	if t := os.Getenv("VERIF_TIER"); t != "" {
		return t
	}
	return "quick"
}

func readAll(fd int) ([]byte, error) {
	var b []byte
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(fd, buf)
		if n > 0 {
			b = append(b, buf[:n]...)
		}
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return b, err
		}
		if n == 0 {
			return b, nil
		}
	}
}

func printResult(r *Result) {
	for _, t := range r.Trace {
		fmt.Println(t)
	}
	if r.Harness != "" {
		fmt.Println("HARNESS:", r.Harness)
	}
	for _, v := range r.Viols {
		fmt.Printf("%s: %s %s\n", v.Prop, v.Msg, v.Known)
	}
	fmt.Printf("sim %.3fs steps %d switches %d preempts %d devs %d dropped %d hash %s faults %v count %v\n", float64(r.SimUs)/1e6, r.Steps, r.Switches, r.Preempts, len(r.Devs), r.Dropped, r.Hash, r.Faults, r.Count)
}

var panicRe = regexp.MustCompile(`EGSIM-PANIC node=(\d+)`)

// runPlan runs a plan in a process of its own.
func runPlan(p *Plan, verbose bool) *Result {
	b, err := json.Marshal(job{p, verbose})
	if err != nil {
		panic(err)
	}
	for try := 0; try < 2; try++ {
		if r := runOnce(b); r != nil {
			for i := range r.Viols {
				if v := &r.Viols[i]; v.Known != "" && !isKnown(v.Prop, v.Known) {
					v.Known = ""
				}
			}
			return r
		}
	}
	return &Result{Harness: "the run did not end within the watchdog's time"}
}

var watchdog = 200 * time.Second

func runOnce(in []byte) *Result {
	ctx, cancel := context.WithTimeout(context.Background(), watchdog)
	defer cancel()
	c := exec.CommandContext(ctx, "/proc/self/exe")
	c.Env = []string{"EGSIM_WORKER=1", "GOMAXPROCS=1", "GOGC=off", "GOMEMLIMIT=3GiB", "GOTRACEBACK=single", "PATH=" + os.Getenv("PATH")}
	c.Stdin = bytes.NewReader(in)
	var out, eb bytes.Buffer
	c.Stdout = &out
	c.Stderr = &eb
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	err := c.Run()
	runtime.UnlockOSThread()
	if ctx.Err() != nil {
		return nil
	}
	if i := bytes.LastIndex(out.Bytes(), []byte("\nEGSIM-RESULT ")); i >= 0 && err == nil {
		r := &Result{}
		s := out.Bytes()[i+len("\nEGSIM-RESULT "):]
		if j := bytes.IndexByte(s, '\n'); j >= 0 {
			s = s[:j]
		}
		if e := json.Unmarshal(s, r); e == nil {
			return r
		} else {
			return &Result{Harness: "unreadable result: " + e.Error()}
		}
	}
	es := eb.String()
	if m := panicRe.FindStringSubmatch(es); m != nil {
		n, _ := strconv.Atoi(m[1])
		if n >= nodeRecv {
			return &Result{Viols: []Viol{{Prop: "crash", Msg: fmt.Sprintf("node %d crashed: %s", n, panicLine(es))}}, Trace: strings.Split(cut(es, 6000), "\n")}
		}
	}
	if strings.Contains(es, "goroutine stack exceeds") {
		return &Result{Viols: []Viol{{Prop: "crash", Msg: "crashed: stack overflow"}}, Trace: strings.Split(cut(es, 3000), "\n")}
	}
	return &Result{Harness: fmt.Sprintf("worker: %v: %s", err, cut(es, 4000))}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func panicLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "panic: ") || strings.Contains(l, "fatal error: ") {
			return strings.TrimSpace(l)
		}
	}
	return "?"
}

// tags lists which findings of a run count as a violation of the property a check decides.
func tags(check string) map[string]bool {
	m := map[string]bool{check: true, "*": true, "crash": true}
	switch check {
	case "C06":
		for _, t := range []string{"C02", "C03", "C04", "C05", "C07", "C09"} {
			m[t] = true
		}
	case "C08", "C12", "C09", "C13", "C14":
		m["canary"] = true
	}
	return m
}

func match(check string, r *Result) *Viol {
	t := tags(check)
	for i := range r.Viols {
		if v := &r.Viols[i]; t[v.Prop] && v.Known == "" {
			return v
		}
	}
	return nil
}

type runOut struct {
	i    int
	seed uint64
	p    *Plan
	r    *Result
	wall time.Duration
	// second run for the determinism check
	again *Result
}

func seedOf(base uint64, i int) uint64 { return mix64(base*0x9e3779b97f4a7c15+uint64(i)+1) >> 1 }

// how many runs a quick check makes
var quickRuns = map[string]int{"C01": 8000, "C02": 5000, "C03": 6000, "C04": 5000, "C05": 8000, "C06": 4000, "C07": 6000,
	"C08": 8000, "C09": 8000, "C10": 6000, "C11": 8000, "C12": 6000, "C13": 6000, "C14": 8000,
	"C15": 5000, "C16": 3000, "C17": 5000, "C18": 8000, "C19": 4000, "C20": 5000}

func check(id, tier string) int {
	t0 := time.Now()
	base := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			base = v
		}
	}
	runs := 1500
	limit := 150 * time.Second
	if n := quickRuns[id]; n > 0 {
		runs = n
	}
	if tier == "thorough" {
		runs = 1 << 30
		limit = 20 * time.Minute
	}
	if s := os.Getenv("EGSIM_RUNS"); s != "" {
		runs, _ = strconv.Atoi(s)
	}
	if s := os.Getenv("EGSIM_SECONDS"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	if genPlan(id, 1, tier) == nil {
		fmt.Fprintf(os.Stderr, "no such check %s\n", id)
		return 2
	}
	jobs := make(chan int)
	outs := make(chan *runOut)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	nw := runtime.NumCPU()
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range jobs {
				o := &runOut{i: i, seed: seedOf(base, i)}
				o.p = genPlan(id, o.seed, tier)
				t := time.Now()
				o.r = runPlan(o.p, false)
				o.wall = time.Since(t)
				if i%37 == 5 {
					o.again = runPlan(o.p, false)
				}
				outs <- o
			}
		}()
	}
	go func() {
		defer close(jobs)
		for i := 0; i < runs; i++ {
			if time.Since(t0) > limit && i >= 8 {
				return
			}
			select {
			case jobs <- i:
			case <-stop:
				return
			}
		}
	}()
	go func() { wg.Wait(); close(outs) }()
	cov := newCoverage()
	var worst *runOut
	var harness []string
	stopped := false
	knownSeen := map[string]*runOut{}
	for o := range outs {
		cov.add(o)
		if o.r.Harness != "" {
			harness = append(harness, fmt.Sprintf("seed %d: %s", o.seed, o.r.Harness))
			if len(harness) > 3 && !stopped {
				stopped = true
				close(stop)
			}
			continue
		}
		if o.again != nil && !sameResult(o.r, o.again) {
			harness = append(harness, fmt.Sprintf("seed %d: two runs of one plan differ", o.seed))
		}
		for _, v := range o.r.Viols {
			if v.Known != "" && v.Prop == id {
				if knownSeen[v.Known] == nil || knownSeen[v.Known].i > o.i {
					knownSeen[v.Known] = o
				}
			}
		}
		if v := match(id, o.r); v != nil {
			if worst == nil || o.i < worst.i {
				worst = o
			}
			if !stopped {
				stopped = true
				close(stop)
			}
		}
	}
	code := 0
	nviol := 0
	if worst != nil {
		nviol = 1
		code = report(id, worst)
	} else if len(harness) > 0 {
		for _, h := range harness {
			fmt.Fprintln(os.Stderr, "HARNESS:", h)
		}
		code = 2
	}
	for _, k := range sortedKeys(knownSeen) {
		o := knownSeen[k]
		for _, v := range o.r.Viols {
			if v.Known == k {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s; seed %d)\n", id, k, v.Msg, o.seed)
				break
			}
		}
	}
	cov.write(id, tier, base, time.Since(t0), nviol, harness)
	fmt.Printf("%s: %d runs in %.1fs, %.0f s of simulated time, %d distinct schedules\n", id, cov.runs, time.Since(t0).Seconds(), float64(cov.simUs)/1e6, len(cov.hashes))
	return code
}

func sameResult(a, b *Result) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return bytes.Equal(x, y)
}

// root is /verif: the directory above the one of this program.
func root() string {
	if r := os.Getenv("EGSIM_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

var knownOnce sync.Once
var knownSet = map[string]bool{}

// isKnown: the file lists this finding ("known: property=ID NAME: what fails").
func isKnown(prop, name string) bool {
	knownOnce.Do(func() {
		b, _ := os.ReadFile(filepath.Join(root(), "known_findings.txt"))
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) >= 3 && f[0] == "known:" {
				knownSet[strings.TrimPrefix(f[1], "property=")+" "+strings.TrimSuffix(f[2], ":")] = true
			}
		}
	})
	return knownSet[prop+" "+name]
}

// ReplayFile is what a violation is reported with.
type ReplayFile struct {
	Check string   `json:"check"`
	Prop  string   `json:"violation_prop"`
	Msg   string   `json:"violation"`
	Seed  uint64   `json:"seed"`
	Hash  string   `json:"hash"`
	Plan  *Plan    `json:"plan"`
	Trace []string `json:"trace"`
	Note  string   `json:"note"`
}

func report(id string, o *runOut) int {
	v := match(id, o.r)
	// it must come again
	r := runPlan(o.p, false)
	v2 := match(id, r)
	if v2 == nil {
		fmt.Fprintf(os.Stderr, "HARNESS: violation of seed %d (%s: %s) did not come again %s\n", o.seed, v.Prop, v.Msg, r.Harness)
		return 2
	}
	budget := 40 * time.Second
	if tierOf() == "thorough" {
		budget = 5 * time.Minute
	}
	if s := os.Getenv("EGSIM_MIN"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	if o.wall > 5*time.Second {
		budget = min(budget, 15*time.Second)
	}
	m := &minimiser{id: id, end: time.Now().Add(budget)}
	p := m.run(o.p)
	fin := runPlan(p, true)
	v = match(id, fin)
	if v == nil {
		fmt.Fprintf(os.Stderr, "HARNESS: minimised plan of seed %d does not fail\n", o.seed)
		p = o.p
		fin = runPlan(p, true)
		if v = match(id, fin); v == nil {
			return 2
		}
	}
	dir := filepath.Join(root(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, o.seed))
	rf := ReplayFile{Check: id, Prop: v.Prop, Msg: v.Msg, Seed: o.seed, Hash: fin.Hash, Plan: p, Trace: fin.Trace,
		Note: fmt.Sprintf("minimised in %d runs from seed %d; replay with: sim/check.sh replay FILE", m.tries, o.seed)}
	b, _ := json.MarshalIndent(&rf, "", " ")
	os.WriteFile(path, b, 0o644)
	for _, l := range fin.Trace {
		fmt.Println("  " + l)
	}
	fmt.Printf("%s\n", v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	return 1
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := runPlan(rf.Plan, true)
	printResult(r)
	if r.Harness != "" {
		return 2
	}
	if v := match(rf.Check, r); v != nil {
		if r.Hash == rf.Hash {
			fmt.Println("the same execution, step by step, as recorded")
		} else {
			fmt.Printf("a different execution (%s, recorded %s): the code has changed since\n", r.Hash, rf.Hash)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Check, path)
		return 1
	}
	fmt.Println("the property holds on this execution")
	return 0
}

// ---- coverage ------------------------------------------------------------------------------------

type coverage struct {
	runs, again, mism  int
	simUs              int64
	steps              int64
	preempts           int64
	decs               int64
	maxBurst, maxSteps int64
	hashes             map[string]bool
	states             map[string]bool
	faults             map[string]int64
	runsWith           map[string]int64
	count              map[string]int64
	other              map[string]int64
	samples            []any
	policies           map[string]int64
}

func newCoverage() *coverage {
	return &coverage{hashes: map[string]bool{}, states: map[string]bool{}, faults: map[string]int64{}, runsWith: map[string]int64{}, count: map[string]int64{}, other: map[string]int64{}, policies: map[string]int64{}}
}

func (c *coverage) add(o *runOut) {
	r := o.r
	c.runs++
	c.simUs += r.SimUs
	c.steps += r.Steps
	c.preempts += r.Preempts
	c.decs += r.Decs
	c.maxBurst = max(c.maxBurst, r.MaxSteps)
	c.maxSteps = max(c.maxSteps, r.Steps)
	if r.Hash != "" && (r.Count["packets"]+r.Count["cases"] > 0) {
		c.hashes[r.Hash] = true
	}
	var fs []string
	for _, k := range sortedKeys(r.Faults) {
		c.faults[k] += r.Faults[k]
		c.runsWith[k]++
		fs = append(fs, k)
	}
	c.states[strings.Join(fs, ",")] = true
	for k, v := range r.Count {
		c.count[k] += v
	}
	for _, v := range r.Viols {
		c.other[v.Prop]++
	}
	c.policies[fmt.Sprintf("policy %d", o.p.Sched.Policy)]++
	if o.again != nil {
		c.again++
		if !sameResult(r, o.again) {
			c.mism++
		}
	}
	if len(c.samples) < 3 {
		c.samples = append(c.samples, map[string]any{"seed": o.seed, "summary": summary(o.p), "hash": r.Hash, "steps": r.Steps, "simulated_s": float64(r.SimUs) / 1e6, "faults": r.Faults, "counts": r.Count})
	}
}

func summary(p *Plan) string {
	var s []string
	s = append(s, fmt.Sprintf("kind %s, %d storages, lifetime %.0fs, scheduler policy %d, preemption 1/%d", p.Kind, len(p.Stores), float64(p.TTLus)/1e6, p.Sched.Policy, p.Sched.Preempt))
	for _, c := range p.Conns {
		var ops []string
		for _, op := range c.Ops {
			switch op.K {
			case "send":
				it := c.Items[op.I]
				ops = append(ops, fmt.Sprintf("send %s(%d bytes, %d pieces)", it.K, len(it.bytes()), len(op.Cuts)+1))
			case "sleep", "stallup", "stalldown":
				ops = append(ops, fmt.Sprintf("%s %.3fs", op.K, float64(op.Us)/1e6))
			default:
				ops = append(ops, op.K)
			}
		}
		s = append(s, fmt.Sprintf("conn %d %s: %s", c.ID, c.Class, strings.Join(ops, "; ")))
	}
	s = append(s, p.extra()...)
	return strings.Join(s, " | ")
}

func (c *coverage) write(id, tier string, seed uint64, wall time.Duration, nviol int, harness []string) {
	hours := wall.Hours()
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": []string{
			"the simulated TCP, the scripted terminals and the simulated storages/brokers behave as Linux and the real servers do",
			"goroutines switch at statements of the repository's code, at blocking operations and at I/O, not inside a statement; no weak memory effects",
			"packets are lost, repeated or reordered by the network below TCP: here that shows as delay, stall, blackhole and reset",
		},
		"coverage": map[string]any{
			"evaluations":         c.runs,
			"distinct_nontrivial": len(c.hashes),
			"rule": "one evaluation is one simulated run of a plan (terminals, byte streams, network, storages, faults, schedule) made from one seed; " +
				"distinct by the hash of the sequence of goroutine switches and the step counts between them; non-trivial if at least one packet (or case) was exchanged",
			"samples":                  c.samples,
			"runs_per_hour":            int64(float64(c.runs) / hours),
			"seeds_per_hour":           int64(float64(c.runs) / hours),
			"simulated_seconds":        float64(c.simUs) / 1e6,
			"steps":                    c.steps,
			"most_steps_without_time":  c.maxBurst,
			"most_steps_of_a_run":      c.maxSteps,
			"preemptions":              c.preempts,
			"scheduling_decisions":     c.decs,
			"faults_injected":          c.faults,
			"runs_with_fault":          c.runsWith,
			"distinct_fault_sets":      len(c.states),
			"distinct_schedules":       len(c.hashes),
			"scheduler_policies":       c.policies,
			"exchanged":                c.count,
			"runs_repeated_to_compare": c.again,
			"repeated_runs_different":  c.mism,
			"observations_by_property": c.other,
			"harness_trouble":          harness,
			"real_components":          realParts(id),
			"simulated_components":     stubParts(id),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(root(), "evidence")
	os.MkdirAll(dir, 0o755)
	tmp := filepath.Join(dir, "."+id+".tmp")
	if err := os.WriteFile(tmp, b, 0o644); err == nil {
		os.Rename(tmp, filepath.Join(dir, id+".json"))
	}
}

var _ = sort.Strings
var _ = errors.New
