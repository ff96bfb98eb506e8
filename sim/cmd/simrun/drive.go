package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif.local/sim/hook"
)

type director struct {
	prop, tier       string
	plain, race      string
	points           int
	names            []string
	seed             uint64
	seconds          int
	minimise         time.Duration
	evidence, outdir string
	scratch          string
	procs            int
	focus            []int32
	start            time.Time

	mu       sync.Mutex
	total    *Batch
	runs     [2]int // plain, race
	colds    int    // runs that were the first of their process
	scheds   map[uint64]bool
	states   map[uint64]bool
	nontriv  map[uint64]bool
	at       map[int32]bool
	samples  []string
	stop     bool
	found    *finding
	trouble  []string
	nextFrom [4]int
	broken   bool    // the harness itself is in trouble
	differ   []*Plan // executions that were not the same in two processes
	batches  int
}

type finding struct {
	bin   string
	race  bool
	cold  bool
	from  int
	bad   int
	out   *Outcome
	dead  string
	hang  bool
	plans []*Plan // given, rather than made from seeds
}

var raceProps = map[string]int{"C02": 4, "C08": 2, "C09": 2, "C13": 2, "C06": 1} // of 8 workers

func drive() {
	fs := flag.NewFlagSet("drive", flag.ExitOnError)
	d := &director{scheds: map[uint64]bool{}, states: map[uint64]bool{}, nontriv: map[uint64]bool{}, at: map[int32]bool{}, start: time.Now()}
	fs.StringVar(&d.prop, "prop", "", "")
	fs.StringVar(&d.tier, "tier", "quick", "")
	fs.StringVar(&d.plain, "plain", "", "")
	fs.StringVar(&d.race, "race", "", "")
	names := fs.String("points", "", "")
	fs.Uint64Var(&d.seed, "seed", 1, "")
	fs.IntVar(&d.seconds, "seconds", 15, "")
	mins := fs.Int("minimise", 60, "")
	fs.StringVar(&d.evidence, "evidence", "", "")
	fs.StringVar(&d.outdir, "out", "", "")
	fs.StringVar(&d.scratch, "scratch", "", "")
	fs.IntVar(&d.procs, "procs", 8, "")
	_ = fs.Parse(os.Args[2:])
	d.minimise = time.Duration(*mins) * time.Second
	b, err := os.ReadFile(*names)
	if err != nil || json.Unmarshal(b, &d.names) != nil {
		die("points: %v", err)
	}
	d.points = len(d.names)
	if classes[d.prop] == nil {
		die("no property %q", d.prop)
	}
	d.total = &Batch{Stats: map[string]int{}, Others: map[string]int{}}
	os.Setenv("SIM_RACELOG", filepath.Join(d.scratch, "race"))
	os.Setenv("GORACE", "log_path="+filepath.Join(d.scratch, "race")+" suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 history_size=4 atexit_sleep_ms=0")

	// where do the runs of this property go?
	if b, _, _, _ := d.batch(d.plain, &Job{Prop: d.prop, Base: hook.Mix(d.seed, 4242), N: 25, Points: d.points, Profile: true}); b != nil {
		d.focus = b.Reached
		sort.Slice(d.focus, func(i, j int) bool { return d.focus[i] < d.focus[j] })
	}
	same := d.selfTest()

	nrace := 0
	if d.race != "" {
		nrace = raceProps[d.prop]
	}
	violations := 0
	left := time.Duration(d.seconds) * time.Second
	for round := 0; round < 4; round++ {
		began := time.Now()
		deadline := began.Add(left)
		d.stop, d.found = false, nil
		var wg sync.WaitGroup
		for w := 0; w < d.procs; w++ {
			wg.Add(1)
			go func(race bool) {
				defer wg.Done()
				for d.goOn(deadline) {
					d.one(race, deadline)
				}
			}(w < nrace)
		}
		wg.Wait()
		left -= time.Since(began)
		if d.found == nil {
			break
		}
		if d.report() {
			violations = 1
			break
		}
		// Not reproducible: nothing that can be reported. The search goes on behind it.
		if d.broken || left < time.Second {
			break
		}
	}
	if violations == 0 && d.differ != nil && d.reportProcess() {
		violations = 1
	}
	d.writeEvidence(violations, same)
	if violations > 0 {
		os.Exit(1)
	}
	if len(d.trouble) > 0 {
		for _, t := range d.trouble {
			fmt.Fprintln(os.Stderr, t)
		}
		os.Exit(2)
	}
	if !same && violations == 0 {
		fmt.Fprintln(os.Stderr, "simrun: the same seeds gave different executions in two processes")
		os.Exit(2)
	}
	fmt.Printf("%s %s: %d runs (%d under the race detector), %d distinct non-trivial, no violation\n", d.prop, d.tier, d.total.Runs, d.runs[1], len(d.nontriv))
}

func (d *director) goOn(deadline time.Time) bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	return !d.stop && time.Now().Before(deadline)
}

// batch runs one worker process.
func (d *director) batch(bin string, job *Job) (b *Batch, dead string, hang bool, at int) {
	in, _ := json.Marshal(job)
	cmd := osexec.Command(bin, "worker")
	prog, err := os.CreateTemp(d.scratch, "progress")
	if err != nil {
		die("%v", err)
	}
	defer os.Remove(prog.Name())
	defer prog.Close()
	cmd.Env = append(childEnv(job.Init), "SIM_PROGRESS="+prog.Name())
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	limit := time.Duration(job.Millis)*time.Millisecond + 90*time.Second
	t := time.AfterFunc(limit, func() { hang = true; _ = cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	if bin == d.race {
		_ = os.Remove(filepath.Join(d.scratch, fmt.Sprintf("race.%d", cmd.ProcessState.Pid())))
	}
	if err == nil {
		b = &Batch{}
		if json.Unmarshal(out.Bytes(), b) == nil {
			return b, "", false, 0
		}
	}
	var buf [8]byte
	if n, _ := prog.ReadAt(buf[:], 0); n == 8 {
		for k := range buf {
			at |= int(buf[k]) << (8 * k)
		}
	}
	dead = errb.String()
	if dead == "" {
		dead = fmt.Sprint(err)
	}
	return nil, dead, hang, at
}

// A worker process makes batchRuns runs; every coldEvery-th batch is coldRuns processes instead that make one
// each, in which callers meet while everything in the library happens for the first time, and every longEvery-th
// one is longer, so that the library has tens of thousands of renders behind it.
const (
	batchRuns = 150
	longEvery = 32
	longRuns  = 1000
	coldEvery = 8
	coldRuns  = 20
)

func (d *director) one(race bool, deadline time.Time) {
	kind, bin := 0, d.plain
	if race {
		kind, bin = 1, d.race
	}
	d.mu.Lock()
	d.batches++
	cold := d.batches%coldEvery == 0 && d.prop != "C05"
	line, n := kind, batchRuns
	if cold {
		line, n = kind+2, 1
	} else if !race && d.batches%longEvery == longEvery-3 {
		n = longRuns
	}
	from := d.nextFrom[line]
	d.nextFrom[line] += n
	if cold {
		d.nextFrom[line] += coldRuns - 1
	}
	d.mu.Unlock()
	job := &Job{Prop: d.prop, Base: d.base(race, cold), From: from, N: n, Cold: cold, Points: d.points, Focus: d.focus, Millis: int(time.Until(deadline)/time.Millisecond) + 1}
	for i := 0; i < 1 || cold && i < coldRuns && d.goOn(deadline); i++ {
		job.Init = d.init(race, cold, job.From)
		b, dead, hang, at := d.batch(bin, job)
		d.add(kind, b, &finding{bin: bin, race: race, cold: cold, from: job.From, bad: at, dead: dead, hang: hang})
		job.From++
	}
}

// init is what the start of the process is drawn from that begins with the given seed.
func (d *director) init(race, cold bool, from int) uint64 {
	return hook.Mix(d.base(race, cold), uint64(from))>>40 + 2
}

// base is where the seeds of one kind of workers come from.
func (d *director) base(race, cold bool) uint64 {
	b := d.seed
	if race {
		b = hook.Mix(d.seed, 0xace)
	}
	if cold {
		b = hook.Mix(b, 0xc01d)
	}
	return b
}

// add takes in what a worker reported; f is what it means that it reported nothing.
func (d *director) add(kind int, b *Batch, f *finding) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if b == nil {
		if strings.Contains(f.dead, "simrun: ") || strings.Contains(f.dead, "harness race:") {
			d.trouble = append(d.trouble, f.dead)
			d.stop, d.broken = true, true
			return
		}
		if d.found == nil {
			d.found = f
			d.stop = true
		}
		return
	}
	if f.cold {
		d.colds += b.Runs
	}
	d.runs[kind] += b.Runs
	d.total.Runs += b.Runs
	d.total.Steps += b.Steps
	d.total.Multi += b.Multi
	d.total.Switches += b.Switches
	d.total.Sim += b.Sim
	merge(d.total.Stats, b.Stats)
	merge(d.total.Others, b.Others)
	for _, h := range b.Scheds {
		d.scheds[h] = true
	}
	for _, h := range b.States {
		d.states[h] = true
	}
	for _, h := range b.Nontriv {
		d.nontriv[h] = true
	}
	for _, p := range b.At {
		d.at[p] = true
	}
	if b.Bad >= 0 && d.found == nil {
		f.bad, f.out = b.Bad, b.Found
		d.found = f
		d.stop = true
	}
}

// selfTest runs some seeds in two processes and compares everything observed.
func (d *director) selfTest() bool {
	bins := []string{d.plain}
	if d.race != "" && raceProps[d.prop] > 0 {
		bins = append(bins, d.race)
	}
	for _, bin := range bins {
		job := &Job{Prop: d.prop, Base: hook.Mix(d.seed, 31337), N: 12, Points: d.points, Focus: d.focus, Hashes: true}
		a, _, _, _ := d.batch(bin, job)
		if d.prop == "C05" {
			job.Init = 3 // processes that start at different times must agree
		}
		b, _, _, _ := d.batch(bin, job)
		if a == nil || b == nil {
			continue // the search will meet it
		}
		if len(a.Hashes) != len(b.Hashes) {
			return false
		}
		for i := range a.Hashes {
			if a.Hashes[i] != b.Hashes[i] {
				if bin == d.plain {
					for k := 0; k <= i; k++ {
						d.differ = append(d.differ, makePlan(d.prop, hook.Mix(job.Base, uint64(k)), d.focus, d.points, false))
					}
				}
				return false
			}
		}
	}
	return true
}

func (d *director) plan(f *finding, i int) *Plan {
	p := makePlan(d.prop, hook.Mix(d.base(f.race, f.cold), uint64(i)), d.focus, d.points, f.cold)
	p.Init = d.init(f.race, f.cold, f.from)
	return p
}

// target is what a candidate must reproduce.
type target struct {
	d     *director
	bin   string
	class string
	until time.Time
	tried int
	cut   bool // the plans are cut at will: some may be senseless
}

// test runs candidate plans in a fresh process; nil when the violation does not show.
func (t *target) test(plans []*Plan, trace bool) *Outcome {
	t.tried++
	if t.class == "process" {
		return processTest(t.bin, plans)
	}
	a := askBinary(t.bin, &Request{Mode: "eval", Plans: plans, Trace: trace, try: t.cut})
	if a.bad {
		return nil
	}
	if a.Dead != "" {
		if t.class == "crash" && !a.Hang || t.class == "hang" && a.Hang {
			return &Outcome{Violations: []*Violation{{Class: t.class, Detail: firstLine(a.Dead)}}}
		}
		return nil
	}
	if a.Out == nil {
		return nil
	}
	for i, v := range a.Out.Violations {
		if v.Class == t.class {
			a.Out.Violations[0], a.Out.Violations[i] = a.Out.Violations[i], a.Out.Violations[0]
			return a.Out
		}
	}
	return nil
}

// processTest looks for a difference between processes: the same plans in two of them, and the last plan
// alone in a third.
func processTest(bin string, plans []*Plan) *Outcome {
	var first []string
	for k := 0; k < 3; k++ {
		ps := plans
		if k == 2 {
			ps = plans[len(plans)-1:]
		}
		a := askBinary(bin, &Request{Mode: "obs", Plans: ps, Noise: k})
		if a.Dead != "" {
			return nil
		}
		if k == 0 {
			first = a.Obs
			continue
		}
		for i := 0; i < len(first) || i < len(a.Obs); i++ {
			x, y := "nothing", "nothing"
			if i < len(first) {
				x = first[i]
			}
			if i < len(a.Obs) {
				y = a.Obs[i]
			}
			if x != y {
				return &Outcome{Violations: []*Violation{{Class: "process", Detail: fmt.Sprintf("the same calls give %s in one process and %s in another", x, y)}}}
			}
		}
	}
	return nil
}

// reportProcess turns executions that differed between processes into a violation of C05.
func (d *director) reportProcess() bool {
	if !classes[d.prop]["process"] {
		return false
	}
	d.found = &finding{bin: d.plain, out: &Outcome{Violations: []*Violation{{Class: "process"}}}, plans: d.differ}
	return d.report()
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "panic") {
			return l
		}
	}
	if i := strings.IndexByte(s, '\n'); i > 0 {
		return s[:i]
	}
	return s
}

// any tests candidates in parallel and gives the first (in order) that reproduces.
func (t *target) any(cands [][]*Plan) (int, *Outcome) {
	for s := 0; s < len(cands); s += 8 {
		if time.Now().After(t.until) {
			return -1, nil
		}
		e := s + 8
		if e > len(cands) {
			e = len(cands)
		}
		outs := make([]*Outcome, e-s)
		var wg sync.WaitGroup
		for i := s; i < e; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				outs[i-s] = t.test(cands[i], false)
			}(i)
		}
		wg.Wait()
		for i, o := range outs {
			if o != nil {
				return s + i, o
			}
		}
	}
	return -1, nil
}

// report reproduces, minimises and writes a violation; false when it could not be reproduced.
func (d *director) report() bool {
	f := d.found
	t := &target{d: d, bin: f.bin, until: time.Now().Add(d.minimise)}
	switch {
	case f.hang:
		t.class = "hang"
	case f.dead != "":
		t.class = "crash"
	default:
		t.class = f.out.Violations[0].Class
	}
	all := f.plans
	for i := f.from; f.plans == nil && i <= f.bad; i++ {
		all = append(all, d.plan(f, i))
	}
	plans := all[len(all)-1:]
	out := t.test(plans, false)
	if out == nil && len(all) > 1 {
		// does it take the runs before it in the same process?
		plans = all
		out = t.test(plans, false)
		if out != nil {
			plans = d.shrinkHistory(t, plans)
		}
	}
	if out == nil {
		detail := f.dead
		if f.out != nil {
			detail = f.out.Violations[0].Class + ": " + f.out.Violations[0].Detail
		}
		d.trouble = append(d.trouble, fmt.Sprintf("simrun: a violation (seed index %d) could not be reproduced: %s", f.bad, detail))
		return false
	}
	t.cut = true
	m := &minimiser{t: t, plans: plans, out: out}
	m.run()
	plans, out = m.plans, m.out
	final := t.test(plans, true)
	again := t.test(plans, true)
	if final == nil || again == nil || final.Obs != again.Obs || final.Sched != again.Sched || final.Violations[0].Detail != again.Violations[0].Detail {
		if t.class != "hang" && t.class != "crash" && t.class != "race" && t.class != "process" {
			d.trouble = append(d.trouble, "simrun: the minimised violation does not reproduce exactly")
			if final == nil {
				return false
			}
		} else if final == nil {
			final = out
		}
	}
	v := final.Violations[0]
	build := "plain"
	if f.race {
		build = "race"
	}
	rep := &ReplayFile{Property: d.prop, Class: t.class, Detail: v.Detail, Build: build, Seed: d.seed, Plans: plans,
		Note: fmt.Sprintf("found at seed index %d, minimised with %d replays to %d operations, %d faults, %d switches; %d plans run before the last one in the same process",
			f.bad, t.tried, countOps(plans[last0(plans)]), countFaults(plans[last0(plans)]), len(plans[last0(plans)].Switches), len(plans)-1)}
	rep.Trace = d.nameTrace(final.Trace)
	_ = os.MkdirAll(d.outdir, 0o755)
	path := filepath.Join(d.outdir, fmt.Sprintf("%s-%d-%d.json", d.prop, d.seed, f.bad))
	b, _ := json.MarshalIndent(rep, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s: %s: %s\n", d.prop, t.class, v.Detail)
	for _, l := range rep.Trace {
		fmt.Println("  " + l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, path)
	return true
}

func last0(p []*Plan) int { return len(p) - 1 }

func countOps(p *Plan) int {
	if p.Lex != nil {
		return len(p.Lex.Jobs)
	}
	return len(p.Ops)
}

func countFaults(p *Plan) int {
	n := 0
	for _, o := range p.Ops {
		if o.F != "" {
			n++
		}
		switch o.K {
		case "clobber", "spoil", "jump":
			n++
		}
		for _, a := range o.A {
			walk(a, func(x *Node) {
				if x.F != "" && strings.HasPrefix(x.K, "v.") {
					n++
				}
			})
		}
	}
	if p.Lex != nil {
		for _, j := range p.Lex.Jobs {
			n += len(j.Chunks)
		}
	}
	return n
}

// nameTrace replaces point numbers by places in the code.
func (d *director) nameTrace(tr []string) []string {
	for i, l := range tr {
		var n int
		if k := strings.Index(l, "(point "); k >= 0 {
			if _, err := fmt.Sscanf(l[k:], "(point %d)", &n); err == nil && n > 0 && n <= len(d.names) {
				tr[i] = strings.Replace(l, fmt.Sprintf("(point %d)", n), "("+d.names[n-1]+")", 1)
			}
		}
	}
	return tr
}

func (d *director) shrinkHistory(t *target, plans []*Plan) []*Plan {
	last := plans[len(plans)-1]
	hist := plans[:len(plans)-1]
	for n := 2; len(hist) > 0; {
		size := (len(hist) + n - 1) / n
		var cands [][]*Plan
		for s := 0; s < len(hist); s += size {
			e := s + size
			if e > len(hist) {
				e = len(hist)
			}
			c := append(append([]*Plan(nil), hist[:s]...), hist[e:]...)
			cands = append(cands, append(c, last))
		}
		i, _ := t.any(cands)
		if i >= 0 {
			hist = cands[i][:len(cands[i])-1]
			if n > 2 {
				n--
			}
			continue
		}
		if size == 1 || time.Now().After(t.until) {
			break
		}
		n *= 2
		if n > len(hist) {
			n = len(hist)
		}
	}
	return append(append([]*Plan(nil), hist...), last)
}

func replay() {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	file := fs.String("file", "", "")
	plain := fs.String("plain", "", "")
	race := fs.String("race", "", "")
	scratch := fs.String("scratch", "", "")
	_ = fs.Parse(os.Args[2:])
	b, err := os.ReadFile(*file)
	if err != nil {
		die("%v", err)
	}
	rep := &ReplayFile{}
	if err := json.Unmarshal(b, rep); err != nil {
		die("%v", err)
	}
	os.Setenv("SIM_RACELOG", filepath.Join(*scratch, "race"))
	os.Setenv("GORACE", "log_path="+filepath.Join(*scratch, "race")+" suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 history_size=4 atexit_sleep_ms=0")
	bin := *plain
	if rep.Build == "race" {
		bin = *race
	}
	t := &target{bin: bin, class: rep.Class}
	out := t.test(rep.Plans, true)
	if out == nil {
		fmt.Println("no violation on replay")
		return
	}
	for _, l := range rep.Trace {
		fmt.Println("  " + l)
	}
	fmt.Printf("%s: %s: %s\n", rep.Property, rep.Class, out.Violations[0].Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, *file)
	os.Exit(1)
}
