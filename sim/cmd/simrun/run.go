package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"verif.local/sim/hook"
)

// Outcome is what evaluating one plan gave.
type Outcome struct {
	Violations []*Violation   `json:"violations,omitempty"`
	Others     map[string]int `json:"others,omitempty"` // observations that belong to other properties, or to the model
	Stats      map[string]int `json:"stats,omitempty"`
	Obs        uint64         `json:"obs"`   // hash of everything observed
	Sched      uint64         `json:"sched"` // hash of the interleaving
	Steps      int            `json:"steps"`
	Switches   []hook.Switch  `json:"switches,omitempty"`
	Race       string         `json:"race,omitempty"`
	Tainted    bool           `json:"tainted,omitempty"` // the process may have been left in a bad state
	Trace      []string       `json:"trace,omitempty"`
	fixed      map[string]string
}

var raceSeen int
var raceOff int64

// newRaces returns the reports of races that were made since the last call.
func newRaces() string {
	n := hook.RaceErrors()
	if n <= raceSeen {
		return ""
	}
	raceSeen = n
	path := os.Getenv("SIM_RACELOG")
	if path == "" {
		return "unknown race"
	}
	b, err := os.ReadFile(path + "." + strconv.Itoa(os.Getpid()))
	if err != nil || int64(len(b)) <= raceOff {
		return "unknown race"
	}
	s := string(b[raceOff:])
	raceOff = int64(len(b))
	return s
}

const libPrefix = "github.com/ulule/loukoum/v3"

// raceBlame looks at one report: it is the library's if one of the two accesses was made by library code
// (rather than by code of the caller that the library called, or by the harness).
func raceBlame(report string) (lib bool, summary string) {
	lines := strings.Split(report, "\n")
	var accs []string
	for i := 0; i < len(lines); i++ {
		l := strings.TrimSpace(lines[i])
		isAcc := strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous read at") ||
			strings.HasPrefix(l, "Previous write at") || strings.HasPrefix(l, "Atomic") || strings.HasPrefix(l, "Previous atomic")
		if !isAcc {
			continue
		}
		what := strings.Fields(l)[0]
		if what == "Previous" {
			what = strings.Fields(l)[1]
		}
		owner, where := "", ""
		for k := i + 1; k+1 < len(lines) && strings.TrimSpace(lines[k]) != ""; k += 2 {
			fn := strings.TrimSpace(lines[k])
			if p := strings.IndexByte(fn, '('); strings.HasPrefix(fn, libPrefix) && owner == "" {
				owner = "lib"
				_ = p
				where = fn
			} else if owner == "" && !strings.HasPrefix(fn, "verif.local/sim/simatomic") &&
				(strings.HasPrefix(fn, "main.") || strings.HasPrefix(fn, "verif.local/sim/")) {
				owner = "harness"
				where = fn
			}
		}
		if owner == "lib" {
			lib = true
		}
		accs = append(accs, strings.ToLower(what)+" in "+strings.TrimSuffix(where, "()"))
	}
	return lib, strings.Join(accs, " / ")
}

func judgeRaces(text string) (vs []*Violation) {
	for _, rep := range strings.Split(text, "WARNING: DATA RACE") {
		if !strings.Contains(rep, " at 0x") {
			continue
		}
		lib, sum := raceBlame(rep)
		if !lib {
			fmt.Fprintf(os.Stderr, "harness race:%s\n", rep)
			os.Exit(3)
		}
		vs = append(vs, &Violation{Class: "race", Detail: "data race: " + sum})
	}
	if vs == nil && text != "" {
		vs = append(vs, &Violation{Class: "race", Detail: "data race (no report available)"})
	}
	return vs
}

func merge(dst, src map[string]int) {
	for k, v := range src {
		dst[k] += v
	}
}

// execute runs a plan and judges it, without confirmation.
func execute(p *Plan) (all []*Violation, out *Outcome) {
	out = &Outcome{Others: map[string]int{}, Stats: map[string]int{}}
	if p.Lex != nil {
		l := &lexRun{plan: p}
		l.run()
		j := l.judge()
		out.Obs, out.Sched, out.Steps, out.Switches = j.hash, l.res.Hash, l.res.Steps, l.res.Switches
		out.Tainted = l.res.Deadlock || l.res.Overrun
		merge(out.Stats, j.stats)
		return append(j.vs, judgeRaces(newRaces())...), out
	}
	if len(p.MapSeeds) > 0 {
		var first *exec
		seeds := append([]uint64{p.MapSeed}, p.MapSeeds...)
		for _, ms := range seeds {
			q := clonePlan(p)
			q.MapSeed = ms
			q.MapSeeds = nil
			gc := debug.SetGCPercent(-1) // so that no address is used twice
			x := newExec(q)
			x.run()
			debug.SetGCPercent(gc)
			j := x.judge()
			vs := j.vs
			if has(p.Tags, "collide") {
				vs = nil
				if v := x.twice(); v != nil {
					vs = append(vs, v)
				}
			}
			if first == nil {
				first = x
				out.Obs, out.Sched = j.hash, x.res.Hash
				out.fixed = x.fixedReads()
				out.Switches = x.res.Switches
			} else if v := sameObs(first, x); v != nil {
				vs = append(vs, v)
			}
			out.Obs = hook.Mix(out.Obs, j.hash)
			merge(out.Stats, j.stats)
			out.Steps += x.res.Steps + x.resSetup.Steps + x.resAudit.Steps
			if x.bad() {
				out.Tainted = true
			}
			all = append(all, vs...)
			if len(vs) > 0 {
				break
			}
		}
		return append(all, judgeRaces(newRaces())...), out
	}
	x := newExec(p)
	x.run()
	j := x.judge()
	out.Obs, out.Sched, out.Switches = j.hash, x.res.Hash, x.res.Switches
	out.Steps = x.res.Steps + x.resSetup.Steps + x.resAudit.Steps
	out.fixed = x.fixedReads()
	out.Tainted = x.bad()
	merge(out.Stats, j.stats)
	out.Stats["clock"] = x.clock
	if os.Getenv("SIM_DEBUG") == "solo" {
		x.checkSolo()
	}
	if os.Getenv("SIM_DEBUG") == "strip" && !stripping {
		if q := strip(p); q != nil {
			stripping = true
			vs, _ := execute(q)
			stripping = false
			for _, v := range vs {
				if isOutput(v.Class) {
					die("without what it injects: %s", v.Detail)
				}
			}
		}
	}
	return append(j.vs, judgeRaces(newRaces())...), out
}

var stripping bool

// checkSolo sees whether lone callers, who have a piece of their own for every use, get what was rendered.
func (x *exec) checkSolo() {
	for _, list := range x.obs {
		for _, ob := range list {
			o := x.byOp[ob.Op]
			if ob.St != "ok" || !ob.done || o.K != "render" && o.K != "compose" && o.K != "write" {
				continue
			}
			variants := []string{""}
			if ob.Form == formString {
				variants = append(variants, soloValues)
			}
			for _, v := range variants {
				s := solo(x.plan, ob.Slot, ob.Form, ob.Op, v, parseFixed(x.fixedReads()))
				if s.St == "panic" && o.K == "write" {
					continue
				}
				if key(s.Out, s.Args) != key(ob.Out, ob.Args) {
					die("op %d, slot %d, form %s: %q %q, but alone %s %s: %q %q", ob.Op, ob.Slot, ob.Form, ob.Out, ob.Args, v, s.St+s.Msg, s.Out, s.Args)
				}
			}
		}
	}
}

func has(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

// twice looks for two renders of one handle in one form that differ.
func (x *exec) twice() *Violation {
	seen := map[string]*Obs{}
	for _, list := range x.obs {
		for _, ob := range list {
			o := x.byOp[ob.Op]
			if o.K != "render" || ob.St != "ok" || !ob.done {
				continue
			}
			k := strconv.Itoa(ob.Slot) + ob.Form
			if f := seen[k]; f == nil {
				seen[k] = ob
			} else if key(f.Out, f.Args) != key(ob.Out, ob.Args) {
				return &Violation{Class: "nondeterministic", Op: ob.Op, Slot: ob.Slot, Form: ob.Form,
					Detail: fmt.Sprintf("the same handle renders as %q %q, and then as %q %q", f.Out, f.Args, ob.Out, ob.Args)}
			}
		}
	}
	return nil
}

// sameObs compares what two executions of the same plan under different map orders observed.
func sameObs(a, b *exec) *Violation {
	for t := range a.obs {
		if len(a.obs[t]) != len(b.obs[t]) {
			return &Violation{Class: "nondeterministic", Detail: "the same calls end differently under another map order"}
		}
		for i, oa := range a.obs[t] {
			ob := b.obs[t][i]
			if oa.St != ob.St {
				return &Violation{Class: "nondeterministic", Op: oa.Op, Slot: oa.Slot, Form: oa.Form,
					Detail: fmt.Sprintf("the same call ends with %q %s under one map order and %q %s under another", oa.St, oa.Msg, ob.St, ob.Msg)}
			}
			if key(oa.Out, oa.Args) != key(ob.Out, ob.Args) {
				return &Violation{Class: "nondeterministic", Op: oa.Op, Slot: oa.Slot, Form: oa.Form,
					Detail: fmt.Sprintf("the same calls render %q %q under one map order and %q %q under another", oa.Out, oa.Args, ob.Out, ob.Args)}
			}
		}
	}
	return nil
}

// fixedReads are the values that encoders and time variables had when they were first read.
func (x *exec) fixedReads() map[string]string {
	m := map[string]string{}
	for id, v := range x.reads {
		switch r := v.(type) {
		case string:
			m[strconv.Itoa(id)] = "s" + r
		case int64:
			m[strconv.Itoa(id)] = "i" + strconv.FormatInt(r, 10)
		case bool:
			m[strconv.Itoa(id)] = "b" + strconv.FormatBool(r)
		case time.Time:
			m[strconv.Itoa(id)] = "t" + strconv.FormatInt(r.Unix(), 10)
		}
	}
	return m
}

func parseFixed(m map[string]string) map[int]interface{} {
	out := map[int]interface{}{}
	for k, v := range m {
		id, _ := strconv.Atoi(k)
		switch v[0] {
		case 's':
			out[id] = v[1:]
		case 'i':
			n, _ := strconv.ParseInt(v[1:], 10, 64)
			out[id] = n
		case 'b':
			out[id] = v[1:] == "true"
		case 't':
			n, _ := strconv.ParseInt(v[1:], 10, 64)
			out[id] = time.Unix(n, 0).UTC()
		}
	}
	return out
}

// strip removes from a plan what the property is about, leaving everything else as it is; nil when that is
// not a meaningful question for the property.
func strip(p *Plan) *Plan {
	q := clonePlan(p)
	drop := func(f func(*Op) bool) {
		var ops []*Op
		for _, o := range q.Ops {
			if !f(o) {
				ops = append(ops, o)
			}
		}
		q.Ops = ops
	}
	quiet := func(kinds ...string) {
		fix := func(f *string) {
			for _, k := range kinds {
				if parseScript(*f).kind == k {
					*f = ""
				}
			}
		}
		for _, o := range q.Ops {
			fix(&o.F)
			for _, a := range o.A {
				walk(a, func(n *Node) {
					if strings.HasPrefix(n.K, "v.") {
						fix(&n.F)
					}
				})
			}
		}
	}
	switch p.Prop {
	case "C03":
		m := newModel()
		drop(func(o *Op) bool {
			if !isBuild(o) {
				return false
			}
			v, refused := m.try(o)
			if refused != "" {
				return true
			}
			if o.Out > 0 {
				m.slots[o.Out] = v
			}
			return false
		})
	case "C04":
		drop(func(o *Op) bool {
			k := parseScript(o.F).kind
			return (o.K == "render" || o.K == "write") && (k == "panic" || k == "exit")
		})
		quiet("err", "panic", "exit")
	case "C08":
		drop(func(o *Op) bool { return o.K == "spoil" })
	case "C09":
		drop(func(o *Op) bool { return o.K == "clobber" })
	case "C10":
		drop(func(o *Op) bool { return o.K == "jump" })
		quiet("tick")
	case "C11":
		quiet("err", "panic", "exit")
		for _, o := range q.Ops {
			for _, a := range o.A {
				walk(a, valueInPlace)
			}
		}
	case "C12":
		quiet("stall", "reent", "reents", "reentn")
	default:
		return nil
	}
	return q
}

// valueInPlace makes a valuer the value that it gives.
func valueInPlace(n *Node) {
	if n.K == "v.valuer" && n.T != "nilptr" {
		n.K, n.E, n.F = "e.out", 0, ""
	}
}

func isBuild(o *Op) bool {
	switch o.K {
	case "render", "write", "compose", "clobber", "jump", "spoil":
		return false
	}
	return true
}

// evaluate runs a plan and keeps what counts against its property, asking fresh processes where the model or
// the cause is in doubt.
func evaluate(p *Plan) *Outcome {
	all, out := execute(p)
	var mine []*Violation
	for _, v := range all {
		if classes[p.Prop][v.Class] {
			mine = append(mine, v)
		} else {
			out.Others[v.Class]++
		}
	}
	if len(mine) == 0 {
		return out
	}
	mine = confirm(p, mine, out)
	out.Violations = mine
	return out
}

func isOutput(class string) bool {
	switch class {
	case "output", "render-panic", "build-panic", "partial":
		return true
	}
	return false
}

func confirm(p *Plan, vs []*Violation, out *Outcome) []*Violation {
	var relat, keep []*Violation
	for _, v := range vs {
		if v.relat {
			relat = append(relat, v)
		} else {
			keep = append(keep, v)
		}
	}
	if len(relat) > 0 {
		keep = append(keep, confirmSolo(p, relat, out)...)
	}
	var rest []*Violation
	needStrip := false
	for _, v := range keep {
		if isOutput(v.Class) {
			needStrip = true
		}
	}
	if needStrip {
		if q := strip(p); q != nil {
			res := ask(&Request{Mode: "raw", Plans: []*Plan{q}})
			for _, v := range keep {
				same := false
				for _, w := range res.All {
					if isOutput(v.Class) && isOutput(w.Class) && w.Slot == v.Slot && w.Form == v.Form {
						same = true
					}
				}
				if same {
					out.Others["other-cause"]++
					continue
				}
				rest = append(rest, v)
			}
			keep = rest
		}
	}
	return keep
}

// written is a text as it comes through a pipe: every byte that is not UTF-8 replaced.
func written(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}

func soloMatches(v *Violation, ob *SoloObs) bool {
	switch v.Class {
	case "output":
		return ob.St == "ok" && written(key(ob.Out, ob.Args)) == written(v.Got)
	case "render-panic", "build-panic":
		return ob.St == "panic"
	case "partial":
		return ob.St == "ok" && strings.HasPrefix(written(ob.Out), written(v.Got))
	case "lex":
		if ob.St == "panic" {
			return strings.HasPrefix(v.Got, "panic")
		}
		got := strings.Split(written(v.Got), "\x02")
		if len(got) > 1 && got[1] == "" {
			got = got[:1]
		}
		toks := got[1:]
		if got[0] == "ok" && len(toks) != len(ob.Args) || len(toks) > len(ob.Args) {
			return false
		}
		for i := range toks {
			if toks[i] != written(ob.Args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// wordsBetween says which words of a text, and which values, are missing or too many. Words that a statement
// may do without do not count, nor does how the others are written.
func wordsBetween(got, want string) string {
	count := map[string]int{}
	add := func(s string, d int) {
		parts := strings.Split(s, "\x02")
		words := strings.FieldsFunc(strings.ToLower(parts[0]), func(r rune) bool {
			return r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r)
		})
		for _, w := range words {
			switch w {
			case "as", "asc", "inner", "outer", "into":
			default:
				count[w] += d
			}
		}
		for _, v := range parts[1:] {
			if i := strings.IndexByte(v, '='); i > 0 && strings.HasPrefix(v, "arg_") {
				v = v[i+1:]
			}
			count["the value "+v] += d
		}
	}
	add(got, 1)
	add(want, -1)
	var lost, extra []string
	for w, n := range count {
		switch {
		case n < 0:
			lost = append(lost, w)
		case n > 0:
			extra = append(extra, w)
		}
	}
	sort.Strings(lost)
	sort.Strings(extra)
	switch {
	case len(lost) > 0:
		return fmt.Sprintf("what the calls gave is missing: %q", lost)
	case len(extra) > 0:
		return fmt.Sprintf("what no call gave is shown: %q", extra)
	}
	return ""
}

// otherwise says what a lone caller sees who does the same in another way, if that differs.
func otherwise(p *Plan, v *Violation, r SoloReq, out *Outcome) string {
	if (p.Prop == "C01" || p.Prop == "C13") && v.Class == "output" && v.Form != formString {
		// A statement whose words are others than those of the calls that made it shows too little or too much.
		if d := wordsBetween(v.Got, v.Want); d != "" {
			return "; " + d
		}
	}
	var variants []string
	switch {
	case p.Prop == "C11" && v.Class == "output" && v.Form == formString:
		variants = []string{soloValues}
	case v.Class == "lex":
		variants = lexPieces[1:]
	}
	for _, as := range variants {
		r.As = as
		one := ask(&Request{Mode: "solo", Plans: []*Plan{p}, Fixed: out.fixed, Solo: []SoloReq{r}})
		if len(one.Solo) != 1 || one.Solo[0].St != "ok" || soloMatches(v, one.Solo[0]) {
			continue
		}
		if as == soloValues {
			return fmt.Sprintf("; with the values of its valuers in their place the statement is %q", one.Solo[0].Out)
		}
		return fmt.Sprintf("; in reads of %s bytes a lone lexer gives other tokens", as)
	}
	return ""
}

// confirmSolo asks what a lone caller in a fresh process sees, for each doubtful observation: where it sees
// the same, the model is wrong about loukoum and the observation is nobody's violation.
func confirmSolo(p *Plan, vs []*Violation, out *Outcome) []*Violation {
	req := &Request{Mode: "solo", Plans: []*Plan{p}, Fixed: out.fixed}
	for _, v := range vs {
		req.Solo = append(req.Solo, SoloReq{v.Slot, v.Form, v.Op, ""})
	}
	res := ask(req)
	var keep []*Violation
	for i, v := range vs {
		if i < len(res.Solo) && soloMatches(v, res.Solo[i]) {
			if d := otherwise(p, v, req.Solo[i], out); d != "" {
				v.Detail += d
				keep = append(keep, v)
				continue
			}
			out.Others["drift"]++
			continue
		}
		if len(vs) > 1 {
			one := ask(&Request{Mode: "solo", Plans: []*Plan{p}, Fixed: out.fixed, Solo: req.Solo[i : i+1]})
			if len(one.Solo) == 1 && soloMatches(v, one.Solo[0]) {
				d := otherwise(p, v, req.Solo[i], out)
				if d == "" {
					out.Others["drift"]++
					continue
				}
				v.Detail += d
			}
		}
		keep = append(keep, v)
		if len(keep) >= 3 {
			break
		}
	}
	return keep
}
