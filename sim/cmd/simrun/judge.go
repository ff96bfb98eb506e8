package main

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"

	"github.com/ulule/loukoum/v3/builder"
)

// Violation is one way in which a run contradicted a property.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
	Op     int    `json:"op,omitempty"`
	Slot   int    `json:"slot,omitempty"`
	Form   string `json:"form,omitempty"`
	Got    string `json:"got,omitempty"`
	Want   string `json:"want,omitempty"`
	relat  bool   // the model may be at fault: ask a lone execution in a fresh process
}

// classes that count for each property. Other observations belong to other properties.
var classes = map[string]map[string]bool{
	"C01": set("output", "render-panic", "build-panic"),
	"C02": set("output", "render-panic", "build-panic", "race"),
	"C03": set("output", "render-panic", "build-panic", "swallowed", "deadlock", "owned-written", "refusal"),
	"C04": set("output", "render-panic", "build-panic", "partial", "swallowed", "deadlock"),
	"C05": set("nondeterministic", "process", "output", "render-panic", "build-panic"),
	"C06": set("lex", "deadlock"),
	"C07": set("pairing"),
	"C08": set("result-changed", "output", "render-panic", "race"),
	"C09": set("owned-written", "output", "render-panic", "build-panic", "race"),
	"C10": set("encoder-count", "output", "render-panic"),
	"C11": set("valuer-called", "swallowed", "output", "render-panic", "build-panic"),
	"C12": set("deadlock", "behind-stall", "overrun", "output", "render-panic", "build-panic"),
	"C13": set("output", "render-panic", "build-panic", "race"),
}

func set(xs ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

// judged is the outcome of holding one execution against the model.
type judged struct {
	vs    []*Violation
	stats map[string]int
	hash  uint64
	m     *model
}

func key(out string, args []string) string { return out + "\x02" + strings.Join(args, "\x02") }

// modelOf evaluates the model over the plan, with the values that encoders gave in this execution.
func (x *exec) modelOf() *model {
	m := newModel()
	m.read = func(n *Node) interface{} { return x.reads[n.ID] }
	m.ptr = m.read
	for _, o := range x.plan.Ops {
		switch o.K {
		case "render", "write", "compose", "clobber", "jump", "spoil":
			continue
		}
		v, refused := m.try(o)
		if refused == "" && o.Out > 0 {
			m.slots[o.Out] = v
		}
	}
	return m
}

func (x *exec) judge() *judged {
	j := &judged{stats: map[string]int{}}
	m := x.modelOf()
	j.m = m
	add := func(v *Violation) { j.vs = append(j.vs, v) }
	j.hash = 14695981039346656037
	hash := func(s string) {
		for i := 0; i < len(s); i++ {
			j.hash = (j.hash ^ uint64(s[i])) * 1099511628211
		}
	}

	for _, r := range []struct {
		n string
		d bool
		b bool
		o bool
		l []int
	}{
		{"setup", x.resSetup.Deadlock, x.resSetup.BehindStall, x.resSetup.Overrun, x.resSetup.DeadOps},
		{"threads", x.res.Deadlock, x.res.BehindStall, x.res.Overrun, x.res.DeadOps},
		{"audit", x.resAudit.Deadlock, x.resAudit.BehindStall, x.resAudit.Overrun, x.resAudit.DeadOps},
	} {
		if r.d {
			add(&Violation{Class: "deadlock", Detail: fmt.Sprintf("%s: all remaining threads are blocked, in operations %v", r.n, r.l)})
		}
		if r.b {
			add(&Violation{Class: "behind-stall", Detail: fmt.Sprintf("%s: threads wait behind a caller that is stalled in its own code, in operations %v", r.n, r.l)})
		}
		if r.o {
			add(&Violation{Class: "overrun", Detail: fmt.Sprintf("%s: no end after %d steps, in operations %v", r.n, stepCap, r.l)})
		}
	}

	for _, list := range x.obs {
		for _, ob := range list {
			o := x.byOp[ob.Op]
			hash(fmt.Sprintf("%d %s %s %s", ob.Op, ob.St, ob.Msg, key(ob.Out, ob.Args)))
			if observing != nil {
				observing = append(observing, fmt.Sprintf("%s of operation %d: %s %q %q", ob.St, ob.Op, ob.Msg, ob.Out, ob.Args))
			}
			for _, f := range ob.Fired {
				hash(f)
			}
			if !ob.done {
				continue
			}
			j.stats["op."+ob.St]++
			for _, f := range ob.Fired {
				j.stats["fault."+f]++
			}
			for _, in := range ob.Inner {
				for _, f := range in.Fired {
					j.stats["fault."+f]++
				}
				x.judgeRender(j, o, in, true)
			}
			for _, r := range ob.Repeats {
				for _, f := range r.Fired {
					j.stats["fault."+f]++
				}
				j.stats["repeats"]++
				hash(r.St + key(r.Out, r.Args))
				x.judgeRender(j, o, r, false)
			}
			if ob.Problem != "" {
				c := "owned-written"
				if o.K == "spoil" || o.K == "compose" {
					c = "result-changed"
				}
				add(&Violation{Class: c, Detail: ob.Problem, Op: ob.Op})
			}
			switch o.K {
			case "render", "write", "compose":
				x.judgeRender(j, o, ob, false)
			case "clobber", "jump", "spoil":
			default:
				x.judgeBuild(j, o, ob)
			}
		}
	}
	if !x.bad() {
		if msg := x.finalContainers(); msg != "" {
			add(&Violation{Class: "owned-written", Detail: msg})
		}
		if msg := x.finalRetained(); msg != "" {
			add(&Violation{Class: "result-changed", Detail: msg})
		}
	}
	x.judgeEncoders(j)
	x.judgeRefusals(j)
	return j
}

// judgeRefusals holds equal calls on one handle against each other: what one of them meets, all of them meet.
func (x *exec) judgeRefusals(j *judged) {
	type seen struct {
		ob    *Obs
		exact bool
	}
	first := map[string]*seen{}
	for _, list := range x.obs {
		for _, ob := range list {
			o := x.byOp[ob.Op]
			if !ob.done || ob.St != "ok" && ob.St != "panic" || len(ob.Fired) > 0 || len(ob.Inner) > 0 {
				continue
			}
			switch o.K {
			case "render", "write", "compose", "clobber", "jump", "spoil", "frag":
				continue
			}
			call, exact, ok := callText(o)
			if !ok {
				continue
			}
			f := first[call]
			if f == nil {
				first[call] = &seen{ob, exact}
				continue
			}
			j.stats["equal-calls"]++
			if ob.St == "panic" {
				j.stats["equal-refusals"]++
			}
			if f.ob.St != ob.St || f.ob.Msg != ob.Msg && exact && steady(f.ob.Msg) != steady(ob.Msg) {
				j.vs = append(j.vs, &Violation{Class: "refusal", Op: ob.Op, Slot: o.In,
					Detail: fmt.Sprintf("the call %s of op %d ended with %s %q, and the same call in op %d with %s %q", o.K, f.ob.Op, f.ob.St, f.ob.Msg, ob.Op, ob.St, ob.Msg)})
			}
		}
	}
}

var varying = regexp.MustCompile(`~[0-9]+`)

// steady is a message without what varying driver values add to their text, whenever they are asked.
func steady(msg string) string { return varying.ReplaceAllString(msg, "~") }

// callText identifies a call up to the identity of its arguments. It is exact when nothing in it depends on
// the moment or on the order of a map.
func callText(o *Op) (text string, exact, ok bool) {
	exact, ok = true, true
	c := &Op{K: o.K, In: o.In, Arg: o.Arg}
	if o.Sp != 0 {
		c.Sp = 1
	}
	for _, a := range o.A {
		n := stripped(a)
		walk(n, func(n *Node) {
			switch {
			case n.F != "" || n.E != 0:
				ok = false
			case strings.HasPrefix(n.K, "v.enc") || n.K == "v.stenc" || n.K == "v.timeptr" || n.K == "v.valuer" || n.K == "v.map":
				exact = false
			case strings.Contains(n.K, "map") && len(n.L) > 1:
				exact = false
			}
		})
		c.A = append(c.A, n)
	}
	b, err := json.Marshal(c)
	if err != nil {
		die("call: %v", err)
	}
	return string(b), exact, ok
}

func stripped(n *Node) *Node {
	c := *n
	c.ID, c.L = 0, nil
	for _, l := range n.L {
		c.L = append(c.L, stripped(l))
	}
	return &c
}

// failedInside tells which injected failure reached the operation: "" for none.
func failedInside(ob *Obs) string {
	for _, f := range ob.Fired {
		for _, k := range []string{"err:", "panic:", "exit:"} {
			if strings.HasPrefix(f, k) {
				return strings.TrimSuffix(k, ":")
			}
		}
	}
	for _, in := range ob.Inner {
		if f := failedInside(in); f != "" {
			return f
		}
	}
	return ""
}

func (x *exec) judgeRender(j *judged, o *Op, ob *Obs, inner bool) {
	if ob.St == "skip" {
		return
	}
	segs, ok := j.m.segsOf(ob.Slot)
	if o.K == "compose" && !inner {
		segs, ok = j.m.composed(o)
	}
	if !ok {
		return
	}
	full, args := segs.show(ob.Form)
	failed := failedInside(ob)
	if ob.Form != formString && ob.Valued > 0 {
		j.vs = append(j.vs, &Violation{Class: "valuer-called", Op: ob.Op, Slot: ob.Slot, Form: ob.Form,
			Detail: fmt.Sprintf("rendering in form %s called driver.Valuer.Value %d times", ob.Form, ob.Valued)})
	}
	if ob.Form == formString && ob.St == "ok" && failed == "" && !inner {
		for _, g := range segs {
			if g.bind != nil && g.bind.fails {
				j.vs = append(j.vs, &Violation{Class: "swallowed", Op: ob.Op, Slot: ob.Slot, Form: ob.Form,
					Detail: fmt.Sprintf("the debug form shows %s, whose Value method fails, or what it returns: %q", g.bind.canon, ob.Out)})
				return
			}
		}
	}
	switch {
	case failed != "":
		if ob.St == "ok" && !inner {
			j.vs = append(j.vs, &Violation{Class: "swallowed", Op: ob.Op, Slot: ob.Slot, Form: ob.Form,
				Detail: fmt.Sprintf("an injected %s in the caller's code was swallowed: the render returned %q", failed, ob.Out)})
		}
		if failed == "panic" && ob.St == "panic" && !strings.HasPrefix(ob.Msg, "injected:") && !strings.Contains(ob.Msg, "injected") {
			j.stats["panic-rewritten"]++
		}
		if ob.Form == formSink {
			j.stats["aborted-renders"]++
			if len(ob.Out) < len(full) {
				j.stats["aborted-midway"]++
			}
			if !strings.HasPrefix(full, ob.Out) {
				j.vs = append(j.vs, &Violation{Class: "partial", Op: ob.Op, Slot: ob.Slot, Form: ob.Form, Got: ob.Out, Want: full, relat: true,
					Detail: "what an aborted render had written is not a prefix of the statement"})
			}
		}
	case ob.St == "panic":
		j.vs = append(j.vs, &Violation{Class: "render-panic", Op: ob.Op, Slot: ob.Slot, Form: ob.Form, Got: "panic: " + ob.Msg, Want: full, relat: true,
			Detail: "rendering panicked: " + ob.Msg})
	case ob.St == "ok":
		j.stats["renders"]++
		if len(args) > 9 {
			j.stats["renders-10+args"]++
		}
		if ob.Form == formSink {
			args = nil
			for _, g := range segs {
				if g.bind != nil {
					args = append(args, g.bind.canon)
				}
			}
		}
		if key(full, args) != key(ob.Out, ob.Args) {
			j.vs = append(j.vs, &Violation{Class: "output", Op: ob.Op, Slot: ob.Slot, Form: ob.Form, relat: true,
				Got: key(ob.Out, ob.Args), Want: key(full, args),
				Detail: fmt.Sprintf("rendered %q %q, expected %q %q", ob.Out, ob.Args, full, args)})
		} else if ob.Form == formQuery || ob.Form == formNamed {
			j.stats["paired"] += len(ob.Args)
			break // the model's own text is paired
		}
		x.judgePairing(j, ob, segs)
		judgeLists(j, ob, full, args)
	}
}

// listed is a list of columns before the lists of what they are given.
var listed = regexp.MustCompile(`\(([^()]*)\) (?:= |VALUES )\(`)

// columnsOf tells, of a statement, which arguments its lists of columns give to which of them.
func columnsOf(form, q string, args []string) (out [][2]string) {
	q = unmarked(q)
	for _, at := range listed.FindAllStringSubmatchIndex(q, -1) {
		columns := strings.Split(q[at[2]:at[3]], ", ")
		for rest := q[at[1]:]; ; {
			end := strings.IndexAny(rest, "()")
			if end < 0 || rest[end] == '(' {
				break
			}
			values := strings.Split(rest[:end], ", ")
			if len(values) != len(columns) {
				break
			}
			for i, v := range values {
				if form == formQuery {
					v = strings.TrimPrefix(v, "$")
				} else {
					v = strings.TrimPrefix(v, ":arg_")
				}
				if n, err := strconv.Atoi(v); err == nil && n > 0 && n <= len(args) && v != values[i] {
					out = append(out, [2]string{columns[i], strings.TrimPrefix(args[n-1], "arg_"+v+"=")})
				}
			}
			if rest = rest[end+1:]; !strings.HasPrefix(rest, ", (") {
				break
			}
			rest = rest[len(", ("):]
		}
	}
	return out
}

// unnamed leaves out the names of arguments.
func unnamed(args []string) (out []string) {
	for i, a := range args {
		out = append(out, strings.TrimPrefix(a, "arg_"+strconv.Itoa(i+1)+"="))
	}
	return out
}

// judgeLists compares what the columns of the lists of columns are given with what the caller gave them,
// where the text has the same lists otherwise.
func judgeLists(j *judged, ob *Obs, full string, args []string) {
	if ob.Form != formQuery && ob.Form != formNamed {
		return
	}
	if ob.Out == full && sameBag(unnamed(ob.Args), unnamed(args)) {
		// The text is the same, and its arguments are not.
		j.vs = append(j.vs, &Violation{Class: "pairing", Op: ob.Op, Slot: ob.Slot, Form: ob.Form,
			Detail: fmt.Sprintf("the arguments are those of other places: %q %q, expected %q", ob.Out, ob.Args, args)})
		return
	}
	got, want := columnsOf(ob.Form, ob.Out, ob.Args), columnsOf(ob.Form, full, args)
	if len(got) != len(want) {
		return
	}
	given, columns, values := map[[2]string]bool{}, map[string]bool{}, map[string]bool{}
	for _, w := range want {
		given[w], columns[w[0]], values[w[1]] = true, true, true
	}
	for _, g := range got {
		if columns[g[0]] && values[g[1]] && !given[g] {
			j.vs = append(j.vs, &Violation{Class: "pairing", Op: ob.Op, Slot: ob.Slot, Form: ob.Form,
				Detail: fmt.Sprintf("column %s is given %q, which was not given for it: %q %q", g[0], g[1], ob.Out, ob.Args)})
			return
		}
	}
}

// judgePairing holds placeholders against arguments, without trusting the model's idea of the text.
func (x *exec) judgePairing(j *judged, ob *Obs, segs segs) {
	bad := func(format string, a ...interface{}) {
		j.vs = append(j.vs, &Violation{Class: "pairing", Op: ob.Op, Slot: ob.Slot, Form: ob.Form,
			Detail: fmt.Sprintf(format, a...) + fmt.Sprintf(": %q %q", ob.Out, ob.Args)})
	}
	var want []string
	for _, g := range segs {
		if g.bind != nil {
			want = append(want, g.bind.canon)
		}
	}
	switch ob.Form {
	case formQuery:
		ph := placeholders(ob.Out, "$")
		for i, p := range ph {
			if p != strconv.Itoa(i+1) {
				bad("placeholder number %d is $%s", i+1, p)
				return
			}
		}
		if len(ph) != len(ob.Args) {
			bad("%d placeholders for %d arguments", len(ph), len(ob.Args))
			return
		}
		if !sameBag(ob.Args, want) {
			bad("the arguments are not the values given (%q)", want)
			return
		}
		j.stats["paired"] += len(ph)
		x.judgeOrder(j, ob, ob.Args, segs, want)
	case formNamed:
		ph := placeholders(ob.Out, ":arg_")
		if len(ph) != len(ob.Args) {
			bad("%d placeholders for %d arguments", len(ph), len(ob.Args))
			return
		}
		var got []string
		for i, p := range ph {
			if p != strconv.Itoa(i+1) {
				bad("placeholder number %d is :arg_%s", i+1, p)
				return
			}
			if !strings.HasPrefix(ob.Args[i], "arg_"+p+"=") {
				bad("no argument for placeholder :arg_%s", p)
				return
			}
			got = append(got, strings.TrimPrefix(ob.Args[i], "arg_"+p+"="))
		}
		if !sameBag(got, want) {
			bad("the arguments are not the values given (%q)", want)
			return
		}
		j.stats["paired"] += len(ph)
		x.judgeOrder(j, ob, got, segs, want)
	}
}

// judgeOrder compares, per argument, the text that leads up to its placeholder (back to the previous one)
// with the text that leads up to that same value in the caller's statement.
func (x *exec) judgeOrder(j *judged, ob *Obs, got []string, s segs, want []string) {
	if len(got) != len(want) {
		return
	}
	lead := map[string]map[string]bool{} // value -> leading texts
	var cur strings.Builder
	for _, g := range s {
		if g.bind == nil {
			cur.WriteString(unmarked(g.text))
			continue
		}
		if lead[g.bind.canon] == nil {
			lead[g.bind.canon] = map[string]bool{}
		}
		lead[g.bind.canon][cur.String()] = true
		cur.Reset()
	}
	parts := splitPlaceholders(ob.Out, map[string]string{formQuery: "$", formNamed: ":arg_"}[ob.Form])
	known := map[string]bool{}
	for _, m := range lead {
		for l := range m {
			known[l] = true
		}
	}
	for i, g := range got {
		if i >= len(parts) {
			return
		}
		l := parts[i]
		if lead[g] != nil && known[l] && !lead[g][l] {
			j.vs = append(j.vs, &Violation{Class: "pairing", Op: ob.Op, Slot: ob.Slot, Form: ob.Form,
				Detail: fmt.Sprintf("argument %d is %q, which was not given for %q: %q %q", i+1, g, l, ob.Out, ob.Args)})
			return
		}
	}
}

// unmarked leaves out what looks like a placeholder in names and raw text of the caller.
func unmarked(q string) string {
	for {
		i := strings.Index(q, "‹")
		if i < 0 {
			return q
		}
		j := strings.Index(q[i:], "›")
		if j < 0 {
			return q
		}
		q = q[:i] + q[i+j+len("›"):]
	}
}

// placeholders lists the numbers after each occurrence of mark in the text of a query. Values never reach
// the text in these forms, and where names and raw text contain the mark they show it.
func placeholders(q, mark string) []string {
	q = unmarked(q)
	var out []string
	for i := 0; i+len(mark) <= len(q); {
		if q[i:i+len(mark)] != mark {
			i++
			continue
		}
		i += len(mark)
		k := i
		for k < len(q) && q[k] >= '0' && q[k] <= '9' {
			k++
		}
		out = append(out, q[i:k])
		i = k
	}
	return out
}

func splitPlaceholders(q, mark string) []string {
	q = unmarked(q)
	var out []string
	start := 0
	for i := 0; i+len(mark) <= len(q); {
		if q[i:i+len(mark)] != mark {
			i++
			continue
		}
		out = append(out, q[start:i])
		i += len(mark)
		for i < len(q) && q[i] >= '0' && q[i] <= '9' {
			i++
		}
		start = i
	}
	return out
}

func sameBag(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	n := map[string]int{}
	for _, s := range a {
		n[s]++
	}
	for _, s := range b {
		n[s]--
		if n[s] < 0 {
			return false
		}
	}
	return true
}

func (x *exec) judgeBuild(j *judged, o *Op, ob *Obs) {
	if ob.Valued > 0 && ob.St == "ok" { // the message of a refusal may quote a statement
		j.vs = append(j.vs, &Violation{Class: "valuer-called", Op: ob.Op, Detail: fmt.Sprintf("building called driver.Valuer.Value %d times", ob.Valued)})
	}
	failed := failedInside(ob)
	switch ob.St {
	case "panic":
		if strings.HasPrefix(ob.Msg, "harness:") {
			if _, refused := x.modelRefuses(j.m, o); !refused {
				die("op %d: %s", ob.Op, ob.Msg)
			}
		}
		if failed != "" {
			return
		}
		_, refused := x.modelRefuses(j.m, o)
		if refused {
			j.stats["rejected"]++
			return
		}
		j.vs = append(j.vs, &Violation{Class: "build-panic", Op: ob.Op, Slot: o.Out, Got: "panic: " + ob.Msg, relat: true,
			Detail: fmt.Sprintf("the call %s panicked: %s", o.K, ob.Msg)})
	case "ok":
		if failed == "panic" || failed == "exit" {
			j.vs = append(j.vs, &Violation{Class: "swallowed", Op: ob.Op,
				Detail: fmt.Sprintf("an injected %s in an encoder was swallowed by the call %s", failed, o.K)})
		}
		if _, refused := x.modelRefuses(j.m, o); refused {
			j.stats["accepted-invalid"]++
			if os.Getenv("SIM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "accepted:", describeOp(o))
			}
		}
	}
}

func (x *exec) modelRefuses(m *model, o *Op) (string, bool) {
	_, refused := m.try(o)
	return refused, refused != ""
}

// judgeEncoders checks that every encoder passed to a call that succeeded was consulted once, by that call.
func (x *exec) judgeEncoders(j *judged) {
	ok, failed := map[int]bool{}, map[int]bool{}
	for _, list := range x.obs {
		for _, ob := range list {
			if ob.done {
				ok[ob.Op] = ob.St == "ok"
				failed[ob.Op] = ob.St == "panic" || ob.St == "exit"
			}
		}
	}
	for _, o := range x.plan.Ops {
		if failed[o.ID] {
			for _, a := range o.A {
				walk(a, func(n *Node) {
					if k := parseScript(n.F).kind; (k == "panic" || k == "exit") && strings.HasPrefix(n.K, "v.enc") && x.consults[n.ID] > 1 {
						j.vs = append(j.vs, &Violation{Class: "encoder-count", Op: o.ID,
							Detail: fmt.Sprintf("an encoder (%s) passed to %s failed when it was consulted, and was consulted %d times all the same", n.K, o.K, x.consults[n.ID])})
					}
				})
			}
		}
		if !ok[o.ID] {
			continue
		}
		if _, refused := x.modelRefuses(j.m, o); refused {
			continue // accepted by the code: what it makes of the arguments is not known
		}
		for _, a := range o.A {
			walk(a, func(n *Node) {
				switch n.K {
				case "v.enc.str", "v.enc.int", "v.enc.bool", "v.enc.time", "v.enc.multi", "v.enc.all", "v.enc.bts", "v.enc.ts", "v.enc.val", "v.stenc":
					c := x.consults[n.ID]
					j.stats["encoders"]++
					if c == 1 && x.buildOp[n.ID] != o.ID {
						j.vs = append(j.vs, &Violation{Class: "encoder-count", Op: o.ID,
							Detail: fmt.Sprintf("an encoder (%s) passed to %s (op %d) was first consulted by op %d", n.K, o.K, o.ID, x.buildOp[n.ID])})
					}
					if c != 1 {
						j.vs = append(j.vs, &Violation{Class: "encoder-count", Op: o.ID,
							Detail: fmt.Sprintf("an encoder (%s) passed to %s was consulted %d times over the run", n.K, o.K, c)})
					}
				}
			})
		}
	}
}

const soloValues = "values"

// solo renders one slot of the plan with nothing else going on.
//
// A variant with the valuers' values has the values themselves where the plan has valuers.
func solo(p *Plan, slot int, form string, op int, variant string, fixed map[int]interface{}) *Obs {
	slots := []int{slot}
	var comp *Op
	for _, o := range p.Ops {
		if o.ID == op && o.K == "compose" && form == o.Form {
			comp = o
			slots = o.deps()
		}
	}
	q := closure(p, slots...)
	at := slot
	if p.Prop == "C13" || p.Prop == "C01" {
		q, at, comp = unshare(q, slot, comp)
	}
	for _, o := range q.Ops {
		for _, a := range o.A {
			walk(a, func(n *Node) {
				if strings.HasPrefix(n.K, "v.") {
					if variant == soloValues {
						valueInPlace(n)
					}
					if !strings.HasPrefix(n.F, "tick") {
						n.F = ""
					}
				}
			})
		}
	}
	x := newExec(q)
	x.noFault = true
	x.fixed = fixed
	r := &Op{ID: 1 << 20, Th: -1, K: "render", In: at, Form: form}
	if len(q.Ops) > 0 {
		r.ID = q.Ops[len(q.Ops)-1].ID + 1
	}
	for _, o := range p.Ops {
		if o.Out == slot && o.K == "frag" {
			r.K = "write"
			r.Form = formSink
		}
	}
	if comp != nil {
		c := *comp
		c.ID, c.Th, c.F = r.ID, -1, ""
		r = &c
	}
	if form != "" {
		q.Ops = append(q.Ops, r)
		x.byOp[r.ID] = r
		x.rets = make([]*retained, r.ID+1)
	}
	x.run()
	l := x.obs[maxThreads]
	if len(l) == 0 {
		return &Obs{St: "skip"}
	}
	last := l[len(l)-1]
	for _, ob := range l {
		if ob.St == "panic" {
			last = ob
			break
		}
	}
	return last
}

// unshare is the plan in which every use of a piece or statement has one of its own, made by the same calls.
// A plan that would get too large stays as it is.
func unshare(q *Plan, slot int, comp *Op) (*Plan, int, *Op) {
	made := map[int]*Op{}
	for _, o := range q.Ops {
		made[o.Out] = o
	}
	u := clonePlan(q)
	u.Ops = nil
	slots, fits := 0, true
	var use func(slot int) int
	var own func(n *Node) *Node
	own = func(n *Node) *Node {
		c := *n
		if n.R > 0 {
			c.R = use(n.R)
		}
		if isContainer(n) {
			c.E = 0
		}
		c.L = nil
		for _, l := range n.L {
			c.L = append(c.L, own(l))
		}
		return &c
	}
	copied := func(o *Op) *Op {
		c := *o
		if o.In > 0 && o.K != "compose" {
			c.In = use(o.In)
		}
		c.A = nil
		for _, a := range o.A {
			c.A = append(c.A, own(a))
		}
		c.ID = len(u.Ops) + 1
		return &c
	}
	use = func(slot int) int {
		o := made[slot]
		if o == nil || len(u.Ops) > 1500 {
			fits = false
			return slot
		}
		c := copied(o)
		slots++
		c.Out = slots
		u.Ops = append(u.Ops, c)
		return slots
	}
	if comp == nil {
		if to := use(slot); fits {
			return u, to, nil
		}
		return q, slot, nil
	}
	c := copied(comp)
	if !fits || len(c.A) == 0 {
		return q, slot, comp
	}
	c.In = c.A[0].R
	return u, c.In, c
}

var _ builder.Builder = builder.Select{}
