package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"verif.local/sim/hook"
)

// planStats counts what a plan contains.
func planStats(p *Plan) map[string]int {
	m := map[string]int{}
	kids := map[int]int{}
	uses := map[int]int{}
	for _, o := range p.Ops {
		m["ops"]++
		if isBuild(o) && o.In > 0 {
			kids[o.In]++
		}
		if o.Sp != 0 {
			m["owned-containers"]++
		}
		for _, a := range o.A {
			walk(a, func(n *Node) {
				switch {
				case n.K == "ref" || n.K == "b" || n.K == "k.as" || n.K == "t.as" || n.K == "s.as":
					uses[n.R]++
				case n.K == "k.words":
					m["vocabularies"]++
				case n.K == "v.valuer":
					m["valuers"]++
				case strings.HasPrefix(n.K, "v.enc") || n.K == "v.stenc" || n.K == "v.timeptr":
					m["encoders"]++
				case strings.HasPrefix(n.K, "c."):
					m["owned-containers"]++
				case n.K == "p.map" || n.K == "p.smap":
					if n.ID != 0 {
						m["owned-containers"]++
					}
					if len(n.L) > 1 {
						m["map-arguments"]++
					}
				}
			})
		}
	}
	for _, n := range kids {
		if n > 1 {
			m["forked-handles"]++
		}
	}
	for _, n := range uses {
		if n > 1 {
			m["shared-fragments"]++
		}
	}
	return m
}

// nontrivial says whether a run exercised what its property is about.
func nontrivial(p *Plan, ps map[string]int, out *Outcome) bool {
	preempted := false
	for _, s := range out.Switches {
		if s.P != 0 {
			preempted = true
		}
	}
	fired := func(prefix ...string) bool {
		for k := range out.Stats {
			for _, f := range prefix {
				if strings.HasPrefix(k, "fault."+f) {
					return true
				}
			}
		}
		return false
	}
	switch p.Prop {
	case "C01":
		return ps["forked-handles"] > 0
	case "C02":
		return preempted
	case "C03":
		return out.Stats["rejected"] > 0 || fired("panic", "exit")
	case "C04":
		return fired("panic", "exit", "err")
	case "C05":
		return ps["map-arguments"] > 0
	case "C06":
		return fired("short", "zero", "read", "eof", "panic", "stall", "reenter")
	case "C07":
		return out.Stats["paired"] > 1
	case "C08":
		return fired("spoil") || preempted
	case "C09":
		return ps["owned-containers"] > 0
	case "C10":
		return ps["encoders"] > 0
	case "C11":
		return ps["valuers"] > 0
	case "C12":
		return fired("stall", "reenter")
	case "C13":
		return ps["shared-fragments"] > 0
	}
	return true
}

func describeNode(n *Node) string {
	s := n.K
	for _, t := range []string{n.S, n.T} {
		if t != "" {
			if len(t) > 40 {
				t = t[:40] + "…"
			}
			s += " " + fmt.Sprintf("%q", t)
		}
	}
	if n.N != 0 {
		s += fmt.Sprintf(" %d", n.N)
	}
	if n.R != 0 {
		s += fmt.Sprintf(" @%d", n.R)
	}
	if n.F != "" {
		s += " fault=" + n.F
	}
	if n.E != 0 {
		s += fmt.Sprintf(" object=%d", n.E)
	}
	if len(n.L) > 0 {
		var l []string
		for _, c := range n.L {
			l = append(l, describeNode(c))
		}
		s += " [" + strings.Join(l, ", ") + "]"
	}
	return s
}

func describeOp(o *Op) string {
	var b strings.Builder
	who := fmt.Sprintf("thread %d", o.Th)
	switch o.Th {
	case -1:
		who = "setup"
	case -2:
		who = "audit"
	}
	fmt.Fprintf(&b, "op %d (%s): ", o.ID, who)
	switch o.K {
	case "compose":
		fmt.Fprintf(&b, "write one after the other to one context, form %s: ", o.Form)
	case "render", "write":
		fmt.Fprintf(&b, "render @%d in form %s", o.In, o.Form)
		if o.Arg > 0 {
			fmt.Fprintf(&b, ", the last of %d times", o.Arg+1)
		}
	case "frag":
		fmt.Fprintf(&b, "@%d := fragment", o.Out)
	case "clobber", "spoil", "jump":
		fmt.Fprintf(&b, "%s %d", o.K, o.Arg)
	default:
		fmt.Fprintf(&b, "@%d := @%d.%s", o.Out, o.In, o.K)
	}
	var l []string
	for _, a := range o.A {
		l = append(l, describeNode(a))
	}
	if len(l) > 0 {
		b.WriteString("(" + strings.Join(l, ", ") + ")")
	}
	if o.Sp != 0 {
		fmt.Fprintf(&b, " arguments spread from a slice of the caller")
	}
	if o.F != "" {
		fmt.Fprintf(&b, " fault=%s", o.F)
	}
	return b.String()
}

// traceOf writes a plan and its schedule out for a reader.
func traceOf(p *Plan, out *Outcome) []string {
	var t []string
	for _, o := range p.Ops {
		t = append(t, describeOp(o))
	}
	if p.Lex != nil {
		for _, j := range p.Lex.Jobs {
			b, _ := json.Marshal(j.Chunks)
			t = append(t, fmt.Sprintf("lexer %d (thread %d, iterator %v): text %q in reads %s", j.ID, j.Th, j.Iter, j.Text, b))
		}
	}
	for _, s := range out.Switches {
		switch {
		case s.T < 0:
			t = append(t, fmt.Sprintf("schedule: thread %d starts", s.To))
		case s.N < 0:
			t = append(t, fmt.Sprintf("schedule: thread %d ends, thread %d goes on", s.T, s.To))
		default:
			t = append(t, fmt.Sprintf("schedule: thread %d, in op %d at yield %d (point %d), hands over to thread %d", s.T, s.Op, s.N, s.P, s.To))
		}
		if len(t) > 400 {
			break
		}
	}
	return t
}

var _ = hook.Serial
