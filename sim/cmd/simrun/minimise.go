package main

import (
	"strings"
	"time"

	"verif.local/sim/hook"
)

// minimiser shortens a failing plan: schedule, operations, faults, arguments.
type minimiser struct {
	t     *target
	plans []*Plan
	out   *Outcome
}

func (m *minimiser) last() *Plan { return m.plans[len(m.plans)-1] }

func (m *minimiser) with(p *Plan) []*Plan {
	return append(append([]*Plan(nil), m.plans[:len(m.plans)-1]...), p)
}

// take tests candidates for the last plan and adopts the first that still fails.
func (m *minimiser) take(cands []*Plan) (int, bool) {
	if len(cands) == 0 || time.Now().After(m.t.until) {
		return -1, false
	}
	var all [][]*Plan
	for _, c := range cands {
		all = append(all, m.with(c))
	}
	i, out := m.t.any(all)
	if i < 0 {
		return -1, false
	}
	m.plans = all[i]
	m.out = out
	return i, true
}

func (m *minimiser) run() {
	if m.t.class == "hang" {
		return
	}
	p := m.last()
	if p.Threads > 1 {
		q := clonePlan(p)
		q.Strategy, q.Switches, q.P, q.Changes, q.Focus = hook.Serial, nil, 0, nil, nil
		q.Strategy = hook.Replay
		r := clonePlan(p)
		r.Strategy, r.P, r.Changes, r.Focus = hook.Replay, 0, nil, nil
		r.Switches = m.out.Switches
		m.take([]*Plan{q, r})
	}
	if len(p.MapSeeds) > 1 {
		var c []*Plan
		for _, s := range p.MapSeeds {
			q := clonePlan(m.last())
			q.MapSeeds = []uint64{s}
			c = append(c, q)
		}
		m.take(c)
	}
	if p.Lex != nil {
		m.lex()
		return
	}
	for round := 0; round < 3; round++ {
		before := len(m.last().Ops) + len(m.last().Switches)
		m.ops()
		m.normalise()
		m.switches()
		m.ops()
		if len(m.last().Ops)+len(m.last().Switches) == before {
			break
		}
	}
	m.details()
	m.ops()
	m.normalise()
	m.switches()
	m.compact()
}

// normalise replaces the recorded switches by those that happened.
func (m *minimiser) normalise() {
	p := m.last()
	if p.Strategy != hook.Replay || p.Threads < 2 || m.out == nil {
		return
	}
	q := clonePlan(p)
	q.Switches = m.out.Switches
	m.take([]*Plan{q})
}

// without removes operations and everything that needs what they made.
func without(p *Plan, drop map[int]bool) *Plan {
	q := clonePlan(p)
	gone := map[int]bool{}
	ids := map[int]bool{}
	var ops []*Op
	for _, o := range q.Ops {
		bad := drop[o.ID]
		for _, d := range o.deps() {
			if gone[d] {
				bad = true
			}
		}
		if o.K == "spoil" && ids[o.Arg] {
			bad = true
		}
		if strings.HasPrefix(o.F, "reent") && gone[parseScript(o.F).arg] {
			o.F = ""
		}
		for _, a := range o.A {
			walk(a, func(n *Node) {
				if strings.HasPrefix(n.F, "reent") && gone[parseScript(n.F).arg] {
					n.F = ""
				}
			})
		}
		if bad {
			if o.Out > 0 {
				gone[o.Out] = true
			}
			ids[o.ID] = true
			continue
		}
		ops = append(ops, o)
	}
	q.Ops = ops
	return q
}

func (m *minimiser) ops() {
	size := len(m.last().Ops) / 2
	for size >= 1 {
		p := m.last()
		var cands []*Plan
		for e := len(p.Ops); e > 0; e -= size {
			s := e - size
			if s < 0 {
				s = 0
			}
			drop := map[int]bool{}
			for _, o := range p.Ops[s:e] {
				drop[o.ID] = true
			}
			cands = append(cands, without(p, drop))
		}
		if _, ok := m.take(cands); ok {
			if size > len(m.last().Ops)/2 && size > 1 {
				size = len(m.last().Ops)/2 + 1
			}
			continue
		}
		if time.Now().After(m.t.until) {
			return
		}
		size /= 2
	}
}

func (m *minimiser) switches() {
	p := m.last()
	if p.Strategy != hook.Replay {
		return
	}
	size := len(p.Switches) / 2
	if size == 0 && len(p.Switches) > 0 {
		size = 1
	}
	for size >= 1 {
		p := m.last()
		var cands []*Plan
		for s := 0; s < len(p.Switches); s += size {
			e := s + size
			if e > len(p.Switches) {
				e = len(p.Switches)
			}
			q := clonePlan(p)
			q.Switches = append(append([]hook.Switch(nil), p.Switches[:s]...), p.Switches[e:]...)
			cands = append(cands, q)
		}
		if _, ok := m.take(cands); ok {
			if size > len(m.last().Switches) {
				size = len(m.last().Switches)
			}
			continue
		}
		if time.Now().After(m.t.until) {
			return
		}
		size /= 2
	}
}

// listNode says whether the arguments of a node may be dropped one by one.
func listNode(n *Node) bool {
	switch n.K {
	case "c.cols", "c.strs", "c.strings", "c.ints", "c.sels", "c.list", "c.exprs", "c.rows", "c.row", "c.withs", "c.orders",
		"e.call", "p.map", "p.smap", "x.update":
		return true
	case "e.cmp", "e.rawcmp":
		return n.S == "in" || n.S == "notin"
	}
	return false
}

func listOp(o *Op) bool {
	switch o.K {
	case "columns", "distincton", "from", "with", "groupby", "orderby", "values", "set", "onconflict", "returning", "using", "new.select", "compose":
		return true
	}
	return false
}

// details simplifies arguments: fewer elements, plainer values, no faults that do not matter.
func (m *minimiser) details() {
	for changed := true; changed && !time.Now().After(m.t.until); {
		changed = false
		base := m.last()
		var cands []*Plan
		add := func(f func(q *Plan)) {
			q := clonePlan(base)
			f(q)
			cands = append(cands, q)
		}
		for oi, o := range base.Ops {
			oi := oi
			if o.F != "" {
				add(func(q *Plan) { q.Ops[oi].F = "" })
			}
			if o.K == "render" && o.Arg > 0 {
				for _, n := range []int{0, 1, o.Arg / 2, o.Arg * 3 / 4, o.Arg - 1} {
					n := n
					if n < o.Arg {
						add(func(q *Plan) { q.Ops[oi].Arg = n })
					}
				}
			}
			if listOp(o) && len(o.A) > 1 {
				for i := range o.A {
					i := i
					add(func(q *Plan) {
						a := q.Ops[oi].A
						q.Ops[oi].A = append(a[:i:i], a[i+1:]...)
					})
				}
			}
			k := 0
			typed := map[*Node]bool{}
			for _, a := range o.A {
				walk(a, func(n *Node) {
					if n.K == "c.rows" && n.T != "" && n.T != "expr" || n.E != 0 && isContainer(n) {
						walk(n, func(c *Node) { typed[c] = true })
					}
				})
			}
			for _, a := range o.A {
				walk(a, func(n *Node) {
					at := k
					k++
					nth := func(q *Plan) *Node {
						var hit *Node
						c := 0
						for _, a := range q.Ops[oi].A {
							walk(a, func(n *Node) {
								if c == at {
									hit = n
								}
								c++
							})
						}
						return hit
					}
					boxed := n.E != 0 && isContainer(n)
					if boxed {
						add(func(q *Plan) { nth(q).E = 0 })
					}
					if listNode(n) && len(n.L) > 1 && !boxed && !typed[n] {
						for i := range n.L {
							i := i
							add(func(q *Plan) {
								x := nth(q)
								x.L = append(x.L[:i:i], x.L[i+1:]...)
							})
						}
					}
					if strings.HasPrefix(n.K, "v.") && n.F != "" {
						add(func(q *Plan) { nth(q).F = "" })
					}
					if (strings.HasPrefix(n.K, "v.") && n.K != "v.int" && n.K != "v.bad" && n.K != "v.strs" || n.K == "b") && o.K != "with" && o.K != "frag" && !typed[n] {
						add(func(q *Plan) { *nth(q) = Node{K: "v.int", N: 1} })
					}
					if (n.K == "e.and" || n.K == "e.or") && len(n.L) == 2 && !typed[n] {
						for i := range n.L {
							i := i
							add(func(q *Plan) { x := nth(q); *x = *x.L[i] })
						}
					}
					if n.K == "v.str" && len(n.S) > 8 && !typed[n] {
						add(func(q *Plan) { nth(q).S = "s" })
					}
				})
			}
		}
		if len(cands) > 400 {
			cands = cands[:400]
		}
		if _, ok := m.take(cands); ok {
			changed = true
		}
	}
}

// compact gives the threads that are left consecutive numbers.
func (m *minimiser) compact() {
	p := m.last()
	used := map[int]bool{}
	for _, o := range p.Ops {
		if o.Th >= 0 {
			used[o.Th] = true
		}
	}
	if len(used) >= p.Threads {
		return
	}
	q := clonePlan(p)
	num := map[int]int{}
	n := 0
	for t := 0; t < p.Threads; t++ {
		if used[t] {
			num[t] = n
			n++
		}
	}
	for _, o := range q.Ops {
		if o.Th >= 0 {
			o.Th = num[o.Th]
		}
	}
	var sw []hook.Switch
	for _, s := range q.Switches {
		if s.T >= 0 && !used[s.T] || !used[s.To] {
			continue
		}
		if s.T >= 0 {
			s.T = num[s.T]
		}
		s.To = num[s.To]
		sw = append(sw, s)
	}
	q.Switches = sw
	q.Threads = n
	m.take([]*Plan{q})
}

func (m *minimiser) lex() {
	for changed := true; changed && !time.Now().After(m.t.until); {
		changed = false
		base := m.last()
		var cands []*Plan
		if len(base.Lex.Jobs) > 1 {
			for i := range base.Lex.Jobs {
				q := clonePlan(base)
				q.Lex.Jobs = append(q.Lex.Jobs[:i:i], q.Lex.Jobs[i+1:]...)
				cands = append(cands, q)
			}
		}
		for ji, j := range base.Lex.Jobs {
			if j.Shape != "" {
				q := clonePlan(base)
				q.Lex.Jobs[ji].Shape = ""
				cands = append(cands, q)
			}
			for size := len(j.Chunks); size >= 1; size /= 2 {
				for s := 0; s < len(j.Chunks); s += size {
					e := s + size
					if e > len(j.Chunks) {
						e = len(j.Chunks)
					}
					q := clonePlan(base)
					c := q.Lex.Jobs[ji].Chunks
					q.Lex.Jobs[ji].Chunks = append(c[:s:s], c[e:]...)
					cands = append(cands, q)
					if len(cands) > 300 {
						break
					}
				}
			}
			for size := (len(j.Text) + 1) / 2; size >= 1; size /= 2 {
				for s := 0; s < len(j.Text); s += size {
					e := s + size
					if e > len(j.Text) {
						e = len(j.Text)
					}
					q := clonePlan(base)
					c := q.Lex.Jobs[ji].Text
					q.Lex.Jobs[ji].Text = append(c[:s:s], c[e:]...)
					cands = append(cands, q)
					if len(cands) > 600 {
						break
					}
				}
			}
		}
		if _, ok := m.take(cands); ok {
			changed = true
		}
	}
	m.normalise()
	m.switches()
}
