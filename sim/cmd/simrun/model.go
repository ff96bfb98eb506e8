package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// The reference model: builders and fragments as immutable values, single-threaded, with no memory of
// anything. What an operation yields depends on its arguments and nothing else.

type seg struct {
	text string
	bind *mbind
}

type mbind struct {
	canon string
	lit   string
	id    int // node
	calls bool
	fails bool // whenever it is called
}

type segs []seg

// cost is about how much work it is to render: long strings are written one character after another.
func (s segs) cost() int {
	n := len(s)
	for _, x := range s {
		if x.bind != nil {
			n += len(x.bind.lit) / 12
		}
	}
	return n
}

func txt(s string) segs { return segs{{text: s}} }

func cat(parts ...segs) segs {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	if n == 0 {
		return nil
	}
	out := make(segs, 0, n)
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func join(parts []segs, sep string) segs {
	var out segs
	for i, p := range parts {
		if i > 0 {
			out = append(out, seg{text: sep})
		}
		out = append(out, p...)
	}
	return out
}

type mexpr struct {
	s    segs
	kind byte // 's' select, 'x' exists, 'i' infix, 'n' in, 'I' identifier, 'C' call, 'V' value, 0 other
	arr  []mexpr
}

type mcol struct{ name, alias string }

type mtable struct {
	name, alias string
	only, raw   bool
}

type mon struct {
	s     segs
	infix bool
}

type mjoin struct {
	kind  string
	table mtable
	cond  segs
}

// mclause is a WHERE or HAVING clause on its own.
type mclause struct {
	word string
	s    segs
}

type morder struct{ s segs }

type mwith struct{ s segs }

type mselx struct{ s segs }

type magg struct {
	fn, val, alias string
	distinct       bool
}

type maction struct {
	s     segs
	noact bool
}

type mset struct {
	mode  int // 0 unknown, 1 pairs, 2 column list
	cols  []mcol
	vals  map[mcol]segs
	exprs []segs
}

type mselect struct {
	prefix, suffix, comment string
	with                    []segs
	distinct                bool
	distinctOn              []mcol
	exprs                   []segs
	from                    []segs
	joins                   []segs
	where                   *mexpr
	groupBy                 []mcol
	having                  segs
	orders                  []segs
	limit, offset           int64
}

type minsert struct {
	into      mtable
	cols      []mcol
	values    segs
	hasValues bool
	target    []mcol
	action    segs
	returning []segs
	comment   string
}

type mupdate struct {
	table     mtable
	only      bool
	with      []segs
	set       mset
	from      []segs
	where     *mexpr
	returning []segs
	comment   string
}

type mdelete struct {
	from      []segs
	using     []segs
	where     *mexpr
	returning []segs
	comment   string
}

type reject struct{ why string }

func rejectf(format string, args ...interface{}) {
	panic(reject{fmt.Sprintf(format, args...)})
}

type model struct {
	slots map[int]interface{}
	// read says which value an encoder gave when it was consulted.
	read func(n *Node) interface{}
	// clock gives the content of a caller's time variable when the operation read it.
	ptr func(n *Node) interface{}

	known map[int]knownSegs
}

func newModel() *model { return &model{slots: map[int]interface{}{}} }

func quoteName(s string) string {
	parts := strings.Split(s, ".")
	for i := range parts {
		parts[i] = strconv.Quote(parts[i])
	}
	return strings.Join(parts, ".")
}

func (c mcol) segs() segs {
	s := quoteName(c.name)
	if c.alias != "" {
		s += " AS " + quoteName(c.alias)
	}
	return txt(s)
}

func (t mtable) segs() segs {
	if t.raw {
		return txt(t.name)
	}
	s := ""
	if t.only {
		s = "ONLY "
	}
	s += quoteName(t.name)
	if t.alias != "" {
		s += " AS " + quoteName(t.alias)
	}
	return txt(s)
}

func (a magg) segs() segs {
	s := a.fn + "("
	if a.distinct {
		s += "DISTINCT "
	}
	s += a.val + ")"
	if a.alias != "" {
		s += " AS " + a.alias
	}
	return txt(s)
}

func bindOf(n *Node, v interface{}) mexpr {
	if v == nil {
		return mexpr{s: txt("NULL")}
	}
	return mexpr{s: segs{{bind: &mbind{canon: canon(v), lit: literal(v), id: n.ID}}}}
}

// expr is what NewExpression makes of an argument.
func (m *model) expr(n *Node) mexpr {
	if n.K == "v.bad" {
		rejectf("unusable type")
	}
	if n.K == "v.list" && n.T != "int64" {
		rejectf("unusable type")
	}
	if v, ok := plain(n); ok {
		return bindOf(n, v)
	}
	switch n.K {
	case "v.valuer":
		b := &mbind{canon: valuerCanon(n), id: n.ID, calls: true}
		switch {
		case n.T == "nilptr":
			b.canon, b.lit, b.calls = "valuer#nil", "NULL", false
		default:
			b.lit = literal(valuerOut(n))
			sc := parseScript(n.F)
			b.fails = strings.HasPrefix(n.T, "nest-err") || sc.at == 0 && (sc.kind == "err" || sc.kind == "panic" || sc.kind == "exit")
		}
		return mexpr{s: segs{{bind: b}}}
	case "e.out":
		return bindOf(n, valuerOut(n))
	case "v.timeptr":
		if n.T == "nil" {
			rejectf("nil time pointer")
		}
		return bindOf(n, m.timeAt(n))
	case "v.enc.str", "v.enc.int", "v.enc.bool", "v.enc.time", "v.enc.multi", "v.enc.all", "v.enc.bts", "v.enc.ts", "v.enc.val":
		if sc := parseScript(n.F); sc.kind == "panic" || sc.kind == "exit" {
			rejectf("encoder fails")
		}
		if m.read != nil {
			if v := m.read(n); v != nil {
				return bindOf(n, v)
			}
		}
		return bindOf(n, reading(n, 1, 0))
	case "v.stenc":
		if sc := parseScript(n.F); sc.kind == "panic" || sc.kind == "exit" {
			rejectf("encoder fails")
		}
		if n.T == "notexpr" {
			rejectf("statement is not an expression")
		}
		return m.expr(n.L[0])
	case "b":
		s, ok := m.slots[n.R].(*mselect)
		if !ok {
			if m.slots[n.R] == nil {
				rejectf("no such slot")
			}
			rejectf("statement is not an expression")
		}
		return mexpr{s: s.segs(), kind: 's'}
	case "ref":
		e, ok := m.slots[n.R].(mexpr)
		if !ok {
			rejectf("not an expression")
		}
		return e
	}
	if strings.HasPrefix(n.K, "e.") {
		return m.node(n)
	}
	rejectf("cannot use %s as expression", n.K)
	return mexpr{}
}

func (m *model) timeAt(n *Node) interface{} {
	if m.ptr != nil {
		if v := m.ptr(n); v != nil {
			return v
		}
	}
	return timeAt(n, 0)
}

func wrap(e mexpr) mexpr {
	if e.kind == 's' || e.kind == 'x' {
		return mexpr{s: cat(txt("("), e.s, txt(")"))}
	}
	return e
}

func infix(l segs, op string, r segs) mexpr {
	return mexpr{s: cat(txt("("), l, txt(" "+op+" "), r, txt(")")), kind: 'i'}
}

// array is what NewArrayExpression makes of its arguments.
func (m *model) array(args []*Node) []mexpr {
	if len(args) == 1 {
		return m.toArray(args[0])
	}
	var out []mexpr
	for _, a := range args {
		out = append(out, m.expr(a))
	}
	return out
}

func (m *model) toArray(n *Node) []mexpr {
	switch n.K {
	case "v.nil":
		return nil
	case "v.strs", "v.i64s":
		list, _ := plain(n)
		var out []mexpr
		for _, v := range elements(list) {
			out = append(out, bindOf(n, v))
		}
		return out
	case "v.ext":
		switch n.T {
		case "strs-nil", "i64s-nil", "strs-odd":
			var out []mexpr
			for _, v := range elements(extreme(n.T)) {
				out = append(out, bindOf(n, v))
			}
			return out
		}
	case "v.list", "c.nums":
		var out []mexpr
		for _, v := range elements(listOf(n)) {
			out = append(out, bindOf(n, v))
		}
		return out
	case "c.list", "c.exprs":
		var out []mexpr
		for _, c := range n.L {
			out = append(out, m.expr(c))
		}
		return out
	case "c.ints", "c.strings":
		var out []mexpr
		for _, c := range n.L {
			v, _ := plain(c)
			out = append(out, bindOf(n, v))
		}
		return out
	}
	return []mexpr{m.expr(n)}
}

// operand is the left side of comparisons that a slot has.
func (m *model) operand(slot int, kind byte) segs {
	e, ok := m.slots[slot].(mexpr)
	if !ok || e.kind != kind {
		rejectf("not an operand")
	}
	return e.s
}

func joinExprs(es []mexpr) segs {
	var parts []segs
	for _, e := range es {
		parts = append(parts, e.s)
	}
	return join(parts, ", ")
}

var wrapOps = map[string]string{
	"eq": "=", "ne": "!=", "gt": ">", "ge": ">=", "lt": "<", "le": "<=", "contains": "@>", "contained": "<@", "overlap": "&&",
}
var plainOps = map[string]string{
	"is": "IS", "isnot": "IS NOT", "like": "LIKE", "notlike": "NOT LIKE", "ilike": "ILIKE", "notilike": "NOT ILIKE",
	"distinct": "IS DISTINCT FROM", "notdistinct": "IS NOT DISTINCT FROM",
}

// node evaluates an expression node.
func (m *model) node(n *Node) mexpr {
	switch n.K {
	case "e.cmp", "e.rawcmp", "e.callcmp", "e.valcmp":
		var left segs
		rest := n.L
		switch n.K {
		case "e.cmp":
			left = txt(quoteName(n.T))
			if n.R != 0 {
				left = m.operand(n.R, 'I')
			}
		case "e.rawcmp":
			left = txt(n.T)
		case "e.callcmp":
			rest = n.L[1:]
			if n.L[0].K == "ref" {
				left = m.operand(n.L[0].R, 'C')
			} else {
				left = m.node(n.L[0]).s
			}
		case "e.valcmp":
			rest = n.L[1:]
			if n.L[0].K == "ref" {
				left = m.operand(n.L[0].R, 'V')
			} else {
				v, _ := plain(n.L[0])
				left = bindOf(n.L[0], v).s
			}
		}
		if op, ok := wrapOps[n.S]; ok {
			return infix(left, op, wrap(m.expr(rest[0])).s)
		}
		if op, ok := plainOps[n.S]; ok {
			return infix(left, op, m.expr(rest[0]).s)
		}
		switch n.S {
		case "null":
			return infix(left, "IS", txt("NULL"))
		case "notnull":
			return infix(left, "IS NOT", txt("NULL"))
		case "in", "notin":
			op := "IN"
			if n.S == "notin" {
				op = "NOT IN"
			}
			return mexpr{s: cat(txt("("), left, txt(" "+op+" ("), joinExprs(m.array(rest)), txt("))")), kind: 'n'}
		case "between", "notbetween":
			op := "BETWEEN"
			if n.S == "notbetween" {
				op = "NOT BETWEEN"
			}
			return mexpr{s: cat(txt("("), left, txt(" "+op+" "), m.expr(rest[0]).s, txt(" AND "), m.expr(rest[1]).s, txt(")"))}
		}
	case "e.call":
		return mexpr{s: cat(txt(n.S+"("), joinExprs(m.exprs(n.L)), txt(")")), kind: 'C'}
	case "e.callsp": // arguments spread from a caller-owned slice
		return mexpr{s: cat(txt(n.S+"("), joinExprs(m.exprs(n.L[0].L)), txt(")")), kind: 'C'}
	case "e.id":
		return mexpr{s: txt(quoteName(n.T)), kind: 'I'}
	case "e.idraw":
		return mexpr{s: txt(n.T), kind: 'I'}
	case "e.and":
		return infix(m.expr(n.L[0]).s, "AND", m.expr(n.L[1]).s)
	case "e.or":
		return infix(m.expr(n.L[0]).s, "OR", m.expr(n.L[1]).s)
	case "e.mand", "e.mor":
		op := "AND"
		if n.K == "e.mor" {
			op = "OR"
		}
		l, r := m.expr(n.L[0]), m.expr(n.L[1])
		switch l.kind {
		case 'i':
			return infix(l.s, op, wrap(r).s)
		case 'n':
			return infix(l.s, op, r.s)
		}
		rejectf("no And/Or method")
	case "e.raw":
		return mexpr{s: txt(n.S)}
	case "e.exists":
		return mexpr{s: cat(txt("EXISTS ("), m.expr(n.L[0]).s, txt(")")), kind: 'x'}
	case "e.notexists":
		return mexpr{s: cat(txt("NOT EXISTS ("), m.expr(n.L[0]).s, txt(")")), kind: 'x'}
	case "e.val":
		v, _ := plain(n.L[0])
		e := bindOf(n.L[0], v)
		e.kind = 'V'
		return e
	}
	rejectf("cannot use %s as expression", n.K)
	return mexpr{}
}

func (m *model) exprs(ns []*Node) []mexpr {
	var out []mexpr
	for _, n := range ns {
		out = append(out, m.expr(n))
	}
	return out
}

// col is what ToColumn makes of an argument.
func (m *model) col(n *Node) mcol {
	var c mcol
	switch n.K {
	case "k.str":
		c = mcol{name: strings.TrimSpace(n.S)}
	case "k.col":
		c = mcol{n.S, n.T}
	case "ref":
		v, ok := m.slots[n.R].(mcol)
		if !ok {
			rejectf("not a column")
		}
		c = v
	default:
		rejectf("cannot use %s as column", n.K)
	}
	if c.name == "" {
		rejectf("column is undefined")
	}
	return c
}

func (m *model) cols(args []*Node) []mcol {
	if len(args) == 1 {
		switch args[0].K {
		case "c.cols":
			args = args[0].L
			var out []mcol
			for _, a := range args {
				out = append(out, m.col(a))
			}
			return out
		case "c.strs":
			args = args[0].L
		}
	}
	out := []mcol{}
	for _, a := range args {
		if a.K == "k.str" || a.K == "k.words" {
			text := a.S
			if a.K == "k.words" {
				text = words(a)
			}
			for _, s := range strings.Split(text, ",") {
				s = strings.TrimSpace(s)
				if s == "" {
					rejectf("column is undefined")
				}
				out = append(out, mcol{name: s})
			}
			continue
		}
		out = append(out, m.col(a))
	}
	return out
}

// selx is one select expression.
func (m *model) selx(n *Node) segs {
	switch n.K {
	case "k.col":
		return m.col(n).segs()
	case "s.agg":
		if n.T == "" {
			rejectf("column is undefined")
		}
		return magg{n.S, n.T, n.F, n.N == 1 || n.N == 2}.segs()
	case "e.raw":
		if n.S == "" {
			rejectf("column is undefined")
		}
		return txt(n.S)
	case "e.exists", "e.notexists":
		return m.node(n).s
	case "ref":
		switch v := m.slots[n.R].(type) {
		case mcol:
			if v.name == "" {
				rejectf("column is undefined")
			}
			return v.segs()
		case magg:
			return v.segs()
		case mexpr:
			if v.kind == 'x' {
				return v.s
			}
		}
	}
	rejectf("cannot use %s as select expression", n.K)
	return nil
}

func (m *model) selxs(args []*Node) []segs {
	if len(args) == 1 {
		switch args[0].K {
		case "c.sels":
			var out []segs
			for _, a := range args[0].L {
				out = append(out, m.selx(a))
			}
			return out
		case "c.cols":
			var out []segs
			for _, a := range args[0].L {
				out = append(out, m.col(a).segs())
			}
			return out
		case "c.strs":
			var out []segs
			for _, a := range args[0].L {
				out = append(out, mcol{name: a.S}.segs())
			}
			return out
		}
	}
	out := []segs{}
	for _, a := range args {
		if a.K == "k.str" || a.K == "k.words" {
			text := a.S
			if a.K == "k.words" {
				text = words(a)
			}
			for _, s := range strings.Split(text, ",") {
				s = strings.TrimSpace(s)
				if s == "" {
					rejectf("column is undefined")
				}
				out = append(out, mcol{name: s}.segs())
			}
			continue
		}
		out = append(out, m.selx(a))
	}
	return out
}

func (m *model) table(n *Node) mtable {
	switch n.K {
	case "t.str":
		return mtable{name: n.S}
	case "t.tab":
		return mtable{name: n.S, alias: n.T, only: n.N == 1}
	case "t.into":
		return m.table(n.L[0])
	case "ref":
		if v, ok := m.slots[n.R].(mtable); ok {
			return v
		}
	}
	rejectf("cannot use %s as table", n.K)
	return mtable{}
}

func (m *model) froms(args []*Node) []segs {
	var out []segs
	for _, a := range args {
		if a.K == "e.raw" {
			out = append(out, txt(a.S))
			continue
		}
		out = append(out, m.table(a).segs())
	}
	if len(out) == 0 {
		rejectf("from clause is undefined")
	}
	return out
}

func (m *model) on(n *Node) mon {
	switch n.K {
	case "o.on":
		return mon{s: txt(quoteName(n.S) + " = " + quoteName(n.T))}
	case "o.and", "o.or", "o.mand", "o.mor":
		op := "AND"
		if n.K == "o.or" || n.K == "o.mor" {
			op = "OR"
		}
		return mon{s: infix(m.on(n.L[0]).s, op, m.on(n.L[1]).s).s, infix: true}
	case "ref":
		if v, ok := m.slots[n.R].(mon); ok {
			return v
		}
	}
	rejectf("cannot use %s as join condition", n.K)
	return mon{}
}

// joinText renders a "j.str" node as the text given to the parser: S is the join keyword part, T the table,
// L the o.on pairs, whose K2 conjunctions are in F ("&" or "|" per extra pair).
// joinText is the text of a join; its number says how it is written.
func joinText(n *Node) string {
	gap, eq, word := " ", " = ", func(s string) string { return s }
	switch n.N & 7 {
	case 1:
		gap = "  "
	case 2:
		gap = "\t"
	case 3:
		gap = "\n"
	case 4:
		gap = " \r\n "
	}
	switch n.N >> 3 & 3 {
	case 1:
		eq = "="
	case 2:
		eq = gap + "=" + gap
	}
	if n.N>>5&3 == 1 {
		word = strings.ToLower
	}
	var b strings.Builder
	if n.N>>7&3 == 1 {
		b.WriteString(gap)
	}
	if n.T != "" {
		if n.S != "" {
			b.WriteString(word(n.S) + gap)
		}
		b.WriteString(word("JOIN") + gap + n.T + gap)
	}
	if n.T != "" || n.N>>9&3 != 1 {
		b.WriteString(word("ON") + gap)
	}
	paren := n.N>>11&3 == 1
	if paren {
		b.WriteString("(")
	}
	for i, p := range n.L {
		if i > 0 {
			if n.F[i-1] == '&' {
				b.WriteString(gap + word("AND") + gap)
			} else {
				b.WriteString(gap + word("OR") + gap)
			}
		}
		b.WriteString(p.S + eq + p.T)
	}
	if paren {
		b.WriteString(")")
	}
	if n.N>>13&3 == 1 {
		b.WriteString(";")
	}
	return b.String()
}

func joinParsed(n *Node) mjoin {
	kind := "INNER JOIN"
	switch n.S {
	case "LEFT":
		kind = "LEFT JOIN"
	case "RIGHT":
		kind = "RIGHT JOIN"
	}
	cond := txt(quoteName(n.L[0].S) + " = " + quoteName(n.L[0].T))
	for i, p := range n.L[1:] {
		op := "OR"
		if n.F[i] == '&' {
			op = "AND"
		}
		cond = infix(cond, op, txt(quoteName(p.S)+" = "+quoteName(p.T))).s
	}
	return mjoin{kind, mtable{name: n.T}, cond}
}

func (j mjoin) segs() segs {
	return cat(txt(j.kind+" "), j.table.segs(), txt(" ON "), j.cond)
}

func (m *model) join(args []*Node) segs {
	var j mjoin
	switch len(args) {
	case 1:
		switch args[0].K {
		case "j.str":
			if len(args[0].L) == 0 || args[0].T == "" {
				rejectf("join is invalid")
			}
			j = joinParsed(args[0])
		case "j.bad":
			rejectf("join is invalid")
		case "j.val":
			j = mjoin{args[0].S, m.table(args[0].L[0]), m.on(args[0].L[1]).s}
		case "ref":
			v, ok := m.slots[args[0].R].(mjoin)
			if !ok {
				rejectf("not a join")
			}
			j = v
		default:
			rejectf("cannot use %s as join", args[0].K)
		}
	case 2, 3:
		t := m.table(args[0])
		switch args[1].K {
		case "j.str":
			j = joinParsed(args[1])
		case "j.bad":
			rejectf("join is invalid")
		default:
			j = mjoin{"INNER JOIN", t, m.on(args[1]).s}
		}
		j.table = t
		if len(args) == 3 {
			if args[2].K != "j.type" {
				rejectf("not a join type")
			}
			j.kind = args[2].S
		}
	default:
		rejectf("join is invalid")
	}
	return j.segs()
}

func (m *model) order(n *Node) segs {
	switch n.K {
	case "d.ord":
		return txt(n.S + " " + n.T)
	case "d.col":
		s := n.S
		if n.F != "" {
			s = n.F
		}
		return txt(s + " " + n.T)
	case "ref":
		if v, ok := m.slots[n.R].(morder); ok {
			return v.s
		}
	}
	rejectf("not an order")
	return nil
}

func (m *model) withq(n *Node) segs {
	switch n.K {
	case "w.with":
		return cat(txt(n.S+" AS ("), m.expr(n.L[0]).s, txt(")"))
	case "ref":
		if v, ok := m.slots[n.R].(mwith); ok {
			return v.s
		}
	}
	rejectf("not a with query")
	return nil
}

// list expands a container of fragments given as the only argument of a spread call.
func (m *model) list(args []*Node, f func(*Node) segs) []segs {
	var out []segs
	for _, a := range args {
		if a.K == "c.orders" || a.K == "c.withs" {
			for _, c := range a.L {
				out = append(out, f(c))
			}
			continue
		}
		out = append(out, f(a))
	}
	return out
}

func (s mset) clone() mset {
	c := s
	c.cols = append([]mcol(nil), s.cols...)
	c.exprs = append([]segs(nil), s.exprs...)
	c.vals = map[mcol]segs{}
	for k, v := range s.vals {
		c.vals[k] = v
	}
	return c
}

func (s *mset) add(c mcol, e segs) {
	if s.mode == 0 {
		s.mode = 1
	}
	if s.mode != 1 {
		rejectf("mixed set modes")
	}
	if _, ok := s.vals[c]; !ok {
		s.cols = append(s.cols, c)
	}
	s.vals[c] = e
}

func (m *model) mergeSet(s mset, args []*Node) mset {
	s = s.clone()
	for _, a := range args {
		switch a.K {
		case "k.str", "k.col":
			for _, c := range m.cols([]*Node{a}) {
				if s.mode == 0 {
					s.mode = 2
				}
				if s.mode != 2 {
					rejectf("mixed set modes")
				}
				s.cols = append(s.cols, c)
			}
		case "p.map", "p.smap":
			for _, p := range a.L {
				s.add(m.col(p.L[0]), wrap(m.expr(p.L[1])).s)
			}
		case "p.pair":
			s.add(m.col(a.L[0]), wrap(m.expr(a.L[1])).s)
		case "ref":
			v, ok := m.slots[a.R].(mcol)
			if !ok {
				rejectf("not a pair")
			}
			if v.name == "" {
				rejectf("column is undefined")
			}
			if s.mode == 0 {
				s.mode = 2
			}
			if s.mode != 2 {
				rejectf("mixed set modes")
			}
			s.cols = append(s.cols, v)
		default:
			rejectf("cannot use %s as pair", a.K)
		}
	}
	return s
}

func (s mset) sorted() []mcol {
	cols := append([]mcol(nil), s.cols...)
	sort.Slice(cols, func(i, j int) bool {
		if cols[i].name != cols[j].name {
			return cols[i].name < cols[j].name
		}
		return cols[i].alias < cols[j].alias
	})
	return cols
}

func (s mset) segs() segs {
	if s.mode == 2 {
		var a []segs
		for _, c := range s.cols {
			a = append(a, c.segs())
		}
		return cat(txt("SET ("), join(a, ", "), txt(") = ("), join(s.exprs, ", "), txt(")"))
	}
	var a []segs
	for _, c := range s.sorted() {
		a = append(a, cat(c.segs(), txt(" = "), s.vals[c]))
	}
	return cat(txt("SET "), join(a, ", "))
}

func (s mset) empty() bool { return s.mode == 0 || (len(s.vals) == 0 && len(s.exprs) == 0) }

func (m *model) action(n *Node) maction {
	switch n.K {
	case "x.nothing":
		return maction{s: txt("DO NOTHING"), noact: true}
	case "x.update":
		s := m.mergeSet(mset{mode: 1}, n.L)
		if s.empty() {
			rejectf("values for SET clause are required")
		}
		return maction{s: cat(txt("DO UPDATE "), s.segs())}
	case "ref":
		if v, ok := m.slots[n.R].(maction); ok {
			return v
		}
	}
	rejectf("not an action")
	return maction{}
}

func colList(cs []mcol) segs {
	var a []segs
	for _, c := range cs {
		a = append(a, c.segs())
	}
	return join(a, ", ")
}

func (s *mselect) segs() segs {
	var out segs
	add := func(p ...segs) { out = append(out, cat(p...)...) }
	if s.prefix != "" {
		add(txt(s.prefix + " "))
	}
	if len(s.with) > 0 {
		add(txt("WITH "), join(s.with, ", "), txt(" "))
	}
	add(txt("SELECT"))
	if len(s.distinctOn) > 0 {
		add(txt(" DISTINCT ON ("), colList(s.distinctOn), txt(")"))
	}
	if s.distinct {
		add(txt(" DISTINCT"))
	}
	if len(s.exprs) > 0 {
		add(txt(" "), join(s.exprs, ", "))
	}
	if len(s.from) > 0 {
		add(txt(" FROM "), join(s.from, ", "))
	}
	for _, j := range s.joins {
		add(txt(" "), j)
	}
	if s.where != nil {
		add(txt(" WHERE "), s.where.s)
	}
	if len(s.groupBy) > 0 {
		add(txt(" GROUP BY "), colList(s.groupBy))
	}
	if s.having != nil {
		add(txt(" HAVING "), s.having)
	}
	if len(s.orders) > 0 {
		add(txt(" ORDER BY "), join(s.orders, ", "))
	}
	if s.limit != 0 {
		add(txt(" LIMIT " + strconv.FormatInt(s.limit, 10)))
	}
	if s.offset != 0 {
		add(txt(" OFFSET " + strconv.FormatInt(s.offset, 10)))
	}
	if s.suffix != "" {
		add(txt(" " + s.suffix))
	}
	if s.comment != "" {
		add(txt("; -- " + s.comment))
	}
	return out
}

func tail(out segs, where *mexpr, returning []segs, comment string) segs {
	if where != nil {
		out = cat(out, txt(" WHERE "), where.s)
	}
	if len(returning) > 0 {
		out = cat(out, txt(" RETURNING "), join(returning, ", "))
	}
	if comment != "" {
		out = cat(out, txt("; -- "+comment))
	}
	return out
}

func (s *minsert) segs() segs {
	out := cat(txt("INSERT INTO "), s.into.segs())
	if len(s.cols) > 0 {
		out = cat(out, txt(" ("), colList(s.cols), txt(")"))
	}
	if s.hasValues {
		out = cat(out, txt(" VALUES "), s.values)
	}
	if s.action != nil {
		out = cat(out, txt(" ON CONFLICT "))
		if len(s.target) > 0 {
			out = cat(out, txt("("), colList(s.target), txt(") "))
		}
		out = cat(out, s.action)
	}
	return tail(out, nil, s.returning, s.comment)
}

func (s *mupdate) segs() segs {
	var out segs
	if s.set.empty() {
		rejectf("an update statement must have values")
	}
	if len(s.with) > 0 {
		out = cat(txt("WITH "), join(s.with, ", "), txt(" "))
	}
	out = cat(out, txt("UPDATE "))
	if s.only {
		out = cat(out, txt("ONLY "))
	}
	out = cat(out, s.table.segs(), txt(" "), s.set.segs())
	if len(s.from) > 0 {
		out = cat(out, txt(" FROM "), join(s.from, ", "))
	}
	return tail(out, s.where, s.returning, s.comment)
}

func (s *mdelete) segs() segs {
	out := cat(txt("DELETE FROM "), join(s.from, ", "))
	if len(s.using) > 0 {
		out = cat(out, txt(" USING "), join(s.using, ", "))
	}
	return tail(out, s.where, s.returning, s.comment)
}

func (m *model) and(w *mexpr, op string, n *Node) *mexpr {
	if w == nil {
		rejectf("two conditions are required")
	}
	e := infix(w.s, op, wrap(m.expr(n)).s)
	return &e
}

func (m *model) where(w *mexpr, n *Node) *mexpr {
	if w != nil {
		return m.and(w, "AND", n)
	}
	e := wrap(m.expr(n))
	return &e
}

// apply evaluates an operation; it panics with reject when the operation is refused.
func (m *model) apply(o *Op) interface{} {
	a := o.A
	need := func(ok bool, why string) {
		if !ok {
			rejectf("%s", why)
		}
	}
	if o.K == "frag" {
		return m.frag(a[0])
	}
	switch o.K {
	case "new.select":
		s := &mselect{}
		if len(a) == 0 {
			s.exprs = []segs{txt(`"*"`)}
		} else {
			s.exprs = m.selxs(a)
		}
		return s
	case "new.insert":
		t := m.table(a[0])
		need(t.name != "", "into is undefined")
		return &minsert{into: t}
	case "new.update":
		t := m.table(a[0])
		need(t.name != "", "table is undefined")
		return &mupdate{table: t}
	case "new.delete":
		return &mdelete{from: m.froms(a)}
	}
	switch r := m.slots[o.In].(type) {
	case *mselect:
		s := *r
		switch o.K {
		case "columns":
			if len(a) == 0 {
				s.exprs = []segs{txt(`"*"`)}
			} else {
				s.exprs = m.selxs(a)
			}
		case "distinct":
			s.distinct = true
		case "distincton":
			need(len(s.groupBy) == 0, "distinct on clause already defined")
			s.distinctOn = m.cols(a)
			need(len(s.distinctOn) > 0, "distinct on is undefined")
		case "from":
			need(len(s.from) == 0, "from already defined")
			s.from = m.froms(a)
		case "join":
			s.joins = append(append([]segs(nil), s.joins...), m.join(a))
		case "with":
			s.with = append(append([]segs(nil), s.with...), m.list(a, m.withq)...)
		case "where":
			s.where = m.where(s.where, a[0])
		case "and":
			s.where = m.and(s.where, "AND", a[0])
		case "or":
			s.where = m.and(s.where, "OR", a[0])
		case "groupby":
			need(len(s.groupBy) == 0, "group by already defined")
			s.groupBy = m.cols(a)
			need(len(s.groupBy) > 0, "group by is undefined")
		case "having":
			need(s.having == nil, "having already defined")
			s.having = m.expr(a[0]).s
		case "orderby":
			s.orders = append(append([]segs(nil), s.orders...), m.list(a, m.order)...)
		case "limit":
			need(s.limit == 0, "limit already defined")
			need(a[0].K == "n.int" && (a[0].N > 0 || a[0].T == "stmt"), "limit is invalid")
			s.limit = int64(a[0].N)
		case "offset":
			need(s.offset == 0, "offset already defined")
			need(a[0].K == "n.int" && a[0].N >= 0, "offset is invalid")
			s.offset = int64(a[0].N)
		case "suffix":
			need(s.offset == 0, "suffix already defined")
			need(a[0].K == "x.str" && a[0].S != "", "suffix is invalid")
			s.suffix = a[0].S
		case "prefix":
			need(s.offset == 0, "prefix already defined")
			need(a[0].K == "x.str" && a[0].S != "", "prefix is invalid")
			s.prefix = a[0].S
		case "comment":
			s.comment = a[0].S
		default:
			rejectf("no method %s", o.K)
		}
		return &s
	case *minsert:
		s := *r
		switch o.K {
		case "into":
			rejectf("into already defined")
		case "columns":
			if len(a) == 0 {
				return &s
			}
			need(len(s.cols) == 0, "columns already defined")
			s.cols = m.cols(a)
		case "values":
			need(!s.hasValues, "values already defined")
			need(len(a) > 0, "no values")
			if a[0].K == "c.rows" {
				need(len(a[0].L) > 0, "no rows")
				var rows []segs
				for _, row := range a[0].L {
					rows = append(rows, cat(txt("("), joinExprs(m.array(row.L)), txt(")")))
				}
				s.values = join(rows, ", ")
			} else {
				s.values = cat(txt("("), joinExprs(m.array(a)), txt(")"))
			}
			s.hasValues = true
		case "set":
			need(len(s.cols) == 0, "columns already defined")
			need(!s.hasValues, "values already defined")
			set := m.mergeSet(mset{mode: 1}, a)
			need(len(set.cols) > 0, "no pairs")
			s.cols = set.sorted()
			var vals []segs
			for _, c := range s.cols {
				vals = append(vals, set.vals[c])
			}
			s.values = cat(txt("("), join(vals, ", "), txt(")"))
			s.hasValues = true
		case "onconflict":
			need(s.action == nil, "on conflict already defined")
			var target []mcol
			done := false
			for _, n := range a {
				isCol := n.K == "k.str" || n.K == "k.col"
				if n.K == "ref" {
					_, isCol = m.slots[n.R].(mcol)
				}
				if isCol {
					target = append(target, m.col(n))
					continue
				}
				act := m.action(n)
				need(act.noact || len(target) > 0, "at least one target")
				s.action = act.s
				done = true
				break
			}
			need(done, "requires an action")
			s.target = target
		case "returning":
			need(len(s.returning) == 0, "returning already defined")
			s.returning = m.selxs(a)
		case "comment":
			s.comment = a[0].S
		default:
			rejectf("no method %s", o.K)
		}
		return &s
	case *mupdate:
		s := *r
		switch o.K {
		case "only":
			s.only = true
		case "set":
			need(len(a) > 0, "set requires arguments")
			s.set = m.mergeSet(s.set, a)
		case "using":
			need(s.set.mode == 2, "column-list syntax only")
			need(len(a) > 0, "using requires arguments")
			s.set = s.set.clone()
			for _, n := range a {
				s.set.exprs = append(s.set.exprs, m.expr(n).s)
			}
		case "with":
			s.with = append(append([]segs(nil), s.with...), m.list(a, m.withq)...)
		case "where":
			s.where = m.where(s.where, a[0])
		case "and":
			s.where = m.and(s.where, "AND", a[0])
		case "or":
			s.where = m.and(s.where, "OR", a[0])
		case "from":
			need(len(s.from) == 0, "from already defined")
			s.from = m.froms(a)
		case "returning":
			need(len(s.returning) == 0, "returning already defined")
			s.returning = m.selxs(a)
		case "comment":
			s.comment = a[0].S
		default:
			rejectf("no method %s", o.K)
		}
		return &s
	case *mdelete:
		s := *r
		switch o.K {
		case "from":
			rejectf("from already defined")
		case "using":
			need(len(s.using) == 0, "using already defined")
			var ts []segs
			for _, n := range a {
				t := m.table(n)
				need(t.name != "", "table is undefined")
				ts = append(ts, t.segs())
			}
			s.using = ts
		case "where":
			s.where = m.where(s.where, a[0])
		case "and":
			s.where = m.and(s.where, "AND", a[0])
		case "or":
			s.where = m.and(s.where, "OR", a[0])
		case "returning":
			need(len(s.returning) == 0, "returning already defined")
			s.returning = m.selxs(a)
		case "comment":
			s.comment = a[0].S
		default:
			rejectf("no method %s", o.K)
		}
		return &s
	}
	rejectf("no receiver in slot %d", o.In)
	return nil
}

// frag evaluates a fragment definition.
func (m *model) frag(n *Node) interface{} {
	switch {
	case n.K == "v.stenc":
		return m.expr(n)
	case n.K == "e.ref" || strings.HasPrefix(n.K, "e."):
		return m.node(n)
	case n.K == "k.col":
		return mcol{n.S, n.T}
	case n.K == "k.as": // Column.As on a shared column
		c, ok := m.slots[n.R].(mcol)
		if !ok {
			rejectf("not a column")
		}
		c.alias = n.T
		return c
	case n.K == "t.tab":
		return m.table(n)
	case n.K == "t.as":
		t, ok := m.slots[n.R].(mtable)
		if !ok {
			rejectf("not a table")
		}
		if n.T != "" {
			t.alias = n.T
		}
		if n.N == 1 {
			t.only = true
		}
		return t
	case n.K == "s.agg":
		return magg{n.S, n.T, n.F, n.N == 1 || n.N == 2}
	case n.K == "s.as":
		g, ok := m.slots[n.R].(magg)
		if !ok {
			rejectf("not an aggregate")
		}
		if g.fn == "COUNT" && n.N > 0 {
			g.distinct = n.N == 1
			return g
		}
		g.alias = n.T
		return g
	case strings.HasPrefix(n.K, "o."):
		return m.on(n)
	case strings.HasPrefix(n.K, "d."):
		return morder{m.order(n)}
	case n.K == "w.with":
		return mwith{m.withq(n)}
	case strings.HasPrefix(n.K, "x."):
		return m.action(n)
	case n.K == "j.val":
		return mjoin{n.S, m.table(n.L[0]), m.on(n.L[1]).s}
	case n.K == "j.str":
		return joinParsed(n)
	case n.K == "b":
		return m.expr(n)
	case n.K == "cl.where":
		return mclause{"WHERE", wrap(m.expr(n.L[0])).s}
	case n.K == "cl.having":
		return mclause{"HAVING", m.expr(n.L[0]).s}
	case n.K == "cl.and" || n.K == "cl.or":
		c, ok := m.slots[n.R].(mclause)
		if !ok {
			rejectf("not a clause")
		}
		r := m.expr(n.L[0])
		if c.word == "WHERE" {
			r = wrap(r)
		}
		c.s = infix(c.s, strings.ToUpper(strings.TrimPrefix(n.K, "cl.")), r.s).s
		return c
	}
	rejectf("no such fragment %s", n.K)
	return nil
}

// try applies an operation and reports whether it was refused.
func (m *model) try(o *Op) (v interface{}, refused string) {
	defer func() {
		if r := recover(); r != nil {
			rej, ok := r.(reject)
			if !ok {
				panic(r)
			}
			refused = rej.why
		}
	}()
	return m.apply(o), ""
}

// segsOf is what rendering the slot writes; ok is false when rendering has to be refused.
func (m *model) segsOf(slot int) (segs, bool) {
	v := m.slots[slot]
	if was, ok := m.known[slot]; ok && was.of == v {
		return was.s, was.ok
	}
	s, ok := m.segsFor(slot)
	switch v.(type) {
	case *mselect, *minsert, *mupdate, *mdelete:
		if m.known == nil {
			m.known = map[int]knownSegs{}
		}
		s = s[:len(s):len(s)]
		m.known[slot] = knownSegs{v, s, ok}
	}
	return s, ok
}

// knownSegs is the text of a statement that was asked for before.
type knownSegs struct {
	of interface{}
	s  segs
	ok bool
}

func (m *model) segsFor(slot int) (s segs, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, rej := r.(reject); !rej {
				panic(r)
			}
			s, ok = nil, false
		}
	}()
	switch v := m.slots[slot].(type) {
	case *mselect:
		return v.segs(), true
	case *minsert:
		return v.segs(), true
	case *mupdate:
		return v.segs(), true
	case *mdelete:
		return v.segs(), true
	case mexpr:
		return v.s, true
	case mcol:
		return v.segs(), true
	case mtable:
		return v.segs(), true
	case mon:
		return v.s, true
	case mjoin:
		return v.segs(), true
	case morder:
		return v.s, true
	case mwith:
		return v.s, true
	case magg:
		return v.segs(), true
	case maction:
		return v.s, true
	case mclause:
		return cat(txt(v.word+" "), v.s), true
	}
	return nil, false
}

// composed is what several statements give that are written to one context.
func (m *model) composed(o *Op) (segs, bool) {
	var out segs
	for _, a := range o.A {
		s, ok := m.segsOf(a.R)
		if !ok {
			return nil, false
		}
		out = append(out, s...)
		out = append(out, seg{text: composeSep})
	}
	return out, true
}

const composeSep = "; "

// Forms in which a builder can be rendered.
const (
	formQuery  = "Q"
	formNamed  = "N"
	formString = "S"
	formSink   = "W" // Statement().Write into a sink of the caller
)

const bindMark = "\x01"

// show renders segments in a form: the text and the arguments.
func (s segs) show(form string) (string, []string) {
	var b strings.Builder
	var args []string
	n := 0
	for _, g := range s {
		if g.bind == nil {
			b.WriteString(g.text)
			continue
		}
		n++
		switch form {
		case formQuery:
			b.WriteString("$" + strconv.Itoa(n))
			args = append(args, g.bind.canon)
		case formNamed:
			name := "arg_" + strconv.Itoa(n)
			b.WriteString(":" + name)
			args = append(args, name+"="+g.bind.canon)
		case formString:
			b.WriteString(g.bind.lit)
		case formSink:
			b.WriteString(bindMark + g.bind.canon + bindMark)
		}
	}
	return b.String(), args
}
