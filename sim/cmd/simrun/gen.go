package main

import (
	"math"
	"sort"
	"strconv"
	"strings"

	"verif.local/sim/hook"
)

// knobs is the swarm configuration of one run: which operations and faults it mixes, and how much.
type knobs struct {
	threads            int
	setup, per         int // operations
	sel, ins, upd, del int // weights of statement kinds
	fork               int // percentage of receivers that are not the newest handle
	cross              int // percentage of references to slots of other threads
	frag               int // percentage of operations that define a fragment
	useFrag            int // percentage of argument positions taken from a fragment
	sub                int // percentage of values that are subqueries
	mapArgs            int
	collide            int // percentage of map arguments with two keys naming one column
	aliasKeys          int
	valuer             int
	enc                int
	timeptr            int
	render             int // percentage of operations that render
	formQ, formN       int
	formS, formW       int
	reject             int
	rejectExit         int
	abort              int // percentage of sink renders that are aborted
	abortExit          int
	cbFault            string // fault scripts of valuers, "" for none
	cbRate             int
	encFault           string
	encRate            int
	sinkStall          int
	reent              int
	owned              int // percentage of list arguments passed in a caller-owned container
	spread             int
	clobber            int
	spoil              int
	jump               int
	tick               int
	big                int // percentage of lists that are long
	longStr            int
	final              bool // render every handle at the end
	writeFrag          int
	rows               int
	renderTwice        int
	colAlias           int
	specialChars       int
	names              int    // percentage of names that are unusual
	huge               int    // percentage of lists that are very long
	kinds              int    // percentage of values of rarer types
	share              int    // percentage of the caller's objects that are given to several calls
	spaces             int    // percentage of names in strings that have spaces around them
	repeat             int    // percentage of values that other places have too
	extremes           int    // percentage of values at the edges of their types
	zero               int    // percentage of zero values
	streak             int    // percentage of operations that are a chain of equal calls
	compose            int    // percentage of operations that write several statements to one context
	cascade            int    // percentage of operations that are a chain of statements that valuers render
	longOwn            bool   // lists of the caller may be very long
	words              bool   // a statement of very many names
	spine              int    // percentage of fragments that are long chains of conditions
	chain              int    // percentage of conditions that go on from an earlier one
	echo               int    // percentage of calls that are made again with equal arguments
	press              int    // percentage of renders that are made many times over
	boxes              int    // percentage of the caller's containers that are given to several calls
	siege              int    // percentage of steps at which all threads make the same call on one handle
	midStr             int    // texts of middling length
	throng             int    // number of times all threads make the same call on one handle, and do nothing else
	describe           int    // percentage of unusable arguments that run code of the caller where they are described
	describing         string // fault scripts of these
	jam                bool   // many threads are stopped in the same Valuer
	nostop             bool   // faults come at every consultation
	crowd              bool   // all threads do little but render the same handle in the same form
	chorus             bool   // the threads begin with the same calls, and render them in the same form
}

type gslot struct {
	id   int
	kind string // select insert update delete expr col table agg on join order with action
	th   int
	big  bool
}

type gen struct {
	r     *rng
	p     *Plan
	k     knobs
	m     *model
	slots []gslot
	last  map[int]int // thread -> newest builder handle
	node  int
	slot  int
	op    int
	tag   int
	th    int
	size  int
	odds  []string // unusual names there were
	cost  int      // of the renders: pieces of text and values
	owned []ownedRef
	rends []rendRef
	depth int
	stats map[string]int

	hugeLeft int
	objs     []sharedObj
	boxes    []*Node // containers that several calls are given
	chained  int     // the condition that was extended last
	later    *Op     // the call that the refused one would have been
}

// sharedObj is an object of the caller that several calls may be given.
type sharedObj struct {
	n  *Node
	th int
}

type ownedRef struct{ id, th int }
type rendRef struct {
	op, th int
	form   string
}

func newGen(prop string, seed uint64) *gen {
	r := newRng(seed)
	g := &gen{r: r, m: newModel(), last: map[int]int{}, stats: map[string]int{}}
	g.p = &Plan{Prop: prop, Seed: r.u64(), MapSeed: r.u64() | 1, PoolSeed: r.u64()}
	return g
}

func (g *gen) id() int { g.node++; return g.node }

func (g *gen) num() int {
	if g.k.repeat > 0 && g.r.p(g.k.repeat) {
		return 1 + g.r.n(4)
	}
	g.tag++
	return 1000 + g.tag
}

// alias is what something of that name is called by.
func (g *gen) alias(prefix string, n int, name string) string {
	if g.r.p(8) {
		return name
	}
	return g.odd(prefix + strconv.Itoa(g.r.n(n)))
}

// space puts spaces around a name that is given in a string.
func (g *gen) space(s string) string {
	if g.k.spaces == 0 || !g.r.p(g.k.spaces) {
		return s
	}
	switch g.r.n(4) {
	case 0:
		return " " + s
	case 1:
		return s + g.r.pick(" ", "  ", "\t", "\n")
	case 2:
		return g.r.pick("\t", "   ") + s + " "
	}
	return " " + s + " "
}

// share makes the object one that several calls are given.
func (g *gen) share(n *Node) *Node {
	if !g.r.p(g.k.share) || n.F != "" && n.F != "tick" && n.K != "v.valuer" {
		return n
	}
	if len(g.objs) > 0 && g.r.p(70) {
		s := g.objs[g.r.n(len(g.objs))]
		if s.n.K != "v.timeptr" && (s.th < 0 || s.th == g.th || g.r.p(g.k.cross)) || s.th == g.th {
			c := *s.n
			c.ID = g.id()
			return &c
		}
	}
	n.E = n.ID
	c := *n
	g.objs = append(g.objs, sharedObj{&c, g.th})
	return n
}

func (g *gen) name() string {
	if g.k.repeat > 0 && g.r.p(g.k.repeat) {
		return "r" + strconv.Itoa(1+g.r.n(3))
	}
	g.tag++
	return "s" + strconv.Itoa(g.tag)
}

// list length, heavy-tailed
func (g *gen) len(min int) int {
	if g.k.big > 0 && g.r.p(g.k.big) && g.size < 400 {
		n := min + 6 + g.r.n(30)
		if g.k.huge > 0 && g.r.p(20) {
			n = 60 + g.r.n(220)
			if g.r.p(15) {
				n = 500 + g.r.n(600)
			}
		}
		g.size += n
		return n
	}
	return min + g.r.n(3)
}

func (g *gen) colName() string {
	c := g.odd("c" + strconv.Itoa(g.r.n(12)))
	if g.r.p(20) {
		c = g.tabName() + "." + c
	}
	return c
}

func (g *gen) tabName() string { return "t" + strconv.Itoa(g.r.n(5)) }

// odd makes an unusual name of a plain one: names that differ from it in case, length, spaces, marks only.
func (g *gen) odd(s string) string {
	if g.k.names == 0 || !g.r.p(g.k.names) {
		return s
	}
	if len(g.odds) > 0 && g.r.p(35) { // one there was already, so that they meet
		return g.odds[g.r.n(len(g.odds))]
	}
	s = g.unusual(s)
	if len(g.odds) < 6 {
		g.odds = append(g.odds, s)
	}
	return s
}

func (g *gen) unusual(s string) string {
	switch g.r.n(11) {
	case 9, 10: // one that no other run has
		return s + "_" + strconv.Itoa(g.r.n(1<<30))
	case 0, 1:
		return strings.ToUpper(s)
	case 2: // long ones that differ in their middle, or at their end
		long := strings.Repeat("long_", []int{2, 4, 8, 16, 32}[g.r.n(5)])
		if g.r.p(30) {
			return long + s + "_" + long
		}
		return long + s
	case 3:
		return s[:1] + " " + s[1:]
	case 4:
		return s + strings.Repeat("_x", 1+g.r.n(40))
	case 5:
		return s + g.r.pick("é", "É", "世", "ß", "\u00a0x", "e\u0301")
	case 6:
		return s + g.r.pick(`"`, `\`, "'", "`", "\tx", "‹$›", "‹$1›", ":x", "?", "%d", "‹:arg_2›")
	case 7:
		return s + g.r.pick(".", "..") + s
	}
	return s + "\x00"
}

// raw makes raw text, or a comment, of a plain one: some have marks in them that mean something elsewhere.
// What looks like a placeholder stands between ‹ and ›, so that it can be told from one.
func (g *gen) raw(s string) string {
	if !g.r.p(15) {
		return s
	}
	if g.k.huge > 0 && g.hugeLeft > 0 && g.r.p(10) {
		g.hugeLeft--
		return s + " /* " + strings.Repeat("x", []int{4090, 8190, 32760, 65530}[g.r.n(4)]+g.r.n(12)) + " */"
	}
	return s + g.r.pick(" '‹$›'", " ‹$$x$$›", " ‹$1›", " ‹$2›", " ‹:arg_1›", " ':'", " ?", " '?'", " %d %s %%", " -- x", " /* ‹$› */", " 'a''b'", " \\", " é世")
}

func (g *gen) freshCol() string {
	g.tag++
	return "f" + strconv.Itoa(g.tag)
}

// visible slots of some kinds, for the current thread
func (g *gen) find(kinds ...string) (gslot, bool) {
	var c []gslot
	for _, s := range g.slots {
		ok := false
		for _, k := range kinds {
			if s.kind == k {
				ok = true
			}
		}
		if !ok {
			continue
		}
		if s.th >= 0 && s.th != g.th && !g.r.p(g.k.cross) {
			continue
		}
		c = append(c, s)
	}
	if len(c) == 0 {
		return gslot{}, false
	}
	return c[g.r.n(len(c))], true
}

func (g *gen) ref(kinds ...string) *Node {
	if !g.r.p(g.k.useFrag) {
		return nil
	}
	s, ok := g.find(kinds...)
	if !ok {
		return nil
	}
	return &Node{K: "ref", R: s.id}
}

func (g *gen) strVal() string {
	s := g.name()
	if g.k.specialChars > 0 && g.r.p(g.k.specialChars) {
		s += g.r.pick("'", `\`, "\n", "\t", "\r", "\x00", "\xff", "\u2028", "é", "$1", ":arg_1", "--", ";", "世界")
		s += "x"
	}
	if g.r.p(g.k.midStr) {
		s += strings.Repeat("y", 1+g.r.n(60))
	}
	if g.k.longStr > 0 && g.r.p(g.k.longStr) {
		n := 50 + g.r.n(3000)
		if g.size < 400 && g.r.p(3) {
			n = []int{4090, 8190, 16380, 32760, 65530}[g.r.n(5)] + g.r.n(12)
			g.size += 100
		}
		s += strings.Repeat("z", n)
	}
	return s
}

func (g *gen) script(faults string) string {
	fs := strings.Split(faults, ",")
	f := fs[g.r.n(len(fs))]
	if strings.HasPrefix(f, "reent") {
		s, ok := g.find("select", "insert", "update", "delete", "expr")
		if !ok || !g.renderable(s.id) && !g.r.p(10) {
			return ""
		}
		f = g.r.pick("reent", "reent", "reents", "reents", "reentn") + ":" + strconv.Itoa(s.id)
	}
	if f == "exit" && g.th < 0 && !g.r.p(g.k.press) {
		f = "panic"
	}
	if f == "stall" && g.th < 0 && !g.k.jam {
		return ""
	}
	if (f == "err" || f == "panic") && g.r.p(60) {
		f += ":" + strconv.Itoa(g.r.n(len(errKinds)))
	} else if f == "exit" && g.r.p(30) {
		f += ":1"
	}
	if !g.k.nostop && g.r.p(60) {
		f += "@" + strconv.Itoa(1+g.r.n(3))
	}
	return f
}

// value is an argument for a place where any value may stand.
// valuer is a driver.Valuer, which fails at that rate.
func (g *gen) valuer(rate int) *Node {
	n := &Node{K: "v.valuer", ID: g.id(), N: g.num(), T: g.r.pick("str", "str", "int", "null", "nilptr", "nest", "vary")}
	if g.r.p(g.k.zero/2 + 15) {
		n.T = driverOuts[g.r.n(len(driverOuts))]
	}
	if g.r.p(25) {
		n.S = g.r.pick("val", "slice", "func", "map", "enc", "enc", "embed", "time", "name", "num", "kin", "zero", "zero")
		if n.T == "nilptr" {
			n.S = g.r.pick("val", "enc")
		}
	}
	if g.k.cbFault != "" && g.r.p(rate) {
		n.F = g.script(g.k.cbFault)
		if n.T == "nilptr" {
			n.T, n.S = "str", ""
		}
		if strings.HasPrefix(n.F, "err") && g.r.p(25) {
			n.T, n.F = "nest-err", ""
		}
	}
	if strings.HasPrefix(n.T, "nest") && g.r.p(40) {
		n.T += strconv.Itoa(2 + g.r.n(9))
	}
	return n
}

// late leaves a long list without failures, but for one value late in it at most.
func (g *gen) late(n int, fill func()) (at int) {
	if n < 12 || g.k.cbFault == "" || g.r.p(50) {
		fill()
		return -1
	}
	faults := g.k.cbFault
	g.k.cbFault = ""
	fill()
	g.k.cbFault = faults
	if g.r.p(50) {
		return n - 1 - g.r.n(3)
	}
	return g.r.n(n)
}

func (g *gen) value() *Node {
	if g.r.p(g.k.sub) && g.depth < 3 {
		if s, ok := g.find("select"); ok && !s.big {
			g.depth++
			defer func() { g.depth-- }()
			switch g.r.n(4) {
			case 0:
				return &Node{K: "v.stenc", ID: g.id(), F: g.encScript(), L: []*Node{{K: "b", R: s.id}}}
			default:
				return &Node{K: "b", R: s.id}
			}
		}
	}
	if g.r.p(g.k.useFrag / 2) {
		if s, ok := g.find("expr"); ok && !s.big {
			return &Node{K: "ref", R: s.id}
		}
	}
	if g.r.p(g.k.valuer) {
		return g.share(g.valuer(g.k.cbRate))
	}
	if g.r.p(g.k.enc) {
		n := &Node{K: g.r.pick("v.enc.str", "v.enc.str", "v.enc.int", "v.enc.int", "v.enc.bool", "v.enc.bool", "v.enc.time", "v.enc.time", "v.enc.multi", "v.enc.all", "v.enc.bts", "v.enc.ts", "v.enc.val"), ID: g.id(), N: g.num()}
		n.F = g.encScript()
		if n.F == "" && g.r.p(g.k.tick) {
			n.F = "tick"
		}
		if g.r.p(10 + g.k.zero) {
			n.T = "zero"
		}
		if g.r.p(35) {
			n.S = g.r.pick(encShapes(n.K)...)
		}
		return g.share(n)
	}
	if g.r.p(g.k.timeptr) {
		return g.share(&Node{K: "v.timeptr", ID: g.id(), N: g.num()})
	}
	if g.r.p(4) {
		return &Node{K: "e.raw", S: g.r.pick("NOW()", "DEFAULT", "EXCLUDED.c"+strconv.Itoa(g.r.n(12)))}
	}
	if g.k.zero > 0 && g.r.p(g.k.zero) {
		switch k := g.r.pick("v.int", "v.i64", "v.bool", "v.str", "v.str", "v.bytes", "v.bytes", "v.time", "v.u64", "v.map0", "v.strs0", "v.i64s0", "f-zero", "f-nzero"); k {
		case "f-zero", "f-nzero":
			return &Node{K: "v.ext", T: k}
		case "v.time":
			return &Node{K: k, T: "zero"}
		case "v.map0", "v.strs0", "v.i64s0":
			return &Node{K: strings.TrimSuffix(k, "0"), T: "none"}
		default:
			return &Node{K: k}
		}
	}
	return g.scalar()
}

func (g *gen) encScript() string {
	if g.k.encFault != "" && g.r.p(g.k.encRate) {
		return g.script(g.k.encFault)
	}
	return ""
}

func (g *gen) scalar() *Node {
	if g.k.extremes > 0 && g.r.p(g.k.extremes) {
		return &Node{K: "v.ext", T: extremes[g.r.n(len(extremes))]}
	}
	if g.r.p(g.k.kinds) {
		switch k := g.r.pick("v.mmap", "v.mmap", "v.imap", "v.imap", "v.i8", "v.i16", "v.u", "v.u8", "v.u16", "v.f32", "v.flat64", "v.range", "v.i64s", "v.strs", "v.map"); k {
		case "v.mmap", "v.imap":
			return &Node{K: k, S: "m" + g.name(), N: 2 + g.r.n(12)}
		case "v.strs":
			return &Node{K: k, S: g.names()}
		case "v.i64s", "v.flat64":
			return &Node{K: k, N: g.num(), T: g.count2()}
		case "v.map":
			return &Node{K: k, S: g.name()}
		default:
			return &Node{K: k, N: g.num()}
		}
	}
	switch g.r.n(18) {
	case 0, 1, 2, 3:
		return &Node{K: "v.str", S: g.strVal()}
	case 4:
		return &Node{K: "v.i64", N: g.num()}
	case 5:
		return &Node{K: "v.f64", N: g.num()}
	case 6:
		return &Node{K: "v.bytes", S: g.name()}
	case 7:
		return &Node{K: "v.time", N: g.num()}
	case 8:
		return &Node{K: "v.nil"}
	case 9:
		return &Node{K: "v.u64", N: g.num()}
	case 10:
		return &Node{K: "v.u32", N: g.num()}
	case 11:
		return &Node{K: "v.bool", N: g.num()}
	case 12:
		return &Node{K: "v.i32", N: g.num()}
	}
	return &Node{K: "v.int", N: g.num()}
}

// count2 is how many values a list that is given as one value has.
func (g *gen) count2() string {
	n := 1 + g.r.n(4)
	if g.r.p(25) {
		n = 5 + g.r.n(20)
	}
	return strconv.Itoa(n)
}

// names are those of such a list, in no order.
func (g *gen) names() string {
	n, _ := strconv.Atoi(g.count2())
	var l []string
	for len(l) < n {
		s := g.name()
		if len(l) > 0 && g.r.p(15) {
			s = l[g.r.n(len(l))]
		}
		l = append(l, "")
		at := g.r.n(len(l))
		copy(l[at+1:], l[at:])
		l[at] = s
	}
	return strings.Join(l, ",")
}

// anyScalar also gives slices and maps, where they are bound as one value.
func (g *gen) anyScalar() *Node {
	switch g.r.n(14) {
	case 0:
		return &Node{K: "v.strs", S: g.names()}
	case 1:
		return &Node{K: "v.i64s", N: g.num(), T: g.count2()}
	case 2:
		return &Node{K: "v.flat", S: g.name(), T: g.count2()}
	case 3:
		return &Node{K: "v.map", S: g.name()}
	}
	return g.value()
}

func (g *gen) cmp() *Node {
	n := &Node{K: "e.cmp", T: g.colName()}
	if g.r.p(10) {
		n.K = "e.rawcmp"
		n.T = "lower(" + n.T + ")"
	}
	what := g.r.n(14)
	left := g.ref("operand")
	if left != nil {
		switch e := g.m.slots[left.R].(mexpr); e.kind {
		case 'I':
			n.K, n.T, n.R = "e.cmp", "", left.R
			what = g.r.n(12)
		case 'C':
			what = 12
		case 'V':
			what = 13
		}
	}
	switch what {
	case 0, 1, 2, 3, 4:
		n.S = g.r.pick("eq", "ne", "gt", "ge", "lt", "le")
		n.L = []*Node{g.anyScalar()}
	case 5:
		n.S = g.r.pick("is", "isnot", "like", "notlike", "ilike", "notilike", "distinct", "notdistinct")
		n.L = []*Node{g.value()}
	case 6:
		n.S = g.r.pick("null", "notnull")
	case 7, 8, 9:
		n.S = g.r.pick("in", "in", "notin")
		n.L = g.inArgs()
	case 10:
		n.S = g.r.pick("between", "notbetween")
		n.L = []*Node{g.value(), g.value()}
	case 11:
		n.S = g.r.pick("contains", "contained", "overlap")
		n.L = []*Node{g.anyScalar()}
	case 12:
		c := left
		if c == nil {
			c = g.call()
		}
		n = &Node{K: "e.callcmp", S: g.r.pick("eq", "gt", "lt", "like", "ilike", "overlap", "in"), L: []*Node{c, g.value()}}
		if n.S == "in" {
			n.L = append([]*Node{c}, g.inArgs()...)
		}
	case 13:
		if left == nil {
			left = &Node{K: "v.int", N: g.num()}
		}
		n = &Node{K: "e.valcmp", S: g.r.pick("eq", "ne", "overlap", "contains", "contained"), L: []*Node{left, g.value()}}
	}
	return n
}

func (g *gen) inArgs() []*Node {
	if g.r.p(g.k.owned) {
		switch g.r.n(5) {
		case 0:
			return []*Node{g.own("c.list", g.values(g.len(1)))}
		case 1:
			var l []*Node
			for i := g.len(1); i > 0; i-- {
				l = append(l, g.cmpSmall())
			}
			return []*Node{g.own("c.exprs", l)}
		case 2:
			var l []*Node
			for i := g.len(1); i > 0; i-- {
				l = append(l, &Node{K: "v.int", N: g.num()})
			}
			return []*Node{g.own("c.ints", l)}
		case 3:
			var l []*Node
			for i := g.len(1); i > 0; i-- {
				l = append(l, &Node{K: "v.str", S: g.name()})
			}
			return []*Node{g.own("c.strings", l)}
		case 4:
			n := g.list()
			n.K, n.ID = "c.nums", g.id()
			if len(n.S) <= 4 && g.r.p(20) {
				n.S = strings.Repeat("*", 8+g.r.n(30))
			}
			if g.k.longOwn && g.hugeLeft > 0 && g.r.p(40) {
				g.hugeLeft--
				n.S = strings.Repeat("*", []int{60, 120, 250, 500, 1000, 2000}[g.r.n(6)]+g.r.n(50))
			}
			return []*Node{g.box(n)}
		}
	}
	if g.r.p(10) {
		return []*Node{{K: "v.strs", S: g.names()}}
	}
	if g.r.p(8) || g.k.huge > 0 && g.r.p(g.k.huge) {
		return []*Node{g.list()}
	}
	return g.values(g.len(1))
}

// list is a slice of numbers, which may be very long.
func (g *gen) list() *Node {
	w := 1 + g.r.n(4)
	if g.k.huge > 0 && g.hugeLeft > 0 && g.r.p(50) {
		g.hugeLeft--
		w = []int{40, 90, 95, 130, 990, 1005, 1030, 2100, 4100, 10010}[g.r.n(10)] + g.r.n(8)
		if g.r.p(12) {
			w = []int{32762, 65530}[g.r.n(2)] + g.r.n(8)
		}
	}
	return &Node{K: "v.list", T: g.r.pick(listTypes...), N: g.num(), S: strings.Repeat("*", w)}
}

func (g *gen) cmpSmall() *Node {
	switch g.r.n(3) {
	case 0:
		return &Node{K: "e.raw", S: g.raw("raw" + g.name())}
	case 1:
		return &Node{K: "e.val", L: []*Node{{K: "v.int", N: g.num()}}}
	}
	return &Node{K: "e.cmp", T: g.colName(), S: "eq", L: []*Node{{K: "v.int", N: g.num()}}}
}

func (g *gen) own(kind string, l []*Node) *Node {
	return g.box(&Node{K: kind, ID: g.id(), L: l})
}

// box makes a container of the caller one that several calls are given, by several threads maybe; the caller
// leaves such a one as it is.
func (g *gen) box(n *Node) *Node {
	if n.ID == 0 || !g.r.p(g.k.boxes) || !plainBox(n) {
		return n
	}
	var c []*Node
	for _, b := range g.boxes {
		if b.K == n.K && b.T == n.T {
			c = append(c, b)
		}
	}
	if len(c) > 0 && g.r.p(70) {
		n = deep(c[g.r.n(len(c))])
		n.ID = g.id()
		return n
	}
	n.E = n.ID
	g.boxes = append(g.boxes, deep(n))
	return n
}

// plainBox says that what a container holds is not made by earlier calls, and does not call back.
func plainBox(n *Node) bool {
	ok := true
	walk(n, func(c *Node) {
		switch {
		case c.R > 0 || c.E != 0 || c.K == "v.valuer" || c.K == "v.stenc" || c.K == "v.timeptr" || c.K == "v.bad" || strings.HasPrefix(c.K, "v.enc"):
			ok = false
		case c != n && isContainer(c) && c.K != "c.row":
			ok = false
		}
	})
	return ok
}

func deep(n *Node) *Node {
	c := *n
	c.L = nil
	for _, l := range n.L {
		c.L = append(c.L, deep(l))
	}
	return &c
}

func (g *gen) values(n int) []*Node {
	var l []*Node
	plain := g.r.p(20) // of one simple type
	again := 0         // percentage of values that are those of the one before
	if g.r.p(20) {
		again = 20 + g.r.n(50)
	}
	at := g.late(n, func() {
		for i := 0; i < n; i++ {
			switch {
			case i > 0 && g.r.p(again):
				l = append(l, g.again(l[i-1], true))
			case plain:
				l = append(l, &Node{K: "v.int", N: g.num()})
			default:
				l = append(l, g.value())
			}
		}
	})
	if at >= 0 {
		l[at] = g.valuer(100)
	}
	return l
}

func (g *gen) call() *Node {
	fn := g.r.pick("lower", "coalesce", "concat", "jsonb_build_object")
	if g.r.p(g.k.owned) {
		var l []*Node
		for i := g.len(1); i > 0; i-- {
			l = append(l, g.cmpSmall())
		}
		return &Node{K: "e.callsp", S: fn, L: []*Node{g.own("c.exprs", l)}}
	}
	var l []*Node
	for i := g.len(1); i > 0; i-- {
		l = append(l, g.callArg(fn, len(l) == 0))
	}
	if l[0].K == "ref" && g.r.p(60) { // goes on from a call with the same function
		for _, o := range g.p.Ops {
			if o.Out == l[0].R && o.K == "frag" && o.A[0].K == "e.call" {
				fn = o.A[0].S
			}
		}
	}
	return &Node{K: "e.call", S: fn, L: l}
}

func (g *gen) callArg(fn string, first bool) *Node {
	n := 20
	if first {
		n = 8
		if g.r.p(g.k.chain) {
			n = 1
		}
	}
	switch g.r.n(n) {
	case 0:
		if n := g.ref("operand"); n != nil {
			return n
		}
	case 1:
		return &Node{K: "e.id", T: g.colName()}
	case 2:
		if g.depth < 4 {
			g.depth++
			defer func() { g.depth-- }()
			c := g.call()
			if g.r.p(50) {
				c.S = fn
			}
			return c
		}
	}
	return g.value()
}

// subcmp compares with a subquery.
func (g *gen) subcmp() *Node {
	s, ok := g.find("select")
	if !ok || s.big {
		return g.cmp()
	}
	return &Node{K: "e.cmp", T: g.colName(), S: g.r.pick("in", "notin", "eq", "ne", "gt", "le", "overlap", "like", "distinct"), L: []*Node{{K: "b", R: s.id}}}
}

// expr is a condition.
func (g *gen) expr() *Node {
	if g.depth == 0 && g.r.p(g.k.useFrag/8) { // around a condition that others may have
		if n := g.ref("expr"); n != nil {
			return &Node{K: g.r.pick("e.exists", "e.notexists"), L: []*Node{n}}
		}
	}
	if n := g.ref("expr"); n != nil {
		if g.depth < 4 && g.r.p(30) {
			g.depth++
			defer func() { g.depth-- }()
			return &Node{K: g.r.pick("e.and", "e.or"), L: []*Node{n, g.expr()}}
		}
		return n
	}
	g.depth++
	defer func() { g.depth-- }()
	if g.depth < 4 {
		switch g.r.n(12) {
		case 0, 1:
			return &Node{K: g.r.pick("e.and", "e.or"), L: []*Node{g.expr(), g.expr()}}
		case 2, 3:
			return &Node{K: g.r.pick("e.mand", "e.mor"), L: []*Node{g.cmp2(), g.expr()}}
		case 4:
			k := g.r.pick("e.exists", "e.notexists")
			if g.r.p(30) { // of something else than a statement
				in := g.expr()
				switch {
				case g.r.p(30):
					in = g.subcmp()
				case g.r.p(50):
					in = g.value()
				}
				return &Node{K: k, L: []*Node{in}}
			}
			if s, ok := g.find("select"); ok && !s.big {
				return &Node{K: k, L: []*Node{{K: "b", R: s.id}}}
			}
		case 5:
			return &Node{K: "e.raw", S: g.raw("raw_" + g.name() + " IS TRUE")}
		}
	}
	return g.cmp()
}

// cmp2 has And and Or methods.
func (g *gen) cmp2() *Node {
	if n := g.ref("expr"); n != nil {
		if e, ok := g.m.slots[n.R].(mexpr); ok && (e.kind == 'i' || e.kind == 'n') {
			return n
		}
	}
	for i := 0; i < 20; i++ {
		n := g.cmp()
		if n.S != "between" && n.S != "notbetween" {
			return n
		}
	}
	return &Node{K: "e.cmp", T: "c0", S: "eq", L: []*Node{{K: "v.int", N: g.num()}}}
}

func (g *gen) col() *Node {
	if n := g.ref("col"); n != nil {
		return n
	}
	n := &Node{K: "k.col", S: g.colName()}
	if g.r.p(g.k.colAlias) {
		n.T = g.alias("a", 6, n.S)
	}
	return n
}

func (g *gen) colArgs() []*Node {
	n := g.len(1)
	if g.r.p(g.k.owned) {
		var l []*Node
		if g.r.p(60) {
			for i := 0; i < n; i++ {
				l = append(l, g.col())
			}
			return []*Node{g.own("c.cols", l)}
		}
		for i := 0; i < n; i++ {
			l = append(l, &Node{K: "k.str", S: g.space(g.colName())})
		}
		return []*Node{g.own("c.strs", l)}
	}
	var l []*Node
	for i := 0; i < n; i++ {
		if g.r.p(50) {
			l = append(l, g.col())
		} else if g.r.p(20) {
			l = append(l, g.commas(g.colName))
		} else {
			l = append(l, &Node{K: "k.str", S: g.space(g.colName())})
		}
	}
	return l
}

func (g *gen) selx() *Node {
	switch g.r.n(8) {
	case 0:
		if n := g.ref("agg"); n != nil {
			return n
		}
		n := &Node{K: "s.agg", S: g.r.pick("COUNT", "MAX", "MIN", "SUM"), T: g.colName()}
		if n.S == "COUNT" && g.r.p(40) {
			n.N = 1 + g.r.n(3)
		}
		if g.r.p(50) {
			n.F = g.alias("agg", 5, n.T)
		}
		return n
	case 1:
		return &Node{K: "e.raw", S: g.raw("now() AS " + g.name())}
	case 2:
		if s, ok := g.find("select"); ok && !s.big && g.depth < 3 {
			return &Node{K: "e.exists", L: []*Node{{K: "b", R: s.id}}}
		}
	}
	return g.col()
}

func (g *gen) selArgs() []*Node {
	n := g.len(1)
	if g.r.p(g.k.owned) {
		var l []*Node
		switch g.r.n(4) {
		case 0:
			for i := 0; i < n; i++ {
				l = append(l, &Node{K: "k.str", S: g.space(g.colName())})
			}
			return []*Node{g.own("c.strs", l)}
		case 1:
			for i := 0; i < n; i++ {
				l = append(l, g.col())
			}
			return []*Node{g.own("c.cols", l)}
		default:
			for i := 0; i < n; i++ {
				l = append(l, g.selx())
			}
			return []*Node{g.own("c.sels", l)}
		}
	}
	var l []*Node
	for i := 0; i < n; i++ {
		if g.r.p(40) {
			l = append(l, &Node{K: "k.str", S: g.space(g.colName())})
		} else if g.r.p(8) {
			l = append(l, g.commas(g.colName))
		} else {
			l = append(l, g.selx())
		}
	}
	return l
}

// commas is one string that names several columns.
func (g *gen) commas(name func() string) *Node {
	s := name()
	for i := 1 + g.r.n(3); i > 0; i-- {
		s += g.r.pick(", ", ",", " , ", ",  ") + name()
	}
	return &Node{K: "k.str", S: s}
}

func (g *gen) table() *Node {
	if n := g.ref("table"); n != nil {
		return n
	}
	if g.r.p(50) {
		return &Node{K: "t.str", S: g.odd(g.tabName())}
	}
	n := &Node{K: "t.tab", S: g.odd(g.tabName())}
	if g.r.p(50) {
		n.T = g.alias("x", 5, n.S)
	}
	if g.r.p(10) {
		n.N = 1
	}
	return n
}

func (g *gen) on() *Node {
	if n := g.ref("on"); n != nil {
		return n
	}
	g.depth++
	defer func() { g.depth-- }()
	if g.depth < 4 && g.r.p(30) {
		return &Node{K: g.r.pick("o.and", "o.or", "o.mand", "o.mor"), L: []*Node{g.on(), g.on()}}
	}
	return &Node{K: "o.on", S: g.colName(), T: g.colName()}
}

// joinStr is a join in a text.
func (g *gen) joinStr(table bool) *Node {
	n := g.joinPlain(table)
	if g.r.p(30) { // written in another way
		n.N = g.r.n(1 << 15)
	}
	if g.r.p(15) { // with longer names
		long := strings.Repeat("_x", 1+g.r.n(30))
		if g.r.p(30) && n.T != "" {
			n.T += long
		}
		for _, c := range n.L {
			if g.r.p(50) {
				c.S += long
			}
			if g.r.p(50) {
				c.T += long
			}
		}
	}
	return n
}

func (g *gen) joinPlain(table bool) *Node {
	n := &Node{K: "j.str", S: g.r.pick("", "INNER", "LEFT", "RIGHT")}
	if table {
		n.T = g.tabName()
	} else {
		n.S = ""
	}
	n.L = []*Node{{K: "o.on", S: g.tabName() + "." + g.colName2(), T: g.colName2()}}
	for g.r.p(30) && len(n.L) < 5 {
		n.L = append(n.L, &Node{K: "o.on", S: g.colName2(), T: g.colName2()})
		n.F += g.r.pick("&", "|")
	}
	return n
}

func (g *gen) colName2() string { return "c" + strconv.Itoa(g.r.n(12)) }

func (g *gen) joinArgs() []*Node {
	a := g.joinArgs1()
	name := ""
	for _, n := range a {
		walk(n, func(n *Node) {
			switch n.K {
			case "t.str", "t.tab":
				name = n.S
			case "j.str":
				if n.T != "" {
					name = n.T
				}
			}
		})
	}
	if name == "" || strings.Trim(name, "t0123456789") != "" && len(a) > 1 && a[1].K == "j.str" {
		return a
	}
	for _, n := range a { // conditions on the joined table
		walk(n, func(n *Node) {
			if n.K == "o.on" && g.r.p(30) {
				if g.r.p(70) {
					n.T = name + "." + g.colName2()
				} else {
					n.S = name + "." + g.colName2()
				}
			}
		})
	}
	return a
}

func (g *gen) joinArgs1() []*Node {
	switch g.r.n(5) {
	case 0:
		return []*Node{g.joinStr(true)}
	case 1:
		if n := g.ref("join"); n != nil {
			return []*Node{n}
		}
		return []*Node{{K: "j.val", S: g.r.pick("INNER JOIN", "LEFT JOIN", "RIGHT JOIN"), L: []*Node{g.tabOnly(), g.on()}}}
	case 2:
		return []*Node{g.table(), g.joinStr(false)}
	case 3:
		return []*Node{g.table(), g.on(), {K: "j.type", S: g.r.pick("INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "LEFT OUTER JOIN", "RIGHT OUTER JOIN")}}
	}
	return []*Node{g.table(), g.on()}
}

// tabOnly is a table that is not given as a string.
func (g *gen) tabOnly() *Node {
	n := g.table()
	if n.K == "t.str" {
		n.K = "t.tab"
	}
	return n
}

func (g *gen) order() *Node {
	if n := g.ref("order"); n != nil {
		return n
	}
	if g.r.p(50) {
		if g.r.p(20) {
			return &Node{K: "d.ord", S: g.colName(), T: "ASC", N: 1}
		}
		return &Node{K: "d.ord", S: g.colName(), T: g.r.pick("ASC", "DESC")}
	}
	n := &Node{K: "d.col", S: g.colName(), T: g.r.pick("ASC", "DESC")}
	if g.r.p(30) {
		n.F = g.alias("o", 4, n.S)
	}
	return n
}

func (g *gen) withq() *Node {
	if n := g.ref("with"); n != nil {
		return n
	}
	n := &Node{K: "w.with", S: "w" + g.name()}
	if s := g.space(g.odd(n.S)); strings.IndexAny(s, "\"'`\\\x00") < 0 { // it is written as it is
		n.S = s
	}
	if g.r.p(12) { // something else than a statement
		n.L = []*Node{g.value()}
	} else if s, ok := g.find("select"); ok && !s.big && g.depth < 3 {
		n.L = []*Node{{K: "b", R: s.id}}
		if g.r.p(g.k.enc) {
			n.L = []*Node{{K: "v.stenc", ID: g.id(), F: g.encScript(), L: n.L}}
		}
	} else {
		n.L = []*Node{{K: "e.raw", S: g.raw("SELECT " + g.name())}}
	}
	return n
}

func (g *gen) pairs() []*Node {
	var out []*Node
	used := map[string]bool{}
	for i := 1 + g.pairArgs(); i > 0; i-- {
		if g.r.p(g.k.mapArgs) {
			n := &Node{K: g.r.pick("p.map", "p.smap")}
			if g.r.p(g.k.owned) {
				n.ID = g.id()
			}
			for j := g.len(1); j > 0; j-- {
				key := g.pairKey(n.K == "p.smap", used)
				n.L = append(n.L, &Node{K: "pair", L: []*Node{key, g.pairVal(key)}})
			}
			if g.k.collide > 0 && g.r.p(g.k.collide) {
				k0 := n.L[g.r.n(len(n.L))].L[0]
				dup := &Node{K: "k.str", S: k0.S}
				if n.K == "p.smap" || k0.K == "k.str" && g.r.p(50) || k0.T != "" {
					dup.S = g.r.pick(" ", "  ") + k0.S
					if k0.T != "" {
						dup = nil
					}
				} else if k0.K == "k.str" {
					dup.K = "k.col"
				}
				if dup != nil {
					n.L = append(n.L, &Node{K: "pair", L: []*Node{dup, g.value()}})
				}
			}
			out = append(out, g.box(n))
			continue
		}
		key := g.pairKey(false, used)
		out = append(out, &Node{K: "p.pair", L: []*Node{key, g.pairVal(key)}})
	}
	return out
}

// pairArgs says how many more arguments than one a list of assignments has.
func (g *gen) pairArgs() int {
	if g.r.p(25) {
		return g.len(2)
	}
	return g.r.n(2)
}

func (g *gen) pairVal(key *Node) *Node {
	if g.r.p(8) {
		return &Node{K: "e.raw", S: "EXCLUDED." + strings.TrimSpace(key.S)}
	}
	return g.value()
}

func (g *gen) pairKey(str bool, used map[string]bool) *Node {
	for {
		s := g.odd("c" + strconv.Itoa(g.r.n(40)))
		if !str && len(used) > 0 && g.r.p(g.k.aliasKeys/3) { // a column under another alias
			var l []string
			for c := range used {
				l = append(l, c)
			}
			sort.Strings(l)
			c := l[g.r.n(len(l))]
			n := &Node{K: "k.col", S: c, T: "b" + strconv.Itoa(len(used))}
			if id := c + "\x00" + n.T; !strings.Contains(c, "\x00b") && !used[id] {
				used[id] = true
				return n
			}
		}
		if used[s] || strings.Contains(s, ",") {
			if len(used) > 30 {
				s = g.freshCol()
			} else {
				continue
			}
		}
		used[s] = true
		if str || g.r.p(50) {
			return &Node{K: "k.str", S: g.space(s)}
		}
		n := &Node{K: "k.col", S: s}
		if g.r.p(g.k.aliasKeys) {
			n.T = g.alias("a", 6, s)
		}
		return n
	}
}

func (g *gen) action() *Node {
	if n := g.ref("action"); n != nil {
		return n
	}
	if g.r.p(30) {
		return &Node{K: "x.nothing"}
	}
	return &Node{K: "x.update", L: g.pairs()}
}

// actionKeys are the columns that an action sets.
func (g *gen) actionKeys(n *Node) (keys []*Node) {
	if n.K == "ref" {
		for _, o := range g.p.Ops {
			if o.Out == n.R && len(o.A) > 0 {
				n = o.A[0]
			}
		}
	}
	walk(n, func(p *Node) {
		if (p.K == "pair" || p.K == "p.pair") && (p.L[0].K == "k.str" || p.L[0].K == "k.col") {
			k := *p.L[0]
			keys = append(keys, &k)
		}
	})
	return keys
}

// newOp starts an operation of the current thread.
func (g *gen) newOp(k string, in int, a ...*Node) *Op {
	g.op++
	return &Op{ID: g.op, Th: g.th, K: k, In: in, A: a}
}

// commit adds an operation whose result the model accepts; it reports the slot, or 0.
func (g *gen) commit(o *Op, kind string) int {
	v, refused := g.m.try(o)
	if refused != "" {
		return 0
	}
	if e, ok := v.(*mupdate); ok {
		_ = e
	}
	g.slot++
	o.Out = g.slot
	g.m.slots[o.Out] = v
	s := gslot{id: o.Out, kind: kind, th: g.th}
	if sg, ok := g.m.segsOf(o.Out); ok && sg.cost() > 400 {
		s.big = true
	}
	g.slots = append(g.slots, s)
	g.p.Ops = append(g.p.Ops, o)
	for _, id := range containerIDs(o, false) {
		g.owned = append(g.owned, ownedRef{id, g.th})
	}
	g.stats["op."+o.K]++
	return o.Out
}

func (g *gen) maybeSpread(o *Op) *Op {
	if g.r.p(g.k.spread) && len(o.A) > 0 {
		switch o.K {
		case "columns", "new.select", "from", "join", "groupby", "distincton", "values", "set", "using", "onconflict", "returning":
			o.Sp = g.id()
		}
	}
	return o
}

// newBuilder creates a statement from nothing.
func (g *gen) newBuilder() int {
	w := g.r.n(g.k.sel + g.k.ins + g.k.upd + g.k.del)
	var kind string
	var o *Op
	switch {
	case w < g.k.sel:
		kind = "select"
		o = g.maybeSpread(g.newOp("new.select", 0, g.selArgs()...))
		if g.r.p(5) {
			o = g.newOp("new.select", 0)
		}
	case w < g.k.sel+g.k.ins:
		kind = "insert"
		t := g.table()
		if t.K == "t.tab" && g.r.p(30) {
			t = &Node{K: "t.into", L: []*Node{t}}
		}
		o = g.newOp("new.insert", 0, t)
		o.Arg = g.r.n(2)
	case w < g.k.sel+g.k.ins+g.k.upd:
		kind = "update"
		o = g.newOp("new.update", 0, g.table())
	default:
		kind = "delete"
		o = g.newOp("new.delete", 0, g.table())
	}
	s := g.commit(o, kind)
	if s != 0 {
		g.last[g.th] = s
		// make it renderable and interesting
		for i := 0; i < 1+g.r.n(3); i++ {
			if d := g.derive(s); d != 0 {
				s = d
			}
		}
	}
	return s
}

func (g *gen) slotKind(id int) string {
	for _, s := range g.slots {
		if s.id == id {
			return s.kind
		}
	}
	return ""
}

var countTypes = []string{"", "", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "string", "stmt", "stmt", "stmt"}

// count is the argument of Limit or Offset; a few reach for the ends of their types.
func (g *gen) count(least int) *Node {
	n := &Node{K: "n.int", N: least + g.r.n(100), T: g.r.pick(countTypes...)}
	if g.r.p(20) {
		most := map[string]int{"int8": math.MaxInt8, "int16": math.MaxInt16, "int32": math.MaxInt32,
			"uint8": math.MaxUint8, "uint16": math.MaxUint16, "uint32": math.MaxUint32}[n.T]
		if most == 0 {
			most = math.MaxInt64
		}
		n.N = most - g.r.n(3)
		if g.r.p(30) {
			n.N = most/2 + g.r.n(3)
		}
	}
	return n
}

// derive applies one builder method to a handle.
func (g *gen) derive(in int) int {
	kind := g.slotKind(in)
	for try := 0; try < 6; try++ {
		o := g.method(kind, in)
		if o == nil {
			continue
		}
		if s := g.commit(o, kind); s != 0 {
			g.last[g.th] = s
			return s
		}
	}
	return 0
}

func (g *gen) method(kind string, in int) *Op {
	op := func(k string, a ...*Node) *Op { return g.maybeSpread(g.newOp(k, in, a...)) }
	switch kind {
	case "select":
		switch g.r.n(20) {
		case 0:
			return op("columns", g.selArgs()...)
		case 1:
			if g.r.p(50) {
				return op("distinct")
			}
			return op("distincton", g.colArgs()...)
		case 2, 3:
			var a []*Node
			for i := 0; i < 1+g.r.n(2); i++ {
				if g.r.p(10) {
					a = append(a, &Node{K: "e.raw", S: g.raw("raw_" + g.name())})
				} else {
					a = append(a, g.table())
				}
			}
			return op("from", a...)
		case 4, 5, 6:
			return op("join", g.joinArgs()...)
		case 7, 8:
			return g.withOp(in)
		case 9, 10, 11:
			return op(g.r.pick("where", "where", "and", "or"), g.expr())
		case 12:
			return op("groupby", g.colArgs()...)
		case 13:
			return op("having", g.expr())
		case 14, 15, 16:
			return g.orderOp(in)
		case 17:
			if g.r.p(50) {
				return op("limit", g.count(1))
			}
			return op("offset", g.count(0))
		case 18:
			if g.r.p(50) {
				return op("suffix", &Node{K: "x.str", S: g.r.pick("FOR UPDATE", "FOR SHARE", "SKIP LOCKED"), T: g.r.pick("", "stmt")})
			}
			return op("prefix", &Node{K: "x.str", S: g.r.pick("EXPLAIN", "EXPLAIN ANALYZE"), T: g.r.pick("", "stmt")})
		case 19:
			return op("comment", &Node{K: "x.str", S: g.raw("note " + g.name())})
		}
	case "insert":
		switch g.r.n(8) {
		case 0:
			if g.r.p(4) {
				return g.newOp("columns", in) // no columns: as before
			}
			return op("columns", g.colArgs()...)
		case 1:
			if g.r.p(g.k.rows) {
				return op("values", g.rowsOf())
			}
			if g.r.p(g.k.owned) {
				return op("values", g.own("c.list", g.values(g.len(1))))
			}
			if g.r.p(5) || g.k.huge > 0 && g.r.p(g.k.huge) {
				return op("values", g.list())
			}
			return op("values", g.values(g.len(1))...)
		case 2, 3:
			return op("set", g.pairs()...)
		case 4, 5:
			var a []*Node
			act := g.action()
			keys := g.actionKeys(act)
			for i := g.r.n(4); i > 0; i-- {
				switch {
				case len(keys) > 0 && g.r.p(40):
					a = append(a, keys[g.r.n(len(keys))])
				case g.r.p(50):
					a = append(a, &Node{K: "k.str", S: g.colName2()})
				default:
					a = append(a, g.col())
				}
			}
			return op("onconflict", append(a, act)...)
		case 6:
			return op("returning", g.selArgs()...)
		case 7:
			return op("comment", &Node{K: "x.str", S: g.raw("note " + g.name())})
		}
	case "update":
		u, _ := g.m.slots[in].(*mupdate)
		switch g.r.n(12) {
		case 0:
			return op("only")
		case 1, 2, 3, 4, 5:
			if u != nil && (u.set.mode == 2 || u.set.mode == 0 && g.r.p(30)) {
				if u.set.mode == 2 && g.r.p(50) {
					return op("using", g.values(g.len(1))...)
				}
				var a []*Node
				for i := g.len(1); i > 0; i-- {
					if g.r.p(15) {
						a = append(a, g.commas(g.freshCol))
					} else if g.r.p(50) {
						a = append(a, &Node{K: "k.str", S: g.freshCol()})
					} else {
						a = append(a, g.col())
					}
				}
				return op("set", a...)
			}
			return op("set", g.pairs()...)
		case 6:
			return g.withOp(in)
		case 7, 8:
			return op(g.r.pick("where", "and", "or"), g.expr())
		case 9:
			return op("from", g.table())
		case 10:
			return op("returning", g.selArgs()...)
		case 11:
			return op("comment", &Node{K: "x.str", S: g.raw("note " + g.name())})
		}
	case "delete":
		switch g.r.n(8) {
		case 0, 1:
			var a []*Node
			for i := 0; i < g.len(1); i++ {
				a = append(a, g.table())
			}
			return op("using", a...)
		case 2, 3, 4, 5:
			return op(g.r.pick("where", "where", "and", "or"), g.expr())
		case 6:
			return op("returning", g.selArgs()...)
		case 7:
			return op("comment", &Node{K: "x.str", S: g.raw("note " + g.name())})
		}
	}
	return nil
}

func (g *gen) withOp(in int) *Op {
	var l []*Node
	for i := g.len(1); i > 0; i-- {
		l = append(l, g.withq())
	}
	if g.r.p(g.k.owned) {
		return g.newOp("with", in, g.own("c.withs", l))
	}
	return g.newOp("with", in, l...)
}

func (g *gen) orderOp(in int) *Op {
	var l []*Node
	for i := g.len(1); i > 0; i-- {
		l = append(l, g.order())
	}
	if g.r.p(g.k.owned) {
		return g.newOp("orderby", in, g.own("c.orders", l))
	}
	return g.newOp("orderby", in, l...)
}

// fragment defines a reusable piece.
func (g *gen) fragment() int {
	save := g.k.useFrag
	defer func() { g.k.useFrag = save }()
	var n *Node
	kind := ""
	if g.k.spine > 0 && g.r.p(g.k.spine) {
		return g.spine()
	}
	if g.k.chain > 0 && g.r.p(g.k.chain) {
		if n, kind := g.extend(); n != nil {
			s := g.commit(g.newOp("frag", 0, n), kind)
			if s != 0 && g.r.p(60) {
				g.chained = s
			}
			return s
		}
	}
	switch g.r.n(19) {
	case 17, 18:
		kind = "operand"
		switch g.r.n(5) {
		case 0:
			n = &Node{K: "e.id", T: g.colName()}
		case 1:
			n = &Node{K: "e.idraw", T: "lower(" + g.colName() + ")"}
		case 2:
			n = &Node{K: "e.val", L: []*Node{{K: "v.int", N: g.num()}}}
		default:
			n = g.call()
		}
	case 16:
		kind = "clause"
		if s, ok := g.find("clause"); ok && g.r.p(65) && !s.big {
			n = &Node{K: g.r.pick("cl.and", "cl.or"), R: s.id, L: []*Node{g.expr()}}
		} else {
			n = &Node{K: g.r.pick("cl.where", "cl.having"), L: []*Node{g.expr()}}
		}
	case 0, 1, 2, 3:
		kind = "expr"
		n = g.expr()
		if g.r.p(15) {
			n = g.subcmp()
		}
		if n.K == "ref" {
			n = &Node{K: g.r.pick("e.and", "e.or"), L: []*Node{n, g.cmp()}}
		}
	case 4:
		kind = "col"
		if s, ok := g.find("col"); ok && g.r.p(50) {
			n = &Node{K: "k.as", R: s.id, T: g.alias("a", 6, g.colName2())}
		} else {
			n = &Node{K: "k.col", S: g.colName()}
		}
	case 5:
		kind = "table"
		if s, ok := g.find("table"); ok && g.r.p(50) {
			n = &Node{K: "t.as", R: s.id, T: g.alias("x", 5, "x0"), N: g.r.n(2)}
		} else {
			n = &Node{K: "t.tab", S: g.odd(g.tabName())}
		}
	case 6:
		kind = "agg"
		if s, ok := g.find("agg"); ok && g.r.p(50) {
			n = &Node{K: "s.as", R: s.id, T: g.alias("agg", 5, "agg0")}
			if g.r.p(50) {
				n.N = 1 + g.r.n(2)
			}
		} else {
			n = &Node{K: "s.agg", S: g.r.pick("COUNT", "COUNT", "MAX", "MIN", "SUM"), T: g.colName()}
			if g.r.p(50) {
				n.F = g.alias("agg", 5, n.T)
			}
		}
	case 7, 8:
		kind = "on"
		n = g.on()
		if n.K == "ref" {
			n = &Node{K: g.r.pick("o.and", "o.mor", "o.mand"), L: []*Node{n, {K: "o.on", S: g.colName(), T: g.colName()}}}
		}
	case 9:
		kind = "join"
		if g.r.p(50) {
			n = g.joinStr(true)
		} else {
			n = &Node{K: "j.val", S: g.r.pick("INNER JOIN", "LEFT JOIN", "RIGHT JOIN"), L: []*Node{g.tabOnly(), g.on()}}
		}
	case 10:
		kind = "order"
		n = g.order()
		if n.K == "ref" {
			return 0
		}
	case 11, 12:
		kind = "with"
		n = g.withq()
		if n.K == "ref" {
			return 0
		}
	case 13, 14:
		kind = "action"
		n = &Node{K: "x.update", L: g.pairs()}
	case 15:
		kind = "expr"
		if s, ok := g.find("select"); ok && !s.big {
			if g.r.p(50) {
				n = &Node{K: "v.stenc", ID: g.id(), F: g.encScript(), L: []*Node{{K: "b", R: s.id}}}
			} else {
				n = &Node{K: "b", R: s.id}
			}
		} else {
			n = g.call()
		}
	}
	if n == nil {
		return 0
	}
	return g.commit(g.newOp("frag", 0, n), kind)
}

// spine makes a condition of many parts, one call after another, mostly with the same connective, goes on from
// it in a few ways, from its end or from an earlier point, and puts these into statements.
func (g *gen) spine() int {
	s := g.commit(g.newOp("frag", 0, g.cmpSmall()), "expr")
	if s == 0 || g.m.slots[s].(mexpr).kind != 'i' && g.m.slots[s].(mexpr).kind != 'n' {
		return s
	}
	all := []int{s}
	kinds := []string{g.r.pick("e.mand", "e.mor")}
	if g.r.p(25) {
		kinds = []string{"e.mand", "e.mor"}
	}
	grow := func(from int) int {
		to := g.commit(g.newOp("frag", 0, &Node{K: g.r.pick(kinds...), L: []*Node{{K: "ref", R: from}, g.cmpSmall()}}), "expr")
		return to
	}
	for i := 2 + g.r.n(20); i > 0; i-- {
		to := grow(all[len(all)-1])
		if to == 0 {
			break
		}
		all = append(all, to)
	}
	g.stats["spine"]++
	forks := []int{}
	from := all[len(all)-1]
	if g.r.p(30) {
		from = all[g.r.n(len(all))]
	}
	for i := 2 + g.r.n(3); i > 0; i-- {
		if to := grow(from); to != 0 {
			forks = append(forks, to)
		}
	}
	for _, f := range forks {
		if b, ok := g.find("select", "update", "delete"); ok && g.r.p(70) {
			if to := g.commit(g.newOp("where", b.id, &Node{K: "ref", R: f}), b.kind); to != 0 && g.r.p(60) {
				g.render(to)
			}
		}
	}
	if len(forks) == 0 {
		return s
	}
	return forks[0]
}

// cascade makes a statement with a valuer that renders a statement with a valuer that renders another, and so on.
func (g *gen) cascade() {
	prev, kind := 0, g.r.pick("v.valuer", "v.valuer", "e.raw")
	for i := 3 + g.r.n(16); i > 0; i-- {
		v := &Node{K: "v.valuer", ID: g.id(), N: g.num(), T: g.r.pick("str", "int", "null", "nest3")}
		if prev != 0 {
			v.F = "reents:" + strconv.Itoa(prev)
		}
		c := &Node{K: "e.cmp", T: g.colName(), S: g.r.pick("eq", "in", "ne"), L: []*Node{v}}
		if kind == "e.raw" && g.r.p(30) {
			c = &Node{K: "e.cmp", T: g.colName(), S: "between", L: []*Node{v, g.value()}}
		}
		b := g.commit(g.newOp("new.select", 0, &Node{K: "k.str", S: g.colName2()}), "select")
		if b == 0 {
			return
		}
		if b = g.commit(g.newOp("where", b, c), "select"); b == 0 {
			return
		}
		prev = b
	}
	g.p.Ops = append(g.p.Ops, g.renderOf(prev, formString))
	g.stats["cascade"]++
}

// extend goes on from a condition made earlier: the one that was extended last, or any.
func (g *gen) extend() (*Node, string) {
	s, ok := gslot{}, false
	for _, c := range g.slots {
		if c.id == g.chained && (c.th < 0 || c.th == g.th) && g.r.p(60) {
			s, ok = c, true
		}
	}
	if !ok {
		if s, ok = g.find("expr", "on"); !ok {
			return nil, ""
		}
	}
	ref := &Node{K: "ref", R: s.id}
	and := g.r.p(70)
	switch v := g.m.slots[s.id].(type) {
	case mexpr:
		if v.kind != 'i' && v.kind != 'n' || s.big {
			return nil, ""
		}
		if and {
			return &Node{K: "e.mand", L: []*Node{ref, g.cmpSmall()}}, "expr"
		}
		return &Node{K: "e.mor", L: []*Node{ref, g.cmp()}}, "expr"
	case mon:
		on := &Node{K: "o.on", S: g.colName(), T: g.colName()}
		if and {
			return &Node{K: "o.mand", L: []*Node{ref, on}}, "on"
		}
		return &Node{K: "o.mor", L: []*Node{ref, on}}, "on"
	}
	return nil, ""
}

func (g *gen) form() string {
	w := g.r.n(g.k.formQ + g.k.formN + g.k.formS + g.k.formW)
	switch {
	case w < g.k.formQ:
		return formQuery
	case w < g.k.formQ+g.k.formN:
		return formNamed
	case w < g.k.formQ+g.k.formN+g.k.formS:
		return formString
	}
	return formSink
}

var builderKinds = []string{"select", "insert", "update", "delete"}
var fragKinds = []string{"expr", "col", "table", "agg", "on", "join", "order", "with", "action", "clause", "operand"}

// rowsOf are several rows of values, in one of the types they may be given as.
func (g *gen) rowsOf() *Node {
	n := &Node{K: "c.rows", ID: g.id()}
	if g.r.p(40) {
		n.T = g.r.pick("string", "int", "int64", "bool", "expr")
	}
	width := 2 + g.r.n(3)
	if g.r.p(15) {
		width = g.r.n(2)
	}
	rows := g.len(1)
	at := g.late(rows*width, func() {
		for i := 0; i < rows; i++ {
			row := &Node{K: "c.row", ID: g.id()}
			for j := 0; j < width; j++ {
				row.L = append(row.L, g.cell(n.T))
			}
			n.L = append(n.L, row)
		}
	})
	if at >= 0 && n.T == "" {
		n.L[at/width].L[at%width] = g.valuer(100)
	}
	return g.box(n)
}

func (g *gen) cell(t string) *Node {
	switch t {
	case "string":
		return &Node{K: "v.str", S: g.strVal()}
	case "int":
		return &Node{K: "v.int", N: g.num()}
	case "int64":
		return &Node{K: "v.i64", N: g.num()}
	case "bool":
		return &Node{K: "v.bool", N: g.num()}
	case "expr":
		if n := g.ref("expr"); n != nil {
			return n
		}
		return g.cmpSmall()
	}
	return g.value()
}

// renderable says whether the model can render the slot.
func (g *gen) renderable(slot int) bool {
	_, ok := g.m.segsOf(slot)
	return ok
}

func (g *gen) renderOf(slot int, form string) *Op {
	o := g.newOp("render", slot)
	o.Form = form
	if s, ok := g.m.segsOf(slot); ok {
		n := s.cost()
		if g.th == -2 { // in every thread
			n *= g.p.Threads
		}
		g.cost += n
	}
	if form == formSink {
		at := strconv.Itoa(1 + g.pos())
		if g.r.p(25) { // at a bound value
			at = "b" + strconv.Itoa(1+g.pos()%8)
		}
		switch {
		case g.r.p(g.k.abort):
			f := "panic"
			if g.th >= 0 && g.r.p(g.k.abortExit) {
				f = g.r.pick("exit", "exit", "exit:1")
			}
			o.F = f + "@" + at
		case g.th >= 0 && g.r.p(g.k.sinkStall):
			o.F = "stall@" + at
		case g.r.p(g.k.reent):
			if s, ok := g.find(builderKinds...); ok && g.renderable(s.id) {
				o.F = "reent:" + strconv.Itoa(s.id) + "@" + at
			}
		}
	}
	return o
}

// pos is a position within a render: early ones are likelier.
func (g *gen) pos() int {
	if g.r.p(60) {
		return g.r.n(12)
	}
	return g.r.n(60)
}

func (g *gen) render(slot int) bool {
	if !g.renderable(slot) {
		return false
	}
	o := g.renderOf(slot, g.form())
	g.press(o, slot)
	g.p.Ops = append(g.p.Ops, o)
	if o.Form != formSink {
		g.rends = append(g.rends, rendRef{o.ID, g.th, o.Form})
	}
	if g.r.p(g.k.renderTwice) {
		o2 := g.renderOf(slot, o.Form)
		g.p.Ops = append(g.p.Ops, o2)
	}
	return true
}

// press makes a render one of many.
func (g *gen) press(o *Op, slot int) {
	if !g.r.p(g.k.press) || g.cost > 60000 || o.F != "" && !strings.HasPrefix(o.F, "panic@") && !strings.HasPrefix(o.F, "exit@") {
		return
	}
	s, _ := g.m.segsOf(slot)
	n := s.cost()
	o.Arg = []int{2, 9, 40, 140, 300, 600}[g.r.n(6)] + g.r.n(40)
	for o.Arg > 1 && n*o.Arg > 30000 {
		o.Arg /= 2
	}
	g.cost += n * o.Arg
}

func (g *gen) writeFrag() bool {
	s, ok := g.find(fragKinds...)
	if !ok {
		return false
	}
	o := g.newOp("write", s.id)
	o.Form = formSink
	if g.r.p(g.k.abort) {
		o.F = "panic@" + strconv.Itoa(1+g.pos())
	}
	g.p.Ops = append(g.p.Ops, o)
	return true
}

// compose writes several statements or pieces to one context of the caller.
func (g *gen) compose() bool {
	o := g.newOp("compose", 0)
	for i := 1 + g.r.n(3); i > 0; i-- {
		s, ok := g.find(append(builderKinds, "expr", "action", "on", "with", "clause", "operand")...)
		if ok && !s.big && g.renderable(s.id) {
			o.A = append(o.A, &Node{K: "ref", R: s.id})
		}
	}
	if len(o.A) == 0 {
		return false
	}
	o.In = o.A[0].R
	for o.Form = g.form(); o.Form == formSink; o.Form = g.form() {
		if g.k.formQ+g.k.formN+g.k.formS == 0 {
			return false
		}
	}
	g.p.Ops = append(g.p.Ops, o)
	g.rends = append(g.rends, rendRef{o.ID, g.th, o.Form})
	return true
}

// streak calls one method again and again on the handles it gives, so that lists grow through many sizes.
func (g *gen) streak() {
	in := g.receiver()
	if in == 0 {
		return
	}
	kind := g.slotKind(in)
	n := 3 + g.r.n(8)
	if g.r.p(25) {
		n = 12 + g.r.n(24)
		if g.r.p(15) {
			n = 60 + g.r.n(60)
		}
	}
	if g.cost > 40000 {
		n = 2
	}
	if g.r.p(15) { // renders
		for n > 0 && g.cost < 40000 {
			if !g.render(in) {
				return
			}
			n--
		}
		return
	}
	if kind == "select" && g.r.p(10) { // each inside the next
		for i := 0; i < n && i < 24; i++ {
			s := g.commit(g.newOp("new.select", 0, &Node{K: "k.str", S: g.colName2()}), "select")
			if s == 0 {
				return
			}
			k := g.r.pick("e.exists", "e.notexists", "in", "with")
			if k == "with" {
				s = g.commit(g.newOp("with", s, &Node{K: "w.with", S: "w" + g.name(), L: []*Node{{K: "b", R: in}}}), "select")
			} else {
				f := g.commit(g.newOp("from", s, &Node{K: "t.str", S: g.tabName()}), "select")
				if f == 0 {
					return
				}
				if k == "in" {
					s = g.commit(g.newOp("where", f, &Node{K: "e.cmp", T: g.colName(), S: g.r.pick("in", "eq", "gt"), L: []*Node{{K: "b", R: in}}}), "select")
				} else {
					s = g.commit(g.newOp("where", f, &Node{K: k, L: []*Node{{K: "b", R: in}}}), "select")
				}
			}
			if s == 0 {
				return
			}
			in = s
			g.last[g.th] = s
		}
		return
	}
	if kind != "insert" && g.r.p(12) {
		g.nest(kind, in, n)
		return
	}
	want := ""
	switch kind {
	case "select":
		want = g.r.pick("orderby", "join", "join", "with", "with", "and", "or", "comment")
	case "update":
		want = g.r.pick("set", "set", "using", "with", "and", "or")
	case "delete":
		want = g.r.pick("and", "or")
		if n > 70 {
			n = 70
		}
	default:
		return
	}
	for i, miss := 0, 0; i < n && miss < 60 && g.size < 400; {
		o := g.method(kind, in)
		if o == nil || o.K != want || len(o.A) > 4 {
			miss++
			if (want == "and" || want == "or") && miss%10 == 9 {
				want = g.r.pick("where", "and", "or")
			}
			continue
		}
		s := g.commit(o, kind)
		if s == 0 {
			miss++
			continue
		}
		g.size++
		i, miss, in = i+1, 0, s
		g.last[g.th] = s
		if g.r.p(15) {
			g.derive(in) // another branch
		}
	}
}

// nest adds a condition that is nested n deep.
func (g *gen) nest(kind string, in, n int) {
	c := g.cmp()
	same := g.r.pick("", "", "e.and", "e.or", "e.mand", "e.mor", "e.notexists", "e.call")
	for i := 0; i < n; i++ {
		k := same
		if k == "" {
			k = g.r.pick("e.and", "e.or", "e.mand", "e.mor", "e.exists", "e.call")
		}
		switch k {
		case "e.and", "e.or":
			if c = (&Node{K: k, L: []*Node{c, g.cmpSmall()}}); g.r.p(40) {
				c.L[0], c.L[1] = c.L[1], c.L[0]
			}
		case "e.mand", "e.mor":
			c = &Node{K: k, L: []*Node{{K: "e.cmp", T: g.colName(), S: "eq", L: []*Node{{K: "v.int", N: g.num()}}}, c}}
		case "e.call":
			c = &Node{K: k, S: g.r.pick("lower", "coalesce"), L: []*Node{c}}
			if g.r.p(30) {
				c.L = append(c.L, &Node{K: "v.int", N: g.num()})
			}
		default:
			c = &Node{K: k, L: []*Node{c}}
		}
	}
	k := g.r.pick("where", "where", "and", "or")
	if kind == "select" && g.r.p(20) {
		k = "having"
	}
	if s := g.commit(g.newOp(k, in, c), kind); s != 0 {
		g.last[g.th] = s
		g.size += n
		g.stats["nest"]++
	}
}

// echo makes an earlier call once more, with arguments that equal those of the first, on the same handle or
// on another one.
func (g *gen) echo() bool {
	if g.r.p(15) && g.twin() {
		return true
	}
	for try := 0; try < 10 && len(g.p.Ops) > 0; try++ {
		o := g.p.Ops[g.r.n(len(g.p.Ops))]
		if g.r.p(30) { // a recent one
			o = g.p.Ops[len(g.p.Ops)-1-g.r.n(1+len(g.p.Ops)/4)]
		}
		switch o.K {
		case "render", "write", "compose", "clobber", "jump", "spoil":
			continue
		}
		c := g.newOp(o.K, o.In)
		c.Arg, c.Form, c.F = o.Arg, o.Form, o.F
		if o.Sp != 0 {
			c.Sp = g.id()
		}
		large := 0
		for _, a := range o.A {
			c.A = append(c.A, g.again(a, o.Th == g.th))
			walk(a, func(n *Node) { large += 1 + len(n.S)/20 })
		}
		if large > 200 && g.r.p(80) {
			continue
		}
		if g.th < 0 {
			for _, a := range c.A {
				walk(a, func(n *Node) {
					if strings.HasPrefix(n.F, "exit") && n.E == 0 {
						n.F = "panic"
					}
				})
			}
		}
		if g.r.p(30) {
			for _, a := range c.A {
				g.vary(a)
			}
		}
		if o.In > 0 && g.r.p(60) {
			if s, ok := g.find(g.slotKind(o.In)); ok {
				c.In = s.id
			}
		}
		kind := ""
		switch {
		case o.Out > 0:
			kind = g.slotKind(o.Out)
		case o.In > 0:
			kind = g.slotKind(o.In)
		default:
			kind = strings.TrimPrefix(o.K, "new.")
		}
		if s := g.commit(c, kind); s != 0 {
			g.stats["echo"]++
			for _, b := range builderKinds {
				if kind == b && g.r.p(50) {
					g.last[g.th] = s
				}
			}
			return true
		}
		if o.Out == 0 || g.k.reject > 0 {
			g.p.Ops = append(g.p.Ops, c)
			g.stats["echo.refused"]++
			return true
		}
	}
	return false
}

// twin makes a handle once more, from the calls that led to it, with values that read the same in the text and
// are of other types.
func (g *gen) twin() bool {
	for try := 0; try < 5 && len(g.slots) > 0; try++ {
		s := g.slots[g.r.n(len(g.slots))]
		if s.th >= 0 && s.th != g.th || s.big {
			continue
		}
		before := len(g.p.Ops)
		made := map[int]int{}
		t := g.twinOf(s.id, made)
		if t == 0 || t == s.id {
			if len(g.p.Ops) > before {
				return true
			}
			continue
		}
		g.stats["twin"]++
		for _, b := range builderKinds {
			if s.kind == b && g.r.p(50) {
				g.last[g.th] = t
			}
		}
		return true
	}
	return false
}

func (g *gen) twinOf(slot int, made map[int]int) int {
	if t, ok := made[slot]; ok {
		return t
	}
	made[slot] = slot
	if len(made) > 12 {
		return slot
	}
	for _, o := range g.p.Ops {
		if o.Out != slot {
			continue
		}
		if o.K == "compose" {
			return slot
		}
		c := g.newOp(o.K, o.In)
		c.Arg, c.Form, c.F = o.Arg, o.Form, o.F
		if o.Sp != 0 {
			c.Sp = g.id()
		}
		if o.In > 0 {
			c.In = g.twinOf(o.In, made)
		}
		large := 0
		for _, a := range o.A {
			n := g.again(a, o.Th == g.th)
			g.retype(n, made)
			walk(n, func(n *Node) { large += 1 + len(n.S)/20 })
			c.A = append(c.A, n)
		}
		if large > 200 {
			return slot
		}
		if g.th < 0 {
			for _, a := range c.A {
				walk(a, func(n *Node) {
					if strings.HasPrefix(n.F, "exit") && n.E == 0 {
						n.F = "panic"
					}
				})
			}
		}
		if t := g.commit(c, g.slotKind(slot)); t != 0 {
			made[slot] = t
			return t
		}
		return slot
	}
	return slot
}

// retype gives values other types and leaves the text that they are shown as.
func (g *gen) retype(n *Node, made map[int]int) {
	if n.E != 0 && isContainer(n) {
		return
	}
	if n.R > 0 && g.r.p(70) {
		n.R = g.twinOf(n.R, made)
	}
	switch n.K {
	case "v.int":
		if n.ID == 0 && n.E == 0 && n.N >= 0 && n.N < 30000 {
			switch g.r.n(8) {
			case 0:
				*n = Node{K: "e.raw", S: strconv.Itoa(n.N)}
			case 1, 2:
			default:
				*n = Node{K: g.r.pick("v.i64", "v.i32", "v.u32", "v.u64", "v.u", "v.i16"), N: n.N}
			}
		}
	case "v.i64", "v.i32", "v.u32", "v.u64", "v.u":
		if n.ID == 0 && n.E == 0 && n.N >= 0 && g.r.p(50) {
			*n = Node{K: "v.int", N: n.N}
		}
	case "v.time":
		if n.T == "" && g.r.p(50) {
			n.T = "east"
		}
	case "v.str":
		if n.ID == 0 && n.E == 0 && len(n.S) < 10 && !strings.ContainsAny(n.S, "$:?@") && g.r.p(20) {
			*n = Node{K: "e.raw", S: literal(n.S)}
		}
	case "v.list", "c.nums":
		switch n.T {
		case "int", "int64", "int32", "uint", "uint32", "uint64":
			if n.K != "v.list" || n.T != "int64" {
				n.T = g.r.pick("int", "int32", "uint", "uint32", "uint64")
			}
		}
	case "c.rows":
		switch n.T {
		case "":
		case "int":
			if g.r.p(50) {
				n.T = "int64"
				walk(n, func(c *Node) {
					if c.K == "v.int" {
						c.K = "v.i64"
					}
				})
			}
			return
		default:
			return
		}
	case "c.ints", "c.strings", "e.valcmp", "pair", "p.pair", "p.map", "p.smap":
		return
	}
	for _, c := range n.L {
		k := *c
		g.retype(c, made)
		if n.K == "e.val" && c.K == "e.raw" {
			*c = k // it takes values only
		}
	}
}

// vary changes an argument a little.
func (g *gen) vary(n *Node) {
	if n.E != 0 && isContainer(n) {
		return
	}
	switch n.K {
	case "t.str", "t.tab":
		if g.r.p(40) {
			n.K = "t.tab"
			if n.T == "" {
				n.T = g.alias("x", 5, n.S)
			} else {
				n.T = ""
			}
		}
	case "v.int":
		if n.ID == 0 && n.E == 0 {
			switch g.r.n(6) {
			case 0:
				n.N = g.num()
			case 1:
				*n = Node{K: "v.i64", N: n.N}
			case 2:
				*n = Node{K: "v.str", S: strconv.Itoa(n.N)}
			}
		}
	case "v.str":
		if g.r.p(15) {
			n.S = g.name()
		}
	case "k.col", "s.agg":
		if n.K == "k.col" && g.r.p(20) {
			n.T = g.alias("a", 6, n.S)
		}
		if n.K == "s.agg" && n.S == "COUNT" && g.r.p(30) {
			n.N = g.r.n(4)
		}
	case "c.ints", "c.strings", "e.valcmp", "pair", "p.pair", "p.map", "p.smap":
		return
	case "c.rows":
		if n.T != "" {
			return
		}
	}
	for _, c := range n.L {
		g.vary(c)
	}
}

// again is an equal argument.
func (g *gen) again(n *Node, same bool) *Node {
	c := *n
	if n.ID != 0 {
		c.ID = g.id()
	}
	if n.E != 0 && n.K == "v.timeptr" && !same {
		c.E = 0
	}
	c.L = nil
	for _, l := range n.L {
		c.L = append(c.L, g.again(l, same))
	}
	return &c
}

// receiver chooses a handle to work on.
func (g *gen) receiver() int {
	if l := g.last[g.th]; l != 0 && !g.r.p(g.k.fork) {
		return l
	}
	if s, ok := g.find(builderKinds...); ok {
		return s.id
	}
	return 0
}

// incomplete renders a statement that lacks something, which fails on its way.
func (g *gen) incomplete() bool {
	var c []int
	for _, s := range g.slots {
		if (s.th < 0 || s.th == g.th) && !g.renderable(s.id) {
			c = append(c, s.id)
		}
	}
	if len(c) == 0 {
		return false
	}
	g.p.Ops = append(g.p.Ops, g.renderOf(c[g.r.n(len(c))], g.form()))
	return true
}

// rejected adds a call that has to be refused.
func (g *gen) rejected() bool {
	in := g.receiver()
	if in == 0 {
		return false
	}
	kind := g.slotKind(in)
	for try := 0; try < 12; try++ {
		var o *Op
		g.later = nil
		if g.r.p(30) {
			o = g.wrong(kind, in)
		} else if o = g.method(kind, in); o != nil {
			g.corrupt(o)
		}
		if o == nil {
			continue
		}
		if _, refused := g.m.try(o); refused == "" {
			continue
		}
		g.p.Ops = append(g.p.Ops, o)
		g.stats["reject."+o.K]++
		if l := g.later; l != nil && g.r.p(60) {
			if s := g.commit(l, kind); s != 0 && g.r.p(50) {
				g.last[g.th] = s
			}
		}
		return true
	}
	return false
}

// bad is an argument that nothing accepts. Code of the caller may run where a message describes it.
func (g *gen) bad() *Node {
	n := &Node{K: "v.bad", N: g.num()}
	if g.r.p(g.k.describe) {
		n.ID, n.F = g.id(), g.script(g.k.describing)
	}
	return n
}

// wrong is a call whose arguments cannot be used as they are: too few, empty, or out of range.
func (g *gen) wrong(kind string, in int) *Op {
	op := func(k string, a ...*Node) *Op { return g.newOp(k, in, a...) }
	bad := g.bad
	if g.r.p(12) {
		none := &Node{K: "t.str"}
		if g.r.p(50) {
			none = &Node{K: "t.tab", T: g.r.pick("", "x1")}
		}
		o := g.newOp(g.r.pick("new.insert", "new.update"), 0, none)
		if o.K == "new.insert" {
			o.Arg = g.r.n(2)
		}
		if g.r.p(30) {
			o = g.newOp(g.r.pick("new.insert", "new.update", "new.delete", "new.select"), 0, bad())
		}
		return o
	}
	str := func() *Node { return &Node{K: "x.str", T: g.r.pick("", "stmt")} }
	switch kind {
	case "select":
		switch g.r.n(9) {
		case 0:
			return op(g.r.pick("where", "and"), &Node{K: "x.nil"})
		case 1:
			return op(g.r.pick("distincton", "groupby", "from", "join"))
		case 2:
			return op(g.r.pick("suffix", "prefix"), str())
		case 3:
			n := &Node{K: "n.int", N: -g.r.n(3), T: g.r.pick("", "int8", "int16", "int32", "int64", "string")}
			if g.r.p(30) {
				n = &Node{K: g.r.pick("v.f64", "v.u", "v.bool", "v.nil", "v.bytes", "v.time"), N: g.num()}
			} else if g.r.p(30) {
				n = &Node{K: "v.str", S: g.r.pick("", "ten", "1.5", "1 ", "0x10", "99999999999999999999")}
			}
			return op(g.r.pick("limit", "offset"), n)
		case 4:
			if g.r.p(60) { // of one that is right, which is given later
				var a []*Node
				if g.r.p(30) {
					a = append(a, g.table())
				}
				n := g.joinStr(len(a) == 0)
				n.N &= 0x7ff
				text := joinText(n)
				if i := strings.LastIndex(text, "="); g.r.p(30) && i > 0 {
					text = text[:i+1]
				} else {
					text += g.r.pick(" AND", " OR", " AND c3 =", " OR c3", " AND c3 c4", " OR = c3", " AND c3 = = c4")
				}
				g.later = op("join", append(append([]*Node(nil), a...), n)...)
				return op("join", append(a, &Node{K: "j.bad", S: text})...)
			}
			return op("join", &Node{K: "j.bad", S: g.r.pick("", "t1", "JOIN t1", "JOIN t1 ON", "ON c1 = c2", "JOIN t1 ON c1 =", "JOIN t1 ON c1 = c2 AND",
				"JOIN t1 ON c1 = c2 OR", "JOIN t1 ON c1 = c2 AND c3", "JOIN t1 ON c1 = c2 OR c3 = = c4", "JOIN t1 ON c1 = c2 AND c3 c4", "JOIN t1 ON c1 = c2 OR c3 c4",
				"JOIN t1 ON c1 = c2 OR c3 =", "; DROP", "JOIN t1 ON c1 = ON")})
		case 5:
			return op("join", g.table(), &Node{K: "j.bad", S: g.r.pick("", "c1", "ON", "ON c1 =", "ON c1 = c2 AND", "ON c1 = c2 OR c3", "ON c1 = c2 AND c3 c4", "ON c1 = c2 OR c3 =")})
		case 6:
			switch g.r.n(6) {
			case 4:
				return op("join", bad())
			case 5:
				return op("join", &Node{K: "t.str"}, g.on())
			case 0:
				return op("join", bad(), g.on())
			case 1:
				return op("join", g.table(), bad())
			case 2:
				return op("join", g.table(), g.on(), bad())
			}
			return op("join", g.table(), g.on(), &Node{K: "j.type", S: "INNER JOIN"}, g.table())
		case 7:
			a := g.selArgs()
			if len(a) == 1 && strings.HasPrefix(a[0].K, "c.") {
				return nil
			}
			return op("columns", append(a, &Node{K: g.r.pick("k.str", "e.raw", "k.col")})...)
		case 8:
			return op(g.r.pick("groupby", "distincton", "columns", "returning"), &Node{K: "c.cols", ID: g.id(), L: []*Node{g.col(), {K: "k.col"}}})
		}
	case "insert":
		switch g.r.n(6) {
		case 5:
			return op("returning", &Node{K: "c.cols", ID: g.id(), L: []*Node{g.col(), {K: "k.col"}}})
		case 0:
			return op("into", g.table())
		case 1:
			return op("onconflict")
		case 2:
			n := g.rowsOf()
			i := g.r.n(len(n.L))
			if n.E != 0 || n.T != "" || len(n.L[i].L) == 0 {
				return nil
			}
			n.L[i].L[g.r.n(len(n.L[i].L))] = bad()
			return op("values", n)
		case 3:
			n := g.rowsOf()
			n.L, n.E = nil, 0
			return op("values", n)
		case 4:
			a := []*Node{g.col(), &Node{K: "k.str", S: g.r.pick("", " ")}}
			if g.r.p(50) {
				a[1] = &Node{K: "k.col"}
			}
			return op("onconflict", append(a, &Node{K: "x.nothing"})...)
		}
	case "update":
		switch g.r.n(4) {
		case 0:
			if u, ok := g.m.slots[in].(*mupdate); ok && u.set.mode != 2 {
				return op("using", g.values(g.len(1))...)
			}
			return op("using")
		case 1:
			return op("set")
		case 2:
			return op("set", &Node{K: "k.str", S: g.freshCol()}, &Node{K: g.r.pick("k.str", "k.col")})
		case 3:
			return op("using", append(g.values(g.len(1)), bad())...)
		}
	case "delete":
		switch g.r.n(2) {
		case 0:
			return op("from", g.table())
		case 1:
			return op("using", g.table(), &Node{K: g.r.pick("t.str", "t.tab")})
		}
	}
	return nil
}

// corrupt makes a call invalid, preferably late in its arguments.
func (g *gen) corrupt(o *Op) {
	switch o.K {
	case "comment", "distinct", "only", "suffix", "prefix", "limit", "offset":
		if len(o.A) > 0 && g.r.p(60) && o.K != "comment" {
			o.A[0] = g.bad()
		}
		return
	}
	if g.r.p(15) && o.K != "where" && o.K != "and" && o.K != "or" && o.K != "having" {
		return // as it is: a duplicate clause, maybe
	}
	failing := func() *Node {
		switch g.r.n(6) {
		case 0:
			f := "panic"
			if g.th >= 0 && g.r.p(g.k.rejectExit) {
				f = g.r.pick("exit", "exit", "exit:1")
			}
			if f == "panic" && g.r.p(60) {
				f += ":" + strconv.Itoa(g.r.n(len(errKinds)))
			}
			return &Node{K: g.r.pick("v.enc.str", "v.enc.int", "v.enc.time", "v.enc.bool"), ID: g.id(), N: g.num(), F: f}
		case 1:
			return &Node{K: "v.timeptr", ID: g.id(), T: "nil"}
		case 2:
			return &Node{K: "v.stenc", ID: g.id(), T: "notexpr"}
		case 3:
			if s, ok := g.find("insert", "update", "delete"); ok {
				return &Node{K: "b", R: s.id}
			}
		}
		return g.bad()
	}
	if g.r.p(15) { // a key that is no column
		var keys []**Node
		for _, a := range o.A {
			walk(a, func(n *Node) {
				switch {
				case n.K == "p.pair" && len(n.L) == 2:
					keys = append(keys, &n.L[0])
				case n.K == "p.map" && n.E == 0:
					for _, p := range n.L {
						keys = append(keys, &p.L[0])
					}
				}
			})
		}
		if len(keys) > 0 {
			*keys[g.r.n(len(keys))] = g.bad()
			return
		}
	}
	// replace a leaf value by a failing one
	var leaves []**Node
	var visit func(n *Node)
	visit = func(n *Node) {
		if n.K == "c.rows" && n.T != "" && n.T != "expr" || n.E != 0 && isContainer(n) {
			return // of one type, or the same for others
		}
		for i := range n.L {
			c := n.L[i]
			if strings.HasPrefix(c.K, "v.") && n.K != "c.ints" && n.K != "c.strings" && n.K != "e.val" && !(n.K == "e.valcmp" && i == 0) {
				leaves = append(leaves, &n.L[i])
			}
			visit(c)
		}
	}
	for i := range o.A {
		if strings.HasPrefix(o.A[i].K, "v.") {
			leaves = append(leaves, &o.A[i])
		}
		visit(o.A[i])
	}
	if len(leaves) > 0 && g.r.p(70) {
		i := len(leaves) - 1
		if g.r.p(40) {
			i = g.r.n(len(leaves))
		}
		*leaves[i] = failing()
		return
	}
	switch o.K {
	case "join":
		switch g.r.n(3) {
		case 0:
			o.A = []*Node{{K: "j.bad", S: g.r.pick("JOIN t1 ON a = = b", "JOIN t1 ON c1 = c2 AND = c3", "LEFT JOIN t1 ON c1 = c2 OR c3 c4 = c5", "JOIN t1 ON c1 = c2 AND c3 = ")}}
		case 1:
			o.A = []*Node{g.table(), {K: "j.bad", S: g.r.pick("ON a = = b", "ON c1 = c2 AND = c3")}}
		case 2:
			o.A = append(o.A, g.bad())
		}
	case "orderby", "with", "where", "and", "or", "having":
	case "set", "columns", "groupby", "distincton", "returning", "values", "using", "from":
		bad := g.bad()
		if o.K == "from" && g.slotKind(o.In) == "update" { // takes one argument only
			o.A = []*Node{bad}
			return
		}
		if g.r.p(40) && o.K != "values" && o.K != "using" && o.K != "from" {
			bad = &Node{K: "k.str", S: g.r.pick("c1,,c2", "", " ", "c3, ")}
		}
		if o.K == "set" && g.r.p(40) {
			bad = &Node{K: "k.str", S: "mixed"}
		}
		if o.Sp == 0 && len(o.A) == 1 && strings.HasPrefix(o.A[0].K, "c.") {
			o.A = append(o.A, bad)
			return
		}
		if g.r.p(70) {
			o.A = append(o.A, bad)
		} else {
			i := g.r.n(len(o.A) + 1)
			o.A = append(o.A[:i:i], append([]*Node{bad}, o.A[i:]...)...)
		}
	case "onconflict":
		if len(o.A) > 1 && g.r.p(50) {
			o.A = o.A[:len(o.A)-1]
		} else {
			i := g.r.n(len(o.A))
			o.A = append(o.A[:i:i], append([]*Node{g.bad()}, o.A[i:]...)...)
		}
	}
}

// one adds one step of the current thread.
func (g *gen) step() {
	k := &g.k
	switch {
	case g.r.p(k.render):
		if s := g.receiver(); s != 0 {
			g.render(s)
		}
		return
	case g.r.p(k.streak):
		g.streak()
		return
	case g.r.p(k.echo):
		g.echo()
		return
	case k.cascade > 0 && g.r.p(k.cascade):
		g.cascade()
		return
	case g.r.p(k.compose):
		g.compose()
		return
	case g.r.p(k.reject):
		if g.r.p(8) {
			g.incomplete()
			return
		}
		g.rejected()
		return
	case g.r.p(k.frag):
		g.fragment()
		return
	case g.r.p(k.writeFrag):
		g.writeFrag()
		return
	case g.r.p(k.clobber):
		g.clobberOne()
		return
	case g.r.p(k.spoil):
		g.spoilOne()
		return
	case g.r.p(k.jump):
		o := g.newOp("jump", 0)
		o.Arg = 1 + g.r.n(100000)
		if g.r.p(40) {
			o.Arg = -o.Arg
		}
		g.p.Ops = append(g.p.Ops, o)
		return
	}
	in := g.receiver()
	if in == 0 || g.r.p(12) {
		g.newBuilder()
		return
	}
	g.derive(in)
}

// siege lets all threads make the same call on one handle.
func (g *gen) siege() {
	var c []gslot
	for _, s := range g.slots {
		if s.th < 0 && !s.big && g.cost < 60000 {
			for _, b := range builderKinds {
				if s.kind == b {
					c = append(c, s)
				}
			}
		}
	}
	if len(c) == 0 {
		return
	}
	s := c[g.r.n(len(c))]
	want := ""
	if g.r.p(50) { // once more what made the handle
		for _, o := range g.p.Ops {
			if o.Out == s.id && o.In != 0 {
				want = o.K
			}
		}
	}
	for g.th = 0; g.th < g.k.threads; g.th++ {
		for try := 0; try < 60; try++ {
			o := g.method(s.kind, s.id)
			if o == nil || want != "" && o.K != want {
				continue
			}
			to := g.commit(o, s.kind)
			if to == 0 {
				continue
			}
			want = o.K
			if g.r.p(50) {
				g.last[g.th] = to
			}
			if g.r.p(30) {
				g.render(to)
			}
			break
		}
	}
	g.stats["siege"]++
}

// gather lets all threads render one handle at the same time, once or a few times.
func (g *gen) gather() {
	var c []int
	for _, s := range g.slots {
		if s.th >= 0 || s.big || !g.renderable(s.id) {
			continue
		}
		for _, b := range builderKinds {
			if s.kind == b {
				c = append(c, s.id)
			}
		}
	}
	if len(c) == 0 {
		return
	}
	s, form := c[g.r.n(len(c))], g.form()
	for n := 1 + g.r.n(2)*g.r.n(3); n > 0; n-- {
		for g.th = 0; g.th < g.k.threads && g.cost < 60000; g.th++ {
			g.p.Ops = append(g.p.Ops, g.renderOf(s, form))
		}
	}
	g.stats["crowd"]++
}

func (g *gen) clobberOne() {
	var c []ownedRef
	for _, o := range g.owned {
		if o.th == g.th || o.th < 0 && g.th == 0 {
			c = append(c, o)
		}
	}
	if len(c) == 0 {
		return
	}
	o := g.newOp("clobber", 0)
	o.Arg = c[g.r.n(len(c))].id
	g.p.Ops = append(g.p.Ops, o)
}

func (g *gen) spoilOne() {
	var c []rendRef
	for _, r := range g.rends {
		if r.form == formString {
			continue
		}
		if r.th == g.th || r.th < 0 && g.th == 0 {
			c = append(c, r)
		}
	}
	if len(c) == 0 {
		return
	}
	o := g.newOp("spoil", 0)
	o.Arg = c[g.r.n(len(c))].op
	g.p.Ops = append(g.p.Ops, o)
}

// vocabulary is a statement of very many names, which no other plan of the process uses.
func (g *gen) vocabulary() {
	n := &Node{K: "k.words", T: "w" + strconv.FormatUint(g.r.u64()&0xffffffff, 36), N: []int{300, 1100, 4200, 6000}[g.r.n(4)]}
	if s := g.commit(g.newOp("new.select", 0, n), "select"); s != 0 {
		g.stats["vocabulary"]++
		g.p.Ops = append(g.p.Ops, g.renderOf(s, formQuery))
	}
}

// words are the names of a vocabulary.
func words(n *Node) string {
	var b strings.Builder
	for i := 0; i < n.N; i++ {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(n.T)
		b.WriteString("_")
		b.WriteString(strconv.Itoa(i))
	}
	return b.String()
}

// build generates the whole plan.
func (g *gen) build() *Plan {
	k := &g.k
	g.p.Threads = k.threads
	g.th = -1
	if k.setup > 0 {
		g.newBuilder()
	} else {
		form, from := g.form(), *g.r
		for g.th = 0; g.th < k.threads; g.th++ {
			if !k.chorus {
				g.newBuilder()
				continue
			}
			*g.r = from
			g.newBuilder()
			if s := g.last[g.th]; s != 0 && g.renderable(s) {
				g.p.Ops = append(g.p.Ops, g.renderOf(s, form))
			}
		}
	}
	for i := 0; i < k.setup; i++ {
		g.step()
	}
	if k.words {
		g.vocabulary()
	}
	if k.threads > 0 {
		total := k.threads * k.per
		for i := 0; i < total; i++ {
			if g.r.p(k.siege) {
				g.siege()
			}
			g.th = g.r.n(k.threads)
			g.step()
		}
	}
	for i := 0; i < k.throng; i++ {
		g.siege()
	}
	if k.crowd {
		g.gather()
	}
	if k.final {
		g.finals()
	}
	// one call gets an object once
	for _, o := range g.p.Ops {
		seen := map[int]bool{}
		for _, a := range o.A {
			walk(a, func(n *Node) {
				if n.E == 0 || n.K == "v.valuer" {
					return
				}
				if seen[n.E] {
					n.E = 0
				}
				seen[n.E] = true
			})
		}
	}
	return g.p
}

// finals renders every handle, in every thread that may see it or only in one.
func (g *gen) finals() {
	slots := append([]gslot(nil), g.slots...)
	saveAbort, saveStall, saveRe, saveTwice := g.k.abort, g.k.sinkStall, g.k.reent, g.k.renderTwice
	g.k.abort, g.k.sinkStall, g.k.reent, g.k.renderTwice = 0, 0, 0, 0
	for _, s := range slots {
		isBuilder := false
		for _, b := range builderKinds {
			if s.kind == b {
				isBuilder = true
			}
		}
		if !g.renderable(s.id) || g.cost > 150000 && g.r.p(80) || g.cost > 200000 {
			continue
		}
		g.th = s.th
		switch {
		case g.p.Threads > 0 && g.r.p(50):
			g.th = -2
		case g.p.Threads > 0 && s.th < 0:
			g.th = g.r.n(g.p.Threads)
		}
		if isBuilder {
			g.p.Ops = append(g.p.Ops, g.renderOf(s.id, g.form()))
		} else if g.r.p(50) {
			o := g.newOp("write", s.id)
			o.Form = formSink
			g.p.Ops = append(g.p.Ops, o)
		}
	}
	g.k.abort, g.k.sinkStall, g.k.reent, g.k.renderTwice = saveAbort, saveStall, saveRe, saveTwice
}

// schedule draws the scheduling strategy.
func (g *gen) schedule(points int) {
	p := g.p
	if p.Threads < 2 {
		p.Strategy = hook.Serial
		return
	}
	switch g.r.n(10) {
	case 0:
		p.Strategy = hook.Serial
	case 1, 2, 3, 4:
		p.Strategy = hook.Random
		p.P = []uint32{32768, 8192, 2048, 512, 64}[g.r.n(5)]
	case 5, 6:
		p.Strategy = hook.PCT
		est := 200 * len(p.Ops)
		for i := 1 + g.r.n(5); i > 0; i-- {
			p.Changes = append(p.Changes, 1+g.r.n(est))
		}
		for i := range p.Changes {
			for j := i + 1; j < len(p.Changes); j++ {
				if p.Changes[j] < p.Changes[i] {
					p.Changes[i], p.Changes[j] = p.Changes[j], p.Changes[i]
				}
			}
		}
	case 7:
		p.Strategy = hook.OpOnly
		p.P = 32768
	default:
		p.Strategy = hook.Focus
		for i := 1 + g.r.n(4); i > 0; i-- {
			p.Focus = append(p.Focus, int32(1+g.r.n(points)))
		}
		p.P = []uint32{0, 16, 256}[g.r.n(3)]
	}
}
