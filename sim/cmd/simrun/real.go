package main

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"

	"verif.local/sim/hook"
)

// Obs is what a caller observed of one operation.
type Obs struct {
	Op      int      `json:"op"`
	Th      int      `json:"th"`
	St      string   `json:"st"` // ok, panic, exit, skip
	Slot    int      `json:"slot,omitempty"`
	Form    string   `json:"form,omitempty"`
	Msg     string   `json:"msg,omitempty"`
	Out     string   `json:"out,omitempty"`
	Args    []string `json:"args,omitempty"`
	Fired   []string `json:"fired,omitempty"`
	Problem string   `json:"problem,omitempty"` // a check made on the spot failed
	Inner   []*Obs   `json:"inner,omitempty"`
	Repeats []*Obs   `json:"repeats,omitempty"` // earlier renders of the same, as far as they differ
	Begin   int      `json:"begin,omitempty"`
	End     int      `json:"end,omitempty"`
	Valued  int      `json:"valued,omitempty"` // calls of driver.Valuer.Value made during the operation
	done    bool
	raw     string   // Out as it was returned
	varied  []string // what valuers gave that give something else each time
}

type slot struct {
	v     atomic.Pointer[interface{}] // release/acquire, as a channel send and receive would be
	ready bool
	dead  bool
	th    int
}

// exec is the execution of one plan against the real code.
type exec struct {
	plan  *Plan
	slots []slot
	obs   [][]*Obs // per thread, the last one is setup
	cur   [maxThreads + 1]*Obs
	byOp  map[int]*Op
	// what encoders answered, by node
	reads    []interface{}
	consults []int
	buildOp  []int
	maxNode  int
	clock    int
	timevars []*time.Time
	timeown  []int               // the thread that owns the variable: nobody else may write it
	objs     map[int]interface{} // objects that several calls are given
	boxed    []int               // the containers among them
	lends    [256]func() string  // looks at what the caller lent: values that are slices or maps
	nlent    int
	timeobjs []*time.Time // time variables that several calls of a thread are given
	cons     []*container
	rets     []*retained
	res      hook.Result
	resSetup hook.Result
	resAudit hook.Result
	inCB     [maxThreads + 1]int // renders inside callbacks that are under way
	nils     [maxThreads + 1]bool
	inOp     [maxThreads + 1]int // and that have begun since the outermost one did
	inSub    [maxThreads + 1]bool
	times    int  // how often valuers that give something else each time were asked
	exits    bool // some callback of the plan ends its goroutine
	noFault  bool
	fixed    map[int]interface{}
	races    string
}

// container is a slice or map that the caller owns and keeps.
type container struct {
	id     int
	check  func() string
	mutate func()
	dirty  bool
	kind   string
}

// retained is a result that a caller kept.
type retained struct {
	op    int
	th    int
	query string
	qcopy []byte
	args  []interface{}
	named map[string]interface{}
	canon []string
	isMap bool
	spoil bool
	empty bool
}

func timeVar(n int) time.Time { return time.Unix(int64(baseTime+n), 0).UTC() }

// timeAt is what a time variable holds; some were not set before the clock moved.
func timeAt(n *Node, clock int) time.Time {
	if n.N%8 == 3 {
		return time.Time{}.Add(time.Duration(clock) * time.Second)
	}
	return timeVar(n.N + clock)
}

func valuerOut(n *Node) interface{} {
	if n.T == "int" {
		return int64(n.N)
	}
	switch n.T {
	case "null":
		return nil
	case "zero-int":
		return int64(0)
	case "zero-str":
		return ""
	case "zero-bytes":
		return []byte{}
	case "zero-time":
		return time.Time{}
	case "true", "false":
		return n.T == "true"
	}
	for _, k := range driverOuts {
		if k == n.T {
			return extreme(k)
		}
	}
	if n.T == "vary" {
		return "v" + fmt.Sprint(n.N) + anyTime
	}
	return "v" + fmt.Sprint(n.N)
}

// anyTime ends what a valuer gives that gives something else each time: it stands for the number of the time.
const anyTime = "~any"

// varied is what such a valuer gives now; the operation that asks is noted.
//
//go:norace
func (x *exec) varied(n *Node) string {
	x.times++
	s := "v" + strconv.Itoa(n.N) + "~" + strconv.Itoa(x.times)
	if o := x.cur[x.thread()]; o != nil {
		o.varied = append(o.varied, s)
	}
	return s
}

// settle puts what stands for any time where the valuers of this operation gave something of this time.
func (o *Obs) settle() {
	for _, s := range o.varied {
		o.Out = strings.ReplaceAll(o.Out, "'"+s+"'", "'"+s[:strings.IndexByte(s, '~')]+anyTime+"'")
	}
}

func newExec(p *Plan) *exec {
	x := &exec{plan: p, byOp: map[int]*Op{}}
	maxSlot := 0
	maxOp := 0
	for _, o := range p.Ops {
		x.byOp[o.ID] = o
		if o.Out > maxSlot {
			maxSlot = o.Out
		}
		if o.ID > maxOp {
			maxOp = o.ID
		}
		if o.Sp > x.maxNode {
			x.maxNode = o.Sp
		}
		for _, d := range o.deps() {
			if d > maxSlot {
				maxSlot = d
			}
		}
		for _, a := range o.A {
			walk(a, func(n *Node) {
				if strings.HasPrefix(n.F, "exit") {
					x.exits = true
				}
				if n.E > x.maxNode {
					x.maxNode = n.E
				}
				if n.ID > x.maxNode {
					x.maxNode = n.ID
				}
			})
		}
	}
	x.slots = make([]slot, maxSlot+1)
	for _, o := range p.Ops {
		if o.Out > 0 {
			x.slots[o.Out].th = o.Th
		}
	}
	x.obs = make([][]*Obs, maxThreads+1)
	x.reads = make([]interface{}, x.maxNode+1)
	x.consults = make([]int, x.maxNode+1)
	x.buildOp = make([]int, x.maxNode+1)
	x.timevars = make([]*time.Time, x.maxNode+1)
	x.timeown = make([]int, x.maxNode+1)
	x.cons = make([]*container, x.maxNode+1)
	x.rets = make([]*retained, maxOp+1)
	x.timeobjs = make([]*time.Time, x.maxNode+1)
	forgetZeros()
	x.makeObjs()
	return x
}

// makeObjs makes the objects that several calls are given.
func (x *exec) makeObjs() {
	x.objs = map[int]interface{}{}
	uses := map[int]map[int]*Node{}
	first := map[int]*Node{}
	for _, o := range x.plan.Ops {
		for _, a := range o.A {
			walk(a, func(n *Node) {
				if n.E == 0 || n.K == "v.timeptr" || isContainer(n) {
					return
				}
				if f := first[n.E]; f != nil { // it is one object
					n.K, n.N, n.S, n.T, n.F = f.K, f.N, f.S, f.T, f.F
				} else {
					first[n.E] = n
				}
				if uses[n.E] == nil {
					uses[n.E] = map[int]*Node{}
					c := callback{x: x, node: n, sc: parseScript(n.F), uses: uses[n.E]}
					x.objs[n.E] = x.object(n, c)
				}
				uses[n.E][o.ID] = n
			})
		}
	}
}

// makeBoxes makes the containers that several calls are given.
func (x *exec) makeBoxes() {
	for _, o := range x.plan.Ops {
		for _, a := range o.A {
			walk(a, func(n *Node) {
				if n.E != 0 && isContainer(n) && x.objs[n.E] == nil {
					c := *n
					c.ID, c.E = n.E, 0
					x.objs[n.E] = x.container(&c)
					walk(&c, func(m *Node) {
						if isContainer(m) {
							x.boxed = append(x.boxed, m.ID)
						}
					})
				}
			})
		}
	}
}

// object is an encoder or valuer of the caller.
func (x *exec) object(n *Node, c callback) interface{} {
	switch n.K {
	case "v.enc.str":
		return dressed(n, &encStr{c})
	case "v.enc.int":
		return dressed(n, &encInt{c})
	case "v.enc.bool":
		return dressed(n, &encBool{c})
	case "v.enc.time":
		return dressed(n, &encTime{c})
	case "v.enc.multi":
		return dressed(n, &encMulti{c})
	case "v.enc.all":
		return &encAll{c}
	case "v.enc.bts":
		return dressed(n, &encBTS{c})
	case "v.enc.ts":
		return dressed(n, &encTS{c})
	case "v.enc.val":
		return encVal{&c}
	}
	v := &valuer{callback: c, out: x.lent(valuerOut(n)), vary: n.T == "vary"}
	if strings.HasPrefix(n.T, "nest") {
		v.out = nested(x, n)
	}
	return wrapped(n, v)
}

// thread is the index of the running thread; setup is maxThreads.
func (x *exec) thread() int {
	if !x.inThreads() {
		return maxThreads
	}
	t := hook.Current()
	if t < 0 {
		return maxThreads
	}
	return t
}

var threadsPhase bool

//go:norace
func (x *exec) inThreads() bool { return threadsPhase }

//go:norace
func (x *exec) canExit() bool { return x.inThreads() || x.inSub[maxThreads] }

//go:norace
func (x *exec) setSub(t int, on bool) { x.inSub[t] = on }

//go:norace
func (x *exec) consulted(id int, what string) {
	if id < len(x.consults) {
		x.consults[id]++
		if o := x.cur[x.thread()]; o != nil {
			x.buildOp[id] = o.Op
		}
	}
	if what == "valuer" {
		if o := x.cur[x.thread()]; o != nil {
			o.Valued++
		}
	}
}

//go:norace
func (x *exec) encoderRead(c *callback) interface{} {
	n := c.at()
	if v, ok := x.fixed[n.ID]; ok {
		return v
	}
	v := reading(n, c.cnt.total(), x.clock)
	if x.reads[n.ID] == nil {
		x.reads[n.ID] = v
	}
	return v
}

//go:norace
func (x *exec) current() *Obs { return x.cur[x.thread()] }

//go:norace
func (x *exec) fired(what string) {
	o := x.cur[x.thread()]
	if o != nil {
		o.Fired = append(o.Fired, what)
	}
}

// reenter renders another slot from inside a callback of the running thread.
func (x *exec) reenter(slotID int, form string) {
	t := x.thread()
	outer, in := x.enterInner(t, slotID, form)
	if in == nil {
		return
	}
	defer func() {
		x.leaveInner(t, outer)
		if in.done {
			outer.nested(in)
			return
		}
		if in.St == "skip" {
			return
		}
		r := recover()
		if r == nil {
			if x.tookNil(t) {
				panic(nil)
			}
			return // the goroutine is leaving
		}
		in.St, in.Msg, in.done = "panic", panicText(r), true
		outer.nested(in)
		if failedInside(in) != "" {
			panic(r)
		}
	}()
	v := x.slotValue(slotID)
	if v == nil {
		in.St = "skip"
		return
	}
	x.setCurrent(t, in)
	if _, ok := v.(builder.Builder); !ok {
		in.Form = formSink
	}
	x.render(in, v, in.Form, script{})
	in.St = "ok"
	in.done = true
}

// enterInner begins a render inside a callback, unless there are enough of them already; it is not part of
// what the race detector looks at, since the library may run callbacks of one call in several goroutines.
//
//go:norace
func (x *exec) enterInner(t, slotID int, form string) (outer, in *Obs) {
	outer = x.cur[t]
	if slotID >= len(x.slots) || outer == nil {
		return nil, nil
	}
	if x.inCB[t] == 0 {
		x.inOp[t] = 0
	}
	if x.inCB[t] >= 20 || x.inOp[t] >= 30 || x.inCB[t] >= 2 && form == formQuery {
		return nil, nil
	}
	x.inCB[t]++
	x.inOp[t]++
	return outer, &Obs{Op: outer.Op, Th: outer.Th, Slot: slotID, Form: form}
}

//go:norace
func (x *exec) setCurrent(t int, o *Obs) { x.cur[t] = o }

//go:norace
func (x *exec) leaveInner(t int, outer *Obs) {
	x.cur[t] = outer
	x.inCB[t]--
}

// setNil notes that the caller's code panics with nil, which a recover stops and yet does not tell.
//
//go:norace
func (x *exec) setNil(on bool) { x.nils[x.thread()] = on }

//go:norace
func (x *exec) tookNil(t int) bool { return x.nils[t] }

//go:norace
func (o *Obs) nested(in *Obs) { o.Inner = append(o.Inner, in) }

//go:norace
func (x *exec) isReady(s int) bool { return x.slots[s].ready }

//go:norace
func (x *exec) setReady(s int) {
	x.slots[s].ready = true
	hook.Wake(uintptr(s + 1))
}

//go:norace
func (x *exec) setDead(s int) {
	if !x.slots[s].ready {
		x.slots[s].dead = true
		hook.Wake(uintptr(s + 1))
	}
}

//go:norace
func (x *exec) isDead(s int) bool { return x.slots[s].dead }

// slotValue gives the content of a slot if it is there.
func (x *exec) slotValue(s int) interface{} {
	if s <= 0 || s >= len(x.slots) || !x.isReady(s) {
		return nil
	}
	p := x.slots[s].v.Load()
	if p == nil {
		return nil
	}
	return *p
}

// await waits until the thread that produces the slot has done so; false when it never will.
func (x *exec) await(s int) bool {
	for !x.isReady(s) {
		if x.isDead(s) || !x.inThreads() {
			return false
		}
		th := x.slots[s].th
		if th < 0 || th == hook.Current() || hook.ThreadDone(th) {
			return false
		}
		if !hook.Block(uintptr(s + 1)) {
			return false
		}
	}
	return true
}

func (x *exec) put(s int, v interface{}) {
	x.slots[s].v.Store(&v)
	x.setReady(s)
}

// ref is the fragment in a slot.
func (x *exec) ref(n *Node) interface{} {
	v := x.slotValue(n.R)
	if v == nil {
		panic(fmt.Sprintf("harness: slot %d is empty", n.R))
	}
	return v
}

func (x *exec) cb(n *Node) callback {
	c := callback{x: x, node: n}
	if !x.noFault {
		c.sc = parseScript(n.F)
	}
	return c
}

// ev evaluates a value or expression argument.
func (x *exec) ev(n *Node) interface{} {
	if v, ok := plain(n); ok {
		return x.lent(v)
	}
	switch n.K {
	case "v.valuer":
		if n.T == "nilptr" {
			switch n.S {
			case "val":
				return (*valVal)(nil)
			case "enc":
				return (*valEnc)(nil)
			}
			return (*valuer)(nil)
		}
		if n.E != 0 {
			return x.objs[n.E]
		}
		return x.object(n, x.cb(n))
	case "v.timeptr":
		if n.T == "nil" {
			return (*time.Time)(nil)
		}
		return x.timePtr(n)
	case "v.enc.str", "v.enc.int", "v.enc.bool", "v.enc.time", "v.enc.multi", "v.enc.all", "v.enc.bts", "v.enc.ts", "v.enc.val":
		if n.E != 0 {
			return x.objs[n.E]
		}
		return x.object(n, x.cb(n))
	case "v.bad":
		return &described{x.cb(n)}
	case "v.stenc":
		e := &encStmt{callback: x.cb(n)}
		if n.T == "notexpr" {
			e.expr = stmt.NewTable("nope")
			return e
		}
		switch inner := x.ev(n.L[0]).(type) {
		case stmt.Statement:
			e.expr = inner
		case stmt.StatementEncoder:
			e.expr = inner.Statement()
		default:
			e.expr = stmt.NewExpression(inner)
		}
		return e
	case "b", "ref":
		return x.ref(n)
	}
	if strings.HasPrefix(n.K, "e.") {
		return x.expr(n)
	}
	if strings.HasPrefix(n.K, "c.") {
		return x.container(n)
	}
	if n.K == "n.int" {
		return n.N
	}
	return x.any(n)
}

//go:norace
func (x *exec) timePtr(n *Node) *time.Time {
	t := timeAt(n, x.clock)
	if v, ok := x.fixed[n.ID]; ok {
		t = v.(time.Time)
	}
	p := new(time.Time)
	if n.E != 0 {
		if old := x.timeobjs[n.E]; old != nil {
			p = old
			if _, ok := x.fixed[n.ID]; !ok {
				t = *p
			}
		}
		x.timeobjs[n.E] = p
	}
	*p = t
	if n.E != 0 {
		x.timevars[n.E] = p
		x.timeown[n.E] = x.thread()
	} else {
		x.timevars[n.ID] = p
		x.timeown[n.ID] = x.thread()
	}
	x.reads[n.ID] = t
	return p
}

func (x *exec) asExpr(n *Node) stmt.Expression {
	v := x.ev(n)
	if e, ok := v.(stmt.Expression); ok {
		return e
	}
	return stmt.NewExpression(v)
}

type comparer interface {
	Equal(interface{}) stmt.InfixExpression
	Overlap(interface{}) stmt.InfixExpression
}

func (x *exec) args(ns []*Node) []interface{} {
	out := make([]interface{}, len(ns))
	for i, n := range ns {
		out[i] = x.ev(n)
	}
	return out
}

func (x *exec) expr(n *Node) stmt.Expression {
	switch n.K {
	case "e.cmp", "e.rawcmp":
		var id stmt.Identifier
		if n.K == "e.cmp" {
			id = loukoum.Condition(n.T)
			if n.R != 0 {
				id = x.ref(n).(stmt.Identifier)
			}
		} else {
			id = loukoum.Condition(loukoum.Raw(n.T))
		}
		var v interface{}
		if len(n.L) > 0 && n.S != "in" && n.S != "notin" {
			v = x.ev(n.L[0])
		}
		switch n.S {
		case "eq":
			return id.Equal(v)
		case "ne":
			return id.NotEqual(v)
		case "gt":
			return id.GreaterThan(v)
		case "ge":
			return id.GreaterThanOrEqual(v)
		case "lt":
			return id.LessThan(v)
		case "le":
			return id.LessThanOrEqual(v)
		case "contains":
			return id.Contains(v)
		case "contained":
			return id.IsContainedBy(v)
		case "overlap":
			return id.Overlap(v)
		case "is":
			return id.Is(v)
		case "isnot":
			return id.IsNot(v)
		case "like":
			return id.Like(v)
		case "notlike":
			return id.NotLike(v)
		case "ilike":
			return id.ILike(v)
		case "notilike":
			return id.NotILike(v)
		case "distinct":
			return id.IsDistinctFrom(v)
		case "notdistinct":
			return id.IsNotDistinctFrom(v)
		case "null":
			return id.IsNull(true)
		case "notnull":
			return id.IsNull(false)
		case "in":
			return id.In(x.args(n.L)...)
		case "notin":
			return id.NotIn(x.args(n.L)...)
		case "between":
			return id.Between(v, x.ev(n.L[1]))
		case "notbetween":
			return id.NotBetween(v, x.ev(n.L[1]))
		}
	case "e.callcmp":
		c := x.asExpr(n.L[0]).(stmt.Call)
		switch n.S {
		case "eq":
			return c.Equal(x.ev(n.L[1]))
		case "gt":
			return c.GreaterThan(x.ev(n.L[1]))
		case "lt":
			return c.LessThan(x.ev(n.L[1]))
		case "like":
			return c.Like(x.ev(n.L[1]))
		case "ilike":
			return c.ILike(x.ev(n.L[1]))
		case "in":
			return c.In(x.args(n.L[1:])...)
		case "overlap":
			return c.Overlap(x.ev(n.L[1]))
		}
	case "e.valcmp":
		var c stmt.Value
		if n.L[0].K == "ref" {
			c = x.ref(n.L[0]).(stmt.Value)
		} else {
			c = loukoum.Value(x.ev(n.L[0]))
		}
		switch n.S {
		case "eq":
			return c.Equal(x.ev(n.L[1]))
		case "ne":
			return c.NotEqual(x.ev(n.L[1]))
		case "overlap":
			return c.Overlap(x.ev(n.L[1]))
		case "contains":
			return c.Contains(x.ev(n.L[1]))
		case "contained":
			return c.IsContainedBy(x.ev(n.L[1]))
		}
	case "e.call":
		args := make([]stmt.Expression, len(n.L))
		for i := range n.L {
			args[i] = x.asExpr(n.L[i])
		}
		return stmt.NewCall(n.S, args...)
	case "e.callsp":
		return stmt.NewCall(n.S, x.container(n.L[0]).([]stmt.Expression)...)
	case "e.and":
		return loukoum.And(x.asExpr(n.L[0]), x.asExpr(n.L[1]))
	case "e.or":
		return loukoum.Or(x.asExpr(n.L[0]), x.asExpr(n.L[1]))
	case "e.mand", "e.mor":
		l, r := x.asExpr(n.L[0]), x.asExpr(n.L[1])
		switch v := l.(type) {
		case stmt.InfixExpression:
			if n.K == "e.mand" {
				return v.And(r)
			}
			return v.Or(r)
		case stmt.In:
			if n.K == "e.mand" {
				return v.And(r)
			}
			return v.Or(r)
		}
	case "e.raw":
		return loukoum.Raw(n.S)
	case "e.exists":
		return loukoum.Exists(x.ev(n.L[0]))
	case "e.notexists":
		return loukoum.NotExists(x.ev(n.L[0]))
	case "e.id":
		return loukoum.Condition(n.T)
	case "e.idraw":
		return loukoum.Condition(loukoum.Raw(n.T))
	case "e.val":
		return loukoum.Value(x.ev(n.L[0]))
	case "e.out":
		return loukoum.Value(x.lent(valuerOut(n)))
	}
	panic("harness: cannot evaluate " + n.K + " " + n.S)
}

func (x *exec) column(n *Node) stmt.Column {
	switch n.K {
	case "k.col":
		c := loukoum.Column(n.S)
		if n.T != "" {
			c = c.As(n.T)
		}
		return c
	case "ref":
		return x.ref(n).(stmt.Column)
	}
	panic("harness: not a column: " + n.K)
}

func (x *exec) onExpr(n *Node) stmt.OnExpression {
	switch n.K {
	case "o.on":
		return loukoum.On(n.S, n.T)
	case "o.and":
		return loukoum.AndOn(x.onExpr(n.L[0]), x.onExpr(n.L[1]))
	case "o.or":
		return loukoum.OrOn(x.onExpr(n.L[0]), x.onExpr(n.L[1]))
	case "o.mand":
		return x.onExpr(n.L[0]).And(x.onExpr(n.L[1]))
	case "o.mor":
		return x.onExpr(n.L[0]).Or(x.onExpr(n.L[1]))
	case "ref":
		return x.ref(n).(stmt.OnExpression)
	}
	panic("harness: not a join condition: " + n.K)
}

func (x *exec) tableOf(n *Node) stmt.Table {
	switch n.K {
	case "t.tab":
		t := loukoum.Table(n.S)
		if n.T != "" {
			t = t.As(n.T)
		}
		if n.N == 1 {
			t = t.Only()
		}
		return t
	case "t.str":
		return loukoum.Table(n.S)
	case "ref":
		return x.ref(n).(stmt.Table)
	}
	panic("harness: not a table: " + n.K)
}

func agg(fn, val, alias string, distinct int) stmt.SelectExpression {
	switch fn {
	case "COUNT":
		c := loukoum.Count(val)
		if distinct == 1 || distinct == 3 {
			c = c.Distinct(true)
		}
		if alias != "" {
			c = c.As(alias)
		}
		if distinct >= 2 {
			c = c.Distinct(distinct == 2)
		}
		return c
	case "MAX":
		c := loukoum.Max(val)
		if alias != "" {
			c = c.As(alias)
		}
		return c
	case "MIN":
		c := loukoum.Min(val)
		if alias != "" {
			c = c.As(alias)
		}
		return c
	case "SUM":
		c := loukoum.Sum(val)
		if alias != "" {
			c = c.As(alias)
		}
		return c
	}
	panic("harness: no aggregate " + fn)
}

func (x *exec) withOf(n *Node) stmt.WithQuery {
	if n.K == "ref" {
		return x.ref(n).(stmt.WithQuery)
	}
	return loukoum.With(n.S, x.ev(n.L[0]))
}

func (x *exec) orderOf(n *Node) stmt.Order {
	switch n.K {
	case "d.ord":
		if n.N == 1 {
			return loukoum.Order(n.S)
		}
		return loukoum.Order(n.S, types.OrderType(n.T))
	case "d.col":
		c := loukoum.Column(n.S)
		if n.F != "" {
			c = c.As(n.F)
		}
		if n.T == "ASC" {
			return c.Asc()
		}
		return c.Desc()
	}
	return x.ref(n).(stmt.Order)
}

// any evaluates the arguments that are neither values nor expressions.
func (x *exec) any(n *Node) interface{} {
	switch n.K {
	case "k.words":
		return words(n)
	case "k.str", "t.str":
		return n.S
	case "k.col":
		return x.column(n)
	case "k.as":
		return x.ref(n).(stmt.Column).As(n.T)
	case "cl.where":
		return stmt.NewWhere(x.asExpr(n.L[0]))
	case "cl.having":
		return stmt.NewHaving(x.asExpr(n.L[0]))
	case "cl.and", "cl.or":
		r := x.asExpr(n.L[0])
		switch c := x.ref(n).(type) {
		case stmt.Where:
			if n.K == "cl.and" {
				return c.And(r)
			}
			return c.Or(r)
		case stmt.Having:
			if n.K == "cl.and" {
				return c.And(r)
			}
			return c.Or(r)
		}
	case "t.tab":
		return x.tableOf(n)
	case "t.as":
		t := x.ref(n).(stmt.Table)
		if n.T != "" {
			t = t.As(n.T)
		}
		if n.N == 1 {
			t = t.Only()
		}
		return t
	case "s.agg":
		return agg(n.S, n.T, n.F, n.N)
	case "s.as":
		switch g := x.ref(n).(type) {
		case stmt.Count:
			if n.N > 0 {
				return g.Distinct(n.N == 1)
			}
			return g.As(n.T)
		case stmt.Max:
			return g.As(n.T)
		case stmt.Min:
			return g.As(n.T)
		case stmt.Sum:
			return g.As(n.T)
		}
	case "o.on", "o.and", "o.or", "o.mand", "o.mor":
		return x.onExpr(n)
	case "j.str":
		return joinText(n)
	case "j.bad":
		return n.S
	case "j.val":
		t := x.tableOf(n.L[0])
		cond := x.onExpr(n.L[1]).(stmt.Expression)
		switch n.S {
		case "LEFT JOIN":
			return stmt.NewLeftJoin(t, cond)
		case "RIGHT JOIN":
			return stmt.NewRightJoin(t, cond)
		}
		return stmt.NewInnerJoin(t, cond)
	case "j.type":
		return types.JoinType(n.S)
	case "d.ord", "d.col":
		return x.orderOf(n)
	case "w.with":
		return x.withOf(n)
	case "p.map", "p.smap":
		if n.E != 0 {
			return x.objs[n.E]
		}
		if n.K == "p.smap" {
			m := map[string]interface{}{}
			for _, p := range n.L {
				m[p.L[0].S] = x.ev(p.L[1])
			}
			x.keepSMap(n, m)
			return m
		}
		m := loukoum.Map{}
		for _, p := range n.L {
			m[x.ev(p.L[0])] = x.ev(p.L[1])
		}
		x.keepMap(n, m)
		return m
	case "p.pair":
		return loukoum.Pair(x.ev(n.L[0]), x.ev(n.L[1]))
	case "x.nothing":
		return loukoum.DoNothing()
	case "x.update":
		return loukoum.DoUpdate(x.args(n.L)...)
	case "x.str":
		return n.S
	case "x.nil":
		return nil
	case "t.into":
		return stmt.NewInto(x.tableOf(n.L[0]))
	}
	panic("harness: cannot evaluate " + n.K)
}

// sink is a types.Context of the caller.
type sink struct {
	x   *exec
	buf []byte
	cnt int
	bcn int
	sc  script
	bnd []string
}

func (s *sink) step(where string) {
	s.cnt++
	at := s.cnt
	if where == "sink.bind" {
		s.bcn++
	}
	hook.Pause()
	if s.sc.bind {
		if where != "sink.bind" {
			return
		}
		at = s.bcn
	}
	if s.sc.kind != "" && (s.sc.at == 0 || s.sc.at == at) {
		s.x.fault(s.sc, where)
	}
}

// Write implements types.Context.
func (s *sink) Write(q string) {
	s.step("sink")
	s.buf = append(s.buf, q...)
}

// Bind implements types.Context.
func (s *sink) Bind(v interface{}) {
	s.step("sink.bind")
	c := canon(v)
	s.buf = append(s.buf, bindMark...)
	s.buf = append(s.buf, c...)
	s.buf = append(s.buf, bindMark...)
	s.bnd = append(s.bnd, c)
}

// render renders v into o. On a fault the part the sink received stays in o.Out.
func (x *exec) render(o *Obs, v interface{}, form string, sc script) (args []interface{}, named map[string]interface{}) {
	if form == formSink {
		s := &sink{x: x, sc: sc}
		if x.noFault {
			s.sc = script{}
		}
		defer func() {
			o.Out = string(s.buf)
			o.Args = s.bnd
		}()
		switch b := v.(type) {
		case builder.Builder:
			b.Statement().Write(s)
		case stmt.Statement:
			b.Write(s)
		default:
			panic(fmt.Sprintf("harness: cannot render %T", v))
		}
		return nil, nil
	}
	b := v.(builder.Builder)
	switch form {
	case formQuery:
		q, a := b.Query()
		o.Out, o.raw = q, q
		o.Args = make([]string, len(a))
		for i := range a {
			o.Args[i] = canon(a[i])
		}
		return a, nil
	case formNamed:
		q, m := b.NamedQuery()
		o.Out, o.raw = q, q
		for _, k := range sortedKeys(m) {
			o.Args = append(o.Args, k+"="+canon(m[k]))
		}
		return nil, m
	case formString:
		o.Out = b.String()
	}
	o.raw = o.Out
	o.settle()
	return nil, nil
}

// compose writes several statements to one context that the caller made, and looks at what it has on the way.
func (x *exec) compose(o *Op, ob *Obs) (args []interface{}, named map[string]interface{}) {
	var ctx interface {
		types.Context
		Query() string
	}
	std, nam := &types.StdContext{}, &types.NamedContext{}
	switch o.Form {
	case formQuery:
		ctx = std
	case formNamed:
		ctx = nam
	default:
		ctx = &types.RawContext{}
	}
	type look struct {
		query string
		copy  []byte
		args  []interface{}
		canon []string
	}
	var looks []*look
	for _, a := range o.A {
		switch b := x.slotValue(a.R).(type) {
		case builder.Builder:
			b.Statement().Write(ctx)
		case stmt.Statement:
			b.Write(ctx)
		default:
			panic(fmt.Sprintf("harness: cannot compose %T", b))
		}
		ctx.Write(composeSep)
		l := &look{query: ctx.Query()}
		l.copy = append(l.copy, l.query...)
		if o.Form == formQuery {
			l.args = std.Values()
			for _, v := range l.args {
				l.canon = append(l.canon, canon(v))
			}
		}
		looks = append(looks, l)
	}
	ob.Out = ctx.Query()
	ob.raw = ob.Out
	ob.settle()
	for _, l := range looks {
		if l.query != string(l.copy) {
			ob.Problem = fmt.Sprintf("a query string taken from a context now reads %q instead of %q", l.query, l.copy)
		}
		for i, v := range l.args {
			if c := canon(v); c != l.canon[i] {
				ob.Problem = fmt.Sprintf("argument %d taken from a context is now %q instead of %q", i+1, c, l.canon[i])
			}
		}
	}
	switch o.Form {
	case formQuery:
		args = std.Values()
		for _, v := range args {
			ob.Args = append(ob.Args, canon(v))
		}
	case formNamed:
		named = nam.Values()
		for _, k := range sortedKeys(named) {
			ob.Args = append(ob.Args, k+"="+canon(named[k]))
		}
	}
	return args, named
}

// build calls the builder method of an operation.
func (x *exec) build(o *Op) interface{} {
	if o.K == "frag" {
		return x.fragment(o.A[0])
	}
	var args []interface{}
	switch {
	case o.K == "orderby" || o.K == "with":
	case o.Sp != 0:
		args = x.spread(o)
	default:
		args = x.args(o.A)
	}
	switch o.K {
	case "new.select":
		return loukoum.Select(args...)
	case "new.insert":
		if o.Arg == 1 {
			return builder.NewInsert().Into(args[0])
		}
		return loukoum.Insert(args[0])
	case "new.update":
		return loukoum.Update(args[0])
	case "new.delete":
		if len(args) == 1 && o.N() == 0 {
			return loukoum.Delete(args[0])
		}
		return builder.NewDelete().From(args...)
	}
	cond := func() stmt.Expression {
		if o.A[0].K == "x.nil" {
			return nil
		}
		return stmt.NewExpression(args[0])
	}
	switch b := x.slotValue(o.In).(type) {
	case builder.Select:
		switch o.K {
		case "columns":
			return b.Columns(args...)
		case "distinct":
			return b.Distinct()
		case "distincton":
			return b.DistinctOn(args...)
		case "from":
			return b.From(args...)
		case "join":
			return b.Join(args...)
		case "with":
			return b.With(x.withs(o)...)
		case "where":
			return b.Where(cond())
		case "and":
			return b.And(cond())
		case "or":
			return b.Or(cond())
		case "groupby":
			return b.GroupBy(args...)
		case "having":
			return b.Having(cond())
		case "orderby":
			return b.OrderBy(x.orders(o)...)
		case "limit":
			return b.Limit(count(o.A[0], args[0], true))
		case "offset":
			return b.Offset(count(o.A[0], args[0], false))
		case "suffix":
			if s, ok := args[0].(string); ok && o.A[0].T == "stmt" {
				return b.Suffix(stmt.NewSuffix(s))
			}
			return b.Suffix(args[0])
		case "prefix":
			if s, ok := args[0].(string); ok && o.A[0].T == "stmt" {
				return b.Prefix(stmt.NewPrefix(s))
			}
			return b.Prefix(args[0])
		case "comment":
			return b.Comment(o.A[0].S)
		}
	case builder.Insert:
		switch o.K {
		case "into":
			return b.Into(args[0])
		case "columns":
			return b.Columns(args...)
		case "values":
			return b.Values(args...)
		case "set":
			return b.Set(args...)
		case "onconflict":
			return b.OnConflict(args...)
		case "returning":
			return b.Returning(args...)
		case "comment":
			return b.Comment(o.A[0].S)
		}
	case builder.Update:
		switch o.K {
		case "only":
			return b.Only()
		case "set":
			return b.Set(args...)
		case "using":
			return b.Using(args...)
		case "with":
			return b.With(x.withs(o)...)
		case "where":
			return b.Where(cond())
		case "and":
			return b.And(cond())
		case "or":
			return b.Or(cond())
		case "from":
			return b.From(args[0])
		case "returning":
			return b.Returning(args...)
		case "comment":
			return b.Comment(o.A[0].S)
		}
	case builder.Delete:
		switch o.K {
		case "from":
			return b.From(args...)
		case "using":
			return b.Using(args...)
		case "where":
			return b.Where(cond())
		case "and":
			return b.And(cond())
		case "or":
			return b.Or(cond())
		case "returning":
			return b.Returning(args...)
		case "comment":
			return b.Comment(o.A[0].S)
		}
	}
	panic("harness: no method " + o.K)
}

// count is a limit or offset in one of the types it may be given as.
func count(n *Node, arg interface{}, limit bool) interface{} {
	if n.K != "n.int" {
		return arg
	}
	switch n.T {
	case "int8":
		return int8(n.N)
	case "int16":
		return int16(n.N)
	case "int32":
		return int32(n.N)
	case "int64":
		return int64(n.N)
	case "uint8":
		return uint8(n.N)
	case "uint16":
		return uint16(n.N)
	case "uint32":
		return uint32(n.N)
	case "uint64":
		return uint64(n.N)
	case "string":
		return fmt.Sprint(n.N)
	case "stmt":
		if limit {
			return loukoum.Limit(int64(n.N))
		}
		return loukoum.Offset(int64(n.N))
	}
	return n.N
}

// N is the number that tells variants of an operation apart.
func (o *Op) N() int { return o.Arg }

func (x *exec) fragment(n *Node) interface{} {
	switch {
	case n.K == "b":
		return stmt.NewExpression(x.ev(n))
	case n.K == "v.stenc":
		return stmt.NewExpression(x.ev(n))
	case n.K == "j.str":
		return parseJoin(joinText(n))
	}
	return x.ev(n)
}

// run executes the plan: setup first, then the threads under the scheduler, then the final checks.
func (x *exec) run() {
	p := x.plan
	hook.NewEpoch()
	setZone(p.MapSeed)
	var setup, audit []*Op
	perThread := make([][]*Op, p.Threads)
	for _, o := range p.Ops {
		if o.Th == -2 {
			audit = append(audit, o)
		} else if o.Th < 0 || o.Th >= p.Threads {
			setup = append(setup, o)
		} else {
			perThread[o.Th] = append(perThread[o.Th], o)
		}
	}
	threadsPhase = false
	if p.MapSeed != 0 {
		hook.NewAddrs(hook.Mix(p.MapSeed, 0xadd))
		defer hook.NewAddrs(0)
	}
	x.resSetup = hook.Run(hook.Cfg{MapSeed: p.MapSeed, PoolSeed: p.PoolSeed, StepCap: stepCap}, []func(int){func(int) {
		x.makeBoxes()
		x.thread0(setup, maxThreads)
	}})
	if p.Threads > 0 && !x.resSetup.Deadlock && !x.resSetup.Overrun {
		setThreadsPhase(true)
		bodies := make([]func(int), p.Threads)
		for i := range bodies {
			ops := perThread[i]
			bodies[i] = func(id int) { x.thread0(ops, id) }
		}
		ms := p.MapSeed
		if ms != 0 {
			ms = hook.Mix(ms, 99)
		}
		x.res = hook.Run(hook.Cfg{
			MapSeed: ms, Seed: p.Seed, PoolSeed: p.PoolSeed + 1, Strategy: p.Strategy, P: p.P,
			Changes: p.Changes, Focus: p.Focus, Sync: p.Sync, Switches: p.Switches, StepCap: stepCap,
		}, bodies)
		setThreadsPhase(false)
	}
	if len(audit) > 0 && !x.bad() {
		x.resAudit = hook.Run(hook.Cfg{MapSeed: p.MapSeed, PoolSeed: p.PoolSeed + 2, StepCap: stepCap}, []func(int){func(int) {
			x.thread0(audit, maxThreads)
		}})
	}
}

// bad says that threads were left blocked or running.
func (x *exec) bad() bool {
	return x.resSetup.Deadlock || x.resSetup.Overrun || x.res.Deadlock || x.res.Overrun
}

const stepCap = 20000000

//go:norace
func setThreadsPhase(v bool) { threadsPhase = v }

func (x *exec) thread0(ops []*Op, t int) {
	for i := range ops {
		o := ops[i]
		hook.Op(o.ID)
		if !x.one(o, t) {
			break
		}
	}
}

// one executes an operation and records what the caller saw; false when the thread is ending.
func (x *exec) one(o *Op, t int) (goOn bool) {
	ob := &Obs{Op: o.ID, Th: t, Form: o.Form, Begin: hook.Step()}
	x.cur[t] = ob
	x.nils[t] = false
	x.obs[t] = append(x.obs[t], ob)
	finished := false
	defer func() {
		ob.End = hook.Step()
		x.cur[t] = nil
		ob.done = true
		if !finished {
			if r := recover(); r != nil {
				ob.St = "panic"
				ob.Msg = panicText(r)
				goOn = true
			} else {
				ob.St = "exit" // the goroutine is leaving
			}
		} else {
			goOn = true
		}
		if o.Out > 0 && ob.St != "ok" {
			x.setDead(o.Out)
		}
	}()
	for _, d := range o.deps() {
		if !x.await(d) {
			ob.St = "skip"
			finished = true
			return true
		}
	}
	x.glance()
	x.perform(o, ob, t)
	if ob.St == "" {
		ob.St = "ok"
	}
	finished = true
	return true
}

func panicText(r interface{}) string {
	switch v := r.(type) {
	case injected:
		return v.String()
	case runtime.Error:
		return "runtime error: " + v.Error()
	case error:
		return "error: " + v.Error()
	case string:
		return noAddr(v)
	}
	return fmt.Sprintf("%T", r)
}

// noAddr takes the addresses out of a message that quotes a value.
func noAddr(s string) string {
	if !strings.Contains(s, "0x") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] == '0' && i+2 < len(s) && s[i+1] == 'x' {
			b.WriteString("0x")
			for i += 2; i < len(s) && strings.IndexByte("0123456789abcdef", s[i]) >= 0; i++ {
			}
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

// press is one of many renders of the same.
func (x *exec) press(o *Op, outer *Obs, v interface{}, sc script, t int, out **Obs) {
	r := &Obs{Op: o.ID, Th: t, Form: o.Form, Slot: o.In, St: "exit"}
	*out = r
	x.nils[t] = false
	x.cur[t] = r
	finished := false
	defer func() {
		x.cur[t] = outer
		r.done = true
		if finished {
			return
		}
		if p := recover(); p != nil {
			r.St, r.Msg = "panic", panicText(p)
		}
	}()
	x.render(r, v, o.Form, sc)
	r.St = "ok"
	finished = true
}

func (x *exec) perform(o *Op, ob *Obs, t int) {
	switch o.K {
	case "render":
		ob.Slot = o.In
		v := x.slotValue(o.In)
		sc := parseScript(o.F)
		if o.Arg > 0 && !x.noFault {
			var first *Obs
			for i := 0; i < o.Arg; i++ {
				var r *Obs
				if x.exits || sc.kind == "exit" {
					depth := x.inCB[t]
					x.setSub(t, true)
					hook.Sub(func() { x.press(o, ob, v, sc, t, &r) })
					x.setSub(t, false)
					x.inCB[t] = depth
				} else {
					x.press(o, ob, v, sc, t, &r)
				}
				if first == nil || r.St != first.St || key(r.Out, r.Args) != key(first.Out, first.Args) || len(r.Fired) != len(first.Fired) {
					if len(ob.Repeats) < 50 {
						ob.Repeats = append(ob.Repeats, r)
					}
					first = r
				}
			}
			sc = script{}
		}
		args, named := x.render(ob, v, o.Form, sc)
		if o.Form == formQuery || o.Form == formNamed || o.Form == formString {
			x.retain(o, ob, t, args, named)
		}
	case "write":
		ob.Slot = o.In
		x.render(ob, x.slotValue(o.In), formSink, parseScript(o.F))
	case "compose":
		ob.Slot = o.In
		args, named := x.compose(o, ob)
		x.retain(o, ob, t, args, named)
	case "clobber":
		if c := x.cons[o.Arg]; c != nil {
			if msg := c.check(); msg != "" {
				ob.Problem = msg
			}
			c.mutate()
			x.fired("clobber:" + c.kind)
		}
	case "jump":
		x.jump(o.Arg)
		x.fired("clock-jump")
	case "spoil":
		x.spoil(o, ob)
	default:
		v := x.build(o)
		x.noteContainers(o, ob)
		if o.Out > 0 {
			x.put(o.Out, v)
		}
	}
}

//go:norace
func (x *exec) jump(d int) {
	x.clock += d
	t := x.thread()
	for i, p := range x.timevars {
		if own := x.timeown[i]; p != nil && (own == t || own == maxThreads && t == 0) {
			*p = p.Add(time.Duration(d) * time.Second)
		}
	}
}
