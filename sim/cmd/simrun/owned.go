package main

import (
	"fmt"
	"unsafe"

	"github.com/jackc/pgx/v5/pgtype"
	"github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/parser"
	"github.com/ulule/loukoum/v3/stmt"
)

func parseJoin(s string) stmt.Join { return parser.MustParseJoin(s) }

// room is how much spare capacity a caller-owned slice has: none for some, so that both kinds of caller
// are simulated.
func room(id int) int {
	if id%4 == 0 {
		return 0
	}
	return 3
}

// ownSlice registers a caller-owned slice: what it holds now, spare capacity included, is what it must
// hold whenever the caller looks again.
func ownSlice[T any](x *exec, id int, kind string, s []T, filler func(i int) T) {
	full := s[:cap(s)]
	snap := append([]T(nil), full...)
	c := &container{id: id, kind: kind}
	c.check = func() string {
		for i := range full {
			if !sameWords(&full[i], &snap[i]) {
				where := "element"
				if i >= len(s) {
					where = "spare capacity at"
				}
				return fmt.Sprintf("the caller's %s was written: %s %d holds %+v instead of %+v", kind, where, i, full[i], snap[i])
			}
		}
		return ""
	}
	c.mutate = func() {
		for i := range full {
			full[i] = filler(i)
			snap[i] = full[i]
		}
	}
	x.cons[id] = c
}

// sameWords compares two variables word by word, without following pointers.
func sameWords[T any](a, b *T) bool {
	n := int(unsafe.Sizeof(*a))
	if n%8 == 0 {
		// The race detector remembers few accesses to a word: it should be read once.
		x := unsafe.Slice((*uint64)(unsafe.Pointer(a)), n/8)
		y := unsafe.Slice((*uint64)(unsafe.Pointer(b)), n/8)
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	}
	x := unsafe.Slice((*byte)(unsafe.Pointer(a)), n)
	y := unsafe.Slice((*byte)(unsafe.Pointer(b)), n)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func sameIface(a, b interface{}) bool { return sameWords(&a, &b) }

func grow[T any](id, n int, filler func(i int) T) []T {
	s := make([]T, n, n+room(id))
	full := s[:cap(s)]
	for i := n; i < len(full); i++ {
		full[i] = filler(i)
	}
	return s
}

func fillAny(i int) interface{} { return fmt.Sprintf("clobbered%d", i) }
func fillCol(i int) stmt.Column { return loukoum.Column(fmt.Sprintf("clobbered%d", i)) }
func fillStr(i int) string      { return fmt.Sprintf("clobbered%d", i) }
func fillInt(i int) int         { return 900000 + i }
func fillSel(i int) stmt.SelectExpression {
	return loukoum.Raw(fmt.Sprintf("clobbered%d", i))
}
func fillExpr(i int) stmt.Expression { return loukoum.Raw(fmt.Sprintf("clobbered%d", i)) }
func fillOrder(i int) stmt.Order     { return loukoum.Order(fmt.Sprintf("clobbered%d", i)) }
func fillWith(i int) stmt.WithQuery {
	return loukoum.With(fmt.Sprintf("clobbered%d", i), loukoum.Raw("clobbered"))
}

// container builds the caller-owned slice of a node.
func (x *exec) container(n *Node) interface{} {
	if n.E != 0 {
		return x.objs[n.E]
	}
	switch n.K {
	case "c.cols":
		s := grow(n.ID, len(n.L), fillCol)
		for i, c := range n.L {
			s[i] = x.column(c)
		}
		ownSlice(x, n.ID, "[]stmt.Column", s, fillCol)
		return s
	case "c.strs":
		s := grow(n.ID, len(n.L), fillStr)
		for i, c := range n.L {
			s[i] = c.S
		}
		ownSlice(x, n.ID, "[]string", s, fillStr)
		return s
	case "c.strings":
		s := grow(n.ID, len(n.L), fillStr)
		for i, c := range n.L {
			s[i] = c.S
		}
		ownSlice(x, n.ID, "[]string", s, fillStr)
		return s
	case "c.ints":
		s := grow(n.ID, len(n.L), fillInt)
		for i, c := range n.L {
			s[i] = c.N
		}
		ownSlice(x, n.ID, "[]int", s, fillInt)
		return s
	case "c.nums":
		return ownList(x, n)
	case "c.sels":
		s := grow(n.ID, len(n.L), fillSel)
		for i, c := range n.L {
			s[i] = x.ev(c).(stmt.SelectExpression)
		}
		ownSlice(x, n.ID, "[]stmt.SelectExpression", s, fillSel)
		return s
	case "c.list":
		s := grow(n.ID, len(n.L), fillAny)
		for i, c := range n.L {
			s[i] = x.ev(c)
		}
		ownSlice(x, n.ID, "[]interface{}", s, fillAny)
		return s
	case "c.exprs":
		s := grow(n.ID, len(n.L), fillExpr)
		for i, c := range n.L {
			s[i] = x.asExpr(c)
		}
		ownSlice(x, n.ID, "[]stmt.Expression", s, fillExpr)
		return s
	case "c.withs":
		s := grow(n.ID, len(n.L), fillWith)
		for i, c := range n.L {
			s[i] = x.withOf(c)
		}
		ownSlice(x, n.ID, "[]stmt.WithQuery", s, fillWith)
		return s
	case "c.orders":
		s := grow(n.ID, len(n.L), fillOrder)
		for i, c := range n.L {
			s[i] = x.orderOf(c)
		}
		ownSlice(x, n.ID, "[]stmt.Order", s, fillOrder)
		return s
	case "p.map", "p.smap":
		return x.any(n)
	case "c.rows":
		switch n.T {
		case "string":
			return ownRows(x, n, "string", func(c *Node) string { v, _ := plain(c); return v.(string) }, fillStr)
		case "int":
			return ownRows(x, n, "int", func(c *Node) int { return c.N }, fillInt)
		case "int64":
			return ownRows(x, n, "int64", func(c *Node) int64 { return int64(c.N) }, func(i int) int64 { return 900000 + int64(i) })
		case "bool":
			return ownRows(x, n, "bool", func(c *Node) bool { v, _ := plain(c); return v.(bool) }, func(i int) bool { return i%2 == 0 })
		case "expr":
			return ownRows(x, n, "stmt.Expression", x.asExpr, fillExpr)
		}
		s := make([][]interface{}, len(n.L))
		for i, r := range n.L {
			row := grow(r.ID, len(r.L), fillAny)
			for j, c := range r.L {
				row[j] = x.ev(c)
			}
			ownSlice(x, r.ID, "[]interface{} row", row, fillAny)
			s[i] = row
		}
		ownSlice(x, n.ID, "[][]interface{}", s, func(i int) []interface{} { return []interface{}{fillAny(i)} })
		return s
	}
	panic("harness: no container " + n.K)
}

// ownList builds a caller-owned list of one type.
func ownList(x *exec, n *Node) interface{} {
	switch l := listOf(n).(type) {
	case []int:
		return ownNums(x, n, l)
	case []uint:
		return ownNums(x, n, l)
	case []int8:
		return ownNums(x, n, l)
	case []int16:
		return ownNums(x, n, l)
	case []uint16:
		return ownNums(x, n, l)
	case []int32:
		return ownNums(x, n, l)
	case []uint32:
		return ownNums(x, n, l)
	case []int64:
		return ownNums(x, n, l)
	case []uint64:
		return ownNums(x, n, l)
	case []float32:
		return ownNums(x, n, l)
	case []float64:
		return ownNums(x, n, l)
	case []bool:
		return ownValues(x, n, l, func(i int) bool { return (n.N+i)%3 != 0 })
	case [][]byte:
		return ownValues(x, n, l, func(i int) []byte { return []byte(fillStr(i)) })
	}
	panic("harness: no list " + n.T)
}

func ownNums[T int | uint | int8 | int16 | uint16 | int32 | uint32 | int64 | uint64 | float32 | float64](x *exec, n *Node, l []T) []T {
	return ownValues(x, n, l, func(i int) T { return T(101 + i%20) })
}

func ownValues[T any](x *exec, n *Node, l []T, filler func(int) T) []T {
	s := grow(n.ID, len(l), filler)
	copy(s, l)
	ownSlice(x, n.ID, fmt.Sprintf("%T", s), s, filler)
	return s
}

// ownRows builds caller-owned rows of one type.
func ownRows[T any](x *exec, n *Node, name string, cell func(*Node) T, filler func(int) T) [][]T {
	s := make([][]T, len(n.L))
	for i, r := range n.L {
		row := grow(r.ID, len(r.L), filler)
		for j, c := range r.L {
			row[j] = cell(c)
		}
		ownSlice(x, r.ID, "[]"+name+" row", row, filler)
		s[i] = row
	}
	ownSlice(x, n.ID, "[][]"+name, s, func(i int) []T { return []T{filler(i)} })
	return s
}

// spread builds the caller-owned argument slice that is passed as args... .
func (x *exec) spread(o *Op) []interface{} {
	s := grow(o.Sp, len(o.A), fillAny)
	for i, n := range o.A {
		s[i] = x.ev(n)
	}
	ownSlice(x, o.Sp, "variadic []interface{}", s, fillAny)
	return s
}

func (x *exec) withs(o *Op) []stmt.WithQuery {
	if len(o.A) == 1 && o.A[0].K == "c.withs" {
		return x.container(o.A[0]).([]stmt.WithQuery)
	}
	out := make([]stmt.WithQuery, len(o.A))
	for i, n := range o.A {
		out[i] = x.withOf(n)
	}
	return out
}

func (x *exec) orders(o *Op) []stmt.Order {
	if len(o.A) == 1 && o.A[0].K == "c.orders" {
		return x.container(o.A[0]).([]stmt.Order)
	}
	out := make([]stmt.Order, len(o.A))
	for i, n := range o.A {
		out[i] = x.orderOf(n)
	}
	return out
}

func (x *exec) keepMap(n *Node, m loukoum.Map) {
	if n.ID == 0 {
		return
	}
	snap := loukoum.Map{}
	for k, v := range m {
		snap[k] = v
	}
	c := &container{id: n.ID, kind: "loukoum.Map"}
	c.check = func() string {
		same := len(m) == len(snap)
		for k, v := range snap {
			if w, ok := m[k]; !ok || !sameIface(v, w) {
				same = false
			}
		}
		if !same {
			return "the caller's loukoum.Map was written"
		}
		return ""
	}
	c.mutate = func() {
		for k := range snap {
			delete(m, k)
		}
		var v interface{} = "clobbered"
		m["clobbered"] = v
		snap = loukoum.Map{"clobbered": v}
	}
	x.cons[n.ID] = c
}

func (x *exec) keepSMap(n *Node, m map[string]interface{}) {
	if n.ID == 0 {
		return
	}
	snap := map[string]interface{}{}
	for k, v := range m {
		snap[k] = v
	}
	c := &container{id: n.ID, kind: "map[string]interface{}"}
	c.check = func() string {
		same := len(m) == len(snap)
		for k, v := range snap {
			if w, ok := m[k]; !ok || !sameIface(v, w) {
				same = false
			}
		}
		if !same {
			return "the caller's map was written"
		}
		return ""
	}
	c.mutate = func() {
		for k := range snap {
			delete(m, k)
		}
		var v interface{} = "clobbered"
		m["clobbered"] = v
		snap = map[string]interface{}{"clobbered": v}
	}
	x.cons[n.ID] = c
}

// isContainer says whether the node is a slice or map of the caller.
func isContainer(n *Node) bool {
	switch n.K {
	case "c.cols", "c.strs", "c.strings", "c.ints", "c.nums", "c.sels", "c.list", "c.exprs", "c.rows", "c.row", "c.withs", "c.orders", "p.map", "p.smap":
		return n.ID != 0
	}
	return false
}

// containerIDs lists the containers of a call. Those that several calls are given count with all, and not
// with those that are of this call only.
func containerIDs(o *Op, all bool) []int {
	var ids []int
	if o.Sp != 0 {
		ids = append(ids, o.Sp)
	}
	var visit func(n *Node)
	visit = func(n *Node) {
		switch {
		case n.E == 0 && isContainer(n):
			ids = append(ids, n.ID)
		case n.E != 0 && isContainer(n):
			if !all {
				return
			}
			ids = append(ids, n.E)
		}
		for _, c := range n.L {
			visit(c)
		}
	}
	for _, a := range o.A {
		visit(a)
	}
	return ids
}

func (x *exec) noteContainers(o *Op, ob *Obs) {
	for _, id := range containerIDs(o, true) {
		if c := x.cons[id]; c != nil {
			if msg := c.check(); msg != "" {
				ob.Problem = msg
			}
		}
	}
}

// glance looks at the containers that several calls are given, which the caller leaves as they are. Reading
// them is the caller's good right at any time, also while calls that were given them are running.
func (x *exec) glance() {
	if len(x.boxed) == 0 {
		return
	}
	o := x.current()
	if o == nil || o.Problem != "" {
		return
	}
	for _, id := range x.boxed {
		if c := x.cons[id]; c != nil {
			if msg := c.check(); msg != "" {
				o.Problem = msg
			}
		}
	}
}

// lent is a value that the caller gives as one argument, or that a valuer gives: the library may keep it, but
// it remains the caller's, together with the room behind it.
func (x *exec) lent(v interface{}) interface{} {
	switch s := v.(type) {
	case []byte:
		return lend(x, "[]byte", s, []byte("~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~"))
	case []string:
		return lend(x, "[]string", s, []string{"~", "~", "~"})
	case []int64:
		return lend(x, "[]int64", s, []int64{-9, -9, -9})
	case pgtype.FlatArray[string]:
		return pgtype.FlatArray[string](lend(x, "pgtype.FlatArray", s, []string{"~", "~", "~"}))
	case pgtype.FlatArray[int64]:
		return pgtype.FlatArray[int64](lend(x, "pgtype.FlatArray", s, []int64{-9, -9, -9}))
	case map[string]interface{}:
		snap := canon(s)
		x.lendCheck(func() string {
			if now := canon(s); now != snap {
				return "the map[string]interface{} that the caller bound was written: " + now + " instead of " + snap
			}
			return ""
		})
	case map[string]string:
		snap := map[string]string{}
		for k, v := range s {
			snap[k] = v
		}
		x.lendCheck(func() string {
			same := len(s) == len(snap)
			for k, v := range snap {
				w, ok := s[k]
				same = same && ok && v == w
			}
			if !same {
				return "the map[string]string that the caller bound was written"
			}
			return ""
		})
	}
	return v
}

func lend[T comparable](x *exec, kind string, s, room []T) []T {
	if s == nil {
		return nil
	}
	full := append(append(make([]T, 0, len(s)+len(room)), s...), room...)
	out := full[:len(s)]
	if len(s)%4 == 3 {
		out = full[:len(s):len(s)]
	}
	snap := append([]T(nil), full...)
	x.lendCheck(func() string {
		for i := range full {
			if full[i] != snap[i] {
				where := "element"
				if i >= len(out) {
					where = "the room behind it at"
				}
				return fmt.Sprintf("the %s that the caller bound was written: %s %d holds %+v instead of %+v", kind, where, i, full[i], snap[i])
			}
		}
		return ""
	})
	return out
}

//go:norace
func (x *exec) lendCheck(f func() string) {
	if x.nlent < len(x.lends) {
		x.lends[x.nlent] = f
		x.nlent++
	}
}

// finalContainers looks at every caller-owned container once more.
func (x *exec) finalContainers() string {
	for _, f := range x.lends[:x.nlent] {
		if msg := f(); msg != "" {
			return msg
		}
	}
	for _, c := range x.cons {
		if c != nil {
			if msg := c.check(); msg != "" {
				return msg
			}
		}
	}
	return ""
}

// retain keeps a result as a caller would.
func (x *exec) retain(o *Op, ob *Obs, t int, args []interface{}, named map[string]interface{}) {
	r := &retained{op: o.ID, th: t, query: ob.raw, args: args, named: named, canon: append([]string(nil), ob.Args...)}
	r.qcopy = append([]byte(nil), ob.raw...)
	r.isMap = o.Form == formNamed
	x.rets[o.ID] = r
}

// look reads a kept result again.
func (r *retained) look() string {
	if r.query != string(r.qcopy) {
		return fmt.Sprintf("a query string returned earlier now reads %q instead of %q", r.query, r.qcopy)
	}
	if r.spoil {
		return ""
	}
	var now []string
	if r.isMap {
		for _, k := range sortedKeys(r.named) {
			now = append(now, k+"="+canon(r.named[k]))
		}
	} else {
		for _, a := range r.args {
			now = append(now, canon(a))
		}
	}
	if len(now) != len(r.canon) {
		return fmt.Sprintf("arguments returned earlier are now %d instead of %d", len(now), len(r.canon))
	}
	for i := range now {
		if now[i] != r.canon[i] {
			return fmt.Sprintf("argument %d returned earlier is now %q instead of %q", i+1, now[i], r.canon[i])
		}
	}
	return ""
}

// spoil overwrites a kept result: it belongs to the caller.
func (x *exec) spoil(o *Op, ob *Obs) {
	r := x.rets[o.Arg]
	if r == nil {
		ob.St = "skip"
		return
	}
	if msg := r.look(); msg != "" {
		ob.Problem = msg
	}
	r.spoil = true
	for i := range r.args {
		r.args[i] = fmt.Sprintf("spoiled%d", i)
	}
	if cap(r.args) > len(r.args) {
		full := r.args[:cap(r.args)]
		for i := len(r.args); i < len(full); i++ {
			full[i] = "spoiled-spare"
		}
	}
	if r.named != nil {
		for _, k := range sortedKeys(r.named) {
			r.named[k] = "spoiled"
		}
		delete(r.named, "arg_1")
		r.named["spoiled"] = "spoiled"
		r.named["arg_999"] = "spoiled"
	}
	x.fired("spoil:" + map[bool]string{true: "map", false: "slice"}[r.isMap])
}

func (x *exec) finalRetained() string {
	for _, r := range x.rets {
		if r != nil {
			if msg := r.look(); msg != "" {
				return fmt.Sprintf("op %d: %s", r.op, msg)
			}
		}
	}
	return ""
}
