package main

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/jackc/pgx/v5/pgtype"
	"github.com/ulule/loukoum/v3/stmt"

	"verif.local/sim/hook"
	five "verif.local/sim/kin/five"
	four "verif.local/sim/kin/four"
	one "verif.local/sim/kin/one"
	six "verif.local/sim/kin/six"
	three "verif.local/sim/kin/three"
	two "verif.local/sim/kin/two"
)

const baseTime = 1700000000

// injected is what simulated failures panic with.
type injected struct{ what string }

func (i injected) String() string { return "injected:" + i.what }

var errInjected = errors.New("injected failure")

// custom is an error type of the caller.
type custom struct{ inner error }

func (c *custom) Error() string { return "injected: " + c.inner.Error() }
func (c *custom) Unwrap() error { return c.inner }

// errKinds are the errors that failing code of the caller returns.
var errKinds = []error{
	errInjected, driver.ErrSkip, driver.ErrBadConn, driver.ErrRemoveArgument, io.EOF, sql.ErrNoRows, context.Canceled,
	context.DeadlineExceeded, os.ErrNotExist, fmt.Errorf("injected: %w", driver.ErrSkip), &custom{sql.ErrNoRows}, (*custom)(nil), errors.New(""),
}

func errOf(n int) error {
	if n < 0 || n >= len(errKinds) {
		n = 0
	}
	return errKinds[n]
}

// throw panics as failing code of the caller may: with a value of its own, with an error, with a text, or
// by a mistake that the runtime detects.
func throw(n int, where string) {
	switch {
	case n == 0 || n == 11:
		panic(injected{where})
	case n%4 == 1:
		panic("injected:" + where)
	case n%4 == 2:
		var m map[string]int
		m[where] = 1
	case n%4 == 3:
		panic(fmt.Errorf("injected: %w", errOf(n)))
	}
	panic(errOf(n))
}

// script is the parsed fault of a callback: what happens at its k-th consultation.
type script struct {
	kind string
	arg  int
	at   int  // 0: every time
	bind bool // counts bound values only
}

// parseScript reads "kind[:arg][@k]".
func parseScript(s string) script {
	var sc script
	if i := strings.IndexByte(s, '@'); i >= 0 {
		sc.bind = strings.HasPrefix(s[i+1:], "b")
		sc.at, _ = strconv.Atoi(strings.TrimPrefix(s[i+1:], "b"))
		s = s[:i]
	}
	if i := strings.IndexByte(s, ':'); i >= 0 {
		sc.arg, _ = strconv.Atoi(s[i+1:])
		s = s[:i]
	}
	sc.kind = s
	return sc
}

// calls counts consultations of a callback, per thread, without ordering threads for the race detector.
type calls struct {
	n [maxThreads + 1]int
}

const maxThreads = 66

//go:norace
func (c *calls) inc() int {
	t := hook.Current()
	if t < 0 || t >= maxThreads {
		t = maxThreads
	}
	c.n[t]++
	total := 0
	for i := range c.n {
		total += c.n[i]
	}
	return total
}

//go:norace
func (c *calls) total() int {
	total := 0
	for i := range c.n {
		total += c.n[i]
	}
	return total
}

// callback is the part that every simulated user callback shares.
type callback struct {
	x    *exec
	node *Node
	sc   script
	cnt  calls
	uses map[int]*Node // by operation, when several calls are given the object
}

// at is the use of the object in the running operation.
//
//go:norace
func (c *callback) at() *Node {
	if c.uses != nil && c.x != nil {
		if o := c.x.cur[c.x.thread()]; o != nil {
			if n := c.uses[o.Op]; n != nil {
				return n
			}
		}
	}
	return c.node
}

// enter is run at each consultation: it logs, lets other threads run, and injects the scripted fault. It
// reports whether the callback has to fail with an error.
func (c *callback) enter(what string) (fail bool) {
	k := c.cnt.inc()
	if c.x == nil {
		return false
	}
	if what != "description" {
		c.x.consulted(c.at().ID, what)
	}
	c.x.glance()
	hook.Pause()
	c.x.glance()
	if c.sc.kind == "" || (c.sc.at != 0 && c.sc.at != k) {
		return false
	}
	return c.x.fault(c.sc, what)
}

// fault carries a scripted fault out.
func (x *exec) fault(sc script, where string) bool {
	switch sc.kind {
	case "err":
		x.fired("err:" + where)
		return true
	case "panic":
		x.fired("panic:" + where)
		throw(sc.arg, where)
	case "exit":
		if x.canExit() {
			x.fired("exit:" + where)
			if sc.arg == 1 && (where == "valuer" || where == "encoder" || strings.HasPrefix(where, "sink")) {
				x.setNil(true)
				panic(nil) // to whoever recovers, it is as if nothing had happened
			}
			runtime.Goexit()
		}
		x.fired("panic:" + where)
		panic(injected{where})
	case "stall":
		x.fired("stall:" + where)
		hook.Stall()
	case "reent", "reents", "reentn":
		x.fired("reenter:" + where)
		x.reenter(sc.arg, map[string]string{"reent": formQuery, "reents": formString, "reentn": formNamed}[sc.kind])
	}
	return false
}

// valuer is a driver.Valuer of the caller.
type valuer struct {
	callback
	out  interface{}
	vary bool
}

// Value implements driver.Valuer.
func (v *valuer) Value() (driver.Value, error) {
	if v.enter("valuer") {
		if v.sc.arg%2 == 1 {
			return v.out, errOf(v.sc.arg)
		}
		return nil, errOf(v.sc.arg)
	}
	if v.vary && v.x != nil {
		return v.x.varied(v.at()), nil
	}
	return v.out, nil
}

type encStr struct{ callback }

func (e *encStr) String() string {
	e.enter("encoder")
	return e.read().(string)
}

type encInt struct{ callback }

func (e *encInt) Int64() int64 {
	e.enter("encoder")
	return e.read().(int64)
}

type encBool struct{ callback }

func (e *encBool) Bool() bool {
	e.enter("encoder")
	return e.read().(bool)
}

type encTime struct{ callback }

func (e *encTime) Time() time.Time {
	e.enter("encoder")
	return e.read().(time.Time)
}

// the wrapper types below are valuers and encoders of other shapes than a pointer to a struct.
type valVal struct{ V *valuer } // a value

func (v valVal) Value() (driver.Value, error) { return v.V.Value() }

type valSlice struct { // a value that cannot be compared
	V *valuer
	L []int
}

func (v valSlice) Value() (driver.Value, error) { return v.V.Value() }

type valFunc func() (*valuer, driver.Value, error) // a function

func (v valFunc) Value() (driver.Value, error) {
	_, out, err := v()
	return out, err
}

type valMap map[string]*valuer // a map

func (v valMap) Value() (driver.Value, error) { return v["v"].Value() }

type valEnc struct{ V *valuer } // also an encoder, of several kinds

func (v *valEnc) Value() (driver.Value, error) { return v.V.Value() }
func (v *valEnc) String() string               { return "not the value" }
func (v *valEnc) Int64() int64                 { return -1 }
func (v *valEnc) Bool() bool                   { return true }
func (v *valEnc) Time() time.Time              { return time.Unix(1, 0).UTC() }
func (v *valEnc) Statement() stmt.Statement    { return stmt.NewRaw("not the value") }
func (v *valEnc) Error() string                { return "not the value" }
func (v *valEnc) GoString() string             { return "not the value" }
func (v *valEnc) MarshalText() ([]byte, error) { return []byte("not the value"), nil }
func (v *valEnc) MarshalJSON() ([]byte, error) { return []byte(`"not the value"`), nil }
func (v *valEnc) MarshalBinary() ([]byte, error) {
	return []byte("not the value"), nil
}
func (v *valEnc) Format(to fmt.State, verb rune) { _, _ = to.Write([]byte("not the value")) }
func (v *valEnc) IsZero() bool                   { return true }
func (v *valEnc) IsNull() bool                   { return true }
func (v *valEnc) IsEmpty() bool                  { return true }
func (v *valEnc) Scan(interface{}) error         { return nil }

type valEmbed struct{ *valuer } // by what it embeds

type valTime struct { // with methods of its own besides
	time.Time
	V *valuer
}

func (v valTime) Value() (driver.Value, error) { return v.V.Value() }

// The types below are of the named basic kinds that enumerations and identifiers are of. Their values say
// which of the registered objects stands behind them.
type valName string

func (v valName) Value() (driver.Value, error) {
	return registered(number(string(v))).(*valuer).Value()
}

type valNum int64 // also prints itself

func (v valNum) Value() (driver.Value, error) { return registered(int(v)).(*valuer).Value() }
func (v valNum) String() string               { return "not the value" }

type encName string

func (e encName) String() string { return registered(number(string(e))).(*encStr).String() }

type encBytes []byte

func (e encBytes) String() string { return registered(number(string(e))).(*encStr).String() }

type encFunc func() *encStr

func (e encFunc) String() string { return e().String() }

type encMap map[string]*encStr

func (e encMap) String() string { return e["e"].String() }

type encNum int

func (e encNum) Int64() int64 { return registered(int(e)).(*encInt).Int64() }

type encList []*encInt

func (e encList) Int64() int64 { return e[0].Int64() }

type encEnum int

func (e encEnum) Int64() int64   { return registered(int(e)).(*encMulti).Int64() }
func (e encEnum) String() string { return registered(int(e)).(*encMulti).String() }

type encFlag string

func (e encFlag) Bool() bool { return registered(number(string(e))).(*encBool).Bool() }

func init() {
	one.Ask = func(k int) (interface{}, error) { return registered(k).(*valuer).Value() }
	two.Ask = func(k int) string { return registered(k).(*encStr).String() }
	three.Ask = func(k int) int64 { return registered(k).(*encInt).Int64() }
	four.Ask = func(k int) int64 { return registered(k).(*encMulti).Int64() }
	four.AskText = func(k int) string { return registered(k).(*encMulti).String() }
	five.Ask = func(k int) bool { return registered(k).(*encBTS).Bool() }
	five.AskTime = func(k int) time.Time { return registered(k).(*encBTS).Time() }
	five.AskText = func(k int) string { return registered(k).(*encBTS).String() }
	six.Ask = func(k int) time.Time { return registered(k).(*encTS).Time() }
	six.AskText = func(k int) string { return registered(k).(*encTS).String() }
}

var registry [8192]interface{}

// regKey is the number of a node's object in the registry, 0 if it has none.
func regKey(n *Node) int {
	k := n.ID
	if n.E != 0 {
		k = n.E
	}
	if k < 0 || k >= len(registry) {
		return 0
	}
	return k
}

//go:norace
func register(k int, v interface{}) { registry[k] = v }

//go:norace
func registered(k int) interface{} { return registry[k] }

func number(s string) int {
	k, _ := strconv.Atoi(s[strings.IndexByte(s, '#')+1:])
	return k
}

// dressed gives an encoder the shape that the node asks for.
func dressed(n *Node, e interface{}) interface{} {
	k := regKey(n)
	if n.S == "" || k == 0 {
		return e
	}
	if n.S == "zero" {
		if z, ok := zeroOf(n, k, e); ok {
			return z
		}
		return e
	}
	switch a := e.(type) {
	case *encStr:
		switch n.S {
		case "func":
			return encFunc(func() *encStr { return a })
		case "map":
			return encMap{"e": a}
		}
		register(k, a)
		switch n.S {
		case "name":
			return encName("name#" + strconv.Itoa(k))
		case "bytes":
			return encBytes("bytes#" + strconv.Itoa(k))
		case "kin":
			return two.Code(k)
		}
	case *encInt:
		if n.S == "list" {
			return encList{a}
		}
		register(k, a)
		switch n.S {
		case "num":
			return encNum(k)
		case "kin":
			return three.Code(k)
		}
	case *encMulti:
		register(k, a)
		if n.S == "kin" {
			return four.Code(k)
		}
		return encEnum(k)
	case *encBTS:
		register(k, a)
		return five.Code(k)
	case *encTS:
		register(k, a)
		return six.Code(k)
	case *encBool:
		register(k, a)
		return encFlag("flag#" + strconv.Itoa(k))
	}
	return e
}

// encShapes are the shapes of each kind of encoder.
func encShapes(kind string) []string {
	switch kind {
	case "v.enc.str":
		return []string{"name", "bytes", "func", "map", "kin", "zero", "zero"}
	case "v.enc.int":
		return []string{"list", "num", "kin", "zero"}
	case "v.enc.multi":
		return []string{"num", "kin"}
	case "v.enc.bool":
		return []string{"num", "zero"}
	case "v.enc.time":
		return []string{"", "zero"}
	case "v.enc.bts", "v.enc.ts":
		return []string{"kin"}
	}
	return []string{""}
}

// nested is the chain of valuers that a valuer gives, one after the other; the last one gives the value, or fails.
func nested(x *exec, n *Node) interface{} {
	deep, _ := strconv.Atoi(strings.TrimLeft(n.T, "nest-r"))
	inner := &valuer{callback: callback{x: x, node: &Node{ID: 0}}, out: x.lent(valuerOut(n))}
	if strings.HasPrefix(n.T, "nest-err") {
		inner.sc = script{kind: "err", arg: n.N % len(errKinds)}
	}
	var out interface{} = inner
	for i := 1; i < deep; i++ {
		v := &valuer{callback: callback{x: x, node: &Node{ID: 0}}, out: out}
		out = wrapped(&Node{S: chainShapes[(n.N+i)%len(chainShapes)]}, v)
	}
	return out
}

var chainShapes = []string{"", "val", "func", "", "slice", "map", "enc"}

// wrapped gives a valuer the shape that the node asks for.
func wrapped(n *Node, v *valuer) interface{} {
	switch n.S {
	case "val":
		return valVal{v}
	case "slice":
		return valSlice{v, []int{n.N}}
	case "func":
		return valFunc(func() (*valuer, driver.Value, error) {
			out, err := v.Value()
			return v, out, err
		})
	case "map":
		return valMap{"v": v}
	case "enc":
		return &valEnc{v}
	case "embed":
		return valEmbed{v}
	case "time":
		return valTime{time.Unix(baseTime, 0).UTC(), v}
	}
	if k := regKey(n); k != 0 {
		if n.S == "zero" {
			if v != nil {
				if z, ok := zeroOf(n, k, v); ok {
					return z
				}
			}
			return v
		}
		if v != nil && n.S != "" {
			register(k, v)
		}
		switch n.S {
		case "name":
			return valName("name#" + strconv.Itoa(k))
		case "num":
			return valNum(k)
		case "kin":
			return one.Code(k)
		}
	}
	return v
}

// unwrapped is the valuer inside.
func unwrapped(v interface{}) *valuer {
	switch a := v.(type) {
	case *valuer:
		return a
	case valVal:
		return a.V
	case valSlice:
		return a.V
	case valMap:
		return a["v"]
	case *valEnc:
		if a != nil {
			return a.V
		}
	case valEmbed:
		return a.valuer
	case valTime:
		return a.V
	case valName:
		v, _ := registered(number(string(a))).(*valuer)
		return v
	case valNum:
		v, _ := registered(int(a)).(*valuer)
		return v
	case one.Code:
		v, _ := registered(int(a)).(*valuer)
		return v
	}
	return nil
}

// encAll, encBTS and encTS implement several encoder interfaces; the first of integer, boolean, time and
// text counts.
type encAll struct{ callback }

func (e *encAll) Int64() int64 {
	e.enter("encoder")
	return e.read().(int64)
}
func (e *encAll) Bool() bool      { e.enter("encoder.bool"); return true }
func (e *encAll) Time() time.Time { e.enter("encoder.time"); return time.Time{} }
func (e *encAll) String() string  { e.enter("encoder.string"); return "all" }

type encBTS struct{ callback }

func (e *encBTS) Bool() bool {
	e.enter("encoder")
	return e.read().(bool)
}
func (e *encBTS) Time() time.Time { e.enter("encoder.time"); return time.Time{} }
func (e *encBTS) String() string  { e.enter("encoder.string"); return "bts" }

type encTS struct{ callback }

func (e *encTS) Time() time.Time {
	e.enter("encoder")
	return e.read().(time.Time)
}
func (e *encTS) String() string { e.enter("encoder.string"); return "ts" }

// What else a type of its kind may have; nothing of it is to be asked.
func (e *encTS) Error() string                { return "not the value" }
func (e *encTS) GoString() string             { return "not the value" }
func (e *encTS) MarshalText() ([]byte, error) { return []byte("not the value"), nil }
func (e *encTS) MarshalJSON() ([]byte, error) { return []byte(`"not the value"`), nil }
func (e *encTS) IsZero() bool                 { return true }
func (e *encTS) IsNull() bool                 { return true }
func (e *encTS) IsEmpty() bool                { return true }

// encVal is an encoder that is not a pointer.
type encVal struct{ C *callback }

func (e encVal) String() string {
	e.C.enter("encoder")
	return e.C.read().(string)
}

// What else a type of its kind may have; nothing of it is to be asked.
func (e encVal) Error() string                { return "not the value" }
func (e encVal) GoString() string             { return "not the value" }
func (e encVal) MarshalText() ([]byte, error) { return []byte("not the value"), nil }
func (e encVal) MarshalJSON() ([]byte, error) { return []byte(`"not the value"`), nil }
func (e encVal) IsZero() bool                 { return true }
func (e encVal) IsNull() bool                 { return true }
func (e encVal) IsEmpty() bool                { return true }

// encMulti implements several encoder interfaces at once.
type encMulti struct{ callback }

func (e *encMulti) Int64() int64 {
	e.enter("encoder")
	return e.read().(int64)
}

func (e *encMulti) String() string {
	e.enter("encoder.string")
	return "multi"
}

// What else a type of its kind may have; nothing of it is to be asked.
func (e *encMulti) Error() string                { return "not the value" }
func (e *encMulti) GoString() string             { return "not the value" }
func (e *encMulti) MarshalText() ([]byte, error) { return []byte("not the value"), nil }
func (e *encMulti) MarshalJSON() ([]byte, error) { return []byte(`"not the value"`), nil }
func (e *encMulti) IsZero() bool                 { return true }
func (e *encMulti) IsNull() bool                 { return true }
func (e *encMulti) IsEmpty() bool                { return true }

type encStmt struct {
	callback
	expr stmt.Statement
}

func (e *encStmt) Statement() stmt.Statement {
	e.enter("encoder")
	return e.expr
}

// reading gives the value number k of an encoder: its content moves with every consultation ("tick") and
// with the simulated clock.
func reading(n *Node, k int, clock int) interface{} {
	moved := 0
	if strings.HasPrefix(n.F, "tick") {
		moved = 100000 * k
	}
	if n.T == "zero" && k <= 1 {
		switch n.K {
		case "v.enc.str", "v.enc.val":
			return ""
		case "v.enc.int", "v.enc.multi", "v.enc.all":
			return int64(0)
		case "v.enc.bool", "v.enc.bts":
			return false
		case "v.enc.time", "v.enc.ts":
			return time.Time{}
		}
	}
	switch n.K {
	case "v.enc.str", "v.enc.val":
		return "e" + strconv.Itoa(n.N+moved)
	case "v.enc.int", "v.enc.multi", "v.enc.all":
		return int64(n.N + moved)
	case "v.enc.bool", "v.enc.bts":
		return (n.N+k)%2 == 1
	case "v.enc.time", "v.enc.ts":
		return time.Unix(int64(baseTime+n.N+moved+clock), 0).UTC()
	}
	return nil
}

func (c *callback) read() interface{} {
	if c.x == nil {
		return reading(c.node, 1, 0)
	}
	return c.x.encoderRead(c)
}

// bad is of a type that no builder accepts.
type bad struct{ Tag int }

// described is of a type that no builder accepts either, and code of the caller describes it in messages.
type described struct{ callback }

// Error implements error.
func (d *described) Error() string {
	d.enter("description")
	return "described"
}

// plain returns the Go value of a value node that involves no callback.
func plain(n *Node) (interface{}, bool) {
	switch n.K {
	case "v.int":
		return n.N, true
	case "v.i64":
		return int64(n.N), true
	case "v.i32":
		return int32(n.N), true
	case "v.u32":
		return uint32(n.N), true
	case "v.u64":
		return uint64(n.N), true
	case "v.str":
		return n.S, true
	case "v.bool":
		return n.N%2 == 1, true
	case "v.f64":
		return float64(n.N) + 0.5, true
	case "v.bytes":
		return []byte(n.S), true
	case "v.time":
		if n.T == "zero" {
			return time.Time{}, true
		}
		if n.T == "east" {
			return time.Unix(int64(baseTime+n.N), 0).In(east), true
		}
		return time.Unix(int64(baseTime+n.N), 0).UTC(), true
	case "v.nil":
		return nil, true
	case "v.strs":
		if n.T == "none" {
			return []string{}, true
		}
		return strings.Split(n.S, ","), true
	case "v.i64s":
		if n.T == "none" {
			return []int64{}, true
		}
		return several(n), true
	case "v.map":
		if n.T == "none" {
			return map[string]string{}, true
		}
		return map[string]string{"k" + n.S: n.S}, true
	case "v.mmap":
		m := map[string]string{}
		for i := 0; i < n.N; i++ {
			m[n.S+strconv.Itoa(i*7%n.N)] = "w" + strconv.Itoa(i)
		}
		return m, true
	case "v.imap":
		m := map[string]interface{}{}
		for i := 0; i < n.N; i++ {
			var v interface{} = i
			switch {
			case i%4 == 1:
				v = nil
			case i%7 == 3:
				v = "x" + strconv.Itoa(i)
			case i%7 == 6:
				v = []string{"b", "a", ""}
			}
			m[n.S+strconv.Itoa(i*7%n.N)] = v
		}
		return m, true
	case "v.i8":
		return int8(n.N % 128), true
	case "v.i16":
		return int16(n.N % 30000), true
	case "v.u":
		return uint(n.N), true
	case "v.u8":
		return uint8(n.N % 256), true
	case "v.u16":
		return uint16(n.N % 60000), true
	case "v.f32":
		return float32(n.N) + 0.25, true
	case "v.flat64":
		return pgtype.FlatArray[int64](several(n)), true
	case "v.range":
		return pgtype.Range[int64]{Lower: int64(n.N), Upper: int64(n.N) + 5, LowerType: pgtype.Inclusive, UpperType: pgtype.Exclusive, Valid: true}, true
	case "v.list":
		return listOf(n), true
	case "v.flat":
		var l pgtype.FlatArray[string]
		for _, v := range several(n) {
			l = append(l, n.S+strconv.FormatInt(v, 10))
		}
		return l, true
	case "v.bad":
		if n.F != "" {
			return nil, false
		}
		return bad{n.N}, true
	case "v.ext":
		return extreme(n.T), true
	}
	return nil, false
}

// several are the numbers of a list, in no order, and some of them twice if it is long.
func several(n *Node) (l []int64) {
	count, err := strconv.Atoi(n.T)
	if err != nil {
		count = 2
	}
	for i := 0; i < count; i++ {
		l = append(l, int64(n.N+(i*7+4)%10))
	}
	return l
}

var (
	east = time.FixedZone("east", 5*3600+1800)
	west = time.FixedZone("", -3*3600)
)

var zones = []*time.Location{
	time.FixedZone("UTC", 0), time.FixedZone("IST", 5*3600+1800), time.FixedZone("ART", -3*3600), time.FixedZone("LMT", 561),
}

// setZone sets what the process takes for its local time zone, and the rest of its environment. Goroutines
// of the code under test that outlive a run may be reading the time: that is no race of theirs.
//
//go:norace
func setZone(seed uint64) {
	hook.SetEnv(seed)
	time.Local = zones[hook.Mix(seed, 0x20e)%uint64(len(zones))]
}

// extreme is a value at the edge of what its type holds, or one of unusual form.
func extreme(kind string) interface{} {
	switch kind {
	case "i64min":
		return int64(math.MinInt64)
	case "i64max":
		return int64(math.MaxInt64)
	case "intmin":
		return math.MinInt64
	case "intmax":
		return math.MaxInt64
	case "neg":
		return -17
	case "minus1":
		return -1
	case "i8min":
		return int8(math.MinInt8)
	case "i16min":
		return int16(math.MinInt16)
	case "i32min":
		return int32(math.MinInt32)
	case "u64max":
		return uint64(math.MaxUint64)
	case "uintmax":
		return uint(math.MaxUint64)
	case "u32max":
		return uint32(math.MaxUint32)
	case "u16max":
		return uint16(math.MaxUint16)
	case "u8max":
		return uint8(math.MaxUint8)
	case "f-nan":
		return math.NaN()
	case "f-inf":
		return math.Inf(1)
	case "f-ninf":
		return math.Inf(-1)
	case "f-zero":
		return 0.0
	case "f-nzero":
		return math.Copysign(0, -1)
	case "f-tenth":
		return 0.1
	case "f-third":
		return -1.0 / 3
	case "f-big":
		return 1e21
	case "f-huge":
		return math.MaxFloat64
	case "f-tiny":
		return math.SmallestNonzeroFloat64
	case "f-2p53":
		return float64(1<<53 + 2)
	case "f32-tenth":
		return float32(0.1)
	case "f32-max":
		return float32(math.MaxFloat32)
	case "bytes-nil":
		return []byte(nil)
	case "bytes-bin":
		return []byte{0, 0xff, '\'', '\\', '\n', 0x80}
	case "bytes-long":
		return bytes.Repeat([]byte{0xa5, 1}, 700)
	case "bytes-mid":
		return bytes.Repeat([]byte{0x5a, 2, 0}, 90)
	case "str-mid":
		return strings.Repeat("it's é ", 40)
	case "str-long":
		return strings.Repeat("it's \\ ", 900)
	case "str-quote":
		return "'"
	case "str-slash":
		return `\`
	case "str-nl":
		return "\n\r\t"
	case "str-null":
		return "NULL"
	case "str-space":
		return " "
	case "str-ph":
		return "$1 :arg_1 ? %s %d"
	case "str-num":
		return "42"
	case "time-zone":
		return time.Unix(baseTime, 0).In(east)
	case "time-west":
		return time.Unix(baseTime, 999999999).In(west)
	case "time-local":
		return time.Unix(baseTime, 0).In(time.Local)
	case "time-nano":
		return time.Unix(baseTime, 123456789).UTC()
	case "time-tenth":
		return time.Unix(baseTime, 100000000).UTC()
	case "time-1970":
		return time.Unix(0, 0).UTC()
	case "time-before":
		return time.Unix(-1, 500000000).UTC()
	case "time-bc":
		return time.Date(-43, 3, 15, 12, 0, 0, 0, time.UTC)
	case "time-far":
		return time.Date(12345, 12, 31, 23, 59, 59, 999999999, west)
	case "sql-str":
		return sql.NullString{String: "it's", Valid: true}
	case "sql-str-null":
		return sql.NullString{String: "not shown"}
	case "sql-int":
		return sql.NullInt64{Int64: -5, Valid: true}
	case "sql-int-null":
		return sql.NullInt64{}
	case "sql-bool":
		return sql.NullBool{Bool: true, Valid: true}
	case "sql-f64":
		return sql.NullFloat64{Float64: 2.5, Valid: true}
	case "sql-f64-null":
		return sql.NullFloat64{Float64: 2.5}
	case "pg-text":
		return pgtype.Text{String: "it's", Valid: true}
	case "pg-text-null":
		return pgtype.Text{}
	case "pg-int":
		return pgtype.Int8{Int64: 77, Valid: true}
	case "strs-nil":
		return []string(nil)
	case "i64s-nil":
		return []int64(nil)
	case "map-nil":
		return map[string]string(nil)
	case "imap-nil":
		return map[string]interface{}(nil)
	case "strs-odd":
		return []string{"", "a b", "'", "\x00"}
	case "flat-nil":
		return pgtype.FlatArray[string](nil)
	case "range-empty":
		return pgtype.Range[int64]{}
	case "imap-mixed":
		return map[string]interface{}{"a": nil, "b": 1.5, "c": "x", "d": map[string]interface{}{"e": []int{1}}}
	}
	return 0
}

var extremes = []string{
	"i64min", "i64max", "intmin", "intmax", "neg", "minus1", "i8min", "i16min", "i32min", "u64max", "uintmax", "u32max", "u16max", "u8max",
	"f-nan", "f-inf", "f-ninf", "f-zero", "f-nzero", "f-tenth", "f-third", "f-big", "f-huge", "f-tiny", "f-2p53", "f32-tenth", "f32-max",
	"bytes-nil", "bytes-bin", "bytes-long", "bytes-mid", "str-long", "str-mid", "str-quote", "str-slash", "str-nl", "str-null", "str-space", "str-ph", "str-num",
	"time-zone", "time-west", "time-local", "time-nano", "time-tenth", "time-1970", "time-before", "time-bc", "time-far",
	"strs-nil", "i64s-nil", "map-nil", "imap-nil", "strs-odd", "flat-nil", "range-empty", "imap-mixed",
	"sql-str", "sql-str-null", "sql-int", "sql-int-null", "sql-bool", "sql-f64", "sql-f64-null", "pg-text", "pg-text-null", "pg-int",
}

// driverOuts are results that valuers give besides the usual ones.
var driverOuts = []string{"i64min", "i64max", "neg", "f-nan", "f-tenth", "f-big", "f-zero", "f-nzero", "bytes-nil", "bytes-bin", "bytes-long", "bytes-mid", "str-long", "str-mid", "str-quote", "str-nl", "str-space", "str-null",
	"time-zone", "time-nano", "time-west", "time-local", "time-bc", "zero-int", "zero-str", "zero-time", "zero-bytes", "true", "false", "u64max", "f32-tenth", "strs-odd", "imap-mixed", "i8min", "u8max"}

// listOf is a typed slice of n.T elements, n.L wide.
func listOf(n *Node) interface{} {
	w := len(n.S)
	switch n.T {
	case "uint":
		return nums[uint](n.N, w)
	case "int8":
		return nums[int8](n.N%100, w%20)
	case "int16":
		return nums[int16](n.N%20000, w)
	case "uint16":
		return nums[uint16](n.N%40000, w)
	case "int32":
		return nums[int32](n.N, w)
	case "uint32":
		return nums[uint32](n.N, w)
	case "int64":
		return nums[int64](n.N, w)
	case "uint64":
		return nums[uint64](n.N, w)
	case "float32":
		return odd(n.N, nums[float32](n.N, w))
	case "float64":
		return odd(n.N, nums[float64](n.N, w))
	case "bool":
		out := make([]bool, w)
		for i := range out {
			out[i] = (n.N+i)%3 == 0
		}
		return out
	case "bytes":
		out := make([][]byte, w)
		for i := range out {
			out[i] = []byte("b" + strconv.Itoa(n.N+i))
		}
		return out
	}
	return nums[int](n.N, w)
}

var listTypes = []string{"uint", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "bool", "bytes", "int"}

func nums[T int | uint | int8 | int16 | uint16 | int32 | uint32 | int64 | uint64 | float32 | float64](n, w int) []T {
	out := make([]T, w)
	for i := range out {
		out[i] = T(n + i)
	}
	return out
}

// odd puts a number among the others that compares in a way of its own.
func odd[T float32 | float64](n int, l []T) []T {
	if len(l) == 0 {
		return l
	}
	at := n / 6 % len(l)
	switch n % 6 {
	case 1:
		l[at] = T(math.NaN())
	case 2:
		l[at] = T(math.Copysign(0, -1))
	case 3:
		l[at] = 0
	case 4:
		l[at] = T(math.Inf(1 - 2*(n/6%2)))
	}
	return l
}

// elements of a typed slice
func elements(v interface{}) []interface{} {
	r := reflect.ValueOf(v)
	out := make([]interface{}, r.Len())
	for i := range out {
		out[i] = r.Index(i).Interface()
	}
	return out
}

// canon writes a bound argument as text that identifies it.
func canon(v interface{}) string {
	switch a := v.(type) {
	case nil:
		return "nil"
	case *valuer, valVal, valSlice, valMap, *valEnc, valEmbed, valTime, valName, valNum, one.Code:
		u := unwrapped(v)
		if u == nil {
			return "valuer#nil"
		}
		return valuerName(u.node) + shapeOf(v)
	case vzInt, vzText, vzNone, vzList, vzMap, vzBool, vzArray, vzFunc, vzFields:
		u := zeroValuerOf(v)
		if u == nil {
			return "valuer#nil"
		}
		return valuerName(u.node)
	case valFunc:
		return "valuer#func"
	case *valVal:
		return "valuer#nil"
	case string:
		return "string:" + a
	case int:
		return "int:" + strconv.Itoa(a)
	case int64:
		return "int64:" + strconv.FormatInt(a, 10)
	case []byte:
		if a == nil {
			return "bytes:nil"
		}
		return "bytes:" + hex.EncodeToString(a)
	case time.Time:
		if a.Location() == time.Local {
			return "time:" + a.UTC().Format(time.RFC3339Nano) + " local"
		}
		return "time:" + a.Format(time.RFC3339Nano) + " " + a.Location().String()
	case *time.Time:
		if a == nil {
			return "*time:nil"
		}
		return "*time:" + a.Format(time.RFC3339Nano)
	case bool, int8, int16, int32, uint, uint8, uint16, uint32, uint64, float32, float64, []string, []int64,
		map[string]string, map[string]interface{}, pgtype.FlatArray[string], pgtype.FlatArray[int64], pgtype.Range[int64], bad,
		sql.NullString, sql.NullInt64, sql.NullBool, sql.NullFloat64, pgtype.Text, pgtype.Int8:
		return fmt.Sprintf("%T:%#v", a, a)
	}
	// anything else is not a value the simulation passed in: name it without consulting it
	return fmt.Sprintf("%s", reflect.TypeOf(v))
}

func shapeOf(v interface{}) string {
	if _, ok := v.(*valuer); ok {
		return ""
	}
	return fmt.Sprintf(" %T", v)
}

// valuerCanon is how canon names the valuer of a node.
func valuerCanon(n *Node) string {
	switch {
	case n.T == "nilptr":
		return "valuer#nil"
	case n.S == "func":
		return "valuer#func"
	}
	return valuerName(n) + shapeOf(wrapped(n, nil))
}

func valuerName(n *Node) string {
	if n.E != 0 {
		return "valuer#shared" + strconv.Itoa(n.E)
	}
	return "valuer#" + strconv.Itoa(n.ID)
}

// literal is how String() shows a bound value.
func literal(v interface{}) string {
	switch a := v.(type) {
	case nil:
		return "NULL"
	case string:
		var b strings.Builder
		b.WriteByte('\'')
		for _, c := range a {
			switch c {
			case '\'':
				b.WriteString(`\'`)
			case '\\':
				b.WriteString(`\\`)
			case '\n':
				b.WriteString(`\n`)
			case '\r':
				b.WriteString(`\r`)
			case '\t':
				b.WriteString(`\t`)
			default:
				b.WriteRune(c)
			}
		}
		b.WriteByte('\'')
		return b.String()
	case []byte:
		return "decode('" + hex.EncodeToString(a) + "', 'hex')"
	case time.Time:
		return "'" + a.UTC().Format("2006-01-02 15:04:05.999999") + "+00'"
	case float64:
		return strconv.FormatFloat(a, 'f', -1, 64)
	case float32:
		return strconv.FormatFloat(float64(a), 'f', -1, 64)
	case sql.NullString, sql.NullInt64, sql.NullBool, sql.NullFloat64, pgtype.Text, pgtype.Int8:
		out, _ := a.(driver.Valuer).Value()
		return literal(out)
	}
	return fmt.Sprint(v)
}

func sortedKeys(m map[string]interface{}) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if len(keys[i]) != len(keys[j]) {
			return len(keys[i]) < len(keys[j])
		}
		return keys[i] < keys[j]
	})
	return keys
}
