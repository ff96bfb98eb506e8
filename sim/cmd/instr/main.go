// Command instr prepares the build of a loukoum working tree under the simulator.
//
// It writes, into OUT:
//   - an instrumented copy of every non-test Go file of the root module, in which a call to the
//     simulator's yield hook stands before every statement and at the head of every loop and function
//     body (so that the seeded scheduler may switch caller threads between any two statements), and in
//     which an import of "sync" is redirected to a scheduler-aware shim;
//   - patched copies of some files of the Go runtime and library, which take the randomness of map
//     iteration and hashing, all other random numbers, and the clock from the simulator instead of the
//     operating system;
//   - overlay.json for "go build -overlay", and points.json, which names every yield point.
//
// Nothing in the working tree itself is touched. Insertions are textual and keep line numbers.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off  int
	del  int
	text string
	// parts follow the text: more text, and pieces of the source that move here.
	parts []part
}

type part struct {
	text     string
	from, to int
}

var points []string
var noChan bool

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	if len(os.Args) != 3 && !(len(os.Args) == 4 && os.Args[3] == "nochan") {
		die("usage: instr REPO OUT [nochan]")
	}
	noChan = len(os.Args) == 4
	repo, out := os.Args[1], os.Args[2]
	overlay := map[string]string{}

	var files []string
	err := filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			base := filepath.Base(path)
			if path != repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			if path != repo {
				if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil {
					return filepath.SkipDir // another module (examples/)
				}
			}
			return nil
		}
		if strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, "_test.go") {
			files = append(files, path)
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	sort.Strings(files)

	findChans(repo, files)

	for _, path := range files {
		src, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		rel, _ := filepath.Rel(repo, path)
		res, changed := instrument(rel, src)
		if !changed {
			continue
		}
		dst := filepath.Join(out, "src", rel)
		write(dst, res)
		overlay[path] = dst
	}

	goroot := os.Getenv("SIM_GOROOT")
	if goroot == "" {
		goroot = runtime.GOROOT()
	}
	patch := func(rel string, pairs ...string) {
		p := filepath.Join(goroot, "src", rel)
		b, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		s := string(b)
		for i := 0; i < len(pairs); i += 2 {
			if strings.Count(s, pairs[i]) != 1 {
				die("the runtime of this Go toolchain is not the one expected: %q in %s", pairs[i], rel)
			}
			s = strings.Replace(s, pairs[i], pairs[i+1], 1)
		}
		dst := filepath.Join(out, "goroot", rel)
		write(dst, []byte(s))
		overlay[p] = dst
	}
	patch("runtime/rand.go",
		"func maps_rand() uint64 {\n\treturn rand()\n}",
		"func maps_rand() uint64 {\n\tif s := simMapSeed; s != 0 {\n\t\treturn s\n\t}\n\treturn rand()\n}",
		// math/rand, math/rand/v2 and hash/maphash take their randomness here
		"\tmp := getg().m\n\tc := &mp.chacha8\n\tfor {\n", "\tif simRand != 0 {\n\t\treturn simNext()\n\t}\n\tmp := getg().m\n\tc := &mp.chacha8\n\tfor {\n")
	// which of several ready cases a select statement takes
	patch("runtime/select.go", "j := cheaprandn(uint32(norder + 1))", "j := simChoice(uint32(norder + 1))")
	patch("crypto/internal/sysrand/rand.go",
		"func Read(b []byte) {\n", `//go:linkname runtime_rand runtime.rand
func runtime_rand() uint64

//go:linkname simOn
func simOn() bool

func Read(b []byte) {
	if simOn() {
		for i := range b {
			b[i] = byte(runtime_rand())
		}
		return
	}
`)
	patch("time/time.go",
		"func Now() Time {\n", "func Now() Time {\n\tif s := simNow(); s != 0 {\n\t\treturn unixTime(s/1e9, int32(s%1e9))\n\t}\n",
		"func unixTime(sec int64,", "// simNow is the simulated clock, in nanoseconds; 0 outside of a simulation.\n//\n//go:linkname simNow\nfunc simNow() int64\n\nfunc unixTime(sec int64,")
	patch("internal/runtime/maps/runtime_alg.go",
		"hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(0x9e3779b97f4a7c15) * uintptr(2*i+1)",
		"\t// Install AES hash algorithms if the instructions needed are present.\n",
		"\tif hashkey[0] != 0 {\n\t\treturn // simulator: the portable hash, with fixed keys\n\t}\n")
	// Under the race detector the pools of the standard library keep nothing, so that they order nothing
	// between threads (as it is, they drop objects at random).
	patch("sync/pool.go",
		"\t\tif runtime_randn(4) == 0 {\n\t\t\t// Randomly drop x on floor.\n\t\t\treturn\n\t\t}\n", "\t\tif true {\n\t\t\treturn\n\t\t}\n")
	// addresses, when they are printed or turned into numbers, are simulated ones
	patch("fmt/print.go",
		"\t\tu = uintptr(value.UnsafePointer())\n\tdefault:\n\t\tp.badVerb", "\t\tu = simAddr(uintptr(value.UnsafePointer()))\n\tdefault:\n\t\tp.badVerb",
		"func (p *pp) fmtPointer(", "// simAddr is the address that the simulator gives out in place of one.\n//\n//go:linkname simAddr\nfunc simAddr(u uintptr) uintptr\n\nfunc (p *pp) fmtPointer(",
		"import (\n", "import (\n\t_ \"unsafe\"\n")
	dst := filepath.Join(out, "goroot", "runtime", "zsim.go")
	write(dst, []byte(`package runtime

import _ "unsafe"

// simMapSeed, when it is not zero, replaces the random numbers that order map iterations, simRand the
// generator that everything else is drawn from, simSelect the one for select statements, and simClock the clock.
var simMapSeed, simRand, simSelect uint64
var simClock int64

// SimMapSeed sets the number that map iteration and map hashing use as their random number, restarts the
// generator of random numbers, and sets the clock; 0 restores the ordinary behaviour.
//
//go:norace
func SimMapSeed(v uint64, clock int64) { simMapSeed, simRand, simSelect, simClock = v, v, v, clock }

// simChoice is a number below n, for select statements; it has a generator of its own.
//
//go:nosplit
func simChoice(n uint32) uint32 {
	if simSelect == 0 {
		return cheaprandn(n)
	}
	simSelect = simSelect*6364136223846793005 + 1442695040888963407
	return uint32((simSelect >> 32) * uint64(n) >> 32)
}

//go:nosplit
func simNext() uint64 {
	simRand = simRand*6364136223846793005 + 1442695040888963407
	x := simRand
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}

// simAddrs are the addresses that were looked at, in the order in which that happened, and simAddrKey decides
// what each of them looks like.
var simAddrs [1 << 12]uintptr
var simAddrN int
var simAddrKey uint64

// SimAddrs forgets all addresses and sets the key; 0 restores the ordinary behaviour.
//
//go:norace
func SimAddrs(key uint64) { simAddrKey, simAddrN = key, 0 }

// SimAddr is what an address looks like.
//
//go:norace
func SimAddr(u uintptr) uintptr {
	if simAddrKey == 0 || u == 0 {
		return u
	}
	i := 0
	for i < simAddrN && simAddrs[i] != u {
		i++
	}
	if i == simAddrN {
		if i == len(simAddrs) {
			return u
		}
		simAddrs[i] = u
		simAddrN++
	}
	return 0xc000000000 + uintptr((uint64(i)*(simAddrKey|1)+simAddrKey>>20)&0xffffff)*16
}

//go:linkname fmt_simAddr fmt.simAddr
func fmt_simAddr(u uintptr) uintptr { return SimAddr(u) }

// SimGoid identifies the running goroutine.
//
//go:norace
func SimGoid() uint64 { return getg().goid }

// SimDrain waits until the finalizers and cleanups that the collector found have been run.
func SimDrain() {
	if fing != nil {
		blockUntilEmptyFinalizerQueue(5e9)
	}
	gcCleanups.blockUntilEmpty(5e9)
}

//go:linkname time_simNow time.simNow
func time_simNow() int64 { return simClock }

//go:linkname sysrand_simOn crypto/internal/sysrand.simOn
func sysrand_simOn() bool { return simRand != 0 }
`))
	overlay[filepath.Join(goroot, "src", "runtime", "zsim.go")] = dst

	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	write(filepath.Join(out, "overlay.json"), b)
	b, _ = json.Marshal(points)
	write(filepath.Join(out, "points.json"), b)
}

func write(path string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("%v", err)
	}
}

func instrument(rel string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	tf := fset.File(file.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }

	var edits []edit
	yields := 0
	insert := func(p token.Pos, where token.Pos) {
		pos := fset.Position(where)
		points = append(points, fmt.Sprintf("%s:%d", rel, pos.Line))
		edits = append(edits, edit{off: off(p), text: fmt.Sprintf(" simhook__.Y(%d); ", len(points))})
		yields++
	}
	list := func(stmts []ast.Stmt, skipFirst bool) {
		for i, s := range stmts {
			if i == 0 && skipFirst {
				continue
			}
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			insert(s.Pos(), s.Pos())
		}
	}
	heads := map[*ast.BlockStmt]bool{}
	switches := map[*ast.BlockStmt]bool{}
	ast.Inspect(file, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.FuncDecl:
			if v.Body != nil {
				heads[v.Body] = true
			}
		case *ast.FuncLit:
			heads[v.Body] = true
		case *ast.ForStmt:
			heads[v.Body] = true
		case *ast.RangeStmt:
			heads[v.Body] = true
		case *ast.SwitchStmt:
			switches[v.Body] = true
		case *ast.TypeSwitchStmt:
			switches[v.Body] = true
		case *ast.SelectStmt:
			switches[v.Body] = true
		case *ast.BlockStmt:
			if switches[v] {
				return true
			}
			if heads[v] {
				insert(v.Lbrace+1, v.Lbrace)
			}
			list(v.List, heads[v])
		case *ast.CaseClause:
			list(v.Body, false)
		case *ast.CommClause:
			list(v.Body, false)
		}
		return true
	})
	if !noChan {
		edits = append(edits, channels(rel, src, file, off)...)
		edits = append(edits, goroutines(file, off, src)...)
		if a := addresses(file, off); len(a) > 0 {
			edits = append(edits, a...)
			yields++
		}
	}
	if yields > 0 {
		edits = append(edits, edit{off: off(file.Name.End()), text: `; import simhook__ "verif.local/sim/hook"`})
	}
	for _, imp := range file.Imports {
		name, path := "", ""
		switch imp.Path.Value {
		case `"sync"`:
			name, path = "sync", `"verif.local/sim/simsync"`
		case `"sync/atomic"`:
			name, path = "atomic", `"verif.local/sim/simatomic"`
		default:
			continue
		}
		if imp.Name == nil {
			path = name + " " + path
		}
		edits = append(edits, edit{off: off(imp.Path.Pos()), del: len(imp.Path.Value), text: path})
	}
	edits = append(edits, waiting(file, off, len(src))...)
	if len(edits) == 0 {
		return nil, false
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	return render(src, edits, make([]bool, len(edits)), 0, len(src)), true
}

// render applies the edits, which are in order, to a piece of the source. Those that it has used are done.
func render(src []byte, edits []edit, used []bool, from, to int) (out []byte) {
	last := from
	for i, e := range edits {
		if used[i] || e.off < last || e.off+e.del > to {
			continue
		}
		used[i] = true
		out = append(out, src[last:e.off]...)
		out = append(out, e.text...)
		for _, p := range e.parts {
			out = append(out, p.text...)
			if p.to > 0 {
				out = append(out, render(src, edits, used, p.from, p.to)...)
			}
		}
		last = e.off + e.del
	}
	return append(out, src[last:to]...)
}

// channels redirects channel operations to the simulator: sending, receiving, closing, and select
// statements.
func channels(rel string, src []byte, file *ast.File, off func(token.Pos) int) (edits []edit) {
	comm := map[ast.Node]bool{}  // communications of select statements
	pairs := map[ast.Node]bool{} // v, ok := <-ch
	at := func(p token.Pos, del int, text string) {
		edits = append(edits, edit{off: off(p), del: del, text: text})
	}
	two := func(lhs int, rhs []ast.Expr) {
		if lhs == 2 && len(rhs) == 1 {
			pairs[unparen(rhs[0])] = true
		}
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.CommClause:
			switch c := v.Comm.(type) {
			case *ast.SendStmt:
				comm[c] = true
			case *ast.ExprStmt:
				comm[unparen(c.X)] = true
			case *ast.AssignStmt:
				comm[unparen(c.Rhs[0])] = true
			}
		case *ast.AssignStmt:
			two(len(v.Lhs), v.Rhs)
		case *ast.ValueSpec:
			two(len(v.Names), v.Values)
		case *ast.SendStmt:
			if !comm[v] {
				at(v.Chan.Pos(), 0, "simhook__.Send(")
				at(v.Arrow, 2, ")(")
				at(v.Value.End(), 0, ")")
			}
		case *ast.UnaryExpr:
			if v.Op == token.ARROW && !comm[v] {
				f := "Recv"
				if pairs[v] {
					f = "Recv2"
				}
				at(v.OpPos, 2, "simhook__."+f+"(")
				at(v.X.End(), 0, ")")
			}
		case *ast.RangeStmt:
			if !chanExprs[fmt.Sprintf("%s:%d", rel, off(v.X.Pos()))] || v.Value != nil {
				break
			}
			// for v := range ch {  ->  for simch__ := ch; ; { v, simok__ := simhook__.Recv2(simch__); ...
			key, op := "_", ":="
			if v.Key != nil {
				key = string(src[off(v.Key.Pos()):off(v.Key.End())])
			}
			pre := ""
			if v.Tok == token.ASSIGN {
				pre, op = "var simok__ bool; ", "="
			}
			at(v.For+3, off(v.X.Pos())-off(v.For+3), " simch__ := ")
			at(v.X.End(), 0, "; ; ")
			at(v.Body.Lbrace+1, 0, fmt.Sprintf(" %s%s, simok__ %s simhook__.Recv2(simch__); if !simok__ { break }; ", pre, key, op))
		case *ast.CallExpr:
			if id, ok := v.Fun.(*ast.Ident); ok && id.Name == "close" && id.Obj == nil && len(v.Args) == 1 {
				at(id.Pos(), 5, "simhook__.Close")
			}
		case *ast.SelectStmt:
			selects(v, off, &edits)
		}
		return true
	})
	return edits
}

// selects turns a select statement into a switch statement over the number of the case that happened:
//
//	switch simc0__ := simhook__.NewRecv(ch); simhook__.Select(false, simc0__) { case 0: v := simc0__.V; ...
func selects(s *ast.SelectStmt, off func(token.Pos) int, edits *[]edit) {
	at := func(p token.Pos, del int, text string) {
		*edits = append(*edits, edit{off: off(p), del: del, text: text})
	}
	var moved []part
	say := func(text string) { moved = append(moved, part{text: text}) }
	move := func(e ast.Expr) { moved = append(moved, part{from: off(e.Pos()), to: off(e.End())}) }
	if len(s.Body.List) == 0 {
		at(s.Select, off(s.Body.Lbrace)-off(s.Select), "for ")
		at(s.Body.Lbrace+1, 0, " simhook__.Select(false) ")
		return
	}
	var names []string
	def := false
	for _, clause := range s.Body.List {
		c := clause.(*ast.CommClause)
		if c.Comm == nil {
			def = true
			continue
		}
		i := len(names)
		names = append(names, fmt.Sprintf("simc%d__", i))
		if i > 0 {
			say(", ")
		}
		from := func(e ast.Expr) {
			say("simhook__.NewRecv(")
			move(unparen(e).(*ast.UnaryExpr).X)
			say(")")
		}
		switch v := c.Comm.(type) {
		case *ast.SendStmt:
			say("simhook__.NewSend(")
			move(v.Chan)
			say(")(")
			move(v.Value)
			say(")")
		case *ast.ExprStmt:
			from(v.X)
		case *ast.AssignStmt:
			from(v.Rhs[0])
			text := names[i] + ".V"
			if len(v.Lhs) == 2 {
				text += ", " + names[i] + ".OK"
			}
			at(v.Pos(), 0, fmt.Sprintf("%d: ", i))
			at(v.Rhs[0].Pos(), off(v.Rhs[0].End())-off(v.Rhs[0].Pos()), text)
			at(c.Colon, 1, ";")
			continue
		}
		at(c.Comm.Pos(), off(c.Comm.End())-off(c.Comm.Pos()), strconv.Itoa(i))
	}
	e := edit{off: off(s.Select), del: off(s.Body.Lbrace) - off(s.Select)}
	e.parts = append(e.parts, part{text: "switch "})
	if len(names) > 0 {
		e.parts = append(e.parts, part{text: strings.Join(names, ", ") + " := "})
		e.parts = append(append(e.parts, moved...), part{text: "; "})
	}
	e.parts = append(e.parts, part{text: fmt.Sprintf("simhook__.Select(%s) ", strings.Join(append([]string{fmt.Sprint(def)}, names...), ", "))})
	*edits = append(*edits, e)
	if !def {
		at(s.Body.Rbrace, 0, `default: panic("no case") `)
	}
}

// goroutines turns go statements into simulated threads: the function and its arguments are evaluated at
// the statement, as they are by go.
func goroutines(file *ast.File, off func(token.Pos) int, src []byte) (edits []edit) {
	at := func(p token.Pos, del int, text string) {
		edits = append(edits, edit{off: off(p), del: del, text: text})
	}
	ast.Inspect(file, func(n ast.Node) bool {
		g, ok := n.(*ast.GoStmt)
		if !ok {
			return true
		}
		if id, is := unparen(g.Call.Fun).(*ast.Ident); is && id.Obj == nil {
			switch id.Name {
			case "close", "panic", "print", "println", "delete", "copy", "recover":
				return true
			}
		}
		// go f(a, b)  ->  { simf__, sim0__ := f, a; simhook__.Go(func() { simf__(sim0__, 1) }) }
		names := []string{"simf__"}
		var call []string
		lhs := len(edits)
		at(g.Go, 2, "") // filled in below
		at(g.Call.Lparen, 1, "")
		for i, a := range g.Call.Args {
			sep := off(a.End())
			next := off(g.Call.Rparen)
			if i+1 < len(g.Call.Args) {
				next = off(g.Call.Args[i+1].Pos())
			}
			if constant(a) {
				call = append(call, string(src[off(a.Pos()):sep]))
				edits = append(edits, edit{off: off(a.Pos()), del: next - off(a.Pos()), text: ""})
				continue
			}
			name := fmt.Sprintf("sim%d__", i)
			names = append(names, name)
			if g.Call.Ellipsis.IsValid() && i+1 == len(g.Call.Args) {
				name += "..."
			}
			call = append(call, name)
			at(a.Pos(), 0, ", ")
			edits = append(edits, edit{off: sep, del: next - sep, text: ""})
		}
		edits[lhs].text = "{ " + strings.Join(names, ", ") + " := "
		at(g.Call.Rparen, 1, fmt.Sprintf("; simhook__.Go(func() { simf__(%s) }) }", strings.Join(call, ", ")))
		return true
	})
	return edits
}

// addresses redirects what turns an address into a number: the Pointer method of reflect.Value, and
// uintptr(unsafe.Pointer(x)), unless the file also makes pointers of numbers.
func addresses(file *ast.File, off func(token.Pos) int) (edits []edit) {
	unsafely := func(e ast.Expr) bool {
		c, ok := unparen(e).(*ast.CallExpr)
		if !ok {
			return false
		}
		s, ok := unparen(c.Fun).(*ast.SelectorExpr)
		if !ok || s.Sel.Name != "Pointer" {
			return false
		}
		id, ok := s.X.(*ast.Ident)
		return ok && id.Name == "unsafe"
	}
	var at []*ast.CallExpr
	all, numbers := 0, 0
	ast.Inspect(file, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		if unsafely(c) {
			all++
		}
		if id, ok := unparen(c.Fun).(*ast.Ident); ok && id.Name == "uintptr" && len(c.Args) == 1 && unsafely(c.Args[0]) {
			numbers++
			at = append(at, c)
		}
		return true
	})
	if all != numbers {
		at = nil
	}
	ast.Inspect(file, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok || len(c.Args) > 0 {
			return true
		}
		if s, ok := unparen(c.Fun).(*ast.SelectorExpr); ok && s.Sel.Name == "Pointer" {
			at = append(at, c)
		}
		return true
	})
	for _, c := range at {
		edits = append(edits, edit{off: off(c.Pos()), del: 0, text: "simhook__.Addr("}, edit{off: off(c.End()), del: 0, text: ")"})
	}
	return edits
}

// redirected are the functions of the standard library that the simulator answers: those that give other
// goroutines a chance to run, timers, and those that tell about the process and the machine.
var redirected = [][2]string{
	{"runtime", "Gosched"}, {"time", "Sleep"},
	{"os", "Getenv"}, {"os", "LookupEnv"}, {"os", "Hostname"}, {"os", "Getpid"}, {"os", "Getppid"}, {"os", "Getuid"}, {"os", "Getwd"},
	{"time", "NewTimer"}, {"time", "AfterFunc"}, {"time", "After"}, {"time", "NewTicker"}, {"time", "Tick"}, {"time", "Timer"}, {"time", "Ticker"},
	{"context", "WithTimeout"}, {"context", "WithDeadline"},
	{"runtime", "NumCPU"}, {"runtime", "GOMAXPROCS"}, {"runtime", "NumGoroutine"},
	{"runtime", "SetFinalizer"}, {"runtime", "AddCleanup"}, {"runtime", "Cleanup"}, {"runtime", "GC"}, {"runtime", "ReadMemStats"},
}

// waiting redirects what the simulator answers.
func waiting(file *ast.File, off func(token.Pos) int, end int) (edits []edit) {
	for _, imp := range file.Imports {
		if imp.Path.Value == `"weak"` || imp.Path.Value == `"unique"` {
			edits = append(edits, edit{off: end, del: 0, text: "\nvar _ = simhook__.Watch()\n"})
		}
	}
	for _, f := range redirected {
		if noChan && (f[0] == "time" && f[1] != "Sleep" || f[0] == "context") {
			continue
		}
		name := ""
		for _, imp := range file.Imports {
			if imp.Path.Value == `"`+f[0]+`"` {
				name = f[0]
				if imp.Name != nil {
					name = imp.Name.Name
				}
			}
		}
		found := false
		ast.Inspect(file, func(n ast.Node) bool {
			s, ok := n.(*ast.SelectorExpr)
			if !ok || s.Sel.Name != f[1] {
				return true
			}
			if id, ok := s.X.(*ast.Ident); ok && name != "" && id.Name == name && id.Obj == nil {
				found = true
				text := "simhook__." + f[1]
				edits = append(edits, edit{off: off(s.Pos()), del: off(s.End()) - off(s.Pos()), text: text})
			}
			return true
		})
		if found { // the import stays in use
			kind := "= "
			what := f[1]
			if what == "AddCleanup" {
				what = "Cleanup"
			}
			if what == "Timer" || what == "Ticker" || what == "Cleanup" {
				kind = ""
			}
			edits = append(edits, edit{off: end, del: 0, text: "\nvar _ " + kind + name + "." + what + "\n"})
		}
	}
	return edits
}

func constant(e ast.Expr) bool {
	switch v := unparen(e).(type) {
	case *ast.BasicLit:
		return true
	case *ast.UnaryExpr:
		return v.Op == token.SUB && constant(v.X)
	case *ast.Ident:
		return v.Obj == nil && (v.Name == "nil" || v.Name == "true" || v.Name == "false")
	}
	return false
}

// chanExprs are the expressions that are ranged over and are channels, as file:offset.
var chanExprs = map[string]bool{}

// findChans type-checks the packages of the module, as well as it can, when channels occur in them.
func findChans(repo string, files []string) {
	fset := token.NewFileSet()
	dirs := map[string][]*ast.File{}
	any := false
	for _, path := range files {
		f, err := parser.ParseFile(fset, path, nil, 0)
		if err != nil {
			die("%v", err)
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ChanType); ok {
				any = true
			}
			return true
		})
		dirs[filepath.Dir(path)] = append(dirs[filepath.Dir(path)], f)
	}
	if !any {
		return
	}
	module := ""
	if b, err := os.ReadFile(filepath.Join(repo, "go.mod")); err == nil {
		for _, line := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(line, "module ") {
				module = strings.TrimSpace(line[7:])
			}
		}
	}
	c := &checker{fset: fset, repo: repo, module: module, dirs: dirs, done: map[string]*types.Package{}}
	c.std = importer.ForCompiler(fset, "source", nil)
	for dir := range dirs {
		c.dir(dir)
	}
}

type checker struct {
	fset         *token.FileSet
	repo, module string
	dirs         map[string][]*ast.File
	done         map[string]*types.Package
	std          types.Importer
}

func (c *checker) Import(path string) (*types.Package, error) {
	if path == c.module {
		return c.dir(c.repo), nil
	}
	if strings.HasPrefix(path, c.module+"/") {
		return c.dir(filepath.Join(c.repo, path[len(c.module)+1:])), nil
	}
	if !strings.Contains(strings.Split(path, "/")[0], ".") {
		if p, err := c.std.Import(path); err == nil {
			return p, nil
		}
	}
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

func (c *checker) dir(dir string) *types.Package {
	if p, ok := c.done[dir]; ok {
		return p
	}
	c.done[dir] = types.NewPackage(dir, filepath.Base(dir))
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: c, Error: func(error) {}, FakeImportC: true}
	p, _ := conf.Check(dir, c.fset, c.dirs[dir], info)
	if p != nil {
		c.done[dir] = p
	}
	for _, f := range c.dirs[dir] {
		ast.Inspect(f, func(n ast.Node) bool {
			if r, ok := n.(*ast.RangeStmt); ok {
				if t := info.Types[r.X].Type; t != nil {
					if _, ok := t.Underlying().(*types.Chan); ok {
						pos := c.fset.Position(r.X.Pos())
						rel, _ := filepath.Rel(c.repo, pos.Filename)
						chanExprs[fmt.Sprintf("%s:%d", rel, pos.Offset)] = true
					}
				}
			}
			return true
		})
	}
	return c.done[dir]
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}
