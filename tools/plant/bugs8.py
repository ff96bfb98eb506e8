# ---- sixth round
bug('C01-free-slot','C01','two threads that each add a join to one handle, one preempted between looking at the spare slot and using it',
 'the list of joins is allocated with spare room, and the next join goes into the spare slot if nothing was put there yet',
 [('builder/select.go','''	joins := b.query.Joins
	b.query.Joins = append(joins[:len(joins):len(joins)], join)
''','''	joins := b.query.Joins
	if n := len(joins); n < cap(joins) && joins[:n+1][n].Table.Name == "" {
		// Nobody uses the spare slot so far.
		b.query.Joins = append(joins, join)
		return b
	}
	b.query.Joins = append(make([]stmt.Join, 0, len(joins)+4), joins...)
	b.query.Joins = append(b.query.Joins, join)
''')],
 prog([LK,'"sync"'],'''
func main() {
	base := lk.Select("a").From("t").Join("u", "t.a = u.a")
	var wait sync.WaitGroup
	for _, name := range []string{"v", "w", "x", "y"} {
		wait.Add(1)
		go func(name string) {
			defer wait.Done()
			base.Join(name, "t.a = "+name+".a")
		}(name)
	}
	wait.Wait()
}'''),race=True)
bug('C02-cte-trim','C02','a common table expression whose name was given with spaces around it, in a statement that two threads render',
 'the names of common table expressions are trimmed in the list that all the renders share',
 [('stmt/with.go','''		with.Queries[i].Write(ctx)
''','''		query := &with.Queries[i]
		if name := strings.TrimSpace(query.Name); name != query.Name {
			query.Name = name
		}
		query.Write(ctx)
'''),('stmt/with.go','''import (
''','''import (
	"strings"

''')],
 prog([LK,'"sync"'],'''
func main() {
	q := lk.Select("a").From("t").With(lk.With("w ", lk.Select("b").From("u")))
	var wait sync.WaitGroup
	for i := 0; i < 8; i++ {
		wait.Add(1)
		go func() {
			defer wait.Done()
			_ = q.String()
		}()
	}
	wait.Wait()
}'''),race=True)
bug('C02-hex-scratch','C02','two threads that render byte strings in debug form at once, one preempted after it released the shared buffer',
 'short byte strings are encoded in a shared buffer whose lock is released before the text is copied out',
 [('format/format.go','''	encoded := hex.EncodeToString(value)
	return fmt.Sprintf("decode('%s', 'hex')", encoded)
''','''	encoded := encode(value)
	return fmt.Sprintf("decode('%s', 'hex')", encoded)
}

// scratch is where short values are encoded.
var scratch struct {
	sync.Mutex
	buffer [256]byte
}

func encode(value []byte) []byte {
	if hex.EncodedLen(len(value)) > len(scratch.buffer) {
		return []byte(hex.EncodeToString(value))
	}
	scratch.Lock()
	defer scratch.Unlock()
	return scratch.buffer[:hex.Encode(scratch.buffer[:], value)]
'''),('format/format.go','''	"strconv"
''','''	"strconv"
	"sync"
''')],
 prog([LK,'"sync"'],'''
func main() {
	var wait sync.WaitGroup
	for i := 0; i < 8; i++ {
		wait.Add(1)
		go func(i int) {
			defer wait.Done()
			for k := 0; k < 100; k++ {
				_ = lk.Select("a").From("t").Where(lk.Condition("a").Equal([]byte{byte(i), byte(k)})).String()
			}
		}(i)
	}
	wait.Wait()
}'''),race=True)
bug('C03-join-refused','C03','a long join text that is refused, and later a valid one that begins in the same way',
 'join texts that were refused are remembered by their first 40 bytes, so that they are refused at once the next time',
 [('parser/join.go','''	join, err := ParseJoin(subquery)
	if err != nil {
''','''	key := subquery
	if len(key) > 40 {
		key = key[:40]
	}
	if err, ok := refused.Load(key); ok {
		panic(fmt.Sprintf("loukoum: %s", err))
	}
	join, err := ParseJoin(subquery)
	if err != nil {
		refused.Store(key, err)
'''),('parser/join.go','''// MustParseJoin''','''// refused contains the errors of the texts that could not be parsed.
var refused sync.Map

// MustParseJoin'''),('parser/join.go','''	"strings"

''','''	"strings"
	"sync"

''')],
 prog([LK],'''
func try(on string) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = "refused"
		}
	}()
	return lk.Select("a").From("t").Join("u", on).String()
}

func main() {
	if try("t.identifier_of_a = u.identifier_of_b AND t.c =") != "refused" {
		return
	}
	if got := try("t.identifier_of_a = u.identifier_of_b AND t.c = u.c"); got == "refused" {
		fail("%s", got)
	}
}'''))
bug('C04-exists-memo','C04','a render of an EXISTS without values that is cut by the context in the middle of the subquery, then another render of the same piece',
 'EXISTS remembers the text of its subquery if it has no values, and a render that was cut leaves the part that was written',
 [('stmt/subquery.go','''type Exists struct {
	Subquery Expression
}
''','''type Exists struct {
	Subquery Expression
	text     *atomic.Pointer[string]
}

// recorder keeps what goes through it.
type recorder struct {
	types.Context
	text  strings.Builder
	binds int
}

func (r *recorder) Write(query string) {
	r.text.WriteString(query)
	r.Context.Write(query)
}

func (r *recorder) Bind(value interface{}) {
	r.binds++
	r.Context.Bind(value)
}
'''),('stmt/subquery.go','''	return Exists{
		Subquery: NewExpression(value),
	}
''','''	return Exists{
		Subquery: NewExpression(value),
		text:     &atomic.Pointer[string]{},
	}
'''),('stmt/subquery.go','''	exists.Subquery.Write(ctx)
''','''	exists.write(ctx)
'''),('stmt/subquery.go','''// IsEmpty returns true if statement is undefined.
func (Exists) IsEmpty() bool {
''','''func (exists Exists) write(ctx types.Context) {
	if exists.text == nil {
		exists.Subquery.Write(ctx)
		return
	}
	if text := exists.text.Load(); text != nil {
		ctx.Write(*text)
		return
	}
	r := &recorder{Context: ctx}
	defer func() {
		if text := r.text.String(); r.binds == 0 && text != "" {
			exists.text.Store(&text)
		}
	}()
	exists.Subquery.Write(r)
}

// IsEmpty returns true if statement is undefined.
func (Exists) IsEmpty() bool {
'''),('stmt/subquery.go','''import (
''','''import (
	"strings"
	"sync/atomic"

''')],
 prog([LK],'''
type cut struct{ n int }

func (c *cut) Write(string) {
	if c.n--; c.n == 0 {
		panic("full")
	}
}
func (c *cut) Bind(interface{}) {}

func main() {
	q := lk.Select("a").From("t").Where(lk.Exists(lk.Select("b").From("u").Where(lk.Condition("b").IsNull(true))))
	want := lk.Select("a").From("t").Where(lk.Exists(lk.Select("b").From("u").Where(lk.Condition("b").IsNull(true)))).String()
	func() {
		defer func() { recover() }()
		q.Statement().Write(&cut{18})
	}()
	if got := q.String(); got != want {
		fail("%s", got)
	}
}'''))
bug('C04-exit-flight','C04','many debug renders that are cut because a Valuer ends its goroutine',
 'the number of Valuers that run is limited to detect endless recursion; a run that ends with the goroutine is never taken off the count',
 [('format/format.go','''		v, err := value.Value()
		if err != nil {
''','''		v, err := run(value)
		if err != nil {
'''),('format/format.go','''// String formats the given string.
''','''// running is the number of valuers that run, and limit how many may run.
var running atomic.Int64

const limit = 200

func run(value driver.Valuer) (driver.Value, error) {
	if running.Add(1) > limit {
		running.Add(-1)
		return nil, errors.New("valuers call one another endlessly")
	}
	defer func() {
		if r := recover(); r != nil {
			running.Add(-1)
			panic(r)
		}
	}()
	v, err := value.Value()
	running.Add(-1)
	return v, err
}

// String formats the given string.
'''),('format/format.go','''	"encoding/hex"
''','''	"encoding/hex"
	"errors"
'''),('format/format.go','''	"strconv"
''','''	"strconv"
	"sync/atomic"
''')],
 prog([LK,VAL,'"runtime"'],'''
type exit struct{ now bool }

func (e exit) Value() (driver.Value, error) {
	if e.now {
		runtime.Goexit()
	}
	return int64(1), nil
}

func main() {
	for i := 0; i < 300; i++ {
		done := make(chan bool)
		go func() {
			defer close(done)
			_ = lk.Select("a").From("t").Where(lk.Condition("a").Equal(exit{true})).String()
		}()
		<-done
	}
	_ = lk.Select("a").From("t").Where(lk.Condition("a").Equal(exit{false})).String()
}'''))
bug('C05-select-merge','C05','an update of more than eight columns where one column is set twice, under two names for it that differ by an alias',
 'large sets are sorted by two goroutines and merged in the order in which they deliver',
 [('stmt/set.go','''	sort.Slice(columns, func(i, j int) bool {
		if columns[i].Name != columns[j].Name {
			return columns[i].Name < columns[j].Name
		}
		return columns[i].Alias < columns[j].Alias
	})
''','''	columns = sorted(columns)
'''),('stmt/set.go','''// Write exposes statement as a SQL query.
func (pairs PairContainer) Write(''','''// sorted sorts the columns; it sorts the halves of a long list in parallel.
func sorted(columns []Column) []Column {
	if len(columns) <= 8 {
		sort.Slice(columns, func(i, j int) bool {
			if columns[i].Name != columns[j].Name {
				return columns[i].Name < columns[j].Name
			}
			return columns[i].Alias < columns[j].Alias
		})
		return columns
	}
	half := len(columns) / 2
	left, right := make(chan []Column, 1), make(chan []Column, 1)
	go func() { left <- sorted(columns[:half:half]) }()
	go func() { right <- sorted(columns[half:]) }()
	var first, second []Column
	select {
	case first = <-left:
		second = <-right
	case first = <-right:
		second = <-left
	}
	list := make([]Column, 0, len(columns))
	for len(first) > 0 && len(second) > 0 {
		if first[0].Name <= second[0].Name {
			list, first = append(list, first[0]), first[1:]
		} else {
			list, second = append(list, second[0]), second[1:]
		}
	}
	return append(append(list, first...), second...)
}

// Write exposes statement as a SQL query.
func (pairs PairContainer) Write(''')],
 prog([LK,ST],'''
func main() {
	seen := map[string]bool{}
	for i := 0; i < 5000; i++ {
		args := []interface{}{lk.Pair(stmt.NewColumnAlias("a", "x"), 1)}
		for _, name := range []string{"b", "c", "d", "e", "f", "g", "h", "i"} {
			args = append(args, lk.Pair(name, 1))
		}
		args = append(args, lk.Pair(stmt.NewColumnAlias("a", "y"), 2))
		seen[lk.Update("t").Set(args...).String()] = true
	}
	if len(seen) != 1 {
		fail("%d texts", len(seen))
	}
}'''))
bug('C06-strings-whole','C06','a lexer over a strings.Reader of which something was read before',
 'the text of a strings.Reader is taken at once, from its beginning instead of from where it is',
 [('lexer/lexer.go','''	buffer := bufio.NewReader(input)
''','''	buffer := bufio.NewReader(input)
	if r, ok := input.(*strings.Reader); ok && r.Size() > 0 {
		// Take a text that is in memory at once.
		text := make([]byte, r.Size())
		if n, _ := r.ReadAt(text, 0); n == len(text) {
			buffer = bufio.NewReaderSize(bytes.NewReader(text), len(text))
		}
	}
'''),('lexer/lexer.go','''	"bufio"
	"io"
''','''	"bufio"
	"bytes"
	"io"
	"strings"
''')],
 prog(['"strings"','"github.com/ulule/loukoum/v3/lexer"'],'''
func main() {
	r := strings.NewReader("JOIN a")
	r.ReadByte()
	r.ReadByte()
	l := lexer.New(r)
	if t := l.Next(); t.Value != "IN" {
		fail("%v", t)
	}
}'''))
bug('C06-temporary','C06','a reader that fails twice in a row with errors that say they are temporary',
 'a temporary failure of the reader is tried again once; when it fails again, the input is taken to have ended',
 [('lexer/lexer.go','''	e, _, err := l.input.ReadRune()

	if err''','''	e, _, err := l.input.ReadRune()

	if again, ok := err.(interface{ Temporary() bool }); ok && again.Temporary() {
		e, _, err = l.input.ReadRune()
		if err != nil {
			err = io.EOF
		}
	}

	if err''')],
 prog(['"syscall"','"github.com/ulule/loukoum/v3/lexer"'],'''
type reader struct{ n int }

func (r *reader) Read(b []byte) (int, error) {
	if r.n++; r.n == 1 {
		return copy(b, "a = "), nil
	}
	return 0, syscall.EINTR
}

func main() {
	defer func() {
		if recover() == nil {
			fail("taken as complete")
		}
	}()
	l := lexer.New(&reader{})
	l.Iterator()
}'''))
bug('C07-chunk-edge','C07','a statement with exactly 64 or 128 values',
 'the positional arguments are kept in pieces of 64, and a last piece that is just full is counted twice',
 [('types/context.go','''	values []interface{}
}
''','''	values []interface{}
	full   [][]interface{}
	count  int
}
'''),('types/context.go','''	idx := len(ctx.values) + 1
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))
''','''	if len(ctx.values) == 64 {
		ctx.full = append(ctx.full, ctx.values)
		ctx.values = nil
	}
	ctx.count++
	ctx.values = append(ctx.values, value)
	if ctx.count > 64 && len(ctx.values) == 64 {
		ctx.full = append(ctx.full, ctx.values)
	}
	ctx.Write(fmt.Sprintf("$%d", ctx.count))
'''),('types/context.go','''func (ctx *StdContext) Values() []interface{} {
	return ctx.values
''','''func (ctx *StdContext) Values() []interface{} {
	if len(ctx.full) == 0 {
		return ctx.values
	}
	values := make([]interface{}, 0, ctx.count)
	for i := range ctx.full {
		values = append(values, ctx.full[i]...)
	}
	return append(values, ctx.values...)
''')],
 prog([LK],'''
func main() {
	list := make([]interface{}, 128)
	for i := range list {
		list[i] = i
	}
	_, args := lk.Select("a").From("t").Where(lk.Condition("a").In(list...)).Query()
	if len(args) != 128 {
		fail("%d", len(args))
	}
}'''))
bug('C08-big-text','C08','a text of more than 16 kB that the caller keeps while a later render is made',
 'long texts are not copied out of the buffer that the render borrowed, and the buffer is given back',
 [('types/context.go','''type RawContext struct {
	buffer strings.Builder
}
''','''type RawContext struct {
	buffer []byte
}

// spare contains the big buffers that can be used again.
var spare sync.Pool
'''),('types/context.go','''	_, err := ctx.buffer.WriteString(query)
	if err != nil {
		panic("loukoum: cannot write on buffer")
	}
''','''	if len(ctx.buffer)+len(query) > big && cap(ctx.buffer) < 4*big {
		if buffer, ok := spare.Get().(*[]byte); ok {
			ctx.buffer = append((*buffer)[:0], ctx.buffer...)
		}
	}
	ctx.buffer = append(ctx.buffer, query...)
'''),('types/context.go','''func (ctx *RawContext) Query() string {
	return ctx.buffer.String()
}
''','''func (ctx *RawContext) Query() string {
	if cap(ctx.buffer) < 4*big {
		return string(ctx.buffer)
	}
	buffer := ctx.buffer
	spare.Put(&buffer)
	return *(*string)(unsafe.Pointer(&buffer))
}

// big is the length of a text for which a buffer that was used before is taken.
const big = 4096
'''),('types/context.go','''	"fmt"
	"strings"
''','''	"fmt"
	"sync"
	"unsafe"
''')],
 prog([LK,'"strings"'],'''
func main() {
	a := lk.Select("a").From("t").Where(lk.Condition("a").Equal(strings.Repeat("x", 20000))).String()
	copied := strings.Clone(a)
	for i := 0; i < 1000; i++ {
		_ = lk.Select("b").From("u").Where(lk.Condition("b").Equal(strings.Repeat("y", 20000))).String()
	}
	if a != copied {
		fail("changed")
	}
}'''))
bug('C09-swap-back','C09','two threads that pass the same slice of strings to In at once',
 'the list given to In is put in order while duplicates are looked for, and then put back as it was',
 [('stmt/expression.go','''	case []string:
		for _, v := range values {
			array.Append(v)
		}
	case []int:
''','''	case []string:
		// Compare neighbours when a list has no duplicates at the ends.
		if n := len(values); n > 2 && values[0] > values[n-1] {
			values[0], values[n-1] = values[n-1], values[0]
			if values[0] == values[1] {
				values[0], values[n-1] = values[n-1], values[0]
				for _, v := range values {
					array.Append(v)
				}
				return array
			}
			values[0], values[n-1] = values[n-1], values[0]
		}
		for _, v := range values {
			array.Append(v)
		}
	case []int:
''')],
 prog([LK,'"sync"'],'''
func main() {
	list := []string{"c", "b", "a"}
	var wait sync.WaitGroup
	for i := 0; i < 8; i++ {
		wait.Add(1)
		go func() {
			defer wait.Done()
			_ = lk.Condition("a").In(list)
		}()
	}
	wait.Wait()
}'''),race=True)
bug('C10-retry','C10','an encoder that fails once, and would give something when asked again',
 'an encoder of strings that panics with an error is asked a second time',
 [('stmt/expression.go','''		return NewValue(value.String())
''','''		return NewValue(text(value))
'''),('stmt/expression.go','''// ----------------------------------------------------------------------------
// Identifier
''','''// text returns what the encoder gives; it is asked again if it fails for now.
func text(encoder StringEncoder) (text string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(error); !ok {
				panic(r)
			}
			text = encoder.String()
		}
	}()
	return encoder.String()
}

// ----------------------------------------------------------------------------
// Identifier
''')],
 prog([LK,'"errors"'],'''
type enc struct{ n int }

func (e *enc) String() string {
	if e.n++; e.n == 1 {
		panic(errors.New("not now"))
	}
	return "x"
}

func main() {
	e := &enc{}
	func() {
		defer func() { recover() }()
		lk.Condition("a").Equal(e)
	}()
	if e.n != 1 {
		fail("asked %d times", e.n)
	}
}'''))
bug('C11-result-memo','C11','a Valuer, given by pointer, that gives another value at its second debug render',
 'the value that a Valuer gave is remembered for the next debug render, by its address',
 [('format/format.go','''		v, err := value.Value()
		if err != nil {
			panic("loukoum: was not able to retrieve valuer value")
		}
		return Value(v)
''','''		if reflectvalue.Kind() == reflect.Ptr {
			if text, ok := formatted.Load(value); ok {
				return text.(string)
			}
		}
		v, err := value.Value()
		if err != nil {
			panic("loukoum: was not able to retrieve valuer value")
		}
		text := Value(v)
		if reflectvalue.Kind() == reflect.Ptr {
			formatted.Store(value, text)
		}
		return text
'''),('format/format.go','''// Value formats the given value.
''','''// formatted contains the texts of valuers that are pointers.
var formatted sync.Map

// Value formats the given value.
'''),('format/format.go','''	"strconv"
''','''	"strconv"
	"sync"
''')],
 prog([LK,VAL],'''
type val struct{ n int64 }

func (v *val) Value() (driver.Value, error) { v.n++; return v.n, nil }

func main() {
	q := lk.Select("a").From("t").Where(lk.Condition("a").Equal(&val{}))
	if q.String() == q.String() {
		fail("same")
	}
}'''))
bug('C11-convert','C11','a Valuer that gives an unsigned number above the range of int64',
 'the value of a Valuer is converted as a driver would, and one that no driver accepts is shown as NULL',
 [('format/format.go','''		return Value(v)
''','''		if !driver.IsValue(v) {
			if _, ok := v.(driver.Valuer); !ok {
				v, _ = driver.DefaultParameterConverter.ConvertValue(v)
			}
		}
		return Value(v)
''')],
 prog([LK,VAL,'"math"','"strings"'],'''
type val uint64

func (v val) Value() (driver.Value, error) { return uint64(v), nil }

func main() {
	if q := lk.Select("a").From("t").Where(lk.Condition("a").Equal(val(math.MaxUint64))).String(); !strings.Contains(q, "18446744073709551615") {
		fail("%s", q)
	}
}'''))
bug('C12-scratch-ring','C12','more than twelve threads that are stopped inside their Valuers',
 'the debug form takes one of twelve buffers while it formats a value, and waits for one to come back',
 [('types/context.go','''	ctx.Write(format.Value(value))
''','''	scratch := <-buffers
	defer func() { buffers <- scratch }()
	*scratch = append((*scratch)[:0], format.Value(value)...)
	ctx.Write(string(*scratch))
'''),('types/context.go','''// RawContext embeds''','''// buffers are those that values are formatted in.
var buffers = make(chan *[]byte, 12)

func init() {
	for i := 0; i < cap(buffers); i++ {
		buffers <- &[]byte{}
	}
}

// RawContext embeds''')],
 prog([LK,VAL,'"time"'],'''
type wait chan bool

func (w wait) Value() (driver.Value, error) { <-w; return int64(1), nil }

func main() {
	w := make(wait)
	for i := 0; i < 14; i++ {
		go func() {
			_ = lk.Select("a").From("t").Where(lk.Condition("a").Equal(w)).String()
		}()
	}
	time.Sleep(300 * time.Millisecond)
	done := make(chan bool)
	go func() {
		_ = lk.Select("a").From("t").Where(lk.Condition("a").Equal(1)).String()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("blocked")
	}
}'''))
bug('C13-order-intern','C13','a column of which both Asc and Desc are taken, with a name of more than twelve bytes',
 'the orders of columns with long names are kept for the next use, by the name only',
 [('stmt/column.go','''	return NewOrder(expression, types.Asc)
''','''	return order(expression, types.Asc)
'''),('stmt/column.go','''	return NewOrder(expression, types.Desc)
''','''	return order(expression, types.Desc)
'''),('stmt/column.go','''// Write exposes statement as a SQL query.
''','''// orders contains the orders on columns with long names.
var orders sync.Map

func order(expression string, kind types.OrderType) Order {
	if len(expression) <= 12 {
		return NewOrder(expression, kind)
	}
	order, _ := orders.LoadOrStore(expression, NewOrder(expression, kind))
	return order.(Order)
}

// Write exposes statement as a SQL query.
'''),('stmt/column.go','''import (
''','''import (
	"sync"

''')],
 prog([LK],'''
func main() {
	c := lk.Column("a_rather_long_name")
	c.Asc()
	if o := c.Desc(); o.Type != "DESC" {
		fail("%v", o)
	}
}'''))
