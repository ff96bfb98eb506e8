# ---- eighth round: timers, select statements, finalizers, slots
bug('C12-semaphore','C12','driver values that render statements with driver values, several levels deep, or several threads in slow driver values at once',
 'no more than three driver values are expanded at the same time, and one that renders waits for itself',
 [('format/format.go','''		v, err := value.Value()
		if err != nil {
''','''		v, err := expand(value)
		if err != nil {
'''),('format/format.go','''// String formats the given string.
''','''// valuers limits how many driver values are expanded at once.
var valuers = make(chan struct{}, 3)

func expand(value driver.Valuer) (driver.Value, error) {
	valuers <- struct{}{}
	defer func() { <-valuers }()
	return value.Value()
}

// String formats the given string.
''')],
 prog([LK,'"database/sql/driver"','"time"'],'''
type nest int

func (n nest) Value() (driver.Value, error) {
	if n == 0 {
		return "end", nil
	}
	return lk.Select("a").From("t").Where(lk.Condition("a").Equal(n - 1)).String(), nil
}

func main() {
	done := make(chan string)
	go func() { done <- lk.Select("a").From("t").Where(lk.Condition("a").Equal(nest(5))).String() }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		fail("no end")
	}
}'''))
bug('C11-valuer-timeout','C11','a driver value that takes longer than others to answer',
 'a driver value that does not answer in time is shown as NULL, as if it had given it',
 [('format/format.go','''		v, err := value.Value()
		if err != nil {
			panic("loukoum: was not able to retrieve valuer value")
		}
		return Value(v)
''','''		return expand(value)
'''),('format/format.go','''// String formats the given string.
''','''// expansion is what a driver value answered.
type expansion struct {
	value driver.Value
	err   error
	cause interface{}
	ended bool
}

// expand formats what the driver value answers.
func expand(value driver.Valuer) string {
	answers := make(chan expansion, 1)
	go func() {
		answer := expansion{}
		defer func() {
			answer.cause = recover()
			answers <- answer
		}()
		answer.value, answer.err = value.Value()
		answer.ended = true
	}()

	timer := time.NewTimer(100 * time.Millisecond)
	defer timer.Stop()

	select {
	case answer := <-answers:
		if answer.cause != nil {
			panic(answer.cause)
		}
		if answer.err != nil || !answer.ended {
			panic("loukoum: was not able to retrieve valuer value")
		}
		return Value(answer.value)
	case <-timer.C:
		// This is debug text: do not keep the caller waiting.
		return "NULL"
	}
}

// String formats the given string.
''')],
 prog([LK,'"database/sql/driver"','"time"','"strings"'],'''
type slow struct{}

func (slow) Value() (driver.Value, error) {
	time.Sleep(600 * time.Millisecond)
	return "late", nil
}

func main() {
	s := lk.Select("a").From("t").Where(lk.Condition("a").Equal(slow{})).String()
	if !strings.Contains(s, "'late'") {
		fail("%s", s)
	}
}'''))
LEASE='''var buffers = sync.Pool{New: func() interface{} { return &bytes.Buffer{} }}

// patience is for how long a context may hold its buffer.
const patience = 200 * time.Millisecond

// RawContext embeds values directly in the query.
type RawContext struct {
	buffer *bytes.Buffer
	text   string
}

// Write appends given subquery in context's buffer.
func (ctx *RawContext) Write(query string) {
	if ctx.buffer == nil {
		ctx.buffer = buffers.Get().(*bytes.Buffer)
		ctx.buffer.Reset()
		ctx.buffer.WriteString(ctx.text)
		ctx.lease(ctx.buffer)
	}
	_, err := ctx.buffer.WriteString(query)
	if err != nil {
		panic("loukoum: cannot write on buffer")
	}
}

// lease gives the buffer back when a render was aborted and will never do it.
func (ctx *RawContext) lease(buffer *bytes.Buffer) {
	time.AfterFunc(patience, func() { buffers.Put(buffer) })
}
'''
bug('C12-lease','C12','a caller that takes long in the middle of a render, and another render meanwhile',
 'the buffer of a render that takes long counts as abandoned, and is handed to the next one',
 [('types/context.go','''// RawContext embeds values directly in the query.
type RawContext struct {
	buffer strings.Builder
}

// Write appends given subquery in context's buffer.
func (ctx *RawContext) Write(query string) {
	_, err := ctx.buffer.WriteString(query)
	if err != nil {
		panic("loukoum: cannot write on buffer")
	}
}
''',LEASE),('types/context.go','''	"fmt"
	"strings"
''','''	"bytes"
	"fmt"
	"sync"
	"time"
'''),('types/context.go','''	return ctx.buffer.String()
''','''	if ctx.buffer != nil {
		ctx.text, ctx.buffer = ctx.buffer.String(), nil
	}
	return ctx.text
''')],
 prog([LK,'"database/sql/driver"','"time"','"runtime"'],'''
type slow struct{}

func (slow) Value() (driver.Value, error) {
	time.Sleep(500 * time.Millisecond)
	for i := 0; i < 20; i++ {
		lk.Select("other").From("u").String()
	}
	return "late", nil
}

func main() {
	runtime.GOMAXPROCS(1)
	s := lk.Select("a").From("t").Where(lk.Condition("a").Equal(slow{}))
	want := s.String()
	for i := 0; i < 3; i++ {
		if got := s.String(); got != want || len(got) != len(`SELECT "a" FROM "t" WHERE ("a" = 'late')`) {
			fail("%s / %s", got, want)
		}
	}
}'''))
bug('C05-merge-sort','C05','a SET clause with one column under several aliases, on machines with different numbers of processors',
 'the columns are sorted in as many parts as there are processors, and merged by name only',
 [('stmt/set.go','''	sort.Slice(columns, func(i, j int) bool {
		if columns[i].Name != columns[j].Name {
			return columns[i].Name < columns[j].Name
		}
		return columns[i].Alias < columns[j].Alias
	})

	expressions''','''	columns = sorted(columns, runtime.GOMAXPROCS(0))

	expressions'''),('stmt/set.go','''	"sort"

''','''	"runtime"
	"sort"
	"sync"

'''),('stmt/set.go','''// Write exposes statement as a SQL query.
func (pairs PairContainer) Write(''','''// sorted sorts the columns with the given number of goroutines.
func sorted(columns []Column, parts int) []Column {
	if parts < 2 || len(columns) < 4 {
		sort.Slice(columns, func(i, j int) bool {
			if columns[i].Name != columns[j].Name {
				return columns[i].Name < columns[j].Name
			}
			return columns[i].Alias < columns[j].Alias
		})
		return columns
	}

	half := len(columns) / 2
	low, high := columns[:half], columns[half:]

	var group sync.WaitGroup
	group.Add(1)
	go func() {
		defer group.Done()
		low = sorted(low, parts/2)
	}()
	high = sorted(high, parts-parts/2)
	group.Wait()

	merged := make([]Column, 0, len(columns))
	for len(low) > 0 && len(high) > 0 {
		if high[0].Name < low[0].Name {
			merged, high = append(merged, high[0]), high[1:]
			continue
		}
		merged, low = append(merged, low[0]), low[1:]
	}
	return append(append(merged, low...), high...)
}

// Write exposes statement as a SQL query.
func (pairs PairContainer) Write(''')],
 prog([LK,'"runtime"'],'''
func main() {
	u := lk.Update("t").Set(lk.Pair(lk.Column("b").As("z"), 1), lk.Pair("c", 2), lk.Pair(lk.Column("b").As("a"), 3), lk.Pair("d", 4))
	runtime.GOMAXPROCS(1)
	one := u.String()
	runtime.GOMAXPROCS(4)
	if four := u.String(); four != one {
		fail("%s / %s", one, four)
	}
}'''))
bug('C08-grace','C08','a list of arguments that the caller keeps for some time',
 'lists of arguments are recycled some time after the render, when the driver is supposed to be done with them',
 [('types/context.go','''	idx := len(ctx.values) + 1
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))
''','''	if ctx.values == nil {
		ctx.values = lists.Get().([]interface{})[:0]
	}
	idx := len(ctx.values) + 1
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))
'''),('types/context.go','''// Values returns the positional argument values.
func (ctx *StdContext) Values() []interface{} {
	return ctx.values
''','''// grace is how long the driver may use a list of arguments.
const grace = 300 * time.Millisecond

var lists = sync.Pool{New: func() interface{} { return make([]interface{}, 0, 16) }}

// Values returns the positional argument values.
func (ctx *StdContext) Values() []interface{} {
	if values := ctx.values; len(values) > 8 {
		time.AfterFunc(grace, func() {
			for i := range values {
				values[i] = nil
			}
			lists.Put(values)
		})
	}
	return ctx.values
'''),('types/context.go','''	"strings"
''','''	"strings"
	"sync"
	"time"
''')],
 prog([LK,'"time"'],'''
func main() {
	_, args := lk.Select("a").From("t").Where(lk.Condition("a").In(1, 2, 3, 4, 5, 6, 7, 8, 9)).Query()
	time.Sleep(time.Second)
	if args[3] != 4 {
		fail("%v", args)
	}
}'''))
bug('C06-slow-reader','C06','a reader that delivers nothing for a while',
 'the input is read ahead by a goroutine, and a reader that is slow to deliver counts as one that is at its end',
 [('lexer/lexer.go','''	buffer := bufio.NewReader(input)
''','''	buffer := bufio.NewReader(&ahead{input: input})
'''),('lexer/lexer.go','''// New return a new Lexer from given source.
''','''// ahead reads in a goroutine of its own.
type ahead struct {
	input  io.Reader
	chunks chan chunk
	rest   []byte
	err    error
}

type chunk struct {
	data []byte
	err  error
	fail interface{}
}

func (a *ahead) pump() {
	c := chunk{}
	defer func() {
		if e := recover(); e != nil {
			c.fail = e
			a.chunks <- c
		}
	}()
	for c.err == nil {
		buffer := make([]byte, 512)
		n, err := a.input.Read(buffer)
		c = chunk{data: buffer[:n], err: err}
		a.chunks <- c
	}
}

// Read gives what was read ahead.
func (a *ahead) Read(p []byte) (int, error) {
	if a.chunks == nil {
		a.chunks = make(chan chunk, 512)
		go a.pump()
	}
	if len(a.rest) == 0 && a.err == nil {
		select {
		case c := <-a.chunks:
			if c.fail != nil {
				panic(c.fail)
			}
			a.rest, a.err = c.data, c.err
		case <-time.After(time.Second):
			return 0, io.EOF
		}
	}
	n := copy(p, a.rest)
	a.rest = a.rest[n:]
	if len(a.rest) == 0 {
		return n, a.err
	}
	return n, nil
}

// New return a new Lexer from given source.
'''),('lexer/lexer.go','''	"io"

''','''	"io"
	"time"

''')],
 prog(['"github.com/ulule/loukoum/v3/lexer"','"io"','"strings"','"time"'],'''
type late struct {
	io.Reader
	n int
}

func (l *late) Read(p []byte) (int, error) {
	l.n++
	if l.n == 2 {
		time.Sleep(2500 * time.Millisecond)
	}
	if len(p) > 4 {
		p = p[:4]
	}
	return l.Reader.Read(p)
}

func count(r io.Reader) (n int) {
	l := lexer.New(r)
	it := l.Iterator()
	for it.HasNext() {
		it.Next()
		n++
	}
	return n
}

func main() {
	text := "t2 ON t1.id = t2.id"
	want := count(strings.NewReader(text))
	if got := count(&late{Reader: strings.NewReader(text)}); got != want {
		fail("%d / %d", got, want)
	}
}'''))
bug('C10-second-try','C10','an encoder that takes long to answer',
 'an encoder that does not answer in time is asked again, and the second answer counts',
 [('stmt/expression.go','''		return NewValue(value.Int64())
''','''		return NewValue(number(value))
'''),('stmt/expression.go','''// ----------------------------------------------------------------------------
// Identifier
// ----------------------------------------------------------------------------
''','''// number asks an encoder, which may have to fetch its number from somewhere.
func number(encoder Int64Encoder) int64 {
	answers := make(chan int64, 1)
	failures := make(chan interface{}, 1)
	go func() {
		defer func() { failures <- recover() }()
		answers <- encoder.Int64()
	}()
	select {
	case n := <-answers:
		return n
	case e := <-failures:
		select {
		case n := <-answers:
			return n
		default:
			panic(e)
		}
	case <-time.After(200 * time.Millisecond):
		return encoder.Int64()
	}
}

// ----------------------------------------------------------------------------
// Identifier
// ----------------------------------------------------------------------------
''')],
 prog([LK,'"time"','"sync/atomic"'],'''
type counter struct{ n *int64 }

func (c counter) Int64() int64 {
	n := atomic.AddInt64(c.n, 1)
	time.Sleep(600 * time.Millisecond)
	return n
}

func main() {
	var n int64
	lk.Select("a").From("t").Where(lk.Condition("a").Equal(counter{&n}))
	if n != 1 {
		fail("asked %d times", n)
	}
}'''))
bug('C04-slot-leak','C04','several dozen renders that are aborted, in one process',
 'renders take one of 64 slots, and those that are aborted keep it',
 [('types/context.go','''// Bind adds given value in context's values.
func (ctx *RawContext) Bind(value interface{}) {
	ctx.Write(format.Value(value))
}
''','''// formatting limits how many values are formatted at the same time.
var formatting = make(chan struct{}, 64)

// Bind adds given value in context's values.
func (ctx *RawContext) Bind(value interface{}) {
	formatting <- struct{}{}
	text := format.Value(value)
	<-formatting
	ctx.Write(text)
}
''')],
 prog([LK,'"database/sql/driver"','"time"','"errors"'],'''
type bad struct{}

func (bad) Value() (driver.Value, error) { return nil, errors.New("bad") }

func main() {
	done := make(chan bool)
	go func() {
		for i := 0; i < 100; i++ {
			func() {
				defer func() { recover() }()
				_ = lk.Select("a").From("t").Where(lk.Condition("a").Equal(bad{})).String()
			}()
		}
		_ = lk.Select("a").From("t").Where(lk.Condition("a").Equal(1)).String()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		fail("no end")
	}
}'''))
bug('C09-late-copy','C09','a long list of values, which the caller overwrites right after the call',
 'long lists are copied by a goroutine, which the render waits for but the call does not',
 [('stmt/expression.go','''	case []int64:
		for _, v := range values {
			array.Append(v)
		}
	case []uint64:''','''	case []int64:
		if len(values) > 12 {
			array.Values = make([]Expression, 1)
			array.Values[0] = later(values)
			return array
		}
		for _, v := range values {
			array.Append(v)
		}
	case []uint64:'''),('stmt/expression.go','''func (Array) expression() {}
''','''// long is a long list of numbers.
type long struct {
	ready chan struct{}
	list  []Expression
}

func later(values []int64) *long {
	l := &long{ready: make(chan struct{})}
	go func() {
		defer close(l.ready)
		for _, v := range values {
			l.list = append(l.list, NewValue(v))
		}
	}()
	return l
}

func (*long) expression() {}

// Write exposes statement as a SQL query.
func (l *long) Write(ctx types.Context) {
	<-l.ready
	Array{Values: l.list}.Write(ctx)
}

// IsEmpty returns true if statement is undefined.
func (l *long) IsEmpty() bool { return false }

func (Array) expression() {}
''')],
 prog([LK,'"runtime"','"time"'],'''
func main() {
	runtime.GOMAXPROCS(1)
	for i := 0; i < 50; i++ {
		list := make([]int64, 200000)
		s := lk.Select("a").From("t").Where(lk.Condition("a").In(list))
		for j := range list {
			list[j] = 7
		}
		time.Sleep(time.Millisecond)
		_, args := s.Query()
		for _, a := range args {
			if a != int64(0) {
				fail("%v", a)
			}
		}
	}
}'''))
bug('C13-cte-intern','C13','two common table expressions of one name whose debug text is the same, though the values bound are not',
 'common table expressions are kept by name and debug text, and one of them stands for the other',
 [('stmt/with.go','''	return WithQuery{
		Name:     name,
		Subquery: NewExpression(value),
	}
''','''	query := WithQuery{
		Name:     name,
		Subquery: NewExpression(value),
	}
	if query.IsEmpty() {
		return query
	}

	// The same expression is often given again and again: keep one copy of it.
	ctx := &types.RawContext{}
	query.Write(ctx)
	known, _ := queries.LoadOrStore(ctx.Query(), query)
	return known.(WithQuery)
'''),('stmt/with.go','''// NewWithQuery returns''','''var queries sync.Map

// NewWithQuery returns'''),('stmt/with.go','''import (
''','''import (
	"sync"

''')],
 prog([LK],'''
func main() {
	a := lk.With("w", lk.Select("a").From("t").Where(lk.Condition("a").Equal(int32(1))))
	b := lk.With("w", lk.Select("a").From("t").Where(lk.Condition("a").Equal(int64(1))))
	_, x := lk.Select("a").From("w").With(a).Query()
	_, y := lk.Select("a").From("w").With(b).Query()
	if x[0] != int32(1) || y[0] != int64(1) {
		fail("%T %T", x[0], y[0])
	}
}'''))
bug('C02-expiring','C02','a thread that renders while the table of quoted names is being emptied',
 'the table of quoted names is looked at twice, and a timer may empty it in between',
 [('stmt/stmt.go','''func quote(ident string) string {
''','''// lifetime is for how long quoted names are kept.
const lifetime = 300 * time.Millisecond

var (
	mutex   sync.RWMutex
	names   = map[string]string{}
	pending bool
)

func known(ident string) bool {
	mutex.RLock()
	defer mutex.RUnlock()
	_, ok := names[ident]
	return ok
}

func name(ident string) string {
	mutex.RLock()
	defer mutex.RUnlock()
	return names[ident]
}

func remember(ident string, quoted string) {
	mutex.Lock()
	defer mutex.Unlock()
	names[ident] = quoted
	if !pending {
		pending = true
		time.AfterFunc(lifetime, func() {
			mutex.Lock()
			defer mutex.Unlock()
			names = map[string]string{}
			pending = false
		})
	}
}

func quote(ident string) string {
	if known(ident) {
		return name(ident)
	}
	quoted := quoteIdent(ident)
	remember(ident, quoted)
	return quoted
}

func quoteIdent(ident string) string {
'''),('stmt/stmt.go','''import (
''','''import (
	"sync"
	"time"

''')],
 prog([LK,'"time"'],'''
func main() {
	s := lk.Select("a", "b", "c", "d", "e").From("t")
	want := s.String()
	end := time.Now().Add(8 * time.Second)
	bad := make(chan string, 8)
	for i := 0; i < 8; i++ {
		go func() {
			for time.Now().Before(end) {
				if got := s.String(); got != want {
					bad <- got
					return
				}
			}
		}()
	}
	select {
	case got := <-bad:
		fail("%s", got)
	case <-time.After(9 * time.Second):
	}
}'''))
bug('C07-row-stride','C07','rows of different numbers of bound values, of which there are many',
 'the placeholders of long lists of rows are numbered by row and column, as if every row bound as many values as the first',
 [('stmt/expression.go','''func (array ArrayList) Write(ctx types.Context) {
	for''','''func (array ArrayList) Write(ctx types.Context) {
	if std, ok := ctx.(*types.StdContext); ok && len(array.Values) > 3 {
		array.rows(std)
		return
	}
	for'''),('stmt/expression.go','''// IsEmpty returns true if statement is undefined.
func (array ArrayList) IsEmpty''','''// rows writes many rows.
func (array ArrayList) rows(ctx *types.StdContext) {
	stride := 0
	for i, value := range array.Values {
		if i > 0 {
			ctx.Write(", ")
		}
		if i == 1 {
			stride = len(ctx.Values()) - ctx.Base()
		}
		ctx.From(i * stride)
		ctx.Write("(")
		value.Write(ctx)
		ctx.Write(")")
	}
}

// IsEmpty returns true if statement is undefined.
func (array ArrayList) IsEmpty'''),('types/context.go','''	RawContext
	values []interface{}
}
''','''	RawContext
	values []interface{}
	base   int
	rows   bool
	next   int
}

// Base returns the number of values that were bound before the rows.
func (ctx *StdContext) Base() int {
	if !ctx.rows {
		return 0
	}
	return ctx.base
}

// From starts a row whose first value has the given number, counted from the first row.
func (ctx *StdContext) From(n int) {
	if !ctx.rows {
		ctx.rows, ctx.base = true, len(ctx.values)
	}
	ctx.next = ctx.base + n
}
'''),('types/context.go','''	idx := len(ctx.values) + 1
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))
''','''	idx := len(ctx.values) + 1
	ctx.values = append(ctx.values, value)
	if ctx.rows {
		ctx.next++
		idx = ctx.next
	}
	ctx.Write(fmt.Sprintf("$%d", idx))
''')],
 prog([LK,'"strings"'],'''
func main() {
	q, args := lk.Insert("t").Columns("a", "b").Values([][]interface{}{{1, 2}, {lk.Raw("now()"), 4}, {5, 6}, {7, 8}}).Query()
	if len(args) != 7 || strings.Contains(q, "$8") || strings.Count(q, "$5") != 1 {
		fail("%s %v", q, args)
	}
}'''))
