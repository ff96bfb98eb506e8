# ---- fifth round: first use, spinning, chains, shared small clauses
bug('C06-first-keywords','C06','two lexers that meet keywords for the very first time in the process, one of them preempted while it fills the table',
 'keywords are indexed by length on first use; the one that comes second finds the table marked as made though it is still being filled',
 [('token/token.go','''// Lookup will try to map a statement to a keyword.
func Lookup(e string) Type {
	n := strings.ToUpper(e)
	t, ok := keywords[n]
	if ok {
		return t
	}
	return Literal
}
''','''// byLength lists the keywords of each length; it is made when the first word is looked up.
var (
	byLength [16]atomic.Pointer[map[string]Type]
	indexed  atomic.Bool
)

// Lookup will try to map a statement to a keyword.
func Lookup(e string) Type {
	if indexed.CompareAndSwap(false, true) {
		tables := [16]map[string]Type{}
		for word, t := range keywords {
			if tables[len(word)] == nil {
				tables[len(word)] = map[string]Type{}
			}
			tables[len(word)][word] = t
		}
		for i := range tables {
			byLength[i].Store(&tables[i])
		}
	}
	n := strings.ToUpper(e)
	if len(n) < len(byLength) {
		if words := byLength[len(n)].Load(); words != nil {
			if t, ok := (*words)[n]; ok {
				return t
			}
		}
	}
	return Literal
}
'''),('token/token.go','''	"strings"
''','''	"strings"
	"sync/atomic"
''')],
 prog(['"os/exec"','"strings"','"sync"','"github.com/ulule/loukoum/v3/lexer"','"github.com/ulule/loukoum/v3/token"'],'''
type reader struct {
	wait *sync.WaitGroup
	text *strings.Reader
	once bool
}

func (r *reader) Read(b []byte) (int, error) {
	if !r.once {
		r.once = true
		r.wait.Done()
		r.wait.Wait()
	}
	return r.text.Read(b)
}

func main() {
	if len(os.Args) > 1 {
		var wait, all sync.WaitGroup
		wait.Add(8)
		bad := make([]bool, 8)
		for i := 0; i < 8; i++ {
			all.Add(1)
			go func(i int) {
				defer all.Done()
				l := lexer.New(&reader{wait: &wait, text: strings.NewReader("RETURNING")})
				bad[i] = l.Next().Type == token.Literal
			}(i)
		}
		all.Wait()
		for i := range bad {
			if bad[i] {
				os.Exit(5)
			}
		}
		return
	}
	for i := 0; i < 1500; i++ {
		if err := exec.Command(os.Args[0], "once").Run(); err != nil {
			fail("a keyword was read as a literal: %v", err)
		}
	}
}'''))

bug('C02-first-prefix','C02','two callers whose NamedQuery is the first of the process, one preempted between the two stores',
 'the prefix of named arguments is set up by the first caller that needs it, the flag before the text',
 [('types/context.go','''// NamedContext uses''','''// argPrefix is the prefix of the named arguments, which the first one that needs it sets up.
var (
	argReady  int32
	argPrefix atomic.Value
)

func argName(idx int) string {
	if atomic.CompareAndSwapInt32(&argReady, 0, 1) {
		prefix := strings.ToLower("ARG") + "_"
		argPrefix.Store(prefix)
	}
	prefix, _ := argPrefix.Load().(string)
	return fmt.Sprint(prefix, idx)
}

// NamedContext uses'''),('types/context.go','''	name := fmt.Sprintf("arg_%d", idx)
''','''	name := argName(idx)
'''),('types/context.go','''	"strings"
''','''	"strings"
	"sync/atomic"
''')],
 prog(['"os/exec"','"sync"',LK],'''
func main() {
	if len(os.Args) > 1 {
		var start, all sync.WaitGroup
		start.Add(1)
		bad := make([]bool, 8)
		for i := 0; i < 8; i++ {
			all.Add(1)
			go func(i int) {
				defer all.Done()
				q := lk.Select("a").From("t").Where(lk.Condition("a").Equal(1))
				start.Wait()
				_, m := q.NamedQuery()
				_, ok := m["arg_1"]
				bad[i] = !ok
			}(i)
		}
		start.Done()
		all.Wait()
		for i := range bad {
			if bad[i] {
				os.Exit(5)
			}
		}
		return
	}
	for i := 0; i < 3000; i++ {
		if err := exec.Command(os.Args[0], "once").Run(); err != nil {
			fail("an argument has another name: %v", err)
		}
	}
}'''))

bug('C12-ticket-spin','C12','a Valuer that stalls in the debug form while another caller renders, too',
 'debug texts are written one at a time, in the order in which callers drew a ticket, and those that wait spin',
 [('types/context.go','''// Bind adds given value in context's values.
func (ctx *RawContext) Bind(value interface{}) {
	ctx.Write(format.Value(value))
}
''','''var nextTicket, nowServing atomic.Int64

// Bind adds given value in context's values.
func (ctx *RawContext) Bind(value interface{}) {
	if _, ok := value.(driver.Valuer); !ok {
		ctx.Write(format.Value(value))
		return
	}
	ticket := nextTicket.Add(1) - 1
	for nowServing.Load() != ticket {
		runtime.Gosched()
	}
	defer nowServing.Add(1)
	ctx.Write(format.Value(value))
}
'''),('types/context.go','''import (
	"fmt"
	"strings"
''','''import (
	"database/sql/driver"
	"fmt"
	"runtime"
	"strings"
	"sync/atomic"
''')],
 prog(['"time"','"database/sql/driver"',LK],'''
type slow struct{ in, out chan struct{} }

func (s slow) Value() (driver.Value, error) {
	if s.in != nil {
		close(s.in)
		<-s.out
	}
	return "x", nil
}

func main() {
	s := slow{make(chan struct{}), make(chan struct{})}
	go func() { _ = lk.Select("a").From("t").Where(lk.Condition("a").Equal(s)).String() }()
	<-s.in
	done := make(chan struct{})
	go func() {
		_ = lk.Select("a").From("t").Where(lk.Condition("a").Equal(slow{})).String()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		fail("blocked behind the Valuer of another caller")
	}
}'''))

bug('C11-chain-depth','C11','a Valuer that gives a Valuer, and so on, more than three deep, the innermost failing',
 'chains of Valuers are followed three deep only: what comes then is printed as it is, so that a failure further down is not noticed',
 [('format/format.go','''// Value formats the given value.
func Value(arg interface{}) string { // nolint: gocyclo
	if arg == nil {
''','''// Value formats the given value.
func Value(arg interface{}) string {
	return nested(arg, 3)
}

// nested formats the given value, with so many valuers to follow.
func nested(arg interface{}, depth int) string { // nolint: gocyclo
	if arg == nil {
'''),('format/format.go','''		v, err := value.Value()
''','''		if depth == 0 {
			return "NULL"
		}
		v, err := value.Value()
'''),('format/format.go','''		return Value(v)
''','''		return nested(v, depth-1)
''')],
 prog(['"errors"','"database/sql/driver"',LK],'''
type chain int

func (c chain) Value() (driver.Value, error) {
	if c == 0 {
		return nil, errors.New("no value")
	}
	return c - 1, nil
}

func main() {
	defer func() {
		if recover() == nil {
			os.Exit(1)
		}
	}()
	fail("swallowed: %s", lk.Select("a").From("t").Where(lk.Condition("a").Equal(chain(4))).String())
}'''.replace('''	defer func() {
		if recover() == nil {
			os.Exit(1)
		}
	}()
	fail("swallowed: %s", ''','''	defer func() {
		if recover() == nil {
			fail("swallowed")
		}
	}()
	fmt.Println(''')))

bug('C01-paging','C01','LIMIT on a handle, then OFFSET on what came of it (the older one shows the offset)',
 'limit and offset live in one shared record that is made by the first of the two calls and changed by the second',
 [('stmt/select.go','''	Limit       Limit
	Offset      Offset
''','''	Page        *Page
''')] if False else [('builder/select.go','''type Select struct {
	query stmt.Select
}
''','''type Select struct {
	query stmt.Select
	page  *page
}

// page is the part of the result that was asked for.
type page struct {
	limit  stmt.Limit
	offset stmt.Offset
}
'''),('builder/select.go','''	b.query.Limit = ToLimit(value)
	return b
''','''	limit := ToLimit(value)
	if b.page == nil {
		b.page = &page{offset: b.query.Offset}
	}
	b.page.limit = limit
	b.query.Limit = limit
	return b
'''),('builder/select.go','''	b.query.Offset = ToOffset(value)
	return b
''','''	offset := ToOffset(value)
	if b.page == nil {
		b.page = &page{limit: b.query.Limit}
	}
	b.page.offset = offset
	b.query.Offset = offset
	return b
'''),('builder/select.go','''func (b Select) Statement() stmt.Statement {
	return b.query
''','''func (b Select) Statement() stmt.Statement {
	if b.page != nil {
		b.query.Limit, b.query.Offset = b.page.limit, b.page.offset
	}
	return b.query
''')],
 prog([LK],'''
func main() {
	a := lk.Select("a").From("t").Limit(10)
	sub := func() string { return lk.Select("x").From("y").Where(lk.Condition("x").In(a)).String() }
	before := sub()
	_ = a.Offset(5)
	if sub() != before {
		fail("%s became %s", before, sub())
	}
}'''))

bug('C03-pending','C03','more than 30 refused comparisons anywhere in the process before',
 'nested expressions are counted while they are made; a refusal leaves the count where it is, and after many of them every statement is refused',
 [('stmt/expression.go','''// NewExpression returns a new Expression instance from arg.
func NewExpression(arg interface{}) Expression { // nolint: gocyclo
	if arg == nil {
''','''// depth is how deep expressions are being converted, to stop encoders that never end.
var depth atomic.Int32

// NewExpression returns a new Expression instance from arg.
func NewExpression(arg interface{}) Expression { // nolint: gocyclo
	if depth.Add(1) > 40 {
		panic("loukoum: expression is nested too deeply")
	}
	expression := newExpression(arg)
	depth.Add(-1)
	return expression
}

func newExpression(arg interface{}) Expression { // nolint: gocyclo
	if arg == nil {
'''),('stmt/expression.go','''	"fmt"
	"time"
''','''	"fmt"
	"sync/atomic"
	"time"
''')],
 prog([LK],'''
func main() {
	q := lk.Select("a").From("t")
	for i := 0; i < 50; i++ {
		func() {
			defer func() { _ = recover() }()
			_ = lk.Condition("a").Equal(struct{}{})
		}()
	}
	defer func() {
		if e := recover(); e != nil {
			fail("refused: %v", e)
		}
	}()
	_ = q.Where(lk.Condition("a").Equal(1))
}'''))

bug('C09-in-sort','C09','IN with eight or more integers of the caller that are not in order',
 'long lists of integers are sorted for the planner, in the slice of the caller',
 [('stmt/expression.go','''	case []int:
''','''	case []int:
		if len(values) >= 8 {
			sort.Ints(values)
		}
'''),('stmt/expression.go','''	"fmt"
	"time"
''','''	"fmt"
	"sort"
	"time"
''')],
 prog([LK],'''
func main() {
	ids := []int{9, 8, 7, 6, 5, 4, 3, 2, 1}
	_ = lk.Select("a").From("t").Where(lk.Condition("a").In(ids))
	if ids[0] != 9 {
		fail("%v", ids)
	}
}'''))

bug('C06-rune-reader','C06','a reader that has ReadRune as well, and that fails in the middle of the text',
 'a reader of runes is used as it is, and its failure is taken for the end of the text',
 [('lexer/lexer.go','''	input  *bufio.Reader
''','''	input  io.RuneReader
'''),('lexer/lexer.go','''	buffer := bufio.NewReader(input)

	l := Lexer{}
	l.input = buffer
''','''	l := Lexer{}
	if runes, ok := input.(io.RuneReader); ok {
		l.input = exact{runes}
	} else {
		l.input = bufio.NewReader(input)
	}
'''),('lexer/lexer.go','''// New return a new''','''// exact reads the runes of a reader that needs no buffer.
type exact struct {
	io.RuneReader
}

// ReadRune reads one rune; there is none left when nothing was read.
func (e exact) ReadRune() (rune, int, error) {
	r, size, err := e.RuneReader.ReadRune()
	if size == 0 && err != nil {
		return 0, 0, io.EOF
	}
	return r, size, err
}

// New return a new''')],
 prog(['"errors"','"strings"','"github.com/ulule/loukoum/v3/lexer"'],'''
type reader struct {
	*strings.Reader
	n int
}

func (r *reader) Read(b []byte) (int, error) {
	if r.n++; r.n > 1 {
		return 0, errors.New("cut")
	}
	return r.Reader.Read(b[:3])
}

func (r *reader) ReadRune() (rune, int, error) {
	if r.n++; r.n > 3 {
		return 0, 0, errors.New("cut")
	}
	return r.Reader.ReadRune()
}

func main() {
	defer func() {
		if recover() == nil {
			fail("a failure of the reader was taken for the end")
		}
	}()
	l := lexer.New(&reader{Reader: strings.NewReader("SELECT a")})
	fmt.Println(l.Iterator().HasNext())
}'''))

bug('C13-alias-intern','C13','two columns of one name, of which one gets an alias, at the same handle of an interned column',
 'columns are interned by name, and As sets the alias of the interned one until it is written',
 [('stmt/column.go','''// As is used to give an alias name to the column.
func (column Column) As(alias string) Column {
	column.Alias = alias
	return column
}
''','''// As is used to give an alias name to the column.
func (column Column) As(alias string) Column {
	if known, ok := aliased.Load(column.Name + " " + strings.ToLower(alias)); ok {
		return known.(Column)
	}
	name := column.Name
	column.Alias = alias
	aliased.Store(name+" "+strings.ToLower(alias), column)
	return column
}

// aliased are the columns that were given an alias.
var aliased sync.Map
'''),('stmt/column.go','''import (
''','''import (
	"strings"
	"sync"

''')],
 prog([LK],'''
func main() {
	want := lk.Select(lk.Column("a").As("Total")).From("t").String()
	_ = lk.Column("b").As("x")
	q := lk.Select(lk.Column("a").As("TOTAL")).From("t").String()
	if q == want {
		fail("%s", q)
	}
}'''))

bug('C10-in-probe','C10','an encoder as the only argument of IN',
 'a single argument of IN is converted once to see whether it is a subquery, and once more to be used',
 [('stmt/expression.go','''	default:
		array.Append(value)
	}
	return array
''','''	default:
		if _, ok := NewExpression(value).(Select); ok {
			array.Values = make([]Expression, 0, 1)
		}
		array.Append(value)
	}
	return array
''')],
 prog([LK],'''
type counter struct{ n int64 }

func (c *counter) Int64() int64 { c.n++; return c.n }

func main() {
	c := &counter{}
	q := lk.Select("a").From("t").Where(lk.Condition("a").In(c)).String()
	if c.n != 1 {
		fail("consulted %d times: %s", c.n, q)
	}
}'''))

bug('C04-bind-depth','C04','more than a few renders whose context ended the goroutine or panicked while a value was bound',
 'values that are being bound are counted to bound recursion, and a render that is cut leaves the count where it is; in the end values are written as NULL',
 [('stmt/expression.go','''// Write exposes statement as a SQL query.
func (value Value) Write(ctx types.Context) {
''','''// binding is how many values are being bound.
var binding atomic.Int32

// Write exposes statement as a SQL query.
func (value Value) Write(ctx types.Context) {
	if binding.Add(1) > 100 {
		ctx.Write("NULL")
		binding.Add(-1)
		return
	}
	value.write(ctx)
	binding.Add(-1)
}

func (value Value) write(ctx types.Context) {
'''),('stmt/expression.go','''	"fmt"
	"time"
''','''	"fmt"
	"sync/atomic"
	"time"
''')],
 prog([LK,'"database/sql/driver"','"errors"'],'''
type bad struct{}

func (bad) Value() (driver.Value, error) { return nil, errors.New("no") }

func main() {
	good := lk.Select("a").From("t").Where(lk.Condition("a").Equal(1))
	before := good.String()
	for i := 0; i < 200; i++ {
		func() {
			defer func() { _ = recover() }()
			_ = lk.Select("a").From("t").Where(lk.Condition("a").Equal(bad{})).String()
		}()
	}
	if good.String() != before {
		fail("%s", good.String())
	}
}'''))

bug('C08-named-share','C08','a statement whose NamedQuery is asked for twice, the caller changing the first map',
 'the argument map of a statement without subqueries is remembered by the handle for the next render',
 [('builder/insert.go','''type Insert struct {
	query stmt.Insert
}
''','''type Insert struct {
	query stmt.Insert
	last  *atomic.Value
}

// rendered is what a render of the statement gave.
type rendered struct {
	text   string
	values map[string]interface{}
}
'''),('builder/insert.go','''	ctx := &types.NamedContext{}
	b.query.Write(ctx)
	return ctx.Query(), ctx.Values()
''','''	ctx := &types.NamedContext{}
	b.query.Write(ctx)
	if b.last != nil {
		if last, ok := b.last.Load().(rendered); ok && last.text == ctx.Query() && reflect.DeepEqual(keys(last.values), keys(ctx.Values())) {
			return last.text, last.values
		}
		b.last.Store(rendered{ctx.Query(), ctx.Values()})
	}
	return ctx.Query(), ctx.Values()
'''),('builder/insert.go','''// Set is a wrapper''','''func keys(values map[string]interface{}) []string {
	list := make([]string, 0, len(values))
	for key := range values {
		list = append(list, key)
	}
	sort.Strings(list)
	return list
}

// Set is a wrapper'''),
 ('builder/insert.go','''import (
	"fmt"
''','''import (
	"fmt"
	"reflect"
	"sort"
	"sync/atomic"
'''),
 ('builder/insert.go','''	b.query.Returning = stmt.NewReturning(ToSelectExpressions(values))
''','''	b.query.Returning = stmt.NewReturning(ToSelectExpressions(values))
	b.last = &atomic.Value{}
''')],
 prog([LK],'''
func main() {
	q := lk.Insert("t").Columns("a").Values(1).Returning("id")
	_, m := q.NamedQuery()
	m["arg_1"] = 2
	_, n := q.NamedQuery()
	if n["arg_1"] != 1 {
		fail("%v", n)
	}
}'''))
