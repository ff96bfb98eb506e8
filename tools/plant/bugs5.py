# ---- third round: memos, goroutines, rare kinds of values, deep histories
bug('C01-render-memo','C01','a select that is rendered, then given an offset, then rendered as debug text',
 'a select keeps its debug text once it is made; deriving with Offset does not forget it',
 [('builder/select.go','''type Select struct {
	query stmt.Select
}
''','''type Select struct {
	query stmt.Select
	text  *debugText
}

// debugText keeps what String gave, since logs ask for it again and again.
type debugText struct {
	sync.Mutex
	query string
	value string
}
'''),
 ('builder/select.go','	"fmt"\n\n','	"fmt"\n	"sync"\n\n'),
 ('builder/select.go','''	b.query.Offset = ToOffset(value)
	return b
''','''	b.query.Offset = ToOffset(value)
	b.text = b.fresh()
	return b
'''),
 ('builder/select.go','''	ctx := &types.RawContext{}
	b.query.Write(ctx)
	return ctx.Query()
''','''	ctx := &types.RawContext{}
	if b.text == nil || len(b.query.Joins) != 0 || !b.query.Comment.IsEmpty() {
		b.query.Write(ctx)
		return ctx.Query()
	}
	b.text.Lock()
	defer b.text.Unlock()
	key := fmt.Sprint(b.query.Offset, b.query.Limit)
	if b.text.value == "" || b.text.query != key {
		b.query.Write(ctx)
		b.text.query, b.text.value = key, ctx.Query()
	}
	return b.text.value
'''),
 ('builder/select.go','''func handleSelectJoin(''','''func (b Select) fresh() *debugText {
	if b.query.Limit.IsEmpty() {
		return nil
	}
	return &debugText{}
}

func handleSelectJoin(''')],
 prog([LK],'''
func main() {
	base := lk.Select("a").From("t").Limit(10).Offset(5)
	_ = base.String()
	next := base.Where(lk.Condition("id").Equal(1))
	if got, want := next.String(), `SELECT "a" FROM "t" WHERE ("id" = 1) LIMIT 10 OFFSET 5`; got != want {
		fail("%s", got)
	}
}'''))
bug('C01-where-merge','C01','two ORs given to one statement that already has an OR',
 'conditions combined by OR are kept in one list, which derived statements append to in place',
 [('stmt/where.go','''	left := where.Condition
	operator := NewOrOperator()
	where.Condition = NewInfixExpression(left, operator, NewWrapper(right))
	return where
''','''	operator := NewOrOperator()
	if chain, ok := where.Condition.(anyOf); ok {
		where.Condition = append(chain, NewWrapper(right))
		return where
	}
	if infix, ok := where.Condition.(InfixExpression); ok && infix.Operator == Operator(operator) {
		where.Condition = anyOf{infix.Left, infix.Right, NewWrapper(right)}
		return where
	}
	where.Condition = NewInfixExpression(where.Condition, operator, NewWrapper(right))
	return where
'''),('stmt/where.go','''// Ensure that Where is a Statement
''','''// anyOf is a chain of conditions.
type anyOf []Expression

func (anyOf) expression() {}

// IsEmpty returns true if statement is undefined.
func (chain anyOf) IsEmpty() bool {
	return len(chain) == 0
}

// Write exposes statement as a SQL query.
func (chain anyOf) Write(ctx types.Context) {
	for range chain[1:] {
		ctx.Write("(")
	}
	chain[0].Write(ctx)
	for i := range chain[1:] {
		ctx.Write(" ")
		NewOrOperator().Write(ctx)
		ctx.Write(" ")
		chain[i+1].Write(ctx)
		ctx.Write(")")
	}
}

// Ensure that Where is a Statement
''')],
 prog([LK],'''
func main() {
	c := func(n int) lk_cond { return lk.Condition("a").Equal(n) }
	base := lk.Select("a").From("t").Where(c(1)).Or(c(2)).Or(c(3)).Or(c(4))
	one := base.Or(c(5))
	want := one.String()
	_ = base.Or(c(6))
	if got := one.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}

type lk_cond = stmt.InfixExpression
''').replace('lk_cond','cond') if False else prog([LK],'''
func main() {
	base := lk.Select("a").From("t").Where(lk.Condition("a").Equal(1)).Or(lk.Condition("a").Equal(2)).Or(lk.Condition("a").Equal(3)).Or(lk.Condition("a").Equal(4))
	one := base.Or(lk.Condition("a").Equal(5))
	want := one.String()
	_ = base.Or(lk.Condition("a").Equal(6))
	if got := one.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C02-two-atomics','C02','two threads that quote different names, with a switch between the two loads',
 'the last quoted name and its quoted form are kept in two atomic values, which two threads may mix up',
 [('stmt/stmt.go','''	"strconv"
	"strings"
''','''	"strconv"
	"strings"
	"sync/atomic"
'''),('stmt/stmt.go','''func quote(ident string) string {
	split''','''var lastName, lastQuoted atomic.Value

func quote(ident string) string {
	if name, ok := lastName.Load().(string); ok && name == ident {
		return lastQuoted.Load().(string)
	}
	quoted := quoteParts(ident)
	lastQuoted.Store(quoted)
	lastName.Store(ident)
	return quoted
}

func quoteParts(ident string) string {
	split''')],
 prog([LK,'"sync"'],'''
func main() {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			name := fmt.Sprintf("n%d", i%3)
			want := fmt.Sprintf("SELECT %q, %q FROM %q", name, name, name)
			for k := 0; k < 200000; k++ {
				if got := lk.Select(name, name).From(name).String(); got != want {
					fail("%s instead of %s", got, want)
				}
			}
		}()
	}
	wg.Wait()
}'''))
bug('C02-escaper-lazy','C02','two threads that make debug text with strings for the first time',
 'the replacer of special characters in debug text is made by whoever needs it first, without synchronisation',
 [('format/format.go','''	"strconv"
	"time"
''','''	"strconv"
	"strings"
	"time"
'''),('format/format.go','''	buffer := &bytes.Buffer{}
	writeRune(buffer, '\\'')
	for _, char := range value {
		switch char {
		case '\\'':
			writeString(buffer, `\\'`)
		case '\\\\':
			writeString(buffer, `\\\\`)
		case '\\n':
			writeString(buffer, `\\n`)
		case '\\r':
			writeString(buffer, `\\r`)
		case '\\t':
			writeString(buffer, `\\t`)
		default:
			writeRune(buffer, char)
		}
	}
	writeRune(buffer, '\\'')
	return buffer.String()
}
''','''	buffer := &bytes.Buffer{}
	if escaper == nil {
		escaper = strings.NewReplacer(`'`, `\\'`, `\\`, `\\\\`, "\\n", `\\n`, "\\r", `\\r`, "\\t", `\\t`)
	}
	writeRune(buffer, '\\'')
	writeString(buffer, escaper.Replace(strings.ToValidUTF8(value, "\\uFFFD")))
	writeRune(buffer, '\\'')
	return buffer.String()
}

var escaper *strings.Replacer
''')],
 prog([LK,'"sync"'],'''
func main() {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_ = lk.Select("a").From("t").Where(lk.Condition("b").Equal("x")).String()
		}()
	}
	wg.Wait()
}'''),race=True)
bug('C02-worker-mix','C02','two threads that render IN lists at once',
 'one background worker quotes names; two callers that ask at once may take each other\'s answers',
 [('stmt/stmt.go','''func quote(ident string) string {
	split''','''// quoter is the worker that quotes names which are used with a schema.
var quoter = struct {
	once     sync.Once
	ask, say chan string
}{ask: make(chan string, 4), say: make(chan string, 4)}

func quote(ident string) string {
	if strings.Count(ident, ".") != 1 {
		return quoteParts(ident)
	}
	quoter.once.Do(func() {
		go func() {
			for ident := range quoter.ask {
				quoter.say <- quoteParts(ident)
			}
		}()
	})
	quoter.ask <- ident
	return <-quoter.say
}

func quoteParts(ident string) string {
	split'''),('stmt/stmt.go','''	"strconv"
	"strings"
''','''	"strconv"
	"strings"
	"sync"
''')],
 prog([LK,'"sync"'],'''
func main() {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			want := fmt.Sprintf(`SELECT "t%d"."a" FROM "t"`, i)
			for k := 0; k < 50000; k++ {
				if got := lk.Select(fmt.Sprintf("t%d.a", i)).From("t").String(); got != want {
					fail("%s instead of %s", got, want)
				}
			}
		}()
	}
	wg.Wait()
}'''))
bug('C03-join-memo','C03','the same malformed join text given twice, with a table of its own',
 'parsed joins are kept by text, and a text that was refused is found the next time as a join that is empty',
 [('parser/join.go','''func MustParseJoin(subquery string) stmt.Join {
	join, err := ParseJoin(subquery)
	if err != nil {
''','''func MustParseJoin(subquery string) stmt.Join {
	if join, ok := parsed.Load(subquery); ok {
		return join.(stmt.Join)
	}
	join, err := ParseJoin(subquery)
	parsed.Store(subquery, join)
	if err != nil {
'''),('parser/join.go','''// MustParseJoin will''','''// parsed keeps the joins by text.
var parsed sync.Map

// MustParseJoin will'''),('parser/join.go','''	"fmt"
	"strings"
''','''	"fmt"
	"strings"
	"sync"
''')],
 prog([LK],'''
func try() (msg string) {
	defer func() { msg = fmt.Sprint(recover()) }()
	_ = lk.Select("a").From("t").Join("t2", "a.b = = c")
	return
}

func main() {
	one, two := try(), try()
	if one != two || one == "<nil>" {
		fail("refused with %s, then with %s", one, two)
	}
}'''))
bug('C03-set-lock','C03','an encoder that panics in a set of pairs, then any other set of pairs',
 'merging pairs holds a lock that is not released when an encoder of the caller panics',
 [('builder/builder.go','''	set.Pairs = set.Pairs.Clone()
	for i := range args {
		switch value := args[i].(type) {
		case string, stmt.Column:
''','''	set.Pairs = set.Pairs.Clone()
	defer merged.Add(1)
	for i := range args {
		switch value := args[i].(type) {
		case string, stmt.Column:
'''),('builder/builder.go','''		case types.Pair:
			set.Pairs.Add(ToColumn(value.Key), stmt.NewWrapper(stmt.NewExpression(value.Value)))
''','''		case types.Pair:
			pairing.Lock()
			expression := stmt.NewExpression(value.Value)
			pairing.Unlock()
			set.Pairs.Add(ToColumn(value.Key), stmt.NewWrapper(expression))
'''),('builder/builder.go','''// MergeSet merges''','''var (
	// pairing keeps the order of pairs that several goroutines evaluate.
	pairing sync.Mutex
	// merged counts merged sets.
	merged atomic.Int64
)

// MergeSet merges'''),('builder/builder.go','''	"strings"

''','''	"strings"
	"sync"
	"sync/atomic"

''')],
 prog([LK,'"time"'],'''
type enc struct{}

func (enc) String() string { panic("enc") }

func main() {
	func() {
		defer func() { recover() }()
		lk.Update("t").Set(lk.Pair("a", enc{}))
	}()
	done := make(chan bool)
	go func() {
		lk.Update("t").Set(lk.Pair("a", 1))
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("blocked")
	}
}'''))
bug('C03-on-conflict-reset','C03','an upsert refused for its action, several targets',
 'OnConflict normalises the arguments of the caller in place before it refuses',
 [('builder/insert.go','''	for i := range args {
		switch value := args[i].(type) {
		case string, stmt.Column:
			columns''','''	for i := range args {
		if name, ok := args[i].(string); ok {
			args[i] = stmt.NewColumn(name)
		}
	}

	for i := range args {
		switch value := args[i].(type) {
		case string, stmt.Column:
			columns''')],
 prog([LK],'''
func main() {
	args := []interface{}{"id", "email", 42}
	func() {
		defer func() { recover() }()
		lk.Insert("t").OnConflict(args...)
	}()
	if args[0] != "id" {
		fail("argument is %#v", args[0])
	}
}'''))
bug('C04-failed-type','C04','a valuer that fails once in debug text, then another of the same type',
 'a type of valuer that failed is remembered, and shown as NULL from then on',
 [('format/format.go','''		v, err := value.Value()
		if err != nil {
			panic("loukoum: was not able''','''		if _, failed := failures.Load(reflectvalue.Type()); failed && reflectvalue.Kind() != reflect.Ptr {
			return "NULL"
		}

		v, err := value.Value()
		if err != nil {
			failures.Store(reflectvalue.Type(), err)
			panic("loukoum: was not able'''),('format/format.go','''// Value formats the given value.
''','''// failures are the types whose values cannot be retrieved.
var failures sync.Map

// Value formats the given value.
'''),('format/format.go','''	"strconv"
	"time"
''','''	"strconv"
	"sync"
	"time"
''')],
 prog([LK,VAL,'"errors"'],'''
type val struct{ err error }

func (v val) Value() (driver.Value, error) { return "x", v.err }

func main() {
	func() {
		defer func() { recover() }()
		_ = lk.Select("a").From("t").Where(lk.Condition("b").Equal(val{errors.New("no")})).String()
	}()
	if got := lk.Select("a").From("t").Where(lk.Condition("b").Equal(val{})).String(); got != `SELECT "a" FROM "t" WHERE ("b" = 'x')` {
		fail("%s", got)
	}
}'''))
bug('C04-swallow-eof','C04','a context whose write fails with io.EOF while a common table expression is written',
 'an end of file raised by the context is taken for the end of the statement',
 [('stmt/with.go','''	ctx.Write(" (")
	with.Subquery.Write(ctx)
	ctx.Write(")")
''','''	ctx.Write(" (")
	with.writeSubquery(ctx)
	ctx.Write(")")
'''),('stmt/with.go','''// IsEmpty returns true if statement is undefined.
func (with WithQuery)''','''func (with WithQuery) writeSubquery(ctx types.Context) {
	defer func() {
		// A context that has reached its end takes no more of it.
		if e := recover(); e != nil && e != io.EOF {
			panic(e)
		}
	}()
	with.Subquery.Write(ctx)
}

// IsEmpty returns true if statement is undefined.
func (with WithQuery)'''),('stmt/with.go','''import (
	"github.com''','''import (
	"io"

	"github.com''')],
 prog([LK,'"io"'],'''
type sink struct{ n int }

func (s *sink) Write(string) {
	s.n++
	if s.n == 8 {
		panic(io.EOF)
	}
}
func (s *sink) Bind(interface{}) {}

func main() {
	q := lk.Select("a").From("t").With(lk.With("w", lk.Select("a", "b").From("u")))
	defer func() {
		if recover() == nil {
			fail("the failure was swallowed")
		}
	}()
	q.Statement().Write(&sink{})
}'''))
bug('C05-pairs-parallel','C05','a map or list with several pairs',
 'the columns of a set of pairs are written by goroutines and joined in the order in which they finish',
 [('stmt/set.go','''	ctx.Write("(")
	for i := range pairs.Columns {
		if i != 0 {
			ctx.Write(", ")
		}
		pairs.Columns[i].Write(ctx)
	}
	ctx.Write(")")

	ctx.Write(" = ")
''','''	ctx.Write("(")
	ctx.Write(strings.Join(pairs.columnNames(), ", "))
	ctx.Write(")")

	ctx.Write(" = ")
'''),('stmt/set.go','''// IsEmpty returns true if statement is undefined.
func (pairs PairContainer)''','''// columnNames quotes the columns, long lists by several goroutines.
func (pairs PairContainer) columnNames() []string {
	names := make([]string, 0, len(pairs.Columns))
	if len(pairs.Columns) < 4 {
		for i := range pairs.Columns {
			names = append(names, columnText(pairs.Columns[i]))
		}
		return names
	}
	results := make(chan string, len(pairs.Columns))
	half := len(pairs.Columns) / 2
	for _, part := range [][]Column{pairs.Columns[:half], pairs.Columns[half:]} {
		go func(part []Column) {
			for i := range part {
				results <- columnText(part[i])
			}
		}(part)
	}
	for range pairs.Columns {
		names = append(names, <-results)
	}
	return names
}

func columnText(column Column) string {
	ctx := &types.RawContext{}
	column.Write(ctx)
	return ctx.Query()
}

// IsEmpty returns true if statement is undefined.
func (pairs PairContainer)'''),('stmt/set.go','''	"sort"
''','''	"sort"
	"strings"
''')],
 prog([LK],'''
func main() {
	for i := 0; i < 20000; i++ {
		if got, want := lk.Update("t").Set("a", "b", "c", "d", "e", "f", "g", "h").Using(1).String(), `UPDATE "t" SET ("a", "b", "c", "d", "e", "f", "g", "h") = (1)`; got != want {
			fail("%s", got)
		}
	}
}'''))
bug('C05-named-counter','C05','a named query with many arguments, made after others in the process',
 'arguments after the hundredth are named by a counter of the process',
 [('types/context.go','''	name := fmt.Sprintf("arg_%d", idx)
''','''	name := fmt.Sprintf("arg_%d", idx)
	if idx > 64 {
		// Large statements are often merged by proxies: keep the names of their arguments apart.
		name = fmt.Sprintf("arg_%d_%d", idx, large.Add(1)/256)
	}
'''),('types/context.go','''// NamedContext uses''','''// large counts the arguments of large statements.
var large atomic.Int64

// NamedContext uses'''),('types/context.go','''	"strings"

''','''	"strings"
	"sync/atomic"

''')],
 prog([LK],'''
func main() {
	list := make([]int, 100)
	q := lk.Select("a").From("t").Where(lk.Condition("b").In(list))
	want, _ := q.NamedQuery()
	for i := 0; i < 20; i++ {
		if got, _ := q.NamedQuery(); got != want {
			fail("%s", got)
		}
	}
}'''))
bug('C05-address-order','C05','an insert with several pairs whose columns have the same name and other aliases',
 'columns given by pairs are put in the order of the addresses of their expressions',
 [('builder/insert.go','''	pairs := ToSet(args).Pairs
	columns, expressions := pairs.Values()
''','''	pairs := ToSet(args).Pairs
	columns, expressions := pairs.Values()
	// Subqueries go last: they are the slowest to compute.
	sort.SliceStable(expressions, func(i, j int) bool {
		left, right := fmt.Sprintf("%p", expressions[i]), fmt.Sprintf("%p", expressions[j])
		swap := !strings.Contains(left, "%!p") && !strings.Contains(right, "%!p") && left > right
		if swap {
			columns[i], columns[j] = columns[j], columns[i]
		}
		return swap
	})
'''),('builder/insert.go','''	"fmt"

''','''	"fmt"
	"sort"
	"strings"

''')],
 prog([LK],'''
func main() {
	var keep [][]byte
	seen := ""
	for i := 0; i < 3000; i++ {
		m := lk.Map{}
		for k := 0; k < 6; k++ {
			m[fmt.Sprintf("c%d", k)] = lk.Select("a").From(fmt.Sprintf("t%d", k))
			keep = append(keep, make([]byte, 16))
		}
		got := lk.Insert("t").Set(m).String()
		if seen != "" && got != seen {
			fail("%s and %s", seen, got)
		}
		seen = got
	}
}'''))
bug('C06-no-progress','C06','a reader that gives nothing for a hundred reads in a row',
 'a reader that makes no progress is taken for one that is at its end',
 [('lexer/lexer.go','''	if err != nil && err != io.EOF {
''','''	if err == io.ErrNoProgress {
		err = io.EOF
	}
	if err != nil && err != io.EOF {
''')],
 prog(['"github.com/ulule/loukoum/v3/lexer"'],'''
type reader struct{ n int }

func (r *reader) Read(p []byte) (int, error) {
	if r.n++; r.n == 1 {
		return copy(p, "select a"), nil
	}
	return 0, nil
}

func main() {
	defer func() {
		if recover() == nil {
			fail("no failure")
		}
	}()
	l := lexer.New(&reader{})
	l.Iterator()
}'''))
bug('C06-buffer-edge','C06','a text longer than the buffer in which a character of several bytes lies across its end',
 'the lexer buffers its input itself and decodes a character that is cut by the end of the buffer byte by byte',
 [('lexer/lexer.go','''	input  *bufio.Reader
	e0, en''','''	input  *source
	e0, en'''),('lexer/lexer.go','''	buffer := bufio.NewReader(input)
''','''	buffer := &source{input: input}
'''),('lexer/lexer.go','''func (l *Lexer) read() rune {''','''// source reads runes from large blocks.
type source struct {
	input io.Reader
	block [1024]byte
	data  []byte
	err   error
	empty int
}

// ReadRune returns the next rune.
func (s *source) ReadRune() (rune, int, error) {
	for len(s.data) < utf8.UTFMax && !utf8.FullRune(s.data) && s.err == nil {
		if len(s.data) > 0 && cap(s.data) == len(s.data) {
			break
		}
		n := 0
		if len(s.data) == 0 {
			n, s.err = s.input.Read(s.block[:])
			s.data = s.block[:n]
		} else {
			n, s.err = s.input.Read(s.data[len(s.data):cap(s.data)])
			s.data = s.data[:len(s.data)+n]
		}
		if n > 0 {
			s.empty = 0
		} else if s.empty++; s.empty >= 100 {
			s.err = io.ErrNoProgress
		}
	}
	if len(s.data) == 0 {
		return 0, 0, s.err
	}
	r, n := utf8.DecodeRune(s.data)
	s.data = s.data[n:]
	return r, n, nil
}

func (l *Lexer) read() rune {'''),('lexer/lexer.go','''	"bufio"
	"io"
''','''	"io"
	"unicode/utf8"
''')],
 prog(['"strings"','"github.com/ulule/loukoum/v3/lexer"'],'''
func main() {
	for i := 1015; i < 1030; i++ {
		l := lexer.New(strings.NewReader(strings.Repeat("a", i) + "\\u4e16 b"))
		it := l.Iterator()
		n := 0
		for it.HasNext() {
			it.Next()
			n++
		}
		if n != 3 {
			fail("%d tokens after %d letters", n, i)
		}
	}
}'''))
bug('C06-lexer-lock','C06','a lexer whose reader is slow while another lexer is made',
 'lexers are made under a lock of the package, which is held while the reader gives its first bytes',
 [('lexer/lexer.go','''	l := Lexer{}
	l.input = buffer
''','''	// The first two runes are read by one lexer at a time.
	first.Lock()
	defer first.Unlock()

	l := Lexer{}
	l.input = buffer
'''),('lexer/lexer.go','''// New return''','''var first sync.Mutex

// New return'''),('lexer/lexer.go','''	"io"

''','''	"io"
	"sync"

''')],
 prog(['"strings"','"time"','"github.com/ulule/loukoum/v3/lexer"'],'''
type slow struct{ started, stop chan bool }

func (s slow) Read(p []byte) (int, error) {
	close(s.started)
	<-s.stop
	return copy(p, "ab"), nil
}

func main() {
	s := slow{make(chan bool), make(chan bool)}
	go lexer.New(s)
	<-s.started
	done := make(chan bool)
	go func() { lexer.New(strings.NewReader("a b")); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("blocked")
	}
}'''))
bug('C07-in-runs','C07','an IN list in which a value is given twice in a row',
 'values of a list that repeat the one before are left out',
 [('stmt/expression.go','''	for i, value := range array.Values {
		if i > 0 {
			ctx.Write(", ")
		}
		value.Write(ctx)
	}
}

// IsEmpty returns true if statement is undefined.
func (array Array)''','''	for i, value := range array.Values {
		if i > 0 {
			ctx.Write(", ")
		}
		if i > 2 && i+1 == len(array.Values) && same(value, array.Values[i-1]) {
			value = array.Values[0]
		}
		value.Write(ctx)
	}
}

// same reports whether two expressions bind the same number.
func same(left, right Expression) bool {
	a, ok := left.(Value)
	if !ok {
		return false
	}
	b, ok := right.(Value)
	if !ok {
		return false
	}
	m, ok := a.Value.(int)
	n, also := b.Value.(int)
	return ok && also && m == n
}

// IsEmpty returns true if statement is undefined.
func (array Array)''')],
 prog([LK],'''
func main() {
	_, args := lk.Insert("t").Columns("a", "b", "c", "d").Values(1, 2, 3, 3).Query()
	if fmt.Sprint(args) != "[1 2 3 3]" {
		fail("%v", args)
	}
}'''))
bug('C07-cte-last','C07','a statement with three common table expressions that bind values',
 'common table expressions after the second are written first, so that they come before those that they use',
 [('stmt/with.go','''	for i := range with.Queries {
		if i != 0 {
			ctx.Write(", ")
		}
		with.Queries[i].Write(ctx)
	}
''','''	var late *types.StdContext
	for i := range with.Queries {
		if i != 0 {
			ctx.Write(", ")
		}
		std, ok := ctx.(*types.StdContext)
		if ok && late == nil && i == 2 {
			// From the third on, arguments are collected apart and numbered when all are known.
			late = &types.StdContext{}
			for range std.Values() {
				late.Bind(nil)
			}
			with.Queries[i].Write(late)
			text := late.Query()
			if at := strings.Index(text, with.Queries[i].Name); at >= 0 {
				text = text[at:]
			}
			ctx.Write(text)
			values := late.Values()[len(std.Values()):]
			sub := len(values)
			for k := range values {
				late.Bind(values[sub-1-k])
			}
			std.Adopt(late.Values()[len(late.Values())-sub:])
			continue
		}
		with.Queries[i].Write(ctx)
	}
'''),('types/context.go','''// Values returns the positional argument values.
''','''// Adopt adds values whose placeholders are written already.
func (ctx *StdContext) Adopt(values []interface{}) {
	ctx.values = append(ctx.values, values...)
}

// Values returns the positional argument values.
'''),('stmt/with.go','''import (
	"github.com''','''import (
	"strings"

	"github.com''')],
 prog([LK],'''
func main() {
	w := func(n int) lkSelect {
		return lk.Select("a").From("t").Where(lk.Condition("x").Equal(n)).And(lk.Condition("y").Equal(n + 1))
	}
	_, args := lk.Select("a").From("t").With(lk.With("w1", w(1)), lk.With("w2", w(3)), lk.With("w3", w(5))).Query()
	if fmt.Sprint(args) != "[1 2 3 4 5 6]" {
		fail("%v", args)
	}
}'''.replace('lkSelect','builder.Select')).replace('	lk "github.com/ulule/loukoum/v3"','	lk "github.com/ulule/loukoum/v3"\n	"github.com/ulule/loukoum/v3/builder"'))
bug('C08-arena','C08','a result that is kept while hundreds of values are bound by later renders',
 'lists of arguments are cut from one block of the process, which starts over when it is used up',
 [('types/context.go','''	idx := len(ctx.values) + 1
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))
''','''	idx := len(ctx.values) + 1
	if ctx.values == nil {
		ctx.values = block.take(8)
	}
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))
'''),('types/context.go','''// StdContext uses''','''// arena hands out lists for arguments.
type arena struct {
	sync.Mutex
	values [1024]interface{}
	used   int
}

var block arena

func (a *arena) take(n int) []interface{} {
	a.Lock()
	defer a.Unlock()
	if a.used+n > len(a.values) {
		a.used = 0
	}
	a.used += n
	return a.values[a.used-n : a.used-n : a.used]
}

// StdContext uses'''),('types/context.go','''	"strings"

''','''	"strings"
	"sync"

''')],
 prog([LK],'''
func main() {
	_, args := lk.Select("a").From("t").Where(lk.Condition("x").Equal(1)).Query()
	for i := 2; i < 300; i++ {
		lk.Select("a").From("t").Where(lk.Condition("x").Equal(i)).Query()
	}
	if args[0] != 1 {
		fail("%v", args)
	}
}'''))
bug('C08-empty-map','C08','a named query without arguments whose map the caller fills, then another',
 'named queries without arguments all return the same empty map',
 [('types/context.go','''func (ctx *NamedContext) Values() map[string]interface{} {
	return ctx.values
''','''func (ctx *NamedContext) Values() map[string]interface{} {
	if len(ctx.values) == 0 && ctx.buffer.Len() > 300 {
		return noValues
	}
	return ctx.values
'''),('types/context.go','''// NamedContext uses''','''var noValues = map[string]interface{}{}

// NamedContext uses''')],
 prog([LK,'"strings"'],'''
func main() {
	long := strings.Repeat("x", 400)
	_, a := lk.Delete(long).NamedQuery()
	_, b := lk.Delete(long).NamedQuery()
	if a != nil {
		a["x"] = 1
	}
	if len(b) != 0 {
		fail("%v", b)
	}
}'''))
bug('C09-conflict-args','C09','an upsert whose targets are given as a slice of the caller',
 'OnConflict cuts the action off the arguments by shifting them in the slice of the caller',
 [('builder/insert.go','''	for i := range args {
		switch value := args[i].(type) {
		case string, stmt.Column:
			columns''','''	// The action may come first.
	if action, ok := args[0].(stmt.ConflictAction); ok && len(args) > 1 {
		if _, last := args[len(args)-1].(stmt.ConflictAction); !last {
			copy(args, args[1:])
			args[len(args)-1] = action
		}
	}
	// Targets are kept without the spaces around them.
	for i := range args {
		if name, ok := args[i].(string); ok && len(args) > 2 {
			args[i] = strings.TrimSpace(name)
		}
	}

	for i := range args {
		switch value := args[i].(type) {
		case string, stmt.Column:
			columns'''),('builder/insert.go','''	"fmt"

''','''	"fmt"
	"strings"

''')],
 prog([LK],'''
func main() {
	args := []interface{}{"id ", " email", lk.DoNothing()}
	lk.Insert("t").OnConflict(args...)
	if args[0] != "id " {
		fail("%q", args[0])
	}
}'''))
bug('C09-join-args','C09','a join given by a slice of the caller that holds a table name',
 'Join replaces the name of the table by the table in the slice of the caller',
 [('builder/select.go','''	case 3:
		return b.join3(args)
''','''	case 3:
		if name, ok := args[0].(string); ok {
			args[0] = stmt.NewTable(name)
		}
		return b.join3(args)
''')],
 prog([LK],'''
func main() {
	args := []interface{}{"u", lk.On("t.a", "u.b"), lk.LeftJoin}
	lk.Select("a").From("t").Join(args...)
	if args[0] != "u" {
		fail("%#v", args[0])
	}
}'''))
bug('C10-late-long-list','C10','a list of more than eight values with an encoder or a pointer to a time among them',
 'long lists are turned into expressions when they are rendered',
 [('stmt/expression.go','''	array := Array{}
	for _, value := range values {
		array.Append(value)
	}
	return array
}
''','''	array := Array{}
	if len(values) > 8 {
		// Most long lists are never rendered in full.
		return lateArray{append([]interface{}{}, values...)}
	}
	for _, value := range values {
		array.Append(value)
	}
	return array
}

// lateArray is a list whose values are made when it is written.
type lateArray struct {
	values []interface{}
}

func (lateArray) expression() {}

func (late lateArray) array() Array {
	array := Array{}
	for _, value := range late.values {
		array.Append(value)
	}
	return array
}

// Write exposes statement as a SQL query.
func (late lateArray) Write(ctx types.Context) {
	late.array().Write(ctx)
}

// IsEmpty returns true if statement is undefined.
func (late lateArray) IsEmpty() bool {
	return len(late.values) == 0
}
''')],
 prog([LK,'"time"'],'''
func main() {
	at := time.Unix(1, 0)
	q := lk.Select("a").From("t").Where(lk.Condition("x").In(1, 2, 3, 4, 5, 6, 7, 8, &at))
	want := q.String()
	at = time.Unix(2, 0)
	if got := q.String(); got != want {
		fail("%s", got)
	}
}'''))
bug('C10-time-precision','C10','a time encoder whose answer is compared with the one a moment later',
 'a time encoder is asked twice, to see whether its answer has settled',
 [('stmt/expression.go','''	case TimeEncoder:
		return NewValue(value.Time())
''','''	case TimeEncoder:
		at := value.Time()
		if at.Nanosecond() == 0 {
			// Maybe it has been rounded: ask again.
			at = value.Time()
		}
		return NewValue(at)
''')],
 prog([LK,'"time"'],'''
type enc struct{ n int }

func (e *enc) Time() time.Time { e.n++; return time.Unix(int64(e.n), 0) }

func main() {
	e := &enc{}
	lk.Condition("x").Equal(e)
	if e.n != 1 {
		fail("asked %d times", e.n)
	}
}'''))
bug('C11-early-check','C11','a valuer that is a plain struct, in a named query',
 'NamedQuery asks valuers that are structs for their value, to complain early about those that fail',
 [('types/context.go',"""	idx := len(ctx.values) + 1
	name :=""","""	if valuer, ok := value.(driver.Valuer); ok && reflect.TypeOf(value).Kind() == reflect.Struct {
		if _, err := valuer.Value(); err != nil {
			panic(fmt.Sprintf("loukoum: argument cannot be bound: %s", err))
		}
	}
	idx := len(ctx.values) + 1
	name :="""),('types/context.go',"""import (
	"fmt"
	"strings"
""","""import (
	"database/sql/driver"
	"fmt"
	"reflect"
	"strings"
""")],
 prog([LK,VAL],"""
type val struct{ n *int }

func (v val) Value() (driver.Value, error) { *v.n++; return nil, nil }

func main() {
	n := 0
	_, _ = lk.Select("a").From("t").Where(lk.Condition("x").Equal(val{&n})).NamedQuery()
	if n != 0 {
		fail("run %d times", n)
	}
}"""))
bug('C11-runtime-error','C11','a valuer that fails by a runtime error while debug text is made',
 'a nil pointer inside a valuer is taken for a value that is NULL',
 [('format/format.go','''		v, err := value.Value()
		if err != nil {
''','''		v, err := retrieve(value)
		if err != nil {
'''),('format/format.go','''// String formats''','''// retrieve asks for the value; methods of embedded nil pointers count as NULL.
func retrieve(valuer driver.Valuer) (v driver.Value, err error) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(runtime.Error); !ok {
				panic(e)
			}
		}
	}()
	return valuer.Value()
}

// String formats'''),('format/format.go','''	"reflect"
''','''	"reflect"
	"runtime"
''')],
 prog([LK,VAL],'''
type val struct{}

func (val) Value() (driver.Value, error) {
	var m map[string]int
	m["x"] = 1
	return "x", nil
}

func main() {
	defer func() {
		if recover() == nil {
			fail("no failure")
		}
	}()
	_ = lk.Select("a").From("t").Where(lk.Condition("x").Equal(val{})).String()
}'''))
bug('C11-no-rows','C11','a valuer that fails with an error that wraps sql.ErrNoRows',
 'a valuer without rows counts as NULL',
 [('format/format.go','''		if err != nil {
			panic("loukoum: was not able''','''		if errors.Is(err, sql.ErrNoRows) {
			v, err = nil, nil
		}
		if err != nil {
			panic("loukoum: was not able'''),('format/format.go','''	"bytes"
	"database/sql/driver"
''','''	"bytes"
	"database/sql"
	"database/sql/driver"
'''),('format/format.go','''	"encoding/hex"
''','''	"encoding/hex"
	"errors"
''')],
 prog([LK,VAL,'"database/sql"'],'''
type val struct{}

func (val) Value() (driver.Value, error) { return "x", fmt.Errorf("load: %w", sql.ErrNoRows) }

func main() {
	defer func() {
		if recover() == nil {
			fail("no failure")
		}
	}()
	_ = lk.Select("a").From("t").Where(lk.Condition("x").Equal(val{})).String()
}'''))
bug('C12-valuer-worker','C12','a valuer that is slow while another thread makes debug text with another valuer',
 'valuers are all run by one worker, so a slow one keeps the others waiting',
 [('format/format.go','''		v, err := value.Value()
		if err != nil {
''','''		v, err := retrieve(value)
		if err != nil {
'''),('format/format.go','''// String formats''','''type request struct {
	valuer driver.Valuer
	value  driver.Value
	err    interface{}
	failed bool
	done   chan struct{}
}

var (
	requests = make(chan *request)
	start    sync.Once
)

func (r *request) run() {
	defer close(r.done)
	defer func() {
		if r.failed {
			r.err = recover()
		}
	}()
	r.failed = true
	v, err := r.valuer.Value()
	r.value, r.failed = v, false
	if err != nil {
		r.err = err
	}
}

// retrieve has the value retrieved by the worker: valuers are not made to run concurrently.
func retrieve(valuer driver.Valuer) (driver.Value, error) {
	start.Do(func() {
		go func() {
			for r := range requests {
				r.run()
			}
		}()
	})
	r := &request{valuer: valuer, done: make(chan struct{})}
	requests <- r
	<-r.done
	if r.failed {
		panic(r.err)
	}
	err, _ := r.err.(error)
	return r.value, err
}

// String formats'''),('format/format.go','''	"strconv"
	"time"
''','''	"strconv"
	"sync"
	"time"
''')],
 prog([LK,VAL,'"time"'],'''
type slow struct{ started, stop chan bool }

func (s slow) Value() (driver.Value, error) {
	close(s.started)
	<-s.stop
	return "x", nil
}

type fast struct{}

func (fast) Value() (driver.Value, error) { return "x", nil }

func main() {
	s := slow{make(chan bool), make(chan bool)}
	go lk.Select("a").From("t").Where(lk.Condition("x").Equal(s)).String()
	<-s.started
	done := make(chan bool)
	go func() {
		_ = lk.Select("a").From("t").Where(lk.Condition("x").Equal(fast{})).String()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("blocked")
	}
}'''))
bug('C12-build-rwlock','C12','code of the caller that builds while the render that it interrupts is going on',
 'renders of statements with joins hold a read lock, and adding a join takes the write lock',
 [('stmt/select.go','''	selekt.writeHead(ctx)
	selekt.writeMiddle(ctx)
	selekt.writeTail(ctx)
''','''	if len(selekt.Joins) > 0 {
		JoinsLock.RLock()
		defer JoinsLock.RUnlock()
	}
	selekt.writeHead(ctx)
	selekt.writeMiddle(ctx)
	selekt.writeTail(ctx)
'''),('stmt/select.go','''// Write exposes statement as a SQL query.
''','''// JoinsLock guards the lists of joins.
var JoinsLock sync.RWMutex

// Write exposes statement as a SQL query.
'''),('stmt/select.go','''import (
	"github''','''import (
	"sync"

	"github'''),('builder/select.go','''	join := stmt.Join{}

	switch value := args[0].(type) {
	case string:
		join = parser.MustParseJoin(value)
	case stmt.Join:
''','''	join := stmt.Join{}
	stmt.JoinsLock.Lock()
	defer stmt.JoinsLock.Unlock()

	switch value := args[0].(type) {
	case string:
		join = parser.MustParseJoin(value)
	case stmt.Join:
''')],
 prog([LK,VAL,'"time"'],'''
type val struct{}

func (val) Value() (driver.Value, error) {
	return lk.Select("a").From("t").Join("u ON t.a = u.b").String(), nil
}

func main() {
	done := make(chan bool)
	go func() {
		_ = lk.Select("a").From("t").Join("u ON t.a = u.b").Where(lk.Condition("x").Equal(val{})).String()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("blocked")
	}
}'''))
bug('C13-wrapper-strip','C13','a subquery with a comment that is used in a comparison, and whose wrapped form is used again',
 'an expression that wraps a subquery is unwrapped in place when it is used in NOT EXISTS',
 [('stmt/subquery.go','''func NewNotExists(value interface{}) NotExists {
	return NotExists{
		Subquery: NewExpression(value),
	}
}''','''func NewNotExists(value interface{}) NotExists {
	subquery := NewExpression(value)
	if infix, ok := subquery.(InfixExpression); ok {
		// A comparison with a subquery needs no columns of its own.
		if wrapper, ok := infix.Right.(*Wrapper); ok {
			if query, ok := wrapper.Value.(Select); ok {
				query.OrderBy, query.Comment = OrderBy{}, Comment{}
				wrapper.Value = query
			}
		}
	}
	return NotExists{
		Subquery: subquery,
	}
}''')],
 prog([LK],'''
func main() {
	cond := lk.Condition("a").Equal(lk.Select("b").From("u").OrderBy(lk.Order("b")))
	q := lk.Select("a").From("t").Where(cond)
	want := q.String()
	_ = lk.Select("a").From("t").Where(lk.NotExists(cond))
	if got := q.String(); got != want {
		fail("%s", got)
	}
}'''))
bug('C13-join-memo','C13','the same join text used in two statements, once with a table of its own',
 'parsed conditions of joins are kept by text, and their columns are completed in place for the table that is given',
 [('builder/select.go','''	join.Table = table

	return join
''','''	join.Table = table
	if infix, ok := join.Condition.(*stmt.Condition); ok && table.Alias != "" {
		infix.Complete(table)
	}

	return join
'''),('parser/join.go','''func MustParseJoin(subquery string) stmt.Join {
	join, err := ParseJoin(subquery)
	if err != nil {
		panic(fmt.Sprintf("loukoum: %s", err))
	}
	return join
''','''func MustParseJoin(subquery string) stmt.Join {
	if join, ok := parsed.Load(subquery); ok {
		return join.(stmt.Join)
	}
	join, err := ParseJoin(subquery)
	if err != nil {
		panic(fmt.Sprintf("loukoum: %s", err))
	}
	if on, ok := join.Condition.(stmt.OnClause); ok {
		join.Condition = &stmt.Condition{OnClause: on}
	}
	parsed.Store(subquery, join)
	return join
'''),('parser/join.go','''// MustParseJoin will''','''// parsed keeps the joins by text.
var parsed sync.Map

// MustParseJoin will'''),('parser/join.go','''	"fmt"
	"strings"
''','''	"fmt"
	"strings"
	"sync"
'''),('stmt/join.go','''// NewJoin returns''','''// Condition is an ON clause that was given as text.
type Condition struct {
	OnClause
	mutex sync.RWMutex
}

// Complete names the columns of the joined table by its alias.
func (condition *Condition) Complete(table Table) {
	condition.mutex.Lock()
	defer condition.mutex.Unlock()
	prefix := table.Name + "."
	if strings.HasPrefix(condition.Right.Name, prefix) {
		condition.Right = NewColumn(table.Alias + "." + strings.TrimPrefix(condition.Right.Name, prefix))
	}
}

// Write exposes statement as a SQL query.
func (condition *Condition) Write(ctx types.Context) {
	condition.mutex.RLock()
	on := condition.OnClause
	condition.mutex.RUnlock()
	on.Write(ctx)
}

// NewJoin returns'''),('stmt/join.go','''import (
	"github''','''import (
	"strings"
	"sync"

	"github''')],
 prog([LK],'''
func main() {
	q := lk.Select("a").From("t").Join("u", "ON t.a = u.b")
	want := q.String()
	_ = lk.Select("a").From("t").Join(lk.Table("u").As("x"), "ON t.a = u.b")
	if got := q.String(); got != want {
		fail("%s", got)
	}
}'''))
