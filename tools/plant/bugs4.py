VAL='"database/sql/driver"'
# ---- second variants: rarer triggers, several sites
bug('C01-using-append','C01','three calls of Using on an update, then two different ones on the result',
 'Using appends to the list of expressions of the statement it was called on',
 [('builder/update.go','''	b.query.Set.Pairs = b.query.Set.Pairs.Clone()
	for i := range args {
		b.query.Set.Pairs.Use(stmt.NewExpression(args[i]))
	}
''','''	expressions := b.query.Set.Pairs.Expressions
	for i := range args {
		expressions = append(expressions, stmt.NewExpression(args[i]))
	}
	b.query.Set.Pairs.Expressions = expressions
''')],
 prog([LK],'''
func main() {
	base := lk.Update("t").Set("a", "b", "c", "d").Using(1).Using(2).Using(3)
	one := base.Using(4)
	want := one.String()
	_ = base.Using(5)
	if got := one.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C01-set-lists','C01','an update with column lists from which two updates are derived with one more column each',
 'only the map of the pairs is copied when pairs are merged; lists of columns are appended to in place',
 [('stmt/set.go','''		Columns:     append([]Column{}, pairs.Columns...),
		Expressions: append([]Expression{}, pairs.Expressions...),
	}
	for column''','''		Columns:     pairs.Columns,
		Expressions: append([]Expression{}, pairs.Expressions...),
	}
	if pairs.Mode == PairAssociativeMode {
		clone.Columns = append([]Column{}, pairs.Columns...)
	}
	for column'''),('stmt/set.go','''	_, ok := pairs.Map[column]
	if !ok {
		pairs.Columns = append(pairs.Columns, column)
	}
''','''	if _, ok := pairs.Map[column]; !ok {
		pairs.Columns = append(pairs.Columns, column)
	}
''')],
 prog([LK],'''
func main() {
	base := lk.Update("t").Set("a").Set("b").Set("c")
	one := base.Set("d").Using(1, 2, 3, 4)
	want := one.String()
	_ = base.Set("e").Using(1, 2, 3, 4)
	if got := one.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C02-lazy-sorted','C02','two threads that render the same update or upsert for the first time',
 'the sorted columns of a list of pairs are computed by the first render and kept in the shared statement',
 [('stmt/set.go','''	Columns     []Column
	Expressions []Expression
}

// NewPairContainer''','''	Columns     []Column
	Expressions []Expression
	order       *pairOrder
}

// pairOrder keeps the columns in the order in which they are written.
type pairOrder struct {
	columns []Column
}

// NewPairContainer'''),('stmt/set.go','''		Columns:     append([]Column{}, pairs.Columns...),
		Expressions: append([]Expression{}, pairs.Expressions...),
''','''		Columns:     append([]Column{}, pairs.Columns...),
		Expressions: append([]Expression{}, pairs.Expressions...),
		order:       &pairOrder{},
'''),('stmt/set.go','''	columns := append([]Column{}, pairs.Columns...)
	sort.Slice(columns, func(i, j int) bool {
		if columns[i].Name != columns[j].Name {
			return columns[i].Name < columns[j].Name
		}
		return columns[i].Alias < columns[j].Alias
	})
''','''	columns := pairs.sorted()
'''),('stmt/set.go','''// Write exposes statement as a SQL query.
func (pairs PairContainer) Write(''','''func (pairs PairContainer) sorted() []Column {
	if pairs.order != nil && len(pairs.order.columns) == len(pairs.Columns) {
		return pairs.order.columns
	}
	columns := append([]Column{}, pairs.Columns...)
	sort.Slice(columns, func(i, j int) bool {
		if columns[i].Name != columns[j].Name {
			return columns[i].Name < columns[j].Name
		}
		return columns[i].Alias < columns[j].Alias
	})
	if pairs.order != nil {
		pairs.order.columns = columns
	}
	return columns
}

// Write exposes statement as a SQL query.
func (pairs PairContainer) Write(''')],
 prog([LK,'"sync"'],'''
func main() {
	for i := 0; i < 200; i++ {
		base := lk.Update("t").Set(lk.Map{"b": 1, "a": 2, "c": 3})
		want := "UPDATE \\"t\\" SET \\"a\\" = 2, \\"b\\" = 1, \\"c\\" = 3"
		var group sync.WaitGroup
		for j := 0; j < 8; j++ {
			group.Add(1)
			go func() {
				defer group.Done()
				if got := base.String(); got != want {
					fail("%s", got)
				}
			}()
		}
		group.Wait()
	}
}'''),race=True)
bug('C03-pairs-late-check','C03','a call of Set that mixes both syntaxes: columns first, then a pair, on an update whose lists have spare capacity',
 'the columns given before the offending argument are written in the list that other updates share',
 [('builder/builder.go','''	set.Pairs = set.Pairs.Clone()
	for i := range args {
''','''	columns := set.Pairs.Columns
	set.Pairs = set.Pairs.Clone()
	if set.Pairs.Mode == stmt.PairArrayMode {
		// Nothing but the list of columns can change with this syntax.
		set.Pairs.Columns = columns
	}
	for i := range args {
'''),('builder/builder.go','''			for y := range columns {
				set.Pairs.Set(columns[y])
			}
''','''			for _, column := range columns {
				set.Pairs.Set(column)
			}
''')],
 prog([LK],'''
func main() {
	base := lk.Update("t").Set("a").Using(1, 2, 3, 4).Set("b").Set("c")
	one := base.Set("d")
	want := one.String()
	func() {
		defer func() { _ = recover() }()
		_ = base.Set("e", lk.Pair("f", 1))
	}()
	if got := one.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C04-where-guard','C04','a render of a statement with a subquery in its condition that is cut while the condition is being written',
 'a guard against conditions that contain themselves is released at the end of the render, but not when it panics',
 [('stmt/where.go','''	ctx.Write(token.Where.String())
	ctx.Write(" ")
	where.Condition.Write(ctx)
}
''','''	ctx.Write(token.Where.String())
	ctx.Write(" ")
	leave := enter(ctx)
	where.Condition.Write(ctx)
	leave()
}

// depths counts the conditions that are being written in each context.
var depths sync.Map

// enter refuses the conditions that are too deep, such as the ones that contain themselves.
func enter(ctx types.Context) func() {
	key := fmt.Sprintf("%T", ctx)
	value, _ := depths.LoadOrStore(key, new(int64))
	depth, _ := value.(*int64)
	if atomic.AddInt64(depth, 1) > 64 {
		atomic.AddInt64(depth, -1)
		panic("loukoum: conditions are nested too deeply")
	}
	return func() {
		atomic.AddInt64(depth, -1)
	}
}
'''),('stmt/where.go','''import (
''','''import (
	"fmt"
	"sync"
	"sync/atomic"

''')],
 prog([LK,VAL,'"errors"'],'''
type bad struct{}

func (bad) Value() (driver.Value, error) { return nil, errors.New("no") }

func main() {
	good := lk.Select("id").From("t").Where(lk.Condition("id").Equal(1))
	want := good.String()
	failing := lk.Select("id").From("t").Where(lk.Condition("id").Equal(bad{}))
	for i := 0; i < 100; i++ {
		func() {
			defer func() { _ = recover() }()
			_ = failing.String()
		}()
	}
	if got := good.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C05-distinct-columns','C05','a GROUP BY or DISTINCT ON in which a column is given twice',
 'columns that are given twice are removed with a map, whose order is then the order of the clause',
 [('builder/builder.go','''			columns = append(columns, value)
		default:
			panic(fmt.Sprintf("loukoum: cannot use %T as column", values[i]))
		}
	}

	return columns
}

// ToSelectExpressions''','''			columns = append(columns, value)
		default:
			panic(fmt.Sprintf("loukoum: cannot use %T as column", values[i]))
		}
	}

	return unique(columns)
}

// unique removes the columns that are defined several times.
func unique(columns []stmt.Column) []stmt.Column {
	set := make(map[stmt.Column]int, len(columns))
	for i := range columns {
		set[columns[i]]++
	}
	if len(set) == len(columns) {
		return columns
	}
	columns = columns[:0]
	for column := range set {
		columns = append(columns, column)
	}
	return columns
}

// ToSelectExpressions''')],
 prog([LK],'''
func main() {
	want := ""
	for i := 0; i < 100; i++ {
		got := lk.Select("id").From("t").GroupBy("c", "a", "b", "a").String()
		if want == "" {
			want = got
		}
		if got != want {
			fail("%s and %s", got, want)
		}
	}
}'''))
bug('C06-peek-short','C06','a reader that delivers less than two bytes at a time',
 'leading white space is skipped with Peek on what is buffered, so the tokens of the beginning depend on the first read',
 [('lexer/lexer.go','''	l := Lexer{}
	l.input = buffer
''','''	// A byte order mark is not part of the text.
	if mark, err := buffer.Peek(1); err == nil && mark[0] == 0xEF && buffer.Buffered() >= 3 {
		if mark, err = buffer.Peek(3); err == nil && mark[1] == 0xBB && mark[2] == 0xBF {
			_, _ = buffer.Discard(3)
		}
	}

	l := Lexer{}
	l.input = buffer
''')],
 prog(['"strings"','"testing/iotest"','"github.com/ulule/loukoum/v3/lexer"'],'''
func main() {
	text := "\\xef\\xbb\\xbfJOIN a ON b = c"
	one := lexer.New(strings.NewReader(text))
	two := lexer.New(iotest.OneByteReader(strings.NewReader(text)))
	for i := 0; i < 20; i++ {
		a, b := one.Next(), two.Next()
		if fmt.Sprint(a) != fmt.Sprint(b) {
			fail("%v and %v", a, b)
		}
	}
}'''))
bug('C06-error-after-token','C06','a reader that fails right after the bytes of an identifier',
 'a failure of the reader that comes with the last character of an identifier is taken for the end of input',
 [('lexer/lexer.go','''type Lexer struct {
	input  *bufio.Reader
''','''type Lexer struct {
	word   bool
	input  *bufio.Reader
'''),('lexer/lexer.go','''	if err != nil && err != io.EOF {
		//l.error(err.Error())
''','''	if err != nil && l.word {
		// End of the identifier, the next read will tell.
		err = io.EOF
	}

	if err != nil && err != io.EOF {
		//l.error(err.Error())
'''),('lexer/lexer.go','''	buffer := []rune{}

	for isLetter''','''	buffer := []rune{}
	l.word = true
	defer func() { l.word = false }()

	for isLetter''')],
 prog(['"errors"','"io"','"strings"','"github.com/ulule/loukoum/v3/lexer"'],'''
// once fails, but only once.
type once struct{ failed bool }

func (o *once) Read([]byte) (int, error) {
	if o.failed {
		return 0, io.EOF
	}
	o.failed = true
	return 0, errors.New("broken")
}

func main() {
	reader := io.MultiReader(strings.NewReader("JOIN abc"), &once{})
	defer func() {
		if recover() == nil {
			fail("the failure was swallowed")
		}
	}()
	l := lexer.New(reader)
	it := l.Iterator()
	_ = it
}'''))
bug('C07-set-order','C07','an update that sets a column to a subquery with values, written before other columns',
 'values of an update are bound in the order of the calls and not of the text',
 [('stmt/set.go','''	columns, expressions := pairs.Values()

	for i := range columns {
		if i != 0 {
			ctx.Write(", ")
		}

		columns[i].Write(ctx)
		ctx.Write(" = ")
		expressions[i].Write(ctx)
	}
''','''	columns, expressions := pairs.Values()

	// Columns that share a value share its placeholder.
	if std, ok := ctx.(*types.StdContext); ok {
		ctx = &bindings{Context: ctx, std: std}
	}

	for i := range columns {
		if i != 0 {
			ctx.Write(", ")
		}

		columns[i].Write(ctx)
		ctx.Write(" = ")
		expressions[i].Write(ctx)
	}
'''),('stmt/set.go','''// WriteArray exposes''','''// bindings is a context that reuses the placeholders of the strings which are already bound.
type bindings struct {
	types.Context
	std *types.StdContext
}

// Bind adds given value in context's values, unless it follows itself.
func (ctx *bindings) Bind(value interface{}) {
	if text, ok := value.(string); ok && len(text) > 16 {
		for i, other := range ctx.std.Values() {
			if other == interface{}(text) {
				ctx.Write("$" + strconv.Itoa(i+1))
				return
			}
		}
	}
	ctx.Context.Bind(value)
}

// WriteArray exposes'''),('stmt/set.go','''	"sort"
''','''	"sort"
	"strconv"
''')],
 prog([LK,'"strings"'],'''
func main() {
	long := strings.Repeat("x", 40)
	query, args := lk.Update("t").Set(lk.Pair("a", long), lk.Pair("b", long)).Query()
	if len(args) != 2 || !strings.Contains(query, "$2") {
		fail("%s %v", query, args)
	}
}'''))
bug('C08-spare-args','C08','the arguments of a render, to which the caller appends before or after the next render',
 'lists of arguments are cut from a common block, and each result has the rest of the block as spare capacity',
 [('types/context.go','''	idx := len(ctx.values) + 1
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))
''','''	idx := len(ctx.values) + 1
	if ctx.values == nil {
		ctx.values = block.take()
	}
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))
'''),('types/context.go','''func (ctx *StdContext) Values() []interface{} {
	return ctx.values
''','''func (ctx *StdContext) Values() []interface{} {
	block.give(ctx.values[len(ctx.values):])
	return ctx.values
'''),('types/context.go','''// StdContext uses''','''// slab cuts small lists from bigger ones.
type slab struct {
	mutex sync.Mutex
	free  []interface{}
}

var block slab

// take returns an empty list with some room.
func (s *slab) take() []interface{} {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	list := s.free
	s.free = nil
	if cap(list) < 8 {
		list = make([]interface{}, 0, 256)
	}
	return list
}

// give returns what is left of a list.
func (s *slab) give(list []interface{}) {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	if cap(list) > cap(s.free) {
		s.free = list
	}
}

// StdContext uses'''),('types/context.go','''	"strings"
''','''	"strings"
	"sync"
''')],
 prog([LK],'''
func main() {
	four := lk.Select("id").From("t").Where(lk.Condition("id").In(1, 2, 3, 4))
	_, one := four.Query()
	_, two := lk.Select("id").From("u").Where(lk.Condition("id").In(7, 8)).Query()
	_ = append(one, "more")
	if two[0] != 7 {
		fail("%v", two)
	}
}'''))
bug('C09-row-expressions','C09','rows of expressions given to Values, one of which the caller overwrites afterwards',
 'rows that are already expressions are kept instead of copied',
 [('stmt/expression.go','''			raws := make([]interface{}, len(values[i]))
			for j := range values[i] {
				raws[j] = values[i][j]
			}
			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
		}
	}

	return arraylist''','''			arraylist.Values = append(arraylist.Values, Array{Values: values[i]})
		}
	}

	return arraylist''')],
 prog([LK,ST],'''
func main() {
	rows := [][]stmt.Expression{{lk.Value(1), lk.Value(2)}, {lk.Value(3), lk.Value(4)}}
	q := lk.Insert("t").Columns("a", "b").Values(rows)
	want := q.String()
	rows[1][0] = lk.Value(99)
	if got := q.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C09-with-keep','C09','common table expressions spread from a slice that the caller reuses',
 'the first call of With keeps the slice of the caller',
 [('stmt/with.go','''		Queries: append([]WithQuery{}, queries...),
''','''		Queries: queries[:len(queries):len(queries)],
'''),('stmt/with.go','''	for i := range with.Queries {
		if i != 0 {
			ctx.Write(", ")
		}
		with.Queries[i].Write(ctx)
	}
''','''	for i, query := range with.Queries {
		if i != 0 {
			ctx.Write(", ")
		}
		query.Write(ctx)
	}
''')],
 prog([LK,ST],'''
func main() {
	list := []stmt.WithQuery{lk.With("a", lk.Select("1").From("t")), lk.With("b", lk.Select("2").From("t"))}
	q := lk.Select("id").With(list...).From("a")
	want := q.String()
	list[0], list[1] = list[1], list[0]
	if got := q.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C10-pair-encoder','C10','an encoder given as the value of a pair whose column is set twice',
 'pairs of a statement keep the encoder and ask it when they are written',
 [('builder/builder.go','''			set.Pairs.Add(ToColumn(value.Key), stmt.NewWrapper(stmt.NewExpression(value.Value)))
		default:''','''			set.Pairs.Add(ToColumn(value.Key), stmt.NewWrapper(stmt.NewDeferred(value.Value)))
		default:'''),('stmt/encoder.go','''	"time"
)
''','''	"time"

	"github.com/ulule/loukoum/v3/types"
)

// deferred is an expression made from an encoder of strings.
type deferred struct {
	encoder StringEncoder
}

// NewDeferred returns an expression for given value.
func NewDeferred(arg interface{}) Expression {
	expression := NewExpression(arg)
	if _, ok := expression.(Value); !ok {
		return expression
	}
	switch value := arg.(type) {
	case Int64Encoder, BoolEncoder, TimeEncoder:
		return expression
	case StringEncoder:
		if expression.(Value).Value == "" {
			// Not known yet.
			return deferred{encoder: value}
		}
	}
	return expression
}

func (deferred) expression() {}

// IsEmpty returns true if statement is undefined.
func (deferred) IsEmpty() bool {
	return false
}

// Write exposes statement as a SQL query.
func (expression deferred) Write(ctx types.Context) {
	ctx.Bind(expression.encoder.String())
}
'''),],
 prog([LK],'''
type name struct{ text string }

func (n *name) String() string { return n.text }

func main() {
	n := &name{}
	q := lk.Update("t").Set(lk.Pair("a", n))
	want := q.String()
	n.text = "later"
	if got := q.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C10-clock-column','C10','a time encoder given in a list of several values',
 'values of a list are encoded a second time when the list is checked',
 [('stmt/expression.go','''	array := Array{}
	for _, value := range values {
		array.Append(value)
	}
	return array
}
''','''	array := Array{}
	for _, value := range values {
		array.Append(value)
	}
	for i, value := range values {
		// A list of times is sorted by the database, which expects one zone.
		encoder, ok := value.(TimeEncoder)
		if ok && i > 0 {
			array.Values[i] = NewValue(encoder.Time())
		}
	}
	return array
}
''')],
 prog([LK,'"time"'],'''
type clock struct{ calls int }

func (c *clock) Time() time.Time {
	c.calls++
	return time.Unix(int64(c.calls), 0)
}

func main() {
	c := &clock{}
	_ = lk.Select("id").From("t").Where(lk.Condition("a").In(1, c))
	if c.calls != 1 {
		fail("the encoder was asked %d times", c.calls)
	}
}'''))
bug('C11-slow-type','C11','a Valuer that failed once for a type whose later values work, and the other way round',
 'types whose Valuer gave a text are not run again when they fail: the last text is given instead',
 [('format/format.go','''		v, err := value.Value()
		if err != nil {
			panic(''','''		v, err := value.Value()
		if err == nil && reflectvalue.Kind() == reflect.Ptr {
			last.Store(arg, v)
		}
		if old, ok := known(reflectvalue, arg); err != nil && ok {
			v, err = old, nil
		}
		if err != nil {
			panic('''),('format/format.go','''// String formats the given string.
''','''// last keeps the values that were retrieved from pointers.
var last sync.Map

// known returns the last value that was retrieved from given pointer.
func known(value reflect.Value, arg interface{}) (interface{}, bool) {
	if value.Kind() != reflect.Ptr {
		return nil, false
	}
	return last.Load(arg)
}

// String formats the given string.
'''),('format/format.go','''	"strconv"
''','''	"strconv"
	"sync"
''')],
 prog([LK,VAL,'"errors"'],'''
type flaky struct{ fails bool }

func (f *flaky) Value() (driver.Value, error) {
	if f.fails {
		return nil, errors.New("no")
	}
	return "text", nil
}

func main() {
	f := &flaky{}
	q := lk.Select("id").From("t").Where(lk.Condition("a").Equal(f))
	_ = q.String()
	f.fails = true
	defer func() {
		if recover() == nil {
			fail("the failure was swallowed")
		}
	}()
	_ = q.String()
}'''))
bug('C12-once-valuer','C12','a Valuer that renders a statement holding a value of the same type, or that is slow while another thread formats one',
 'what a type of Valuer gives for its zero value is computed once per type, and others wait for it',
 [('format/format.go','''		v, err := value.Value()
		if err != nil {
			panic(''','''		v, err := kindOf(reflectvalue).run(value)
		if err != nil {
			panic('''),('format/format.go','''// String formats the given string.
''','''// kind describes a type of values.
type kind struct {
	mutex sync.RWMutex
	seen  bool
}

// kinds contains every type that was formatted.
var kinds sync.Map

func kindOf(value reflect.Value) *kind {
	entry, _ := kinds.LoadOrStore(value.Type(), &kind{})
	k, _ := entry.(*kind)
	return k
}

// run retrieves the value of given valuer. The first one of a type is run alone.
func (k *kind) run(valuer driver.Valuer) (driver.Value, error) {
	k.mutex.RLock()
	seen := k.seen
	k.mutex.RUnlock()
	if seen {
		return valuer.Value()
	}
	k.mutex.Lock()
	defer k.mutex.Unlock()
	v, err := valuer.Value()
	k.seen = err == nil
	return v, err
}

// String formats the given string.
'''),('format/format.go','''	"strconv"
''','''	"strconv"
	"sync"
''')],
 prog([LK,VAL,'"time"'],'''
type nested struct{ query func() string }

func (n nested) Value() (driver.Value, error) {
	if n.query != nil {
		return n.query(), nil
	}
	return "leaf", nil
}

func main() {
	leaf := lk.Select("id").From("t").Where(lk.Condition("a").Equal(nested{}))
	root := lk.Select("id").From("t").Where(lk.Condition("a").Equal(nested{query: leaf.String}))
	done := make(chan struct{})
	go func() {
		_ = root.String()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("deadlock")
	}
}'''))
bug('C13-exists-strip','C13','a subquery used in EXISTS and elsewhere, with several columns',
 'EXISTS replaces the columns of the subquery, which other statements share',
 [('stmt/subquery.go','''func NewExists(value interface{}) Exists {
	return Exists{
		Subquery: NewExpression(value),
	}
}
''','''func NewExists(value interface{}) Exists {
	return Exists{
		Subquery: project(NewExpression(value)),
	}
}

// project drops the aliases of a subquery, which are of no use here.
func project(expression Expression) Expression {
	query, ok := expression.(Select)
	if !ok {
		return expression
	}
	for i := range query.Expressions {
		column, ok := query.Expressions[i].(Column)
		if ok && column.Alias != "" {
			query.Expressions[i] = column.As("")
		}
	}
	return query
}
''')],
 prog([LK],'''
func main() {
	sub := lk.Select(lk.Column("a").As("b")).From("t")
	want := sub.String()
	_ = lk.Select("id").From("u").Where(lk.Exists(sub)).String()
	if got := sub.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C13-on-chain','C13','a join condition of which two longer ones are made, with OR below AND',
 'chains of join conditions keep their parts in a list which the longer ones share',
 [('stmt/on.go','''	Left     OnExpression
	Operator LogicalOperator
	Right    OnExpression
}
''','''	Left     OnExpression
	Operator LogicalOperator
	Right    OnExpression
	rest     []onPart
}

// onPart is a further part of a chain of conditions.
type onPart struct {
	operator LogicalOperator
	value    OnExpression
}
'''),('stmt/on.go','''	ctx.Write("(")
	expression.Left.Write(ctx)
	ctx.Write(" ")
	expression.Operator.Write(ctx)
	ctx.Write(" ")
	expression.Right.Write(ctx)
	ctx.Write(")")
''','''	for range expression.rest {
		ctx.Write("(")
	}
	ctx.Write("(")
	expression.Left.Write(ctx)
	ctx.Write(" ")
	expression.Operator.Write(ctx)
	ctx.Write(" ")
	expression.Right.Write(ctx)
	ctx.Write(")")
	for _, part := range expression.rest {
		ctx.Write(" ")
		part.operator.Write(ctx)
		ctx.Write(" ")
		part.value.Write(ctx)
		ctx.Write(")")
	}
'''),('stmt/on.go','''func (expression InfixOnExpression) And(value OnExpression) OnExpression {
	operator := NewAndOperator()
	return NewInfixOnExpression(expression, operator, value)
}
''','''func (expression InfixOnExpression) And(value OnExpression) OnExpression {
	expression.rest = append(expression.rest, onPart{NewAndOperator(), value})
	return expression
}
'''),('stmt/on.go','''func (expression InfixOnExpression) Or(value OnExpression) OnExpression {
	operator := NewOrOperator()
	return NewInfixOnExpression(expression, operator, value)
}
''','''func (expression InfixOnExpression) Or(value OnExpression) OnExpression {
	expression.rest = append(expression.rest, onPart{NewOrOperator(), value})
	return expression
}
''')],
 prog([LK],'''
func main() {
	on := lk.On("a", "b").And(lk.On("c", "d")).And(lk.On("e", "f")).And(lk.On("g", "h")).And(lk.On("i", "j"))
	one := lk.Select("id").From("t").Join("u", on.And(lk.On("k", "l")).(interface{}))
	want := one.String()
	_ = on.And(lk.On("m", "n"))
	if got := one.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
