# ---- fourth round: claims on shared arrays, singleflight, bulk paths, environment, long histories
bug('C01-tail-claim','C01','a chain of seven joins and two forks, one of which copied the list and claimed its length',
 'joins are appended in place while a shared counter says that the handle is the last one; a copy sets the counter back',
 [('builder/select.go','''type Select struct {
	query stmt.Select
}
''','''type Select struct {
	query stmt.Select
	// claimed is how many of the joins of the shared list are taken: the handle that has exactly these may append
	// in place.
	claimed *int64
}
'''),
 ('builder/select.go','''	"fmt"

''','''	"fmt"
	"sync/atomic"

'''),
 ('builder/select.go','''	joins := b.query.Joins
	b.query.Joins = append(joins[:len(joins):len(joins)], join)
''','''	joins := b.query.Joins
	size := int64(len(joins))
	if b.claimed == nil {
		b.claimed = new(int64)
	}
	if !atomic.CompareAndSwapInt64(b.claimed, size, size+1) {
		joins = append(make([]stmt.Join, 0, size+1), joins...)
		atomic.StoreInt64(b.claimed, size+1)
	}
	b.query.Joins = append(joins, join)
'''),
 ('builder/select.go','''		panic("loukoum: given join clause is invalid")
	}
}
''','''		panic(fmt.Sprintf("loukoum: given join clause is invalid: %d arguments", len(args)))
	}
}
''')],
 prog([LK,'"github.com/ulule/loukoum/v3/builder"'],'''
func join(b builder.Select, name string) builder.Select {
	return b.Join(name, "ON "+name+".id = t.id")
}

func main() {
	x := lk.Select("a").From("t")
	for _, n := range []string{"j1", "j2", "j3"} {
		x = join(x, n)
	}
	a := join(x, "j4")
	b := join(x, "k4")
	y := join(a, "j5")
	z := join(y, "j6")
	before := z.String()
	_ = join(b, "k5")
	_ = join(y, "m6")
	if z.String() != before {
		fail("%s became %s", before, z.String())
	}
}'''))
bug('C01-insert-template','C01','two inserts whose columns are set one after the other before the first is rendered',
 'all inserts start from one template whose column list has spare room, which they share',
 [('builder/insert.go','''	return Insert{
		query: stmt.NewInsert(),
	}
''','''	return template
'''),
 ('builder/insert.go','''// NewInsert creates a new Insert.
''','''// template is what every insert starts from.
var template = Insert{
	query: stmt.Insert{
		Columns: make([]stmt.Column, 0, 8),
	},
}

// NewInsert creates a new Insert.
'''),
 ('builder/insert.go','''	b.query.Columns = ToColumns(columns)

	return b
''','''	b.query.Columns = ToColumns(columns)
	if len(b.query.Columns) > 3 {
		// There is room for the common case.
		b.query.Columns = append(template.query.Columns, b.query.Columns...)
	}

	return b
''')],
 prog([LK],'''
func main() {
	a := lk.Insert("t").Columns("a", "b", "c", "d").Values([]int{1, 2, 3, 4})
	before := a.String()
	_ = lk.Insert("u").Columns("e", "f", "g", "h")
	if a.String() != before {
		fail("%s became %s", before, a.String())
	}
}'''))
bug('C02-quote-pool','C02','two threads that quote names of several parts at the same time',
 'the pieces of a name are collected in a pooled slice that is given back before it is joined',
 [('stmt/stmt.go','''	split := strings.Split(ident, ".")
	quoted := make([]string, 0, len(split))
	for i := range split {
		quoted = append(quoted, strconv.Quote(split[i]))
	}
	return strings.Join(quoted, ".")
}
''','''	if !strings.Contains(ident, ".") {
		return strconv.Quote(ident)
	}
	parts := pieces(ident)
	return strings.Join(*parts, ".")
}

var scratch = sync.Pool{New: func() interface{} { return new([]string) }}

// pieces returns the quoted parts of a name.
func pieces(ident string) *[]string {
	parts := scratch.Get().(*[]string)
	defer scratch.Put(parts)
	*parts = (*parts)[:0]
	for _, part := range strings.Split(ident, ".") {
		*parts = append(*parts, strconv.Quote(part))
	}
	return parts
}
'''),
 ('stmt/stmt.go','''	"strings"

''','''	"strings"
	"sync"

''')],
 prog([LK,'"sync"'],'''
func main() {
	q := lk.Select("a").From("s1.t1").Where(lk.Condition("t1.id").Equal(1)).OrderBy(lk.Order("t1.id"))
	r := lk.Select("a").From("s2.t2").Where(lk.Condition("t2.name").Equal(1))
	wantq, wantr := q.String(), r.String()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 20000; k++ {
				if i%2 == 0 && q.String() != wantq || i%2 == 1 && r.String() != wantr {
					fail("mixed up")
				}
			}
		}(i)
	}
	wg.Wait()
}'''),race=True)
bug('C03-sprint','C03','a string encoder that panics',
 'strings are taken from encoders with fmt, which turns a panic of the encoder into text',
 [('stmt/expression.go','''		return NewValue(value.String())
''','''		return NewValue(fmt.Sprint(value))
''')],
 prog([LK],'''
type bad struct{}

func (bad) String() string { panic("no text") }

func main() {
	defer func() {
		if recover() == nil {
			fail("swallowed")
		}
	}()
	_ = lk.Select("a").Where(lk.Condition("id").Equal(bad{}))
}'''))
bug('C03-failed-prefix','C03','a join text that is refused, then a valid one that begins with the same sixteen characters',
 'texts that cannot be parsed are remembered by their first characters only',
 [('parser/join.go','''	lexer := lexer.New(strings.NewReader(subquery))
''','''	if _, bad := refused.Load(digest(subquery)); bad {
		return stmt.Join{}, errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
	}
	lexer := lexer.New(strings.NewReader(subquery))
'''),
 ('parser/join.go','''	join, err := ParseJoin(subquery)
	if err != nil {
''','''	join, err := ParseJoin(subquery)
	if err != nil {
		refused.Store(digest(subquery), true)
'''),
 ('parser/join.go','''	"strings"

''','''	"strings"
	"sync"

'''),
 ('parser/join.go','''// MustParseJoin will''','''// refused remembers what could not be parsed, so that a client that insists costs nothing.
var refused sync.Map

func digest(subquery string) string {
	if len(subquery) > 16 {
		return subquery[:16]
	}
	return subquery
}

// MustParseJoin will''')] if '// MustParseJoin' in open('/repo/parser/join.go').read() else [],
 prog([LK],'''
func main() {
	func() {
		defer func() { recover() }()
		_ = lk.Select("a").From("t").Join("users", "ON users.account_id = (")
	}()
	_ = lk.Select("a").From("t").Join("users", "ON users.account_id = t.id").String()
}'''))
bug('C04-array-slots','C04','eight renders that are aborted inside a list of four or more values',
 'a render of a long list takes one of eight slots and gives it back only when it ends well',
 [('stmt/expression.go','''func (array Array) Write(ctx types.Context) {
	for i, value := range array.Values {
		if i > 0 {
			ctx.Write(", ")
		}
		value.Write(ctx)
	}
}
''','''func (array Array) Write(ctx types.Context) {
	if len(array.Values) < 4 {
		array.write(ctx)
		return
	}
	select {
	case slots <- struct{}{}:
		array.write(ctx)
		<-slots
	default:
		panic("loukoum: too many long lists are being written")
	}
}

// slots bounds how many long lists are written at once.
var slots = make(chan struct{}, 8)

func (array Array) write(ctx types.Context) {
	for i, value := range array.Values {
		if i > 0 {
			ctx.Write(", ")
		}
		value.Write(ctx)
	}
}
''')],
 prog([LK,'"database/sql/driver"','"errors"'],'''
type bad struct{}

func (bad) Value() (driver.Value, error) { return nil, errors.New("no") }

func main() {
	q := lk.Select("a").Where(lk.Condition("id").In(1, 2, 3, bad{}))
	for i := 0; i < 8; i++ {
		func() {
			defer func() { recover() }()
			_ = q.String()
		}()
	}
	_, args := q.Query()
	if len(args) != 4 {
		fail("%v", args)
	}
}'''))
bug('C04-bind-null','C04','a context whose Bind panics',
 'when binding fails a NULL is written in place of the value before the panic goes on',
 [('stmt/expression.go','''		ctx.Bind(value.Value)
	}
''','''		value.bind(ctx)
	}
'''),
 ('stmt/expression.go','''// Overlap performs an "overlap" comparison.
func (value Value) Overlap(''','''// bind leaves a readable text behind if the value cannot be bound.
func (value Value) bind(ctx types.Context) {
	done := false
	defer func() {
		if !done {
			ctx.Write("NULL")
		}
	}()
	ctx.Bind(value.Value)
	done = true
}

// Overlap performs an "overlap" comparison.
func (value Value) Overlap(''')],
 prog([LK],'''
type ctx struct{ text string }

func (c *ctx) Write(s string)         { c.text += s }
func (c *ctx) Bind(value interface{}) { panic("no") }

func main() {
	c := &ctx{}
	func() {
		defer func() { recover() }()
		lk.Select("a").From("t").Where(lk.Condition("id").Equal(1)).Statement().Write(c)
	}()
	if c.text != `SELECT "a" FROM "t" WHERE ("id" = ` {
		fail("%s", c.text)
	}
}'''))
bug('C05-local-zone','C05','a process whose local zone is not UTC',
 'times in debug text that were made in the local zone keep it',
 [('format/format.go','''	return fmt.Sprint("'", value.UTC().Format("2006-01-02 15:04:05.999999"), "+00'")
''','''	return fmt.Sprint("'", value.Local().Format("2006-01-02 15:04:05.999999-07"), "'")
''')],
 prog([LK,'"time"'],'''
func main() {
	at := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
	q := lk.Select("a").Where(lk.Condition("at").Equal(at))
	texts := map[string]bool{}
	for i := 0; i < 3; i++ {
		time.Local = time.FixedZone("Z", 3600*i)
		texts[q.String()] = true
	}
	if len(texts) != 1 {
		fail("%v", texts)
	}
}'''))
bug('C05-hash-collide','C05','two names whose hashes agree in sixteen bits, in one process',
 'quoted names are kept by a hash of sixteen bits, and the name is not compared',
 [('stmt/stmt.go','''func quote(ident string) string {
''','''var names [1 << 16]atomic.Value

// quote keeps what it made, since the same few names come again and again.
func quote(ident string) string {
	sum := fnv.New32a()
	_, _ = sum.Write([]byte(ident))
	slot := &names[sum.Sum32()&0xffff]
	known, ok := slot.Load().(string)
	if ok && len(known) >= len(ident)+2 && len(known) <= len(ident)+12 && len(ident) != 0 && known[1] == ident[0] {
		return known
	}
	made := quoted(ident)
	slot.Store(made)
	return made
}

func quoted(ident string) string {
'''),
 ('stmt/stmt.go','''	quoted := make([]string, 0, len(split))
	for i := range split {
		quoted = append(quoted, strconv.Quote(split[i]))
	}
	return strings.Join(quoted, ".")
''','''	parts := make([]string, 0, len(split))
	for i := range split {
		parts = append(parts, strconv.Quote(split[i]))
	}
	return strings.Join(parts, ".")
'''),
 ('stmt/stmt.go','''	"strconv"
	"strings"
''','''	"hash/fnv"
	"strconv"
	"strings"
	"sync/atomic"
''')],
 prog([LK],'''
func main() {
	for i := 0; i < 100000; i++ {
		name := fmt.Sprintf("c%d", i)
		want := fmt.Sprintf(`SELECT "%s"`, name)
		if got := lk.Select(name).String(); got != want {
			fail("%s instead of %s", got, want)
		}
	}
}'''))
bug('C06-bom','C06','a byte order mark that comes in one piece with the text after it',
 'a byte order mark is skipped if the first read gave it whole, and an illegal token otherwise',
 [('lexer/lexer.go','''	buffer := bufio.NewReader(input)
''','''	buffer := bufio.NewReader(input)

	// Skip a byte order mark.
	first, _, err := buffer.ReadRune()
	if err == nil && (first != 0xfeff || buffer.Buffered() == 0) {
		_ = buffer.UnreadRune()
	}
	if err != nil && err != io.EOF {
		panic(err)
	}
''')],
 prog(['"github.com/ulule/loukoum/v3/lexer"','"strings"','"testing/iotest"','"github.com/ulule/loukoum/v3/token"'],'''
func main() {
	text := "\\ufeffSELECT"
	one := lexer.New(strings.NewReader(text))
	two := lexer.New(iotest.OneByteReader(strings.NewReader(text)))
	for i := 0; i < 3; i++ {
		a, b := one.Next(), two.Next()
		if a != b {
			fail("%v %v", a, b)
		}
		if a.Type == token.EOF {
			break
		}
	}
}'''))
bug('C06-prefetch','C06','a text that takes more than two reads of the reader ahead',
 'a goroutine reads ahead into two buffers in turn and hands one over before the other is used up',
 [('lexer/lexer.go','''	buffer := bufio.NewReader(input)
''','''	buffer := bufio.NewReaderSize(ahead(input), 64)
'''),
 ('lexer/lexer.go','''// New returns''','''// New returns''')] if False else [('lexer/lexer.go','''	buffer := bufio.NewReader(input)
''','''	buffer := bufio.NewReaderSize(ahead(input), 64)
'''),
 ('lexer/lexer.go','''// current return the current rune in reader.
''','''type chunk struct {
	data []byte
	err  error
}

// readahead reads the input in the background.
type readahead struct {
	chunks chan chunk
	rest   []byte
	err    error
}

func ahead(input io.Reader) io.Reader {
	r := &readahead{chunks: make(chan chunk, 1)}
	buffers := [2][]byte{make([]byte, 64), make([]byte, 64)}
	go func() {
		for i := 0; ; i++ {
			buffer := buffers[i%2]
			n, err := guarded(input, buffer)
			r.chunks <- chunk{buffer[:n], err}
			if err != nil {
				return
			}
		}
	}()
	return r
}

func guarded(input io.Reader, buffer []byte) (n int, err error) {
	defer func() {
		if failure := recover(); failure != nil {
			err = failed{failure}
		}
	}()
	return input.Read(buffer)
}

type failed struct{ reason interface{} }

func (failed) Error() string { return "reader failed" }

func (r *readahead) Read(p []byte) (int, error) {
	for len(r.rest) == 0 {
		if r.err != nil {
			if f, ok := r.err.(failed); ok {
				panic(f.reason)
			}
			return 0, r.err
		}
		next := <-r.chunks
		r.rest, r.err = next.data, next.err
	}
	n := copy(p, r.rest)
	r.rest = r.rest[n:]
	return n, nil
}

// current return the current rune in reader.
''')],
 prog(['"github.com/ulule/loukoum/v3/lexer"','"strings"','"github.com/ulule/loukoum/v3/token"'],'''
func main() {
	text := ""
	for i := 0; i < 2000; i++ {
		text += fmt.Sprintf("w%d ", i)
	}
	for try := 0; try < 200; try++ {
		l := lexer.New(strings.NewReader(text))
		for i := 0; i < 2000; i++ {
			if got := l.Next(); got.Value != fmt.Sprintf("w%d", i) {
				fail("%d: %v", i, got)
			}
		}
		if got := l.Next(); got.Type != token.EOF {
			fail("%v", got)
		}
	}
}'''))
bug('C07-renumber','C07','a common table expression with ten or more values after a statement that bound some before it',
 'common table expressions are written apart and their placeholders are renumbered one after the other by replacing text',
 [('stmt/with.go','''	with.Subquery.Write(ctx)
	ctx.Write(")")
''','''	if std, ok := ctx.(*types.StdContext); ok {
		part := &types.StdContext{}
		with.Subquery.Write(part)
		std.Embed(part)
	} else {
		with.Subquery.Write(ctx)
	}
	ctx.Write(")")
'''),
 ('types/context.go','''// Values returns the positional argument values.
''','''// Embed appends what another context has.
func (ctx *StdContext) Embed(part *StdContext) {
	query, base := part.Query(), len(ctx.values)
	if base != 0 {
		for i := len(part.values); i > 0; i-- {
			query = strings.ReplaceAll(query, fmt.Sprintf("$%d", i), fmt.Sprintf("$%d", base+i))
		}
	}
	ctx.values = append(ctx.values, part.values...)
	ctx.Write(query)
}

// Values returns the positional argument values.
''')],
 prog([LK],'''
func main() {
	one := lk.Select("a").Where(lk.Condition("x").Equal(100))
	in := []int{}
	for i := 1; i < 13; i++ {
		in = append(in, i)
	}
	two := lk.Select("a").Where(lk.Condition("y").In(in))
	query, _ := lk.Select("a").With(lk.With("o", one.Statement()), lk.With("p", two.Statement())).Query()
	want := `WITH o AS (SELECT "a" WHERE ("x" = $1)), p AS (SELECT "a" WHERE ("y" IN ($2, $3, $4, $5, $6, $7, $8, $9, $10, $11, $12, $13))) SELECT "a"`
	if query != want {
		fail("%s", query)
	}
}'''))
bug('C08-bulk-bind','C08','a list of plain values that is the first thing a statement binds, and a result that is written to',
 'a list whose elements are all plain values is bound as a whole, and the list itself becomes the result when it comes first',
 [('stmt/expression.go','''// Array contains a list of expression values.
type Array struct {
	Values []Expression
}
''','''// Array contains a list of expression values.
type Array struct {
	Values []Expression
	plain  []interface{}
}
'''),
 ('stmt/expression.go','''	array.Values = append(array.Values, NewExpression(value))
}
''','''	expression := NewExpression(value)
	plain, ok := expression.(Value)
	if ok && plain.Value != nil && len(array.plain) == len(array.Values) {
		array.plain = append(array.plain, plain.Value)
	}
	array.Values = append(array.Values, expression)
}
'''),
 ('stmt/expression.go','''func (array Array) Write(ctx types.Context) {
	for i, value''','''func (array Array) Write(ctx types.Context) {
	if std, ok := ctx.(*types.StdContext); ok && len(array.plain) == len(array.Values) {
		std.BindAll(array.plain)
		return
	}
	for i, value'''),
 ('types/context.go','''// Values returns the positional argument values.
''','''// BindAll adds given values in context's values.
func (ctx *StdContext) BindAll(values []interface{}) {
	for i := range values {
		if i != 0 {
			ctx.Write(", ")
		}
		ctx.Write(fmt.Sprintf("$%d", len(ctx.values)+i+1))
	}
	if len(ctx.values) == 0 {
		ctx.values = values[:len(values):len(values)]
		return
	}
	ctx.values = append(ctx.values, values...)
}

// Values returns the positional argument values.
''')],
 prog([LK],'''
func main() {
	q := lk.Select("a").Where(lk.Condition("id").In(1, 2, 3))
	_, args := q.Query()
	args[0] = "mine"
	_, again := q.Query()
	if again[0] != 1 {
		fail("%v", again)
	}
}'''))
bug('C09-pairs-sort','C09','four or more pairs given from one slice of the caller, not in the order of their keys',
 'pairs are sorted by key in the slice that the caller passed',
 [('builder/builder.go','''	set.Pairs = set.Pairs.Clone()
	for i := range args {
''','''	set.Pairs = set.Pairs.Clone()
	sortPairs(args)
	for i := range args {
'''),
 ('builder/builder.go','''// ToSet takes either''','''// sortPairs puts long lists of pairs in the order in which they are going to be written.
func sortPairs(args []interface{}) {
	if len(args) < 4 {
		return
	}
	keys := make(map[interface{}]string, len(args))
	for i := range args {
		pair, ok := args[i].(types.Pair)
		if !ok {
			return
		}
		key, ok := pair.Key.(string)
		if !ok {
			return
		}
		keys[pair.Key] = key
	}
	sort.SliceStable(args, func(i, j int) bool {
		return keys[args[i].(types.Pair).Key] < keys[args[j].(types.Pair).Key]
	})
}

// ToSet takes either'''),
 ('builder/builder.go','''			panic(fmt.Sprintf("loukoum: cannot use %T as pair", value))
''','''			panic(fmt.Sprintf("loukoum: cannot use %T as a pair", value))
''')],
 prog([LK],'''
func main() {
	pairs := []interface{}{lk.Pair("d", 1), lk.Pair("c", 2), lk.Pair("b", 3), lk.Pair("a", 4)}
	_ = lk.Update("t").Set(pairs...)
	if pairs[0] != lk.Pair("d", 1) {
		fail("%v", pairs)
	}
}'''))
bug('C09-full-slice','C09','a slice of expressions without spare room, overwritten by the caller afterwards',
 'a list of expressions is copied only if it has spare capacity',
 [('builder/builder.go','''			return append([]stmt.SelectExpression{}, array...)
''','''			if len(array) == cap(array) {
				return array
			}
			return append([]stmt.SelectExpression{}, array...)
'''),
 ('builder/builder.go','''			expressions := make([]stmt.SelectExpression, 0, len(values))
			for i := range array {
				expressions = append(expressions, stmt.NewColumn(array[i]))
''','''			expressions := make([]stmt.SelectExpression, 0, len(array))
			for i := range array {
				expressions = append(expressions, stmt.NewColumn(array[i]))
''')],
 prog([LK,ST],'''
func main() {
	list := []stmt.SelectExpression{lk.Column("a"), lk.Column("b")}
	q := lk.Select(list)
	list[0] = lk.Column("z")
	if q.String() != `SELECT "a", "b"` {
		fail("%s", q)
	}
}'''))
bug('C10-encoder-key','C10','an encoder given as the value of a map with two or more keys that define the same column',
 'a value given for a column that is already set is encoded once more to see whether it changed',
 [('stmt/set.go','''	_, ok := pairs.Map[column]
	if !ok {
		pairs.Columns = append(pairs.Columns, column)
	}
''','''	previous, ok := pairs.Map[column]
	if !ok {
		pairs.Columns = append(pairs.Columns, column)
	}
	if value, same := previous.(deferred); same && value.Value.Value == nil {
		panic("loukoum: invalid state for stmt.PairContainer")
	}
'''),
 ('stmt/set.go','''// Set appends given column. It will''','''// deferred is a value that is encoded when it is written.
type deferred struct{ Value }

// Defer turns a value given again for a column into one that is encoded late, since it may be replaced again.
func (pairs *PairContainer) Defer(column Column, value interface{}) bool {
	encoder, ok := value.(Int64Encoder)
	if _, set := pairs.Map[column]; !ok || !set {
		return false
	}
	pairs.Map[column] = deferred{Value{Value: encoder}}
	return true
}

// Write exposes statement as a SQL query.
func (value deferred) Write(ctx types.Context) {
	ctx.Bind(value.Value.Value.(Int64Encoder).Int64())
}

// Set appends given column. It will'''),
 ('builder/builder.go','''		case types.Pair:
''','''		case types.Pair:
			if set.Pairs.Mode == stmt.PairAssociativeMode && set.Pairs.Defer(ToColumn(value.Key), value.Value) {
				continue
			}
''')],
 prog([LK],'''
type counter struct{ n int64 }

func (c *counter) Int64() int64 { c.n++; return c.n }

func main() {
	c := &counter{}
	q := lk.Update("t").Set(lk.Pair("a", 1), lk.Pair("a", c))
	first := q.String()
	if second := q.String(); first != second {
		fail("%s then %s", first, second)
	}
}'''))
bug('C11-array-probe','C11','a driver value given alone to In or Values',
 'a driver value that is given as the only element of a list is run to see whether it is a list',
 [('stmt/expression.go','''	default:
		array.Append(value)
	}
	return array
''','''	case driver.Valuer:
		// The value may stand for a list.
		if list, err := values.Value(); err == nil {
			if _, ok := list.([]string); ok {
				return toArray(list)
			}
		}
		array.Append(value)
	default:
		array.Append(value)
	}
	return array
''')],
 prog([LK,'"database/sql/driver"'],'''
type val struct{ runs *int }

func (v val) Value() (driver.Value, error) { *v.runs++; return "x", nil }

func main() {
	runs := 0
	_, args := lk.Select("a").Where(lk.Condition("id").In(val{&runs})).Query()
	if runs != 0 || len(args) != 1 {
		fail("%d runs, %v", runs, args)
	}
}'''))
bug('C11-exit-null','C11','a driver value that ends its goroutine with runtime.Goexit',
 'driver values are run in a goroutine of their own, and one that ends without an answer counts as NULL',
 [('format/format.go','''		v, err := value.Value()
		if err != nil {
''','''		v, err := guard(value)
		if err != nil {
'''),
 ('format/format.go','''// String formats the''','''type answer struct {
	value  driver.Value
	err    error
	reason interface{}
}

// guard runs a driver value on a stack of its own, since some are deep.
func guard(value driver.Valuer) (driver.Value, error) {
	answers := make(chan answer, 1)
	go func() {
		a := answer{}
		defer func() {
			a.reason = recover()
			answers <- a
		}()
		a.value, a.err = value.Value()
	}()
	a := <-answers
	if a.reason != nil {
		panic(a.reason)
	}
	return a.value, a.err
}

// String formats the''')],
 prog([LK,'"database/sql/driver"','"runtime"'],'''
type val struct{}

func (val) Value() (driver.Value, error) { runtime.Goexit(); return "x", nil }

func main() {
	done := make(chan string, 1)
	go func() {
		text := ""
		defer func() { done <- text }()
		text = lk.Select("a").Where(lk.Condition("id").Equal(val{})).String()
	}()
	if text := <-done; text != "" {
		fail("%s", text)
	}
}'''))
bug('C12-singleflight','C12','two threads that make debug text with the same pointer as driver value, one of them stopped inside it',
 'a driver value that is already being run by another thread is waited for instead of being run again',
 [('format/format.go','''		v, err := value.Value()
		if err != nil {
''','''		v, err := flight(value, reflectvalue.Kind() == reflect.Ptr)
		if err != nil {
'''),
 ('format/format.go','''	"strconv"
	"time"
''','''	"strconv"
	"sync"
	"time"
'''),
 ('format/format.go','''// String formats the''','''var flights sync.Map

// flight runs a driver value alone, since those that are shared are seldom made for several threads.
func flight(value driver.Valuer, shared bool) (driver.Value, error) {
	if shared {
		known, _ := flights.LoadOrStore(value, &sync.Mutex{})
		lock := known.(*sync.Mutex)
		lock.Lock()
		defer lock.Unlock()
	}
	return value.Value()
}

// String formats the''')],
 prog([LK,'"database/sql/driver"','"time"'],'''
type val struct{ in, out chan bool }

func (v *val) Value() (driver.Value, error) {
	select {
	case v.in <- true:
		<-v.out
	default:
	}
	return "x", nil
}

func main() {
	v := &val{in: make(chan bool, 1), out: make(chan bool)}
	q := lk.Select("a").Where(lk.Condition("id").Equal(v))
	go func() { _ = q.String() }()
	time.Sleep(100 * time.Millisecond)
	done := make(chan bool)
	go func() { _ = q.String(); done <- true }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("blocked")
	}
}'''))
bug('C13-only-flag','C13','one table value of which an ONLY variant is made after the table went into a statement',
 'the ONLY flag of a table is behind a pointer that its copies share',
 [('stmt/table.go','''	only  bool
''','''	only  *bool
'''),
 ('stmt/table.go','''	table.only = true
	return table
''','''	if table.only == nil {
		table.only = new(bool)
	}
	*table.only = true
	return table
'''),
 ('stmt/table.go','''		Name:  name,
		Alias: alias,
''','''		Name:  name,
		Alias: alias,
		only:  new(bool),
'''),
 ('stmt/table.go','''	if table.only {
''','''	if table.only != nil && *table.only {
''')],
 prog([LK],'''
func main() {
	t := lk.Table("t")
	q := lk.Select("a").From(t)
	before := q.String()
	_ = lk.Select("a").From(t.Only())
	if q.String() != before {
		fail("%s", q)
	}
}'''))
bug('C13-sum-options','C13','one sum used under two aliases',
 'the alias of a sum is set in options that its copies share',
 [('stmt/aggregate.go','''// NewSum''','''// sumOptions is what may be set on a sum.
type sumOptions struct{ alias string }

// NewSum'''),
 ] if False else [('stmt/aggregate.go','''func (sum Sum) As(alias string) Sum {
	sum.Alias = alias
	return sum
}
''','''func (sum Sum) As(alias string) Sum {
	if sum.last == nil {
		sum.last = new(string)
	}
	*sum.last = alias
	sum.Alias = alias
	return sum
}
'''),
 ('stmt/aggregate.go','''type Sum struct {
	Value Raw
	Alias string
}
''','''type Sum struct {
	Value Raw
	Alias string
	last  *string
}
'''),
 ('stmt/aggregate.go','''	sum.Value.Write(ctx)
	ctx.Write(")")
	if sum.Alias != "" {
		ctx.Write(" ")
		ctx.Write(token.As.String())
		ctx.Write(" ")
		ctx.Write(sum.Alias)
''','''	sum.Value.Write(ctx)
	ctx.Write(")")
	if sum.Alias != "" {
		alias := sum.Alias
		if sum.last != nil {
			alias = *sum.last
		}
		ctx.Write(" ")
		ctx.Write(token.As.String())
		ctx.Write(" ")
		ctx.Write(alias)
''')],
 prog([LK],'''
func main() {
	one := lk.Sum("x").As("a")
	q := lk.Select(one)
	before := q.String()
	_ = lk.Select(one.As("b"))
	if q.String() != before {
		fail("%s", q)
	}
}'''))
bug('C13-call-spare','C13','a function call whose arguments are extended by two bigger pieces',
 'the arguments of a call inside a call are joined to the outer list in the array of the inner call',
 [('stmt/expression.go','''	return Call{
		function: function,
		args:     append([]Expression{}, args...),
	}
''','''	// coalesce(coalesce(a, b), c) is coalesce(a, b, c).
	if len(args) > 1 && function == "coalesce" {
		inner, ok := args[0].(Call)
		if ok && inner.function == function {
			return Call{
				function: function,
				args:     append(inner.args, args[1:]...),
			}
		}
	}
	return Call{
		function: function,
		args:     append(make([]Expression, 0, 8), args...),
	}
''')],
 prog([LK,ST],'''
func main() {
	in := stmt.NewCall("coalesce", stmt.NewRaw("a"), stmt.NewRaw("b"))
	one := lk.Select("x").Where(stmt.NewCall("coalesce", in, stmt.NewRaw("c")))
	before := one.String()
	_ = lk.Select("x").Where(stmt.NewCall("coalesce", in, stmt.NewRaw("d")))
	if one.String() != before {
		fail("%s became %s", before, one)
	}
}'''))
