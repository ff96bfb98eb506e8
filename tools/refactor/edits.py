# Edits that keep the behaviour of loukoum, for refactor.py.

F, STMT, SET, EXPR = 'format/format.go', 'stmt/stmt.go', 'stmt/set.go', 'stmt/expression.go'
CTX, B, SEL, UPD, INS = 'types/context.go', 'builder/builder.go', 'builder/select.go', 'builder/update.go', 'builder/insert.go'
LEX, JOIN = 'lexer/lexer.go', 'parser/join.go'

refactor('format-pool',
  (F, 'import (\n\t"bytes"', 'import (\n\t"bytes"\n\t"sync"'),
  (F, '\tbuffer := &bytes.Buffer{}\n', '\tbuffer := buffers.Get().(*bytes.Buffer)\n\tdefer buffers.Put(buffer)\n\tbuffer.Reset()\n'),
  (F, '// String formats', 'var buffers = sync.Pool{New: func() interface{} { return &bytes.Buffer{} }}\n\n// String formats'))

refactor('format-builder',
  (F, '\tbuffer := &bytes.Buffer{}\n', '\tbuffer := &strings.Builder{}\n\tbuffer.Grow(len(value) + 2)\n'),
  (F, '\t"bytes"\n', ''), (F, '\t"strconv"\n', '\t"strconv"\n\t"strings"\n'),
  (F, 'buffer *bytes.Buffer', 'buffer *strings.Builder'))

refactor('format-time-sprintf',
  (F, 'return fmt.Sprint("\'", value.UTC().Format("2006-01-02 15:04:05.999999"), "+00\'")',
      'utc := value.In(time.UTC)\n\treturn "\'" + utc.Format("2006-01-02 15:04:05.999999") + "+00\'"'))

refactor('format-replacer',
  (F, '''	buffer := &bytes.Buffer{}
	writeRune(buffer, '\\'')
	for _, char := range value {
		switch char {
		case '\\'':
			writeString(buffer, `\\'`)
		case '\\\\':
			writeString(buffer, `\\\\`)
		case '\\n':
			writeString(buffer, `\\n`)
		case '\\r':
			writeString(buffer, `\\r`)
		case '\\t':
			writeString(buffer, `\\t`)
		default:
			writeRune(buffer, char)
		}
	}
	writeRune(buffer, '\\'')
	return buffer.String()
''', '''	return "'" + replacer.Replace(string([]rune(value))) + "'"
'''),
  (F, '// String formats', 'var replacer = strings.NewReplacer("\'", `\\\'`, `\\`, `\\\\`, "\\n", `\\n`, "\\r", `\\r`, "\\t", `\\t`)\n\n// String formats'),
  (F, '\t"bytes"\n', ''), (F, '\t"strconv"\n', '\t"strconv"\n\t"strings"\n'),
  (F, re.compile(r'// nolint: interfacer\nfunc writeRune.*', re.S), ''))

QUOTE = '''func quote(ident string) string {
	split'''

refactor('quote-syncmap',
  (STMT, QUOTE, '''var quotes sync.Map

func quote(ident string) string {
	if cached, ok := quotes.Load(ident); ok {
		return cached.(string)
	}
	quoted := quoteIdent(ident)
	quotes.Store(ident, quoted)
	return quoted
}

func quoteIdent(ident string) string {
	split'''), (STMT, '\t"strings"\n', '\t"strings"\n\t"sync"\n'))

refactor('quote-rwmutex',
  (STMT, QUOTE, '''var (
	quotesLock sync.RWMutex
	quotes     = map[string]string{}
)

func quote(ident string) string {
	quotesLock.RLock()
	cached, ok := quotes[ident]
	quotesLock.RUnlock()
	if ok {
		return cached
	}
	quoted := quoteIdent(ident)
	quotesLock.Lock()
	defer quotesLock.Unlock()
	if len(quotes) > 512 {
		quotes = map[string]string{}
	}
	quotes[ident] = quoted
	return quoted
}

func quoteIdent(ident string) string {
	split'''), (STMT, '\t"strings"\n', '\t"strings"\n\t"sync"\n'))

refactor('quote-chanlock',
  (STMT, QUOTE, '''var (
	quotesLock = make(chan struct{}, 1)
	quotes     = map[string]string{}
)

func quote(ident string) string {
	quotesLock <- struct{}{}
	defer func() { <-quotesLock }()
	cached, ok := quotes[ident]
	if !ok {
		cached = quoteIdent(ident)
		quotes[ident] = cached
	}
	return cached
}

func quoteIdent(ident string) string {
	split'''))

refactor('quote-atomic-value',
  (STMT, QUOTE, '''// A snapshot is never changed once it is published.
var quotes atomic.Value

func quote(ident string) string {
	current, _ := quotes.Load().(map[string]string)
	if cached, ok := current[ident]; ok {
		return cached
	}
	next := make(map[string]string, len(current)+1)
	if len(current) < 256 {
		for k, v := range current {
			next[k] = v
		}
	}
	quoted := quoteIdent(ident)
	next[ident] = quoted
	quotes.Store(next)
	return quoted
}

func quoteIdent(ident string) string {
	split'''), (STMT, '\t"strings"\n', '\t"strings"\n\t"sync/atomic"\n'))

refactor('quote-spinlock',
  (STMT, QUOTE, '''var (
	quotesBusy int32
	quotes     = map[string]string{}
)

func quote(ident string) string {
	for !atomic.CompareAndSwapInt32(&quotesBusy, 0, 1) {
		runtime.Gosched()
	}
	defer atomic.StoreInt32(&quotesBusy, 0)
	cached, ok := quotes[ident]
	if !ok {
		cached = quoteIdent(ident)
		quotes[ident] = cached
	}
	return cached
}

func quoteIdent(ident string) string {
	split'''), (STMT, '\t"strings"\n', '\t"runtime"\n\t"strings"\n\t"sync/atomic"\n'))

refactor('quote-spin-bare',
  (STMT, QUOTE, '''var (
	quotesBusy int32
	quotes     = map[string]string{}
)

func quote(ident string) string {
	for !atomic.CompareAndSwapInt32(&quotesBusy, 0, 1) {
		continue
	}
	defer atomic.StoreInt32(&quotesBusy, 0)
	cached, ok := quotes[ident]
	if !ok {
		cached = quoteIdent(ident)
		quotes[ident] = cached
	}
	return cached
}

func quoteIdent(ident string) string {
	split'''), (STMT, '\t"strings"\n', '\t"strings"\n\t"sync/atomic"\n'))

refactor('quote-spin-sleep',
  (STMT, QUOTE, '''var (
	quotesBusy int32
	quotes     = map[string]string{}
)

func quote(ident string) string {
	for !atomic.CompareAndSwapInt32(&quotesBusy, 0, 1) {
		time.Sleep(time.Microsecond)
	}
	defer atomic.StoreInt32(&quotesBusy, 0)
	cached, ok := quotes[ident]
	if !ok {
		cached = quoteIdent(ident)
		quotes[ident] = cached
	}
	return cached
}

func quoteIdent(ident string) string {
	split'''), (STMT, '\t"strings"\n', '\t"strings"\n\t"sync/atomic"\n\t"time"\n'))

refactor('quote-trylock',
  (STMT, QUOTE, '''var (
	quotesLock sync.Mutex
	quotes     = map[string]string{}
)

func quote(ident string) string {
	if !quotesLock.TryLock() {
		return quoteIdent(ident)
	}
	defer quotesLock.Unlock()
	cached, ok := quotes[ident]
	if !ok {
		cached = quoteIdent(ident)
		quotes[ident] = cached
	}
	return cached
}

func quoteIdent(ident string) string {
	split'''), (STMT, '\t"strings"\n', '\t"strings"\n\t"sync"\n'))

refactor('quote-cow',
  (STMT, QUOTE, '''type quoted struct {
	ident, text string
	next        *quoted
}

// The last ones quoted; nodes are never changed.
var quotes atomic.Pointer[quoted]

func quote(ident string) string {
	n := 0
	for q := quotes.Load(); q != nil; q = q.next {
		if q.ident == ident {
			return q.text
		}
		n++
	}
	fresh := &quoted{ident: ident, text: quoteIdent(ident)}
	for {
		fresh.next = quotes.Load()
		if n > 20 {
			old := fresh.next
			fresh.next = nil
			if quotes.CompareAndSwap(old, fresh) {
				return fresh.text
			}
			continue
		}
		if quotes.CompareAndSwap(fresh.next, fresh) {
			return fresh.text
		}
	}
}

func quoteIdent(ident string) string {
	split'''), (STMT, '\t"strings"\n', '\t"strings"\n\t"sync/atomic"\n'))

refactor('quote-builder',
  (STMT, '''	split := strings.Split(ident, ".")
	quoted := make([]string, 0, len(split))
	for i := range split {
		quoted = append(quoted, strconv.Quote(split[i]))
	}
	return strings.Join(quoted, ".")
''', '''	var out []byte
	for {
		i := strings.IndexByte(ident, '.')
		if i < 0 {
			return string(strconv.AppendQuote(out, ident))
		}
		out = append(strconv.AppendQuote(out, ident[:i]), '.')
		ident = ident[i+1:]
	}
'''))

refactor('freelist-chan',
  (F, '\tbuffer := &bytes.Buffer{}\n', '''	var buffer *bytes.Buffer
	select {
	case buffer = <-free:
		buffer.Reset()
	default:
		buffer = &bytes.Buffer{}
	}
	defer func() {
		select {
		case free <- buffer:
		default:
		}
	}()
'''),
  (F, '// String formats', 'var free = make(chan *bytes.Buffer, 4)\n\n// String formats'))

refactor('join-memo',
  (JOIN, '// ParseJoin will try', '''var (
	joinsLock sync.Mutex
	joins     = map[string]stmt.Join{}
)

// ParseJoin will try to parse given subquery as a join statement.
func ParseJoin(subquery string) (stmt.Join, error) {
	joinsLock.Lock()
	join, ok := joins[subquery]
	joinsLock.Unlock()
	if ok {
		return join, nil
	}
	join, err := parseJoin(subquery)
	if err == nil {
		joinsLock.Lock()
		joins[subquery] = join
		joinsLock.Unlock()
	}
	return join, err
}

// parseJoin will try'''),
  (JOIN, 'func ParseJoin(subquery string) (stmt.Join, error) { //', 'func parseJoin(subquery string) (stmt.Join, error) { //'),
  (JOIN, '\t"strings"\n', '\t"strings"\n\t"sync"\n'))

refactor('join-helper',
  (JOIN, '				// Left condition\n				left := stmt.NewColumn(e.Value)\n\n				// Check that we have a right condition\n				e = it.Next()\n				if e.Type != token.Equals || !it.Is(token.Literal) {\n					err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)\n					return stmt.Join{}, err\n				}\n\n				// Right condition\n				e = it.Next()\n				right := stmt.NewColumn(e.Value)\n\n				join.Condition = stmt.NewOnClause(left, right)\n',
   '				clause, err := parseOn(it, e, subquery)\n				if err != nil {\n					return stmt.Join{}, err\n				}\n				join.Condition = clause\n'),
  (JOIN, '// MustParseJoin will', '''func parseOn(it *lexer.Iteratee, e token.Token, subquery string) (stmt.OnClause, error) {
	left := stmt.NewColumn(e.Value)
	if !it.HasNext() || it.Next().Type != token.Equals || !it.Is(token.Literal) {
		return stmt.OnClause{}, errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
	}
	return stmt.NewOnClause(left, stmt.NewColumn(it.Next().Value)), nil
}

// MustParseJoin will'''))

refactor('pairs-sorted-insert',
  (SET, '''	_, ok := pairs.Map[column]
	if !ok {
		pairs.Columns = append(pairs.Columns, column)
	}

	pairs.Map[column] = expression
''', '''	if _, ok := pairs.Map[column]; !ok {
		less := func(left, right Column) bool {
			if left.Name != right.Name {
				return left.Name < right.Name
			}
			return left.Alias < right.Alias
		}
		at := sort.Search(len(pairs.Columns), func(i int) bool { return less(column, pairs.Columns[i]) })
		columns := make([]Column, 0, len(pairs.Columns)+1)
		columns = append(columns, pairs.Columns[:at]...)
		columns = append(columns, column)
		pairs.Columns = append(columns, pairs.Columns[at:]...)
	}
	pairs.Map[column] = expression
'''))

refactor('pairs-stable-sort',
  (SET, 'sort.Slice(columns', 'sort.SliceStable(columns'), (B, 'sort.Slice(pairs', 'sort.SliceStable(pairs'))

refactor('set-lazy-clone',
  (B, '''	set.Pairs = set.Pairs.Clone()
	for i := range args {
''', '''	cloned := false
	for i := range args {
		if !cloned {
			set.Pairs, cloned = set.Pairs.Clone(), true
		}
'''))

refactor('set-two-passes',
  (B, '''			pairs := make([]types.Pair, 0, len(value))
			for k, v := range value {
				pairs = append(pairs, types.Pair{Key: k, Value: v})
			}
			addPairs(&set, pairs)
		case types.Map:
''', '''			pairs := make([]types.Pair, len(value))
			n := 0
			for k := range value {
				pairs[n].Key = k
				n++
			}
			for n = range pairs {
				pairs[n].Value = value[pairs[n].Key.(string)]
			}
			addPairs(&set, pairs)
		case types.Map:
'''))

refactor('ctx-counter',
  (CTX, '''	RawContext
	values map[string]interface{}
}''', '''	RawContext
	values map[string]interface{}
	count  int
}'''),
  (CTX, '''	idx := len(ctx.values) + 1
	name := fmt.Sprintf("arg_%d", idx)
''', '''	ctx.count++
	name := "arg_" + strconv.Itoa(ctx.count)
'''),
  (CTX, '	idx := len(ctx.values) + 1\n	ctx.values = append(ctx.values, value)\n	ctx.Write(fmt.Sprintf("$%d", idx))\n',
        '	ctx.values = append(ctx.values, value)\n	ctx.Write("$")\n	ctx.Write(strconv.Itoa(len(ctx.values)))\n'),
  (CTX, '	"fmt"\n	"strings"\n', '	"strconv"\n	"strings"\n'))

refactor('ctx-names-table',
  (CTX, '// NamedContext uses', '''var (
	namesOnce sync.Once
	names     []string
)

func argName(idx int) string {
	namesOnce.Do(func() {
		for i := 0; i < 16; i++ {
			names = append(names, fmt.Sprintf("arg_%d", i))
		}
	})
	if idx < len(names) {
		return names[idx]
	}
	return fmt.Sprintf("arg_%d", idx)
}

// NamedContext uses'''),
  (CTX, 'name := fmt.Sprintf("arg_%d", idx)', 'name := argName(idx)'),
  (CTX, '	"strings"\n', '	"strings"\n	"sync"\n'))

refactor('ctx-copies',
  (CTX, '''func (ctx *StdContext) Values() []interface{} {
	return ctx.values
''', '''func (ctx *StdContext) Values() []interface{} {
	if ctx.values == nil {
		return nil
	}
	return append(make([]interface{}, 0, len(ctx.values)), ctx.values...)
'''),
  (CTX, '''func (ctx *NamedContext) Values() map[string]interface{} {
	return ctx.values
''', '''func (ctx *NamedContext) Values() map[string]interface{} {
	if ctx.values == nil {
		return nil
	}
	values := make(map[string]interface{}, len(ctx.values))
	for k, v := range ctx.values {
		values[k] = v
	}
	return values
'''))

refactor('render-helper',
  (SEL, '''	ctx := &types.StdContext{}
	b.query.Write(ctx)
	return ctx.Query(), ctx.Values()
''', '''	return render(b.query)
'''),
  (UPD, '''	ctx := &types.StdContext{}
	b.query.Write(ctx)
	return ctx.Query(), ctx.Values()
''', '''	return render(b.query)
'''),
  (INS, '''	ctx := &types.StdContext{}
	b.query.Write(ctx)
	return ctx.Query(), ctx.Values()
''', '''	return render(b.query)
'''),
  (B, '// ToColumn takes', '''func render(query stmt.Statement) (string, []interface{}) {
	ctx := &types.StdContext{}
	query.Write(ctx)
	return ctx.Query(), ctx.Values()
}

// ToColumn takes'''))

refactor('render-twice',
  (SEL, '''	ctx := &types.StdContext{}
	b.query.Write(ctx)
''', '''	size := &types.StdContext{}
	b.query.Write(size)
	ctx := &types.StdContext{}
	b.query.Write(ctx)
'''))

refactor('render-goroutine',
  (SEL, '''	ctx := &types.StdContext{}
	b.query.Write(ctx)
	return ctx.Query(), ctx.Values()
''', '''	type result struct {
		query  string
		values []interface{}
		err    interface{}
		ok     bool
	}
	done := make(chan result)
	go func() {
		var r result
		defer func() {
			r.err = recover()
			done <- r
		}()
		ctx := &types.StdContext{}
		b.query.Write(ctx)
		r.query, r.values = ctx.Query(), ctx.Values()
		r.ok = true
	}()
	r := <-done
	if r.err != nil {
		panic(r.err)
	}
	if !r.ok {
		runtime.Goexit()
	}
	return r.query, r.values
'''), (SEL, 'import (\n\t"fmt"\n', 'import (\n\t"fmt"\n\t"runtime"\n'))

refactor('render-waitgroup',
  (UPD, '''	ctx := &types.RawContext{}
	b.query.Write(ctx)
	return ctx.Query()
''', '''	var wait sync.WaitGroup
	var err interface{}
	ok := false
	ctx := &types.RawContext{}
	wait.Add(1)
	go func() {
		defer wait.Done()
		defer func() { err = recover() }()
		b.query.Write(ctx)
		ok = true
	}()
	wait.Wait()
	if err == nil && !ok {
		runtime.Goexit()
	}
	if err != nil {
		panic(err)
	}
	return ctx.Query()
'''),
  (UPD, 'import (\n', 'import (\n\t"runtime"\n\t"sync"\n\n'))

refactor('render-slots',
  (SEL, '''	ctx := &types.RawContext{}
	b.query.Write(ctx)
	return ctx.Query()
''', '''	buffer := <-contexts
	contexts <- buffer
	ctx := &types.RawContext{}
	b.query.Write(ctx)
	return ctx.Query()
'''),
  (SEL, '// Select is a builder', '''var contexts = func() chan int {
	c := make(chan int, 1)
	c <- 1
	return c
}()

// Select is a builder'''))

refactor('valuer-deferred',
  (F, '''		v, err := value.Value()
		if err != nil {
			panic("loukoum: was not able to retrieve valuer value")
		}
		return Value(v)
''', '''		return Value(read(value))
'''),
  (F, '// String formats', '''func read(value driver.Valuer) interface{} {
	atomic.AddInt32(&reading, 1)
	defer atomic.AddInt32(&reading, -1)
	v, err := value.Value()
	if err != nil {
		panic("loukoum: was not able to retrieve valuer value")
	}
	return v
}

// reading is how many are under way.
var reading int32

// String formats'''),
  (F, '	"strconv"\n', '	"strconv"\n	"sync/atomic"\n'))

refactor('valuer-error-text',
  (F, 'panic("loukoum: was not able to retrieve valuer value")', 'panic(fmt.Sprintf("loukoum: cannot retrieve the value of %T: %s", value, err))'))

refactor('value-typeswitch-order',
  (F, '''	case int:
		return Int(int64(value))
	case int8:
''', '''	case int, int32, uint16:
		return fmt.Sprintf("%d", value)
	case int8:
'''),
  (F, '	case int32:\n		return Int(int64(value))\n', ''),
  (F, '	case uint16:\n		return Uint(uint64(value))\n', ''))

refactor('lexer-readall',
  (LEX, '	buffer := bufio.NewReader(input)\n', '''	text, err := io.ReadAll(input)
	if err != nil {
		panic(err)
	}
	buffer := bufio.NewReader(bytes.NewReader(text))
'''), (LEX, '	"bufio"\n', '	"bufio"\n	"bytes"\n'))

refactor('lexer-small-buffer',
  (LEX, 'bufio.NewReader(input)', 'bufio.NewReaderSize(input, 16)'))

refactor('lexer-builder',
  (LEX, '	buffer := []rune{}\n', '	var buffer strings.Builder\n'),
  (LEX, 'buffer = append(buffer, l.current())', 'buffer.WriteRune(l.current())'),
  (LEX, 'return string(buffer), true', 'return buffer.String(), true'),
  (LEX, '	"io"\n', '	"io"\n	"strings"\n'))

refactor('join-append-copy',
  (SEL, '''	joins := b.query.Joins
	b.query.Joins = append(joins[:len(joins):len(joins)], join)
''', '''	joins := make([]stmt.Join, len(b.query.Joins), len(b.query.Joins)+4)
	copy(joins, b.query.Joins)
	b.query.Joins = append(joins, join)
'''))

refactor('orderby-copy',
  (SEL, '''	current := b.query.OrderBy.Orders
	b.query.OrderBy.Orders = append(current[:len(current):len(current)], orders...)
''', '''	list := []stmt.Order{}
	list = append(list, b.query.OrderBy.Orders...)
	list = append(list, orders...)
	b.query.OrderBy = stmt.NewOrderBy(list)
'''))

refactor('stats-atomic',
  (SEL, '''	ctx := &types.StdContext{}
''', '''	rendered.Add(1)
	ctx := &types.StdContext{}
'''),
  (SEL, '// Select is a builder', '// rendered counts statements.\nvar rendered atomic.Int64\n\n// Select is a builder'),
  (SEL, 'import (\n\t"fmt"\n', 'import (\n\t"fmt"\n\t"sync/atomic"\n'))

refactor('stats-mutex',
  (EXPR, '''// NewExpression returns''', '''var (
	kindsLock sync.Mutex
	kinds     = map[reflect.Type]int{}
)

func count(arg interface{}) {
	t := reflect.TypeOf(arg)
	kindsLock.Lock()
	kinds[t]++
	kindsLock.Unlock()
}

// NewExpression returns'''),
  (EXPR, '	if arg == nil {\n		return NewValue(nil)\n	}\n	switch', '	if arg == nil {\n		return NewValue(nil)\n	}\n	count(arg)\n	switch'),
  (EXPR, '	"fmt"\n', '	"fmt"\n	"reflect"\n	"sync"\n'))

refactor('refusal-texts',
  (UPD, re.compile(r'panic\("loukoum: '), 'panic("loukoum/builder: '),
  (SEL, re.compile(r'panic\("loukoum: '), 'panic("loukoum/builder: '),
  (B, re.compile(r'panic\("loukoum: '), 'panic("loukoum/builder: '))

refactor('refusal-errors',
  (UPD, re.compile(r'panic\(("loukoum: [^"]*")\)'), r'panic(errors.New(\1))'), (UPD, 'import (\n', 'import (\n\t"errors"\n\n'))

refactor('array-generic',
  (EXPR, '''	case []int:
		for _, v := range values {
			array.Append(v)
		}
''', '''	case []int:
		array.Values = make([]Expression, 0, len(values))
		for i := range values {
			array.Values = append(array.Values, NewExpression(values[i]))
		}
'''),
  (EXPR, '''	array := Array{}
	for _, value := range values {
		array.Append(value)
	}
	return array
''', '''	list := make([]Expression, len(values))
	for i, value := range values {
		list[i] = NewExpression(value)
	}
	return Array{Values: list}
'''))

refactor('encoder-eager',
  (EXPR, '	case Int64Encoder:\n		return NewValue(value.Int64())\n', '	case Int64Encoder:\n		number := value.Int64()\n		return NewValue(number)\n'))

refactor('where-helper',
  (UPD, '''	if b.query.Where.IsEmpty() {
		b.query.Where = stmt.NewWhere(condition)
		return b
	}

	return b.And(condition)
''', '''	if b.query.Where.IsEmpty() {
		b.query.Where = stmt.NewWhere(condition)
	} else {
		b.query.Where = b.query.Where.And(condition)
	}
	return b
'''))

refactor('conflict-local',
  (INS, '''	for i := range args {
		switch value := args[i].(type) {
		case string, stmt.Column:
			columns := b.query.OnConflict.Target.Columns
			b.query.OnConflict.Target.Columns = append(columns[:len(columns):len(columns)], ToColumn(value))
''', '''	targets := make([]stmt.Column, 0, len(args))
	for i := range args {
		switch value := args[i].(type) {
		case string, stmt.Column:
			targets = append(targets, ToColumn(value))
			b.query.OnConflict.Target = stmt.NewConflictTarget(targets)
'''))

refactor('token-switch',
  ('token/token.go', 'var keywords = map', 'var keywordsLock sync.RWMutex\n\nvar keywords = map'),
  ('token/token.go', 'func Lookup(', 'func Lookup(e string) Type {\n\tkeywordsLock.RLock()\n\tdefer keywordsLock.RUnlock()\n\treturn lookup(e)\n}\n\nfunc lookup('),
  ('token/token.go', '\t"strings"\n', '\t"strings"\n\t"sync"\n'))

refactor('comment-trailing', ('builder/doc.go', 'package builder', 'package builder\n\n// Builders are values.\n'))

refactor('quote-server',
  (STMT, QUOTE, """type question struct {
	ident  string
	answer chan string
}

var (
	questions chan question
	serve     sync.Once
)

func server(questions <-chan question, max int, rest ...string) {
	known := map[string]string{}
	for _, ident := range rest {
		known[ident] = quoteIdent(ident)
	}
	for q := range questions {
		quoted, ok := known[q.ident]
		if !ok {
			quoted = quoteIdent(q.ident)
			if len(known) < max {
				known[q.ident] = quoted
			}
		}
		q.answer <- quoted
	}
}

// quote asks the goroutine that owns the table.
func quote(ident string) string {
	serve.Do(func() {
		questions = make(chan question)
		common := []string{"id", "name"}
		go server(questions, 100, common...)
	})
	q := question{ident, make(chan string, 1)}
	questions <- q
	select {
	case quoted := <-q.answer:
		return quoted
	}
}

func quoteIdent(ident string) string {
	split"""), (STMT, '\t"strings"\n', '\t"strings"\n\t"sync"\n'))

refactor('array-parallel',
  (EXPR, """	array := Array{}
	for _, value := range values {
		array.Append(value)
	}
	return array
""", """	list := make([]Expression, len(values))
	type failure struct {
		i   int
		err interface{}
	}
	failures := make(chan failure, len(values))
	for i := range values {
		at := i
		go convert(list, at, values[at], func(err interface{}, ok bool) {
			if err == nil && !ok {
				err = goexit{}
			}
			failures <- failure{at, err}
		})
	}
	first := failure{i: len(values)}
	for range values {
		if f := <-failures; f.err != nil && f.i < first.i {
			first = f
		}
	}
	if first.err != nil {
		if _, ok := first.err.(goexit); ok {
			runtime.Goexit()
		}
		panic(first.err)
	}
	return Array{Values: list}
"""),
  (EXPR, '// toArray tries', """type goexit struct{}

func convert(list []Expression, i int, value interface{}, done func(err interface{}, ok bool)) {
	ok := false
	defer func() { done(recover(), ok) }()
	list[i] = NewExpression(value)
	ok = true
}

// toArray tries"""),
  (EXPR, '\t"fmt"\n', '\t"fmt"\n\t"runtime"\n'))


TIMED = '''package format

import (
	"sync"
	"time"
)

type cache struct {
	mutex sync.Mutex
	texts map[string]string
	timer *time.Timer
	ticks *time.Ticker
}

var texts = cache{texts: map[string]string{}}

func (c *cache) get(s string) (string, bool) {
	c.mutex.Lock()
	defer c.mutex.Unlock()
	t, ok := c.texts[s]
	return t, ok
}

func (c *cache) put(s, t string) {
	c.mutex.Lock()
	defer c.mutex.Unlock()
	c.texts[s] = t
	if c.timer == nil {
		c.timer = time.AfterFunc(time.Minute, func() {
			c.mutex.Lock()
			defer c.mutex.Unlock()
			c.texts = map[string]string{}
			c.timer = nil
		})
	}
	if c.ticks == nil {
		c.ticks = time.NewTicker(time.Second)
		go func() {
			for range c.ticks.C {
				c.mutex.Lock()
				delete(c.texts, "x")
				c.mutex.Unlock()
			}
		}()
	}
}

// String formats the given string.
func String(value string) string {
	if t, ok := texts.get(value); ok {
		return t
	}
	done, quit := make(chan string), make(chan struct{})
	defer close(quit)
	go func() {
		text := quoted(value)
		for {
			select {
			case done <- text:
			case <-quit:
			case <-time.After(time.Second):
				if len(text) > 100 {
					continue
				}
			}
			return
		}
	}()
	var t string
	%s
	texts.put(value, t)
	return t
}
'''

refactor('timed-cache',
         ('format/format.go', '// String formats the given string.\nfunc String(', 'func quoted('),
         ('format/timed.go', None, TIMED % '''select {
	case t = <-done:
	case <-time.After(time.Hour):
		t = quoted(value)
	}'''))

refactor('timed-context',
         ('format/format.go', '// String formats the given string.\nfunc String(', 'func quoted('),
         ('format/timed.go', None, TIMED.replace('import (\n', 'import (\n\t"context"\n') % '''ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	sub, stop := context.WithCancel(ctx)
	defer stop()
	result := done
	if len(value)%2 == 0 {
		result = nil
	}
	if len(value)%3 == 0 {
		stop()
	}
	select {
	case t = <-result:
	case <-sub.Done():
		t = quoted(value)
	}'''))

COLLECTED = '''package format

import (
	"runtime"
	"sync"
	"sync/atomic"
	"unique"
	"weak"
)

type shelf struct {
	text string
	used atomic.Int64
}

var (
	shelves = map[unique.Handle[string]]weak.Pointer[shelf]{}
	lock    sync.Mutex
	shelved atomic.Int64
	spares  sync.Pool
)

type scratch struct{ bytes []byte }

// String formats the given string.
func String(value string) string {
	key := unique.Make(value)
	lock.Lock()
	s := shelves[key].Value()
	lock.Unlock()
	if s != nil {
		s.used.Add(1)
		return s.text
	}
	buffer, _ := spares.Get().(*scratch)
	if buffer == nil {
		buffer = &scratch{}
	}
	buffer.bytes = append(buffer.bytes[:0], quoted(value)...)
	s = &shelf{text: string(buffer.bytes)}
	holder := &scratch{}
	runtime.SetFinalizer(holder, func(*scratch) { spares.Put(buffer) })
	runtime.AddCleanup(s, func(key unique.Handle[string]) {
		shelved.Add(-1)
		lock.Lock()
		defer lock.Unlock()
		if shelves[key].Value() == nil {
			delete(shelves, key)
		}
	}, key)
	var m runtime.MemStats
	if shelved.Add(1)%16 == 0 {
		runtime.ReadMemStats(&m)
	}
	if m.HeapAlloc > 1<<30 {
		return s.text
	}
	lock.Lock()
	defer lock.Unlock()
	shelves[key] = weak.Make(s)
	return s.text
}
'''

refactor('collected-cache',
         ('format/format.go', '// String formats the given string.\nfunc String(', 'func quoted('),
         ('format/collected.go', None, COLLECTED))

NAMES = '''// Package names keeps quoted names.
package names

import (
	"strconv"
	"strings"
	. "sync"
	at "sync/atomic"
)

// Table is a table of names.
type Table[K comparable, V any] struct {
	RWMutex
	known map[K]V
	hits  at.Int64
	once  Once
}

// Of gives what is known of a key.
func (t *Table[K, V]) Of(key K, find func(K) V) (v V) {
	t.once.Do(func() { t.known = map[K]V{} })
	t.RLock()
	v, ok := t.known[key]
	t.RUnlock()
	if ok {
		t.hits.Add(1)
		return
	}
	defer t.Unlock()
	t.Lock()
	if len(t.known) > 100 {
		clear(t.known)
	}
	v = find(key)
	t.known[key] = v
	return
}

var table Table[string, string]

// Quote quotes a name.
func Quote(ident string) string {
	return table.Of(ident, func(ident string) string {
		parts := strings.Split(ident, ".")
		for i, part := range parts {
			parts[i] = strconv.Quote(part)
		}
		return strings.Join(parts, ".")
	})
}
'''
NAMES = NAMES.replace('clear(t.known)', 't.known = map[K]V{}')

refactor('new-package',
         ('stmt/stmt.go', '''	split := strings.Split(ident, ".")
	quoted := make([]string, 0, len(split))
	for i := range split {
		quoted = append(quoted, strconv.Quote(split[i]))
	}
	return strings.Join(quoted, ".")
''', '''	return names.Quote(ident)
'''),
         ('stmt/stmt.go', '''	"strconv"
	"strings"

''', '''	"github.com/ulule/loukoum/v3/internal/names"
'''),
         ('internal/names/names.go', None, NAMES))

ZOO = '''package format

import (
	"context"
	"errors"
	"fmt"
	lock "sync"
	"sync/atomic"
	clock "time"
)

type kind uint8

const (
	plain kind = iota
	marks
	lines
	_
	last
)

type (
	base struct {
		lock.Mutex
		n int
	}
	shape struct {
		*base
		kinds [last]int
		next  func(kind) (kind, bool)
		sub   struct{ a, b int }
	}
	pair[A, B any] struct {
		a A
		b B
	}
)

var errOdd = errors.New("odd")

var zoo = shape{base: &base{}, next: func(k kind) (kind, bool) { return k + 1, k < last }}

func init() {
	for i := range zoo.kinds {
		zoo.kinds[i]++
	}
}

func init() { zoo.sub = struct{ a, b int }{b: 1} }

func (s *shape) see(k kind) {
	s.Lock()
	defer s.Unlock()
	s.n++
	s.kinds[k%last]++
}

func twice[A any, B any](a A, b B) (p pair[A, B], err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%w: %v", errOdd, r)
		}
	}()
	p.a, p.b = a, b
	return
}

func sum(list ...int) (total int) {
	sync, time := 0, 1
	for _, sync = range list {
		total += sync * time
	}
	return total
}

var flights atomic.Int32

// String formats the given string.
func String(value string) (text string) {
	see := zoo.see
	k := plain
outer:
	for i, c := range value {
		switch {
		case c == '\\'':
			k = marks
			fallthrough
		case c == 0:
			if i > 3 {
				break outer
			}
		case c == '\\n':
			k = lines
			continue outer
		default:
		}
	}
	see(k)
	i := 0
again:
	if i < 2 {
		i++
		goto again
	}
	p, err := twice(value, sum([]int{1, 2}...))
	if errors.Is(err, errOdd) {
		panic(err)
	}
	if x := any(p.a); x != nil {
		switch v := x.(type) {
		case interface{ String() string }:
			return v.String()
		case string:
			value = v
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), clock.Hour)
	defer cancel()
	var wg lock.WaitGroup
	parts := make(chan string, 1)
	wg.Add(1)
	go func(done func(), out chan<- string) {
		defer done()
		defer flights.Add(-1)
		flights.Add(1)
		out <- quoted(value)
	}(wg.Done, parts)
	wg.Wait()
	close(parts)
	for part := range parts {
		text += part
	}
	select {
	default:
	case <-ctx.Done():
		_ = ctx.Err()
	}
	var arr = &[...]int{2: 1}
	for i := range arr {
		_ = i
	}
	for range value {
		break
	}
	func() { _ = arr[0] }()
	type local struct{ fmt.Stringer }
	var l interface{} = local{}
	if _, ok := l.(fmt.Stringer); !ok {
		return ""
	}
	return text
}
'''

refactor('zoo',
         ('format/format.go', '// String formats the given string.\nfunc String(', 'func quoted('),
         ('format/zoo.go', None, ZOO))
