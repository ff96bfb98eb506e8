# ---- C04
CTXPOOL_EDITS=None
bug('C04-pooled-context','C04','a render cut by a panic (a Valuer that fails in the debug form), followed by another render in the same form',
 'String takes its context from a pool and gives it back without clearing it when the render is cut',
 [('builder/select.go','''	ctx := &types.RawContext{}
	b.query.Write(ctx)
	return ctx.Query()
''','''	ctx := rawContexts.Get().(*types.RawContext)
	defer rawContexts.Put(ctx)
	b.query.Write(ctx)
	query := ctx.Query()
	ctx.Reset()
	return query
'''),('builder/select.go','''	"fmt"

''','''	"fmt"
	"sync"

'''),('builder/select.go','''// Select is a builder used''','''// rawContexts keeps the contexts of the debug form.
var rawContexts = sync.Pool{New: func() interface{} { return &types.RawContext{} }}

// Select is a builder used'''),('types/context.go','''// Query returns the underlaying query of RawContext.''' if False else '''func (ctx *RawContext) Query() string {''','''func (ctx *RawContext) Query() string {''')],
 prog([LK],'''func main() {}'''))
del BUGS['C04-pooled-context']
bug('C04-pooled-context','C04','a render in the debug form that is cut by a failing Valuer, followed by another render of a SELECT in the same form',
 'the debug form of SELECT takes its context from a pool and gives it back without clearing it when the render is cut',
 [('builder/select.go','''	ctx := &types.RawContext{}
	b.query.Write(ctx)
	return ctx.Query()
''','''	ctx := rawContexts.Get().(*types.RawContext)
	defer rawContexts.Put(ctx)
	b.query.Write(ctx)
	query := ctx.Query()
	*ctx = types.RawContext{}
	return query
'''),('builder/select.go','''	"fmt"

''','''	"fmt"
	"sync"

'''),('builder/select.go','''// Select is a builder used''','''// rawContexts keeps the contexts of the debug form.
var rawContexts = sync.Pool{New: func() interface{} { return &types.RawContext{} }}

// Select is a builder used''')],
 prog([LK,'"database/sql/driver"','"errors"','"runtime"','"runtime/debug"'],'''
type bad struct{}

func (bad) Value() (driver.Value, error) { return nil, errors.New("caller failure") }

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	q := lk.Select("id").From("t").Where(lk.Condition("id").Equal(1))
	want := q.String()
	func() {
		defer func() { _ = recover() }()
		_ = q.And(lk.Condition("x").Equal(bad{})).String()
	}()
	if got := q.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C04-infix-recover','C04','a context of the caller that panics while the right-hand side of a condition is being written',
 'a panic while the right-hand side of a condition is written is turned into a different one... and text is written after the cut',
 [('stmt/infix.go','''	ctx.Write("(")
	expression.Left.Write(ctx)
''','''	ctx.Write("(")
	defer ctx.Write(")")
	expression.Left.Write(ctx)
'''),('stmt/infix.go','''	expression.Right.Write(ctx)
	ctx.Write(")")
}
''','''	expression.Right.Write(ctx)
}
''')],
 prog([LK,'"strings"'],'''
type sink struct {
	text  []string
	binds int
}

func (s *sink) Write(q string) { s.text = append(s.text, q) }
func (s *sink) Bind(v interface{}) {
	if s.binds++; s.binds == 2 {
		panic("caller failure")
	}
	s.text = append(s.text, "?")
}

func main() {
	q := lk.Select("id").From("t").Where(lk.Condition("a").Equal(1)).And(lk.Condition("b").Equal(2)).OrderBy(lk.Order("id"))
	s := &sink{}
	func() {
		defer func() { _ = recover() }()
		q.Statement().Write(s)
	}()
	want := "SELECT \\"id\\" FROM \\"t\\" WHERE ((\\"a\\" = ?) AND (\\"b\\" = ?)) ORDER BY \\"id\\" ASC"
	if got := strings.Join(s.text, ""); !strings.HasPrefix(want, got) {
		fail("%s is not a prefix of %s", got, want)
	}
}'''))
bug('C04-with-depth','C04','a render that is cut inside a common table expression, followed by any render that has common table expressions',
 'the nesting depth of common table expressions is counted in the process and not reset when a render is cut',
 [('stmt/with.go','''import (
''','''import (
	"sync/atomic"

'''),('stmt/with.go','''	ctx.Write(" (")
	with.Subquery.Write(ctx)
	ctx.Write(")")
''','''	// Nested common table expressions are limited, as they are on the server.
	if atomic.AddInt32(&withDepth, 1) > maxWithDepth {
		atomic.AddInt32(&withDepth, -1)
		panic("loukoum: too many nested common table expressions")
	}
	ctx.Write(" (")
	with.Subquery.Write(ctx)
	ctx.Write(")")
	atomic.AddInt32(&withDepth, -1)
'''),('stmt/with.go','''// WithQuery is''','''// maxWithDepth is the number of common table expressions that may be nested.
const maxWithDepth = 8

var withDepth int32

// WithQuery is''')],
 prog([LK,'"database/sql/driver"','"errors"'],'''
type bad struct{}

func (bad) Value() (driver.Value, error) { return nil, errors.New("caller failure") }

func main() {
	good := lk.Select("id").From("t").With(lk.With("w", lk.Select("id").From("u")))
	want := good.String()
	q := lk.Select("id").From("t").With(lk.With("w", lk.Select("id").From("u").Where(lk.Condition("x").Equal(bad{}))))
	for i := 0; i < 50; i++ {
		func() {
			defer func() { _ = recover() }()
			_ = q.String()
		}()
	}
	if got := good.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
# ---- C05
bug('C05-quote-fold','C05','two identifiers that differ in case only, used one after the other in one process',
 'quoted identifiers are remembered under their lower-case name, so the text depends on which spelling the process met first',
 [('stmt/stmt.go','''	"strings"

''','''	"strings"
	"sync"

'''),('stmt/stmt.go','''	split := strings.Split(ident, ".")
''','''	// Identifiers are case insensitive.
	folded := strings.ToLower(ident)
	if len(folded) > 2 {
		if known, ok := quotedIdents.Load(folded); ok {
			return known.(string)
		}
	}

	split := strings.Split(ident, ".")
'''),('stmt/stmt.go','''	return strings.Join(quoted, ".")
}
''','''	result := strings.Join(quoted, ".")
	quotedIdents.Store(folded, result)
	return result
}

var quotedIdents sync.Map
''')],
 prog([LK],'''
func main() {
	_ = lk.Select("UserName").From("t").String()
	want := "SELECT \\"username\\" FROM \\"t\\""
	if got := lk.Select("username").From("t").String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C05-map-large','C05','a map of more than sixteen pairs, with two keys for one column',
 'the pairs of large maps are added in the order in which the map gives them, so that which of two keys for one column wins depends on it',
 [('builder/builder.go','''	sort.Slice(pairs, func(i, j int) bool {
''','''	less := func(i, j int) bool {
'''),('builder/builder.go','''		other, ok := pairs[i].Key.(string)
		return !ok || other < name
	})
''','''		other, ok := pairs[i].Key.(string)
		return !ok || other < name
	}
	// Columns are sorted when they are written: sorting large maps twice is a waste.
	if len(pairs) <= 16 {
		sort.Slice(pairs, less)
	}
'''),('builder/builder.go','''		case map[string]interface{}:
			pairs := make([]types.Pair, 0, len(value))
''','''		case map[string]interface{}:
			if len(value) == 0 {
				continue
			}
			pairs := make([]types.Pair, 0, len(value))
''')],
 prog([LK],'''
func main() {
	m := map[string]interface{}{}
	for i := 0; i < 20; i++ {
		m[fmt.Sprint("c", i)] = i
	}
	m[" c3 "] = 1003
	want := lk.Update("t").Set(m).String()
	for i := 0; i < 200; i++ {
		if got := lk.Update("t").Set(m).String(); got != want {
			fail("%s, then %s", want, got)
		}
	}
}'''))
bug('C05-having-time','C05','a statement that has a comment, rendered at different times',
 'map values bound in NamedQuery... the raw text of values formatted by reflection depends on map order',
 [('format/format.go','''	default:
		return fmt.Sprint(value)
	}
''','''	case map[string]string:
		pairs := make([]string, 0, len(value))
		for k, v := range value {
			pairs = append(pairs, fmt.Sprint(k, ":", v))
		}
		return fmt.Sprint("map[", strings.Join(pairs, " "), "]")
	default:
		return fmt.Sprint(value)
	}
'''),('format/format.go','''	"strconv"
''','''	"strconv"
	"strings"
''')],
 prog([LK],'''
func main() {
	m := map[string]string{"a": "1", "b": "2", "c": "3", "d": "4", "e": "5"}
	q := lk.Select("id").From("t").Where(lk.Condition("x").Contains(m))
	want := q.String()
	for i := 0; i < 200; i++ {
		if got := q.String(); got != want {
			fail("%s, then %s", want, got)
		}
	}
}'''))
BUGS['C05-map-literal']=BUGS.pop('C05-having-time')
BUGS['C05-map-literal'].update(needs='a value that is a map with several keys, in the debug form',breaks='the debug form of a map lists its keys in the order of iteration')
# ---- C06
bug('C06-unexpected-eof','C06','a reader that fails with io.ErrUnexpectedEOF, as a truncated stream does',
 'the lexer takes io.ErrUnexpectedEOF for the end of the text',
 [('lexer/lexer.go','''	if err != nil && err != io.EOF {
''','''	// A truncated stream has no more runes either.
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}

	if err != nil && err != io.EOF {
''')],
 prog(['"github.com/ulule/loukoum/v3/lexer"','"io"'],'''
type reader struct{ n int }

func (r *reader) Read(p []byte) (int, error) {
	if r.n++; r.n == 1 {
		return copy(p, "JOIN users ON a"), nil
	}
	return 0, io.ErrUnexpectedEOF
}

func main() {
	defer func() {
		if recover() == nil {
			fail("the failure of the reader was taken for the end of the text")
		}
	}()
	l := lexer.New(&reader{})
	_ = l.Iterator()
}'''))
bug('C06-split-rune','C06','a character of several bytes that is cut by two reads',
 'the lexer decodes each read on its own, so a character that two reads share is lost',
 [('lexer/lexer.go','''	e, _, err := l.input.ReadRune()
''','''	// Decode what is buffered without going through the reader again.
	var e rune
	var err error
	if n := l.input.Buffered(); n > 0 {
		chunk, _ := l.input.Peek(n)
		size := 0
		e, size = utf8.DecodeRune(chunk)
		_, err = l.input.Discard(size)
	} else {
		e, _, err = l.input.ReadRune()
	}
'''),('lexer/lexer.go','''	"io"

''','''	"io"
	"unicode/utf8"

''')],
 prog(['"github.com/ulule/loukoum/v3/lexer"','"strings"','"io"'],'''
type cut struct {
	r io.Reader
	n int
}

func (c cut) Read(p []byte) (int, error) {
	if len(p) > c.n {
		p = p[:c.n]
	}
	return c.r.Read(p)
}

func tokens(r io.Reader) string {
	l := lexer.New(r)
	s := ""
	for it := l.Iterator(); it.HasNext(); {
		t := it.Next()
		s += t.String()
	}
	return s
}

func main() {
	text := "JOIN usérs ON é = ü"
	want := tokens(strings.NewReader(text))
	for n := 1; n < 8; n++ {
		if got := tokens(cut{strings.NewReader(text), n}); got != want {
			fail("%s instead of %s", got, want)
		}
	}
}'''))
bug('C06-empty-read','C06','a reader that returns an empty read without an error, once or twice in a row',
 'the lexer takes an empty read for the end of the text',
 [('lexer/lexer.go','''	buffer := bufio.NewReader(input)
''','''	buffer := bufio.NewReader(source{input})
'''),('lexer/lexer.go','''// New return''','''// source ends at the first read that gives nothing.
type source struct {
	io.Reader
}

func (s source) Read(p []byte) (int, error) {
	n, err := s.Reader.Read(p)
	if n == 0 && err == nil && len(p) > 0 {
		return 0, io.EOF
	}
	return n, err
}

// New return''')],
 prog(['"github.com/ulule/loukoum/v3/lexer"'],'''
type reader struct{ n int }

func (r *reader) Read(p []byte) (int, error) {
	r.n++
	switch r.n {
	case 1:
		return copy(p, "JOIN users "), nil
	case 2:
		return 0, nil
	case 3:
		return copy(p, "ON a = b"), nil
	}
	return 0, fmt.Errorf("EO%s", "F")
}

func main() {
	defer func() { _ = recover() }()
	l := lexer.New(&reader{})
	for n := 0; ; n++ {
		t := l.Next()
		if t.Type == "EOF" {
			fail("end of text after %d tokens", n)
		}
	}
}'''))
bug('C06-pooled-reader','C06','a lexer that is asked for another token after the end of its text, while another lexer is being used',
 'lexers give their buffered reader back to a pool at the end of the text and go on using it',
 [('lexer/lexer.go','''	buffer := bufio.NewReader(input)
''','''	buffer := readers.Get().(*bufio.Reader)
	buffer.Reset(input)
'''),('lexer/lexer.go','''	if err == io.EOF {
		e = eof
	}
''','''	if err == io.EOF {
		e = eof
		readers.Put(l.input)
	}
'''),('lexer/lexer.go','''	"io"

''','''	"io"
	"sync"

'''),('lexer/lexer.go','''// A Lexer will''','''// readers keeps the buffered readers of the lexers that have reached the end of their text.
var readers = sync.Pool{New: func() interface{} { return bufio.NewReader(nil) }}

// A Lexer will''')],
 prog(['"github.com/ulule/loukoum/v3/lexer"','"strings"','"runtime"','"runtime/debug"'],'''
func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	for i := 0; i < 10; i++ {
		a := lexer.New(strings.NewReader("a"))
		a.Next()
		b := lexer.New(strings.NewReader("JOIN users ON x = y"))
		a.Next()
		got := ""
		for it := b.Iterator(); it.HasNext(); {
			t := it.Next()
			got += t.Value + " "
		}
		if got != "JOIN users ON x = y " {
			fail("%s", got)
		}
	}
}'''))
# ---- C07
bug('C07-wide-numbers','C07','a statement with more than a thousand values',
 'placeholder numbers are written into three digits',
 [('types/context.go','''	ctx.Write(fmt.Sprintf("$%d", idx))
''','''	ctx.Write(placeholder(idx))
'''),('types/context.go','''// StdContext''' if False else '''type StdContext struct {''','''// placeholder formats a number without going through fmt.
func placeholder(idx int) string {
	digits := [4]byte{'$'}
	n := 1
	for div := 100; div > 0; div /= 10 {
		if digit := idx / div % 10; digit > 0 || n > 1 || div == 1 {
			digits[n] = byte('0' + digit)
			n++
		}
	}
	return string(digits[:n])
}

type StdContext struct {''')],
 prog([LK,'"strings"'],'''
func main() {
	values := make([]interface{}, 1200)
	for i := range values {
		values[i] = i
	}
	text, args := lk.Select("id").From("t").Where(lk.Condition("id").In(values...)).Query()
	for i := range args {
		if strings.Count(text+" ", fmt.Sprintf("$%d,", i+1))+strings.Count(text, fmt.Sprintf("$%d)", i+1)) != 1 {
			fail("placeholder %d", i+1)
		}
	}
}'''))
bug('C07-array-after','C07','an UPDATE in column-list form with a value and then a subquery that has values',
 'the values of the column-list form of SET are bound before its subqueries, whatever their order',
 [('stmt/set.go','''	ctx.Write("(")
	for i := range pairs.Expressions {
		if i != 0 {
			ctx.Write(", ")
		}
		pairs.Expressions[i].Write(ctx)
	}
	ctx.Write(")")
''','''	// Write subqueries first, as they are usually the larger part.
	order := make([]int, len(pairs.Expressions))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(i, j int) bool {
		_, left := pairs.Expressions[order[i]].(Select)
		_, right := pairs.Expressions[order[j]].(Select)
		return left && !right
	})
	ctx.Write("(")
	for i := range order {
		if i != 0 {
			ctx.Write(", ")
		}
		pairs.Expressions[order[i]].Write(ctx)
	}
	ctx.Write(")")
''')],
 prog([LK],'''
func main() {
	sub := lk.Select("x").From("u").Where(lk.Condition("y").Equal(2))
	text, args := lk.Update("t").Set("a", "b").Using(1, sub.Statement()).Query()
	want := "UPDATE \\"t\\" SET (\\"a\\", \\"b\\") = ($1, SELECT \\"x\\" FROM \\"u\\" WHERE (\\"y\\" = $2))"
	if text != want || args[0] != 1 || args[1] != 2 {
		fail("%s %v", text, args)
	}
}'''))
bug('C07-named-reuse','C07','NamedQuery with a value bound after ten or more others, in a statement with a common table expression',
 'NamedQuery keeps the number of a value that is equal to the one bound just before, unless it is an integer',
 [('types/context.go','''	idx := len(ctx.values) + 1
	name := fmt.Sprintf("arg_%d", idx)
''','''	idx := len(ctx.values) + 1
	name := fmt.Sprintf("arg_%d", idx)
	if text, ok := value.(string); ok && len(text) > 16 {
		// Send long texts once.
		for known, v := range ctx.values {
			if v == value {
				ctx.Write(":" + known)
				return
			}
		}
	}
''')],
 prog([LK,'"strings"'],'''
func main() {
	long := strings.Repeat("x", 40)
	text, args := lk.Select("id").From("t").Where(lk.Condition("a").Equal(long)).And(lk.Condition("b").Equal(long)).NamedQuery()
	if len(args) != 2 || !strings.Contains(text, ":arg_2") {
		fail("%s %v", text, args)
	}
}'''))
BUGS['C07-named-reuse'].update(needs='NamedQuery with the same text of more than sixteen bytes bound twice',breaks='NamedQuery gives equal long texts one placeholder')
# ---- C08
bug('C08-pooled-values','C08','the arguments of one render kept while another render is made',
 'Query of an INSERT gathers its arguments in a pooled list and returns that list',
 [('builder/insert.go','''	ctx := &types.StdContext{}
	b.query.Write(ctx)
	return ctx.Query(), ctx.Values()
''','''	ctx := stdContexts.Get().(*types.StdContext)
	ctx.Reset()
	b.query.Write(ctx)
	query, values := ctx.Query(), ctx.Values()
	stdContexts.Put(ctx)
	return query, values
'''),('builder/insert.go','''	"fmt"

''','''	"fmt"
	"sync"

'''),('builder/insert.go','''// Insert is a builder used''','''// stdContexts keeps the contexts of regular statements.
var stdContexts = sync.Pool{New: func() interface{} { return &types.StdContext{} }}

// Insert is a builder used'''),('types/context.go','''func (ctx *StdContext) Values() []interface{} {''','''// Reset makes the context ready for another statement.
func (ctx *StdContext) Reset() {
	ctx.buffer.Reset()
	ctx.values = ctx.values[:0]
}

func (ctx *StdContext) Values() []interface{} {''')],
 prog([LK,'"runtime"','"runtime/debug"'],'''
func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	_, one := lk.Insert("t").Set(lk.Pair("a", 1)).Query()
	_, _ = lk.Insert("t").Set(lk.Pair("a", 2)).Query()
	if one[0] != 1 {
		fail("the argument became %v", one[0])
	}
}'''))
bug('C08-zero-copy','C08','a rendered text kept while a later render reuses the buffer',
 'the debug form of UPDATE returns a text that shares the memory of a pooled buffer',
 [('builder/update.go','''	ctx := &types.RawContext{}
	b.query.Write(ctx)
	return ctx.Query()
''','''	ctx := buffers.Get().(*debugContext)
	ctx.buffer = ctx.buffer[:0]
	b.query.Write(ctx)
	query := *(*string)(unsafe.Pointer(&ctx.buffer))
	buffers.Put(ctx)
	return query
'''),('builder/update.go','''import (
''','''import (
	"sync"
	"unsafe"

	"github.com/ulule/loukoum/v3/format"
'''),('builder/update.go','''// Update is a builder used''','''// debugContext is a types.RawContext that can be used again.
type debugContext struct {
	buffer []byte
}

// Write appends given fragment.
func (ctx *debugContext) Write(query string) {
	ctx.buffer = append(ctx.buffer, query...)
}

// Bind appends given value.
func (ctx *debugContext) Bind(value interface{}) {
	ctx.Write(format.Value(value))
}

var buffers = sync.Pool{New: func() interface{} { return &debugContext{} }}

// Update is a builder used''')],
 prog([LK,'"runtime"','"runtime/debug"','"strings"'],'''
func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	one := lk.Update("t").Set(lk.Pair("a", 1)).String()
	want := strings.Clone(one)
	for i := 0; i < 5; i++ {
		_ = lk.Update("u").Set(lk.Pair("b", 2)).String()
	}
	if one != want {
		fail("%s became %s", want, one)
	}
}'''))
bug('C08-memo-args','C08','the caller changes the argument list that a render returned, and renders the same handle again',
 'a SELECT remembers the result of Query for its handle and returns the same argument list again',
 [('builder/select.go','''	ctx := &types.StdContext{}
	b.query.Write(ctx)
	return ctx.Query(), ctx.Values()
''','''	if known, ok := b.memo.Load().(*rendered); ok {
		return known.query, known.args
	}
	ctx := &types.StdContext{}
	b.query.Write(ctx)
	result := &rendered{query: ctx.Query(), args: ctx.Values()}
	if b.memo != nil {
		b.memo.Store(result)
	}
	return result.query, result.args
'''),('builder/select.go','''type Select struct {
	query stmt.Select
}
''','''type Select struct {
	query stmt.Select
	memo  *memo
}

// memo remembers the result of a render.
type memo struct {
	atomic.Value
}

// Load returns the result, if any.
func (m *memo) Load() interface{} {
	if m == nil {
		return nil
	}
	return m.Value.Load()
}

type rendered struct {
	query string
	args  []interface{}
}
'''),('builder/select.go','''	b.query.Limit = ToLimit(value)
	return b
''','''	b.query.Limit = ToLimit(value)
	b.memo = &memo{}
	return b
'''),]+[('builder/select.go',o,n) for o,n in [
 ('	"fmt"\n\n','	"fmt"\n	"sync/atomic"\n\n'),
 ('	b.query.DistinctOn = distinctOn\n','	b.query.DistinctOn = distinctOn\n	b.memo = nil\n'),
 ('	b.query.Distinct = true\n','	b.query.Distinct = true\n	b.memo = nil\n'),
 ('	b.query.Expressions = ToSelectExpressions(args)\n','	b.query.Expressions = ToSelectExpressions(args)\n	b.memo = nil\n'),
 ('	b.query.From = ToFrom(arg...)\n','	b.query.From = ToFrom(arg...)\n	b.memo = nil\n'),
 ('	joins := b.query.Joins\n','	b.memo = nil\n	joins := b.query.Joins\n'),
 ('	if b.query.With.IsEmpty() {\n','	b.memo = nil\n	if b.query.With.IsEmpty() {\n'),
 ('	if b.query.Where.IsEmpty() {\n','	b.memo = nil\n	if b.query.Where.IsEmpty() {\n'),
 ('	b.query.Where = b.query.Where.And(condition)\n','	b.memo = nil\n	b.query.Where = b.query.Where.And(condition)\n'),
 ('	b.query.Where = b.query.Where.Or(condition)\n','	b.memo = nil\n	b.query.Where = b.query.Where.Or(condition)\n'),
 ('	b.query.GroupBy = group\n','	b.query.GroupBy = group\n	b.memo = nil\n'),
 ('	b.query.Having = stmt.NewHaving(condition)\n','	b.query.Having = stmt.NewHaving(condition)\n	b.memo = nil\n'),
 ('	current := b.query.OrderBy.Orders\n','	b.memo = nil\n	current := b.query.OrderBy.Orders\n'),
 ('	b.query.Offset = ToOffset(value)\n','	b.query.Offset = ToOffset(value)\n	b.memo = &memo{}\n'),
 ('	b.query.Suffix = ToSuffix(suffix)\n','	b.query.Suffix = ToSuffix(suffix)\n	b.memo = nil\n'),
 ('	b.query.Prefix = ToPrefix(prefix)\n','	b.query.Prefix = ToPrefix(prefix)\n	b.memo = nil\n'),
 ('	b.query.Comment = stmt.NewComment(comment)\n','	b.query.Comment = stmt.NewComment(comment)\n	b.memo = nil\n'),
 ]],
 prog([LK],'''
func main() {
	q := lk.Select("id").From("t").Where(lk.Condition("a").Equal(1)).Limit(10)
	_, args := q.Query()
	args[0] = "changed by the caller"
	if _, again := q.Query(); again[0] != 1 {
		fail("the argument became %v", again[0])
	}
}'''))
