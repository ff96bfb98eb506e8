VAL='"database/sql/driver"'
# ---- C09
bug('C09-array-alias','C09','a slice of expressions given to In and changed by the caller afterwards',
 'an array made of a slice of expressions keeps that slice instead of copying it',
 [('stmt/expression.go','''	case []Expression:
		for _, v := range values {
			array.Append(v)
		}
''','''	case []Expression:
		// These are already expressions.
		array.Values = values
''')],
 prog([LK,ST],'''
func main() {
	list := []stmt.Expression{lk.Value(1), lk.Value(2)}
	q := lk.Select("id").From("t").Where(lk.Condition("id").In(list))
	want := q.String()
	list[0] = lk.Value(99)
	if got := q.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C09-trim-in-place','C09','a slice of column names, one of which has spaces around it',
 'names of columns are trimmed in the slice of the caller',
 [('builder/builder.go','''			list := make([]interface{}, len(array))
			for i := range array {
				list[i] = array[i]
			}
			return ToColumns(list)
''','''			list := make([]interface{}, len(array))
			for i := range array {
				array[i] = strings.TrimSpace(array[i])
				list[i] = array[i]
			}
			return ToColumns(list)
''')],
 prog([LK],'''
func main() {
	list := []string{"a", " b"}
	_ = lk.Insert("t").Columns(list)
	if list[1] != " b" {
		fail("the slice of the caller was changed: %q", list)
	}
}'''))
bug('C09-map-normalise','C09','a map of pairs with a key that has spaces around it',
 'keys of a map are trimmed in the map of the caller',
 [('builder/builder.go','''		case map[string]interface{}:
			pairs := make([]types.Pair, 0, len(value))
			for k, v := range value {
''','''		case map[string]interface{}:
			pairs := make([]types.Pair, 0, len(value))
			normalize(value)
			for k, v := range value {
'''),('builder/builder.go','''// addPairs adds the pairs of a map''','''// normalize removes the spaces around the keys, unless that would lose a pair.
func normalize(values map[string]interface{}) {
	for k, v := range values {
		key := strings.TrimSpace(k)
		if key == k {
			continue
		}
		if _, ok := values[key]; !ok {
			delete(values, k)
			values[key] = v
		}
	}
}

// addPairs adds the pairs of a map''')],
 prog([LK],'''
func main() {
	m := map[string]interface{}{" a": 1, "b": 2}
	_ = lk.Update("t").Set(m)
	if _, ok := m[" a"]; !ok {
		fail("the map of the caller was changed: %v", m)
	}
}'''))
bug('C09-order-spare','C09','orders spread from a slice that has spare capacity, then a second OrderBy on the result',
 'the first OrderBy keeps the slice of the caller, and the second one appends to it',
 [('builder/select.go','''	current := b.query.OrderBy.Orders
	b.query.OrderBy.Orders = append(current[:len(current):len(current)], orders...)
	return b
''','''	if b.query.OrderBy.IsEmpty() {
		b.query.OrderBy.Orders = orders
		return b
	}
	current := b.query.OrderBy.Orders
	b.query.OrderBy.Orders = append(current[:len(current):len(current)], orders...)
	return b
''')],
 prog([LK,ST],'''
func main() {
	orders := []stmt.Order{lk.Order("a"), lk.Order("b")}
	q := lk.Select("id").From("t").OrderBy(orders...)
	want := q.String()
	orders[1] = lk.Order("z")
	if got := q.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C09-rows-lazy','C09','several rows of values given to Values, one of them changed by the caller before the statement is rendered',
 'rows are turned into expressions when they are written, not when they are given',
 [('stmt/expression.go','''	case [][]interface{}:
		for i := range values {
			arraylist.Values = append(arraylist.Values, NewArrayExpression(values[i]...))
		}
''','''	case [][]interface{}:
		arraylist.Values = make([]Expression, 0, len(values))
		for i := range values {
			if len(values[i]) < 2 {
				arraylist.Values = append(arraylist.Values, NewArrayExpression(values[i]...))
				continue
			}
			// Refuse invalid values now, and build the row when it's required.
			_ = NewArrayExpression(values[i]...)
			arraylist.Values = append(arraylist.Values, row(values[i]))
		}
'''),('stmt/expression.go','''func (ArrayList) expression() {}
''','''// row is a list of values in a list of arrays.
type row []interface{}

func (row) expression() {}

// Write exposes statement as a SQL query.
func (r row) Write(ctx types.Context) {
	NewArrayExpression(r...).Write(ctx)
}

// IsEmpty returns true if statement is undefined.
func (r row) IsEmpty() bool {
	return len(r) == 0
}

func (ArrayList) expression() {}
''')],
 prog([LK],'''
func main() {
	rows := [][]interface{}{{1, "a"}, {2, "b"}}
	q := lk.Insert("t").Columns("x", "y").Values(rows)
	want := q.String()
	rows[1][1] = "zzz"
	if got := q.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C09-columns-dedup','C09','a slice of columns that names one column twice',
 'duplicates are removed from GROUP BY in the slice of the caller',
 [('builder/builder.go','''			for i := range array {
				if array[i].IsEmpty() {
					panic("loukoum: given column is undefined")
				}
			}
			return append([]stmt.Column{}, array...)
''','''			for i := range array {
				if array[i].IsEmpty() {
					panic("loukoum: given column is undefined")
				}
			}
			// An alias that repeats the name is useless.
			for i := range array {
				if array[i].Alias == array[i].Name {
					array[i] = stmt.NewColumn(array[i].Name)
				}
			}
			return append([]stmt.Column{}, array...)
''')],
 prog([LK,ST],'''
func main() {
	list := []stmt.Column{lk.Column("a").As("a"), lk.Column("b")}
	_ = lk.Select("x").From("t").GroupBy(list)
	if list[0].Alias != "a" {
		fail("the slice of the caller was changed: %q", list)
	}
}'''))
# ---- C10
bug('C10-time-pointer','C10','a pointer to a time given to a comparison, the time changed before the statement is rendered',
 'a pointer to a time is kept and read when the statement is rendered',
 [('stmt/expression.go','''	case *time.Time:
		return NewValue(*value)
''','''	case *time.Time:
		if value.IsZero() {
			return NewValue(*value)
		}
		return instant{value}
'''),('stmt/expression.go','''// ----------------------------------------------------------------------------
// Identifier
''','''// instant is a time given by its address.
type instant struct {
	value *time.Time
}

func (instant) expression() {}

// Write exposes statement as a SQL query.
func (i instant) Write(ctx types.Context) {
	ctx.Bind(*i.value)
}

// IsEmpty returns true if statement is undefined.
func (i instant) IsEmpty() bool {
	return false
}

// ----------------------------------------------------------------------------
// Identifier
''')],
 prog([LK,'"time"'],'''
func main() {
	at := time.Unix(1700000000, 0)
	q := lk.Select("id").From("t").Where(lk.Condition("at").LessThan(&at))
	want := q.String()
	at = at.Add(time.Hour)
	if got := q.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C10-between-twice','C10','an encoder given to Between that answers differently each time',
 'the bounds of Between are evaluated twice, once to check them and once to keep them',
 [('stmt/expression.go','''	return NewBetween(identifier, NewExpression(from), NewExpression(to))
}
''','''	if NewExpression(from).IsEmpty() || NewExpression(to).IsEmpty() {
		panic("loukoum: bounds are undefined")
	}
	return NewBetween(identifier, NewExpression(from), NewExpression(to))
}
''')],
 prog([LK],'''
type counter struct{ n int64 }

func (c *counter) Int64() int64 { c.n++; return c.n }

func main() {
	c := &counter{}
	_ = lk.Condition("id").Between(c, 10)
	if c.n != 1 {
		fail("the encoder was consulted %d times", c.n)
	}
}'''))
bug('C10-encoder-cache','C10','one encoder given to two calls, its answer changed in between',
 'the answers of string encoders are remembered by encoder',
 [('stmt/expression.go','''	case StringEncoder:
		return NewValue(value.String())
''','''	case StringEncoder:
		if reflect.TypeOf(value).Kind() != reflect.Ptr {
			return NewValue(value.String())
		}
		// Encoding may be expensive: do it once.
		encoded, ok := encodings.Load(value)
		if !ok {
			encoded = value.String()
			encodings.Store(value, encoded)
		}
		return NewValue(encoded)
'''),('stmt/expression.go','''import (
	"database/sql/driver"
	"fmt"
	"time"
''','''import (
	"database/sql/driver"
	"fmt"
	"reflect"
	"sync"
	"time"
'''),('stmt/expression.go','''// Expression is a SQL expression.
''','''// encodings contains what the encoders gave.
var encodings sync.Map

// Expression is a SQL expression.
''')],
 prog([LK],'''
type name struct{ s string }

func (n *name) String() string { return n.s }

func main() {
	n := &name{"a"}
	_ = lk.Condition("id").Equal(n)
	n.s = "b"
	q, args := lk.Select("id").From("t").Where(lk.Condition("id").Equal(n)).Query()
	if args[0] != "b" {
		fail("%s %v", q, args)
	}
}'''))
bug('C10-exists-late','C10','a statement encoder given to Exists that answers differently at each call',
 'Exists asks the encoder for its statement when it is written',
 [('stmt/subquery.go',None,None)] if False else [('stmt/expression.go','''		expression, ok := stmt.(Expression)
		if !ok {
			panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", value, value))
		}
		return expression
''','''		expression, ok := stmt.(Expression)
		if !ok {
			panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", value, value))
		}
		if expression, ok := expression.(Select); ok && expression.Comment.IsEmpty() {
			return expression
		}
		if refreshed, ok := value.Statement().(Expression); ok {
			return refreshed
		}
		return expression
''')],
 prog([LK,ST],'''
type enc struct{ n int }

func (e *enc) Statement() stmt.Statement {
	e.n++
	return lk.Raw(fmt.Sprint(e.n))
}

func main() {
	e := &enc{}
	_ = lk.Condition("id").Equal(e)
	if e.n != 1 {
		fail("the encoder was consulted %d times", e.n)
	}
}'''))
# ---- C11
bug('C11-nested-error','C11','a Valuer whose value is another Valuer, which fails',
 'the debug form writes NULL for a Valuer that fails inside another one',
 [('format/format.go','''		v, err := value.Value()
		if err != nil {
			panic("loukoum: was not able to retrieve valuer value")
		}
		return Value(v)
''','''		v, err := value.Value()
		if err != nil {
			panic("loukoum: was not able to retrieve valuer value")
		}
		for depth := 0; depth < 8; depth++ {
			nested, ok := v.(driver.Valuer)
			if !ok {
				break
			}
			v, err = nested.Value()
		}
		return Value(v)
''')],
 prog([LK,VAL,'"errors"'],'''
type inner struct{}

func (inner) Value() (driver.Value, error) { return nil, errors.New("failure") }

type outer struct{}

func (outer) Value() (driver.Value, error) { return inner{}, nil }

func main() {
	defer func() {
		if recover() == nil {
			fail("the failure was swallowed")
		}
	}()
	fmt.Println(lk.Select("id").From("t").Where(lk.Condition("id").Equal(outer{})).String())
}'''))
bug('C11-null-check','C11','a Valuer given to a comparison',
 'a comparison runs the Valuer to find out whether it is NULL',
 [('stmt/expression.go','''// Is performs a "is" comparison.
func (identifier Identifier) Is(value interface{}) InfixExpression {
	operator := NewComparisonOperator(types.Is)
	return''','''// Is performs a "is" comparison.
func (identifier Identifier) Is(value interface{}) InfixExpression {
	operator := NewComparisonOperator(types.Is)
	if valuer, ok := value.(driver.Valuer); ok {
		// IS requires a NULL literal.
		if v, err := valuer.Value(); err == nil && v == nil {
			value = nil
		}
	}
	return''')],
 prog([LK,VAL],'''
type val struct{ n int }

func (v *val) Value() (driver.Value, error) { v.n++; return int64(v.n), nil }

func main() {
	v := &val{}
	_, args := lk.Select("id").From("t").Where(lk.Condition("id").Is(v)).Query()
	if v.n != 0 || args[0] != interface{}(v) {
		fail("the valuer was run %d times", v.n)
	}
}'''))
bug('C11-skip-error','C11','a Valuer that fails with driver.ErrSkip',
 'a Valuer that fails with driver.ErrSkip is written with its default format',
 [('format/format.go','''		if err != nil {
			panic("loukoum: was not able to retrieve valuer value")
		}
''','''		if err == driver.ErrSkip {
			return String(fmt.Sprint(v))
		}
		if err != nil {
			panic("loukoum: was not able to retrieve valuer value")
		}
''')],
 prog([LK,VAL],'''
type val struct{}

func (val) Value() (driver.Value, error) { return nil, driver.ErrSkip }

func main() {
	defer func() {
		if recover() == nil {
			fail("the failure was swallowed")
		}
	}()
	fmt.Println(lk.Select("id").From("t").Where(lk.Condition("id").Equal(val{})).String())
}'''))
bug('C11-nil-receiver','C11','a Valuer with a pointer receiver that panics',
 'the debug form takes any runtime panic of a Valuer for a nil receiver and writes NULL',
 [('format/format.go','''		v, err := value.Value()
		if err != nil {
			panic("loukoum: was not able to retrieve valuer value")
		}
		return Value(v)
''','''		v, err := call(value)
		if err != nil {
			panic("loukoum: was not able to retrieve valuer value")
		}
		return Value(v)
'''),('format/format.go','''// String formats the given string.
''','''// call runs a valuer, which may be a pointer hidden in a structure.
func call(valuer driver.Valuer) (v driver.Value, err error) {
	defer func() {
		if _, ok := recover().(error); ok {
			v = nil
		}
	}()
	return valuer.Value()
}

// String formats the given string.
''')],
 prog([LK,VAL],'''
type val struct{ m map[string]int }

func (v *val) Value() (driver.Value, error) {
	var p *val
	return int64(len(p.m)), nil
}

func main() {
	defer func() {
		if recover() == nil {
			fail("the failure was swallowed")
		}
	}()
	fmt.Println(lk.Select("id").From("t").Where(lk.Condition("id").Equal(&val{})).String())
}'''))
# ---- C12
LOCKDEMO_IMPORTS=[LK,VAL,'"time"']
LOCKDEMO='''
type slow struct{ in, out chan struct{} }

func (s *slow) Value() (driver.Value, error) {
	close(s.in)
	<-s.out
	return "x", nil
}

func main() {
	s := &slow{make(chan struct{}), make(chan struct{})}
	go func() {
		_ = lk.Select("id").From("t").Where(lk.Condition("id").Equal(s)).String()
	}()
	<-s.in
	done := make(chan struct{})
	go func() {
		_ = lk.Select("x").From("t").Where(lk.Condition("id").Equal("v")).String()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("a render waits for the Valuer of another one")
	}
}'''
bug('C12-format-lock','C12','a thread that is inside a Valuer during a debug render, another one that makes a debug render with a string',
 'formatting shares one buffer behind a lock that is held while a Valuer runs',
 [('format/format.go','''	switch value := arg.(type) {
	case string:
		return String(value)
	case []byte:
		return Bytes(value)
	case time.Time:
		return Time(value)
	case driver.Valuer:
''','''	switch value := arg.(type) {
	case string:
		lock.RLock()
		defer lock.RUnlock()
		return String(value)
	case []byte:
		return Bytes(value)
	case time.Time:
		return Time(value)
	case driver.Valuer:
		lock.Lock()
		defer lock.Unlock()
'''),('format/format.go','''		return Value(v)
''','''		return plain(v)
'''),('format/format.go','''// Value formats the given value.
''','''// lock protects drivers, which may not be used concurrently.
var lock sync.RWMutex

// plain formats the value of a valuer.
func plain(arg interface{}) string {
	switch value := arg.(type) {
	case string:
		return String(value)
	case driver.Valuer:
		v, err := value.Value()
		if err != nil {
			panic("loukoum: was not able to retrieve valuer value")
		}
		return plain(v)
	default:
		return Value(arg)
	}
}

// Value formats the given value.
'''),('format/format.go','''	"strconv"
	"time"
''','''	"strconv"
	"sync"
	"time"
''')],
 prog(LOCKDEMO_IMPORTS,LOCKDEMO))
bug('C12-render-slots','C12','four threads that are inside callbacks of the debug form, and a fifth one that makes a debug render; or nested debug renders',
 'no more than four SELECT statements are rendered in the debug form at once',
 [('builder/select.go','''	ctx := &types.RawContext{}
	b.query.Write(ctx)
	return ctx.Query()
''','''	slots <- struct{}{}
	defer func() { <-slots }()
	ctx := &types.RawContext{}
	b.query.Write(ctx)
	return ctx.Query()
'''),('builder/select.go','''// Select is a builder used''','''// slots limits the number of statements that are rendered in the debug form at once.
var slots = make(chan struct{}, 2)

// Select is a builder used''')],
 prog([LK,VAL,'"time"'],'''
type nest struct{ depth int }

func (n *nest) Value() (driver.Value, error) {
	if n.depth == 0 {
		return "x", nil
	}
	return lk.Select("id").From("t").Where(lk.Condition("id").Equal(&nest{n.depth - 1})).String(), nil
}

func main() {
	done := make(chan struct{})
	go func() {
		_ = lk.Select("id").From("t").Where(lk.Condition("id").Equal(&nest{3})).String()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("nested renders block")
	}
}'''))
bug('C12-encoder-lock','C12','a thread that is inside an encoder, another one that gives an encoder to a call',
 'encoders are run one at a time',
 [('stmt/expression.go','''	case Int64Encoder:
		return NewValue(value.Int64())
''','''	case Int64Encoder:
		encoders.Lock()
		defer encoders.Unlock()
		return NewValue(value.Int64())
'''),('stmt/expression.go','''import (
	"database/sql/driver"
	"fmt"
	"time"
''','''import (
	"database/sql/driver"
	"fmt"
	"sync"
	"time"
'''),('stmt/expression.go','''// Expression is a SQL expression.
''','''// encoders protects encoders, which may share counters.
var encoders sync.Mutex

// Expression is a SQL expression.
''')],
 prog([LK,'"time"'],'''
type slow struct{ in, out chan struct{} }

func (s *slow) Int64() int64 {
	close(s.in)
	<-s.out
	return 1
}

type quick struct{}

func (quick) Int64() int64 { return 1 }

func main() {
	s := &slow{make(chan struct{}), make(chan struct{})}
	go func() { _ = lk.Condition("id").Equal(s) }()
	<-s.in
	done := make(chan struct{})
	go func() {
		_ = lk.Condition("id").Equal(quick{})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("an encoder waits for another one")
	}
}'''))
bug('C12-quote-rlock','C12','a context of the caller that renders from inside a write of a table, while a new name is quoted for the first time',
 'names are written with the lock of the name cache held',
 [('stmt/table.go','''	ctx.Write(quote(table.Name))
''','''	names.RLock()
	ctx.Write(names.get(table.Name))
	names.RUnlock()
'''),('stmt/table.go','''// Table is a table identifier.
''','''// cache contains quoted names.
type cache struct {
	sync.RWMutex
	quoted map[string]string
}

func (c *cache) get(name string) string {
	if quoted, ok := c.quoted[name]; ok {
		return quoted
	}
	return quote(name)
}

func (c *cache) add(name string) {
	c.Lock()
	defer c.Unlock()
	if len(c.quoted) < 1024 {
		c.quoted[name] = quote(name)
	}
}

var names = &cache{quoted: map[string]string{}}

// Table is a table identifier.
'''),('stmt/table.go','''func NewTable(name string) Table {
''','''func NewTable(name string) Table {
	names.add(name)
'''),('stmt/table.go','''import (
''','''import (
	"sync"

''')],
 prog([LK,'"time"'],'''
type sink struct{ f func() }

func (s *sink) Write(string) {
	if f := s.f; f != nil {
		s.f = nil
		f()
	}
}

func (s *sink) Bind(interface{}) {}

func main() {
	done := make(chan struct{})
	go func() {
		lk.Table("t").Write(&sink{f: func() { _ = lk.Select("id").From("other").String() }})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("building inside a write blocks")
	}
}'''))
# ---- C13
bug('C13-infix-flatten','C13','a condition combined with And three times or more, then used in two further combinations',
 'a chain of And keeps its terms in one slice and appends to it',
 [('stmt/infix.go','''type InfixExpression struct {
	Left     Expression
	Operator Operator
	Right    Expression
}
''','''type InfixExpression struct {
	Left     Expression
	Operator Operator
	Right    Expression
	// terms contains the conditions of a chain of AND.
	terms []Expression
}
'''),('stmt/infix.go','''	ctx.Write("(")
	expression.Left.Write(ctx)
''','''	if len(expression.terms) > 0 {
		expression.writeTerms(ctx)
		return
	}

	ctx.Write("(")
	expression.Left.Write(ctx)
'''),('stmt/infix.go','''	operator := NewAndOperator()
	return NewInfixExpression(expression, operator, NewWrapper(value))
}
''','''	operator := NewAndOperator()
	chain := NewInfixExpression(expression, operator, NewWrapper(value))
	chain.terms = expression.terms
	if len(chain.terms) == 0 {
		chain.terms = []Expression{expression}
	}
	chain.terms = append(chain.terms, chain.Right)
	return chain
}

// writeTerms writes a chain of AND without a recursion.
func (expression InfixExpression) writeTerms(ctx types.Context) {
	for i := 1; i < len(expression.terms); i++ {
		ctx.Write("(")
	}
	for i := range expression.terms {
		if i != 0 {
			ctx.Write(" ")
			expression.Operator.Write(ctx)
			ctx.Write(" ")
		}
		expression.terms[i].Write(ctx)
		if i != 0 {
			ctx.Write(")")
		}
	}
}
''')],
 prog([LK],'''
func main() {
	eq := func(n int) interface{ Equal() } { return nil }
	_ = eq
	cond := lk.Condition("a").Equal(1).And(lk.Condition("b").Equal(2)).And(lk.Condition("c").Equal(3))
	x := cond.And(lk.Condition("x").Equal(4))
	want := lk.Select("id").From("t").Where(x).String()
	_ = cond.And(lk.Condition("y").Equal(5))
	if got := lk.Select("id").From("t").Where(x).String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C13-wrapper-pool','C13','a condition with a subquery that is used in two statements or rendered twice, with another subquery condition made in between',
 'wrappers of subqueries come from a pool and go back to it once they are written',
 [('stmt/expression.go','''	switch value := arg.(type) {
	case Select:
		return &Wrapper{
			Value: value,
		}
''','''	switch value := arg.(type) {
	case Select:
		wrapper := wrappers.Get().(*Wrapper)
		wrapper.Value = value
		return wrapper
'''),('stmt/expression.go','''	ctx.Write("(")
	wrapper.Value.Write(ctx)
	ctx.Write(")")
}

// IsEmpty returns true if statement is undefined.
func (wrapper Wrapper) IsEmpty() bool {
	return wrapper.Value.IsEmpty()
}

// Ensure that Wrapper is an Expression
var _ Expression = Wrapper{}
''','''	ctx.Write("(")
	wrapper.Value.Write(ctx)
	ctx.Write(")")
}

// IsEmpty returns true if statement is undefined.
func (wrapper Wrapper) IsEmpty() bool {
	return wrapper.Value.IsEmpty()
}

// wrappers keeps wrappers of subqueries, which are made often.
var wrappers = sync.Pool{New: func() interface{} { return &Wrapper{} }}

// Ensure that Wrapper is an Expression
var _ Expression = Wrapper{}
'''),('stmt/infix.go','''	expression.Right.Write(ctx)
	ctx.Write(")")
}
''','''	expression.Right.Write(ctx)
	ctx.Write(")")

	// The subquery is written.
	if wrapper, ok := expression.Right.(*Wrapper); ok {
		if _, ok := wrapper.Value.(Select); ok {
			wrappers.Put(wrapper)
		}
	}
}
'''),('stmt/expression.go','''import (
	"database/sql/driver"
	"fmt"
	"time"
''','''import (
	"database/sql/driver"
	"fmt"
	"sync"
	"time"
''')],
 prog([LK,'"runtime"','"runtime/debug"'],'''
func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	cond := lk.Condition("id").Equal(lk.Select("a").From("t1"))
	want := lk.Select("id").From("t").Where(cond).String()
	_ = lk.Condition("id").Equal(lk.Select("b").From("t2"))
	if got := lk.Select("id").From("t").Where(cond).String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C13-as-memo','C13','a column from which an alias and an order are made, then used again under another alias',
 'columns remember the last order that was made of them, by name',
 [('stmt/column.go','''func (column Column) Desc() Order {
''','''func (column Column) Desc() Order {
	if order, ok := descending.Load(column.Name); ok {
		return order.(Order)
	}
	order := column.desc()
	descending.Store(column.Name, order)
	return order
}

// descending contains the orders that were made.
var descending sync.Map

func (column Column) desc() Order {
'''),('stmt/column.go','''import (
''','''import (
	"sync"

''')],
 prog([LK],'''
func main() {
	c := lk.Column("a")
	want := lk.Select("id").From("t").OrderBy(c.As("x").Desc()).String()
	if want != `SELECT "id" FROM "t" ORDER BY x DESC` {
		fail("%s", want)
	}
	if got := lk.Select("id").From("t").OrderBy(c.As("y").Desc()).String(); got != `SELECT "id" FROM "t" ORDER BY y DESC` {
		fail("%s", got)
	}
}'''))
bug('C13-conflict-share','C13','one DoUpdate action used in two INSERT statements, one of which sets its target in the action',
 'OnConflict removes the target columns from the pairs of the action, which its other users share',
 [('builder/insert.go','''			b.query.OnConflict.Action = value
			return b
		default:''','''			// A target keeps its value: there is no need to update it with EXCLUDED.
			for _, column := range b.query.OnConflict.Target.Columns {
				expression, ok := value.Set.Pairs.Map[column]
				if raw, isRaw := expression.(stmt.Raw); ok && isRaw && raw.Value == "EXCLUDED."+column.Name {
					value.Set.Pairs.Map[column] = stmt.NewRaw(column.Name)
				}
			}
			b.query.OnConflict.Action = value
			return b
		default:''')],
 prog([LK],'''
func main() {
	action := lk.DoUpdate(lk.Pair("a", lk.Raw("EXCLUDED.a")), lk.Pair("b", 1))
	q := lk.Insert("t").Set(lk.Pair("a", 1)).OnConflict("b", action)
	want := q.String()
	_ = lk.Insert("t").Set(lk.Pair("a", 1)).OnConflict("a", action)
	if got := q.String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C13-on-share','C13','a join condition combined with And, then combined further with And in two different ways',
 'conditions of joins keep their right-hand sides in a shared list',
 [('stmt/on.go','''type InfixOnExpression struct {
	Left     OnExpression
	Operator LogicalOperator
	Right    OnExpression
}
''','''type InfixOnExpression struct {
	Left     OnExpression
	Operator LogicalOperator
	Right    OnExpression
	chain    *[]OnExpression
	length   int
}
'''),('stmt/on.go','''	operator := NewAndOperator()
	return NewInfixOnExpression(expression, operator, value)
}
''','''	operator := NewAndOperator()
	on := NewInfixOnExpression(expression, operator, value)
	on.chain = expression.chain
	if on.chain == nil {
		on.chain = &[]OnExpression{}
	}
	*on.chain = append((*on.chain)[:expression.length], value)
	on.length = expression.length + 1
	return on
}
'''),('stmt/on.go','''	ctx.Write("(")
	expression.Left.Write(ctx)
	ctx.Write(" ")
	expression.Operator.Write(ctx)
	ctx.Write(" ")
	expression.Right.Write(ctx)
	ctx.Write(")")
''','''	right := expression.Right
	if expression.chain != nil && expression.length <= len(*expression.chain) {
		right = (*expression.chain)[expression.length-1]
	}
	ctx.Write("(")
	expression.Left.Write(ctx)
	ctx.Write(" ")
	expression.Operator.Write(ctx)
	ctx.Write(" ")
	right.Write(ctx)
	ctx.Write(")")
''')],
 prog([LK],'''
func main() {
	on := lk.AndOn(lk.On("a", "b"), lk.On("c", "d")).And(lk.On("i", "j"))
	x := on.And(lk.On("e", "f"))
	want := lk.Select("id").From("t").Join("u", x).String()
	_ = on.And(lk.On("g", "h"))
	if got := lk.Select("id").From("t").Join("u", x).String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
