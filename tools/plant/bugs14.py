# Round twelve: thresholds that are far off, and code of the caller that messages run.
bug('C12-message-lock','C12','a refused value whose Error method renders, builds or waits, and another refused call meanwhile',
 'what was refused is counted under a lock, which is held while the message is made',
 [('stmt/expression.go','''	default:
		panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", arg, arg))
	}
}
''','''	default:
		panic(refusal(arg))
	}
}

var refused = struct {
	sync.Mutex
	types map[string]int
}{types: map[string]int{}}

// refusal is the message of a refused argument.
func refusal(arg interface{}) string {
	refused.Lock()
	defer refused.Unlock()
	refused.types[fmt.Sprintf("%T", arg)]++
	return fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", arg, arg)
}
'''),('stmt/expression.go','''	"fmt"
''','''	"fmt"
	"sync"
''')],
 prog([LK,'"time"'],'''
type odd struct{ again bool }

func (o odd) Error() string {
	if o.again {
		func() {
			defer func() { _ = recover() }()
			lk.Condition("a").Equal(odd{})
		}()
	}
	return "odd"
}

func main() {
	time.AfterFunc(5*time.Second, func() { fail("blocked") })
	defer func() { _ = recover() }()
	lk.Condition("a").Equal(odd{true})
}'''))

bug('C03-message-exit','C03','a refused value whose Error method ends the goroutine, and a refused call later',
 'messages are made one at a time, and the turn is not given back when the goroutine ends meanwhile',
 [('stmt/expression.go','''	default:
		panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", arg, arg))
	}
}
''','''	default:
		panic(refusal(arg))
	}
}

// turn keeps large messages from being made at the same time.
var turn = make(chan struct{}, 4)

// refusal is the message of a refused argument.
func refusal(arg interface{}) string {
	turn <- struct{}{}
	message := fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", arg, arg)
	<-turn
	return message
}
''')],
 prog([LK,'"runtime"','"time"'],'''
type odd struct{ exit bool }

func (o odd) Error() string {
	if o.exit {
		runtime.Goexit()
	}
	return "odd"
}

func main() {
	time.AfterFunc(5*time.Second, func() { fail("blocked") })
	for i := 0; i < 5; i++ {
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() { _ = recover() }()
			lk.Condition("a").Equal(odd{true})
		}()
		<-done
	}
	defer func() { _ = recover() }()
	lk.Condition("a").Equal(odd{})
}'''))

bug('C01-where-forty','C01','a statement with forty conditions, which is extended in two ways',
 'from the fortieth condition on, conditions joined by AND are kept in a list to which further ones are appended',
 [('stmt/where.go','''// And appends given Expression using AND as logical operator.
func (where Where) And(right Expression) Where {
	if where.IsEmpty() {
		panic("loukoum: two conditions are required for AND statement")
	}
''','''// conjunction is a long chain of conditions.
type conjunction struct {
	first Expression
	rest  []Expression
}

func (conjunction) expression() {}

// Write exposes statement as a SQL query.
func (c conjunction) Write(ctx types.Context) {
	for range c.rest {
		ctx.Write("(")
	}
	c.first.Write(ctx)
	for i := range c.rest {
		ctx.Write(" AND ")
		c.rest[i].Write(ctx)
		ctx.Write(")")
	}
}

// IsEmpty returns true if statement is undefined.
func (c conjunction) IsEmpty() bool {
	return c.first == nil
}

// And appends given Expression using AND as logical operator.
func (where Where) And(right Expression) Where {
	if where.IsEmpty() {
		panic("loukoum: two conditions are required for AND statement")
	}

	where.count++
	if long, ok := where.Condition.(conjunction); ok && right != nil && !right.IsEmpty() {
		where.Condition = conjunction{long.first, append(long.rest, NewWrapper(right))}
		return where
	}
	if where.count == 40 && right != nil && !right.IsEmpty() {
		where.Condition = conjunction{where.Condition, []Expression{NewWrapper(right)}}
		return where
	}
'''),('stmt/where.go','''	Condition Expression
}
''','''	Condition Expression
	count     int
}
''')],
 prog([LK],'''
func main() {
	base := lk.Select("a").From("t").Where(lk.Condition("a").Equal(0))
	for i := 0; i < 60; i++ {
		base = base.And(lk.Condition("a").Equal(i))
		one := base.And(lk.Condition("b").Equal(1))
		text := one.String()
		base.And(lk.Condition("c").Equal(2))
		if one.String() != text {
			fail("%s", one.String())
		}
	}
}'''))

bug('C12-twelve','C12','twelve Valuers that are being run, and another',
 'at most twelve driver values are run at once',
 [('format/format.go','''		v, err := value.Value()
''','''		v, err := expand(value)
'''),('format/format.go','''// Value''','''// running limits how many driver values are run at once.
var running = make(chan struct{}, 12)

func expand(value driver.Valuer) (driver.Value, error) {
	running <- struct{}{}
	defer func() { <-running }()
	return value.Value()
}

// Value''')],
 prog([LK,'"database/sql/driver"','"time"'],'''
type stalled struct{ at chan struct{} }

func (s stalled) Value() (driver.Value, error) { s.at <- struct{}{}; select {} }

type quick struct{}

func (quick) Value() (driver.Value, error) { return "x", nil }

func main() {
	time.AfterFunc(5*time.Second, func() { fail("blocked") })
	at := make(chan struct{})
	for i := 0; i < 12; i++ {
		go func() { _ = lk.Select("a").Where(lk.Condition("a").Equal(stalled{at})).String() }()
		<-at
	}
	_ = lk.Select("a").Where(lk.Condition("a").Equal(quick{})).String()
}'''))

bug('C04-flush-buffer','C04','a context that fails while a SELECT of more than 300 bytes is written to it, and a render later',
 'a SELECT is written in larger parts, from a buffer that is used again and keeps what could not be written',
 [('stmt/select.go','''// Write exposes statement as a SQL query.
func (selekt Select) Write(ctx types.Context) {
''','''// buffered collects what is written into larger parts.
type buffered struct {
	types.Context
	text []byte
}

// Write appends given subquery in context's buffer.
func (b *buffered) Write(query string) {
	b.text = append(b.text, query...)
	if len(b.text) > 300 {
		b.flush()
	}
}

// Bind adds given value in context's values.
func (b *buffered) Bind(value interface{}) {
	b.flush()
	b.Context.Bind(value)
}

func (b *buffered) flush() {
	if len(b.text) > 0 {
		b.Context.Write(string(b.text))
		b.text = b.text[:0]
	}
}

var buffers = sync.Pool{New: func() interface{} { return &buffered{} }}

// Write exposes statement as a SQL query.
func (selekt Select) Write(ctx types.Context) {
	if _, ok := ctx.(*buffered); ok {
		selekt.write(ctx)
		return
	}
	b := buffers.Get().(*buffered)
	b.Context = ctx
	defer func() {
		b.Context = nil
		buffers.Put(b)
	}()
	selekt.write(b)
	b.flush()
}

func (selekt Select) write(ctx types.Context) {
'''),('stmt/select.go','''import (
''','''import (
	"sync"

''')],
 prog([LK,'"strings"'],'''
type failing struct{ n int }

func (f *failing) Write(text string) {
	f.n += len(text)
	if f.n > 300 {
		panic("full")
	}
}
func (f *failing) Bind(v interface{}) { f.Write("?") }

func main() {
	b := lk.Select("a").From("t").Where(lk.Raw(strings.Repeat("x", 400)))
	want := b.String()
	for i := 0; i < 50; i++ {
		func() {
			defer func() { _ = recover() }()
			b.Statement().Write(&failing{})
		}()
		if got := b.String(); got != want {
			fail("%s", got)
		}
	}
}'''))

bug('C09-big-list','C09','a list of a thousand integers that the caller overwrites after the call',
 'long lists of integers are only looked at when the statement is rendered',
 [('stmt/expression.go','''	case []int64:
		for _, v := range values {
			array.Append(v)
		}
	case []uint64:''','''	case []int64:
		if len(values) >= 1000 {
			array.Values = []Expression{numbers(values)}
			return array
		}
		for _, v := range values {
			array.Append(v)
		}
	case []uint64:'''),('stmt/expression.go','''func (Array) expression() {}
''','''func (Array) expression() {}

// numbers is a long list of integers.
type numbers []int64

func (numbers) expression() {}

// Write exposes statement as a SQL query.
func (n numbers) Write(ctx types.Context) {
	for i := range n {
		if i > 0 {
			ctx.Write(", ")
		}
		ctx.Bind(n[i])
	}
}

// IsEmpty returns true if statement is undefined.
func (n numbers) IsEmpty() bool {
	return len(n) == 0
}
''')],
 prog([LK],'''
func main() {
	list := make([]int64, 1200)
	b := lk.Select("a").From("t").Where(lk.Condition("a").In(list))
	list[7] = 9
	if _, args := b.Query(); args[7] != int64(0) {
		fail("%v", args[7])
	}
}'''))

bug('C13-wrapper-arena','C13','more than 96 subqueries in conditions while an earlier one is still in use',
 'the parentheses around subqueries are taken from a block that starts again when it is used up',
 [('stmt/expression.go','''	case Select:
		return &Wrapper{
			Value: value,
		}
	case Exists:''','''	case Select:
		return wrapped(value)
	case Exists:'''),('stmt/expression.go','''func (Wrapper) expression() {}
''','''// block avoids allocating wrappers one by one.
var block struct {
	sync.Mutex
	wrappers [96]Wrapper
	next     int
}

func wrapped(value Expression) *Wrapper {
	block.Lock()
	defer block.Unlock()
	w := &block.wrappers[block.next%len(block.wrappers)]
	block.next++
	w.Value = value
	return w
}

func (Wrapper) expression() {}
'''),('stmt/expression.go','''	"fmt"
''','''	"fmt"
	"sync"
''')],
 prog([LK],'''
func main() {
	b := lk.Select("a").From("t").Where(lk.Condition("a").Equal(lk.Select("b").From("u")))
	want := b.String()
	for i := 0; i < 200; i++ {
		lk.Condition("a").Equal(lk.Select("c").From("v"))
	}
	if b.String() != want {
		fail("%s", b.String())
	}
}'''))
