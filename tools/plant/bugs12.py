# Round ten.
bug('C01-long-orders','C01','a handle with a hundred orders or more, from which two statements are derived by OrderBy',
 'long lists of orders are not copied when a statement is derived',
 [('builder/select.go','''	current := b.query.OrderBy.Orders
	b.query.OrderBy.Orders = append(current[:len(current):len(current)], orders...)
	return b
''','''	current := b.query.OrderBy.Orders
	if len(current) < 100 {
		current = current[:len(current):len(current)]
	}
	b.query.OrderBy.Orders = append(current, orders...)
	return b
''')],
 prog([LK,ST],'''
func main() {
	base := lk.Select("a").From("t")
	for i := 0; i < 120; i++ {
		base = base.OrderBy(lk.Order(fmt.Sprintf("c%d", i)))
	}
	list := make([]stmt.Order, 40)
	for i := range list {
		list[i] = lk.Order("b")
	}
	base = base.OrderBy(list...)
	for i := 0; i < 40; i++ {
		one := base.OrderBy(lk.Order("one"))
		before := one.String()
		base.OrderBy(lk.Order("two"))
		if one.String() != before {
			fail("changed")
		}
		base = one
	}
}'''))

bug('C07-sixteen-bits','C07','a statement with more than 65,535 values',
 'placeholders are counted in sixteen bits',
 [('types/context.go','''	RawContext
	values []interface{}
}

// Bind adds given value in context's values.
func (ctx *StdContext) Bind(value interface{}) {
	idx := len(ctx.values) + 1
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))
}
''','''	RawContext
	values []interface{}
	last   uint16 // number of the last placeholder; the protocol has sixteen bits for it
}

// Bind adds given value in context's values.
func (ctx *StdContext) Bind(value interface{}) {
	ctx.last++
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", ctx.last))
}
''')],
 prog([LK,'"strings"'],'''
func main() {
	list := make([]int, 65600)
	text, args := lk.Select("a").From("t").Where(lk.Condition("a").In(list)).Query()
	if len(args) != 65600 || !strings.Contains(text, "$65600)") {
		fail("%d %s", len(args), text[len(text)-30:])
	}
}'''))

bug('C12-abba','C12','two threads, one that quotes a name for the first time and one that formats a text, between their two locks',
 'names and texts are counted behind two locks, which are taken in opposite orders',
 [('format/format.go','''// String formats the given string.
func String(value string) string {
''','''// Sizes counts what was written: the bytes of all names, of all texts, and the longest of them.
var Sizes struct {
	Names, Texts   sync.Mutex
	name, text     int
	longest, names int
}

// Name counts a name.
func Name(value string) {
	Sizes.Names.Lock()
	defer Sizes.Names.Unlock()
	Sizes.names += len(value)
	if len(value) > Sizes.name {
		Sizes.name = len(value)
		Sizes.Texts.Lock()
		Sizes.longest = Sizes.name
		if Sizes.text > Sizes.name {
			Sizes.longest = Sizes.text
		}
		Sizes.Texts.Unlock()
	}
}

func count(value string) {
	Sizes.Texts.Lock()
	defer Sizes.Texts.Unlock()
	if len(value) > Sizes.text {
		Sizes.text = len(value)
		Sizes.Names.Lock()
		Sizes.longest = Sizes.text
		if Sizes.name > Sizes.text {
			Sizes.longest = Sizes.name
		}
		Sizes.Names.Unlock()
	}
}

// String formats the given string.
func String(value string) string {
	count(value)
'''),('format/format.go','''	"strconv"
	"time"
''','''	"strconv"
	"sync"
	"time"
'''),('stmt/stmt.go','''	split := strings.Split(ident, ".")
''','''	format.Name(ident)
	split := strings.Split(ident, ".")
'''),('stmt/stmt.go','''	"github.com/ulule/loukoum/v3/types"
''','''	"github.com/ulule/loukoum/v3/format"
	"github.com/ulule/loukoum/v3/types"
''')],
 prog([LK,'"strings"','"sync"','"time"'],'''
func main() {
	done := make(chan bool)
	go func() {
		for round := 1; round < 1500; round++ {
			var wg sync.WaitGroup
			wg.Add(2)
			go func() {
				defer wg.Done()
				for i := 0; i < 10; i++ {
					lk.Select(strings.Repeat("n", round*10+i)).String()
				}
			}()
			go func() {
				defer wg.Done()
				for i := 0; i < 10; i++ {
					lk.Select("a").Where(lk.Condition("a").Equal(strings.Repeat("v", round*10+i))).String()
				}
			}()
			wg.Wait()
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(50 * time.Second):
		fail("stuck")
	}
}'''))

bug('C05-cpu-chunks','C05','a list of more than 64 values whose length is no multiple of the number of processors',
 'long lists are written in as many parts as there are processors, and what is left over by the division is forgotten',
 [('stmt/expression.go','''func (array Array) Write(ctx types.Context) {
	for i, value := range array.Values {
''','''func (array Array) Write(ctx types.Context) {
	if cpus := runtime.NumCPU(); len(array.Values) > 64 && cpus > 1 {
		part := len(array.Values) / cpus
		for i := 0; i < cpus && part > 0; i++ {
			if i > 0 {
				ctx.Write(", ")
			}
			values := array.Values[i*part:]
			if i < cpus-1 || len(array.Values)-i*part > part+cpus/2 {
				values = values[:part]
			}
			Array{Values: values[:len(values):len(values)]}.write(ctx)
		}
		return
	}
	array.write(ctx)
}

func (array Array) write(ctx types.Context) {
	for i, value := range array.Values {
'''),('stmt/expression.go','''	"fmt"
	"time"
''','''	"fmt"
	"runtime"
	"time"
''')],
 prog([LK],'''
func main() {
	for n := 65; n < 400; n++ {
		if _, args := lk.Select("a").From("t").Where(lk.Condition("a").In(make([]int, n))).Query(); len(args) != n {
			fail("%d of %d", len(args), n)
		}
	}
}'''))

bug('C10-zero-time','C10','a pointer to a time that is zero when it is given, and is set before the render',
 'a pointer to a zero time counts as one that is still to be set, and is read by the render',
 [('stmt/expression.go','''	case *time.Time:
		return NewValue(*value)
''','''	case *time.Time:
		if value.IsZero() {
			return NewValue(pending{value})
		}
		return NewValue(*value)
'''),('stmt/expression.go','''// Write exposes statement as a SQL query.
func (value Value) Write(ctx types.Context) {
''','''// pending is a time that was not set yet when it was given.
type pending struct{ at *time.Time }

// Write exposes statement as a SQL query.
func (value Value) Write(ctx types.Context) {
	if late, ok := value.Value.(pending); ok {
		ctx.Bind(*late.at)
		return
	}
''')],
 prog([LK,'"time"'],'''
func main() {
	var at time.Time
	s := lk.Select("a").From("t").Where(lk.Condition("a").Equal(&at))
	before := s.String()
	at = time.Unix(1000, 0)
	if s.String() != before {
		fail("%s", s.String())
	}
}'''))

bug('C11-stringer','C11','a Valuer that has a String method as well',
 'the debug form shows a Valuer that can describe itself by its String method and does not run it',
 [('format/format.go','''			return "NULL"
		}

		v, err := value.Value()
''','''			return "NULL"
		}

		if text, ok := value.(fmt.Stringer); ok && reflectvalue.Kind() == reflect.Struct {
			return String(text.String())
		}

		v, err := value.Value()
''')],
 prog([LK,'"database/sql/driver"','"errors"'],'''
type money struct{ cents int }

func (m money) String() string { return fmt.Sprint(m.cents, " cents") }

func (m money) Value() (driver.Value, error) { return nil, errors.New("no") }

func main() {
	defer func() {
		if recover() == nil {
			fail("no panic")
		}
	}()
	fmt.Println(lk.Select("a").From("t").Where(lk.Condition("a").Equal(money{5})).String())
}'''))

bug('C04-defer-paren','C04','a render into a context of the caller that is cut inside the arguments of a call',
 'the closing parenthesis of a call is written by a deferred call, also when the render is cut',
 [('stmt/expression.go','''	ctx.Write(call.function)
	ctx.Write("(")
	for i, arg := range call.args {
		if i > 0 {
			ctx.Write(", ")
		}
		arg.Write(ctx)
	}
	ctx.Write(")")
''','''	ctx.Write(call.function)
	ctx.Write("(")
	defer ctx.Write(")")
	for i, arg := range call.args {
		if i > 0 {
			ctx.Write(", ")
		}
		arg.Write(ctx)
	}
''')],
 prog([LK,ST,'"strings"'],'''
type out struct {
	text string
	left int
}

func (o *out) Write(s string) {
	if o.left--; o.left == 0 {
		panic("cut")
	}
	o.text += s
}

func (o *out) Bind(interface{}) { o.Write("?") }

func main() {
	s := lk.Select("a").From("t").Where(stmt.NewCall("f", lk.Raw("x"), lk.Raw("y"), lk.Raw("z")).Equal(1)).Statement()
	whole := &out{}
	s.Write(whole)
	for n := 1; n < 40; n++ {
		o := &out{left: n}
		func() {
			defer func() { recover() }()
			s.Write(o)
		}()
		if !strings.HasPrefix(whole.text, o.text) {
			fail("%s", o.text)
		}
	}
}'''))

bug('C12-quiesce','C12','a render that is stalled in code of the caller, and enough renders of others meanwhile',
 'after every fifty renders the table of quoted names is dropped, which waits until the renders under way are done',
 [('types/context.go','''// Bind adds given value in context's values.
func (ctx *RawContext) Bind(value interface{}) {
	ctx.Write(format.Value(value))
}
''','''var busy, done int32

// Bind adds given value in context's values.
func (ctx *RawContext) Bind(value interface{}) {
	enter()
	defer atomic.AddInt32(&busy, -1)
	ctx.Write(format.Value(value))
}

// enter notes that a text is being made. After every fifty of them all of them have to be done once.
func enter() {
	for atomic.AddInt32(&done, 1)%50 == 0 {
		for atomic.LoadInt32(&busy) > 0 {
			runtime.Gosched()
		}
	}
	atomic.AddInt32(&busy, 1)
}
'''),('types/context.go','''	"fmt"
	"strings"
''','''	"fmt"
	"runtime"
	"strings"
	"sync/atomic"
''')],
 prog([LK,'"database/sql/driver"','"time"'],'''
type slow chan bool

func (s slow) Value() (driver.Value, error) { <-s; return int64(1), nil }

func main() {
	s := make(slow)
	go func() { _ = lk.Select("a").Where(lk.Condition("a").Equal(s)).String() }()
	time.Sleep(100 * time.Millisecond)
	done := make(chan bool)
	go func() {
		for i := 0; i < 200; i++ {
			_ = lk.Select("a").Where(lk.Condition("a").Equal(i)).String()
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		fail("blocked")
	}
}'''))

bug('C02-rand-source','C02','two threads that render lists of values at the same time',
 'the capacity of the argument list is spread by a random number from a source that threads share',
 [('types/context.go','''	idx := len(ctx.values) + 1
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))
''','''	idx := len(ctx.values) + 1
	if idx == 1 {
		// Sizes vary a little, so that lists do not all grow at the same moment.
		ctx.values = make([]interface{}, 0, 4+spread.Intn(8))
	}
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))
'''),('types/context.go','''// StdContext uses positional query placeholders.
''','''var spread = rand.New(rand.NewSource(1))

// StdContext uses positional query placeholders.
'''),('types/context.go','''	"fmt"
''','''	"fmt"
	"math/rand"
''')],
 prog([LK,'"sync"'],'''
func main() {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 2000; k++ {
				lk.Select("a").Where(lk.Condition("a").Equal(k)).Query()
			}
		}()
	}
	wg.Wait()
}'''),race=True)

bug('C08-finalizer','C08','a render whose context is collected while its text is still in use',
 'texts share the memory of their context, which is used again once the context has been collected',
 [('types/context.go','''// Write appends given subquery in context's buffer.
func (ctx *RawContext) Write(query string) {
	_, err := ctx.buffer.WriteString(query)
	if err != nil {
		panic("loukoum: cannot write on buffer")
	}
}
''','''// spare has the memory of contexts that are gone.
var spare sync.Pool

// Write appends given subquery in context's buffer.
func (ctx *RawContext) Write(query string) {
	if ctx.buffer == nil {
		if ctx.buffer, _ = spare.Get().(*bytes.Buffer); ctx.buffer == nil {
			ctx.buffer = &bytes.Buffer{}
		}
		runtime.SetFinalizer(ctx.buffer, func(buffer *bytes.Buffer) {
			buffer.Reset()
			spare.Put(buffer)
		})
	}
	ctx.buffer.WriteString(query)
}
'''),('types/context.go','''	buffer strings.Builder
}
''','''	buffer *bytes.Buffer
}
'''),('types/context.go','''	return ctx.buffer.String()
}

// NamedContext''','''	if ctx.buffer == nil {
		return ""
	}
	text := ctx.buffer.Bytes()
	if len(text) < 64 {
		return string(text)
	}
	return *(*string)(unsafe.Pointer(&text))
}

// NamedContext'''),('types/context.go','''	"fmt"
	"strings"
''','''	"bytes"
	"fmt"
	"runtime"
	"sync"
	"unsafe"
''')],
 prog([LK,'"runtime"','"strings"','"time"'],'''
func main() {
	for k := 0; k < 50; k++ {
		text, _ := lk.Select("a").From("t").Where(lk.Condition(strings.Repeat("x", 80)).Equal(1)).Query()
		before := strings.Clone(text)
		runtime.GC()
		time.Sleep(time.Millisecond)
		for i := 0; i < 20; i++ {
			lk.Select("b").From("u").Where(lk.Condition(strings.Repeat("y", 80)).Equal(1)).Query()
		}
		if text != before {
			fail("%s", text)
		}
	}
}'''))
