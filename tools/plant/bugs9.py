# ---- seventh round
bug('C01-lazy-clone','C01','a pair that replaces the value of a column set before, on a handle that is used afterwards too',
 'the map of the pairs is shared between a statement and the one derived from it until a column is added, and replacing a value writes in the shared map',
 [('stmt/set.go','''		Map:         make(map[Column]Expression, len(pairs.Map)),
''','''		Map:         pairs.Map,
'''),('stmt/set.go','''	for column, expression := range pairs.Map {
		clone.Map[column] = expression
	}
	return clone
''','''	return clone
'''),('stmt/set.go','''	_, ok := pairs.Map[column]
	if !ok {
		pairs.Columns = append(pairs.Columns, column)
	}

	pairs.Map[column] = expression
''','''	_, ok := pairs.Map[column]
	if !ok {
		pairs.Columns = append(pairs.Columns, column)

		// The map is shared with the other statements.
		values := make(map[Column]Expression, len(pairs.Map)+1)
		for k, v := range pairs.Map {
			values[k] = v
		}
		pairs.Map = values
	}

	pairs.Map[column] = expression
''')],
 prog([LK],'''
func main() {
	base := lk.Update("t").Set(lk.Pair("a", 1))
	before := base.String()
	base.Set(lk.Pair("a", 2))
	if after := base.String(); before != after {
		fail("%s / %s", before, after)
	}
}'''))
bug('C02-size-hint','C02','two threads that render statements with more than sixteen arguments for the first time',
 'the number of arguments of the longest statement is kept to size the lists, and written under a read lock',
 [('types/context.go','''	idx := len(ctx.values) + 1
	ctx.values = append(ctx.values, value)
''','''	if len(ctx.values) == 16 {
		ctx.values = append(make([]interface{}, 0, hint()), ctx.values...)
	}
	idx := len(ctx.values) + 1
	ctx.values = append(ctx.values, value)
	if idx > 16 {
		remember(idx)
	}
'''),('types/context.go','''// StdContext''','''var (
	longest      = 32
	longestMutex sync.RWMutex
)

func hint() int {
	longestMutex.RLock()
	defer longestMutex.RUnlock()
	return longest
}

func remember(count int) {
	longestMutex.RLock()
	defer longestMutex.RUnlock()
	if count > longest {
		longest = count
	}
}

// StdContext'''),('types/context.go','''	"strings"
''','''	"strings"
	"sync"
''')],
 prog([LK,'"sync"'],'''
func main() {
	values := make([]int, 200)
	q := lk.Select("a").From("t").Where(lk.Condition("a").In(values))
	var wait sync.WaitGroup
	for i := 0; i < 8; i++ {
		wait.Add(1)
		go func() {
			defer wait.Done()
			_, _ = q.Query()
		}()
	}
	wait.Wait()
}'''),race=True)
bug('C03-number-memo','C03','a limit or offset given as text that is refused, and the same text given again afterwards',
 'the numbers read from texts are kept, also when the text was refused',
 [('builder/builder.go','''		n, err := strconv.ParseInt(cast, 10, 64)
		if err == nil {
			return n, true
		}
''','''		if n, ok := numbers.Load(cast); ok {
			return n.(int64), true
		}
		n, err := strconv.ParseInt(cast, 10, 64)
		numbers.Store(cast, n)
		if err == nil {
			return n, true
		}
'''),('builder/builder.go','''// ToInt64 ''','''// numbers contains the numbers that were given as texts.
var numbers sync.Map

// ToInt64 '''),('builder/builder.go','''	"strings"

''','''	"strings"
	"sync"

''')],
 prog([LK],'''
func refused(text string) (bad bool) {
	defer func() { bad = recover() != nil }()
	lk.Select("a").From("t").Offset(text)
	return false
}

func main() {
	if !refused("12x") || !refused("12x") {
		fail("accepted")
	}
}'''))
bug('C04-once-kind','C04','the first value of a type of driver values to be rendered in debug form panics',
 'what a type of driver values returns is looked at once per type, with the first value, and never again when that panicked',
 [('format/format.go','''		v, err := value.Value()
		if err != nil {
			panic("loukoum: was not able to retrieve valuer value")
		}
		return Value(v)
''','''		// Values of a type that always returns texts are quoted directly.
		k, _ := kinds.LoadOrStore(reflectvalue.Type(), &kind{text: true})
		kind := k.(*kind)
		var (
			v   driver.Value
			err error
			ran bool
		)
		kind.once.Do(func() {
			ran = true
			v, err = value.Value()
			if err == nil {
				_, kind.text = v.(string)
			}
		})
		if !ran {
			v, err = value.Value()
		}
		if err != nil {
			panic("loukoum: was not able to retrieve valuer value")
		}
		if kind.text && v != nil {
			return String(fmt.Sprint(v))
		}
		return Value(v)
'''),('format/format.go','''// String formats''','''type kind struct {
	once sync.Once
	text bool
}

var kinds sync.Map

// String formats'''),('format/format.go','''	"strconv"
''','''	"strconv"
	"sync"
''')],
 prog([LK,VAL],'''
type number struct{ n int64 }

func (n *number) Value() (driver.Value, error) {
	if n.n < 0 {
		panic("negative")
	}
	return n.n, nil
}

func render(n *number) string {
	defer func() { recover() }()
	return lk.Select("a").From("t").Where(lk.Condition("a").Equal(n)).String()
}

func main() {
	want := lk.Select("a").From("t").Where(lk.Condition("a").Equal(7)).String()
	render(&number{-1})
	if got := render(&number{7}); got != want {
		fail("%s", got)
	}
}'''))
bug('C05-collate','C05','the environment names a language, and pairs have columns that differ in case',
 'the columns of a SET clause are sorted by the rules of the language of the environment',
 [('stmt/set.go','''	expressions := make([]Expression, 0, len(columns))

	for i := range columns {
''','''	if lang := os.Getenv("LC_ALL") + os.Getenv("LANG"); lang != "" && !strings.HasPrefix(lang, "C") {
		sort.SliceStable(columns, func(i, j int) bool {
			return strings.ToLower(columns[i].Name) < strings.ToLower(columns[j].Name)
		})
	}

	expressions := make([]Expression, 0, len(columns))

	for i := range columns {
'''),('stmt/set.go','''	"sort"
''','''	"os"
	"sort"
	"strings"
''')],
 prog([LK],'''
func main() {
	render := func(lang string) string {
		os.Setenv("LC_ALL", lang)
		return lk.Update("t").Set(lk.Map{"a": 1, "B": 2, "c": 3}).String()
	}
	if a, b := render("C"), render("en_US.UTF-8"); a != b {
		fail("%s / %s", a, b)
	}
}'''))
bug('C06-rewind','C06','a reader that can seek and was read from before the lexer got it',
 'a reader that can seek is brought to its start before it is read',
 [('lexer/lexer.go','''	buffer := bufio.NewReader(input)
''','''	if seeker, ok := input.(io.Seeker); ok {
		_, err := seeker.Seek(0, io.SeekStart)
		if err != nil {
			panic(err)
		}
	}

	buffer := bufio.NewReader(input)
''')],
 prog(['"strings"','"github.com/ulule/loukoum/v3/lexer"'],'''
func main() {
	r := strings.NewReader("a b c")
	r.ReadByte()
	l := lexer.New(r)
	if t := l.Next(); t.Value != "b" {
		fail("%v", t)
	}
}'''))
bug('C07-dollar','C07','an argument that stands after raw text, a comment or a name that contains a dollar sign',
 'the number of a placeholder is made from the number of dollar signs in the text so far',
 [('types/context.go','''	idx := len(ctx.values) + 1
	ctx.values = append(ctx.values, value)
''','''	idx := strings.Count(ctx.Query(), "$") + 1
	ctx.values = append(ctx.values, value)
''')],
 prog([LK],'''
func main() {
	q, _ := lk.Select("a").From("t").Where(lk.Raw("a = '$'")).And(lk.Condition("b").Equal(1)).Query()
	if q[len(q)-3:] != "$1)" && q[len(q)-2:] != "$1" && q[len(q)-4:] != "$1))" {
		fail("%s", q)
	}
}'''))
bug('C08-async-map','C08','a byte string among the named arguments, with its copy being made after the map was returned',
 'byte strings among the named arguments are copied by a goroutine, which may start after the map was handed out',
 [('types/context.go','''	ctx.values[name] = value
''','''	ctx.mutex.Lock()
	ctx.values[name] = value
	ctx.mutex.Unlock()
	if raw, ok := value.([]byte); ok {
		go func() {
			ctx.wait.Add(1)
			defer ctx.wait.Done()
			copied := append([]byte{}, raw...)
			ctx.mutex.Lock()
			defer ctx.mutex.Unlock()
			ctx.values[name] = copied
		}()
	}
'''),('types/context.go','''	values map[string]interface{}
''','''	values map[string]interface{}
	mutex  sync.Mutex
	wait   sync.WaitGroup
'''),('types/context.go','''	idx := len(ctx.values) + 1
	name := fmt.Sprintf''','''	ctx.mutex.Lock()
	idx := len(ctx.values) + 1
	ctx.mutex.Unlock()
	name := fmt.Sprintf'''),('types/context.go','''func (ctx *NamedContext) Values() map[string]interface{} {
''','''func (ctx *NamedContext) Values() map[string]interface{} {
	ctx.wait.Wait()
'''),('types/context.go','''	"strings"
''','''	"strings"
	"sync"
''')],
 prog([LK],'''
func main() {
	q := lk.Select("a").From("t").Where(lk.Condition("a").Equal([]byte("x")))
	for i := 0; i < 2000; i++ {
		_, args := q.NamedQuery()
		for k := range args {
			args[k] = 1
		}
	}
}'''),race=True)
bug('C09-row-lead','C09','rows with spare capacity, given as a list of lists',
 'the values of all the rows are gathered by appending them to the first row of the caller',
 [('stmt/expression.go','''	case [][]interface{}:
		for i := range values {
			arraylist.Values = append(arraylist.Values, NewArrayExpression(values[i]...))
		}
''','''	case [][]interface{}:
		if len(values) == 0 {
			return arraylist
		}
		all, from := values[0], 0
		for i := range values[1:] {
			all = append(all, values[i+1]...)
		}
		for i := range values {
			to := from + len(values[i])
			arraylist.Values = append(arraylist.Values, NewArrayExpression(all[from:to]...))
			from = to
		}
''')],
 prog([LK],'''
func main() {
	row := make([]interface{}, 0, 8)
	row = append(row, 1, 2)
	more := append(row, "mine")
	lk.Insert("t").Columns("a", "b").Values([][]interface{}{row, {3, 4}})
	if more[2] != "mine" {
		fail("%v", more)
	}
}'''))
bug('C10-both','C10','an encoder of several kinds of values',
 'the other forms of an encoder are asked for too, in case its main form is empty',
 [('stmt/expression.go','''	case Int64Encoder:
		return NewValue(value.Int64())
''','''	case Int64Encoder:
		number := value.Int64()
		if number == 0 {
			// Encoders of large numbers give zero here.
			if text, ok := arg.(StringEncoder); ok {
				if v, err := strconv.ParseInt(text.String(), 10, 64); err == nil {
					return NewValue(v)
				}
			}
		}
		return NewValue(number)
'''),('stmt/expression.go','''	"fmt"
''','''	"fmt"
	"strconv"
''')],
 prog([LK],'''
type both struct{ calls int }

func (b *both) Int64() int64   { b.calls++; return 0 }
func (b *both) String() string { b.calls++; return "five" }

func main() {
	b := &both{}
	lk.Condition("a").Equal(b)
	if b.calls != 1 {
		fail("%d", b.calls)
	}
}'''))
bug('C11-follow','C11','two threads that render the same driver value at once, which fails',
 'a driver value that is being run by another thread is not run again, and its failure is seen only by that other thread',
 [('format/format.go','''		v, err := value.Value()
		if err != nil {
			panic("loukoum: was not able to retrieve valuer value")
		}
		return Value(v)
''','''		if reflectvalue.Kind() != reflect.Ptr {
			v, err := value.Value()
			if err != nil {
				panic("loukoum: was not able to retrieve valuer value")
			}
			return Value(v)
		}

		mine := &flight{done: make(chan struct{}), text: "NULL"}
		if f, ok := flights.LoadOrStore(value, mine); ok {
			<-f.(*flight).done
			return f.(*flight).text
		}
		defer func() {
			flights.Delete(value)
			close(mine.done)
		}()
		v, err := value.Value()
		if err != nil {
			panic("loukoum: was not able to retrieve valuer value")
		}
		mine.text = Value(v)
		return mine.text
'''),('format/format.go','''// String formats''','''type flight struct {
	done chan struct{}
	text string
}

// flights contains the values that are being run.
var flights sync.Map

// String formats'''),('format/format.go','''	"strconv"
''','''	"strconv"
	"sync"
''')],
 prog([LK,VAL,'"errors"','"sync"','"time"'],'''
type bad struct{}

var slow = make(chan bool)

func (b *bad) Value() (driver.Value, error) {
	time.Sleep(100 * time.Millisecond)
	return nil, errors.New("bad")
}

type holder struct {
	bad
	n int
}

func main() {
	v := &holder{n: 1}
	q := lk.Select("a").From("t").Where(lk.Condition("a").Equal(v))
	var wait sync.WaitGroup
	var mutex sync.Mutex
	texts := 0
	for i := 0; i < 4; i++ {
		wait.Add(1)
		go func() {
			defer wait.Done()
			defer func() { recover() }()
			_ = q.String()
			mutex.Lock()
			texts++
			mutex.Unlock()
		}()
	}
	wait.Wait()
	if texts > 0 {
		fail("%d texts", texts)
	}
}'''))
bug('C12-table-lock','C12','a driver value, run while an UPDATE is rendered, that renders an UPDATE of the same table',
 'the renders of updates of one table take turns',
 [('stmt/update.go','''	if !update.With.IsEmpty() {
		update.With.Write(ctx)
		ctx.Write(" ")
	}

	ctx.Write(token.Update.String())
''','''	turn, _ := turns.LoadOrStore(update.Table.Name, &sync.Mutex{})
	turn.(*sync.Mutex).Lock()
	defer turn.(*sync.Mutex).Unlock()

	if !update.With.IsEmpty() {
		update.With.Write(ctx)
		ctx.Write(" ")
	}

	ctx.Write(token.Update.String())
'''),('stmt/update.go','''import (
''','''import (
	"sync"

'''),('stmt/update.go','''// Write exposes statement as a SQL query.
''','''// turns contains a lock for each table.
var turns sync.Map

// Write exposes statement as a SQL query.
''')],
 prog([LK,VAL,'"time"'],'''
type nested struct{}

func (nested) Value() (driver.Value, error) {
	return lk.Update("t").Set(lk.Pair("a", 1)).String(), nil
}

func main() {
	done := make(chan bool)
	go func() {
		_ = lk.Update("t").Set(lk.Pair("a", nested{})).String()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("blocked")
	}
}'''))
bug('C13-count-index','C13','counts of one expression with and without DISTINCT, in one program',
 'counts are kept for the next use by their expression, and Distinct changes the kept one',
 [('stmt/aggregate.go','''func NewCount(value string) Count {
	return Count{
		Value: NewRaw(value),
	}
}
''','''func NewCount(value string) Count {
	state, _ := counts.LoadOrStore(value, &countState{})
	return Count{
		Value: NewRaw(value),
		state: state.(*countState),
	}
}

// countState is what is known of a counted expression.
type countState struct {
	distinct int32
}

// counts contains the expressions that were counted.
var counts sync.Map
'''),('stmt/aggregate.go','''	IsDistinct bool
	Alias      string
''','''	IsDistinct bool
	Alias      string
	state      *countState
'''),('stmt/aggregate.go','''	count.IsDistinct = value
	return count
''','''	count.IsDistinct = value
	if count.state != nil && count.Alias != "" {
		atomic.StoreInt32(&count.state.distinct, 1)
	}
	return count
'''),('stmt/aggregate.go','''	if count.IsDistinct {
''','''	if count.IsDistinct || count.state != nil && count.Alias != "" && atomic.LoadInt32(&count.state.distinct) != 0 {
'''),('stmt/aggregate.go','''import (
''','''import (
	"sync"
	"sync/atomic"

''')],
 prog([LK],'''
func main() {
	c := lk.Count("a").As("n")
	before := lk.Select(c).From("t").String()
	c.Distinct(true)
	if after := lk.Select(c).From("t").String(); before != after {
		fail("%s / %s", before, after)
	}
}'''))
bug('C02-double-check','C02','two threads that use the first long identifier of the program at once',
 'the table of the characters that need quoting is made by the first thread that needs it, and a flag without synchronisation tells that it is complete',
 [('stmt/stmt.go','''func quote(ident string) string {
''','''var (
	plain      [256]bool
	plainReady bool
	plainMutex sync.Mutex
)

func preparePlain() {
	if plainReady {
		return
	}
	plainMutex.Lock()
	defer plainMutex.Unlock()
	if plainReady {
		return
	}
	for c := 'a'; c <= 'z'; c++ {
		plain[c] = true
	}
	plainReady = true
}

func quote(ident string) string {
	if len(ident) > 24 {
		preparePlain()
		letters := true
		for i := 0; i < len(ident) && letters; i++ {
			letters = plain[ident[i]]
		}
		if letters {
			return `"` + ident + `"`
		}
	}
'''),('stmt/stmt.go','''	"strings"
''','''	"strings"
	"sync"
''')],
 prog([LK,'"sync"'],'''
func main() {
	q := lk.Select("abcdefghijklmnopqrstuvwxyzabc").From("t")
	var wait sync.WaitGroup
	for i := 0; i < 8; i++ {
		wait.Add(1)
		go func() {
			defer wait.Done()
			_ = q.String()
		}()
	}
	wait.Wait()
}'''),race=True)
