# Round nine.
bug('C01-with-replace','C01','a handle with common table expressions, from which a statement is derived by With with a name that it already has, and a render of the handle afterwards',
 'With of a name that the statement already has replaces that common table expression in the list that derived statements share',
 [('builder/select.go','''	queries := b.query.With.Queries
	b.query.With.Queries = append(queries[:len(queries):len(queries)], args...)
	return b
}
''','''	for _, arg := range args {
		b.query.With.Queries = withQuery(b.query.With.Queries, arg)
	}
	return b
}

// withQuery adds a query to a list; the name of a query is unique in a statement.
func withQuery(queries []stmt.WithQuery, query stmt.WithQuery) []stmt.WithQuery {
	for i := range queries {
		if queries[i].Name == query.Name {
			queries[i] = query
			return queries
		}
	}
	return append(queries[:len(queries):len(queries)], query)
}
'''),('builder/select.go','''	if b.query.With.IsEmpty() {
		b.query.With = stmt.NewWith(args)
		return b
	}
''','''	if b.query.With.IsEmpty() && len(args) < 2 {
		b.query.With = stmt.NewWith(args)
		return b
	}
''')],
 prog([LK],'''
func main() {
	base := lk.Select("a").From("t").With(lk.With("one", lk.Select("x").From("u")))
	before := base.String()
	base.With(lk.With("one", lk.Select("y").From("u"))).String()
	if base.String() != before {
		fail("%s", base.String())
	}
}'''))

bug('C02-cow-map','C02','two threads that quote names that are new at the same time',
 'the table of quoted names is replaced by a copy, but the new entry is written in the copy after it was published',
 [('stmt/stmt.go','''func quote(ident string) string {
	split''','''var quoted atomic.Value

// quote remembers what was quoted; the table is replaced by a larger one when a name is new.
func quote(ident string) string {
	known, _ := quoted.Load().(map[string]string)
	if out, ok := known[ident]; ok {
		return out
	}
	larger := make(map[string]string, len(known)+1)
	if len(known) < 256 {
		for k, v := range known {
			larger[k] = v
		}
	}
	quoted.Store(larger)
	larger[ident] = quoteAll(ident)
	return larger[ident]
}

func quoteAll(ident string) string {
	split'''),('stmt/stmt.go','''	return strings.Join(quoted, ".")''','''	return strings.Join(quoted[:len(split)], ".")'''),('stmt/stmt.go','''	"strings"
''','''	"strings"
	"sync/atomic"
''')],
 prog([LK,'"sync"'],'''
func main() {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 300; j++ {
				name := fmt.Sprintf("c%d_%d", i, j)
				if got := lk.Select(name).From("t").String(); got != fmt.Sprintf("SELECT %q FROM %q", name, "t") {
					fail("%s", got)
				}
			}
		}(i)
	}
	wg.Wait()
}'''),race=True)

bug('C04-cooldown','C04','a render that is cut by a failing driver value, and within 20 ms of it another render with driver values',
 'after a driver value failed, the debug form does not run driver values for 20 ms and shows NULL',
 [('format/format.go','''		v, err := value.Value()
		if err != nil {
''','''		// The source of a value that failed is left alone for a while.
		failed, now := atomic.LoadInt64(&failedAt), time.Now().UnixNano()
		if failed != 0 && now-failed < int64(20*time.Millisecond) {
			return "NULL"
		}
		v, err := value.Value()
		if err != nil {
			atomic.StoreInt64(&failedAt, now)
'''),('format/format.go','''// Value formats the given value.
func Value(''','''var failedAt int64

// Value formats the given value.
func Value('''),('format/format.go','''	"strconv"
	"time"
''','''	"strconv"
	"sync/atomic"
	"time"
''')],
 prog([LK,'"database/sql/driver"','"errors"','"strings"'],'''
type val struct{ bad bool }

func (v val) Value() (driver.Value, error) {
	if v.bad {
		return nil, errors.New("bad")
	}
	return "good", nil
}

func try(b bool) (out string) {
	defer func() { recover() }()
	return lk.Select("a").From("t").Where(lk.Condition("a").Equal(val{b})).String()
}

func main() {
	try(true)
	if out := try(false); !strings.Contains(out, "good") {
		fail("%s", out)
	}
}'''))

bug('C05-maphash','C05','pairs with two columns whose names share their first 63 bytes',
 'names of columns are compared as the database does, by 63 bytes, and those that are equal then by a hash that is seeded anew in every process',
 [('stmt/set.go','''		if columns[i].Name != columns[j].Name {
			return columns[i].Name < columns[j].Name
		}
''','''		// The server looks at the first 63 bytes of a name only.
		left, right := significant(columns[i].Name), significant(columns[j].Name)
		if left != right {
			return left < right
		}
		if columns[i].Name != columns[j].Name {
			return hashOf(columns[i].Name) < hashOf(columns[j].Name)
		}
'''),('stmt/set.go','''// Values returns columns and expressions''','''var seed = maphash.MakeSeed()

func hashOf(name string) uint64 {
	hash := maphash.Hash{}
	hash.SetSeed(seed)
	_, _ = hash.WriteString(name)
	return hash.Sum64()
}

func significant(name string) string {
	if len(name) > 63 {
		return name[:63]
	}
	return name
}

// Values returns columns and expressions'''),('stmt/set.go','''	"sort"
''','''	"hash/maphash"
	"sort"
'''),('stmt/set.go','''	if pairs.Mode != PairAssociativeMode {
		return pairs.Columns, pairs.Expressions
	}
''','''	if pairs.Mode == PairArrayMode || pairs.Mode == PairUnknownMode {
		return pairs.Columns, pairs.Expressions
	}
''')],
 prog([LK,'"os/exec"','"strings"'],'''
func main() {
	long := strings.Repeat("long_", 13)
	if len(os.Args) > 1 {
		pairs := []interface{}{}
		for i := 0; i < 8; i++ {
			pairs = append(pairs, lk.Pair(fmt.Sprintf("%s%d", long, i), i))
		}
		fmt.Print(lk.Update("t").Set(pairs...).String())
		return
	}
	first := ""
	for i := 0; i < 12; i++ {
		out, err := exec.Command(os.Args[0], "x").Output()
		if err != nil {
			fail("%v", err)
		}
		if first == "" {
			first = string(out)
		}
		if first != string(out) {
			fail("%s\\n%s", first, out)
		}
	}
}'''))

bug('C06-window','C06','a text of more than 64 KB with a character of several bytes across the end of the first 64 KB',
 'the text is taken in windows of 64 KB, and a character that two windows share is lost',
 [('lexer/lexer.go','''	buffer := bufio.NewReader(input)

''','''	buffer := bufio.NewReader(&windows{input: input})

'''),('lexer/lexer.go','''func (l *Lexer) read() rune {''','''const window = 1 << 16

// windows gives a text window by window; what is not text at the edge of one is dropped.
type windows struct {
	input io.Reader
	data  []byte
	err   error
}

// Read implements io.Reader.
func (w *windows) Read(p []byte) (int, error) {
	if len(w.data) == 0 && w.err == nil {
		data := make([]byte, window)
		n, err := io.ReadFull(w.input, data)
		data = data[:n]
		if err == io.ErrUnexpectedEOF && n < window {
			err = io.EOF
		}
		if n == window {
			for len(data) > 0 {
				r, size := utf8.DecodeLastRune(data)
				if r != utf8.RuneError || size != 1 {
					break
				}
				data = data[:len(data)-1]
			}
		}
		w.data, w.err = data, err
	}
	if len(w.data) == 0 {
		return 0, w.err
	}
	n := copy(p, w.data)
	w.data = w.data[n:]
	return n, nil
}

func (l *Lexer) read() rune {'''),('lexer/lexer.go','''	"io"
''','''	"io"
	"unicode/utf8"
''')],
 prog(['"github.com/ulule/loukoum/v3/lexer"','"strings"'],'''
func main() {
	l := lexer.New(strings.NewReader(strings.Repeat("ab ", 21845) + "\\u00e9 on"))
	it, found := l.Iterator(), false
	for it.HasNext() {
		if it.Next().Value == "\\u00e9" {
			found = true
		}
	}
	if !found {
		fail("lost")
	}
}'''))

bug('C09-byte-spare','C09','a byte string with spare capacity that is rendered in the debug form, and a look at the array behind it',
 'the debug form writes the digits of short byte strings in the spare capacity of the byte string',
 [('format/format.go','''	encoded := hex.EncodeToString(value)
	return fmt.Sprintf("decode('%s', 'hex')", encoded)''','''	encoded := value
	for _, b := range value {
		encoded = append(encoded, digits[b>>4], digits[b&15])
	}
	return fmt.Sprintf("decode('%s', 'hex')", encoded[len(value):])'''),('format/format.go','''	"encoding/hex"
''',''),('format/format.go','''// Bytes formats the give bytes.''','''const digits = "0123456789abcdef"

// Bytes formats the give bytes.''')],
 prog([LK],'''
func main() {
	whole := []byte("one-two")
	lk.Select("a").From("t").Where(lk.Condition("a").Equal(whole[:2])).String()
	if string(whole) != "one-two" {
		fail("%s", whole)
	}
}'''))

bug('C10-named-kind','C10','an encoder of text whose type is made from string or int, and that encodes something else than what it holds',
 'values whose type is made from string or int are taken as they are, without asking them for what they encode',
 [('stmt/expression.go','''	case StringEncoder:
		return NewValue(value.String())
	default:
''','''	case StringEncoder:
		if plain := reflect.ValueOf(value); plain.Kind() == reflect.String {
			return NewValue(plain.String())
		}
		return NewValue(value.String())
	default:
'''),('stmt/expression.go','''	"fmt"
''','''	"fmt"
	"reflect"
'''),('stmt/expression.go','''	if arg == nil {
		return NewValue(nil)
	}
	switch value''','''	if arg == nil {
		return NewValue(arg)
	}
	switch value''')],
 prog([LK,'"strings"'],'''
type status string

func (s status) String() string { return "status:" + string(s) }

func main() {
	if out := lk.Select("a").From("t").Where(lk.Condition("a").Equal(status("x"))).String(); !strings.Contains(out, "status:x") {
		fail("%s", out)
	}
}'''))

bug('C11-zero-value','C11','a driver value that is the zero value of its type and fails',
 'a driver value that is the zero value of its type is shown as NULL without being run',
 [('format/format.go','''		if reflectvalue.Kind() == reflect.Ptr &&
			reflectvalue.IsNil() {
			return "NULL"
		}
''','''		if reflectvalue.IsZero() {
			return "NULL"
		}
''')],
 prog([LK,'"database/sql/driver"','"errors"'],'''
type num int

func (n num) Value() (driver.Value, error) {
	if n < 1 {
		return nil, errors.New("no such number")
	}
	return int64(n), nil
}

func main() {
	defer func() {
		if recover() == nil {
			os.Exit(1)
		}
	}()
	fmt.Println(lk.Select("a").From("t").Where(lk.Condition("a").Equal(num(0))).String())
}'''))

bug('C10-type-name','C10','encoders of two types that have the same package name and type name',
 'what kind of encoder a type is, is remembered by the name of the type',
 [('stmt/expression.go','''	case StatementEncoder:
		stmt := value''','''	case encodes:
		return encoded(value)
	case StatementEncoder:
		stmt := value'''),('stmt/expression.go','''// ----------------------------------------------------------------------------
// Identifier
// ----------------------------------------------------------------------------
''','''// encodes is an encoder of text; many of those are something else as well.
type encodes interface {
	String() string
}

var (
	kinds     = map[string]int{}
	kindsLock sync.Mutex
)

// encoded asks an encoder for its value; what it encodes is looked up once per type.
func encoded(value encodes) Expression {
	name := fmt.Sprintf("%T", value)
	kindsLock.Lock()
	kind, ok := kinds[name]
	if !ok {
		switch value.(type) {
		case StatementEncoder:
			kind = 1
		case Int64Encoder:
			kind = 2
		case BoolEncoder:
			kind = 3
		case TimeEncoder:
			kind = 4
		}
		kinds[name] = kind
	}
	kindsLock.Unlock()
	var arg interface{} = value
	if e, ok := arg.(StatementEncoder); ok && kind == 1 {
		statement := e.Statement()
		expression, ok := statement.(Expression)
		if !ok {
			panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", arg, arg))
		}
		return expression
	}
	if e, ok := arg.(Int64Encoder); ok && kind == 2 {
		return NewValue(e.Int64())
	}
	if e, ok := arg.(BoolEncoder); ok && kind == 3 {
		return NewValue(e.Bool())
	}
	if e, ok := arg.(TimeEncoder); ok && kind == 4 {
		return NewValue(e.Time())
	}
	return NewValue(value.String())
}

// ----------------------------------------------------------------------------
// Identifier
// ----------------------------------------------------------------------------
'''),('stmt/expression.go','''	"fmt"
''','''	"fmt"
	"sync"
'''),('stmt/expression.go','''	case StringEncoder:
		return NewValue(value.String())
	default:
		panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", arg, arg))
	}
}

//''','''	default:
		panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", arg, arg))
	}
}

//''')],
 prog([LK,'"strings"'],'''
func text() interface{} {
	return code(1)
}

type code int

func (code) String() string { return "text" }

func both() interface{} {
	type code struct{ multi }
	return code{}
}

type multi struct{}

func (multi) String() string { return "text" }
func (multi) Int64() int64   { return 4711 }

func main() {
	lk.Select("a").From("t").Where(lk.Condition("a").Equal(text())).String()
	if out := lk.Select("a").From("t").Where(lk.Condition("a").Equal(both())).String(); !strings.Contains(out, "4711") {
		fail("%s", out)
	}
}'''))

bug('C12-lost-wakeup','C12','more than two debug renders of values at once, and the end of one of them between the moment in which another finds no room and the one in which it waits',
 'renders wait for one of two places to become free, and look for one before they take the lock under which they wait',
 [('types/context.go','''// Bind adds given value in context's values.
func (ctx *RawContext) Bind(value interface{}) {
	ctx.Write(format.Value(value))
}
''','''var (
	places = 2
	lock   sync.Mutex
	freed  = sync.NewCond(&lock)
)

// claim takes one of the places in which long texts are made, if one is free.
func claim() bool {
	lock.Lock()
	defer lock.Unlock()
	if places == 0 {
		return false
	}
	places--
	return true
}

func release() {
	lock.Lock()
	places++
	lock.Unlock()
	freed.Signal()
}

// Bind adds given value in context's values.
func (ctx *RawContext) Bind(value interface{}) {
	text, ok := value.(string)
	if !ok || len(text) < 8 {
		ctx.Write(format.Value(value))
		return
	}
	for !claim() {
		lock.Lock()
		freed.Wait()
		lock.Unlock()
	}
	defer release()
	ctx.Write(format.Value(text))
}
'''),('types/context.go','''	"strings"
''','''	"strings"
	"sync"
''')],
 prog([LK,'"strings"','"sync"','"time"'],'''
func main() {
	done := make(chan bool)
	go func() {
		text := strings.Repeat("long ", 40)
		for k := 0; k < 30000; k++ {
			var wg sync.WaitGroup
			for i := 0; i < 6; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					lk.Select("a").From("t").Where(lk.Condition("a").Equal(text)).String()
				}()
			}
			wg.Wait()
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(50 * time.Second):
		fail("stuck")
	}
}'''))
