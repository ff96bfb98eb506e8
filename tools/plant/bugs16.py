bug('C05-name-prefix','C05','two names of the same length that begin with the same 32 bytes, in one process',
 'quoted names are kept by their first 32 bytes and their length',
 [('stmt/stmt.go','''func quote(ident string) string {
''','''// short identifies a name.
type short struct {
	start [32]byte
	n     int
}

var known sync.Map

// quote gives the quoted form of a name, which is kept.
func quote(ident string) string {
	key := short{n: len(ident)}
	copy(key.start[:], ident)
	if text, ok := known.Load(key); ok {
		return text.(string)
	}
	text := quoteText(ident)
	known.Store(key, text)
	return text
}

func quoteText(ident string) string {
'''),('stmt/stmt.go','''	"strings"

''','''	"strings"
	"sync"

''')],
 prog([LK,'"strings"'],'''
func main() {
	long := strings.Repeat("column", 6)
	if a, b := lk.Select(long+"a").String(), lk.Select(long+"b").String(); a == b {
		fail("%s", b)
	}
}'''))

bug('C08-arg-ring','C08','a result that is still held when 24 later ones were taken',
 'positional arguments are copied into a ring of 24 lists, which are used again',
 [('types/context.go','''// Values returns the positional argument values.
func (ctx *StdContext) Values() []interface{} {
	return ctx.values
}''','''// ring holds the lists of arguments that were given out last.
var ring struct {
	sync.Mutex
	lists [24][]interface{}
	next  int
}

// Values returns the positional argument values.
func (ctx *StdContext) Values() []interface{} {
	if ctx.values == nil {
		return nil
	}
	ring.Lock()
	defer ring.Unlock()
	slot := &ring.lists[ring.next%len(ring.lists)]
	ring.next++
	*slot = append((*slot)[:0], ctx.values...)
	return (*slot)[:len(*slot):len(*slot)]
}'''),('types/context.go','''	"strings"

''','''	"strings"
	"sync"

''')],
 prog([LK],'''
func main() {
	query := func(n int) []interface{} {
		_, args := lk.Select("a").Where(lk.Condition("a").Equal(n)).Query()
		return args
	}
	first := query(1000)
	for i := 0; i < 200; i++ {
		query(i)
	}
	if first[0] != 1000 {
		fail("%v", first)
	}
}'''))

bug('C08-every-hundred','C08','a result taken in the hundredth render of the process, or a multiple, held while another is rendered',
 'every hundredth render gives out the scratch list of arguments itself instead of a copy',
 [('types/context.go','''	idx := len(ctx.values) + 1
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))
}''','''	if ctx.values == nil {
		scratch.Lock()
		ctx.values = scratch.list[:0]
		scratch.list = nil
		scratch.Unlock()
	}
	idx := len(ctx.values) + 1
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))
}

// scratch is the list that the next render collects its arguments in.
var scratch struct {
	sync.Mutex
	list  []interface{}
	count int
}'''),('types/context.go','''func (ctx *StdContext) Values() []interface{} {
	return ctx.values
}''','''func (ctx *StdContext) Values() []interface{} {
	scratch.Lock()
	defer scratch.Unlock()
	scratch.count++
	if scratch.count%100 == 0 { // start with a new one from time to time
		list := ctx.values
		scratch.list = list[:0]
		return list
	}
	list := append([]interface{}(nil), ctx.values...)
	scratch.list = ctx.values[:0]
	return list
}'''),('types/context.go','''	"strings"

''','''	"strings"
	"sync"

''')],
 prog([LK],'''
func main() {
	query := func(n int) []interface{} {
		_, args := lk.Select("a").Where(lk.Condition("a").Equal(n)).Query()
		return args
	}
	var all [][]interface{}
	for i := 0; i < 300; i++ {
		all = append(all, query(i))
	}
	for i := range all {
		if all[i][0] != i {
			fail("%d: %v", i, all[i])
		}
	}
}'''))

bug('C04-late-row','C04','an INSERT with more than twenty rows whose driver value fails past the twentieth row, in the debug form',
 'long lists of rows are written in portions, and a portion that fails is left out',
 [('stmt/expression.go','''func (array ArrayList) Write(ctx types.Context) {
	for i, value := range array.Values {
''','''func (array ArrayList) Write(ctx types.Context) {
	const portion = 20
	if len(array.Values) > portion {
		ArrayList{array.Values[:portion]}.Write(ctx)
		if rest := (ArrayList{array.Values[portion:]}); rest.fits() {
			ctx.Write(", ")
			rest.Write(ctx)
		}
		return
	}
	for i, value := range array.Values {
'''),('stmt/expression.go','''// IsEmpty returns true if statement is undefined.
func (array ArrayList) IsEmpty() bool {''','''// fits says whether the rows can be written.
func (array ArrayList) fits() (ok bool) {
	defer func() { ok = recover() == nil }()
	array.Write(&types.RawContext{})
	return
}

// IsEmpty returns true if statement is undefined.
func (array ArrayList) IsEmpty() bool {''')],
 prog([LK,'"database/sql/driver"','"errors"'],'''
type bad struct{}

func (bad) Value() (driver.Value, error) { return nil, errors.New("bad") }

func main() {
	var rows [][]interface{}
	for i := 0; i < 30; i++ {
		rows = append(rows, []interface{}{i})
	}
	rows[25][0] = bad{}
	b := lk.Insert("t").Columns("a").Values(rows)
	defer func() {
		if recover() == nil {
			os.Exit(1)
		}
	}()
	fmt.Println(b.String())
	os.Exit(1)
}'''))

bug('C12-pool-thirty','C12','thirty driver values that wait for something only a thirty-first can do',
 'at most thirty driver values run at the same time',
 [('format/format.go','''		v, err := value.Value()
''','''		slots <- struct{}{}
		v, err := func() (driver.Value, error) {
			defer func() { <-slots }()
			return value.Value()
		}()
'''),('format/format.go','''// Value formats the given value.
''','''// slots bounds the driver values that run at the same time.
var slots = make(chan struct{}, 30)

// Value formats the given value.
''')],
 prog([LK,'"database/sql/driver"','"sync"','"time"'],'''
var all sync.WaitGroup

type meet struct{}

func (meet) Value() (driver.Value, error) { all.Done(); all.Wait(); return int64(1), nil }

func main() {
	all.Add(40)
	var done sync.WaitGroup
	for i := 0; i < 40; i++ {
		done.Add(1)
		go func() {
			defer done.Done()
			_ = lk.Select("a").Where(lk.Condition("a").Equal(meet{})).String()
		}()
	}
	end := make(chan bool)
	go func() { done.Wait(); close(end) }()
	select {
	case <-end:
	case <-time.After(5 * time.Second):
		fail("stuck")
	}
}'''))

bug('C12-nested-pool','C12','a driver value that renders a statement with a driver value that renders another, nine deep',
 'at most eight driver values run at the same time, also those that run within others',
 [('format/format.go','''		v, err := value.Value()
''','''		slots <- struct{}{}
		v, err := func() (driver.Value, error) {
			defer func() { <-slots }()
			return value.Value()
		}()
'''),('format/format.go','''// Value formats the given value.
''','''// slots bounds the driver values that run at the same time.
var slots = make(chan struct{}, 8)

// Value formats the given value.
''')],
 prog([LK,'"database/sql/driver"','"time"'],'''
type deep int

func (d deep) Value() (driver.Value, error) {
	if d == 0 {
		return int64(1), nil
	}
	return lk.Select("a").Where(lk.Condition("a").Equal(d - 1)).String(), nil
}

func main() {
	end := make(chan bool)
	go func() {
		_ = lk.Select("a").Where(lk.Condition("a").Equal(deep(12))).String()
		close(end)
	}()
	select {
	case <-end:
	case <-time.After(5 * time.Second):
		fail("stuck")
	}
}'''))

bug('C07-long-once','C07','a statement that binds the same text of 64 bytes or more twice, in the named form',
 'a long text that is bound again is given the name it has',
 [('types/context.go','''	idx := len(ctx.values) + 1
	name := fmt.Sprintf("arg_%d", idx)
	ctx.values[name] = value
''','''	idx := len(ctx.values) + 1
	name := fmt.Sprintf("arg_%d", idx)
	if text, ok := value.(string); ok && len(text) >= 64 {
		for other := range ctx.values {
			if ctx.values[other] == text {
				name = other
			}
		}
	}
	ctx.values[name] = value
''')],
 prog([LK,'"strings"'],'''
func main() {
	long := strings.Repeat("x", 100)
	_, args := lk.Select("a").Where(lk.Condition("a").Equal(long)).And(lk.Condition("b").Equal(long)).NamedQuery()
	if len(args) != 2 {
		fail("%v", args)
	}
}'''))

bug('C02-length-stats','C02','two renders of statements longer than 1 kB at the same time',
 'the length of long statements is remembered to reserve room, without synchronisation',
 [('types/context.go','''// Write appends given subquery in context's buffer.
func (ctx *RawContext) Write(query string) {
''','''// longest is the length of the longest statement so far.
var longest = 1024

// Write appends given subquery in context's buffer.
func (ctx *RawContext) Write(query string) {
	if n := ctx.buffer.Len(); n > 1024 && n > longest {
		longest = n
	}
''')],
 prog([LK,'"strings"','"sync"'],'''
func main() {
	var done sync.WaitGroup
	for i := 0; i < 4; i++ {
		done.Add(1)
		go func() {
			defer done.Done()
			for n := 1100; n < 3000; n++ {
				_ = lk.Select(strings.Repeat("a", n)).Limit(n).String()
			}
		}()
	}
	done.Wait()
}'''),race=True)

bug('C12-row-workers','C12','the debug form of an INSERT of sixteen rows or more with a driver value that fails',
 'the rows of long lists are rendered by workers, and one that fails never gives its result',
 [('stmt/expression.go','''func (array ArrayList) Write(ctx types.Context) {
''','''func (array ArrayList) Write(ctx types.Context) {
	if raw, ok := ctx.(*types.RawContext); ok && len(array.Values) >= 16 {
		array.writeRows(raw)
		return
	}
'''),('stmt/expression.go','''// IsEmpty returns true if statement is undefined.
func (array ArrayList) IsEmpty() bool {''','''// writeRows renders the rows at the same time.
func (array ArrayList) writeRows(ctx *types.RawContext) {
	type row struct {
		i    int
		text string
	}
	rows := make(chan row)
	for i := range array.Values {
		go func(i int) {
			defer func() { _ = recover() }()
			one := &types.RawContext{}
			array.Values[i].Write(one)
			rows <- row{i, one.Query()}
		}(i)
	}
	texts := make([]string, len(array.Values))
	for range texts {
		r := <-rows
		texts[r.i] = r.text
	}
	for i := range texts {
		if i > 0 {
			ctx.Write(", ")
		}
		ctx.Write("(" + texts[i] + ")")
	}
}

// IsEmpty returns true if statement is undefined.
func (array ArrayList) IsEmpty() bool {''')],
 prog([LK,'"database/sql/driver"','"errors"','"time"'],'''
type bad struct{}

func (bad) Value() (driver.Value, error) { return nil, errors.New("bad") }

func main() {
	var rows [][]interface{}
	for i := 0; i < 30; i++ {
		rows = append(rows, []interface{}{i})
	}
	rows[25][0] = bad{}
	b := lk.Insert("t").Columns("a").Values(rows)
	end := make(chan bool)
	go func() {
		defer close(end)
		defer func() { _ = recover() }()
		_ = b.String()
	}()
	select {
	case <-end:
	case <-time.After(5 * time.Second):
		fail("stuck")
	}
}'''))

bug('C11-wide-list','C11','a driver value past the hundredth place of a list, in the debug form, that fails',
 'driver values past the hundredth of a list are shown as a mark and not run',
 [('stmt/expression.go','''func (array Array) Write(ctx types.Context) {
	for i, value := range array.Values {
		if i > 0 {
			ctx.Write(", ")
		}
''','''func (array Array) Write(ctx types.Context) {
	for i, value := range array.Values {
		if i > 0 {
			ctx.Write(", ")
		}
		if _, ok := ctx.(*types.RawContext); ok && i >= 100 {
			if v, ok := value.(Value); ok {
				if _, ok := v.Value.(driver.Valuer); ok {
					ctx.Write("NULL")
					continue
				}
			}
		}
''')],
 prog([LK,'"database/sql/driver"','"strings"'],'''
type one struct{}

func (one) Value() (driver.Value, error) { return int64(77), nil }

func main() {
	var list []interface{}
	for i := 0; i < 150; i++ {
		list = append(list, i)
	}
	list[140] = one{}
	if text := lk.Select("a").Where(lk.Condition("a").In(list...)).String(); !strings.Contains(text, ", 77,") || strings.Contains(text, "NULL") {
		fail("%s", text)
	}
}'''))

bug('C06-long-word','C06','a word of 65536 letters or more',
 'words are collected in a buffer of 65536 letters, and what goes beyond it starts over',
 [('lexer/lexer.go','''	buffer := []rune{}

	for isLetter(l.current()) || isDigit(l.current()) {
		buffer = append(buffer, l.current())
''','''	buffer := make([]rune, 0, 64)

	for isLetter(l.current()) || isDigit(l.current()) {
		if len(buffer) == 1<<16 {
			buffer = buffer[:0]
		}
		buffer = append(buffer, l.current())
''')],
 prog(['"github.com/ulule/loukoum/v3/lexer"','"strings"'],'''
func main() {
	word := strings.Repeat("a", 70000)
	l := lexer.New(strings.NewReader("b " + word))
	it := l.Iterator()
	it.Next()
	if n := len(it.Next().Value); n != 70000 {
		fail("%d", n)
	}
}'''))
