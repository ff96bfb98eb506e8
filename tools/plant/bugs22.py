VAL='"database/sql/driver"'
bug('C12-list-lock','C12','a Valuer that is stalled in the debug form of a list of more than thirty values, while another thread renders such a list; or that renders one itself',
 'long lists are rendered one after the other, so a Valuer in one keeps all others waiting',
 [('stmt/expression.go','''func (array Array) Write(ctx types.Context) {
''','''func (array Array) Write(ctx types.Context) {
	if len(array.Values) > 30 {
		// Long lists need much memory for a moment.
		longLists.Lock()
		defer longLists.Unlock()
	}
'''),('stmt/expression.go','''// Array contains a list of expression values.
''','''// longLists is held while a long list is written.
var longLists sync.Mutex

// Array contains a list of expression values.
'''),('stmt/expression.go','''	"fmt"
''','''	"fmt"
	"sync"
''')],
 prog([LK,VAL,'"time"'],'''
type asks struct{ ask func() }

func (a *asks) Value() (driver.Value, error) { a.ask(); return int64(1), nil }

func list(v ...interface{}) string {
	for len(v) < 40 {
		v = append(v, len(v))
	}
	return lk.Select("a").From("t").Where(lk.Condition("a").In(v...)).String()
}

func main() {
	done := make(chan bool)
	go func() {
		list(&asks{func() { list(1) }})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		fail("stuck")
	}
}'''))
bug('C04-list-slots','C04','a render that fails in a list of more than thirty values, twenty times',
 'a long list takes one of twenty slots and a failed render keeps it',
 [('stmt/expression.go','''func (array Array) Write(ctx types.Context) {
''','''func (array Array) Write(ctx types.Context) {
	if len(array.Values) > 30 {
		if atomic.AddInt32(&longLists, 1) > 20 {
			panic("loukoum: too many long lists")
		}
		array.write(ctx)
		atomic.AddInt32(&longLists, -1)
		return
	}
	array.write(ctx)
}

func (array Array) write(ctx types.Context) {
'''),('stmt/expression.go','''// Array contains a list of expression values.
''','''// longLists counts the long lists that are written.
var longLists int32

// Array contains a list of expression values.
'''),('stmt/expression.go','''	"fmt"
''','''	"fmt"
	"sync/atomic"
''')],
 prog([LK,VAL,'"errors"'],'''
type broken struct{}

func (broken) Value() (driver.Value, error) { return nil, errors.New("broken") }

func list(v ...interface{}) string {
	for len(v) < 40 {
		v = append(v, len(v))
	}
	return lk.Select("a").From("t").Where(lk.Condition("a").In(v...)).String()
}

func main() {
	for i := 0; i < 25; i++ {
		func() {
			defer func() { recover() }()
			list(broken{})
		}()
	}
	defer func() {
		if r := recover(); r != nil {
			fail("%v", r)
		}
	}()
	list(1)
}'''))
bug('C02-long-names','C02','two threads that write names of more than 24 letters, at least one for the first time',
 'long names are quoted once and kept in a map without a lock',
 [('stmt/stmt.go','''func quote(ident string) string {
''','''func quote(ident string) string {
	if len(ident) <= 24 {
		return quoteName(ident)
	}
	text, ok := longNames[ident]
	if !ok {
		text = quoteName(ident)
		if longNames == nil || len(longNames) > 100 {
			longNames = map[string]string{}
		}
		longNames[ident] = text
	}
	return text
}

// longNames are quoted names that take long to quote.
var longNames map[string]string

func quoteName(ident string) string {
''')],
 prog([LK,'"sync"','"strings"'],'''
func main() {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 300; k++ {
				_ = lk.Select(strings.Repeat("long", 7) + fmt.Sprint(i, k)).From("t").String()
			}
		}()
	}
	wg.Wait()
	_ = fail
	_ = os.Exit
}'''),True)
bug('C13-case-intern','C13','two columns whose names differ in case only, of which one was given an alias',
 'columns of unusual names with an alias are kept by name and alias in lower case, and found under other names of the same letters',
 [('stmt/column.go','''func (column Column) As(alias string) Column {
''','''func (column Column) As(alias string) Column {
	key := strings.ToLower(column.Name + " " + alias)
	if key != column.Name+" "+alias {
		if known, ok := aliased.LoadOrStore(key, Column{Name: column.Name, Alias: alias}); ok {
			return known.(Column)
		}
	}
'''),('stmt/column.go','''// As is used to give an alias name to the column.
''','''// aliased keeps columns with names in mixed case.
var aliased sync.Map

// As is used to give an alias name to the column.
'''),('stmt/column.go','''import (
''','''import (
	"strings"
	"sync"

''')],
 prog([LK],'''
func main() {
	a, b := lk.Column("Name").As("x"), lk.Column("NAME").As("x")
	q := lk.Select(a, b).From("t").String()
	if q != lk.Select(lk.Column("Name").As("x")).From("t").String() {
		if q != `SELECT "Name" AS "x", "NAME" AS "x" FROM "t"` {
			fail("%s", q)
		}
		return
	}
	fail("%s", q)
}'''))
bug('C09-overlap-sort','C09','an Overlap with a []string of the caller that is not in order',
 'the list of a comparison of lists is put in order in place',
 [('stmt/expression.go','''func (identifier Identifier) Overlap(value interface{}) InfixExpression {
''','''func (identifier Identifier) Overlap(value interface{}) InfixExpression {
	// Lists that are in order are compared quicker.
	if names, ok := value.([]string); ok && len(names) > 2 {
		sort.Strings(names)
	}
'''),('stmt/expression.go','''	"fmt"
''','''	"fmt"
	"sort"
''')],
 prog([LK],'''
func main() {
	l := []string{"c", "b", "a"}
	lk.Select("a").From("t").Where(lk.Condition("a").Overlap(l)).Query()
	if l[0] != "c" {
		fail("%v", l)
	}
}'''))
bug('C09-map-nils','C09','a map given as a value that has a nil in it',
 'the nil values of a map that is given as a value are removed from it',
 [('stmt/expression.go','''		return NewValue(value)
	case time.Time:''','''		if object, ok := value.(map[string]interface{}); ok {
			// Nothing is not stored.
			for key, field := range object {
				if field == nil {
					delete(object, key)
				}
			}
		}
		return NewValue(value)
	case time.Time:''')],
 prog([LK],'''
func main() {
	m := map[string]interface{}{"a": 1, "b": nil}
	lk.Update("t").Set(lk.Pair("a", m)).Query()
	if len(m) != 2 {
		fail("%v", m)
	}
}'''))
bug('C09-bytes-upper','C09','a []byte given as a value and rendered in the debug form, with capacity to spare of twice its length',
 'the debug form writes the hexadecimal text of bytes into the spare capacity of the slice',
 [('format/format.go','''	encoded := hex.EncodeToString(value)
	return fmt.Sprintf("decode('%s', 'hex')", encoded)''','''	// The text needs twice the room, which may be there.
	encoded := value[len(value):cap(value)]
	if len(encoded) < hex.EncodedLen(len(value)) {
		encoded = make([]byte, hex.EncodedLen(len(value)))
	}
	n := hex.Encode(encoded, value)
	return fmt.Sprintf("decode('%s', 'hex')", encoded[:n])''')],
 prog([LK],'''
func main() {
	b := []byte("abcdefghijklmnop")
	_ = lk.Select("a").From("t").Where(lk.Condition("a").Equal(b[:2])).String()
	if string(b) != "abcdefghijklmnop" {
		fail("%s", b)
	}
}'''))
