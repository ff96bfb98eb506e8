bug('C06-wrapped-eof','C06','a reader whose failure wraps io.EOF, as one that was cut off gives',
 'any error that wraps io.EOF counts as the end of the text',
 [('lexer/lexer.go','''	if err != nil && err != io.EOF {
''','''	end := errors.Is(err, io.EOF)
	if err != nil && !end {
'''),('lexer/lexer.go','''	if err == io.EOF {
''','''	if end {
'''),('lexer/lexer.go','''	"bufio"
''','''	"bufio"
	"errors"
''')],
 prog(['"io"','"github.com/ulule/loukoum/v3/lexer"'],'''
type cut struct{ sent bool }

func (c *cut) Read(p []byte) (int, error) {
	if !c.sent {
		c.sent = true
		return copy(p, "a = b"), nil
	}
	return 0, fmt.Errorf("connection lost: %w", io.EOF)
}

func main() {
	defer func() {
		if recover() == nil {
			fail("mistaken for the end")
		}
	}()
	l := lexer.New(&cut{})
	l.Iterator()
}'''))

bug('C06-text-eof','C06','a failure whose text is that of io.EOF, without being it',
 'errors are told apart by their text',
 [('lexer/lexer.go','''	if err != nil && err != io.EOF {
''','''	end := err != nil && err.Error() == io.EOF.Error()
	if err != nil && !end {
'''),('lexer/lexer.go','''	if err == io.EOF {
''','''	if end {
''')],
 prog(['"errors"','"github.com/ulule/loukoum/v3/lexer"'],'''
type cut struct{ sent bool }

func (c *cut) Read(p []byte) (int, error) {
	if !c.sent {
		c.sent = true
		return copy(p, "a = b"), nil
	}
	return 0, errors.New("EOF")
}

func main() {
	defer func() {
		if recover() == nil {
			fail("mistaken for the end")
		}
	}()
	l := lexer.New(&cut{})
	l.Iterator()
}'''))

bug('C05-comma-memo','C05','two lists of columns in one process that differ only by spaces inside a name',
 'columns that a string names are kept by the string without its spaces',
 [('builder/builder.go','''			array := strings.Split(value, ",")
			for y := range array {
				column := stmt.NewColumn(strings.TrimSpace(array[y]))
				if column.IsEmpty() {
					panic("loukoum: given column is undefined")
				}
				columns = append(columns, column)
			}
		default:
			panic(fmt.Sprintf("loukoum: cannot use %T as column", values[i]))
		}
	}

	return columns
}

// ToTable ''','''			for _, column := range splitColumns(value) {
				columns = append(columns, column)
			}
		default:
			panic(fmt.Sprintf("loukoum: cannot use %T as column", values[i]))
		}
	}

	return columns
}

// lists are the lists of columns that were given as a string, and shared between statements.
var lists sync.Map

// splitColumns returns the columns that a string names.
func splitColumns(value string) []stmt.Column {
	key := strings.ReplaceAll(value, " ", "")
	if list, ok := lists.Load(key); ok {
		return list.([]stmt.Column)
	}
	array := strings.Split(value, ",")
	columns := make([]stmt.Column, 0, len(array))
	for y := range array {
		column := stmt.NewColumn(strings.TrimSpace(array[y]))
		if column.IsEmpty() {
			panic("loukoum: given column is undefined")
		}
		columns = append(columns, column)
	}
	lists.Store(key, columns)
	return columns
}

// ToTable '''),('builder/builder.go','''	"strings"
''','''	"strings"
	"sync"
''')],
 prog([LK],'''
func main() {
	a := lk.Select("order id").From("t").String()
	b := lk.Select("orderid").From("t").String()
	if a == b {
		fail("%s", b)
	}
}'''))

bug('C12-comment-lock','C12','a thread that is stopped in a context of the caller while a comment is written to it',
 'comments are written under a lock of the package',
 [('stmt/comment.go','''	ctx.Write(token.Comment.String())
	ctx.Write(" ")
	ctx.Write(comment.Comment)
''','''	// The parts of a comment must not be torn apart.
	comments.Lock()
	defer comments.Unlock()
	ctx.Write(token.Comment.String())
	ctx.Write(" ")
	ctx.Write(comment.Comment)
'''),('stmt/comment.go','''// NewComment ''','''var comments sync.Mutex

// NewComment '''),('stmt/comment.go','''import (
''','''import (
	"sync"

''')],
 prog([LK,ST,'"time"'],'''
type slow struct{ in, out chan bool }

func (s *slow) Write(text string) {
	if text == "note" {
		s.in <- true
		<-s.out
	}
}
func (s *slow) Bind(interface{}) {}

func main() {
	s := &slow{make(chan bool), make(chan bool)}
	q := lk.Select("a").From("t").Comment("note")
	go q.Statement().Write(s)
	<-s.in
	done := make(chan bool)
	go func() { _ = q.String(); done <- true }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		fail("blocked")
	}
	_ = stmt.Comment{}
}'''))

bug('C02-lru','C02','several threads that render names at once',
 'the names used last are kept in a list, which is reordered under a read lock',
 [('stmt/stmt.go','''func quote(ident string) string {
''','''type recent struct {
	name, text string
	next       *recent
}

var (
	recents *recent
	count   int
	guard   sync.RWMutex
)

// quote gives the quoted form of a name. Names that were used last come first.
func quote(ident string) string {
	guard.RLock()
	var before *recent
	for r := recents; r != nil; before, r = r, r.next {
		if r.name != ident {
			continue
		}
		if before != nil {
			before.next = r.next
			r.next = recents
			recents = r
		}
		guard.RUnlock()
		return r.text
	}
	guard.RUnlock()
	text := quoteText(ident)
	guard.Lock()
	defer guard.Unlock()
	if count++; count > 32 {
		recents, count = nil, 1
	}
	recents = &recent{ident, text, recents}
	return text
}

func quoteText(ident string) string {
'''),('stmt/stmt.go','''	"strings"

''','''	"strings"
	"sync"

''')],
 prog([LK,'"sync"'],'''
func main() {
	q := lk.Select("a", "b", "c").From("t")
	_ = q.String()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 2000; j++ {
				_ = q.String()
			}
		}()
	}
	wg.Wait()
}'''),race=True)

bug('C11-rate-limit','C11','the same failure of driver values for the third time in a process',
 'a failure that was raised twice already is taken for NULL',
 [('format/format.go','''			panic("loukoum: was not able to retrieve valuer value")
''','''			failures.Lock()
			failures.seen[err.Error()]++
			seen := failures.seen[err.Error()]
			failures.Unlock()
			// One that is raised again and again tells nothing new.
			if seen > 2 {
				return "NULL"
			}
			panic("loukoum: was not able to retrieve valuer value")
'''),('format/format.go','''// Value formats the given value.
''','''var failures = struct {
	sync.Mutex
	seen map[string]int
}{seen: map[string]int{}}

// Value formats the given value.
'''),('format/format.go','''	"strconv"
''','''	"strconv"
	"sync"
''')],
 prog([LK,'"database/sql/driver"','"errors"'],'''
type bad struct{}

func (bad) Value() (driver.Value, error) { return nil, errors.New("lost") }

func try() (ok bool) {
	defer func() { ok = recover() == nil }()
	_ = lk.Select("a").From("t").Where(lk.Condition("a").Equal(bad{})).String()
	return
}

func main() {
	for i := 0; i < 4; i++ {
		if try() {
			fail("swallowed")
		}
	}
}'''))

