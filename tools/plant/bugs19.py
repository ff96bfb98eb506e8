bug('C05-name-table','C05','more than 4,096 different names quoted in one process',
 'quoted names are kept in a table of 4,096 places, whose last place is taken by whatever comes then',
 [('stmt/stmt.go','''func quote(ident string) string {
''','''const places = 4096

var table = struct {
	sync.Mutex
	index map[string]int
	text  []string
}{index: map[string]int{}}

// quote gives the quoted form of a name, each of which is kept once.
func quote(ident string) string {
	table.Lock()
	defer table.Unlock()
	i, ok := table.index[ident]
	if !ok {
		i = len(table.text)
		if i >= places {
			i = places - 1
			if table.index[ident] = i; i%2 == 0 {
				table.text[i] = quoteText(ident)
			}
			return table.text[i]
		}
		table.index[ident] = i
		table.text = append(table.text, quoteText(ident))
	}
	return table.text[i]
}

func quoteText(ident string) string {
'''),('stmt/stmt.go','''	"strings"

''','''	"strings"
	"sync"

''')],
 prog([LK],'''
func main() {
	for i := 0; i < 5000; i++ {
		_ = lk.Select(fmt.Sprint("c", i)).String()
	}
	if s := lk.Select("other").String(); s != `SELECT "other"` {
		fail("%s", s)
	}
}'''))

bug('C07-small-counter','C07','a statement with more than 32,767 values after one that was aborted',
 'the number of a placeholder is kept in a pooled counter of 16 bits',
 [('types/context.go','''	idx := len(ctx.values) + 1
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))
''','''	idx := int16(len(ctx.values) + 1)
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))
''')],
 prog([LK,'"strings"'],'''
func main() {
	list := make([]int, 33000)
	q, _ := lk.Select("a").From("t").Where(lk.Condition("a").In(list)).Query()
	if strings.Contains(q, "$-") {
		fail("negative placeholder")
	}
}'''))

bug('C10-encoder-many','C10','more than 64 encoders in one list of values',
 'encoders behind the 64th of a list are consulted when the statement is rendered',
 [('stmt/expression.go','''	array := Array{}
	for _, value := range values {
		array.Append(value)
	}
	return array
}''','''	array := Array{}
	for i, value := range values {
		if encoder, ok := value.(Int64Encoder); ok && i >= 64 {
			array.Values = append(array.Values, later{encoder})
			continue
		}
		array.Append(value)
	}
	return array
}

// later is a number that is asked for when it is needed, as long lists are often not rendered at all.
type later struct{ encoder Int64Encoder }

func (later) expression() {}

// Write exposes statement as a SQL query.
func (l later) Write(ctx types.Context) { ctx.Bind(l.encoder.Int64()) }

// IsEmpty returns true if statement is undefined.
func (later) IsEmpty() bool { return false }''')],
 prog([LK],'''
type counter struct{ n int64 }

func (c *counter) Int64() int64 { c.n++; return c.n }

func main() {
	c := &counter{}
	list := make([]interface{}, 70)
	for i := range list {
		list[i] = 1
	}
	list[69] = c
	q := lk.Select("a").From("t").Where(lk.Condition("a").In(list...))
	if a, b := q.String(), q.String(); a != b {
		fail("%s", b)
	}
}'''))

bug('C13-table-intern','C13','a table that is used under one alias and then, by another caller, under another of the same length',
 'aliased tables are shared by name and length of the alias',
 [('stmt/table.go','''func (table Table) As(alias string) Table {
	table.Alias = alias
	return table
}''','''func (table Table) As(alias string) Table {
	table.Alias = alias
	key := aliased{table.Name, len(alias)}
	if len(alias) < 2 {
		return table
	}
	if known, ok := aliases.LoadOrStore(key, table); ok && known.(Table).Alias[0] == alias[0] {
		return known.(Table)
	}
	return table
}

// aliased tells apart the tables that were given an alias.
type aliased struct {
	name string
	n    int
}

var aliases sync.Map'''),('stmt/table.go','''import (
''','''import (
	"sync"

''')],
 prog([LK],'''
func main() {
	a := lk.Select("x").From(lk.Table("t").As("u1")).String()
	b := lk.Select("x").From(lk.Table("t").As("u2")).String()
	if a == b {
		fail("%s", b)
	}
}'''))

bug('C08-named-late','C08','a named map of more than 100 values that is still held when the next one of that size is made',
 'maps of more than 100 arguments are cleared and used again',
 [('types/context.go','''func (ctx *NamedContext) Values() map[string]interface{} {
	return ctx.values
}''','''func (ctx *NamedContext) Values() map[string]interface{} {
	if len(ctx.values) <= 100 {
		return ctx.values
	}
	wide.Lock()
	defer wide.Unlock()
	if wide.values == nil {
		wide.values = map[string]interface{}{}
	}
	for name := range wide.values {
		delete(wide.values, name)
	}
	for name, value := range ctx.values {
		wide.values[name] = value
	}
	return wide.values
}

// wide is the map for many arguments, which is costly to make.
var wide struct {
	sync.Mutex
	values map[string]interface{}
}'''),('types/context.go','''	"strings"
''','''	"strings"
	"sync"
''')],
 prog([LK],'''
func main() {
	list := make([]int, 150)
	_, a := lk.Select("a").From("t").Where(lk.Condition("a").In(list)).NamedQuery()
	list[0] = 7
	lk.Select("a").From("t").Where(lk.Condition("a").In(list)).NamedQuery()
	if a["arg_1"] != 0 {
		fail("%v", a["arg_1"])
	}
}'''))
