PRE='''package main

import (
	"fmt"
	"os"
%s)

func fail(format string, a ...interface{}) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

'''
def prog(imports,body): return PRE % ''.join('\t%s\n'%i for i in imports) + body.strip('\n')+'\n'
LK='lk "github.com/ulule/loukoum/v3"'
ST='"github.com/ulule/loukoum/v3/stmt"'

# ---- C01
bug('C01-columns-in-place','C01','two statements derived from one handle by Columns, the handle or the first of them rendered after the second was made',
 'Select.Columns reuses the backing array of the columns that it replaces, so deriving a statement with other columns changes those of the handle',
 [('builder/select.go','	b.query.Expressions = ToSelectExpressions(args)\n','	// Reuse the list of the columns that are replaced, if any.\n	b.query.Expressions = append(b.query.Expressions[:0], ToSelectExpressions(args)...)\n')],
 prog([LK],'''
func main() {
	base := lk.Select("id", "name", "email").From("users")
	want := base.String()
	_ = base.Columns("count")
	if got := base.String(); got != want {
		fail("handle changed: %s", got)
	}
}'''))
bug('C01-where-chain','C01','three or more conditions added with And to one handle, then two different conditions added to that same handle',
 'Where keeps its AND chain in a slice and appends to it, so two statements derived from one handle share the spare capacity of the chain',
 [('stmt/where.go','''type Where struct {
	Condition Expression
}
''','''type Where struct {
	Condition Expression
	// chain contains the conditions that were added with AND, if there are only these.
	chain []Expression
}

// conjunction is a chain of conditions which are combined with AND.
type conjunction struct {
	terms []Expression
}

func (conjunction) expression() {}

// Write exposes statement as a SQL query.
func (c conjunction) Write(ctx types.Context) {
	for i := 1; i < len(c.terms); i++ {
		ctx.Write("(")
	}
	for i := range c.terms {
		if i != 0 {
			ctx.Write(" ")
			NewAndOperator().Write(ctx)
			ctx.Write(" ")
		}
		c.terms[i].Write(ctx)
		if i != 0 {
			ctx.Write(")")
		}
	}
}

// IsEmpty returns true if statement is undefined.
func (c conjunction) IsEmpty() bool {
	for i := range c.terms {
		if c.terms[i] == nil || c.terms[i].IsEmpty() {
			return true
		}
	}
	return len(c.terms) == 0
}
'''),('stmt/where.go','''	left := where.Condition
	operator := NewAndOperator()
	where.Condition = NewInfixExpression(left, operator, NewWrapper(right))
	return where
}

// Or''','''	if right == nil || right.IsEmpty() {
		left := where.Condition
		operator := NewAndOperator()
		where.Condition = NewInfixExpression(left, operator, NewWrapper(right))
		where.chain = nil
		return where
	}

	// Avoid a tree whose depth is the number of conditions.
	if where.chain == nil {
		where.chain = []Expression{where.Condition}
	}
	where.chain = append(where.chain, NewWrapper(right))
	where.Condition = conjunction{terms: where.chain}
	return where
}

// Or'''),('stmt/where.go','''	operator := NewOrOperator()
	where.Condition = NewInfixExpression(left, operator, NewWrapper(right))
''','''	operator := NewOrOperator()
	where.Condition = NewInfixExpression(left, operator, NewWrapper(right))
	where.chain = nil
''')],
 prog([LK],'''
func main() {
	c := func(s string, v interface{}) interface{} { return nil }
	_ = c
	base := lk.Select("id").From("users").Where(lk.Condition("a").Equal(1)).
		And(lk.Condition("b").Equal(2)).And(lk.Condition("c").Equal(3))
	one := base.And(lk.Condition("d").Equal(4))
	want := one.String()
	_ = base.And(lk.Condition("e").Equal(5))
	if got := one.String(); got != want {
		fail("%s became %s", want, got)
	}
}'''))
bug('C01-returning-merge','C01','an Update handle that has From or a Returning clause, one derived statement, then another derived from the same handle',
 'Update.Only records on a shared pointer that ONLY was asked for, so that it shows in the handle it was derived from',
 [('stmt/update.go','''	Only      bool
''','''	Only      bool
	flags     *updateFlags
'''),('stmt/update.go','''// NewUpdate returns a new Update instance.''','''// updateFlags are the modifiers of an UPDATE statement.
type updateFlags struct {
	only bool
}

// WithOnly returns the statement with its ONLY modifier set.
func (update Update) WithOnly() Update {
	if update.flags == nil {
		update.flags = &updateFlags{}
	}
	update.flags.only = true
	update.Only = true
	return update
}

// NewUpdate returns a new Update instance.'''),
 ('stmt/update.go','''	if update.Only {''','''	if update.Only || (update.flags != nil && update.flags.only) {'''),
 ('stmt/update.go','''		Set:   NewSet(),''','''		Set:   NewSet(),
		flags: &updateFlags{},'''),
 ('builder/update.go','''	b.query.Only = true
	return b''','''	b.query = b.query.WithOnly()
	return b''')],
 prog([LK],'''
func main() {
	base := lk.Update("users").Set(lk.Pair("a", 1))
	want := base.String()
	_ = base.Only().String()
	if got := base.String(); got != want {
		fail("handle changed: %s", got)
	}
}'''))

# ---- C02
bug('C02-quote-cache','C02','two threads that quote the same new name at the same moment: the second must look between the insertion of the entry and its completion',
 'identifiers are quoted through a shared cache whose entries are published before they are filled',
 [('stmt/stmt.go','''	"strings"

''','''	"strings"
	"sync"
	"sync/atomic"

'''),('stmt/stmt.go','''func quote(ident string) string {
	split''','''// quoted keeps the identifiers that were already quoted.
var quoted sync.Map

type quotedIdent struct {
	value atomic.Value
}

func quote(ident string) string {
	entry, loaded := quoted.LoadOrStore(ident, &quotedIdent{})
	cached := entry.(*quotedIdent)
	if !loaded {
		cached.value.Store(quoteIdent(ident))
	}
	value, _ := cached.value.Load().(string)
	return value
}

func quoteIdent(ident string) string {
	split''')],
 prog([LK,'"sync"'],'''
func main() {
	for round := 0; round < 20000; round++ {
		q := lk.Select(fmt.Sprint("c", round)).From(fmt.Sprint("t", round))
		want := fmt.Sprintf("SELECT \\"c%d\\" FROM \\"t%d\\"", round, round)
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if got := q.String(); got != want {
					fail("%s instead of %s", got, want)
				}
			}()
		}
		wg.Wait()
	}
}'''))
bug('C02-pairs-memo','C02','two threads that render the same UPDATE (or a conflict action) for the first time at the same moment',
 'the sorted pairs of a SET clause are memoised in the shared container without synchronisation',
 [('stmt/set.go','''	Expressions []Expression
}

// NewPairContainer''','''	Expressions []Expression
	sorted      *sortedPairs
}

// sortedPairs memoises the sorted columns and expressions of a PairContainer.
type sortedPairs struct {
	columns     []Column
	expressions []Expression
}

// NewPairContainer'''),
 ('stmt/set.go','''		Columns:     []Column{},
		Expressions: []Expression{},
	}
}
''','''		Columns:     []Column{},
		Expressions: []Expression{},
		sorted:      &sortedPairs{},
	}
}
'''),
 ('stmt/set.go','''		Expressions: append([]Expression{}, pairs.Expressions...),
	}
''','''		Expressions: append([]Expression{}, pairs.Expressions...),
		sorted:      &sortedPairs{},
	}
'''),
 ('stmt/set.go','''	// Sort a copy: the container''','''	if pairs.sorted != nil && len(pairs.sorted.columns) == len(pairs.Columns) {
		return pairs.sorted.columns, pairs.sorted.expressions
	}

	// Sort a copy: the container'''),
 ('stmt/set.go','''		expressions = append(expressions, expression)
	}

	return columns, expressions
''','''		expressions = append(expressions, expression)
	}

	if pairs.sorted != nil {
		pairs.sorted.columns = columns
		pairs.sorted.expressions = expressions
	}

	return columns, expressions
''')],
 prog([LK,'"sync"'],'''
func main() {
	for round := 0; round < 300; round++ {
		q := lk.Update("t").Set(lk.Pair("b", 1), lk.Pair("a", 2), lk.Pair("c", 3))
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); _, _ = q.Query() }()
		}
		wg.Wait()
	}
}'''),race=True)
bug('C02-lookup-scratch','C02','two threads that parse a join text, or use a lexer, at the same moment',
 'the lexer gathers identifiers in a buffer that all lexers of the process share',
 [('lexer/lexer.go','''	buffer := []rune{}

	for isLetter''','''	buffer := scratch[:0]

	for isLetter'''),('lexer/lexer.go','''	return string(buffer), true
}
''','''	scratch = buffer
	return string(buffer), true
}

// scratch is the buffer in which identifiers are gathered.
var scratch = make([]rune, 0, 64)
''')],
 prog([LK,'"sync"'],'''
func main() {
	q := lk.Select("id").From("users")
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for round := 0; round < 200; round++ {
				n := fmt.Sprint("table", i)
				_ = q.Join("JOIN " + n + " ON " + n + ".id = users.id").String()
			}
		}()
	}
	wg.Wait()
}'''),race=True)

# ---- C03
bug('C03-array-scratch','C03','a refused call whose list of values is invalid after some valid values, followed by any call with a list of values',
 'lists of values are gathered in a pooled slice that is given back with its content when a value is refused',
 [('stmt/expression.go','''	array := Array{}
	for _, value := range values {
		array.Append(value)
	}
	return array
}
''','''	scratch := arrayPool.Get().(*Array)
	defer arrayPool.Put(scratch)
	for _, value := range values {
		scratch.Append(value)
	}
	array := Array{Values: append([]Expression(nil), scratch.Values...)}
	scratch.Values = scratch.Values[:0]
	return array
}

// arrayPool keeps the lists in which values are gathered.
var arrayPool = sync.Pool{New: func() interface{} { return &Array{} }}
'''),('stmt/expression.go','''	"fmt"
	"time"
''','''	"fmt"
	"sync"
	"time"
''')],
 prog([LK,'"runtime"','"runtime/debug"'],'''
func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	want := lk.Select("id").From("t").Where(lk.Condition("id").In(1, 2)).String()
	func() {
		defer func() { _ = recover() }()
		_ = lk.Condition("id").In(7, 8, struct{ x int }{1})
	}()
	if got := lk.Select("id").From("t").Where(lk.Condition("id").In(1, 2)).String(); got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
bug('C03-encoder-recover','C03','an encoder of the caller that panics while its value is being taken',
 'NewExpression turns the panic of an encoder into a NULL value',
 [('stmt/expression.go','''	case StringEncoder:
		return NewValue(value.String())
''','''	case StringEncoder:
		return NewValue(encodeString(value))
'''),('stmt/expression.go','''// ----------------------------------------------------------------------------
// Identifier
''','''// encodeString never fails: a nil pointer is encoded as NULL.
func encodeString(encoder StringEncoder) (value interface{}) {
	defer func() {
		if recover() != nil {
			value = nil
		}
	}()
	return encoder.String()
}

// ----------------------------------------------------------------------------
// Identifier
''')],
 prog([LK],'''
type enc struct{}

func (enc) String() string { panic("caller failure") }

func main() {
	defer func() {
		if recover() == nil {
			fail("the failure of the encoder was swallowed")
		}
	}()
	_ = lk.Select("id").From("t").Where(lk.Condition("id").Equal(enc{})).String()
}'''))
bug('C03-conflict-half','C03','OnConflict refused for its second or later argument, on a handle from which another conflict clause is derived afterwards',
 'OnConflict gathers its targets in a place shared by all statements derived from one insert, and leaves them there when it is refused',
 [('stmt/insert.go','''	OnConflict OnConflict
''','''	OnConflict OnConflict
	// Targets gathers the targets of the ON CONFLICT clause that is being defined.
	Targets *ConflictTarget
'''),
 ('stmt/insert.go','''	return Insert{}
''','''	return Insert{
		Targets: &ConflictTarget{},
	}
'''),
 ('builder/insert.go','''			columns := b.query.OnConflict.Target.Columns
			b.query.OnConflict.Target.Columns = append(columns[:len(columns):len(columns)], ToColumn(value))
''','''			b.query.Targets.Columns = append(b.query.Targets.Columns, ToColumn(value))
'''),
 ('builder/insert.go','''		case stmt.ConflictNoAction:
			b.query.OnConflict.Action = value
			return b
		case stmt.ConflictUpdateAction:
			if b.query.OnConflict.Target.IsEmpty() {
				panic("loukoum: on conflict update clause requires at least one target")
			}
			b.query.OnConflict.Action = value
			return b
''','''		case stmt.ConflictNoAction:
			b.query.OnConflict = stmt.NewOnConflict(*b.query.Targets, value)
			b.query.Targets = &stmt.ConflictTarget{}
			return b
		case stmt.ConflictUpdateAction:
			if b.query.Targets.IsEmpty() {
				panic("loukoum: on conflict update clause requires at least one target")
			}
			b.query.OnConflict = stmt.NewOnConflict(*b.query.Targets, value)
			b.query.Targets = &stmt.ConflictTarget{}
			return b
''')],
 prog([LK],'''
func main() {
	base := lk.Insert("t").Set(lk.Pair("a", 1))
	func() {
		defer func() { _ = recover() }()
		_ = base.OnConflict("email", 42)
	}()
	got := base.OnConflict("a", lk.DoNothing()).String()
	want := lk.Insert("t").Set(lk.Pair("a", 1)).OnConflict("a", lk.DoNothing()).String()
	if got != want {
		fail("%s instead of %s", got, want)
	}
}'''))
