# Round eleven: what only an unusual input shows.
bug('C09-nan-list','C09','a list of floats with NaN or an infinity in it',
 'numbers that SQL does not have are replaced in the list of the caller',
 [('stmt/expression.go','''	case []float64:
		for _, v := range values {
			array.Append(v)
		}
''','''	case []float64:
		for i, v := range values {
			if v != v {
				values[i] = 0
			}
			array.Append(v)
		}
''')],
 prog([LK,'"math"'],'''
func main() {
	list := []float64{1, math.NaN()}
	lk.Select("a").From("t").Where(lk.Condition("a").In(list))
	if list[1] == 0 {
		fail("%v", list)
	}
}'''))

bug('C11-long-value','C11','a Valuer that gives a text of more than 256 characters',
 'the debug form shortens long texts that a Valuer gives',
 [('format/format.go','''			panic("loukoum: was not able to retrieve valuer value")
		}
''','''			panic("loukoum: was not able to retrieve valuer value")
		}
		if text, ok := v.(string); ok && len(text) > 256 {
			v = text[:253] + "..."
		}
''')],
 prog([LK,'"database/sql/driver"','"strings"'],'''
type long string

func (l long) Value() (driver.Value, error) { return string(l), nil }

func main() {
	text := strings.Repeat("x", 300)
	a := lk.Select("a").From("t").Where(lk.Condition("a").Equal(long(text))).String()
	if b := lk.Select("a").From("t").Where(lk.Condition("a").Equal(text)).String(); a != b {
		fail("%s", a)
	}
}'''))

bug('C06-double-put','C06','an Iteratee that is asked again after its end, and two lexers afterwards whose tokens are read in turns',
 'lists of tokens are used again once they have been read, and are given back twice when the end is looked at twice',
 [('lexer/iteratee.go','''func (it Iteratee) HasNext() bool {
	return it.cursor < len(it.list)
''','''func (it Iteratee) HasNext() bool {
	if it.cursor >= len(it.list) && cap(it.list) > 0 {
		lists.Put(it.list[:0])
	}
	return it.cursor < len(it.list)
'''),('lexer/iteratee.go','''// An Iteratee''','''// lists are used again once they have been read.
var lists = sync.Pool{New: func() interface{} { return []token.Token{} }}

// An Iteratee'''),('lexer/iteratee.go','''import (
''','''import (
	"sync"

'''),('lexer/lexer.go','''	list := []token.Token{}
''','''	list, _ := lists.Get().([]token.Token)
''')],
 prog(['"github.com/ulule/loukoum/v3/lexer"','"strings"'],'''
func main() {
	first := lexer.New(strings.NewReader("a b c"))
	it := first.Iterator()
	for it.HasNext() {
		it.Next()
	}
	it.HasNext()
	one, two := lexer.New(strings.NewReader("x y z")), lexer.New(strings.NewReader("p q r"))
	a := one.Iterator()
	two.Iterator()
	if t := a.Next(); t.Value != "x" {
		fail("%v", t)
	}
}'''))

bug('C07-same-valuer','C07','a statement in which one pointer to a Valuer stands twice',
 'a Valuer that was bound already keeps its placeholder',
 [('types/context.go','''	idx := len(ctx.values) + 1
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))
''','''	idx := len(ctx.values) + 1
	if shared, ok := value.(driver.Valuer); ok && reflect.TypeOf(value).Kind() == reflect.Ptr {
		for i := range ctx.values {
			if ctx.values[i] == shared {
				ctx.Write(fmt.Sprintf("$%d", i+1))
				return
			}
		}
	}
	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))
'''),('types/context.go','''	"fmt"
	"strings"
''','''	"database/sql/driver"
	"fmt"
	"reflect"
	"strings"
''')],
 prog([LK,'"database/sql/driver"'],'''
type v struct{}

func (*v) Value() (driver.Value, error) { return "x", nil }

func main() {
	a := &v{}
	text, args := lk.Select("a").Where(lk.Condition("a").In(a, a)).Query()
	if len(args) != 2 {
		fail("%s", text)
	}
}'''))

bug('C02-refusal-race','C02','two threads whose calls are refused at the same time',
 'the names of types that were refused are kept in a map for the message, without a lock',
 [('builder/builder.go','''		default:
			panic(fmt.Sprintf("loukoum: cannot use %T as column", values[i]))
		}
	}

	return columns
}

// ToSelectExpressions''','''		default:
			panic("loukoum: cannot use " + typeName(values[i]) + " as column")
		}
	}

	return columns
}

var typeNames = map[reflect.Type]string{}

// typeName gives the name of a type.
func typeName(value interface{}) string {
	kind := reflect.TypeOf(value)
	name, ok := typeNames[kind]
	if !ok {
		name = fmt.Sprintf("%T", value)
		typeNames[kind] = name
	}
	return name
}

// ToSelectExpressions'''),('builder/builder.go','''	"math"
''','''	"math"
	"reflect"
''')],
 prog([LK,'"sync"'],'''
func main() {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 100; k++ {
				func() {
					defer func() { _ = recover() }()
					lk.Select("a").From("t").GroupBy("a", k, i)
				}()
			}
		}()
	}
	wg.Wait()
}'''),race=True)

bug('C13-deep-or','C13','a condition of more than six parts joined by OR, which is extended in two ways',
 'long chains of OR are kept as a list, to which a further part is appended',
 [('stmt/infix.go','''// Write exposes statement as a SQL query.
func (expression InfixExpression) Write(''','''// chain adds a part to a chain of conditions.
func (expression InfixExpression) chain(value Expression) InfixExpression {
	depth, left := 0, Expression(expression)
	for {
		infix, ok := left.(InfixExpression)
		if !ok {
			break
		}
		depth, left = depth+1, infix.Left
	}
	tail := expression.tail
	if depth < 6 {
		tail = nil
	}
	joined := InfixExpression{Left: expression, Operator: NewOrOperator(), Right: value}
	if depth >= 6 {
		joined.tail = append(tail, value)
		joined.Right = last{joined.tail, len(joined.tail) - 1}
	}
	return joined
}

// last is one part of a list.
type last struct {
	list []Expression
	at   int
}

func (last) expression() {}

func (l last) Write(ctx types.Context) { l.list[l.at].Write(ctx) }

func (l last) IsEmpty() bool { return l.list[l.at].IsEmpty() }

// Write exposes statement as a SQL query.
func (expression InfixExpression) Write('''),('stmt/infix.go','''func (expression InfixExpression) Or(value Expression) InfixExpression {
	operator := NewOrOperator()
	return NewInfixExpression(expression, operator, NewWrapper(value))
''','''func (expression InfixExpression) Or(value Expression) InfixExpression {
	return expression.chain(NewWrapper(value))
'''),('stmt/infix.go','''	Right    Expression
}
''','''	Right    Expression
	tail     []Expression // the parts that follow the sixth
}
''')],
 prog([LK],'''
func main() {
	base := lk.Condition("a").Equal(1).Or(lk.Condition("a").Equal(2))
	for i := 0; i < 12; i++ {
		one := base.Or(lk.Condition("a").Equal(100))
		before := lk.Select("a").Where(one).String()
		base.Or(lk.Condition("a").Equal(200))
		if after := lk.Select("a").Where(one).String(); after != before {
			fail("%s", after)
		}
		base = one
	}
}'''))
