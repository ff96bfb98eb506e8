VAL='"database/sql/driver"'
bug('C11-text-marshal','C11','a Valuer of a type that has a MarshalText method as well, as identifiers and decimal numbers do, in the debug form',
 'the debug form shows what a Valuer marshals itself to, instead of the value that it returns',
 [('format/format.go','''		v, err := value.Value()
''','''		// What is printed for people is of no type of the database.
		if printed, ok := value.(encoding.TextMarshaler); ok {
			text, err := printed.MarshalText()
			if err == nil {
				return String(string(text))
			}
		}

		v, err := value.Value()
'''),('format/format.go','''	"encoding/hex"
''','''	"encoding"
	"encoding/hex"
''')],
 prog([LK,VAL],'''
type amount struct{ cents int64 }

func (a *amount) Value() (driver.Value, error) { return a.cents, nil }
func (a *amount) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("%d.%02d", a.cents/100, a.cents%100)), nil }

func main() {
	s := lk.Select("a").From("t").Where(lk.Condition("a").Equal(&amount{1250})).String()
	if s != `SELECT "a" FROM "t" WHERE ("a" = 1250)` && s != "SELECT a FROM t WHERE (a = 1250)" {
		fail("%s", s)
	}
}'''))
bug('C10-zero-skip','C10','a text encoder that has an IsZero method which answers yes',
 'an encoder that says that it is zero is not consulted, and stands for NULL',
 [('stmt/expression.go','''	case StringEncoder:
		return NewValue(value.String())
	default:
		panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", arg, arg))''','''	case StringEncoder:
		// An undefined identifier is no empty text.
		if optional, ok := value.(interface{ IsZero() bool }); ok && optional.IsZero() {
			return NewValue(nil)
		}
		return NewValue(value.String())
	default:
		panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", arg, arg))''')],
 prog([LK],'''
type id string

func (i id) String() string { return "id-" + string(i) }
func (i id) IsZero() bool   { return i == "" }

func main() {
	_, a := lk.Select("a").From("t").Where(lk.Condition("a").Equal(id(""))).Query()
	if len(a) != 1 || a[0] != "id-" {
		fail("%v", a)
	}
}'''))
bug('C07-column-sort','C07','a column-list SET of more than four columns that are not in order',
 'columns of a long column-list SET are sorted, their expressions are not',
 [('stmt/set.go','''	ctx.Write("(")
	for i := range pairs.Columns {
		if i != 0 {
			ctx.Write(", ")
		}
		pairs.Columns[i].Write(ctx)
	}
	ctx.Write(")")

	ctx.Write(" = ")
''','''	columns := pairs.Columns
	if len(columns) > 4 {
		// Long lists read better in order.
		columns = append([]Column{}, columns...)
		sort.SliceStable(columns, func(i, j int) bool {
			return columns[i].Name < columns[j].Name
		})
	}

	ctx.Write("(")
	for i := range columns {
		if i != 0 {
			ctx.Write(", ")
		}
		columns[i].Write(ctx)
	}
	ctx.Write(")")

	ctx.Write(" = ")
''')],
 prog([LK,'"strings"'],'''
func main() {
	q, a := lk.Update("t").Set("e", "d", "c", "b", "a").Using(1, 2, 3, 4, 5).Query()
	q = strings.ReplaceAll(q, `"`, "")
	if q != "UPDATE t SET (e, d, c, b, a) = ($1, $2, $3, $4, $5)" || a[0] != 1 {
		fail("%s %v", q, a)
	}
}'''))
bug('C11-debug-cache','C11','a Valuer of a type that can be compared, of the same content as one before it, which returns another value or fails',
 'the debug form keeps the text of Valuers of small kinds, and does not run an equal one again',
 [('format/format.go','''		v, err := value.Value()
		if err != nil {
			panic("loukoum: was not able to retrieve valuer value")
		}
		return Value(v)''','''		// Enumerations are of few values, and return the same ones over and over.
		kind := reflectvalue.Kind()
		small := kind == reflect.String && reflectvalue.Len() < 16
		if text, ok := shown.Load(arg); small && ok {
			return text.(string)
		}

		v, err := value.Value()
		if err != nil {
			panic("loukoum: was not able to retrieve valuer value")
		}
		text := Value(v)
		if small {
			shown.Store(arg, text)
		}
		return text'''),('format/format.go','''// Value formats the given value.
''','''// shown keeps the texts of enumerations.
var shown sync.Map

// Value formats the given value.
'''),('format/format.go','''	"strconv"
''','''	"strconv"
	"sync"
''')],
 prog([LK,VAL,'"errors"'],'''
var broken bool

type state string

func (s state) Value() (driver.Value, error) {
	if broken {
		return nil, errors.New("broken")
	}
	return string(s), nil
}

func main() {
	q := lk.Select("a").From("t").Where(lk.Condition("a").Equal(state("on")))
	_ = q.String()
	broken = true
	defer func() {
		if recover() == nil {
			fail("text of a valuer that fails")
		}
	}()
	_ = q.String()
}'''))
bug('C07-alias-key','C07','a SET of two pairs whose columns have the same name and different aliases',
 'pairs are kept by the name of their column, so that two of one name are both given the value of the last',
 [('stmt/set.go','''	_, ok := pairs.Map[column]
	if !ok {
		pairs.Columns = append(pairs.Columns, column)
	}

	pairs.Map[column] = expression
''','''	_, ok := pairs.Map[column]
	if !ok {
		pairs.Columns = append(pairs.Columns, column)
	}

	// An alias means nothing in a SET.
	for i := range pairs.Columns {
		if pairs.Columns[i].Name == column.Name {
			pairs.Map[pairs.Columns[i]] = expression
		}
	}
''')],
 prog([LK],'''
func main() {
	q, a := lk.Update("t").Set(lk.Pair(lk.Column("a").As("x"), 1), lk.Pair(lk.Column("a").As("y"), 2)).Query()
	if len(a) != 2 || a[0] != 1 || a[1] != 2 {
		fail("%s %v", q, a)
	}
}'''))
bug('C07-rows-dealt','C07','an INSERT of more than six rows',
 'the values of many rows are those of other rows: rows are collected in two groups, which are then joined',
 [('stmt/expression.go','''	case [][]int64:
		for i := range values {
''','''	case [][]int64:
		if len(values) > 6 {
			// Build both halves of a large table side by side.
			half := len(values) / 2
			rows := make([][]int64, 0, len(values))
			for i := 0; i < half; i++ {
				rows = append(rows, values[i], values[half+i])
			}
			values = append(rows, values[2*half:]...)
		}
		for i := range values {
''')],
 prog([LK],'''
func main() {
	rows := [][]int64{}
	for i := 0; i < 9; i++ {
		rows = append(rows, []int64{int64(i), int64(10 * i)})
	}
	q, a := lk.Insert("t").Columns("a", "b").Values(rows).Query()
	for i := range rows {
		if a[2*i] != rows[i][0] || a[2*i+1] != rows[i][1] {
			fail("%s %v", q, a)
		}
	}
}'''))
bug('C07-list-tail','C07','an IN list of more than four float64 values that are not in order',
 'a long list of numbers is bound in another order than the one given, from its second value on',
 [('stmt/expression.go','''	case []float64:
		for _, v := range values {
''','''	case []float64:
		if len(values) > 4 {
			// The order after the first one makes no difference to the database.
			values = append([]float64{}, values...)
			sort.Float64s(values[1:])
		}
		for _, v := range values {
'''),('stmt/expression.go','''	"fmt"
''','''	"fmt"
	"sort"
''')],
 prog([LK],'''
func main() {
	q, a := lk.Select("a").From("t").Where(lk.Condition("a").In([]float64{1, 5, 4, 3, 2})).Query()
	if a[1] != 5.0 || a[4] != 2.0 {
		fail("%s %v", q, a)
	}
}'''))
