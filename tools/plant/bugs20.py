bug('C08-after-many','C08','a result that is taken after 16,384 renders of the process and still held when a later one is made',
 'after many renders, arguments are given out from a shared list',
 [('types/context.go','''// Values returns the positional argument values.
func (ctx *StdContext) Values() []interface{} {
	return ctx.values
}''','''// busy tells that there are many renders, and is their number and the list that they share then.
var busy struct {
	sync.Mutex
	n    int
	list []interface{}
}

// Values returns the positional argument values.
func (ctx *StdContext) Values() []interface{} {
	busy.Lock()
	defer busy.Unlock()
	if busy.n++; busy.n < 16384 || len(ctx.values) == 0 {
		return ctx.values
	}
	busy.list = append(busy.list[:0], ctx.values...)
	return busy.list
}'''),('types/context.go','''	"strings"
''','''	"strings"
	"sync"
''')],
 prog([LK],'''
func main() {
	for i := 0; i < 20000; i++ {
		lk.Select("a").From("t").Where(lk.Condition("a").Equal(1)).Query()
	}
	_, a := lk.Select("a").From("t").Where(lk.Condition("a").Equal(1)).Query()
	lk.Select("a").From("t").Where(lk.Condition("a").Equal(2)).Query()
	if a[0] != 1 {
		fail("%v", a[0])
	}
}'''))
