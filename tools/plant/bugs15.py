# Round thirteen: identity that is not equality.
bug('C05-zero-memo','C05','a float that is zero and one that is minus zero, in either order, in one process',
 'the texts of numbers are kept by value, and zero and minus zero are the same key',
 [('format/format.go','''	return strconv.FormatFloat(value, 'f', -1, 64)
''','''	if text, ok := floats.Load(value); ok {
		return text.(string)
	}
	text := strconv.FormatFloat(value, 'f', -1, 64)
	floats.Store(value, text)
	return text
'''),('format/format.go','''// Value formats the given value.
''','''// floats are the texts of numbers.
var floats sync.Map

// Value formats the given value.
'''),('format/format.go','''	"strconv"
''','''	"strconv"
	"sync"
''')],
 prog([LK,'"math"'],'''
func main() {
	render := func(f float64) string { return lk.Select("a").Where(lk.Condition("a").Equal(f)).String() }
	one := render(0)
	two := render(math.Copysign(0, -1))
	if one == two {
		fail("%s", two)
	}
}'''))

bug('C05-string-address','C05','a name whose memory was used for another name before',
 'quoted names are kept by the address and length of the text, which may be used for another text later',
 [('stmt/stmt.go','''func quote(ident string) string {
''','''// place is where a text is.
type place struct {
	at uintptr
	n  int
}

var known sync.Map

// quote gives the quoted form of a name, which is kept.
func quote(ident string) string {
	key := place{(*reflect.StringHeader)(unsafe.Pointer(&ident)).Data, len(ident)}
	if text, ok := known.Load(key); ok {
		return text.(string)
	}
	text := quoteText(ident)
	known.Store(key, text)
	return text
}

func quoteText(ident string) string {
'''),('stmt/stmt.go','''	"strconv"
	"strings"
''','''	"reflect"
	"strconv"
	"strings"
	"sync"
	"unsafe"
''')],
 prog([LK,'"runtime"'],'''
func main() {
	for i := 0; i < 20; i++ {
		for k := 0; k < 20000; k++ {
			name := fmt.Sprint("c", 10000+k+i*20000)
			if text := lk.Select(name).String(); text != "SELECT \\"" + name + "\\"" {
				fail("%s", text)
			}
		}
		runtime.GC()
	}
}'''))

