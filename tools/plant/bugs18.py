bug('C04-nil-panic','C04','a Valuer that panics with nil (which is no error to a recover) while an update is rendered in debug form',
 'the debug form of an update gives what there is when nothing was recovered',
 [('builder/update.go','''func (b Update) String() string {
	ctx := &types.RawContext{}
	b.query.Write(ctx)
	return ctx.Query()
}''','''func (b Update) String() (query string) {
	ctx := &types.RawContext{}
	defer func() {
		if failure := recover(); failure != nil {
			panic(failure)
		}
		query = ctx.Query()
	}()
	b.query.Write(ctx)
	return
}''')],
 prog([LK,'"database/sql/driver"'],'''
type bad struct{}

func (bad) Value() (driver.Value, error) { panic(nil) }

func main() {
	returned := false
	func() {
		defer func() { recover() }()
		_ = lk.Update("t").Set(lk.Pair("a", bad{}), lk.Pair("b", 1)).String()
		returned = true
	}()
	if returned {
		fail("swallowed")
	}
}'''))

bug('C03-nil-panic','C03','an encoder that panics with nil in the middle of a list of rows',
 'rows are read under a recover that takes nil for success',
 [('builder/insert.go','''func (b Insert) Set(args ...interface{}) Insert {
''','''func (b Insert) Set(args ...interface{}) (result Insert) {
	set := stmt.Set{}
	defer func() {
		if failure := recover(); failure != nil {
			panic(failure)
		}
		columns, expressions := set.Pairs.Values()
		result = b
		result.query.Columns = columns
		result.query.Values = stmt.NewValues(stmt.NewArrayListExpression(expressions))
	}()
'''),('builder/insert.go','''	pairs := ToSet(args).Pairs
	columns, expressions := pairs.Values()

	array := stmt.NewArrayListExpression(expressions)
	values := stmt.NewValues(array)

	b.query.Columns = columns
	b.query.Values = values

	return b
}''','''	for i := range args {
		if i == 0 {
			set = ToSet(args[:1])
			continue
		}
		set = MergeSet(set, args[i:i+1])
	}
	if len(args) == 0 {
		set = ToSet(args)
	}
	return b
}''')],
 prog([LK],'''
type bad struct{}

func (bad) Int64() int64 { panic(nil) }

func main() {
	returned := false
	func() {
		defer func() { recover() }()
		_ = lk.Insert("t").Set(lk.Pair("a", 1), lk.Pair("b", bad{})).String()
		returned = true
	}()
	if returned {
		fail("swallowed")
	}
}'''))
