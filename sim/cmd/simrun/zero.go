package main

import (
	"database/sql/driver"
	"time"
)

// Values of the caller that are the zero values of their types, with methods that work all the same. What
// stands behind each of them is kept here; each type has at most one in a run.

type (
	vzInt    int
	vzText   string
	vzNone   struct{}
	vzList   []int
	vzMap    map[string]int
	vzBool   bool
	vzArray  [3]byte
	vzFunc   func()
	vzFields struct {
		A interface{}
		B string
	}
	ezText   string
	ezNone   struct{}
	ezMap    map[string]int
	ezPtr    struct{ N int }
	ezInt    int
	ezFloat  float64
	ezIntPtr struct{ N int }
	ezBool   bool
	ezList   []bool
	ezTime   struct{ t time.Time }
)

func (vzInt) Value() (driver.Value, error)    { return zeroValuer(0).Value() }
func (vzText) Value() (driver.Value, error)   { return zeroValuer(1).Value() }
func (vzNone) Value() (driver.Value, error)   { return zeroValuer(2).Value() }
func (vzList) Value() (driver.Value, error)   { return zeroValuer(3).Value() }
func (vzMap) Value() (driver.Value, error)    { return zeroValuer(4).Value() }
func (vzBool) Value() (driver.Value, error)   { return zeroValuer(5).Value() }
func (vzArray) Value() (driver.Value, error)  { return zeroValuer(6).Value() }
func (vzFunc) Value() (driver.Value, error)   { return zeroValuer(7).Value() }
func (vzFields) Value() (driver.Value, error) { return zeroValuer(8).Value() }

func (ezText) String() string  { return zeroObj(9).(*encStr).String() }
func (ezNone) String() string  { return zeroObj(10).(*encStr).String() }
func (ezMap) String() string   { return zeroObj(11).(*encStr).String() }
func (*ezPtr) String() string  { return zeroObj(12).(*encStr).String() }
func (ezInt) Int64() int64     { return zeroObj(13).(*encInt).Int64() }
func (ezFloat) Int64() int64   { return zeroObj(14).(*encInt).Int64() }
func (*ezIntPtr) Int64() int64 { return zeroObj(15).(*encInt).Int64() }
func (ezBool) Bool() bool      { return zeroObj(16).(*encBool).Bool() }
func (ezList) Bool() bool      { return zeroObj(17).(*encBool).Bool() }
func (ezTime) Time() time.Time { return zeroObj(18).(*encTime).Time() }

var zeroShapes = []interface{}{
	vzInt(0), vzText(""), vzNone{}, vzList(nil), vzMap(nil), vzBool(false), vzArray{}, vzFunc(nil), vzFields{},
	ezText(""), ezNone{}, ezMap(nil), (*ezPtr)(nil), ezInt(0), ezFloat(0), (*ezIntPtr)(nil), ezBool(false), ezList(nil), ezTime{},
}

var (
	zeroKeys [32]int
	zeroObjs [32]interface{}
)

func zeroValuer(k int) *valuer { return zeroObj(k).(*valuer) }

//go:norace
func zeroObj(k int) interface{} { return zeroObjs[k] }

//go:norace
func forgetZeros() { zeroKeys, zeroObjs = [32]int{}, [32]interface{}{} }

// zeroOf gives an object the shape of a zero value: of the k-th type from the first on, or of the next one
// that is free; false if there is none.
//
//go:norace
func zeroOf(n *Node, key int, obj interface{}) (interface{}, bool) {
	if key == 0 {
		return nil, false
	}
	from, to := 0, 9
	switch obj.(type) {
	case *encStr:
		from, to = 9, 13
	case *encInt:
		from, to = 13, 16
	case *encBool:
		from, to = 16, 18
	case *encTime:
		from, to = 18, 19
	}
	for i := 0; i < to-from; i++ {
		k := from + (n.N+i)%(to-from)
		if zeroKeys[k] == 0 || zeroKeys[k] == key {
			zeroKeys[k], zeroObjs[k] = key, obj
			return zeroShapes[k], true
		}
	}
	return nil, false
}

// zeroValuerOf is the valuer behind a zero value, if it is one.
func zeroValuerOf(v interface{}) *valuer {
	k := -1
	switch v.(type) {
	case vzInt:
		k = 0
	case vzText:
		k = 1
	case vzNone:
		k = 2
	case vzList:
		k = 3
	case vzMap:
		k = 4
	case vzBool:
		k = 5
	case vzArray:
		k = 6
	case vzFunc:
		k = 7
	case vzFields:
		k = 8
	}
	if k < 0 {
		return nil
	}
	v2, _ := zeroObj(k).(*valuer)
	return v2
}
