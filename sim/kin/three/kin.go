// Package kin has a type of the caller; other packages of that name have others of the same name.
package kin

// Code is a code.
type Code int

// Ask answers for a code.
var Ask func(int) int64

// Int64 makes it an encoder of numbers.
func (c Code) Int64() int64 { return Ask(int(c)) }
