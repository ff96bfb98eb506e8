// Package kin has a type of the caller; other packages of that name have others of the same name.
package kin

// Code is a code.
type Code int

// Ask answers for a code.
var Ask func(int) string

// String makes it an encoder of text.
func (c Code) String() string { return Ask(int(c)) }
