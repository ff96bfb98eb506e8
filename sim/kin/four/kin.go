// Package kin has a type of the caller; other packages of that name have others of the same name.
package kin

// Code is a code.
type Code int

// Ask and AskText answer for a code.
var (
	Ask     func(int) int64
	AskText func(int) string
)

// Int64 makes it an encoder of numbers.
func (c Code) Int64() int64 { return Ask(int(c)) }

// String makes it an encoder of text.
func (c Code) String() string { return AskText(int(c)) }
