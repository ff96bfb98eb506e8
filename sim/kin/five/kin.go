// Package kin has a type of the caller; other packages of that name have others of the same name.
package kin

import "time"

// Code is a code.
type Code int

// Ask, AskTime and AskText answer for a code.
var (
	Ask     func(int) bool
	AskTime func(int) time.Time
	AskText func(int) string
)

// Bool makes it an encoder of booleans.
func (c Code) Bool() bool { return Ask(int(c)) }

// Time makes it an encoder of times.
func (c Code) Time() time.Time { return AskTime(int(c)) }

// String makes it an encoder of text.
func (c Code) String() string { return AskText(int(c)) }
