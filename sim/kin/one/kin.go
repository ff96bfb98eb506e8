// Package kin has a type of the caller; other packages of that name have others of the same name.
package kin

import "database/sql/driver"

// Code is a code.
type Code int

// Ask answers for a code.
var Ask func(int) (interface{}, error)

// Value implements driver.Valuer.
func (c Code) Value() (driver.Value, error) { return Ask(int(c)) }
