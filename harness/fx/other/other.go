// Package other declares types with the same names as those of other packages.
package other

import "errors"

// ErrStd has another text.
var ErrStd = errors.New("other sentinel")

// StructErr shares name and shape with another package's error.
type StructErr struct {
	Msg  string
	Code int
}

func (e *StructErr) Error() string { return "struct error " + e.Msg }

// ScalarErr shares its name with another package's error.
type ScalarErr string

func (e ScalarErr) Error() string { return "scalar:" + string(e) }
