// Package fx has the same package name, and types of the same names, as the fixture.
package fx

// StructErr shares qualified name and text with another package's error.
type StructErr struct {
	Msg  string
	Code int
}

func (e *StructErr) Error() string { return "struct error " + e.Msg }

// ScalarErr shares its qualified name and text.
type ScalarErr string

func (e ScalarErr) Error() string { return "scalar:" + string(e) }

// ValueErr shares its qualified name.
type ValueErr struct{ Msg string }

func (e ValueErr) Error() string { return "value error " + e.Msg }
