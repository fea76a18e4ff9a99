package fx

import (
	"errors"
	"fmt"
	"time"

	pkgerrors "github.com/pkg/errors"
)

// Sentinels.
var (
	ErrStd    = errors.New("std sentinel")
	ErrStdTwo = errors.New("std sentinel two")
	ErrPkg    = pkgerrors.New("pkg sentinel")
	ErrPkgTwo = pkgerrors.New("std sentinel") // same text as ErrStd, another type
	// ErrWrapped is a sentinel that wraps another one.
	ErrWrapped = fmt.Errorf("wrapped sentinel: %w", ErrStd)
	ErrMsg     = pkgerrors.WithMessage(ErrPkg, "message sentinel")
	ErrColon   = errors.New("with: colon: ")
	ErrEmpty   = errors.New("")
	// sentinels with a stack trace around another error
	ErrStack  = pkgerrors.WithStack(ErrStdTwo)
	ErrStack2 = pkgerrors.Wrap(ErrPkg, "stack sentinel")
)

// ScalarErr is a scalar error used as a value.
type ScalarErr string

func (e ScalarErr) Error() string { return "scalar:" + string(e) }

// PScalarErr is a scalar error used through a pointer.
type PScalarErr string

func (e *PScalarErr) Error() string { return "pscalar:" + string(*e) }

// CodeErr is a numeric error.
type CodeErr int

func (e CodeErr) Error() string { return fmt.Sprintf("code %d", int(e)) }

// ErrorCode is picked up by the call statistics.
func (e CodeErr) ErrorCode() int { return int(e) }

// Detail is part of StructErr.
type Detail struct {
	Key string
	N   int64
	F   float64
}

// StructErr is used through a pointer.
type StructErr struct {
	Msg    string
	Code   int
	Ok     bool
	Ratio  float64
	Detail Detail
	P      *Detail
	List   []string
	Nested []Detail
	M      map[string]string
	Mi     map[string]int64
	secret string
}

func (e *StructErr) Error() string { return "struct error " + e.Msg }

// ErrorCode is picked up by the call statistics.
func (e *StructErr) ErrorCode() int { return e.Code }

// NewStructErr sets the unexported part too.
func NewStructErr(msg string, code int) *StructErr {
	return &StructErr{Msg: msg, Code: code, secret: "s"}
}

// ValueErr is used as a value.
type ValueErr struct {
	Msg string
	N   uint16
	L   []int
}

func (e ValueErr) Error() string { return fmt.Sprintf("value error %s %d", e.Msg, e.N) }

// TagErr has JSON names that differ from its field names.
type TagErr struct {
	Message string    `json:"msg_text"`
	Number  int       `json:"no,omitempty"`
	Inner   Detail    `json:"inner_detail"`
	When    time.Time `json:"when_it_was"`
}

func (e *TagErr) Error() string { return "tag error " + e.Message }

// CauseErr wraps another error.
type CauseErr struct {
	Op    string
	cause error
}

func NewCauseErr(op string, cause error) *CauseErr { return &CauseErr{Op: op, cause: cause} }

func (e *CauseErr) Error() string { return e.Op + ": " + e.cause.Error() }

func (e *CauseErr) Unwrap() error { return e.cause }

// OddCauseErr wraps another error without repeating its text.
type OddCauseErr struct {
	Op    string
	cause error
}

func NewOddCauseErr(op string, cause error) *OddCauseErr { return &OddCauseErr{Op: op, cause: cause} }

func (e *OddCauseErr) Error() string { return "odd " + e.Op }

func (e *OddCauseErr) Unwrap() error { return e.cause }

// OpErr holds its cause in an exported field.
type OpErr struct {
	Op    string
	Path  string
	Cause error `json:"the_cause"`
	Other error `json:",omitempty"`
	Code  int
}

func (e *OpErr) Error() string {
	if e.Cause == nil {
		return e.Op + " " + e.Path
	}
	return e.Op + " " + e.Path + ": " + e.Cause.Error()
}

func (e *OpErr) Unwrap() error { return e.Cause }

// HolderErr is used as a value and holds an error which it does not wrap.
type HolderErr struct {
	Text string
	Held error
}

func (e HolderErr) Error() string { return "holder " + e.Text }

// StackErr has a stack trace and a text of its own.
type StackErr struct {
	Text  string
	Same  bool
	cause error
}

func NewStackErr(text string, same bool, cause error) *StackErr {
	return &StackErr{Text: text, Same: same, cause: cause}
}

func (e *StackErr) Error() string {
	if e.Same && e.cause != nil {
		return e.cause.Error()
	}
	return e.Text
}

func (e *StackErr) Unwrap() error { return e.cause }

func (e *StackErr) StackTrace() pkgerrors.StackTrace { return nil }

// MapErr is a map.
type MapErr map[string]string

func (e MapErr) Error() string { return fmt.Sprintf("map error %d", len(e)) }

// ListErr is a list.
type ListErr []Detail

func (e ListErr) Error() string { return fmt.Sprintf("list error %d", len(e)) }

// PtrErr has nothing but a pointer.
type PtrErr struct{ P *Detail }

func (e PtrErr) Error() string { return "pointer error" }

// EmbErr embeds its fields.
type EmbErr struct {
	Detail
	Text string
}

func (e *EmbErr) Error() string { return "embedding error " + e.Text }
