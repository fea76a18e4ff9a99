// Package uu declares unions another package's service uses.
package uu

type (
	Cat struct {
		Name string `json:"name"`
		Meow int    `json:"meow"`
	}
	Dog struct {
		Name string   `json:"name"`
		Toys []string `json:"toys"`
	}
	Pet struct {
		Cat *Cat `json:"cat,omitempty" gotsrpc:"union"`
		Dog *Dog `json:"dog,omitempty" gotsrpc:"union"`
	}
	ErrKindA string
	ErrKindB string
	Kind     struct {
		A *ErrKindA `json:"a,omitempty" gotsrpc:"union"`
		B *ErrKindB `json:"b,omitempty" gotsrpc:"union"`
	}
)

const (
	KindA1 ErrKindA = "a1"
	KindA2 ErrKindA = "a2"
	KindB1 ErrKindB = "b1"
)
