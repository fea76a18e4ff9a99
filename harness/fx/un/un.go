// Package un serves unions.
package un

import "verif/harness/fx/uu"

type (
	Leaf struct {
		V string `json:"v"`
	}
	Num struct {
		N int64 `json:"n"`
	}
	Deep struct {
		Pet *uu.Pet `json:"pet"`
		U   Choice  `json:"u"`
	}
	Choice struct {
		Leaf *Leaf `json:"leaf,omitempty" gotsrpc:"union"`
		Num  *Num  `json:"num,omitempty" gotsrpc:"union"`
		Deep *Deep `json:"deep,omitempty" gotsrpc:"union"`
	}
	ValueChoice struct {
		Leaf Leaf `json:"leaf" gotsrpc:"union"`
		Num  Num  `json:"num" gotsrpc:"union"`
		One  One  `json:"one" gotsrpc:"union"`
		Any  Tags `json:"any" gotsrpc:"union"`
	}
	One struct {
		Next *Choice `json:"next,omitempty"`
	}
	Tags struct {
		Tags map[string]*Leaf `json:"tags,omitempty"`
	}
	Single struct {
		Num *Num `json:"num,omitempty" gotsrpc:"union"`
	}
	Holder struct {
		S  Single             `json:"s"`
		PS *Single            `json:"ps"`
		C  Choice             `json:"c"`
		P  *Choice            `json:"p"`
		O  *Choice            `json:"o,omitempty"`
		L  []Choice           `json:"l"`
		PL []*uu.Pet          `json:"pl"`
		M  map[string]Choice  `json:"m"`
		K  uu.Kind            `json:"k"`
		V  ValueChoice        `json:"v"`
		MP map[string]*uu.Pet `json:"mp"`
	}
)

// Unions returns unions in every position.
type Unions interface {
	Choice() Choice
	Pet() (p *uu.Pet, n int)
	Kind() (k uu.Kind, ok bool)
	List() []Choice
	Map() map[string]*uu.Pet
	Value() ValueChoice
	Single() (s []Single, p *Single)
	Holder() (h Holder, p *Holder)
}
