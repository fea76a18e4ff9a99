// Package fx is the fixture: services whose proxies and clients are generated
// by the generator under test when a check runs.
package fx

import (
	"net/http"
	"time"

	"verif/harness/fx/vo"
)

// Svc is the main service.
type Svc interface {
	Nothing()
	Echo(s string, n int64, b []byte) (rs string, rn int64, rb []byte)
	Rec(r vo.Rec) vo.Rec
	Ptr(r *vo.Rec, items []*vo.Item) (rr *vo.Rec, ri []*vo.Item)
	Swap(a, b string, x, y int) (ry int, rx int, rb string, ra string)
	Many(a int8, b uint64, c bool, d float64, e []string, f map[string]int64, g vo.Color, h vo.Names) (int8, uint64, bool, float64, []string, map[string]int64, vo.Color, vo.Names)
	Times(t time.Time, p *time.Time, l []time.Time, m map[string]time.Time, r vo.TimeRec) (rt time.Time, rp *time.Time, rl []time.Time, rm map[string]time.Time, rr vo.TimeRec)
	Any(v interface{}, a vo.Any) (interface{}, vo.Any)
	Ctx(w http.ResponseWriter, r *http.Request, s string) (rs string)
	CtxOnly(w http.ResponseWriter, r *http.Request)
	CtxErr(w http.ResponseWriter, r *http.Request, n int) error
	Fail(key string) error
	FailBoth(key string) (out string, err error)
	FailTwo(key string) (first error, n int, second error)
	FailStruct(key string) (e *StructErr)
	FailStructBoth(key string) (n int, e *StructErr)
	FailScalar(key string) (e *PScalarErr)
	Kill(n int)
}

// Plain is a service on a struct pointer.
type Plain struct {
	Fn func(method string, args ...interface{}) []interface{}
}

// Add adds.
func (s *Plain) Add(a, b int) int {
	return s.Fn("Add", a, b)[0].(int)
}

// Join joins.
func (s *Plain) Join(parts []string, sep string) (out string, n int) {
	ret := s.Fn("Join", parts, sep)
	return ret[0].(string), ret[1].(int)
}

// Item passes an item through.
func (s *Plain) Item(i vo.Item) *vo.Item {
	ret := s.Fn("Item", i)
	v, _ := ret[0].(*vo.Item)
	return v
}

func (s *Plain) hidden() {}

// Value is a method on the value: not served.
func (s Plain) Value() int { return 1 }
