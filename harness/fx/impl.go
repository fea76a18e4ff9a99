package fx

import (
	"net/http"
	"time"

	"verif/harness/fx/vo"
)

// Impl is a scriptable implementation of Svc.
type Impl struct {
	Fn func(method string, w http.ResponseWriter, r *http.Request, args ...interface{}) []interface{}
}

var _ Svc = &Impl{}

func as[T any](v interface{}) (t T) {
	t, _ = v.(T)
	return t
}

func (i *Impl) Nothing() { i.Fn("Nothing", nil, nil) }

func (i *Impl) Echo(s string, n int64, b []byte) (rs string, rn int64, rb []byte) {
	o := i.Fn("Echo", nil, nil, s, n, b)
	return as[string](o[0]), as[int64](o[1]), as[[]byte](o[2])
}

func (i *Impl) Rec(r vo.Rec) vo.Rec {
	o := i.Fn("Rec", nil, nil, r)
	return as[vo.Rec](o[0])
}

func (i *Impl) Ptr(r *vo.Rec, items []*vo.Item) (rr *vo.Rec, ri []*vo.Item) {
	o := i.Fn("Ptr", nil, nil, r, items)
	return as[*vo.Rec](o[0]), as[[]*vo.Item](o[1])
}

func (i *Impl) Swap(a, b string, x, y int) (ry int, rx int, rb string, ra string) {
	o := i.Fn("Swap", nil, nil, a, b, x, y)
	return as[int](o[0]), as[int](o[1]), as[string](o[2]), as[string](o[3])
}

func (i *Impl) Many(a int8, b uint64, c bool, d float64, e []string, f map[string]int64, g vo.Color, h vo.Names) (int8, uint64, bool, float64, []string, map[string]int64, vo.Color, vo.Names) {
	o := i.Fn("Many", nil, nil, a, b, c, d, e, f, g, h)
	return as[int8](o[0]), as[uint64](o[1]), as[bool](o[2]), as[float64](o[3]), as[[]string](o[4]), as[map[string]int64](o[5]), as[vo.Color](o[6]), as[vo.Names](o[7])
}

func (i *Impl) Times(t time.Time, p *time.Time, l []time.Time, m map[string]time.Time, r vo.TimeRec) (rt time.Time, rp *time.Time, rl []time.Time, rm map[string]time.Time, rr vo.TimeRec) {
	o := i.Fn("Times", nil, nil, t, p, l, m, r)
	return as[time.Time](o[0]), as[*time.Time](o[1]), as[[]time.Time](o[2]), as[map[string]time.Time](o[3]), as[vo.TimeRec](o[4])
}

func (i *Impl) Any(v interface{}, a vo.Any) (interface{}, vo.Any) {
	o := i.Fn("Any", nil, nil, v, a)
	return o[0], as[vo.Any](o[1])
}

func (i *Impl) Ctx(w http.ResponseWriter, r *http.Request, s string) (rs string) {
	o := i.Fn("Ctx", w, r, s)
	return as[string](o[0])
}

func (i *Impl) CtxOnly(w http.ResponseWriter, r *http.Request) { i.Fn("CtxOnly", w, r) }

func (i *Impl) CtxErr(w http.ResponseWriter, r *http.Request, n int) error {
	o := i.Fn("CtxErr", w, r, n)
	return as[error](o[0])
}

func (i *Impl) Fail(key string) error {
	o := i.Fn("Fail", nil, nil, key)
	return as[error](o[0])
}

func (i *Impl) FailBoth(key string) (out string, err error) {
	o := i.Fn("FailBoth", nil, nil, key)
	return as[string](o[0]), as[error](o[1])
}

func (i *Impl) FailTwo(key string) (first error, n int, second error) {
	o := i.Fn("FailTwo", nil, nil, key)
	return as[error](o[0]), as[int](o[1]), as[error](o[2])
}

func (i *Impl) FailStruct(key string) (e *StructErr) {
	o := i.Fn("FailStruct", nil, nil, key)
	return as[*StructErr](o[0])
}

func (i *Impl) FailStructBoth(key string) (n int, e *StructErr) {
	o := i.Fn("FailStructBoth", nil, nil, key)
	return as[int](o[0]), as[*StructErr](o[1])
}

func (i *Impl) FailScalar(key string) (e *PScalarErr) {
	o := i.Fn("FailScalar", nil, nil, key)
	return as[*PScalarErr](o[0])
}

func (i *Impl) Kill(n int) { i.Fn("Kill", nil, nil, n) }
