package rt

import (
	"fmt"
	"math"
	"net/http"
	"reflect"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/fx/vo"
	"verif/harness/val"
	"verif/harness/vr"
)

// C10/calls: times in every position, both ways, both encodings.
func TestC10Calls(t *testing.T) {
	vr.Run(t, "C10/calls", func(t *rapid.T) callSpec {
		return callSpec{Method: "Times", JSON: rapid.Bool().Draw(t, "json"), Args: entropy(t, "args", 260), Rets: entropy(t, "rets", 260)}
	}, func(c callSpec) vr.Result {
		s := &script{}
		p := &pipe{h: svcHandler(s)}
		if r := c.check(svcClient(p, c.JSON), s); r.Fail != "" {
			return r
		}
		n := countTimes(c.args()) + countTimes(c.rets())
		if c.JSON {
			// the wire carries milliseconds since the epoch
			for i, pair := range []struct {
				body []byte
				vals []reflect.Value
			}{{p.body[0], c.args()}, {p.resps[0].Body.Bytes(), c.rets()}} {
				if d := diffRets(pair.body, pair.vals, nil, true); d != "" {
					return vr.Failf("times on the wire are not milliseconds since the epoch", "%s: %s", []string{"request", "reply"}[i], d)
				}
			}
		}
		return vr.Result{NonTrivial: n > 0, Classes: []string{fmt.Sprintf("json:%v", c.JSON), fmt.Sprintf("times:%d+", n/5*5)}}
	})
}

func countTimes(vs []reflect.Value) (n int) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.Type() == reflect.TypeOf(time.Time{}) {
			if !v.Interface().(time.Time).IsZero() {
				n++
			}
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			for it := v.MapRange(); it.Next(); {
				walk(it.Value())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		}
	}
	for _, v := range vs {
		walk(v)
	}
	return n
}

type instantCase struct {
	Ms   int64  `json:"ms"`
	Ns   int64  `json:"ns"`
	Zone int    `json:"zone"` // offset in minutes
	JSON bool   `json:"json"`
	Name string `json:"name"`
}

// C10/instants: any instant whose milliseconds fit 64 bits, as a JavaScript peer would send and read it.
func TestC10Instants(t *testing.T) {
	vr.Run(t, "C10/instants", func(t *rapid.T) instantCase {
		c := instantCase{JSON: rapid.Bool().Draw(t, "json"), Ns: rapid.Int64Range(0, 999999).Draw(t, "ns"), Zone: rapid.IntRange(-14*60, 14*60).Draw(t, "zone")}
		c.Ms = rapid.OneOf(
			rapid.Int64Range(-1000000, 1000000),
			rapid.Int64Range(-62135596800000, 253402300799999),
			rapid.Int64Range(-8640000000000000, 8640000000000000), // range of a JavaScript Date
			rapid.Int64(),
			rapid.SampledFrom([]int64{0, -1, 1, 999, 1000, -999, -1000, math.MaxInt64 / 1000000, math.MaxInt64/1000000 + 1, math.MinInt64 / 1000000, math.MinInt64/1000000 - 1, -62135596800000, -62135596800001}),
		).Draw(t, "ms")
		return c
	}, func(c instantCase) vr.Result {
		want := time.UnixMilli(c.Ms).Add(time.Duration(c.Ns)).In(time.FixedZone("z", c.Zone*60))
		s := &script{}
		var seen time.Time
		s.reply = func(cl call) []interface{} {
			seen = cl.args[0].(time.Time)
			return []interface{}{want, &want, []time.Time{want}, map[string]time.Time{"k": want}, nil}
		}
		p := &pipe{h: svcHandler(s)}
		if c.JSON {
			// what a peer sends
			body := fmt.Sprintf(`[%d,%d,[%d],{"k":%d},{"t":%d,"p":null,"l":null,"pl":[null,%d],"m":null}]`, c.Ms, c.Ms, c.Ms, c.Ms, c.Ms, c.Ms)
			rec := post(p.h, http.MethodPost, "/service/fx/Times", http.Header{"Content-Type": {ctJSON}}, []byte(body))
			if rec.Code != 200 || len(s.calls) != 1 {
				return vr.Failf("a time in milliseconds is refused", "%d %s", rec.Code, rec.Body)
			}
			a := s.calls[0].args
			for i, g := range []time.Time{a[0].(time.Time), *a[1].(*time.Time), a[2].([]time.Time)[0], a[3].(map[string]time.Time)["k"]} {
				if g.UnixMilli() != c.Ms || g.Nanosecond()%1000000 != 0 {
					return vr.Failf("a time sent in milliseconds arrives as another instant", "position %d: sent %d, arrived %d (%v)", i, c.Ms, g.UnixMilli(), g)
				}
			}
			got, err := val.ParseJSON(rec.Body.Bytes())
			if err != nil {
				return vr.Failf("reply is not JSON", "%v: %s", err, rec.Body)
			}
			l := got.([]interface{})
			if fmt.Sprint(l[0]) != strconv.FormatInt(c.Ms, 10) || fmt.Sprint(l[1]) != strconv.FormatInt(c.Ms, 10) {
				return vr.Failf("a time is not replied in milliseconds", "want %d, got %s", c.Ms, rec.Body)
			}
		}
		if c.Ms < -62135596800000 || c.Ms > 253402300799999 {
			return vr.OK("beyond years 1-9999") // the msgpack side is specified for years 1..9999 only
		}
		cl := svcClient(p, c.JSON)
		rt, rp, rl, rm, _, err := cl.Times(bg, want, &want, []time.Time{want}, map[string]time.Time{"k": want}, vo.TimeRec{})
		if err != nil {
			return vr.Failf("client error for a served call", "%v", err)
		}
		if !c.JSON && want.IsZero() && rp == nil {
			rp = &want // known finding
		}
		if rp == nil || len(rl) != 1 || len(rm) != 1 {
			return vr.Failf("a time is lost", "%v %v %v", rp, rl, rm)
		}
		for i, g := range []time.Time{seen, rt, *rp, rl[0], rm["k"]} {
			if c.JSON && g.UnixMilli() == c.Ms {
				continue
			}
			if !c.JSON && g.Equal(want) {
				continue
			}
			return vr.Failf("a time arrives as another instant", "position %d: sent %v, arrived %v", i, want, g)
		}
		return vr.OK("years 1-9999")
	})
}
