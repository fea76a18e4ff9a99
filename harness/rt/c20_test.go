package rt

import (
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/foomo/gotsrpc/v2"
	gp "github.com/foomo/gotsrpc/v2/prometheus"
	p "github.com/prometheus/client_golang/prometheus"
	"pgregory.net/rapid"

	"verif/harness/fx"
	"verif/harness/vr"
)

type promReq struct {
	Kind    string   `json:"kind"` // served, unknown, get, undecodable
	Service int      `json:"service"`
	Call    callSpec `json:"call"`
	SleepUs int      `json:"sleepUs,omitempty"`
	GoRPC   int64    `json:"gorpc,omitempty"` // nanoseconds of a GoRPC record
}

type promCase struct {
	Services int       `json:"services"`
	Reqs     []promReq `json:"reqs"`
}

type sample struct {
	count uint64
	sum   float64
}

func gather(reg *p.Registry) (map[string]sample, error) {
	mfs, err := reg.Gather()
	if err != nil {
		return nil, err
	}
	out := map[string]sample{}
	for _, mf := range mfs {
		for _, m := range mf.GetMetric() {
			var ls []string
			for _, l := range m.GetLabel() {
				ls = append(ls, l.GetName()+"="+l.GetValue())
			}
			sort.Strings(ls)
			out[mf.GetName()+"{"+strings.Join(ls, ",")+"}"] = sample{m.GetSummary().GetSampleCount(), m.GetSummary().GetSampleSum()}
		}
	}
	return out, nil
}

func delta(before, after map[string]sample) map[string]sample {
	out := map[string]sample{}
	for k, a := range after {
		b := before[k]
		if a != b {
			out[k] = sample{a.count - b.count, a.sum - b.sum}
		}
	}
	return out
}

var plainCalls = []string{"Add", "Join", "Item"}

func TestC20Prometheus(t *testing.T) {
	vr.Run(t, "C20/prometheus", func(t *rapid.T) promCase {
		c := promCase{Services: rapid.IntRange(1, 3).Draw(t, "services")}
		c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) promReq {
			q := promReq{Kind: rapid.SampledFrom([]string{"served", "served", "served", "served", "unknown", "get", "undecodable", "gorpc"}).Draw(t, "kind"), Service: rapid.IntRange(0, 2).Draw(t, "service")}
			q.Call = drawCall(t, append([]string{"Fail", "FailBoth", "Kill"}, dataMethods...))
			if strings.HasPrefix(q.Call.Method, "Fail") {
				q.Call.Rets = nil
			}
			if rapid.IntRange(0, 5).Draw(t, "sleep?") == 0 {
				q.SleepUs = rapid.IntRange(1, 300).Draw(t, "us")
			}
			if q.Kind == "gorpc" {
				q.GoRPC = rapid.Int64Range(0, int64(time.Hour)).Draw(t, "ns")
			}
			return q
		}), 1, 10).Draw(t, "reqs")
		return c
	}, func(c promCase) vr.Result {
		reg := p.NewRegistry()
		oldR, oldG := p.DefaultRegisterer, p.DefaultGatherer
		p.DefaultRegisterer, p.DefaultGatherer = reg, reg
		defer func() { p.DefaultRegisterer, p.DefaultGatherer = oldR, oldG }()

		s := &script{}
		var cur promReq
		var inner time.Duration
		s.reply = func(call) []interface{} {
			start := time.Now()
			time.Sleep(time.Duration(cur.SleepUs) * time.Microsecond)
			rets := append(ifaces(cur.Call.rets()), make([]interface{}, 4)...)
			if cur.Call.Method == "FailBoth" {
				rets = []interface{}{"x", fx.ErrStd}
			} else if cur.Call.Method == "Fail" {
				rets = []interface{}{fx.ErrStd}
			}
			inner = time.Since(start)
			return rets
		}
		names := []string{"Svc", "Plain", "Svc"}
		points := []string{"/service/fx", "/service/plain", "/second"}
		plain := []http.Handler{fx.NewDefaultSvcGoTSRPCProxy(s.impl()), nil, fx.NewSvcGoTSRPCProxy(s.impl(), "/second")}
		pl := &fx.Plain{Fn: func(method string, args ...interface{}) []interface{} {
			s.calls = append(s.calls, call{method: method, args: args})
			inner = 0
			switch method {
			case "Add":
				return []interface{}{args[0].(int) + args[1].(int)}
			case "Join":
				return []interface{}{strings.Join(args[0].([]string), args[1].(string)), len(args[0].([]string))}
			}
			return []interface{}{nil}
		}}
		plain[1] = fx.NewDefaultPlainGoTSRPCProxy(pl)
		handlers := make([]http.Handler, c.Services)
		for i := range handlers {
			handlers[i] = gp.InstrumentService(plain[i].ServeHTTP)
		}
		gorpcStats := gp.InstrumentGoRPCService()
		res := vr.Result{NonTrivial: true}
		for i, q := range c.Reqs {
			cur = q
			res.Evals++
			before, err := gather(reg)
			if err != nil {
				return vr.Failf("the metrics cannot be gathered", "%v", err)
			}
			where := fmt.Sprintf("request %d: %s %s", i, q.Kind, q.Call.Method)
			want := map[string]sample{}
			res.Classes = append(res.Classes, q.Kind)
			res.Keys = append(res.Keys, fmt.Sprintf("%s %d %s %x %x", q.Kind, q.Service%c.Services, q.Call.Method, q.Call.Args, q.Call.Rets))
			if q.Kind == "gorpc" {
				gorpcStats(&gotsrpc.CallStats{Package: "pkg", Service: "S", Func: q.Call.Method, Execution: time.Duration(q.GoRPC)})
				after, err := gather(reg)
				if err != nil {
					return vr.Failf("the metrics cannot be gathered", "%v", err)
				}
				d := delta(before, after)
				key := fmt.Sprintf("gorpc_service_time_seconds{func=%s,package=pkg,service=S,type=execution}", q.Call.Method)
				got := d[key]
				if len(d) != 1 || got.count != 1 || math.Abs(got.sum-time.Duration(q.GoRPC).Seconds()) > 1e-6*math.Max(1, after[key].sum) {
					return vr.Failf("a GoRPC call is not observed as one execution time in seconds", "%s: %v took %v", where, d, time.Duration(q.GoRPC))
				}
				continue
			}
			k := q.Service % c.Services
			path := points[k] + "/" + q.Call.Method
			body := encodeArgs(q.Call.args(), q.Call.JSON)
			fn := q.Call.Method
			if k == 1 {
				fn = plainCalls[len(q.Call.Args)%3]
				path = points[k] + "/" + fn
				switch fn {
				case "Add":
					body = encodeArgs([]reflect.Value{reflect.ValueOf(i), reflect.ValueOf(len(q.Call.Args))}, q.Call.JSON)
				case "Join":
					body = encodeArgs([]reflect.Value{reflect.ValueOf([]string{"a", q.Kind}), reflect.ValueOf(q.Call.Method)}, q.Call.JSON)
				default:
					body = encodeArgs([]reflect.Value{reflect.ValueOf(map[string]interface{}{"name": "x"})}, q.Call.JSON)
				}
			}
			method := "POST"
			switch q.Kind {
			case "unknown":
				path += "Unknown"
			case "get":
				method = "GET"
			case "undecodable":
				body = []byte{0xc1}
			}
			header := http.Header{"Content-Type": {contentType(q.Call.JSON)}}
			start := time.Now()
			rec := post(handlers[k], method, path, header, body)
			elapsed := time.Since(start)
			took := inner
			after, err := gather(reg)
			if err != nil {
				return vr.Failf("the metrics cannot be gathered", "%v", err)
			}
			ref := post(plain[k], method, path, header, body)
			if rec.Code != ref.Code || !sameBody(rec, ref, q) || !reflect.DeepEqual(rec.Header(), ref.Header()) {
				return vr.Failf("instrumentation changes the response", "%s: %d %q instead of %d %q", where, rec.Code, rec.Body, ref.Code, ref.Body)
			}
			d := delta(before, after)
			label := func(metric, typ string) string {
				return fmt.Sprintf("gotsrpc_service_%s{func=%s,package=verif/harness/fx,service=%s,type=%s}", metric, fn, names[k], typ)
			}
			if q.Kind == "unknown" {
				if len(d) != 0 {
					return vr.Failf("an unknown method is observed", "%s: %v", where, d)
				}
				continue
			}
			noArgs := k != 1 && len(argTypes(q.Call.Method)) == 0
			if q.Kind == "get" || (q.Kind == "undecodable" && !noArgs) {
				continue // no call was served
			}
			reqSize := float64(len(body))
			want[label("size_bytes", "request")] = sample{1, reqSize}
			want[label("size_bytes", "response")] = sample{1, float64(rec.Body.Len())}
			for _, phase := range []string{"unmarshalling", "execution", "marshalling"} {
				got := d[label("time_nanoseconds", phase)]
				before0 := before[label("time_nanoseconds", phase)].sum
				eps := 1 + before0*1e-12
				if got.sum < -eps || got.sum > float64(elapsed)+eps || (phase == "execution" && got.sum < float64(took)-eps) {
					return vr.Failf("an observed duration is impossible", "%s: %s: %v ns, the method took %v, the request %v", where, phase, got.sum, took, elapsed)
				}
				want[label("time_nanoseconds", phase)] = sample{1, got.sum}
			}
			for key, w := range want {
				got, g := d[key], after[key]
				if noArgs && strings.Contains(key, "type=request") {
					// nothing has to be read, the size of the body is optional
					if g.count-before[key].count == 1 && (got.sum == 0 || math.Abs(got.sum-w.sum) < 1e-6) {
						continue
					}
				}
				if g.count-before[key].count != w.count || math.Abs(got.sum-w.sum) > 1e-6 {
					return vr.Failf("a served call is not observed once with its numbers", "%s: %s: got %v want %v", where, key, got, w)
				}
			}
			for key, got := range d {
				if _, ok := want[key]; !ok {
					return vr.Failf("a served call is observed under other labels", "%s: %s: %v", where, key, got)
				}
			}
		}
		res.NonTrivialEvals = res.Evals
		return res
	})
}

func sameBody(a, b *httptest.ResponseRecorder, q promReq) bool {
	if a.Body.String() == b.Body.String() {
		return true
	}
	// maps are encoded in any order
	return a.Body.Len() == b.Body.Len() && sortedBytes(a.Body.Bytes()) == sortedBytes(b.Body.Bytes())
}

func sortedBytes(b []byte) string {
	c := append([]byte(nil), b...)
	sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
	return string(c)
}
