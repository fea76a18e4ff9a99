package rt

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/foomo/gotsrpc/v2"
	gp "github.com/foomo/gotsrpc/v2/prometheus"
	p "github.com/prometheus/client_golang/prometheus"
	"pgregory.net/rapid"

	"verif/harness/fx"
	"verif/harness/val"
	"verif/harness/vr"
)

// conCall is one call of one goroutine; the service answers with the call's own arguments.
type conCall struct {
	Call   callSpec `json:"call"`
	Client int      `json:"client"` // 0,1: plain, 2,3: with default headers, 4: configured together with other encodings
	Spin   int      `json:"spin,omitempty"`
	Kind   string   `json:"kind,omitempty"` // "", unknown
}

type conCase struct {
	Handler string      `json:"handler"` // plain, instrumented, prometheus
	Server  bool        `json:"server"`  // over a real connection
	Gate    int         `json:"gate"`    // the service waits for that many calls at once
	Threads [][]conCall `json:"threads"`
}

var conMethods = []string{"Nothing", "Echo", "Rec", "Ptr", "Swap", "Many", "Times", "Any", "Ctx", "FailStruct", "FailBoth", "Fail", "Kill"}

// conPipe is a transport for concurrent use.
type conPipe struct {
	h    http.Handler
	base http.RoundTripper
	mu   sync.Mutex
	reqs []conReq
}

type conReq struct {
	path, id         string
	reqSize, resSize int
	header           http.Header
	status           int
}

func (c *conPipe) RoundTrip(r *http.Request) (*http.Response, error) {
	body, err := io.ReadAll(r.Body)
	if err != nil {
		return nil, err
	}
	_ = r.Body.Close()
	var res *http.Response
	if c.base != nil {
		r2 := r.Clone(r.Context())
		r2.Body = io.NopCloser(bytes.NewReader(body))
		if res, err = c.base.RoundTrip(r2); err != nil {
			return nil, err
		}
		rb, err := io.ReadAll(res.Body)
		if err != nil {
			return nil, err
		}
		_ = res.Body.Close()
		res.Body = io.NopCloser(bytes.NewReader(rb))
		res.ContentLength = int64(len(rb))
	} else {
		sr := httptest.NewRequest(r.Method, r.URL.String(), bytes.NewReader(body)).WithContext(r.Context())
		sr.Header = r.Header.Clone()
		rec := httptest.NewRecorder()
		c.h.ServeHTTP(rec, sr)
		res = rec.Result()
		res.ContentLength = int64(rec.Body.Len())
	}
	c.mu.Lock()
	c.reqs = append(c.reqs, conReq{path: r.URL.Path, reqSize: len(body), resSize: int(res.ContentLength), header: r.Header.Clone(), status: res.StatusCode})
	c.mu.Unlock()
	return res, nil
}

// conService answers with what it was asked.
type conService struct {
	gate    int32
	waiting int32
	calls   int64
}

func (s *conService) fn(method string, w http.ResponseWriter, r *http.Request, args ...interface{}) []interface{} {
	atomic.AddInt64(&s.calls, 1)
	if s.gate > 1 {
		atomic.AddInt32(&s.waiting, 1)
		for i := 0; i < 300 && atomic.LoadInt32(&s.waiting) < s.gate; i++ {
			runtime.Gosched()
		}
		atomic.AddInt32(&s.waiting, -1)
	}
	var out []interface{}
	switch method {
	case "Swap":
		out = []interface{}{args[3], args[2], args[1], args[0]}
	case "FailStruct":
		out = []interface{}{fx.NewStructErr(args[0].(string), len(args[0].(string)))}
	case "FailBoth":
		out = []interface{}{args[0], fmt.Errorf("wrapped: %w", fx.NewStructErr(args[0].(string), 7))}
	case "Fail":
		out = []interface{}{fx.ScalarErr(args[0].(string))}
	default:
		out = append(out, args...)
	}
	return append(out, make([]interface{}, 4)...)
}

func drawCon(clients int) func(t *rapid.T) conCall {
	return func(t *rapid.T) conCall {
		c := conCall{Client: rapid.IntRange(0, clients-1).Draw(t, "client")}
		c.Call.Method = rapid.SampledFrom(conMethods).Draw(t, "method")
		c.Call.JSON = c.Client%2 == 1
		if c.Call.Method == "Fail" || c.Call.Method == "FailBoth" {
			c.Call.JSON = false // error interfaces need msgpack
			c.Client -= c.Client % 2
		}
		if len(argTypes(c.Call.Method)) > 0 {
			c.Call.Args = entropy(t, "args", 60)
		}
		c.Spin = rapid.IntRange(0, 5).Draw(t, "spin")
		if rapid.IntRange(0, 19).Draw(t, "unknown?") == 0 {
			c.Kind = "unknown"
		}
		return c
	}
}

func checkOwn(c conCall, args, rets []reflect.Value) string {
	m := c.Call.mode()
	switch c.Call.Method {
	case "Swap":
		return equalAll(rets, []reflect.Value{args[3], args[2], args[1], args[0]}, m)
	case "FailStruct":
		e := rets[0].Interface().(*fx.StructErr)
		if want := args[0].String(); e == nil || e.Msg != want && m == val.Msgpack || e.Code != len(want) {
			return fmt.Sprintf("%+v for %q", e, want)
		}
		return ""
	case "FailBoth":
		if d := equalAll(rets[:1], args, m); d != "" {
			return d
		}
		var se *fx.StructErr
		if e, _ := rets[1].Interface().(error); e == nil || !errors.As(e, &se) || se.Msg != args[0].String() {
			return fmt.Sprintf("error %v for %q", e, args[0].String())
		}
		return ""
	case "Fail":
		var se fx.ScalarErr
		if e, _ := rets[0].Interface().(error); e == nil || !errors.As(e, &se) || string(se) != args[0].String() || e.Error() != "scalar:"+args[0].String() {
			return fmt.Sprintf("error %v for %q", e, args[0].String())
		}
		return ""
	case "Nothing", "Kill":
		return equalAll(rets, nil, m)
	}
	return equalAll(rets, args, m)
}

// hang ends the case when its goroutines do not come to an end.
func finish(wg *sync.WaitGroup) bool {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(120 * time.Second):
		return false
	}
}

type firstFail struct {
	mu sync.Mutex
	r  vr.Result
}

func (f *firstFail) failf(cat, s string, a ...interface{}) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.r.Fail == "" {
		f.r = vr.Failf(cat, s, a...)
	}
}

func TestC22Concurrent(t *testing.T) {
	registerExts()
	vr.Run(t, "C22/concurrent", func(t *rapid.T) conCase {
		c := conCase{Handler: rapid.SampledFrom([]string{"instrumented", "plain", "prometheus"}).Draw(t, "handler"), Server: rapid.IntRange(0, 3).Draw(t, "server") == 0}
		c.Gate = rapid.IntRange(0, 6).Draw(t, "gate")
		c.Threads = rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(drawCon(4)), 1, 8), 2, 12).Draw(t, "threads")
		return c
	}, runConcurrent)
}

func runConcurrent(c conCase) vr.Result {
	svc := &conService{gate: int32(c.Gate)}
	var h http.Handler = fx.NewDefaultSvcGoTSRPCProxy(&fx.Impl{Fn: svc.fn})
	var ff firstFail
	var mu sync.Mutex
	var records, monitored []string
	reg := p.NewRegistry()
	switch c.Handler {
	case "instrumented":
		h = gotsrpc.InstrumentedService(h.ServeHTTP, func(st *gotsrpc.CallStats) {
			mu.Lock()
			defer mu.Unlock()
			records = append(records, fmt.Sprintf("%s/%s/%s %d %d %d %s", st.Package, st.Service, st.Func, st.RequestSize, st.ResponseSize, st.ErrorCode, st.ErrorMessage))
		})
	case "prometheus":
		oldR, oldG := p.DefaultRegisterer, p.DefaultGatherer
		p.DefaultRegisterer, p.DefaultGatherer = reg, reg
		defer func() { p.DefaultRegisterer, p.DefaultGatherer = oldR, oldG }()
		h = gp.InstrumentService(h.ServeHTTP)
	}
	oldM := gotsrpc.Monitor
	defer func() { gotsrpc.Monitor = oldM }()
	gotsrpc.Monitor = func(w http.ResponseWriter, r *http.Request, args, rets []interface{}, st *gotsrpc.CallStats) {
		mu.Lock()
		defer mu.Unlock()
		monitored = append(monitored, strings.TrimPrefix(r.URL.Path, "/service/fx/"))
	}
	tr := &conPipe{h: h}
	base := "http://host"
	if c.Server {
		srv := httptest.NewServer(h)
		defer srv.Close()
		ht := &http.Transport{}
		defer ht.CloseIdleConnections()
		tr.base, base = ht, srv.URL
	}
	hc := &http.Client{Transport: tr}
	headers := http.Header{"X-One": {"1", "2"}, "Authorization": {"secret"}}
	var clients []*fx.HTTPSvcGoTSRPCClient
	for i := 0; i < 4; i++ {
		cl := fx.NewSvcGoTSRPCClientWithClient(base, "/service/fx", hc)
		if i%2 == 1 {
			cl.Client.SetClientEncoding(gotsrpc.EncodingJson)
		}
		if i >= 2 {
			cl.Client.SetDefaultHeaders(headers)
		}
		clients = append(clients, cl)
	}
	raw := gotsrpc.NewClientWithHttpClient(hc)

	var wg sync.WaitGroup
	start := make(chan struct{})
	calls, served := 0, 0
	want := map[string]int{}
	perFunc := map[string]int{}
	for _, th := range c.Threads {
		for _, cc := range th {
			calls++
			if cc.Kind == "" {
				served++
				perFunc[cc.Call.Method]++
			} else {
				continue
			}
			args := cc.Call.args()
			code, msg := 0, ""
			switch cc.Call.Method {
			case "Fail":
				code, msg = 1, "scalar:"+args[0].String()
			case "FailBoth":
				code, msg = 1, "wrapped: struct error "+args[0].String()
			case "FailStruct":
				code, msg = len(args[0].String()), "struct error "+args[0].String()
			}
			want[fmt.Sprintf("verif/harness/fx/Svc/%s %d %s", cc.Call.Method, code, msg)]++
		}
		wg.Add(1)
		go func(th []conCall) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					ff.failf("panic", "%v", e)
				}
			}()
			<-start
			for _, cc := range th {
				for i := 0; i < cc.Spin; i++ {
					runtime.Gosched()
				}
				if cc.Kind == "unknown" {
					if err := raw.Call(bg, base, "/service/fx", "Unknown", []interface{}{1}, nil); err == nil {
						ff.failf("a call influenced another", "no error for an unknown method")
					}
					continue
				}
				args := cc.Call.args()
				rets, err := invoke(context.Background(), clients[cc.Client], cc.Call.Method, args)
				if err != nil {
					ff.failf("a concurrent call failed", "%s (json=%v): %v", cc.Call.Method, cc.Call.JSON, err)
					continue
				}
				if d := checkOwn(cc, args, rets); d != "" {
					ff.failf("a call got the results of another", "%s (json=%v): %s", cc.Call.Method, cc.Call.JSON, d)
				}
			}
		}(th)
	}
	close(start)
	if !finish(&wg) {
		return vr.Failf("concurrent calls do not come to an end", "%d calls", calls)
	}
	if ff.r.Fail != "" {
		return ff.r
	}
	if int(atomic.LoadInt64(&svc.calls)) != served {
		return vr.Failf("calls were lost or duplicated", "%d of %d", svc.calls, served)
	}
	if len(tr.reqs) != calls {
		return vr.Failf("calls were lost or duplicated", "%d requests for %d calls", len(tr.reqs), calls)
	}
	if !reflect.DeepEqual(headers, http.Header{"X-One": {"1", "2"}, "Authorization": {"secret"}}) {
		return vr.Failf("default headers changed", "%v", headers)
	}
	// every request carries the headers of its own client
	sizes := map[string]int{}
	for _, q := range tr.reqs {
		ct := q.header.Get("Content-Type")
		if ct != q.header.Get("Accept") || len(q.header["Content-Type"]) != 1 || (ct != ctJSON && ct != ctMsgpack) || (len(q.header["X-One"]) != 0 && len(q.header["X-One"]) != 2) {
			return vr.Failf("requests of different clients are mixed", "%v", q.header)
		}
		if q.status == 200 {
			f := strings.TrimPrefix(q.path, "/service/fx/")
			if len(argTypes(f)) == 0 {
				q.reqSize = 0
			}
			sizes[fmt.Sprintf("verif/harness/fx/Svc/%s %d %d", f, q.reqSize, q.resSize)]++
		}
	}
	mu.Lock()
	defer mu.Unlock()
	sort.Strings(monitored)
	seen := map[string]int{}
	for _, m := range monitored {
		seen[m]++
	}
	if fmt.Sprint(seen) != fmt.Sprint(perFunc) {
		return vr.Failf("the monitor did not see every call once", "%v instead of %v", seen, perFunc)
	}
	if c.Handler == "instrumented" {
		gotWhat, gotSize := map[string]int{}, map[string]int{}
		for _, r := range records {
			f := strings.SplitN(r, " ", 5)
			gotSize[strings.Join(f[:3], " ")]++
			gotWhat[f[0]+" "+f[3]+" "+f[4]]++
		}
		if !reflect.DeepEqual(gotSize, sizes) {
			return vr.Failf("records of different calls are mixed", "%v instead of %v", gotSize, sizes)
		}
		if !reflect.DeepEqual(gotWhat, want) {
			return vr.Failf("records of different calls are mixed", "%v instead of %v", gotWhat, want)
		}
	}
	if c.Handler == "prometheus" {
		got, err := gather(reg)
		if err != nil {
			return vr.Failf("metrics cannot be gathered", "%v", err)
		}
		for f, n := range perFunc {
			for _, typ := range []string{"request", "response"} {
				k := fmt.Sprintf("gotsrpc_service_size_bytes{func=%s,package=verif/harness/fx,service=Svc,type=%s}", f, typ)
				if got[k].count != uint64(n) {
					return vr.Failf("observations of different calls are mixed", "%s: %d instead of %d", k, got[k].count, n)
				}
			}
		}
	}
	return vr.Result{Evals: calls, NonTrivialEvals: calls, NonTrivial: true, Classes: []string{c.Handler, fmt.Sprintf("server:%v", c.Server), fmt.Sprintf("threads:%d", len(c.Threads))}}
}

// ---- many clients, each in its goroutine, with their own configuration ----

type ownCase struct {
	Threads [][]int  `json:"threads"` // per goroutine: the encodings (bit 0) and header sets (bits 1-2) it switches to
	Values  []byte   `json:"values"`
	Shared  []string `json:"shared"` // values of the shared header map
}

func TestC22Configured(t *testing.T) {
	registerExts()
	vr.Run(t, "C22/configured", func(t *rapid.T) ownCase {
		return ownCase{rapid.SliceOfN(rapid.SliceOfN(rapid.IntRange(0, 7), 1, 6), 2, 10).Draw(t, "threads"), entropy(t, "values", 60), rapid.SliceOfN(rapid.StringMatching("[a-z]{1,3}"), 1, 3).Draw(t, "shared")}
	}, func(c ownCase) vr.Result {
		var ff firstFail
		svc := &conService{gate: 3}
		h := fx.NewDefaultSvcGoTSRPCProxy(&fx.Impl{Fn: func(m string, w http.ResponseWriter, r *http.Request, args ...interface{}) []interface{} {
			if m == "Ctx" {
				return []interface{}{r.Header.Get("Content-Type") + "|" + fmt.Sprint(r.Header["X-Shared"]) + "|" + fmt.Sprint(r.Header["X-Own"]) + "|" + args[0].(string)}
			}
			return svc.fn(m, w, r, args...)
		}})
		hc := &http.Client{Transport: &conPipe{h: h}}
		shared := http.Header{"X-Shared": c.Shared}
		rec := reflect.ValueOf(val.Build(val.NewSrc(c.Values), argTypes("Rec")[0], val.JSON).Interface())
		wantRec := map[string]string{ctJSON: val.Canon(rec, val.JSON), ctMsgpack: val.Canon(rec, val.Msgpack)}
		var wg sync.WaitGroup
		start := make(chan struct{})
		calls := 0
		for k, th := range c.Threads {
			calls += 2 * len(th)
			wg.Add(1)
			go func(k int, th []int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						ff.failf("panic", "%v", e)
					}
				}()
				<-start
				cl := fx.NewSvcGoTSRPCClientWithClient("http://host", "/service/fx", hc)
				for i, op := range th {
					ct := ctMsgpack
					if op&1 == 1 {
						cl.Client.SetClientEncoding(gotsrpc.EncodingJson)
						ct = ctJSON
					} else {
						cl.Client.SetClientEncoding(gotsrpc.EncodingMsgpack)
					}
					own, sh := "[]", "[]"
					switch op >> 1 {
					case 0:
						cl.Client.SetDefaultHeaders(nil)
					case 1:
						cl.Client.SetDefaultHeaders(shared)
						sh = fmt.Sprint(c.Shared)
					default:
						cl.Client.SetDefaultHeaders(http.Header{"X-Own": {fmt.Sprint(k)}})
						own = fmt.Sprintf("[%d]", k)
					}
					arg := fmt.Sprintf("%d.%d", k, i)
					got, err := cl.Ctx(bg, arg)
					if want := ct + "|" + sh + "|" + own + "|" + arg; err != nil || got != want {
						ff.failf("the configuration of a client influenced another", "got %q want %q: %v", got, want, err)
					}
					// the same value is encoded and decoded by many at once
					r, err := invoke(bg, cl, "Rec", []reflect.Value{rec})
					if err != nil {
						ff.failf("a concurrent call failed", "%v", err)
					} else if g := val.Canon(r[0], map[string]val.Mode{ctJSON: val.JSON, ctMsgpack: val.Msgpack}[ct]); g != wantRec[ct] {
						ff.failf("a call got the results of another", "got %s want %s", clip(g), clip(wantRec[ct]))
					}
				}
			}(k, th)
		}
		close(start)
		if !finish(&wg) {
			return vr.Failf("concurrent calls do not come to an end", "%d calls", calls)
		}
		if ff.r.Fail != "" {
			return ff.r
		}
		if !reflect.DeepEqual(shared, http.Header{"X-Shared": c.Shared}) {
			return vr.Failf("default headers changed", "%v", shared)
		}
		return vr.Result{Evals: calls, NonTrivialEvals: calls, NonTrivial: true, Classes: []string{fmt.Sprintf("threads:%d", len(c.Threads))}}
	})
}

// ---- extensions and the exported coders ----

var conExtOnce sync.Once

// registerExts registers before a handle is used for the first time.
func registerExts() {
	conExtOnce.Do(func() {
		for i, n := range []string{"A", "B"} {
			if err := gotsrpc.SetJSONExt(extOf[n].zero, uint64(20+i), extOf[n].ext); err != nil {
				panic(err)
			}
			if err := gotsrpc.SetMSGPackExt(extOf[n].zero, uint64(20+i), extOf[n].ext); err != nil {
				panic(err)
			}
		}
	})
}

type conExtCase struct {
	Threads [][][]byte `json:"threads"`
}

func TestC22Extensions(t *testing.T) {
	registerExts()
	vr.Run(t, "C22/extensions", func(t *rapid.T) conExtCase {
		return conExtCase{rapid.SliceOfN(rapid.SliceOfN(rapid.SliceOfN(rapid.Byte(), 0, 40), 1, 5), 2, 8).Draw(t, "threads")}
	}, func(c conExtCase) vr.Result {
		var ff firstFail
		h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			var a extHolder
			args := []interface{}{&a}
			if err := gotsrpc.LoadArgs(&args, nil, r); err != nil {
				gotsrpc.ErrorCouldNotLoadArgs(w)
				return
			}
			runtime.Gosched()
			if err := gotsrpc.Reply([]interface{}{a}, nil, r, w); err != nil {
				gotsrpc.ErrorCouldNotReply(w)
			}
		})
		hc := &http.Client{Transport: &conPipe{h: h}}
		cls := []gotsrpc.Client{gotsrpc.NewClientWithHttpClient(hc), gotsrpc.NewClientWithHttpClient(hc)}
		cls[1].SetClientEncoding(gotsrpc.EncodingJson)
		var wg sync.WaitGroup
		start := make(chan struct{})
		calls := 0
		for _, th := range c.Threads {
			calls += len(th) * 3
			wg.Add(1)
			go func(th [][]byte) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						ff.failf("panic", "%v", e)
					}
				}()
				<-start
				for _, e := range th {
					for k, m := range []val.Mode{val.Msgpack, val.JSON} {
						in := val.Build(val.NewSrc(e), reflect.TypeOf(extHolder{}), m).Interface().(extHolder)
						var out extHolder
						if err := cls[k].Call(bg, "http://host", "/e", "M", []interface{}{in}, []interface{}{&out}); err != nil {
							ff.failf("a concurrent call failed", "%v", err)
						} else if g, w := val.Canon(reflect.ValueOf(out), m), val.Canon(reflect.ValueOf(in), m); g != w {
							ff.failf("a call got the results of another", "got %s want %s", clip(g), clip(w))
						}
						if k == 0 {
							var b []byte
							var back extHolder
							if err := gotsrpc.NewMSGPackEncoderBytes(&b).Encode(in); err != nil {
								ff.failf("a concurrent call failed", "encoder: %v", err)
							} else if err := gotsrpc.NewMSGPackDecoderBytes(b).Decode(&back); err != nil {
								ff.failf("a concurrent call failed", "decoder: %v", err)
							} else if g, w := val.Canon(reflect.ValueOf(back), m), val.Canon(reflect.ValueOf(in), m); g != w {
								ff.failf("a call got the results of another", "got %s want %s", clip(g), clip(w))
							}
						}
					}
				}
			}(th)
		}
		close(start)
		if !finish(&wg) {
			return vr.Failf("concurrent calls do not come to an end", "%d calls", calls)
		}
		if ff.r.Fail != "" {
			return ff.r
		}
		return vr.Result{Evals: calls, NonTrivialEvals: calls, NonTrivial: true}
	})
}

// ---- GoRPC ----

type conRPCCase struct {
	Threads [][]int64 `json:"threads"`
	Gate    int       `json:"gate"`
}

func TestC22GoRPC(t *testing.T) {
	registerExts()
	vr.Run(t, "C22/gorpc", func(t *rapid.T) conRPCCase {
		return conRPCCase{rapid.SliceOfN(rapid.SliceOfN(rapid.Int64Range(-1000, 1000), 1, 10), 2, 10).Draw(t, "threads"), rapid.IntRange(0, 5).Draw(t, "gate")}
	}, func(c conRPCCase) vr.Result {
		var ff firstFail
		svc := &conService{gate: int32(c.Gate)}
		pl := &fx.Plain{Fn: func(method string, args ...interface{}) []interface{} {
			svc.fn("Kill", nil, nil)
			switch method {
			case "Add":
				return []interface{}{args[0].(int) + args[1].(int)}
			default:
				parts := args[0].([]string)
				return []interface{}{strings.Join(parts, args[1].(string)), len(parts)}
			}
		}}
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			vr.Abort("%v", err)
		}
		addr := l.Addr().String()
		_ = l.Close()
		px := fx.NewPlainGoRPCProxy(addr, pl, nil)
		var mu sync.Mutex
		recs := map[string]int{}
		px.SetCallStatsHandler(func(st *gotsrpc.CallStats) {
			mu.Lock()
			defer mu.Unlock()
			recs[st.Package+"/"+st.Service+"/"+st.Func]++
		})
		if err := px.Start(); err != nil {
			return vr.Result{Classes: []string{"port taken"}}
		}
		defer px.Stop()
		cl := fx.NewPlainGoRPCClient(addr, nil)
		cl.Start()
		defer cl.Stop()
		var wg sync.WaitGroup
		start := make(chan struct{})
		calls := 0
		want := map[string]int{}
		for _, th := range c.Threads {
			calls += 2 * len(th)
			want["verif/harness/fx/Plain/PlainAddRequest"] += len(th)
			want["verif/harness/fx/Plain/PlainJoinRequest"] += len(th)
			wg.Add(1)
			go func(th []int64) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						ff.failf("panic", "%v", e)
					}
				}()
				<-start
				for i, n := range th {
					sum, err := cl.Add(int(n), i+1)
					if err != nil {
						ff.failf("a concurrent call failed", "%v", err)
					} else if sum != int(n)+i+1 {
						ff.failf("a call got the results of another", "gorpc: %d for %d + %d", sum, n, i+1)
					}
					parts := make([]string, 1+i%3)
					for j := range parts {
						parts[j] = fmt.Sprint(n, ".", j)
					}
					s, k, err := cl.Join(parts, "-")
					if err != nil {
						ff.failf("a concurrent call failed", "%v", err)
					} else if s != strings.Join(parts, "-") || k != len(parts) {
						ff.failf("a call got the results of another", "gorpc: %q", s)
					}
				}
			}(th)
		}
		close(start)
		if !finish(&wg) {
			return vr.Failf("concurrent calls do not come to an end", "%d calls", calls)
		}
		if ff.r.Fail != "" {
			return ff.r
		}
		mu.Lock()
		defer mu.Unlock()
		got := map[string]int{}
		for k, v := range recs {
			got[k] = v
		}
		if !reflect.DeepEqual(got, want) {
			return vr.Failf("records of different calls are mixed", "gorpc: %v instead of %v", got, want)
		}
		return vr.Result{Evals: calls, NonTrivialEvals: calls, NonTrivial: true}
	})
}
