package rt

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/foomo/gotsrpc/v2"
	"pgregory.net/rapid"

	"verif/harness/fx"
	"verif/harness/val"
	"verif/harness/vr"
)

// servedReq is one request to an instrumented or plain service.
type servedReq struct {
	Kind    string     `json:"kind"` // served, unknown, undecodable, get
	Call    callSpec   `json:"call"`
	Err     int        `json:"err,omitempty"` // which error a failing method returns
	Text    string     `json:"text,omitempty"`
	N       int        `json:"n,omitempty"`
	Own     int        `json:"own,omitempty"`
	Chunked bool       `json:"chunked,omitempty"`
	Nested  *servedReq `json:"nested,omitempty"` // a request the service makes while it serves this one
	SleepUs int        `json:"sleepUs,omitempty"`
	Derived bool       `json:"derived,omitempty"` // the nested request has a context of the one which is served
}

var c15Methods = append(append([]string{}, dataMethods...), "Fail", "Fail", "FailBoth", "FailBoth", "FailStruct", "FailStructBoth", "FailScalar", "CtxErr", "CtxOnly", "Kill")

func genServed(depth int) func(t *rapid.T) servedReq {
	return func(t *rapid.T) servedReq {
		q := servedReq{Kind: rapid.SampledFrom([]string{"served", "served", "served", "served", "served", "served", "unknown", "undecodable", "get"}).Draw(t, "kind")}
		q.Call = drawCall(t, c15Methods)
		if strings.HasPrefix(q.Call.Method, "Fail") || q.Call.Method == "CtxErr" {
			q.Call.Rets = nil
			q.Err = rapid.IntRange(0, 10).Draw(t, "err")
			q.Text = textGen.Draw(t, "text")
			q.N = rapid.IntRange(-2, 70).Draw(t, "n")
		}
		if strings.HasPrefix(q.Call.Method, "Ctx") && rapid.IntRange(0, 3).Draw(t, "own?") == 0 {
			q.Own = rapid.SampledFrom([]int{204, 302, 404, 500}).Draw(t, "own")
		}
		q.Chunked = rapid.IntRange(0, 5).Draw(t, "chunked") == 0
		if rapid.IntRange(0, 9).Draw(t, "sleep?") == 0 {
			q.SleepUs = rapid.IntRange(1, 400).Draw(t, "sleepUs")
		}
		if depth > 0 && rapid.IntRange(0, 5).Draw(t, "nested?") == 0 {
			n := genServed(depth - 1)(t)
			n.Derived = rapid.Bool().Draw(t, "derived")
			q.Nested = &n
		}
		return q
	}
}

// failure builds the error result of a failing method (nil interface for none).
func (q servedReq) failure() error {
	switch q.Err {
	case 0:
		return nil
	case 1:
		return errors.New(q.Text)
	case 2:
		return fx.ErrPkg
	case 3:
		return fmt.Errorf("%s: %w", q.Text, fx.ErrStd)
	case 4:
		return fx.ScalarErr(q.Text)
	case 5:
		return fx.CodeErr(q.N)
	case 6:
		return fx.NewStructErr(q.Text, q.N)
	case 7:
		return fx.ValueErr{Msg: q.Text}
	case 8:
		return (*fx.StructErr)(nil)
	case 9:
		return gotsrpc.NewError(fmt.Errorf("%s: %w", q.Text, fx.ErrStd))
	default:
		p := fx.PScalarErr(q.Text)
		return &p
	}
}

func (q servedReq) results() []interface{} {
	switch q.Call.Method {
	case "Fail", "CtxErr":
		return []interface{}{q.failure()}
	case "FailBoth":
		return []interface{}{q.Text, q.failure()}
	case "FailStruct", "FailStructBoth":
		var e *fx.StructErr
		if q.Err > 3 {
			e = fx.NewStructErr(q.Text, q.N)
		}
		if q.Call.Method == "FailStruct" {
			return []interface{}{e}
		}
		return []interface{}{q.N, e}
	case "FailScalar":
		var e *fx.PScalarErr
		if q.Err > 3 {
			p := fx.PScalarErr(q.Text)
			e = &p
		}
		return []interface{}{e}
	}
	return ifaces(q.Call.rets())
}

func isNilPtr(v interface{}) bool {
	r := reflect.ValueOf(v)
	return r.Kind() == reflect.Ptr && r.IsNil()
}

// expected error part of a record
func (q servedReq) errorPart() (code int, typ, msg string) {
	rets := q.results()
	if len(rets) == 0 {
		return
	}
	e, ok := rets[len(rets)-1].(error)
	if !ok || e == nil || isNilPtr(e) {
		return
	}
	code, typ, msg = 1, fmt.Sprintf("%T", e), e.Error()
	if c, ok := e.(interface{ ErrorCode() int }); ok {
		code = c.ErrorCode()
	}
	return
}

type seenCall struct {
	q      *servedReq
	rets   []interface{}
	args   []interface{}
	inner  time.Duration
	method string
}

type seenMonitor struct {
	w     http.ResponseWriter
	r     *http.Request
	args  []interface{}
	rets  []interface{}
	stats *gotsrpc.CallStats
}

type c15Case struct {
	Instrumented bool        `json:"instrumented"`
	Reqs         []servedReq `json:"reqs"`
}

// lab runs requests against one service and watches.
type lab struct {
	h        http.Handler
	stack    []*servedReq
	ctxs     []context.Context // as the proxy sees them
	seen     []seenCall
	records  []gotsrpc.CallStats
	monitors []seenMonitor
	fail     vr.Result
	evals    int
	keys     []string
	classes  []string
	instr    bool
}

func newLab(instrumented bool) *lab {
	l := &lab{instr: instrumented}
	s := &script{}
	s.reply = func(c call) []interface{} {
		start := time.Now()
		q := l.stack[len(l.stack)-1]
		if q.Nested != nil {
			l.do(q.Nested)
		}
		if q.SleepUs > 0 {
			time.Sleep(time.Duration(q.SleepUs) * time.Microsecond)
		}
		if q.Own != 0 && c.w != nil {
			c.w.WriteHeader(q.Own)
		}
		rets := q.results()
		l.seen = append(l.seen, seenCall{q: q, rets: rets, args: c.args, inner: time.Since(start), method: c.method})
		return append(append([]interface{}{}, rets...), make([]interface{}, 4)...)
	}
	proxy := svcHandler(s)
	l.h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		l.ctxs = append(l.ctxs, r.Context())
		defer func() { l.ctxs = l.ctxs[:len(l.ctxs)-1] }()
		proxy.ServeHTTP(w, r)
	})
	if instrumented {
		l.h = gotsrpc.InstrumentedService(l.h.ServeHTTP, func(st *gotsrpc.CallStats) { l.records = append(l.records, *st) })
	}
	return l
}

func (l *lab) failf(cat, f string, a ...interface{}) {
	if l.fail.Fail == "" {
		l.fail = vr.Failf(cat, f, a...)
	}
}

// do sends one request and judges what was reported about it.
func (l *lab) do(q *servedReq) {
	l.stack = append(l.stack, q)
	defer func() { l.stack = l.stack[:len(l.stack)-1] }()
	seen0, rec0, mon0 := len(l.seen), len(l.records), len(l.monitors)
	body := encodeArgs(q.Call.args(), q.Call.JSON)
	path := "/service/fx/" + q.Call.Method
	method := "POST"
	switch q.Kind {
	case "unknown":
		path += "Unknown"
	case "undecodable":
		body = []byte{0xc1}
	case "get":
		method = "GET"
	}
	var rd io.Reader = bytes.NewReader(body)
	if q.Chunked {
		rd = struct{ io.Reader }{rd}
	}
	r := httptest.NewRequest(method, "http://host"+path, rd)
	if q.Chunked {
		r.ContentLength = -1
		r.TransferEncoding = []string{"chunked"}
	}
	if q.Derived && len(l.ctxs) > 0 {
		type key struct{}
		r = r.WithContext(context.WithValue(l.ctxs[len(l.ctxs)-1], key{}, 1))
	}
	r.Header.Set("Content-Type", contentType(q.Call.JSON))
	rec := httptest.NewRecorder()
	start := time.Now()
	l.h.ServeHTTP(rec, r)
	elapsed := time.Since(start)

	// nested requests have already been judged and taken away
	seen, records, monitors := l.seen[seen0:], l.records[rec0:], l.monitors[mon0:]
	defer func() { l.seen, l.records, l.monitors = l.seen[:seen0], l.records[:rec0], l.monitors[:mon0] }()
	where := fmt.Sprintf("%s %s (json=%v, err %d, own %d, chunked %v, depth %d)", q.Kind, q.Call.Method, q.Call.JSON, q.Err, q.Own, q.Chunked, len(l.stack))
	l.evals++
	l.classes = append(l.classes, q.Kind, fmt.Sprintf("depth:%d", len(l.stack)))
	l.keys = append(l.keys, fmt.Sprintf("%s %s %v %x %x %d %s %d", q.Kind, q.Call.Method, q.Call.JSON, q.Call.Args, q.Call.Rets, q.Err, q.Text, q.N))
	none := len(argTypes(q.Call.Method)) == 0
	switch {
	case q.Kind == "unknown":
		if len(records) != 0 {
			l.failf("a record about an unknown method", "%s: %+v", where, records)
		}
		fallthrough
	case q.Kind == "get", q.Kind == "undecodable" && !none:
		if len(monitors) != 0 {
			l.failf("the monitor saw a call that was not executed", "%s", where)
		}
		return
	}
	if len(seen) != 1 {
		l.failf("the service method did not run exactly once", "%s: %d, %d %s", where, len(seen), rec.Code, rec.Body)
		return
	}
	if l.instr {
		if len(records) != 1 {
			l.failf("not exactly one record per served call", "%s: %d records", where, len(records))
			return
		}
		st := records[0]
		if st.Package != "verif/harness/fx" || st.Service != "Svc" || st.Func != q.Call.Method {
			l.failf("the record names another call", "%s: %+v", where, st)
		}
		if !none && st.RequestSize != len(body) {
			l.failf("the request size of the record is wrong", "%s: %d instead of %d", where, st.RequestSize, len(body))
		}
		if q.Own == 0 && st.ResponseSize != rec.Body.Len() {
			l.failf("the response size of the record is wrong", "%s: %d instead of %d", where, st.ResponseSize, rec.Body.Len())
		}
		if st.Execution < seen[0].inner || st.Unmarshalling < 0 || st.Marshalling < 0 || st.Execution+st.Unmarshalling+st.Marshalling > elapsed {
			l.failf("the durations of the record are impossible", "%s: %+v, the method took %v, the request %v", where, st, seen[0].inner, elapsed)
		}
		if q.Own == 0 {
			code, typ, msg := q.errorPart()
			if st.ErrorCode != code || st.ErrorType != typ || st.ErrorMessage != msg {
				l.failf("the record misreports the error", "%s: got %d %q %q want %d %q %q", where, st.ErrorCode, st.ErrorType, st.ErrorMessage, code, typ, msg)
			}
		}
	}
	if len(monitors) != 1 {
		l.failf("the monitor did not see a call exactly once", "%s: %d times", where, len(monitors))
		return
	}
	m := monitors[0]
	if m.w != http.ResponseWriter(rec) || m.r != r {
		l.failf("the monitor got another writer or request", "%s", where)
	}
	if m.stats == nil || m.stats.Func != q.Call.Method || m.stats.Service != "Svc" || m.stats.Package != "verif/harness/fx" {
		l.failf("the monitor got stats of another call", "%s: %+v", where, m.stats)
	}
	want := q.Call.args()
	if q.Kind == "served" {
		if len(m.args) != len(want) {
			l.failf("the monitor got another argument list", "%s: %d arguments", where, len(m.args))
		} else {
			for i, a := range m.args {
				v := reflect.ValueOf(a)
				if !v.IsValid() { // null was sent
					v = reflect.Zero(want[i].Type())
				} else if v.Kind() != reflect.Ptr || v.Type().Elem() != want[i].Type() {
					l.failf("the monitor got another argument list", "%s: argument %d is a %s", where, i, v.Type())
					break
				} else {
					v = v.Elem()
				}
				if g, w := val.Canon(v, q.Call.mode()), val.Canon(want[i], q.Call.mode()); g != w {
					l.failf("the monitor got other arguments", "%s: argument %d: %s instead of %s", where, i, clip(g), clip(w))
				}
			}
		}
	}
	if q.Own == 0 {
		if len(m.rets) != len(seen[0].rets) {
			l.failf("the monitor got another result list", "%s: %d results instead of %d", where, len(m.rets), len(seen[0].rets))
			return
		}
		for i := range m.rets {
			if !reflect.DeepEqual(m.rets[i], seen[0].rets[i]) && fmt.Sprintf("%#v", m.rets[i]) != fmt.Sprintf("%#v", seen[0].rets[i]) {
				l.failf("the monitor did not get the service's own results", "%s: result %d: %#v instead of %#v", where, i, m.rets[i], seen[0].rets[i])
			}
		}
	}
}

func TestC15Calls(t *testing.T) {
	vr.Run(t, "C15/calls", func(t *rapid.T) c15Case {
		return c15Case{rapid.IntRange(0, 3).Draw(t, "plain") > 0, rapid.SliceOfN(rapid.Custom(genServed(2)), 1, 6).Draw(t, "reqs")}
	}, func(c c15Case) vr.Result {
		l := newLab(c.Instrumented)
		defer func(m gotsrpc.MonitorFn) { gotsrpc.Monitor = m }(gotsrpc.Monitor)
		gotsrpc.Monitor = func(w http.ResponseWriter, r *http.Request, args, rets []interface{}, stats *gotsrpc.CallStats) {
			l.monitors = append(l.monitors, seenMonitor{w, r, args, rets, stats})
		}
		for i := range c.Reqs {
			l.do(&c.Reqs[i])
			if l.fail.Fail != "" {
				return l.fail
			}
		}
		return vr.Result{Evals: l.evals, NonTrivial: true, NonTrivialEvals: l.evals, Keys: l.keys, Classes: l.classes}
	})
}
