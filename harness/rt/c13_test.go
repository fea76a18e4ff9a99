package rt

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"reflect"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/foomo/gotsrpc/v2"
	"pgregory.net/rapid"

	"verif/harness/fx"
	"verif/harness/val"
	"verif/harness/vr"
)

// faultCase is one client call and what happens to it.
type faultCase struct {
	Call   callSpec `json:"call"`
	Fault  string   `json:"fault"`
	Status int      `json:"status,omitempty"`
	CT     string   `json:"ct,omitempty"`
	Body   string   `json:"body,omitempty"` // kind of the response body
	Bytes  []byte   `json:"bytes,omitempty"`
	Cut    int      `json:"cut,omitempty"`
	Chunk  int      `json:"chunk,omitempty"`
	Reply  bool     `json:"replyJSON,omitempty"`
	Err    int      `json:"err,omitempty"` // which error the transport or the body has
}

var (
	errTransport = errors.New("the stub transport fails")
	errReading   = errors.New("the stub body fails")
)

// stubErrors are what transports and bodies fail with.
var stubErrors = []error{errTransport, errReading, io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", io.EOF), syscall.ECONNRESET, net.ErrClosed, os.ErrDeadlineExceeded,
	&net.OpError{Op: "read", Net: "tcp", Err: syscall.EPIPE}, &net.DNSError{Err: "no such host", Name: "host"}, http.ErrBodyReadAfterClose, io.ErrClosedPipe, http.ErrServerClosed, io.ErrNoProgress, gotsrpc.NewHTTPError("inner", 502), fx.ErrStd}

func (c faultCase) err() error { return stubErrors[c.Err%len(stubErrors)] }

// stubBody is a response body that may fail, and remembers being closed.
type stubBody struct {
	data   []byte
	fail   error
	chunk  int
	cancel func()
	closed int
	read   int
}

func (b *stubBody) Read(p []byte) (int, error) {
	if b.closed > 0 {
		return 0, errors.New("read after close")
	}
	if len(b.data) == 0 {
		if b.cancel != nil {
			b.cancel()
			return 0, context.Canceled
		}
		if b.fail != nil {
			return 0, b.fail
		}
		return 0, io.EOF
	}
	n := len(b.data)
	if b.chunk > 0 && n > b.chunk {
		n = b.chunk
	}
	n = copy(p, b.data[:n])
	b.data = b.data[n:]
	b.read += n
	return n, nil
}

func (b *stubBody) Close() error { b.closed++; return nil }

type stubTransport struct {
	reqs int
	fn   func(r *http.Request) (*http.Response, error)
}

func (s *stubTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	s.reqs++
	if r.Body != nil {
		_, _ = io.Copy(io.Discard, r.Body)
		_ = r.Body.Close()
	}
	return s.fn(r)
}

var c13Methods = []string{"Nothing", "Echo", "Rec", "Ptr", "Swap", "Many", "Times", "Any", "Fail", "FailBoth", "FailStruct", "FailStructBoth", "FailScalar"}

func TestC13Faults(t *testing.T) {
	vr.Run(t, "C13/faults", func(t *rapid.T) faultCase {
		c := faultCase{Call: drawCall(t, c13Methods)}
		c.Fault = rapid.SampledFrom([]string{"none", "status", "status", "body", "body", "body", "read", "connect", "canceled", "cancelWhile", "cancelReading", "deadline", "encode", "url"}).Draw(t, "fault")
		c.Reply = rapid.Bool().Draw(t, "replyJSON")
		c.Chunk = rapid.SampledFrom([]int{0, 1, 3, 1000}).Draw(t, "chunk")
		c.CT = rapid.SampledFrom([]string{"same", "same", "same", "none", "text/plain", "application/json", "other"}).Draw(t, "ct")
		switch c.Fault {
		case "status":
			c.Status = rapid.SampledFrom([]int{201, 202, 204, 206, 226, 300, 304, 400, 401, 403, 404, 405, 409, 418, 429, 451, 499, 500, 501, 502, 503, 504, 599, 999}).Draw(t, "status")
			c.Body = rapid.SampledFrom([]string{"valid", "text", "empty", "random", "big"}).Draw(t, "body")
		case "body":
			c.Body = rapid.SampledFrom([]string{"cut", "cut", "cut", "mutate", "mutate", "random", "random", "empty", "text", "fewer", "more", "object", "null", "bomb", "errmap", "errdata"}).Draw(t, "body")
		}
		if c.Body == "errdata" {
			c.Reply = false
			c.Call = drawCall(t, []string{"FailStruct", "FailStructBoth", "FailScalar"})
		}
		c.Cut = rapid.IntRange(0, 400).Draw(t, "cut")
		c.Bytes = rapid.SliceOfN(rapid.Byte(), 1, 30).Draw(t, "bytes")
		switch c.Fault {
		case "read", "connect":
			c.Err = rapid.IntRange(0, len(stubErrors)-1).Draw(t, "err")
			if rapid.Bool().Draw(t, "complete") {
				c.Cut = -1 // fails behind the last byte of the body
			}
		}
		return c
	}, runC13)
}

func (c faultCase) wire(method string, rets []reflect.Value) []byte {
	if !c.Reply && strings.HasPrefix(method, "Fail") {
		rets = append(rets[:0:0], rets...)
		for i, v := range rets {
			if e, ok := v.Interface().(error); ok && !v.IsNil() {
				rets[i] = reflect.ValueOf(gotsrpc.NewError(e))
			}
		}
	}
	return encodeArgs(rets, c.Reply)
}

func runC13(c faultCase) vr.Result {
	method := c.Call.Method
	spec := c.Call
	spec.JSON = c.Reply // the results travel in the encoding of the reply
	rets := spec.rets()
	good := c.wire(method, rets)
	body := good
	kind := "good"
	switch c.Body {
	case "cut":
		n := c.Cut % len(good)
		body, kind = good[:n], "bad"
	case "mutate":
		body = append([]byte(nil), good...)
		for i, x := range c.Bytes {
			body[(i*31+int(x))%len(body)] ^= 1 << (uint(x+1) % 8)
		}
		kind = "unknown"
	case "random":
		body, kind = c.Bytes, "unknown"
	case "empty":
		body, kind = nil, "bad"
	case "text":
		body, kind = []byte("no such thing"), "unknown"
	case "big":
		body, kind = []byte(strings.Repeat("0123456789", 20000)), "unknown"
	case "fewer":
		kind = "unknown"
		if len(rets) > 0 {
			body = c.wire(method, rets[:len(rets)-1])
		}
	case "more":
		body, kind = c.wire(method, append(append(rets[:0:0], rets...), reflect.ValueOf("x"))), "unknown"
	case "object":
		body, kind = []byte(`{"a":1,"b":[2]}`), "unknown"
		if !c.Reply {
			body = []byte{0x82, 0xa1, 'a', 1, 0xa1, 'b', 2}
		}
	case "null":
		body, kind = []byte("null"), "unknown"
		if !c.Reply {
			body = []byte{0xc0}
		}
	case "bomb":
		body, kind = []byte(strings.Repeat("[", 1+c.Cut*40)), "unknown"
		if !c.Reply {
			body = append([]byte{0x91, 0xdd, 0x7f, 0xff, 0xff, 0xff}, c.Bytes...)
		}
	case "errmap": // an error that was put together by somebody else
		kind = "unknown"
		if !c.Reply {
			body = encodeArgs([]reflect.Value{reflect.ValueOf(map[string]interface{}{"m": "x", "t": "*fx.StructErr", "p": "verif/harness/fx", "d": string(c.Bytes), "c": map[string]interface{}{"d": c.Cut}})}, false)
		}
	}
	if c.Body == "errdata" { // the data of an error does not fit its type
		kind = "unknown"
		bad := []interface{}{"text", []interface{}{1, "x"}, map[string]interface{}{"Code": "abc"}, map[string]interface{}{"Detail": 3}, map[string]interface{}{"List": "x"}, map[string]interface{}{"Ratio": []int{1}}, 7, true}
		var data interface{}
		switch method {
		case "FailStruct", "FailStructBoth":
			data = bad[c.Cut%len(bad)]
		case "FailScalar":
			data = []interface{}{map[string]interface{}{"a": 1}, []interface{}{1, "x"}, 7, true}[c.Cut%4]
		}
		if data != nil && !c.Reply {
			kind = "bad"
			out := append([]reflect.Value(nil), rets...)
			out[len(out)-1] = reflect.ValueOf(map[string]interface{}{"m": "x", "t": "*fx.StructErr", "p": "verif/harness/fx", "d": data})
			body = encodeArgs(out, false)
		}
	}
	ct := contentType(c.Reply)
	switch c.CT {
	case "same":
	default:
		if c.Reply && c.CT != "other" { // anything but msgpack means JSON
			ct = c.CT
			if ct == "none" {
				ct = ""
			}
		} else if c.CT == "other" && kind != "good" {
			ct = contentType(!c.Reply)
			kind = "unknown"
		}
	}
	if (method == "Fail" || method == "FailBoth") && c.Reply && c.Fault == "none" {
		return vr.Result{} // error interfaces are not part of the JSON protocol
	}

	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	rb := &stubBody{data: append([]byte(nil), body...), chunk: c.Chunk}
	handed := false
	status := 200
	tr := &stubTransport{}
	tr.fn = func(r *http.Request) (*http.Response, error) {
		switch c.Fault {
		case "connect":
			return nil, c.err()
		case "cancelWhile":
			cancel()
			<-r.Context().Done()
			return nil, r.Context().Err()
		case "deadline":
			<-r.Context().Done()
			return nil, r.Context().Err()
		}
		if err := r.Context().Err(); err != nil {
			return nil, err
		}
		handed = true
		h := http.Header{}
		if ct != "" {
			h.Set("Content-Type", ct)
		}
		return &http.Response{StatusCode: status, Status: fmt.Sprint(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: rb, ContentLength: -1, Request: r}, nil
	}
	switch c.Fault {
	case "status":
		status = c.Status
	case "read":
		n := len(body)
		if c.Cut >= 0 {
			n = c.Cut % (len(body) + 1)
		}
		rb.data, rb.fail = rb.data[:n], c.err()
	case "cancelReading":
		n := 0
		if len(body) > 0 {
			n = c.Cut % (len(body) + 1)
		}
		rb.data, rb.cancel = rb.data[:n], cancel
	case "canceled":
		cancel()
	case "deadline":
		var dc context.CancelFunc
		ctx, dc = context.WithTimeout(bg, time.Millisecond)
		defer dc()
	}
	base := "http://host"
	if c.Fault == "url" {
		base = []string{"http://ho st", "://x", "http://[::1", "", "host", "http://host:port", "\x7f"}[c.Cut%7]
		tr.fn = func(*http.Request) (*http.Response, error) { return nil, errTransport }
	}

	// the raw client first: result variables are visible there
	vars := make([]reflect.Value, len(rets))
	reply := make([]interface{}, len(rets))
	for i, tt := range retTypes(method) {
		vars[i] = reflect.New(tt)
		if c.Fault != "none" && c.Fault != "body" && tt.Kind() != reflect.Interface {
			vars[i].Elem().Set(val.Build(val.NewSrc([]byte{7, 200, 31, 5, 77, 1, 2, 3}), tt, spec.mode()))
		}
		reply[i] = vars[i].Interface()
	}
	before := make([]string, len(vars))
	for i := range vars {
		before[i] = fmt.Sprintf("%#v", vars[i].Elem().Interface())
	}
	raw := gotsrpc.NewClientWithHttpClient(&http.Client{Transport: tr})
	if c.Call.JSON {
		raw.SetClientEncoding(gotsrpc.EncodingJson)
	}
	args := ifaces(c.Call.args())
	if c.Fault == "encode" {
		args = append(args, complex(1, 2))
	}
	err := raw.Call(ctx, base, "/service/fx", method, args, reply)
	where := fmt.Sprintf("%s: fault %s, status %d, %s body %q as %q", method, c.Fault, status, c.Body, clip(string(body)), ct)

	if handed && rb.closed == 0 {
		return vr.Failf("the response body is not closed", "%s", where)
	}
	untouched := func() vr.Result {
		for i := range vars {
			if after := fmt.Sprintf("%#v", vars[i].Elem().Interface()); after != before[i] {
				return vr.Failf("result variables touched by a failing call", "%s: result %d", where, i)
			}
		}
		return vr.Result{}
	}
	isClientError := func() bool {
		var ce *gotsrpc.ClientError
		return errors.As(err, &ce)
	}
	if err != nil && !isClientError() {
		return vr.Failf("the error is not a client error", "%s: %T %v", where, err, err)
	}
	must := func(cause error, text string) vr.Result {
		if err == nil {
			return vr.Failf("a failure is not reported", "%s", where)
		}
		if cause != nil && !errors.Is(err, cause) {
			return vr.Failf("the cause is not exposed", "%s: want %v in %v", where, cause, err)
		}
		if text != "" && !strings.Contains(err.Error(), text) {
			return vr.Failf("the failure is not described", "%s: %v", where, err)
		}
		return untouched()
	}
	var r vr.Result
	switch c.Fault {
	case "status":
		if r = must(nil, ""); r.Fail != "" {
			break
		}
		var he *gotsrpc.HTTPError
		if !errors.As(err, &he) || he.StatusCode != status {
			r = vr.Failf("the status of the response is not exposed", "%s: %#v", where, err)
			break
		}
		if he.Body != string(body) || !strings.Contains(err.Error(), string(body)) || !strings.Contains(err.Error(), fmt.Sprint(status)) {
			r = vr.Failf("the body of the response is not exposed", "%s: body %q, text %q", where, clip(he.Body), clip(err.Error()))
		}
	case "connect":
		r = must(c.err(), "")
	case "canceled", "cancelWhile", "cancelReading":
		r = must(context.Canceled, "")
		if r.Fail == "" && c.Fault == "canceled" && handed {
			r = vr.Failf("a canceled call was answered", "%s", where)
		}
	case "deadline":
		r = must(context.DeadlineExceeded, "")
	case "read":
		r = must(c.err(), "")
	case "encode":
		r = must(nil, "")
		if r.Fail == "" && tr.reqs > 0 {
			r = vr.Failf("a request without its arguments was sent", "%s", where)
		}
	case "url":
		r = must(nil, "")
	case "none":
		if err != nil {
			r = vr.Failf("a complete 200 response is reported as failure", "%s: %v", where, err)
			break
		}
		if strings.HasPrefix(method, "Fail") && (!c.Reply || method == "Fail" || method == "FailBoth") {
			break // errors are judged by C09
		}
		got := make([]reflect.Value, len(vars))
		for i := range vars {
			got[i] = vars[i].Elem()
		}
		if d := equalAll(got, rets, spec.mode()); d != "" {
			r = vr.Failf("results are not those of the response", "%s: %s", where, d)
		}
	case "body":
		switch kind {
		case "bad":
			if err == nil {
				r = vr.Failf("a truncated response is not reported", "%s", where)
			}
		default:
			if err == nil {
				for i := range vars { // errors made of arbitrary bytes are still usable
					if e, ok := vars[i].Elem().Interface().(error); ok && e != nil && !reflect.ValueOf(e).IsNil() {
						_ = e.Error()
						_ = errors.Is(e, fx.ErrStd)
						var se *fx.StructErr
						_ = errors.As(e, &se)
						_ = fmt.Sprintf("%+v", e)
					}
				}
			}
		}
	}
	if r.Fail != "" {
		return r
	}

	// the generated client reports the same, and names the call
	rb.data, rb.closed, rb.read = append([]byte(nil), body...), 0, 0
	if c.Fault == "cancelReading" {
		rb.data = nil
	}
	if c.Fault == "read" && c.Cut >= 0 {
		rb.data = rb.data[:c.Cut%(len(body)+1)]
	}
	ctx2, cancel2 := context.WithCancel(bg)
	defer cancel2()
	switch c.Fault {
	case "encode":
		return vr.OK("fault:" + c.Fault)
	case "canceled":
		cancel2()
	case "deadline":
		ctx2, cancel2 = context.WithTimeout(bg, time.Millisecond)
		defer cancel2()
	}
	cancel = cancel2
	rb.cancel = nil
	if c.Fault == "cancelReading" {
		rb.cancel = cancel2
	}
	cl := fx.NewSvcGoTSRPCClientWithClient(base, "/service/fx", &http.Client{Transport: tr})
	if c.Call.JSON {
		cl.Client.SetClientEncoding(gotsrpc.EncodingJson)
	}
	outs, err2 := invoke(ctx2, cl, method, c.Call.args())
	if (err == nil) != (err2 == nil) && !(c.Fault == "body" && kind == "unknown") {
		return vr.Failf("the generated client disagrees with the client it uses", "%s: %v / %v", where, err, err2)
	}
	if err2 != nil {
		err = err2
		if !isClientError() {
			return vr.Failf("the error is not a client error", "%s: %T %v", where, err2, err2)
		}
		if !strings.Contains(err2.Error(), "Svc") || !strings.Contains(err2.Error(), method) {
			return vr.Failf("the failing call is not named", "%s: %v", where, err2)
		}
	}
	if err2 == nil && c.Fault == "none" && !strings.HasPrefix(method, "Fail") {
		if d := equalAll(outs, rets, spec.mode()); d != "" {
			return vr.Failf("results are not those of the response", "%s: %s", where, d)
		}
	}
	return vr.OK("fault:"+c.Fault, "body:"+c.Body, fmt.Sprintf("err:%v", err2 != nil))
}
