// Package drv runs inside the programs made for the generator: it calls the
// generated clients and proxies on request and judges what happens.
package drv

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/foomo/gotsrpc/v2"

	"verif/harness/val"
)

// Fn receives the calls of a mocked service.
type Fn func(method string, w http.ResponseWriter, r *http.Request, args ...interface{}) []interface{}

// As gives a result its type back.
func As[T any](v interface{}) (t T) {
	t, _ = v.(T)
	return t
}

// RPCServer is a generated GoRPC proxy.
type RPCServer interface {
	Start() error
	Stop()
	SetCallStatsHandler(handler gotsrpc.GoRPCCallStatsHandlerFun)
}

// RPCClient is a generated GoRPC client.
type RPCClient interface {
	Start()
	Stop()
}

// Svc is a service with its generated code.
type Svc struct {
	Package, Name, Endpoint string
	Methods                 []Method
	Proxy                   func(fn Fn) http.Handler
	Client                  func(url string, c *http.Client) interface{}
	SetJSON                 func(client interface{})
	RPC                     func(addr string, fn Fn) RPCServer
	RPCClient               func(addr string) RPCClient
}

// Method of a service.
type Method struct {
	Name string
	Ctx  bool
	// Args and Rets are filled from the type of the service
	Func interface{} // method expression of the service
	Rets []string    // names
}

// Req is a request to the driver.
type Req struct {
	Op     string          `json:"op"`
	Svc    int             `json:"svc"`
	Method int             `json:"method"`
	Mode   string          `json:"mode,omitempty"`
	Args   []byte          `json:"args,omitempty"`
	Rets   []byte          `json:"rets,omitempty"`
	Write  int             `json:"write,omitempty"` // what Ctx methods write: 0 nothing, 1 header, 2 status 200, 3 other status
	Value  json.RawMessage `json:"value,omitempty"`
	Absent bool            `json:"absent,omitempty"`
	Type   string          `json:"type,omitempty"`
}

// Resp is its answer.
type Resp struct {
	Fail       string          `json:"fail,omitempty"`
	Detail     string          `json:"detail,omitempty"`
	Abort      string          `json:"abort,omitempty"`
	NonTrivial bool            `json:"nontrivial,omitempty"`
	Key        string          `json:"key,omitempty"`
	URL        string          `json:"url,omitempty"`
	Args       json.RawMessage `json:"args,omitempty"`
	Rets       json.RawMessage `json:"rets,omitempty"`
	ReqWire    string          `json:"reqWire,omitempty"`
	Unions     int             `json:"unions,omitempty"` // in the results
	RespWire   string          `json:"respWire,omitempty"`
}

func failf(cat, format string, args ...interface{}) Resp {
	return Resp{Fail: cat, Detail: fmt.Sprintf(format, args...)}
}

var (
	writerType  = reflect.TypeOf((*http.ResponseWriter)(nil)).Elem()
	requestType = reflect.TypeOf((*http.Request)(nil))
	errorType   = reflect.TypeOf((*error)(nil)).Elem()
)

type seen struct {
	svc    int
	method string
	w      http.ResponseWriter
	r      *http.Request
	args   []interface{}
}

type driver struct {
	svcs  []*Svc
	proxy []http.Handler
	mu    sync.Mutex
	calls []seen
	reply func(c seen) []interface{}
	url   string
	rpc   map[int]*rpcPair
	srv   *httptest.Server
}

type rpcPair struct {
	server RPCServer
	client RPCClient
	stats  []*gotsrpc.CallStats
}

// Main serves requests of the harness on stdin and stdout.
func Main(svcs []*Svc) {
	d := &driver{svcs: svcs, rpc: map[int]*rpcPair{}}
	for i, s := range svcs {
		if s.Proxy == nil {
			d.proxy = append(d.proxy, nil)
			continue
		}
		d.proxy = append(d.proxy, s.Proxy(d.fn(i)))
	}
	out := bufio.NewWriter(os.Stdout)
	os.Stdout = os.Stderr
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var r Req
		var resp Resp
		if err := json.Unmarshal(line, &r); err != nil {
			resp.Abort = err.Error()
		} else {
			resp = d.guarded(r)
		}
		b, err := json.Marshal(resp)
		if err != nil {
			b, _ = json.Marshal(Resp{Abort: err.Error()})
		}
		_, _ = out.Write(append(b, '\n'))
		_ = out.Flush()
	}
}

func (d *driver) guarded(r Req) (resp Resp) {
	defer func() {
		if x := recover(); x != nil {
			resp = failf("panic", "panic: %v\n%s", x, debug.Stack())
		}
	}()
	switch r.Op {
	case "go":
		return d.goCall(r)
	case "rpc":
		return d.rpcCall(r)
	case "rpcdown":
		return d.rpcDown(r)
	case "serve":
		return d.serve(r)
	case "prep":
		return d.prep(r)
	case "done":
		return d.done(r)
	case "wire":
		return d.wire(r)
	case "endpoint":
		return d.endpoint(r)
	}
	return Resp{Abort: "unknown op " + r.Op}
}

func (d *driver) fn(i int) Fn {
	return func(method string, w http.ResponseWriter, r *http.Request, args ...interface{}) []interface{} {
		c := seen{i, method, w, r, args}
		d.mu.Lock()
		d.calls = append(d.calls, c)
		reply := d.reply
		d.mu.Unlock()
		if reply == nil {
			return make([]interface{}, 32)
		}
		return append(reply(c), make([]interface{}, 8)...)
	}
}

func (m *Method) types() (args, rets []reflect.Type) {
	t := reflect.TypeOf(m.Func)
	for i := 1; i < t.NumIn(); i++ {
		if m.Ctx && i <= 2 {
			continue
		}
		args = append(args, t.In(i))
	}
	for i := 0; i < t.NumOut(); i++ {
		rets = append(rets, t.Out(i))
	}
	return
}

func build(entropy []byte, types []reflect.Type, m val.Mode) (out []reflect.Value) {
	s := val.NewSrc(entropy)
	for _, t := range types {
		v := val.Build(s, t, m)
		if t == errorType && s.N(3) == 1 && m == val.Msgpack {
			v.Set(reflect.ValueOf(errors.New("err " + val.BuildString(s, val.JS))))
		}
		out = append(out, v)
	}
	return out
}

func ifaces(vs []reflect.Value) []interface{} {
	out := make([]interface{}, len(vs))
	for i, v := range vs {
		out[i] = v.Interface()
	}
	return out
}

func typed(in []interface{}, types []reflect.Type) ([]reflect.Value, bool) {
	if len(in) != len(types) {
		return nil, false
	}
	out := make([]reflect.Value, len(in))
	for i := range in {
		v := reflect.New(types[i]).Elem()
		if in[i] != nil {
			v.Set(reflect.ValueOf(in[i]))
		}
		out[i] = v
	}
	return out, true
}

func canon(v reflect.Value, m val.Mode) string {
	if v.Type() == errorType {
		if v.IsNil() {
			return "nil"
		}
		return "error " + v.Interface().(error).Error()
	}
	return val.Canon(v, m)
}

func equalAll(got, want []reflect.Value, m val.Mode) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d values instead of %d", len(got), len(want))
	}
	for i := range got {
		if g, w := canon(got[i], m), canon(want[i], m); g != w {
			return fmt.Sprintf("value %d: got %s want %s", i, clip(g), clip(w))
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

type pipe struct {
	d    *driver
	svc  int
	w    http.ResponseWriter
	r    *http.Request
	req  []byte
	resp []byte
	code int
	n    int
}

func (p *pipe) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		_ = r.Body.Close()
	}
	p.n++
	p.req = body
	sr := httptest.NewRequest(r.Method, r.URL.String(), bytes.NewReader(body)).WithContext(r.Context())
	sr.Header = r.Header.Clone()
	sr.Header.Set("X-Verif-Live", "1")
	rec := httptest.NewRecorder()
	p.w, p.r = rec, sr
	p.d.proxy[p.svc].ServeHTTP(rec, sr)
	p.resp = rec.Body.Bytes()
	p.code = rec.Code
	return rec.Result(), nil
}

func (d *driver) reset(rets []reflect.Value, write int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.calls = nil
	d.reply = func(c seen) []interface{} {
		if c.w != nil {
			switch write {
			case 1:
				c.w.Header().Set("X-Verif-Set", "yes")
			case 2:
				c.w.WriteHeader(http.StatusOK)
			case 3:
				c.w.WriteHeader(http.StatusTeapot)
				_, _ = c.w.Write([]byte("teapot"))
			}
		}
		return ifaces(rets)
	}
}

func (d *driver) seen() []seen {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]seen(nil), d.calls...)
}

func (d *driver) checkSeen(r Req, args []reflect.Value, types []reflect.Type, m val.Mode) (Resp, []seen) {
	s, me := d.svcs[r.Svc], &d.svcs[r.Svc].Methods[r.Method]
	calls := d.seen()
	if len(calls) != 1 {
		return failf("the service method did not run exactly once", "%s.%s: %d calls", s.Name, me.Name, len(calls)), calls
	}
	c := calls[0]
	if c.svc != r.Svc || c.method != me.Name {
		return failf("another method ran", "%s.%s instead of %s.%s", d.svcs[c.svc].Name, c.method, s.Name, me.Name), calls
	}
	got, ok := typed(c.args, types)
	if !ok {
		return failf("arguments changed on the way", "%s.%s: %d arguments", s.Name, me.Name, len(c.args)), calls
	}
	if diff := equalAll(got, args, m); diff != "" {
		return failf("arguments changed on the way", "%s.%s: %s", s.Name, me.Name, diff), calls
	}
	return Resp{}, calls
}

// goCall: through the generated HTTP client.
func (d *driver) goCall(r Req) Resp {
	s, me := d.svcs[r.Svc], &d.svcs[r.Svc].Methods[r.Method]
	m := val.Mode(r.Mode)
	at, rt := me.types()
	args, want := build(r.Args, at, m), build(r.Rets, rt, m)
	write := 0
	if me.Ctx {
		write = r.Write
	}
	d.reset(want, write)
	p := &pipe{d: d, svc: r.Svc}
	client := s.Client("http://host", &http.Client{Transport: p})
	if m == val.JSON {
		s.SetJSON(client)
	}
	cm := reflect.ValueOf(client).MethodByName(me.Name)
	if !cm.IsValid() {
		return failf("the client has no such method", "%s.%s", s.Name, me.Name)
	}
	out := cm.Call(append([]reflect.Value{reflect.ValueOf(context.Background())}, args...))
	var err error
	if last := out[len(out)-1]; !last.IsNil() {
		err = last.Interface().(error)
	}
	out = out[:len(out)-1]
	resp, calls := d.checkSeen(r, args, at, m)
	if resp.Fail != "" {
		if err != nil {
			resp.Detail += " (client error " + clip(err.Error()) + ")"
		}
		return resp
	}
	if p.n != 1 {
		return failf("not exactly one request", "%s.%s: %d requests", s.Name, me.Name, p.n)
	}
	if me.Ctx {
		if calls[0].r == nil || calls[0].r.Header.Get("X-Verif-Live") != "1" || calls[0].r.Context() == nil {
			return failf("the method did not get the live request", "%s.%s", s.Name, me.Name)
		}
		if write == 3 {
			if p.code != http.StatusTeapot || string(p.resp) != "teapot" {
				return failf("what the method wrote itself is not the answer", "%s.%s: %d %q", s.Name, me.Name, p.code, clip(string(p.resp)))
			}
			if err == nil {
				return failf("no client error for another status", "%s.%s", s.Name, me.Name)
			}
			return Resp{NonTrivial: true, Key: s.Name + me.Name + "status"}
		}
		if write == 1 && p.w.Header().Get("X-Verif-Set") != "yes" {
			return failf("the method did not get the live response writer", "%s.%s", s.Name, me.Name)
		}
	}
	if err != nil {
		return failf("client error for a served call", "%s.%s: %v", s.Name, me.Name, clip(err.Error()))
	}
	if diff := equalAll(out, want, m); diff != "" {
		return failf("results changed on the way", "%s.%s: %s", s.Name, me.Name, diff)
	}
	return Resp{NonTrivial: len(at)+len(rt) > 0, Key: me.Name + string(m) + strings.Join(append(val.CanonAll(plain(args), m), val.CanonAll(plain(want), m)...), ",")}
}

func plain(vs []reflect.Value) (out []reflect.Value) {
	for _, v := range vs {
		if v.Type() != errorType {
			out = append(out, v)
		}
	}
	return out
}

// wire: the JSON bodies of a call made with the generated client.
func (d *driver) wire(r Req) Resp {
	s, me := d.svcs[r.Svc], &d.svcs[r.Svc].Methods[r.Method]
	at, rt := me.types()
	args, want := build(r.Args, at, val.JS), build(r.Rets, rt, val.JS)
	d.reset(want, 0)
	p := &pipe{d: d, svc: r.Svc}
	client := s.Client("http://host", &http.Client{Transport: p})
	s.SetJSON(client)
	out := reflect.ValueOf(client).MethodByName(me.Name).Call(append([]reflect.Value{reflect.ValueOf(context.Background())}, args...))
	for i, t := range at {
		if val.HasUnion(t) { // a service cannot take them
			got, err := val.ParseJSON(p.req)
			if err != nil {
				return failf("arguments are not JSON", "%s.%s: %v: %s", s.Name, me.Name, err, clip(string(p.req)))
			}
			l, ok := got.([]interface{})
			if !ok || len(l) != len(args) {
				return failf("the request is not the list of arguments", "%s.%s: %s", s.Name, me.Name, clip(string(p.req)))
			}
			for j := range args {
				if diff := val.DiffJSON(l[j], val.Ref(args[j])); diff != "" {
					return failf("an argument is not encoded as its JSON", "%s.%s argument %d: %s", s.Name, me.Name, j, diff)
				}
			}
			n, _, _ := val.CountUnions(args[i])
			return Resp{Unions: n, NonTrivial: true, ReqWire: string(p.req), Key: me.Name + string(p.req)}
		}
	}
	if p.n != 1 || p.code != 200 {
		return failf("call not served", "%s.%s: %d requests, status %d %s, %v", s.Name, me.Name, p.n, p.code, clip(string(p.resp)), out[len(out)-1].Interface())
	}
	// the bodies are what the reference says
	if len(rt) > 0 {
		got, err := val.ParseJSON(p.resp)
		if err != nil {
			return failf("reply is not JSON", "%s.%s: %v: %s", s.Name, me.Name, err, clip(string(p.resp)))
		}
		l, ok := got.([]interface{})
		if !ok || len(l) != len(want) {
			return failf("reply is not the list of results", "%s.%s: %s", s.Name, me.Name, clip(string(p.resp)))
		}
		for i := range want {
			if diff := val.DiffJSON(l[i], val.Ref(want[i])); diff != "" {
				return failf("a result is not encoded as its JSON", "%s.%s result %d: %s", s.Name, me.Name, i, diff)
			}
		}
	}
	unions := 0
	for _, w := range want {
		if n, _, _ := val.CountUnions(w); n > 0 {
			unions += n
		}
	}
	return Resp{Unions: unions, NonTrivial: len(at)+len(rt) > 0, ReqWire: string(p.req), RespWire: string(p.resp), Key: me.Name + string(p.req) + string(p.resp)}
}

// ---- TypeScript clients: through a real server ----

func (d *driver) serve(Req) Resp {
	if d.srv == nil {
		// a mux which takes paths as they are: the longest endpoint wins
		d.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			best := -1
			for i, s := range d.svcs {
				if d.proxy[i] != nil && strings.HasPrefix(r.URL.Path, s.Endpoint+"/") && (best < 0 || len(s.Endpoint) > len(d.svcs[best].Endpoint)) {
					best = i
				}
			}
			if best < 0 {
				http.NotFound(w, r)
				return
			}
			d.proxy[best].ServeHTTP(w, r)
		}))
	}
	return Resp{URL: d.srv.URL}
}

// prep: arms the next call and says the arguments a JavaScript caller passes.
func (d *driver) prep(r Req) Resp {
	me := &d.svcs[r.Svc].Methods[r.Method]
	at, rt := me.types()
	args, want := build(r.Args, at, val.JS), build(r.Rets, rt, val.JS)
	d.reset(want, 0)
	parts := make([]string, len(args))
	for i, a := range args {
		parts[i] = val.RefJSON(a)
	}
	return Resp{Args: json.RawMessage("[" + strings.Join(parts, ",") + "]")}
}

// done: the call has been made, its promise resolved to Value (Absent: undefined).
func (d *driver) done(r Req) Resp {
	s, me := d.svcs[r.Svc], &d.svcs[r.Svc].Methods[r.Method]
	at, rt := me.types()
	args, want := build(r.Args, at, val.JS), build(r.Rets, rt, val.JS)
	resp, _ := d.checkSeen(r, args, at, val.JS)
	if resp.Fail != "" {
		return resp
	}
	key := me.Name + strings.Join(append(val.CanonAll(args, val.JS), val.CanonAll(want, val.JS)...), ",")
	ok := Resp{NonTrivial: len(at)+len(rt) > 0, Key: key}
	where := s.Name + "." + me.Name
	if len(rt) == 0 {
		if !r.Absent {
			return failf("a method without results resolves to something", "%s: %s", where, clip(string(r.Value)))
		}
		return ok
	}
	if r.Absent {
		return failf("the promise resolves to nothing", "%s", where)
	}
	got, err := val.ParseJSON(r.Value)
	if err != nil {
		return Resp{Abort: err.Error()}
	}
	if len(rt) == 1 {
		if diff := val.DiffJSON(got, val.Ref(want[0])); diff != "" {
			return failf("the promise does not resolve to the result", "%s: %s", where, diff)
		}
		return ok
	}
	ref := val.Object{}
	for i := range rt {
		ref[me.Rets[i]] = val.Ref(want[i])
	}
	if diff := val.DiffJSON(got, ref); diff != "" {
		return failf("the promise does not resolve to the object of results", "%s: %s", where, diff)
	}
	return ok
}

// ---- GoRPC ----

func freePort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "127.0.0.1:0"
	}
	defer l.Close()
	return l.Addr().String()
}

func (d *driver) pair(i int) (*rpcPair, error) {
	if p := d.rpc[i]; p != nil {
		return p, nil
	}
	s := d.svcs[i]
	var last error
	for try := 0; try < 20; try++ {
		addr := freePort()
		p := &rpcPair{server: s.RPC(addr, d.fn(i))}
		p.server.SetCallStatsHandler(func(st *gotsrpc.CallStats) {
			d.mu.Lock()
			p.stats = append(p.stats, st)
			d.mu.Unlock()
		})
		if last = p.server.Start(); last != nil {
			continue
		}
		p.client = s.RPCClient(addr)
		setClient(p.client, 30*time.Second)
		p.client.Start()
		d.rpc[i] = p
		return p, nil
	}
	return nil, last
}

// setClient silences the logger and limits how long a call takes.
func setClient(c RPCClient, timeout time.Duration) {
	f := reflect.ValueOf(c).Elem().FieldByName("Client").Elem()
	if !f.IsValid() {
		return
	}
	f.FieldByName("RequestTimeout").Set(reflect.ValueOf(timeout))
	f.FieldByName("Conns").SetInt(1)
}

func rpcInvoke(c RPCClient, method string, args []reflect.Value) ([]reflect.Value, error, bool) {
	cm := reflect.ValueOf(c).MethodByName(method)
	if !cm.IsValid() {
		return nil, nil, false
	}
	out := cm.Call(args)
	var err error
	if last := out[len(out)-1]; !last.IsNil() {
		err = last.Interface().(error)
	}
	return out[:len(out)-1], err, true
}

func (d *driver) rpcCall(r Req) Resp {
	s, me := d.svcs[r.Svc], &d.svcs[r.Svc].Methods[r.Method]
	p, err := d.pair(r.Svc)
	if err != nil {
		return Resp{Abort: "no gorpc server: " + err.Error()}
	}
	at, rt := me.types()
	args, want := build(r.Args, at, val.Gob), build(r.Rets, rt, val.Gob)
	d.reset(want, 0)
	d.mu.Lock()
	p.stats = nil
	d.mu.Unlock()
	if r.Write == 1 {
		p.server.SetCallStatsHandler(nil)
		defer p.server.SetCallStatsHandler(func(st *gotsrpc.CallStats) {
			d.mu.Lock()
			p.stats = append(p.stats, st)
			d.mu.Unlock()
		})
	}
	start := time.Now()
	out, err, ok := rpcInvoke(p.client, me.Name, args)
	took := time.Since(start)
	if !ok {
		return failf("the client has no such method", "%s.%s", s.Name, me.Name)
	}
	where := s.Name + "." + me.Name
	if err != nil {
		return failf("client error for a served call", "%s: %v", where, err)
	}
	resp, calls := d.checkSeen(r, args, at, val.Gob)
	if resp.Fail != "" {
		return resp
	}
	if me.Ctx && (calls[0].w != nil || calls[0].r != nil) {
		return failf("HTTP writer or request are not nil", "%s", where)
	}
	if diff := equalAll(out, want, val.Gob); diff != "" {
		return failf("results changed on the way", "%s: %s", where, diff)
	}
	d.mu.Lock()
	stats := p.stats
	d.mu.Unlock()
	if r.Write == 1 {
		if len(stats) != 0 {
			return failf("a record without a handler", "%s", where)
		}
	} else {
		if len(stats) != 1 {
			return failf("not exactly one record per request", "%s: %d records", where, len(stats))
		}
		st := stats[0]
		if st.Package != s.Package || st.Service != s.Name || st.Func != s.Name+me.Name+"Request" {
			return failf("the record does not name package, service and request", "%s: %q %q %q", where, st.Package, st.Service, st.Func)
		}
		if st.Execution < 0 || st.Execution > took {
			return failf("the recorded execution time is impossible", "%s: %s of %s", where, st.Execution, took)
		}
	}
	return Resp{NonTrivial: len(at)+len(rt) > 0, Key: me.Name + strings.Join(append(val.CanonAll(args, val.Gob), val.CanonAll(want, val.Gob)...), ",")}
}

// rpcDown: nobody listens, or the call takes longer than the client waits.
func (d *driver) rpcDown(r Req) Resp {
	s, me := d.svcs[r.Svc], &d.svcs[r.Svc].Methods[r.Method]
	at, _ := me.types()
	args := build(r.Args, at, val.Gob)
	addr := freePort()
	release := make(chan struct{})
	defer close(release)
	if r.Write == 1 {
		srv := s.RPC(addr, func(string, http.ResponseWriter, *http.Request, ...interface{}) []interface{} {
			<-release
			return make([]interface{}, 32)
		})
		if err := srv.Start(); err != nil {
			return Resp{Key: "port taken"}
		}
	}
	c := s.RPCClient(addr)
	setClient(c, 60*time.Millisecond)
	c.Start()
	defer c.Stop()
	done := make(chan error, 1)
	go func() {
		_, err, _ := rpcInvoke(c, me.Name, args)
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			return failf("no client error although nobody answered", "%s.%s", s.Name, me.Name)
		}
	case <-time.After(20 * time.Second):
		return failf("the call hangs", "%s.%s", s.Name, me.Name)
	}
	return Resp{NonTrivial: true, Key: fmt.Sprint("down", r.Write, me.Name)}
}

// endpoint decides whether the generated proxy and client of a service are
// bound to its endpoint by default.
func (d *driver) endpoint(r Req) Resp {
	s := d.svcs[r.Svc]
	n := 0
	for i := range s.Methods {
		me := &s.Methods[i]
		if d.proxy[r.Svc] != nil {
			post := func(path string) int {
				d.reset(nil, 0)
				d.mu.Lock()
				d.reply = nil
				d.mu.Unlock()
				req := httptest.NewRequest(http.MethodPost, "http://host"+path, strings.NewReader("{"))
				req.Header.Set("Content-Type", "application/json")
				rec := httptest.NewRecorder()
				d.proxy[r.Svc].ServeHTTP(rec, req)
				return rec.Code
			}
			path := s.Endpoint + "/" + me.Name
			if code := post(path); code == http.StatusNotFound {
				return failf("the default proxy does not serve the configured endpoint", "%s.%s: %s answers %d", s.Package, s.Name, path, code)
			}
			if code := post("/zz" + path); code != http.StatusNotFound {
				return failf("the default proxy serves another endpoint", "%s.%s: /zz%s answers %d", s.Package, s.Name, path, code)
			}
			n++
		}
		if s.Client != nil {
			at, _ := me.types()
			rec := &recorder{}
			client := s.Client("http://host", &http.Client{Transport: rec})
			args := []reflect.Value{reflect.ValueOf(context.Background())}
			for _, t := range at {
				args = append(args, reflect.Zero(t))
			}
			reflect.ValueOf(client).MethodByName(me.Name).Call(args)
			if want := "http://host" + s.Endpoint + "/" + me.Name; rec.url != want {
				return failf("the default client does not call the configured endpoint", "%s.%s: %s instead of %s", s.Package, s.Name, rec.url, want)
			}
			n++
		}
	}
	return Resp{NonTrivial: n > 0, Key: s.Package + s.Name + s.Endpoint}
}

type recorder struct{ url string }

func (c *recorder) RoundTrip(r *http.Request) (*http.Response, error) {
	c.url = r.URL.String()
	return nil, io.EOF
}
