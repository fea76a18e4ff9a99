package rt

import (
	"bytes"
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"

	"github.com/foomo/gotsrpc/v2"
	"github.com/ugorji/go/codec"
	"pgregory.net/rapid"

	"verif/harness/fx"
	"verif/harness/val"
	"verif/harness/vr"
)

// callSpec is one call of the fixture service, its values being built from entropy.
type callSpec struct {
	Method string `json:"method"`
	Args   []byte `json:"args,omitempty"`
	Rets   []byte `json:"rets,omitempty"`
	JSON   bool   `json:"json,omitempty"`
	Big    int    `json:"big,omitempty"` // kilobytes the strings and bytes of Echo are made of
}

var dataMethods = []string{"Nothing", "Echo", "Rec", "Ptr", "Swap", "Many", "Times", "Any", "Ctx"}

var svcType = reflect.TypeOf((*fx.Svc)(nil)).Elem()

var (
	writerType  = reflect.TypeOf((*http.ResponseWriter)(nil)).Elem()
	requestType = reflect.TypeOf((*http.Request)(nil))
)

func methodType(name string) reflect.Type {
	m, ok := svcType.MethodByName(name)
	if !ok {
		vr.Abort("no method %s", name)
	}
	return m.Type
}

func argTypes(name string) (out []reflect.Type) {
	mt := methodType(name)
	for i := 0; i < mt.NumIn(); i++ {
		if t := mt.In(i); t != writerType && t != requestType {
			out = append(out, t)
		}
	}
	return out
}

func retTypes(name string) (out []reflect.Type) {
	mt := methodType(name)
	for i := 0; i < mt.NumOut(); i++ {
		out = append(out, mt.Out(i))
	}
	return out
}

func buildAll(entropy []byte, types []reflect.Type, m val.Mode) (out []reflect.Value) {
	s := val.NewSrc(entropy)
	for _, t := range types {
		out = append(out, val.Build(s, t, m))
	}
	return out
}

func (c callSpec) mode() val.Mode {
	if c.JSON {
		return val.JSON
	}
	return val.Msgpack
}

func (c callSpec) args() []reflect.Value {
	return c.blow(buildAll(c.Args, argTypes(c.Method), c.mode()), 1)
}
func (c callSpec) rets() []reflect.Value {
	return c.blow(buildAll(c.Rets, retTypes(c.Method), c.mode()), 2)
}

// blow makes the strings and bytes of Echo big.
func (c callSpec) blow(vs []reflect.Value, salt byte) []reflect.Value {
	if c.Big == 0 || c.Method != "Echo" {
		return vs
	}
	b := bytes.Repeat([]byte("abcdefghi\n"), c.Big*1024/10)
	for i := 0; i < len(b); i += 997 {
		b[i] = 'A' + (byte(i/997)+salt)%26
	}
	for i, v := range vs {
		switch v.Kind() {
		case reflect.String:
			vs[i] = reflect.ValueOf(string(b))
		case reflect.Slice:
			vs[i] = reflect.ValueOf(b)
		}
	}
	return vs
}

func drawCall(t *rapid.T, methods []string) callSpec {
	c := callSpec{Method: rapid.SampledFrom(methods).Draw(t, "method"), JSON: rapid.Bool().Draw(t, "json")}
	if len(argTypes(c.Method)) > 0 {
		c.Args = entropy(t, "args", 120)
	}
	if len(retTypes(c.Method)) > 0 {
		c.Rets = entropy(t, "rets", 120)
	}
	if c.Method == "Echo" && rapid.IntRange(0, 9).Draw(t, "big?") == 9 {
		c.Big = rapid.SampledFrom([]int{1, 4, 5, 33, 65, 1025, 3000}).Draw(t, "big")
	}
	return c
}

func ifaces(vs []reflect.Value) []interface{} {
	out := make([]interface{}, len(vs))
	for i, v := range vs {
		out[i] = v.Interface()
	}
	return out
}

// invoke calls a method of a generated client.
func invoke(ctx context.Context, client interface{}, method string, args []reflect.Value) (rets []reflect.Value, err error) {
	m := reflect.ValueOf(client).MethodByName(method)
	if !m.IsValid() {
		vr.Abort("client has no method %s", method)
	}
	in := append([]reflect.Value{reflect.ValueOf(ctx)}, args...)
	out := m.Call(in)
	last := out[len(out)-1]
	if !last.IsNil() {
		err = last.Interface().(error)
	}
	return out[:len(out)-1], err
}

func equalAll(got, want []reflect.Value, m val.Mode) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d values instead of %d", len(got), len(want))
	}
	for i := range got {
		if g, w := val.Canon(got[i], m), val.Canon(want[i], m); g != w {
			return fmt.Sprintf("value %d: got %s want %s", i, clip(g), clip(w))
		}
	}
	return ""
}

// oracle checks that exactly the one call was made with the arguments.
func (c callSpec) checkSeen(calls []call) vr.Result {
	if len(calls) != 1 {
		return vr.Failf("the service method did not run exactly once", "%s: %d calls", c.Method, len(calls))
	}
	if calls[0].method != c.Method {
		return vr.Failf("another method ran", "%s instead of %s", calls[0].method, c.Method)
	}
	if d := equalAll(values2(calls[0].args, argTypes(c.Method)), c.args(), c.mode()); d != "" {
		return vr.Failf("arguments changed on the way", "%s: %s", c.Method, d)
	}
	return vr.Result{}
}

// values2 gives untyped nils their static type back.
func values2(in []interface{}, types []reflect.Type) []reflect.Value {
	out := make([]reflect.Value, len(in))
	for i := range in {
		v := reflect.New(types[i]).Elem()
		if in[i] != nil {
			v.Set(reflect.ValueOf(in[i]))
		}
		out[i] = v
	}
	return out
}

// check performs the call through a generated client.
func (c callSpec) check(client interface{}, s *script) vr.Result {
	want := c.rets()
	s.calls = nil
	s.reply = func(call) []interface{} { return append(ifaces(want), make([]interface{}, 4)...) }
	rets, err := invoke(bg, client, c.Method, c.args())
	if err != nil {
		return vr.Failf("client error for a served call", "%s: %v", c.Method, err)
	}
	if r := c.checkSeen(s.calls); r.Fail != "" {
		return r
	}
	if d := equalAll(rets, want, c.mode()); d != "" {
		return vr.Failf("results changed on the way", "%s: %s", c.Method, d)
	}
	return vr.Result{}
}

// independent codec handles, configured like any peer of the protocol would be
func peerHandle(json bool) codec.Handle {
	if json {
		h := &codec.JsonHandle{}
		h.MapKeyAsString = true
		return h
	}
	h := &codec.MsgpackHandle{}
	h.RawToString = true
	return h
}

// encodeArgs makes a request body without the library: JSON by the reference
// encoding, msgpack by a handle of the harness.
func encodeArgs(args []reflect.Value, json bool) []byte {
	if json {
		parts := make([]string, len(args))
		for i, a := range args {
			parts[i] = val.RefJSON(a)
		}
		return []byte("[" + strings.Join(parts, ",") + "]")
	}
	var b []byte
	if err := codec.NewEncoderBytes(&b, peerHandle(false)).Encode(ifaces(args)); err != nil {
		vr.Abort("encoding arguments: %v", err)
	}
	return b
}

// decodeRets reads a reply without the library.
func diffRets(body []byte, want []reflect.Value, types []reflect.Type, json bool) string {
	if json {
		got, err := val.ParseJSON(body)
		if err != nil {
			return fmt.Sprintf("reply is not JSON: %v: %q", err, clip(string(body)))
		}
		l, ok := got.([]interface{})
		if !ok || len(l) != len(want) {
			return fmt.Sprintf("reply is not a list of %d values: %s", len(want), clip(string(body)))
		}
		for i := range l {
			if d := val.DiffJSON(l[i], val.Ref(want[i])); d != "" {
				return fmt.Sprintf("result %d: %s", i, d)
			}
		}
		return ""
	}
	got := make([]interface{}, len(types))
	vars := make([]reflect.Value, len(types))
	for i := range types {
		vars[i] = reflect.New(types[i])
		got[i] = vars[i].Interface()
	}
	d := codec.NewDecoderBytes(body, peerHandle(false))
	if err := d.Decode(&got); err != nil {
		return fmt.Sprintf("reply does not decode: %v", err)
	}
	if d.NumBytesRead() != len(body) {
		return "trailing bytes in the reply"
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d results instead of %d", len(got), len(want))
	}
	for i := range got {
		if g, w := canonPeer(vars[i].Elem()), canonPeer(want[i]); g != w {
			return fmt.Sprintf("result %d: got %s want %s", i, clip(g), clip(w))
		}
	}
	return ""
}

func canonPeer(v reflect.Value) string { return val.Canon(v, val.Msgpack) }

const (
	ctMsgpack = "application/msgpack; charset=utf-8"
	ctJSON    = "application/json; charset=utf-8"
)

func contentType(json bool) string {
	if json {
		return ctJSON
	}
	return ctMsgpack
}

// post sends a raw request to a handler.
func post(h http.Handler, method, path string, header http.Header, body []byte) *httptest.ResponseRecorder {
	r := httptest.NewRequest(method, "http://host/", bytes.NewReader(body))
	r.URL.Path = path
	for k, vs := range header {
		r.Header[k] = vs
	}
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, r)
	return rec
}

func fxClient(h http.Handler, endPoint string, json bool) *fx.HTTPSvcGoTSRPCClient {
	c := fx.NewSvcGoTSRPCClientWithClient("http://host", endPoint, &http.Client{Transport: &pipe{h: h}})
	if json {
		c.Client.SetClientEncoding(gotsrpc.EncodingJson)
	}
	return c
}
