// Package rt checks the run-time library through the fixture services, whose
// proxies and clients are generated by the generator under test.
package rt

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"verif/harness/vr"

	"github.com/foomo/gotsrpc/v2"
	"pgregory.net/rapid"

	"verif/harness/fx"
)

// pipe is a transport that hands requests straight to a handler.
type pipe struct {
	h http.Handler
	// recorded
	reqs  []*http.Request
	body  [][]byte
	resps []*httptest.ResponseRecorder
}

func (p *pipe) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		b, err := io.ReadAll(r.Body)
		if err != nil {
			return nil, err
		}
		_ = r.Body.Close()
		body = b
	}
	sr := httptest.NewRequest(r.Method, r.URL.String(), bytes.NewReader(body)).WithContext(r.Context())
	sr.Header = r.Header.Clone()
	p.reqs = append(p.reqs, r)
	p.body = append(p.body, body)
	rec := httptest.NewRecorder()
	p.h.ServeHTTP(rec, sr)
	p.resps = append(p.resps, rec)
	return rec.Result(), nil
}

// call is one invocation the service saw.
type call struct {
	method string
	args   []interface{}
	w      http.ResponseWriter
	r      *http.Request
}

// script is a scriptable service recording its calls.
type script struct {
	calls []call
	reply func(c call) []interface{}
}

func (s *script) impl() *fx.Impl {
	return &fx.Impl{Fn: func(method string, w http.ResponseWriter, r *http.Request, args ...interface{}) []interface{} {
		c := call{method, args, w, r}
		s.calls = append(s.calls, c)
		if s.reply == nil {
			return make([]interface{}, 16)
		}
		return s.reply(c)
	}}
}

func svcHandler(s *script) http.Handler {
	return fx.NewDefaultSvcGoTSRPCProxy(s.impl())
}

func svcClient(p *pipe, json bool) *fx.HTTPSvcGoTSRPCClient {
	c := fx.NewSvcGoTSRPCClientWithClient("http://host", "/service/fx", &http.Client{Transport: p})
	if json {
		c.Client.SetClientEncoding(gotsrpc.EncodingJson)
	}
	return c
}

var bg = context.Background()

func values(in []interface{}) []reflect.Value {
	out := make([]reflect.Value, len(in))
	for i := range in {
		out[i] = reflect.ValueOf(in[i])
	}
	return out
}

// entropy draws a string of bytes that shrinks towards short and zero.
func entropy(t *rapid.T, label string, max int) []byte {
	return vr.Entropy(t, label, max)
}

func safely(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	f()
	return nil
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func join(s []string) string { return strings.Join(s, ", ") }
