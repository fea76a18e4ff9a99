package rt

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strconv"
	"testing"

	"github.com/foomo/gotsrpc/v2"
	"pgregory.net/rapid"

	"verif/harness/fx"
	"verif/harness/val"
	"verif/harness/vr"
)

type negCase struct {
	Call callSpec `json:"call"`
	CT   string   `json:"ct"`
	None bool     `json:"none,omitempty"`
	// further headers of the request, and headers of the reply which are there before (by middleware or by the service)
	Accept string `json:"accept,omitempty"`
	Preset int    `json:"preset,omitempty"`
}

var presets = []http.Header{nil,
	{"Content-Type": {"text/plain"}},
	{"Content-Type": {ctMsgpack}},
	{"Content-Type": {ctJSON}},
	{"Content-Type": {"text/html", "text/plain"}, "Content-Length": {"1"}},
	{"Content-Length": {"999999"}},
	{"X-Custom": {"a", "b"}, "Cache-Control": {"no-store"}},
}

func preset(h http.Header, i int) {
	for k, vs := range presets[i] {
		h[k] = append([]string(nil), vs...)
	}
}

var otherCTs = []string{"application/json", "application/msgpack", "Application/Json; charset=utf-8", "APPLICATION/MSGPACK; CHARSET=UTF-8", "application/msgpack;charset=utf-8", "text/plain", "", "application/x-www-form-urlencoded", "application/octet-stream", "json", " application/msgpack; charset=utf-8 x", "text/html; charset=utf-8"}

var ctGen = rapid.OneOf(rapid.Just(ctJSON), rapid.Just(ctMsgpack), rapid.SampledFrom(otherCTs), rapid.StringMatching(`[a-z]{1,8}/[a-z+.-]{1,8}(; ?[a-z]{1,7}=[a-z0-9-]{1,5})?`))

// C16/server: raw requests with every kind of content type.
func TestC16Server(t *testing.T) {
	vr.Run(t, "C16/server", func(t *rapid.T) negCase {
		c := negCase{Call: drawCall(t, dataMethods), CT: ctGen.Draw(t, "ct")}
		c.None = rapid.IntRange(0, 7).Draw(t, "none") == 0
		c.Accept = rapid.OneOf(rapid.Just(""), rapid.Just("*/*"), ctGen).Draw(t, "accept")
		if rapid.Bool().Draw(t, "preset?") {
			c.Preset = rapid.IntRange(-len(presets)+1, len(presets)-1).Draw(t, "preset")
		}
		return c
	}, func(c negCase) vr.Result {
		s := &script{}
		h := svcHandler(s)
		header := http.Header{}
		if !c.None {
			header.Set("Content-Type", c.CT)
		}
		if c.Accept != "" {
			header.Set("Accept", c.Accept)
		}
		spec := c.Call
		spec.JSON = c.None || c.CT != ctMsgpack
		rets := spec.rets()
		var outer http.ResponseWriter
		set := 0
		s.reply = func(cc call) []interface{} {
			if c.Preset < 0 { // by the service
				if cc.w != nil {
					outer = cc.w
				}
				if outer != nil {
					preset(outer.Header(), -c.Preset)
					set = -c.Preset
				}
			}
			return append(ifaces(rets), make([]interface{}, 4)...)
		}
		if c.Preset > 0 { // by middleware
			inner := h
			h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				preset(w.Header(), c.Preset)
				set = c.Preset
				inner.ServeHTTP(w, r)
			})
		}
		rec := post(h, "POST", "/service/fx/"+spec.Method, header, encodeArgs(spec.args(), spec.JSON))
		where := fmt.Sprintf("%s as %q", spec.Method, c.CT)
		if rec.Code != 200 {
			return vr.Failf("a request in the encoding of its content type is refused", "%s: %d %s", where, rec.Code, rec.Body)
		}
		if r := spec.checkSeen(s.calls); r.Fail != "" {
			r.Detail = where + ": " + r.Detail
			return r
		}
		if got := rec.Header()["Content-Type"]; len(got) != 1 || got[0] != contentType(spec.JSON) {
			return vr.Failf("the reply announces another encoding", "%s: %q", where, got)
		}
		if got := rec.Header()["Content-Length"]; len(got) != 1 || got[0] != strconv.Itoa(rec.Body.Len()) {
			return vr.Failf("the content length of the reply is wrong", "%s: %q for %d bytes", where, got, rec.Body.Len())
		}
		for k, vs := range presets[set] {
			if k != "Content-Type" && k != "Content-Length" && !reflect.DeepEqual(rec.Header()[k], vs) {
				return vr.Failf("a header of the service is lost", "%s: %s: %q", where, k, rec.Header()[k])
			}
		}
		if d := diffRets(rec.Body.Bytes(), rets, retTypes(spec.Method), spec.JSON); d != "" {
			return vr.Failf("the reply is not in the encoding of the request", "%s: %s", where, d)
		}
		return vr.Result{NonTrivial: len(rets) > 0, Classes: []string{fmt.Sprintf("json:%v exact:%v", spec.JSON, c.CT == ctJSON || c.CT == ctMsgpack)}}
	})
}

type pairCase struct {
	Call      callSpec `json:"call"`
	ReplyJSON bool     `json:"replyJSON"`
	CT        string   `json:"ct"` // for JSON replies
	Error     bool     `json:"error,omitempty"`
}

// C16/client: the reply decides how it is decoded.
func TestC16Client(t *testing.T) {
	vr.Run(t, "C16/client", func(t *rapid.T) pairCase {
		return pairCase{drawCall(t, dataMethods[1:]), rapid.Bool().Draw(t, "replyJSON"), ctGen.Draw(t, "ct"), rapid.IntRange(0, 5).Draw(t, "error") == 0}
	}, func(c pairCase) vr.Result {
		mode := val.Msgpack
		ct := ctMsgpack
		if c.ReplyJSON {
			mode, ct = val.JSON, c.CT
			if ct == ctMsgpack {
				ct = ctJSON
			}
		}
		replied := c.Call
		replied.JSON = mode == val.JSON
		rets := replied.rets()
		body := encodeArgs(rets, c.ReplyJSON)
		if c.Error && !c.ReplyJSON {
			body = encodeArgs([]reflect.Value{reflect.ValueOf(gotsrpc.NewError(fx.ErrStd))}, false)
		}
		tr := &stubTransport{fn: func(r *http.Request) (*http.Response, error) {
			return &http.Response{StatusCode: 200, Header: http.Header{"Content-Type": {ct}}, Body: io.NopCloser(bytes.NewReader(body)), Request: r}, nil
		}}
		cl := fx.NewSvcGoTSRPCClientWithClient("http://host", "/service/fx", &http.Client{Transport: tr})
		if c.Call.JSON {
			cl.Client.SetClientEncoding(gotsrpc.EncodingJson)
		}
		where := fmt.Sprintf("%s: sent as json=%v, replied as %q", c.Call.Method, c.Call.JSON, ct)
		if c.Error && !c.ReplyJSON {
			got, err := cl.Fail(bg, "")
			if err != nil {
				return vr.Failf("a reply in another encoding is not understood", "%s: %v", where, err)
			}
			if r := judge(got, fx.ErrStd); r.Fail != "" {
				return r
			}
			return vr.OK("error")
		}
		got, err := invoke(bg, cl, c.Call.Method, c.Call.args())
		if err != nil {
			return vr.Failf("a reply in another encoding is not understood", "%s: %v", where, err)
		}
		if d := equalAll(got, rets, mode); d != "" {
			return vr.Failf("a reply in another encoding is misread", "%s: %s", where, d)
		}
		return vr.OK(fmt.Sprintf("sent json:%v reply json:%v", c.Call.JSON, c.ReplyJSON))
	})
}

// C16/both: the same call through both encodings is observably the same.
func TestC16Both(t *testing.T) {
	vr.Run(t, "C16/both", func(t *rapid.T) callSpec {
		c := drawCall(t, dataMethods)
		c.JSON = true // values both encodings can carry
		return c
	}, func(c callSpec) vr.Result {
		args, rets := c.args(), c.rets()
		var seen [2][]reflect.Value
		var got [2][]reflect.Value
		for i := 0; i < 2; i++ {
			s := &script{}
			s.reply = func(call) []interface{} { return append(ifaces(rets), make([]interface{}, 4)...) }
			out, err := invoke(bg, svcClient(&pipe{h: svcHandler(s)}, i == 1), c.Method, args)
			if err != nil {
				return vr.Failf("client error for a served call", "json=%v %s: %v", i == 1, c.Method, err)
			}
			if len(s.calls) != 1 {
				return vr.Failf("the service method did not run exactly once", "%s: %d calls", c.Method, len(s.calls))
			}
			seen[i], got[i] = values2(s.calls[0].args, argTypes(c.Method)), out
		}
		if d := equalAll(seen[0], seen[1], val.JSON); d != "" && !zeroTimePtr(args) {
			return vr.Failf("the encodings deliver different arguments", "%s: msgpack vs json: %s", c.Method, d)
		}
		if d := equalAll(got[0], got[1], val.JSON); d != "" && !zeroTimePtr(rets) {
			return vr.Failf("the encodings deliver different results", "%s: msgpack vs json: %s", c.Method, d)
		}
		return vr.Result{NonTrivial: len(args)+len(rets) > 0, Classes: []string{c.Method}}
	})
}

// zeroTimePtr: known finding of C10 (msgpack sends a pointer to the zero time as nil).
func zeroTimePtr(vs []reflect.Value) bool {
	for _, v := range vs {
		if val.HasZeroTimePtr(v) {
			return true
		}
	}
	return false
}
