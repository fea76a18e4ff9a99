package rt

import (
	"bytes"
	"fmt"
	"net/http"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/fx"
	"verif/harness/vr"
)

// rawReq is one request to a proxy.
type rawReq struct {
	HTTP  string   `json:"http"`
	Path  string   `json:"path"` // see paths
	Call  callSpec `json:"call"`
	CT    string   `json:"ct"` // content type header, "-" for none
	Body  string   `json:"body"`
	Cut   int      `json:"cut,omitempty"`
	Bytes []byte   `json:"bytes,omitempty"`
	// things which must not matter
	Extra   []string `json:"extra,omitempty"` // further headers
	Query   string   `json:"query,omitempty"`
	Chunked bool     `json:"chunked,omitempty"` // a body of unknown length
	// what a method with a writer does itself
	Own       int    `json:"own,omitempty"` // status, 0 for none
	OwnBody   string `json:"ownBody,omitempty"`
	OwnHeader string `json:"ownHeader,omitempty"`
	Explicit  bool   `json:"explicit,omitempty"`
	Info      bool   `json:"info,omitempty"`  // an informational response goes first
	OK        bool   `json:"ok,omitempty"`    // writes the status 200 itself
	Again     int    `json:"again,omitempty"` // writes a further status, which comes too late
}

type c12Case struct {
	EndPoint string   `json:"endPoint"`
	Reqs     []rawReq `json:"reqs"`
}

var httpMethods = []string{"POST", "POST", "POST", "POST", "POST", "POST", "POST", "POST", "POST", "POST", "POST", "POST", "POST", "POST", "POST", "POST", "POST", "OPTIONS", "GET", "PUT", "HEAD", "DELETE", "PATCH", "TRACE", "CONNECT", "post", "options", "FOO", "OPTIONSX"}

var pathKinds = []string{"ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "noendpoint", "twice", "unknown", "lower", "suffix", "prefix", "slash", "empty", "sub", "escaped", "const", "random", "glued", "doubled", "dot", "dotdot", "case", "semicolon", "blank", "dotted"}

var bodyKinds = []string{"valid", "valid", "valid", "valid", "cut", "cut", "mutate", "mutate", "random", "empty", "fewer", "more", "type", "null", "trailing", "object", "swapenc", "bomb"}

var endPoints = []string{"/service/fx", "/service/fx", "", "/", "/a", "/a/b/c", "/with space", "/ü", "/Echo", "/service/fx/"}

func (q rawReq) path(ep string) string {
	m := q.Call.Method
	switch q.Path {
	case "ok":
		return ep + "/" + m
	case "noendpoint":
		return "/other" + ep + "/" + m
	case "twice":
		return ep + ep + "/x/" + m
	case "unknown":
		return ep + "/NoSuchMethod"
	case "lower":
		return ep + "/" + strings.ToLower(m)
	case "suffix":
		return ep + "/" + m + "x"
	case "prefix":
		return ep + "/x" + m
	case "slash":
		return ep + "/" + m + "/"
	case "empty":
		return ep + "/"
	case "sub":
		return ep + "/sub/" + m
	case "escaped":
		return ep + "/%45cho"
	case "glued":
		if ep == "" { // paths start with a slash
			return "/" + m
		}
		return ep + m
	case "doubled":
		return ep + "//" + m
	case "dot":
		return ep + "/./" + m
	case "dotdot":
		return ep + "/x/../" + m
	case "case":
		return strings.ToUpper(ep) + "/" + m
	case "semicolon":
		return ep + "/" + m + ";v=1"
	case "blank":
		return ep + "/" + m + " "
	case "dotted":
		return ep + "." + m
	case "const":
		return ep + "/SvcGoTSRPCProxy" + m
	default:
		return ep + "/" + string(q.Bytes)
	}
}

var svcMethodNames = func() map[string]bool {
	out := map[string]bool{}
	for i := 0; i < svcType.NumMethod(); i++ {
		out[svcType.Method(i).Name] = true
	}
	return out
}()

func (q rawReq) json() bool { return q.CT != ctMsgpack }

// body gives the bytes and what is known about them: "good", "bad" or "unknown".
func (q rawReq) body() ([]byte, string) {
	c := q.Call
	c.JSON = q.json()
	args := c.args()
	good := encodeArgs(args, c.JSON)
	none := len(args) == 0
	switch q.Body {
	case "valid":
		return good, "good"
	case "cut":
		if none {
			return nil, "good"
		}
		n := q.Cut % len(good)
		return good[:n], "bad"
	case "mutate":
		b := append([]byte(nil), good...)
		for i, x := range q.Bytes {
			if len(b) > 0 {
				b[(i*31+int(x))%len(b)] ^= 1 << (uint(x+1) % 8)
			}
		}
		if bytes.Equal(b, good) {
			return b, "good"
		}
		return b, "unknown"
	case "random":
		return q.Bytes, "unknown"
	case "empty":
		return nil, "bad"
	case "fewer":
		if none {
			return good, "good"
		}
		return encodeArgs(args[:len(args)-1], c.JSON), "unknown"
	case "more":
		if none {
			return []byte("[1,2]"), "unknown"
		}
		return encodeArgs(append(append(args[:0:0], args...), args[0]), c.JSON), "unknown"
	case "type": // an object where every argument should be
		if !c.JSON || none {
			return good, "good"
		}
		parts := make([]string, len(args))
		bad := false
		for i, a := range args {
			parts[i] = `{"x":[{}]}`
			switch a.Kind().String() {
			case "int", "int8", "int64", "uint64", "bool", "float64", "slice":
				bad = true
			}
		}
		if bad {
			return []byte("[" + strings.Join(parts, ",") + "]"), "bad"
		}
		return []byte("[" + strings.Join(parts, ",") + "]"), "unknown"
	case "null":
		if c.JSON {
			return []byte("null"), "unknown"
		}
		return []byte{0xc0}, "unknown"
	case "trailing":
		return append(append([]byte(nil), good...), q.Bytes...), "unknown"
	case "object":
		if c.JSON {
			return []byte(`{"a":1,"b":[2]}`), "unknown"
		}
		return []byte{0x82, 0xa1, 'a', 1, 0xa1, 'b', 2}, "unknown"
	case "swapenc":
		return encodeArgs(c.args(), !c.JSON), "unknown"
	default: // bomb: containers and strings that announce more than they hold
		if c.JSON {
			return []byte(strings.Repeat("[", 1+q.Cut*40)), "unknown"
		}
		heads := [][]byte{{0xdd, 0x7f, 0xff, 0xff, 0xff}, {0xdb, 0x0f, 0xff, 0xff, 0xff}, {0xc6, 0x0f, 0xff, 0xff, 0xff}, {0xdf, 0x7f, 0xff, 0xff, 0xff}, {0xc9, 0x0f, 0xff, 0xff, 0xff, 1}, {0xdc, 0xff, 0xff}, {0x92, 0xdb, 0x01, 0xff, 0xff, 0xff}}
		return append(append([]byte{0x90 | byte(q.Cut%4)}, heads[q.Cut%len(heads)]...), q.Bytes...), "unknown"
	}
}

var extraHeaders = []string{"X-HTTP-Method-Override: POST", "X-Http-Method: GET", "Accept: text/html", "Accept: " + ctMsgpack, "Accept: " + ctJSON, "X-Foomo-S2s: true", "X-Foomo-S2s: false",
	"Content-Encoding: gzip", "Content-Length: 3", "Expect: 100-continue", "Authorization: Basic eDp5", "X-Forwarded-Prefix: /x", "Connection: Upgrade", "Upgrade: websocket", "Origin: http://other", "Access-Control-Request-Method: POST", "If-None-Match: *", "Range: bytes=0-1", "Accept-Encoding: gzip"}

func genRaw(t *rapid.T) rawReq {
	q := rawReq{
		HTTP: rapid.SampledFrom(httpMethods).Draw(t, "http"),
		Path: rapid.SampledFrom(pathKinds).Draw(t, "path"),
		Call: drawCall(t, dataMethods),
		CT:   rapid.SampledFrom([]string{ctJSON, ctJSON, ctMsgpack, ctMsgpack, "-", "application/json", "text/plain", ""}).Draw(t, "ct"),
		Body: rapid.SampledFrom(bodyKinds).Draw(t, "body"),
	}
	q.Call.JSON = q.json()
	if rapid.IntRange(0, 3).Draw(t, "extras") == 3 {
		q.Extra = rapid.SliceOfN(rapid.SampledFrom(extraHeaders), 1, 3).Draw(t, "extra")
	}
	q.Query = rapid.SampledFrom([]string{"", "", "", "", "a=b", "method=Echo", "/Echo", "%"}).Draw(t, "query")
	q.Chunked = rapid.IntRange(0, 5).Draw(t, "chunked") == 5
	if rapid.IntRange(0, 4).Draw(t, "ctx") == 0 {
		q.Call = callSpec{Method: rapid.SampledFrom([]string{"Ctx", "CtxOnly", "CtxErr"}).Draw(t, "ctxMethod"), JSON: q.json(), Args: entropy(t, "cargs", 20)}
		if q.Call.Method == "Ctx" {
			q.Call.Rets = entropy(t, "crets", 20)
		}
		q.Own = rapid.SampledFrom([]int{0, 0, 201, 204, 301, 304, 400, 401, 404, 418, 500, 503, 599}).Draw(t, "own")
		if q.Own != 204 && q.Own != 304 {
			q.OwnBody = rapid.SampledFrom([]string{"", "nope", "[]", "{\"a\":1}"}).Draw(t, "ownBody")
		}
		q.OwnHeader = rapid.SampledFrom([]string{"", "v"}).Draw(t, "ownHeader")
		q.Explicit = rapid.Bool().Draw(t, "explicit")
		q.Info = rapid.IntRange(0, 3).Draw(t, "info") == 3
		q.OK = q.Own == 0 && rapid.Bool().Draw(t, "ok")
		if q.OK || q.Own != 0 {
			q.Again = rapid.SampledFrom([]int{0, 0, 200, 500}).Draw(t, "again")
		}
	}
	switch q.Body {
	case "cut", "bomb":
		q.Cut = rapid.IntRange(0, 400).Draw(t, "cut")
	}
	switch {
	case q.Body == "mutate" || q.Body == "random" || q.Body == "trailing" || q.Body == "bomb" || q.Path == "random":
		q.Bytes = rapid.SliceOfN(rapid.Byte(), 1, 30).Draw(t, "bytes")
	}
	return q
}

func TestC12Requests(t *testing.T) {
	vr.Run(t, "C12/requests", func(t *rapid.T) c12Case {
		return c12Case{EndPoint: rapid.SampledFrom(endPoints).Draw(t, "endPoint"), Reqs: rapid.SliceOfN(rapid.Custom(genRaw), 1, 6).Draw(t, "reqs")}
	}, runC12)
}

func runC12(c c12Case) vr.Result {
	s := &script{}
	h := fx.NewSvcGoTSRPCProxy(s.impl(), c.EndPoint)
	res := vr.Result{}
	for i, q := range c.Reqs {
		res.Evals++
		s.calls = nil
		body, kind := q.body()
		cs := q.Call
		cs.JSON = q.json()
		rets := cs.rets()
		isCtx := strings.HasPrefix(cs.Method, "Ctx")
		s.reply = func(cl call) []interface{} {
			if isCtx && q.Info {
				cl.w.WriteHeader(http.StatusEarlyHints)
			}
			if isCtx && q.Own != 0 {
				if q.OwnHeader != "" {
					cl.w.Header().Set("X-Own", q.OwnHeader)
				}
				cl.w.WriteHeader(q.Own)
				_, _ = cl.w.Write([]byte(q.OwnBody))
			} else if isCtx && q.Explicit && q.OwnHeader != "" {
				cl.w.Header().Set("X-Own", q.OwnHeader)
			}
			if isCtx && q.OK {
				cl.w.WriteHeader(http.StatusOK)
			}
			if isCtx && q.Again != 0 {
				cl.w.WriteHeader(q.Again)
			}
			return append(ifaces(rets), make([]interface{}, 8)...)
		}
		header := http.Header{}
		if q.CT != "-" {
			header.Set("Content-Type", q.CT)
		}
		for _, x := range q.Extra {
			k, v, _ := strings.Cut(x, ": ")
			header.Add(k, v)
		}
		path := q.path(c.EndPoint)
		info := 0
		rec := post(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			r.URL.RawQuery = q.Query
			if q.Chunked {
				r.ContentLength, r.TransferEncoding = -1, []string{"chunked"}
			}
			h.ServeHTTP(&infoWriter{w, &info}, r)
		}), q.HTTP, path, header, body)
		where := fmt.Sprintf("request %d: %s %q (%s body)", i, q.HTTP, path, q.Body)
		called := strings.TrimPrefix(path, c.EndPoint+"/")
		known := strings.HasPrefix(path, c.EndPoint+"/") && svcMethodNames[called] // what the path addresses
		refused := func(code int) vr.Result {
			if rec.Code != code {
				return vr.Failf(fmt.Sprintf("not answered with %d", code), "%s: %d", where, rec.Code)
			}
			if len(s.calls) != 0 {
				return vr.Failf("a refused request ran a service method", "%s: %v ran", where, s.calls[0].method)
			}
			return vr.Result{}
		}
		var r vr.Result
		class := ""
		switch {
		case q.HTTP == http.MethodOptions:
			class = "options"
			r = refused(200)
			if r.Fail == "" && rec.Body.Len() > 0 {
				r = vr.Failf("answer to OPTIONS is not empty", "%s: %q", where, rec.Body)
			}
		case q.HTTP != http.MethodPost:
			class = "405"
			r = refused(405)
		case !known:
			class = "404"
			r = refused(404)
		case called != cs.Method: // random path that hits another method: only the frame conditions
			class = "other"
		case kind == "bad" && len(argTypes(cs.Method)) > 0:
			class = "400"
			r = refused(400)
		default:
			class = "served"
			good := kind == "good" || len(argTypes(cs.Method)) == 0
			if len(s.calls) == 0 {
				if good {
					r = vr.Failf("a valid request was not served", "%s: %d %s", where, rec.Code, clip(rec.Body.String()))
					break
				}
				class = "400 (arbitrary bytes)"
				r = refused(400)
				break
			}
			if len(s.calls) > 1 || s.calls[0].method != cs.Method {
				r = vr.Failf("not exactly the addressed method ran", "%s: %d calls, first %s", where, len(s.calls), s.calls[0].method)
				break
			}
			if kind == "good" {
				if r = cs.checkSeen(s.calls); r.Fail != "" {
					break
				}
			} else if len(s.calls[0].args) != len(argTypes(cs.Method)) {
				r = vr.Failf("wrong number of arguments", "%s", where)
				break
			}
			if isCtx && (s.calls[0].w == nil || s.calls[0].r == nil) {
				r = vr.Failf("no live writer and request", "%s", where)
				break
			}
			if isCtx && q.Own != 0 {
				class = "own status"
				if rec.Code != q.Own || rec.Body.String() != q.OwnBody || rec.Header().Get("X-Own") != q.OwnHeader {
					r = vr.Failf("the service's own response was altered", "%s: %d %q %v, want %d %q", where, rec.Code, rec.Body, rec.Header(), q.Own, q.OwnBody)
				}
				break
			}
			if rec.Code != 200 {
				r = vr.Failf("a served call is not answered with 200", "%s: %d %s", where, rec.Code, clip(rec.Body.String()))
				break
			}
			if isCtx && (q.Info != (info == 1)) {
				r = vr.Failf("informational responses are not passed on", "%s: %d", where, info)
				break
			}
			if got := rec.Result().Header.Get("Content-Type"); got != contentType(cs.JSON) {
				r = vr.Failf("a reply without its content type", "%s: %q", where, got)
				break
			}
			if cs.Method == "CtxErr" || cs.Method == "CtxOnly" {
				break
			}
			if d := diffRets(rec.Body.Bytes(), rets, retTypes(cs.Method), cs.JSON); d != "" {
				r = vr.Failf("the reply does not carry the results", "%s: %s", where, d)
			}
		}
		if r.Fail != "" {
			return r
		}
		res.Classes = append(res.Classes, class, "body:"+q.Body)
		if class != "served" || q.Body != "valid" {
			res.NonTrivialEvals++
			res.NonTrivial = true
			res.Keys = append(res.Keys, fmt.Sprintf("%s %s %s %x", q.HTTP, path, q.CT, body))
		}
		// later calls are not affected
		follow := callSpec{Method: "Swap", Args: []byte{1, 2, byte(i), 4, 5, 6, 7, 8}, Rets: []byte{1, byte(i), 9}, JSON: i%2 == 0}
		if r := follow.check(fxClient(h, c.EndPoint, follow.JSON), s); r.Fail != "" {
			r.Detail = "after " + where + ": " + r.Detail
			return r
		}
	}
	return res
}

// infoWriter counts informational responses, which a recorder takes for the final one.
type infoWriter struct {
	http.ResponseWriter
	n *int
}

func (w *infoWriter) WriteHeader(status int) {
	if status >= 100 && status < 200 {
		*w.n++
		return
	}
	w.ResponseWriter.WriteHeader(status)
}
