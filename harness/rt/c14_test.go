package rt

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"testing"
	"time"

	"github.com/foomo/gotsrpc/v2"
	"pgregory.net/rapid"

	"verif/harness/fx"
	"verif/harness/vr"
)

// c14Op is one step of a history of configuring and calling clients.
type c14Op struct {
	Op        string              `json:"op"` // new, factory, headers, encoding, transport, call, raw, header
	Client    int                 `json:"client,omitempty"`
	Transport int                 `json:"transport,omitempty"`
	Explicit  bool                `json:"explicit,omitempty"`
	Headers   map[string][]string `json:"headers,omitempty"`
	JSON      bool                `json:"json,omitempty"`
	URL       int                 `json:"url,omitempty"`
	EndPoint  int                 `json:"endPoint,omitempty"`
	Call      callSpec            `json:"call"`
	Status    int                 `json:"status,omitempty"`
	Fail      bool                `json:"fail,omitempty"`     // the transport fails
	Encoding  int                 `json:"encoding,omitempty"` // of SetClientEncoding, where neither of the two
}

var (
	urls       = []string{"http://host", "https://host:8443", "http://127.0.0.1:99/base", "http://host/", "http://host:80", "http://h/a/b"}
	callPoints = []string{"/service/fx", "", "/", "/a/b", "/x-y_z~1", "endpoint", "/%20"}
	headerKeys = []string{"Content-Type", "Accept", "X-Foomo-S2s", "Authorization", "X-One", "X-Two", "Cookie", "User-Agent", "x-lower", "Accept-Encoding"}
)

func genC14(t *rapid.T) []c14Op {
	n := rapid.IntRange(2, 14).Draw(t, "n")
	ops := []c14Op{{Op: "new", Explicit: rapid.Bool().Draw(t, "explicit0"), Transport: rapid.IntRange(0, 3).Draw(t, "tr0"), URL: rapid.IntRange(0, len(urls)-1).Draw(t, "url0")}}
	clients := 1
	for i := 0; i < n; i++ {
		o := c14Op{Op: rapid.SampledFrom([]string{"call", "call", "call", "call", "raw", "headers", "encoding", "transport", "new", "factory", "copyheaders"}).Draw(t, "op")}
		o.Client = rapid.IntRange(0, clients-1).Draw(t, "client")
		switch o.Op {
		case "new":
			o.Explicit = rapid.Bool().Draw(t, "explicit")
			o.Transport = rapid.IntRange(0, 3).Draw(t, "transport")
			o.URL = rapid.IntRange(0, len(urls)-1).Draw(t, "url")
			o.EndPoint = rapid.IntRange(0, len(callPoints)-1).Draw(t, "endPoint")
			clients++
		case "factory", "transport":
			o.Transport = rapid.IntRange(0, 3).Draw(t, "transport")
		case "headers":
			if rapid.IntRange(0, 5).Draw(t, "nilHeaders") > 0 {
				o.Headers = map[string][]string{}
				for j := rapid.IntRange(0, 4).Draw(t, "nh"); j > 0; j-- {
					o.Headers[rapid.SampledFrom(headerKeys).Draw(t, "key")] = rapid.SliceOfN(rapid.SampledFrom([]string{"", "a", "text/plain", "Bearer x", "a=b; c=d", "false"}), 1, 3).Draw(t, "values")
				}
			}
		case "copyheaders":
			o.Transport = rapid.IntRange(0, clients-1).Draw(t, "from")
		case "encoding":
			o.JSON = rapid.Bool().Draw(t, "json")
			if o.JSON && rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
				o.Encoding = rapid.SampledFrom([]int{-1, 2, 3, 7, 1 << 20}).Draw(t, "encoding")
			}
		case "call", "raw":
			o.Call = drawCall(t, dataMethods)
			if rapid.IntRange(0, 2).Draw(t, "status?") == 0 {
				o.Status = rapid.SampledFrom([]int{500, 503, 429, 502, 504, 404, 401, 403, 408, 425, 409, 400, 204, 201, 304, 421}).Draw(t, "status")
			}
			o.Fail = rapid.IntRange(0, 7).Draw(t, "fail") == 0
			o.EndPoint = rapid.IntRange(0, len(callPoints)-1).Draw(t, "endPoint")
			o.URL = rapid.IntRange(0, len(urls)-1).Draw(t, "url")
		}
		ops = append(ops, o)
	}
	return ops
}

type recorded struct {
	transport int
	req       *http.Request
	header    http.Header
	body      []byte
	length    int64
}

// tagTransport records requests; it has its own identity.
type tagTransport struct {
	id     int
	log    *[]recorded
	status *int
	rets   *[]byte
	json   *bool
	fail   *bool
}

func (t *tagTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		_ = r.Body.Close()
	}
	*t.log = append(*t.log, recorded{t.id, r, r.Header.Clone(), body, r.ContentLength})
	if *t.fail {
		return nil, stubErrors[t.id*3%len(stubErrors)]
	}
	st := 200
	if *t.status != 0 {
		st = *t.status
	}
	h := http.Header{"Content-Type": {contentType(*t.json)}}
	if st == 503 || st == 429 {
		h.Set("Retry-After", "0")
	}
	return &http.Response{StatusCode: st, Header: h, Body: io.NopCloser(bytes.NewReader(*t.rets)), Request: r}, nil
}

type clientModel struct {
	cl        *fx.HTTPSvcGoTSRPCClient
	url, ep   string
	transport int
	json      bool
	headers   http.Header // as configured
	snapshot  http.Header
}

func TestC14History(t *testing.T) {
	vr.Run(t, "C14/history", genC14, runC14)
}

func runC14(ops []c14Op) vr.Result {
	var log []recorded
	var status int
	var retBytes []byte
	var retJSON, fail bool
	hcs := make([]*http.Client, 4)
	for i := range hcs {
		hcs[i] = &http.Client{Transport: &tagTransport{i, &log, &status, &retBytes, &retJSON, &fail}, Timeout: []time.Duration{0, time.Hour, 0, time.Minute}[i]}
		if i == 2 {
			hcs[i].CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
		}
	}
	// a client which leaves its transport to net/http
	defaultTransport := http.DefaultTransport
	http.DefaultTransport, hcs[3].Transport = hcs[3].Transport, nil
	defer func() { http.DefaultTransport = defaultTransport }()
	factory := 0
	gotsrpc.SetDefaultHttpClientFactory(func() *http.Client { return hcs[0] })
	defer gotsrpc.SetDefaultHttpClientFactory(func() *http.Client { return &http.Client{} })
	var clients []*clientModel
	res := vr.Result{}
	configured := false
	for i, o := range ops {
		var m *clientModel
		if len(clients) > 0 {
			m = clients[o.Client%len(clients)]
		}
		switch o.Op {
		case "new":
			c := &clientModel{url: urls[o.URL], ep: callPoints[o.EndPoint], transport: factory}
			var hc *http.Client
			if o.Explicit {
				hc, c.transport = hcs[o.Transport], o.Transport
			}
			if o.EndPoint == 0 && !o.Explicit {
				c.cl = fx.NewDefaultSvcGoTSRPCClient(c.url)
			} else {
				c.cl = fx.NewSvcGoTSRPCClientWithClient(c.url, c.ep, hc)
			}
			clients = append(clients, c)
		case "factory":
			f := o.Transport
			gotsrpc.SetDefaultHttpClientFactory(func() *http.Client { return hcs[f] })
			factory = f
			configured = true
		case "headers":
			var h http.Header
			if o.Headers != nil {
				h = http.Header{}
				for k, v := range o.Headers {
					h[k] = append([]string(nil), v...)
				}
			}
			m.cl.Client.SetDefaultHeaders(h)
			m.headers, m.snapshot = h, h.Clone()
			configured = true
		case "copyheaders": // two clients may share one set of headers
			from := clients[o.Transport%len(clients)]
			m.cl.Client.SetDefaultHeaders(from.headers)
			m.headers, m.snapshot = from.headers, from.snapshot
		case "encoding":
			e := gotsrpc.EncodingMsgpack
			if o.JSON {
				e = gotsrpc.EncodingJson
			}
			if o.Encoding != 0 { // anything else is JSON
				e = gotsrpc.ClientEncoding(o.Encoding)
			}
			m.cl.Client.SetClientEncoding(e)
			m.json = o.JSON
			configured = true
		case "transport":
			m.cl.Client.SetTransportHttpClient(hcs[o.Transport])
			m.transport = o.Transport
			configured = true
		case "call", "raw":
			res.Evals++
			spec := o.Call
			spec.JSON = m.json
			args := spec.args()
			retJSON = o.Call.JSON
			replied := o.Call
			replied.JSON = true // values which both encodings carry
			retBytes = encodeArgs(replied.rets(), retJSON)
			status, fail = o.Status, o.Fail
			log = nil
			url, ep := m.url, m.ep
			var err error
			if o.Op == "call" {
				_, err = invoke(bg, m.cl, spec.Method, args)
			} else {
				url, ep = urls[o.URL], callPoints[o.EndPoint]
				var reply []interface{}
				for _, rt := range retTypes(spec.Method) {
					reply = append(reply, reflect.New(rt).Interface())
				}
				err = m.cl.Client.Call(bg, url, ep, spec.Method, ifaces(args), reply)
			}
			where := fmt.Sprintf("op %d: %s %s on client %d (%s%s)", i, o.Op, spec.Method, o.Client, url, ep)
			if _, perr := http.NewRequest("POST", url+ep+"/"+spec.Method, nil); perr != nil {
				if err == nil || len(log) > 0 {
					return vr.Failf("an unusable URL was used", "%s", where)
				}
				continue
			}
			if (err != nil) != (o.Status != 0 || o.Fail) {
				return vr.Failf("unexpected outcome of the call", "%s: %v", where, err)
			}
			if len(log) != 1 {
				return vr.Failf("not exactly one request per call", "%s: %d requests", where, len(log))
			}
			if r := checkRequest(log[0], m, url+ep+"/"+spec.Method, args, where); r.Fail != "" {
				return r
			}
			if configured {
				res.NonTrivialEvals++
				res.NonTrivial = true
				res.Keys = append(res.Keys, fmt.Sprintf("%s %v %v %v %x %d", where, m.headers, m.json, m.transport, spec.Args, len(clients)))
			}
			res.Classes = append(res.Classes, fmt.Sprintf("json:%v headers:%d", m.json, len(m.headers)))
			for ci, c := range clients {
				if !sameHeader(c.headers, c.snapshot) {
					return vr.Failf("the configured headers were altered by a call", "%s: client %d: %v, configured %v", where, ci, c.headers, c.snapshot)
				}
			}
		}
	}
	return res
}

func sameHeader(a, b http.Header) bool {
	return (len(a) == 0 && len(b) == 0) || reflect.DeepEqual(a, b)
}

func checkRequest(q recorded, m *clientModel, url string, args []reflect.Value, where string) vr.Result {
	if q.transport != m.transport {
		return vr.Failf("another HTTP client was used", "%s: transport %d instead of %d", where, q.transport, m.transport)
	}
	if q.req.Method != http.MethodPost {
		return vr.Failf("the request is not a POST", "%s: %s", where, q.req.Method)
	}
	want, _ := http.NewRequest("POST", url, nil)
	if q.req.URL.String() != want.URL.String() {
		return vr.Failf("the request goes to another URL", "%s: %s instead of %s", where, q.req.URL, want.URL)
	}
	wantHeader := http.Header{}
	for k, v := range m.snapshot {
		wantHeader[k] = v
	}
	ct := contentType(m.json)
	wantHeader["Content-Type"] = []string{ct}
	wantHeader["Accept"] = []string{ct}
	wantHeader["X-Foomo-S2s"] = []string{"true"}
	if !reflect.DeepEqual(q.header, wantHeader) {
		return vr.Failf("the request headers are not the configured ones", "%s: %v instead of %v", where, q.header, wantHeader)
	}
	if len(args) == 0 {
		if len(q.body) != 0 {
			return vr.Failf("body of a call without arguments", "%s: %q", where, q.body)
		}
		return vr.Result{}
	}
	if q.length != int64(len(q.body)) && q.length != -1 {
		return vr.Failf("content length is wrong", "%s: %d for %d bytes", where, q.length, len(q.body))
	}
	types := make([]reflect.Type, len(args))
	for i := range args {
		types[i] = args[i].Type()
	}
	if d := diffRets(q.body, args, types, m.json); d != "" {
		return vr.Failf("the body is not the encoded argument list", "%s: %s", where, d)
	}
	return vr.Result{}
}
