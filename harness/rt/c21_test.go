package rt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/foomo/gotsrpc/v2"
	"github.com/ugorji/go/codec"
	"pgregory.net/rapid"

	"verif/harness/fx"
	"verif/harness/fx/vo"
	"verif/harness/val"
	"verif/harness/vr"
)

var coderTypes = []reflect.Type{
	reflect.TypeOf(vo.Rec{}), reflect.TypeOf((*vo.Rec)(nil)), reflect.TypeOf(vo.Item{}), reflect.TypeOf(vo.TimeRec{}), reflect.TypeOf(vo.Any{}),
	reflect.TypeOf(""), reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(false), reflect.TypeOf([]byte(nil)),
	reflect.TypeOf([]string(nil)), reflect.TypeOf(map[string]int64(nil)), reflect.TypeOf(map[int]vo.Item(nil)), reflect.TypeOf(vo.Names(nil)), reflect.TypeOf(vo.Table(nil)),
	reflect.TypeOf(time.Time{}), reflect.TypeOf([]*vo.Item(nil)), reflect.TypeOf(map[string][]map[string]string(nil)), reflect.TypeOf(vo.ColorRed), reflect.TypeOf(fx.StructErr{}),
	reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf(map[string]interface{}(nil)), reflect.TypeOf([]interface{}(nil)),
}

type coderCase struct {
	Type  int    `json:"type"`
	Value []byte `json:"value"`
}

// C21/roundtrip: the exported coders are inverse to each other and to any other msgpack codec.
func TestC21Roundtrip(t *testing.T) {
	vr.Run(t, "C21/roundtrip", func(t *rapid.T) coderCase {
		return coderCase{rapid.IntRange(0, len(coderTypes)-1).Draw(t, "type"), entropy(t, "value", 160)}
	}, func(c coderCase) vr.Result {
		typ := coderTypes[c.Type]
		v := val.Build(val.NewSrc(c.Value), typ, val.Msgpack)
		want := val.Canon(v, val.Msgpack)
		var b []byte
		if err := gotsrpc.NewMSGPackEncoderBytes(&b).Encode(v.Interface()); err != nil {
			return vr.Failf("a supported value cannot be encoded", "%s: %v", typ, err)
		}
		out := reflect.New(typ)
		d := gotsrpc.NewMSGPackDecoderBytes(b)
		if err := d.Decode(out.Interface()); err != nil {
			return vr.Failf("an encoded value cannot be decoded", "%s: %v", typ, err)
		}
		if d.NumBytesRead() != len(b) {
			return vr.Failf("decoding does not consume the encoding", "%s: %d of %d", typ, d.NumBytesRead(), len(b))
		}
		if g := val.Canon(out.Elem(), val.Msgpack); g != want {
			return vr.Failf("decoding is not inverse to encoding", "%s: got %s want %s", typ, clip(g), clip(want))
		}
		// another implementation of the format
		peer := reflect.New(typ)
		if err := codec.NewDecoderBytes(b, peerHandle(false)).Decode(peer.Interface()); err != nil {
			return vr.Failf("the encoding is not what a peer reads", "%s: %v", typ, err)
		}
		if g := val.Canon(peer.Elem(), val.Msgpack); g != want {
			return vr.Failf("a peer reads another value", "%s: got %s want %s", typ, clip(g), clip(want))
		}
		var pb []byte
		if err := codec.NewEncoderBytes(&pb, peerHandle(false)).Encode(v.Interface()); err != nil {
			vr.Abort("%v", err)
		}
		back := reflect.New(typ)
		if err := gotsrpc.NewMSGPackDecoderBytes(pb).Decode(back.Interface()); err != nil {
			return vr.Failf("a peer's encoding cannot be decoded", "%s: %v", typ, err)
		}
		if g := val.Canon(back.Elem(), val.Msgpack); g != want {
			return vr.Failf("a peer's encoding is misread", "%s: got %s want %s", typ, clip(g), clip(want))
		}
		// the same format as on the wire: what the encoder makes is a valid HTTP reply of a service
		if typ == reflect.TypeOf(vo.Rec{}) {
			body := append([]byte{0x91}, b...)
			tr := &stubTransport{fn: func(r *http.Request) (*http.Response, error) {
				return &http.Response{StatusCode: 200, Header: http.Header{"Content-Type": {ctMsgpack}}, Body: &stubBody{data: body}, Request: r}, nil
			}}
			got, err := fx.NewSvcGoTSRPCClientWithClient("http://host", "/service/fx", &http.Client{Transport: tr}).Rec(bg, v.Interface().(vo.Rec))
			if err != nil {
				return vr.Failf("the encoding is not the format of the wire", "%v", err)
			}
			if g := val.Canon(reflect.ValueOf(got), val.Msgpack); g != want {
				return vr.Failf("the encoding is not the format of the wire", "got %s want %s", clip(g), clip(want))
			}
			s := &script{reply: func(cl call) []interface{} { return cl.args }}
			rec := post(svcHandler(s), "POST", "/service/fx/Rec", http.Header{"Content-Type": {ctMsgpack}}, body)
			if rec.Code != 200 || len(s.calls) != 1 || val.Canon(reflect.ValueOf(s.calls[0].args[0]), val.Msgpack) != want {
				return vr.Failf("the encoding is not the format of the wire", "as request: %d", rec.Code)
			}
			var wire vo.Rec
			if err := gotsrpc.NewMSGPackDecoderBytes(rec.Body.Bytes()[1:]).Decode(&wire); err != nil || val.Canon(reflect.ValueOf(wire), val.Msgpack) != want {
				return vr.Failf("the decoder does not read the format of the wire", "%v", err)
			}
		}
		// untyped: string keys everywhere
		var any interface{}
		if err := gotsrpc.NewMSGPackDecoderBytes(b).Decode(&any); err != nil {
			if hasIntKeys(typ) {
				return vr.Result{Classes: []string{"non-string keys"}}
			}
			return vr.Failf("an encoded value cannot be decoded without its type", "%s: %v", typ, err)
		}
		if p := badAny(any, "$"); p != "" {
			return vr.Failf("untyped decoding yields other types", "%s: %s", typ, p)
		}
		return vr.Result{NonTrivial: len(c.Value) > 0, Classes: []string{typ.String()}}
	})
}

func hasIntKeys(t reflect.Type) bool {
	return strings.Contains(t.String(), "map[int]") || t == coderTypes[0] || t == coderTypes[1]
}

func badAny(v interface{}, path string) string {
	switch x := v.(type) {
	case nil, bool, string, int64, uint64, float64, float32:
		return ""
	case []interface{}:
		for i, e := range x {
			if p := badAny(e, fmt.Sprintf("%s[%d]", path, i)); p != "" {
				return p
			}
		}
		return ""
	case map[string]interface{}:
		for k, e := range x {
			if p := badAny(e, path+"."+k); p != "" {
				return p
			}
		}
		return ""
	}
	return fmt.Sprintf("%s is a %T", path, v)
}

type bytesCase struct {
	Type  int    `json:"type"`
	Value []byte `json:"value"`
	Flips []byte `json:"flips"`
	Raw   bool   `json:"raw"`
}

// C21/bytes: arbitrary and mutated bytes are decoded or refused, never panicking.
func TestC21Bytes(t *testing.T) {
	vr.Run(t, "C21/bytes", func(t *rapid.T) bytesCase {
		return bytesCase{rapid.IntRange(0, len(coderTypes)-1).Draw(t, "type"), entropy(t, "value", 120), rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "flips"), rapid.Bool().Draw(t, "raw")}
	}, func(c bytesCase) vr.Result {
		typ := coderTypes[c.Type]
		b := c.Value
		if !c.Raw {
			b = nil
			v := val.Build(val.NewSrc(c.Value), typ, val.Msgpack)
			if err := gotsrpc.NewMSGPackEncoderBytes(&b).Encode(v.Interface()); err != nil {
				return vr.Failf("a supported value cannot be encoded", "%s: %v", typ, err)
			}
			for i, x := range c.Flips {
				if len(b) == 0 {
					break
				}
				if x%5 == 4 {
					b = b[:int(x)*len(b)/256]
					continue
				}
				b[(int(x)*7+i*13)%len(b)] ^= 1 << (x % 8)
			}
		}
		out := reflect.New(typ)
		err := gotsrpc.NewMSGPackDecoderBytes(b).Decode(out.Interface())
		var any interface{}
		err2 := gotsrpc.NewMSGPackDecoderBytes(b).Decode(&any)
		if err == nil {
			// what was accepted can be encoded and decoded again
			var b2 []byte
			if err := gotsrpc.NewMSGPackEncoderBytes(&b2).Encode(out.Elem().Interface()); err != nil {
				return vr.Failf("a decoded value cannot be encoded", "%s %x: %v", typ, b, err)
			}
			again := reflect.New(typ)
			if err := gotsrpc.NewMSGPackDecoderBytes(b2).Decode(again.Interface()); err != nil {
				return vr.Failf("a re-encoded value cannot be decoded", "%s %x: %v", typ, b, err)
			}
			if g, w := val.Canon(again.Elem(), val.Msgpack), val.Canon(out.Elem(), val.Msgpack); g != w && !strings.Contains(w, "NaN") {
				return vr.Failf("re-encoding changes a decoded value", "%s %x: got %s want %s", typ, b, clip(g), clip(w))
			}
		}
		return vr.Result{NonTrivial: len(b) > 0, Classes: []string{fmt.Sprintf("accepted:%v untyped:%v", err == nil, err2 == nil)}}
	})
}

// ---- extension hooks; every case runs in its own process, as registration is final ----

type (
	extA struct{ X, Y int64 }
	extB struct{ Name string }
	extC string
	extD struct{ L []int64 }
	// extHolder carries them in every position
	extHolder struct {
		A  extA            `json:"a"`
		PA *extA           `json:"pa"`
		LA []extA          `json:"la"`
		MA map[string]extA `json:"ma"`
		B  extB            `json:"b"`
		PB *extB           `json:"pb"`
		LB []*extB         `json:"lb"`
		C  extC            `json:"c"`
		LC []extC          `json:"lc"`
		D  extD            `json:"d"`
		PD *extD           `json:"pd,omitempty"`
		W  time.Time       `json:"w"`
	}
)

// asExt: the codec hands over a pointer or, for values it cannot address, the value.
func asExt[T any](v interface{}) *T {
	if p, ok := v.(*T); ok {
		return p
	}
	x := v.(T)
	return &x
}

type aExt struct{}

func (aExt) ConvertExt(v interface{}) interface{} {
	a := asExt[extA](v)
	return fmt.Sprintf("A:%d:%d", a.X, a.Y)
}
func (aExt) UpdateExt(dst interface{}, src interface{}) {
	a := dst.(*extA)
	if _, err := fmt.Sscanf(src.(string), "A:%d:%d", &a.X, &a.Y); err != nil {
		panic(err)
	}
}
func (e aExt) WriteExt(v interface{}) []byte       { return []byte(e.ConvertExt(v).(string)) }
func (e aExt) ReadExt(dst interface{}, src []byte) { e.UpdateExt(dst, string(src)) }

type bExt struct{}

func (bExt) ConvertExt(v interface{}) interface{} { return "B:" + asExt[extB](v).Name }
func (bExt) UpdateExt(dst interface{}, src interface{}) {
	dst.(*extB).Name = strings.TrimPrefix(src.(string), "B:")
}
func (e bExt) WriteExt(v interface{}) []byte       { return []byte(e.ConvertExt(v).(string)) }
func (e bExt) ReadExt(dst interface{}, src []byte) { e.UpdateExt(dst, string(src)) }

type cExt struct{}

func (cExt) ConvertExt(v interface{}) interface{} { return "C:" + string(*asExt[extC](v)) }
func (cExt) UpdateExt(dst interface{}, src interface{}) {
	*dst.(*extC) = extC(strings.TrimPrefix(src.(string), "C:"))
}
func (e cExt) WriteExt(v interface{}) []byte       { return []byte(e.ConvertExt(v).(string)) }
func (e cExt) ReadExt(dst interface{}, src []byte) { e.UpdateExt(dst, string(src)) }

type dExt struct{}

func (dExt) ConvertExt(v interface{}) interface{} {
	return strings.Trim(fmt.Sprint(asExt[extD](v).L), "[]") + "|D"
}
func (dExt) UpdateExt(dst interface{}, src interface{}) {
	d := dst.(*extD)
	d.L = nil
	for _, f := range strings.Fields(strings.TrimSuffix(src.(string), "|D")) {
		var n int64
		if _, err := fmt.Sscan(f, &n); err != nil {
			panic(err)
		}
		d.L = append(d.L, n)
	}
}
func (e dExt) WriteExt(v interface{}) []byte       { return []byte(e.ConvertExt(v).(string)) }
func (e dExt) ReadExt(dst interface{}, src []byte) { e.UpdateExt(dst, string(src)) }

type bothExt interface {
	codec.InterfaceExt
	codec.BytesExt
}

var extOf = map[string]struct {
	zero interface{}
	ext  bothExt
}{"A": {extA{}, aExt{}}, "B": {extB{}, bExt{}}, "C": {extC(""), cExt{}}, "D": {extD{}, dExt{}}}

type extCase struct {
	Register []string `json:"register"` // "jA", "mB", ... in order
	Value    []byte   `json:"value"`
	Rounds   int      `json:"rounds"`
}

func TestC21Extensions(t *testing.T) {
	vr.Run(t, "C21/extensions", func(t *rapid.T) extCase {
		all := []string{"jA", "jB", "jC", "jD", "mA", "mB", "mC", "mD"}
		n := rapid.IntRange(0, len(all)).Draw(t, "n")
		return extCase{rapid.Permutation(all).Draw(t, "order")[:n], entropy(t, "value", 100), rapid.IntRange(1, 2).Draw(t, "rounds")}
	}, func(c extCase) vr.Result {
		cmd := exec.Command(os.Args[0], "-test.run", "^TestC21Child$")
		cmd.Env = append(os.Environ(), "VERIF_C21="+string(mustJSON(c)))
		out, err := cmd.CombinedOutput()
		i := bytes.Index(out, []byte("C21RESULT "))
		if i < 0 {
			return vr.Failf("registering extensions or using them kills the process", "%v: %s", err, clip(string(out)))
		}
		line := out[i+len("C21RESULT "):]
		if j := bytes.IndexByte(line, '\n'); j >= 0 {
			line = line[:j]
		}
		var r vr.Result
		if err := json.Unmarshal(line, &r); err != nil {
			vr.Abort("%v", err)
		}
		return r
	})
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// TestC21Child is the process of one case.
func TestC21Child(t *testing.T) {
	raw := os.Getenv("VERIF_C21")
	if raw == "" {
		t.Skip("child of C21/extensions")
	}
	var c extCase
	if err := json.Unmarshal([]byte(raw), &c); err != nil {
		t.Fatal(err)
	}
	var r vr.Result
	func() {
		defer func() {
			if p := recover(); p != nil {
				r = vr.Failf("panic", "%v", p)
			}
		}()
		r = extChild(c)
	}()
	fmt.Printf("C21RESULT %s\n", mustJSON(r))
}

func extChild(c extCase) vr.Result {
	reg := map[string]bool{}
	for i, x := range c.Register {
		e := extOf[x[1:]]
		var err error
		if x[0] == 'j' {
			err = gotsrpc.SetJSONExt(e.zero, uint64(10+i), e.ext)
		} else {
			err = gotsrpc.SetMSGPackExt(e.zero, uint64(10+i), e.ext)
		}
		if err != nil {
			return vr.Failf("an extension is refused", "%s: %v", x, err)
		}
		reg[x] = true
	}
	src := val.NewSrc(c.Value)
	n := 0
	for round := 0; round < c.Rounds; round++ {
		for _, isJSON := range []bool{false, true} {
			mode := val.Msgpack
			p := "m"
			if isJSON {
				mode, p = val.JSON, "j"
			}
			in := val.Build(src, reflect.TypeOf(extHolder{}), mode).Interface().(extHolder)
			in.D.L = nonNil(in.D.L, reg[p+"D"])
			if in.PD != nil {
				in.PD.L = nonNil(in.PD.L, reg[p+"D"])
			}
			out := val.Build(src, reflect.TypeOf(extHolder{}), mode).Interface().(extHolder)
			out.D.L = nonNil(out.D.L, reg[p+"D"])
			if out.PD != nil {
				out.PD.L = nonNil(out.PD.L, reg[p+"D"])
			}
			var seen, got extHolder
			var gotC extC
			h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				var a extHolder
				var b extC
				args := []interface{}{&a, &b}
				if err := gotsrpc.LoadArgs(&args, nil, r); err != nil {
					gotsrpc.ErrorCouldNotLoadArgs(w)
					return
				}
				seen = a
				if err := gotsrpc.Reply([]interface{}{out, b}, nil, r, w); err != nil {
					gotsrpc.ErrorCouldNotReply(w)
				}
			})
			pp := &pipe{h: h}
			cl := gotsrpc.NewClientWithHttpClient(&http.Client{Transport: pp})
			if isJSON {
				cl.SetClientEncoding(gotsrpc.EncodingJson)
			}
			if err := cl.Call(bg, "http://host", "/e", "M", []interface{}{in, extC("direct")}, []interface{}{&got, &gotC}); err != nil {
				return vr.Failf("a call with extension types fails", "json=%v registered %v: %v", isJSON, c.Register, err)
			}
			if g, w := val.Canon(reflect.ValueOf(seen), mode), val.Canon(reflect.ValueOf(in), mode); g != w {
				return vr.Failf("extension types change on the way", "json=%v registered %v: got %s want %s", isJSON, c.Register, clip(g), clip(w))
			}
			if g, w := val.Canon(reflect.ValueOf(got), mode), val.Canon(reflect.ValueOf(out), mode); g != w || gotC != "direct" {
				return vr.Failf("extension types change on the way", "json=%v registered %v: got %s want %s, %q", isJSON, c.Register, clip(g), clip(w), gotC)
			}
			// the wire shows converted values exactly where an extension is registered
			for _, side := range []struct {
				body []byte
				v    extHolder
			}{{pp.body[0], in}, {pp.resps[0].Body.Bytes(), out}} {
				var l []interface{}
				if isJSON {
					if err := json.Unmarshal(side.body, &l); err != nil {
						return vr.Failf("the wire is not JSON", "%v", err)
					}
				} else if err := gotsrpc.NewMSGPackDecoderBytes(side.body).Decode(&l); err != nil {
					return vr.Failf("the wire is not msgpack", "%v", err)
				}
				m, ok := l[0].(map[string]interface{})
				if !ok {
					return vr.Failf("the wire has another shape", "%s", clip(string(side.body)))
				}
				if d := checkWire(m, side.v, reg, p); d != "" {
					return vr.Failf("a type is not converted by its own extension alone", "json=%v registered %v: %s", isJSON, c.Register, d)
				}
				if want := map[bool]string{true: "C:direct", false: "direct"}[reg[p+"C"]]; fmt.Sprint(l[1]) != want {
					return vr.Failf("a type is not converted by its own extension alone", "json=%v registered %v: direct value is %v", isJSON, c.Register, l[1])
				}
			}
			n++
		}
	}
	return vr.Result{NonTrivial: len(c.Register) > 0, Evals: n, NonTrivialEvals: n, Classes: []string{fmt.Sprintf("registered:%d", len(c.Register))}}
}

// nonNil: the extension of D does not distinguish nil from empty.
func nonNil(l []int64, ext bool) []int64 {
	if ext && len(l) == 0 {
		return nil
	}
	return l
}

func checkWire(m map[string]interface{}, v extHolder, reg map[string]bool, p string) string {
	conv := func(what string, x interface{}, e bothExt, on bool, ptr interface{}) string {
		if on {
			if want := e.ConvertExt(ptr); fmt.Sprint(x) != fmt.Sprint(want) {
				return fmt.Sprintf("%s: %v instead of %v", what, x, want)
			}
			return ""
		}
		if s, ok := x.(string); ok && fmt.Sprint(x) == fmt.Sprint(e.ConvertExt(ptr)) && s != "" {
			return fmt.Sprintf("%s: converted without an extension: %v", what, x)
		}
		return ""
	}
	if d := conv("a", m["a"], aExt{}, reg[p+"A"], &v.A); d != "" {
		return d
	}
	if v.PA != nil {
		if d := conv("pa", m["pa"], aExt{}, reg[p+"A"], v.PA); d != "" {
			return d
		}
	} else if m["pa"] != nil {
		return "nil pointer is not null"
	}
	if l, _ := m["la"].([]interface{}); len(l) != len(v.LA) {
		return "la has another length"
	} else {
		for i := range l {
			if d := conv("la[]", l[i], aExt{}, reg[p+"A"], &v.LA[i]); d != "" {
				return d
			}
		}
	}
	if d := conv("b", m["b"], bExt{}, reg[p+"B"], &v.B); d != "" {
		return d
	}
	if l, _ := m["lb"].([]interface{}); len(l) != len(v.LB) {
		return "lb has another length"
	} else {
		for i := range l {
			if v.LB[i] != nil {
				if d := conv("lb[]", l[i], bExt{}, reg[p+"B"], v.LB[i]); d != "" {
					return d
				}
			}
		}
	}
	if d := conv("c", m["c"], cExt{}, reg[p+"C"], &v.C); d != "" {
		return d
	}
	return conv("d", m["d"], dExt{}, reg[p+"D"], &v.D)
}
