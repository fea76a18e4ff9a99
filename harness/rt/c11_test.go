package rt

import (
	"fmt"
	"net/http"
	"reflect"
	"testing"

	"github.com/foomo/gotsrpc/v2"
	"pgregory.net/rapid"

	"verif/harness/fx/un"
	"verif/harness/fx/uu"
	"verif/harness/val"
	"verif/harness/vr"
)

// unionSvc returns what it is told to.
type unionSvc struct{ rets []reflect.Value }

func unr[T any](s *unionSvc, i int) (t T) {
	if i < len(s.rets) {
		t, _ = s.rets[i].Interface().(T)
	}
	return t
}

func (s *unionSvc) Choice() un.Choice       { return unr[un.Choice](s, 0) }
func (s *unionSvc) Pet() (*uu.Pet, int)     { return unr[*uu.Pet](s, 0), unr[int](s, 1) }
func (s *unionSvc) Kind() (uu.Kind, bool)   { return unr[uu.Kind](s, 0), unr[bool](s, 1) }
func (s *unionSvc) List() []un.Choice       { return unr[[]un.Choice](s, 0) }
func (s *unionSvc) Map() map[string]*uu.Pet { return unr[map[string]*uu.Pet](s, 0) }
func (s *unionSvc) Value() un.ValueChoice   { return unr[un.ValueChoice](s, 0) }
func (s *unionSvc) Single() ([]un.Single, *un.Single) {
	return unr[[]un.Single](s, 0), unr[*un.Single](s, 1)
}
func (s *unionSvc) Holder() (un.Holder, *un.Holder) {
	return unr[un.Holder](s, 0), unr[*un.Holder](s, 1)
}

var unionType = reflect.TypeOf((*un.Unions)(nil)).Elem()

func unionRets(m string) (out []reflect.Type) {
	mt, ok := unionType.MethodByName(m)
	if !ok {
		vr.Abort("no method %s", m)
	}
	for i := 0; i < mt.Type.NumOut(); i++ {
		out = append(out, mt.Type.Out(i))
	}
	return
}

type unionCall struct {
	Method string `json:"method"`
	Rets   []byte `json:"rets"`
}

// C11/runtime: replies carry unions as their active member, in every position,
// because the generated code has registered them.
func TestC11Runtime(t *testing.T) {
	vr.Run(t, "C11/runtime", func(t *rapid.T) []unionCall {
		return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) unionCall {
			return unionCall{rapid.SampledFrom([]string{"Choice", "Pet", "Kind", "List", "Map", "Value", "Single", "Holder"}).Draw(t, "method"), entropy(t, "rets", 80)}
		}), 1, 4).Draw(t, "calls")
	}, func(calls []unionCall) vr.Result {
		svc := &unionSvc{}
		h := un.NewDefaultUnionsGoTSRPCProxy(svc)
		var cls []string
		n, nt := 0, 0
		for _, c := range calls {
			types := unionRets(c.Method)
			svc.rets = buildAll(c.Rets, types, val.JSON)
			rec := post(h, "POST", "/service/unions/"+c.Method, http.Header{"Content-Type": {ctJSON}}, nil)
			if rec.Code != 200 {
				return vr.Failf("a call returning unions fails", "%s: %d %s", c.Method, rec.Code, rec.Body)
			}
			if d := diffRets(rec.Body.Bytes(), svc.rets, types, true); d != "" {
				return vr.Failf("a union is not sent as its active member", "%s: %s\n%s", c.Method, d, clip(rec.Body.String()))
			}
			n++
			for _, r := range svc.rets {
				all, act, multi := val.CountUnions(r)
				if all > 0 {
					nt++
					cls = append(cls, fmt.Sprintf("%s active:%v several:%v", c.Method, act > 0, multi > 0))
				}
			}
		}
		return vr.Result{Evals: n, NonTrivial: nt > 0, NonTrivialEvals: nt, Classes: cls}
	})
}

// C11/arguments: as part of an argument list or any other value the client encodes.
func TestC11Arguments(t *testing.T) {
	vr.Run(t, "C11/arguments", func(t *rapid.T) unionCall {
		return unionCall{rapid.SampledFrom([]string{"Choice", "Pet", "Kind", "List", "Map", "Value", "Single", "Holder"}).Draw(t, "method"), entropy(t, "rets", 80)}
	}, func(c unionCall) vr.Result {
		args := buildAll(c.Rets, unionRets(c.Method), val.JSON)
		p := &pipe{h: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("Content-Type", ctJSON)
			_, _ = w.Write([]byte("[]"))
		})}
		cl := gotsrpc.NewClientWithHttpClient(&http.Client{Transport: p})
		cl.SetClientEncoding(gotsrpc.EncodingJson)
		if err := cl.Call(bg, "http://host", "/x", "M", ifaces(args), nil); err != nil {
			return vr.Failf("unions cannot be sent", "%v", err)
		}
		if d := diffRets(p.body[0], args, nil, true); d != "" {
			return vr.Failf("a union is not sent as its active member", "as argument: %s\n%s", d, clip(string(p.body[0])))
		}
		return vr.OK(c.Method)
	})
}

// unions which are registered by hand: any kind of member
type (
	regLeaf struct {
		V string `json:"v"`
	}
	regUnion struct {
		L  []int          `json:"l" gotsrpc:"union"`
		M  map[string]int `json:"m" gotsrpc:"union"`
		S  string         `json:"s" gotsrpc:"union"`
		B  bool           `json:"b" gotsrpc:"union"`
		N  int64          `json:"n" gotsrpc:"union"`
		P  *int           `json:"p" gotsrpc:"union"`
		St regLeaf        `json:"st" gotsrpc:"union"`
		On struct {
			P *regUnion `json:"p,omitempty"`
		} `json:"on" gotsrpc:"union"`
		Om struct {
			M map[string]*regLeaf `json:"m,omitempty"`
		} `json:"om" gotsrpc:"union"`
		SP *regLeaf          `json:"sp" gotsrpc:"union"`
		U  *uu.Pet           `json:"u" gotsrpc:"union"`
		LS []regLeaf         `json:"ls" gotsrpc:"union"`
		X  map[string]uu.Pet `json:"x" gotsrpc:"union"`
		R  *regUnion         `json:"r" gotsrpc:"union"`
		LU []regUnion        `json:"lu" gotsrpc:"union"`
	}
	regHolder struct {
		A regUnion            `json:"a"`
		B *regUnion           `json:"b"`
		C []regUnion          `json:"c"`
		D map[string]regUnion `json:"d"`
	}
)

var regTypes = []reflect.Type{reflect.TypeOf(regUnion{}), reflect.TypeOf(&regUnion{}), reflect.TypeOf([]regUnion{}), reflect.TypeOf(map[string]*regUnion{}), reflect.TypeOf(regHolder{}), reflect.TypeOf(regOne{}), reflect.TypeOf([]*regTwo{}), reflect.TypeOf(regMany{})}

// unions registered together with others
type (
	regOne struct {
		S string `json:"s" gotsrpc:"union"`
	}
	regTwo struct {
		A *regLeaf `json:"a" gotsrpc:"union"`
		B []regOne `json:"b" gotsrpc:"union"`
	}
	regMany struct {
		One *regOne  `json:"one"`
		Two []regTwo `json:"two"`
		U   regUnion `json:"u"`
	}
)

func init() { gotsrpc.MustRegisterUnionExt(regUnion{}, &regTwo{}, regOne{}) }

// C11/registered: unions registered with the library, with members of every kind.
func TestC11Registered(t *testing.T) {
	type regCase struct {
		Type    int    `json:"type"`
		Entropy []byte `json:"entropy"`
		Arg     bool   `json:"arg,omitempty"`
	}
	vr.Run(t, "C11/registered", func(t *rapid.T) regCase {
		return regCase{rapid.IntRange(0, len(regTypes)-1).Draw(t, "type"), entropy(t, "entropy", 60), rapid.Bool().Draw(t, "arg")}
	}, func(c regCase) vr.Result {
		v := val.Build(val.NewSrc(c.Entropy), regTypes[c.Type], val.JSON)
		var body []byte
		if c.Arg {
			p := &pipe{h: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				w.Header().Set("Content-Type", ctJSON)
				_, _ = w.Write([]byte("[]"))
			})}
			cl := gotsrpc.NewClientWithHttpClient(&http.Client{Transport: p})
			cl.SetClientEncoding(gotsrpc.EncodingJson)
			if err := cl.Call(bg, "http://host", "/x", "M", []interface{}{v.Interface()}, nil); err != nil {
				return vr.Failf("unions cannot be sent", "%v", err)
			}
			body = p.body[0]
		} else {
			rec := post(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				if err := gotsrpc.Reply([]interface{}{v.Interface()}, nil, r, w); err != nil {
					w.WriteHeader(500)
				}
			}), "POST", "/x/M", http.Header{"Content-Type": {ctJSON}}, nil)
			if rec.Code != 200 {
				return vr.Failf("a call returning unions fails", "%d", rec.Code)
			}
			body = rec.Body.Bytes()
		}
		if d := diffRets(body, []reflect.Value{v}, regTypes[c.Type:c.Type+1], true); d != "" {
			return vr.Failf("a union is not sent as its active member", "%s: %s\n%s", v.Type(), d, clip(string(body)))
		}
		all, act, multi := val.CountUnions(v)
		return vr.Result{NonTrivial: all > 0, Classes: []string{fmt.Sprintf("active:%v several:%v", act > 0, multi > 0)}}
	})
}
