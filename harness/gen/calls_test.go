package gen

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/drv"
	"verif/harness/ir"
	"verif/harness/val"
	"verif/harness/vr"
)

// callSpec is a call; service and method are taken modulo what the program has.
type callSpec struct {
	Svc    int    `json:"svc"`
	Method int    `json:"method"`
	JSON   bool   `json:"json,omitempty"`
	Args   []byte `json:"args,omitempty"`
	Rets   []byte `json:"rets,omitempty"`
	Write  int    `json:"write,omitempty"`
	Down   bool   `json:"down,omitempty"` // nobody answers in time
}

type progCase struct {
	Prog  *ir.Program `json:"prog"`
	Calls []callSpec  `json:"calls"`
}

func drawCalls(t *rapid.T, p *ir.Program, max int) (out []callSpec) {
	svcs := p.Services()
	n := rapid.IntRange(1, max).Draw(t, "calls")
	for i := 0; i < n; i++ {
		c := callSpec{Svc: rapid.IntRange(0, len(svcs)-1).Draw(t, "svc")}
		c.Method = rapid.IntRange(0, len(svcs[c.Svc].Decl.Methods)-1).Draw(t, "method")
		c.JSON = rapid.Bool().Draw(t, "json")
		c.Args = vr.Entropy(t, "args", 80)
		c.Rets = vr.Entropy(t, "rets", 80)
		c.Write = rapid.IntRange(0, 3).Draw(t, "write")
		c.Down = rapid.IntRange(0, 19).Draw(t, "down") == 19
		out = append(out, c)
	}
	return out
}

// calls runs the calls of a case through the driver.
func calls(c progCase, b *built, op func(callSpec) drv.Req) vr.Result {
	if b.fail.Fail != "" {
		return b.fail
	}
	res := vr.Result{Evals: len(c.Calls)}
	for _, k := range c.Calls {
		r := b.ask(op(k))
		if r.Fail != "" {
			return vr.Failf(r.Fail, "%s", r.Detail)
		}
		if r.NonTrivial {
			res.NonTrivial = true
			res.NonTrivialEvals++
			res.Keys = append(res.Keys, b.key[:12]+fmt.Sprint(k.Svc, k.Method)+r.Key)
		}
	}
	return res
}

func TestC01Programs(t *testing.T) {
	vr.Run(t, "C01/programs", func(t *rapid.T) progCase {
		p := ir.Draw(t, ir.Opts{MaxPkgs: 3, MaxDecls: 6, MaxMethod: 5, StructSvc: true, Errors: true, Targets: 2, RareNames: true, RareDirs: true})
		return progCase{p, drawCalls(t, p, 60)}
	}, func(c progCase) vr.Result {
		b := withDriver(c.Prog)
		return calls(c, b, func(k callSpec) drv.Req {
			m := val.Msgpack
			if k.JSON {
				m = val.JSON
			}
			return drv.Req{Op: "go", Svc: k.Svc, Method: k.Method, Mode: string(m), Args: k.Args, Rets: k.Rets, Write: k.Write}
		})
	})
}

func TestC17Programs(t *testing.T) {
	vr.Run(t, "C17/programs", func(t *rapid.T) progCase {
		p := ir.Draw(t, ir.Opts{MaxPkgs: 3, MaxDecls: 5, MaxMethod: 5, StructSvc: true, Targets: 2, GoRPC: true, RareNames: true, RareDirs: true})
		return progCase{p, drawCalls(t, p, 60)}
	}, func(c progCase) vr.Result {
		b := withDriver(c.Prog)
		return calls(c, b, func(k callSpec) drv.Req {
			if k.Down {
				return drv.Req{Op: "rpcdown", Svc: k.Svc, Method: k.Method, Args: k.Args, Write: k.Write & 1}
			}
			return drv.Req{Op: "rpc", Svc: k.Svc, Method: k.Method, Args: k.Args, Rets: k.Rets, Write: k.Write}
		})
	})
}
