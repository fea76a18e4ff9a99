package gen

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/drv"
	"verif/harness/ir"
	"verif/harness/vr"
)

// C11/programs: the unions of random programs are registered by the generated
// code, and rendered as the union of their members in TypeScript.
func TestC11Programs(t *testing.T) {
	vr.Run(t, "C11/programs", func(t *rapid.T) progCase {
		p := ir.Draw(t, ir.Opts{TS: true, MaxPkgs: 4, MaxDecls: 7, MaxMethod: 4, StructSvc: true, Targets: 2, RareDirs: true, Unions: true, NestUnions: true, UnionHeavy: true})
		return progCase{p, drawCalls(t, p, 30)}
	}, func(c progCase) vr.Result {
		p := c.Prog
		b := withDriver(p)
		if b.fail.Fail != "" {
			return b.fail
		}
		res := vr.Result{}
		for _, k := range c.Calls {
			w := b.ask(drv.Req{Op: "wire", Svc: k.Svc, Method: k.Method, Args: k.Args, Rets: k.Rets})
			if w.Fail != "" {
				return vr.Failf(w.Fail, "%s", w.Detail)
			}
			res.Evals++
			if w.Unions > 0 {
				res.NonTrivial = true
				res.NonTrivialEvals++
				res.Keys = append(res.Keys, b.key[:12]+fmt.Sprint(k.Svc)+w.Key)
				res.Classes = append(res.Classes, "unions in results")
			}
		}
		if r := checkTS(p, b, nil); r.Fail != "" {
			return r
		}
		// unions of enums at run time
		loaded := ts(tsReq{Op: "load", Root: b.root, Files: b.tsFiles()})
		if loaded.Abort != "" {
			return vr.Failf("the generated TypeScript cannot be run", "%s", clip(loaded.Abort))
		}
		for _, r := range p.Reachable() {
			d := p.Find(r.P, r.N)
			switch d.Kind {
			case ir.Union:
			case ir.SUnion:
				object := func(pkg int, name string) (m map[string]interface{}, ok bool) {
					raw, ok := loaded.Modules[p.Pkgs[pkg].Out][name]
					return m, ok && json.Unmarshal(raw, &m) == nil
				}
				got, ok := object(r.P, r.N)
				if !ok {
					return vr.Failf("a union of enums is not there at run time", "%s.%s", p.Path(r.P), r.N)
				}
				want, early := map[string]interface{}{}, map[string]interface{}{}
				for _, m := range d.UnionMembers() {
					values, ok := object(m.P, m.N)
					if !ok {
						return vr.Failf("a member of a union of enums is no enum", "%s.%s", p.Path(m.P), m.N)
					}
					for k, v := range values {
						want[k] = v
						// known finding: those declared further down in the same module are missing
						if m.P != r.P || m.N < r.N {
							early[k] = v
						}
					}
				}
				if g := js(got); g != js(want) && g != js(early) {
					return vr.Failf("a union of enums does not have their members", "%s.%s: %s instead of %s", p.Path(r.P), r.N, g, js(want))
				}
			default:
				continue
			}
			res.Evals++
			res.NonTrivial = true
			res.NonTrivialEvals++
			res.Keys = append(res.Keys, b.key[:12]+p.Path(r.P)+r.N)
			res.Classes = append(res.Classes, fmt.Sprintf("%s with %d members", d.Kind, len(d.Fields)))
			for _, m := range d.UnionMembers() {
				res.Classes = append(res.Classes, strings.TrimSpace(fmt.Sprintf("%s of %s other package:%v", d.Kind, p.Find(m.P, m.N).Kind, m.P != r.P)))
			}
		}
		return res
	})
}

func js(v interface{}) string {
	raw, err := json.Marshal(v)
	if err != nil {
		vr.Abort("%v", err)
	}
	return string(raw)
}
