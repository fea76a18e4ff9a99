package gen

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/drv"
	"verif/harness/ir"
	"verif/harness/vr"
)

func tsOpts() ir.Opts {
	return ir.Opts{TS: true, Errors: true, MaxPkgs: 3, MaxDecls: 6, MaxMethod: 4, StructSvc: true, Override: true, Anon: true, Targets: 2, RareNames: true, RareDirs: true}
}

// hasTSClient says whether a service has a TypeScript client.
func hasTSClient(s ir.SvcRef) bool {
	if s.Target.Out == "" {
		return false
	}
	if len(s.Target.TSRPC) == 0 {
		return true
	}
	for _, n := range s.Target.TSRPC {
		if n == s.Decl.Name {
			return true
		}
	}
	return false
}

type alias struct {
	name, typ string
}

// wireAliases are the TypeScript types of the arguments and results of a method.
func wireAliases(s ir.SvcRef, i, j int) (args, rets []alias) {
	m := s.Decl.Methods[j]
	sig := fmt.Sprintf("import(%q).%sClient[%q]", "./"+strings.TrimSuffix(s.Target.Out, ".ts"), s.Decl.Name, ir.TSMethod(m.Name))
	for k := range m.Args {
		args = append(args, alias{fmt.Sprintf("A%d_%d_%d", i, j, k), fmt.Sprintf("Parameters<%s>[%d]", sig, k)})
	}
	names := m.RetNames()
	for k := range m.Rets {
		t := "Awaited<ReturnType<" + sig + ">>"
		if len(m.Rets) > 1 {
			t += fmt.Sprintf("[%q]", names[k])
		}
		rets = append(rets, alias{fmt.Sprintf("R%d_%d_%d", i, j, k), t})
	}
	return
}

// checkTS compiles the generated files together with the assertions, and
// judges the wire values of calls.
func checkTS(p *ir.Program, b *built, specs []callSpec) vr.Result {
	svcs := p.Services()
	assertions := p.TSCheck()
	lines := []string{ir.TSHead}
	about := map[int]string{}
	for _, a := range assertions {
		lines = append(lines, a.Line)
		about[len(lines)] = a.About
	}
	req := tsReq{Op: "check", Root: b.root, Files: b.tsFiles()}
	res := vr.Result{Evals: len(assertions), NonTrivialEvals: len(assertions), NonTrivial: len(assertions) > 0}
	for _, a := range assertions {
		res.Keys = append(res.Keys, b.key[:12]+a.Line)
	}
	have := map[string]bool{}
	var whats []string
	for _, c := range specs {
		if !hasTSClient(svcs[c.Svc]) {
			continue
		}
		w := b.ask(drv.Req{Op: "wire", Svc: c.Svc, Method: c.Method, Args: c.Args, Rets: c.Rets})
		if w.Fail != "" {
			return vr.Failf(w.Fail, "%s", w.Detail)
		}
		m := svcs[c.Svc].Decl.Methods[c.Method]
		args, rets := wireAliases(svcs[c.Svc], c.Svc, c.Method)
		add := func(what, wire string, as []alias) {
			if len(as) == 0 {
				return
			}
			var raw []json.RawMessage
			if err := json.Unmarshal([]byte(wire), &raw); err != nil || len(raw) != len(as) {
				vr.Abort("wire %q: %v", wire, err)
			}
			for k, a := range as {
				if !have[a.name] {
					have[a.name] = true
					lines = append(lines, fmt.Sprintf("export type %s = %s;", a.name, a.typ))
					about[len(lines)] = what
				}
				req.Admits = append(req.Admits, admitReq{a.name, string(raw[k])})
				whats = append(whats, fmt.Sprintf("%s %d of %s.%s", what, k, svcs[c.Svc].Decl.Name, m.Name))
				res.Evals++
				res.NonTrivialEvals++
				res.Keys = append(res.Keys, b.key[:12]+a.name+string(raw[k]))
			}
		}
		add("argument", w.ReqWire, args)
		add("result", w.RespWire, rets)
	}
	req.Extra = strings.Join(lines, "\n") + "\n"
	out := ts(req)
	for _, d := range out.Diagnostics {
		if filepath.Base(d.File) == "zz_check.ts" {
			what, ok := about[d.Line]
			if !ok {
				vr.Abort("check file: %d %s", d.Line, d.Message)
			}
			return vr.Failf("a generated type is not the type of its Go declaration", "%s\n%s\nTS%d %s", what, lines[d.Line-1], d.Code, d.Message)
		}
		return vr.Failf("the generated TypeScript does not compile", "%s:%d TS%d %s", d.File, d.Line, d.Code, d.Message)
	}
	for i, why := range out.Admits {
		if why != "" {
			return vr.Failf("a value on the wire is not of its TypeScript type", "%s: %s\n%s", whats[i], why, clip(req.Admits[i].JSON))
		}
	}
	return res
}

func TestC03Programs(t *testing.T) {
	vr.Run(t, "C03/programs", func(t *rapid.T) progCase {
		p := ir.Draw(t, tsOpts())
		return progCase{p, drawCalls(t, p, 30)}
	}, func(c progCase) vr.Result {
		b := withDriver(c.Prog)
		if b.fail.Fail != "" {
			return b.fail
		}
		return checkTS(c.Prog, b, c.Calls)
	})
}

func TestC02Programs(t *testing.T) {
	vr.Run(t, "C02/programs", func(t *rapid.T) progCase {
		p := ir.Draw(t, tsOpts())
		return progCase{p, drawCalls(t, p, 50)}
	}, func(c progCase) vr.Result {
		b := withDriver(c.Prog)
		if b.fail.Fail != "" {
			return b.fail
		}
		svcs := c.Prog.Services()
		url := b.ask(drv.Req{Op: "serve"}).URL
		if url == "" {
			vr.Abort("no server")
		}
		loaded := ts(tsReq{Op: "load", Root: b.root, Files: b.tsFiles()})
		if loaded.Abort != "" {
			return vr.Failf("the generated TypeScript cannot be run", "%s", clip(loaded.Abort))
		}
		res := vr.Result{}
		for _, k := range c.Calls {
			s := svcs[k.Svc]
			m := s.Decl.Methods[k.Method]
			if !hasTSClient(s) {
				continue
			}
			prep := b.ask(drv.Req{Op: "prep", Svc: k.Svc, Method: k.Method, Args: k.Args, Rets: k.Rets})
			if prep.Fail != "" {
				return vr.Failf(prep.Fail, "%s", prep.Detail)
			}
			got := ts(tsReq{Op: "call", Root: b.root, File: s.Target.Out, Cls: s.Decl.Name + "Client", Method: ir.TSMethod(m.Name),
				GoMethod: m.Name, Endpoint: s.Endpoint, URL: url, Args: prep.Args})
			if got.Abort != "" {
				return vr.Failf("the TypeScript client cannot be run", "%s.%s: %s", s.Decl.Name, m.Name, clip(got.Abort))
			}
			if got.Fail != "" {
				return vr.Failf(got.Fail, "%s", got.Detail)
			}
			done := b.ask(drv.Req{Op: "done", Svc: k.Svc, Method: k.Method, Args: k.Args, Rets: k.Rets, Value: got.Value, Absent: got.Absent})
			if done.Fail != "" {
				return vr.Failf(done.Fail, "%s", done.Detail)
			}
			res.Evals++
			if done.NonTrivial {
				res.NonTrivial = true
				res.NonTrivialEvals++
				res.Keys = append(res.Keys, b.key[:12]+fmt.Sprint(k.Svc)+done.Key)
			}
		}
		return res
	})
}

func TestC04Programs(t *testing.T) {
	vr.Run(t, "C04/programs", func(t *rapid.T) *ir.Program {
		o := tsOpts()
		o.EnumHeavy = true
		o.MaxDecls = 8
		return ir.Draw(t, o)
	}, func(p *ir.Program) vr.Result {
		b := genOnly(p)
		if b.fail.Fail != "" {
			return b.fail
		}
		loaded := ts(tsReq{Op: "load", Root: b.root, Files: b.tsFiles()})
		if loaded.Abort != "" {
			return vr.Failf("the generated TypeScript cannot be run", "%s", clip(loaded.Abort))
		}
		res := vr.Result{}
		lines := []string{ir.TSHead}
		about := map[int]string{}
		wantEnum := map[string]map[string]bool{}
		for _, r := range p.Reachable() {
			d := p.Find(r.P, r.N)
			if d.Kind != ir.Scalar {
				continue
			}
			res.Evals++
			file := p.Pkgs[r.P].Out
			where := p.Path(r.P) + "." + r.N
			values := loaded.Modules[file][r.N]
			if !d.IsEnum() {
				if values != nil {
					return vr.Failf("a type without constants is an enum", "%s", where)
				}
				lines = append(lines, fmt.Sprintf("export const t%d: Same<import(%q).%s, %s> = true;", len(lines), "./"+strings.TrimSuffix(file, ".ts"), r.N, p.TSReference(r)))
				about[len(lines)] = where
				continue
			}
			if wantEnum[file] == nil {
				wantEnum[file] = map[string]bool{}
			}
			wantEnum[file][r.N] = true
			res.NonTrivial = true
			res.NonTrivialEvals++
			raw, _ := json.Marshal(d)
			res.Keys = append(res.Keys, string(raw))
			if values == nil {
				return vr.Failf("a type with constants is no enum", "%s", where)
			}
			var got map[string]interface{}
			if err := json.Unmarshal(values, &got); err != nil {
				return vr.Failf("a type with constants is no enum", "%s: %s", where, clip(string(values)))
			}
			want := d.EnumValues()
			for k, v := range want {
				g, ok := got[k]
				if !ok {
					return vr.Failf("an enum lacks the member of a constant", "%s: %s: has %s", where, k, clip(string(values)))
				}
				if g != v {
					return vr.Failf("an enum member has another value than its constant", "%s.%s is %#v instead of %#v", where, k, g, v)
				}
			}
			for k := range got {
				if _, ok := want[k]; ok {
					continue
				}
				if n, isName := got[k].(string); isName && d.Type.K != "string" {
					if _, ok := want[n]; ok {
						continue // reverse mapping
					}
				}
				return vr.Failf("an enum has a member without a constant", "%s: %s", where, k)
			}
		}
		out := ts(tsReq{Op: "check", Root: b.root, Files: b.tsFiles(), Extra: strings.Join(lines, "\n") + "\n"})
		for _, d := range out.Diagnostics {
			if filepath.Base(d.File) == "zz_check.ts" {
				return vr.Failf("a type without constants is not an alias of its kind", "%s: TS%d %s", about[d.Line], d.Code, d.Message)
			}
			return vr.Failf("the generated TypeScript does not compile", "%s:%d TS%d %s", d.File, d.Line, d.Code, d.Message)
		}
		return res
	})
}
