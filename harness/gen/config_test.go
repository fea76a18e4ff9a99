package gen

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/drv"
	"verif/harness/ir"
	"verif/harness/vr"
)

// tree reads all files below a directory.
func tree(root string) map[string]string {
	out := map[string]string{}
	err := filepath.WalkDir(root, func(path string, e fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, path)
		if e.IsDir() {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		out[rel] = string(b)
		return nil
	})
	if err != nil {
		vr.Abort("%v", err)
	}
	return out
}

func keys(m map[string]string) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// decls are the types and functions declared by the generated Go files of a
// package directory.
func goDecls(root, dir string) map[string]bool {
	out := map[string]bool{}
	for _, f := range []string{"gotsrpc_gen.go", "gotsrpcclient_gen.go", "gorpc_gen.go", "gorpcclient_gen.go"} {
		src, err := os.ReadFile(filepath.Join(root, dir, f))
		if err != nil {
			continue
		}
		file, err := parser.ParseFile(token.NewFileSet(), f, src, 0)
		if err != nil {
			continue // C19
		}
		for _, d := range file.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					out[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if s, ok := s.(*ast.TypeSpec); ok {
						out[s.Name.Name] = true
					}
				}
			}
		}
	}
	return out
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func checkConfig(p *ir.Program, b *built) vr.Result {
	if b.fail.Fail != "" {
		return b.fail
	}
	res := vr.Result{Evals: 1, NonTrivialEvals: 1, NonTrivial: true, Keys: []string{p.Config("/")}}

	// the files
	wantTS := map[string]map[string]bool{} // exported names
	optional := map[string]bool{}
	anyOut := false
	var svcs []ir.SvcRef
	for _, s := range p.Services() {
		if s.Target.Out == "" {
			continue
		}
		anyOut = true
		svcs = append(svcs, s)
		if wantTS[s.Target.Out] == nil {
			wantTS[s.Target.Out] = map[string]bool{}
		}
		if hasTSClient(s) {
			wantTS[s.Target.Out][s.Decl.Name+"Client"] = true
		}
	}
	if anyOut {
		for _, r := range p.ReachableFrom(svcs, p.Extras) {
			out := p.Pkgs[r.P].Out
			if wantTS[out] == nil {
				wantTS[out] = map[string]bool{}
			}
			wantTS[out][r.N] = true
		}
	}
	want := p.GoOutputs()
	mine := p.Source()
	for f := range tree(b.root) {
		if _, ok := mine[f]; ok || f == "go.mod" || f == "go.sum" || f == p.ConfigFile() || strings.HasPrefix(f, "zz") {
			continue
		}
		if _, ok := want[f]; ok {
			continue
		}
		if _, ok := wantTS[f]; ok {
			continue
		}
		for _, pk := range p.Pkgs {
			optional[pk.Out] = true // mapped packages without types
		}
		optional[p.TimeOut] = true
		if !optional[f] {
			return vr.Failf("a file the configuration does not ask for", "%s\n%s", f, p.Config(""))
		}
	}
	for f := range want {
		if _, err := os.Stat(filepath.Join(b.root, f)); err != nil {
			return vr.Failf("a Go file the configuration asks for is missing", "%s\n%s", f, p.Config(""))
		}
	}
	for f := range wantTS {
		if _, err := os.Stat(filepath.Join(b.root, f)); err != nil {
			return vr.Failf("a TypeScript file the configuration asks for is missing", "%s\n%s", f, p.Config(""))
		}
	}

	// what is in them
	for _, t := range p.Targets {
		have := goDecls(b.root, p.Pkgs[t.Pkg].Dir)
		for _, s := range t.Services {
			for _, x := range []struct {
				name string
				want bool
			}{
				{s.Service + "GoTSRPCProxy", in(t.TSRPC, s.Service)},
				{s.Service + "GoTSRPCClient", in(t.TSRPC, s.Service) && !t.Skip},
				{"HTTP" + s.Service + "GoTSRPCClient", in(t.TSRPC, s.Service) && !t.Skip},
				{s.Service + "GoRPCProxy", in(t.GoRPC, s.Service)},
				{s.Service + "GoRPCClient", in(t.GoRPC, s.Service)},
			} {
				if have[x.name] != x.want {
					return vr.Failf("a target has other proxies or clients than configured", "%s: %s declared: %v\n%s", p.Path(t.Pkg), x.name, have[x.name], p.Config(""))
				}
				res.Evals++
				res.NonTrivialEvals++
			}
		}
	}
	var files []string
	for f := range wantTS {
		files = append(files, f)
	}
	sort.Strings(files)
	if len(files) > 0 {
		out := ts(tsReq{Op: "check", Root: b.root, Files: b.tsFiles(), Exports: true})
		loaded := ts(tsReq{Op: "load", Root: b.root, Files: b.tsFiles()})
		if loaded.Abort != "" {
			return vr.Failf("the generated TypeScript cannot be run", "%s", clip(loaded.Abort))
		}
		for _, f := range files {
			exports := out.Exports[f]
			for n := range wantTS[f] {
				if !in(exports, n) {
					return vr.Failf("a type or client is not exported where it belongs", "%s in %s, which has %v\n%s", n, f, exports, p.Config(""))
				}
				res.Evals++
				res.NonTrivialEvals++
			}
		}
		for _, t := range p.Targets {
			if t.Out == "" {
				continue
			}
			for _, n := range out.Exports[t.Out] {
				if !wantTS[t.Out][n] {
					return vr.Failf("a TypeScript client nobody asked for", "%s in %s\n%s", n, t.Out, p.Config(""))
				}
			}
		}
		for i, pk := range p.Pkgs {
			for _, n := range out.Exports[pk.Out] {
				d := p.Find(i, n)
				if d == nil || d.Kind == ir.Service || d.Kind == ir.StructSvc {
					return vr.Failf("a TypeScript type which the package does not have", "%s in %s\n%s", n, pk.Out, p.Config(""))
				}
			}
		}
		for _, s := range svcs {
			if !hasTSClient(s) {
				continue
			}
			var c struct {
				Endpoint string `json:"endpoint"`
			}
			_ = json.Unmarshal(loaded.Modules[s.Target.Out][s.Decl.Name+"Client"], &c)
			if c.Endpoint != s.Endpoint {
				return vr.Failf("the TypeScript client has another default endpoint", "%s: %q instead of %q", s.Decl.Name, c.Endpoint, s.Endpoint)
			}
		}
	}
	return res
}

func TestC06Programs(t *testing.T) {
	vr.Run(t, "C06/programs", func(t *rapid.T) compileCase {
		o := ir.Opts{MaxPkgs: 4, MaxDecls: 4, MaxMethod: 3, StructSvc: true, Targets: 3, RareDirs: true, Configs: true}
		if rapid.Bool().Draw(t, "gorpc") {
			o.GoRPC = true
		} else {
			o.Anon, o.Override, o.TS = true, true, true
		}
		return compileCase{ir.Draw(t, o)}
	}, func(c compileCase) vr.Result {
		b := genOnly(c.Prog)
		return checkConfig(c.Prog, b)
	})
}

// TestC06Endpoints runs the generated code.
func TestC06Endpoints(t *testing.T) {
	vr.Run(t, "C06/endpoints", func(t *rapid.T) compileCase {
		return compileCase{ir.Draw(t, ir.Opts{MaxPkgs: 3, MaxDecls: 2, MaxMethod: 3, StructSvc: true, Targets: 3, Configs: true, GoRPC: true})}
	}, func(c compileCase) vr.Result {
		b := withDriver(c.Prog)
		if b.fail.Fail != "" {
			return b.fail
		}
		res := vr.Result{}
		for i, s := range c.Prog.Services() {
			r := b.ask(drv.Req{Op: "endpoint", Svc: i})
			if r.Fail != "" {
				return vr.Failf(r.Fail, "%s", r.Detail)
			}
			res.Evals++
			if r.NonTrivial {
				res.NonTrivial = true
				res.NonTrivialEvals++
				res.Keys = append(res.Keys, b.key[:12]+fmt.Sprint(i)+s.Endpoint)
			}
		}
		return res
	})
}
