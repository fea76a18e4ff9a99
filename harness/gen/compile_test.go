package gen

import (
	"bytes"
	"encoding/json"
	"go/format"
	"os"
	"path/filepath"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/ir"
	"verif/harness/vr"
)

type compileCase struct {
	Prog *ir.Program `json:"prog"`
}

// checkGo decides whether the generated Go files are formatted and compile
// together with the assertions about their API.
func checkGo(p *ir.Program, b *built) vr.Result {
	if b.fail.Fail != "" {
		return b.fail
	}
	res := vr.Result{NonTrivial: true}
	for f := range p.GoOutputs() {
		src, err := os.ReadFile(filepath.Join(b.root, f))
		if err != nil {
			return vr.Failf("a generated file is missing", "%s", f)
		}
		nice, err := format.Source(src)
		if err != nil {
			return vr.Failf("the generated code does not parse", "%s: %v", f, err)
		}
		if !bytes.Equal(nice, src) {
			return vr.Failf("the generated code is not formatted", "%s", f)
		}
	}
	write(b.root, map[string]string{"zzasserts/asserts.go": p.Asserts()})
	r := goCmd(b.root, "build", "./...")
	if r.Timeout {
		vr.Abort("go build takes too long")
	}
	if r.Code != 0 {
		if bytes.Contains([]byte(r.Out), []byte("zzasserts/")) && !bytes.Contains([]byte(r.Out), []byte("_gen.go:")) {
			return vr.Failf("the generated code lacks what it has to offer", "%s", clip(r.Out))
		}
		return vr.Failf("the generated code does not compile", "%s", clip(r.Out))
	}
	for _, s := range p.Services() {
		for _, m := range s.Decl.Methods {
			res.Evals++
			res.NonTrivialEvals++
			raw, _ := json.Marshal(m)
			res.Keys = append(res.Keys, string(raw))
		}
	}
	return res
}

func TestC19Programs(t *testing.T) {
	vr.Run(t, "C19/programs", func(t *rapid.T) compileCase {
		o := ir.Opts{MaxPkgs: 4, MaxDecls: 4, MaxMethod: 6, StructSvc: true, Targets: 3, RareNames: true, Anon: true, Unions: true, Override: true, SkipClients: true, RareDirs: true}
		switch rapid.IntRange(0, 2).Draw(t, "kind") {
		case 0:
			o.Errors = true
		case 1:
			o.GoRPC, o.Unions, o.Anon = true, false, false
		}
		return compileCase{ir.Draw(t, o)}
	}, func(c compileCase) vr.Result {
		return checkGo(c.Prog, genOnly(c.Prog))
	})
}
