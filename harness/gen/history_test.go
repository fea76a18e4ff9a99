package gen

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/ir"
	"verif/harness/vr"
)

// histStep is a step of a history.
type histStep struct {
	Kind string `json:"kind"`
	A    int    `json:"a,omitempty"`
	B    int    `json:"b,omitempty"`
	Mode string `json:"mode,omitempty"`
}

type histCase struct {
	Prog  *ir.Program `json:"prog"`
	Steps []histStep  `json:"steps"`
}

var genFiles = []string{"gotsrpc_gen.go", "gotsrpcclient_gen.go", "gorpc_gen.go", "gorpcclient_gen.go"}

// clone copies a program.
func clone(p *ir.Program) *ir.Program {
	raw, err := json.Marshal(p)
	if err != nil {
		vr.Abort("%v", err)
	}
	c := &ir.Program{}
	if err := json.Unmarshal(raw, c); err != nil {
		vr.Abort("%v", err)
	}
	return c
}

// goSlots are the places of all Go files targets may generate.
func goSlots(p *ir.Program) (out []string) {
	for _, t := range p.Targets {
		for _, f := range genFiles {
			out = append(out, filepath.Join(p.Pkgs[t.Pkg].Dir, f))
		}
	}
	return out
}

func tsSlots(p *ir.Program) (out []string) {
	for _, t := range p.Targets {
		if t.Out != "" {
			out = append(out, t.Out)
		}
	}
	for _, pk := range p.Pkgs {
		out = append(out, pk.Out)
	}
	if p.TimeOut != "" {
		out = append(out, p.TimeOut)
	}
	return out
}

var damages = []string{"garbage", "truncate", "remove", "append", "empty", "conflict", "otherpkg", "flip", "blank"}

// damage changes a file which is or could be an output.
func damage(p *ir.Program, root, file, mode string) {
	full := filepath.Join(root, file)
	old, _ := os.ReadFile(full)
	pkg, decls := "x", ""
	for i, pk := range p.Pkgs {
		if filepath.Join(pk.Dir, filepath.Base(file)) == filepath.Clean(file) {
			pkg = pk.Name
			for _, d := range p.Pkgs[i].Decls {
				decls += "type " + d.Name + " struct{ ZzStale string }\n"
			}
		}
	}
	var content string
	switch mode {
	case "remove":
		_ = os.Remove(full)
		return
	case "truncate":
		content = string(old[:len(old)/2])
	case "append":
		content = string(old) + "\nzz stale"
	case "flip": // the same size
		if len(old) == 0 {
			return
		}
		at := len(old) - 1 - len(old)/7
		old[at] ^= 1
		content = string(old)
	case "blank":
		content = string(old) + "\n"
	case "empty":
	case "conflict":
		content = "package " + pkg + "\n\n" + decls
	case "otherpkg":
		content = "package zzother\n\ntype Zz int\n"
	default:
		content = "}}} not code {{{"
	}
	write(root, map[string]string{file: content})
}

var longAgo = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)

func checkHistory(c histCase) vr.Result {
	p := clone(c.Prog)
	res := vr.Result{}
	root := newDir()
	defer func() { _ = os.RemoveAll(root) }()
	layAt := func(at string) {
		write(at, p.Source())
		write(at, map[string]string{"go.mod": modFile(p.Mod), "go.sum": goSum, p.ConfigFile(): p.Config(at)})
		if err := os.MkdirAll(filepath.Join(at, p.Cwd), 0o755); err != nil {
			vr.Abort("%v", err)
		}
	}
	layAt(root)
	// what a clean run makes of the current configuration
	clean := map[string]map[string]string{}
	outputs := func() (map[string]string, vr.Result) {
		src, _ := json.Marshal(p.Pkgs)
		key := p.Config("/") + string(src)
		if p.AbsOut {
			key = p.Config(root) + string(src) // paths are part of the output
		}
		if o, ok := clean[key]; ok {
			return o, vr.Result{}
		}
		var first map[string]string
		for try := 0; try < 2; try++ {
			at := root + "-clean"
			if p.AbsOut {
				// the same place, so that the same paths are rendered
				at = root
				if err := os.Rename(root, root+"-aside"); err != nil {
					vr.Abort("%v", err)
				}
			}
			layAt(at)
			b := &built{root: at, prog: p}
			r := b.generate()
			after := tree(at)
			if err := os.RemoveAll(at); err != nil {
				vr.Abort("%v", err)
			}
			if p.AbsOut {
				if err := os.Rename(root+"-aside", root); err != nil {
					vr.Abort("%v", err)
				}
			}
			if r.Code != 0 {
				return nil, vr.Failf("the generator fails for a supported program", "exit %d\n%s", r.Code, clip(r.Out))
			}
			for f := range p.Source() {
				delete(after, f)
			}
			for _, f := range []string{"go.mod", "go.sum", p.ConfigFile()} {
				delete(after, f)
			}
			if first == nil {
				first = after
				continue
			}
			if d := diff(first, after); d != "" {
				return nil, vr.Failf("two clean runs differ", "%s", d)
			}
		}
		clean[key] = first
		return first, vr.Result{}
	}
	runs := 0
	for n, s := range append(append([]histStep{}, c.Steps...), histStep{Kind: "run"}) {
		switch s.Kind {
		case "damage":
			slots := append(goSlots(p), tsSlots(p)...)
			damage(p, root, slots[s.A%len(slots)], s.Mode)
		case "config":
			t := p.Targets[s.A%len(p.Targets)]
			names := func(list []string) []string {
				if len(list) == 0 {
					for _, b := range t.Services {
						list = append(list, b.Service)
					}
					return list
				}
				if s.B%2 == 0 {
					return nil
				}
				return list[1:]
			}
			switch s.Mode {
			case "skip":
				t.Skip = !t.Skip
			case "tsrpc":
				t.TSRPC = names(t.TSRPC)
			case "gorpc":
				if len(t.GoRPC) > 0 || c.Prog.GoRPCable() {
					t.GoRPC = names(t.GoRPC)
				}
			}
			write(root, map[string]string{p.ConfigFile(): p.Config(root)})
		case "source":
			edit(p, c.Prog, s)
			write(root, p.Source())
		case "move":
			if p.AbsOut {
				break // other paths in the configuration, other output
			}
			moved := root + "m"
			if err := os.Rename(root, moved); err != nil {
				vr.Abort("%v", err)
			}
			root = moved
			write(root, map[string]string{p.ConfigFile(): p.Config(root)})
		case "unrelated":
			write(root, map[string]string{filepath.Join(p.Pkgs[s.A%len(p.Pkgs)].Dir, "notes.txt"): "notes", "out/keep.ts": "export const keep = 1;\n"})
		case "run":
			want, bad := outputs()
			if bad.Fail != "" {
				return bad
			}
			before := tree(root)
			for f := range before {
				if err := os.Chtimes(filepath.Join(root, f), longAgo, longAgo); err != nil {
					vr.Abort("%v", err)
				}
			}
			b := &built{root: root, prog: p}
			var args []string
			if s.Mode == "debug" {
				args = []string{"-debug"}
			}
			var r procResult
			cwd := root
			if s.Mode == "elsewhere" && !p.AbsOut {
				// relative outputs land where the generator runs
				cwd = newDir()
				r = generate(filepath.Join(cwd, mkdir(cwd, p.Cwd)), append(args, filepath.Join(root, p.ConfigFile()))...)
			} else {
				r = b.generate(args...)
			}
			runs++
			res.Evals++
			res.NonTrivialEvals++
			what := fmt.Sprintf("step %d (run %s)", n, s.Mode)
			if r.Code != 0 {
				return vr.Failf("a run fails where a clean one does not", "%s: exit %d\n%s", what, r.Code, clip(r.Out))
			}
			after := tree(root)
			wantNow := map[string]string{}
			for f, content := range before {
				wantNow[f] = content
			}
			for _, f := range goSlots(p) {
				delete(wantNow, f)
			}
			there := map[string]string{}
			for f, content := range want {
				if cwd != root && !strings.HasSuffix(f, "_gen.go") {
					there[f] = content
					continue
				}
				wantNow[f] = content
			}
			if d := diff(wantNow, after); d != "" {
				return vr.Failf("a run leaves other files than a clean one", "%s: %s", what, d)
			}
			if cwd != root {
				if d := diff(there, tree(cwd)); d != "" {
					return vr.Failf("a run in another directory leaves other files", "%s: %s", what, d)
				}
				_ = os.RemoveAll(cwd)
			}
			for f, content := range after {
				if strings.HasSuffix(f, "_gen.go") || before[f] != content {
					continue
				}
				if _, ok := before[f]; !ok {
					continue
				}
				st, err := os.Stat(filepath.Join(root, f))
				if err != nil {
					vr.Abort("%v", err)
				}
				if !st.ModTime().Equal(longAgo) {
					return vr.Failf("a file whose content does not change is written", "%s: %s", what, f)
				}
			}
		}
	}
	if runs > 1 {
		res.NonTrivial = true
	}
	raw, _ := json.Marshal(c.Steps)
	res.Keys = append(res.Keys, p.Config("/")+string(raw))
	return res
}

// edit changes the services of a program, or restores them.
func edit(p, orig *ir.Program, s histStep) {
	t := p.Targets[s.A%len(p.Targets)]
	d := p.Find(t.Pkg, t.Services[s.B%len(t.Services)].Service)
	o := orig.Find(t.Pkg, d.Name)
	switch s.Mode {
	case "drop":
		if len(d.Methods) > 1 {
			d.Methods = d.Methods[:len(d.Methods)-1]
		}
	case "first":
		if len(d.Methods) > 1 {
			d.Methods = d.Methods[1:]
		}
	case "swap":
		for i, j := 0, len(d.Methods)-1; i < j; i, j = i+1, j-1 {
			d.Methods[i], d.Methods[j] = d.Methods[j], d.Methods[i]
		}
	case "restore":
		d.Methods = append([]*ir.Method(nil), o.Methods...)
	}
}

func mkdir(root, dir string) string {
	if err := os.MkdirAll(filepath.Join(root, dir), 0o755); err != nil {
		vr.Abort("%v", err)
	}
	return dir
}

// diff describes the first difference of two trees.
func diff(want, got map[string]string) string {
	all := map[string]bool{}
	for f := range want {
		all[f] = true
	}
	for f := range got {
		all[f] = true
	}
	var names []string
	for f := range all {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		w, inW := want[f]
		g, inG := got[f]
		switch {
		case !inG:
			return f + " is missing"
		case !inW:
			return f + " should not be there"
		case w != g:
			wl, gl := strings.Split(w, "\n"), strings.Split(g, "\n")
			for i := range wl {
				if i >= len(gl) || wl[i] != gl[i] {
					other := ""
					if i < len(gl) {
						other = gl[i]
					}
					return fmt.Sprintf("%s:%d is %q instead of %q", f, i+1, clip(other), clip(wl[i]))
				}
			}
			return f + " is longer"
		}
	}
	return ""
}

func TestC05Histories(t *testing.T) {
	vr.Run(t, "C05/histories", func(t *rapid.T) histCase {
		o := ir.Opts{MaxPkgs: 3, MaxDecls: 4, MaxMethod: 3, StructSvc: true, Targets: 3, RareDirs: true, Configs: true, Unions: true}
		if rapid.Bool().Draw(t, "gorpc") {
			o.GoRPC, o.Unions = true, false
		} else {
			o.Anon, o.Override, o.TS = true, true, true
		}
		c := histCase{Prog: ir.Draw(t, o)}
		for n := rapid.IntRange(1, 14).Draw(t, "steps"); n > 0; n-- {
			s := histStep{Kind: rapid.SampledFrom([]string{"run", "run", "run", "damage", "damage", "damage", "config", "config", "source", "source", "move", "unrelated"}).Draw(t, "kind")}
			switch s.Kind {
			case "run":
				s.Mode = rapid.SampledFrom([]string{"", "", "debug", "elsewhere"}).Draw(t, "mode")
			case "damage":
				s.A = rapid.IntRange(0, 30).Draw(t, "file")
				s.Mode = rapid.SampledFrom(damages).Draw(t, "damage")
			case "config":
				s.A = rapid.IntRange(0, 3).Draw(t, "target")
				s.B = rapid.IntRange(0, 3).Draw(t, "b")
				s.Mode = rapid.SampledFrom([]string{"skip", "tsrpc", "gorpc"}).Draw(t, "setting")
			case "source":
				s.A = rapid.IntRange(0, 3).Draw(t, "target")
				s.B = rapid.IntRange(0, 3).Draw(t, "service")
				s.Mode = rapid.SampledFrom([]string{"drop", "first", "swap", "restore"}).Draw(t, "edit")
			case "unrelated":
				s.A = rapid.IntRange(0, 3).Draw(t, "pkg")
			}
			c.Steps = append(c.Steps, s)
		}
		return c
	}, checkHistory)
}
