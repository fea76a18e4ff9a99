package gen

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"

	"verif/harness/ir"
	"verif/harness/vr"
)

type faultCase struct {
	Prog   *ir.Program `json:"prog"`
	Faults []fault     `json:"faults"`
	Debug  bool        `json:"debug,omitempty"`
}

type fault struct {
	Kind string `json:"kind"`
	A    int    `json:"a"`
	B    int    `json:"b"`
}

var faultKinds = []string{
	"delete type", "delete type", "rename type", "not built", "delete package", "delete mapping", "unknown include", "syntax error", "syntax error",
	"unknown package", "unknown service", "no services", "import gone", "module path", "go.mod",
	"config missing", "config malformed", "config types", "target out", "mapping out", "mapping empty", "go out", "no args", "two args", "home",
	"wrong list", "service elsewhere",
}

// cutDecl removes or renames the declaration of a type.
func cutDecl(src, name, rename string) (string, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return src, false // broken by another fault
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.TYPE {
			continue
		}
		for _, s := range g.Specs {
			ts := s.(*ast.TypeSpec)
			if ts.Name.Name != name {
				continue
			}
			at := func(p token.Pos) int { return fset.Position(p).Offset }
			if rename != "" {
				return src[:at(ts.Name.Pos())] + rename + src[at(ts.Name.End()):], true
			}
			if g.Lparen.IsValid() {
				return src[:at(ts.Pos())] + src[at(ts.End()):], true
			}
			return src[:at(g.Pos())] + src[at(g.End()):], true
		}
	}
	return src, false
}

// sourceDir are the files of a package.
func sourceDir(files map[string]string, dir string) (out []string) {
	for f := range files {
		if filepath.Clean(filepath.Dir(f)) == filepath.Clean("./"+dir) && strings.HasSuffix(f, ".go") && !strings.HasSuffix(f, "_test.go") && !strings.HasPrefix(filepath.Base(f), "aa_") && !strings.HasPrefix(filepath.Base(f), "_") && !strings.HasPrefix(filepath.Base(f), ".") {
			out = append(out, f)
		}
	}
	sort.Strings(out)
	return out
}

var breaks = []func(string) string{
	func(s string) string { return s + "\n}\n" },
	func(s string) string {
		if i := strings.LastIndex(s, "}"); i >= 0 {
			return s[:i]
		}
		return s + "{"
	},
	func(s string) string { return strings.Replace(s, "package ", "pakage ", 1) },
	func(s string) string { return s + "\ntype Zz struct { A\n" },
	func(s string) string { return s + "\nfunc (\n" },
	func(s string) string { return s + "\nvar a = \"\n" },
	func(s string) string { return s + "\nimport \"fmt\"\n" },
	func(s string) string { return "\x00" + s },
	func(s string) string { return s + "\n/* comment" },
	func(s string) string { return s + "\ntype Zz interface { A(a int, }\n" },
	func(s string) string { return "" },
}

var badConfigs = []string{
	"\t%s", "targets: [", "{%s", "targets:\n  a: [1, 2]\n", "targets: 7\n", "- a\n- b\n", "mappings: abc\ntargets:\n  x:\n    package: y\n",
	"targets:\n  a:\n    services: []\n    package: x\n", "targets:\n  a:\n    package: [x]\n", "module: [a]\n%s", "just text", "targets:\n  a:\n    tsrpc: {a: b}\n", "\xff\xfe\x00%s",
	"targets:\n  a:\n    skipTSRPCClient: maybe\n", "targets: &a\n  x: *b\n",
}

func checkFaults(c faultCase) vr.Result {
	p := clone(c.Prog)
	// the failing target is not always the first
	root := newDir()
	defer func() { _ = os.RemoveAll(root) }()
	files := p.Source()
	files["go.mod"], files["go.sum"] = modFile(p.Mod), goSum
	var config string
	args := []string(nil)
	var envs []string
	var after []func()
	noConfig := false

	svcs := p.Services()
	reach := p.ReachableFrom(svcs, nil)
	var tsSvcs []ir.SvcRef
	for _, s := range svcs {
		if s.Target.Out != "" {
			tsSvcs = append(tsSvcs, s)
		}
	}
	reachTS := p.ReachableFrom(tsSvcs, nil)
	var applied []string
	var later []func(string) string // on the rendered configuration
	var malform func(string) string
	for _, f := range c.Faults {
		what := ""
		switch f.Kind {
		case "delete type", "rename type":
			if len(reach) == 0 {
				break
			}
			r := reach[f.A%len(reach)]
			to := ""
			if f.Kind == "rename type" {
				to = []string{"Zz" + r.N, "z" + r.N + "zz", r.N + "2"}[f.B%3]
			}
			for _, n := range sourceDir(files, p.Pkgs[r.P].Dir) {
				if s, ok := cutDecl(files[n], r.N, to); ok {
					files[n] = s
					what = fmt.Sprintf("%s %s.%s", f.Kind, p.Path(r.P), r.N)
					break
				}
			}
		case "not built":
			// the file with the type is no longer part of its package
			if len(reach) == 0 {
				break
			}
			r := reach[f.A%len(reach)]
			for _, n := range sourceDir(files, p.Pkgs[r.P].Dir) {
				if _, ok := cutDecl(files[n], r.N, ""); !ok || strings.Contains(files[n], "func (zz *") {
					continue // not there, or with methods which mention the type
				}
				dir, base := filepath.Split(n)
				switch f.B % 5 {
				case 0:
					files[strings.TrimSuffix(n, ".go")+"_windows.go"] = files[n]
				case 1:
					files[dir+"_"+base] = files[n]
				case 2:
					files[strings.TrimSuffix(n, ".go")+"_test.go"] = files[n]
				case 3:
					files[n+".bak"] = files[n]
				case 4:
					files[dir+"aa_"+base] = "//go:build ignore\n\n" + files[n]
				}
				delete(files, n)
				what = fmt.Sprintf("%s %s.%s", f.Kind, p.Path(r.P), r.N)
				break
			}
		case "delete package":
			pi := -1
			if len(reach) > 0 && f.B%3 > 0 {
				pi = reach[f.A%len(reach)].P
			} else {
				pi = p.Targets[f.A%len(p.Targets)].Pkg
			}
			for _, n := range sourceDir(files, p.Pkgs[pi].Dir) {
				delete(files, n)
				if f.B%2 == 0 { // only tests are left
					files[strings.TrimSuffix(n, ".go")+"_test.go"] = "package " + p.Pkgs[pi].Name + "\n"
				}
			}
			what = "delete package " + p.Path(pi)
		case "delete mapping", "mapping empty":
			if len(reachTS) == 0 {
				break
			}
			pi := reachTS[f.A%len(reachTS)].P
			if pi >= 0 && p.Pkgs[pi].Out != "" {
				mapping := "  " + p.Path(pi) + ":\n"
				kind := f.Kind
				later = append(later, func(s string) string {
					i := max(strings.Index(s, "\nmappings:"), 0)
					j := strings.Index(s[i:], mapping)
					if j < 0 {
						return s
					}
					j += i
					end := len(s)
					k := j + len(mapping)
					for k < len(s) && strings.HasPrefix(s[k:], "    ") {
						k += strings.IndexByte(s[k:], '\n') + 1
					}
					end = k
					if kind == "mapping empty" {
						return s[:j] + mapping + s[end:]
					}
					return s[:j] + s[end:]
				})
				what = f.Kind + " of " + p.Path(pi)
			}
		case "unknown include":
			pi := f.A % len(p.Pkgs)
			list := []string{"structs", "scalars"}[f.B%2]
			mapping := "  " + p.Path(pi) + ":\n"
			name := []string{p.Path(pi) + ".ZzNothing", p.Path(pi) + "/zznothing.Zz", "Zz"}[(f.B/2)%3]
			if p.Pkgs[pi].Out == "" || len(p.Targets) == 0 {
				break
			}
			extra := false
			for _, x := range p.Extras {
				extra = extra || x.P == pi
			}
			if extra {
				break
			}
			later = append(later, func(s string) string {
				i := max(strings.Index(s, "\nmappings:"), 0)
				j := strings.Index(s[i:], mapping)
				if j < 0 {
					return s
				}
				j += i + len(mapping)
				return s[:j] + "    " + list + ":\n      - " + name + "\n" + s[j:]
			})
			what = "unknown include " + name
		case "syntax error":
			pi := p.Targets[f.A%len(p.Targets)].Pkg
			if len(reach) > 0 && f.B%2 == 0 {
				pi = reach[f.A%len(reach)].P
			}
			if n := sourceDir(files, p.Pkgs[pi].Dir); len(n) > 0 {
				at := n[f.A%len(n)]
				broken := breaks[f.B%len(breaks)](files[at])
				if _, err := parser.ParseFile(token.NewFileSet(), at, broken, 0); err != nil {
					files[at] = broken
					what = "syntax error in " + at
				}
			}
		case "unknown package":
			t := p.Targets[f.A%len(p.Targets)]
			from := "    package: " + p.Path(t.Pkg) + "\n"
			to := []string{"    package: " + p.Path(t.Pkg) + "/zznothing\n", "", "    package: example.com/zz/nothing\n", "    package: " + p.Mod + "zz\n"}[f.B%4]
			later = append(later, func(s string) string { return strings.Replace(s, from, to, 1) })
			what = "unknown package " + to
		case "unknown service":
			t := p.Targets[f.A%len(p.Targets)]
			if len(t.Services) == 0 {
				break
			}
			b := t.Services[f.B%len(t.Services)]
			from := fmt.Sprintf("      %s: %s\n", b.Endpoint, b.Service)
			to := fmt.Sprintf("      %s: %s\n", b.Endpoint, []string{"ZzNothing", b.Service + "2", strings.ToLower(b.Service) + "zz"}[f.B%3])
			later = append(later, func(s string) string { return strings.Replace(s, from, to, 1) })
			what = "unknown service " + to
		case "service elsewhere":
			// the service is deleted from the sources
			s := svcs[f.A%len(svcs)]
			done := false
			for _, n := range sourceDir(files, p.Pkgs[s.Pkg].Dir) {
				if src, ok := cutDecl(files[n], s.Decl.Name, ""); ok {
					files[n] = src
					done = true
				}
			}
			if done {
				what = "deleted service " + s.Decl.Name
			}
		case "wrong list":
			t := p.Targets[f.A%len(p.Targets)]
			list := []string{"tsrpc", "gorpc"}[f.B%2]
			from := "    " + list + ":\n"
			head := "  " + t.Name + ":\n"
			later = append(later, func(s string) string {
				i := strings.Index(s, head)
				if i < 0 {
					return s
				}
				i += len(head)
				end := strings.Index(s[i:], "    package:")
				rest := s[i+max(end, 0):]
				j := strings.Index(rest, from)
				k := strings.Index(rest, "\n  t")
				if j >= 0 && (k < 0 || j < k) {
					j += i + max(end, 0) + len(from)
					return s[:j] + "      - ZzNothing\n" + s[j:]
				}
				return s[:i] + "    " + list + ":\n      - ZzNothing\n" + s[i:]
			})
			what = "unknown service in " + list
		case "no services":
			t := p.Targets[f.A%len(p.Targets)]
			head := "  " + t.Name + ":\n    services:\n"
			later = append(later, func(s string) string {
				i := strings.Index(s, head)
				if i < 0 {
					return s
				}
				j := i + len(head)
				for strings.HasPrefix(s[j:], "      ") {
					j += strings.IndexByte(s[j:], '\n') + 1
				}
				return s[:i] + "  " + t.Name + ":\n" + s[j:]
			})
			what = "no services in " + t.Name
		case "import gone":
			if len(reach) == 0 {
				break
			}
			what = importGone(p, files, reach, f)
		case "module path":
			later = append(later, func(s string) string {
				i := strings.Index(s, "  path: ")
				if i < 0 {
					return s
				}
				j := i + strings.IndexByte(s[i:], '\n')
				return s[:i] + []string{"  path: ./zznothing", "  path: /zznothing", ""}[f.B%3] + s[j:]
			})
			what = "module path"
		case "go.mod":
			files["go.mod"] = []string{"module", "modul x\n", "module a b c\n", "module x\nrequire (\n", "\x00", "module x\nrequire y 1.2\n"}[f.B%6]
			what = "malformed go.mod"
		case "config missing":
			noConfig = true
			if f.B%2 == 0 {
				after = append(after, func() { mkdir(root, p.ConfigFile()) })
			}
			what = "no config"
		case "config malformed", "config types":
			malform = func(s string) string {
				b := badConfigs[f.B%len(badConfigs)]
				return strings.ReplaceAll(b, "%s", s)
			}
			what = "malformed config"
		case "target out":
			t := p.Targets[f.A%len(p.Targets)]
			if t.Out == "" {
				break
			}
			what = blockFile(root, t.Out, f.B, &after)
		case "mapping out":
			if len(reachTS) == 0 {
				break
			}
			if out := p.Pkgs[reachTS[f.A%len(reachTS)].P].Out; out != "" {
				what = blockFile(root, out, f.B, &after)
			}
		case "go out":
			var outs []string
			for o := range p.GoOutputs() {
				outs = append(outs, o)
			}
			sort.Strings(outs)
			if len(outs) > 0 {
				what = blockFile(root, outs[f.A%len(outs)], 0, &after)
			}
		case "no args", "two args":
			if f.Kind == "no args" {
				args = []string{}
			} else {
				args = []string{p.ConfigFile(), p.ConfigFile()}
			}
			what = f.Kind
		case "home":
			t := p.Targets[f.A%len(p.Targets)]
			if t.Out == "" {
				break
			}
			envs = append(envs, "HOME=", "GOCACHE="+os.Getenv("GOCACHE"))
			later = append(later, func(s string) string {
				i := strings.Index(s, "    out: ")
				if i < 0 {
					return s
				}
				j := i + strings.IndexByte(s[i:], '\n')
				return s[:i] + "    out: ~/zz.ts" + s[j:]
			})
			what = "no home directory"
		}
		if what != "" {
			applied = append(applied, what)
		}
	}
	if len(applied) == 0 {
		return vr.Result{Evals: 1, Classes: []string{"no fault applies"}}
	}
	config = p.Config(root)
	before := config
	for _, l := range later {
		config = l(config)
	}
	if malform != nil { // after all edits of the text
		config = malform(config)
		later = append(later, malform)
	}
	if len(later) == len(applied) && config == before {
		return vr.Result{Evals: 1, Classes: []string{"no fault applies"}}
	}
	write(root, files)
	if !noConfig {
		write(root, map[string]string{p.ConfigFile(): config})
	}
	mkdir(root, p.Cwd)
	for _, a := range after {
		a()
	}
	cwd := filepath.Join(root, p.Cwd)
	if args == nil {
		rel, err := filepath.Rel(cwd, filepath.Join(root, p.ConfigFile()))
		if err != nil {
			vr.Abort("%v", err)
		}
		args = []string{rel}
	}
	if c.Debug {
		args = append([]string{"-debug"}, args...)
	}
	r := run(cwd, genTimeout, envs, env("VERIF_GEN"), args...)
	res := vr.Result{Evals: 1, NonTrivialEvals: 1, NonTrivial: true}
	for _, f := range c.Faults {
		res.Classes = append(res.Classes, f.Kind)
	}
	what := strings.Join(applied, "; ") + "\n" + config + "\n"
	switch {
	case r.Timeout:
		return vr.Failf("the generator hangs", "%s%s", what, clip(r.Out))
	case panicked(r.Out):
		return vr.Failf("the generator panics", "%s%s", what, clip(r.Out))
	case r.Code == 0:
		return vr.Failf("the generator succeeds although something is missing", "%s%s", what, clip(r.Out))
	case strings.TrimSpace(r.Out) == "":
		return vr.Failf("the generator fails without a message", "%s", what)
	}
	return res
}

// importGone removes the import of a package which a reachable declaration needs.
func importGone(p *ir.Program, files map[string]string, reach []*ir.Type, f fault) string {
	for off := range reach {
		r := reach[(f.A+off)%len(reach)]
		for _, n := range sourceDir(files, p.Pkgs[r.P].Dir) {
			src := files[n]
			fset := token.NewFileSet()
			file, err := parser.ParseFile(fset, n, src, 0)
			if err != nil {
				continue
			}
			// qualifiers of the fields of the declaration
			used := map[string]bool{}
			for _, d := range file.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.TYPE {
					continue
				}
				for _, s := range g.Specs {
					if ts := s.(*ast.TypeSpec); ts.Name.Name == r.N {
						if st, ok := ts.Type.(*ast.StructType); ok {
							for _, fl := range st.Fields.List {
								if len(fl.Names) == 0 || !fl.Names[0].IsExported() || (fl.Tag != nil && strings.Contains(fl.Tag.Value, `json:"-`)) {
									continue
								}
								t := fl.Type
								for {
									switch x := t.(type) {
									case *ast.StarExpr:
										t = x.X
										continue
									case *ast.ArrayType:
										t = x.Elt
										continue
									}
									break
								}
								if sel, ok := t.(*ast.SelectorExpr); ok {
									used[sel.X.(*ast.Ident).Name] = true
								}
							}
						}
					}
				}
			}
			for _, is := range file.Imports {
				path, _ := strconv.Unquote(is.Path.Value)
				name := filepath.Base(path)
				if is.Name != nil {
					name = is.Name.Name
				}
				if !used[name] || !strings.HasPrefix(path, p.Mod) || name == path { // name is the path of a package, too
					continue
				}
				if _, err := os.Stat(filepath.Join(os.Getenv("GOROOT"), "src", name)); err == nil {
					continue // would be that package
				}
				a, b := fset.Position(is.Pos()).Offset, fset.Position(is.End()).Offset
				files[n] = src[:a] + `_ "fmt"` + src[b:]
				return fmt.Sprintf("the import %s in %s is gone", path, n)
			}
		}
	}
	return ""
}

// tryWrite ignores files which another fault already made impossible to write.
func tryWrite(root string, files map[string]string) {
	for name, content := range files {
		f := filepath.Join(root, name)
		if os.MkdirAll(filepath.Dir(f), 0o755) == nil {
			_ = os.WriteFile(f, []byte(content), 0o644)
		}
	}
}

// blockFile makes it impossible to write a file.
func blockFile(root, file string, how int, after *[]func()) string {
	if how%2 == 1 && filepath.Dir(file) != "." {
		if dir := filepath.Join(root, filepath.Dir(file)); true {
			if st, err := os.Stat(dir); err != nil || !st.IsDir() {
				*after = append(*after, func() {
					if st, err := os.Stat(dir); err == nil && st.IsDir() {
						tryWrite(root, map[string]string{filepath.Join(file, "zz"): "x"})
						return
					}
					tryWrite(root, map[string]string{filepath.Dir(file): "x"})
				})
				return file + " cannot be written"
			}
		}
	}
	*after = append(*after, func() {
		if st, err := os.Stat(filepath.Join(root, filepath.Dir(file))); err == nil && !st.IsDir() {
			return
		}
		tryWrite(root, map[string]string{filepath.Join(file, "zz"): "x"})
	})
	return file + " cannot be written"
}

func faultOpts(t *rapid.T) ir.Opts {
	o := ir.Opts{MaxPkgs: 4, MaxDecls: 4, MaxMethod: 3, StructSvc: true, Targets: 3, RareDirs: true, Configs: true}
	if rapid.Bool().Draw(t, "gorpc") {
		o.GoRPC = true
	} else {
		o.Anon, o.Override, o.TS, o.Unions = true, true, true, true
	}
	return o
}

func TestC08Faults(t *testing.T) {
	vr.Run(t, "C08/faults", func(t *rapid.T) faultCase {
		c := faultCase{Prog: ir.Draw(t, faultOpts(t)), Debug: rapid.IntRange(0, 4).Draw(t, "debug") == 0}
		n := 1
		if rapid.IntRange(0, 4).Draw(t, "more") == 0 {
			n = 2
		}
		for ; n > 0; n-- {
			c.Faults = append(c.Faults, fault{
				Kind: rapid.SampledFrom(faultKinds).Draw(t, "fault"),
				A:    rapid.IntRange(0, 50).Draw(t, "a"),
				B:    rapid.IntRange(0, 50).Draw(t, "b"),
			})
		}
		return c
	}, checkFaults)
}

// ---- mutations ----

type mutation struct {
	File  int    `json:"file"`
	Op    string `json:"op"`
	Where int    `json:"where"` // per mille
	N     int    `json:"n"`
	Text  string `json:"text,omitempty"`
}

type mutCase struct {
	Prog      *ir.Program `json:"prog"`
	Mutations []mutation  `json:"mutations"`
	Debug     bool        `json:"debug,omitempty"`
}

var tokens = []string{
	"struct{", "}", "interface{", "map[string]", "[]", "*", "func", "chan ", "(", ")", "type ", "const ", "iota", "import ", "\"", "`", "=", ",", ".", "...", "\n",
	"[3]", "[K comparable]", "time.Time", "error", "_ ", "int", "string", "`json:\"-\"`", "`json:\",inline\"`", "`gotsrpc:\"union\"`", "`json:\"a,union\"`", "package x\n", "// Code generated DO NOT EDIT.\n",
	": ", "- ", "  ", "~", "null", "[a]", "{}", "&a ", "*a", "<<: *a", "%", "1", "true", "services:", "out:", "package:", "structs:", "mappings:", "|", ">",
	"json.RawMessage", "unsafe.Pointer", "A struct{A *A}", "type A A\n", "type (\n", "interface{ A() B; B }", "struct{ B; *C }", "any", "byte", "rune", "uintptr", "complex128",
}

func TestC08Mutations(t *testing.T) {
	vr.Run(t, "C08/mutations", func(t *rapid.T) mutCase {
		c := mutCase{Prog: ir.Draw(t, faultOpts(t)), Debug: rapid.IntRange(0, 4).Draw(t, "debug") == 0}
		for n := rapid.IntRange(1, 6).Draw(t, "n"); n > 0; n-- {
			m := mutation{
				File:  rapid.IntRange(0, 40).Draw(t, "file"),
				Op:    rapid.SampledFrom([]string{"insert", "insert", "insert", "delete", "duplicate", "replace", "line", "dupline", "cut"}).Draw(t, "op"),
				Where: rapid.IntRange(0, 999).Draw(t, "where"),
				N:     rapid.IntRange(1, 12).Draw(t, "len"),
			}
			if m.Op == "insert" || m.Op == "replace" {
				m.Text = rapid.SampledFrom(tokens).Draw(t, "text")
				if rapid.IntRange(0, 9).Draw(t, "any") == 0 {
					m.Text = rapid.StringN(0, 6, 12).Draw(t, "string")
				}
			}
			c.Mutations = append(c.Mutations, m)
		}
		return c
	}, checkMutations)
}

func mutate(s string, m mutation) string {
	at := len(s) * m.Where / 1000
	end := min(at+m.N, len(s))
	lines := strings.SplitAfter(s, "\n")
	ln := len(lines) * m.Where / 1000
	switch m.Op {
	case "insert":
		return s[:at] + m.Text + s[at:]
	case "delete":
		return s[:at] + s[end:]
	case "duplicate":
		return s[:end] + s[at:end] + s[end:]
	case "replace":
		return s[:at] + m.Text + s[end:]
	case "line":
		return strings.Join(lines[:ln], "") + strings.Join(lines[min(ln+1, len(lines)):], "")
	case "dupline":
		return strings.Join(lines[:min(ln+1, len(lines))], "") + strings.Join(lines[ln:], "")
	case "cut":
		return s[:at]
	}
	return s
}

// checkMutations runs the generator on damaged input: it neither panics nor
// hangs, and when it exits zero all files exist.
func checkMutations(c mutCase) vr.Result {
	p := c.Prog
	root := newDir()
	defer func() { _ = os.RemoveAll(root) }()
	files := p.Source()
	files["go.mod"], files["go.sum"] = modFile(p.Mod), goSum
	files[p.ConfigFile()] = p.Config("/nonexistent")
	if strings.Contains(files[p.ConfigFile()], "/nonexistent") {
		files[p.ConfigFile()] = p.Config(root)
	}
	orig := map[string]string{}
	for f, s := range files {
		orig[f] = s
	}
	names := []string{p.ConfigFile(), "go.mod"}
	for _, f := range keys(files) {
		if strings.HasSuffix(f, ".go") {
			names = append(names, f)
		}
	}
	for _, m := range c.Mutations {
		f := names[m.File%len(names)]
		files[f] = mutate(files[f], m)
	}
	// keep everything below the scratch directory
	if conf := files[p.ConfigFile()]; !contained(conf, root, filepath.Join(root, p.Cwd), filepath.Join(root, filepath.Dir(p.ConfigFile()))) {
		files[p.ConfigFile()] = orig[p.ConfigFile()]
	}
	write(root, files)
	mkdir(root, p.Cwd)
	cwd := filepath.Join(root, p.Cwd)
	rel, err := filepath.Rel(cwd, filepath.Join(root, p.ConfigFile()))
	if err != nil {
		vr.Abort("%v", err)
	}
	args := []string{rel}
	if c.Debug {
		args = []string{"-debug", rel}
	}
	r := run(cwd, genTimeout, []string{"HOME=" + filepath.Join(root, "zzhome"), "GOPATH=" + filepath.Join(root, "zzgopath")}, env("VERIF_GEN"), args...)
	res := vr.Result{Evals: 1, NonTrivialEvals: 1, NonTrivial: true, Classes: []string{fmt.Sprintf("exit %d", r.Code)}}
	describe := func() string {
		var sb strings.Builder
		for _, f := range names {
			if files[f] != orig[f] {
				sb.WriteString("-- " + f + "\n" + files[f] + "\n")
			}
		}
		return sb.String()
	}
	switch {
	case r.Timeout:
		return vr.Failf("the generator hangs", "%s\n%s", clip(r.Out), describe())
	case panicked(r.Out):
		return vr.Failf("the generator panics", "%s\n%s", clip(r.Out), describe())
	case r.Code != 0:
		if strings.TrimSpace(r.Out) == "" {
			return vr.Failf("the generator fails without a message", "%s", describe())
		}
		return res
	}
	var conf anyConfig
	if err := yaml.Unmarshal([]byte(files[p.ConfigFile()]), &conf); err != nil {
		return vr.Failf("the generator accepts a config which is no YAML", "%v\n%s", err, describe())
	}
	for n, t := range conf.Targets {
		if t.Out != "" {
			out := t.Out
			if out[0] == '~' {
				out = filepath.Join(root, "zzhome", out[1:])
			} else if !filepath.IsAbs(out) {
				out = filepath.Join(cwd, out)
			}
			if _, err := os.Stat(out); err != nil {
				return vr.Failf("the generator succeeds without writing a file", "%s of target %s\n%s", t.Out, n, describe())
			}
		}
		if conf.Module.Name == "" || (t.Package != conf.Module.Name && !strings.HasPrefix(t.Package, conf.Module.Name+"/")) {
			continue
		}
		base := conf.Module.Path
		if !filepath.IsAbs(base) {
			base = filepath.Join(root, filepath.Dir(p.ConfigFile()), base)
		}
		dir := filepath.Join(base, strings.TrimPrefix(t.Package, conf.Module.Name))
		var want []string
		if len(t.TSRPC) > 0 {
			want = append(want, "gotsrpc_gen.go")
			if !t.Skip {
				want = append(want, "gotsrpcclient_gen.go")
			}
		}
		if len(t.GoRPC) > 0 {
			want = append(want, "gorpc_gen.go", "gorpcclient_gen.go")
		}
		for _, w := range want {
			src, err := os.ReadFile(filepath.Join(dir, w))
			if err != nil {
				return vr.Failf("the generator succeeds without writing a file", "%s of target %s\n%s", w, n, describe())
			}
			if _, err := parser.ParseFile(token.NewFileSet(), w, src, 0); err != nil {
				return vr.Failf("the generator succeeds with code that does not parse", "%s of target %s: %v\n%s", w, n, err, describe())
			}
		}
	}
	return res
}

type anyConfig struct {
	Module  struct{ Name, Path string }
	Targets map[string]struct {
		Package  string
		Services map[string]string
		Out      string
		GoRPC    []string `yaml:"gorpc"`
		TSRPC    []string `yaml:"tsrpc"`
		Skip     bool     `yaml:"skipTSRPCClient"`
	}
	Mappings map[string]struct{ Out string }
}

// contained says whether a run with a configuration leaves everything outside
// of the root alone. What is no YAML is refused by the generator, which reads
// it with the same library, before it does anything.
func contained(conf, root, cwd, confDir string) bool {
	var c anyConfig
	if err := yaml.Unmarshal([]byte(conf), &c); err != nil {
		return true
	}
	inside := func(p string) bool {
		p = filepath.Clean(p)
		return strings.HasPrefix(p, root+"/") || p == root
	}
	at := func(base, p string) string {
		if filepath.IsAbs(p) {
			return p
		}
		return filepath.Join(base, p)
	}
	out := func(p string) bool {
		if strings.HasPrefix(p, "~") {
			return inside(filepath.Join(root, "zzhome", p[1:]))
		}
		return inside(at(cwd, p))
	}
	if c.Module.Path != "" && !inside(at(confDir, c.Module.Path)) {
		return false
	}
	for _, t := range c.Targets {
		if !out(t.Out) || strings.Contains(t.Package, "..") || strings.HasPrefix(t.Package, "~") {
			return false
		}
		if !inside(filepath.Join(at(confDir, c.Module.Path), t.Package)) || !inside(filepath.Join(root, "zzgopath/src", t.Package)) {
			return false
		}
		// without a boundary, however the name is cut off
		if c.Module.Path == "" && c.Module.Name != "" {
			return false
		}
	}
	for _, m := range c.Mappings {
		if !out(m.Out) {
			return false
		}
	}
	return true
}
