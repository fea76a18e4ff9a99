package gen

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"golang.org/x/mod/module"
	"pgregory.net/rapid"

	"verif/harness/vr"
)

// A resCase is a layout of packages over a module, other modules, vendor and
// GOPATH directories. Every directory declares the same type names with other
// fields, so that the fields of a generated type tell where it was read.
type resCase struct {
	GOPATHMode bool      `json:"gopathMode,omitempty"`
	Vendor     bool      `json:"vendor,omitempty"` // module mode: go mod vendor
	Main       string    `json:"main"`             // module path, or path below GOPATH/src
	Conf       string    `json:"conf"`             // directory of the configuration below the main directory
	Cwd        string    `json:"cwd,omitempty"`    // where the generator runs, from the main directory (not in GOPATH mode)
	AbsPath    bool      `json:"absPath,omitempty"`
	Mods       []*resMod `json:"mods,omitempty"`
	Dirs       []*resDir `json:"dirs"`
	Targets    []resTgt  `json:"targets"`
}

// resMod is another module.
type resMod struct {
	Path    string `json:"path"`
	Version string `json:"version"`
	// rel, abs: replaced by a directory; relver: so for the version only;
	// mod: replaced by a version of another module; cache: in the module cache;
	// other: there is a replacement, but of another version
	Kind string `json:"kind"`
	By   string `json:"by,omitempty"`
}

// resDir is a directory with a package.
type resDir struct {
	// the module (-1: main, -2: GOPATH/src, -3: vendor in GOPATH mode)
	Mod int `json:"mod"`
	// what it holds: "" the module's, "old": another version of it in the
	// cache, "nested": below the main directory, in a nested module,
	// "unused": the directory of a replacement which does not apply
	Where string     `json:"where,omitempty"`
	Sub   string     `json:"sub"`
	Name  string     `json:"name"`
	Files []*resFile `json:"files"`
	// files with the same names, which go does not take for part of the package
	Excluded []string `json:"excluded,omitempty"`
}

type resFile struct {
	Imports []resImport `json:"imports,omitempty"`
	Types   []resType   `json:"types,omitempty"`
	Svc     []resRef    `json:"svc,omitempty"` // methods of the service, if there is one
	Iface   bool        `json:"iface,omitempty"`
}

type resImport struct {
	Alias string `json:"alias,omitempty"`
	Path  string `json:"path"`
}

type resType struct {
	Name string   `json:"name"`
	Kind string   `json:"kind"` // struct, string, int
	Refs []resRef `json:"refs,omitempty"`
}

// resRef mentions a type.
type resRef struct {
	Qual string `json:"qual,omitempty"` // as in the file, "" is the package itself
	Name string `json:"name"`
	Wrap string `json:"wrap,omitempty"` // "", "*", "[]", "map[string]"
}

type resTgt struct {
	Dir   int  `json:"dir"`
	TSRPC bool `json:"tsrpc,omitempty"`
}

var stdTypes = map[string]map[string][]string{
	"image":       {"Point": {"X", "Y"}, "Rectangle": {"Min", "Max"}},
	"image/color": {"RGBA": {"R", "G", "B", "A"}, "Gray": {"Y"}},
}

// importPath of the package in a directory.
func (c *resCase) importPath(d *resDir) string {
	switch d.Mod {
	case -1:
		return path.Join(c.Main, d.Sub)
	case -2, -3:
		return d.Sub
	}
	return path.Join(c.Mods[d.Mod].Path, d.Sub)
}

const oldVersion = "v0.9.0"

// at is where the directory is laid out ("" if in a module of the proxy).
func (c *resCase) at(d *resDir) string {
	main := c.mainDir()
	switch d.Mod {
	case -1:
		return path.Join(main, d.Sub)
	case -2:
		return path.Join("gopath/src", d.Sub)
	case -3:
		return path.Join(main, "vendor", d.Sub)
	}
	m := c.Mods[d.Mod]
	switch d.Where {
	case "nested":
		return path.Join(main, strings.TrimPrefix(m.Path, c.Main+"/"), d.Sub)
	case "unused":
		return path.Join("third", "unused"+strconv.Itoa(d.Mod), d.Sub)
	case "old":
		return ""
	}
	switch m.Kind {
	case "rel", "abs", "relver":
		return path.Join("third", strconv.Itoa(d.Mod), d.Sub)
	}
	return ""
}

func (c *resCase) mainDir() string {
	if c.GOPATHMode {
		return path.Join("gopath/src", c.Main)
	}
	return "main"
}

func (r resRef) goType() string {
	t := r.Name
	if r.Qual != "" {
		t = r.Qual + "." + t
	}
	return r.Wrap + t
}

func (d *resDir) source(index, file int, mark string) string {
	f := d.Files[file]
	var sb strings.Builder
	sb.WriteString("package " + d.Name + "\n\n")
	for _, i := range f.Imports {
		sb.WriteString("import " + i.Alias + " " + strconv.Quote(i.Path) + "\n")
	}
	for _, t := range f.Types {
		if t.Kind != "struct" {
			fmt.Fprintf(&sb, "\ntype %s %s\n", t.Name, t.Kind)
			continue
		}
		fmt.Fprintf(&sb, "\ntype %s struct {\n\t%s%d int\n", t.Name, mark, index)
		for i, r := range t.Refs {
			fmt.Fprintf(&sb, "\tR%d %s\n", i, r.goType())
		}
		sb.WriteString("}\n")
	}
	if f.Svc != nil {
		if f.Iface {
			sb.WriteString("\ntype Svc interface {\n")
		} else if file == 0 {
			sb.WriteString("\ntype Svc struct{}\n\n")
		}
		for i, r := range f.Svc {
			if f.Iface {
				fmt.Fprintf(&sb, "\tM%d_%d(a %s) (b %s)\n", file, i, r.goType(), r.goType())
			} else {
				fmt.Fprintf(&sb, "func (s *Svc) M%d_%d(a %s) (b %s) { return a }\n\n", file, i, r.goType(), r.goType())
			}
		}
		if f.Iface {
			sb.WriteString("}\n")
		}
	}
	return sb.String()
}

// content are the files of a directory.
func (d *resDir) content(index int) map[string]string {
	out := map[string]string{}
	for k := range d.Files {
		out[fmt.Sprintf("f%d.go", k)] = d.source(index, k, "X")
	}
	for _, how := range d.Excluded {
		for k := range d.Files {
			src := d.source(index, k, "Excluded")
			switch how {
			case "ignore":
				src = "//go:build ignore\n\npackage main" + strings.TrimPrefix(src, "package "+d.Name)
				out[fmt.Sprintf("a%d.go", k)] = src
			case "tag":
				out[fmt.Sprintf("b%d.go", k)] = "// Code of another build.\n\n//go:build !linux || zz\n\n" + src
			case "_":
				out[fmt.Sprintf("_f%d.go", k)] = src
			case ".":
				out[fmt.Sprintf(".#f%d.go", k)] = "not Go at all\n"
			default:
				out[fmt.Sprintf("f%d_%s.go", k, how)] = src
			}
		}
	}
	return out
}

// proxied are the modules which the proxy offers, with their files.
func (c *resCase) proxied() map[module.Version]map[string]string {
	out := map[module.Version]map[string]string{}
	for i, m := range c.Mods {
		var v module.Version
		switch m.Kind {
		case "cache", "other":
			v = module.Version{Path: m.Path, Version: m.Version}
		case "mod":
			v = module.Version{Path: m.By, Version: m.Version}
		default:
			continue
		}
		for n, d := range c.Dirs {
			if d.Mod != i || (d.Where != "" && d.Where != "old") {
				continue
			}
			at := v
			if d.Where == "old" {
				at.Version = oldVersion
			}
			if out[at] == nil {
				out[at] = map[string]string{"go.mod": "module " + at.Path + "\n\ngo 1.23\n"}
			}
			for name, content := range d.content(n) {
				out[at][path.Join(d.Sub, name)] = content
			}
		}
		if out[v] == nil {
			out[v] = map[string]string{"go.mod": "module " + v.Path + "\n\ngo 1.23\n"}
		}
	}
	return out
}

func (c *resCase) goMod(root string) string {
	var sb strings.Builder
	sb.WriteString("module " + c.Main + "\n\ngo 1.23\n\n")
	for _, m := range c.Mods {
		fmt.Fprintf(&sb, "require %s %s\n", m.Path, m.Version)
	}
	for i, m := range c.Mods {
		switch m.Kind {
		case "rel":
			fmt.Fprintf(&sb, "replace %s => ../third/%d\n", m.Path, i)
		case "relver":
			fmt.Fprintf(&sb, "replace %s %s => ../third/%d\n", m.Path, m.Version, i)
		case "abs":
			fmt.Fprintf(&sb, "replace %s => %s/third/%d\n", m.Path, root, i)
		case "mod":
			fmt.Fprintf(&sb, "replace %s => %s %s\n", m.Path, m.By, m.Version)
		case "other":
			fmt.Fprintf(&sb, "replace %s %s.7.7 => ../third/unused%d\n", m.Path, m.Version[:2], i)
		}
	}
	return sb.String()
}

func (c *resCase) lay(root string) {
	files := map[string]string{}
	for n, d := range c.Dirs {
		at := c.at(d)
		if at == "" {
			continue
		}
		for name, content := range d.content(n) {
			files[path.Join(at, name)] = content
		}
	}
	if !c.GOPATHMode {
		files["main/go.mod"] = c.goMod(root)
		for i, m := range c.Mods {
			switch m.Kind {
			case "rel", "abs", "relver":
				files[fmt.Sprintf("third/%d/go.mod", i)] = "module " + m.Path + "\n\ngo 1.23\n"
			case "other":
				files[fmt.Sprintf("third/unused%d/go.mod", i)] = "module " + m.Path + "\n\ngo 1.23\n"
			}
			for _, d := range c.Dirs {
				if d.Mod == i && d.Where == "nested" {
					files[path.Join("main", strings.TrimPrefix(m.Path, c.Main+"/"), "go.mod")] = "module " + m.Path + "\n\ngo 1.23\n"
				}
			}
		}
		for v, content := range c.proxied() {
			esc, err := module.EscapePath(v.Path)
			if err != nil {
				vr.Abort("%v", err)
			}
			base := path.Join("proxy", esc, "@v")
			files[path.Join(base, "list")] += v.Version + "\n"
			files[path.Join(base, v.Version+".info")] = fmt.Sprintf(`{"Version":%q,"Time":"2020-01-01T00:00:00Z"}`, v.Version)
			files[path.Join(base, v.Version+".mod")] = content["go.mod"]
			var buf bytes.Buffer
			z := zip.NewWriter(&buf)
			for _, n := range keys(content) {
				w, err := z.Create(v.Path + "@" + v.Version + "/" + n)
				if err != nil {
					vr.Abort("%v", err)
				}
				_, _ = w.Write([]byte(content[n]))
			}
			if err := z.Close(); err != nil {
				vr.Abort("%v", err)
			}
			files[path.Join(base, v.Version+".zip")] = buf.String()
		}
	}
	files[path.Join(c.mainDir(), c.Conf, "gotsrpc.yml")] = c.config(root)
	write(root, files)
	if err := os.MkdirAll(filepath.Join(root, "gopath"), 0o755); err != nil {
		vr.Abort("%v", err)
	}
}

// mapped are all packages which get a TypeScript file.
func (c *resCase) mapped() (out []string) {
	seen := map[string]bool{}
	for _, d := range c.Dirs {
		if p := c.importPath(d); !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	for p := range stdTypes {
		if !seen[p] {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

func (c *resCase) tsFile(p string) string {
	for i, q := range c.mapped() {
		if p == q {
			return fmt.Sprintf("tsout/p%d.ts", i)
		}
	}
	return ""
}

func (c *resCase) config(root string) string {
	var sb strings.Builder
	if !c.GOPATHMode {
		p, _ := filepath.Rel(filepath.Join("/", c.Conf), "/")
		if c.AbsPath {
			p = path.Join(root, "main")
		}
		fmt.Fprintf(&sb, "module:\n  name: %s\n  path: %s\n", c.Main, p)
	}
	sb.WriteString("targets:\n")
	for i, t := range c.Targets {
		fmt.Fprintf(&sb, "  t%d:\n    package: %s\n    services:\n      /t%d: Svc\n    out: %s\n", i, c.importPath(c.Dirs[t.Dir]), i, path.Join(root, fmt.Sprintf("tsout/c%d.ts", i)))
		if t.TSRPC {
			sb.WriteString("    tsrpc: [Svc]\n")
		}
	}
	sb.WriteString("mappings:\n")
	for _, p := range c.mapped() {
		fmt.Fprintf(&sb, "  %s:\n    out: %s\n", p, path.Join(root, c.tsFile(p)))
	}
	return sb.String()
}

type listedPkg struct {
	ImportPath, Dir, Name string
	Standard              bool
	ImportMap             map[string]string
	Error                 *struct{ Err string }
	DepsErrors            []*struct{ Err string }
}

func checkResolve(c resCase) vr.Result {
	root := newDir()
	defer func() {
		_ = os.RemoveAll(root)
	}()
	if r, err := filepath.EvalSymlinks(root); err == nil {
		root = r
	}
	c.lay(root)
	main := filepath.Join(root, c.mainDir())
	goEnv := []string{"GOPATH=" + root + "/gopath", "GOMODCACHE=", "GOPROXY=file://" + root + "/proxy", "GOSUMDB=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod -modcacherw", "GO111MODULE=on", "GOWORK=off"}
	set := func(kv string) {
		k := kv[:strings.Index(kv, "=")+1]
		for i, e := range goEnv {
			if strings.HasPrefix(e, k) {
				goEnv[i] = kv
			}
		}
	}
	res := vr.Result{Evals: 1}
	if c.GOPATHMode {
		set("GO111MODULE=off")
		set("GOFLAGS=")
	} else {
		// other versions which are in the cache, too
		for v := range c.proxied() {
			if v.Version == oldVersion {
				if r := run(root, 60*time.Second, goEnv, "go", "mod", "download", v.Path+"@"+v.Version); r.Code != 0 {
					vr.Abort("go mod download: %s", clip(r.Out))
				}
			}
		}
	}
	if c.Vendor {
		if r := run(main, 120*time.Second, goEnv, "go", "mod", "vendor"); r.Code != 0 {
			return vr.Result{Evals: 1, Classes: []string{"rejected by go"}}
		}
		// what is vendored differs from what was
		if _, err := os.Stat(filepath.Join(main, "vendor")); err == nil {
			for f, content := range tree(filepath.Join(main, "vendor")) {
				if strings.HasSuffix(f, ".go") {
					write(filepath.Join(main, "vendor"), map[string]string{f: strings.ReplaceAll(content, "\tX", "\tV")})
				}
			}
		}
		set("GOFLAGS=-mod=vendor")
	}
	// where Go finds the packages
	targets := []string{}
	for _, t := range c.Targets {
		targets = append(targets, c.importPath(c.Dirs[t.Dir]))
	}
	cmd := append([]string{"list", "-e=false", "-deps", "-json=ImportPath,Dir,Name,Standard,ImportMap,Error,DepsErrors"}, targets...)
	listed := runSplit(main, goEnv, "go", cmd...)
	if listed.code != 0 {
		if os.Getenv("VERIF_SHOW") != "" {
			_ = os.WriteFile(fmt.Sprintf("/tmp/rej/%d-%d", os.Getpid(), dirCount), []byte(listed.err), 0o644)
		}
		return vr.Result{Evals: 1, Classes: []string{"rejected by go"}}
	}
	pkgs := map[string]*listedPkg{}
	dec := json.NewDecoder(strings.NewReader(listed.out))
	for dec.More() {
		var p listedPkg
		if err := dec.Decode(&p); err != nil {
			vr.Abort("go list: %v", err)
		}
		pkgs[p.ImportPath] = &p
	}

	var plain split
	if c.Vendor {
		set("GOFLAGS=-mod=mod -modcacherw")
		if plain = runSplit(main, goEnv, "go", cmd...); plain.code != 0 {
			vr.Abort("go list: %s", plain.err)
		}
		set("GOFLAGS=-mod=vendor")
	}

	cwd := filepath.Join(main, c.Cwd)
	mkdir(cwd, "")
	conf, err := filepath.Rel(cwd, filepath.Join(main, c.Conf, "gotsrpc.yml"))
	if err != nil {
		vr.Abort("%v", err)
	}
	r := run(cwd, 120*time.Second, goEnv, env("VERIF_GEN"), conf)
	if r.Timeout {
		return vr.Failf("the generator hangs", "%s", clip(r.Out))
	}
	if r.Code != 0 {
		return vr.Failf("the generator fails where Go finds all packages", "exit %d\n%s\n%s", r.Code, clip(r.Out), c.describe(root))
	}

	// the expected keys of every type that is mentioned
	lines := []string{ir0}
	about := map[int]string{}
	n := 0
	classes := map[string]bool{}
	var failure *vr.Result
	physical := map[string]int{}
	for i, d := range c.Dirs {
		if at := c.at(d); at != "" {
			physical[filepath.Join(root, at)] = i
		}
	}
	for v, content := range c.proxied() {
		_ = content
		esc, _ := module.EscapePath(v.Path)
		for i, d := range c.Dirs {
			if d.Mod < 0 || (d.Where != "" && d.Where != "old") {
				continue
			}
			m := c.Mods[d.Mod]
			p := m.Path
			if m.Kind == "mod" {
				p = m.By
			}
			ver := m.Version
			if d.Where == "old" {
				ver = oldVersion
			}
			if m.Kind != "rel" && m.Kind != "abs" && m.Kind != "relver" && p == v.Path && ver == v.Version {
				physical[filepath.Join(root, "gopath/pkg/mod", esc+"@"+v.Version, d.Sub)] = i
			}
		}
	}
	if c.Vendor {
		// vendored copies are of the directories which Go used
		dec := json.NewDecoder(strings.NewReader(plain.out))
		for dec.More() {
			var p listedPkg
			if err := dec.Decode(&p); err != nil {
				vr.Abort("go list: %v", err)
			}
			if i, ok := physical[p.Dir]; ok {
				physical[filepath.Join(main, "vendor", p.ImportPath)] = i
			}
		}
	}
	// find resolves a mention in a file of a directory
	type place struct {
		dir  int
		std  string
		path string // as imported
		mark string
		pkg  *listedPkg
	}
	lookup := func(importPath string, from *listedPkg) place {
		real := importPath
		if from != nil {
			if m, ok := from.ImportMap[importPath]; ok {
				real = m
			}
		}
		p := pkgs[real]
		if p == nil {
			vr.Abort("go list does not know %s\n%s", real, c.describe(root))
		}
		if p.Standard {
			return place{std: real, path: importPath}
		}
		i, ok := physical[p.Dir]
		if !ok {
			vr.Abort("go found %s in the unknown directory %s\n%s", real, p.Dir, c.describe(root))
		}
		mark := "X"
		if c.Vendor && strings.HasPrefix(p.Dir, filepath.Join(main, "vendor")+"/") {
			mark = "V"
		}
		return place{dir: i, path: importPath, mark: mark, pkg: p}
	}
	var expect func(expr string, ref resRef, f *resFile, at place, from *listedPkg, depth int, what string)
	expect = func(expr string, ref resRef, f *resFile, at place, from *listedPkg, depth int, what string) {
		target := at
		if ref.Qual != "" {
			for _, i := range f.Imports {
				name := i.Alias
				if name == "" {
					name = path.Base(i.Path)
				}
				if name == ref.Qual {
					target = lookup(i.Path, from)
				}
			}
		}
		switch ref.Wrap {
		case "[]", "map[string]":
			expr = "El<" + expr + ">"
		case "*":
			expr = "NonNullable<" + expr + ">"
		}
		add := func(line string) {
			lines = append(lines, fmt.Sprintf("export const a%d: %s = true;", n, line))
			about[len(lines)] = what
			n++
		}
		if target.std != "" {
			keys := []string{}
			for _, k := range stdTypes[target.std][ref.Name] {
				keys = append(keys, strconv.Quote(k))
			}
			add(fmt.Sprintf("Same<keyof %s, %s>", expr, strings.Join(keys, " | ")))
			classes["std"] = true
			return
		}
		d := c.Dirs[target.dir]
		for _, g := range d.Files {
			for _, t := range g.Types {
				if t.Name != ref.Name {
					continue
				}
				if d.Mod >= 0 {
					classes[c.Mods[d.Mod].Kind] = true
				} else {
					classes[[]string{"vendor", "gopath", "main"}[d.Mod+3]] = true
				}
				if target.mark == "V" {
					classes["vendored"] = true
				}
				if t.Kind != "struct" {
					add(fmt.Sprintf("Same<%s, %s>", expr, map[string]string{"string": "string", "int": "number"}[t.Kind]))
					return
				}
				keys := []string{strconv.Quote(target.mark + strconv.Itoa(target.dir))}
				for i, r := range t.Refs {
					keys = append(keys, fmt.Sprintf(`"R%d"`, i))
					if depth < 4 {
						expect(fmt.Sprintf("%s[\"R%d\"]", expr, i), r, g, target, target.pkg, depth+1, fmt.Sprintf("%s, field R%d of %s in %s", what, i, t.Name, target.path))
					}
				}
				add(fmt.Sprintf("Same<keyof %s, %s>", expr, strings.Join(keys, " | ")))
				return
			}
		}
		failure = &vr.Result{Abort: fmt.Sprintf("no %s in %s", ref.Name, target.path)}
	}
	var outs []string
	for i, t := range c.Targets {
		at := lookup(c.importPath(c.Dirs[t.Dir]), nil)
		d := c.Dirs[at.dir]
		out := fmt.Sprintf("tsout/c%d", i)
		outs = append(outs, out+".ts")
		for k, f := range d.Files {
			for j, ref := range f.Svc {
				sig := fmt.Sprintf("import(\"./%s\").SvcClient[\"m%d_%d\"]", out, k, j)
				what := fmt.Sprintf("method M%d_%d(%s) in %s (f%d.go)", k, j, ref.goType(), at.path, k)
				expect("Parameters<"+sig+">[0]", ref, f, at, pkgs[at.path], 0, what)
				expect("Awaited<ReturnType<"+sig+">>", ref, f, at, pkgs[at.path], 0, what)
			}
		}
		if t.TSRPC && d.Mod == -1 {
			if _, err := os.Stat(filepath.Join(pkgs[at.path].Dir, "gotsrpc_gen.go")); err != nil {
				return vr.Failf("the Go code is not where the package is", "%s\n%s", at.path, c.describe(root))
			}
		}
	}
	if failure != nil {
		return *failure
	}
	for _, p := range c.mapped() {
		if _, err := os.Stat(filepath.Join(root, c.tsFile(p))); err == nil {
			outs = append(outs, c.tsFile(p))
		}
	}
	o := ts(tsReq{Op: "check", Root: root, Files: outs, Extra: strings.Join(lines, "\n") + "\n"})
	for _, d := range o.Diagnostics {
		if filepath.Base(d.File) == "zz_check.ts" {
			return vr.Failf("a type is looked up elsewhere than Go does", "%s\n%s\nTS%d %s\n%s", about[d.Line], lines[d.Line-1], d.Code, d.Message, c.describe(root))
		}
		return vr.Failf("the generated TypeScript does not compile", "%s:%d TS%d %s\n%s", d.File, d.Line, d.Code, d.Message, c.describe(root))
	}
	if n > 0 {
		res.Evals, res.NonTrivialEvals, res.NonTrivial = n, n, true
		base, _ := json.Marshal(c)
		for _, l := range lines[1:] {
			res.Keys = append(res.Keys, string(base)+l)
		}
	}
	for cl := range classes {
		res.Classes = append(res.Classes, cl)
	}
	sort.Strings(res.Classes)
	return res
}

const ir0 = `type Same<X, Y> = (<T>() => T extends X ? 1 : 2) extends (<T>() => T extends Y ? 1 : 2) ? true : false; type El<T> = NonNullable<T> extends Array<infer E> ? NonNullable<E> : NonNullable<NonNullable<T>[keyof NonNullable<T>]>;`

func (c *resCase) describe(root string) string {
	var sb strings.Builder
	if !c.GOPATHMode {
		sb.WriteString("main/go.mod:\n" + c.goMod("ROOT"))
	}
	for i, d := range c.Dirs {
		fmt.Fprintf(&sb, "-- %s in %q (module %d %s)\n", c.importPath(d), c.at(d), d.Mod, d.Where)
		for k := range d.Files {
			sb.WriteString(d.source(i, k, "X"))
		}
	}
	return clip(sb.String())
}

type split struct {
	code     int
	out, err string
}

// runSplit keeps the streams apart.
func runSplit(dir string, extraEnv []string, name string, args ...string) split {
	r := run(dir, 120*time.Second, extraEnv, "bash", append([]string{"-c", `"$@" 2>"$0"`, filepath.Join(env("VERIF_SCRATCH"), "stderr"), name}, args...)...)
	if r.Timeout {
		vr.Abort("%s takes too long", name)
	}
	e, _ := os.ReadFile(filepath.Join(env("VERIF_SCRATCH"), "stderr"))
	return split{r.Code, r.Out, string(e)}
}

// ---- generation ----

var resAliases = []string{"types", "lib", "x", "shared", "app"}

func drawResolve(t *rapid.T) resCase {
	c := resCase{GOPATHMode: rapid.IntRange(0, 4).Draw(t, "gopathMode") == 0}
	c.Main = rapid.SampledFrom([]string{"example.com/app", "example.com/app", "app", "example.com/App", "example.com/lib/app", "example.com/app/v2"}).Draw(t, "main")
	c.Conf = rapid.SampledFrom([]string{"", "", "etc", "etc/deep"}).Draw(t, "conf")
	c.AbsPath = rapid.Bool().Draw(t, "absPath")
	subs := []string{"", "types", "shared", "deep/types", "lib", "image"}
	pick := func(label string, from []string, max int) []string {
		n := rapid.IntRange(1, max).Draw(t, label+"N")
		seen := map[string]bool{}
		var out []string
		for i := 0; i < n; i++ {
			s := rapid.SampledFrom(from).Draw(t, label)
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
		return out
	}
	if !c.GOPATHMode {
		c.Cwd = rapid.SampledFrom([]string{"", "", "", "etc", "../elsewhere", "tools/gen"}).Draw(t, "cwd")
	}
	if c.GOPATHMode {
		for _, s := range pick("sub", []string{"svc", "types", "shared", "deep/types", "image"}, 3) {
			c.Dirs = append(c.Dirs, &resDir{Mod: -1, Sub: s})
		}
		all := []string{"example.com/lib", "example.com/lib/types", "example.com/application/types", "other/shared", "other", "github.com/Up/Case", "image"}
		for _, s := range pick("gopath", all, 4) {
			c.Dirs = append(c.Dirs, &resDir{Mod: -2, Sub: s})
		}
		if rapid.Bool().Draw(t, "vendor") {
			for _, s := range pick("vendored", all[:6], 3) {
				c.Dirs = append(c.Dirs, &resDir{Mod: -3, Sub: s})
			}
		}
	} else {
		for _, s := range pick("sub", []string{"", "svc", "types", "shared", "deep/types", "sub/types", "image"}, 4) {
			c.Dirs = append(c.Dirs, &resDir{Mod: -1, Sub: s})
		}
		main := strings.TrimSuffix(c.Main, "/v2")
		paths := []string{
			main + "lication", main + "-two", main + "/sub", main + "/sub/types", main + "/deep",
			"example.com/lib", "example.com/lib/types", "example.com/library", "example.com/lib/v2", "github.com/Up/Case", "gopkg.in/thing.v2",
		}
		for i, p := range pick("module", paths, 5) {
			if !strings.Contains(strings.Split(p, "/")[0], ".") {
				p = "example.com/" + p // module paths of dependencies need a dot
				if rapid.Bool().Draw(t, "skip") {
					continue
				}
			}
			dup := p == c.Main
			for _, m := range c.Mods {
				dup = dup || m.Path == p
			}
			if dup {
				continue
			}
			i = len(c.Mods)
			m := &resMod{Path: p, Version: rapid.SampledFrom([]string{"v1.2.3", "v1.2.3", "v1.2.3", "v1.2.3-RC1", "v0.0.0-20210101000000-abcdefabcdef", "v1.10.0"}).Draw(t, "version")}
			if strings.HasSuffix(p, "/v2") || strings.HasSuffix(p, ".v2") {
				m.Version = "v2.0.1"
			}
			m.Kind = rapid.SampledFrom([]string{"rel", "abs", "relver", "mod", "cache", "cache", "other"}).Draw(t, "kind")
			if m.Kind == "mod" {
				m.By = "example.com/Fork" + strconv.Itoa(i)
				if m.Version == "v2.0.1" {
					m.By += "/v2"
				}
			}
			c.Mods = append(c.Mods, m)
			for _, s := range pick("sub", subs, 3) {
				c.Dirs = append(c.Dirs, &resDir{Mod: i, Sub: s})
			}
			// decoys
			mine := len(c.Dirs)
			for _, d := range c.Dirs[:mine] {
				if d.Mod != i || !rapid.Bool().Draw(t, "decoy") {
					continue
				}
				switch {
				case m.Kind == "other":
					c.Dirs = append(c.Dirs, &resDir{Mod: i, Sub: d.Sub, Where: "unused"})
				case m.Kind == "cache" && m.Version != "v2.0.1":
					c.Dirs = append(c.Dirs, &resDir{Mod: i, Sub: d.Sub, Where: "old"})
				case strings.HasPrefix(p, c.Main+"/"):
					c.Dirs = append(c.Dirs, &resDir{Mod: i, Sub: d.Sub, Where: "nested"})
				default:
					c.Dirs = append(c.Dirs, &resDir{Mod: -2, Sub: path.Join(m.Path, d.Sub)})
				}
			}
		}
		c.Vendor = len(c.Mods) > 0 && rapid.IntRange(0, 4).Draw(t, "vendor") == 0
	}
	for _, d := range c.Dirs {
		if rapid.IntRange(0, 3).Draw(t, "excluded") == 0 {
			d.Excluded = pick("how", []string{"windows", "ignore", "tag", "_", ".", "plan9_arm64"}, 2)
		}
	}
	// two directories never lie in the same place
	taken := map[string]bool{}
	var dirs []*resDir
	for _, d := range c.Dirs {
		k := c.at(d)
		if k == "" {
			k = fmt.Sprint(d.Mod, d.Where, d.Sub)
		}
		if !taken[k] {
			taken[k] = true
			dirs = append(dirs, d)
		}
	}
	c.Dirs = dirs
	// names, imports and declarations; a package imports only those before it
	paths := c.mapped()
	rank := map[string]int{}
	for i, p := range paths {
		rank[p] = i
	}
	for _, d := range c.Dirs {
		if p := c.importPath(d); d.Mod == -1 {
			rank[p] += 1000 // imports others, rather than being imported
		}
	}
	real := map[string]bool{} // paths that Go may find
	vendored := map[string]bool{}
	plainGopath := map[string]bool{}
	for _, d := range c.Dirs {
		p := c.importPath(d)
		if d.Where == "" && (c.GOPATHMode || d.Mod >= -1) {
			real[p] = true
		}
		if d.Mod == -3 {
			vendored[p] = true
		}
		if d.Mod == -2 {
			plainGopath[p] = true
		}
	}
	names := map[string]string{}
	typeNames := []string{"T", "K"}
	for _, d := range c.Dirs {
		p := c.importPath(d)
		if names[p] == "" {
			base := path.Base(p)
			if !token.IsIdentifier(base) || rapid.IntRange(0, 5).Draw(t, "odd") == 0 {
				base = rapid.SampledFrom([]string{"types", "odd", "lib"}).Draw(t, "name")
			}
			names[p] = base
		}
		d.Name = names[p]
		if d.Mod == -2 && stdTypes[p] != nil {
			d.Name = path.Base(p)
			names[p] = d.Name
		}
		files := rapid.IntRange(1, 2).Draw(t, "files")
		for k := 0; k < files; k++ {
			d.Files = append(d.Files, &resFile{})
		}
	}
	for _, d := range c.Dirs {
		p := c.importPath(d)
		for k, f := range d.Files {
			// what may be imported
			var can []string
			for _, q := range paths {
				ok := rank[q] < rank[p] && real[q]
				if stdTypes[q] != nil {
					ok = true
				}
				if c.GOPATHMode && stdTypes[q] == nil {
					switch d.Mod {
					case -2:
						ok = ok && !vendored[q] && !strings.HasPrefix(q, c.Main+"/")
					case -3:
						ok = ok && vendored[q]
					}
				}
				if ok && !strings.Contains(q, "internal") {
					can = append(can, q)
				}
			}
			used := map[string]bool{d.Name: false}
			var quals []resImport
			for n := rapid.IntRange(0, 4).Draw(t, "imports"); n > 0; n-- {
				q := rapid.SampledFrom(can).Draw(t, "import")
				if stdTypes[q] != nil && rapid.Bool().Draw(t, "notStd") {
					continue
				}
				name := path.Base(q)
				goName := names[q]
				if stdTypes[q] != nil {
					goName = name
				}
				alias := ""
				if goName != name || used[name] || rapid.IntRange(0, 2).Draw(t, "aliased") == 0 {
					alias = rapid.SampledFrom(resAliases).Draw(t, "alias")
					name = alias
				}
				if used[name] {
					continue
				}
				used[name] = true
				quals = append(quals, resImport{alias, q})
			}
			f.Imports = quals
			ref := func(label string) resRef {
				r := resRef{Wrap: rapid.SampledFrom([]string{"", "", "*", "[]", "map[string]"}).Draw(t, label+"Wrap")}
				i := rapid.IntRange(-1, 2*len(quals)-1).Draw(t, label)
				if i >= len(quals) {
					i -= len(quals)
				}
				from := typeNames
				if i >= 0 {
					r.Qual = quals[i].Alias
					if r.Qual == "" {
						r.Qual = path.Base(quals[i].Path)
					}
					if s := stdTypes[quals[i].Path]; s != nil {
						from = nil
						for n := range s {
							from = append(from, n)
						}
						sort.Strings(from)
					}
				}
				r.Name = rapid.SampledFrom(from).Draw(t, label+"Type")
				return r
			}
			if k == 0 {
				ty := resType{Name: "T", Kind: rapid.SampledFrom([]string{"struct", "struct", "struct", "struct", "string", "int"}).Draw(t, "tKind")}
				if ty.Kind == "struct" {
					for n := rapid.IntRange(0, 3).Draw(t, "refs"); n > 0; n-- {
						r := ref("ref")
						if r.Qual == "" && r.Name == "T" && r.Wrap == "" {
							r.Wrap = "*"
						}
						ty.Refs = append(ty.Refs, r)
					}
				}
				f.Types = append(f.Types, ty)
			}
			if k == len(d.Files)-1 {
				ty := resType{Name: "K", Kind: rapid.SampledFrom([]string{"struct", "string", "int"}).Draw(t, "kKind")}
				if ty.Kind == "struct" {
					for n := rapid.IntRange(0, 2).Draw(t, "refs"); n > 0; n-- {
						r := ref("ref")
						if r.Qual == "" && r.Wrap == "" {
							r.Wrap = "[]"
						}
						ty.Refs = append(ty.Refs, r)
					}
				}
				f.Types = append(f.Types, ty)
			}
			// every package could be that of a target
			iface := len(d.Files) == 1 && rapid.Bool().Draw(t, "iface")
			f.Iface = iface
			for n := rapid.IntRange(1, 3).Draw(t, "methods"); n > 0; n-- {
				f.Svc = append(f.Svc, ref("arg"))
			}
		}
	}
	var mains, others []int
	for i, d := range c.Dirs {
		if d.Where != "" {
			continue
		}
		switch {
		case d.Mod == -1:
			mains = append(mains, i)
		case d.Mod >= 0:
			others = append(others, i)
		}
	}
	seen := map[string]bool{}
	for n := rapid.IntRange(1, 2).Draw(t, "targets"); n > 0; n-- {
		from, isMain := mains, true
		if len(others) > 0 && rapid.IntRange(0, 4).Draw(t, "foreign") == 0 && !c.Vendor {
			from, isMain = others, false
		}
		i := rapid.SampledFrom(from).Draw(t, "target")
		p := c.importPath(c.Dirs[i])
		if seen[p] {
			continue
		}
		seen[p] = true
		c.Targets = append(c.Targets, resTgt{Dir: i, TSRPC: isMain && rapid.Bool().Draw(t, "tsrpc")})
	}
	return c
}

func TestC07Layouts(t *testing.T) {
	vr.Run(t, "C07/layouts", drawResolve, checkResolve)
}
