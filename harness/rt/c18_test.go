package rt

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/foomo/gotsrpc/v2/config"
	"pgregory.net/rapid"

	"verif/harness/val"
	"verif/harness/vr"
)

type cfgTarget struct {
	Package  string            `json:"package"`
	Services map[string]string `json:"services,omitempty"`
	Module   string            `json:"module,omitempty"`
	Out      string            `json:"out,omitempty"`
	GoRPC    []string          `json:"gorpc,omitempty"`
	TSRPC    []string          `json:"tsrpc,omitempty"`
	Skip     bool              `json:"skip,omitempty"`
}

type cfgMapping struct {
	Out     string   `json:"out,omitempty"`
	Structs []string `json:"structs,omitempty"`
	Scalars []string `json:"scalars,omitempty"`
	Module  string   `json:"module,omitempty"`
	Null    bool     `json:"null,omitempty"` // written without a value
}

type cfgCase struct {
	ModName  string                `json:"modName,omitempty"`
	ModPath  string                `json:"modPath,omitempty"` // as written; ABS/ stands for the root of the case
	Targets  map[string]cfgTarget  `json:"targets,omitempty"`
	Mappings map[string]cfgMapping `json:"mappings,omitempty"`
	Style    []byte                `json:"style"`
	Dir      string                `json:"dir"` // of the configuration file, below the root
	Cwd      string                `json:"cwd"`
	RelName  bool                  `json:"relName"` // the file is named relative to the working directory
	GoMod    string                `json:"goMod"`   // none, valid, malformed, dir
	Mod      cfgMod                `json:"mod"`
	Decoy    bool                  `json:"decoy"` // another go.mod in the working directory
}

type cfgMod struct {
	Path     string      `json:"path"`
	Requires [][2]string `json:"requires,omitempty"`
	Replaces [][4]string `json:"replaces,omitempty"`
	Block    bool        `json:"block"`
}

var cfgStr = rapid.Custom(func(t *rapid.T) string {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"Service", "github.com/a/b", "/service/demo", "./out/a.ts", "a b", "true", "null", "12", "1e3", "0x10", "~", "yes", "no", "2020-01-01", "a: b", "#x", "x #y", "- a", "it's", `q"uote`, `back\slash`, "ünï", "[a]", "{a}", "*a", "&a", "!a", "%a", "@a", "`a", "a,b", "", "日本", "a\tb", "?", "|", ">", ":", "=", "<<", ".5", "_", "N", "Off", "+1", "0b1", "1_000", "12:30:45",
			"$HOME/a.ts", "${HOME}", "/tmp/$lang/client.ts", "$", "$$", "$1", "%HOME%", "{{ .Out }}", "<% x %>", "~/out/a.ts", " a", "a ", "out/../a.ts", "a//b", "a/", "Upper/Case", "\\n", "a\nb", "!!str a", "---", "...", "- ", "%25", "\u00a0", "e\u0301"}),
		rapid.StringMatching(`[ -~]{1,10}`),
		rapid.StringMatching(`[a-zA-Z/][a-zA-Z0-9_./-]{0,12}`),
	).Draw(t, "str")
})

var cfgName = rapid.Custom(func(t *rapid.T) string {
	return rapid.OneOf(rapid.SampledFrom([]string{"demo", "a", "github.com/foo/bar", "github.com/foo/bar/v2", "time", "error", "true", "1", "é", "x y"}), rapid.StringMatching(`[a-z][a-zA-Z0-9_./-]{0,10}`)).Draw(t, "name")
})

func genCfg(t *rapid.T) cfgCase {
	c := cfgCase{Targets: map[string]cfgTarget{}, Mappings: map[string]cfgMapping{}}
	if rapid.IntRange(0, 4).Draw(t, "module") > 0 {
		c.ModName = cfgStr.Draw(t, "modName")
		c.ModPath = rapid.SampledFrom([]string{"", ".", "./", "..", "../", "sub", "sub/", "./sub/deeper", "../sub", "sub/../other", "../..", "ABS", "ABS/sub", "ABS/a/b", "ABS/other/", "ABS/a/../sub", "$HOME", "$sub/x", "a b", "~", "ABS/$sub", "ABS/a b"}).Draw(t, "modPath")
	}
	for i := rapid.IntRange(0, 3).Draw(t, "targets"); i > 0; i-- {
		tg := cfgTarget{Package: cfgStr.Draw(t, "package"), Module: cfgStr.Draw(t, "tmodule"), Out: cfgStr.Draw(t, "out"), Skip: rapid.Bool().Draw(t, "skip")}
		tg.Services = rapid.MapOfN(cfgStr, cfgStr, 0, 3).Draw(t, "services")
		tg.GoRPC = rapid.SliceOfN(cfgStr, 0, 3).Draw(t, "gorpc")
		tg.TSRPC = rapid.SliceOfN(cfgStr, 0, 3).Draw(t, "tsrpc")
		c.Targets[cfgName.Draw(t, "target")] = tg
	}
	for i := rapid.IntRange(0, 4).Draw(t, "mappings"); i > 0; i-- {
		m := cfgMapping{Out: cfgStr.Draw(t, "mout"), Module: cfgStr.Draw(t, "mmodule")}
		m.Structs = rapid.SliceOfN(cfgStr, 0, 3).Draw(t, "structs")
		m.Scalars = rapid.SliceOfN(cfgStr, 0, 3).Draw(t, "scalars")
		if rapid.IntRange(0, 9).Draw(t, "null") == 0 {
			m = cfgMapping{Null: true}
		}
		c.Mappings[cfgName.Draw(t, "mapping")] = m
	}
	c.Style = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "style")
	c.Dir = rapid.SampledFrom([]string{"", "a", "a/b", "sub", "a b"}).Draw(t, "dir")
	c.Cwd = rapid.SampledFrom([]string{"", "a", "a/b", "sub", "other", "sub/deeper"}).Draw(t, "cwd")
	c.RelName = rapid.Bool().Draw(t, "relName")
	c.GoMod = rapid.SampledFrom([]string{"valid", "valid", "valid", "none", "malformed", "dir"}).Draw(t, "goMod")
	c.Decoy = rapid.Bool().Draw(t, "decoy")
	mods := []string{"github.com/a/b", "github.com/a/b/v2", "example.com/x", "gopkg.in/yaml.v2", "example.com/Upper"}
	vers := map[string][]string{"github.com/a/b": {"v1.2.3", "v0.1.0", "v0.0.0-20190101000000-abcdefabcdef", "v2.0.0+incompatible"}, "github.com/a/b/v2": {"v2.3.4"}, "example.com/x": {"v1.0.0", "v0.9.0-rc.1"}, "gopkg.in/yaml.v2": {"v2.4.0"}, "example.com/Upper": {"v1.1.1"}}
	c.Mod.Path = rapid.SampledFrom([]string{"example.com/mod", "mod", "example.com/mod/v3"}).Draw(t, "mpath")
	for _, m := range mods {
		if rapid.Bool().Draw(t, "req") {
			c.Mod.Requires = append(c.Mod.Requires, [2]string{m, rapid.SampledFrom(vers[m]).Draw(t, "ver")})
		}
		if rapid.IntRange(0, 3).Draw(t, "rep") == 0 {
			r := [4]string{m}
			if rapid.Bool().Draw(t, "oldver") {
				r[1] = rapid.SampledFrom(vers[m]).Draw(t, "ov")
			}
			if rapid.Bool().Draw(t, "local") {
				r[2] = rapid.SampledFrom([]string{"./x", "../y", "/abs/z"}).Draw(t, "dirv")
			} else {
				r[2], r[3] = "example.com/fork", "v1.5.0"
			}
			c.Mod.Replaces = append(c.Mod.Replaces, r)
		}
	}
	c.Mod.Block = rapid.Bool().Draw(t, "block")
	return c
}

func (m cfgMod) render() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "module %s\n\ngo 1.21\n\n", m.Path)
	line := func(k, s string) {
		if m.Block {
			fmt.Fprintf(&sb, "%s (\n\t%s // indirect\n)\n", k, s)
		} else {
			fmt.Fprintf(&sb, "%s %s\n", k, s)
		}
	}
	for _, r := range m.Requires {
		line("require", r[0]+" "+r[1])
	}
	for _, r := range m.Replaces {
		line("replace", strings.TrimSpace(r[0]+" "+r[1])+" => "+strings.TrimSpace(r[2]+" "+r[3]))
	}
	return sb.String()
}

var plainOK = regexp.MustCompile(`^[A-Za-z/.][A-Za-z0-9_/-]*[A-Za-z0-9_/.-]*$`)

// yamlWriter writes the same document in many spellings.
type yamlWriter struct {
	s  *val.Src
	sb strings.Builder
}

func (w *yamlWriter) str(v string) string {
	reserved := map[string]bool{"true": true, "false": true, "yes": true, "no": true, "on": true, "off": true, "y": true, "n": true, "null": true, ".": true, "..": true, ".inf": true, ".nan": true}
	k := w.s.N(3)
	if k == 0 && plainOK.MatchString(v) && !reserved[strings.ToLower(v)] && !strings.HasPrefix(v, ".") || k == 0 && strings.HasPrefix(v, "./") && plainOK.MatchString(v[2:]) {
		return v
	}
	if k == 1 && !strings.ContainsAny(v, "\t\n\u00a0\u0301") {
		return "'" + strings.ReplaceAll(v, "'", "''") + "'"
	}
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range v {
		switch {
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r == '\t':
			sb.WriteString(`\t`)
		case r == '\n':
			sb.WriteString(`\n`)
		case r == '\u00a0' || r == '\u0301':
			fmt.Fprintf(&sb, `\u%04x`, r)
		case r > 126 && w.s.N(2) == 1:
			fmt.Fprintf(&sb, `\u%04x`, r)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

type kv struct {
	k string
	v interface{} // string (rendered), []string, []kv, nil
}

func (w *yamlWriter) order(l []kv) []kv {
	out := append([]kv{}, l...)
	for i := len(out) - 1; i > 0; i-- {
		j := w.s.N(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (w *yamlWriter) flow(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case []string:
		return "[" + strings.Join(x, ", ") + "]"
	case []kv:
		var parts []string
		for _, e := range x {
			parts = append(parts, e.k+": "+w.flow(e.v))
		}
		return "{" + strings.Join(parts, ", ") + "}"
	}
	return "~"
}

func quoted(s string) bool { return strings.HasPrefix(s, `"`) || strings.HasPrefix(s, "'") }

func (w *yamlWriter) block(l []kv, indent string) {
	for _, e := range l {
		if w.s.N(8) == 1 {
			w.sb.WriteString(indent + "# a comment: [\n")
		}
		switch x := e.v.(type) {
		case nil:
			w.sb.WriteString(indent + e.k + ":" + []string{"\n", " ~\n", " null\n"}[w.s.N(3)])
		case string:
			w.sb.WriteString(indent + e.k + ": " + x + []string{"\n", "   # comment\n"}[w.s.N(2)])
		case []string:
			if len(x) == 0 || w.s.N(2) == 0 {
				w.sb.WriteString(indent + e.k + ": " + w.flow(x) + "\n")
				continue
			}
			w.sb.WriteString(indent + e.k + ":\n")
			sub := indent + []string{"  ", ""}[w.s.N(2)]
			for _, s := range x {
				w.sb.WriteString(sub + "- " + s + "\n")
			}
		case []kv:
			if len(x) == 0 || w.s.N(6) == 1 {
				w.sb.WriteString(indent + e.k + ": " + w.flow(x) + "\n")
				continue
			}
			w.sb.WriteString(indent + e.k + ":\n")
			w.block(w.order(x), indent+[]string{"  ", "    ", " "}[w.s.N(3)])
		}
	}
}

func sortedKeys[V any](m map[string]V) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func (c cfgCase) yaml(root string) string {
	w := &yamlWriter{s: val.NewSrc(c.Style)}
	strs := func(l []string) []string {
		out := []string{}
		for _, s := range l {
			out = append(out, w.str(s))
		}
		return out
	}
	var doc []kv
	opt := func(l []kv, k, v string) []kv {
		if v == "" && w.s.N(2) == 0 {
			return l
		}
		if v == "" && w.s.N(3) == 0 {
			return append(l, kv{k, nil})
		}
		return append(l, kv{k, w.str(v)})
	}
	optL := func(l []kv, k string, v []string) []kv {
		if len(v) == 0 && w.s.N(2) == 0 {
			return l
		}
		return append(l, kv{k, strs(v)})
	}
	if c.ModName != "" || c.ModPath != "" {
		var m []kv
		m = opt(m, "name", c.ModName)
		m = opt(m, "path", c.modPath(root))
		doc = append(doc, kv{"module", m})
	}
	var ts []kv
	for _, name := range sortedKeys(c.Targets) {
		t := c.Targets[name]
		var l, sv []kv
		l = opt(l, "package", t.Package)
		l = opt(l, "module", t.Module)
		l = opt(l, "out", t.Out)
		for _, p := range sortedKeys(t.Services) {
			sv = append(sv, kv{w.str(p), w.str(t.Services[p])})
		}
		l = append(l, kv{"services", sv})
		l = optL(l, "gorpc", t.GoRPC)
		l = optL(l, "tsrpc", t.TSRPC)
		if t.Skip || w.s.N(2) == 0 {
			l = append(l, kv{"skipTSRPCClient", fmt.Sprint(t.Skip)})
		}
		if w.s.N(5) == 1 {
			l = append(l, kv{"modulekind", "commonjs"}) // a key that is no longer used
		}
		ts = append(ts, kv{w.str(name), l})
	}
	doc = append(doc, kv{"targets", ts})
	var ms []kv
	for _, name := range sortedKeys(c.Mappings) {
		m := c.Mappings[name]
		if m.Null {
			ms = append(ms, kv{w.str(name), nil})
			continue
		}
		var l []kv
		l = opt(l, "out", m.Out)
		l = opt(l, "module", m.Module)
		l = optL(l, "structs", m.Structs)
		l = optL(l, "scalars", m.Scalars)
		ms = append(ms, kv{w.str(name), l})
	}
	doc = append(doc, kv{"mappings", ms})
	if w.s.N(2) == 1 {
		w.sb.WriteString("---\n")
	}
	w.block(w.order(doc), "")
	out := w.sb.String()
	if w.s.N(6) == 1 {
		out = strings.ReplaceAll(out, "\n", "\r\n")
	}
	return out
}

func (c cfgCase) modPath(root string) string {
	if strings.HasPrefix(c.ModPath, "ABS") {
		return root + strings.TrimPrefix(c.ModPath, "ABS")
	}
	return c.ModPath
}

func caseDir(name string) string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	root := filepath.Join(d, name)
	if err := os.RemoveAll(root); err != nil {
		vr.Abort("%v", err)
	}
	if err := os.MkdirAll(root, 0o755); err != nil {
		vr.Abort("%v", err)
	}
	return root
}

func must(err error) {
	if err != nil {
		vr.Abort("%v", err)
	}
}

func sameStrings(a, b []string) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}

func TestC18Documents(t *testing.T) {
	home, _ := os.Getwd()
	vr.Run(t, "C18/documents", genCfg, func(c cfgCase) vr.Result {
		defer func() { _ = os.Chdir(home) }()
		must(os.Chdir(home))
		root := caseDir("c18")
		for _, d := range []string{"a/b", "sub/deeper", "other", "a b", "a/sub/deeper", "a/b/sub/deeper", "sub/sub/deeper", "a b/sub/deeper", "a/other", "a/b/other", "sub/other", "a b/other"} {
			must(os.MkdirAll(filepath.Join(root, d), 0o755))
		}
		dir := filepath.Join(root, c.Dir)
		cwd := filepath.Join(root, c.Cwd)
		text := c.yaml(root)
		file := filepath.Join(dir, "gotsrpc.yml")
		must(os.WriteFile(file, []byte(text), 0o644))

		wantPath := ""
		modDir := ""
		if p := c.modPath(root); p != "" {
			if filepath.IsAbs(p) {
				wantPath = p
			} else {
				wantPath = filepath.Join(dir, p)
			}
			modDir = filepath.Clean(wantPath)
		}
		if c.Decoy {
			for _, d := range []string{cwd, dir, root} {
				if d != modDir {
					must(os.WriteFile(filepath.Join(d, "go.mod"), []byte("module decoy\n\ngo 1.21\n\nrequire example.com/decoy v1.0.0\n"), 0o644))
				}
			}
		}
		if modDir != "" {
			if !strings.HasPrefix(modDir+"/", root+"/") {
				// a path above the root of the case, where nothing is written
				if _, err := os.Stat(filepath.Join(modDir, "go.mod")); err == nil {
					return vr.Result{}
				}
				c.GoMod = "none"
			} else {
				must(os.MkdirAll(modDir, 0o755))
			}
			switch c.GoMod {
			case "valid":
				must(os.WriteFile(filepath.Join(modDir, "go.mod"), []byte(c.Mod.render()), 0o644))
			case "malformed":
				bad := []string{"modul x\n", "module x\nrequire\n", "module x\n\nrequire example.com/x notaversion\n", "module \"x\n", "module x\nreplace a =>\n", "{{{", "module x\nmodule y\n"}
				must(os.WriteFile(filepath.Join(modDir, "go.mod"), []byte(bad[len(c.Style)%len(bad)]), 0o644))
			case "dir":
				must(os.MkdirAll(filepath.Join(modDir, "go.mod"), 0o755))
			}
		}
		must(os.Chdir(cwd))
		name := file
		if c.RelName {
			rel, err := filepath.Rel(cwd, file)
			must(err)
			name = rel
		}
		conf, err := config.LoadConfigFile(name)
		cls := []string{"goMod:" + c.GoMod, fmt.Sprintf("module:%v abs:%v", modDir != "", strings.HasPrefix(c.ModPath, "ABS"))}
		if modDir != "" && (c.GoMod == "malformed" || c.GoMod == "dir") {
			if err == nil {
				return vr.Failf("a malformed go.mod is not reported", "%s, module path %q", c.GoMod, c.ModPath)
			}
			return vr.OK(cls...)
		}
		if err != nil {
			return vr.Failf("a valid configuration is refused", "%v\n%s", err, text)
		}
		if conf.Module.Name != c.ModName {
			return vr.Failf("the module name is wrong", "%q instead of %q\n%s", conf.Module.Name, c.ModName, text)
		}
		if conf.Module.Path != wantPath {
			return vr.Failf("the module path is wrong", "%q instead of %q (written %q, file in %q, cwd %q)", conf.Module.Path, wantPath, c.ModPath, c.Dir, c.Cwd)
		}
		if modDir != "" && c.GoMod == "valid" {
			mf := conf.Module.ModFile
			if mf == nil {
				return vr.Failf("the go.mod of the module was not loaded", "module path %q", c.ModPath)
			}
			if mf.Module == nil || mf.Module.Mod.Path != c.Mod.Path || len(mf.Require) != len(c.Mod.Requires) || len(mf.Replace) != len(c.Mod.Replaces) {
				return vr.Failf("another go.mod was loaded", "%v", mf.Module)
			}
			for i, r := range c.Mod.Requires {
				if mf.Require[i].Mod.Path != r[0] || mf.Require[i].Mod.Version != r[1] {
					return vr.Failf("another go.mod was loaded", "%v", mf.Require[i])
				}
			}
			for i, r := range c.Mod.Replaces {
				if g := mf.Replace[i]; g.Old.Path != r[0] || g.Old.Version != r[1] || g.New.Path != r[2] || g.New.Version != r[3] {
					return vr.Failf("another go.mod was loaded", "%v", g)
				}
			}
		} else if conf.Module.ModFile != nil {
			return vr.Failf("another go.mod was loaded", "%v", conf.Module.ModFile.Module)
		}
		if len(conf.Targets) != len(c.Targets) || len(conf.Mappings) != len(c.Mappings) {
			return vr.Failf("targets or mappings are lost or invented", "%d, %d\n%s", len(conf.Targets), len(conf.Mappings), text)
		}
		for n, w := range c.Targets {
			g := conf.Targets[n]
			if g == nil {
				return vr.Failf("targets or mappings are lost or invented", "%q\n%s", n, text)
			}
			if g.Package != w.Package || g.TypeScriptModule != w.Module || g.Out != w.Out || g.SkipTSRPCClient != w.Skip || !sameStrings(g.GoRPC, w.GoRPC) || !sameStrings(g.TSRPC, w.TSRPC) || len(g.Services) != len(w.Services) {
				return vr.Failf("a target means something else", "%q: %+v\n%s", n, *g, text)
			}
			for p, s := range w.Services {
				if gs, ok := g.Services[p]; !ok || gs != s {
					return vr.Failf("a target means something else", "%q: %+v\n%s", n, *g, text)
				}
			}
			all := append(append([]string{"Service", "", "other"}, w.GoRPC...), w.TSRPC...)
			for _, s := range all {
				if g.IsGoRPC(s) != contains(w.GoRPC, s) || g.IsTSRPC(s) != (len(w.TSRPC) == 0 || contains(w.TSRPC, s)) {
					return vr.Failf("the rpc lists mean something else", "%q: %+v", s, *g)
				}
			}
		}
		for n, w := range c.Mappings {
			g := conf.Mappings[n]
			if g == nil {
				return vr.Failf("targets or mappings are lost or invented", "%q\n%s", n, text)
			}
			if g.GoPackage != n || g.Out != w.Out || g.TypeScriptModule != w.Module || !sameStrings(g.Structs, w.Structs) || !sameStrings(g.Scalars, w.Scalars) {
				return vr.Failf("a mapping means something else", "%q: %+v\n%s", n, *g, text)
			}
		}
		return vr.Result{NonTrivial: len(c.Targets)+len(c.Mappings) > 0, Classes: cls}
	})
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

type cfgBytes struct {
	Kind  string  `json:"kind"`
	Base  cfgCase `json:"base"`
	Flips []int   `json:"flips,omitempty"`
	Raw   []byte  `json:"raw,omitempty"`
	Name  string  `json:"name,omitempty"`
}

// documents that can not mean a configuration
var badDocs = []string{
	"targets: [", "targets:\n\tx: y\n", "targets: [1, 2]\n", "targets: {a: [b]}\n", "targets: {NAME: {services: [a, b]}}\n", "targets: {NAME: {services: Service}}\n",
	"mappings: [NAME]\n", "mappings: {NAME: [out]}\n", "mappings: {NAME: {structs: {a: b}}}\n", "mappings: {NAME: {out: [a]}}\n", "targets: {NAME: {skipTSRPCClient: [x]}}\n",
	"module: [a]\n", "module: NAME\n", "module: {path: {a: b}}\n", "a: b: c\n", "- a\n- b\n", "'unclosed\n", "\"unclosed\n", "targets: {NAME: {package: *nope}}\n", "{a: b\n", "a: &x\n b: *y\n", "just text", "%YAML 99\n---\n", "\x00\x01",
	"targets: {NAME: {skipTSRPCClient: maybe}}\n", "mappings: {NAME: text}\n", "targets: {NAME: text}\n",
}

func TestC18Bytes(t *testing.T) {
	vr.Run(t, "C18/bytes", func(t *rapid.T) cfgBytes {
		c := cfgBytes{Kind: rapid.SampledFrom([]string{"mutated", "mutated", "raw", "bad", "missing", "directory", "gomod"}).Draw(t, "kind")}
		switch c.Kind {
		case "mutated", "gomod":
			c.Base = genCfg(t)
			c.Flips = rapid.SliceOfN(rapid.IntRange(0, 1<<20), 1, 6).Draw(t, "flips")
		case "raw":
			c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
		case "bad":
			c.Raw = []byte(rapid.SampledFrom(badDocs).Draw(t, "bad"))
			c.Name = rapid.StringMatching("[a-z]{1,6}").Draw(t, "name")
		}
		return c
	}, func(c cfgBytes) vr.Result {
		root := caseDir("c18b")
		file := filepath.Join(root, "gotsrpc.yml")
		text := c.Raw
		switch c.Kind {
		case "mutated":
			text = mutateText([]byte(c.Base.yaml(root)), c.Flips)
		case "gomod":
			text = []byte("module: {name: x, path: .}\n")
			must(os.WriteFile(filepath.Join(root, "go.mod"), mutateText([]byte(c.Base.Mod.render()), c.Flips), 0o644))
		case "bad":
			text = []byte(strings.ReplaceAll(string(text), "NAME", c.Name))
		}
		switch c.Kind {
		case "missing":
			file = filepath.Join(root, "missing.yml")
		case "directory":
			must(os.MkdirAll(file, 0o755))
		default:
			must(os.WriteFile(file, text, 0o644))
		}
		conf, err := config.LoadConfigFile(file)
		mustFail := c.Kind == "bad" || c.Kind == "missing" || c.Kind == "directory"
		if mustFail && err == nil {
			return vr.Failf("an unreadable or malformed file is not reported", "%s: %q", c.Kind, text)
		}
		if err == nil && conf == nil {
			return vr.Failf("neither a configuration nor an error", "%q", text)
		}
		if err == nil {
			for n, m := range conf.Mappings {
				if m == nil || m.GoPackage != n {
					return vr.Failf("a mapping does not know its package", "%q: %+v\n%s", n, m, text)
				}
			}
			if _, e := json.Marshal(conf.Targets); e != nil {
				return vr.Failf("neither a configuration nor an error", "%v", e)
			}
		}
		return vr.Result{NonTrivial: len(text) > 0 || mustFail, Classes: []string{c.Kind, fmt.Sprintf("%s accepted:%v", c.Kind, err == nil)}}
	})
}

func mutateText(b []byte, flips []int) []byte {
	alphabet := "{}[]:-,&*#?|>!%@`'\" \n\t~.<=0a/()"
	for _, f := range flips {
		if len(b) == 0 {
			return b
		}
		i := f % len(b)
		switch (f / len(b)) % 4 {
		case 0:
			b[i] = alphabet[f%len(alphabet)]
		case 1:
			b = append(b[:i:i], b[i+1:]...)
		case 2:
			b = append(b[:i:i], append([]byte{alphabet[(f/7)%len(alphabet)]}, b[i:]...)...)
		default:
			b = b[:i]
		}
	}
	return b
}
