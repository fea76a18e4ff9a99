// Package ir describes Go programs (packages, types, services, configuration) the
// generator is run on, renders them, and says independently of the generator what
// has to come out of them.
package ir

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Program is a module with packages and a generator configuration.
type Program struct {
	Mod     string    `json:"mod"`
	Pkgs    []*Pkg    `json:"pkgs"`
	Targets []*Target `json:"targets"`
	// TimeOut is the TypeScript file of package time ("" unless times are used).
	TimeOut string `json:"timeOut,omitempty"`
	// Extras are types the mappings list, which need not be reachable.
	Extras []*Type `json:"extras,omitempty"`
	// ConfigAt is the directory of the configuration file below the module
	// root, Cwd the directory the generator is run in; AbsMod says that the
	// module path is absolute.
	ConfigAt string `json:"configAt,omitempty"`
	Cwd      string `json:"cwd,omitempty"`
	AbsMod   bool   `json:"absMod,omitempty"`
	AbsOut   bool   `json:"absOut,omitempty"`
}

// Pkg is a package.
type Pkg struct {
	Dir   string  `json:"dir"`  // below the module, "" is the module itself
	Name  string  `json:"name"` // package clause
	Out   string  `json:"out"`  // TypeScript file
	Files []*File `json:"files"`
	Decls []*Decl `json:"decls"`
	Noise bool    `json:"noise,omitempty"`
	// files which declare the same names and are not part of the package for go
	Excluded []string `json:"excluded,omitempty"`
}

// File of a package; declarations are spread over the files.
type File struct {
	Name string `json:"name"`
	// Alias under which the file imports ("" none), by package index or "time", "http"
	Alias map[string]string `json:"alias,omitempty"`
}

// Decl kinds.
const (
	Struct    = "struct"
	Scalar    = "scalar" // named basic type, with Consts an enum
	Slice     = "slice"
	Map       = "map"
	Iface     = "any" // type X interface{}
	Union     = "union"
	SUnion    = "sunion" // union of enums
	Service   = "service"
	StructSvc = "structservice"
)

// Decl is a declaration.
type Decl struct {
	Kind    string    `json:"kind"`
	Name    string    `json:"name"`
	File    int       `json:"file,omitempty"`
	Type    *Type     `json:"type,omitempty"` // scalar: basic; slice, map: the literal type
	Fields  []*Field  `json:"fields,omitempty"`
	Consts  []*Const  `json:"consts,omitempty"`
	Methods []*Method `json:"methods,omitempty"`

	Grouped bool     `json:"grouped,omitempty"` // declared in a type ( ... ) block of its file
	Err     string   `json:"err,omitempty"`     // the type is an error: "ptr" or "value" for the receiver
	Hidden  []string `json:"hidden,omitempty"`  // further fields and methods, which are not exported or ignored
}

// Const of an enum.
type Const struct {
	Name  string `json:"name"`
	Lit   string `json:"lit"`            // Go literal
	Group int    `json:"group"`          // const block
	File  int    `json:"file,omitempty"` // file of the block
}

// Field of a struct.
type Field struct {
	Name     string   `json:"name"`
	More     []string `json:"more,omitempty"` // further names of the same declaration
	Type     *Type    `json:"type"`
	JSON     string   `json:"json,omitempty"` // name in the tag
	HasTag   bool     `json:"hasTag,omitempty"`
	Omit     bool     `json:"omit,omitempty"`
	Ignore   bool     `json:"ignore,omitempty"`
	Inline   bool     `json:"inline,omitempty"` // embedded
	Override string   `json:"override,omitempty"`
	Other    string   `json:"other,omitempty"`  // further tags
	Option   string   `json:"option,omitempty"` // further option of the json tag, without a meaning
}

// Method of a service.
type Method struct {
	Name string   `json:"name"`
	Ctx  bool     `json:"ctx,omitempty"`
	Bare bool     `json:"bare,omitempty"` // the parameters are declared without names
	File int      `json:"file,omitempty"` // of methods of structs
	Args []*Param `json:"args,omitempty"`
	Rets []*Param `json:"rets,omitempty"`
}

// Param is a parameter or result.
type Param struct {
	Name string `json:"name,omitempty"`
	Join bool   `json:"join,omitempty"` // share the type of the next one
	// the name is the one the generator gives, the declaration says _
	Blank bool  `json:"blank,omitempty"`
	Type  *Type `json:"type"`
}

// Type expression.
type Type struct {
	K      string   `json:"k"` // basic name, any, bytes, time, error, ptr, slice, map, ref, anon
	E      *Type    `json:"e,omitempty"`
	Key    *Type    `json:"key,omitempty"`
	P      int      `json:"p,omitempty"`
	N      string   `json:"n,omitempty"`
	Fields []*Field `json:"fields,omitempty"`
}

// Target of the configuration.
type Target struct {
	Name     string   `json:"name"`
	Pkg      int      `json:"pkg"`
	Services []Bound  `json:"services"`
	Out      string   `json:"out,omitempty"`
	TSRPC    []string `json:"tsrpc,omitempty"`
	GoRPC    []string `json:"gorpc,omitempty"`
	Skip     bool     `json:"skip,omitempty"`
}

// Bound is a service at an endpoint.
type Bound struct {
	Endpoint string `json:"endpoint"`
	Service  string `json:"service"`
}

// Path is the import path of a package.
func (p *Program) Path(i int) string {
	if p.Pkgs[i].Dir == "" {
		return p.Mod
	}
	return p.Mod + "/" + p.Pkgs[i].Dir
}

// Find returns a declaration.
func (p *Program) Find(pkg int, name string) *Decl {
	for _, d := range p.Pkgs[pkg].Decls {
		if d.Name == name {
			return d
		}
	}
	return nil
}

// Names of a field declaration.
func (f *Field) Names() []string { return append([]string{f.Name}, f.More...) }

// ---- Go source ----

type fileCtx struct {
	p    *Program
	pkg  int
	f    *File
	used map[string]bool
}

func (c *fileCtx) qual(key string) string {
	c.used[key] = true
	if a := c.f.Alias[key]; a != "" {
		return a
	}
	switch key {
	case "time", "http":
		return key
	}
	i, _ := strconv.Atoi(key)
	return c.p.Pkgs[i].Name
}

func (c *fileCtx) goType(t *Type) string {
	switch t.K {
	case "any":
		return "interface{}"
	case "any2":
		return "any"
	case "bytes":
		return "[]byte"
	case "time":
		return c.qual("time") + ".Time"
	case "ptr":
		return "*" + c.goType(t.E)
	case "slice":
		return "[]" + c.goType(t.E)
	case "map":
		return "map[" + c.goType(t.Key) + "]" + c.goType(t.E)
	case "ref":
		if t.P == c.pkg {
			return t.N
		}
		return c.qual(strconv.Itoa(t.P)) + "." + t.N
	case "anon":
		s := "struct {\n"
		for _, f := range t.Fields {
			s += c.field(f)
		}
		return s + "}"
	default:
		return t.K
	}
}

func (c *fileCtx) field(f *Field) string {
	s := ""
	if !f.Inline {
		s = strings.Join(f.Names(), ", ") + " "
	}
	s += c.goType(f.Type)
	return s + f.tag() + "\n"
}

func (f *Field) tag() string {
	var tags []string
	if f.HasTag {
		j := f.JSON
		if f.Ignore {
			j = "-"
		}
		if f.Inline {
			j += ",inline"
		}
		if f.Option != "" {
			j += "," + f.Option
		}
		if f.Omit {
			j += ",omitempty"
		}
		if j == "-" && !f.Ignore {
			j = "-," // a name
		}
		tags = append(tags, `json:"`+j+`"`)
	}
	if f.Override != "" {
		tags = append(tags, `gotsrpc:"`+f.Override+`"`)
	}
	if f.Other != "" {
		tags = append(tags, f.Other)
	}
	if len(tags) == 0 {
		return ""
	}
	return " `" + strings.Join(tags, " ") + "`"
}

func (c *fileCtx) params(ps []*Param, decl bool) string {
	var parts []string
	for i, q := range ps {
		name := q.Name
		if q.Blank && decl {
			name = "_"
		}
		switch {
		case q.Join && i+1 < len(ps) && name != "":
			parts = append(parts, name)
		case name != "":
			parts = append(parts, name+" "+c.goType(q.Type))
		default:
			parts = append(parts, c.goType(q.Type))
		}
	}
	return strings.Join(parts, ", ")
}

// signature of a method: the one of the declaration, or the one of an implementation.
func (c *fileCtx) signature(m *Method, decl bool) string {
	s := m.Name + "("
	bare := m.Bare && decl
	if m.Ctx {
		h := c.qual("http")
		if bare {
			s += h + ".ResponseWriter, *" + h + ".Request"
		} else {
			s += "w " + h + ".ResponseWriter, r *" + h + ".Request"
		}
		if len(m.Args) > 0 {
			s += ", "
		}
	}
	if bare {
		for i, a := range m.Args {
			if i > 0 {
				s += ", "
			}
			s += c.goType(a.Type)
		}
		s += ")"
	} else {
		s += c.params(m.Args, decl) + ")"
	}
	switch {
	case len(m.Rets) == 0:
	case len(m.Rets) == 1 && m.Rets[0].Name == "":
		s += " " + c.goType(m.Rets[0].Type)
	default:
		s += " (" + c.params(m.Rets, true) + ")"
	}
	return s
}

// UnionTag is how union members are declared.
const UnionTag = "`json:\",inline\" gotsrpc:\"union\"`"

// Source files of the program, by path below the module root.
func (p *Program) Source() map[string]string {
	out := map[string]string{}
	for i, pk := range p.Pkgs {
		for fi, f := range pk.Files {
			c := &fileCtx{p: p, pkg: i, f: f, used: map[string]bool{}}
			body := c.body(fi)
			head := "package " + pk.Name + "\n\n"
			var imps []string
			for k := range c.used {
				imps = append(imps, k)
			}
			sort.Strings(imps)
			for _, k := range imps {
				path := map[string]string{"time": "time", "http": "net/http", "drv": "verif/harness/drv"}[k]
				if path == "" {
					n, _ := strconv.Atoi(k)
					path = p.Path(n)
				}
				head += "import " + strings.TrimSpace(f.Alias[k]+" "+strconv.Quote(path)) + "\n"
			}
			out[join(pk.Dir, f.Name)] = head + "\n" + body
		}
		for _, how := range pk.Excluded {
			name, src := pk.excluded(how)
			out[join(pk.Dir, name)] = src
		}
		if pk.Noise {
			out[join(pk.Dir, "zz_noise.go")] = "package " + pk.Name + "\n\n" + noise + pk.lookalikes()
			out[join(pk.Dir, "zz_noise_test.go")] = "package " + pk.Name + "_test\n\ntype Item struct{ TestOnly string }\n"
		}
	}
	return out
}

// excluded is a file which go ignores.
func (pk *Pkg) excluded(how string) (name, src string) {
	var sb strings.Builder
	for i, d := range pk.Decls {
		switch d.Kind {
		case Service:
			fmt.Fprintf(&sb, "type %s interface {\n\tOtherSystem(a int) (b string)\n}\n\n", d.Name)
		case StructSvc:
			fmt.Fprintf(&sb, "type %s struct{}\n\nfunc (s *%[1]s) OtherSystem(a int) (b string) { return \"\" }\n\n", d.Name)
		default:
			if d.IsEnum() || i%3 == 0 {
				fmt.Fprintf(&sb, "type %s string\n\nconst %[1]sOther %[1]s = \"other\"\n\n", d.Name)
			} else {
				fmt.Fprintf(&sb, "type %s struct {\n\tOtherSystem string\n}\n\n", d.Name)
			}
		}
	}
	body := sb.String()
	switch how {
	case "ignore":
		return "aa_main.go", "//go:build ignore\n// +build ignore\n\npackage main\n\n" + body + "func main() {}\n"
	case "tag":
		return "aa_tag.go", "// Other builds.\n\n//go:build !linux || zz\n\npackage " + pk.Name + "\n\n" + body
	case "_":
		return "_backup.go", "package " + pk.Name + "\n\n" + body
	case ".":
		return ".#types.go", "not Go at all\n"
	}
	return "aa_" + how + ".go", "package " + pk.Name + "\n\n" + body
}

// lookalikes of the services, which are none.
func (pk *Pkg) lookalikes() string {
	var sb strings.Builder
	for _, d := range pk.Decls {
		if d.Kind == Service || d.Kind == StructSvc {
			fmt.Fprintf(&sb, "\ntype %sImpl struct{}\n\nfunc (s *%[1]sImpl) Extra(a int) (b string) { return \"\" }\n\nfunc (s %[1]sImpl) More() {}\n", d.Name)
			fmt.Fprintf(&sb, "\ntype Zz%s interface {\n\tExtra(a int) (b string)\n}\n\nfunc (s *%[1]sImpl) private%[1]s() {}\n", d.Name)
		}
	}
	return sb.String()
}

const noise = `import "strings"

type zzHidden struct {
	a, b string
	C    func() string
}

type zzFn func(a string) error

func (z *zzHidden) Get() string    { return z.a }
func (z zzHidden) Load() string    { return z.b }
func (z *zzHidden) Error() string  { return "hidden" }
func (z *zzHidden) Do(n int) (int) { return n }

var ZzVar = strings.Repeat("x", 3)

const ZzUntyped = "x"

const (
	ZzA = iota
	ZzB
	zzC int = 4
)

func ZzFunc[T any](t T) T { return t }

func init() {
	const Local = 3
	type Item struct{ Local string }
	_ = Item{}
}
`

func join(dir, name string) string {
	if dir == "" {
		return name
	}
	return dir + "/" + name
}

func (c *fileCtx) body(fi int) string {
	var sb strings.Builder
	pk := c.p.Pkgs[c.pkg]
	var group strings.Builder
	for _, d := range pk.Decls {
		if d.File == fi {
			if d.Grouped {
				c.decl(&group, d)
			} else {
				c.decl(&sb, d)
			}
		}
		if d.Kind == StructSvc {
			c.methods(&sb, d, fi)
		}
		if d.Err != "" && (d.File+len(d.Err))%len(pk.Files) == fi {
			star := ""
			if d.Err == "ptr" {
				star = "*"
			}
			fmt.Fprintf(&sb, "// Error makes it an error\nfunc (zz %s%s) Error() string {\n\treturn \"failed with %s\"\n}\n\n", star, d.Name, d.Name)
		}
		// const blocks
		groups := map[int][]*Const{}
		var order []int
		for _, k := range d.Consts {
			if k.File != fi {
				continue
			}
			if groups[k.Group] == nil {
				order = append(order, k.Group)
			}
			groups[k.Group] = append(groups[k.Group], k)
		}
		for _, g := range order {
			ks := groups[g]
			switch {
			case g%4 == 1: // one line each
				for _, k := range ks {
					fmt.Fprintf(&sb, "const %s %s = %s\n", k.Name, d.Name, k.Lit)
				}
			case g%4 == 2 && len(ks) > 1: // several names per specification
				var names, lits []string
				for _, k := range ks {
					names = append(names, k.Name)
					lits = append(lits, k.Lit)
				}
				fmt.Fprintf(&sb, "const %s %s = %s\n", strings.Join(names, ", "), d.Name, strings.Join(lits, ", "))
			default:
				sb.WriteString("const (\n")
				for _, k := range ks {
					fmt.Fprintf(&sb, "\t%s %s = %s\n", k.Name, d.Name, k.Lit)
				}
				sb.WriteString(")\n")
			}
			sb.WriteString("\n")
		}
	}
	if group.Len() > 0 {
		sb.WriteString("type (\n" + group.String() + ")\n")
	}
	return sb.String()
}

// methods of a service which is a struct, they may be in any file.
func (c *fileCtx) methods(sb *strings.Builder, d *Decl, fi int) {
	for i, m := range d.Methods {
		if m.File != fi {
			continue
		}
		if len(d.Hidden) > 0 {
			fmt.Fprintf(sb, "func (zz *%s) %s%d() (a, b string) {\n\treturn\n}\n\n", d.Name, d.Hidden[i%len(d.Hidden)], i)
		}
		fmt.Fprintf(sb, "func (zz *%s) %s {\n", d.Name, c.signature(m, false))
		body, helper := c.mockBody(d.Name, m)
		sb.WriteString(body + "}\n\n" + helper)
	}
}

func (c *fileCtx) decl(sb *strings.Builder, d *Decl) {
	kw := "type "
	if d.Grouped {
		kw = "\t"
	}
	switch d.Kind {
	case Struct:
		fmt.Fprintf(sb, kw+"%s struct {\n", d.Name)
		for i, f := range d.Fields {
			if i < len(d.Hidden) {
				sb.WriteString("\t" + d.Hidden[i] + "\n")
			}
			sb.WriteString("\t" + c.field(f))
		}
		sb.WriteString("}\n\n")
	case Union, SUnion:
		fmt.Fprintf(sb, kw+"%s struct {\n", d.Name)
		for _, f := range d.Fields {
			tag := UnionTag
			if f.Other != "" {
				tag = "`" + f.Other + "`"
			}
			sb.WriteString("\t" + f.Name + " " + c.goType(f.Type) + " " + tag + "\n")
		}
		sb.WriteString("}\n\n")
	case Scalar, Slice, Map, Iface:
		fmt.Fprintf(sb, kw+"%s %s\n\n", d.Name, c.goType(d.Type))
	case Service:
		fmt.Fprintf(sb, kw+"%s interface {\n", d.Name)
		for _, m := range d.Methods {
			sb.WriteString("\t" + c.signature(m, true) + "\n")
		}
		sb.WriteString("}\n\n")
	case StructSvc:
		c.used["drv"] = true
		fmt.Fprintf(sb, kw+"%s struct {\n\tFn drv.Fn\n}\n\n", d.Name)
	}
}

// mockBody forwards a call to zz.Fn. The results are converted by a function
// of their own, since parameters can hide the names of their types.
func (c *fileCtx) mockBody(svc string, m *Method) (body, helper string) {
	call := "zz.Fn(" + strconv.Quote(m.Name)
	if m.Ctx {
		call += ", w, r"
	} else {
		call += ", nil, nil"
	}
	for _, a := range m.Args {
		call += ", " + a.Name
	}
	call += ")"
	if len(m.Rets) == 0 {
		return "\t" + call + "\n", ""
	}
	c.used["drv"] = true
	name := "zzRets" + svc + m.Name
	var types, vals []string
	for i, r := range m.Rets {
		t := c.goType(r.Type)
		types = append(types, t)
		vals = append(vals, "drv.As["+t+"](zzOut["+strconv.Itoa(i)+"])")
	}
	helper = "func " + name + "(zzOut []interface{}) (" + strings.Join(types, ", ") + ") {\n\treturn " + strings.Join(vals, ", ") + "\n}\n\n"
	return "\treturn " + name + "(" + call + ")\n", helper
}

// ---- configuration ----

// ConfigFile is where the configuration is, below the module root.
func (p *Program) ConfigFile() string { return join(p.ConfigAt, "gotsrpc.yml") }

func up(dir string) string {
	if dir == "" {
		return ""
	}
	return strings.Repeat("../", strings.Count(dir, "/")+1)
}

// Config renders the build configuration for a module root.
func (p *Program) Config(root string) string {
	var sb strings.Builder
	modPath := "./" + up(p.ConfigAt)
	if p.AbsMod {
		modPath = root
	}
	toRoot := up(p.Cwd)
	if p.AbsOut {
		toRoot = root + "/"
	}
	fmt.Fprintf(&sb, "module:\n  name: %s\n  path: %s\n\ntargets:\n", p.Mod, modPath)
	for _, t := range p.Targets {
		fmt.Fprintf(&sb, "  %s:\n    services:\n", t.Name)
		for _, b := range t.Services {
			fmt.Fprintf(&sb, "      %s: %s\n", b.Endpoint, b.Service)
		}
		fmt.Fprintf(&sb, "    package: %s\n", p.Path(t.Pkg))
		if t.Out != "" {
			fmt.Fprintf(&sb, "    out: %s\n", toRoot+t.Out)
		}
		for _, l := range []struct {
			k string
			v []string
		}{{"tsrpc", t.TSRPC}, {"gorpc", t.GoRPC}} {
			if len(l.v) > 0 {
				fmt.Fprintf(&sb, "    %s:\n", l.k)
				for _, s := range l.v {
					fmt.Fprintf(&sb, "      - %s\n", s)
				}
			}
		}
		if t.Skip {
			sb.WriteString("    skipTSRPCClient: true\n")
		}
	}
	sb.WriteString("\nmappings:\n")
	for i, pk := range p.Pkgs {
		if pk.Out != "" {
			fmt.Fprintf(&sb, "  %s:\n    out: %s\n", p.Path(i), toRoot+pk.Out)
			for _, l := range []string{"structs", "scalars"} {
				head := "    " + l + ":\n"
				for _, x := range p.Extras {
					if k := p.Find(x.P, x.N).Kind; x.P != i || (k == Scalar || k == Iface) != (l == "scalars") {
						continue
					}
					sb.WriteString(head + "      - " + p.Path(x.P) + "." + x.N + "\n")
					head = ""
				}
			}
		}
	}
	if p.TimeOut != "" {
		fmt.Fprintf(&sb, "  time:\n    out: %s\n", toRoot+p.TimeOut)
	}
	return sb.String()
}

// HasStructSvc says whether the sources import the harness.
func (p *Program) HasStructSvc() bool {
	for _, pk := range p.Pkgs {
		for _, d := range pk.Decls {
			if d.Kind == StructSvc {
				return true
			}
		}
	}
	return false
}
