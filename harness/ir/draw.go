package ir

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Opts restrict what Draw makes.
type Opts struct {
	TS          bool // everything has to be expressible in TypeScript
	Unions      bool
	UnionHeavy  bool
	NestUnions  bool // unions as members of unions
	Errors      bool // error results
	GoRPC       bool // only what gob transports, every service also has a GoRPC target
	StructSvc   bool
	MaxPkgs     int
	MaxDecls    int // per package
	MaxMethod   int
	EnumHeavy   bool
	Override    bool
	Anon        bool
	Targets     int
	SkipClients bool
	Configs     bool // all kinds of configurations
	RareDirs    bool // package names meant to clash with those the generated code imports or with each other's aliases
	RareNames   bool // parameter and result names meant to clash with generated code
}

type drawer struct {
	t       *rapid.T
	o       Opts
	p       *Program
	counter int
	names   []map[string]bool // taken identifiers, per package
	dash    bool              // a field is called "-"
	flat    map[*Decl]bool    // must not embed anything
	iface   bool              // the service is an interface
}

func (d *drawer) n(label string, max int) int { return rapid.IntRange(0, max-1).Draw(d.t, label) }
func (d *drawer) chance(label string, oneIn int) bool {
	return rapid.IntRange(0, oneIn-1).Draw(d.t, label) == oneIn-1
}
func pick[T any](d *drawer, label string, of []T) T { return of[d.n(label, len(of))] }

var (
	mods     = []string{"example.com/app", "example.com/my-app", "demo", "git.host.org/group/sub.mod/v3", "example.com/app/nested"}
	dirs     = []string{"service", "vo", "a/vo", "b/vo", "my-types", "types", "x/y/z", "data.v1", "internal/item"}
	rareDirs = []string{"a-vo", "a.vo", "a_vo", "http", "x/http", "x/time", "context", "errors", "x/fmt", "strings", "tls", "gob", "gotsrpc", "gorpc", "reflect", "io", "net/http", "go-context", "c/service"}
	clusters = []string{"a/vo", "a-vo", "a_vo", "a.vo"}
	typeName = []string{"Item", "Order", "User", "Names", "HTTPInfo", "ID", "X", "Status", "Color", "Kind", "Entry", "Node2", "Data", "Time", "Request", "Response", "Error", "List", "Foo_Bar", "Übersicht", "Été"}
	fieldNm  = []string{"Name", "ID", "Value", "Items", "URL", "X", "Type", "Parent", "HTTPCode", "Is_Set", "Key", "Größe", "Änderung"}
	paramNm  = []string{"id", "name", "value", "in", "list", "items", "order", "user", "data", "opts", "filter", "x", "y", "camelCase", "snake_case", "ID", "vo", "ok", "s"}
	rareNm   = []string{"args", "reply", "ctx", "tsc", "req", "response", "err", "ret", "clientErr", "w", "r", "rw", "p", "time", "http", "new", "class", "function", "rets", "start", "request", "callStats", "this", "go_context", "gotsrpc", "rpcCallRes", "arg", "funcName", "strings", "reflect", "gob", "rpcCallErr", "delete", "let", "await", "default_", "arguments", "transport", "größe", "été", "stats", "fehlerÄ", "async", "data2", "_id", "args_", "ctx_", "tsc_", "req_", "reply_", "pkg_errors", "go_net_http", "response_", "arg0", "arg1"}
	methodNm = []string{"Get", "GetAll", "Load", "Save", "List", "Do", "Hello", "Ping", "Find", "URLFor", "X", "Set_Value", "Call2"}
	rareMeth = []string{"Über", "Ärger", "Execution", "Call", "Func", "ServeHTTP", "Then", "Await", "Delete", "New", "String", "Error", "Write", "Read", "T", "É"}
	svcNm    = []string{"Service", "Svc", "API", "Backend", "MyService"}
	ints     = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte", "rune"}
	basics   = []string{"string", "bool", "int", "int64", "float64", "uint8", "uint32", "int16", "float32", "uint64", "int8", "uint16", "int32", "uint", "byte", "rune"}
)

// Draw makes a program.
func Draw(t *rapid.T, o Opts) *Program {
	d := &drawer{t: t, o: o, flat: map[*Decl]bool{}, p: &Program{Mod: pickT(t, "mod", mods)}}
	np := 1 + d.n("pkgs", o.MaxPkgs)
	usedDirs := map[string]bool{}
	usedOut := map[string]bool{}
	// packages whose paths differ only in how they separate their words: the
	// generated code has to import them under different names
	cluster := 0
	if d.o.RareDirs && np > 2 && d.chance("cluster", 4) {
		cluster = 1 + d.n("clusterAt", 4)
	}
	for i := 0; i < np; i++ {
		pk := &Pkg{}
		for {
			pk.Dir = pick(d, "dir", dirs)
			if cluster > 0 && i < 4 {
				pk.Dir = clusters[(cluster+i)%4]
				break
			}
			if d.o.RareDirs && d.chance("rareDir", 3) {
				pk.Dir = pick(d, "rareDirName", rareDirs)
			}
			if d.o.Configs && d.chance("rootPkg", 6) {
				pk.Dir = ""
			}
			if !usedDirs[pk.Dir] {
				break
			}
			if pk.Dir == "" {
				pk.Dir = "more"
			}
			pk.Dir += strconv.Itoa(i)
			if !usedDirs[pk.Dir] {
				break
			}
		}
		usedDirs[pk.Dir] = true
		base := d.base(pk)
		pk.Name = strings.NewReplacer("-", "", ".", "").Replace(base)
		if d.chance("otherPkgName", 6) {
			pk.Name += "pkg"
		}
		pk.Out = pick(d, "out", []string{"out/", "ts/sub/", "out/a/b/", ""}) + strings.NewReplacer("/", "-", ".", "-").Replace(pk.Dir) + ".ts"
		if pk.Dir == "" {
			pk.Out = strings.TrimSuffix(pk.Out, ".ts") + "root.ts"
		}
		if d.o.RareDirs && d.chance("tsDir", 6) {
			pk.Out = pick(d, "tsDirName", []string{"my.ts.d/", "out/a.tsx/"}) + pk.Out
		}
		if usedOut[pk.Out] {
			pk.Out = "out" + strconv.Itoa(i) + "/" + pk.Out
		}
		usedOut[pk.Out] = true
		nf := 1 + d.n("files", 3)
		fnames := []string{"types.go", "a_more.go", "z.go", "doc.go", "b2.go", "Zeta.go"}
		if d.chance("manyFiles", 6) {
			nf = 4 + d.n("moreFiles", 3)
		}
		for k := 0; k < nf; k++ {
			if d.chance("system", 8) {
				fnames[k] = strings.TrimSuffix(fnames[k], ".go") + pick(d, "systemFile", []string{"_linux.go", "_unix.go", "_generated.go"})
			}
			pk.Files = append(pk.Files, &File{Name: fnames[k], Alias: map[string]string{}})
		}
		pk.Noise = d.chance("noise", 4)
		if d.chance("excluded", 5) {
			for n := 1 + d.n("excludedFiles", 2); n > 0; n-- {
				pk.Excluded = append(pk.Excluded, pick(d, "excludedHow", []string{"windows", "ignore", "tag", "_", ".", "plan9_arm64"}))
			}
		}
		d.p.Pkgs = append(d.p.Pkgs, pk)
		d.names = append(d.names, map[string]bool{"Get": true, "init": true})
	}
	// aliases
	for i, pk := range d.p.Pkgs {
		for fi, f := range pk.Files {
			taken := map[string]bool{"time": true, "http": true, "drv": true, "strings": true}
			for j := i + 1; j < np; j++ {
				o := d.p.Pkgs[j]
				base := d.base(o)
				a := ""
				if o.Name != base || taken[o.Name] || d.chance("alias", 4) {
					a = pick(d, "aliasName", []string{"other", "pkg", "types2", "v", "_x"}) + strconv.Itoa(j)
					for taken[a] {
						a += "x"
					}
					taken[a] = true
				} else {
					taken[o.Name] = true
				}
				f.Alias[strconv.Itoa(j)] = a
			}
			if d.chance("timeAlias", 6) {
				f.Alias["time"] = "stdtime"
			}
			if d.chance("httpAlias", 6) {
				f.Alias["http"] = "nethttp"
			}
			_ = fi
		}
	}
	// constants must not be named like imports
	for i, pk := range d.p.Pkgs {
		for _, n := range []string{"time", "http"} {
			d.names[i][n] = true
		}
		for _, o := range d.p.Pkgs {
			d.names[i][o.Name] = true
		}
		for _, f := range pk.Files {
			for _, a := range f.Alias {
				d.names[i][a] = true
			}
		}
	}
	// plan the declarations: names and kinds first
	for i, pk := range d.p.Pkgs {
		n := 1 + d.n("decls", o.MaxDecls)
		for k := 0; k < n; k++ {
			kinds := []string{Struct, Struct, Struct, Scalar, Scalar, Slice, Map, Struct}
			if o.EnumHeavy {
				kinds = []string{Scalar, Scalar, Scalar, Struct}
			}
			if o.Unions {
				kinds = append(kinds, Union, Union, SUnion)
			}
			if o.UnionHeavy {
				kinds = []string{Struct, Struct, Scalar, Union, Union, SUnion, Scalar, Struct, Slice, Map}
			}
			if !o.GoRPC {
				kinds = append(kinds, Iface)
			}
			dc := &Decl{Kind: pick(d, "kind", kinds), Name: d.name(i, pick(d, "typeName", typeName)), File: d.n("file", len(pk.Files))}
			pk.Decls = append(pk.Decls, dc)
		}
	}
	for i := range d.p.Pkgs {
		for k, dc := range d.p.Pkgs[i].Decls {
			d.fillDecl(i, k, dc)
		}
	}
	for i := range d.p.Pkgs {
		for _, dc := range d.p.Pkgs[i].Decls {
			dc.Grouped = d.chance("grouped", 4)
			d.fixInline(dc)
			if dc.Kind == SUnion {
				d.sunion(i, dc)
			}
			if dc.Kind == Union || dc.Kind == SUnion {
				d.fixUnion(dc)
			}
		}
	}
	d.failures()
	// services: in the first package, perhaps in another one, too
	nt := 1
	if o.Targets > 1 {
		nt = 1 + d.n("targets", o.Targets)
	}
	for ti := 0; ti < nt; ti++ {
		pi := 0
		if ti > 0 {
			pi = ti % np
		}
		if ti > 0 && pi == 0 {
			break
		}
		d.target(ti, pi)
	}
	if o.Configs {
		d.config()
	}
	d.p.TimeOut = ""
	if d.p.usesTime() {
		d.p.TimeOut = pick(d, "timeOut", []string{"out/", "ts/"}) + "time.ts"
	}
	return d.p
}

// base is the last element of the import path of a package.
func (d *drawer) base(pk *Pkg) string {
	path := d.p.Mod + "/" + pk.Dir
	if pk.Dir == "" {
		path = d.p.Mod
	}
	return path[strings.LastIndex(path, "/")+1:]
}

// config varies the configuration.
func (d *drawer) config() {
	for _, t := range d.p.Targets {
		if d.chance("noOut", 5) {
			t.Out = ""
		}
		subset := func(label string, l []string) []string {
			switch d.n(label, 4) {
			case 0:
				return l
			case 1:
				return nil
			}
			var out []string
			for _, s := range l {
				if d.chance(label+"In", 2) {
					out = append([]string{s}, out...)
				}
			}
			return out
		}
		t.TSRPC = subset("tsrpc", t.TSRPC)
		t.GoRPC = subset("gorpc", t.GoRPC)
		t.Skip = d.chance("skipClient", 3)
	}
	for i := range d.p.Pkgs {
		for _, x := range d.p.Pkgs[i].Decls {
			switch x.Kind {
			case Service, StructSvc:
				continue
			}
			if d.chance("extra", 8) {
				d.p.Extras = append(d.p.Extras, &Type{K: "ref", P: i, N: x.Name})
			}
		}
	}
	d.p.ConfigAt = pick(d, "configAt", []string{"", "", "conf", "a/b/conf"})
	d.p.Cwd = pick(d, "cwd", []string{"", "", "work", "work/in"})
	d.p.AbsMod = d.chance("absMod", 3)
	d.p.AbsOut = d.chance("absOut", 5)
}

func pickT[T any](t *rapid.T, label string, of []T) T {
	return of[rapid.IntRange(0, len(of)-1).Draw(t, label)]
}

// name returns a free identifier of package i.
func (d *drawer) name(i int, base string) string {
	n := base
	for k := 2; d.names[i][n]; k++ {
		n = base + strings.Repeat("Q", k-1)
	}
	d.names[i][n] = true
	return n
}

func (d *drawer) usedGen(i int, svc string) {
	for _, s := range []string{"GoTSRPCProxy", "GoTSRPCClient", "GoRPCProxy", "GoRPCClient"} {
		d.names[i][svc+s] = true
	}
}

// hidden is a field which does not leave Go: it is not exported, or ignored by json.
func (d *drawer) hidden() string {
	d.counter++
	all := []string{
		"hid%d func(a string, b ...int) (c error)", "hid%d chan<- struct{}", "hid%d [4]int", "hid%d map[[2]string]*struct{ A func() }",
		"hid%d interface{ Foo() string }", "hid%d complex128", "hid%d, hidB%[1]d string `json:\"name\"`", "größe%d int", "über%d, élan%[1]d string", "_x%d int", "_ struct{} // %d",
	}
	if !d.o.GoRPC {
		all = append(all, "Fn%d func() error `json:\"-\"`", "Ch%d chan int `json:\"-\"`", "Arr%d [2][]func() `json:\"-\" yaml:\"arr\"`")
	}
	return fmt.Sprintf(pick(d, "hiddenField", all), d.counter)
}

func (d *drawer) fillDecl(i, k int, dc *Decl) {
	switch dc.Kind {
	case Struct:
		nf := 1 + d.n("fields", 6)
		if d.chance("single", 7) {
			f := d.field(i, k, 1)
			f.Type, f.More, f.Override = &Type{K: "ptr", E: d.ptrElem(i, k)}, nil, ""
			dc.Fields = append(dc.Fields, f)
			return
		}
		if d.chance("hidden", 5) {
			for n := 1 + d.n("hiddenFields", 3); n > 0; n-- {
				dc.Hidden = append(dc.Hidden, d.hidden())
			}
		}
		for f := 0; f < nf; f++ {
			if f == 0 || !d.chance("inline", 8) || !d.addInline(i, k, dc) {
				dc.Fields = append(dc.Fields, d.field(i, k, 0))
			}
		}
	case Scalar:
		dc.Type = &Type{K: pick(d, "under", []string{"string", "int", "string", "float64", "int64", "uint8", "bool", "byte", "rune", "int8", "int16", "uint16", "int32", "uint32", "uint", "uint64", "float32", "float64"})}
		if dc.Type.K != "bool" && (d.o.EnumHeavy || d.o.UnionHeavy || d.chance("enum", 2)) {
			d.consts(i, dc)
		}
	case Slice:
		dc.Type = &Type{K: "slice", E: d.typ(i, k, 1)}
	case Map:
		dc.Type = &Type{K: "map", Key: d.keyType(i), E: d.typ(i, k, 1)}
	case Iface:
		dc.Type = &Type{K: pick(d, "anyDecl", []string{"any", "any2"})}
	case Union:
		// members: structs of this or another package with a greater index
		c := d.refs(i, k, func(x *Decl) bool { return x.Kind == Struct || (x.Kind == Union && d.o.NestUnions) })
		if len(c) == 0 {
			dc.Kind = Struct
			d.fillDecl(i, k, dc)
			return
		}
		n := 1 + d.n("members", 3)
		used := map[string]bool{}
		for f := 0; f < n; f++ {
			t := pick(d, "member", c)
			if used[fmt.Sprint(t.P, t.N)] {
				continue
			}
			used[fmt.Sprint(t.P, t.N)] = true
			dc.Fields = append(dc.Fields, d.unionField(t))
		}
	}
}

// fixUnion gives unions with one member a value, which has several fields:
// codec can not handle extensions for structs whose only field is a pointer
// (its interface of these is broken), no matter what gotsrpc makes of them.
func (d *drawer) fixUnion(dc *Decl) {
	if len(dc.Fields) != 1 {
		return
	}
	f := dc.Fields[0]
	if f.Type.K == "ptr" {
		f.Type = f.Type.E
	}
	if m := d.p.Find(f.Type.P, f.Type.N); m.Kind == Struct && len(m.Fields) < 2 {
		dc.Kind = Struct
		dc.Fields = []*Field{{Name: "None", Type: &Type{K: "string"}}}
	}
}

// failures makes some of the types errors. What they hold travels without its
// Go types in the msgpack encoding: the keys of maps have to be strings.
func (d *drawer) failures() {
	embedded := map[*Decl]bool{}
	for _, pk := range d.p.Pkgs {
		for _, dc := range pk.Decls {
			for _, f := range dc.Fields {
				if f.Inline {
					t := f.Type
					if t.K == "ptr" {
						t = t.E
					}
					embedded[d.p.Find(t.P, t.N)] = true
				}
			}
		}
	}
	for _, pk := range d.p.Pkgs {
		for _, dc := range pk.Decls {
			if !d.chance("failure", 5) {
				continue
			}
			switch dc.Kind {
			case Scalar:
				dc.Err = "value"
			case Struct:
				ok := !embedded[dc]
				for _, f := range dc.Fields {
					for _, n := range f.Names() {
						ok = ok && !f.Inline && n != "Error"
					}
				}
				if ok && d.untyped(dc, map[*Decl]bool{}) {
					dc.Err = pick(d, "receiver", []string{"ptr", "value"})
				}
			}
		}
	}
}

// untyped tells whether values can be sent without their Go types.
func (d *drawer) untyped(dc *Decl, seen map[*Decl]bool) (ok bool) {
	if seen[dc] {
		return true
	}
	seen[dc], ok = true, dc.Kind != Union && dc.Kind != SUnion
	WalkDecl(dc, func(t *Type) {
		switch {
		case t.K == "map":
			k := t.Key
			if k.K == "ref" {
				k = d.p.Find(k.P, k.N).Type
			}
			ok = ok && k.K == "string"
		case t.K == "ref":
			ok = ok && d.untyped(d.p.Find(t.P, t.N), seen)
		}
	})
	return ok
}

func (d *drawer) addInline(i, k int, dc *Decl) bool {
	c := d.refs(i, k, func(x *Decl) bool { return x.Kind == Struct })
	if len(c) == 0 {
		return false
	}
	t := pick(d, "inlined", c)
	if d.flat[dc] {
		return false
	}
	ft := t
	if d.chance("inlinePtr", 3) && !d.o.GoRPC {
		ft = &Type{K: "ptr", E: t}
		// a known finding: the codec does not encode such a nil pointer to a
		// struct which embeds another one
		d.flat[d.p.Find(t.P, t.N)] = true
	}
	dc.Fields = append(dc.Fields, &Field{Name: t.N, Type: ft, Inline: true, HasTag: true})
	return true
}

// embeds lists what a struct embeds, directly or not.
func (d *drawer) embeds(dc *Decl) (out []string) {
	for _, f := range dc.Fields {
		if f.Inline {
			t := f.Type
			if t.K == "ptr" {
				t = t.E
			}
			out = append(append(out, t.N), d.embeds(d.p.Find(t.P, t.N))...)
		}
	}
	return out
}

// fixInline drops embedded structs which clash with other ones.
func (d *drawer) fixInline(dc *Decl) {
	used := map[string]bool{}
	var keep []*Field
	for _, f := range dc.Fields {
		if f.Inline {
			clash := false
			names := d.embeds(&Decl{Fields: []*Field{f}})
			for _, n := range names {
				clash = clash || used[n]
			}
			if clash {
				continue
			}
			for _, n := range names {
				used[n] = true
			}
		}
		keep = append(keep, f)
	}
	dc.Fields = keep
}

var unionTags = []string{"", "", `gotsrpc:"union"`, `json:"%s,omitempty" gotsrpc:"union"`, `gotsrpc:"union" json:"%s"`, `json:"%s,omitempty" yaml:"-" gotsrpc:"union"`}

func (d *drawer) unionField(t *Type) *Field {
	d.counter++
	m := t
	if !d.chance("valueMember", 3) {
		m = &Type{K: "ptr", E: t}
	}
	f := &Field{Name: "M" + strconv.Itoa(d.counter), Type: m, Other: pick(d, "unionTag", unionTags)}
	if strings.Contains(f.Other, "%s") {
		f.Other = fmt.Sprintf(f.Other, lower(f.Name))
	}
	return f
}

// sunion fills a union of enums of this package or those with a greater index.
func (d *drawer) sunion(i int, dc *Decl) {
	var c []*Type
	for j := i; j < len(d.p.Pkgs); j++ {
		for _, x := range d.p.Pkgs[j].Decls {
			if x.IsEnum() {
				c = append(c, &Type{K: "ref", P: j, N: x.Name})
			}
		}
	}
	if len(c) == 0 {
		dc.Kind = Struct
		dc.Fields = []*Field{{Name: "None", Type: &Type{K: "string"}}}
		return
	}
	used := map[string]bool{}
	for n := 1 + d.n("enums", 3); n > 0; n-- {
		t := pick(d, "enumMember", c)
		if used[fmt.Sprint(t.P, t.N)] {
			continue
		}
		used[fmt.Sprint(t.P, t.N)] = true
		dc.Fields = append(dc.Fields, d.unionField(t))
	}
}

// refs lists references to declarations that may be embedded by value in
// declaration k of package i.
func (d *drawer) refs(i, k int, ok func(*Decl) bool) (out []*Type) {
	for j := i; j < len(d.p.Pkgs); j++ {
		for l, x := range d.p.Pkgs[j].Decls {
			if (j > i || l > k) && ok(x) {
				out = append(out, &Type{K: "ref", P: j, N: x.Name})
			}
		}
	}
	return out
}

func (d *drawer) field(i, k, depth int) *Field {
	d.counter++
	f := &Field{Name: pick(d, "field", fieldNm) + strconv.Itoa(d.counter)}
	f.Type = d.typ(i, k, depth)
	if d.o.Anon && !d.o.GoRPC && depth == 0 && d.chance("anon", 12) {
		a := &Type{K: "anon"}
		for n := 1 + d.n("anonFields", 3); n > 0; n-- {
			a.Fields = append(a.Fields, d.field(i, k, 2))
		}
		f.Type = a
		switch d.n("anonIn", 4) {
		case 1:
			f.Type = &Type{K: "ptr", E: a}
		case 2:
			f.Type = &Type{K: "slice", E: a}
		}
	}
	switch d.n("tag", 8) {
	case 0, 1:
	case 2:
		f.HasTag, f.JSON = true, lower(f.Name)
	case 3:
		f.HasTag, f.JSON, f.Omit = true, lower(f.Name), true
	case 4:
		f.HasTag, f.Omit = true, true
	case 5:
		f.HasTag = true
		f.JSON = pick(d, "jsonName", []string{"some-name", "snake_name", "$dollar", "with space", "dotted.name", "0zero", "class", "Ünicode", "UPPER", "a:b"}) + strconv.Itoa(d.counter)
	case 6:
		f.HasTag, f.Ignore = true, !d.o.GoRPC && d.chance("ignore", 2)
		if !f.Ignore {
			f.JSON = strings.ToLower(f.Name)
		}
		f.Other = `yaml:"` + lower(f.Name) + `,omitempty" bson:"-"`
	case 7:
		if d.chance("more", 2) {
			d.counter++
			f.More = []string{"Second" + strconv.Itoa(d.counter)}
		} else {
			f.Other = `validate:"required"`
		}
	}
	if f.HasTag && !f.Ignore && !d.o.GoRPC {
		switch d.n("tagOption", 12) {
		case 0:
			f.Option = pick(d, "option", []string{"zz", "string2", "x=y"})
		case 1:
			if depth < 2 && !d.dash && len(f.More) == 0 {
				d.dash = true
				f.JSON = "-"
			}
		}
	}
	if d.o.Override && d.chance("override", 10) {
		switch f.Type.K {
		case "string":
			f.Override = pick(d, "ov", []string{"type:string", "type:string | number", "type:any", "type:string | Record<string, number>", "type: Map<number,Array<string>> | string"})
		case "int", "int64", "float64":
			f.Override = pick(d, "ov", []string{"type:number", "type:number | null", "type:unknown"})
		}
	}
	return f
}

func lower(s string) string {
	_, n := utf8.DecodeRuneInString(s)
	return strings.ToLower(s[:n]) + s[n:]
}

// typ draws a type usable in declaration k of package i (k < 0: in a signature).
// depth 0: may be embedded by value; greater: behind a collection or pointer.
func (d *drawer) typ(i, k, depth int) *Type {
	max := 12
	if depth >= 3 {
		max = 7
	}
	switch x := d.n("type", max); x {
	case 0:
		return &Type{K: "string"}
	case 1:
		return &Type{K: "int"}
	case 2, 3:
		return &Type{K: pick(d, "basic", basics)}
	case 4, 5, 6:
		return d.ref(i, k, depth == 0)
	case 7:
		e := d.ptrElem(i, k)
		return &Type{K: "ptr", E: e}
	case 8:
		return &Type{K: "slice", E: d.typ(i, k, depth+1)}
	case 9:
		return &Type{K: "map", Key: d.keyType(i), E: d.typ(i, k, depth+1)}
	case 10:
		if !d.o.GoRPC && d.chance("bytePtrs", 6) {
			return &Type{K: "slice", E: &Type{K: "ptr", E: &Type{K: pick(d, "bytePtr", []string{"uint8", "byte"})}}}
		}
		return &Type{K: pick(d, "special", []string{"bytes", "time", "bytes", "time"})}
	default:
		if d.o.GoRPC {
			return &Type{K: "bytes"}
		}
		return &Type{K: pick(d, "any", []string{"any", "any2"})}
	}
}

func (d *drawer) ptrElem(i, k int) *Type {
	switch d.n("ptr", 5) {
	case 0:
		return &Type{K: pick(d, "basic", basics)}
	case 1:
		return &Type{K: "time"}
	default:
		// any struct or scalar, recursion included
		var c []*Type
		for j := i; j < len(d.p.Pkgs); j++ {
			for _, x := range d.p.Pkgs[j].Decls {
				if x.Kind == Struct || x.Kind == Scalar || x.Kind == Union || x.Kind == SUnion {
					c = append(c, &Type{K: "ref", P: j, N: x.Name})
				}
			}
		}
		if len(c) == 0 {
			return &Type{K: "string"}
		}
		return pick(d, "ptrTo", c)
	}
}

func (d *drawer) ref(i, k int, byValue bool) *Type {
	c := d.refs(i, k, func(x *Decl) bool { return x.Kind != Service && x.Kind != StructSvc })
	if len(c) == 0 {
		return &Type{K: pick(d, "basic", basics)}
	}
	return pick(d, "ref", c)
}

func (d *drawer) keyType(i int) *Type {
	if d.chance("namedKey", 3) {
		var c []*Type
		for j := i; j < len(d.p.Pkgs); j++ {
			for _, x := range d.p.Pkgs[j].Decls {
				if x.Kind == Scalar && x.Type != nil && (x.Type.K == "string" || x.Type.K == "int" || x.Type.K == "int64") {
					c = append(c, &Type{K: "ref", P: j, N: x.Name})
				}
			}
		}
		if len(c) > 0 {
			return pick(d, "keyRef", c)
		}
	}
	if d.chance("intKey", 3) {
		return &Type{K: pick(d, "int", ints)}
	}
	return &Type{K: "string"}
}

var strLits = []string{`"red"`, `"green"`, `""`, `"with space"`, `"ünï"`, `"quo\"te"`, `"back\\slash"`, `"tab\t"`, `"2"`, `"a.b/c-d"`, `"null"`, "`raw`", `"don't"`, `"<&>"`}
var rareStrLits = []string{"`raw \\n back`", `"\a"`, `"\U0001F600"`, `"\101"`, "`two\nlines`", "`dollar ${x}`", `"\x41"`, "`quote\"`"}
var intLits = []string{"0", "1", "2", "3", "42", "7", "100", "0x1F"}
var rareIntLits = []string{"0b11", "0o17", "1_000", "-1", "-20", "017", "+3", "'a'", "'\\n'"}
var floatLits = []string{"0.5", "1", "2.25", "1e3", ".5", "3"}
var rareFloatLits = []string{"-0.5", "1.", "0x1p-2", "1_0.5"}

// float is a literal of any length and size.
func (d *drawer) float() string {
	s := fmt.Sprintf("%d.%0*d", d.n("whole", 1000000), 1+d.n("digits", 14), d.n("fraction", 1<<40))
	if d.chance("exponent", 2) {
		s += fmt.Sprintf("e%+d", d.n("exp", 500)-250)
	}
	return s
}

func (d *drawer) consts(i int, dc *Decl) {
	n := 1 + d.n("consts", 5)
	lits, rare := strLits, rareStrLits
	switch dc.Type.K {
	case "int", "int64", "rune", "int32":
		lits, rare = intLits, rareIntLits
	case "int16":
		lits, rare = intLits, append([]string{"-32768", "32767"}, rareIntLits...)
	case "int8":
		lits, rare = intLits, []string{"0b11", "-128", "127", "-1", "+3", "'a'"}
	case "uint8", "byte", "uint16", "uint32", "uint", "uint64":
		lits, rare = intLits[:6], []string{"0b11", "0o17", "017", "'a'", "200"}
	case "float32":
		lits, rare = floatLits, rareFloatLits
	case "float64":
		lits, rare = floatLits, append([]string{d.float(), d.float(), d.float()}, rareFloatLits...)
	}
	if k := dc.Type.K; (k == "int64" || k == "uint64") && d.chance("large", 3) {
		rare = append([]string{"9007199254740991", "0xFFFFFFFFFFFF", "4294967296", strconv.Itoa(d.n("large", 1<<52))}, rare...)
	}
	base := dc.Name
	if strings.IndexFunc(base, func(r rune) bool { return r > 127 }) >= 0 {
		// letters outside of ASCII are left out of the names of members (a known finding)
		base = "Other"
	}
	members := map[string]bool{}
	usedLit := map[string]bool{}
	for k := 0; k < n; k++ {
		suffix := pick(d, "const", []string{"Red", "Green", "Blue", "HTTPError", "A", "Is_On", "X9y", "Other"})
		var nm string
		switch d.n("constName", 6) {
		case 0, 1:
			nm = base + suffix
		case 2:
			nm = suffix + base
		case 3:
			nm = strings.ToUpper(base) + "_" + strings.ToUpper(suffix)
		case 4:
			nm = base + "_" + suffix
		case 5:
			nm = base + strconv.Itoa(k+1)
		}
		if d.chance("lowerConst", 8) {
			nm = lower(nm)
		}
		m := Member(nm, dc.Name)
		if d.names[i][nm] || members[m] || m == "" {
			continue
		}
		lit := pick(d, "lit", lits)
		if d.chance("rareLit", 5) {
			lit = pick(d, "rare", rare)
		}
		if usedLit[lit] && !d.chance("sameValue", 3) {
			continue
		}
		usedLit[lit] = true
		members[m] = true
		d.names[i][nm] = true
		dc.Consts = append(dc.Consts, &Const{Name: nm, Lit: lit, Group: d.n("group", 8), File: d.n("constFile", len(d.p.Pkgs[i].Files))})
	}
}

// Member is the name of the enum member of a constant: camel-cased, without a leading type name.
func Member(constant, typ string) string {
	var sb strings.Builder
	up := true
	for _, r := range constant {
		switch {
		case r >= '0' && r <= '9':
			sb.WriteRune(r)
			up = true
		case r == '_':
			up = true
		default:
			if up {
				sb.WriteString(strings.ToUpper(string(r)))
			} else {
				sb.WriteRune(r)
			}
			up = false
		}
	}
	s := sb.String()
	if m := strings.TrimPrefix(s, typ); m != "" && (m[0] < '0' || m[0] > '9') {
		return m
	}
	return s
}

func (d *drawer) target(ti, pi int) {
	pk := d.p.Pkgs[pi]
	t := &Target{Name: "t" + strconv.Itoa(ti), Pkg: pi}
	t.Out = pick(d, "targetOut", []string{"out/", "ts/", "clients/x/"}) + "client" + strconv.Itoa(ti) + ".ts"
	ns := 1 + d.n("services", 2)
	if d.o.Configs {
		ns = 1 + d.n("moreServices", 4)
	}
	for s := 0; s < ns; s++ {
		dc := &Decl{Kind: Service, File: d.n("file", len(pk.Files))}
		dc.Name = d.name(pi, pick(d, "svc", svcNm))
		d.usedGen(pi, dc.Name)
		if d.o.StructSvc && d.chance("structSvc", 3) {
			dc.Kind = StructSvc
		}
		d.iface = dc.Kind == Service
		nm := 1 + d.n("methods", d.o.MaxMethod)
		used := map[string]bool{}
		for m := 0; m < nm; m++ {
			mn := pick(d, "method", methodNm)
			if d.o.RareNames && d.chance("rareMethod", 6) {
				mn = pick(d, "rareMethodName", rareMeth)
			}
			if used[mn] {
				mn += strconv.Itoa(m)
			}
			if used[mn] || d.names[pi][dc.Name+mn+"Request"] || d.names[pi][dc.Name+"GoTSRPCProxy"+mn] {
				continue
			}
			used[mn] = true
			if d.o.GoRPC {
				d.names[pi][dc.Name+mn+"Request"] = true
				d.names[pi][dc.Name+mn+"Response"] = true
			}
			d.names[pi][dc.Name+"GoTSRPCProxy"+mn] = true
			dc.Methods = append(dc.Methods, d.method(pi, mn))
		}
		dc.Grouped = d.chance("grouped", 5)
		if dc.Kind == StructSvc {
			spread := d.chance("spread", 2)
			for _, m := range dc.Methods {
				if m.File = dc.File; spread {
					m.File = d.n("methodFile", len(pk.Files))
				}
			}
			if d.chance("hiddenMethods", 3) {
				dc.Hidden = []string{pick(d, "hiddenMethod", []string{"get", "übersetzt", "_Load", "élan", "x"})}
			}
		}
		pk.Decls = append(pk.Decls, dc)
		ep := pick(d, "endpoint", []string{"/service", "/api/v1", "/", "/a.b/c-d", "/Service", "/x/y/z"})
		if ep == "/" {
			ep = "/s"
		}
		ep += strconv.Itoa(ti) + strconv.Itoa(s)
		if d.o.Configs || d.o.RareNames {
			ep += pick(d, "endpointEnd", []string{"", "", "", "", "/", "//", "/-", "/B_c~d"})
		}
		t.Services = append(t.Services, Bound{ep, dc.Name})
		t.TSRPC = append(t.TSRPC, dc.Name)
		if d.o.GoRPC {
			t.GoRPC = append(t.GoRPC, dc.Name)
		}
	}
	t.Skip = d.o.SkipClients && d.chance("skip", 4)
	d.p.Targets = append(d.p.Targets, t)
}

func (d *drawer) method(pi int, name string) *Method {
	m := &Method{Name: name, Ctx: d.chance("ctx", 4)}
	used := map[string]bool{"w": m.Ctx, "r": m.Ctx, "zz": true, "zzOut": true}
	draw := func(label string, max int, named bool) (out []*Param) {
		n := d.n(label, max)
		for k := 0; k < n; k++ {
			q := &Param{Type: d.typ(pi, -1, 0)}
			if named {
				q.Name = pick(d, "param", paramNm)
				if d.o.RareNames && d.chance("rareParam", 3) {
					q.Name = pick(d, "rare", rareNm)
				}
				lowerKey := strings.ToLower(q.Name)
				if used[q.Name] || used[lowerKey] {
					q.Name += strconv.Itoa(k) + label[:1]
				}
				used[q.Name] = true
				used[strings.ToLower(q.Name)] = true
			}
			out = append(out, q)
		}
		for k := 0; k+1 < len(out); k++ {
			if named && d.chance("join", 5) {
				out[k].Type, out[k].Join = out[k+1].Type, true
				// the next one may have been joined, too: keep types equal
			}
		}
		for k := len(out) - 2; k >= 0; k-- {
			if out[k].Join {
				out[k].Type = out[k+1].Type
			}
		}
		return out
	}
	m.Args = draw("args", 5, true)
	m.Rets = draw("rets", 4, d.n("named", 3) > 0)
	if len(m.Rets) > 0 && !m.Rets[0].Join && d.chance("concreteError", 4) {
		if c := d.refs(pi, -1, func(x *Decl) bool { return x.Err != "" }); len(c) > 0 {
			m.Rets[0].Type = pick(d, "failureType", c)
			if d.n("failurePtr", 3) > 0 {
				m.Rets[0].Type = &Type{K: "ptr", E: m.Rets[0].Type}
			}
		}
	}
	// a method and a result whose names make up one of those the generated code uses
	for mn, rn := range map[string]string{"Execution": "start", "Call": "stats", "Func": "name"} {
		if len(m.Rets) > 0 && m.Rets[0].Name != "" && strings.HasPrefix(name, mn) && !used[rn] {
			delete(used, m.Rets[0].Name)
			m.Rets[0].Name, used[rn] = rn, true
		}
	}
	if d.o.Errors && d.chance("error", 3) {
		q := &Param{Type: &Type{K: "error"}}
		if len(m.Rets) > 0 && m.Rets[0].Name != "" || len(m.Rets) == 0 && d.chance("namedErr", 2) {
			q.Name = "err"
			if used["err"] {
				q.Name = "failure"
			}
		}
		m.Rets = append(m.Rets, q)
	}
	d.unnamed(m)
	return m
}

// unnamed takes names away from parameters and results of methods.
func (d *drawer) unnamed(m *Method) {
	if !d.o.RareNames {
		return
	}
	unused := func(name string) string {
		for again := true; again; {
			again = false
			for _, q := range append(append([]*Param{}, m.Args...), m.Rets...) {
				if q.Name == name {
					name, again = name+"_", true
				}
			}
		}
		return name
	}
	off := 0
	if m.Ctx {
		off = 2
	}
	for _, q := range m.Rets {
		if q.Name != "" && d.chance("blankRet", 24) {
			q.Blank, q.Name = true, ""
		}
	}
	if d.iface && d.chance("bare", 8) {
		m.Bare = true
		for _, q := range m.Args {
			q.Name = ""
		}
		for i, q := range m.Args {
			q.Name = unused("arg" + strconv.Itoa(i+off))
		}
	}
	for _, q := range m.Args {
		if !m.Bare && d.iface && d.chance("blankArg", 16) {
			q.Blank, q.Name = true, ""
		}
	}
	for i, q := range m.Args {
		if q.Blank {
			q.Name = unused("arg" + strconv.Itoa(i+off))
		}
	}
	for i, q := range m.Rets {
		if q.Blank {
			n := "ret"
			if i > 0 {
				n += "_" + strconv.Itoa(i)
			}
			q.Name = unused(n)
		}
	}
}

func (p *Program) usesTime() bool {
	found := false
	p.Walk(func(t *Type) {
		if t.K == "time" {
			found = true
		}
	})
	return found
}

// Walk visits every type expression.
func (p *Program) Walk(f func(t *Type)) {
	for _, pk := range p.Pkgs {
		for _, dc := range pk.Decls {
			WalkDecl(dc, f)
		}
	}
}

// WalkDecl visits the type expressions of a declaration.
func WalkDecl(dc *Decl, f func(t *Type)) {
	WalkType(dc.Type, f)
	for _, x := range dc.Fields {
		WalkType(x.Type, f)
	}
	for _, m := range dc.Methods {
		for _, q := range append(append([]*Param{}, m.Args...), m.Rets...) {
			WalkType(q.Type, f)
		}
	}
}

// WalkType visits a type expression.
func WalkType(t *Type, f func(t *Type)) {
	if t == nil {
		return
	}
	f(t)
	WalkType(t.E, f)
	WalkType(t.Key, f)
	for _, x := range t.Fields {
		WalkType(x.Type, f)
	}
}
