package ir

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// tsRef is a reference to a generated type.
func (p *Program) tsRef(pkg int, name string) string {
	return fmt.Sprintf("import(%q).%s", "./"+strings.TrimSuffix(p.Pkgs[pkg].Out, ".ts"), name)
}

// TS says which TypeScript type the JSON of a Go type has; nullable: unless
// omitempty keeps nil away.
func (p *Program) TS(t *Type, nullable bool) string {
	null := func(s string) string {
		if nullable {
			return s + " | null"
		}
		return s
	}
	switch t.K {
	case "string":
		return "string"
	case "bool":
		return "boolean"
	case "any", "any2", "error":
		return "any"
	case "bytes":
		return null("string")
	case "time":
		return "number"
	case "ptr":
		return null(p.TS(t.E, false))
	case "slice":
		if t.E.K == "uint8" || t.E.K == "byte" {
			return null("string")
		}
		return null("Array<" + p.TS(t.E, true) + ">")
	case "map":
		return null("Record<" + p.TS(t.Key, true) + ", " + p.TS(t.E, true) + ">")
	case "anon":
		s := "{ "
		for _, f := range t.Fields {
			s += p.tsField(f)
		}
		return s + "}"
	case "ref":
		d := p.Find(t.P, t.N)
		switch d.Kind {
		case Slice, Map:
			return null(p.tsRef(t.P, t.N))
		}
		return p.tsRef(t.P, t.N)
	}
	return "number"
}

func (p *Program) tsField(f *Field) string {
	if f.Ignore {
		return ""
	}
	s := ""
	for _, n := range f.Names() {
		if f.HasTag && f.JSON != "" {
			n = f.JSON
		}
		s += strconv.Quote(n)
		if f.Omit {
			s += "?"
		}
		typ := p.TS(f.Type, !f.Omit)
		if strings.HasPrefix(f.Override, "type:") {
			typ = strings.TrimSpace(strings.TrimPrefix(f.Override, "type:"))
		}
		s += ": " + typ + "; "
	}
	return s
}

// IsEnum says whether a declaration becomes an enum.
func (d *Decl) IsEnum() bool { return d.Kind == Scalar && len(d.Consts) > 0 }

// Member values of an enum as they are at run time.
func (d *Decl) EnumValues() map[string]interface{} {
	out := map[string]interface{}{}
	for _, k := range d.Consts {
		var v constant.Value
		lit, neg := k.Lit, false
		if lit[0] == '-' || lit[0] == '+' {
			neg = lit[0] == '-'
			lit = lit[1:]
		}
		kind := token.INT
		switch {
		case lit[0] == '"' || lit[0] == '`':
			kind = token.STRING
		case lit[0] == '\'':
			kind = token.CHAR
		case strings.ContainsAny(lit, ".p") || (!strings.HasPrefix(lit, "0x") && strings.Contains(lit, "e")):
			kind = token.FLOAT
		}
		v = constant.MakeFromLiteral(lit, kind, 0)
		if neg {
			v = constant.UnaryOp(token.SUB, v, 0)
		}
		if v.Kind() == constant.String {
			out[Member(k.Name, d.Name)] = constant.StringVal(v)
		} else {
			f, _ := constant.Float64Val(constant.ToFloat(v))
			out[Member(k.Name, d.Name)] = f
		}
	}
	return out
}

// Reachable lists the declarations the services reach, in order.
func (p *Program) Reachable() (out []*Type) {
	return p.ReachableFrom(p.Services(), p.Extras)
}

// ReachableFrom lists the declarations some services and types reach.
func (p *Program) ReachableFrom(svcs []SvcRef, types []*Type) (out []*Type) {
	done := map[string]bool{}
	var visit func(t *Type)
	visit = func(t *Type) {
		if t == nil || t.K != "ref" {
			return
		}
		key := strconv.Itoa(t.P) + "." + t.N
		if done[key] {
			return
		}
		done[key] = true
		out = append(out, &Type{K: "ref", P: t.P, N: t.N})
		d := p.Find(t.P, t.N)
		WalkType(d.Type, visit)
		for _, f := range d.Fields {
			if !f.Ignore {
				WalkType(f.Type, visit)
			}
		}
	}
	for _, t := range types {
		visit(t)
	}
	for _, s := range svcs {
		for _, m := range s.Decl.Methods {
			for _, q := range append(append([]*Param{}, m.Args...), m.Rets...) {
				WalkType(q.Type, visit)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].P != out[j].P {
			return out[i].P < out[j].P
		}
		return out[i].N < out[j].N
	})
	return out
}

// TSReference is the independently stated type of a declaration, to be
// compared with the flattened generated one.
func (p *Program) TSReference(r *Type) string {
	d := p.Find(r.P, r.N)
	switch d.Kind {
	case Struct:
		own := "{ "
		var bases []string
		for _, f := range d.Fields {
			if f.Inline {
				t, b := f.Type, ""
				if t.K == "ptr" {
					b = "Partial<" + p.tsRef(t.E.P, t.E.N) + ">"
				} else {
					b = p.tsRef(t.P, t.N)
				}
				bases = append(bases, b)
				continue
			}
			own += p.tsField(f)
		}
		own += "}"
		return strings.Join(append([]string{own}, bases...), " & ")
	case Slice, Map:
		return p.TS(d.Type, false)
	case Scalar, Iface:
		return p.TS(d.Type, false)
	case Union:
		var parts []string
		undef := false
		for _, f := range d.Fields {
			t := f.Type
			if t.K == "ptr" {
				undef = true
				t = t.E
			}
			parts = append(parts, p.tsRef(t.P, t.N))
		}
		if undef {
			parts = append(parts, "undefined")
		}
		return strings.Join(parts, " | ")
	}
	return "never"
}

// TSAssertion is one line of the check file with what it is about.
type TSAssertion struct {
	About string
	Line  string
}

// TSHead are the helpers of the check file (one line).
const TSHead = `type Same<X, Y> = (<T>() => T extends X ? 1 : 2) extends (<T>() => T extends Y ? 1 : 2) ? true : false; type Flat<T> = T extends object ? { [K in keyof T]: T[K] } : T;`

// TSCheck makes the type-level assertions about the generated files.
func (p *Program) TSCheck() (out []TSAssertion) {
	for i, r := range p.Reachable() {
		d := p.Find(r.P, r.N)
		if d.IsEnum() {
			continue // decided at run time
		}
		if d.Kind == SUnion {
			out = append(out, TSAssertion{About: fmt.Sprintf("%s %s.%s", d.Kind, p.Path(r.P), r.N), Line: p.tsMerged(i, r)})
			continue
		}
		gen, ref := p.tsRef(r.P, r.N), p.TSReference(r)
		if d.Kind == Struct {
			gen, ref = "Flat<"+gen+">", "Flat<"+ref+">"
		}
		out = append(out, TSAssertion{
			About: fmt.Sprintf("%s %s.%s", d.Kind, p.Path(r.P), r.N),
			Line:  fmt.Sprintf("export const t%d: Same<%s, %s> = true;", i, gen, ref),
		})
	}
	for i, s := range p.Services() {
		if s.Target.Out == "" || (len(s.Target.TSRPC) > 0 && !has(s.Target.TSRPC, s.Decl.Name)) {
			continue
		}
		cl := fmt.Sprintf("import(%q).%sClient", "./"+strings.TrimSuffix(s.Target.Out, ".ts"), s.Decl.Name)
		keys := []string{`"transport"`}
		for j, m := range s.Decl.Methods {
			keys = append(keys, strconv.Quote(TSMethod(m.Name)))
			out = append(out, TSAssertion{
				About: fmt.Sprintf("client method %s.%s", s.Decl.Name, m.Name),
				Line:  fmt.Sprintf("export const m%d_%d: Same<%s[%q], %s> = true;", i, j, cl, TSMethod(m.Name), p.tsSignature(m)),
			})
		}
		out = append(out, TSAssertion{
			About: fmt.Sprintf("client %s", s.Decl.Name),
			Line:  fmt.Sprintf("export const k%d: Same<keyof %s, %s> = true;", i, cl, strings.Join(keys, " | ")),
		})
	}
	return out
}

// UnionMembers are the types of the members of a union, in order.
func (d *Decl) UnionMembers() (out []*Type) {
	for _, f := range d.Fields {
		t := f.Type
		if t.K == "ptr" {
			t = t.E
		}
		out = append(out, t)
	}
	return out
}

// tsMerged says that a union of enums is the merged enums, as a value and as a type.
func (p *Program) tsMerged(i int, r *Type) string {
	line := ""
	imp := func(k int) string {
		name := fmt.Sprintf("z%d_%d", i, k)
		if stmt := fmt.Sprintf("import * as %s from %q; ", name, "./"+strings.TrimSuffix(p.Pkgs[k].Out, ".ts")); !strings.Contains(line, stmt) {
			line = stmt + line
		}
		return name
	}
	merged := ""
	for _, t := range p.Find(r.P, r.N).UnionMembers() {
		merged += "..." + imp(t.P) + "." + t.N + ", "
	}
	u := imp(r.P) + "." + r.N
	return line + fmt.Sprintf("const m%d = { %s}; export const t%d: Same<typeof %s, typeof m%d> = true; export const u%d: Same<%s, typeof m%d> = true;", i, merged, i, u, i, i, u, i)
}

// TSMethod is the TypeScript name of a method.
func TSMethod(name string) string {
	_, n := utf8.DecodeRuneInString(name)
	return strings.ToLower(name[:n]) + name[n:]
}

func (p *Program) tsSignature(m *Method) string {
	var args []string
	for i, a := range m.Args {
		args = append(args, "a"+strconv.Itoa(i)+": "+p.TS(a.Type, true))
	}
	return "(" + strings.Join(args, ", ") + ") => Promise<" + p.TSResult(m) + ">"
}

// TSResult is what the promise of a method resolves to.
func (p *Program) TSResult(m *Method) string {
	switch len(m.Rets) {
	case 0:
		return "void"
	case 1:
		return p.TS(m.Rets[0].Type, true)
	}
	s := "{ "
	names := m.RetNames()
	for i, r := range m.Rets {
		s += strconv.Quote(names[i]) + ": " + p.TS(r.Type, true) + "; "
	}
	return s + "}"
}
