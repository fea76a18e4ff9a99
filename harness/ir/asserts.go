package ir

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Asserts renders a package which compiles only if the generated code offers
// what it has to for every service of the targets.
func (p *Program) Asserts() string {
	f := &File{Alias: map[string]string{"time": "zztime", "http": "zzhttp"}}
	for i := range p.Pkgs {
		f.Alias[strconv.Itoa(i)] = "p" + strconv.Itoa(i)
	}
	c := &fileCtx{p: p, pkg: -1, f: f, used: map[string]bool{}}
	var sb strings.Builder
	types := func(ps []*Param) string {
		var l []string
		for _, q := range ps {
			l = append(l, c.goType(q.Type))
		}
		return strings.Join(l, ", ")
	}
	list := func(l ...string) string {
		var o []string
		for _, s := range l {
			if s != "" {
				o = append(o, s)
			}
		}
		return strings.Join(o, ", ")
	}
	for i, s := range p.Services() {
		q := c.qual(strconv.Itoa(s.Pkg))
		name := s.Decl.Name
		service := q + "." + name
		if s.Decl.Kind == StructSvc {
			service = "*" + service
		}
		line := func(format string, args ...interface{}) { fmt.Fprintf(&sb, format+"\n", args...) }
		if has(s.Target.TSRPC, name) {
			line("var _ zzhttp.Handler = (*%s.%sGoTSRPCProxy)(nil)", q, name)
			line("var _ func(%s) *%s.%sGoTSRPCProxy = %s.NewDefault%sGoTSRPCProxy", service, q, name, q, name)
			line("var _ func(%s, string) *%s.%sGoTSRPCProxy = %s.New%sGoTSRPCProxy", service, q, name, q, name)
		}
		if has(s.Target.TSRPC, name) && !s.Target.Skip {
			client := q + "." + name + "GoTSRPCClient"
			line("var _ %s = (*%s.HTTP%sGoTSRPCClient)(nil)", client, q, name)
			line("var _ func(string) *%s.HTTP%sGoTSRPCClient = %s.NewDefault%sGoTSRPCClient", q, name, q, name)
			line("var _ func(string, string) *%s.HTTP%sGoTSRPCClient = %s.New%sGoTSRPCClient", q, name, q, name)
			line("var _ func(string, string, *zzhttp.Client) *%s.HTTP%sGoTSRPCClient = %s.New%sGoTSRPCClientWithClient", q, name, q, name)
			line("type tsrpc%d interface {", i)
			for _, m := range s.Decl.Methods {
				line("\t%s(%s) (%s)", m.Name, list("zzcontext.Context", types(m.Args)), list(types(m.Rets), "error"))
			}
			line("}")
			line("var _ %s = tsrpc%d(nil)", client, i)
			line("var _ tsrpc%d = %s(nil)", i, client)
		}
		if has(s.Target.GoRPC, name) {
			line("var _ func(string, %s, *zztls.Config) *%s.%sGoRPCProxy = %s.New%sGoRPCProxy", service, q, name, q, name)
			line("var _ func(string, *zztls.Config) *%s.%sGoRPCClient = %s.New%sGoRPCClient", q, name, q, name)
			line("type gorpc%d interface {\n\tStart()\n\tStop()", i)
			for _, m := range s.Decl.Methods {
				line("\t%s(%s) (%s)", m.Name, types(m.Args), list(types(m.Rets), "error"))
			}
			line("}")
			line("var _ gorpc%d = (*%s.%sGoRPCClient)(nil)", i, q, name)
		}
	}
	head := "package zzasserts\n\nimport (\n\tzzcontext \"context\"\n\tzztls \"crypto/tls\"\n\tzzhttp \"net/http\"\n"
	var used []string
	for k := range c.used {
		used = append(used, k)
	}
	sort.Strings(used)
	for _, k := range used {
		switch k {
		case "http":
		case "time":
			head += "\tzztime \"time\"\n"
		default:
			n, _ := strconv.Atoi(k)
			head += "\tp" + k + " " + strconv.Quote(p.Path(n)) + "\n"
		}
	}
	return head + ")\n\nvar _ zzcontext.Context\nvar _ zztls.Config\nvar _ zzhttp.Handler\n\n" + sb.String()
}

// GoOutputs are the generated Go files the configuration asks for, below the
// module root, with the services each is to contain.
func (p *Program) GoOutputs() map[string][]string {
	out := map[string][]string{}
	for _, t := range p.Targets {
		dir := p.Pkgs[t.Pkg].Dir
		pick := func(list []string) (l []string) {
			for _, b := range t.Services {
				if has(list, b.Service) {
					l = append(l, b.Service)
				}
			}
			sort.Strings(l)
			return l
		}
		if len(t.TSRPC) > 0 {
			out[join(dir, "gotsrpc_gen.go")] = pick(t.TSRPC)
			if !t.Skip {
				out[join(dir, "gotsrpcclient_gen.go")] = pick(t.TSRPC)
			}
		}
		if len(t.GoRPC) > 0 {
			out[join(dir, "gorpc_gen.go")] = pick(t.GoRPC)
			out[join(dir, "gorpcclient_gen.go")] = pick(t.GoRPC)
		}
	}
	return out
}

// GoRPCable says whether gob transports everything the services use.
func (p *Program) GoRPCable() bool {
	for _, t := range p.Targets {
		if len(t.GoRPC) > 0 {
			return true
		}
	}
	return false
}
