package ir

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// RetNames are the names results have in a TypeScript answer.
func (m *Method) RetNames() (out []string) {
	for i, r := range m.Rets {
		switch {
		case r.Name != "":
			out = append(out, r.Name)
		case i == 0:
			out = append(out, "ret")
		default:
			out = append(out, "ret_"+strconv.Itoa(i))
		}
	}
	return out
}

// SvcRef is a service of a target.
type SvcRef struct {
	Target   *Target
	Pkg      int
	Decl     *Decl
	Endpoint string
}

// Services lists the services in the order the driver numbers them.
func (p *Program) Services() (out []SvcRef) {
	for _, t := range p.Targets {
		for _, b := range t.Services {
			out = append(out, SvcRef{t, t.Pkg, p.Find(t.Pkg, b.Service), b.Endpoint})
		}
	}
	return out
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// Driver renders the main package that serves the generated code to the harness.
func (p *Program) Driver() string {
	f := &File{Alias: map[string]string{"time": "zztime", "http": "zzhttp"}}
	for i := range p.Pkgs {
		f.Alias[strconv.Itoa(i)] = "p" + strconv.Itoa(i)
	}
	c := &fileCtx{p: p, pkg: -1, f: f, used: map[string]bool{"drv": true, "http": true}}
	var body, mocks strings.Builder
	body.WriteString("func main() {\n")
	for i, pk := range p.Pkgs {
		for _, d := range pk.Decls {
			if len(d.Consts) > 0 {
				fmt.Fprintf(&body, "\tval.Enums[%q] = []interface{}{", p.Path(i)+"."+d.Name)
				for _, k := range d.Consts {
					fmt.Fprintf(&body, "%s.%s(%s), ", c.qual(strconv.Itoa(i)), d.Name, k.Lit)
				}
				body.WriteString("}\n")
			}
		}
	}
	body.WriteString("\tdrv.Main([]*drv.Svc{\n")
	for i, s := range p.Services() {
		q := c.qual(strconv.Itoa(s.Pkg))
		name := s.Decl.Name
		impl := q + "." + name
		service := "*" + impl
		if s.Decl.Kind == Service {
			impl = "mock" + strconv.Itoa(i)
			service = q + "." + name
			fmt.Fprintf(&mocks, "type %s struct{ Fn drv.Fn }\n\n", impl)
			for _, m := range s.Decl.Methods {
				body, helper := c.mockBody(impl, m)
				fmt.Fprintf(&mocks, "func (zz *%s) %s {\n%s}\n\n%s", impl, c.signature(m, false), body, helper)
			}
		}
		fmt.Fprintf(&body, "\t\t{Package: %q, Name: %q, Endpoint: %q,\n", p.Path(s.Pkg), name, s.Endpoint)
		if len(s.Target.TSRPC) > 0 && has(s.Target.TSRPC, name) {
			fmt.Fprintf(&body, "\t\t\tProxy: func(fn drv.Fn) zzhttp.Handler { return %s.NewDefault%sGoTSRPCProxy(&%s{Fn: fn}) },\n", q, name, impl)
			if !s.Target.Skip {
				fmt.Fprintf(&body, "\t\t\tClient: func(url string, c *zzhttp.Client) interface{} { x := %s.NewDefault%sGoTSRPCClient(url); y := %s.New%sGoTSRPCClientWithClient(url, x.EndPoint, c); var _ %s.%sGoTSRPCClient = y; return y },\n", q, name, q, name, q, name)
				fmt.Fprintf(&body, "\t\t\tSetJSON: func(c interface{}) { c.(*%s.HTTP%sGoTSRPCClient).Client.SetClientEncoding(gotsrpc.EncodingJson) },\n", q, name)
			}
		}
		if has(s.Target.GoRPC, name) {
			fmt.Fprintf(&body, "\t\t\tRPC: func(addr string, fn drv.Fn) drv.RPCServer { return %s.New%sGoRPCProxy(addr, &%s{Fn: fn}, nil) },\n", q, name, impl)
			fmt.Fprintf(&body, "\t\t\tRPCClient: func(addr string) drv.RPCClient { return %s.New%sGoRPCClient(addr, nil) },\n", q, name)
		}
		body.WriteString("\t\t\tMethods: []drv.Method{\n")
		for _, m := range s.Decl.Methods {
			fmt.Fprintf(&body, "\t\t\t\t{Name: %q, Ctx: %v, Func: (%s).%s, Rets: %#v},\n", m.Name, m.Ctx, service, m.Name, m.RetNames())
		}
		body.WriteString("\t\t\t}},\n")
	}
	body.WriteString("\t})\n}\n\n")
	head := "package main\n\nimport (\n\tzzhttp \"net/http\"\n\t\"github.com/foomo/gotsrpc/v2\"\n\t\"verif/harness/drv\"\n\t\"verif/harness/val\"\n"
	var used []string
	for k := range c.used {
		used = append(used, k)
	}
	sort.Strings(used)
	for _, k := range used {
		switch k {
		case "drv", "http":
		case "time":
			head += "\tzztime \"time\"\n"
		default:
			n, _ := strconv.Atoi(k)
			head += "\tp" + k + " " + strconv.Quote(p.Path(n)) + "\n"
		}
	}
	head += ")\n\nvar _ = gotsrpc.EncodingJson\nvar _ = val.Enums\nvar _ zzhttp.Handler\n\n"
	return head + mocks.String() + body.String()
}
