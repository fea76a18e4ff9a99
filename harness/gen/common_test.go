// Package gen checks the generator through programs made for it.
package gen

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"verif/harness/drv"
	"verif/harness/ir"
	"verif/harness/vr"
)

func env(name string) string {
	v := os.Getenv(name)
	if v == "" {
		vr.Abort("%s is not set", name)
	}
	return v
}

const genTimeout = 120 * time.Second

var dirCount int

// newDir makes a scratch directory.
func newDir() string {
	dirCount++
	d := filepath.Join(env("VERIF_SCRATCH"), fmt.Sprintf("w%d", dirCount))
	if err := os.RemoveAll(d); err != nil {
		vr.Abort("%v", err)
	}
	if err := os.MkdirAll(d, 0o755); err != nil {
		vr.Abort("%v", err)
	}
	return d
}

func write(root string, files map[string]string) {
	for name, content := range files {
		f := filepath.Join(root, name)
		if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
			vr.Abort("%v", err)
		}
		if err := os.WriteFile(f, []byte(content), 0o644); err != nil {
			vr.Abort("%v", err)
		}
	}
}

type procResult struct {
	Code    int
	Out     string // both streams
	Timeout bool
}

// run executes a command in its own process group.
func run(dir string, timeout time.Duration, extraEnv []string, name string, args ...string) procResult {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), extraEnv...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	r := procResult{Out: out.String()}
	if ctx.Err() != nil {
		r.Timeout = true
		r.Code = -1
		return r
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			r.Code = ee.ExitCode()
			if r.Code < 0 {
				vr.Abort("%s was killed: %s", name, clip(r.Out))
			}
			return r
		}
		vr.Abort("%s: %v", name, err)
	}
	return r
}

// generate runs the generator.
func generate(dir string, args ...string) procResult {
	return run(dir, 120*time.Second, nil, env("VERIF_GEN"), args...)
}

func goCmd(dir string, args ...string) procResult {
	return run(dir, 400*time.Second, nil, "go", args...)
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}

var (
	modTail string
	goSum   string
)

// modFile is the go.mod of a program.
func modFile(mod string) string {
	if modTail == "" {
		b, err := os.ReadFile(filepath.Join(env("VERIF_HARNESS"), "go.mod"))
		if err != nil {
			vr.Abort("%v", err)
		}
		s := string(b)
		i := strings.Index(s, "require (")
		s = s[i:]
		modTail = strings.Replace(s, "require (", "require (\n\tverif/harness v0.0.0", 1)
		modTail += "\nreplace verif/harness => " + env("VERIF_HARNESS") + "\n"
		sum, err := os.ReadFile(filepath.Join(env("VERIF_HARNESS"), "go.sum"))
		if err != nil {
			vr.Abort("%v", err)
		}
		goSum = string(sum)
	}
	return "module " + mod + "\n\ngo 1.23.0\n\n" + modTail
}

// lay writes a program as a module and returns its directory.
func lay(p *ir.Program) string {
	root := newDir()
	write(root, p.Source())
	write(root, map[string]string{"go.mod": modFile(p.Mod), "go.sum": goSum, p.ConfigFile(): p.Config(root)})
	if err := os.MkdirAll(filepath.Join(root, p.Cwd), 0o755); err != nil {
		vr.Abort("%v", err)
	}
	return root
}

// ---- drivers ----

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
}

func start(dir, name string, args ...string) *proc {
	p := &proc{cmd: exec.Command(name, args...), err: &bytes.Buffer{}}
	p.cmd.Dir = dir
	p.cmd.Stderr = &limited{p.err}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		vr.Abort("%v", err)
	}
	so, err := p.cmd.StdoutPipe()
	if err != nil {
		vr.Abort("%v", err)
	}
	p.out = bufio.NewReaderSize(so, 1<<20)
	if err := p.cmd.Start(); err != nil {
		vr.Abort("%v", err)
	}
	return p
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (p *proc) stop() {
	_ = p.in.Close()
	_ = syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
	_ = p.cmd.Wait()
}

// ask sends one request; dead says that the process ended or does not answer.
func (p *proc) ask(req, resp interface{}) (dead string) {
	b, err := json.Marshal(req)
	if err != nil {
		vr.Abort("%v", err)
	}
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		return "write: " + err.Error() + "\n" + p.err.String()
	}
	type line struct {
		b   []byte
		err error
	}
	ch := make(chan line, 1)
	go func() {
		l, err := p.out.ReadBytes('\n')
		ch <- line{l, err}
	}()
	select {
	case l := <-ch:
		if l.err != nil {
			time.Sleep(50 * time.Millisecond)
			return "the process ended: " + l.err.Error() + "\n" + p.err.String()
		}
		if err := json.Unmarshal(l.b, resp); err != nil {
			vr.Abort("answer %q: %v", clip(string(l.b)), err)
		}
		return ""
	case <-time.After(180 * time.Second):
		return "no answer within 180 s"
	}
}

// built is a generated, compiled and running program.
type built struct {
	key    string
	root   string
	prog   *ir.Program
	gen    procResult
	fail   vr.Result // of generation or compilation
	driver *proc
	bin    string
}

var cache []*built

// genOnly lays out a program and runs the generator, keeping recent results.
func genOnly(p *ir.Program) *built {
	raw, err := json.Marshal(p)
	if err != nil {
		vr.Abort("%v", err)
	}
	sum := sha256.Sum256(raw)
	key := hex.EncodeToString(sum[:])
	for i, b := range cache {
		if b.key == key {
			cache = append(append(cache[:i:i], cache[i+1:]...), b)
			return b
		}
	}
	for len(cache) > 3 {
		old := cache[0]
		cache = cache[1:]
		if old.driver != nil {
			old.driver.stop()
		}
		_ = os.RemoveAll(old.root)
	}
	b := &built{key: key, prog: p}
	b.root = lay(p)
	b.gen = b.generate()
	cache = append(cache, b)
	switch {
	case b.gen.Timeout:
		b.fail = vr.Failf("the generator hangs", "%s", clip(b.gen.Out))
	case b.gen.Code != 0 && panicked(b.gen.Out):
		b.fail = vr.Failf("the generator panics", "%s", clip(b.gen.Out))
	case b.gen.Code != 0:
		b.fail = vr.Failf("the generator fails for a supported program", "exit %d\n%s", b.gen.Code, clip(b.gen.Out))
	}
	return b
}

// generate runs the generator on the program where it lies.
func (b *built) generate(args ...string) procResult {
	conf, err := filepath.Rel(filepath.Join(b.root, b.prog.Cwd), filepath.Join(b.root, b.prog.ConfigFile()))
	if err != nil {
		vr.Abort("%v", err)
	}
	return generate(filepath.Join(b.root, b.prog.Cwd), append(args, conf)...)
}

func panicked(out string) bool {
	return strings.Contains(out, "panic: ") || strings.Contains(out, "goroutine 1 [")
}

// withDriver also compiles the program with its driver.
func withDriver(p *ir.Program) *built {
	b := genOnly(p)
	if b.fail.Fail != "" || b.bin != "" {
		return b
	}
	write(b.root, map[string]string{"zzdrv/main.go": p.Driver()})
	bin := filepath.Join(b.root, "zzdrv", "driver")
	r := goCmd(b.root, "build", "-o", bin, "./zzdrv")
	if r.Timeout {
		vr.Abort("go build takes too long")
	}
	if r.Code != 0 {
		b.fail = vr.Failf("the generated code does not compile", "%s", clip(r.Out))
		return b
	}
	b.bin = bin
	return b
}

func (b *built) ask(r drv.Req) (resp drv.Resp) {
	if b.driver == nil {
		b.driver = start(b.root, b.bin)
	}
	if dead := b.driver.ask(r, &resp); dead != "" {
		b.driver.stop()
		b.driver = nil
		return drv.Resp{Fail: "the process running the generated code died", Detail: clip(dead)}
	}
	if resp.Abort != "" {
		vr.Abort("driver: %s", resp.Abort)
	}
	return resp
}

// ---- TypeScript ----

var tsServer *proc

type diag struct {
	File    string `json:"file"`
	Line    int    `json:"line"`
	Code    int    `json:"code"`
	Message string `json:"message"`
}

type admitReq struct {
	Alias string `json:"alias"`
	JSON  string `json:"json"`
}

type tsReq struct {
	Op       string          `json:"op"`
	Root     string          `json:"root"`
	Files    []string        `json:"files,omitempty"`
	Extra    string          `json:"extra,omitempty"`
	Admits   []admitReq      `json:"admits,omitempty"`
	Exports  bool            `json:"exports,omitempty"`
	File     string          `json:"file,omitempty"`
	Cls      string          `json:"cls,omitempty"`
	Method   string          `json:"method,omitempty"`
	GoMethod string          `json:"goMethod,omitempty"`
	Endpoint string          `json:"endpoint,omitempty"`
	URL      string          `json:"url,omitempty"`
	Args     json.RawMessage `json:"args,omitempty"`
}

type tsResp struct {
	Abort       string                                `json:"abort"`
	Fail        string                                `json:"fail"`
	Detail      string                                `json:"detail"`
	Diagnostics []diag                                `json:"diagnostics"`
	Admits      []string                              `json:"admits"`
	Exports     map[string][]string                   `json:"exports"`
	Modules     map[string]map[string]json.RawMessage `json:"modules"`
	Absent      bool                                  `json:"absent"`
	Value       json.RawMessage                       `json:"value"`
}

func ts(r tsReq) (resp tsResp) {
	if tsServer == nil {
		tsServer = start(env("VERIF_SCRATCH"), "node", filepath.Join(env("VERIF_HARNESS"), "ts", "tsd.js"))
	}
	if dead := tsServer.ask(r, &resp); dead != "" {
		tsServer.stop()
		tsServer = nil
		vr.Abort("typescript server: %s", dead)
	}
	return resp
}

// tsFiles are the TypeScript files a program's configuration names that exist.
func (b *built) tsFiles() (out []string) {
	for _, t := range b.prog.Targets {
		out = append(out, t.Out)
	}
	for _, p := range b.prog.Pkgs {
		out = append(out, p.Out)
	}
	out = append(out, b.prog.TimeOut)
	sort.Strings(out)
	var exist []string
	for _, f := range out {
		if f == "" {
			continue
		}
		if _, err := os.Stat(filepath.Join(b.root, f)); err == nil {
			exist = append(exist, f)
		}
	}
	return exist
}

func TestMain(m *testing.M) {
	vr.Limit = 5 * time.Minute
	code := m.Run()
	for _, b := range cache {
		if b.driver != nil {
			b.driver.stop()
		}
	}
	if tsServer != nil {
		tsServer.stop()
	}
	os.Exit(code)
}
