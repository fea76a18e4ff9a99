// Package vr is the small framework every generated-input check is written in:
// a case is drawn by rapid, run against the real code, and judged by an oracle.
// Cases are plain data, so that the minimal failing one is its own replay file.
package vr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Result is what running one case yields.
type Result struct {
	// Fail is a constant category ("" when the property held).
	Fail string
	// Detail says what exactly failed (kept out of the category, so that shrinking is stable).
	Detail string
	// NonTrivial by the rule of the check.
	NonTrivial bool
	// Evals counts evaluations inside the case (calls, files, ...); at least 1.
	Evals int
	// Nontrivial sub-evaluations; defaults to 1 when NonTrivial.
	NonTrivialEvals int
	// Keys identify distinct evaluations; default: the case itself.
	Keys []string
	// Classes for the distribution.
	Classes []string
	// Abort is an error of the harness, not of the code under test.
	Abort string
}

// OK is a non-trivial success.
func OK(classes ...string) Result { return Result{NonTrivial: true, Classes: classes} }

// Failf makes a violation.
func Failf(category, format string, args ...interface{}) Result {
	return Result{Fail: category, Detail: fmt.Sprintf(format, args...)}
}

type stats struct {
	Name       string         `json:"name"`
	Evals      int            `json:"evals"`
	Cases      int            `json:"cases"`
	NonTrivial int            `json:"nontrivial"`
	Hashes     []uint64       `json:"hashes"`
	Classes    map[string]int `json:"classes"`
	Samples    []interface{}  `json:"samples"`
	Skipped    int            `json:"skipped_after_budget"`
	Failures   int            `json:"failures"`
	Abort      string         `json:"abort,omitempty"`
}

var (
	mu      sync.Mutex
	all     = map[string]*stats{}
	hashes  = map[string]map[uint64]struct{}{}
	started = time.Now()
)

func outDir() string { return os.Getenv("VERIF_OUT") }

func budget() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("VERIF_BUDGET")); err == nil {
		return d
	}
	return 0
}

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Check    string          `json:"check"`
	Category string          `json:"category"`
	Detail   string          `json:"detail"`
	Case     json.RawMessage `json:"case"`
}

type aborter struct{ msg string }

// Run checks a property. name is unique and starts with the property's id ("C09/chain").
func Run[C any](t *testing.T, name string, gen func(*rapid.T) C, run func(C) Result) {
	t.Helper()
	property := strings.SplitN(name, "/", 2)[0]
	file := strings.ReplaceAll(name, "/", "_")

	if replay := os.Getenv("VERIF_REPLAY"); replay != "" {
		data, err := os.ReadFile(replay)
		if err != nil {
			t.Fatal(err)
		}
		var r Replay
		if err := json.Unmarshal(data, &r); err != nil {
			t.Fatal(err)
		}
		if r.Check != name {
			return
		}
		var c C
		if err := json.Unmarshal(r.Case, &c); err != nil {
			t.Fatal(err)
		}
		if outDir() != "" {
			_ = os.WriteFile(filepath.Join(outDir(), "running."+file+".json"), mustJSON(r), 0o644)
		}
		// cases whose outcome depends on the schedule are repeated
		runs, _ := strconv.Atoi(os.Getenv("VERIF_REPLAY_RUNS"))
		res := guarded(run, c)
		for i := 1; i < runs && res.Fail == "" && res.Abort == ""; i++ {
			res = guarded(run, c)
		}
		if res.Abort != "" {
			t.Fatalf("harness error: %s", res.Abort)
		}
		if res.Fail != "" {
			fmt.Printf("REPLAY-FAILS %s: %s\n%s\n", name, res.Fail, res.Detail)
			if outDir() != "" {
				r.Category, r.Detail = res.Fail, res.Detail
				b, _ := json.MarshalIndent(r, "", " ")
				_ = os.WriteFile(filepath.Join(outDir(), "fail."+file+".json"), b, 0o644)
			}
			t.Fatalf("%s", res.Fail)
		}
		fmt.Printf("REPLAY-PASSES %s\n", name)
		return
	}
	if only := os.Getenv("VERIF_ONLY"); only != "" && only != name {
		return
	}

	mu.Lock()
	st := &stats{Name: name, Classes: map[string]int{}}
	all[name] = st
	hashes[name] = map[uint64]struct{}{}
	mu.Unlock()
	defer flush(name)

	bud := budget()
	failing := false
	rapid.Check(t, func(rt *rapid.T) {
		if bud > 0 && !failing && time.Since(started) > bud {
			st.Skipped++
			return
		}
		c := gen(rt)
		raw, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		if outDir() != "" && os.Getenv("VERIF_TRACK") != "" {
			_ = os.WriteFile(filepath.Join(outDir(), "running."+file+".json"), mustJSON(Replay{Property: property, Check: name, Category: "the process died while running this case", Case: raw}), 0o644)
		}
		res := guarded(run, c)
		if res.Abort != "" {
			st.Abort = res.Abort
			flush(name)
			fmt.Fprintln(os.Stderr, "HARNESS-ERROR", name, res.Abort)
			os.Exit(3)
		}
		if !failing {
			record(st, name, c, raw, res)
		}
		if res.Fail != "" {
			failing = true
			st.Failures++
			if outDir() != "" {
				b := mustJSON(Replay{Property: property, Check: name, Category: res.Fail, Detail: res.Detail, Case: raw})
				_ = os.WriteFile(filepath.Join(outDir(), "fail."+file+".json"), b, 0o644)
			}
			if os.Getenv("VERIF_VERBOSE") != "" {
				fmt.Fprintf(os.Stderr, "FAIL %s: %s: %s\n", name, res.Fail, res.Detail)
			}
			if res.Fail == hangs {
				flush(name)
				os.Exit(4)
			}
			rt.Fatalf("%s", res.Fail)
		}
	})
}

// Limit is the time after which a case counts as hanging, far beyond what any takes.
var Limit = 120 * time.Second

// hangs is the category of cases which do not end; their goroutine can not be stopped, so that they end the process.
const hangs = "does not end"

func guarded[C any](run func(C) Result, c C) Result {
	done := make(chan Result, 1)
	go func() {
		ended := false
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(aborter); ok {
					done <- Result{Abort: a.msg}
					return
				}
				done <- Result{Fail: "panic", Detail: fmt.Sprintf("panic: %v\n%s", r, debug.Stack())}
			} else if !ended {
				done <- Result{Abort: "the goroutine of the case ended"}
			}
		}()
		res := run(c)
		ended = true
		done <- res
	}()
	timer := time.NewTimer(Limit)
	defer timer.Stop()
	select {
	case res := <-done:
		return res
	case <-timer.C:
		buf := make([]byte, 1<<16)
		return Result{Fail: hangs, Detail: fmt.Sprintf("not done after %s\n%s", Limit, buf[:runtime.Stack(buf, true)])}
	}
}

// Abort ends the process as an error of the harness.
func Abort(format string, args ...interface{}) {
	panic(aborter{fmt.Sprintf(format, args...)})
}

func record(st *stats, name string, c interface{}, raw []byte, res Result) {
	mu.Lock()
	defer mu.Unlock()
	n := res.Evals
	if n == 0 {
		n = 1
	}
	st.Evals += n
	st.Cases++
	for _, cl := range res.Classes {
		st.Classes[cl]++
	}
	if res.NonTrivial {
		m := res.NonTrivialEvals
		if m == 0 {
			m = 1
		}
		st.NonTrivial += m
		if len(res.Keys) == 0 {
			hashes[name][hash(raw)] = struct{}{}
		}
		for _, k := range res.Keys {
			hashes[name][hash([]byte(k))] = struct{}{}
		}
		// samples: 1st, 2nd, 4th, 8th, ... non-trivial case, when small enough to read
		if len(st.Samples) < 8 && len(raw) < 6000 && (st.Cases&(st.Cases-1)) == 0 {
			st.Samples = append(st.Samples, c)
		}
	}
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	_, _ = h.Write(b)
	return h.Sum64()
}

func mustJSON(v interface{}) []byte {
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

func flush(name string) {
	if outDir() == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	st := all[name]
	st.Hashes = st.Hashes[:0]
	for h := range hashes[name] {
		st.Hashes = append(st.Hashes, h)
	}
	sort.Slice(st.Hashes, func(i, j int) bool { return st.Hashes[i] < st.Hashes[j] })
	_ = os.WriteFile(filepath.Join(outDir(), "stats."+strings.ReplaceAll(name, "/", "_")+".json"), mustJSON(st), 0o644)
}
