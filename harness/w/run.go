// Package w is the shared part of the conformance drivers: running traces in
// parallel, collecting violations, and building real chain objects.
package w

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ethereum/go-ethereum/log"
)

// Violation is one disagreement between the specification and the real code.
type Violation struct {
	Prop  string          `json:"prop"`
	Step  int             `json:"step"`
	Msg   string          `json:"msg"`
	Trace json.RawMessage `json:"trace"`
	Index int             `json:"index"`
}

// Result is what a driver hands back to run.py.
type Result struct {
	Traces     int               `json:"traces"`
	Steps      int64             `json:"steps"`
	Checks     int64             `json:"checks"`
	Ops        map[string]int64  `json:"ops"`
	Violations []Violation       `json:"violations"`
	Errors     []string          `json:"errors"`
	Known      []string          `json:"known"`
	Sample     []json.RawMessage `json:"sample"`
	WallMS     int64             `json:"wall_ms"`
}

// Rep collects what one trace reports.
type Rep struct {
	mu    *sync.Mutex
	res   *Result
	raw   json.RawMessage
	idx   int
	Step  int
	Prop  string // property charged when the real code panics
	bad   bool
	only  string
}

// V records a violation of prop at the current step.
func (r *Rep) V(prop, format string, a ...interface{}) {
	if r.only != "" && r.only != prop {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.bad = true
	if len(r.res.Violations) < 200 {
		r.res.Violations = append(r.res.Violations, Violation{prop, r.Step, fmt.Sprintf(format, a...), r.raw, r.idx})
	}
}

// Check counts a comparison and records a violation when it fails.
func (r *Rep) Check(ok bool, prop, format string, a ...interface{}) bool {
	atomic.AddInt64(&r.res.Checks, 1)
	if !ok {
		r.V(prop, format, a...)
	}
	return ok
}

// Bad tells whether this trace already has a violation (of the property being checked).
func (r *Rep) Bad() bool { return r.bad }

// Only is the property being decided by this run ("" for all).
func (r *Rep) Only() string { return r.only }

// Op counts an executed operation.
func (r *Rep) Op(name string) {
	r.mu.Lock()
	r.res.Ops[name]++
	r.mu.Unlock()
	atomic.AddInt64(&r.res.Steps, 1)
}

// Err records a problem of the machinery itself.
func (r *Rep) Err(format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.res.Errors) < 20 {
		r.res.Errors = append(r.res.Errors, fmt.Sprintf("trace %d step %d: ", r.idx, r.Step)+fmt.Sprintf(format, a...))
	}
}

// Crit is what log.Crit becomes (the process would have exited).
type Crit struct{ Msg string }

type critHandler struct{}

func (critHandler) Log(rec *log.Record) error {
	if rec.Lvl == log.LvlCrit {
		panic(Crit{fmt.Sprint(rec.Msg, " ", rec.Ctx)})
	}
	if os.Getenv("VLOG") != "" && rec.Lvl <= log.LvlWarn {
		fmt.Fprintln(os.Stderr, rec.Lvl, rec.Msg, rec.Ctx)
	}
	return nil
}

func init() { log.Root().SetHandler(critHandler{}) }

// InRealCode tells from a stack captured while recovering whether the panic
// was raised below the real code's frames rather than in the harness.
func InRealCode(stack string) bool {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i + 2
		}
	}
	for i := start; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") || l == "" || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		if strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "runtime/") ||
			strings.Contains(l, "go-ethereum/log") || strings.Contains(l, "zzverif/w.critHandler") ||
			strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "math/big.") || strings.HasPrefix(l, "reflect.") ||
			strings.HasPrefix(l, "sync") || strings.HasPrefix(l, "encoding/") || strings.HasPrefix(l, "bytes.") ||
			strings.HasPrefix(l, "sort.") || strings.HasPrefix(l, "slices.") {
			continue
		}
		return strings.Contains(l, "QuarkChain/goquarkchain") && !strings.Contains(l, "/zzverif/") ||
			strings.Contains(l, "ethereum/go-ethereum")
	}
	return false
}

// Guard runs f; a panic (or log.Crit) of the real code becomes a violation of
// prop, one of the harness an error. It reports whether f completed.
func (r *Rep) Guard(prop string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			msg := fmt.Sprint(e)
			if c, is := e.(Crit); is {
				msg = "log.Crit (process exit): " + c.Msg
			}
			if prop == "" {
				prop = r.Prop
			}
			if InRealCode(st) {
				r.V(prop, "the code panicked: %s\n%s", msg, trim(st))
			} else {
				r.Err("harness panic: %s\n%s", msg, st)
			}
			ok = false
		}
	}()
	f()
	return true
}

func trim(s string) string {
	if len(s) > 2500 {
		return s[:2500]
	}
	return s
}

// Stopper is something with a Stop method.
type Stopper interface{ Stop() }

// StopAll stops chains at the end of a trace without waiting for ever.
func StopAll(l ...Stopper) {
	done := make(chan bool, 1)
	go func() {
		for _, x := range l {
			x.Stop()
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
	}
}

// TraceFn replays one trace.
type TraceFn func(raw json.RawMessage, rep *Rep)

// Main is the entry point of every driver.
func Main(fn TraceFn) {
	in := flag.String("traces", "", "jsonl of traces")
	out := flag.String("out", "", "result file")
	only := flag.String("prop", "", "property")
	par := flag.Int("par", 8, "parallel traces")
	limit := flag.Duration("limit", 60*time.Second, "limit for one trace")
	from := flag.Int("from", 0, "first trace")
	flag.Parse()
	// the code under test prints to stdout; keep it out of the way
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil && os.Getenv("VLOG") == "" {
		os.Stdout = null
	}
	f, err := os.Open(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var traces []json.RawMessage
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		b := append([]byte(nil), sc.Bytes()...)
		if len(b) > 0 {
			traces = append(traces, b)
		}
	}
	res := &Result{Ops: map[string]int64{}}
	var mu sync.Mutex
	start := time.Now()
	ch := make(chan int)
	var wg sync.WaitGroup
	var done, hung int64
	for i := 0; i < *par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for idx := range ch {
				if atomic.LoadInt64(&hung) > 2 {
					continue
				}
				r := &Rep{mu: &mu, res: res, raw: traces[idx], idx: idx, only: *only, Prop: *only}
				fin := make(chan bool, 1)
				go func() {
					r.Guard(*only, func() { fn(traces[idx], r) })
					fin <- true
				}()
				select {
				case <-fin:
				case <-time.After(*limit):
					buf := make([]byte, 1<<16)
					buf = buf[:runtime.Stack(buf, true)]
					r.V(*only, "no answer within %v: the code does not return\n%s", *limit, trim(string(buf)))
					atomic.AddInt64(&hung, 1)
				}
				atomic.AddInt64(&done, 1)
			}
		}()
	}
	for i := *from; i < len(traces); i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	res.Traces = int(done)
	res.WallMS = time.Since(start).Milliseconds()
	for i := 0; i < len(traces) && i < 2; i++ {
		res.Sample = append(res.Sample, traces[i])
	}
	sort.Slice(res.Violations, func(a, b int) bool { return res.Violations[a].Index < res.Violations[b].Index })
	b, _ := json.Marshal(res)
	if err := os.WriteFile(*out, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}
