package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// Registration
// ---------------------------------------------------------------------------

// budget is what one shard of a part does in one tier.
type budget struct {
	cases int // generated cases per shard
	secs  int // stop generating (quietly) after that many seconds
}

type opts struct {
	quick, thorough budget
	hang            time.Duration // a case that takes longer hangs
	heapMB          int           // 0: default
}

// part is one generated check of a property: a generator of cases, which are
// plain JSON values, and a function that runs a case against the real code
// and judges what it observes.
type part struct {
	prop, name string
	rule       string
	o          opts
	gen        func(*rapid.T) any
	fixed      func() []any
	run        func(*R, []byte)
}

var parts = map[string][]*part{}
var shardsOf = map[string][2]int{} // quick, thorough

func register[T any](prop, name, rule string, o opts, gen func(*rapid.T) T, run func(*R, T), fixed ...T) {
	if o.hang == 0 {
		o.hang = 60 * time.Second
	}
	p := &part{prop: prop, name: name, rule: rule, o: o,
		gen: func(t *rapid.T) any { return gen(t) },
		fixed: func() []any {
			var a []any
			for _, f := range fixed {
				a = append(a, f)
			}
			return a
		},
		run: func(r *R, raw []byte) {
			var c T
			d := json.NewDecoder(bytes.NewReader(raw))
			if err := d.Decode(&c); err != nil {
				panic(fmt.Sprintf("harness: case does not decode: %v", err))
			}
			run(r, c)
		},
	}
	parts[prop] = append(parts[prop], p)
}

func shards(prop string, quick, thorough int) { shardsOf[prop] = [2]int{quick, thorough} }

func findPart(prop, name string) *part {
	for _, p := range parts[prop] {
		if p.name == name {
			return p
		}
	}
	return nil
}

func props() []string {
	var a []string
	for p := range parts {
		a = append(a, p)
	}
	sort.Strings(a)
	return a
}

// ---------------------------------------------------------------------------
// R: what a running case reports to
// ---------------------------------------------------------------------------

type R struct {
	mu       sync.Mutex
	labels   map[string]int
	nontriv  bool
	fails    []string
	slows    []string
	cleanups []func()
	start    time.Time
}

type stopCase struct{}

func (r *R) Label(l string) { r.mu.Lock(); r.labels[l]++; r.mu.Unlock() }
func (r *R) LabelN(l string, n int) {
	r.mu.Lock()
	r.labels[l] += n
	r.mu.Unlock()
}
func (r *R) NonTrivial() { r.mu.Lock(); r.nontriv = true; r.mu.Unlock() }

// Failf records a violation of the property that does not depend on timing.
func (r *R) Failf(f string, a ...any) {
	r.mu.Lock()
	if len(r.fails) < 5 {
		r.fails = append(r.fails, clip(fmt.Sprintf(f, a...), 3000))
	}
	r.mu.Unlock()
}

// Fatalf is Failf and ends the case (call it only from the case's goroutine).
func (r *R) Fatalf(f string, a ...any) { r.Failf(f, a...); panic(stopCase{}) }

// Slowf records that something expected did not happen in (generous) time.
func (r *R) Slowf(f string, a ...any) {
	r.mu.Lock()
	if len(r.slows) < 5 {
		r.slows = append(r.slows, clip(fmt.Sprintf(f, a...), 3000))
	}
	r.mu.Unlock()
}
func (r *R) SlowFatalf(f string, a ...any) { r.Slowf(f, a...); panic(stopCase{}) }

func (r *R) failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.fails)+len(r.slows) > 0
}

// Stop ends the case quietly.
func (r *R) Stop() { panic(stopCase{}) }

func (r *R) Cleanup(f func()) { r.mu.Lock(); r.cleanups = append(r.cleanups, f); r.mu.Unlock() }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// outcome is what the exec child answers for a case.
type outcome struct {
	Fails   []string       `json:"fails,omitempty"`
	Slows   []string       `json:"slows,omitempty"`
	Labels  map[string]int `json:"labels,omitempty"`
	NonTriv bool           `json:"nontriv,omitempty"`
	Stall   int64          `json:"stall"` // longest scheduling gap seen, ms
	Dirty   bool           `json:"dirty,omitempty"`
	Harness string         `json:"harness,omitempty"` // error of the harness itself
}

var stallMax atomic.Int64

func stallMonitor() {
	last := time.Now()
	for {
		time.Sleep(10 * time.Millisecond)
		now := time.Now()
		gap := now.Sub(last).Milliseconds() - 10
		last = now
		for {
			o := stallMax.Load()
			if gap <= o || stallMax.CompareAndSwap(o, gap) {
				break
			}
		}
	}
}

// runCase runs one case in this process.
func runCase(p *part, raw []byte) (out outcome) {
	r := &R{labels: map[string]int{}, start: time.Now()}
	stallMax.Store(0)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stopCase); ok {
					return
				}
				if f, ok := e.(refusal); ok {
					r.Failf("a valid definition or option was refused: %v\n%s", f.err, clip(f.stack, 2500))
					return
				}
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, false)]
				msg := fmt.Sprintf("panic: %v\n%s", e, buf)
				if blame(msg) == "sut" {
					r.Failf("%s", clip(trimStack(msg), 2500))
				} else {
					out.Harness = msg
				}
			}
		}()
		p.run(r, raw)
	}()
	for i := len(r.cleanups) - 1; i >= 0; i-- {
		func() {
			defer func() {
				if e := recover(); e != nil {
					buf := make([]byte, 1<<16)
					buf = buf[:runtime.Stack(buf, false)]
					msg := fmt.Sprintf("panic in cleanup: %v\n%s", e, buf)
					if blame(msg) == "sut" {
						r.Failf("%s", clip(trimStack(msg), 2500))
					} else {
						out.Harness = msg
					}
				}
			}()
			r.cleanups[i]()
		}()
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	out.Fails, out.Slows, out.Labels, out.NonTriv = r.fails, r.slows, r.labels, r.nontriv
	out.Stall = stallMax.Load()
	return out
}

// blame says whose code raised a panic: the first frame below the runtime
// that belongs to the code under test ("sut") or to the harness ("harness").
func blame(stack string) string {
	started := strings.Contains(stack, "panic(") == false
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "runtime/") {
			started = true
			continue
		}
		if !started || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "created by") {
			continue
		}
		if strings.HasPrefix(l, "github.com/younglifestyle/secs4go") {
			return "sut"
		}
		if strings.HasPrefix(l, "main.") {
			return "harness"
		}
	}
	if strings.Contains(stack, "github.com/younglifestyle/secs4go") {
		return "sut"
	}
	return "harness"
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "runtime/debug") {
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}
