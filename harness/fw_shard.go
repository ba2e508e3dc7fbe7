package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"time"

	"pgregory.net/rapid"
)

type shardResult struct {
	Err       string
	Evals     map[string]int
	Hashes    []uint64
	Labels    map[string]map[string]int
	Samples   map[string][]json.RawMessage
	Hangs     int
	Unconf    int
	Violation *violation
	Stopped   map[string]bool // parts that met their time limit
}

type violation struct {
	Prop, Part string
	Class      string
	Message    string
	Case       json.RawMessage
	Seed       string
}

// tb is the rapid.TB of a shard.
type tb struct{ failed bool }

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "verif" }
func (t *tb) Logf(string, ...any)       {}
func (t *tb) Log(...any)                {}
func (t *tb) Skipf(string, ...any)      { runtime.Goexit() }
func (t *tb) Skip(...any)               { runtime.Goexit() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; rapidSays = fmt.Sprintf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; rapidSays = fmt.Sprint(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *tb) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

var rapidSays string

func seedFor(prop, part string, shard int, seed uint64) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%s/%d/%d", prop, part, shard, seed)))
	s := binary.LittleEndian.Uint64(h[:8])
	if s == 0 {
		s = 1
	}
	return s
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "secsverif:", err)
		os.Exit(2)
	}
}

// shardMain: shard PROP INDEX TIER SEED OUTFILE SCRATCH
func shardMain(a []string) {
	prop, tier, outf, scratch := a[0], a[2], a[4], a[5]
	idx, _ := strconv.Atoi(a[1])
	seed, _ := strconv.ParseUint(a[3], 10, 64)
	testingInit()
	res := &shardResult{Evals: map[string]int{}, Labels: map[string]map[string]int{}, Samples: map[string][]json.RawMessage{}, Stopped: map[string]bool{}}
	rn := &runner{dir: scratch}
	seen := map[uint64]bool{}
	for _, p := range parts[prop] {
		if os.Getenv("VERIF_PART") != "" && os.Getenv("VERIF_PART") != p.name {
			continue
		}
		runPart(p, idx, tier, seed, rn, res, seen)
		if res.Violation != nil || res.Err != "" {
			break
		}
	}
	rn.drop()
	res.Hangs, res.Unconf = rn.Hangs, rn.Unconf
	for h := range seen {
		if len(res.Hashes) < 300000 {
			res.Hashes = append(res.Hashes, h)
		}
	}
	b, err := json.Marshal(res)
	must(err)
	must(os.WriteFile(outf+".tmp", b, 0o644))
	must(os.Rename(outf+".tmp", outf))
}

func testingInit() {
	flag.Set("rapid.nofailfile", "true")
}

func runPart(p *part, idx int, tier string, seed uint64, rn *runner, res *shardResult, seen map[uint64]bool) {
	b := p.o.quick
	if tier == "thorough" {
		b = p.o.thorough
		if b.cases == 0 {
			b = p.o.quick
		}
	}
	labels := map[string]int{}
	res.Labels[p.name] = labels
	start := time.Now()
	deadline := start.Add(time.Duration(b.secs) * time.Second)
	var best *violation
	stop := false
	shrinkUntil := time.Time{}
	one := func(c any, sd string) bool {
		raw, err := json.Marshal(c)
		if err != nil {
			res.Err = "case does not marshal: " + err.Error()
			stop = true
			return false
		}
		v := rn.judge(p, raw)
		if v.err != nil {
			res.Err = fmt.Sprintf("%s/%s: %v\ncase: %s", p.prop, p.name, v.err, clip(string(raw), 2000))
			stop = true
			return false
		}
		if best == nil {
			res.Evals[p.name]++
			for l, n := range v.o.Labels {
				labels[l] += n
			}
			if v.o.NonTriv {
				labels["_nontrivial"]++
				h := sha256.Sum256(append([]byte(p.name+"|"), raw...))
				seen[binary.LittleEndian.Uint64(h[:8])] = true
				if s := res.Samples[p.name]; len(s) < 3 && len(raw) < 1500 && labels["_nontrivial"]%7 == 1 {
					res.Samples[p.name] = append(s, raw)
				}
			}
		}
		if v.fail == "" {
			return false
		}
		if best == nil {
			shrinkUntil = time.Now().Add(30 * time.Second)
		}
		if best == nil || len(raw) < len(best.Case) {
			best = &violation{p.prop, p.name, v.class, v.fail, raw, sd}
		}
		if v.class == "hang" || os.Getenv("VERIF_NOSHRINK") != "" {
			stop = true
		}
		return true
	}
	if idx == 0 {
		for _, c := range p.fixed() {
			if one(c, "fixed") || stop {
				break
			}
		}
		labels["_fixed"] += len(p.fixed())
	}
	if best == nil && !stop && b.cases > 0 {
		sd := seedFor(p.prop, p.name, idx, seed)
		flag.Set("rapid.seed", strconv.FormatUint(sd, 10))
		flag.Set("rapid.checks", strconv.Itoa(b.cases))
		flag.Set("rapid.shrinktime", "25s")
		done := make(chan struct{})
		var pan any
		go func() {
			defer close(done)
			defer func() {
				if e := recover(); e != nil {
					pan = e
				}
			}()
			rapid.Check(&tb{}, func(t *rapid.T) {
				if stop {
					return
				}
				if best == nil && time.Now().After(deadline) {
					res.Stopped[p.name] = true
					stop = true
					return
				}
				if best != nil && time.Now().After(shrinkUntil) {
					stop = true
					return
				}
				c := p.gen(t)
				if one(c, strconv.FormatUint(sd, 10)) {
					t.Fatalf("violation")
				}
			})
		}()
		<-done
		if pan != nil {
			res.Err = fmt.Sprintf("%s/%s: generator: %v", p.prop, p.name, pan)
		}
		if best == nil && res.Err == "" && rapidSays != "" {
			res.Err = fmt.Sprintf("%s/%s: rapid: %s", p.prop, p.name, rapidSays)
		}
	}
	if best != nil {
		res.Violation = best
		res.Err = ""
	}
	labels["_ms"] += int(time.Since(start).Milliseconds())
}
