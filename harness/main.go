package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: secsverif check ID | replay FILE | list")
		os.Exit(2)
	}
	time.Local = time.FixedZone("local", 5*3600+1800) // not UTC
	testing.Init()
	flag.CommandLine.Parse(nil)
	borrowForC27()
	if !raceBuilt && (os.Args[1] == "check" && os.Args[2] == "C27" || os.Args[1] == "replay" && propOf(os.Args[2]) == "C27") {
		self, _ := os.Executable()
		err := syscall.Exec(self+"-race", os.Args, os.Environ())
		fmt.Fprintln(os.Stderr, "C27 needs the harness built with the race detector (RACE=1 . build.sh):", err)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "exec":
		execMain()
	case "shard":
		shardMain(os.Args[2:])
	case "check":
		os.Exit(checkMain(os.Args[2]))
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "list":
		for _, p := range props() {
			for _, q := range parts[p] {
				fmt.Println(p, q.name, q.rule)
			}
		}
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func checkMain(prop string) int {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	if len(parts[prop]) == 0 {
		fmt.Fprintln(os.Stderr, "no check for", prop)
		return 2
	}
	n := 8
	if s, ok := shardsOf[prop]; ok {
		n = s[0]
		if tier == "thorough" {
			n = s[1]
		}
	}
	start := time.Now()
	scratch, err := os.MkdirTemp("", "secsverif-"+prop+"-")
	must(err)
	defer os.RemoveAll(scratch)
	self, _ := os.Executable()
	type fin struct{ i int }
	ch := make(chan fin, n)
	cmds := make([]*exec.Cmd, n)
	errsOf := make([]*tail, n)
	total := 0
	for _, p := range parts[prop] {
		b := p.o.quick
		if tier == "thorough" && p.o.thorough.cases > 0 {
			b = p.o.thorough
		}
		total += b.secs
	}
	for i := 0; i < n; i++ {
		d := filepath.Join(scratch, strconv.Itoa(i))
		must(os.MkdirAll(d, 0o755))
		cmds[i] = exec.Command(self, "shard", prop, strconv.Itoa(i), tier, strconv.FormatUint(seed, 10), filepath.Join(scratch, fmt.Sprintf("r%d.json", i)), d)
		errsOf[i] = &tail{}
		cmds[i].Stderr, cmds[i].Stdout = errsOf[i], errsOf[i]
		cmds[i].SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		must(cmds[i].Start())
		go func() { cmds[i].Wait(); ch <- fin{i} }()
	}
	killAll := func() {
		for _, c := range cmds {
			if c.Process != nil {
				syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			}
		}
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	limit := time.After(time.Duration(total+240) * time.Second)
	results := make([]*shardResult, n)
	left, lost := n, ""
	var grace <-chan time.Time
	for left > 0 {
		select {
		case f := <-ch:
			left--
			b, err := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("r%d.json", f.i)))
			if err != nil {
				if grace == nil {
					lost = fmt.Sprintf("shard %d gave no result: %s", f.i, clip(errsOf[f.i].String(), 3000))
				}
				continue
			}
			r := &shardResult{}
			must(json.Unmarshal(b, r))
			results[f.i] = r
			if r.Violation != nil && grace == nil {
				wait := 2 * time.Second
				if os.Getenv("VERIF_NOSHRINK") != "" {
					wait = 0
				}
				grace = time.After(wait)
			}
		case <-grace:
			killAll()
		case <-limit:
			lost = "time limit of the check"
			killAll()
		case <-sig:
			killAll()
			os.RemoveAll(scratch)
			os.Exit(2)
		}
	}
	killAll()
	// merge
	evals, hashes := 0, map[uint64]bool{}
	labels := map[string]map[string]int{}
	perPart := map[string]int{}
	samples := []any{}
	var viol *violation
	errText, hangs, unconf := "", 0, 0
	stopped := map[string]int{}
	for _, r := range results {
		if r == nil {
			continue
		}
		for p, k := range r.Evals {
			evals += k
			perPart[p] += k
		}
		for _, h := range r.Hashes {
			hashes[h] = true
		}
		for p, m := range r.Labels {
			if labels[p] == nil {
				labels[p] = map[string]int{}
			}
			for l, k := range m {
				labels[p][l] += k
			}
		}
		for p := range r.Stopped {
			stopped[p]++
		}
		if r.Violation != nil && (viol == nil || len(r.Violation.Case) < len(viol.Case)) {
			viol = r.Violation
		}
		if r.Err != "" {
			errText = r.Err
		}
		hangs += r.Hangs
		unconf += r.Unconf
	}
	for _, p := range parts[prop] {
		k := 0
		for _, r := range results {
			if r == nil {
				continue
			}
			for _, s := range r.Samples[p.name] {
				if k < 3 {
					samples = append(samples, map[string]any{"part": p.name, "case": s})
					k++
				}
			}
		}
	}
	var rules []string
	for _, p := range parts[prop] {
		rules = append(rules, p.name+": "+p.rule)
	}
	for _, m := range labels {
		for l := range m {
			if l == "_ms" || l == "_nontrivial" {
				delete(m, l)
			}
		}
	}
	cov := map[string]any{
		"evaluations":               evals,
		"distinct_nontrivial":       len(hashes),
		"rule":                      strings.Join(rules, " || "),
		"samples":                   samples,
		"evaluations_by_part":       perPart,
		"distribution_by_part":      labels,
		"shards":                    n,
		"unconfirmed_slow_cases":    unconf,
		"unconfirmed_hanging_cases": hangs,
		"shards_stopped_by_time":    stopped,
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"exploration: the property is shown on the generated cases, not proved",
			"the reference models, encoder and decoder of /verif/harness state what is right",
			"one run of a concurrent case sees one schedule",
		},
		"wall_s": float64(int(time.Since(start).Seconds()*100)) / 100,
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	ev["violations"] = nv
	eb, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), append(eb, '\n'), 0o644))
	if viol != nil {
		dir := filepath.Join(verifDir(), "replays")
		must(os.MkdirAll(dir, 0o755))
		f := filepath.Join(dir, fmt.Sprintf("%s-%s-%s-seed%d.json", prop, viol.Part, tier, seed))
		vb, _ := json.MarshalIndent(viol, "", " ")
		must(os.WriteFile(f, append(vb, '\n'), 0o644))
		fmt.Printf("%s/%s: %s\n", viol.Prop, viol.Part, viol.Message)
		fmt.Printf("case: %s\n", clip(string(viol.Case), 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		return 1
	}
	if errText != "" || lost != "" {
		fmt.Fprintln(os.Stderr, "ERROR:", errText, lost)
		return 2
	}
	var ps []string
	for p, k := range perPart {
		ps = append(ps, fmt.Sprintf("%s=%d", p, k))
	}
	sort.Strings(ps)
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d [%s] stopped=%v unconfirmed=%d/%d wall=%.1fs\n", prop, tier, seed, evals, len(hashes), strings.Join(ps, " "), stopped, unconf, hangs, time.Since(start).Seconds())
	return 0
}

// propOf tells the property of a replay file.
func propOf(f string) string {
	var v violation
	if b, err := os.ReadFile(f); err == nil {
		json.Unmarshal(b, &v)
	}
	return v.Prop
}

// replayMain runs the case of a replay file again.
func replayMain(f string) int {
	b, err := os.ReadFile(f)
	must(err)
	var v violation
	must(json.Unmarshal(b, &v))
	p := findPart(v.Prop, v.Part)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such part")
		return 2
	}
	scratch, err := os.MkdirTemp("", "secsverif-replay-")
	must(err)
	defer os.RemoveAll(scratch)
	rn := &runner{dir: scratch}
	for i := 0; i < 5; i++ {
		w := rn.judge(p, v.Case)
		if w.err != nil {
			fmt.Fprintln(os.Stderr, "ERROR:", w.err)
			return 2
		}
		if w.fail != "" {
			fmt.Println(w.fail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Prop, f)
			return 1
		}
	}
	fmt.Println("OK: the case passes")
	return 0
}
