package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"
)

type request struct {
	Prop, Part string
	Case       json.RawMessage
}

// execMain is the child that runs cases: requests on fd 3, outcomes on fd 4.
func execMain() {
	debug.SetMaxStack(256 << 20)
	in := bufio.NewReaderSize(os.NewFile(3, "req"), 1<<20)
	out := os.NewFile(4, "rsp")
	go stallMonitor()
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var q request
		if err := json.Unmarshal(line, &q); err != nil {
			fmt.Fprintln(os.Stderr, "harness: bad request", err)
			os.Exit(3)
		}
		p := findPart(q.Prop, q.Part)
		o := runCase(p, q.Case)
		b, _ := json.Marshal(o)
		out.Write(append(b, '\n'))
	}
}

type tail struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (t *tail) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.buf.Len() < 4<<20 {
		t.buf.Write(b)
	}
	return len(b), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return t.buf.String() }

type child struct {
	cmd  *exec.Cmd
	w    *os.File
	r    *bufio.Reader
	rf   *os.File
	errs *tail
	dir  string
	done chan struct{}
	n    int
}

func startChild(dir string) (*child, error) {
	c := &child{errs: &tail{}, done: make(chan struct{})}
	qr, qw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	self, _ := os.Executable()
	c.cmd = exec.Command(self, "exec")
	c.cmd.Dir = dir
	c.cmd.ExtraFiles = []*os.File{qr, pw}
	c.cmd.Stderr = c.errs
	c.cmd.Stdout = c.errs
	c.cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66 history_size=3")
	c.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := c.cmd.Start(); err != nil {
		return nil, err
	}
	if !raceBuilt { // the race detector reserves far more than it uses
		setLimit(c.cmd.Process.Pid)
	}
	qr.Close()
	pw.Close()
	c.w, c.rf = qw, pr
	c.r = bufio.NewReaderSize(pr, 1<<20)
	go func() { c.cmd.Wait(); close(c.done) }()
	return c, nil
}

func (c *child) stop() {
	c.w.Close()
	select {
	case <-c.done:
	case <-time.After(200 * time.Millisecond):
		c.cmd.Process.Kill()
		<-c.done
	}
	c.rf.Close()
}

var errHang = errors.New("hang")

// do runs one case; err is errHang, or io.EOF when the child died.
func (c *child) do(prop, part string, raw []byte, limit time.Duration) (outcome, error) {
	q, _ := json.Marshal(request{prop, part, raw})
	c.n++
	type ans struct {
		line []byte
		err  error
	}
	ch := make(chan ans, 1)
	go func() {
		if _, err := c.w.Write(append(q, '\n')); err != nil {
			ch <- ans{nil, err}
			return
		}
		l, err := c.r.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	var o outcome
	tm := time.NewTimer(limit)
	defer tm.Stop()
	select {
	case a := <-ch:
		if a.err != nil {
			<-c.done
			return o, io.EOF
		}
		if err := json.Unmarshal(a.line, &o); err != nil {
			return o, err
		}
		return o, nil
	case <-tm.C:
		c.cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-c.done:
		case <-time.After(5 * time.Second):
			c.cmd.Process.Kill()
			<-c.done
		}
		return o, errHang
	}
}

// runner runs cases in a respawned child and turns what happens into a verdict.
type runner struct {
	dir     string
	c       *child
	Hangs   int
	Unconf  int
	Respawn int
}

type verdict struct {
	o     outcome
	fail  string // violation
	class string
	err   error // the harness itself failed
}

func (rn *runner) fresh() error {
	if rn.c != nil {
		rn.c.stop()
		rn.c = nil
	}
	c, err := startChild(rn.dir)
	if err != nil {
		return err
	}
	rn.Respawn++
	rn.c = c
	return nil
}

func (rn *runner) drop() {
	if rn.c != nil {
		rn.c.stop()
		rn.c = nil
	}
}

func (rn *runner) once(p *part, raw []byte) (o outcome, death string, err error) {
	if rn.c == nil || rn.c.n > 20000 {
		if err := rn.fresh(); err != nil {
			return o, "", err
		}
	}
	o, err = rn.c.do(p.prop, p.name, raw, p.o.hang)
	if err == nil {
		return o, "", nil
	}
	death = rn.c.errs.String()
	rn.c.rf.Close()
	rn.c.w.Close()
	rn.c = nil
	return o, death, err
}

// raceReport says whose accesses raced: "sut" unless both are the harness's.
func raceReport(death string) (who, rep string) {
	i := strings.Index(death, "WARNING: DATA RACE")
	if i < 0 {
		return "", ""
	}
	rep = death[i:]
	if j := strings.Index(rep, "=================="); j >= 0 {
		rep = rep[:j]
	}
	who = "harness"
	for _, sec := range strings.Split(rep, "\n\n") {
		l := strings.Split(strings.TrimPrefix(sec, "WARNING: DATA RACE\n"), "\n")
		if !strings.Contains(l[0], " at 0x") || !strings.Contains(l[0], " by ") {
			continue // where the goroutines were created
		}
		for _, f := range l[1:] {
			f = strings.TrimSpace(f)
			if strings.HasPrefix(f, "github.com/younglifestyle/secs4go") {
				who = "sut"
				break
			}
			if strings.HasPrefix(f, "main.") {
				break
			}
		}
	}
	return who, clip(rep, 4000)
}

func deathReport(death string) (string, string) {
	if who, rep := raceReport(death); who != "" {
		return who, rep
	}
	i := strings.Index(death, "panic: ")
	j := strings.Index(death, "fatal error: ")
	k := strings.Index(death, "runtime: goroutine stack exceeds")
	for _, x := range []int{j, k} {
		if x >= 0 && (i < 0 || x < i) {
			i = x
		}
	}
	if i < 0 {
		return "", clip(death, 2000)
	}
	rep := death[i:]
	// the trace of the goroutine that died comes first
	first := rep
	if a := strings.Index(rep, "\ngoroutine "); a >= 0 {
		if b := strings.Index(rep[a+1:], "\n\n"); b >= 0 {
			first = rep[:a+1+b]
		}
	}
	return blame(first), clip(first, 2500)
}

// judge runs a case and confirms failures that could come from a slow machine.
func (rn *runner) judge(p *part, raw []byte) (v verdict) {
	o, death, err := rn.once(p, raw)
	v.o = o
	if err == nil {
		if o.Harness != "" {
			v.err = fmt.Errorf("harness failure: %s", o.Harness)
			return
		}
		if len(o.Fails) > 0 {
			v.fail, v.class = strings.Join(o.Fails, "\n"), "wrong"
			rn.drop()
			return
		}
		if len(o.Slows) == 0 {
			return
		}
		rn.drop()
		if o.Stall < 300 {
			v.fail, v.class = strings.Join(o.Slows, "\n"), "late"
			return
		}
		for i := 0; i < 4; i++ {
			v2, d2, e2 := rn.once(p, raw)
			if e2 != nil {
				if rep := confirmDeath(d2); rep != "" {
					v.fail, v.class = rep, "crash"
					return
				}
				continue
			}
			if len(v2.Fails) > 0 {
				v.fail, v.class = strings.Join(v2.Fails, "\n"), "wrong"
				return
			}
			if len(v2.Slows) > 0 && v2.Stall < 2000 {
				v.fail, v.class = strings.Join(v2.Slows, "\n"), "late"
				return
			}
		}
		rn.Unconf++
		return
	}
	if err == io.EOF {
		who, rep := deathReport(death)
		if who == "sut" {
			v.fail, v.class = "process died: "+rep, "crash"
			return
		}
		// No trace that blames the code under test: run it again to see.
		_, d2, e2 := rn.once(p, raw)
		if e2 == io.EOF {
			who2, rep2 := deathReport(d2)
			if who2 == "sut" {
				v.fail, v.class = "process died: "+rep2, "crash"
				return
			}
		}
		v.err = fmt.Errorf("exec child died: %s", rep)
		return
	}
	if err == errHang {
		rn.Hangs++
		_, d2, e2 := rn.once(p, raw)
		if e2 == errHang {
			v.fail, v.class = "case does not end within "+p.o.hang.String()+"\n"+hangReport(d2), "hang"
			return
		}
		if e2 == io.EOF {
			if rep := confirmDeath(d2); rep != "" {
				v.fail, v.class = rep, "crash"
			}
		}
		return
	}
	v.err = err
	return
}

func confirmDeath(d string) string {
	if who, rep := deathReport(d); who == "sut" {
		return "process died: " + rep
	}
	return ""
}

func hangReport(d string) string {
	var out []string
	for _, g := range strings.Split(d, "\n\n") {
		if strings.Contains(g, "younglifestyle/secs4go") {
			out = append(out, clip(g, 900))
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, "\n\n")
}
