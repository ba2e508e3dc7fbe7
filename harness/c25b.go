package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// C25, parts loggers and rotation: the loggers of the library on their own, and
// log files that are rotated.

// ---------------------------------------------------------------------------
// loggers
// ---------------------------------------------------------------------------

type c25Val struct {
	K string // string, int, uint8, bool, float, error, nil, list
	S string
	N int
}

type c25Entry struct {
	Level int
	Msg   string
	Keys  []string
	Vals  []c25Val
	Odd   bool // the last value is missing
	Pad   int  // kB
}

type c25lCase struct {
	Kind    string // std, zap, nop
	Prefix  string
	Nil     bool
	File    bool
	Debug   bool
	Console bool
	Rotate  bool
	Zip     bool
	Callers int
	Entries []c25Entry
}

func (v c25Val) value() any {
	switch v.K {
	case "int":
		return v.N
	case "uint8":
		return uint8(v.N)
	case "bool":
		return v.N%2 == 0
	case "float":
		return float64(v.N) / 8
	case "error":
		return errors.New(v.S)
	case "nil":
		return nil
	case "list":
		return []int{v.N, v.N + 1}
	}
	return v.S
}

var levelNames = []string{"DEBUG", "INFO", "WARN", "ERROR"}

func callLogger(l gem.Logger, level int, msg string, kv []any) {
	switch level {
	case 0:
		l.Debug(msg, kv...)
	case 1:
		l.Info(msg, kv...)
	case 2:
		l.Warn(msg, kv...)
	case 3:
		l.Error(msg, kv...)
	}
}

// logFiles is the content of the log and of its backups, oldest first.
func logFiles(dir, name string) (text string, backups, zipped int, err error) {
	l, err := os.ReadDir(dir)
	if err != nil {
		return
	}
	ext := filepath.Ext(name)
	stem := strings.TrimSuffix(name, ext)
	var names []string
	for _, e := range l {
		if strings.HasPrefix(e.Name(), stem+"-") {
			names = append(names, e.Name())
		}
	}
	sort.Strings(names)
	for _, n := range append(names, name) {
		b, e := os.ReadFile(filepath.Join(dir, n))
		if e != nil {
			if n == name && os.IsNotExist(e) {
				continue
			}
			return "", 0, 0, e
		}
		if n != name {
			backups++
		}
		if strings.HasSuffix(n, ".gz") {
			zipped++
			z, e := gzip.NewReader(bytes.NewReader(b))
			if e != nil {
				return "", 0, 0, e
			}
			if b, e = io.ReadAll(z); e != nil {
				return "", 0, 0, e
			}
		}
		text += string(b)
	}
	return
}

var reStd = regexp.MustCompile(`^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d `)

func runC25Loggers(r *R, c c25lCase) {
	dir, err := os.MkdirTemp("", "c25l")
	if err != nil {
		panic("harness: " + err.Error())
	}
	r.Cleanup(func() { os.RemoveAll(dir) })
	outF, e1 := os.Create(filepath.Join(dir, "stdout"))
	errF, e2 := os.Create(filepath.Join(dir, "stderr"))
	if e1 != nil || e2 != nil {
		panic("harness: cannot create files")
	}
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = outF, errF
	r.Cleanup(func() { os.Stdout, os.Stderr = so, se; outF.Close(); errF.Close() })
	buf := &lockedBuf{}
	logdir := filepath.Join(dir, "logs")
	var l gem.Logger
	switch c.Kind {
	case "std":
		if c.Nil {
			l = gem.NewStdLogger(nil, c.Prefix)
		} else {
			l = gem.NewStdLogger(buf, c.Prefix)
		}
	case "nop":
		l = gem.NopLogger()
	case "zap":
		o := gem.ZapLoggerOptions{DebugLevel: c.Debug, Console: c.Console, Compress: c.Zip}
		if c.File {
			o.LogFile = filepath.Join(logdir, "x.log")
		}
		if c.Rotate {
			o.MaxSize = 1
		}
		l = gem.NewZapLogger(o)
	}
	type due struct {
		caller, n int
		e         c25Entry
	}
	var want []due
	var wg sync.WaitGroup
	for g := 0; g < c.Callers; g++ {
		var mine []due
		for n, e := range c.Entries {
			if n%c.Callers == g {
				mine = append(mine, due{g, n, e})
				if c.Kind == "std" || c.Kind == "zap" && (e.Level > 0 || c.Debug) {
					want = append(want, due{g, n, e})
				}
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, d := range mine {
				callLogger(l, d.e.Level, d.e.msg(d.caller, d.n), d.e.kv())
				if d.e.Pad > 0 {
					// backups are told apart by the millisecond
					time.Sleep(time.Millisecond)
				}
			}
		}()
	}
	wg.Wait()
	// where it has to be
	out, _ := os.ReadFile(filepath.Join(dir, "stdout"))
	ers, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	texts := map[string]string{}
	none := map[string]string{"standard output": string(out), "standard error": string(ers), "the writer": buf.String()}
	move := func(k string) { texts[k] = none[k]; delete(none, k) }
	switch {
	case c.Kind == "std" && c.Nil:
		move("standard error")
	case c.Kind == "std":
		move("the writer")
	case c.Kind == "zap":
		if !c.File || c.Console {
			move("standard output")
		}
		if c.File {
			var text string
			var n, z int
			ok := pollFor(netWait, func() bool {
				text, n, z, err = logFiles(logdir, "x.log")
				return (err == nil || os.IsNotExist(err) && len(want) == 0) && (!c.Zip || z == n)
			})
			if !ok {
				r.Slowf("the log files cannot be read, or %d of %d backups are not compressed: %v", n-z, n, err)
				return
			}
			if !c.Zip && z > 0 {
				r.Failf("backups are compressed though that was not asked for")
			}
			if n > 0 {
				r.Label("rotated")
			}
			texts["the log file"] = text
			total := 0
			for _, d := range want {
				total += d.e.Pad << 10
			}
			if max := 1 << 20; c.Rotate && total > 3*max && n == 0 {
				r.Failf("%d bytes were written, but the log was not rotated", total)
			} else if !c.Rotate && n > 0 {
				r.Failf("the log was rotated although it is smaller than the default limit of 100 MB")
			}
			if fs, _ := os.ReadDir(logdir); len(fs) > 1+n || len(want) == 0 && len(fs) > 0 {
				r.Failf("there are %d files in the directory of the log", len(fs))
			}
		}
	}
	for k, v := range none {
		if v != "" {
			r.Failf("%s logger: written to %s: %q", c.Kind, k, clip(v, 300))
		}
	}
	for k, text := range texts {
		if len(want) > 0 && len(c.Entries) > 1 {
			r.NonTrivial()
		}
		if c.Kind == "std" {
			// the entries of each caller in order, and nothing else
			rest := map[int][]string{}
			for _, d := range want {
				rest[d.caller] = append(rest[d.caller], "["+levelNames[d.e.Level]+"] "+stdText(d.e.msg(d.caller, d.n), d.e.kv())+"\n")
			}
		next:
			for len(text) > 0 {
				if !strings.HasPrefix(text, c.Prefix) {
					r.Failf("%s: prefix %q expected: %q", k, c.Prefix, clip(text, 300))
					return
				}
				t := text[len(c.Prefix):]
				m := reStd.FindString(t)
				if m == "" {
					r.Failf("%s: date expected: %q", k, clip(t, 300))
					return
				}
				t = t[len(m):]
				for g, l := range rest {
					if len(l) > 0 && strings.HasPrefix(t, l[0]) {
						rest[g] = l[1:]
						text = t[len(l[0]):]
						continue next
					}
				}
				r.Failf("%s: not an entry that is due: %q (due: %q)", k, clip(t, 300), rest)
				return
			}
			for _, l := range rest {
				if len(l) > 0 {
					r.Failf("%s: %d entries are missing: %q", k, len(l), clip(l[0], 300))
				}
			}
			continue
		}
		rest := map[int][]due{}
		for _, d := range want {
			rest[d.caller] = append(rest[d.caller], d)
		}
		lines := strings.Split(text, "\n")
		if lines[len(lines)-1] != "" {
			r.Failf("%s ends inside a line: %q", k, clip(lines[len(lines)-1], 300))
			return
		}
		for _, line := range lines[:len(lines)-1] {
			var o map[string]any
			if err := json.Unmarshal([]byte(line), &o); err != nil {
				r.Failf("%s: not JSON: %q", k, clip(line, 300))
				return
			}
			ts, _ := o["ts"].(string)
			if _, err := time.Parse("2006-01-02T15:04:05.000Z0700", ts); err != nil {
				r.Failf("%s: no time: %q", k, clip(line, 300))
			}
			delete(o, "ts")
			found := false
			for g, l := range rest {
				if len(l) > 0 && l[0].e.msg(l[0].caller, l[0].n) == o["msg"] {
					w := map[string]any{"msg": o["msg"], "level": strings.ToLower(levelNames[l[0].e.Level])}
					kv := l[0].e.kv()
					for i := 0; i+1 < len(kv); i += 2 {
						var v any
						if e, ok := kv[i+1].(error); ok {
							v = e.Error()
						} else {
							b, _ := json.Marshal(kv[i+1])
							json.Unmarshal(b, &v)
						}
						w[kv[i].(string)] = v
					}
					if !reflect.DeepEqual(o, w) {
						r.Failf("%s has %v instead of %v", k, clip(fmt.Sprint(o), 600), clip(fmt.Sprint(w), 600))
						return
					}
					rest[g] = l[1:]
					found = true
					break
				}
			}
			if !found {
				r.Failf("%s: not an entry that is due: %q", k, clip(line, 300))
				return
			}
		}
		for _, l := range rest {
			if len(l) > 0 {
				r.Failf("%s: %d entries are missing, first %q", k, len(l), clip(l[0].e.msg(l[0].caller, l[0].n), 300))
			}
		}
	}
	if c.Callers > 1 {
		r.Label("concurrent")
	}
}

func (e c25Entry) msg(g, n int) string {
	return fmt.Sprintf("%d/%d %s%s", g, n, e.Msg, strings.Repeat("x", e.Pad<<10))
}

func (e c25Entry) kv() (l []any) {
	for i, k := range e.Keys {
		l = append(l, k)
		if i < len(e.Keys)-1 || !e.Odd {
			l = append(l, e.Vals[i].value())
		}
	}
	return
}

// stdText is the text of an entry of the standard logger.
func stdText(msg string, kv []any) string {
	for i := 0; i < len(kv); i += 2 {
		if i+1 < len(kv) {
			msg += fmt.Sprintf(" %v=%v", kv[i], kv[i+1])
		} else {
			msg += fmt.Sprintf(" EXTRA=%v", kv[i])
		}
	}
	return msg
}

// ---------------------------------------------------------------------------
// rotation
// ---------------------------------------------------------------------------

type c25rCase struct {
	Equip, Active bool
	Mode          int
	Backups       int
	Zip           bool
	Sizes         []int // kB of each message
}

func runC25Rotation(r *R, c c25rCase) {
	dir, err := os.MkdirTemp("", "c25r")
	if err != nil {
		panic("harness: " + err.Error())
	}
	r.Cleanup(func() { os.RemoveAll(dir) })
	cfg := c25Cfg{On: true, Mode: c.Mode, File: true}
	e := newGem(r, c.Active, c.Equip, 5, func(o *gem.Options) {
		o.Logging = gem.LoggingOptions{Enabled: true, Mode: hsms.LoggingMode(c.Mode), LogFile: filepath.Join(dir, "t.log"), MaxSize: 1, MaxBackups: c.Backups, Compress: c.Zip}
	})
	e.p.RegisterHandler(2, 21, func(m *ast.DataMessage) (*ast.DataMessage, error) {
		return ast.NewDataMessage("", 2, 22, 2, "H<-E", iB(1).node()), nil
	})
	if !e.up() {
		return
	}
	var want []string
	total := 0
	for i, k := range c.Sizes {
		// an entry has to be smaller than the file
		f := dataFrame(5, 2, 21, true, e.peer.nextSys(), iA(strings.Repeat(string(rune('a'+i)), k<<10)))
		want = append(want, cfg.logged(f.enc(), false)...)
		e.peer.send(f)
		a, ok := e.peer.take(netWait, func(x rxFrame) bool { return x.SType == 0 && x.Sys == f.Sys })
		if !ok {
			r.Slowf("message %d of %d kB was not answered in %v", i, k, netWait)
			return
		}
		want = append(want, cfg.logged(a.raw, true)...)
		total += []int{1, 1, 3, 4}[c.Mode] * k << 10
		time.Sleep(2 * time.Millisecond) // backups are told apart by the millisecond
	}
	if !e.peer.sync(r) {
		return
	}
	var diff string
	n := 0
	ok := pollFor(netWait, func() bool {
		text, b, z, err := logFiles(dir, "t.log")
		n = b
		switch {
		case err != nil:
			diff = err.Error()
			return false
		case c.Zip && z < b:
			diff = fmt.Sprintf("%d of %d backups are not compressed", b-z, b)
			return false
		case !c.Zip && z > 0:
			diff = "backups are compressed though that was not asked for"
			return false
		case c.Backups > 0 && b > c.Backups:
			diff = fmt.Sprintf("%d backups are kept, %d allowed", b, c.Backups)
			return false
		}
		if c.Backups > 0 {
			// it may begin inside an entry
			for text != "" && !reLogData.MatchString(strings.SplitN(text, "\n", 2)[0]) {
				i := strings.IndexByte(text, '\n')
				text = text[i+1:]
			}
		}
		have, err := parseLog(text, hsms.LoggingMode(c.Mode))
		if err != nil {
			diff = err.Error()
			return false
		}
		var mine []string
		for _, l := range have {
			if strings.Contains(l, " S2F21 ") || strings.Contains(l, " S2F22 ") {
				mine = append(mine, normEntry(l))
			}
		}
		w := want
		if c.Backups > 0 && len(mine) < len(w) {
			w = w[len(w)-len(mine):]
		}
		if len(mine) != len(w) {
			diff = fmt.Sprintf("%d entries instead of %d", len(mine), len(w))
			return false
		}
		for i := range w {
			if mine[i] != w[i] {
				diff = fmt.Sprintf("entry %d is %s instead of %s", i, clip(mine[i], 300), clip(w[i], 300))
				return false
			}
		}
		diff = ""
		return true
	})
	if !ok {
		r.Slowf("log file of %d bytes with backups (limit %d): %s", total, c.Backups, diff)
	}
	if total > 5<<20/2 && n == 0 {
		r.Failf("%d bytes were logged, but the log was not rotated", total)
	}
	if n > 0 {
		r.NonTrivial()
		r.LabelN("backups", n)
	}
}

func init() {
	register("C25", "loggers", "the loggers of the library (standard with any prefix, to a writer or standard error; zap to standard output, a file or both, with and without debug entries, rotation and compression; silent) with up to 20 entries from 1-4 goroutines: every entry once, with its level, message, keys and values, in the order of each goroutine, where it belongs and nowhere else; non-trivial: two entries or more",
		opts{quick: budget{250, 8}, thorough: budget{5000, 60}},
		func(t *rapid.T) c25lCase {
			c := c25lCase{Kind: pick(t, "kind", "std", "std", "zap", "zap", "zap", "nop"), Prefix: pick(t, "prefix", "", "p: ", "%d ", "[", "é"), Nil: oneIn(t, "nil", 4), File: !oneIn(t, "nofile", 3), Debug: coin(t, "debug"), Console: oneIn(t, "console", 3), Callers: 1}
			if coin(t, "conc") {
				c.Callers = rng(t, "callers", 2, 4)
			}
			if c.Kind == "zap" && c.File && oneIn(t, "rotate", 5) {
				c.Rotate, c.Zip = true, coin(t, "zip")
			}
			text := func(l string) string {
				return pick(t, l, "", "a", "two words", "tab\tand \"quotes\"", "line\nbreak", "ends in one\n", "100%s", "é世", "a=b", "\\x", "{\"level\":\"x\"}")
			}
			n := rng(t, "entries", 0, 20)
			if c.Rotate {
				n = rng(t, "many", 10, 60)
			}
			for i := 0; i < n; i++ {
				e := c25Entry{Level: rng(t, "level", 0, 3), Msg: text("msg")}
				for j, m := 0, rng(t, "kv", 0, 3); j < m; j++ {
					e.Keys = append(e.Keys, fmt.Sprint(pick(t, "key", "k", "the key", "é", "error", "%v"), j))
					e.Vals = append(e.Vals, c25Val{K: pick(t, "vk", "string", "string", "int", "uint8", "bool", "float", "error", "nil", "list"), S: text("vs"), N: rng(t, "vn", -200, 1000000)})
				}
				e.Odd = c.Kind == "std" && oneIn(t, "odd", 6)
				if c.Rotate {
					e.Pad = rng(t, "pad", 50, 150)
				}
				c.Entries = append(c.Entries, e)
			}
			return c
		}, runC25Loggers)
	register("C25", "rotation", "GEM endpoints whose traffic is logged to a file limited to 1 MB, with any number of backups kept, compressed or not: 3-12 messages of up to 200 kB, all of them in the file and its backups, in order, or the last of them where backups are deleted; non-trivial: the file was rotated",
		opts{quick: budget{12, 10}, thorough: budget{300, 60}},
		func(t *rapid.T) c25rCase {
			c := c25rCase{Equip: coin(t, "equip"), Active: coin(t, "active"), Mode: rng(t, "mode", 0, 3), Backups: rng(t, "backups", 0, 3), Zip: oneIn(t, "zip", 3)}
			for i, n := 0, rng(t, "n", 3, 12); i < n; i++ {
				c.Sizes = append(c.Sizes, rng(t, "size", 50, 200))
			}
			return c
		}, runC25Rotation)
}
