package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// C25: the traffic log against the traffic.

type c25Cfg struct {
	On      bool
	Mode    int
	Control bool
	Exclude []string
	File    bool // LogFile (GEM only)
	NilW    bool // no writer: standard error
}

type c25Op struct {
	Op  string // in, ask, say, resp, silent, ctrl, deselect, select, config, separate
	S   int
	F   int
	W   int
	It  Item
	RIt Item
	Sys uint32
	Oth bool
	Cfg c25Cfg
	K   int
}

type c25Case struct {
	Mode    string // proto, equipment, host
	Active  bool
	Session uint16
	Cfg     c25Cfg
	Ops     []c25Op
	T3      bool
	Disable bool
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}
func (l *lockedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

var (
	reLogData = regexp.MustCompile(`^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3} \[(IN|OUT)\]\[DATA\] S(\d{2,3})F(\d{2,3}) session=(\d+) wait=(TRUE|FALSE) system=([0-9A-F]{8})$`)
	reLogCtrl = regexp.MustCompile(`^\[(RX|TX)\]\[CTRL\] ([a-z]+\.[a-z]+) session=(\d+) status=(\d+) system=([0-9A-F]{8})$`)
	reLogCBin = regexp.MustCompile(`^\[(RX|TX)\]\[CTRL\]\[BIN\] ([0-9A-F]+)$`)
)

var ctrlNames = map[byte]string{1: "select.req", 2: "select.rsp", 3: "deselect.req", 4: "deselect.rsp", 5: "linktest.req", 6: "linktest.rsp", 7: "reject.req", 9: "separate.req"}

// parseLog turns a log into entries "dir|..." that can be compared.
func parseLog(s string, m hsms.LoggingMode) ([]string, error) {
	var out []string
	lines := strings.Split(s, "\n")
	if lines[len(lines)-1] != "" {
		return nil, fmt.Errorf("the log ends inside a line: %q", lines[len(lines)-1])
	}
	lines = lines[:len(lines)-1]
	i := 0
	for i < len(lines) {
		l := lines[i]
		i++
		if l == "" {
			continue
		}
		if x := reLogData.FindStringSubmatch(l); x != nil {
			e := fmt.Sprintf("%s S%sF%s session=%s wait=%s sys=%s", x[1], strings.TrimLeft(x[2][:len(x[2])-1], "0")+x[2][len(x[2])-1:], strings.TrimLeft(x[3][:len(x[3])-1], "0")+x[3][len(x[3])-1:], x[4], x[5], x[6])
			for i < len(lines) && (lines[i] == "    SML:" || lines[i] == "    BIN:") {
				kind := lines[i]
				i++
				var block []string
				for i < len(lines) && strings.HasPrefix(lines[i], "      ") {
					block = append(block, lines[i][6:])
					i++
				}
				if kind == "    SML:" {
					e += "|SML=" + strings.Join(block, "\n")
				} else {
					e += "|BIN=" + strings.ToUpper(strings.ReplaceAll(strings.Join(block, ""), " ", ""))
				}
			}
			out = append(out, e)
			continue
		}
		if x := reLogCtrl.FindStringSubmatch(l); x != nil {
			e := fmt.Sprintf("%s %s session=%s status=%s sys=%s", x[1], x[2], x[3], x[4], x[5])
			if m == hsms.LoggingModeBoth && i < len(lines) {
				if y := reLogCBin.FindStringSubmatch(lines[i]); y != nil && y[1] == x[1] {
					e += "|BIN=" + y[2]
					i++
				}
			}
			out = append(out, e)
			continue
		}
		if x := reLogCBin.FindStringSubmatch(l); x != nil {
			out = append(out, x[1]+" |BIN="+x[2])
			continue
		}
		return nil, fmt.Errorf("the log has the line %q", l)
	}
	return out, nil
}

// logged is what the log has to say about a frame.
func (c c25Cfg) logged(raw []byte, sent bool) []string {
	if !c.On {
		return nil
	}
	mode := hsms.LoggingMode(c.Mode)
	text := mode == hsms.LoggingModeUnset || mode == hsms.LoggingModeSML || mode == hsms.LoggingModeBoth
	bin := mode == hsms.LoggingModeBinary || mode == hsms.LoggingModeBoth
	f, err := decFrame(raw)
	if err != nil {
		panic("harness: logged: undecodable frame")
	}
	hx := fmt.Sprintf("%X", raw)
	if f.SType != 0 {
		dir := "RX"
		if sent {
			dir = "TX"
		}
		if !c.Control {
			return nil
		}
		for _, x := range c.Exclude {
			if strings.ToLower(strings.TrimSpace(x)) == ctrlNames[f.SType] {
				return nil
			}
		}
		e := dir + " "
		if text {
			e = fmt.Sprintf("%s %s session=%d status=%d sys=%08X", dir, ctrlNames[f.SType], f.Session, f.B3, f.Sys)
		}
		if bin {
			e += "|BIN=" + hx
		}
		return []string{e}
	}
	dir := "IN"
	if sent {
		dir = "OUT"
	}
	e := fmt.Sprintf("%s S%dF%d session=%d wait=%s sys=%08X", dir, f.S(), f.F(), f.Session, strings.ToUpper(fmt.Sprint(f.W())), f.Sys)
	if text {
		e += "|SML=" + smlOf(f)
	}
	if bin {
		e += "|BIN=" + hx
	}
	return []string{e}
}

// smlOf is the text of a message without its direction.
func smlOf(f Frame) string {
	m := ast.NewDataMessage("", f.S(), f.F(), b2i(f.W()), "H<->E", f.Item.node())
	return stripDir(strings.TrimSuffix(m.String(), "\n"))
}

// stripDir removes the direction and the name from the first line of a text.
func stripDir(s string) string {
	i := strings.IndexByte(s, '\n')
	if i < 0 {
		i = len(s)
	}
	f := strings.Fields(s[:i])
	h := ""
	if len(f) > 0 {
		h = f[0]
	}
	if len(f) > 1 && f[1] == "W" {
		h += " W"
	}
	return h + s[i:]
}

func normEntry(e string) string {
	if i := strings.Index(e, "|SML="); i >= 0 {
		j := strings.Index(e, "|BIN=")
		if j < i {
			j = len(e)
		}
		return e[:i+5] + stripDir(e[i+5:j]) + e[j:]
	}
	return e
}

func runC25(r *R, c c25Case) {
	dir, err := os.MkdirTemp("", "c25")
	if err != nil {
		panic("harness: " + err.Error())
	}
	r.Cleanup(func() { os.RemoveAll(dir) })
	outF, e1 := os.Create(filepath.Join(dir, "stdout"))
	errF, e2 := os.Create(filepath.Join(dir, "stderr"))
	if e1 != nil || e2 != nil {
		panic("harness: cannot create files")
	}
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = outF, errF
	r.Cleanup(func() { os.Stdout, os.Stderr = so, se; outF.Close(); errF.Close() })

	// the segments of the history, each with its own log
	type segment struct {
		cfg  c25Cfg
		buf  *lockedBuf
		file string
		want []string
		errs int64 // where it starts in standard error
		errE int64 // and where it ends, if it has ended
	}
	var segs []*segment
	mkSeg := func(cfg c25Cfg) *segment {
		fi, _ := errF.Stat()
		s := &segment{cfg: cfg, buf: &lockedBuf{}, errs: fi.Size(), errE: -1}
		if n := len(segs); n > 0 {
			segs[n-1].errE = fi.Size()
		}
		if cfg.File {
			s.file = filepath.Join(dir, fmt.Sprintf("log%d", len(segs)))
		}
		segs = append(segs, s)
		return s
	}
	content := func(s *segment) string {
		if s.file != "" {
			b, _ := os.ReadFile(s.file)
			return string(b)
		}
		if s.cfg.NilW {
			b, _ := os.ReadFile(filepath.Join(dir, "stderr"))
			if s.errE >= 0 {
				b = b[:s.errE]
			}
			return string(b[s.errs:])
		}
		return s.buf.String()
	}
	cur := mkSeg(c.Cfg)
	conf := func(s *segment) hsms.LoggingConfig {
		l := hsms.LoggingConfig{Enabled: s.cfg.On, Mode: hsms.LoggingMode(s.cfg.Mode), IncludeControlMessages: s.cfg.Control, Writer: s.buf}
		if s.cfg.NilW {
			l.Writer = nil
		}
		if s.cfg.Exclude != nil {
			l.ExcludedControlMessageTypes = map[string]struct{}{}
			for _, x := range s.cfg.Exclude {
				l.ExcludedControlMessageTypes[x] = struct{}{}
			}
		}
		return l
	}
	var p *hsms.HsmsProtocol
	var st *Station
	var ge *gemEnd
	autoDesel := func(p *Peer, f rxFrame) bool {
		if f.SType == sDeselectReq {
			p.send(ctrlFrame(f.Session, 0, 0, sDeselectRsp, f.Sys))
			return true
		}
		return false
	}
	if c.Mode == "proto" {
		st = newStation(r, c.Active)
		p = newProto(r, st, int(c.Session))
		p.ConfigureLogging(conf(cur))
		r.Cleanup(func() { disable(p, st) })
		st.hook = autoDesel
	} else {
		ge = newGem(r, c.Active, c.Mode == "equipment", c.Session, func(o *gem.Options) {
			o.Logging = gem.LoggingOptions{Enabled: c.Cfg.On, Mode: hsms.LoggingMode(c.Cfg.Mode), IncludeControlMessages: c.Cfg.Control, ExcludeControlMessageTypes: c.Cfg.Exclude, Writer: cur.buf, LogFile: cur.file}
			if c.Cfg.NilW {
				o.Logging.Writer = nil
			}
		})
		p, st = ge.p, ge.st
		h := st.hook
		st.hook = func(p *Peer, f rxFrame) bool { return autoDesel(p, f) || h(p, f) }
	}
	st.track = true
	if c.T3 {
		p.Timeouts().SetT3ReplyTimeout(1)
	}
	p.RegisterHandler(2, 21, func(m *ast.DataMessage) (*ast.DataMessage, error) {
		return ast.NewDataMessage("", 2, 22, 2, "H<-E", iB(1).node()), nil
	})
	var peer *Peer
	txn, rxn := 0, 0 // frames of the peer already counted
	up := func() bool {
		if ge != nil {
			if !ge.up() {
				return false
			}
			peer = ge.peer
		} else {
			p.Enable()
			if peer = st.up(r, c.Session); peer == nil {
				return false
			}
		}
		txn, rxn = 0, 0
		// its own linktest
		if !pollFor(3*time.Second, func() bool {
			peer.mu.Lock()
			defer peer.mu.Unlock()
			for _, f := range peer.all {
				if f.SType == sLinktestReq {
					return true
				}
			}
			return false
		}) {
			r.Label("no linktest")
		}
		return true
	}
	settle := func() bool {
		// what the peer answers by itself follows the frame it answers: go on
		// until only the linktest of sync was exchanged
		for k := 0; k < 20 && !peer.ended(); k++ {
			count := func() (n int) {
				peer.mu.Lock()
				n = len(peer.all)
				peer.mu.Unlock()
				peer.wmu.Lock()
				n += len(peer.sent)
				peer.wmu.Unlock()
				return
			}
			n := count()
			if !peer.sync(r) {
				return false
			}
			if k > 0 && count() == n+2 {
				break
			}
		}
		peer.mu.Lock()
		for _, f := range peer.all[rxn:] {
			cur.want = append(cur.want, cur.cfg.logged(f.raw, true)...)
		}
		rxn = len(peer.all)
		peer.mu.Unlock()
		peer.wmu.Lock()
		for _, b := range peer.sent[txn:] {
			cur.want = append(cur.want, cur.cfg.logged(b, false)...)
		}
		txn = len(peer.sent)
		peer.wmu.Unlock()
		return true
	}
	verify := func(s *segment, where string) bool {
		want := append([]string{}, s.want...)
		sort.Strings(want)
		var diff string
		ok := pollFor(3*time.Second, func() bool {
			text := content(s)
			have, err := parseLog(text, hsms.LoggingMode(s.cfg.Mode))
			if err != nil {
				diff = err.Error()
				return false
			}
			for i := range have {
				have[i] = normEntry(have[i])
			}
			sort.Strings(have)
			diff = ""
			for i, j := 0, 0; i < len(have) || j < len(want); {
				switch {
				case j >= len(want) || i < len(have) && have[i] < want[j]:
					diff = fmt.Sprintf("the log has an entry too many: %s", clip(have[i], 1000))
					return false
				case i >= len(have) || have[i] > want[j]:
					diff = fmt.Sprintf("the log lacks the entry: %s", clip(want[j], 1000))
					if i < len(have) {
						diff += fmt.Sprintf("\nit has: %s", clip(have[i], 1000))
					}
					return false
				}
				i++
				j++
			}
			return true
		})
		if !ok {
			r.Slowf("%s, logging %+v: %s", where, s.cfg, diff)
		}
		return ok
	}
	if !up() {
		return
	}
	selected := true
	for i, op := range c.Ops {
		where := fmt.Sprintf("op %d (%s)", i, op.Op)
		sess := c.Session
		if op.Oth {
			sess ^= 0x0011
		}
		switch op.Op {
		case "in":
			peer.send(dataFrame(sess, op.S, op.F, op.W == 1 && op.F%2 == 1, op.Sys, op.It))
			r.Label("received")
		case "say":
			if !selected {
				break
			}
			if err := p.SendDataMessage(ast.NewDataMessage("", op.S, op.F, min(op.W, 2*(op.F%2)+0), "H<->E", op.It.node())); err != nil && op.W != 1 {
				r.Failf("%s: %v", where, err)
				return
			}
			r.Label("sent")
		case "resp":
			if !selected {
				break
			}
			if err := p.SendResponse(ast.NewDataMessage("", op.S, op.F&^1, 0, "H<->E", op.It.node()), sysB(op.Sys)); err != nil {
				r.Failf("%s: %v", where, err)
				return
			}
			r.Label("sent")
		case "ask", "silent":
			if !selected || op.Op == "silent" && !c.T3 {
				break
			}
			if !peer.sync(r) {
				return
			}
			peer.rest()
			done := make(chan struct{})
			go func() {
				defer close(done)
				p.SendAndWait(ast.NewDataMessage("", op.S, op.F|1, 1+op.W%2, "H<->E", op.It.node()))
			}()
			f, ok := peer.take(netWait, func(f rxFrame) bool { return f.SType == 0 && f.W() })
			if !ok {
				r.Slowf("%s: the request was not sent", where)
				return
			}
			if op.Op == "ask" {
				peer.send(dataFrame(sess, op.S, op.F&^1, false, f.Sys, op.RIt))
			} else {
				r.Label("S9F9")
			}
			select {
			case <-done:
			case <-time.After(netWait):
				r.Slowf("%s: no reply", where)
				return
			}
			r.Label("request")
		case "ctrl":
			switch op.K {
			case 0:
				peer.send(ctrlFrame(sess, 0, 0, sLinktestReq, op.Sys))
			case 1:
				peer.send(ctrlFrame(sess, 0, byte(op.F), sLinktestRsp, op.Sys))
			case 2:
				peer.send(ctrlFrame(sess, 2, byte(op.F), sRejectReq, op.Sys))
			case 3:
				if selected {
					peer.send(ctrlFrame(0xffff, 0, 0, sSelectReq, op.Sys))
				}
			}
		case "deselect":
			if c.Mode != "proto" {
				break
			}
			peer.send(ctrlFrame(sess, 0, 0, sDeselectReq, op.Sys))
			selected = false
		case "select":
			if selected {
				break
			}
			peer.send(ctrlFrame(c.Session, 0, 0, sSelectReq, op.Sys))
			if !peer.sync(r) {
				return
			}
			selected = true
		case "config":
			if c.Mode != "proto" {
				break
			}
			if !settle() || !verify(cur, where) {
				return
			}
			time.Sleep(2 * time.Millisecond)
			op.Cfg.File = false
			cur = mkSeg(op.Cfg)
			p.ConfigureLogging(conf(cur))
		case "separate":
			if c.Mode != "proto" || !settle() {
				break
			}
			peer.send(ctrlFrame(sess, 0, 0, sSeparateReq, op.Sys))
			if !peer.waitEnd(netWait) {
				r.Slowf("%s: the connection was not ended", where)
				return
			}
			if !settle() {
				return
			}
			if !c.Active && !waitState(p, netWait, hsms.StateNotConnected) {
				r.Slowf("%s: the state is %s", where, p.CurrentState())
				return
			}
			if !up() {
				return
			}
			selected = true
		}
	}
	if c.Disable {
		if !peer.sync(r) {
			return
		}
		done := make(chan struct{})
		st.unlisten()
		go func() { p.Disable(); close(done) }()
		select {
		case <-done:
		case <-time.After(netWait):
			r.Slowf("Disable had not returned after %v", netWait)
			return
		}
		if !peer.waitEnd(netWait) {
			r.Slowf("the connection was not ended by Disable")
			return
		}
		r.Label("disabled")
	}
	if !settle() {
		return
	}
	for i, s := range segs {
		if !verify(s, fmt.Sprintf("end, log %d", i)) {
			return
		}
		if s.cfg.On && len(s.want) > 0 {
			r.NonTrivial()
			r.LabelN("log entries", len(s.want))
		}
		if !s.cfg.On {
			r.Label("logging off")
			r.NonTrivial()
		}
	}
	if b, _ := os.ReadFile(filepath.Join(dir, "stdout")); len(b) > 0 {
		r.Failf("written to standard output: %q", clip(string(b), 500))
	}
	if fi, _ := errF.Stat(); fi.Size() > 0 {
		used := false
		for _, s := range segs {
			used = used || s.cfg.NilW && s.cfg.On
		}
		if !used {
			b, _ := os.ReadFile(filepath.Join(dir, "stderr"))
			r.Failf("written to standard error though no log goes there: %q", clip(string(b), 500))
		}
	}
	peer.check(r)
}

func genC25Cfg(t *rapid.T) c25Cfg {
	c := c25Cfg{On: !oneIn(t, "off", 4), Mode: rng(t, "lmode", 0, 3), Control: coin(t, "control"), File: oneIn(t, "file", 4), NilW: oneIn(t, "nilw", 8)}
	if coin(t, "excl") {
		n := rng(t, "nexcl", 0, 3)
		c.Exclude = []string{}
		for i := 0; i < n; i++ {
			x := pick(t, "exclw", "linktest.req", "linktest.rsp", "select.req", "select.rsp", "deselect.req", "deselect.rsp", "separate.req", "reject.req", "linktest", "", "S1F1")
			switch rng(t, "exclform", 0, 3) {
			case 0:
				x = strings.ToUpper(x)
			case 1:
				x = " " + strings.Title(x) + "\t"
			}
			c.Exclude = append(c.Exclude, x)
		}
	}
	if c.File {
		c.NilW = false
	}
	return c
}

func init() {
	shards("C25", 16, 16)
	register("C25", "log", "up to 20 operations (messages received, sent, requested and answered, timeouts, control messages, deselect, separate and reconnect, disable) on an HSMS endpoint, GEM equipment or GEM host in either role under generated logging configurations that change on the way; the log parsed and compared entry by entry with the frames both sides exchanged, standard output and error captured; non-trivial: entries were due or logging was off",
		opts{quick: budget{400, 20}, thorough: budget{10000, 350}},
		func(t *rapid.T) c25Case {
			c := c25Case{Mode: pick(t, "mode", "proto", "proto", "proto", "equipment", "host"), Active: coin(t, "active"), Session: genOwnSession(t), Cfg: genC25Cfg(t), T3: oneIn(t, "t3", 12), Disable: oneIn(t, "disable", 4)}
			if c.Mode == "proto" {
				c.Cfg.File = false
			} else {
				c.T3 = false
			}
			for i, n := 0, rng(t, "ops", 1, 20); i < n; i++ {
				op := c25Op{Op: pick(t, "op", "in", "in", "in", "in", "say", "say", "ask", "ask", "resp", "ctrl", "ctrl", "deselect", "select", "select", "config", "separate", "silent"), W: rng(t, "w", 0, 2), It: genSmallItem(t, "it"), K: rng(t, "k", 0, 3)}
				op.S, op.F = genSF(t)
				if oneIn(t, "handled", 4) {
					op.S, op.F = 2, 21
				}
				if op.Op == "ask" || op.Op == "silent" || op.Op == "say" || op.Op == "resp" {
					if op.S == 9 {
						op.S = 10
					}
				}
				if c.Mode != "proto" && op.Op == "in" && op.S == 1 && (op.F == 13 || op.F == 14 || op.F == 15 || op.F == 17) {
					op.F = 3
				}
				if c.Mode != "proto" && (op.Op == "ask" || op.Op == "silent" || op.Op == "say") && op.S == 1 {
					op.S = 2
				}
				op.RIt = genSmallItem(t, "rit")
				op.Sys = uint32(pick(t, "sys", 0, 1, 0x0a0b0c0d, 0xffffffff, rng(t, "sysx", 0, 0xffffffff)))
				op.Oth = oneIn(t, "oth", 6)
				if op.Op == "config" {
					op.Cfg = genC25Cfg(t)
					op.Cfg.File = false
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runC25)
}
