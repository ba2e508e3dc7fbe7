package main

import (
	"fmt"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// C14: received stream 9 messages are reported once each.

type c14Op struct {
	Op  string // s9, open, reply, other, deselect, select, handler, default
	F   int
	S   int
	W   bool
	Sys uint32
	Of  int // -1: Sys, else the open request whose system bytes are used
	It  Item
	Oth bool
}

type c14Case struct {
	Mode    string // proto, equipment, host
	Active  bool
	Session uint16
	Ops     []c14Op
}

var s9Text = map[int]string{
	1:  "Unrecognized Device ID",
	3:  "Unrecognized Stream",
	5:  "Unrecognized Function",
	7:  "Illegal Data",
	9:  "Transaction Timer Timeout",
	11: "Data Too Long",
	13: "Conversation Timeout",
}

// what the constants have to say
var s9Means = map[int]string{1: "Unrecognized Device ID", 3: "Unrecognized Stream", 5: "Unrecognized Function", 7: "Illegal Data", 9: "Transaction Timer Timeout", 11: "Data Too Long", 13: "Conversation Timeout"}

type s9Seen struct {
	F    int
	Text string
	Sys  string
}

func runC14(r *R, c c14Case) {
	for f, m := range s9Means {
		if s9Text[f] != m {
			r.Failf("the description of S9F%d is %q", f, s9Text[f])
		}
	}
	var mu sync.Mutex
	var got []s9Seen
	note := func(e *hsms.S9ErrorInfo) {
		mu.Lock()
		defer mu.Unlock()
		if e == nil {
			got = append(got, s9Seen{F: -1})
			return
		}
		got = append(got, s9Seen{e.ErrorCode, e.ErrorText, string(e.SystemBytes)})
	}
	var p *hsms.HsmsProtocol
	var peer *Peer
	if c.Mode == "proto" {
		st := newStation(r, c.Active)
		p = newProto(r, st, int(c.Session))
		r.Cleanup(func() { disable(p, st) })
		p.OnS9Error = note
		p.Enable()
		if peer = st.up(r, c.Session); peer == nil {
			return
		}
	} else {
		e := newGem(r, c.Active, c.Mode == "equipment", c.Session, nil)
		p = e.p
		e.g.Events().S9ErrorReceived.AddCallback(func(d map[string]interface{}) {
			if h, ok := d["handler"].(*gem.GemHandler); !ok || h != e.g {
				r.Failf("the event has the handler %T", d["handler"])
			}
			x, _ := d["error"].(*hsms.S9ErrorInfo)
			note(x)
		})
		if !e.up() {
			return
		}
		peer = e.peer
	}
	type open struct {
		sys  uint32
		done chan struct{}
		v    view
		err  error
		want view
		ans  bool
	}
	var opens []*open
	var want []s9Seen
	selected := true
	check := func(where string) bool {
		if !peer.sync(r) {
			return false
		}
		mu.Lock()
		defer mu.Unlock()
		for i := 0; i < len(got) || i < len(want); i++ {
			if i >= len(got) {
				r.Failf("%s: the S9F%d with system bytes %x was not reported", where, want[i].F, want[i].Sys)
				return false
			}
			if i >= len(want) {
				r.Failf("%s: reported %+v, for which no stream 9 message was sent (or it was reported already)", where, got[i])
				return false
			}
			g, w := got[i], want[i]
			if _, known := s9Means[w.F]; !known {
				g.Text, w.Text = "", ""
			}
			if g != w {
				r.Failf("%s: reported %+v (system bytes %x); sent %+v (system bytes %x)", where, g, g.Sys, w, w.Sys)
				return false
			}
		}
		got, want = nil, nil
		return true
	}
	for i, op := range c.Ops {
		where := fmt.Sprintf("op %d", i)
		sess := c.Session
		if op.Oth {
			sess ^= 0x0101
		}
		sys := op.Sys
		var to *open
		if op.Of >= 0 && op.Of < len(opens) {
			to = opens[op.Of]
			sys = to.sys
		}
		switch op.Op {
		case "s9":
			f := dataFrame(sess, 9, op.F, op.W && op.F%2 == 1, sys, op.It)
			peer.send(f)
			if selected {
				want = append(want, s9Seen{op.F, s9Means[op.F], string(sysB(sys))})
				r.Label("stream 9")
				if to != nil {
					r.Label("stream 9 for a request")
					if !to.ans {
						to.ans, to.want = true, f.view()
					}
				}
			} else {
				r.Label("stream 9 while not selected")
			}
		case "other":
			// no stream 9 message, though it looks like one
			if op.S == 9 || op.S == 1 && op.F >= 13 && op.F <= 18 {
				continue
			}
			w := op.W && op.F%2 == 1
			f := dataFrame(sess, op.S, op.F|1, w, sys, op.It)
			peer.send(f)
		case "open":
			if !selected || len(opens) >= 8 {
				continue
			}
			o := &open{done: make(chan struct{})}
			m := message(op.S, op.F|1, true, op.It)
			if op.S == 9 {
				m = message(2, op.F|1, true, op.It)
			}
			go func() {
				defer close(o.done)
				a, err := p.SendAndWait(m)
				o.err = err
				if a != nil {
					o.v = viewOf(a)
				}
			}()
			f, ok := peer.take(netWait, func(f rxFrame) bool { return f.SType == 0 && f.W() })
			if !ok {
				r.Slowf("%s: the request was not sent", where)
				return
			}
			o.sys = f.Sys
			opens = append(opens, o)
		case "reply":
			if to == nil || !selected {
				continue
			}
			f := dataFrame(sess, op.S, op.F&^1, false, sys, op.It)
			if op.S == 9 {
				continue
			}
			peer.send(f)
			if !to.ans {
				to.ans, to.want = true, f.view()
			}
		case "deselect":
			if selected && c.Mode == "proto" {
				peer.send(ctrlFrame(c.Session, 0, 0, sDeselectReq, 77))
				selected = false
			}
		case "select":
			if !selected {
				peer.send(ctrlFrame(c.Session, 0, 0, sSelectReq, 78))
				selected = true
				if !peer.sync(r) {
					return
				}
			}
		case "handler":
			p.RegisterHandler(9, op.F, func(*ast.DataMessage) (*ast.DataMessage, error) { return nil, nil })
		case "default":
			p.RegisterDefaultHandler(func(*ast.DataMessage) (*ast.DataMessage, error) { return nil, nil })
		}
		if op.Oth || i%3 == 2 {
			if !check(where) {
				return
			}
		}
	}
	if !selected {
		peer.send(ctrlFrame(c.Session, 0, 0, sSelectReq, 79))
	}
	if !check("end") {
		return
	}
	for i, o := range opens {
		if !o.ans {
			f := dataFrame(c.Session, 2, 2, false, o.sys, iU(1, uint64(i)))
			peer.send(f)
			o.ans, o.want = true, f.view()
		}
		select {
		case <-o.done:
		case <-time.After(netWait):
			r.Slowf("request %d got no reply", i)
			return
		}
		if o.err != nil || o.v != o.want {
			r.Failf("request %d with system bytes %08x ended with %v, error %v; want %v", i, o.sys, o.v, o.err, o.want)
			return
		}
	}
	if !check("end") {
		return
	}
	for _, f := range peer.rest() {
		if f.SType == 0 && f.S() == 9 && f.F()%2 == 1 && len(f.Item.B) == 1 && (f.F() != 3 && f.F() != 5 || f.Item.B[0] == 9 && f.F() == 3) {
			r.Failf("a stream 9 message was answered with %v", f.view())
		}
	}
	peer.check(r)
	r.NonTrivial()
}

// c14Built: a stream 9 message made by its builder.
type c14Built struct {
	F       int
	Code    byte
	Header  []byte
	Sys     []byte
	Session int // set afterwards; -1: not
	Sys2    []byte
}

func runC14Built(r *R, c c14Built) {
	var m *ast.DataMessage
	sys := append([]byte{}, c.Sys...)
	header := append([]byte{}, c.Header...)
	want := iL()
	switch c.F {
	case 1:
		m, want = hsms.BuildS9F1(c.Code, sys), iB(c.Code)
	case 3:
		m, want = hsms.BuildS9F3(c.Code, sys), iB(c.Code)
	case 5:
		m, want = hsms.BuildS9F5(c.Code, sys), iB(c.Code)
	case 7:
		m = hsms.BuildS9F7(sys)
	case 9:
		m, want = hsms.BuildS9F9(header, sys), iB(c.Header...)
	case 11:
		m = hsms.BuildS9F11(sys)
	case 13:
		m = hsms.BuildS9F13(sys)
	}
	// the message is made of what was passed, whatever becomes of that later
	for i := range sys {
		sys[i] ^= 0x5a
	}
	for i := range header {
		header[i] ^= 0x5a
	}
	check := func(when string, m *ast.DataMessage, session int, sys []byte) {
		if m == nil {
			r.Fatalf("%s: no S9F%d was made", when, c.F)
		}
		f, err := decFrame(m.ToBytes())
		if err != nil {
			r.Fatalf("%s: S9F%d is encoded as %x: %v", when, c.F, m.ToBytes(), err)
		}
		if f.S() != 9 || f.F() != c.F || f.W() || f.SType != 0 || int(f.Session) != session || string(sysB(f.Sys)) != string(sys) || !f.Item.same(want) {
			r.Fatalf("%s: S9F%d with %v is sent as %v, want session %d, system bytes %x, body %v", when, c.F, want, f.view(), session, sys, want)
		}
	}
	check("as made", m, 0, c.Sys)
	if c.Session >= 0 {
		check("with a session id", m.SetSessionIDAndSystemBytes(c.Session, c.Sys2), c.Session, c.Sys2)
		check("the first one", m, 0, c.Sys)
	}
	info := hsms.NewS9ErrorInfo(c.F, s9Text[c.F], m, c.Sys)
	if info == nil || info.ErrorCode != c.F || info.ErrorText != s9Means[c.F] || info.OriginalMessage != m || string(info.SystemBytes) != string(c.Sys) {
		r.Failf("NewS9ErrorInfo for S9F%d, %x is %+v", c.F, c.Sys, info)
	}
	r.Label(fmt.Sprintf("S9F%d", c.F))
	r.NonTrivial()
}

func init() {
	shards("C14", 16, 16)
	register("C14", "builders", "stream 9 messages of every function made by the library's builders from any code, header and system bytes, decoded by the reference codec; non-trivial: every case",
		opts{quick: budget{4000, 5}, thorough: budget{200000, 60}},
		func(t *rapid.T) c14Built {
			sys := func(n string) []byte { return rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, n) }
			return c14Built{F: pick(t, "f", 1, 3, 5, 7, 9, 11, 13), Code: rapid.Byte().Draw(t, "code"), Header: rapid.SliceOfN(rapid.Byte(), 10, 10).Draw(t, "header"), Sys: sys("sys"), Session: pick(t, "session", -1, 0, 1, 0x7fff, 0xffff, rng(t, "sx", 0, 65535)), Sys2: sys("sys2")}
		}, runC14Built)
	register("C14", "reports", "up to 30 operations on an HSMS endpoint, a GEM equipment or a GEM host in either role: stream 9 messages of every function with generated bodies, session ids and system bytes, also those of open requests, among requests, replies, look-alike messages, deselects and handler registrations; callback (or event) calls compared with what was sent; non-trivial: the whole history was run",
		opts{quick: budget{700, 16}, thorough: budget{20000, 350}},
		func(t *rapid.T) c14Case {
			c := c14Case{Mode: pick(t, "mode", "proto", "equipment", "host"), Active: coin(t, "active"), Session: genOwnSession(t)}
			for i, n := 0, rng(t, "ops", 1, 30); i < n; i++ {
				op := c14Op{Op: pick(t, "op", "s9", "s9", "s9", "s9", "s9", "open", "open", "reply", "other", "other", "deselect", "select", "handler", "default"), Of: -1}
				op.F = pick(t, "f", 1, 3, 5, 7, 9, 11, 13, 1, 3, 5, 7, 9, 11, 13, rng(t, "fx", 0, 255))
				op.S, _ = genReqSF(t)
				if op.Op == "other" && coin(t, "alike") {
					op.S = pick(t, "alikes", 0, 8, 10, 19, 73, 90, 99)
				}
				op.W = coin(t, "w")
				op.Oth = oneIn(t, "oth", 8)
				op.Sys = uint32(pick(t, "sys", 0, 1, 0xffffffff, rng(t, "sysx", 0, 0xffffffff)))
				if coin(t, "forrequest") || op.Op == "reply" {
					op.Of = rng(t, "of", 0, 7)
				}
				switch rng(t, "body", 0, 3) {
				case 0:
					op.It = iB(rapid.SliceOfN(rapid.Byte(), 10, 10).Draw(t, "hdr")...)
				case 1:
					op.It = iB(rapid.Byte().Draw(t, "b"))
				case 2:
					op.It = genSmallItem(t, "it")
				}
				if op.Op == "open" && op.S == 1 {
					op.S = 2
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runC14)
}
