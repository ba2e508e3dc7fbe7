package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// C15: misbehaving peers.

type c15Seg struct {
	B     []byte
	Times int // repeat B
	Many  int // then this many nested lists
	Gap   int // ms to wait afterwards
}

type c15Conn struct {
	Up   int // 0: only connect, 1: select, 2: communicate (GEM)
	Segs []c15Seg
	End  string // close, reset, half (close for writing), separate, stay
}

type c15Case struct {
	Mode   string // proto, equipment, host
	Active bool
	T7, T8 int
	Conns  []c15Conn
}

// c15End is an endpoint of any mode.
type c15End struct {
	r    *R
	mode string
	st   *Station
	p    *hsms.HsmsProtocol
	g    *gem.GemHandler
	good atomic.Bool // the peer behaves
	e    *gemEnd
}

const c15Session = 3

func newC15(r *R, mode string, active bool) *c15End {
	x := &c15End{r: r, mode: mode}
	if mode == "proto" {
		x.st = newStation(r, active)
		x.p = newProto(r, x.st, c15Session)
		x.p.RegisterHandler(1, 5, func(m *ast.DataMessage) (*ast.DataMessage, error) {
			return message(1, 6, false, iA("fine")), nil
		})
		x.p.RegisterDefaultHandler(func(m *ast.DataMessage) (*ast.DataMessage, error) {
			_ = m.String()
			return nil, nil
		})
		r.Cleanup(func() { disable(x.p, x.st) })
		return x
	}
	x.e = newGem(r, active, mode == "equipment", c15Session, nil)
	x.st, x.p, x.g = x.e.st, x.e.p, x.e.g
	if mode == "equipment" {
		furnish(x.g)
	} else {
		touch := func(d map[string]any) { _ = fmt.Sprint(d["alarm"], d["report"]) }
		x.g.Events().AlarmReceived.AddCallback(touch)
		x.g.Events().EventReportReceived.AddCallback(touch)
	}
	return x
}

func (x *c15End) enable() {
	if x.g != nil {
		x.g.Enable()
	} else {
		x.p.Enable()
	}
}

// recovered connects, selects and communicates as a good peer.
func (x *c15End) recovered() bool {
	r := x.r
	end := time.Now().Add(2 * netWait)
	last := "no connection"
	var p *Peer
	for p == nil {
		q := x.st.conn(time.Until(end))
		if q == nil {
			r.Slowf("a good peer could not connect and select in %v: %s; state %s", 2*netWait, last, x.p.CurrentState())
			return false
		}
		ok := false
		if x.st.active {
			if f, got := q.take(3*time.Second, func(f rxFrame) bool { return f.SType == sSelectReq }); got {
				q.send(ctrlFrame(f.Session, 0, 0, sSelectRsp, f.Sys))
				ok = true
			} else {
				last = fmt.Sprintf("no select.req (connection ended: %v)", q.ended())
			}
		} else {
			q.send(ctrlFrame(c15Session, 0, 0, sSelectReq, 77))
			if _, got := q.take(3*time.Second, func(f rxFrame) bool { return f.SType == sSelectRsp && f.B3 == 0 }); got {
				ok = true
			} else {
				last = fmt.Sprintf("no select.rsp (connection ended: %v)", q.ended())
			}
		}
		if ok && quietSync(q, 5*time.Second) && x.p.CurrentState() == hsms.StateConnectedSelected {
			p = q
			break
		}
		q.close()
		if time.Now().After(end) {
			r.Slowf("a good peer could not select in %v: %s; state %s", 2*netWait, last, x.p.CurrentState())
			return false
		}
	}
	ask := func(s, f int, it Item) (rxFrame, bool) {
		sys := p.nextSys()
		p.send(dataFrame(c15Session, s, f, true, sys, it))
		a, ok := p.take(netWait, func(y rxFrame) bool { return y.SType == 0 && y.Sys == sys })
		if !ok {
			r.Slowf("S%dF%d of a good peer was not answered in %v (connection ended: %v)", s, f, netWait, p.ended())
		}
		return a, ok
	}
	if x.g == nil {
		a, ok := ask(1, 5, iL())
		if ok && (a.F() != 6 || a.Item.S != "fine") {
			r.Failf("S1F5 of a good peer was answered with %v", a.view())
		}
		return ok
	}
	a, ok := ask(1, 13, x.e.s1f13())
	if !ok {
		return false
	}
	if a.F() != 14 {
		r.Failf("S1F13 of a good peer was answered with %v", a.view())
		return false
	}
	if s := x.g.State(); s != gem.CommunicationStateCommunicating {
		r.Failf("the state is %v after S1F13 of a good peer was answered", s)
		return false
	}
	a, ok = ask(1, 1, Item{})
	if ok && a.F() != 2 {
		r.Failf("S1F1 of a good peer was answered with %v", a.view())
		return false
	}
	if ok && x.mode == "equipment" {
		if a, ok = ask(1, 3, iL(iU(4, 1))); ok && !(a.F() == 4 && a.Item.same(iL(iU(2, 0)))) {
			r.Failf("S1F3 of a good peer was answered with %v", a.view())
			return false
		}
	}
	return ok
}

func memTotal() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func settledGoroutines(limit int, d time.Duration) int {
	n := 0
	pollFor(d, func() bool { n = runtime.NumGoroutine(); time.Sleep(5 * time.Millisecond); return n <= limit })
	return n
}

func runC15(r *R, c c15Case) {
	x := newC15(r, c.Mode, c.Active)
	t := x.p.Timeouts()
	t.SetT3ReplyTimeout(1)
	t.SetT6ControlTransTimeout(1)
	t.SetT7NotSelectTimeout(c.T7)
	t.SetT8NetworkIntercharTimeout(c.T8)
	if x.e != nil {
		x.e.auto1.Store(false)
		x.e.auto13.Store(false)
	}
	x.enable()
	g0 := runtime.NumGoroutine()
	m0, sent := memTotal(), 0
	for _, h := range c.Conns {
		p := x.st.conn(5 * time.Second)
		if p == nil {
			r.Slowf("no connection with the enabled endpoint in 5 s")
			return
		}
		p.mu.Lock()
		p.silent = true
		p.mu.Unlock()
		if h.Up > 0 {
			if x.st.active {
				if f, ok := p.take(time.Second, func(f rxFrame) bool { return f.SType == sSelectReq }); ok {
					p.send(ctrlFrame(f.Session, 0, 0, sSelectRsp, f.Sys))
				}
			} else {
				p.send(ctrlFrame(c15Session, 0, 0, sSelectReq, 5))
			}
			if quietSync(p, time.Second) && h.Up > 1 && x.g != nil {
				p.send(dataFrame(c15Session, 1, 13, true, 6, x.e.s1f13()))
				quietSync(p, time.Second)
				r.Label("misbehaves after it was selected")
			}
		}
		// a connection made while the endpoint gets ready to listen again may be dead
		stay := h.End == "stay" && quietSync(p, time.Second)
		for _, s := range h.Segs {
			b := bytes.Repeat(s.B, max(1, s.Times))
			b = append(b, bytes.Repeat([]byte{0x01, 0x01, 0x01, 0x01}, s.Many)...)
			sent += len(b)
			if p.write(b) != nil {
				r.Label("connection ended by the endpoint")
				break
			}
			if s.Gap > 0 {
				time.Sleep(time.Duration(s.Gap) * time.Millisecond)
			}
		}
		r.Label("ending: " + h.End)
		switch h.End {
		case "reset":
			p.reset()
		case "half":
			if t, ok := p.c.(interface{ CloseWrite() error }); ok {
				t.CloseWrite()
			}
		case "separate":
			p.send(ctrlFrame(c15Session, 0, 0, sSeparateReq, 9))
			p.waitEnd(time.Second)
			p.close()
		case "stay":
		default:
			p.close()
		}
		if stay && !p.waitEnd(time.Duration(max(c.T7, c.T8))*time.Second+netWait) {
			if c.T8 > 0 {
				r.Slowf("a silent peer was still connected %v after T8 (%d s) and T7 (%d s)", netWait, c.T8, c.T7)
			} else {
				r.Slowf("a silent peer that is not selected was still connected %v after T7 (%d s)", netWait, c.T7)
			}
			return
		}
	}
	if x.e != nil {
		x.e.auto1.Store(true)
		x.e.auto13.Store(true)
	}
	ok := x.recovered()
	if used := memTotal() - m0; used > 160<<20+200*uint64(sent) {
		r.Failf("%d bytes were allocated for %d bytes received", used, sent)
	}
	if ok {
		if n := settledGoroutines(g0+14, 6*time.Second); n > g0+14 {
			r.Slowf("%d goroutines before and %d after %d connections", g0, n, len(c.Conns))
		}
		r.NonTrivial()
	}
}

// genSeg makes hostile bytes; frames reports whether they can select.
func genSeg(t *rapid.T, mode string) c15Seg {
	sess := uint16(c15Session)
	if oneIn(t, "othersess", 6) {
		sess = genSession(t)
	}
	sys := pick(t, "sys", uint32(0), 1, 2, 3, 4, 5, genSys(t))
	data := func() []byte {
		var s, f int
		switch rng(t, "sf", 0, 3) {
		case 0:
			s, f = genSF(t)
		default:
			k := pick(t, "known", gemSF...)
			s, f = k/1000, k%1000
		}
		it := gemTemplate(t, s, f)
		if coin(t, "mutate") {
			it = mutateItem(t, it)
		}
		return dataFrame(sess, s, f, f%2 == 1 && coin(t, "w"), sys, it).enc()
	}
	ctrl := func() []byte {
		return ctrlFrame(sess, byte(pick(t, "b2", 0, 1, 255)), byte(rng(t, "b3", 0, 5)), byte(rng(t, "stype", 1, 10)), sys).enc()
	}
	var g c15Seg
	switch rng(t, "seg", 0, 9) {
	case 0:
		g.B = rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "raw")
	case 1:
		g.B = ctrl()
	case 2:
		g.B = data()
		g.Times = pick(t, "times", 1, 1, 2, 50)
	case 3: // truncated
		b := data()
		g.B = b[:rng(t, "cut", 0, len(b))]
	case 4: // wrong length
		b := data()
		l := binary.BigEndian.Uint32(b)
		binary.BigEndian.PutUint32(b, uint32(int(l)+pick(t, "dl", -10, -4, -1, 1, 2, 14, 300)))
		g.B = b
	case 5: // huge length
		b := make([]byte, 14)
		binary.BigEndian.PutUint32(b, pick(t, "huge", uint32(0xffffffff), 0x7fffffff, 0x80000000, 0x40000000, 0x10000000, 0xfffffffb))
		copy(b[4:], data()[4:])
		g.B = b
		return g
	case 6: // one byte changed
		b := data()
		b[rng(t, "pos", 0, len(b)-1)] ^= byte(1 << rng(t, "bit", 0, 7))
		g.B = b
	case 7: // an item that promises more than there is
		b := dataFrame(sess, 2, 33, true, sys, iB(1, 2, 3, 4, 5, 6)).enc()
		copy(b[14:], pick(t, "item", []byte{0x03, 0xff, 0xff, 0xff}, []byte{0x43, 0xff, 0xff, 0xff}, []byte{0xa3, 0xff, 0xff, 0xf8}, []byte{0x01, 0xff}, []byte{0x00, 0x01}, []byte{0xff, 0xff}))
		g.B = b
	case 8: // many lists
		n := pick(t, "lists", 100, 999, 1001, 20000)
		b := dataFrame(sess, 1, 3, true, sys, Item{}).enc()
		binary.BigEndian.PutUint32(b, uint32(10+4*n))
		// n lists of one list, n times the list of one empty item
		g.B = b
		g.Many = n
	case 9:
		g.B = ctrl()
		b := data()
		g.B = append(g.B, b...)
		g.B = append(g.B, b[:rng(t, "cut", 0, len(b))]...)
	}
	if oneIn(t, "gap", 4) {
		g.Gap = pick(t, "ms", 1, 5, 30)
	}
	return g
}

// gemSF are the messages of the GEM services.
var gemSF = []int{1001, 1003, 1011, 1013, 1015, 1017, 2013, 2015, 2017, 2029, 2031, 2033, 2035, 2037, 2041, 5001, 5003, 5005, 5007, 6011, 6015, 7003, 7005,
	1002, 1004, 1012, 1014, 1016, 1018, 2014, 2016, 2018, 2030, 2032, 2034, 2036, 2038, 2042, 5002, 5004, 5006, 5008, 6012, 6016, 7004, 7006, 9001, 9003, 9009}

// ---------------------------------------------------------------------------
// Arbitrary bodies for the standard message handlers and in replies
// ---------------------------------------------------------------------------

type c15Msg struct {
	S, F int
	W    bool
	It   Item
	Call string // instead: call this request; the peer answers with S, F, It
	F2   int    // reply with this function instead, if not 0
}

type c15Bodies struct {
	Equip  bool
	Active bool
	Msgs   []c15Msg
}

func runC15Bodies(r *R, c c15Bodies) {
	mode := "host"
	if c.Equip {
		mode = "equipment"
	}
	x := newC15(r, mode, c.Active)
	e := x.e
	x.p.Timeouts().SetT3ReplyTimeout(2)
	old := x.st.hook
	var mu sync.Mutex
	var answer *c15Msg
	answered := 0
	x.st.hook = func(p *Peer, f rxFrame) bool {
		if old(p, f) {
			return true
		}
		if f.SType != 0 || !f.W() {
			return false
		}
		mu.Lock()
		a := answer
		answered++
		mu.Unlock()
		if a == nil {
			return false
		}
		s, fn := f.S(), f.F()+1
		if a.F2 != 0 {
			s, fn = a.S, a.F2
		}
		p.send(dataFrame(c15Session, s, fn, false, f.Sys, a.It))
		return true
	}
	if !e.up() {
		return
	}
	m0, sent := memTotal(), 0
	for i, m := range c.Msgs {
		if m.Call == "" {
			f := dataFrame(c15Session, m.S, m.F, m.W, e.peer.nextSys(), m.It)
			sent += len(f.enc())
			e.peer.send(f)
			r.Label(fmt.Sprintf("S%dF%d", m.S, m.F))
			if m.S == 1 && m.F == 13 || i%8 == 7 {
				if !e.peer.sync(r) {
					return
				}
			}
			continue
		}
		mu.Lock()
		answer = &c.Msgs[i]
		mu.Unlock()
		done := make(chan error, 1)
		g := x.g
		go func() { done <- hostCalls[m.Call](g) }()
		select {
		case <-done:
			r.Label("answered badly: " + m.Call)
		case <-time.After(netWait):
			r.Slowf("%s, answered with S%dF%d %v, had not returned after %v", m.Call, m.S, m.F2, m.It, netWait)
			return
		}
	}
	mu.Lock()
	answer = nil
	mu.Unlock()
	if !e.peer.sync(r) {
		return
	}
	if used := memTotal() - m0; used > 160<<20+2000*uint64(sent) {
		r.Failf("%d bytes were allocated for %d bytes received", used, sent)
	}
	e.peer.rest()
	// the same peer, behaving
	if a, ok := e.ask(1, 13, e.s1f13()); !ok {
		return
	} else if a.F() != 14 {
		r.Failf("S1F13 was answered with %v", a.view())
		return
	}
	if a, ok := e.ask(1, 1, Item{}); !ok {
		return
	} else if a.F() != 2 {
		r.Failf("S1F1 was answered with %v", a.view())
		return
	}
	if c.Equip {
		if a, ok := e.askItem(1, 3, iL(iU(4, 1))); !ok {
			return
		} else if !a.same(iL(iU(2, 0))) {
			r.Failf("S1F3 for the variable with the value <U2 0> was answered with %v", a)
			return
		}
	}
	// and the next one
	e.peer.close()
	if x.recovered() {
		r.NonTrivial()
	}
}

func init() {
	shards("C15", 16, 16)
	register("C15", "streams", "endpoints (bare HSMS, GEM equipment, GEM host; both roles) whose peer, on up to 8 connections, connects, perhaps selects and communicates, then sends random bytes, control and data frames with arbitrary fields, truncated, mutated and mislabelled frames, huge declared lengths, and closes, resets, half-closes, separates or falls silent; afterwards a good peer has to be served; allocations and goroutines bounded; non-trivial: the good peer was served",
		opts{quick: budget{250, 14}, thorough: budget{20000, 400}},
		func(t *rapid.T) c15Case {
			c := c15Case{Mode: pick(t, "mode", "proto", "equipment", "host"), Active: coin(t, "active"), T7: 30}
			if oneIn(t, "t7", 5) {
				c.T7 = 1
			}
			if oneIn(t, "t8", 5) {
				c.T8 = 1
			}
			stays := 0
			for i, n := 0, rng(t, "conns", 1, 8); i < n; i++ {
				h := c15Conn{Up: rng(t, "up", 0, 2), End: pick(t, "end", "close", "close", "reset", "half", "separate", "stay")}
				if h.End == "stay" || h.End == "half" {
					// only where a timeout ends the connection
					if stays++; stays > 2 {
						h.End = "close"
					}
				}
				for j, k := 0, rng(t, "segs", 0, 5); j < k; j++ {
					h.Segs = append(h.Segs, genSeg(t, c.Mode))
				}
				if h.End == "stay" {
					switch {
					case c.T8 == 1:
					case c.T7 == 1:
						h.Up, h.Segs = 0, nil
						if coin(t, "some") {
							h.Segs = []c15Seg{{B: []byte{0, 0, 0, 10, 0}[:rng(t, "part", 1, 5)]}}
						}
					default:
						h.End = "close"
					}
				}
				c.Conns = append(c.Conns, h)
			}
			return c
		}, runC15)
	register("C15", "bodies", "GEM equipment with variables, constants, events, reports, alarms, programs and handlers, and GEM hosts with every request of the programming interface; up to 40 messages of the GEM services with well-formed, mutated and arbitrary bodies, as primaries, unsolicited and as replies; afterwards the connection still serves, and so does the next one; non-trivial: the end was reached",
		opts{quick: budget{400, 14}, thorough: budget{20000, 400}},
		func(t *rapid.T) c15Bodies {
			c := c15Bodies{Equip: coin(t, "equip"), Active: coin(t, "active")}
			for i, n := 0, rng(t, "msgs", 1, 40); i < n; i++ {
				var m c15Msg
				if coin(t, "call") {
					m.Call = pick(t, "which", hostCallNames...)
					if c.Equip {
						m.Call = pick(t, "which", "RaiseAlarm", "TriggerCollectionEvent")
					}
					k := hostReply[m.Call]
					m.S = k / 1000
					m.It = gemTemplate(t, m.S, k%1000)
					if rng(t, "mut", 0, 3) > 0 {
						m.It = mutateItem(t, m.It)
					}
					if oneIn(t, "otherf", 8) {
						m.S, m.F2 = rng(t, "s", 1, 9), 2*rng(t, "f", 0, 30)
					}
					c.Msgs = append(c.Msgs, m)
					continue
				}
				k := pick(t, "sf", gemSF...)
				m.S, m.F = k/1000, k%1000
				m.W = m.F%2 == 1 && rng(t, "w", 0, 3) > 0
				m.It = gemTemplate(t, m.S, m.F)
				if rng(t, "mut", 0, 3) > 0 {
					m.It = mutateItem(t, m.It)
				}
				c.Msgs = append(c.Msgs, m)
			}
			return c
		}, runC15Bodies)
}

var hostReply = map[string]int{"RequestStatusVariables": 1004, "RequestStatusVariableInfo": 1012, "RequestEquipmentConstants": 2014, "RequestEquipmentConstantInfo": 2030,
	"SendEquipmentConstantValues": 2016, "DefineReports": 2034, "LinkEventReports": 2036, "EnableEventReports": 2038, "RequestCollectionEventReport": 6016,
	"UploadProcessProgram": 7004, "RequestProcessProgram": 7006, "RequestDateTime": 2018, "SetDateTime": 2032, "SendRemoteCommand": 2042,
	"SendEnableAlarm": 5004, "RequestAlarmList": 5006, "RequestEnabledAlarmList": 5008, "RaiseAlarm": 5002, "TriggerCollectionEvent": 6012}
