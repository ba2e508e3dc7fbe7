package main

import (
	"errors"
	"fmt"
	"io"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// C12: HSMS control messages and connection states, against a model.

type c12Op struct {
	Op   string // select, deselect, linktest, linkrsp, reject, data, separate, drop, answer, refuse, state
	Sess uint16
	B3   byte
	Sys  uint32
	W    bool
	F    int // 1: has a handler, 3: has none
}

type c12Case struct {
	Active  bool
	Session uint16
	Ops     []c12Op
	Burst   []bool // whether to look at the effects right after an op
	Chunks  []int
}

func runC12(r *R, c c12Case) {
	st := newStation(r, c.Active)
	p := newProto(r, st, int(c.Session))
	r.Cleanup(func() { disable(p, st) })
	own := c.Session // as the model knows it
	var mu sync.Mutex
	var got, want []view
	p.RegisterHandler(1, 1, func(m *ast.DataMessage) (*ast.DataMessage, error) {
		mu.Lock()
		got = append(got, viewOf(m))
		mu.Unlock()
		return message(1, 2, false, iA("ok")), nil
	})
	p.Enable()
	var peer *Peer
	var pendSel *rxFrame // unanswered select.req of an active endpoint
	selected := false
	var out []string
	var buf []byte
	where := "start"

	connect := func() bool {
		selected, pendSel = false, nil
		for try := 0; ; try++ {
			peer = st.conn(2 * netWait)
			if peer == nil {
				r.Slowf("%s: no connection with the enabled endpoint", where)
				return false
			}
			if c.Active {
				f, ok := peer.take(netWait, func(f rxFrame) bool { return f.SType == sSelectReq })
				if !ok {
					r.Slowf("%s: the active endpoint sent no select.req (connection ended: %v)", where, peer.ended())
					return false
				}
				if f.Session != own || f.B2 != 0 || f.B3 != 0 {
					r.Failf("%s: the active endpoint sent %s, want select.req with session %d", where, frameStr(f.Frame), own)
					return false
				}
				pendSel = &f
			} else {
				// wait for its first linktest, so that it is out of the way
				end := time.Now().Add(300 * time.Millisecond)
				for time.Now().Before(end) && !peer.ended() {
					peer.mu.Lock()
					n := len(peer.all)
					peer.mu.Unlock()
					if n > 0 {
						break
					}
					time.Sleep(time.Millisecond)
				}
				// A connection that is made while the endpoint gets ready to
				// listen again may be dropped at once.
				sys := peer.nextSys()
				peer.send(ctrlFrame(0xffff, 0, 0, sLinktestReq, sys))
				if _, ok := peer.take(netWait/3, func(f rxFrame) bool { return f.SType == sLinktestRsp && f.Sys == sys }); !ok && try < 5 {
					peer.close()
					continue
				}
			}
			if !peer.sync(r) {
				return false
			}
			if s := p.CurrentState(); s != hsms.StateConnectedNotSelected || !p.Connected() {
				r.Failf("%s: after connecting the state is %s, Connected() %v", where, s, p.Connected())
				return false
			}
			return true
		}
	}
	compare := func() bool {
		var have []string
		for _, f := range peer.rest() {
			have = append(have, frameStr(f.Frame))
		}
		for i := 0; i < len(have) || i < len(out); i++ {
			if i >= len(have) {
				r.Failf("%s: the endpoint did not send %s (it sent %v)", where, out[i], have)
				return false
			}
			if i >= len(out) {
				r.Failf("%s: the endpoint sent %s, which was not expected", where, have[i])
				return false
			}
			if have[i] != out[i] {
				r.Failf("%s: message %d the endpoint sent is %s, want %s", where, i, have[i], out[i])
				return false
			}
		}
		out = nil
		mu.Lock()
		defer mu.Unlock()
		for i := 0; i < len(got) || i < len(want); i++ {
			if i >= len(got) {
				r.Failf("%s: data message %v was sent while selected but did not reach its handler", where, want[i])
				return false
			}
			if i >= len(want) || got[i] != want[i] {
				r.Failf("%s: data message %v reached the handler, although it was sent while not selected", where, got[i])
				return false
			}
		}
		got, want = nil, nil
		return true
	}
	flush := func() bool {
		peer.writeChunks(buf, c.Chunks)
		buf = nil
		if !peer.sync(r) {
			return false
		}
		if !compare() {
			return false
		}
		ws := hsms.StateConnectedNotSelected
		if selected {
			ws = hsms.StateConnectedSelected
		}
		if s := p.CurrentState(); s != ws || !p.Connected() {
			r.Failf("%s: the state is %s, Connected() %v; want %s", where, s, p.Connected(), ws)
			return false
		}
		return true
	}
	// over: the endpoint has to end this connection now
	over := func(why string, lossy bool) bool {
		if !peer.waitEnd(netWait) {
			r.Slowf("%s: the endpoint did not end the connection after %s", where, why)
			return false
		}
		peer.mu.Lock()
		// a reset can overtake the response
		lost := lossy && !errors.Is(peer.err, io.EOF) && len(peer.pend) < len(out)
		peer.mu.Unlock()
		if !lost && !compare() {
			return false
		}
		out = nil
		mu.Lock()
		got, want = nil, nil
		mu.Unlock()
		if !c.Active {
			if !waitState(p, netWait, hsms.StateNotConnected) {
				r.Slowf("%s: the state is %s after %s", where, p.CurrentState(), why)
				return false
			}
			if p.Connected() {
				r.Failf("%s: Connected() is true after %s", where, why)
				return false
			}
		}
		peer.check(r)
		peer.close()
		return connect()
	}
	if !connect() {
		return
	}
	for i, op := range c.Ops {
		where = fmt.Sprintf("op %d (%s)", i, op.Op)
		put := func(f Frame) { buf = append(buf, f.enc()...) }
		expect := func(f Frame) { out = append(out, frameStr(f)) }
		switch op.Op {
		case "select":
			acc := op.Sess == own || op.Sess == 0xffff || own == 0 || own == 0xffff
			if acc {
				if op.Sess != own && op.Sess != 0xffff {
					own = op.Sess
					r.Label("session id adopted")
				}
				put(ctrlFrame(op.Sess, 0, 0, sSelectReq, op.Sys))
				expect(ctrlFrame(op.Sess, 0, 0, sSelectRsp, op.Sys))
				selected = true
				r.Label("select accepted")
				break
			}
			if !flush() {
				return
			}
			put(ctrlFrame(op.Sess, 0, 0, sSelectReq, op.Sys))
			expect(ctrlFrame(op.Sess, 0, 1, sSelectRsp, op.Sys))
			peer.write(buf)
			buf = nil
			r.Label("select refused")
			if !over("a select for another session id", true) {
				return
			}
			continue
		case "deselect":
			put(ctrlFrame(op.Sess, 0, 0, sDeselectReq, op.Sys))
			expect(ctrlFrame(op.Sess, 0, 0, sDeselectRsp, op.Sys))
			selected = false
		case "linktest":
			put(ctrlFrame(op.Sess, 0, 0, sLinktestReq, op.Sys))
			expect(ctrlFrame(0xffff, 0, 0, sLinktestRsp, op.Sys))
		case "linkrsp":
			put(ctrlFrame(op.Sess, 0, 0, sLinktestRsp, op.Sys))
		case "reject":
			put(ctrlFrame(op.Sess, op.B3&7, op.B3, sRejectReq, op.Sys))
		case "data":
			f := dataFrame(op.Sess, 1, op.F, op.W, op.Sys, iU(2, uint64(i)))
			put(f)
			if !selected {
				r.Label("data while not selected")
				break
			}
			r.Label("data while selected")
			if op.F == 1 {
				mu.Lock()
				want = append(want, f.view())
				mu.Unlock()
				if op.W {
					expect(dataFrame(own, 1, 2, false, op.Sys, iA("ok")))
				}
			} else {
				expect(dataFrame(own, 9, 5, false, op.Sys, iB(byte(op.F))))
			}
		case "answer":
			if pendSel == nil {
				continue
			}
			put(ctrlFrame(pendSel.Session, 0, 0, sSelectRsp, pendSel.Sys))
			pendSel = nil
			selected = true
		case "refuse":
			if pendSel == nil {
				continue
			}
			if !flush() {
				return
			}
			put(ctrlFrame(pendSel.Session, 0, max(1, op.B3), sSelectRsp, pendSel.Sys))
			peer.write(buf)
			buf = nil
			r.Label("own select refused")
			if !over("its select was refused", true) {
				return
			}
			continue
		case "separate":
			put(ctrlFrame(op.Sess, 0, 0, sSeparateReq, op.Sys))
			peer.writeChunks(buf, c.Chunks)
			buf = nil
			r.Label("separate")
			if !over("separate.req", false) {
				return
			}
			continue
		case "drop":
			if !flush() {
				return
			}
			if op.W {
				peer.reset()
			} else {
				peer.close()
			}
			if !c.Active {
				if !waitState(p, netWait, hsms.StateNotConnected) {
					r.Slowf("%s: the state is still %s", where, p.CurrentState())
					return
				}
			}
			r.Label("drop")
			if !connect() {
				return
			}
			continue
		}
		if c.Burst[i%len(c.Burst)] {
			if !flush() {
				return
			}
		}
		r.NonTrivial()
	}
	where = "end"
	if flush() {
		peer.check(r)
	}
}

// ---- T7

type c12T7End struct {
	Active  bool
	T7      int
	What    string // never, select, deselect, quick (deselected within the first T7)
	At      int    // ms
	Traffic string // what goes on meanwhile: linktest, data, deselect
}

func runC12T7(r *R, c struct{ Ends []c12T7End }) {
	var wg sync.WaitGroup
	for i, e := range c.Ends {
		wg.Add(1)
		go func() {
			defer wg.Done()
			runC12T7End(r, fmt.Sprintf("endpoint %d (%+v): ", i, e), e)
		}()
	}
	wg.Wait()
}

func runC12T7End(r *R, pre string, c c12T7End) {
	st := newStation(r, c.Active)
	p := newProto(r, st, 5)
	t := p.Timeouts()
	t.SetT7NotSelectTimeout(c.T7)
	t.SetT6ControlTransTimeout(1)
	r.Cleanup(func() { disable(p, st) })
	t0 := time.Now()
	p.Enable()
	peer := st.conn(netWait)
	if peer == nil {
		r.Slowf("%sno connection", pre)
		return
	}
	var sel rxFrame
	if c.Active {
		var ok bool
		if sel, ok = peer.take(netWait, func(f rxFrame) bool { return f.SType == sSelectReq }); !ok {
			r.Slowf("%sno select.req", pre)
			return
		}
	}
	choose := func() {
		if c.Active {
			peer.send(ctrlFrame(sel.Session, 0, 0, sSelectRsp, sel.Sys))
		} else {
			peer.send(ctrlFrame(5, 0, 0, sSelectReq, 1))
			peer.take(netWait, func(f rxFrame) bool { return f.SType == sSelectRsp })
		}
		peer.sync(r)
	}
	if c.Traffic != "" && (c.Traffic != "deselect" || c.What == "never" && c.T7 != 0) {
		stop := make(chan struct{})
		defer close(stop)
		go func() {
			for {
				select {
				case <-stop:
					return
				case <-time.After(200 * time.Millisecond):
					switch c.Traffic {
					case "deselect":
						peer.send(ctrlFrame(5, 0, 0, sDeselectReq, 98))
					case "data":
						peer.send(dataFrame(5, 1, 2, false, 97, iA("text")))
					default:
						peer.send(ctrlFrame(0xffff, 0, 0, sLinktestReq, 99))
					}
				}
			}
		}()
	}
	lim := time.Duration(c.T7) * time.Second
	stays := func(d time.Duration, why string) bool {
		if peer.waitEnd(d) {
			r.Slowf("%sthe connection was ended after %v, T7 is %v and %s", pre, time.Since(t0), lim, why)
			return false
		}
		return true
	}
	ends := func(since time.Time) bool {
		if !peer.waitEnd(time.Until(since.Add(lim + 2500*time.Millisecond))) {
			r.Slowf("%sthe connection, not selected, is still open %v later; T7 is %v", pre, time.Since(since), lim)
			return false
		}
		peer.mu.Lock()
		at := peer.errAt
		peer.mu.Unlock()
		if d := at.Sub(since); d < lim {
			r.Failf("%sthe connection was ended after %v; T7 is %v", pre, d, lim)
			return false
		}
		return true
	}
	at := time.Duration(c.At) * time.Millisecond
	switch {
	case c.T7 == 0:
		if !stays(1500*time.Millisecond, "which means none") {
			return
		}
		choose()
		r.Label("no T7")
		return
	case c.What == "never":
		if !ends(t0) {
			return
		}
		r.Label("not selected within T7")
	case c.What == "select", c.What == "deselect", c.What == "quick":
		time.Sleep(time.Until(t0.Add(at)))
		if time.Since(t0) > lim-200*time.Millisecond {
			return // too late on this machine
		}
		choose()
		if peer.ended() && time.Since(t0) >= lim {
			return
		}
		if c.What == "quick" {
			// T7 begins anew
			since := time.Now()
			peer.send(ctrlFrame(5, 0, 0, sDeselectReq, 3))
			if !ends(since) {
				return
			}
			r.Label("deselected within the first T7")
			r.NonTrivial()
			return
		}
		if !stays(time.Until(t0.Add(lim+700*time.Millisecond)), "it was selected in time") {
			return
		}
		if s := p.CurrentState(); s != hsms.StateConnectedSelected {
			r.Slowf("%sthe state is %s", pre, s)
			return
		}
		r.Label("selected within T7")
		if c.What == "deselect" {
			since := time.Now()
			peer.send(ctrlFrame(5, 0, 0, sDeselectReq, 3))
			if !ends(since) {
				return
			}
			r.Label("deselected for T7")
		} else {
			r.NonTrivial()
			return
		}
	}
	r.NonTrivial()
	// usable again
	if !c.Active {
		if !waitState(p, netWait, hsms.StateNotConnected) {
			r.Slowf("%sthe state is %s after T7", pre, p.CurrentState())
			return
		}
	}
	st.up(r, 5)
}

func init() {
	shards("C12", 16, 16)
	register("C12", "control", "up to 25 operations of the other side on an endpoint of either role with a generated session id (0 and 65535 included): select, deselect, linktest and separate requests with generated session ids and system bytes, accepted or refused selects, responses and rejects nobody asked for, data messages, disconnects and resets, sent in bursts cut into generated pieces; every frame sent, every handler call and CurrentState() compared with a model, over several connections; non-trivial: a message was sent",
		opts{quick: budget{1500, 16}, thorough: budget{20000, 400}},
		func(t *rapid.T) c12Case {
			c := c12Case{Active: coin(t, "active"), Session: genOwnSession(t), Chunks: genChunks(t)}
			if oneIn(t, "wild", 3) {
				c.Session = uint16(pick(t, "wildsession", 0, 65535))
			}
			genSess := func() uint16 {
				switch rng(t, "sessmode", 0, 9) {
				case 0:
					return 0xffff
				case 1:
					return 0
				case 2:
					return c.Session ^ 1
				case 3:
					return uint16(rng(t, "sess", 0, 65535))
				}
				return c.Session
			}
			n := rng(t, "ops", 1, 25)
			if c.Active && oneIn(t, "answerfirst", 2) {
				c.Ops = append(c.Ops, c12Op{Op: "answer"})
			}
			for i := 0; i < n; i++ {
				op := c12Op{Op: pick(t, "op", "select", "select", "select", "deselect", "linktest", "linkrsp", "reject", "data", "data", "data", "separate", "drop", "answer", "answer", "refuse"), Sess: genSess(), B3: byte(rng(t, "b3", 0, 255)), W: coin(t, "w"), F: pick(t, "f", 1, 1, 3)}
				// below the system bytes of the endpoint's own requests, most likely
				op.Sys = uint32(pick(t, "sys", 0, 1, 0xffffffff, 0x80000000, rng(t, "sysx", 0, 0xffffffff)))
				c.Ops = append(c.Ops, op)
			}
			c.Burst = rapid.SliceOfN(rapid.Bool(), 1, 8).Draw(t, "looks")
			return c
		}, runC12)
	register("C12", "t7", "batches of 12 endpoints in both roles with T7 of 0 (none), 1 or 2 s, of which some are never selected, some selected after a generated part of T7, some deselected again (within the first T7 or after it), with and without linktests, data messages and deselect requests coming in all the time; when the connection ends compared with T7; afterwards the endpoint accepts a new connection; non-trivial: T7 was not 0",
		opts{quick: budget{2, 14}, thorough: budget{80, 300}},
		func(t *rapid.T) struct{ Ends []c12T7End } {
			var c struct{ Ends []c12T7End }
			for i := 0; i < 12; i++ {
				e := c12T7End{Active: coin(t, "active"), T7: pick(t, "t7", 1, 1, 1, 2, 0), What: pick(t, "what", "never", "select", "deselect", "quick"), Traffic: pick(t, "traffic", "", "", "linktest", "linktest", "data", "deselect")}
				e.At = rng(t, "at", 0, 600*max(1, e.T7))
				c.Ends = append(c.Ends, e)
			}
			return c
		}, runC12T7)
}
