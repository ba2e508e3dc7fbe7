package main

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/looplab/fsm"
	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/hsms"
)

// C12, part machine: the connection state machine on its own.

type c12mCase struct {
	Callers int
	Ops     []string
}

func runC12Machine(r *R, c c12mCase) {
	const nc, ns, se = "NOT-CONNECTED", "CONNECTED_NOT-SELECTED", "CONNECTED_SELECTED"
	if hsms.StateNotConnected != nc || hsms.StateConnectedNotSelected != ns || hsms.StateConnectedSelected != se {
		r.Fatalf("the states are called %q, %q, %q", hsms.StateNotConnected, hsms.StateConnectedNotSelected, hsms.StateConnectedSelected)
	}
	var mu sync.Mutex
	var calls []string
	rec := func(what string) fsm.Callback {
		return func(_ context.Context, e *fsm.Event) {
			mu.Lock()
			calls = append(calls, what+" "+e.Src+" "+e.Dst)
			mu.Unlock()
		}
	}
	cb := fsm.Callbacks{}
	for _, s := range []string{nc, ns, se} {
		cb["enter_"+s] = rec("enter")
		cb["leave_"+s] = rec("leave")
	}
	m := hsms.NewConnectionStateMachine(cb)
	if s := m.CurrentState(); s != nc {
		r.Failf("the first state is %s", s)
	}
	do := func(op string) error {
		switch op {
		case "connect":
			return m.Connect()
		case "disconnect":
			return m.Disconnect()
		case "select":
			return m.Select()
		case "deselect":
			return m.Deselect()
		}
		return m.TimeoutT7()
	}
	next := map[string]string{"connect " + nc: ns, "disconnect " + ns: nc, "disconnect " + se: nc, "select " + ns: se, "deselect " + se: ns, "t7 " + ns: nc}
	if c.Callers < 2 {
		state := nc
		for i, op := range c.Ops {
			calls = nil
			err := do(op)
			to, ok := next[op+" "+state]
			if ok != (err == nil) {
				r.Failf("operation %d, %s in state %s: error %v", i, op, state, err)
				return
			}
			want := "[]"
			if ok {
				want = fmt.Sprint([]string{"leave " + state + " " + to, "enter " + state + " " + to})
				state = to
				r.NonTrivial()
			}
			if s := m.CurrentState(); s != state {
				r.Failf("operation %d, %s: state %s instead of %s", i, op, s, state)
				return
			}
			if have := fmt.Sprint(calls); have != want {
				r.Failf("operation %d, %s: the callbacks %s were called instead of %s", i, op, have, want)
				return
			}
		}
		return
	}
	var wg sync.WaitGroup
	okN := 0
	for g := 0; g < c.Callers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; i < len(c.Ops); i += c.Callers {
				if do(c.Ops[i]) == nil {
					mu.Lock()
					okN++
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	// The leave callbacks, which the machine calls one at a time, are a path from the first state to the last. (The enter
	// callbacks are called after the change and may find the machine changed once more.)
	state, n := nc, 0
	valid := map[string]bool{}
	for k, to := range next {
		var op, from string
		fmt.Sscan(k, &op, &from)
		valid[from+" "+to] = true
	}
	for _, k := range calls {
		var what, from, to string
		fmt.Sscan(k, &what, &from, &to)
		if what != "leave" {
			continue
		}
		if from != state || !valid[from+" "+to] {
			r.Failf("a change from %s to %s in state %s", from, to, state)
		}
		state = to
		n++
	}
	if last := m.CurrentState(); last != state {
		r.Failf("the changes lead to state %s, the state is %s", state, last)
	}
	if n != okN {
		r.Failf("%d operations succeeded, but there were %d changes", okN, n)
	}
	if n > 1 {
		r.NonTrivial()
	}
}

func init() {
	register("C12", "machine", "the connection state machine on its own: up to 40 events from one goroutine, or from 2-4: state, error and callbacks after each against the model, and for several goroutines a path from the first state to the last; non-trivial: the state changed",
		opts{quick: budget{2000, 4}, thorough: budget{50000, 30}},
		func(t *rapid.T) c12mCase {
			c := c12mCase{Callers: 1}
			if oneIn(t, "conc", 3) {
				c.Callers = rng(t, "callers", 2, 4)
			}
			for i, n := 0, rng(t, "ops", 1, 40); i < n; i++ {
				c.Ops = append(c.Ops, pick(t, "op", "connect", "disconnect", "select", "select", "deselect", "t7"))
			}
			return c
		}, runC12Machine)
}

// ---------------------------------------------------------------------------
// linktests: the endpoint's own
// ---------------------------------------------------------------------------

type c12lEnd struct {
	Active   bool
	Interval int
	Lives    int    // connections
	For      []int  // ms of each
	Mute     []bool // the other side does not answer
	Refuse   bool   // the last select is refused (active)
	Session  uint16
}

func runC12Linktests(r *R, c struct{ Ends []c12lEnd }) {
	var wg sync.WaitGroup
	for i, e := range c.Ends {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c12Linktest(r, fmt.Sprintf("endpoint %d (active %v, interval %d s): ", i, e.Active, e.Interval), e)
		}()
	}
	wg.Wait()
}

func c12Linktest(r *R, pre string, e c12lEnd) {
	st := newStation(r, e.Active)
	p := newProto(r, st, int(e.Session))
	p.Timeouts().SetLinktest(e.Interval)
	p.Timeouts().SetT6ControlTransTimeout(1)
	r.Cleanup(func() { disable(p, st) })
	t0 := time.Now()
	p.Enable()
	seen := map[uint32]bool{}
	for k := 0; k < e.Lives; k++ {
		peer := st.conn(netWait)
		if peer == nil {
			r.Slowf("%sno connection in %v", pre, netWait)
			return
		}
		if !e.Active {
			// a connection may still have been made with the listening socket of the last one, which closes
			for try := 0; ; try++ {
				peer.mu.Lock()
				peer.silent = e.Mute[k]
				peer.mu.Unlock()
				peer.send(ctrlFrame(e.Session, 0, 0, sSelectReq, 0x70000000))
				if _, ok := peer.take(netWait/4, func(f rxFrame) bool { return f.SType == sSelectRsp }); ok {
					break
				}
				if try == 4 {
					r.Slowf("%sconnection %d: no select.rsp", pre, k)
					return
				}
				peer.close()
				if peer = st.conn(netWait); peer == nil {
					r.Slowf("%sno connection in %v", pre, netWait)
					return
				}
			}
		}
		at := time.Now()
		refused := false
		mute := e.Mute[k]
		if e.Active {
			f, ok := peer.take(netWait, func(f rxFrame) bool { return f.SType == sSelectReq })
			if !ok {
				r.Slowf("%sno select.req in %v", pre, netWait)
				return
			}
			b := byte(0)
			if e.Refuse && k == e.Lives-1 {
				b, refused = 1, true
			}
			peer.mu.Lock()
			peer.silent = mute
			peer.mu.Unlock()
			peer.send(ctrlFrame(f.Session, 0, b, sSelectRsp, f.Sys))
			at = time.Now()
		}
		peer.waitEnd(time.Until(at.Add(time.Duration(e.For[k]) * time.Millisecond)))
		now := time.Now()
		gone := peer.ended()
		n := 0
		peer.mu.Lock()
		for _, f := range peer.all {
			if f.SType != sLinktestReq {
				continue
			}
			n++
			if f.Session != 0xffff || f.B2 != 0 || f.B3 != 0 {
				r.Failf("%slinktest.req with the header % x", pre, f.header())
			}
			if seen[f.Sys] {
				r.Failf("%stwo linktest.req with system bytes %08x", pre, f.Sys)
			}
			seen[f.Sys] = true
		}
		peer.mu.Unlock()
		d := time.Duration(e.Interval) * time.Second
		switch {
		case e.Interval <= 0 || refused:
			if n > 0 {
				r.Failf("%s%d linktests although %s", pre, n, map[bool]string{true: "the select was refused", false: "there are to be none"}[refused])
			}
			r.Label("none due")
		default:
			if most := 1 + int(now.Sub(t0)/d); n > most {
				r.Failf("%sconnection %d: %d linktests in %v", pre, k, n, now.Sub(t0))
			}
			// every interval; one that is not answered takes T6
			if least := int((now.Sub(at)-1500*time.Millisecond)/d) + 1; !mute && n < least && now.Sub(at) > 1500*time.Millisecond {
				r.Slowf("%sconnection %d: %d linktests in %v (connection ended: %v)", pre, k, n, now.Sub(at), gone)
			}
			if n > 1 {
				r.NonTrivial()
				r.LabelN("linktests", n)
			}
		}
		if gone && !refused {
			r.Slowf("%sconnection %d ended", pre, k)
		}
		if r.failed() || refused {
			return
		}
		if k < e.Lives-1 {
			t0 = time.Now()
			peer.close()
			if e.Active {
				continue
			}
			if !waitState(p, netWait, hsms.StateNotConnected) {
				r.Slowf("%sthe state is %s after the connection was closed", pre, p.CurrentState())
				return
			}
		}
	}
}

func init() {
	register("C12", "linktests", "batches of 10 endpoints in both roles with a linktest interval of 0 (none), 1 or 2 s, over 1-3 connections of generated length, with the other side answering or not, or refusing the select: number and headers of linktest.req on each connection against the interval; non-trivial: more than one",
		opts{quick: budget{2, 12}, thorough: budget{60, 200}},
		func(t *rapid.T) struct{ Ends []c12lEnd } {
			var c struct{ Ends []c12lEnd }
			for i := 0; i < 10; i++ {
				e := c12lEnd{Active: coin(t, "active"), Interval: pick(t, "interval", 1, 1, 2, 0), Lives: rng(t, "lives", 1, 3), Refuse: oneIn(t, "refuse", 6), Session: genOwnSession(t)}
				for k := 0; k < e.Lives; k++ {
					e.For = append(e.For, rng(t, "for", 100, 2500))
					e.Mute = append(e.Mute, oneIn(t, "mute", 3))
				}
				e.For[e.Lives-1] += 1500
				c.Ends = append(c.Ends, e)
			}
			return c
		}, runC12Linktests)
}
