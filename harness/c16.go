package main

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// C16: enable, disable, connection loss and recovery.

type c16Op struct {
	Op string // enable, disable, cycle, storm, drop, reset, separate, hide, up, deselect, pending, wait
	N  int
	Q  []bool // storm: enable or disable
}

type c16End struct {
	Active bool
	T5     int
	NoAuto bool
	Max    int  // MaxReconnectAttempts
	Mute   bool // the peer does not answer deselect.req
	Ops    []c16Op
}

type c16Case struct{ Ends []c16End }

func runC16(r *R, c c16Case) {
	var wg sync.WaitGroup
	for i, e := range c.Ends {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := &c16Run{r: r, e: e, pre: fmt.Sprintf("endpoint %d (active %v, T5 %d, auto-reconnect %v, max %d)", i, e.Active, e.T5, !e.NoAuto, e.Max)}
			x.run()
		}()
	}
	wg.Wait()
}

type c16Run struct {
	r        *R
	e        c16End
	pre      string
	st       *Station
	p        *hsms.HsmsProtocol
	peer     *Peer
	enabled  bool
	selected bool
	gaveUp   bool // auto-reconnection is off and the connection was lost
	hidden   bool // active endpoints: nobody listens
	lostAt   time.Time
}

func (x *c16Run) fail(f string, a ...any) bool {
	x.r.Failf(x.pre+": "+f, a...)
	return false
}
func (x *c16Run) slow(f string, a ...any) bool {
	x.r.Slowf(x.pre+": "+f, a...)
	return false
}

// errorsWhile checks that requests fail with the given error.
func (x *c16Run) errorsWhile(want error, when string) bool {
	errs := func() []error {
		_, e1 := x.p.SendAndWait(message(1, 3, true, iL()))
		e2 := x.p.SendDataMessage(message(1, 3, false, iL()))
		e3 := x.p.SendResponse(message(1, 4, false, iL()), []byte{0, 0, 0, 1})
		return []error{e1, e2, e3}
	}
	es := errs()
	if when == "disabled" {
		// a connection attempt that was under way when Disable was called may
		// succeed after it, and is then ended at once
		pollFor(5*time.Second, func() bool {
			es = errs()
			return errors.Is(es[0], want) && errors.Is(es[1], want) && errors.Is(es[2], want)
		})
	}
	for i, e := range es {
		if !errors.Is(e, want) {
			return x.fail("%s %s ended with the error %v, want %v", when, []string{"SendAndWait", "SendDataMessage", "SendResponse"}[i], e, want)
		}
	}
	x.r.Label("error while " + when)
	return true
}

// quietSync is Peer.sync without a report.
func quietSync(p *Peer, d time.Duration) bool {
	sys := p.nextSys()
	p.send(ctrlFrame(0xffff, 0, 0, sLinktestReq, sys))
	_, ok := p.take(d, func(f rxFrame) bool { return f.SType == sLinktestRsp && f.Sys == sys })
	return ok
}

// converge connects and selects; connections that end are left behind.
func (x *c16Run) converge(why string) bool {
	end := time.Now().Add(2 * netWait)
	last := "no connection"
	for time.Now().Before(end) {
		p := x.st.conn(time.Until(end))
		if p == nil {
			break
		}
		if x.e.Active {
			f, ok := p.take(3*time.Second, func(f rxFrame) bool { return f.SType == sSelectReq })
			if !ok {
				last = fmt.Sprintf("a connection without select.req (ended: %v)", p.ended())
				p.close()
				continue
			}
			if x.e.T5 > 0 && !x.lostAt.IsZero() {
				if d := time.Since(x.lostAt); d < time.Duration(x.e.T5)*time.Second {
					p.close()
					return x.fail("reconnected %v after the loss of the connection, T5 is %d s", d, x.e.T5)
				}
				x.r.Label("T5 kept")
			}
			if !quietSync(p, 3*time.Second) {
				last = fmt.Sprintf("a connection that does not answer linktest.req (ended: %v)", p.ended())
				p.close()
				continue
			}
			if s := x.p.CurrentState(); s != hsms.StateConnectedNotSelected && !p.ended() {
				return x.fail("the state is %s on a connection that is not selected", s)
			}
			if !x.errorsWhile(hsms.ErrNotSelected, "not selected") {
				return false
			}
			p.send(ctrlFrame(f.Session, 0, 0, sSelectRsp, f.Sys))
		} else {
			if !quietSync(p, 3*time.Second) {
				last = fmt.Sprintf("a connection that does not answer linktest.req (ended: %v)", p.ended())
				p.close()
				continue
			}
			if !x.errorsWhile(hsms.ErrNotSelected, "not selected") {
				return false
			}
			p.send(ctrlFrame(9, 0, 0, sSelectReq, 1))
			if _, ok := p.take(3*time.Second, func(f rxFrame) bool { return f.SType == sSelectRsp && f.B3 == 0 }); !ok {
				last = fmt.Sprintf("no acceptance of select.req (ended: %v)", p.ended())
				p.close()
				continue
			}
		}
		if !quietSync(p, 3*time.Second) {
			last = fmt.Sprintf("no answer to linktest.req after the selection (ended: %v)", p.ended())
			p.close()
			continue
		}
		x.peer, x.selected, x.lostAt = p, true, time.Time{}
		if s := x.p.CurrentState(); s != hsms.StateConnectedSelected || !x.p.Connected() {
			return x.fail("after the selection the state is %s, Connected() %v", s, x.p.Connected())
		}
		return x.usable(why)
	}
	return x.slow("%s: not connected and selected after %v: %s; state %s, Connected() %v", why, 2*netWait, last, x.p.CurrentState(), x.p.Connected())
}

// usable exchanges messages in both directions.
func (x *c16Run) usable(why string) bool {
	a, err := x.p.SendAndWait(message(1, 3, true, iA("request")))
	if err != nil || a.FunctionCode() != 4 {
		return x.slow("%s: a request on the selected connection ended with the error %v (connection ended: %v)", why, err, x.peer.ended())
	}
	sys := x.peer.nextSys()
	x.peer.send(dataFrame(9, 1, 5, true, sys, iA("hello")))
	if f, ok := x.peer.take(netWait, func(f rxFrame) bool { return f.SType == 0 && f.Sys == sys }); !ok {
		return x.slow("%s: a message on the selected connection was not answered (connection ended: %v)", why, x.peer.ended())
	} else if f.F() != 6 {
		return x.fail("%s: a message on the selected connection was answered with %v", why, f.view())
	}
	x.r.Label("connected and usable")
	return true
}

func (x *c16Run) down(why string) bool {
	if !waitState(x.p, 5*time.Second, hsms.StateNotConnected) {
		return x.slow("%s: the state is still %s after 5 s", why, x.p.CurrentState())
	}
	if !pollFor(2*time.Second, func() bool { return !x.p.Connected() }) {
		return x.slow("%s: Connected() is still true", why)
	}
	return true
}

func (x *c16Run) disable() bool {
	peer := x.peer
	alive := peer != nil && !peer.ended() && quietSync(peer, 3*time.Second)
	if alive {
		peer.rest()
	}
	done := make(chan struct{})
	go func() { x.p.Disable(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * netWait):
		return x.slow("Disable had not returned after %v", 2*netWait)
	}
	x.enabled = false
	if peer != nil && !peer.waitEnd(5*time.Second) {
		return x.slow("the connection was not ended by Disable")
	}
	if alive && x.e.Active {
		var got []string
		for _, f := range peer.rest() {
			got = append(got, frameStr(f.Frame))
		}
		sep := false
		for _, f := range got {
			sep = sep || len(f) > 9 && f[:9] == "control 9"
		}
		if !sep {
			return x.fail("Disable ended the connection without separate.req; sent: %v", got)
		}
		x.r.Label("separate.req on Disable")
	}
	x.peer, x.selected, x.gaveUp, x.lostAt = nil, false, false, time.Time{}
	if !x.down("after Disable") {
		return false
	}
	return x.errorsWhile(hsms.ErrNotConnected, "disabled")
}

// lost: the connection has been ended by the other side.
func (x *c16Run) lost(at time.Time) {
	x.peer, x.selected = nil, false
	x.lostAt = at
	if x.e.NoAuto && x.e.Active {
		x.gaveUp = true
	}
}

// nothing checks that there is no service.
func (x *c16Run) nothing(d time.Duration, why string) bool {
	if x.e.Active {
		if x.hidden {
			x.show()
		}
		end := time.Now().Add(d)
		for {
			p := x.st.conn(time.Until(end))
			if p == nil {
				break
			}
			// made before, and dead?
			if !p.waitEnd(2 * time.Second) {
				return x.fail("%s, but it connected", why)
			}
		}
	} else {
		p := x.st.conn(d / 3)
		if p != nil {
			p.send(ctrlFrame(9, 0, 0, sSelectReq, 1))
			if _, ok := p.take(d, func(f rxFrame) bool { return f.SType == sSelectRsp }); ok {
				return x.fail("%s, but it accepted a connection and a select.req", why)
			}
			p.close()
		}
	}
	x.r.Label("no connection when there must be none")
	return x.down(why)
}

func (x *c16Run) hide() {
	if x.e.Active && !x.hidden {
		x.st.unlisten()
		x.hidden = true
	}
}

func (x *c16Run) show() {
	if x.hidden {
		for i := 0; i < 200; i++ {
			if x.st.listen() == nil {
				x.hidden = false
				return
			}
			time.Sleep(10 * time.Millisecond)
		}
		panic("harness: cannot listen again")
	}
}

func (x *c16Run) run() {
	defer func() {
		if e := recover(); e != nil {
			panic(e)
		}
	}()
	x.st = newStation(x.r, x.e.Active)
	x.p = newProto(x.r, x.st, 9)
	t := x.p.Timeouts()
	t.SetT6ControlTransTimeout(1)
	t.SetT3ReplyTimeout(3)
	t.SetT5ConnSeparateTimeout(x.e.T5)
	t.SetAutoReconnect(!x.e.NoAuto)
	t.SetMaxReconnectAttempts(x.e.Max)
	x.p.RegisterHandler(1, 5, func(m *ast.DataMessage) (*ast.DataMessage, error) {
		return message(1, 6, false, iA("world")), nil
	})
	x.st.hook = func(p *Peer, f rxFrame) bool {
		if f.SType == sDeselectReq && !x.e.Mute {
			p.send(ctrlFrame(f.Session, 0, 0, sDeselectRsp, f.Sys))
		}
		if f.SType == 0 && f.S() == 1 && f.F() == 3 && f.W() && f.Item.K == "A" && f.Item.S == "request" {
			p.send(dataFrame(9, 1, 4, false, f.Sys, iA("reply")))
			return true
		}
		return false
	}
	x.r.Cleanup(func() { disable(x.p, x.st) })
	if !x.errorsWhile(hsms.ErrNotConnected, "never enabled") {
		return
	}
	for i, op := range x.e.Ops {
		pre := x.pre
		x.pre = fmt.Sprintf("%s, op %d (%s)", pre, i, op.Op)
		if !x.step(op) {
			return
		}
		x.pre = pre
	}
	x.pre += ", at the end"
	if !x.enabled {
		x.nothing(400*time.Millisecond, "it is disabled")
	} else if x.gaveUp {
		x.nothing(1500*time.Millisecond, "auto-reconnection is off and the connection was lost")
	} else if x.e.Max == 0 && !(x.e.NoAuto && x.e.Active) {
		if x.peer != nil && !x.peer.ended() {
			if !x.selected && !x.again() {
				return
			}
			x.usable("still connected")
		} else {
			x.show()
			x.converge("enabled")
		}
		if x.e.Active && !x.r.failed() {
			time.Sleep(50 * time.Millisecond)
			for {
				p := x.st.conn(time.Millisecond)
				if p == nil {
					break
				}
				if !p.waitEnd(2*time.Second) && x.peer != nil && !x.peer.ended() {
					x.fail("it has two connections")
				}
			}
		}
	}
	x.r.NonTrivial()
}

// again selects a connection that has been deselected.
func (x *c16Run) again() bool {
	x.peer.send(ctrlFrame(9, 0, 0, sSelectReq, 7))
	if !x.peer.sync(x.r) {
		return false
	}
	x.peer.rest()
	x.selected = true
	return true
}

func (x *c16Run) step(op c16Op) bool {
	r := x.r
	switch op.Op {
	case "enable":
		if x.e.NoAuto && x.hidden && !x.enabled {
			return true // the one attempt may or may not be over
		}
		x.p.Enable()
		x.enabled = true
	case "disable":
		return x.disable()
	case "cycle":
		if x.e.NoAuto || x.e.Max > 0 {
			return true
		}
		for k := 0; k <= op.N%3; k++ {
			x.p.Disable()
			x.p.Enable()
		}
		if x.peer != nil {
			if !x.peer.waitEnd(5 * time.Second) {
				return x.slow("the connection was not ended by Disable")
			}
			x.peer = nil
		}
		x.selected, x.lostAt = false, time.Time{}
		x.enabled = true
		r.Label("quick disable and enable")
	case "storm":
		if x.e.NoAuto || x.e.Max > 0 {
			return true
		}
		var wg sync.WaitGroup
		for _, on := range op.Q {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if on {
					x.p.Enable()
				} else {
					x.p.Disable()
				}
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(3 * netWait):
			return x.slow("concurrent Enable and Disable calls had not returned after %v", 3*netWait)
		}
		r.Label("concurrent enable and disable")
		// now a known state
		x.p.Disable()
		x.enabled = false
		if x.peer != nil && !x.peer.waitEnd(5*time.Second) {
			return x.slow("the connection was not ended by Disable")
		}
		x.peer, x.selected, x.lostAt = nil, false, time.Time{}
		if !x.down("after Disable") {
			return false
		}
	case "drop", "reset":
		if x.peer == nil {
			return true
		}
		at := time.Now()
		if op.Op == "reset" {
			x.peer.reset()
		} else {
			x.peer.close()
		}
		r.Label("connection lost")
		if !x.e.Active && op.N == 0 {
			if !x.down("after the loss of the connection") || !x.errorsWhile(hsms.ErrNotConnected, "not connected") {
				return false
			}
		}
		x.lost(at)
	case "separate":
		if x.peer == nil {
			return true
		}
		at := time.Now()
		x.peer.send(ctrlFrame(9, 0, 0, sSeparateReq, 5))
		if !x.peer.waitEnd(netWait) {
			return x.slow("the connection was not ended after separate.req")
		}
		r.Label("separated")
		x.lost(at)
	case "hide":
		if x.enabled && x.peer == nil && x.e.NoAuto {
			return true // the one attempt may or may not be over
		}
		x.hide()
	case "up":
		if !x.enabled {
			return x.nothing(300*time.Millisecond, "it is disabled")
		}
		if x.gaveUp {
			return x.nothing(1500*time.Millisecond, "auto-reconnection is off and the connection was lost")
		}
		if x.peer != nil {
			if x.selected {
				return x.usable("still connected")
			}
			return true
		}
		x.show()
		return x.converge("enabled")
	case "deselect":
		if x.peer == nil || !x.selected {
			return true
		}
		x.peer.send(ctrlFrame(9, 0, 0, sDeselectReq, 6))
		if !x.peer.sync(r) {
			return false
		}
		x.peer.rest()
		if !x.errorsWhile(hsms.ErrNotSelected, "deselected") {
			return false
		}
		x.selected = false
		if op.N%2 == 0 {
			return x.again() && x.usable("selected again")
		}
	case "pending":
		if x.peer == nil || !x.selected {
			return true
		}
		errc := make(chan error, 1)
		go func() {
			_, err := x.p.SendAndWait(message(1, 3, true, iA("never")))
			errc <- err
		}()
		if _, ok := x.peer.take(netWait, func(f rxFrame) bool { return f.SType == 0 && f.F() == 3 }); !ok {
			return x.slow("the request was not sent")
		}
		at := time.Now()
		x.peer.close()
		x.lost(at)
		x.lostAt = time.Time{}
		if x.e.Active && x.e.T5 == 0 && op.N%2 == 0 && !x.gaveUp && !x.hidden {
			// service goes on while the request is still waiting
			if !x.converge("reconnected while a request was waiting") {
				return false
			}
		}
		select {
		case err := <-errc:
			if err == nil {
				return x.fail("a request whose connection was lost got a reply")
			}
		case <-time.After(netWait):
			return x.slow("a request whose connection was lost had not failed after %v; T3 is 3 s", netWait)
		}
		r.Label("request pending when the connection was lost")
	case "wait":
		time.Sleep(time.Duration(op.N) * time.Millisecond)
	}
	return true
}

// c16Give: MaxReconnectAttempts.
type c16Give struct {
	Max    []int
	Base   []int
	Rounds []int  // outages one after the other in which the attempts are not used up
	Late   []bool // in the end the other side listens late once more
}

func runC16Give(r *R, c c16Give) {
	var wg sync.WaitGroup
	for i := range c.Max {
		wg.Add(1)
		go func() {
			defer wg.Done()
			st := newStation(r, true)
			st.unlisten()
			p := newProto(r, st, 9)
			p.Timeouts().SetMaxReconnectAttempts(c.Max[i])
			r.Cleanup(func() { disable(p, st) })
			p.Enable()
			// attempts 0, 1, ... Max, one second apart (backoff 1 s, at most 1 s)
			x := &c16Run{r: r, st: st, p: p, e: c16End{Active: true}, hidden: true}
			rounds := c.Rounds[i]
			for k := 0; k < rounds; k++ {
				// listen before the last attempt
				time.Sleep(time.Duration(c.Max[i])*time.Second - 500*time.Millisecond)
				x.show()
				q := st.conn(3 * time.Second)
				if q == nil {
					r.Slowf("outage %d: with %d reconnection attempts allowed, no connection was made when the other side listened %v after the first attempt", k, c.Max[i], time.Duration(c.Max[i])*time.Second-500*time.Millisecond)
					return
				}
				r.Label("connected before the attempts were used up")
				if k > 0 {
					r.Label("connected again before the attempts were used up")
				}
				if k == rounds-1 && c.Base[i] == 0 {
					return
				}
				// the next outage: the first attempt follows at once (T5 is 0)
				x.hide()
				q.close()
			}
			time.Sleep(time.Duration(c.Max[i])*time.Second + 1500*time.Millisecond)
			x.show()
			if q := st.conn(2500 * time.Millisecond); q != nil {
				r.Slowf("with %d reconnection attempts allowed, it connected %v after the first", c.Max[i], time.Duration(c.Max[i])*time.Second+1500*time.Millisecond)
				return
			}
			r.Label("attempts used up")
			// enabled anew, it tries again
			p.Disable()
			x.pre = "attempts used up, then disabled and enabled"
			if i < len(c.Late) && c.Late[i] {
				// with all its attempts
				x.hide()
				p.Enable()
				time.Sleep(time.Duration(c.Max[i])*time.Second - 500*time.Millisecond)
				x.show()
				q := st.conn(3 * time.Second)
				if q == nil {
					r.Slowf("attempts used up, then disabled and enabled: with %d reconnection attempts allowed, no connection was made when the other side listened %v after the first attempt", c.Max[i], time.Duration(c.Max[i])*time.Second-500*time.Millisecond)
					return
				}
				r.Label("all attempts again after it had given up")
				return
			}
			p.Enable()
			st.hook = func(p *Peer, f rxFrame) bool {
				if f.SType == 0 && f.F() == 3 && f.W() {
					p.send(dataFrame(9, 1, 4, false, f.Sys, iA("reply")))
					return true
				}
				return false
			}
			p.RegisterHandler(1, 5, func(m *ast.DataMessage) (*ast.DataMessage, error) {
				return message(1, 6, false, iA("world")), nil
			})
			x.converge("enabled")
		}()
	}
	wg.Wait()
	r.NonTrivial()
}

func init() {
	shards("C16", 16, 16)
	register("C16", "recovery", "batches of 10 endpoints in both roles, each with up to 12 operations: enable, disable, quick and concurrent enable/disable, connection lost by close, reset or separate, requests pending at that moment, nobody listening, deselect; after each step the connection, CurrentState(), errors of requests and (on disable) separate.req judged; in the end an enabled endpoint has to be connected and usable, a disabled one or one without auto-reconnection not connected; non-trivial: the history of an endpoint was run to the end",
		opts{quick: budget{40, 22}, thorough: budget{1500, 500}, hang: 120 * time.Second},
		func(t *rapid.T) c16Case {
			var c c16Case
			for e := 0; e < 10; e++ {
				x := c16End{Active: coin(t, "active"), Mute: oneIn(t, "mute", 6)}
				if x.Active {
					if oneIn(t, "t5", 4) {
						x.T5 = 1
					}
					x.NoAuto = oneIn(t, "noauto", 5)
				}
				if coin(t, "start") {
					x.Ops = append(x.Ops, c16Op{Op: "enable"}, c16Op{Op: "up"})
				}
				for i, n := 0, rng(t, "ops", 1, 10); i < n; i++ {
					op := c16Op{Op: pick(t, "op", "enable", "enable", "enable", "disable", "disable", "cycle", "storm", "drop", "drop", "reset", "separate", "hide", "up", "up", "up", "up", "deselect", "pending", "wait", "wait")}
					op.N = rng(t, "n", 0, 5)
					if op.Op == "wait" {
						op.N = pick(t, "ms", 1, 5, 20, 100, 300, 700)
					}
					if op.Op == "storm" {
						op.Q = rapid.SliceOfN(rapid.Bool(), 2, 8).Draw(t, "storm")
					}
					x.Ops = append(x.Ops, op)
				}
				c.Ends = append(c.Ends, x)
			}
			return c
		}, runC16)
	register("C16", "attempts", "active endpoints with 1 to 3 reconnection attempts allowed (one second apart) and up to 3 outages one after the other in which the other side listens again before the last attempt, then one in which it does so only after that; then disabled and enabled again; non-trivial: all",
		opts{quick: budget{1, 20}, thorough: budget{20, 150}},
		func(t *rapid.T) c16Give {
			var c c16Give
			for i := 0; i < 8; i++ {
				c.Max = append(c.Max, rng(t, "max", 1, 3))
				c.Base = append(c.Base, rng(t, "early", 0, 1))
				c.Rounds = append(c.Rounds, rng(t, "rounds", 1-c.Base[i], 3))
				c.Late = append(c.Late, coin(t, "late"))
			}
			return c
		}, runC16Give)
}
