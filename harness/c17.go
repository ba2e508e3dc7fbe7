package main

import (
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
)

// C17: establishing communication.

type c17Op struct {
	Op   string // answer, s1f13, s1f14, s1f1, drop, calls, wait, waiter
	How  string // answer: accept, deny, odd, abort, s9, silent, late, acceptdrop, drop; drop: close, reset, separate
	Code int
	Body int
	Ms   int
}

type c17End struct {
	Equip, Active bool
	MDLN, SOFTREV string
	WaitMs        int
	Ops           []c17Op
}

type c17Case struct{ Ends []c17End }

func leaves(it Item) (a []Item) {
	if it.K == "L" {
		for _, c := range it.L {
			a = append(a, leaves(c)...)
		}
		return a
	}
	if it.K == "" {
		return nil
	}
	return []Item{it}
}

func sameLeaves(it Item, want ...Item) bool {
	l := leaves(it)
	if len(l) != len(want) {
		return false
	}
	for i := range l {
		if !l[i].same(want[i]) {
			return false
		}
	}
	return true
}

func runC17(r *R, c c17Case) {
	var wg sync.WaitGroup
	for i, e := range c.Ends {
		wg.Add(1)
		go func() {
			defer wg.Done()
			role := "host"
			if e.Equip {
				role = "equipment"
			}
			x := &c17Run{r: r, c: e, pre: fmt.Sprintf("endpoint %d (%s, active %v, wait %d ms)", i, role, e.Active, e.WaitMs)}
			x.run()
		}()
	}
	wg.Wait()
}

type c17Run struct {
	r       *R
	c       c17End
	pre     string
	e       *gemEnd
	comm    bool
	commAt  time.Time
	events  atomic.Int32
	times   int32     // number of times communication was established
	maybe   int32     // number of times it may have been on top of that
	denied  time.Time // the last S1F13 on this connection was denied at, and nothing is open
	waiting bool      // an S1F13 of the endpoint has no answer
	seen    int       // frames of the connection that were judged
	mine    map[uint32]bool
}

func (x *c17Run) fail(f string, a ...any) bool {
	x.r.Failf(x.pre+": "+f, a...)
	return false
}
func (x *c17Run) slow(f string, a ...any) bool {
	x.r.Slowf(x.pre+": "+f, a...)
	return false
}

func (x *c17Run) ident() []Item {
	if !x.c.Equip {
		return nil
	}
	m, s := x.c.MDLN, x.c.SOFTREV
	if m == "" {
		m = "secs4go"
	}
	if s == "" {
		s = "0.1.0"
	}
	return []Item{iA(m), iA(s)}
}

func (x *c17Run) run() {
	x.e = newGem(x.r, x.c.Active, x.c.Equip, 4, func(o *gem.Options) {
		o.MDLN, o.SOFTREV = x.c.MDLN, x.c.SOFTREV
		o.EstablishCommunicationWait = time.Duration(x.c.WaitMs) * time.Millisecond
	})
	x.e.auto13.Store(false)
	x.e.p.Timeouts().SetT3ReplyTimeout(1)
	x.e.g.Events().HandlerCommunicating.AddCallback(func(map[string]any) { x.events.Add(1) })
	if x.c.Equip {
		x.e.g.RegisterAlarm(gem.Alarm{ID: 1, Text: "a"})
	}
	if !x.judge("before it was enabled") || !x.calls("before it was enabled") {
		return
	}
	x.e.g.Enable()
	if !x.connect() {
		return
	}
	pre := x.pre
	for i, op := range x.c.Ops {
		x.pre = fmt.Sprintf("%s, op %d (%s %s)", pre, i, op.Op, op.How)
		if !x.step(op) || !x.judge("") {
			return
		}
	}
	x.pre = pre + ", at the end"
	if !x.comm {
		// it has to try again, and succeed
		if !x.step(c17Op{Op: "answer", How: "accept"}) {
			return
		}
	}
	time.Sleep(20 * time.Millisecond)
	if !x.judge("") {
		return
	}
	x.frames()
	if n := x.events.Load(); n < x.times || n > x.times+x.maybe {
		x.fail("HandlerCommunicating was fired %d times, communication was established %d times (perhaps %d more)", n, x.times, x.maybe)
	}
	x.r.NonTrivial()
}

func (x *c17Run) connect() bool {
	x.e.peer = x.e.st.up(x.r, 4)
	x.seen, x.waiting, x.denied = 0, false, time.Time{}
	x.mine = map[uint32]bool{}
	if x.e.peer == nil {
		return false
	}
	return x.judge("on a new connection")
}

// judge compares the reported state with the expected one.
func (x *c17Run) judge(when string) bool {
	s := x.e.g.State()
	if x.comm && s != gem.CommunicationStateCommunicating {
		return x.fail("%s the state is %v although communication has been established and the connection lasts", when, s)
	}
	if !x.comm && s == gem.CommunicationStateCommunicating {
		return x.fail("%s the state is communicating although no S1F13 was accepted on this connection", when)
	}
	if x.comm != x.e.g.WaitForCommunicating(time.Microsecond) {
		return x.fail("%s WaitForCommunicating says %v", when, !x.comm)
	}
	return true
}

// established: an S1F13 has been answered with 0.
func (x *c17Run) established(why string) bool {
	x.denied, x.waiting = time.Time{}, false
	if x.comm {
		return true
	}
	if !pollFor(netWait, func() bool { return x.e.g.State() == gem.CommunicationStateCommunicating }) {
		return x.slow("%s, but after %v the state is still %v", why, netWait, x.e.g.State())
	}
	x.comm, x.commAt = true, time.Now()
	x.times++
	if !pollFor(netWait, func() bool { return x.events.Load() >= x.times }) {
		return x.slow("%s, but HandlerCommunicating was fired %d times in all, not %d", why, x.events.Load(), x.times)
	}
	x.r.Label("communicating: " + why)
	return true
}

// frames judges what the endpoint has sent on this connection.
func (x *c17Run) frames() bool {
	p := x.e.peer
	p.mu.Lock()
	all := append([]rxFrame{}, p.all...)
	p.mu.Unlock()
	for _, f := range all[min(x.seen, len(all)):] {
		if f.SType != 0 {
			continue
		}
		switch {
		case f.S() == 1 && f.F() == 13:
			if !f.W() || f.Session != 4 {
				return x.fail("it sent %v", f.view())
			}
			if x.comm && f.at.After(x.commAt.Add(400*time.Millisecond)) {
				return x.slow("it sent S1F13 %v after communication had been established", f.at.Sub(x.commAt))
			}
		case f.S() == 1 && (f.F() == 14 || f.F() == 2):
			if !x.mine[f.Sys] || f.W() || f.Session != 4 {
				return x.fail("it sent %v, which answers nothing", f.view())
			}
		case f.S() == 1 && f.F() == 1:
			if !x.c.Equip || !f.W() || x.times == 0 {
				return x.fail("it sent %v", f.view())
			}
		case f.S() == 9 && (f.F() == 9 || f.F() == 5):
		default:
			return x.fail("it sent %v", f.view())
		}
	}
	x.seen = len(all)
	return true
}

// calls: every request fails and sends nothing while not communicating.
func (x *c17Run) calls(when string) bool {
	if x.comm {
		return true
	}
	g := x.e.g
	for _, n := range append(append([]string{}, hostCallNames...), "RaiseAlarm", "TriggerCollectionEvent") {
		want := gem.ErrNotCommunicating
		if x.c.Equip != (n == "RaiseAlarm" || n == "TriggerCollectionEvent") {
			want = gem.ErrOperationNotSupported
		}
		if err := hostCalls[n](g); !errors.Is(err, want) {
			return x.fail("%s %s ended with the error %v, want %v", when, n, err, want)
		}
	}
	x.r.Label("requests refused while not communicating")
	return true
}

// lost: the connection is gone.
func (x *c17Run) lost() bool {
	x.comm = false
	if !x.connect() {
		return false
	}
	x.r.Label("connection lost")
	return true
}

func (x *c17Run) drop(how string) {
	p := x.e.peer
	switch how {
	case "reset":
		p.reset()
	case "separate":
		p.send(ctrlFrame(4, 0, 0, sSeparateReq, 5))
		p.waitEnd(netWait)
		p.close()
	default:
		p.close()
	}
}

// next waits for an S1F13 of the endpoint.
func (x *c17Run) next() (rxFrame, bool) {
	wait := time.Duration(x.c.WaitMs)*time.Millisecond + 2*time.Second // T3 and a tick
	f, ok := x.e.peer.take(wait+netWait, func(f rxFrame) bool { return f.SType == 0 && f.S() == 1 && f.F() == 13 })
	if !ok {
		return f, x.slow("no S1F13 in %v while not communicating (connection ended: %v)", wait+netWait, x.e.peer.ended())
	}
	if !x.denied.IsZero() {
		w := time.Duration(x.c.WaitMs) * time.Millisecond
		if d := f.at.Sub(x.denied); d < w-20*time.Millisecond {
			return f, x.fail("S1F13 was sent again %v after it had been denied, the configured wait is %v", d, w)
		}
		x.r.Label("retried after the wait")
	}
	return f, true
}

func (x *c17Run) step(op c17Op) bool {
	r, e := x.r, x.e
	switch op.Op {
	case "answer":
		if x.comm {
			return true
		}
		f, ok := x.next()
		if !ok {
			return false
		}
		if x.waiting {
			// it may be that this one has timed out already
			x.waiting = false
			x.denied = time.Time{}
		}
		acc := [][]Item{{iL(iB(0), iL(iA("m"), iA("s")))}, {iL(iB(0), iL())}, {iL(iB(0, 5), iL())}}[op.Body%3][0]
		switch op.How {
		case "accept":
			e.peer.send(dataFrame(4, 1, 14, false, f.Sys, acc))
			return x.established("S1F13 of the endpoint was accepted")
		case "acceptdrop":
			e.peer.send(dataFrame(4, 1, 14, false, f.Sys, acc))
			e.peer.close()
			x.comm = false
			x.maybe++ // it may or may not have been communicating for a moment
			r.Label("lost at the moment of acceptance")
			return x.connect()
		case "drop":
			x.drop("close")
			return x.lost()
		case "silent":
			x.waiting = true
			x.denied = time.Time{}
			if op.Code%2 == 0 {
				// T3 ends it
				if _, ok := e.peer.take(netWait, func(y rxFrame) bool { return y.SType == 0 && y.S() == 9 && y.F() == 9 }); !ok {
					return x.slow("no S9F9 in %v for an unanswered S1F13", netWait)
				}
				x.waiting = false
				x.denied = f.at.Add(time.Second)
				r.Label("S1F13 without an answer")
			}
			return true
		case "s9":
			e.peer.send(dataFrame(4, 9, 5, false, f.Sys, iB(1, 2, 3, 4, 5, 6, 7, 8, 9, 10)))
		case "abort":
			e.peer.send(dataFrame(4, 1, 0, false, f.Sys, Item{}))
		case "odd":
			e.peer.send(dataFrame(4, 1, 14, false, f.Sys, []Item{iL(), Item{}, iB(), iL(iU(1, 0)), iL(iL(iB(0))), iA(""), iL(iB())}[op.Body%7]))
		default:
			e.peer.send(dataFrame(4, 1, 14, false, f.Sys, iL(iB(byte(op.Code)), iL())))
		}
		x.denied = time.Now()
		r.Label("denied: " + op.How)
		if !e.peer.sync(r) {
			return false
		}
		return true
	case "s1f13":
		sys := e.peer.nextSys()
		x.mine[sys] = true
		e.peer.send(dataFrame(4, 1, 13, op.Code%4 != 0, sys, []Item{e.s1f13(), iL(), Item{}, iA("odd")}[op.Body%4]))
		if op.Code%4 != 0 {
			a, ok := e.peer.take(netWait, func(y rxFrame) bool { return y.SType == 0 && y.Sys == sys })
			if !ok {
				return x.slow("S1F13 was not answered in %v (connection ended: %v)", netWait, e.peer.ended())
			}
			if a.S() != 1 || a.F() != 14 || len(a.Item.L) == 0 || !sameLeaves(a.Item, append([]Item{iB(0)}, x.ident()...)...) {
				return x.fail("S1F13 was answered with %v, %v", a.view(), a.Item)
			}
			r.Label("S1F13 answered")
		} else if !e.peer.sync(r) {
			return false
		} else {
			// nothing says that an S1F13 without the wait bit was answered
			if e.g.State() == gem.CommunicationStateCommunicating {
				return x.established("S1F13 without wait bit")
			}
			return true
		}
		return x.established("S1F13 of the other side was accepted")
	case "s1f14":
		e.peer.send(dataFrame(4, 1, 14, false, e.peer.nextSys(), iL(iB(byte(op.Code)), iL())))
		if !e.peer.sync(r) {
			return false
		}
		if op.Code == 0 {
			return x.established("S1F14 with 0 received")
		}
		if !x.comm {
			x.denied = time.Now().Add(-time.Hour) // the wait starts anew; nothing is claimed
		}
		r.Label("unsolicited S1F14 with another code")
		return true
	case "s1f1":
		sys := e.peer.nextSys()
		x.mine[sys] = true
		e.peer.send(dataFrame(4, 1, 1, true, sys, Item{}))
		a, ok := e.peer.take(netWait, func(y rxFrame) bool { return y.SType == 0 && y.Sys == sys })
		if !ok {
			return x.slow("S1F1 was not answered in %v (connection ended: %v)", netWait, e.peer.ended())
		}
		if a.S() != 1 || a.F() != 2 || !sameLeaves(a.Item, x.ident()...) {
			return x.fail("S1F1 was answered with %v, %v", a.view(), a.Item)
		}
		r.Label("S1F1 answered")
	case "drop":
		if !x.frames() {
			return false
		}
		x.drop(op.How)
		return x.lost()
	case "calls":
		if x.comm {
			return true
		}
		if !x.calls("while not communicating") || !e.peer.sync(r) {
			return false
		}
		return x.frames()
	case "waiter":
		if x.comm || x.waiting {
			return true
		}
		// somebody waits and is told in time
		got := make(chan bool, 1)
		go func() { got <- e.g.WaitForCommunicating(30 * time.Second) }()
		short := e.g.WaitForCommunicating(20 * time.Millisecond)
		if short {
			return x.fail("WaitForCommunicating says true while not communicating")
		}
		if !x.step(c17Op{Op: "s1f13", Code: 1}) {
			return false
		}
		select {
		case ok := <-got:
			if !ok {
				return x.fail("WaitForCommunicating says false although communication was established within its time")
			}
		case <-time.After(netWait):
			return x.slow("WaitForCommunicating had not returned %v after communication was established", netWait)
		}
		r.Label("WaitForCommunicating")
	case "wait":
		time.Sleep(time.Duration(op.Ms) * time.Millisecond)
		if x.e.p.CurrentState() != hsms.StateConnectedSelected {
			return x.slow("the connection is not selected any more: %s", x.e.p.CurrentState())
		}
		return x.frames()
	}
	return true
}

func init() {
	shards("C17", 16, 16)
	register("C17", "establish", "batches of 10 GEM hosts and equipment in both connection roles with up to 8 operations: the endpoint's S1F13 accepted, denied, answered oddly, aborted, not answered or cut off (also right after the acceptance), S1F13, S1F1 and S1F14 from the other side, connections lost and made again at once, requests and waiting applications; State(), WaitForCommunicating, the event and all frames judged; non-trivial: the history of an endpoint was run to the end",
		opts{quick: budget{40, 22}, thorough: budget{1500, 500}, hang: 150 * time.Second},
		func(t *rapid.T) c17Case {
			var c c17Case
			for i := 0; i < 10; i++ {
				e := c17End{Equip: coin(t, "equip"), Active: coin(t, "active"), WaitMs: pick(t, "wait", 300, 900, 1500)}
				if coin(t, "names") {
					e.MDLN, e.SOFTREV = genASCII(t, 20), genASCII(t, 6)
				}
				for j, n := 0, rng(t, "ops", 1, 8); j < n; j++ {
					op := c17Op{Op: pick(t, "op", "answer", "answer", "answer", "s1f13", "s1f14", "s1f1", "drop", "drop", "calls", "wait", "waiter")}
					op.Code, op.Body = rng(t, "code", 0, 255), rng(t, "body", 0, 50)
					switch op.Op {
					case "answer":
						op.How = pick(t, "how", "accept", "accept", "deny", "deny", "odd", "abort", "s9", "silent", "acceptdrop", "acceptdrop", "drop")
						if op.How == "deny" && op.Code == 0 {
							op.Code = 1
						}
					case "drop":
						op.How = pick(t, "how", "close", "reset", "separate")
					case "s1f14":
						if coin(t, "zero") {
							op.Code = 0
						}
					case "wait":
						op.Ms = pick(t, "ms", 5, 100, 600, 1100)
					}
					e.Ops = append(e.Ops, op)
				}
				c.Ends = append(c.Ends, e)
			}
			return c
		}, runC17)
}
