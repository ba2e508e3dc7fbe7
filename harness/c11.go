package main

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// C11: T3 and S9F9.

type c11Req struct {
	S, F  int
	W     int // 0: false, 1: true, 2: "optional"
	It    Item
	Fate  string // now, soon, never, late, other
	Delay int    // ms after which it is sent (before all else: 0)
	RIt   Item
	T3    int
}

type c11End struct {
	Active  bool
	Session uint16
	Reqs    []c11Req
}

type c11Case struct{ Ends []c11End }

const c11Late = 3 * time.Second

func runC11(r *R, c c11Case) {
	var wg sync.WaitGroup
	for i, e := range c.Ends {
		wg.Add(1)
		go func() {
			defer wg.Done()
			runC11End(r, fmt.Sprintf("endpoint %d: ", i), e)
		}()
	}
	wg.Wait()
}

func runC11End(r *R, pre string, c c11End) {
	st := newStation(r, c.Active)
	p := newProto(r, st, int(c.Session))
	r.Cleanup(func() { disable(p, st) })
	p.RegisterDefaultHandler(func(m *ast.DataMessage) (*ast.DataMessage, error) { return nil, nil })
	p.Enable()
	peer := st.up(r, c.Session)
	if peer == nil {
		return
	}
	type result struct {
		v    view
		err  error
		took time.Duration
	}
	n := len(c.Reqs)
	res := make([]result, n)
	var wg sync.WaitGroup
	sys := make([]uint32, n)
	hdr := make([]string, n)
	seen := make([]bool, n)
	sentAt := make([]time.Time, n)
	var mu sync.Mutex
	var lates sync.WaitGroup
	// The requests are started one after the other, those with another T3 in
	// between: T3 is that of the moment the request is sent.
	for i, q := range c.Reqs {
		p.Timeouts().SetT3ReplyTimeout(q.T3)
		it := iL(iU(4, uint64(i)), q.It)
		m := ast.NewDataMessage("", q.S, q.F, q.W, "H<->E", it.node())
		wg.Add(1)
		go func() {
			defer wg.Done()
			t0 := time.Now()
			a, err := p.SendAndWait(m)
			res[i].took = time.Since(t0)
			res[i].err = err
			if a != nil {
				res[i].v = viewOf(a)
			}
		}()
		f, ok := peer.take(netWait, func(f rxFrame) bool { return f.SType == 0 && f.S() != 9 })
		if !ok {
			r.Slowf("%srequest %d was not sent (connection ended: %v)", pre, i, peer.ended())
			return
		}
		want := dataFrame(c.Session, q.S, q.F, q.W != 0, f.Sys, it)
		if f.view() != want.view() {
			r.Failf("%srequest %d was sent as %v, want %v", pre, i, f.view(), want.view())
			return
		}
		sys[i], hdr[i], seen[i], sentAt[i] = f.Sys, string(want.header()), true, time.Now()
		reply := func() {
			peer.send(dataFrame(c.Session, q.S, (q.F+1)&0xff, false, f.Sys, q.RIt))
		}
		switch q.Fate {
		case "now":
			reply()
		case "soon":
			lates.Add(1)
			time.AfterFunc(time.Duration(q.Delay)*time.Millisecond, func() { reply(); lates.Done() })
		case "late":
			lates.Add(1)
			time.AfterFunc(time.Duration(q.T3)*time.Second+c11Late, func() { reply(); lates.Done() })
		case "other":
			// what is no answer: a primary message with the same system bytes,
			// replies that carry other ones
			peer.send(dataFrame(c.Session, q.S, q.F, false, f.Sys, q.RIt))
			peer.send(dataFrame(c.Session, q.S, (q.F+1)&0xff, false, f.Sys^0x80000000, q.RIt))
			peer.send(dataFrame(c.Session, q.S, (q.F+1)&0xff, false, f.Sys^0x40000000, q.RIt))
		}
		if i+1 < n && c.Reqs[i+1].T3 != q.T3 {
			time.Sleep(2 * time.Millisecond) // so that it mostly sees its own T3
		}
	}
	// The connection works while requests are waiting.
	if !peer.sync(r) {
		return
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(netWait):
		r.Slowf("%sa request without a reply had not failed %v after T3", pre, netWait-2*time.Second)
		return
	}
	lates.Wait()
	if !peer.sync(r) {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	s9 := map[string]int{}
	for _, f := range peer.rest() {
		if f.SType != 0 {
			continue
		}
		v := f.view()
		if f.S() != 9 || f.F() != 9 {
			r.Failf("%sunexpected message %v", pre, v)
			return
		}
		if v.W != "false" || v.Session != c.Session || f.Item.K != "B" || len(f.Item.B) != 10 {
			r.Failf("%sS9F9 is %v; want session %d, no wait bit and the 10 header bytes", pre, v, c.Session)
			return
		}
		s9[string(f.Item.B)]++
	}
	for i, q := range c.Reqs {
		x := res[i]
		// T3 is read some time after the message is on its way: a request that is
		// followed by one with another T3 may see that one
		t3, t3max := time.Duration(q.T3)*time.Second, time.Duration(q.T3)*time.Second
		for _, q := range c.Reqs[i:] {
			t3, t3max = min(t3, time.Duration(q.T3)*time.Second), max(t3max, time.Duration(q.T3)*time.Second)
		}
		if q.Fate == "now" || q.Fate == "soon" {
			if errors.Is(x.err, hsms.ErrT3Timeout) {
				r.Slowf("%srequest %d (T3 %v) failed with %v although it was answered at once or after %d ms", pre, i, t3, x.err, q.Delay)
				return
			}
			want := dataFrame(c.Session, q.S, (q.F+1)&0xff, false, sys[i], q.RIt).view()
			if x.err != nil || x.v != want {
				r.Failf("%srequest %d got %v, error %v; want %v", pre, i, x.v, x.err, want)
				return
			}
			if k := s9[hdr[i]]; k != 0 {
				r.Failf("%srequest %d was answered, but %d S9F9 were sent for it", pre, i, k)
				return
			}
			r.Label("answered")
			continue
		}
		if !errors.Is(x.err, hsms.ErrT3Timeout) {
			r.Failf("%srequest %d, which got no reply (%s), ended with %v, error %v; want the T3 timeout error", pre, i, q.Fate, x.v, x.err)
			return
		}
		if x.took < t3 {
			r.Failf("%srequest %d failed with %v after %v; T3 is %v", pre, i, x.err, x.took, t3)
			return
		}
		if x.took > t3max+1500*time.Millisecond {
			r.Slowf("%srequest %d failed only after %v; T3 is %v", pre, i, x.took, t3)
			return
		}
		if k := s9[hdr[i]]; k != 1 {
			r.Failf("%srequest %d (%s) got no reply: %d S9F9 with its header %x were sent, want 1 (headers sent: %x)", pre, i, q.Fate, k, hdr[i], s9)
			return
		}
		delete(s9, hdr[i])
		r.Label("unanswered: " + q.Fate)
		r.NonTrivial()
	}
	if len(s9) > 0 {
		r.Failf("%sS9F9 were sent for other messages: %x", pre, s9)
	}
	// and the connection is usable afterwards
	go func() {
		f, ok := peer.take(netWait, func(f rxFrame) bool { return f.SType == 0 && f.F() == 1 })
		if ok {
			peer.send(dataFrame(c.Session, 1, 2, false, f.Sys, iA("ok")))
		}
	}()
	p.Timeouts().SetT3ReplyTimeout(10)
	if a, err := p.SendAndWait(message(1, 1, true, iL())); err != nil {
		r.Slowf("%sthe request after the timeouts failed: %v", pre, err)
	} else if a.FunctionCode() != 2 {
		r.Failf("%sthe request after the timeouts got %v", pre, viewOf(a))
	}
	peer.check(r)
}

func init() {
	shards("C11", 16, 16)
	register("C11", "timeouts", "1 to 4 endpoints in either role at a time, each with up to 25 concurrent requests (all streams and functions, T3 of 1 or 2 s) of which some are answered at once or within half of T3, some never, some after the timeout and some only with messages that are no answer; error, time, and the S9F9 sent compared with the fates; non-trivial: a request stayed unanswered",
		opts{quick: budget{40, 24}, thorough: budget{1000, 500}},
		func(t *rapid.T) c11Case {
			var c c11Case
			for e, ne := 0, rng(t, "ends", 1, 4); e < ne; e++ {
				x := c11End{Active: coin(t, "active"), Session: genOwnSession(t)}
				mixT3 := oneIn(t, "mixt3", 3)
				ownT3 := pick(t, "ownt3", 1, 1, 1, 2, 3)
				for i, n := 0, rng(t, "n", 1, 25); i < n; i++ {
					q := c11Req{W: pick(t, "w", 1, 1, 2, 0), T3: ownT3}
					q.S, q.F = genReqSF(t)
					q.It, q.RIt = genSmallItem(t, "it"), genSmallItem(t, "rit")
					if mixT3 {
						q.T3 = pick(t, "t3", 1, 2)
					}
					q.Fate = pick(t, "fate", "now", "now", "soon", "never", "never", "never", "other", "other", "late")
					if q.Fate == "late" && !oneIn(t, "reallylate", 3) {
						q.Fate = "never"
					}
					q.Delay = rng(t, "delay", 0, 500)
					if !mixT3 {
						q.Delay = rng(t, "delay", 0, 500*q.T3)
					}
					x.Reqs = append(x.Reqs, q)
				}
				c.Ends = append(c.Ends, x)
			}
			return c
		}, runC11)
}
