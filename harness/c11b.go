package main

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	"pgregory.net/rapid"
)

// C11, part host: the requests of a GEM host that stay without a reply.

type c11hCall struct {
	Name string
	Fate string // never, abort, s9, other
}

type c11hEnd struct {
	Active  bool
	Session uint16
	T3      int
	Calls   []c11hCall
}

var hostCallSF = map[string][2]int{
	"RequestStatusVariables": {1, 3}, "RequestStatusVariableInfo": {1, 11}, "RequestEquipmentConstants": {2, 13}, "RequestEquipmentConstantInfo": {2, 29},
	"SendEquipmentConstantValues": {2, 15}, "DefineReports": {2, 33}, "LinkEventReports": {2, 35}, "EnableEventReports": {2, 37},
	"RequestCollectionEventReport": {6, 15}, "UploadProcessProgram": {7, 3}, "RequestProcessProgram": {7, 5}, "RequestDateTime": {2, 17}, "SetDateTime": {2, 31},
	"SendRemoteCommand": {2, 41}, "SendEnableAlarm": {5, 3}, "RequestAlarmList": {5, 5}, "RequestEnabledAlarmList": {5, 7},
}

func runC11Host(r *R, c struct{ Ends []c11hEnd }) {
	var wg sync.WaitGroup
	for i, e := range c.Ends {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c11Host(r, fmt.Sprintf("endpoint %d (T3 %d s): ", i, e.T3), e)
		}()
	}
	wg.Wait()
}

func c11Host(r *R, pre string, c c11hEnd) {
	e := newGem(r, c.Active, false, c.Session, nil)
	if !e.up() {
		return
	}
	e.p.Timeouts().SetT3ReplyTimeout(c.T3)
	n := len(c.Calls)
	type result struct {
		err  error
		took time.Duration
	}
	res := make([]result, n)
	hdr := make([]string, n)
	var wg sync.WaitGroup
	for i, q := range c.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			t0 := time.Now()
			err := hostCalls[q.Name](e.g)
			res[i] = result{err, time.Since(t0)}
		}()
		sf := hostCallSF[q.Name]
		f, ok := e.peer.take(netWait, isF(sf[0], sf[1]))
		if !ok {
			r.Slowf("%s%s: no S%dF%d in %v", pre, q.Name, sf[0], sf[1], netWait)
			return
		}
		hdr[i] = string(f.header())
		switch q.Fate {
		case "abort":
			e.peer.send(dataFrame(c.Session, f.S(), 0, false, f.Sys, Item{}))
		case "s9":
			e.peer.send(dataFrame(c.Session, 9, 5, false, f.Sys^0x80000000, Item{K: "B", B: []byte(hdr[i])}))
		case "other":
			e.peer.send(dataFrame(c.Session, f.S(), f.F()+1, false, f.Sys^0x40000000, iL()))
		}
	}
	if !e.peer.sync(r) {
		return
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(netWait):
		r.Slowf("%sa request without a reply had not failed %v after T3", pre, netWait-2*time.Second)
		return
	}
	if !e.peer.sync(r) {
		return
	}
	s9 := map[string]int{}
	for _, f := range e.peer.rest() {
		if f.SType == 0 && f.S() == 9 && f.F() == 9 && f.Item.K == "B" {
			s9[string(f.Item.B)]++
		}
	}
	t3 := time.Duration(c.T3) * time.Second
	for i, q := range c.Calls {
		x := res[i]
		want := 1
		if q.Fate == "abort" {
			want = 0
			if x.err == nil {
				r.Failf("%s%s succeeded although it was aborted", pre, q.Name)
			} else if errors.Is(x.err, hsms.ErrT3Timeout) {
				r.Slowf("%s%s was aborted at once but failed with %v", pre, q.Name, x.err)
			}
		} else {
			r.NonTrivial()
			if !errors.Is(x.err, hsms.ErrT3Timeout) {
				r.Failf("%s%s got no reply (%s) and ended with the error %v; want the T3 timeout error", pre, q.Name, q.Fate, x.err)
			} else if x.took < t3 {
				r.Failf("%s%s failed with %v after %v", pre, q.Name, x.err, x.took)
			} else if x.took > t3+1500*time.Millisecond {
				r.Slowf("%s%s failed only after %v", pre, q.Name, x.took)
			}
		}
		if k := s9[hdr[i]]; k != want {
			r.Failf("%s%s (%s): %d S9F9 with its header % x were sent, want %d", pre, q.Name, q.Fate, k, hdr[i], want)
		}
		r.Label(q.Fate)
	}
	if r.failed() {
		return
	}
	// the next request is served
	e.p.Timeouts().SetT3ReplyTimeout(10)
	var text string
	var err error
	hostExchange(r, e, pre+"RequestDateTime after the timeouts", 2, 17, func() { text, err = e.g.RequestDateTime() }, func(Item) string { return "" }, iA("2024010203040506"))
	if !r.failed() && (err != nil || text != "2024010203040506") {
		r.Failf("%sRequestDateTime after the timeouts: %q, %v", pre, text, err)
	}
	e.peer.check(r)
}

func init() {
	register("C11", "host", "batches of 4 GEM hosts that make up to 17 requests of their interface at once, which the other side leaves alone, aborts with function 0, reports with an S9F5, or answers under other system bytes; error, time and S9F9 of each judged, and a request afterwards; non-trivial: one was not answered",
		opts{quick: budget{2, 10}, thorough: budget{60, 200}},
		func(t *rapid.T) struct{ Ends []c11hEnd } {
			var c struct{ Ends []c11hEnd }
			for i := 0; i < 4; i++ {
				x := c11hEnd{Active: coin(t, "active"), Session: genSession(t) & 0x7fff, T3: rng(t, "t3", 1, 2)}
				all := coin(t, "all")
				for _, name := range rapid.Permutation(hostCallNames).Draw(t, "order") {
					if all || oneIn(t, "this", 3) {
						x.Calls = append(x.Calls, c11hCall{name, pick(t, "fate", "never", "never", "abort", "s9", "other")})
					}
				}
				c.Ends = append(c.Ends, x)
			}
			return c
		}, runC11Host)
}
