package main

import (
	"sync"
	"time"

	"pgregory.net/rapid"
)

// C16, part backoff: how long an active endpoint waits after a failed attempt: the backoff base, doubled with each failure
// up to the backoff maximum, and from the base again after a connection was made. The other side begins to listen between
// two attempts; the connection has to come with the later one.

type c16bEnd struct {
	Base, Max int
	Outages   []int // for each outage, the number of attempts that fail
}

type c16bCase struct{ Ends []c16bEnd }

// until gives the time from the first attempt to attempt k+1.
func (e c16bEnd) until(k int) time.Duration {
	var sum, d = 0, e.Base
	for ; k > 0; k-- {
		sum += min(d, e.Max)
		d *= 2
	}
	return time.Duration(sum) * time.Second
}

func runC16Backoff(r *R, c c16bCase) {
	var wg sync.WaitGroup
	for _, e := range c.Ends {
		wg.Add(1)
		go func() {
			defer wg.Done()
			st := newStation(r, true)
			st.unlisten()
			p := newProto(r, st, 9)
			p.Timeouts().SetReconnectBackoffBase(e.Base)
			p.Timeouts().SetReconnectBackoffMax(e.Max)
			r.Cleanup(func() { go p.Disable() })
			x := &c16Run{r: r, st: st, p: p, e: c16End{Active: true}, hidden: true}
			at := time.Now()
			p.Enable()
			for i, k := range e.Outages {
				due := e.until(k)
				time.Sleep(time.Until(at.Add(e.until(k-1) + 400*time.Millisecond)))
				x.show()
				q := st.conn(due - e.until(k-1) + 3*time.Second)
				took := time.Since(at)
				if q == nil || took > due+600*time.Millisecond {
					r.Slowf("outage %d: backoff base %d s, maximum %d s: after %d failed attempts the next one was not made %v after the first (connected: %v, after %v)", i, e.Base, e.Max, k, due, q != nil, took)
					return
				}
				if took < due-200*time.Millisecond {
					r.Slowf("outage %d: backoff base %d s, maximum %d s: after %d failed attempts the next one was made %v after the first instead of %v", i, e.Base, e.Max, k, took, due)
					return
				}
				r.Label("waited as long as configured")
				if i > 0 {
					r.Label("from the base again after a connection")
				}
				x.hide()
				at = time.Now()
				q.close()
			}
		}()
	}
	wg.Wait()
	r.NonTrivial()
}

func init() {
	register("C16", "backoff", "active endpoints with generated backoff bases and maxima (1 to 4 s) and up to 3 outages in which 1 to 3 attempts fail before the other side listens again: the connection has to come with the next attempt, at the time the backoff gives, to within 0.6 s; non-trivial: all",
		opts{quick: budget{1, 20}, thorough: budget{20, 200}},
		func(t *rapid.T) c16bCase {
			var c c16bCase
			for i := 0; i < 6; i++ {
				e := c16bEnd{Base: rng(t, "base", 1, 2), Max: rng(t, "max", 1, 4)}
				left := 8 * time.Second
				for n := rng(t, "outages", 1, 3); n > 0; n-- {
					k := rng(t, "failed", 1, 3)
					for k > 1 && e.until(k) > left {
						k--
					}
					if left -= e.until(k); left < 0 {
						break
					}
					e.Outages = append(e.Outages, k)
				}
				if len(e.Outages) == 0 {
					e.Outages = []int{1}
				}
				c.Ends = append(c.Ends, e)
			}
			return c
		}, runC16Backoff)
}
