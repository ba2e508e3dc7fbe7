package main

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/utils"
)

// C09: histories of concurrent Put and Get on a Deque are linearizable to a
// FIFO queue; a consumer is not left waiting while the queue holds an item; a
// timeout means the queue was empty when the time was up.

type c09Case struct {
	Procs []c09Proc
	Drain bool // Get everything that is left at the end
}

type c09Proc struct {
	Ops []c09Op
}

type c09Op struct {
	Get     bool
	Timeout int // seconds
	Wait    int // microseconds before the operation
}

type qIn struct {
	Get bool
	V   int
}
type qOut struct {
	V    int
	Fail bool
}

type qHist struct {
	proc      int
	in        qIn
	out       qOut
	call, ret time.Duration
	timeout   time.Duration
}

var fifoModel = porcupine.Model{
	Init: func() interface{} { return "" },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		q := state.(string) // two bytes per value
		in, out := input.(qIn), output.(qOut)
		if !in.Get {
			return true, q + string([]byte{byte(in.V >> 8), byte(in.V)})
		}
		if out.Fail {
			return q == "", q
		}
		if q == "" {
			return false, q
		}
		return int(q[0])<<8|int(q[1]) == out.V, q[2:]
	},
	Equal: func(a, b interface{}) bool { return a.(string) == b.(string) },
}

const c09Slack = 150 * time.Millisecond

func runC09(r *R, c c09Case) {
	for _, m := range playC09(r, c) {
		_ = m
	}
}

func playC09(r *R, c c09Case) []qHist {
	q := utils.NewDeque()
	t0 := time.Now()
	var mu sync.Mutex
	var hist []qHist
	rec := func(h qHist) { mu.Lock(); hist = append(hist, h); mu.Unlock() }
	var wg sync.WaitGroup
	start := make(chan struct{})
	get := func(p, timeout int) bool {
		h := qHist{proc: p, in: qIn{Get: true}, timeout: time.Duration(timeout) * time.Second, call: time.Since(t0)}
		v, err := q.Get(timeout)
		h.ret = time.Since(t0)
		switch x := v.(type) {
		case int:
			h.out.V = x
			if err != nil {
				r.Failf("Get returned a value and the error %v", err)
			}
		case nil:
			h.out.Fail = true
			if err == nil {
				r.Failf("Get returned neither a value nor an error")
			}
		default:
			r.Failf("Get returned a %T", v)
		}
		rec(h)
		return !h.out.Fail
	}
	val := 0
	for p, pr := range c.Procs {
		base := val
		for _, o := range pr.Ops {
			if !o.Get {
				val++
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			k := base
			for _, o := range pr.Ops {
				if o.Wait > 0 {
					time.Sleep(time.Duration(o.Wait) * time.Microsecond)
				}
				if o.Get {
					get(p, o.Timeout)
					continue
				}
				h := qHist{proc: p, in: qIn{V: k}, call: time.Since(t0)}
				q.Put(k)
				h.ret = time.Since(t0)
				rec(h)
				k++
			}
		}()
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(40 * time.Second):
		r.SlowFatalf("the operations did not return in 40 s although every Get has a timeout of at most 10 s")
	}
	if c.Drain {
		for get(len(c.Procs), 0) {
		}
	}
	r.mu.Lock()
	bad := len(r.fails) > 0
	r.mu.Unlock()
	if bad {
		return hist
	}
	// exactly once
	puts, gets := map[int]qHist{}, map[int]qHist{}
	for _, h := range hist {
		if !h.in.Get {
			puts[h.in.V] = h
		}
	}
	timeouts := 0
	for _, h := range hist {
		if !h.in.Get {
			continue
		}
		if h.out.Fail {
			timeouts++
			if h.ret-h.call < h.timeout {
				r.Failf("Get(%v) gave up after %v", h.timeout, h.ret-h.call)
			}
			if h.ret-h.call > h.timeout+3*time.Second {
				r.Slowf("Get(%v) gave up only after %v", h.timeout, h.ret-h.call)
			}
			continue
		}
		if _, twice := gets[h.out.V]; twice {
			r.Failf("the value %d was taken twice", h.out.V)
		}
		gets[h.out.V] = h
		if p, ok := puts[h.out.V]; !ok || h.ret < p.call {
			r.Failf("the value %d was taken but not put", h.out.V)
		}
	}
	if c.Drain {
		for v := range puts {
			if _, ok := gets[v]; !ok {
				r.Failf("the value %d was put and is lost: the queue is empty at the end", v)
			}
		}
	}
	// prompt wake-up: no consumer waits while an item lies in the queue
	for _, h := range hist {
		if !h.in.Get {
			continue
		}
		for v, p := range puts {
			a, b := max(h.call, p.ret), h.ret
			if g, ok := gets[v]; ok {
				b = min(b, g.ret)
			}
			if b-a > 600*time.Millisecond {
				r.Slowf("a Get waited from %v to %v while the value %d lay in the queue (put at %v): its wake-up was lost", h.call, h.ret, v, p.ret)
			}
		}
	}
	// linearizability; the check for an empty queue is made when the time is up
	var ops []porcupine.Operation
	for _, h := range hist {
		call := h.call
		if h.out.Fail && h.call+h.timeout-c09Slack > call {
			call = h.call + h.timeout - c09Slack
		}
		ops = append(ops, porcupine.Operation{ClientId: h.proc, Input: h.in, Output: h.out, Call: int64(call), Return: int64(h.ret)})
	}
	switch porcupine.CheckOperationsTimeout(fifoModel, ops, 5*time.Second) {
	case porcupine.Illegal:
		var b strings.Builder
		for _, h := range hist {
			if h.in.Get {
				fmt.Fprintf(&b, "\n  [%v %v] proc %d Get(%v) -> %d %v", h.call, h.ret, h.proc, h.timeout, h.out.V, h.out.Fail)
			} else {
				fmt.Fprintf(&b, "\n  [%v %v] proc %d Put(%d)", h.call, h.ret, h.proc, h.in.V)
			}
		}
		r.Failf("the history is not that of a FIFO queue:%s", b.String())
	case porcupine.Unknown:
		r.Label("linearizability undecided")
	}
	r.LabelN("gets", len(gets))
	r.LabelN("timeouts", timeouts)
	if len(c.Procs) > 1 && len(gets) > 0 {
		r.NonTrivial()
	}
	return hist
}

// c09Batch runs several cases at the same time, because most of them wait.
type c09Batch struct{ Cases []c09Case }

func runC09Batch(r *R, b c09Batch) {
	var wg sync.WaitGroup
	var pan any
	for _, c := range b.Cases {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(stopCase); !ok {
						pan = e
					}
				}
			}()
			playC09(r, c)
		}()
	}
	wg.Wait()
	if pan != nil {
		panic(pan)
	}
}

// c09Single: Put and Get of one goroutine against a slice.
type c09Single struct {
	Ops []bool // true: Put
	Len int
}

func runC09Single(r *R, c c09Single) {
	q := utils.NewDeque()
	var model []int
	n := 0
	for i, put := range c.Ops {
		if put {
			q.Put(n)
			model = append(model, n)
			n++
			continue
		}
		if len(model) == 0 {
			if v, err := q.Get(0); err == nil {
				r.Fatalf("op %d: Get from an empty queue returned %v", i, v)
			}
			continue
		}
		v, err := q.Get(0)
		if err != nil || v != model[0] {
			r.Fatalf("op %d: Get returned %v, %v; want %v", i, v, err, model[0])
		}
		model = model[1:]
	}
	if n > 1 {
		r.NonTrivial()
	}
}

func init() {
	shards("C09", 8, 8)
	register("C09", "single", "up to 200 Put and Get(0) of one goroutine against a slice; non-trivial: more than one value put",
		opts{quick: budget{1500, 4}, thorough: budget{20000, 20}},
		func(t *rapid.T) c09Single { return c09Single{Ops: rapid.SliceOfN(rapid.Bool(), 1, 200).Draw(t, "ops")} }, runC09Single)
	register("C09", "handoff", "2-8 goroutines with up to 12 Put or Get each and generated pauses, as many Puts as Gets, long timeouts: every value taken exactly once, no consumer waits while the queue holds an item, the history linearizes to a FIFO queue (porcupine); non-trivial: at least two goroutines and a value taken",
		opts{quick: budget{1500, 12}, thorough: budget{60000, 150}},
		func(t *rapid.T) c09Case {
			var c c09Case
			np, nc := rng(t, "producers", 1, 4), rng(t, "consumers", 1, 4)
			total := 0
			waits := pick(t, "waits", 0, 30, 300)
			w := func() int {
				if waits == 0 {
					return 0
				}
				return rng(t, "wait", 0, waits)
			}
			for i := 0; i < np; i++ {
				var p c09Proc
				for k, n := 0, rng(t, "puts", 1, 8); k < n; k++ {
					p.Ops = append(p.Ops, c09Op{Wait: w()})
					total++
				}
				c.Procs = append(c.Procs, p)
			}
			for i := 0; i < nc; i++ {
				n := total / nc
				if i == 0 {
					n = total - n*(nc-1)
				}
				var p c09Proc
				for k := 0; k < n; k++ {
					p.Ops = append(p.Ops, c09Op{Get: true, Timeout: 10, Wait: w()})
				}
				c.Procs = append(c.Procs, p)
			}
			return c
		}, runC09)
	register("C09", "timeouts", "batches of up to 40 queues at once, each with 1-4 goroutines of up to 5 Put and Get with timeouts of 0-2 s and pauses around the ends of the timeouts: as above, and a Get that gives up has waited its timeout with the queue empty at its end; what is left is drained and compared; non-trivial: a value taken",
		opts{quick: budget{3, 14}, thorough: budget{40, 300}, hang: 90 * time.Second},
		func(t *rapid.T) c09Batch {
			var b c09Batch
			for k := 0; k < 40; k++ {
				c := c09Case{Drain: true}
				for i, n := 0, rng(t, "procs", 1, 4); i < n; i++ {
					var p c09Proc
					budget := 3
					for k, n := 0, rng(t, "ops", 1, 5); k < n; k++ {
						o := c09Op{Get: coin(t, "get")}
						if o.Get {
							o.Timeout = min(pick(t, "timeout", 0, 1, 1, 2), budget)
							budget -= o.Timeout
						}
						o.Wait = pick(t, "wait", 0, 0, 100, 1000, 300000, 700000, 990000, 999000, 1000000, 1001000, 1010000)
						if o.Wait > 200000 {
							if budget < 1 {
								o.Wait = 0
							}
							budget--
						}
						p.Ops = append(p.Ops, o)
						budget = max(budget, 0)
					}
					c.Procs = append(c.Procs, p)
				}
				b.Cases = append(b.Cases, c)
			}
			return b
		}, runC09Batch)
}
