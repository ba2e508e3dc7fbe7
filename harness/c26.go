package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/common"
)

// C26: common.Event against a list model: callbacks added, removed, fired,
// also from inside callbacks and from several goroutines.

type c26Op struct {
	Op string // add remove fire len
	Cb int
}

type c26Case struct {
	Scripts [][]c26Op // what callback i does when it is called (first call only)
	Ops     []c26Op
}

type evFunc = func(map[string]interface{})

func runC26(r *R, c c26Case) {
	ev := &common.Event{}
	var model []int
	var calls []string
	used := map[int]bool{}
	fires := 0
	var cbs []evFunc
	depth := 0
	var apply func(op c26Op)
	for i := range c.Scripts {
		// all callbacks are closures of the same function
		cbs = append(cbs, func(d map[string]interface{}) {
			calls = append(calls, fmt.Sprintf("%v:%d", d["n"], i))
			if used[i] || depth > 3 {
				return
			}
			used[i] = true
			for _, op := range c.Scripts[i] {
				apply(op)
			}
		})
	}
	var want []string
	var wused = map[int]bool{}
	_ = wused
	// The expected calls of a Fire are recorded by the model when the Fire starts
	// and compared when it returns; nested fires happen inside.
	apply = func(op c26Op) {
		cb := op.Cb % len(cbs)
		switch op.Op {
		case "add":
			ev.AddCallback(cbs[cb])
			model = append(model, cb)
		case "remove":
			ev.RemoveCallback(cbs[cb])
			for i, m := range model {
				if m == cb {
					model = append(append([]int{}, model[:i]...), model[i+1:]...)
					break
				}
			}
		case "len":
			if n := ev.Len(); n != len(model) {
				r.Fatalf("Len is %d, %d callbacks are registered", n, len(model))
			}
		case "fire":
			if depth > 2 || fires > 200 {
				return
			}
			fires++
			id := fires
			snap := append([]int{}, model...)
			data := map[string]interface{}{"n": id}
			depth++
			from := len(calls)
			ev.Fire(data)
			depth--
			var mine []string
			for _, x := range calls[from:] {
				var n, k int
				fmt.Sscanf(x, "%d:%d", &n, &k)
				if n == id {
					mine = append(mine, x)
				}
			}
			want = nil
			for _, k := range snap {
				want = append(want, fmt.Sprintf("%d:%d", id, k))
			}
			if fmt.Sprint(mine) != fmt.Sprint(want) {
				r.Fatalf("Fire %d called %v, registered when it was called: %v", id, mine, want)
			}
			if len(snap) > 1 {
				r.NonTrivial()
			}
		}
	}
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		for _, op := range c.Ops {
			apply(op)
		}
		apply(c26Op{Op: "len"})
		apply(c26Op{Op: "fire"})
	}()
	select {
	case e := <-done:
		if e != nil {
			panic(e)
		}
	case <-time.After(15 * time.Second):
		r.Slowf("the operations did not return in 15 s (deadlock)")
	}
	r.LabelN("fires", fires)
}

type c26Conc struct {
	Stable int
	Procs  [][]c26Op
}

func runC26Conc(r *R, c c26Conc) {
	ev := &common.Event{}
	var clock atomic.Int64
	type cb struct {
		added0, added1     int64 // clock before and after adding
		removed0, removed1 int64
		f                  evFunc
		proc, id           int
	}
	type call struct{ proc, id int }
	type fire struct {
		start, end int64
		mu         sync.Mutex
		calls      []call
	}
	mk := func(proc, id int) *cb {
		return &cb{proc: proc, id: id, f: func(d map[string]interface{}) {
			f := d["fire"].(*fire)
			f.mu.Lock()
			f.calls = append(f.calls, call{proc, id})
			f.mu.Unlock()
		}}
	}
	all := make([][]*cb, len(c.Procs)+1)
	fires := make([][]*fire, len(c.Procs)+1)
	add := func(p int) *cb {
		x := mk(p, len(all[p]))
		x.added0 = clock.Add(1)
		ev.AddCallback(x.f)
		x.added1 = clock.Add(1)
		all[p] = append(all[p], x)
		return x
	}
	doFire := func(p int) {
		f := &fire{}
		f.start = clock.Add(1)
		ev.Fire(map[string]interface{}{"fire": f})
		f.end = clock.Add(1)
		fires[p] = append(fires[p], f)
	}
	for i := 0; i < c.Stable; i++ {
		add(0)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g, ops := range c.Procs {
		p := g + 1
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, op := range ops {
				switch op.Op {
				case "add":
					add(p)
				case "remove":
					var live []*cb
					for _, x := range all[p] {
						if x.removed0 == 0 {
							live = append(live, x)
						}
					}
					if len(live) > 0 {
						x := live[op.Cb%len(live)]
						x.removed0 = clock.Add(1)
						ev.RemoveCallback(x.f)
						x.removed1 = clock.Add(1)
					}
				case "fire":
					doFire(p)
				case "len":
					if n := ev.Len(); n < c.Stable {
						r.Failf("Len is %d, at least %d callbacks are registered", n, c.Stable)
					}
				}
			}
		}()
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(15 * time.Second):
		r.SlowFatalf("the operations did not return in 15 s (deadlock)")
	}
	live := 0
	for _, xs := range all {
		for _, x := range xs {
			if x.removed0 == 0 {
				live++
			}
		}
	}
	if n := ev.Len(); n != live {
		r.Failf("at the end Len is %d, %d callbacks are registered", n, live)
	}
	doFire(0)
	nf := 0
	for _, fs := range fires {
		for _, f := range fs {
			nf++
			count := map[call]int{}
			last := map[int]int{}
			for _, k := range f.calls {
				count[k]++
				// callbacks of one goroutine were added in order
				if l, ok := last[k.proc]; ok && k.id < l {
					r.Failf("a Fire called callback %d of goroutine %d before callback %d, which was added earlier", l, k.proc, k.id)
				}
				last[k.proc] = k.id
			}
			for _, xs := range all {
				for _, x := range xs {
					n := count[call{x.proc, x.id}]
					switch {
					case n > 1:
						r.Failf("a Fire called a callback %d times", n)
					case n == 0 && x.added1 < f.start && (x.removed0 == 0 || x.removed0 > f.end):
						r.Failf("a Fire did not call a callback that was registered all the time")
					case n > 0 && (x.added0 > f.end || x.removed1 != 0 && x.removed1 < f.start):
						r.Failf("a Fire called a callback that was not registered")
					}
				}
			}
		}
	}
	r.LabelN("fires", nf)
	if nf > 1 {
		r.NonTrivial()
	}
}

func init() {
	shards("C26", 8, 8)
	op := func(t *rapid.T, n int) c26Op {
		return c26Op{Op: pick(t, "op", "add", "add", "remove", "fire", "fire", "len"), Cb: rng(t, "cb", 0, n-1)}
	}
	register("C26", "model", "up to 30 AddCallback, RemoveCallback, Fire and Len on up to 5 closures of one function, some of which add, remove or fire themselves (nested), each Fire compared with the callbacks registered when it was called; non-trivial: a Fire with more than one callback",
		opts{quick: budget{20000, 8}, thorough: budget{150000, 100}},
		func(t *rapid.T) c26Case {
			var c c26Case
			n := rng(t, "cbs", 1, 5)
			for i := 0; i < n; i++ {
				var s []c26Op
				if oneIn(t, "scripted", 2) {
					for k, m := 0, rng(t, "script", 1, 3); k < m; k++ {
						s = append(s, op(t, n))
					}
				}
				c.Scripts = append(c.Scripts, s)
			}
			for k, m := 0, rng(t, "ops", 1, 30); k < m; k++ {
				c.Ops = append(c.Ops, op(t, n))
			}
			return c
		}, runC26)
	register("C26", "concurrent", "2-6 goroutines that add, remove and fire on one event with up to 5 callbacks registered throughout: no callback lost, doubled, called after removal or out of order, no deadlock; non-trivial: several fires",
		opts{quick: budget{20000, 12}, thorough: budget{150000, 150}},
		func(t *rapid.T) c26Conc {
			c := c26Conc{Stable: rng(t, "stable", 0, 5)}
			for i, n := 0, rng(t, "procs", 2, 6); i < n; i++ {
				var s []c26Op
				for k, m := 0, rng(t, "ops", 1, 15); k < m; k++ {
					s = append(s, op(t, 5))
				}
				c.Procs = append(c.Procs, s)
			}
			return c
		}, runC26Conc)
}
