package main

import (
	"encoding/binary"
	"fmt"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// C10: replies reach the caller whose request they answer.

type c10Req struct {
	S, F   int
	W      int // 1: true, 2: "optional"
	NoWait bool
	It     Item
}

type c10Act struct {
	K      string // reply, dup, prim, stray, ctrl
	I      int    // request whose system bytes it carries
	F, S   int
	W      bool
	Other  bool // another session id
	It     Item
	Answer bool // the endpoint's handler answers a primary
}

type c10Round struct {
	Reqs  []c10Req
	Acts  []c10Act
	Burst bool
}

type c10Case struct {
	Active  bool
	Session uint16
	Rounds  []c10Round
	Chunks  []int
}

func runC10(r *R, c c10Case) {
	st := newStation(r, c.Active)
	p := newProto(r, st, int(c.Session))
	r.Cleanup(func() { disable(p, st) })
	var mu sync.Mutex
	var got []view
	answer := map[string]Item{}
	p.RegisterDefaultHandler(func(m *ast.DataMessage) (*ast.DataMessage, error) {
		v := viewOf(m)
		mu.Lock()
		defer mu.Unlock()
		got = append(got, v)
		if it, ok := answer[v.String()]; ok {
			return message(v.S, v.F+1, false, it), nil
		}
		return nil, nil
	})
	p.Enable()
	peer := st.up(r, c.Session)
	if peer == nil {
		return
	}
	for ri, round := range c.Rounds {
		type result struct {
			v   view
			err error
			m   bool
		}
		n := len(round.Reqs)
		res := make([]result, n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, q := range round.Reqs {
			it := iL(iU(4, uint64(i)), q.It)
			m := ast.NewDataMessage("", q.S, q.F, q.W, "H<->E", it.node())
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if q.NoWait {
					res[i].err = p.SendDataMessage(m)
					return
				}
				a, err := p.SendAndWait(m)
				res[i].err = err
				if a != nil {
					res[i].m, res[i].v = true, viewOf(a)
				}
			}()
		}
		close(start)
		sys := make([]uint32, n)
		seen := make([]bool, n)
		used := map[uint32]int{}
		for k := 0; k < n; k++ {
			f, ok := peer.take(2*netWait, func(f rxFrame) bool { return f.SType == 0 })
			if !ok {
				r.Slowf("round %d: only %d of %d requests were sent (connection ended: %v)", ri, k, n, peer.ended())
				return
			}
			i := -1
			if f.Item.K == "L" && len(f.Item.L) == 2 && len(f.Item.L[0].U) == 1 {
				i = int(f.Item.L[0].U[0])
			}
			if i < 0 || i >= n || seen[i] {
				r.Failf("round %d: unexpected message sent: %s", ri, frameStr(f.Frame))
				return
			}
			q := round.Reqs[i]
			w := !q.NoWait || q.W == 1
			want := dataFrame(c.Session, q.S, q.F, w, f.Sys, iL(iU(4, uint64(i)), q.It)).view()
			if f.view() != want {
				r.Failf("round %d: request %d was sent as %v, want %v", ri, i, f.view(), want)
				return
			}
			if j, ok := used[f.Sys]; ok && (!q.NoWait || !round.Reqs[j].NoWait) {
				r.Failf("round %d: messages %d and %d, in progress at the same time, have the same system bytes %08x", ri, i, j, f.Sys)
				return
			}
			used[f.Sys] = i
			seen[i], sys[i] = true, f.Sys
		}
		// the answers
		want := make([]view, n)
		have := make([]bool, n)
		var prims, replies []view
		var buf []byte
		for k, a := range round.Acts {
			sess := c.Session
			if a.Other {
				sess ^= 0x0110
			}
			var f Frame
			switch a.K {
			case "reply", "dup":
				f = dataFrame(sess, a.S, a.F, a.W, sys[a.I], a.It)
				if !have[a.I] {
					have[a.I], want[a.I] = true, f.view()
				}
			case "prim":
				// the tag makes the primaries of a case distinct
				f = dataFrame(sess, a.S, a.F, a.W, sys[a.I], iL(iU(2, uint64(ri)), iU(2, uint64(k)), a.It))
				v := f.view()
				prims = append(prims, v)
				if a.Answer {
					mu.Lock()
					answer[v.String()] = a.It
					mu.Unlock()
					if a.W {
						replies = append(replies, dataFrame(c.Session, a.S, a.F+1, false, sys[a.I], a.It).view())
					}
				}
				r.Label("primary with the system bytes of an open request")
			case "stray":
				x := sys[a.I]
				for j := 0; ; j++ {
					x = x ^ 1<<(uint(a.F+j)%31+1) ^ uint32(j)
					if _, ok := used[x]; !ok {
						break
					}
				}
				f = dataFrame(sess, a.S, a.F&^1, a.W, x, a.It)
			case "ctrl":
				f = ctrlFrame(0xffff, 0, 0, sLinktestReq, sys[a.I])
			}
			buf = append(buf, f.enc()...)
			if !round.Burst {
				peer.write(buf)
				buf = nil
			}
		}
		peer.writeChunks(buf, c.Chunks)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(2 * netWait):
			r.Slowf("round %d: not every caller got its reply in %v", ri, 2*netWait)
			return
		}
		if !peer.sync(r) {
			return
		}
		for i, q := range round.Reqs {
			if res[i].err != nil {
				r.Failf("round %d: request %d failed: %v", ri, i, res[i].err)
				return
			}
			if q.NoWait {
				continue
			}
			if !res[i].m || res[i].v != want[i] {
				who := ""
				for j := range want {
					if j != i && want[j] == res[i].v {
						who = fmt.Sprintf(" (the reply to request %d)", j)
					}
				}
				r.Failf("round %d: request %d with system bytes %08x got the reply %v%s, want %v", ri, i, sys[i], res[i].v, who, want[i])
				return
			}
		}
		mu.Lock()
		var gotPrims []view
		for _, v := range got {
			if v.F%2 == 1 {
				gotPrims = append(gotPrims, v)
			}
		}
		got = nil
		mu.Unlock()
		if len(gotPrims) != len(prims) {
			r.Failf("round %d: %d primary messages reached the handler, %d were sent", ri, len(gotPrims), len(prims))
			return
		}
		for i := range prims {
			if prims[i] != gotPrims[i] {
				r.Failf("round %d: the handler received %v, want %v", ri, gotPrims[i], prims[i])
				return
			}
		}
		var sent []view
		for _, f := range peer.rest() {
			if f.SType == 0 {
				sent = append(sent, f.view())
			}
		}
		for i := 0; i < len(sent) || i < len(replies); i++ {
			if i >= len(sent) {
				r.Failf("round %d: the reply %v was not sent", ri, replies[i])
				return
			}
			if i >= len(replies) || sent[i] != replies[i] {
				r.Failf("round %d: the endpoint sent %v, which was not expected", ri, sent[i])
				return
			}
		}
		if n > 1 {
			r.NonTrivial()
			r.LabelN("concurrent requests", n)
		}
	}
	peer.check(r)
}

// c10Pipe: workers that send one request after the other; the peer answers
// out of order as soon as a window of requests is full.
type c10Pipe struct {
	Active  bool
	Workers int
	Each    int
	Window  int
	Perm    []int // keys that order the requests of a window
	Prims   int   // primaries sent along, with system bytes of requests
}

func runC10Pipe(r *R, c c10Pipe) {
	st := newStation(r, c.Active)
	p := newProto(r, st, 7)
	r.Cleanup(func() { disable(p, st) })
	var nprim int
	var mu sync.Mutex
	p.RegisterDefaultHandler(func(m *ast.DataMessage) (*ast.DataMessage, error) {
		mu.Lock()
		nprim++
		mu.Unlock()
		return message(m.StreamCode(), m.FunctionCode()+1, false, iU(4, 1)), nil
	})
	p.Enable()
	peer := st.up(r, 7)
	if peer == nil {
		return
	}
	total := c.Workers * c.Each
	frames := make(chan rxFrame, total+10)
	go func() {
		var win []rxFrame
		open := map[uint32]bool{}
		k, sent := 0, 0
		flush := func() {
			for len(win) > 0 {
				j := c.Perm[k%len(c.Perm)] % len(win)
				k++
				f := win[j]
				win = append(append([]rxFrame{}, win[:j]...), win[j+1:]...)
				if sent < c.Prims {
					sent++
					peer.send(dataFrame(7, 2, 31, true, f.Sys, iA("prim")))
				}
				delete(open, f.Sys)
				b := append([]byte{}, f.Item.enc()...)
				it, _, _ := decItem(b, 0)
				peer.send(dataFrame(7, f.S(), f.F()+1, false, f.Sys, iL(it, iU(4, uint64(f.Sys)))))
			}
		}
		for {
			select {
			case f, ok := <-frames:
				if !ok {
					return
				}
				if open[f.Sys] {
					r.Failf("two requests in progress have the system bytes %08x", f.Sys)
				}
				open[f.Sys] = true
				win = append(win, f)
				if len(win) >= c.Window {
					flush()
				}
			case <-time.After(3 * time.Millisecond):
				flush()
			}
		}
	}()
	defer close(frames)
	stop := make(chan struct{})
	fwdDone := make(chan struct{})
	repl := 0
	go func() {
		defer close(fwdDone)
		for {
			f, ok := peer.take(50*time.Millisecond, func(f rxFrame) bool { return f.SType == 0 })
			if ok {
				if f.F()%2 == 1 {
					frames <- f
				} else {
					repl++
				}
				continue
			}
			select {
			case <-stop:
				return
			default:
				if peer.ended() {
					return
				}
			}
		}
	}()
	var wg sync.WaitGroup
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < c.Each; k++ {
				it := iL(iU(4, uint64(w)), iU(4, uint64(k)))
				a, err := p.SendAndWait(message(1+w%7, 1+2*(k%100), true, it))
				if err != nil {
					r.Failf("worker %d request %d: %v", w, k, err)
					return
				}
				v := viewOf(a)
				want := dataFrame(7, 1+w%7, 2+2*(k%100), false, binary.BigEndian.Uint32(a.SystemBytes()), iL(it, iU(4, uint64(binary.BigEndian.Uint32(a.SystemBytes()))))).view()
				if v != want {
					r.Failf("worker %d request %d got the reply %v; want %v", w, k, v, want)
					return
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(25 * time.Second):
		r.Slowf("%d workers with %d requests each were not done after 25 s", c.Workers, c.Each)
	}
	if !r.failed() {
		peer.sync(r)
		time.Sleep(time.Millisecond)
	}
	close(stop)
	<-fwdDone
	mu.Lock()
	defer mu.Unlock()
	wantPrims := min(c.Prims, total)
	if !r.failed() && (nprim != wantPrims || repl != wantPrims) {
		r.Failf("%d primary messages with the system bytes of open requests were sent, %d reached the handler and %d were answered", wantPrims, nprim, repl)
	}
	if c.Workers > 1 {
		r.NonTrivial()
	}
	r.LabelN("requests", total)
}

func genReqSF(t *rapid.T) (int, int) {
	s := pick(t, "rs", 1, 2, 5, 6, 7, 10, 64, 127, rng(t, "rsx", 0, 127))
	if s == 9 {
		s = 8
	}
	return s, pick(t, "rf", 1, 3, 11, 13, 253, 255, 2*rng(t, "rfx", 0, 127)+1)
}

func init() {
	shards("C10", 16, 16)
	register("C10", "rounds", "rounds of up to 40 (sometimes 300) concurrent requests and plain sends through one endpoint of either role; when all have arrived, the peer sends the replies in generated order, mixed with duplicates, replies nobody asked for, linktest requests and primary messages that carry the system bytes of open requests; each caller's reply, each handler call and each frame sent compared; non-trivial: at least two requests at a time",
		opts{quick: budget{400, 20}, thorough: budget{12000, 350}},
		func(t *rapid.T) c10Case {
			c := c10Case{Active: coin(t, "active"), Session: genOwnSession(t), Chunks: genChunks(t)}
			for i, n := 0, rng(t, "rounds", 1, 4); i < n; i++ {
				var rd c10Round
				m := pick(t, "n", 1, 2, 3, 5, 8, rng(t, "nx", 1, 40))
				big := oneIn(t, "many", 12)
				if big {
					m = 300
				}
				var acts []c10Act
				for j := 0; j < m; j++ {
					q := c10Req{W: pick(t, "w", 1, 1, 2)}
					q.S, q.F = 1, 1
					if !big || j < 10 {
						q.S, q.F = genReqSF(t)
						q.NoWait = oneIn(t, "nowait", 6)
						q.It = genSmallItem(t, "it")
					} else {
						q.It = iL()
					}
					rd.Reqs = append(rd.Reqs, q)
					if q.NoWait {
						continue
					}
					a := c10Act{K: "reply", I: j, S: q.S, F: (q.F + 1) & 0xff}
					if !big || j < 10 {
						a.It = genSmallItem(t, "rit")
						a.Other = oneIn(t, "other", 10)
						if oneIn(t, "abort", 10) {
							a.F = 0
						}
					} else {
						a.It = iL(iU(4, uint64(j)))
					}
					acts = append(acts, a)
				}
				for j, k := 0, rng(t, "extra", 0, 8); j < k; j++ {
					a := c10Act{K: pick(t, "k", "dup", "prim", "prim", "stray", "ctrl"), I: rng(t, "i", 0, m-1)}
					q := rd.Reqs[a.I]
					if q.NoWait && a.K == "dup" {
						a.K = "stray"
					}
					a.S, a.F = q.S, (q.F+1)&0xff
					a.It = iL(iA("extra"), iU(4, uint64(j)))
					a.W, a.Answer = coin(t, "aw"), coin(t, "answer")
					if a.K != "prim" {
						a.W = false
					}
					if a.K == "prim" {
						if coin(t, "samesf") {
							a.F = q.F
						} else {
							a.S, a.F = genReqSF(t)
						}
						if a.F == 255 {
							a.Answer = false
						}
					}
					acts = append(acts, a)
				}
				rd.Acts = rapid.Permutation(acts).Draw(t, "order")
				rd.Burst = coin(t, "burst")
				c.Rounds = append(c.Rounds, rd)
			}
			return c
		}, runC10)
	register("C10", "pipeline", "up to 24 workers that send up to 60 requests each, one after the other, while the peer answers in generated order whenever a window of requests is full and sends primary messages with the system bytes of open requests; non-trivial: more than one worker",
		opts{quick: budget{40, 12}, thorough: budget{1500, 200}},
		func(t *rapid.T) c10Pipe {
			c := c10Pipe{Active: coin(t, "active"), Workers: rng(t, "workers", 1, 24), Each: rng(t, "each", 1, 60)}
			c.Window = rng(t, "window", 1, c.Workers)
			c.Perm = rapid.SliceOfN(rapid.IntRange(0, 1000), 1, 20).Draw(t, "perm")
			c.Prims = rng(t, "prims", 0, 100)
			return c
		}, runC10Pipe)
}
