package main

import (
	"errors"
	"fmt"
	"sync"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// C13: dispatch of received data messages to handlers, replies, S9F3/S9F5.

type c13Op struct {
	Op     string // msg, reg, unreg, default, nodefault
	S, F   int
	W      bool
	Sess   int // 0: the endpoint's, 1: another one
	Sys    uint32
	It     Item
	Empty  bool
	Reply  int // what the handler returns: 0 nothing, 1 F+1, 2 error, 3 function 0, 4 another reply with "optional" wait bit
	RIt    Item
	REmpty bool
}

type c13Case struct {
	Active  bool
	Gem     int // 0: a bare HSMS endpoint, 1: a GEM host, 2: GEM equipment
	Session uint16
	Ops     []c13Op
	Chunks  []int
}

func knownStream(s int) bool { return s >= 1 && s <= 10 || s >= 12 && s <= 17 || s == 21 }

type dispatched struct {
	by string
	v  view
}

func runC13(r *R, c c13Case) {
	var p *hsms.HsmsProtocol
	var up func() *Peer
	var register func(s, f int, h hsms.DataMessageHandler)
	var registerDefault func(h hsms.DataMessageHandler)
	builtin := map[[2]int]bool{} // served by the GEM handler itself
	if c.Gem == 0 {
		st := newStation(r, c.Active)
		p = newProto(r, st, int(c.Session))
		r.Cleanup(func() { disable(p, st) })
		register, registerDefault = p.RegisterHandler, p.RegisterDefaultHandler
		up = func() *Peer {
			p.Enable()
			return st.up(r, c.Session)
		}
	} else {
		e := newGem(r, c.Active, c.Gem == 2, c.Session, nil)
		p = e.p
		register = func(s, f int, h hsms.DataMessageHandler) {
			e.g.RegisterStreamFunctionHandler(s, f, gem.StreamFunctionHandler(h))
		}
		registerDefault = func(h hsms.DataMessageHandler) {
			e.g.RegisterDefaultStreamHandler(gem.StreamFunctionHandler(h))
		}
		up = func() *Peer {
			if !e.up() {
				return nil
			}
			// The endpoint's own attempts to establish communication are over.
			e.peer.rest()
			return e.peer
		}
		for _, k := range [][2]int{{1, 1}, {1, 13}, {1, 14}} {
			builtin[k] = true
		}
		if c.Gem == 1 {
			builtin[[2]int{5, 1}], builtin[[2]int{6, 11}] = true, true
		} else {
			for _, k := range [][2]int{{1, 3}, {1, 11}, {1, 15}, {1, 17}, {2, 13}, {2, 15}, {2, 17}, {2, 29}, {2, 31}, {2, 33}, {2, 35}, {2, 37}, {2, 41}, {5, 3}, {5, 5}, {5, 7}, {6, 15}, {7, 3}, {7, 5}} {
				builtin[k] = true
			}
		}
	}
	var mu sync.Mutex
	var got []dispatched
	reply := map[string]c13Op{} // by system bytes
	mk := func(name string) func(*ast.DataMessage) (*ast.DataMessage, error) {
		return func(m *ast.DataMessage) (*ast.DataMessage, error) {
			v := viewOf(m)
			mu.Lock()
			got = append(got, dispatched{name, v})
			op := reply[v.Sys]
			mu.Unlock()
			if op.Reply == 2 {
				return nil, errors.New("handler error")
			}
			if op.Reply == 0 {
				return nil, nil
			}
			it := op.RIt.node()
			if op.REmpty {
				it = ast.NewEmptyItemNode()
			}
			switch op.Reply {
			case 3:
				return ast.NewDataMessage("", m.StreamCode(), 0, 0, "H<->E", it), nil
			case 4:
				return ast.NewDataMessage("", m.StreamCode(), (m.FunctionCode()+1)&0xff|1, 2, "H<->E", it), nil
			}
			return ast.NewDataMessage("", m.StreamCode(), (m.FunctionCode()+1)&0xff, 0, "H<->E", it), nil
		}
	}
	peer := up()
	if peer == nil {
		return
	}
	handlers := map[[2]int]string{}
	hasDefault := ""
	var want []dispatched
	var wantOut []view
	var buf []byte
	n := 0
	flush := func() bool {
		if len(buf) == 0 {
			return true
		}
		peer.writeChunks(buf, c.Chunks)
		buf = nil
		if !peer.sync(r) {
			return false
		}
		mu.Lock()
		g := append([]dispatched{}, got...)
		mu.Unlock()
		for i := 0; i < len(g) || i < len(want); i++ {
			if i >= len(g) {
				r.Failf("message %v was not passed to handler %q", want[i].v, want[i].by)
				return false
			}
			if i >= len(want) {
				r.Failf("handler %q received %v, which was not expected", g[i].by, g[i].v)
				return false
			}
			if g[i] != want[i] {
				r.Failf("dispatch %d: handler %q received %v; want %q with %v", i, g[i].by, g[i].v, want[i].by, want[i].v)
				return false
			}
		}
		var out []view
		for _, f := range peer.rest() {
			if f.SType != 0 {
				r.Failf("unexpected control message: %s", frameStr(f.Frame))
				continue
			}
			out = append(out, f.view())
		}
		for i := 0; i < len(out) || i < len(wantOut); i++ {
			if i >= len(out) {
				r.Failf("the endpoint did not send %v", wantOut[i])
				return false
			}
			if i >= len(wantOut) {
				r.Failf("the endpoint sent %v, which was not expected", out[i])
				return false
			}
			if out[i] != wantOut[i] {
				r.Failf("sent message %d is %v, want %v", i, out[i], wantOut[i])
				return false
			}
		}
		mu.Lock()
		got, want, wantOut = nil, nil, nil
		mu.Unlock()
		return true
	}
	for i, op := range c.Ops {
		key := [2]int{op.S, op.F}
		switch op.Op {
		case "reg":
			if !flush() {
				return
			}
			name := fmt.Sprintf("S%dF%d#%d", op.S, op.F, i)
			register(op.S, op.F, mk(name))
			delete(builtin, key)
			handlers[key] = name
		case "unreg":
			if !flush() {
				return
			}
			register(op.S, op.F, nil)
			delete(builtin, key)
			delete(handlers, key)
		case "default":
			if !flush() {
				return
			}
			hasDefault = fmt.Sprintf("default#%d", i)
			registerDefault(mk(hasDefault))
		case "nodefault":
			if !flush() {
				return
			}
			registerDefault(nil)
			hasDefault = ""
		case "msg":
			if builtin[key] {
				break // what it answers is judged elsewhere
			}
			sess := c.Session
			if op.Sess == 1 {
				sess ^= 0x0101
			}
			it := op.It
			if op.Empty {
				it = Item{}
			}
			w := op.W && op.F%2 == 1
			sys := op.Sys<<8 | uint32(i) // unique in the case
			f := dataFrame(sess, op.S, op.F, w, sys, it)
			buf = append(buf, f.enc()...)
			n++
			name, ok := handlers[key]
			if !ok {
				name = hasDefault
			}
			if name != "" {
				if op.S == 9 {
					op.Reply = 0
				}
				mu.Lock()
				reply[string(sysB(sys))] = op
				want = append(want, dispatched{name, f.view()})
				mu.Unlock()
				r.Label("to a handler")
				if w && op.Reply != 0 && op.Reply != 2 {
					rit := op.RIt
					if op.REmpty {
						rit = Item{}
					}
					rf := (op.F + 1) & 0xff
					switch op.Reply {
					case 3:
						rf = 0
					case 4:
						rf |= 1
					}
					wantOut = append(wantOut, dataFrame(c.Session, op.S, rf, false, sys, rit).view())
					r.Label("reply")
				}
				break
			}
			if op.S == 9 {
				break
			}
			if knownStream(op.S) {
				wantOut = append(wantOut, dataFrame(c.Session, 9, 5, false, sys, iB(byte(op.F))).view())
				r.Label("S9F5")
			} else {
				wantOut = append(wantOut, dataFrame(c.Session, 9, 3, false, sys, iB(byte(op.S))).view())
				r.Label("S9F3")
			}
		}
	}
	if !flush() {
		return
	}
	if !peer.sync(r) {
		return
	}
	if f := peer.rest(); len(f) > 0 {
		r.Failf("the endpoint sent %s later on", frameStr(f[0].Frame))
	}
	peer.check(r)
	if n > 0 {
		r.NonTrivial()
	}
}

func genSmallItem(t *rapid.T, label string) Item {
	if oneIn(t, label+"big", 15) {
		return Item{K: "A", S: "x", Rep: pick(t, "rep", 255, 256, 5000, 70000)}
	}
	return genItem(t, rng(t, label+"depth", 0, 2), false)
}

func genOwnSession(t *rapid.T) uint16 {
	return uint16(pick(t, "session", 1, 2, 255, 256, 0x7fff, 0x8000, 0xfffe, rng(t, "sessionx", 1, 0xfffe)))
}

func genChunks(t *rapid.T) []int {
	if coin(t, "whole") {
		return nil
	}
	return rapid.SliceOfN(rapid.SampledFrom([]int{1, 3, 4, 5, 13, 14, 15, 40, 1000, 5120}), 1, 6).Draw(t, "chunks")
}

func genC13(t *rapid.T, gem bool) c13Case {
	c := c13Case{Active: coin(t, "active"), Session: genOwnSession(t), Chunks: genChunks(t)}
	type sf struct{ s, f int }
	var pool []sf
	for i := 0; i < 4; i++ {
		s, f := rng(t, "ps", 0, 30), rng(t, "pf", 0, 255)
		if oneIn(t, "nine", 6) {
			s = 9
		}
		if oneIn(t, "unknown", 4) {
			s = pick(t, "us", 0, 11, 18, 19, 20, 22, 64, 99, 127)
		}
		pool = append(pool, sf{s, f})
	}
	// keys that look alike: S1F23 and S12F3, S2F1 and S1F21...
	pool = append(pool, sf{1, 23}, sf{12, 3}, sf{1, 1}, sf{11, 1})
	if gem {
		c.Gem = rng(t, "gem", 1, 2)
		pool = append(pool, sf{1, 3}, sf{2, 41}, sf{5, 1}, sf{6, 11}, sf{7, 5}, sf{10, 3})
	}
	for i, n := 0, rng(t, "ops", 1, 30); i < n; i++ {
		x := rapid.SampledFrom(pool).Draw(t, "sf")
		op := c13Op{Op: pick(t, "op", "msg", "msg", "msg", "msg", "msg", "msg", "msg", "reg", "reg", "reg", "unreg", "default", "nodefault"), S: x.s, F: x.f}
		if op.Op == "default" && coin(t, "really") {
			op.Op = "reg"
		}
		if op.Op == "msg" {
			if oneIn(t, "any", 5) {
				op.S, op.F = genSF(t)
			}
			op.W = coin(t, "w")
			if op.Empty = oneIn(t, "empty", 4); !op.Empty {
				op.It = genSmallItem(t, "it")
			}
			op.Sys = uint32(pick(t, "sys", 0, 0xffffff, rng(t, "sysx", 0, 0xffffff)))
			op.Sess = b2i(oneIn(t, "othersession", 8))
			op.Reply = pick(t, "reply", 0, 1, 1, 1, 2, 3, 4)
			if op.Sess == 1 && coin(t, "noreply") {
				op.Reply = 0
			}
			if op.REmpty = oneIn(t, "rempty", 4); !op.REmpty {
				op.RIt = genSmallItem(t, "rit")
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func init() {
	shards("C13", 16, 16)
	register("C13", "dispatch", "up to 30 data messages (all streams and functions, boundary items up to 70 kB) in one or several bursts cut into generated pieces, to an endpoint in either role, while handlers and the default handler are registered, replaced and removed between bursts; handlers return nothing, errors or replies; calls and every frame sent back compared with a model; non-trivial: a message was sent",
		opts{quick: budget{1500, 25}, thorough: budget{30000, 400}},
		func(t *rapid.T) c13Case { return genC13(t, false) }, runC13)
	register("C13", "gem", "the same with GEM hosts and equipment that are communicating, whose handlers, the library's own included, are replaced and removed through the GEM interface; non-trivial: a message was sent",
		opts{quick: budget{600, 20}, thorough: budget{10000, 200}},
		func(t *rapid.T) c13Case { return genC13(t, true) }, runC13)
}
