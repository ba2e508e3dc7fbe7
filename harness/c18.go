package main

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/gem"
)

// C18: the control state.

type ctlEvent struct {
	Prev, Next gem.ControlState
	Mode       gem.OnlineControlMode
}

func (e ctlEvent) String() string { return fmt.Sprintf("%s->%s (%s)", e.Prev, e.Next, e.Mode) }

const (
	stEq  = gem.ControlStateEquipmentOffline
	stAtt = gem.ControlStateAttemptOnline
	stHo  = gem.ControlStateHostOffline
	stLoc = gem.ControlStateOnlineLocal
	stRem = gem.ControlStateOnlineRemote
)

// ctlModel is the GEM control state model.
type ctlModel struct {
	s      gem.ControlState
	mode   gem.OnlineControlMode
	events []ctlEvent
	react  bool // the application answers ONLINE_REMOTE with a switch to LOCAL
}

func newCtlModel(initial gem.ControlState, mode gem.OnlineControlMode) *ctlModel {
	m := &ctlModel{s: stAtt, mode: gem.OnlineModeRemote}
	if mode == gem.OnlineModeLocal {
		m.mode = mode
	}
	switch initial {
	case stEq, stHo:
		m.s = initial
	case gem.ControlStateOnline:
		m.s = m.onlineState()
	}
	return m
}

func (m *ctlModel) onlineState() gem.ControlState {
	if m.mode == gem.OnlineModeLocal {
		return stLoc
	}
	return stRem
}

func (m *ctlModel) online() bool { return m.s == stLoc || m.s == stRem }

func (m *ctlModel) to(s gem.ControlState) {
	if s == m.s {
		return
	}
	m.events = append(m.events, ctlEvent{m.s, s, m.mode})
	m.s = s
	if s == stRem && m.react {
		m.do("local")
	}
}

// do performs a transition of the state machine; false: it is invalid.
func (m *ctlModel) do(op string) bool {
	switch op {
	case "start":
	case "online":
		if m.s != stEq && m.s != stAtt {
			return false
		}
		m.to(stAtt)
	case "offline":
		if !m.online() {
			return false
		}
		m.to(stEq)
	case "local", "remote":
		if !m.online() {
			return false
		}
		m.mode = map[string]gem.OnlineControlMode{"local": gem.OnlineModeLocal, "remote": gem.OnlineModeRemote}[op]
		m.to(m.onlineState())
	case "failequip":
		if m.s != stEq && m.s != stAtt {
			return false
		}
		m.to(stEq)
	case "failhost":
		if m.s != stHo && m.s != stAtt {
			return false
		}
		m.to(stHo)
	case "success":
		if m.online() {
			return true
		}
		if m.s != stAtt {
			return false
		}
		m.to(m.onlineState())
	case "s1f15":
		if !m.online() {
			return false
		}
		m.to(stHo)
	case "s1f17":
		if m.s != stHo {
			return false
		}
		m.to(m.onlineState())
	}
	return true
}

// ---------------------------------------------------------------------------
// The state machine on its own
// ---------------------------------------------------------------------------

type c18Machine struct {
	Initial, Mode string
	Ops           []string
}

var ctlOps = []string{"start", "online", "offline", "local", "remote", "failequip", "failhost", "success", "s1f15", "s1f17"}

func ctlCall(sm *gem.ControlStateMachine, op string) error {
	switch op {
	case "online":
		return sm.SwitchOnline()
	case "offline":
		return sm.SwitchOffline()
	case "local":
		return sm.SwitchOnlineLocal()
	case "remote":
		return sm.SwitchOnlineRemote()
	case "failequip":
		return sm.AttemptOnlineFailEquipmentOffline()
	case "failhost":
		return sm.AttemptOnlineFailHostOffline()
	case "success":
		return sm.AttemptOnlineSuccess()
	case "s1f15":
		return sm.RemoteOffline()
	case "s1f17":
		return sm.RemoteOnline()
	}
	sm.Start()
	return nil
}

func runC18Machine(r *R, c c18Machine) {
	sm := gem.NewControlStateMachine(gem.ControlStateMachineOptions{InitialState: gem.ControlState(c.Initial), InitialOnlineMode: gem.OnlineControlMode(c.Mode)})
	m := newCtlModel(gem.ControlState(c.Initial), gem.OnlineControlMode(c.Mode))
	check := func(when string) bool {
		if sm.State() != m.s || sm.OnlineMode() != m.mode || sm.IsOnlineState() != m.online() {
			r.Failf("%s the state is %s, mode %s, online %v; want %s, %s, %v", when, sm.State(), sm.OnlineMode(), sm.IsOnlineState(), m.s, m.mode, m.online())
			return false
		}
		return true
	}
	if !check("at the start") {
		return
	}
	for i, op := range c.Ops {
		from := m.s
		err := ctlCall(sm, op)
		ok := m.do(op)
		when := fmt.Sprintf("after %v (operation %d, %s in %s)", c.Ops[:i], i, op, from)
		if ok != (err == nil) || (err != nil && !errors.Is(err, gem.ErrInvalidControlTransition)) {
			r.Failf("%s: error %v, valid: %v", when, err, ok)
			return
		}
		if !check(when) {
			return
		}
		r.Label(fmt.Sprintf("%s in %s: %v", op, from, ok))
	}
	if len(m.events) > 0 {
		r.NonTrivial()
	}
}

// ---------------------------------------------------------------------------
// Transitions requested at once
// ---------------------------------------------------------------------------

type c18Conc struct {
	Initial, Mode string
	Threads       [][]string
}

var ctlEdges = map[[2]gem.ControlState]bool{
	{stEq, stAtt}: true, {stAtt, stHo}: true, {stLoc, stEq}: true, {stRem, stEq}: true, {stLoc, stRem}: true, {stRem, stLoc}: true,
}

func runC18Conc(r *R, c c18Conc) {
	st := newStation(r, false)
	p := newProto(r, st, 1)
	g, err := gem.NewGemHandler(gem.Options{Protocol: p, DeviceType: gem.DeviceEquipment, DeviceID: 1, InitialControlState: stEq, InitialOnlineMode: gem.OnlineControlMode(c.Mode)})
	mustOK(err)
	if c.Initial == "ONLINE" {
		mustOK(g.ControlStateMachine().SwitchOnline())
		mustOK(g.ControlStateMachine().AttemptOnlineSuccess())
	}
	m := newCtlModel(gem.ControlState(c.Initial), gem.OnlineControlMode(c.Mode))
	var mu sync.Mutex
	var events []ctlEvent
	g.Events().ControlStateChanged.AddCallback(func(d map[string]any) {
		mu.Lock()
		defer mu.Unlock()
		events = append(events, ctlEvent{d["previous"].(gem.ControlState), d["current"].(gem.ControlState), ""})
	})
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, ops := range c.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, op := range ops {
				var err error
				switch op {
				case "online":
					err = g.SwitchControlOnline()
				case "offline":
					err = g.SwitchControlOffline()
				case "local":
					err = g.SwitchControlOnlineLocal()
				case "remote":
					err = g.SwitchControlOnlineRemote()
				}
				if err != nil && !errors.Is(err, gem.ErrInvalidControlTransition) {
					r.Failf("%s ended with the error %v", op, err)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	// an attempt to go online ends at once, as nobody is connected
	if !pollFor(netWait, func() bool { return g.ControlState() != stAtt }) {
		r.Slowf("the state was still ATTEMPT_ONLINE after %v without a connection", netWait)
		return
	}
	get := func() []ctlEvent {
		mu.Lock()
		defer mu.Unlock()
		return append([]ctlEvent{}, events...)
	}
	end := g.ControlState()
	why := ""
	if !pollFor(300*time.Millisecond, func() bool { why = trail(m.s, end, get()); return why == "" }) {
		if !pollFor(5*time.Second, func() bool { return trail(m.s, end, get()) == "" }) {
			r.Failf("from %s to %s, switched by %v at once, the changes reported are %v: %s", m.s, end, c.Threads, get(), why)
			return
		}
	}
	ev := get()
	if len(ev) > 1 {
		r.NonTrivial()
	}
	for _, e := range ev {
		r.Label("concurrent " + string(e.Prev) + "->" + string(e.Next))
	}
}

// trail says why the changes, in whatever order they were reported, do not
// lead from one state to the other ("" if they do).
func trail(from, to gem.ControlState, ev []ctlEvent) string {
	deg := map[gem.ControlState]int{}
	next := map[gem.ControlState][]gem.ControlState{}
	for _, e := range ev {
		if !ctlEdges[[2]gem.ControlState{e.Prev, e.Next}] {
			return fmt.Sprintf("%s->%s is no transition of the model", e.Prev, e.Next)
		}
		deg[e.Prev]++
		deg[e.Next]--
		next[e.Prev] = append(next[e.Prev], e.Next)
	}
	deg[from]--
	deg[to]++
	for s, d := range deg {
		if d != 0 {
			return fmt.Sprintf("%s is left %d times more than it is entered, on top of what start and end explain", s, d)
		}
	}
	seen := map[gem.ControlState]bool{from: true}
	for todo := []gem.ControlState{from}; len(todo) > 0; todo = todo[1:] {
		for _, n := range next[todo[0]] {
			if !seen[n] {
				seen[n] = true
				todo = append(todo, n)
			}
		}
	}
	for s := range next {
		if !seen[s] {
			return fmt.Sprintf("%s is never reached", s)
		}
	}
	return ""
}

// ---------------------------------------------------------------------------
// Equipment with a host
// ---------------------------------------------------------------------------

type c18Op struct {
	Op  string // establish, drop, cycle, online, offline, local, remote, s1f15, s1f17, answer, s1f13, wait
	Ans string // the answer to an S1F1 that follows: ok, abort, s9, wrong, silent, hold
	N   int
}

type c18End struct {
	Active        bool
	Initial, Mode string
	React         bool
	Ops           []c18Op
}

type c18Case struct{ Ends []c18End }

func runC18(r *R, c c18Case) {
	var wg sync.WaitGroup
	for i, e := range c.Ends {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := &c18Run{r: r, c: e, pre: fmt.Sprintf("equipment %d (active %v, initially %q, mode %q, reacts %v)", i, e.Active, e.Initial, e.Mode, e.React)}
			x.run()
		}()
	}
	wg.Wait()
}

type c18Run struct {
	r     *R
	c     c18End
	pre   string
	e     *gemEnd
	m     *ctlModel
	conn  bool
	comm  bool
	open  *rxFrame // the S1F1 that has no answer yet
	tries int      // S1F1 expected on this connection
	mu    sync.Mutex
	got   []ctlEvent
}

func (x *c18Run) fail(f string, a ...any) bool {
	x.r.Failf(x.pre+": "+f, a...)
	return false
}
func (x *c18Run) slow(f string, a ...any) bool {
	x.r.Slowf(x.pre+": "+f, a...)
	return false
}

func (x *c18Run) seen() []ctlEvent {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]ctlEvent{}, x.got...)
}

func (x *c18Run) run() {
	x.e = newGem(x.r, x.c.Active, true, 6, func(o *gem.Options) {
		o.InitialControlState, o.InitialOnlineMode = gem.ControlState(x.c.Initial), gem.OnlineControlMode(x.c.Mode)
	})
	g := x.e.g
	x.e.auto1.Store(false)
	x.e.auto13.Store(false)
	x.m = newCtlModel(gem.ControlState(x.c.Initial), gem.OnlineControlMode(x.c.Mode))
	if x.m.s != stHo {
		x.m.s = stEq // without communication
	}
	x.m.react = x.c.React
	g.Events().ControlStateChanged.AddCallback(func(d map[string]any) {
		x.mu.Lock()
		x.got = append(x.got, ctlEvent{d["previous"].(gem.ControlState), d["current"].(gem.ControlState), d["mode"].(gem.OnlineControlMode)})
		x.mu.Unlock()
		if d["handler"] != g {
			x.fail("the event ControlStateChanged names the handler %v", d["handler"])
		}
	})
	if x.c.React {
		g.Events().ControlStateChanged.AddCallback(func(d map[string]any) {
			if d["current"] == stRem {
				if err := g.SwitchControlOnlineLocal(); err != nil {
					x.fail("SwitchControlOnlineLocal in a callback that reports ONLINE_REMOTE: %v", err)
				}
			}
		})
	}
	if !x.judge("at the start") {
		return
	}
	g.Enable()
	pre := x.pre
	for i, op := range x.c.Ops {
		x.pre = fmt.Sprintf("%s, op %d (%s %s)", pre, i, op.Op, op.Ans)
		from := x.m.s
		if op.Op != "answer" {
			t3 := 30
			if op.Ans == "silent" {
				t3 = 1
			}
			x.e.p.Timeouts().SetT3ReplyTimeout(t3)
		}
		if !x.step(op) || !x.judge("after it") {
			return
		}
		x.r.Label(fmt.Sprintf("%s in %s", op.Op, from))
	}
	x.pre = pre + ", at the end"
	time.Sleep(20 * time.Millisecond)
	if x.judge("") && len(x.m.events) > 0 {
		x.r.NonTrivial()
	}
}

// judge compares state, mode and events with the model.
func (x *c18Run) judge(when string) bool {
	g := x.e.g
	ok := pollFor(netWait, func() bool {
		return g.ControlState() == x.m.s && g.ControlStateMachine().OnlineMode() == x.m.mode && len(x.seen()) >= len(x.m.events)
	})
	got := x.seen()
	same := len(got) == len(x.m.events)
	for i := range got {
		same = same && got[i] == x.m.events[i]
	}
	if !ok || !same {
		return x.fail("%s the state is %s, mode %s, and the changes reported are %v; want %s, %s, %v", when, g.ControlState(), g.ControlStateMachine().OnlineMode(), got, x.m.s, x.m.mode, x.m.events)
	}
	if x.conn && x.open == nil {
		x.e.peer.mu.Lock()
		n := 0
		for _, f := range x.e.peer.all {
			if f.SType == 0 && f.S() == 1 && f.F() == 1 {
				n++
			}
		}
		x.e.peer.mu.Unlock()
		if n != x.tries {
			return x.fail("%s S1F1 was sent %d times on this connection, want %d", when, n, x.tries)
		}
	}
	return true
}

// attempt follows an attempt to go online.
func (x *c18Run) attempt(op c18Op) bool {
	if !x.comm {
		x.m.do("failhost")
		return true
	}
	f, ok := x.e.peer.take(netWait, func(f rxFrame) bool { return f.SType == 0 && f.S() == 1 && f.F() == 1 })
	if !ok {
		return x.slow("no S1F1 in %v (state %s, connection ended: %v)", netWait, x.e.g.ControlState(), x.e.peer.ended())
	}
	if !f.W() || f.Session != 6 || len(leaves(f.Item)) > 0 {
		return x.fail("S1F1 was sent as %v", f.view())
	}
	x.open = &f
	x.tries++
	if op.Ans == "hold" {
		return true
	}
	return x.answer(op)
}

func (x *c18Run) answer(op c18Op) bool {
	f := x.open
	x.open = nil
	switch op.Ans {
	case "abort":
		x.e.peer.send(dataFrame(6, 1, 0, false, f.Sys, Item{}))
	case "s9":
		x.e.peer.send(dataFrame(6, 9, 5, false, f.Sys, iB(1, 2, 3, 4, 5, 6, 7, 8, 9, 10)))
	case "wrong":
		x.e.peer.send(dataFrame(6, []int{1, 1, 2, 6}[op.N%4], []int{4, 14, 2, 12}[op.N%4], false, f.Sys, []Item{iL(), iL(iB(0), iL()), iB(0), Item{}}[op.N%4]))
	case "silent":
		if _, ok := x.e.peer.take(netWait, func(y rxFrame) bool { return y.SType == 0 && y.S() == 9 && y.F() == 9 }); !ok {
			return x.slow("no S9F9 in %v for an unanswered S1F1", netWait)
		}
	default:
		x.e.peer.send(dataFrame(6, 1, 2, false, f.Sys, []Item{iL(), iL(iA("h"), iA("1")), Item{}, iA("")}[op.N%4]))
		x.m.do("success")
		x.r.Label("S1F1 accepted")
		return true
	}
	x.m.do("failhost")
	x.r.Label("S1F1 " + op.Ans)
	return true
}

// lost: the connection has been closed, and what the endpoint makes of it is
// waited for, also where the control state does not change.
func (x *c18Run) lost() {
	if x.comm {
		if !pollFor(netWait, func() bool { return x.e.g.State() == gem.CommunicationStateNotCommunicating }) {
			x.slow("the state is still %v %v after the connection was lost", x.e.g.State(), netWait)
		}
		time.Sleep(5 * time.Millisecond)
	}
	x.comm, x.conn, x.open = false, false, nil
	if x.m.online() {
		x.m.do("offline")
	} else if x.m.s == stAtt {
		x.m.do("failequip")
	}
}

func (x *c18Run) step(op c18Op) bool {
	g, e := x.e.g, x.e
	verdict := func(err error, ok bool) bool {
		if ok != (err == nil) || (err != nil && !errors.Is(err, gem.ErrInvalidControlTransition)) {
			return x.fail("in %s it ended with the error %v, valid: %v", x.m.s, err, ok)
		}
		return true
	}
	switch op.Op {
	case "establish":
		if x.comm {
			return true
		}
		if !x.conn {
			if e.peer = e.st.upAnew(x.r, 6); e.peer == nil {
				return false
			}
		}
		x.conn, x.tries = true, 0
		if op.N%3 == 0 {
			// requests before communication has been established
			if !x.step(c18Op{Op: []string{"s1f15", "s1f17"}[op.N%2]}) || !x.judge("before communication was established") {
				return false
			}
		}
		if op.N%5 == 0 {
			// by the equipment
			f, ok := e.peer.take(netWait, func(f rxFrame) bool { return f.SType == 0 && f.S() == 1 && f.F() == 13 })
			if !ok {
				return x.slow("no S1F13 in %v", netWait)
			}
			e.peer.send(dataFrame(6, 1, 14, false, f.Sys, iL(iB(0), iL())))
		} else if _, ok := e.ask(1, 13, iL()); !ok {
			return false
		}
		if !pollFor(netWait, func() bool { return g.State() == gem.CommunicationStateCommunicating }) {
			return x.slow("not communicating after S1F13 was accepted")
		}
		x.comm = true
		if x.m.s == stEq {
			x.m.do("online")
			return x.attempt(op)
		}
		return true
	case "drop":
		if x.conn {
			e.peer.close()
			x.lost()
		}
		return true
	case "redrop":
		// lost and established again at once
		if !x.comm {
			return true
		}
		e.peer.close()
		x.lost()
		return x.step(c18Op{Op: "establish", Ans: op.Ans, N: 1})
	case "stale":
		// an S1F1 that is never answered, and the next attempt, on another
		// connection, which is still open when the first one times out
		if x.m.s == stHo {
			return true
		}
		if x.comm {
			e.peer.close()
			x.lost()
		}
		e.p.Timeouts().SetT3ReplyTimeout(1)
		if !x.step(c18Op{Op: "establish", Ans: "hold", N: op.N}) || x.m.s != stAtt || !x.judge("with the first S1F1 open") {
			return true
		}
		time.Sleep(30 * time.Millisecond)
		e.p.Timeouts().SetT3ReplyTimeout(30)
		if op.N%2 == 0 {
			if !x.step(c18Op{Op: "redrop", Ans: "hold"}) {
				return false
			}
		} else if !x.step(c18Op{Op: "cycle"}) || !x.step(c18Op{Op: "establish", Ans: "hold", N: 1}) {
			return false
		}
		time.Sleep(1300 * time.Millisecond)
		x.r.Label("an unanswered S1F1 of an earlier connection")
		if op.Ans == "hold" || op.Ans == "silent" {
			return true
		}
		return x.judge("when the S1F1 of the earlier connection has timed out") && x.answer(op)
	case "cycle":
		g.Disable()
		x.lost()
		if !x.judge("after Disable") {
			return false
		}
		if x.e.peer != nil {
			x.e.peer.close()
		}
		g.Enable()
		return true
	case "online":
		switch x.m.s {
		case stHo:
			return verdict(g.SwitchControlOnline(), false)
		case stEq:
			if !verdict(g.SwitchControlOnline(), true) {
				return false
			}
			x.m.do("online")
			return x.attempt(op)
		}
		return verdict(g.SwitchControlOnline(), true)
	case "offline":
		err := g.SwitchControlOffline()
		if x.m.online() {
			x.m.do("offline")
		}
		return verdict(err, true)
	case "local":
		return verdict(g.SwitchControlOnlineLocal(), x.m.do("local"))
	case "remote":
		return verdict(g.SwitchControlOnlineRemote(), x.m.do("remote"))
	case "s1f15", "s1f17":
		if !x.conn {
			return true
		}
		s, want := x.m.s, 0
		if op.Op == "s1f15" {
			x.m.do("s1f15")
			it, ok := e.askItem(1, 15, Item{})
			if ok && !sameLeaves(it, iB(byte(want))) {
				return x.fail("S1F15 in %s was acknowledged with %v, want %d", s, it, want)
			}
			return ok
		}
		if x.m.online() {
			want = 2
		} else if !x.m.do("s1f17") {
			want = 1
		}
		it, ok := e.askItem(1, 17, Item{})
		if ok && !sameLeaves(it, iB(byte(want))) {
			return x.fail("S1F17 in %s was acknowledged with %v, want %d", s, it, want)
		}
		return ok
	case "s1f13":
		if !x.comm {
			return true
		}
		_, ok := e.ask(1, 13, iL())
		return ok
	case "answer":
		if x.open == nil {
			return true
		}
		if op.Ans == "hold" || op.Ans == "silent" {
			op.Ans = "ok"
		}
		return x.answer(op)
	case "wait":
		time.Sleep(time.Duration(op.N*10) * time.Millisecond)
	}
	return true
}

func init() {
	shards("C18", 16, 16)
	states := []string{"", "ATTEMPT_ONLINE", "EQUIPMENT_OFFLINE", "HOST_OFFLINE", "ONLINE", "ONLINE_LOCAL", "nonsense"}
	modes := []string{"", "LOCAL", "REMOTE", "nonsense"}
	register("C18", "machine", "the control state machine on its own: up to 30 transitions from every initial state and mode against the model of E30, state, mode and error judged after each; non-trivial: the state changed",
		opts{quick: budget{1500, 6}, thorough: budget{40000, 60}},
		func(t *rapid.T) c18Machine {
			c := c18Machine{Initial: pick(t, "initial", states...), Mode: pick(t, "mode", modes...)}
			for i, n := 0, rng(t, "n", 1, 30); i < n; i++ {
				c.Ops = append(c.Ops, pick(t, "op", ctlOps...))
			}
			return c
		}, runC18Machine)
	register("C18", "concurrent", "equipment without a connection, switched online, offline, local and remote by up to 4 callers at once: the changes reported, in whatever order, must lead from the first state to the last; non-trivial: more than one change",
		opts{quick: budget{1500, 8}, thorough: budget{30000, 100}},
		func(t *rapid.T) c18Conc {
			c := c18Conc{Initial: pick(t, "initial", "ONLINE", "ONLINE", "ONLINE", "EQUIPMENT_OFFLINE"), Mode: pick(t, "mode", "LOCAL", "REMOTE")}
			for i, n := 0, rng(t, "threads", 2, 4); i < n; i++ {
				var ops []string
				for j, k := 0, rng(t, "n", 1, 30); j < k; j++ {
					if oneIn(t, "leave", 20) {
						ops = append(ops, pick(t, "op", "online", "offline"))
					} else {
						ops = append(ops, pick(t, "op", "local", "remote"))
					}
				}
				c.Threads = append(c.Threads, ops)
			}
			return c
		}, runC18Conc)
	register("C18", "control", "batches of 8 equipment with up to 16 operations: communication established by either side, lost, lost and established again at once, Disable and Enable, operator requests, S1F15 and S1F17, and S1F1 accepted, aborted, answered wrongly, not answered, not answered before the next attempt on another connection, or left open for later operations; an application that switches inside its callback; state, mode, every event, every acknowledge code and the number of S1F1 judged after each operation; non-trivial: the state changed",
		opts{quick: budget{60, 60}, thorough: budget{3000, 400}, hang: 150 * time.Second},
		func(t *rapid.T) c18Case {
			var c c18Case
			for i := 0; i < 8; i++ {
				e := c18End{Active: coin(t, "active"), Initial: pick(t, "initial", states[:5]...), Mode: pick(t, "mode", modes...), React: oneIn(t, "react", 4)}
				for j, n := 0, rng(t, "ops", 2, 16); j < n; j++ {
					op := c18Op{Op: pick(t, "op", "establish", "establish", "drop", "redrop", "cycle", "online", "online", "offline", "local", "remote", "s1f15", "s1f15", "s1f17", "s1f17", "answer", "s1f13", "wait", "stale"), N: rng(t, "n", 0, 29)}
					op.Ans = pick(t, "ans", "ok", "ok", "ok", "ok", "hold", "hold", "abort", "s9", "wrong", "silent")
					if j == 0 && coin(t, "first") {
						op.Op = "establish"
					}
					e.Ops = append(e.Ops, op)
				}
				c.Ends = append(c.Ends, e)
			}
			return c
		}, runC18)
}
