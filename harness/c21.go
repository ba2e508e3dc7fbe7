package main

import (
	"errors"
	"fmt"
	"sort"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/gem"
)

// C21: alarms.

type c21Op struct {
	Op   string // register, raise, clear, burst, enable, disable, s5f3, bad, lose
	ID   int
	IDs  []int
	Text string
	Set  bool
	On   bool
	F    []string // formats of the identifiers in S5F3
	Body Item
	Bad  *Item // one more entry of S5F3
}

type c21Case struct {
	Active bool
	Ops    []c21Op
}

var c21IDs = []int{0, 1, 2, 3, 4, 5, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1 << 40, 1<<63 - 1}

// alarmIs says why the item does not report the alarm.
func alarmIs(it Item, a gem.Alarm, set bool) string {
	if it.K != "L" || len(it.L) != 3 || it.L[0].K != "B" || len(it.L[0].B) != 1 {
		return "it is not ALCD, ALID and ALTX"
	}
	if !sameID(it.L[1], idN(uint64(a.ID))) {
		return "ALID is wrong"
	}
	if !it.L[2].same(iA(sentText(a.Text))) {
		return "ALTX is wrong"
	}
	if (it.L[0].B[0] != 0) != set {
		return "ALCD is wrong"
	}
	return ""
}

func runC21(r *R, c c21Case) {
	e := newGem(r, c.Active, true, 21, nil)
	if !e.up() {
		return
	}
	m := map[int]gem.Alarm{}
	sorted := func(on bool) (a []gem.Alarm) {
		for _, x := range m {
			if x.Enabled || !on {
				a = append(a, x)
			}
		}
		sort.Slice(a, func(i, j int) bool { return a[i].ID < a[j].ID })
		return
	}
	sent, quiet, toggled := 0, 0, false
	count := 0 // S5F1 seen on connections that are gone
	seen := func() int {
		n := count
		e.peer.mu.Lock()
		defer e.peer.mu.Unlock()
		for _, f := range e.peer.all {
			if isF(5, 1)(f) {
				n++
			}
		}
		return n
	}
	report := func(when string, a gem.Alarm, set bool) bool {
		f, ok := e.peer.take(netWait, isF(5, 1))
		if !ok {
			r.Slowf("%s: no S5F1 in %v for alarm %+v", when, netWait, a)
			return false
		}
		if why := alarmIs(f.Item, a, set); why != "" || f.Session != 21 {
			r.Failf("%s: S5F1 is %v, want alarm %+v, set %v: %s", when, f.view(), a, set, why)
			return false
		}
		if f.W() {
			e.peer.send(dataFrame(21, 5, 2, false, f.Sys, iB(0)))
		}
		return true
	}
	raise := func(id int, set bool) error {
		if !set && id%2 == 0 {
			return e.g.ClearAlarm(id)
		}
		return e.g.RaiseAlarm(id, set)
	}
	for i, op := range c.Ops {
		when := fmt.Sprintf("op %d (%s)", i, op.Op)
		switch op.Op {
		case "register":
			a := gem.Alarm{ID: op.ID, Text: op.Text, Set: op.Set, Enabled: op.On}
			e.g.RegisterAlarm(a)
			if op.ID >= 0 {
				a.Enabled = true
				m[a.ID] = a
			}
		case "raise", "clear":
			set := op.Op == "raise"
			a, ok := m[op.ID]
			err := raise(op.ID, set)
			if ok != (err == nil) {
				r.Failf("%s: raising or clearing alarm %d returned %v, it is registered: %v", when, op.ID, err, ok)
			}
			if !ok {
				break
			}
			a.Set = set
			m[op.ID] = a
			if !a.Enabled {
				quiet++
				break
			}
			sent++
			if !report(when, a, set) {
				return
			}
			r.Label("S5F1")
		case "burst":
			due := map[int]bool{}
			var wg sync.WaitGroup
			for _, id := range op.IDs {
				a, ok := m[id]
				if !ok || due[id] {
					continue
				}
				a.Set = op.Set
				m[id] = a
				due[id] = a.Enabled
				wg.Add(1)
				go func() {
					defer wg.Done()
					if err := raise(id, op.Set); err != nil {
						r.Failf("%s: alarm %d: %v", when, id, err)
					}
				}()
			}
			wg.Wait()
			for id, on := range due {
				if !on {
					delete(due, id)
				}
			}
			sent += len(due)
			for len(due) > 0 {
				f, ok := e.peer.take(netWait, isF(5, 1))
				if !ok {
					r.Slowf("%s: no S5F1 in %v for alarms %v", when, netWait, due)
					return
				}
				var id gemID
				if len(f.Item.L) == 3 {
					id, _ = idOf(f.Item.L[1])
				}
				if why := alarmIs(f.Item, m[int(id.N)], op.Set); why != "" || !due[int(id.N)] {
					r.Failf("%s: S5F1 is %v, due are the alarms %v, set %v: %s", when, f.view(), due, op.Set, why)
					return
				}
				delete(due, int(id.N))
			}
		case "enable", "disable":
			a, ok := m[op.ID]
			var err error
			if op.Op == "enable" {
				err = e.g.EnableAlarm(op.ID)
			} else {
				err = e.g.DisableAlarm(op.ID)
			}
			if ok != (err == nil) {
				r.Failf("%s: alarm %d: %v, it is registered: %v", when, op.ID, err, ok)
			}
			if ok {
				a.Enabled = op.Op == "enable"
				m[op.ID] = a
			}
		case "s5f3":
			l := iL()
			good := op.Bad == nil
			for j, id := range op.IDs {
				l.L = append(l.L, idN(uint64(id)).as(op.F[j%len(op.F)]))
				if _, ok := m[id]; !ok {
					good = false
				}
			}
			if op.Bad != nil {
				at := op.ID % (len(l.L) + 1)
				l.L = append(l.L[:at:at], append([]Item{*op.Bad}, l.L[at:]...)...)
			}
			aled := iB(0)
			if op.On {
				aled = iB(128)
			}
			it, ok := e.askItem(5, 3, iL(aled, l))
			if !ok {
				return
			}
			if it.K != "B" || len(it.B) != 1 || (it.B[0] == 0) != good {
				r.Failf("%s: S5F3 %v %v was acknowledged with %v, every alarm is known: %v (%v)", when, aled, l, it, good, sorted(false))
				return
			}
			if good {
				for _, id := range op.IDs {
					a := m[id]
					a.Enabled = op.On
					m[id] = a
					toggled = true
				}
				r.Label("S5F3 accepted")
			} else {
				r.Label("S5F3 refused")
			}
		case "bad":
			it, ok := e.askItem(5, 3, op.Body)
			if !ok {
				return
			}
			if it.K != "B" || len(it.B) != 1 || it.B[0] == 0 {
				r.Failf("%s: S5F3 %v was acknowledged with %v", when, op.Body, it)
			}
		case "lose":
			if !e.peer.sync(r) {
				return
			}
			count = seen()
			e.peer.close()
			if !pollFor(netWait, func() bool { return e.g.State() != gem.CommunicationStateCommunicating }) {
				r.Slowf("%s: still communicating %v after the connection ended", when, netWait)
				return
			}
			for id := range m {
				if err := raise(id, op.Set); !errors.Is(err, gem.ErrNotCommunicating) {
					r.Failf("%s: raising or clearing alarm %d without communication returned %v", when, id, err)
				}
			}
			if e.peer = e.st.upAnew(r, 21); e.peer == nil || !e.talk() {
				return
			}
			r.Label("connection lost")
		}
		for _, f := range []int{5, 7} {
			body := Item{}
			if i%2 == 0 {
				body = iL()
			}
			it, ok := e.askItem(5, f, body)
			if !ok {
				return
			}
			want := sorted(f == 7)
			if it.K != "L" || len(it.L) != len(want) {
				r.Failf("after %s the answer to S5F%d is %v, want %v", when, f, it, want)
				return
			}
			for j, a := range want {
				x := it.L[j]
				if why := alarmIs(iL(iB(0), at(x, 1), at(x, 2)), a, false); why != "" || len(x.L) != 3 || x.L[0].K != "B" || len(x.L[0].B) != 1 || x.L[0].B[0]&128 != 0 != a.Set || x.L[0].B[0]&64 != 0 != a.Enabled {
					r.Failf("after %s entry %d of the answer to S5F%d is %v, want %+v %s", when, j, f, x, a, why)
					return
				}
			}
		}
	}
	time.Sleep(2 * time.Millisecond)
	if !e.peer.sync(r) {
		return
	}
	if n := seen(); n != sent {
		r.Failf("%d S5F1 were sent in all, %d were due", n, sent)
	}
	e.peer.check(r)
	if sent > 0 && quiet > 0 && toggled {
		r.NonTrivial()
	}
}

func at(it Item, i int) Item {
	if i < len(it.L) {
		return it.L[i]
	}
	return Item{}
}

func genAlarmID(t *rapid.T) int {
	if oneIn(t, "edge", 4) {
		return pick(t, "id", c21IDs...)
	}
	return rng(t, "idn", 0, 3)
}

func init() {
	shards("C21", 16, 16)
	register("C21", "equipment", "equipment, up to 30 registrations (also again), raised and cleared alarms (also concurrent), S5F3 with identifiers in any format, unknown or malformed, local enabling, lost connections; every S5F1, acknowledge code and both alarm lists after each operation against a model; non-trivial: an S5F1 was due, one was not because of a disabled alarm, and S5F3 was accepted",
		opts{quick: budget{400, 22}, thorough: budget{20000, 400}},
		func(t *rapid.T) c21Case {
			c := c21Case{Active: coin(t, "active")}
			var have []int
			known := func() int {
				if len(have) == 0 || oneIn(t, "any", 8) {
					return genAlarmID(t)
				}
				return pick(t, "known", have...)
			}
			for i, n := 0, rng(t, "ops", 3, 30); i < n; i++ {
				op := c21Op{Op: pick(t, "op", "register", "register", "register", "raise", "raise", "raise", "raise", "clear", "clear", "burst", "enable", "disable", "s5f3", "s5f3", "s5f3", "bad", "lose"), Set: coin(t, "set"), On: coin(t, "on")}
				if op.Op == "lose" && !oneIn(t, "really", 4) {
					op.Op = "raise"
				}
				if i < 2 {
					op.Op = "register"
				}
				switch op.Op {
				case "register":
					op.ID, op.Text = genAlarmID(t), genLabel(t, 40)
					if oneIn(t, "negative", 20) {
						op.ID = pick(t, "neg", -1, -1<<31, -1<<63)
					} else {
						have = append(have, op.ID)
					}
				case "raise", "clear", "enable", "disable":
					op.ID = known()
				case "burst":
					for j, k := 0, rng(t, "ids", 2, 5); j < k; j++ {
						op.IDs = append(op.IDs, known())
					}
				case "s5f3":
					op.F = []string{pick(t, "f", idFormats...), pick(t, "f2", idFormats...)}
					for j, k := 0, rng(t, "ids", 0, 4); j < k; j++ {
						op.IDs = append(op.IDs, known())
					}
					if oneIn(t, "bad", 8) {
						b := pick(t, "badid", iU(4), iI(2), iI(4, -1), iA("1"), iB(1), iL(), iL(iU(4, 1)), iF(4, 1), iU(8, 1<<64-1), iU(8, 1<<63))
						op.Bad, op.ID = &b, rng(t, "at", 0, 5)
					}
				case "bad":
					op.Body = pick(t, "body", Item{}, iL(), iA("x"), iL(iB(128)), iL(iU(1, 128), iL()), iL(iB(), iL()), iL(iB(0), iU(4, 1)), iL(iB(128), iU(4, 0)), iL(iA("x"), iL(iU(4, 1))))
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runC21)
	register("C21", "host", "a GEM host whose peer sends S5F1 (well-formed and malformed) and answers SendEnableAlarm, RequestAlarmList and RequestEnabledAlarmList: what the application is told against what was sent, and the messages sent against the arguments; non-trivial: an alarm was reported and a list returned",
		opts{quick: budget{400, 10}, thorough: budget{20000, 200}},
		func(t *rapid.T) c21HostCase {
			c := c21HostCase{Active: coin(t, "active")}
			for i, n := 0, rng(t, "ops", 1, 20); i < n; i++ {
				op := c21HostOp{Op: pick(t, "op", "alarm", "alarm", "alarm", "badalarm", "enable", "enable", "list", "list", "badlist", "invalid"), W: coin(t, "w"), Code: rng(t, "code", 0, 255)}
				entry := func(cds ...int) Item {
					return iL(iB(byte(pick(t, "alcd", cds...))), idN(uint64(genAlarmID(t))).as(pick(t, "f", idFormats...)), iA(genASCII(t, 40)))
				}
				switch op.Op {
				case "alarm":
					op.Body = entry(0, 0, 0, 1, 1, 128, 129, 255)
				case "badalarm":
					op.Body = pick(t, "body", Item{}, iL(), iA("x"), iU(4, 1), iL(iB(1)), iL(iB(), iU(4, 1), iA("")), iL(iU(1, 1), iU(4, 1), iA("")), iL(iB(1), iA("1"), iA("")), iL(iB(1), iU(4), iA("")), iL(iB(1), iI(4), iA("")), iL(iB(1), iI(1, -1), iA("")), iL(iB(1), iU(8, 1<<64-1), iA("")), iL(iB(1), iL(), iA("")))
				case "enable":
					for j, k := 0, rng(t, "ids", 0, 5); j < k; j++ {
						op.IDs = append(op.IDs, genAlarmID(t))
					}
				case "list":
					op.Body = iL()
					for j, k := 0, rng(t, "n", 0, 5); j < k; j++ {
						op.Body.L = append(op.Body.L, entry(0, 64, 128, 192, 129, 68))
					}
				case "badlist":
					op.Body = pick(t, "body", Item{}, iA("x"), iU(4, 1), iB())
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runC21Host)
}

type c21HostOp struct {
	Op   string
	W    bool
	Code int
	IDs  []int
	Body Item
}

type c21HostCase struct {
	Active bool
	Ops    []c21HostOp
}

func runC21Host(r *R, c c21HostCase) {
	e := newGem(r, c.Active, false, 22, nil)
	var mu sync.Mutex
	var got []gem.AlarmEvent
	e.g.Events().AlarmReceived.AddCallback(func(d map[string]any) {
		mu.Lock()
		got = append(got, d["alarm"].(gem.AlarmEvent))
		mu.Unlock()
	})
	if !e.up() {
		return
	}
	due, listed := 0, false
	for i, op := range c.Ops {
		when := fmt.Sprintf("op %d (%s)", i, op.Op)
		switch op.Op {
		case "alarm", "badalarm":
			if op.W {
				it, ok := e.askItem(5, 1, op.Body)
				if !ok {
					return
				}
				if l := leaves(it); op.Op == "alarm" && (len(l) != 1 || !l[0].same(iB(0))) {
					r.Failf("%s: S5F1 %v was acknowledged with %v", when, op.Body, it)
				}
			} else {
				e.peer.send(dataFrame(22, 5, 1, false, e.peer.nextSys(), op.Body))
				if !e.peer.sync(r) {
					return
				}
			}
			if op.Op == "alarm" {
				due++
			}
			mu.Lock()
			n := len(got)
			var last gem.AlarmEvent
			if n > 0 {
				last = got[n-1]
			}
			mu.Unlock()
			if n != due {
				r.Failf("%s: AlarmReceived was fired %d times in all, want %d (S5F1 %v)", when, n, due, op.Body)
				return
			}
			if op.Op == "alarm" {
				if want := (gem.AlarmEvent{ID: int(mustID(op.Body.L[1]).N), Text: op.Body.L[2].S, Set: op.Body.L[0].B[0] != 0}); last != want {
					r.Failf("%s: S5F1 %v was reported as %+v, want %+v", when, op.Body, last, want)
				}
			}
		case "enable":
			var code byte
			var err error
			reply := iB(byte(op.Code))
			if op.W {
				reply = iL(reply)
			}
			on := op.Code%2 == 0
			if !hostExchange(r, e, when, 5, 3, func() { code, err = e.g.SendEnableAlarm(op.IDs, on) }, func(it Item) string {
				want := iB(0)
				if on {
					want = iB(128)
				}
				var ids []gemID
				for _, id := range op.IDs {
					ids = append(ids, idN(uint64(id)))
				}
				if it.K != "L" || len(it.L) != 2 || !it.L[0].same(want) || !idsAre(it.L[1], ids) {
					return fmt.Sprintf("want %v and %v", want, op.IDs)
				}
				return ""
			}, reply) {
				return
			}
			if err != nil || int(code) != op.Code {
				r.Failf("%s: the acknowledge code returned is %d (%v), want %d", when, code, err, op.Code)
			}
		case "list", "badlist":
			var a []gem.AlarmInfo
			var err error
			f, call := 5, e.g.RequestAlarmList
			if op.W {
				f, call = 7, e.g.RequestEnabledAlarmList
			}
			if !hostExchange(r, e, when, 5, f, func() { a, err = call() }, func(it Item) string {
				if it.K != "" && (it.K != "L" || len(it.L) != 0) {
					return "want no content"
				}
				return ""
			}, op.Body) {
				return
			}
			if op.Op == "badlist" {
				if err == nil {
					r.Failf("%s: S5F%d %v was returned as %v without error", when, f+1, op.Body, a)
				}
				break
			}
			if err != nil || len(a) != len(op.Body.L) {
				r.Failf("%s: S5F%d %v was returned as %v (%v)", when, f+1, op.Body, a, err)
				return
			}
			for j, x := range op.Body.L {
				if want := (gem.AlarmInfo{ID: int(mustID(x.L[1]).N), Text: x.L[2].S, Set: x.L[0].B[0]&128 != 0, Enabled: x.L[0].B[0]&64 != 0}); a[j] != want {
					r.Failf("%s: entry %d of S5F%d is %v, returned as %+v, want %+v", when, j, f+1, x, a[j], want)
				}
				listed = true
			}
		case "invalid":
			if _, err := e.g.SendEnableAlarm([]int{1, -1}, true); err == nil {
				r.Failf("%s: SendEnableAlarm accepted a negative identifier", when)
			}
			if err := e.g.RaiseAlarm(1, true); !errors.Is(err, gem.ErrOperationNotSupported) {
				r.Failf("%s: RaiseAlarm of a host returned %v", when, err)
			}
			if !e.peer.sync(r) {
				return
			}
			for _, f := range e.peer.rest() {
				if f.SType == 0 && f.S() == 5 {
					r.Failf("%s: %v was sent for a call that failed", when, f.view())
				}
			}
		}
		r.Label(op.Op)
	}
	e.peer.check(r)
	if due > 0 && listed {
		r.NonTrivial()
	}
}
