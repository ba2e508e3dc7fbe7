package main

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/gem"
)

// C24: the clock of the equipment.

type c24Op struct {
	Op   string // provider, handler, read, set, badset
	On   bool
	T    [7]int // year ... second, nanoseconds
	Zone int    // minutes east of UTC
	Ack  byte
	Err  bool
	Text string
	Item Item
	W    bool
	Body Item
	Code int
}

type c24Case struct {
	Active bool
	Ops    []c24Op
}

func (op c24Op) time() time.Time {
	return time.Date(op.T[0], time.Month(op.T[1]), op.T[2], op.T[3], op.T[4], op.T[5], op.T[6], zone(op.Zone))
}

func zone(min int) *time.Location {
	if min == 0 {
		return time.UTC
	}
	return time.FixedZone("Z", min*60)
}

func monthDays(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

// digits reads YYYYMMDDhhmmss.
func digits(s string) (a [6]int, ok bool) {
	if len(s) < 14 {
		return a, false
	}
	v := []int{}
	for _, w := range []int{4, 2, 2, 2, 2, 2} {
		n := 0
		for i := 0; i < w; i++ {
			if s[i] < '0' || s[i] > '9' {
				return a, false
			}
			n = 10*n + int(s[i]-'0')
		}
		v = append(v, n)
		s = s[w:]
	}
	copy(a[:], v)
	return a, a[1] >= 1 && a[1] <= 12 && a[2] >= 1 && a[2] <= monthDays(a[0], a[1]) && a[3] < 24 && a[4] < 60 && a[5] < 60
}

func sixteen(y, mo, d, h, mi, s, cs int) string {
	return fmt.Sprintf("%04d%02d%02d%02d%02d%02d%02d", y, mo, d, h, mi, s, cs)
}

func (op c24Op) text() string {
	return sixteen(op.T[0], op.T[1], op.T[2], op.T[3], op.T[4], op.T[5], 0)
}

func runC24(r *R, c c24Case) {
	e := newGem(r, c.Active, true, 41, nil)
	if !e.up() {
		return
	}
	var mu sync.Mutex
	var calls []time.Time
	var cur c24Op
	var prov *c24Op
	on := false
	h := func(t time.Time) (byte, error) {
		mu.Lock()
		defer mu.Unlock()
		calls = append(calls, t)
		if cur.Err {
			return cur.Ack, errors.New("failed")
		}
		return cur.Ack, nil
	}
	read, passed, refused := false, false, false
	// near says whether the text shows a time between the two
	near := func(s string, a, b time.Time) bool {
		d, ok := digits(s)
		if !ok || len(s) != 16 || !strings.HasSuffix(s, "00") {
			return false
		}
		t := time.Date(d[0], time.Month(d[1]), d[2], d[3], d[4], d[5], 0, a.Location())
		return !t.Before(a.Truncate(time.Second)) && !t.After(b)
	}
	for i, op := range c.Ops {
		when := fmt.Sprintf("op %d (%s)", i, op.Op)
		mu.Lock()
		calls = nil
		mu.Unlock()
		switch op.Op {
		case "provider":
			if op.On {
				prov = &op
				e.g.SetTimeProvider(op.time)
			} else {
				prov = nil
				e.g.SetTimeProvider(nil)
			}
		case "handler":
			on = op.On
			mu.Lock()
			cur = op
			mu.Unlock()
			if on {
				e.g.SetClockSyncHandler(h)
			} else {
				e.g.SetClockSyncHandler(nil)
			}
		case "read":
			t0 := time.Now()
			it, ok := e.askItem(2, 17, op.Body)
			if !ok {
				return
			}
			local := e.g.GetEquipmentTime()
			t1 := time.Now()
			if prov == nil {
				if it.K != "A" || !near(it.S, t0, t1) || !near(local, t0, t1) {
					r.Failf("%s: between %v and %v the time was given as %v, and GetEquipmentTime returned %q", when, t0, t1, it, local)
				}
			} else {
				if want := prov.text(); !it.same(iA(want)) || local != want {
					r.Failf("%s: the time %v was given as %v, and GetEquipmentTime returned %q, want %q", when, prov.time(), it, local, want)
				}
				read = true
			}
		case "set", "badset":
			body := op.Item
			if op.Op == "set" || op.Text != "" {
				body = iA(op.Text)
			}
			code, called := byte(1), 0
			d, good := digits(op.Text)
			if op.Op == "set" && !good || op.Op == "badset" && body.K == "A" && good {
				panic("harness: text " + op.Text)
			}
			if op.Op == "set" && on {
				called = 1
				if !cur.Err {
					code = cur.Ack
				}
			}
			if op.W {
				it, ok := e.askItem(2, 31, body)
				if !ok {
					return
				}
				if it.K != "B" || len(it.B) != 1 || called == 1 && !cur.Err && it.B[0] != code || (called == 0 || cur.Err) && it.B[0] == 0 {
					r.Failf("%s: S2F31 %v was acknowledged with %v, want %d (handler set: %v, fails: %v)", when, body, it, code, on, cur.Err)
				}
			} else {
				e.peer.send(dataFrame(41, 2, 31, false, e.peer.nextSys(), body))
				if !e.peer.sync(r) {
					return
				}
			}
			mu.Lock()
			got := calls
			mu.Unlock()
			if len(got) != called {
				r.Failf("%s: S2F31 %v: the handler was called %d times with %v, want %d", when, body, len(got), got, called)
				return
			}
			if called == 1 {
				loc := time.Now().Location()
				if prov != nil {
					loc = prov.time().Location()
				}
				if want := time.Date(d[0], time.Month(d[1]), d[2], d[3], d[4], d[5], 0, loc); !got[0].Equal(want) {
					r.Failf("%s: S2F31 %v reached the application as %v, want %v (the time zone of the equipment's clock)", when, body, got[0], want)
				}
				passed = true
			}
			if code != 0 {
				refused = true
			}
		}
		r.Label(op.Op)
	}
	e.peer.check(r)
	if read && passed && refused {
		r.NonTrivial()
	}
}

func genClock(t *rapid.T) (a [7]int) {
	a[0] = pick(t, "year", rng(t, "y", 1, 9999), rng(t, "y2", 1990, 2100), 2000, 1900, 2024, 9999, 1, 999)
	a[1] = rng(t, "mo", 1, 12)
	a[2] = pick(t, "d", rng(t, "day", 1, 28), monthDays(a[0], a[1]), 1)
	a[3] = pick(t, "h", rng(t, "hour", 0, 23), 0, 23, 12)
	a[4] = pick(t, "mi", rng(t, "minute", 0, 59), 0, 59)
	a[5] = pick(t, "s", rng(t, "second", 0, 59), 0, 59)
	a[6] = pick(t, "ns", 0, 1, 999999999, 500000000)
	return
}

// badClock draws texts that are certainly no time of the format.
func badClock(t *rapid.T) string {
	a := genClock(t)
	good := sixteen(a[0], a[1], a[2], a[3], a[4], a[5], 0)
	switch rng(t, "badkind", 0, 6) {
	case 0:
		return good[:rng(t, "cut", 1, 13)]
	case 1:
		i := rng(t, "at", 0, 13)
		return good[:i] + pick(t, "ch", "a", " ", "-", ".", ":", "+", "\x00", "T", "Z") + good[i+1:]
	case 2:
		return sixteen(a[0], pick(t, "month", 0, 13, 99), a[2], a[3], a[4], a[5], 0)
	case 3:
		return sixteen(a[0], a[1], pick(t, "day", 0, 32, 99, monthDays(a[0], a[1])+1), a[3], a[4], a[5], 0)
	case 4:
		return sixteen(a[0], a[1], a[2], pick(t, "hour", 24, 25, 99), a[4], a[5], 0)
	case 5:
		return sixteen(a[0], a[1], a[2], a[3], pick(t, "minute", 60, 99), a[5], 0)
	}
	return sixteen(a[0], a[1], a[2], a[3], a[4], pick(t, "second", 60, 61, 99), 0)
}

// runC24Manager drives the clock manager on its own.
func runC24Manager(r *R, c c24Case) {
	m := gem.NewClockManager()
	var prov, hand *c24Op
	var calls []time.Time
	read, passed, refused := false, false, false
	for i, op := range c.Ops {
		when := fmt.Sprintf("op %d (%s)", i, op.Op)
		calls = nil
		switch op.Op {
		case "provider":
			prov = nil
			m.SetTimeProvider(nil)
			if op.On {
				prov = &op
				m.SetTimeProvider(op.time)
			}
		case "handler":
			hand = nil
			m.SetClockSyncHandler(nil)
			if op.On {
				hand = &op
				m.SetClockSyncHandler(func(t time.Time) (byte, error) {
					calls = append(calls, t)
					if op.Err {
						return op.Ack, errors.New("failed")
					}
					return op.Ack, nil
				})
			}
		case "read":
			t0 := time.Now()
			got, text := m.GetTime(), m.GetFormattedTime()
			t1 := time.Now()
			if prov != nil {
				if want := prov.time(); !got.Equal(want) || text != prov.text() {
					r.Failf("%s: a clock that shows %v is read as %v, %q", when, want, got, text)
				}
				read = true
				break
			}
			d, ok := digits(text)
			at := time.Date(d[0], time.Month(d[1]), d[2], d[3], d[4], d[5], 0, t0.Location())
			if got.Before(t0) || got.After(t1) || !ok || len(text) != 16 || text[14:] != "00" || at.Before(t0.Truncate(time.Second)) || at.After(t1) {
				r.Failf("%s: between %v and %v the clock is read as %v, %q", when, t0, t1, got, text)
			}
		case "set":
			d, ok := digits(op.Text)
			if !ok {
				panic("harness: text " + op.Text)
			}
			want := time.Date(d[0], time.Month(d[1]), d[2], d[3], d[4], d[5], 0, time.UTC)
			got, err := gem.ParseSEMITime(op.Text)
			if err != nil || !got.Equal(want) {
				r.Failf("%s: ParseSEMITime(%q) is %v (%v), want %v", when, op.Text, got, err, want)
				return
			}
			code := m.HandleTimeSet(got)
			switch {
			case hand == nil:
				if code == 0 {
					r.Failf("%s: without a handler HandleTimeSet returned 0", when)
				}
				refused = true
			case len(calls) != 1 || !calls[0].Equal(want):
				r.Failf("%s: HandleTimeSet(%v) called the handler with %v", when, want, calls)
			case hand.Err:
				if code == 0 {
					r.Failf("%s: HandleTimeSet returned 0 although the handler failed", when)
				}
				refused = true
			default:
				if code != hand.Ack {
					r.Failf("%s: HandleTimeSet returned %d, want the handler's %d", when, code, hand.Ack)
				}
				passed = true
			}
		case "badset":
			if _, ok := digits(op.Text); ok {
				panic("harness: text " + op.Text)
			}
			if t, err := gem.ParseSEMITime(op.Text); err == nil {
				r.Failf("%s: ParseSEMITime(%q) is %v without error", when, op.Text, t)
			}
			r.Label("malformed")
		}
		r.Label(op.Op)
	}
	if read && (passed || refused) {
		r.NonTrivial()
	}
}

func init() {
	shards("C24", 16, 16)
	register("C24", "manager", "the clock manager on its own, with any provider (or none) and a handler that returns any code or error (or none): times read as instant and as text, texts parsed, times set; non-trivial: a given time was read and one set",
		opts{quick: budget{3000, 5}, thorough: budget{100000, 60}},
		func(t *rapid.T) c24Case {
			var c c24Case
			for i, n := 0, rng(t, "ops", 3, 20); i < n; i++ {
				op := c24Op{Op: pick(t, "op", "provider", "handler", "read", "read", "set", "set", "set", "badset"), T: genClock(t)}
				op.On, op.Zone = !oneIn(t, "off", 4), pick(t, "zone", 0, 0, 60, -300, 330, 540, 845, -720)
				op.Ack, op.Err = byte(pick(t, "ack", 0, 0, 0, 1, 2, 3, 63, 64, 255)), oneIn(t, "err", 4)
				op.Text = op.text()[:pick(t, "len", 16, 16, 14)]
				if op.Op == "badset" {
					op.Text = badClock(t)
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runC24Manager)
	register("C24", "equipment", "equipment whose clock shows any time in any zone, with and without a handler returning any code or error, up to 20 S2F17 and S2F31 with valid and malformed times; the texts sent, the times passed to the application and the acknowledge codes against a reference reading of the digits; non-trivial: a given time was read, one passed on and one refused",
		opts{quick: budget{500, 20}, thorough: budget{20000, 400}},
		func(t *rapid.T) c24Case {
			c := c24Case{Active: coin(t, "active")}
			for i, n := 0, rng(t, "ops", 3, 20); i < n; i++ {
				op := c24Op{Op: pick(t, "op", "provider", "handler", "read", "read", "set", "set", "set", "badset"), W: !oneIn(t, "nowait", 4)}
				switch op.Op {
				case "provider":
					op.On, op.T, op.Zone = !oneIn(t, "off", 4), genClock(t), pick(t, "zone", 0, 0, 60, -300, 330, 540, 845, -720)
				case "handler":
					op.On, op.Ack, op.Err = !oneIn(t, "off", 4), byte(pick(t, "ack", 0, 0, 0, 1, 2, 3, 63, 64, 255)), oneIn(t, "err", 4)
				case "read":
					op.Body = pick(t, "body", Item{}, iL())
				case "set":
					a := genClock(t)
					op.Text = sixteen(a[0], a[1], a[2], a[3], a[4], a[5], rng(t, "cs", 0, 99))
				case "badset":
					if coin(t, "text") {
						op.Text = badClock(t)
					} else {
						op.Item = pick(t, "item", Item{}, iL(), iL(iA("2024010203040500")), iA(""), iB(1), iU(8, 20240102030405), genItem(t, 1, false))
						if _, ok := digits(op.Item.S); ok {
							op.Item = iA("")
						}
					}
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runC24)
	register("C24", "host", "a GEM host reading and setting the equipment's clock: the messages sent against the arguments and the results against what the peer answered (well-formed and malformed); non-trivial: both",
		opts{quick: budget{400, 10}, thorough: budget{20000, 200}},
		func(t *rapid.T) c24Case {
			c := c24Case{Active: coin(t, "active")}
			for i, n := 0, rng(t, "ops", 1, 20); i < n; i++ {
				op := c24Op{Op: pick(t, "op", "read", "set", "badreply", "invalid"), Code: rng(t, "code", 0, 255), W: coin(t, "w")}
				a := genClock(t)
				op.Text = sixteen(a[0], a[1], a[2], a[3], a[4], a[5], rng(t, "cs", 0, 99))
				switch op.Op {
				case "badreply":
					op.Item = pick(t, "bad", Item{}, iL(), iU(8, 1), iO(true))
				case "invalid":
					op.Text = pick(t, "text", "", "2024", "2024010203040", "20240102030405é", "\u0660024010203040500")
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runC24Host)
}

func runC24Host(r *R, c c24Case) {
	e := newGem(r, c.Active, false, 42, nil)
	if !e.up() {
		return
	}
	read, set := false, false
	for i, op := range c.Ops {
		when := fmt.Sprintf("op %d (%s)", i, op.Op)
		switch {
		case op.Op == "read" || op.Op == "badreply" && op.W:
			reply := iA(op.Text)
			if op.Op == "badreply" {
				reply = op.Item
			}
			var got string
			var err error
			if !hostExchange(r, e, when, 2, 17, func() { got, err = e.g.RequestDateTime() }, func(it Item) string {
				if it.K != "" && (it.K != "L" || len(it.L) != 0) {
					return "want no content"
				}
				return ""
			}, reply) {
				return
			}
			if op.Op == "badreply" {
				if err == nil {
					r.Failf("%s: S2F18 %v was returned as %q without error", when, reply, got)
				}
			} else if err != nil || got != op.Text {
				r.Failf("%s: S2F18 %v was returned as %q (%v)", when, reply, got, err)
			}
			read = true
		case op.Op == "set" || op.Op == "badreply":
			reply := iB(byte(op.Code))
			if op.Op == "badreply" {
				reply = op.Item
			}
			var code byte
			var err error
			if !hostExchange(r, e, when, 2, 31, func() { code, err = e.g.SetDateTime(op.Text) }, func(it Item) string {
				if !it.same(iA(op.Text)) {
					return "want " + op.Text
				}
				return ""
			}, reply) {
				return
			}
			if op.Op == "badreply" {
				if err == nil {
					r.Failf("%s: S2F32 %v was returned as %d without error", when, reply, code)
				}
			} else if err != nil || int(code) != op.Code {
				r.Failf("%s: S2F32 %v was returned as %d (%v)", when, reply, code, err)
			}
			set = true
		case op.Op == "invalid":
			if code, err := e.g.SetDateTime(op.Text); err == nil {
				r.Failf("%s: SetDateTime(%q) returned %d", when, op.Text, code)
			}
			if !e.peer.sync(r) {
				return
			}
			for _, f := range e.peer.rest() {
				if f.SType == 0 && f.S() == 2 {
					r.Failf("%s: %v was sent for a call that failed", when, f.view())
				}
			}
		}
		r.Label(op.Op)
	}
	e.peer.check(r)
	if read && set {
		r.NonTrivial()
	}
}
