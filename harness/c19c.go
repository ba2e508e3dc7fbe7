package main

import (
	"fmt"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// C19, part midway: the host changes definitions, links and enabling while the values of an event are being collected (in the
// value provider of one of its variables). The event that is sent has to be what the event was at one moment between the
// call and its end: the reports and their variables of the old or of one of the new definitions, never a mixture.

type c19mCase struct {
	Active bool
	Data   bool // the variable with the provider is a data variable
	Reps   [][]int
	Linked []int
	Ops    []c19mOp
}

type c19mOp struct {
	Op   string // define, delete, clear, link, unlink, on, off
	Rep  int
	Vids []int
}

func runC19Midway(r *R, c c19mCase) {
	e := newGem(r, c.Active, true, 9, nil)
	id := func(n int) gemID { return gemID{N: uint64(n)} }
	var vars []gemVar
	for i := 0; i < 4; i++ {
		vars = append(vars, gemVar{ID: id(101 + i), Data: i == 0 && c.Data, How: "value", Val: iA(fmt.Sprintf("value %d", i))})
	}
	ce := id(7)
	m := &c19Model{vars: registerVars(r, e.g, vars), events: map[string]gemID{ce.key(): ce}, reps: map[string]c19Rep{}, links: map[string]*c19Evt{}}
	ev, err := gem.NewCollectionEvent(7, "event")
	mustOK(err)
	if err := e.g.RegisterCollectionEvent(ev); err != nil {
		r.Fatalf("RegisterCollectionEvent: %v", err)
	}
	if !e.up() {
		return
	}
	u := func(n int) Item { return id(n).wire() }
	vids := func(ns []int) (a []Item) {
		for _, n := range ns {
			a = append(a, u(101+n))
		}
		return
	}
	ack := func(f int, body Item, want int) bool {
		it, ok := e.askItem(2, f, body)
		if !ok {
			return false
		}
		if !it.same(iB(byte(want))) {
			r.Failf("S2F%d %v was acknowledged with %v, want %d", f, body, it, want)
			return false
		}
		return true
	}
	define := func(rep int, vs []Item) bool {
		return ack(33, iL(iU(4, 1), iL(iL(u(201+rep), iL(vs...)))), m.define([]c19Link{{u(201 + rep), vs}}))
	}
	link := func(reps []Item) bool {
		return ack(35, iL(iU(4, 1), iL(iL(u(7), iL(reps...)))), m.link([]c19Link{{u(7), reps}}))
	}
	for i, vs := range c.Reps {
		if !define(i, vids(vs)) {
			return
		}
	}
	var reps []Item
	for _, i := range c.Linked {
		reps = append(reps, u(201+i))
	}
	if !link(reps) {
		return
	}
	states := [][]Item{m.wantReport(ce.key())}
	during := false
	provider := func() (ast.ItemNode, error) {
		if during {
			during = false
			for _, op := range c.Ops {
				ok := true
				switch op.Op {
				case "define":
					ok = define(op.Rep, vids(op.Vids))
				case "delete":
					ok = define(op.Rep, nil)
				case "clear":
					ok = ack(33, iL(iU(4, 1), iL()), m.define(nil))
				case "link":
					ok = link([]Item{u(201 + op.Rep)})
				case "unlink":
					ok = link(nil)
				case "on", "off":
					ok = ack(37, iL(Item{K: "BOOLEAN", O: []bool{op.Op == "on"}}, iL(u(7))), m.enable(op.Op == "on", []Item{u(7)}))
				}
				if !ok {
					return nil, fmt.Errorf("no acknowledge")
				}
				states = append(states, m.wantReport(ce.key()))
			}
			r.Label("definitions changed while an event was being reported")
			r.NonTrivial()
		}
		return vars[0].Val.node(), nil
	}
	if c.Data {
		m.vars.dv[0].SetValueProvider(provider)
	} else {
		m.vars.sv[0].SetValueProvider(provider)
	}
	during = true
	if err := e.g.TriggerCollectionEvent(7); err != nil {
		r.Failf("TriggerCollectionEvent: %v", err)
	}
	if r.failed() {
		return
	}
	during = false
	if !e.peer.sync(r) {
		return
	}
	f, sent := e.peer.take(0, isF(6, 11))
	for _, want := range states {
		if (want != nil) == sent && (!sent || reportIs(f.Item, ce, want) == "") {
			// and from now on, it is the last of the states
			want = states[len(states)-1]
			if err := e.g.TriggerCollectionEvent(7); err != nil {
				r.Failf("TriggerCollectionEvent: %v", err)
			}
			e.peer.sync(r)
			f, sent = e.peer.take(0, isF(6, 11))
			if (want != nil) != sent {
				r.Failf("after the changes the event is sent: %v; want %v", sent, want)
			} else if sent {
				if why := reportIs(f.Item, ce, want); why != "" {
					r.Failf("after the changes the event is %v: %s", f.Item, why)
				}
			}
			return
		}
	}
	r.Failf("the event sent (%v) is %v; while it was collected it was, one after the other: %v", sent, f.Item, states)
}

func init() {
	register("C19", "midway", "an event with 1 to 3 reports, triggered, and up to 6 definitions, deletions, links and enablings of the host while its values are being collected (in the value provider of one of its variables); the message has to be what the event was at one of the moments between; non-trivial: definitions changed while the event was being reported",
		opts{quick: budget{300, 6}, thorough: budget{6000, 60}},
		func(t *rapid.T) c19mCase {
			c := c19mCase{Active: coin(t, "active"), Data: coin(t, "data")}
			for i, n := 0, rng(t, "reports", 1, 3); i < n; i++ {
				vs := rapid.SliceOfN(rapid.IntRange(0, 3), 1, 3).Draw(t, "vids")
				if i == 0 || oneIn(t, "slow", 3) {
					vs[0] = 0
				}
				c.Reps = append(c.Reps, vs)
				c.Linked = append(c.Linked, i)
			}
			if len(c.Linked) > 1 && coin(t, "swap") {
				c.Linked[0], c.Linked[1] = c.Linked[1], c.Linked[0]
			}
			for i, n := 0, rng(t, "ops", 1, 6); i < n; i++ {
				op := c19mOp{Op: pick(t, "op", "define", "define", "delete", "delete", "link", "link", "clear", "unlink", "on", "off"), Rep: rng(t, "rep", 0, 2)}
				if op.Op == "define" {
					op.Vids = rapid.SliceOfN(rapid.IntRange(0, 3), 1, 3).Draw(t, "vids")
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runC19Midway)
}
