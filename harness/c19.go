package main

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// C19: reports, links and collection events.

// apiAs is the identifier in one of the Go types an application may use.
func (d gemID) apiAs(k int) any {
	if d.A {
		return d.S
	}
	n := d.N
	switch {
	case k%8 == 1 && n < 1<<8:
		return uint8(n)
	case k%8 == 2 && n < 1<<16:
		return uint16(n)
	case k%8 == 3 && n < 1<<32:
		return uint32(n)
	case k%8 == 4 && n < 1<<7:
		return int8(n)
	case k%8 == 5 && n < 1<<31:
		return int32(n)
	case k%8 == 6 && n < 1<<63:
		return int64(n)
	case k%8 == 7 && n < 1<<63:
		return int(n)
	case k%16 == 8:
		return uint(n)
	case k%16 == 0 && n < 1<<15:
		return int16(n)
	}
	return n
}

// raw is the identifier as the application reads it.
func (d gemID) raw() any {
	if d.A {
		return d.S
	}
	return d.N
}

// gemVar is a status or data variable of the equipment and what it yields.
type gemVar struct {
	ID   gemID
	K    int  // Go type of the identifier
	Data bool // a data variable
	Name string
	Unit string
	How  string // value, provider, none, fail, nothing, late (registered without value, set later)
	Val  Item
}

// gemVars are registered variables with their current values.
type gemVars struct {
	mu    sync.Mutex
	cur   map[int]Item
	vars  []gemVar
	sv    map[int]*gem.StatusVariable
	dv    map[int]*gem.DataVariable
	by    map[string]int // key -> index; status variables come before data variables
	taken map[string]bool
	order []int        // registered, in order
	prov  map[int]bool // a provider was set later
}

// registerVars registers variables; those whose identifier is taken have to be refused.
func registerVars(r *R, g *gem.GemHandler, vars []gemVar) *gemVars {
	v := newVars(vars)
	for i := range vars {
		v.register(r, g, i)
	}
	return v
}

func newVars(vars []gemVar) *gemVars {
	return &gemVars{cur: map[int]Item{}, vars: vars, sv: map[int]*gem.StatusVariable{}, dv: map[int]*gem.DataVariable{}, by: map[string]int{}, taken: map[string]bool{}, prov: map[int]bool{}}
}

// register registers variable i.
func (v *gemVars) register(r *R, g *gem.GemHandler, i int) {
	x := v.vars[i]
	get := func() (ast.ItemNode, error) {
		switch x.How {
		case "fail":
			return nil, errors.New("no value")
		case "nothing":
			return nil, nil
		}
		v.mu.Lock()
		defer v.mu.Unlock()
		return v.cur[i].node(), nil
	}
	var err error
	if x.Data {
		var o []gem.DataVariableOption
		if x.How == "value" {
			o = append(o, gem.WithDataValue(x.Val.node()))
		} else if x.How == "provider" || x.How == "fail" || x.How == "nothing" {
			o = append(o, gem.WithDataValueProvider(get))
		}
		d, e := gem.NewDataVariable(x.ID.apiAs(x.K), x.name(i), o...)
		mustOK(e)
		v.dv[i] = d
		err = g.RegisterDataVariable(d)
	} else {
		var o []gem.StatusVariableOption
		if x.How == "value" {
			o = append(o, gem.WithStatusValue(x.Val.node()))
		} else if x.How == "provider" || x.How == "fail" || x.How == "nothing" {
			o = append(o, gem.WithStatusValueProvider(get))
		}
		d, e := gem.NewStatusVariable(x.ID.apiAs(x.K), x.name(i), x.Unit, o...)
		mustOK(e)
		v.sv[i] = d
		err = g.RegisterStatusVariable(d)
	}
	v.mu.Lock()
	if x.How == "value" || x.How == "provider" {
		v.cur[i] = x.Val
	} else {
		v.cur[i] = iL()
	}
	v.mu.Unlock()
	k := fmt.Sprint(x.Data, x.ID.key())
	if v.taken[k] != (err != nil) {
		r.Failf("registration of variable %d (%+v) ended with the error %v, identifier in use: %v", i, x, err, v.taken[k])
	}
	if v.taken[k] {
		return
	}
	v.taken[k] = true
	v.order = append(v.order, i)
	if j, ok := v.by[x.ID.key()]; !ok || (v.vars[j].Data && !x.Data) {
		v.by[x.ID.key()] = i
	}
}

func (x gemVar) name(i int) string {
	if x.Name != "" {
		return x.Name
	}
	return fmt.Sprintf("V%d", i)
}

// set gives variable i a new value.
func (v *gemVars) set(i int, it Item) {
	switch v.vars[i].How {
	case "fail", "nothing":
		return
	}
	v.mu.Lock()
	v.cur[i] = it
	v.mu.Unlock()
	if v.vars[i].How == "provider" {
		return
	}
	get := func() (ast.ItemNode, error) {
		v.mu.Lock()
		defer v.mu.Unlock()
		return v.cur[i].node(), nil
	}
	value := it.node()
	how := (i + len(it.enc())) % 4
	if how == 0 {
		// from now on a provider yields the value, whatever value is set
		if v.vars[i].Data {
			v.dv[i].SetValueProvider(get)
		} else {
			v.sv[i].SetValueProvider(get)
		}
		v.prov[i] = true
	}
	if how == 1 && v.prov[i] {
		if v.vars[i].Data {
			v.dv[i].SetValueProvider(nil)
		} else {
			v.sv[i].SetValueProvider(nil)
		}
		v.prov[i] = false
	}
	if v.prov[i] {
		value = iA("not this one").node()
	}
	if v.vars[i].Data {
		v.dv[i].SetValue(value)
	} else {
		v.sv[i].SetValue(value)
	}
}

func genVars(t *rapid.T, n int) (a []gemVar) {
	for i, k := 0, rng(t, "vars", 1, n); i < k; i++ {
		a = append(a, gemVar{ID: genGemID(t, 5), K: rng(t, "idtype", 0, 15), Data: coin(t, "data"), Val: genItem(t, 2, false),
			How: pick(t, "how", "value", "value", "provider", "provider", "none", "fail", "nothing", "late")})
	}
	return a
}

type c19Link struct {
	ID  Item
	Ids []Item
}

type c19Op struct {
	Op     string // define, link, enable, trigger, burst, report, set, bad
	F      int    // bad: function of stream 2
	DataID Item
	Defs   []c19Link
	CEED   Item
	IDs    []Item
	Keys   []gemID
	K      int
	Var    int
	Val    Item
	Body   Item
}

type c19Case struct {
	Active bool
	Vars   []gemVar
	Events []gemID
	Ops    []c19Op
}

type c19Rep struct {
	id   gemID
	vids []string
}

type c19Evt struct {
	reps []string
	on   bool
}

type c19Model struct {
	vars   *gemVars
	events map[string]gemID
	reps   map[string]c19Rep
	links  map[string]*c19Evt
}

func mustID(it Item) gemID {
	d, ok := idOf(it)
	if !ok {
		panic("harness: not an identifier")
	}
	return d
}

func (m *c19Model) define(defs []c19Link) int {
	if len(defs) == 0 {
		m.reps, m.links = map[string]c19Rep{}, map[string]*c19Evt{}
		return 0
	}
	for _, d := range defs {
		if _, ok := m.reps[mustID(d.ID).key()]; ok && len(d.Ids) > 0 {
			return 3
		}
	}
	for _, d := range defs {
		for _, v := range d.Ids {
			if _, ok := m.vars.by[mustID(v).key()]; !ok {
				return 4
			}
		}
	}
	for _, d := range defs {
		k := mustID(d.ID).key()
		if len(d.Ids) > 0 {
			rep := c19Rep{id: mustID(d.ID)}
			for _, v := range d.Ids {
				rep.vids = append(rep.vids, mustID(v).key())
			}
			m.reps[k] = rep
			continue
		}
		delete(m.reps, k)
		for ce, l := range m.links {
			var keep []string
			for _, x := range l.reps {
				if x != k {
					keep = append(keep, x)
				}
			}
			if l.reps = keep; len(keep) == 0 {
				delete(m.links, ce)
			}
		}
	}
	return 0
}

func (m *c19Model) link(links []c19Link) int {
	for _, l := range links {
		ce := mustID(l.ID).key()
		if _, ok := m.events[ce]; !ok {
			return 4
		}
		for _, x := range l.Ids {
			k := mustID(x).key()
			if _, ok := m.reps[k]; !ok {
				return 5
			}
			if e := m.links[ce]; e != nil {
				for _, y := range e.reps {
					if y == k {
						return 3
					}
				}
			}
		}
	}
	for _, l := range links {
		ce := mustID(l.ID).key()
		if len(l.Ids) == 0 {
			delete(m.links, ce)
			continue
		}
		e := m.links[ce]
		if e == nil {
			e = &c19Evt{on: true}
			m.links[ce] = e
		}
		for _, x := range l.Ids {
			e.reps = append(e.reps, mustID(x).key())
		}
	}
	return 0
}

func (m *c19Model) enable(on bool, ids []Item) int {
	if len(ids) == 0 {
		for _, l := range m.links {
			l.on = on
		}
		return 0
	}
	for _, x := range ids {
		if m.links[mustID(x).key()] == nil {
			return 1
		}
	}
	for _, x := range ids {
		m.links[mustID(x).key()].on = on
	}
	return 0
}

// wantReport is what the report list of the event has to be; nil: no message.
func (m *c19Model) wantReport(ce string) []Item {
	l := m.links[ce]
	if l == nil || !l.on {
		return nil
	}
	var a []Item
	for _, k := range l.reps {
		vals := iL()
		for _, v := range m.reps[k].vids {
			vals.L = append(vals.L, m.vars.cur[m.vars.by[v]])
		}
		a = append(a, iL(m.reps[k].id.wire(), vals))
	}
	return a
}

// reportIs says why it is not the message body for the event ("" if it is).
func reportIs(it Item, ce gemID, want []Item) string {
	if it.K != "L" || len(it.L) != 3 || it.L[2].K != "L" {
		return "it is not a list of DATAID, CEID and reports"
	}
	if _, ok := idOf(it.L[0]); !ok {
		return "DATAID is not a number"
	}
	if !sameID(it.L[1], ce) {
		return "CEID is wrong"
	}
	if len(it.L[2].L) != len(want) {
		return fmt.Sprintf("it has %d reports, want %d", len(it.L[2].L), len(want))
	}
	for i, w := range want {
		g := it.L[2].L[i]
		d, _ := idOf(w.L[0])
		if g.K != "L" || len(g.L) != 2 || !sameID(g.L[0], d) {
			return fmt.Sprintf("report %d is %v, want %v", i, g, w)
		}
		if !g.L[1].same(w.L[1]) {
			return fmt.Sprintf("the values of report %d are %v, want %v", i, g.L[1], w.L[1])
		}
	}
	return ""
}

func isF(s, f int) func(rxFrame) bool {
	return func(x rxFrame) bool { return x.SType == 0 && x.S() == s && x.F() == f }
}

func runC19(r *R, c c19Case) {
	e := newGem(r, c.Active, true, 9, nil)
	m := &c19Model{vars: registerVars(r, e.g, c.Vars), events: map[string]gemID{}, reps: map[string]c19Rep{}, links: map[string]*c19Evt{}}
	for i, d := range c.Events {
		ce, err := gem.NewCollectionEvent(d.apiAs(i), fmt.Sprintf("CE%d", i))
		mustOK(err)
		_, dup := m.events[d.key()]
		if err := e.g.RegisterCollectionEvent(ce); dup != (err != nil) {
			r.Failf("registration of event %s ended with the error %v, identifier in use: %v", d.key(), err, dup)
		}
		m.events[d.key()] = d
	}
	if !e.up() {
		return
	}
	sent := 0 // S6F11 due so far
	refused, reported := false, false
	for i, op := range c.Ops {
		when := fmt.Sprintf("op %d (%s)", i, op.Op)
		ack := func(f int, body Item, want int) bool {
			it, ok := e.askItem(2, f, body)
			if !ok {
				return false
			}
			if !it.same(iB(byte(want))) {
				r.Failf("%s: S2F%d %v was acknowledged with %v, want %d; reports %v, links %v, variables %v, events %v", when, f, body, it, want, m.reps, m.show(), m.vars.by, m.events)
				return false
			}
			r.Label(fmt.Sprintf("S2F%d acknowledged with %d", f, want))
			if want != 0 {
				refused = true
			}
			return true
		}
		list := func(ls []c19Link) Item {
			b := iL()
			for _, d := range ls {
				b.L = append(b.L, iL(d.ID, iL(d.Ids...)))
			}
			if op.DataID.K == "" { // left out
				return b
			}
			return iL(op.DataID, b)
		}
		switch op.Op {
		case "define":
			if !ack(33, list(op.Defs), m.define(op.Defs)) {
				return
			}
		case "link":
			if !ack(35, list(op.Defs), m.link(op.Defs)) {
				return
			}
		case "enable":
			on := op.CEED.K == "B" && op.CEED.B[0] != 0 || op.CEED.K == "BOOLEAN" && op.CEED.O[0]
			if !ack(37, iL(op.CEED, iL(op.IDs...)), m.enable(on, op.IDs)) {
				return
			}
		case "bad":
			want := 2
			if op.F == 37 {
				want = 1
			}
			if !ack(op.F, op.Body, want) {
				return
			}
		case "set":
			m.vars.set(op.Var%len(c.Vars), op.Val)
		case "badtrigger":
			for _, bad := range []any{-1, 1.5, nil, "\u00e9", []int{1}, true} {
				if err := e.g.TriggerCollectionEvent(append([]any{bad}, keysAPI(op.Keys, op.K)...)...); err == nil {
					r.Failf("%s: TriggerCollectionEvent accepted the identifier %v", when, bad)
				}
			}
			if err := e.g.TriggerCollectionEvent(); err == nil {
				r.Failf("%s: TriggerCollectionEvent accepted an empty list", when)
			}
		case "trigger", "burst":
			n := 1
			if op.Op == "burst" {
				n = 1 + op.K%5
			}
			var wg sync.WaitGroup
			for j := 0; j < n; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if err := e.g.TriggerCollectionEvent(keysAPI(op.Keys, op.K)...); err != nil {
						r.Failf("%s: TriggerCollectionEvent(%v): %v", when, op.Keys, err)
					}
				}()
			}
			wg.Wait()
			due := map[string]int{}
			var order []gemID
			wants := map[string][]Item{}
			for _, k := range op.Keys {
				if w := m.wantReport(k.key()); w != nil {
					wants[k.key()] = w
					due[k.key()] += n
					order = append(order, k)
					sent += n
				} else {
					r.Label("trigger of an event that is not linked and enabled")
				}
			}
			if op.Op == "trigger" && op.K%2 == 0 {
				// what changes after the trigger does not matter
				m.vars.set(op.Var%len(c.Vars), op.Val)
			}
			for len(due) > 0 {
				f, ok := e.peer.take(netWait, isF(6, 11))
				if !ok {
					r.Slowf("%s: S6F11 still due for %v %v after the events %v were triggered (links %v)", when, due, netWait, op.Keys, m.show())
					return
				}
				if f.Session != 9 {
					r.Failf("%s: S6F11 has the session id %d", when, f.Session)
				}
				var ce gemID
				if f.Item.K == "L" && len(f.Item.L) == 3 {
					ce, _ = idOf(f.Item.L[1])
				}
				if due[ce.key()] == 0 {
					r.Failf("%s: %v, which is not due (due are %v)", when, f.Item, due)
					return
				}
				if n == 1 {
					if order[0] != ce {
						r.Failf("%s: S6F11 for %s came before that for %s, triggered earlier", when, ce.key(), order[0].key())
						return
					}
					order = order[1:]
				}
				if due[ce.key()]--; due[ce.key()] == 0 {
					delete(due, ce.key())
				}
				if why := reportIs(f.Item, ce, wants[ce.key()]); why != "" {
					r.Failf("%s: S6F11 for %s is %v: %s", when, ce.key(), f.Item, why)
					return
				}
				reported = true
				r.Label("S6F11 as due")
			}
		}
		// the definitions as S6F15 shows them
		for k, d := range m.events {
			req := d.as([]string{"U4", "U8", "I8", "U1", "I2"}[(i+op.K)%5])
			if (i+op.K)%3 == 0 {
				req = iL(req)
			}
			it, ok := e.askItem(6, 15, req)
			if !ok {
				return
			}
			want := m.wantReport(k)
			if why := reportIs(it, d, want); why != "" {
				r.Failf("after %s the answer to S6F15 for %s is %v: %s (reports %v, links %v)", when, k, it, why, m.reps, m.show())
				return
			}
			if want != nil {
				r.Label("S6F16 with reports")
			}
		}
		for _, unknown := range []Item{iU(4, 987654), iA("nobody"), iF(4, 1), iI(2, -1), iU(4), iL(), Item{}} {
			if op.Op != "report" {
				break
			}
			a, ok := e.ask(6, 15, unknown)
			if !ok {
				return
			}
			if a.F() == 16 && a.Item.K == "L" && len(a.Item.L) == 3 && len(a.Item.L[2].L) != 0 {
				r.Failf("S6F15 %v was answered with reports: %v", unknown, a.Item)
			}
		}
	}
	time.Sleep(3 * time.Millisecond)
	if !e.peer.sync(r) {
		return
	}
	n := 0
	e.peer.mu.Lock()
	for _, f := range e.peer.all {
		if isF(6, 11)(f) {
			n++
		}
	}
	e.peer.mu.Unlock()
	if n != sent {
		r.Failf("%d S6F11 were sent in all, %d were due", n, sent)
	}
	e.peer.check(r)
	if reported && refused {
		r.NonTrivial()
	}
}

func (m *c19Model) show() map[string]string {
	s := map[string]string{}
	for k, l := range m.links {
		s[k] = fmt.Sprintf("%v enabled %v", l.reps, l.on)
	}
	return s
}

func keysAPI(ks []gemID, k int) (a []any) {
	for i, d := range ks {
		a = append(a, d.apiAs(k+i))
	}
	return a
}

// badBody damages a well-formed body of S2F33, S2F35 or S2F37 so that it is
// certainly malformed.
func badBody(t *rapid.T, f int) Item {
	badID := func() Item {
		return pick(t, "badid", iF(4, 1), iI(4, -1), iU(4), iA("x").wrap(), iB(1), iO(true), iL())
	}
	ok := func() Item { return genIDItem(t, genGemID(t, 4)) }
	if f == 37 {
		return pick(t, "bad", Item{}, iA("x"), iL(), iL(iO(true)), iL(iA("1"), iL()), iL(iO(), iL()), iL(iB(), iL()), iL(iU(1, 1), iL()), iL(iO(true), ok()), iL(iO(false), iL(ok(), badID())), iL(iL(), iL()))
	}
	return pick(t, "bad", Item{}, iA("x"), iU(4, 1), iL(iU(1, 1)), iL(iU(1, 1), iA("x")), iL(iU(1, 1), iL(ok())), iL(iU(1, 1), iL(iL())), iL(iU(1, 1), iL(iL(ok()))),
		iL(iU(1, 1), iL(iL(ok(), ok()))), iL(iU(1, 1), iL(iL(badID(), iL(ok())))), iL(iU(1, 1), iL(iL(ok(), iL(ok(), badID())))), iL(iU(1, 1), iL(iL(ok(), iL()), iL(badID(), iL()))))
}

func (it Item) wrap() Item { return iL(it) }

func init() {
	shards("C19", 16, 16)
	register("C19", "equipment", "equipment with up to 8 variables of any value and up to 5 events, up to 25 S2F33, S2F35, S2F37 (well-formed and malformed), triggers (also concurrent), value changes and S6F15; acknowledge codes, every S6F11 and the definitions as S6F15 shows them after each operation against a model; non-trivial: an S6F11 was due and a message was refused",
		opts{quick: budget{800, 40}, thorough: budget{20000, 500}},
		func(t *rapid.T) c19Case {
			c := c19Case{Active: coin(t, "active"), Vars: genVars(t, 8)}
			for i, n := 0, rng(t, "events", 1, 5); i < n; i++ {
				c.Events = append(c.Events, genGemID(t, 3))
			}
			// most operations concern what exists
			rptOf := func() gemID { return pick(t, "rpt", idN(1), idN(2), idN(3), idA("A"), genGemID(t, 5)) }
			ceOf := func() gemID {
				if oneIn(t, "anyce", 8) {
					return genGemID(t, 5)
				}
				return pick(t, "ce", c.Events...)
			}
			vidOf := func() gemID {
				if oneIn(t, "anyvid", 12) {
					return genGemID(t, 5)
				}
				return c.Vars[rng(t, "vid", 0, len(c.Vars)-1)].ID
			}
			links := func(id, sub func() gemID, min, max int, dups bool) (a []c19Link) {
				seen := map[string]bool{}
				for i, n := 0, rng(t, "links", 0, 3); i < n; i++ {
					d := id()
					if seen[d.key()] {
						continue
					}
					seen[d.key()] = true
					l := c19Link{ID: genIDItem(t, d)}
					in := map[string]bool{}
					if !oneIn(t, "delete", 5) {
						for j, k := 0, rng(t, "ids", min, max); j < k; j++ {
							x := sub()
							if in[x.key()] && !dups {
								continue
							}
							in[x.key()] = true
							l.Ids = append(l.Ids, genIDItem(t, x))
						}
					}
					a = append(a, l)
				}
				return a
			}
			for i, n := 0, rng(t, "ops", 3, 25); i < n; i++ {
				if oneIn(t, "again", 10) {
					// one report of several events is deleted and defined again
					d, v := rptOf(), vidOf()
					make := []c19Link{{ID: genIDItem(t, d), Ids: []Item{genIDItem(t, v)}}}
					var to []c19Link
					seen := map[string]bool{}
					for _, ce := range c.Events {
						if !seen[ce.key()] {
							to = append(to, c19Link{ID: genIDItem(t, ce), Ids: []Item{genIDItem(t, d)}})
						}
						seen[ce.key()] = true
					}
					gone := []c19Link{{ID: genIDItem(t, d)}}
					if oneIn(t, "all", 4) {
						gone = nil
					}
					for j, l := range [][]c19Link{make, to, gone, make} {
						c.Ops = append(c.Ops, c19Op{Op: []string{"define", "link", "define", "define"}[j], DataID: iU(1, 1), Defs: l})
					}
				}
				op := c19Op{Op: pick(t, "op", "define", "define", "define", "link", "link", "link", "link", "enable", "enable", "trigger", "trigger", "trigger", "burst", "report", "set", "set", "bad", "badtrigger"), K: rng(t, "k", 0, 15)}
				op.DataID = pick(t, "dataid", iU(1, 1), iU(4, 77), iI(2, -3), iA("d"), iU(2), iB(9), Item{})
				switch op.Op {
				case "define":
					op.Defs = links(rptOf, vidOf, 1, 4, true)
					if len(op.Defs) == 0 && !oneIn(t, "clear", 3) {
						op.Defs = []c19Link{{ID: genIDItem(t, rptOf()), Ids: []Item{genIDItem(t, vidOf())}}}
					}
				case "link":
					op.Defs = links(ceOf, rptOf, 1, 3, false)
				case "enable":
					op.CEED = pick(t, "ceed", iO(true), iO(false), iO(false), iB(0), iB(1), iB(128))
					for j, k := 0, rng(t, "ids", 0, 3); j < k; j++ {
						op.IDs = append(op.IDs, genIDItem(t, ceOf()))
					}
				case "trigger", "burst":
					op.Var, op.Val = rng(t, "var", 0, 7), genItem(t, 2, false)
					for j, k := 0, rng(t, "ids", 1, 3); j < k; j++ {
						op.Keys = append(op.Keys, ceOf())
					}
				case "set":
					op.Var, op.Val = rng(t, "var", 0, 7), genItem(t, 2, false)
				case "bad":
					op.F = pick(t, "f", 33, 35, 37)
					op.Body = badBody(t, op.F)
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runC19)
	register("C19", "host", "a GEM host whose peer sends S6F11 and answers DefineReports, LinkEventReports, EnableEventReports and RequestCollectionEventReport: what the application is told against what was sent, and the messages sent against the arguments; non-trivial: both directions with content",
		opts{quick: budget{400, 12}, thorough: budget{20000, 200}},
		func(t *rapid.T) c19HostCase {
			c := c19HostCase{Active: coin(t, "active")}
			for i, n := 0, rng(t, "ops", 1, 20); i < n; i++ {
				op := c19HostOp{Op: pick(t, "op", "event", "event", "event", "badevent", "define", "link", "enable", "request", "invalid"), K: rng(t, "k", 0, 15), W: coin(t, "w"), Code: rng(t, "code", 0, 255)}
				if coin(t, "codezero") {
					op.Code = 0
				}
				switch op.Op {
				case "event", "request":
					op.Key = genGemID(t, 5)
					op.Body = iL(pick(t, "dataid", iU(1, 7), iU(4, 70000), iU(8, 1<<40), iI(4, 9), iI(2, -3), iB(5), iU(2, 0)), genIDItem(t, op.Key), iL())
					for j, k := 0, rng(t, "reps", 0, 3); j < k; j++ {
						vals := iL()
						for x, y := 0, rng(t, "vals", 0, 3); x < y; x++ {
							vals.L = append(vals.L, genItem(t, 2, false))
						}
						op.Body.L[2].L = append(op.Body.L[2].L, iL(genIDItem(t, genGemID(t, 5)), vals))
					}
				case "badevent":
					op.Body = pick(t, "bad", Item{}, iA("x"), iL(), iL(iU(1, 1), iU(4, 1)), iL(iU(1, 1), iF(4, 1), iL()), iL(iU(1, 1), iU(4, 1), iU(4, 1)), iL(iU(1, 1), iU(4, 1), iL(iU(4, 1))), iL(iU(1, 1), iU(4, 1), iL(iL(iU(4, 1)))), iL(iU(1, 1), iU(4, 1), iL(iL(iU(4, 1), iU(4, 1)))), iL(iU(1, 1), iU(4, 1), iL(iL(iF(4, 1), iL()))), iL(iU(1, 1), iI(4, -1), iL()))
				default:
					op.Key = genGemID(t, 5)
					for j, k := 0, rng(t, "defs", 0, 3); j < k; j++ {
						d := c19HostDef{ID: genGemID(t, 5)}
						for x, y := 0, rng(t, "ids", 0, 3); x < y; x++ {
							d.Ids = append(d.Ids, genGemID(t, 5))
						}
						op.Defs = append(op.Defs, d)
					}
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runC19Host)
}

type c19HostDef struct {
	ID  gemID
	Ids []gemID
}

type c19HostOp struct {
	Op   string
	K    int
	W    bool
	Code int
	Key  gemID
	Body Item
	Defs []c19HostDef
}

type c19HostCase struct {
	Active bool
	Ops    []c19HostOp
}

// eventIs says why the application's view differs from the message body.
func eventIs(v gem.EventReport, it Item) string {
	d, _ := idOf(it.L[1])
	if v.CEID != d.raw() {
		return fmt.Sprintf("CEID is %v (%T), want %v", v.CEID, v.CEID, d.raw())
	}
	want := 0
	switch x := it.L[0]; x.K[0] {
	case 'B':
		want = int(x.B[0])
	case 'U':
		want = int(x.U[0])
	case 'I':
		want = int(x.I[0])
	}
	if v.DATAID != want {
		return fmt.Sprintf("DATAID is %d, want %d", v.DATAID, want)
	}
	if len(v.Reports) != len(it.L[2].L) {
		return fmt.Sprintf("%d reports, want %d", len(v.Reports), len(it.L[2].L))
	}
	for i, w := range it.L[2].L {
		g := v.Reports[i]
		d, _ := idOf(w.L[0])
		if g.RPTID != d.raw() || len(g.Values) != len(w.L[1].L) {
			return fmt.Sprintf("report %d is %v with %d values, want %v with %d", i, g.RPTID, len(g.Values), d.raw(), len(w.L[1].L))
		}
		for j, x := range w.L[1].L {
			if !fromNode(g.Values[j]).same(x) {
				return fmt.Sprintf("value %d of report %d is %v, want %v", j, i, fromNode(g.Values[j]), x)
			}
		}
	}
	return ""
}

// hostExchange runs a call of the host's interface while the peer takes the
// request, hands it to check and answers it.
func hostExchange(r *R, e *gemEnd, what string, s, f int, call func(), check func(Item) string, reply Item) bool {
	done := make(chan struct{})
	go func() { defer close(done); call() }()
	q, ok := e.peer.take(netWait, isF(s, f))
	if !ok {
		r.Slowf("%s: no S%dF%d in %v", what, s, f, netWait)
		return false
	}
	if !q.W() || q.Session != e.session {
		r.Failf("%s was sent as %v", what, q.view())
		return false
	}
	if why := check(q.Item); why != "" {
		r.Failf("%s was sent as S%dF%d %v: %s", what, s, f, q.Item, why)
		return false
	}
	e.peer.send(dataFrame(e.session, s, f+1, false, q.Sys, reply))
	select {
	case <-done:
		return true
	case <-time.After(netWait):
		r.Slowf("%s had not returned %v after the reply", what, netWait)
		return false
	}
}

func idsAre(it Item, ids []gemID) bool {
	if it.K != "L" || len(it.L) != len(ids) {
		return false
	}
	for i, d := range ids {
		if !sameID(it.L[i], d) {
			return false
		}
	}
	return true
}

func defsAre(it Item, defs []c19HostDef) string {
	if it.K != "L" || len(it.L) != 2 || it.L[1].K != "L" || len(it.L[1].L) != len(defs) {
		return fmt.Sprintf("it is not DATAID and a list of %d", len(defs))
	}
	for i, d := range defs {
		x := it.L[1].L[i]
		if x.K != "L" || len(x.L) != 2 || !sameID(x.L[0], d.ID) || !idsAre(x.L[1], d.Ids) {
			return fmt.Sprintf("entry %d should be %v", i, d)
		}
	}
	return ""
}

func runC19Host(r *R, c c19HostCase) {
	e := newGem(r, c.Active, false, 3, nil)
	var mu sync.Mutex
	var got []gem.EventReport
	e.g.Events().EventReportReceived.AddCallback(func(d map[string]any) {
		mu.Lock()
		got = append(got, d["report"].(gem.EventReport))
		mu.Unlock()
	})
	if !e.up() {
		return
	}
	due, events, calls := 0, false, false
	for i, op := range c.Ops {
		when := fmt.Sprintf("op %d (%s)", i, op.Op)
		ackBody := iB(byte(op.Code))
		if op.K%4 == 0 {
			ackBody = iL(iB(byte(op.Code)))
		}
		ackIs := func(code int, err error) bool {
			if err != nil || code != op.Code {
				r.Failf("%s: the acknowledge code returned is %d (error %v), want %d", when, code, err, op.Code)
			}
			calls = true
			r.Label(op.Op)
			return true
		}
		switch op.Op {
		case "event", "badevent":
			if op.W {
				it, ok := e.askItem(6, 11, op.Body)
				if !ok {
					return
				}
				if l := leaves(it); len(l) != 1 || l[0].K != "B" || len(l[0].B) != 1 || (l[0].B[0] == 0) != (op.Op == "event") {
					r.Failf("%s: S6F11 %v was acknowledged with %v", when, op.Body, it)
				}
			} else {
				e.peer.send(dataFrame(3, 6, 11, false, e.peer.nextSys(), op.Body))
				if !e.peer.sync(r) {
					return
				}
			}
			mu.Lock()
			n := len(got)
			var last gem.EventReport
			if n > 0 {
				last = got[n-1]
			}
			mu.Unlock()
			if op.Op == "event" {
				due++
			}
			if n != due {
				r.Failf("%s: EventReportReceived was fired %d times in all, want %d", when, n, due)
				return
			}
			if op.Op == "event" {
				if why := eventIs(last, op.Body); why != "" {
					r.Failf("%s: S6F11 %v was reported as %+v: %s", when, op.Body, last, why)
				}
				events = events || len(op.Body.L[2].L) > 0
			}
			r.Label(op.Op)
		case "define":
			var a []gem.ReportDefinitionRequest
			for _, d := range op.Defs {
				a = append(a, gem.ReportDefinitionRequest{ReportID: d.ID.apiAs(op.K), VIDs: keysAPI(d.Ids, op.K)})
			}
			var code int
			var err error
			if !hostExchange(r, e, when, 2, 33, func() { code, err = e.g.DefineReports(a...) }, func(it Item) string { return defsAre(it, op.Defs) }, ackBody) || !ackIs(code, err) {
				return
			}
		case "link":
			var a []gem.EventReportLinkRequest
			for _, d := range op.Defs {
				a = append(a, gem.EventReportLinkRequest{CEID: d.ID.apiAs(op.K), ReportIDs: keysAPI(d.Ids, op.K)})
			}
			var code int
			var err error
			if !hostExchange(r, e, when, 2, 35, func() { code, err = e.g.LinkEventReports(a...) }, func(it Item) string { return defsAre(it, op.Defs) }, ackBody) || !ackIs(code, err) {
				return
			}
		case "enable":
			var ids []gemID
			for _, d := range op.Defs {
				ids = append(ids, d.ID)
			}
			var code int
			var err error
			if !hostExchange(r, e, when, 2, 37, func() { code, err = e.g.EnableEventReports(op.W, keysAPI(ids, op.K)...) }, func(it Item) string {
				if it.K != "L" || len(it.L) != 2 || !it.L[0].same(iO(op.W)) || !idsAre(it.L[1], ids) {
					return fmt.Sprintf("want %v and %v", op.W, ids)
				}
				return ""
			}, ackBody) || !ackIs(code, err) {
				return
			}
		case "request":
			var rep gem.EventReport
			var err error
			if !hostExchange(r, e, when, 6, 15, func() { rep, err = e.g.RequestCollectionEventReport(op.Key.apiAs(op.K)) }, func(it Item) string {
				if !sameID(it, op.Key) {
					return "want " + op.Key.key()
				}
				return ""
			}, op.Body) {
				return
			}
			if err != nil {
				r.Failf("%s: S6F16 %v was returned as the error %v", when, op.Body, err)
			} else if why := eventIs(rep, op.Body); why != "" {
				r.Failf("%s: S6F16 %v was returned as %+v: %s", when, op.Body, rep, why)
			}
			calls = true
			r.Label("request")
		case "invalid":
			bad := []any{-1, 1.5, nil, "\u00e9", []int{1}, true}[op.K%6]
			for n, err := range map[string]error{
				"DefineReports": func() error { _, e := e.g.DefineReports(gem.ReportDefinitionRequest{ReportID: bad}); return e }(),
				"DefineReports VID": func() error {
					_, e := e.g.DefineReports(gem.ReportDefinitionRequest{ReportID: 1, VIDs: []any{1, bad}})
					return e
				}(),
				"LinkEventReports": func() error { _, e := e.g.LinkEventReports(gem.EventReportLinkRequest{CEID: bad}); return e }(),
				"LinkEventReports RPTID": func() error {
					_, e := e.g.LinkEventReports(gem.EventReportLinkRequest{CEID: 1, ReportIDs: []any{bad}})
					return e
				}(),
				"EnableEventReports":           func() error { _, e := e.g.EnableEventReports(true, bad); return e }(),
				"RequestCollectionEventReport": func() error { _, e := e.g.RequestCollectionEventReport(bad); return e }(),
			} {
				if err == nil {
					r.Failf("%s: %s accepted the identifier %v", when, n, bad)
				}
			}
			if !e.peer.sync(r) {
				return
			}
			for _, f := range e.peer.rest() {
				if f.SType == 0 && f.S() != 1 {
					r.Failf("%s: %v was sent for a call that failed", when, f.view())
				}
			}
		}
	}
	e.peer.check(r)
	if events && calls {
		r.NonTrivial()
	}
}
