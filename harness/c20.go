package main

import (
	"errors"
	"fmt"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// C20: status variables and equipment constants.

// sentText is descriptive text as a message carries it.
func sentText(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c > 127 {
			c = '?'
		}
		b.WriteRune(c)
	}
	return b.String()
}

// genText draws descriptive text, at times with characters beyond ASCII.
func genLabel(t *rapid.T, max int) string {
	if oneIn(t, "beyond", 8) {
		return pick(t, "text", "°C", "µm", "Temperatur außen", "温度", "k\u0080", "Ω\"x\"")
	}
	return genASCII(t, max)
}

// c20EC is an equipment constant.
type c20EC struct {
	ID       gemID
	K        int
	Name     string
	Unit     string
	Min, Max *Item
	Def      Item
	How      string // value, provider, fail, nothing
	Updater  bool
	UpdRej   string // kind of item the updater refuses
	ValRej   string // kind of item the validator refuses ("": no validator)
}

type c20Up struct {
	ID  Item
	Val Item
	Bad *Item // in place of the pair
}

type c20Op struct {
	Op  string // values, info, ecvalues, ecinfo, set, badset, badlist, setvar, apply, newvar, newec
	IDs []Item
	Ups []c20Up
	F   int
	Var int
	Val Item
}

type c20Case struct {
	Active  bool
	Vars    []gemVar
	EarlyV  int
	ECs     []c20EC
	EarlyEC int
	Ops     []c20Op
}

type c20Model struct {
	c     c20Case
	mu    sync.Mutex
	vars  *gemVars
	ecs   map[int]*gem.EquipmentConstant
	cur   map[int]Item // value of a constant
	order []int
	by    map[string]int
	seen  []string // what the updaters were given
}

func (m *c20Model) registerEC(r *R, g *gem.GemHandler, i int) {
	x := m.c.ECs[i]
	var o []gem.EquipmentConstantOption
	if x.Unit != "" {
		o = append(o, gem.WithEquipmentConstantUnit(x.Unit))
	}
	if x.Min != nil {
		o = append(o, gem.WithEquipmentConstantMin(x.Min.node()))
	}
	if x.Max != nil {
		o = append(o, gem.WithEquipmentConstantMax(x.Max.node()))
	}
	m.cur[i] = x.Def
	switch x.How {
	case "provider":
		o = append(o, gem.WithEquipmentConstantValueProvider(func() (ast.ItemNode, error) {
			m.mu.Lock()
			defer m.mu.Unlock()
			return m.cur[i].node(), nil
		}))
	case "fail":
		o = append(o, gem.WithEquipmentConstantValueProvider(func() (ast.ItemNode, error) { return nil, errors.New("no value") }))
	case "nothing":
		o = append(o, gem.WithEquipmentConstantValueProvider(func() (ast.ItemNode, error) { return nil, nil }))
	}
	if x.Updater {
		o = append(o, gem.WithEquipmentConstantValueUpdater(func(n ast.ItemNode) error {
			it := fromNode(n)
			m.mu.Lock()
			defer m.mu.Unlock()
			m.seen = append(m.seen, fmt.Sprintf("%d: %v", i, it))
			if it.K == x.UpdRej {
				return errors.New("refused")
			}
			return nil
		}))
	}
	if x.ValRej != "" {
		o = append(o, gem.WithEquipmentConstantValidator(func(n ast.ItemNode) error {
			if fromNode(n).K == x.ValRej {
				return errors.New("invalid")
			}
			return nil
		}))
	}
	ec, err := gem.NewEquipmentConstant(x.ID.apiAs(x.K), x.Name, x.Def.node(), o...)
	mustOK(err)
	_, dup := m.by[x.ID.key()]
	if err := g.RegisterEquipmentConstant(ec); dup != (err != nil) {
		r.Failf("registration of constant %s ended with the error %v, identifier in use: %v", x.ID.key(), err, dup)
	}
	if !dup {
		m.by[x.ID.key()] = i
		m.order = append(m.order, i)
		m.ecs[i] = ec
	}
}

// value of constant i as it has to be reported.
func (m *c20Model) value(i int) Item {
	switch m.c.ECs[i].How {
	case "fail", "nothing":
		return iL()
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.cur[i]
}

// accept applies a value that passed validation; it says whether the updater
// took it, and what the updater is given.
func (m *c20Model) accept(i int, v Item) (ok bool, given string) {
	x := m.c.ECs[i]
	if x.Updater {
		given = fmt.Sprintf("%d: %v", i, v)
		if v.K == x.UpdRej {
			return false, given
		}
	}
	if x.How == "value" || x.Updater {
		m.mu.Lock()
		m.cur[i] = v
		m.mu.Unlock()
	}
	return true, given
}

func orEmpty(it *Item) Item {
	if it == nil {
		return iL()
	}
	return *it
}

func (m *c20Model) info(i int) Item {
	x := m.c.ECs[i]
	return iL(x.ID.wire(), iA(sentText(x.Name)), orEmpty(x.Min), orEmpty(x.Max), x.Def, iA(sentText(x.Unit)))
}

// infoIs compares an entry of a description with the one due; numeric formats
// of the identifier are free.
func infoIs(got, want Item) bool {
	if got.K != "L" || len(got.L) != len(want.L) {
		return false
	}
	if d, ok := idOf(want.L[0]); ok {
		if !sameID(got.L[0], d) {
			return false
		}
	} else if !got.L[0].same(want.L[0]) {
		return false
	}
	for i := range want.L[1:] {
		if !got.L[i+1].same(want.L[i+1]) {
			return false
		}
	}
	return true
}

// want is the reply due to a request for the identifiers ids.
func (m *c20Model) want(what string, ids []Item) []Item {
	var a []Item
	one := func(i int) Item {
		switch what {
		case "values":
			return m.vars.cur[i]
		case "info":
			return iL(m.vars.vars[i].ID.wire(), iA(sentText(m.vars.vars[i].name(i))), iA(sentText(m.vars.vars[i].Unit)))
		case "ecvalues":
			return m.value(i)
		}
		return m.info(i)
	}
	by, order := m.vars.by, m.vars.order
	if strings.HasPrefix(what, "ec") {
		by, order = m.by, m.order
	}
	if len(ids) == 0 {
		for _, i := range order {
			a = append(a, one(i))
		}
		return a
	}
	for _, id := range ids {
		d, ok := idOf(id)
		if ok {
			if i, known := by[d.key()]; known {
				a = append(a, one(i))
				continue
			}
		}
		shown := iL()
		if ok {
			shown = d.wire()
		}
		switch what {
		case "values", "ecvalues":
			a = append(a, iL())
		case "info":
			a = append(a, iL(shown, iA(""), iA("")))
		default:
			a = append(a, iL(shown, iA(""), iL(), iL(), iL(), iA("")))
		}
	}
	return a
}

var c20SF = map[string][2]int{"values": {1, 3}, "info": {1, 11}, "ecvalues": {2, 13}, "ecinfo": {2, 29}}

func runC20(r *R, c c20Case) {
	e := newGem(r, c.Active, true, 12, nil)
	m := &c20Model{c: c, vars: newVars(c.Vars), ecs: map[int]*gem.EquipmentConstant{}, cur: map[int]Item{}, by: map[string]int{}}
	nv, ne := min(c.EarlyV, len(c.Vars)), min(c.EarlyEC, len(c.ECs))
	for i := 0; i < nv; i++ {
		m.vars.register(r, e.g, i)
	}
	for i := 0; i < ne; i++ {
		m.registerEC(r, e.g, i)
	}
	if !e.up() {
		return
	}
	known, changed, refused := false, false, false
	request := func(when, what string, ids []Item) bool {
		sf := c20SF[what]
		it, ok := e.askItem(sf[0], sf[1], iL(ids...))
		if !ok {
			return false
		}
		want := m.want(what, ids)
		if it.K != "L" || len(it.L) != len(want) {
			r.Failf("%s: S%dF%d %v was answered with %v, want %v", when, sf[0], sf[1], iL(ids...), it, want)
			return false
		}
		for i, w := range want {
			same := it.L[i].same(w)
			if what == "info" || what == "ecinfo" {
				same = infoIs(it.L[i], w)
			}
			if !same {
				r.Failf("%s: entry %d of the answer to S%dF%d %v is %v, want %v", when, i, sf[0], sf[1], iL(ids...), it.L[i], w)
				return false
			}
			if len(w.L) != 0 || w.K != "L" {
				known = true
			}
		}
		r.Label(what)
		return true
	}
	for i, op := range c.Ops {
		when := fmt.Sprintf("op %d (%s)", i, op.Op)
		switch op.Op {
		case "values", "info", "ecvalues", "ecinfo":
			if !request(when, op.Op, op.IDs) {
				return
			}
		case "badlist":
			// not a list of identifiers: answered, with an empty list
			sf := c20SF[pickOf(op.F, "values", "info", "ecvalues", "ecinfo")]
			it, ok := e.askItem(sf[0], sf[1], op.Val)
			if !ok {
				return
			}
			if it.K != "L" || op.Val.K != "" && len(it.L) != 0 {
				r.Failf("%s: S%dF%d %v was answered with %v", when, sf[0], sf[1], op.Val, it)
			}
		case "newvar":
			if nv < len(c.Vars) {
				m.vars.register(r, e.g, nv)
				nv++
			}
		case "newec":
			if ne < len(c.ECs) {
				m.registerEC(r, e.g, ne)
				ne++
			}
		case "setvar":
			if nv > 0 {
				m.vars.set(op.Var%nv, op.Val)
			}
		case "apply":
			// the equipment itself sets a constant
			if len(m.order) == 0 {
				break
			}
			j := m.order[op.Var%len(m.order)]
			x := c.ECs[j]
			m.seen = nil
			err := m.ecs[j].ApplyValue(op.Val.node())
			if op.Val.K == x.ValRej {
				if err == nil || len(m.seen) != 0 {
					r.Failf("%s: ApplyValue(%v) of %s, which its validator refuses, returned %v (updater called with %v)", when, op.Val, x.ID.key(), err, m.seen)
				}
				break
			}
			seen := m.seen
			ok, given := m.accept(j, op.Val)
			if ok != (err == nil) || strings.Join(seen, ";") != given {
				r.Failf("%s: ApplyValue(%v) of %s returned %v, the updater was given %v (want %v, %q)", when, op.Val, x.ID.key(), err, seen, ok, given)
			}
		case "badset":
			m.seen = nil
			it, ok := e.askItem(2, 15, op.Val)
			if !ok {
				return
			}
			if !it.same(iB(2)) || len(m.seen) > 0 {
				r.Failf("%s: S2F15 %v was acknowledged with %v (updaters called with %v)", when, op.Val, it, m.seen)
			}
		case "set":
			body := iL()
			codes := map[byte]bool{}
			for _, u := range op.Ups {
				if u.Bad != nil {
					body.L = append(body.L, *u.Bad)
					codes[2] = true
					continue
				}
				body.L = append(body.L, iL(u.ID, u.Val))
				if d, ok := idOf(u.ID); !ok {
					codes[2] = true
				} else if _, ok := m.by[d.key()]; !ok {
					codes[1] = true
				}
			}
			if len(codes) == 0 {
				for _, u := range op.Ups {
					if u.Val.K == c.ECs[m.by[mustID(u.ID).key()]].ValRej {
						codes[3] = true
					}
				}
			}
			var given []string
			if len(codes) == 0 {
				for _, u := range op.Ups {
					ok, g := m.accept(m.by[mustID(u.ID).key()], u.Val)
					if g != "" {
						given = append(given, g)
					}
					if !ok {
						codes[3] = true
						r.Label("refused by an updater")
						break
					}
					changed = true
				}
			}
			if len(codes) == 0 {
				codes[0] = true
			} else {
				refused = true
			}
			m.seen = nil
			it, ok := e.askItem(2, 15, body)
			if !ok {
				return
			}
			if it.K != "B" || len(it.B) != 1 || !codes[it.B[0]] {
				r.Failf("%s: S2F15 %v was acknowledged with %v, want one of %v (constants %v)", when, body, it, codes, m.by)
				return
			}
			if fmt.Sprint(given) != fmt.Sprint(m.seen) {
				r.Failf("%s: after S2F15 %v the updaters were given %v, want %v", when, body, m.seen, given)
				return
			}
			r.Label(fmt.Sprintf("S2F15 acknowledged with %d", it.B[0]))
		}
		// the state of everything
		if !request("after "+when, "ecvalues", nil) || !request("after "+when, "values", nil) {
			return
		}
		for _, j := range m.order {
			v, err := m.ecs[j].Value()
			switch c.ECs[j].How {
			case "value", "provider":
				if err != nil || !fromNode(v).same(m.cur[j]) {
					r.Failf("after %s Value() of constant %s is %v (%v), want %v", when, c.ECs[j].ID.key(), v, err, m.cur[j])
				}
			}
		}
	}
	e.peer.check(r)
	if known && (changed || refused) {
		r.NonTrivial()
	}
}

func pickOf[T any](k int, a ...T) T { return a[k%len(a)] }

// genIDRequest draws identifiers, mostly of what exists, at times invalid ones.
func genIDRequest(t *rapid.T, of func() gemID, max int) (a []Item) {
	for i, n := 0, rng(t, "ids", 1, max); i < n; i++ {
		switch {
		case oneIn(t, "badid", 12):
			a = append(a, pick(t, "bad", iF(4, 1), iI(4, -1), iU(4), iO(true), iL(), iL(iU(4, 1)), iB(1), iI(8)))
		case oneIn(t, "several", 15):
			a = append(a, iU(2, 1, 2))
		default:
			a = append(a, genIDItem(t, of()))
		}
	}
	return
}

func optItem(t *rapid.T, tag string) *Item {
	if coin(t, tag) {
		return nil
	}
	it := genItem(t, 1, false)
	return &it
}

func init() {
	shards("C20", 16, 16)
	register("C20", "equipment", "equipment with up to 8 status variables and 6 constants (values of any item, providers, failing providers, validators, updaters), registered before and during communication, up to 25 requests with identifiers in any format, S2F15 updates and local changes; every answer, every updater call and all values after each operation against a model; non-trivial: values were reported and a constant was changed or an update refused",
		opts{quick: budget{400, 22}, thorough: budget{20000, 400}},
		func(t *rapid.T) c20Case {
			c := c20Case{Active: coin(t, "active"), EarlyV: rng(t, "earlyv", 0, 8), EarlyEC: rng(t, "earlyec", 0, 6)}
			for i, n := 0, rng(t, "vars", 0, 8); i < n; i++ {
				c.Vars = append(c.Vars, gemVar{ID: genGemID(t, 6), K: rng(t, "idtype", 0, 15), Name: genLabel(t, 12), Unit: genLabel(t, 4), Val: genItem(t, 2, false),
					How: pick(t, "how", "value", "value", "provider", "provider", "none", "fail", "nothing", "late")})
			}
			for i, n := 0, rng(t, "ecs", 1, 6); i < n; i++ {
				c.ECs = append(c.ECs, c20EC{ID: genGemID(t, 6), K: rng(t, "idtype", 0, 15), Name: genLabel(t, 12), Unit: genLabel(t, 4), Min: optItem(t, "min"), Max: optItem(t, "max"), Def: genItem(t, 2, false),
					How: pick(t, "how", "value", "value", "value", "provider", "provider", "fail", "nothing"), Updater: coin(t, "updater"), UpdRej: pick(t, "updrej", "", "", "L", "A", "U4", "BOOLEAN"), ValRej: pick(t, "valrej", "", "", "L", "A", "I2", "BOOLEAN")})
			}
			svOf := func() gemID {
				if len(c.Vars) == 0 || oneIn(t, "anyv", 8) {
					return genGemID(t, 7)
				}
				return c.Vars[rng(t, "v", 0, len(c.Vars)-1)].ID
			}
			ecOf := func() gemID {
				if oneIn(t, "anyec", 10) {
					return genGemID(t, 7)
				}
				return c.ECs[rng(t, "ec", 0, len(c.ECs)-1)].ID
			}
			for i, n := 0, rng(t, "ops", 3, 25); i < n; i++ {
				op := c20Op{Op: pick(t, "op", "values", "values", "info", "ecvalues", "ecvalues", "ecinfo", "set", "set", "set", "set", "badset", "badlist", "setvar", "setvar", "apply", "newvar", "newec")}
				switch op.Op {
				case "values", "info":
					if !oneIn(t, "all", 5) {
						op.IDs = genIDRequest(t, svOf, 6)
					}
				case "ecvalues", "ecinfo":
					if !oneIn(t, "all", 5) {
						op.IDs = genIDRequest(t, ecOf, 6)
					}
				case "set":
					for j, k := 0, rng(t, "ups", 0, 4); j < k; j++ {
						u := c20Up{ID: genIDItem(t, ecOf()), Val: genItem(t, 2, false)}
						if oneIn(t, "bad", 15) {
							b := pick(t, "badup", iL(), iL(iU(4, 1)), iU(4, 1), iA("x"), iL(iF(8, 1), iU(4, 1)), iL(iI(1, -1), iU(4, 1)), iL(iL(), iL()), iL(iU(4), iA("x")))
							u.Bad = &b
						}
						op.Ups = append(op.Ups, u)
					}
				case "badset":
					op.Val = pick(t, "bads", Item{}, iA("x"), iU(4, 1), iB(0), iO(true))
				case "badlist":
					op.F = rng(t, "f", 0, 3)
					op.Val = pick(t, "badl", Item{}, iA("x"), iU(4, 1), iB(0), iO(true))
				case "setvar", "apply":
					op.Var, op.Val = rng(t, "var", 0, 7), genItem(t, 2, false)
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runC20)
	register("C20", "host", "a GEM host asking for values and descriptions of status variables and constants and setting constants, with identifiers of any Go type; the messages sent against the arguments and the results against what the peer answered (well-formed and malformed); non-trivial: values were returned",
		opts{quick: budget{400, 10}, thorough: budget{20000, 200}},
		func(t *rapid.T) c20HostCase {
			c := c20HostCase{Active: coin(t, "active")}
			for i, n := 0, rng(t, "ops", 1, 20); i < n; i++ {
				op := c20HostOp{Op: pick(t, "op", "values", "info", "ecvalues", "ecinfo", "set", "set", "bad", "invalid"), K: rng(t, "k", 0, 15), Code: rng(t, "code", 0, 255)}
				for j, k := 0, rng(t, "ids", 0, 5); j < k; j++ {
					op.IDs = append(op.IDs, genGemID(t, 6))
				}
				n := len(op.IDs)
				if (op.Op == "info" || op.Op == "ecinfo") && n == 0 {
					n = rng(t, "all", 0, 6)
				}
				for j := 0; j < n; j++ {
					d := genGemID(t, 6)
					if j < len(op.IDs) {
						d = op.IDs[j]
					}
					switch op.Op {
					case "info":
						op.Reply = append(op.Reply, iL(genIDItem(t, d), iA(genASCII(t, 10)), iA(genASCII(t, 5))))
					case "ecinfo":
						op.Reply = append(op.Reply, iL(genIDItem(t, d), iA(genASCII(t, 10)), genItem(t, 1, false), genItem(t, 1, false), genItem(t, 2, false), iA(genASCII(t, 5))))
					default:
						op.Reply = append(op.Reply, genItem(t, 2, false))
					}
				}
				if op.Op == "bad" {
					op.Body = pick(t, "badbody", Item{}, iA("x"), iU(4, 1), iB(), iL(iL()), iL(iA("x"), iA("y"), iA("z"), iA("z"), iA("z"), iA("z"), iA("z")))
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runC20Host)
}

type c20HostOp struct {
	Op    string
	K     int
	Code  int
	IDs   []gemID
	Reply []Item
	Body  Item
}

type c20HostCase struct {
	Active bool
	Ops    []c20HostOp
}

func runC20Host(r *R, c c20HostCase) {
	e := newGem(r, c.Active, false, 13, nil)
	if !e.up() {
		return
	}
	returned := false
	for i, op := range c.Ops {
		when := fmt.Sprintf("op %d (%s)", i, op.Op)
		ids := keysAPI(op.IDs, op.K)
		checkIDs := func(it Item) string {
			if !idsAre(it, op.IDs) {
				return fmt.Sprintf("want %v", op.IDs)
			}
			return ""
		}
		ups := make([]gem.EquipmentConstantUpdate, 0)
		for j, d := range op.IDs {
			v := iA("v")
			if j < len(op.Reply) {
				v = op.Reply[j]
			}
			ups = append(ups, gem.EquipmentConstantUpdate{ID: d.apiAs(op.K + j), Value: v.node()})
		}
		checkUps := func(it Item) string {
			if it.K != "L" || len(it.L) != len(op.IDs) {
				return "wrong number of entries"
			}
			for j, d := range op.IDs {
				w := iA("v")
				if j < len(op.Reply) {
					w = op.Reply[j]
				}
				if x := it.L[j]; x.K != "L" || len(x.L) != 2 || !sameID(x.L[0], d) || !x.L[1].same(w) {
					return fmt.Sprintf("entry %d should be %s, %v", j, d.key(), w)
				}
			}
			return ""
		}
		none := func(what string, err error) bool {
			if err == nil {
				r.Failf("%s: %s succeeded", when, what)
			}
			if !e.peer.sync(r) {
				return false
			}
			for _, f := range e.peer.rest() {
				if f.SType == 0 && f.S() != 1 || f.SType == 0 && f.F() != 13 && f.F() != 1 {
					r.Failf("%s: %v was sent for %s, which failed", when, f.view(), what)
				}
			}
			return true
		}
		var err error
		switch op.Op {
		case "values":
			var v []gem.StatusValue
			if len(ids) == 0 {
				_, err = e.g.RequestStatusVariables()
				if !none("RequestStatusVariables()", err) {
					return
				}
				break
			}
			if !hostExchange(r, e, when, 1, 3, func() { v, err = e.g.RequestStatusVariables(ids...) }, checkIDs, iL(op.Reply...)) {
				return
			}
			if err != nil || len(v) != len(ids) {
				r.Failf("%s: S1F4 %v was returned as %v (%v)", when, op.Reply, v, err)
				return
			}
			for j := range v {
				if v[j].ID != op.IDs[j].raw() || !fromNode(v[j].Value).same(op.Reply[j]) {
					r.Failf("%s: value %d is %v %v, want %v %v", when, j, v[j].ID, fromNode(v[j].Value), op.IDs[j].raw(), op.Reply[j])
				}
				returned = true
			}
		case "ecvalues":
			var v []gem.EquipmentConstantValue
			if len(ids) == 0 {
				_, err = e.g.RequestEquipmentConstants()
				if !none("RequestEquipmentConstants()", err) {
					return
				}
				break
			}
			if !hostExchange(r, e, when, 2, 13, func() { v, err = e.g.RequestEquipmentConstants(ids...) }, checkIDs, iL(op.Reply...)) {
				return
			}
			if err != nil || len(v) != len(ids) {
				r.Failf("%s: S2F14 %v was returned as %v (%v)", when, op.Reply, v, err)
				return
			}
			for j := range v {
				if v[j].ID != op.IDs[j].raw() || !fromNode(v[j].Value).same(op.Reply[j]) {
					r.Failf("%s: value %d is %v %v, want %v %v", when, j, v[j].ID, fromNode(v[j].Value), op.IDs[j].raw(), op.Reply[j])
				}
				returned = true
			}
		case "info":
			var v []gem.StatusVariableInfo
			if !hostExchange(r, e, when, 1, 11, func() { v, err = e.g.RequestStatusVariableInfo(ids...) }, checkIDs, iL(op.Reply...)) {
				return
			}
			if err != nil || len(v) != len(op.Reply) {
				r.Failf("%s: S1F12 %v was returned as %v (%v)", when, op.Reply, v, err)
				return
			}
			for j, w := range op.Reply {
				if v[j].ID != mustID(w.L[0]).raw() || v[j].Name != w.L[1].S || v[j].Unit != w.L[2].S {
					r.Failf("%s: entry %d is %+v, want %v", when, j, v[j], w)
				}
				returned = true
			}
		case "ecinfo":
			var v []gem.EquipmentConstantInfo
			if !hostExchange(r, e, when, 2, 29, func() { v, err = e.g.RequestEquipmentConstantInfo(ids...) }, checkIDs, iL(op.Reply...)) {
				return
			}
			if err != nil || len(v) != len(op.Reply) {
				r.Failf("%s: S2F30 %v was returned as %v (%v)", when, op.Reply, v, err)
				return
			}
			for j, w := range op.Reply {
				if v[j].ID != mustID(w.L[0]).raw() || v[j].Name != w.L[1].S || v[j].Unit != w.L[5].S || !fromNode(v[j].Min).same(w.L[2]) || !fromNode(v[j].Max).same(w.L[3]) || !fromNode(v[j].Default).same(w.L[4]) {
					r.Failf("%s: entry %d is %+v, want %v", when, j, v[j], w)
				}
				returned = true
			}
		case "set":
			var code int
			if len(ups) == 0 {
				if code, err = e.g.SendEquipmentConstantValues(ups); code != 0 || err != nil {
					r.Failf("%s: no values to set gave %d, %v", when, code, err)
				}
				break
			}
			reply := iB(byte(op.Code))
			if op.K%4 == 0 {
				reply = iL(reply)
			}
			if !hostExchange(r, e, when, 2, 15, func() { code, err = e.g.SendEquipmentConstantValues(ups) }, checkUps, reply) {
				return
			}
			if err != nil || code != op.Code {
				r.Failf("%s: the acknowledge code returned is %d (%v), want %d", when, code, err, op.Code)
			}
		case "bad":
			// replies from which nothing can be read are errors
			if len(ids) == 0 {
				ids, op.IDs = []any{uint64(1)}, []gemID{idN(1)}
				ups = []gem.EquipmentConstantUpdate{{ID: 1, Value: iA("v").node()}}
				op.Reply = nil
			}
			var ok bool
			what := pickOf(op.K, "values", "info", "ecvalues", "ecinfo", "set")
			body := op.Body
			switch what {
			case "values":
				if body.K == "L" && len(body.L) == len(ids) {
					body.L = append(body.L, iA("more"))
				}
				ok = hostExchange(r, e, when, 1, 3, func() { _, err = e.g.RequestStatusVariables(ids...) }, checkIDs, body)
			case "ecvalues":
				if body.K == "L" && len(body.L) == len(ids) {
					body.L = append(body.L, iA("more"))
				}
				ok = hostExchange(r, e, when, 2, 13, func() { _, err = e.g.RequestEquipmentConstants(ids...) }, checkIDs, body)
			case "info":
				ok = hostExchange(r, e, when, 1, 11, func() { _, err = e.g.RequestStatusVariableInfo(ids...) }, checkIDs, body)
			case "ecinfo":
				ok = hostExchange(r, e, when, 2, 29, func() { _, err = e.g.RequestEquipmentConstantInfo(ids...) }, checkIDs, body)
			default:
				ok = hostExchange(r, e, when, 2, 15, func() { _, err = e.g.SendEquipmentConstantValues(ups) }, checkUps, body)
			}
			if !ok {
				return
			}
			if err == nil {
				r.Failf("%s: %s answered with %v returned no error", when, what, body)
			}
		case "invalid":
			bad := []any{-1, 1.5, nil, "\u00e9", []int{1}, true}[op.K%6]
			for n, err := range map[string]error{
				"RequestStatusVariables":       func() error { _, e := e.g.RequestStatusVariables(1, bad); return e }(),
				"RequestStatusVariableInfo":    func() error { _, e := e.g.RequestStatusVariableInfo(1, bad); return e }(),
				"RequestEquipmentConstants":    func() error { _, e := e.g.RequestEquipmentConstants(1, bad); return e }(),
				"RequestEquipmentConstantInfo": func() error { _, e := e.g.RequestEquipmentConstantInfo(1, bad); return e }(),
				"SendEquipmentConstantValues": func() error {
					_, e := e.g.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: bad, Value: iA("v").node()}})
					return e
				}(),
				"SendEquipmentConstantValues of nothing": func() error {
					_, e := e.g.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: 1}})
					return e
				}(),
			} {
				if !none(fmt.Sprintf("%s with %v", n, bad), err) {
					return
				}
			}
		}
		r.Label(op.Op)
	}
	e.peer.check(r)
	if returned {
		r.NonTrivial()
	}
}
