package main

import (
	"errors"
	"fmt"
	"math"
	"sync"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/gem"
)

// C23: remote commands.

type c23Param struct {
	ID  gemID
	F   string
	Val Item
}

type c23Ack struct {
	ID  gemID
	K   int
	Bad bool // a name that cannot be sent
	Ack byte
}

type c23Op struct {
	Op     string // command, bad, handler
	W      bool
	ID     gemID
	F      string
	Params []c23Param
	Item   Item
	On     bool
	HCACK  byte
	Acks   []c23Ack
	Err    bool
}

type c23Case struct {
	Active bool
	Ops    []c23Op
}

func showRequest(q gem.RemoteCommandRequest) string {
	s := fmt.Sprintf("%q %T %v", q.Command, q.CommandID, q.CommandID)
	for _, p := range q.Parameters {
		s += fmt.Sprintf("; %q %T %v = %v", p.Name, p.Identifier, p.Identifier, fromNode(p.Value))
	}
	return s
}

func wantRequest(op c23Op) string {
	s := fmt.Sprintf("%q %T %v", fmt.Sprint(op.ID.raw()), op.ID.raw(), op.ID.raw())
	for _, p := range op.Params {
		s += fmt.Sprintf("; %q %T %v = %v", fmt.Sprint(p.ID.raw()), p.ID.raw(), p.ID.raw(), p.Val)
	}
	return s
}

func normH(c byte) byte {
	if c > 6 {
		return 1
	}
	return c
}

func normC(c byte) byte {
	if c < 1 || c > 63 {
		return 1
	}
	return c
}

// hcackOf and cpackOf are the codes by the names an application uses.
func hcackOf(c byte) gem.HCACKCode {
	switch c {
	case 0:
		return gem.HCACKAcknowledge
	case 1:
		return gem.HCACKInvalidCommand
	case 2:
		return gem.HCACKCannotPerformNow
	case 3:
		return gem.HCACKParameterInvalid
	case 4:
		return gem.HCACKAcknowledgeLater
	case 5:
		return gem.HCACKAlreadyInCondition
	case 6:
		return gem.HCACKNoObject
	}
	return gem.HCACKCode(c)
}

func cpackOf(c byte) gem.CPACKCode {
	switch c {
	case 1:
		return gem.CPACKParameterUnknown
	case 2:
		return gem.CPACKValueIllegal
	case 3:
		return gem.CPACKFormatIllegal
	}
	return gem.CPACKCode(c)
}

func runC23(r *R, c c23Case) {
	e := newGem(r, c.Active, true, 31, nil)
	var mu sync.Mutex
	var calls, events []string
	cur := c23Op{}
	h := func(q gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
		mu.Lock()
		defer mu.Unlock()
		calls = append(calls, showRequest(q))
		res := gem.RemoteCommandResult{HCACK: hcackOf(cur.HCACK)}
		for _, a := range cur.Acks {
			var name any = a.ID.apiAs(a.K)
			if a.Bad {
				name = []any{-1, "\u00e9", nil, 1.5}[a.K%4]
			}
			res.ParameterAcks = append(res.ParameterAcks, gem.RemoteCommandParameterAck{Name: name, Ack: cpackOf(a.Ack)})
		}
		if cur.Err {
			return res, errors.New("failed")
		}
		return res, nil
	}
	e.g.Events().RemoteCommandReceived.AddCallback(func(d map[string]any) {
		mu.Lock()
		events = append(events, showRequest(d["request"].(gem.RemoteCommandRequest)))
		mu.Unlock()
	})
	if !e.up() {
		return
	}
	on, full, refused := false, false, false
	for i, op := range c.Ops {
		when := fmt.Sprintf("op %d (%s)", i, op.Op)
		mu.Lock()
		calls, events = nil, nil
		mu.Unlock()
		var want []string
		body := op.Item
		switch op.Op {
		case "handler":
			on = op.On
			mu.Lock()
			cur = op
			mu.Unlock()
			if on {
				e.g.SetRemoteCommandHandler(h)
			} else {
				e.g.SetRemoteCommandHandler(nil)
			}
			continue
		case "command":
			ps := iL()
			for _, p := range op.Params {
				ps.L = append(ps.L, iL(p.ID.as(p.F), p.Val))
			}
			body = iL(op.ID.as(op.F), ps)
			want = []string{wantRequest(op)}
		}
		if !op.W {
			e.peer.send(dataFrame(31, 2, 41, false, e.peer.nextSys(), body))
			if !e.peer.sync(r) {
				return
			}
		} else {
			it, ok := e.askItem(2, 41, body)
			if !ok {
				return
			}
			if it.K != "L" || len(it.L) != 2 || it.L[0].K != "B" || len(it.L[0].B) != 1 || it.L[1].K != "L" {
				r.Failf("%s: S2F41 %v was answered with %v", when, body, it)
				return
			}
			code, acks := byte(1), []c23Ack(nil)
			bad := !on || op.Op == "bad"
			if !bad {
				code, acks = normH(cur.HCACK), cur.Acks
				if cur.Err && cur.HCACK == 0 {
					code = 2
				}
				for _, a := range acks {
					bad = bad || a.Bad
				}
			}
			if bad {
				if it.L[0].B[0] != 1 { // invalid command
					r.Failf("%s: S2F41 %v was answered with %v; handler: %v, result %+v", when, body, it, on, cur)
				}
				refused = true
			} else {
				ok := it.L[0].B[0] == code && len(it.L[1].L) == len(acks)
				for j := 0; ok && j < len(acks); j++ {
					x := it.L[1].L[j]
					ok = x.K == "L" && len(x.L) == 2 && sameID(x.L[0], acks[j].ID) && x.L[1].same(iB(normC(acks[j].Ack)))
				}
				if !ok {
					r.Failf("%s: S2F41 was answered with %v, the result was HCACK %d, %+v (error: %v)", when, it, cur.HCACK, acks, cur.Err)
					return
				}
				full = full || len(acks) > 0 && len(op.Params) > 0
			}
		}
		wantCalls := want
		if !on {
			wantCalls = nil
		}
		mu.Lock()
		if fmt.Sprint(calls) != fmt.Sprint(wantCalls) || fmt.Sprint(events) != fmt.Sprint(want) {
			r.Failf("%s: S2F41 %v: the handler was called with %v, want %v, and the event fired with %v, want %v", when, body, calls, wantCalls, events, want)
		}
		mu.Unlock()
		r.Label(op.Op)
	}
	e.peer.check(r)
	if full && refused {
		r.NonTrivial()
	}
}

// c23Val is a parameter value as an application may give it.
type c23Val struct {
	Kind string
	N    int64
	U    uint64
	F    float64
	S    string
	B    []byte
	Item *Item
}

func (v c23Val) api() any {
	switch v.Kind {
	case "string":
		return v.S
	case "bytes":
		return append([]byte{}, v.B...)
	case "bool":
		return v.N&1 == 1
	case "int":
		return int(v.N)
	case "int8":
		return int8(v.N)
	case "int16":
		return int16(v.N)
	case "int32":
		return int32(v.N)
	case "int64":
		return v.N
	case "uint":
		return uint(v.U)
	case "uint8":
		return uint8(v.U)
	case "uint16":
		return uint16(v.U)
	case "uint32":
		return uint32(v.U)
	case "uint64":
		return v.U
	case "float32":
		return float32(v.F)
	case "float64":
		return float64(v.F)
	case "item":
		return v.Item.node()
	}
	return nil
}

// is compares an item with the value given.
func (v c23Val) is(it Item) bool {
	switch x := v.api().(type) {
	case string:
		return it.same(iA(x))
	case []byte:
		return it.same(iB(x...))
	case bool:
		return it.same(iO(x))
	case int, int8, int16, int32, int64:
		return it.K[0] == 'I' && len(it.I) == 1 && fmt.Sprint(it.I[0]) == fmt.Sprint(x)
	case uint, uint8, uint16, uint32, uint64:
		return it.K[0] == 'U' && len(it.U) == 1 && fmt.Sprint(it.U[0]) == fmt.Sprint(x)
	case float32:
		return it.same(iF(4, float64(x))) || it.same(iF(8, float64(x)))
	case float64:
		return it.same(iF(8, x))
	case nil:
		return it.same(iL())
	}
	return it.same(*v.Item)
}

type c23HostOp struct {
	Op    string // send, badreply, invalid
	ID    gemID
	K     int
	Names []gemID
	Vals  []c23Val
	HCACK byte
	Acks  []c23Ack
	Wrap  bool
	Reply Item
}

type c23HostCase struct {
	Active bool
	Ops    []c23HostOp
}

func runC23Host(r *R, c c23HostCase) {
	e := newGem(r, c.Active, false, 32, nil)
	if !e.up() {
		return
	}
	full := false
	for i, op := range c.Ops {
		when := fmt.Sprintf("op %d (%s)", i, op.Op)
		var params []gem.RemoteCommandParameterValue
		for j, d := range op.Names {
			params = append(params, gem.RemoteCommandParameterValue{Name: d.apiAs(op.K + j), Value: op.Vals[j].api()})
		}
		check := func(it Item) string {
			if it.K != "L" || len(it.L) != 2 || !sameID(it.L[0], op.ID) || it.L[1].K != "L" || len(it.L[1].L) != len(op.Names) {
				return fmt.Sprintf("want %s with %d parameters", op.ID.key(), len(op.Names))
			}
			for j, d := range op.Names {
				x := it.L[1].L[j]
				if x.K != "L" || len(x.L) != 2 || !sameID(x.L[0], d) || !op.Vals[j].is(x.L[1]) {
					return fmt.Sprintf("parameter %d should be %s = %T %v", j, d.key(), op.Vals[j].api(), op.Vals[j].api())
				}
			}
			return ""
		}
		switch op.Op {
		case "send", "badreply":
			reply := op.Reply
			if op.Op == "send" {
				reply = iL(iB(op.HCACK), iL())
				if op.Wrap {
					reply.L[0] = iL(reply.L[0])
				}
				for j, a := range op.Acks {
					reply.L[1].L = append(reply.L[1].L, iL(a.ID.as(idFormats[(a.K+j)%8]), iB(a.Ack)))
				}
			}
			var res gem.RemoteCommandResult
			var err error
			if !hostExchange(r, e, when, 2, 41, func() { res, err = e.g.SendRemoteCommand(op.ID.apiAs(op.K), params) }, check, reply) {
				return
			}
			if op.Op == "badreply" {
				if err == nil {
					r.Failf("%s: S2F42 %v was returned as %+v without error", when, reply, res)
				}
				break
			}
			ok := err == nil && res.HCACK == hcackOf(normH(op.HCACK)) && len(res.ParameterAcks) == len(op.Acks)
			for j := 0; ok && j < len(op.Acks); j++ {
				ok = res.ParameterAcks[j].Name == op.Acks[j].ID.raw() && res.ParameterAcks[j].Ack == cpackOf(normC(op.Acks[j].Ack))
			}
			if !ok {
				r.Failf("%s: S2F42 %v was returned as %+v (%v)", when, reply, res, err)
			}
			full = full || len(op.Acks) > 0 && len(op.Names) > 0
		case "invalid":
			bad := []any{-1, 1.5, nil, "\u00e9", []int{1}, true}[op.K%6]
			val := []any{"\u00e9", []int{1}, struct{}{}, map[string]int{}, complex(1, 2), []string{"x"}}[op.K%6]
			for n, err := range map[string]error{
				"a command": func() error { _, e := e.g.SendRemoteCommand(bad, nil); return e }(),
				"a parameter name": func() error {
					_, e := e.g.SendRemoteCommand("GO", []gem.RemoteCommandParameterValue{{Name: bad, Value: 1}})
					return e
				}(),
				"a parameter value": func() error {
					_, e := e.g.SendRemoteCommand("GO", []gem.RemoteCommandParameterValue{{Name: "A", Value: 1}, {Name: "P", Value: val}})
					return e
				}(),
			} {
				if err == nil {
					r.Failf("%s: SendRemoteCommand accepted %v or %v as %s", when, bad, val, n)
				}
			}
			if !e.peer.sync(r) {
				return
			}
			for _, f := range e.peer.rest() {
				if f.SType == 0 && f.S() == 2 {
					r.Failf("%s: %v was sent for a call that failed", when, f.view())
				}
			}
		}
		r.Label(op.Op)
	}
	e.peer.check(r)
	if full {
		r.NonTrivial()
	}
}

func genCommandID(t *rapid.T) gemID {
	if coin(t, "text") {
		return idA(pick(t, "cmd", "START", "STOP", "start", "PP-SELECT", "1", "", genASCII(t, 12)))
	}
	return genGemID(t, 5)
}

func genAcks(t *rapid.T, bad bool) (a []c23Ack) {
	for i, n := 0, rng(t, "acks", 0, 4); i < n; i++ {
		a = append(a, c23Ack{ID: genCommandID(t), K: rng(t, "k", 0, 15), Bad: bad && oneIn(t, "bad", 20), Ack: byte(pick(t, "cpack", 1, 2, 3, 4, 63, 64, 0, 200, 255))})
	}
	return
}

func init() {
	shards("C23", 16, 16)
	register("C23", "equipment", "equipment with and without a remote command handler returning any result or error, up to 20 S2F41 with any command, parameter names and values, well-formed and malformed, with and without reply expected; handler and event arguments and every S2F42; non-trivial: acknowledges of parameters were sent and a command refused",
		opts{quick: budget{400, 20}, thorough: budget{20000, 400}},
		func(t *rapid.T) c23Case {
			c := c23Case{Active: coin(t, "active")}
			for i, n := 0, rng(t, "ops", 2, 20); i < n; i++ {
				op := c23Op{Op: pick(t, "op", "command", "command", "command", "command", "bad", "handler"), W: !oneIn(t, "nowait", 4)}
				if i == 0 && !oneIn(t, "bare", 4) {
					op.Op, op.On = "handler", true
				}
				switch op.Op {
				case "handler":
					op.On = op.On || !oneIn(t, "off", 4)
					op.HCACK = byte(pick(t, "hcack", 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 64, 255))
					op.Acks, op.Err = genAcks(t, true), oneIn(t, "err", 4)
				case "command":
					op.ID, op.F = genCommandID(t), pick(t, "f", idFormats...)
					for j, k := 0, rng(t, "params", 0, 5); j < k; j++ {
						op.Params = append(op.Params, c23Param{ID: genCommandID(t), F: pick(t, "f", idFormats...), Val: genItem(t, 2, false)})
					}
				case "bad":
					op.Item = pick(t, "bad", Item{}, iL(), iA("START"), iL(iF(4, 1), iL()), iL(iU(4), iL()), iL(iI(4, -1), iL()), iL(iL(iA("START")), iL()), iL(iA("START"), iA("P")), iL(iA("START"), iU(4, 1)),
						iL(iA("START"), iL(iA("P"))), iL(iA("START"), iL(iL())), iL(iA("START"), iL(iL(iA("P"), iU(4, 1)), iL(iF(4, 1), iU(4, 1)))), iL(iA("START"), iL(iL(iU(4), iU(4, 1)))), iL(iA("START"), iL(iA("P"), iU(4, 1))), iL(iU(2, 7), iL(iL(iB(1), iA("x")))))
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runC23)
	register("C23", "host", "a GEM host sending remote commands with parameter names and values of every Go type it accepts (and others); the S2F41 sent against the arguments and the result against the S2F42 of the peer; non-trivial: parameters sent and acknowledges returned",
		opts{quick: budget{400, 10}, thorough: budget{20000, 200}},
		func(t *rapid.T) c23HostCase {
			c := c23HostCase{Active: coin(t, "active")}
			for i, n := 0, rng(t, "ops", 1, 20); i < n; i++ {
				op := c23HostOp{Op: pick(t, "op", "send", "send", "send", "send", "badreply", "invalid"), ID: genCommandID(t), K: rng(t, "k", 0, 15), HCACK: byte(pick(t, "hcack", 0, 1, 2, 3, 4, 5, 6, 7, 255)), Wrap: oneIn(t, "wrap", 5)}
				for j, k := 0, rng(t, "params", 0, 5); j < k; j++ {
					v := c23Val{Kind: pick(t, "kind", "string", "bytes", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "item", "nil")}
					v.N = pick(t, "n", 0, 1, -1, 127, 128, -128, -129, 32767, 32768, -32768, -32769, math.MaxInt32, math.MaxInt32+1, math.MinInt32, math.MinInt32-1, math.MaxInt64, math.MinInt64, int64(rng(t, "any", -1000, 1000)))
					v.U = pick(t, "u", 0, 1, 255, 256, 65535, 65536, math.MaxUint32, math.MaxUint32+1, math.MaxUint64, uint64(rng(t, "anyu", 0, 1000)))
					v.F = pick(t, "x", 0, 1.5, -2.25, math.MaxFloat32, 0.1, 1e-40, rapid.Float64().Draw(t, "anyf"))
					if v.Kind == "float32" && math.Abs(v.F) > math.MaxFloat32 {
						v.F = 3
					}
					v.S = genASCII(t, 20)
					if v.Kind == "bytes" {
						v.B = genLeaf(t, "B", 20).B
					}
					if v.Kind == "item" {
						it := genItem(t, 2, false)
						v.Item = &it
					}
					op.Names, op.Vals = append(op.Names, genCommandID(t)), append(op.Vals, v)
				}
				op.Acks = genAcks(t, false)
				if op.Op == "badreply" {
					op.Reply = pick(t, "bad", Item{}, iL(), iA("x"), iB(), iU(1, 0), iL(iU(1, 0), iL()), iL(iB(), iL()), iL(iL(), iL()), iL(iA("0")))
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runC23Host)
}
