package main

import (
	"fmt"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/gem"
)

// C22: process programs.

type c22Op struct {
	Op   string // register, upload, badupload, request, badrequest, uphandler, reqhandler
	ID   gemID
	K    int
	F    string // format of the identifier
	Body string
	Big  int // repeat the body
	Wrap bool
	Item Item
	On   bool // a handler is set
	Ack  int  // what the handler returns
	Ret  string
}

func (op c22Op) body() string {
	if op.Big > 1 {
		return strings.Repeat(op.Body, op.Big)
	}
	return op.Body
}

type c22Case struct {
	Active bool
	Ops    []c22Op
}

func ascii(s string) bool {
	for _, c := range s {
		if c > 127 {
			return false
		}
	}
	return true
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q... (%d)", s[:60], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func runC22(r *R, c c22Case) {
	e := newGem(r, c.Active, true, 17, nil)
	if !e.up() {
		return
	}
	store := map[string]string{}
	ids := map[string]gemID{}
	var mu sync.Mutex
	var calls []string
	upAck, upOn, reqAck, reqRet, reqOn := 0, false, 0, "", false
	up := func(id any, body string) int {
		mu.Lock()
		defer mu.Unlock()
		calls = append(calls, fmt.Sprintf("upload %T %v %q", id, id, body))
		return upAck
	}
	req := func(id any) (string, int) {
		mu.Lock()
		defer mu.Unlock()
		calls = append(calls, fmt.Sprintf("request %T %v", id, id))
		return reqRet, reqAck
	}
	// ackIs compares the code sent with that of the application
	ackIs := func(it Item, want int) bool {
		if it.K != "B" || len(it.B) != 1 {
			return false
		}
		if want >= 0 && want <= 255 {
			return int(it.B[0]) == want
		}
		return it.B[0] != 0
	}
	stored, returned, refused := false, false, false
	for i, op := range c.Ops {
		when := fmt.Sprintf("op %d (%s)", i, op.Op)
		mu.Lock()
		calls = nil
		mu.Unlock()
		var wantCalls []string
		switch op.Op {
		case "uphandler":
			upOn = op.On
			mu.Lock()
			upAck = op.Ack
			mu.Unlock()
			if op.On {
				e.g.SetProcessProgramUploadHandler(up)
			} else {
				e.g.SetProcessProgramUploadHandler(nil)
			}
		case "reqhandler":
			reqOn = op.On
			mu.Lock()
			reqAck, reqRet = op.Ack, op.Ret
			mu.Unlock()
			if op.On {
				e.g.SetProcessProgramRequestHandler(req)
			} else {
				e.g.SetProcessProgramRequestHandler(nil)
			}
		case "register":
			err := e.g.RegisterProcessProgram(op.ID.apiAs(op.K), op.body())
			if (err == nil) != ascii(op.body()) {
				r.Failf("%s: RegisterProcessProgram(%s, %s): %v", when, op.ID.key(), short(op.body()), err)
			}
			if err == nil {
				store[op.ID.key()], ids[op.ID.key()] = op.body(), op.ID
			}
		case "upload":
			it, ok := e.askItem(7, 3, iL(op.ID.as(op.F), iA(op.body())))
			if !ok {
				return
			}
			ack := 0
			if upOn {
				ack = upAck
				wantCalls = append(wantCalls, fmt.Sprintf("upload %T %v %q", op.ID.raw(), op.ID.raw(), op.body()))
			}
			if !ackIs(it, ack) {
				r.Failf("%s: S7F3 was acknowledged with %v, want %d", when, it, ack)
			}
			if ack == 0 {
				store[op.ID.key()], ids[op.ID.key()] = op.body(), op.ID
				stored = true
			} else {
				refused = true
			}
			r.Label("upload")
		case "badupload":
			it, ok := e.askItem(7, 3, op.Item)
			if !ok {
				return
			}
			if it.K != "B" || len(it.B) != 1 || it.B[0] == 0 {
				r.Failf("%s: S7F3 %v was acknowledged with %v", when, op.Item, it)
			}
		case "request", "badrequest":
			q := op.Item
			if op.Op == "request" {
				if q = op.ID.as(op.F); op.Wrap {
					q = iL(q)
				}
			}
			it, ok := e.askItem(7, 5, q)
			if !ok {
				return
			}
			if it.K != "L" || len(it.L) != 3 || it.L[1].K != "A" || it.L[2].K != "B" || len(it.L[2].B) != 1 {
				r.Failf("%s: S7F5 %v was answered with %v", when, q, it)
				return
			}
			body, ack := "", 1
			if op.Op == "request" {
				if !sameID(it.L[0], op.ID) {
					r.Failf("%s: S7F5 %v was answered for %v", when, q, it.L[0])
				}
				if reqOn {
					wantCalls = append(wantCalls, fmt.Sprintf("request %T %v", op.ID.raw(), op.ID.raw()))
					body, ack = reqRet, reqAck
					if ack == 0 && !ascii(body) {
						ack = -1 // an error
					}
				} else if b, ok := store[op.ID.key()]; ok {
					body, ack = b, 0
				} else {
					ack = -1
				}
			} else {
				ack = -1
			}
			if ack != 0 {
				body = ""
			}
			if it.L[1].S != body || !ackIs(it.L[2], ack) {
				r.Failf("%s: S7F5 %v was answered with %s and code %v, want %s and %d (-1: an error); handler: %v", when, q, short(it.L[1].S), it.L[2], short(body), ack, reqOn)
				return
			}
			if ack == 0 && body != "" {
				returned = true
			}
			r.Label(op.Op)
		}
		mu.Lock()
		if fmt.Sprint(calls) != fmt.Sprint(wantCalls) {
			r.Failf("%s: the application was called with %v, want %v", when, calls, wantCalls)
		}
		mu.Unlock()
		got := map[string]string{}
		for _, p := range e.g.ListProcessPrograms() {
			k := ""
			switch v := p.ID().(type) {
			case uint64:
				k = idN(v).key()
			case string:
				k = idA(v).key()
			}
			if _, dup := got[k]; dup {
				r.Failf("after %s %s is listed twice", when, k)
			}
			got[k] = p.Body
		}
		if len(got) != len(store) {
			r.Failf("after %s %d process programs are stored, want %d", when, len(got), len(store))
			return
		}
		for k, b := range store {
			if g, ok := got[k]; !ok || g != b {
				r.Failf("after %s process program %s is %s (listed: %v), want %s", when, k, short(g), ok, short(b))
				return
			}
		}
	}
	if !reqOn {
		for k, d := range ids {
			it, ok := e.askItem(7, 5, d.wire())
			if !ok {
				return
			}
			if it.K != "L" || len(it.L) != 3 || !it.L[1].same(iA(store[k])) || !it.L[2].same(iB(0)) {
				r.Failf("in the end S7F5 for %s was answered with %s, want %s", k, short(fmt.Sprint(it)), short(store[k]))
			}
		}
	}
	e.peer.check(r)
	if stored && returned && refused {
		r.NonTrivial()
	}
}

func genBody(t *rapid.T) (string, int) {
	switch rng(t, "bodykind", 0, 9) {
	case 0:
		return pick(t, "edge", "", "\x00", "\x7f\x00\n\r\t", "\"", "<A \"x\">"), 1
	case 1:
		return genASCII(t, 20) + "x", pick(t, "rep", 13, 256, 3300)
	}
	return genASCII(t, 60), 1
}

func genProgramID(t *rapid.T) gemID {
	if coin(t, "text") {
		return pick(t, "ppid", idA("RECIPE-1"), idA("1"), idA("2"), idA("recipe-1"), idA(""), idA(" 1"), idA("1 "), idA("RECIPE-1 "), idA("RECIPE-1\n"), idA("RECIPE-10"))
	}
	return genGemID(t, 3)
}

func init() {
	shards("C22", 16, 16)
	register("C22", "equipment", "equipment, up to 25 local registrations, S7F3 and S7F5 with identifiers in any format and bodies of up to 60 kB, well-formed and malformed, with and without application handlers returning any code and body; acknowledge codes, replies, handler arguments and the stored programs after each operation against a model; non-trivial: an upload was stored, one refused and a body returned",
		opts{quick: budget{400, 20}, thorough: budget{20000, 400}},
		func(t *rapid.T) c22Case {
			c := c22Case{Active: coin(t, "active")}
			var have []gemID
			id := func() gemID {
				if len(have) > 0 && !oneIn(t, "new", 3) {
					return pick(t, "have", have...)
				}
				d := genProgramID(t)
				have = append(have, d)
				return d
			}
			for i, n := 0, rng(t, "ops", 3, 25); i < n; i++ {
				op := c22Op{Op: pick(t, "op", "register", "register", "upload", "upload", "upload", "upload", "request", "request", "request", "request", "badupload", "badrequest", "uphandler", "uphandler", "reqhandler"), K: rng(t, "k", 0, 15), F: pick(t, "f", idFormats...)}
				switch op.Op {
				case "register", "upload":
					op.ID = id()
					op.Body, op.Big = genBody(t)
					if op.Op == "register" && oneIn(t, "beyond", 8) {
						op.Body = pick(t, "nonascii", "é", "x\xff", "温度 = 5")
					}
				case "request":
					op.ID, op.Wrap = id(), coin(t, "wrap")
				case "badupload":
					op.Item = pick(t, "bad", Item{}, iL(), iA("x"), iL(iA("x")), iL(iA("RECIPE-1"), iU(4, 1)), iL(iA("1"), iL(iA("x"))), iL(iF(4, 1), iA("x")), iL(iU(4), iA("x")), iL(iI(2, -1), iA("x")), iL(iL(iA("1")), iA("x")), iL(iA("x"), iO(true)))
				case "badrequest":
					op.Item = pick(t, "bad", Item{}, iL(), iU(4), iI(2, -1), iF(4, 1), iL(iL(iA("x"))), iL(iB(1)), iO(true))
				case "uphandler", "reqhandler":
					op.On = coin(t, "on")
					op.Ack = pick(t, "ack", 0, 0, 0, 1, 2, 7, 63, 64, 255, 256, -1, 1000)
					op.Ret = pick(t, "ret", "", "the body", "x\x00y", "beyond é", strings.Repeat("long ", 60))
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runC22)
	register("C22", "host", "a GEM host uploading and requesting process programs with identifiers of any Go type; the messages sent against the arguments and the results against what the peer answered (well-formed and malformed); non-trivial: a body was returned and one uploaded",
		opts{quick: budget{400, 10}, thorough: budget{20000, 200}},
		func(t *rapid.T) c22HostCase {
			c := c22HostCase{Active: coin(t, "active")}
			for i, n := 0, rng(t, "ops", 1, 20); i < n; i++ {
				op := c22HostOp{Op: pick(t, "op", "upload", "upload", "request", "request", "badrequest", "badupload", "invalid"), ID: genProgramID(t), K: rng(t, "k", 0, 15), Code: rng(t, "code", 0, 255)}
				op.Body, op.Big = genBody(t)
				switch op.Op {
				case "request":
					b := iA(strings.Repeat(op.Body, op.Big))
					if oneIn(t, "binary", 4) {
						b = genLeaf(t, "B", 30)
					}
					op.Reply = iL(genIDItem(t, op.ID), b, iB(byte(op.Code)))
					if oneIn(t, "noack", 5) {
						op.Code, op.Reply.L = 0, op.Reply.L[:2]
					}
				case "badrequest":
					op.Reply = pick(t, "bad", Item{}, iL(), iA("x"), iL(iA("x")), iL(iA("x"), iU(4, 1), iB(0)), iL(iA("x"), iL(iA("y")), iB(0)), iL(iA("x"), iA("y"), iB()), iL(iA("x"), iA("y"), iU(1, 0)))
				case "badupload":
					op.Reply = pick(t, "bad", Item{}, iL(), iB(), iU(1, 0), iA("0"), iL(iU(1, 0)), iL(iB()))
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runC22Host)
}

type c22HostOp struct {
	Op    string
	ID    gemID
	K     int
	Code  int
	Body  string
	Big   int
	Reply Item
}

type c22HostCase struct {
	Active bool
	Ops    []c22HostOp
}

func runC22Host(r *R, c c22HostCase) {
	e := newGem(r, c.Active, false, 18, nil)
	if !e.up() {
		return
	}
	uploaded, returned := false, false
	for i, op := range c.Ops {
		when := fmt.Sprintf("op %d (%s)", i, op.Op)
		id := op.ID.apiAs(op.K)
		body := strings.Repeat(op.Body, max(op.Big, 1))
		switch op.Op {
		case "upload", "badupload":
			reply := op.Reply
			if op.Op == "upload" {
				if reply = iB(byte(op.Code)); op.K%4 == 0 {
					reply = iL(reply)
				}
			}
			var code int
			var err error
			if !hostExchange(r, e, when, 7, 3, func() { code, err = e.g.UploadProcessProgram(id, body) }, func(it Item) string {
				if it.K != "L" || len(it.L) != 2 || !sameID(it.L[0], op.ID) || !it.L[1].same(iA(body)) {
					return "want " + op.ID.key() + " " + short(body)
				}
				return ""
			}, reply) {
				return
			}
			if op.Op == "badupload" {
				if err == nil {
					r.Failf("%s: the reply %v was returned as %d without error", when, reply, code)
				}
			} else if err != nil || code != op.Code {
				r.Failf("%s: the acknowledge code returned is %d (%v), want %d", when, code, err, op.Code)
			}
			uploaded = uploaded || body != ""
		case "request", "badrequest":
			var got string
			var code int
			var err error
			if !hostExchange(r, e, when, 7, 5, func() { got, code, err = e.g.RequestProcessProgram(id) }, func(it Item) string {
				if it.K == "L" && len(it.L) == 1 {
					it = it.L[0]
				}
				if !sameID(it, op.ID) {
					return "want " + op.ID.key()
				}
				return ""
			}, op.Reply) {
				return
			}
			if op.Op == "badrequest" {
				if err == nil {
					r.Failf("%s: S7F6 %v was returned as %s, %d without error", when, op.Reply, short(got), code)
				}
				break
			}
			want := op.Reply.L[1].S
			if op.Reply.L[1].K == "B" {
				want = string(op.Reply.L[1].B)
			}
			if err != nil || got != want || code != op.Code {
				r.Failf("%s: S7F6 %v was returned as %s, %d (%v)", when, op.Reply, short(got), code, err)
			}
			returned = returned || want != ""
		case "invalid":
			bad := []any{-1, 1.5, nil, "\u00e9", []int{1}, true}[op.K%6]
			for n, err := range map[string]error{
				"UploadProcessProgram":              func() error { _, e := e.g.UploadProcessProgram(bad, "x"); return e }(),
				"UploadProcessProgram beyond ASCII": func() error { _, e := e.g.UploadProcessProgram("x", "\u00e9"); return e }(),
				"RequestProcessProgram":             func() error { _, _, e := e.g.RequestProcessProgram(bad); return e }(),
				"RegisterProcessProgram":            e.g.RegisterProcessProgram("x", "y"),
			} {
				if err == nil {
					r.Failf("%s: %s (%v) succeeded", when, n, bad)
				}
			}
			if !e.peer.sync(r) {
				return
			}
			for _, f := range e.peer.rest() {
				if f.SType == 0 && f.S() == 7 {
					r.Failf("%s: %v was sent for a call that failed", when, f.view())
				}
			}
		}
		r.Label(op.Op)
	}
	e.peer.check(r)
	if uploaded && returned {
		r.NonTrivial()
	}
}

var _ = gem.DeviceHost
