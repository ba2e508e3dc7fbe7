package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
	"pgregory.net/rapid"
)

var _ = rand.Int

type c01Msg struct {
	S, F    int
	W       bool
	Sess    uint16
	Sys     uint32
	Name    string
	Dir     string
	How     int // how the message is built
	Item    Item
	OldSess int
	Paths   [][]int
}

type c01Ctrl struct {
	Kind           int
	Sess, Sess2    uint16
	Sys            uint32
	Status, PT, ST byte
	Header         []byte
	Data           *c01Msg
}

func sysB(s uint32) []byte { return []byte{byte(s >> 24), byte(s >> 16), byte(s >> 8), byte(s)} }

func genMsg(t *rapid.T, depth int, big bool) c01Msg {
	c := c01Msg{Sess: genSession(t), Sys: genSys(t), Name: pick(t, "name", "", "TestMsg", "x.y"), Dir: pick(t, "dir", "H->E", "H<-E", "H<->E"), How: rng(t, "how", 0, 4)}
	c.S, c.F = genSF(t)
	c.W = c.F%2 == 1 && coin(t, "w")
	if oneIn(t, "absent", 10) {
		c.Item = Item{}
	} else {
		c.Item = genItem(t, depth, big)
	}
	c.OldSess = rng(t, "oldsess", -1, 65535)
	return c
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// build makes the message with the constructors of the code under test.
func (c c01Msg) build(n ast.ItemNode) *ast.DataMessage {
	sys := sysB(c.Sys)
	defer func() {
		for i := range sys { // values handed in must have been copied
			sys[i] ^= 0xff
		}
	}()
	w := b2i(c.W)
	switch c.How {
	case 0:
		return ast.NewHSMSDataMessage(c.Name, c.S, c.F, w, c.Dir, n, int(c.Sess), sys)
	case 1:
		return ast.NewDataMessage(c.Name, c.S, c.F, w, c.Dir, n).SetSessionIDAndSystemBytes(int(c.Sess), sys)
	case 2:
		return ast.NewDataMessage(c.Name, c.S, c.F, 2, c.Dir, n).SetWaitBit(c.W).SetSessionIDAndSystemBytes(int(c.Sess), sys)
	case 3:
		return ast.NewDataMessage(c.Name, c.S, c.F, 2, c.Dir, n).SetSessionIDAndSystemBytes(int(c.Sess), sys).SetWaitBit(c.W)
	}
	return ast.NewDataMessage(c.Name, c.S, c.F, w, c.Dir, n).SetSessionIDAndSystemBytes(c.OldSess, []byte{9, 9, 9, 9}).SetSessionIDAndSystemBytes(int(c.Sess), sys)
}

func checkHeader(r *R, what string, m *ast.DataMessage, c c01Msg) {
	if m.StreamCode() != c.S || m.FunctionCode() != c.F {
		r.Failf("%s: S%dF%d, want S%dF%d", what, m.StreamCode(), m.FunctionCode(), c.S, c.F)
	}
	if m.WaitBit() != fmt.Sprint(c.W) {
		r.Failf("%s: wait bit %s, want %v", what, m.WaitBit(), c.W)
	}
	if m.SessionID() != int(c.Sess) {
		r.Failf("%s: session %d, want %d", what, m.SessionID(), c.Sess)
	}
	if !bytes.Equal(m.SystemBytes(), sysB(c.Sys)) {
		r.Failf("%s: system bytes %x, want %x", what, m.SystemBytes(), sysB(c.Sys))
	}
	if sb := m.SystemBytes(); len(sb) > 0 { // what is handed out is the caller's
		for i := range sb {
			sb[i] ^= 0xff
		}
		if !bytes.Equal(m.SystemBytes(), sysB(c.Sys)) {
			r.Failf("%s: changing what SystemBytes() returned changes the message", what)
		}
	}
	if m.Type() != "data message" {
		r.Failf("%s: type %q", what, m.Type())
	}
}

func runC01Msg(r *R, c c01Msg) {
	it := c.Item.expand()
	n := it.node()
	if d := diffNode(n, it, "item"); d != "" {
		r.Fatalf("constructed item: %s", d)
	}
	if !bytes.Equal(n.ToBytes(), it.enc()) {
		r.Fatalf("item %s encodes to %x.., want %x..", clip(c.Item.String(), 300), clipb(n.ToBytes()), clipb(it.enc()))
	}
	m := c.build(n)
	checkHeader(r, "constructed message", m, c)
	want := dataFrame(c.Sess, c.S, c.F, c.W, c.Sys, it).enc()
	got := m.ToBytes()
	if !bytes.Equal(got, want) {
		r.Fatalf("message S%dF%d %s encodes to %x.., want %x..", c.S, c.F, clip(c.Item.String(), 300), clipb(got), clipb(want))
	}
	for i := range got {
		got[i] ^= 0xff
	}
	for i, b := 0, n.ToBytes(); i < len(b); i++ {
		b[i] ^= 0xff
	}
	in := append([]byte{}, want...)
	d, ok := hsms.Parse(in)
	if !ok {
		r.Fatalf("the encoding of S%dF%d %s is not decodable (%x..)", c.S, c.F, clip(c.Item.String(), 300), clipb(want))
	}
	if !bytes.Equal(in, want) {
		r.Failf("decoding changed its input")
	}
	for i := range in {
		in[i] = 0xAA // the message must not depend on the input buffer
	}
	dm, isData := d.(*ast.DataMessage)
	if !isData {
		r.Fatalf("decoded message is a %T (%s)", d, d.Type())
	}
	checkHeader(r, "decoded message", dm, c)
	root, err := dm.Get()
	if err != nil {
		r.Fatalf("decoded message: Get(): %v", err)
	}
	if df := diffNode(root, it, "decoded item"); df != "" {
		r.Fatalf("S%dF%d %s: %s", c.S, c.F, clip(c.Item.String(), 300), df)
	}
	if again := dm.ToBytes(); !bytes.Equal(again, want) {
		r.Failf("encoding the decoded message gives %x.., want %x..", clipb(again), clipb(want))
	}
	checkPaths(r, dm, it, nil, 0)
	if !bytes.Equal(m.ToBytes(), want) {
		r.Failf("encoding the message again gives other bytes")
	}
	r.Label("kind " + it.K)
	if it.depth() > 1 {
		r.Label("nested")
	}
	if it.big() || len(want) > 270 {
		r.Label("more than 255 bytes or elements")
	}
	if len(want) > 65535 {
		r.Label("more than 65535 bytes")
	}
	if it.K != "" {
		r.NonTrivial()
	}
}

// checkPaths reads every item (a bounded number) by its index path.
func checkPaths(r *R, m *ast.DataMessage, it Item, path []int, depth int) {
	if it.K == "" {
		return
	}
	n, err := m.Get(path...)
	if err != nil {
		r.Failf("Get(%v): %v", path, err)
		return
	}
	if it.K != "L" {
		if !bytes.Equal(n.ToBytes(), it.enc()) {
			r.Failf("Get(%v) is %x, want %x", path, clipb(n.ToBytes()), clipb(it.enc()))
			return
		}
	}
	at := func(i int) []int { return append(append([]int{}, path...), i) }
	if it.K == "A" {
		if s, err := m.GetAscii(path...); err != nil || s != it.S {
			r.Failf("GetAscii(%v) = %q, %v, want %q", path, clip(s, 100), err, clip(it.S, 100))
		}
	}
	num := it.n()
	for i := 0; i < num && it.K != "L"; i++ {
		if i > 3 && i < num-2 {
			continue
		}
		switch it.K[0] {
		case 'B':
			if it.K == "B" {
				if v, err := m.GetByte(at(i)...); err != nil || v != it.B[i] {
					r.Failf("GetByte(%v) = %v, %v, want %v", at(i), v, err, it.B[i])
				}
			} else if v, err := m.GetBoolean(at(i)...); err != nil || v != it.O[i] {
				r.Failf("GetBoolean(%v) = %v, %v, want %v", at(i), v, err, it.O[i])
			}
		case 'I':
			if v, err := m.GetInt(at(i)...); err != nil || v != it.I[i] {
				r.Failf("GetInt(%v) = %v, %v, want %v", at(i), v, err, it.I[i])
			}
		case 'F':
			if v, err := m.GetFloat(at(i)...); err != nil || float32(v) != float32(it.F[i]) {
				r.Failf("GetFloat(%v) = %v, %v, want %v", at(i), v, err, it.F[i])
			}
		}
	}
	for i := range it.L {
		if i > 5 && i < len(it.L)-2 {
			continue
		}
		c := it.L[i]
		if c.K == "" {
			c.K = "L"
		}
		checkPaths(r, m, c, at(i), depth+1)
	}
}

func runC01Ctrl(r *R, c c01Ctrl) {
	sys := sysB(c.Sys)
	type tc struct {
		m     ast.HSMSMessage
		want  Frame
		typ   string
		stype byte
	}
	var x tc
	base := func(st byte) ast.HSMSMessage {
		switch st {
		case sSelectReq:
			return ast.NewHSMSMessageSelectReq(c.Sess, sys)
		case sDeselectReq:
			return ast.NewHSMSMessageDeselectReq(c.Sess, sys)
		}
		return ast.NewHSMSMessageLinktestReq(sys)
	}
	switch c.Kind {
	case 0:
		x = tc{base(sSelectReq), ctrlFrame(c.Sess, 0, 0, sSelectReq, c.Sys), "select.req", 1}
	case 1:
		x = tc{ast.NewHSMSMessageSelectRsp(base(sSelectReq), c.Status), ctrlFrame(c.Sess, 0, c.Status, sSelectRsp, c.Sys), "select.rsp", 2}
	case 2:
		x = tc{base(sDeselectReq), ctrlFrame(c.Sess, 0, 0, sDeselectReq, c.Sys), "deselect.req", 3}
	case 3:
		x = tc{ast.NewHSMSMessageDeselectRsp(base(sDeselectReq), c.Status), ctrlFrame(c.Sess, 0, c.Status, sDeselectRsp, c.Sys), "deselect.rsp", 4}
	case 4:
		x = tc{base(sLinktestReq), ctrlFrame(0xffff, 0, 0, sLinktestReq, c.Sys), "linktest.req", 5}
	case 5:
		x = tc{ast.NewHSMSMessageLinktestRsp(base(sLinktestReq)), ctrlFrame(0xffff, 0, 0, sLinktestRsp, c.Sys), "linktest.rsp", 6}
	case 6:
		b2 := c.ST
		if c.Status == 2 {
			b2 = c.PT
		}
		x = tc{ast.NewHSMSMessageRejectReq(c.Sess, c.PT, c.ST, sys, c.Status), ctrlFrame(c.Sess, b2, c.Status, sRejectReq, c.Sys), "reject.req", 7}
	case 7:
		x = tc{ast.NewHSMSMessageSeparateReq(c.Sess, sys), ctrlFrame(c.Sess, 0, 0, sSeparateReq, c.Sys), "separate.req", 9}
	case 8: // reject of a data message: byte 2 is PType 0 or SType 0
		m := c.Data.build(c.Data.Item.expand().node())
		x = tc{ast.NewHSMSMessageRejectReqFromMsg(m, c.Status), ctrlFrame(c.Data.Sess, 0, c.Status, sRejectReq, c.Data.Sys), "reject.req", 7}
	case 9: // reject of a control message
		st := []byte{sSelectReq, sDeselectReq, sLinktestReq}[int(c.ST)%3]
		b2 := st
		if c.Status == 2 {
			b2 = 0
		}
		sess := c.Sess
		if st == sLinktestReq {
			sess = 0xffff
		}
		x = tc{ast.NewHSMSMessageRejectReqFromMsg(base(st), c.Status), ctrlFrame(sess, b2, c.Status, sRejectReq, c.Sys), "reject.req", 7}
	case 10: // any header
		h := append([]byte{}, c.Header...)
		m := ast.NewHSMSControlMessage(h)
		full := make([]byte, 10)
		copy(full, c.Header)
		for i := range h {
			h[i] ^= 0xff
		}
		want := append([]byte{0, 0, 0, 10}, full...)
		if !bytes.Equal(m.ToBytes(), want) {
			r.Fatalf("control message with header %x encodes to %x", c.Header, m.ToBytes())
		}
		f, err := decFrame(want)
		d, ok := hsms.Parse(want)
		if full[5] == 0 {
			return // a data header
		}
		if ok != (err == nil) {
			r.Fatalf("control message with header %x: decodable %v, want %v", c.Header, ok, err == nil)
		}
		if !ok {
			return
		}
		names := map[byte]string{1: "select.req", 2: "select.rsp", 3: "deselect.req", 4: "deselect.rsp", 5: "linktest.req", 6: "linktest.rsp", 7: "reject.req", 9: "separate.req"}
		x = tc{m, f, names[f.SType], f.SType}
		if !bytes.Equal(d.ToBytes(), want) {
			r.Fatalf("control header %x decodes to %x", c.Header, d.ToBytes())
		}
	}
	for i := range sys {
		sys[i] ^= 0xff
	}
	want := x.want.enc()
	view := func(what string, m ast.HSMSMessage) {
		if !bytes.Equal(m.ToBytes(), want) {
			r.Failf("%s %s encodes to %x, want %x", what, x.typ, m.ToBytes(), want)
		}
		if m.Type() != x.typ {
			r.Failf("%s control message %x has type %q, want %q", what, want, m.Type(), x.typ)
		}
		if !bytes.Equal(m.SystemBytes(), sysB(x.want.Sys)) {
			r.Failf("%s %s: system bytes %x, want %x", what, x.typ, m.SystemBytes(), sysB(x.want.Sys))
		}
		for _, b := range [][]byte{m.SystemBytes(), m.ToBytes()} { // what is handed out is the caller's
			for i := range b {
				b[i] ^= 0xff
			}
		}
		if !bytes.Equal(m.ToBytes(), want) {
			r.Failf("%s %s: changing what SystemBytes() or ToBytes() returned changes the message to %x", what, x.typ, m.ToBytes())
		}
		cm, ok := m.(*ast.ControlMessage)
		if !ok {
			r.Failf("%s %s is a %T", what, x.typ, m)
			return
		}
		if cm.SessionID() != x.want.Session || cm.Status() != x.want.B3 {
			r.Failf("%s %s: session %d status %d, want %d %d", what, x.typ, cm.SessionID(), cm.Status(), x.want.Session, x.want.B3)
		}
	}
	view("constructed", x.m)
	d, ok := hsms.Parse(want)
	if !ok {
		r.Fatalf("control message %x (%s) is not decodable", want, x.typ)
	}
	view("decoded", d)
	r.Label(x.typ)
	r.NonTrivial()
}

func init() {
	shards("C01", 8, 8)
	register("C01", "message", "data messages with random item trees (all 14 formats, boundary values, sizes at the 255/65535 length boundaries), headers and ways of building; compared with a reference encoder; non-trivial: has an item",
		opts{quick: budget{1500, 30}, thorough: budget{20000, 300}},
		func(t *rapid.T) c01Msg { return genMsg(t, rng(t, "depth", 0, 4), true) }, runC01Msg,
		c01Msg{S: 1, F: 1, W: true, Dir: "H->E", Item: Item{K: "A", S: "x", Rep: 256}},
		c01Msg{S: 1, F: 1, Dir: "H->E", Item: Item{K: "L", L: []Item{iU(1, 1)}, Rep: 70000}},
		c01Msg{S: 6, F: 11, Dir: "H->E", Item: Item{K: "B", B: []byte{1}, Rep: 1<<24 - 1}},
		c01Msg{S: 6, F: 11, Dir: "H->E", Item: Item{K: "U8", U: []uint64{1 << 63}, Rep: 1<<21 - 1}},
		c01Msg{S: 6, F: 11, Dir: "H->E", Item: iL(Item{}, iL(), iA(""))},
	)
	register("C01", "control", "control messages of every type and arbitrary 10-byte headers against the reference encoding; every case counts",
		opts{quick: budget{1500, 15}, thorough: budget{20000, 60}},
		func(t *rapid.T) c01Ctrl {
			c := c01Ctrl{Kind: rng(t, "kind", 0, 10), Sess: genSession(t), Sys: genSys(t)}
			if oneIn(t, "wild", 6) {
				c.Sess = 0xffff
			}
			c.Status = byte(pick(t, "st", 0, 1, 2, 3, 4, rng(t, "stx", 0, 255)))
			c.PT, c.ST = rapid.Byte().Draw(t, "pt"), rapid.Byte().Draw(t, "stype")
			if c.Kind == 8 {
				m := genMsg(t, 1, false)
				c.Data = &m
			}
			if c.Kind == 10 {
				c.Header = rapid.SliceOfN(rapid.Byte(), 0, 14).Draw(t, "header")
				if len(c.Header) >= 6 && rng(t, "known", 0, 3) > 0 {
					c.Header[4] = 0
					c.Header[5] = byte(rng(t, "hst", 1, 10))
				}
			}
			return c
		}, runC01Ctrl)
}
