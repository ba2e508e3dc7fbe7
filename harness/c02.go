package main

import (
	"bytes"
	"encoding/binary"
	"runtime"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
	"pgregory.net/rapid"
)

// c02Case is a byte string: Pre, then Rep copies of Unit, then Post; if
// FixLen the four length bytes in front are set to the right length.
type c02Case struct {
	Pre    []byte `json:"pre"`
	Unit   []byte `json:"unit,omitempty"`
	Rep    int    `json:"rep,omitempty"`
	Post   []byte `json:"post,omitempty"`
	FixLen bool   `json:"fixlen,omitempty"`
}

func (c c02Case) bytes() []byte {
	b := append([]byte{}, c.Pre...)
	for i := 0; i < c.Rep; i++ {
		b = append(b, c.Unit...)
	}
	b = append(b, c.Post...)
	if c.FixLen && len(b) >= 4 {
		binary.BigEndian.PutUint32(b, uint32(len(b)-4))
	}
	return b
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func runC02(r *R, c c02Case) {
	in := c.bytes()
	f, err := decFrame(in)
	keep := append([]byte{}, in...)
	before := allocated()
	m, ok := hsms.Parse(in)
	used := allocated() - before
	if used > 4<<20+3000*uint64(len(in)) {
		r.Failf("decoding %d bytes allocates %d bytes", len(in), used)
	}
	if !bytes.Equal(in, keep) {
		r.Failf("decoding changed its input")
	}
	if ok != (err == nil) {
		r.Fatalf("%d bytes %x: decodable %v, want %v", len(in), clipb(in), ok, err == nil)
	}
	if !ok {
		r.Label("rejected")
		if len(in) >= 14 && uint64(binary.BigEndian.Uint32(in)) == uint64(len(in)-4) {
			r.Label("rejected although the length is right")
			r.NonTrivial()
		}
		return
	}
	r.NonTrivial()
	if f.SType != 0 {
		r.Label("control")
		for i := range in { // the buffer is the caller's to use again
			in[i] ^= 0xff
		}
		if !bytes.Equal(m.ToBytes(), keep) {
			r.Failf("control message %x decoded as %x", keep, m.ToBytes())
		}
		if _, isC := m.(*ast.ControlMessage); !isC {
			r.Failf("control message %x decoded as a %T", keep, m)
		}
		return
	}
	dm, isD := m.(*ast.DataMessage)
	if !isD {
		r.Fatalf("data message %x decoded as a %T", clipb(keep), m)
	}
	checkHeader(r, "decoded message", dm, c01Msg{S: f.S(), F: f.F(), W: f.W(), Sess: f.Session, Sys: f.Sys})
	root, gerr := dm.Get()
	if gerr != nil {
		r.Fatalf("Get(): %v", gerr)
	}
	if d := diffNode(root, f.Item, "item"); d != "" {
		r.Fatalf("%x: %s", clipb(keep), d)
	}
	want := f
	want.Body = nil
	for i := range in { // the buffer is the caller's to use again
		in[i] ^= 0xff
	}
	checkHeader(r, "decoded message after its buffer was used again", dm, c01Msg{S: f.S(), F: f.F(), W: f.W(), Sess: f.Session, Sys: f.Sys})
	if d := diffNode(root, f.Item, "item"); d != "" {
		r.Fatalf("%x: after its buffer was used again: %s", clipb(keep), d)
	}
	if !bytes.Equal(dm.ToBytes(), want.enc()) {
		r.Failf("%x: the decoded message encodes to %x, want %x", clipb(keep), clipb(dm.ToBytes()), clipb(want.enc()))
	}
	if !bytes.Equal(want.enc(), keep) {
		r.Label("accepted, not in minimal form")
	}
	r.Label("data")
}

func genFrameBytes(t *rapid.T) []byte {
	m := genMsg(t, rng(t, "depth", 0, 3), false)
	f := dataFrame(m.Sess, m.S, m.F, m.W, m.Sys, m.Item)
	if oneIn(t, "ctrl", 6) {
		f = ctrlFrame(m.Sess, byte(m.S), byte(m.F), byte(rng(t, "stype", 1, 9)), m.Sys)
	} else if oneIn(t, "wevenbit", 8) {
		f.B2 |= 0x80
	}
	if f.SType == 0 {
		f.Body = m.Item.expand().encTo([]byte{}, pick(t, "lb", 0, 0, 1, 2, 3))
	}
	return f.enc()
}

func genC02(t *rapid.T) c02Case {
	switch rng(t, "shape", 0, 19) {
	case 0:
		return c02Case{Pre: rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "raw"), FixLen: coin(t, "fix")}
	case 1: // a right header with a random item body
		b := []byte{0, 0, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 1}
		n := rng(t, "n", 0, 12)
		for i := 0; i < n; i++ {
			k := pick(t, "k", kinds...)
			code := codes[k]
			if oneIn(t, "badcode", 8) {
				code = byte(rng(t, "code", 0, 63))
			}
			lb := rng(t, "lb", 0, 3)
			b = append(b, code<<2|byte(lb))
			ln := rng(t, "len", 0, 9)
			for j := lb - 1; j >= 0; j-- {
				b = append(b, byte(ln>>(8*j)))
			}
			if k != "L" && rng(t, "short", 0, 5) > 0 {
				d := rapid.SliceOfN(rapid.Byte(), ln, ln).Draw(t, "data")
				if k == "BOOLEAN" { // any byte but 0 is true
					for j := range d {
						d[j] = pick(t, "bool", 0, 1, 2, 0x10, 0x7f, 0x80, 0xff, d[j])
					}
				}
				b = append(b, d...)
			}
		}
		return c02Case{Pre: b, FixLen: true}
	case 2: // deep nesting
		d := pick(t, "nest", 1, 2, 3, 5, 10, 50, 100, 100, 998, 999, 1000, 1001, 1002, 5000, 100000)
		return c02Case{Pre: []byte{0, 0, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 1}, Unit: []byte{1, 1}, Rep: d, Post: pick(t, "core", []byte{}, []byte{1, 0}, []byte{0x21, 0}, []byte{0x21, 2, 5, 6}), FixLen: true}
	case 3: // declared lengths far beyond the input
		k := pick(t, "k", kinds...)
		b := []byte{0, 0, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 1}
		n := rng(t, "lists", 1, 6)
		for i := 0; i < n; i++ {
			b = append(b, 3, 0xff, 0xff, byte(rng(t, "x", 0, 255)))
		}
		b = append(b, codes[k]<<2|3, 0xff, 0xff, byte(rng(t, "y", 0, 255)))
		c := c02Case{Pre: b, FixLen: rng(t, "fix", 0, 3) > 0}
		if !c.FixLen {
			binary.BigEndian.PutUint32(c.Pre, rapid.Uint32().Draw(t, "msglen"))
		}
		return c
	case 4, 5, 6, 7, 8: // small random body
		return c02Case{Pre: append([]byte{0, 0, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 1}, rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "body")...), FixLen: true}
	case 9: // many elements
		n := pick(t, "elems", 254, 255, 256, 257, 300, 511, 512, 513, 1000, 2000, 4096, 65535, 65536)
		unit := pick(t, "unit", []byte{1, 0}, []byte{0xa5, 1, 7}, []byte{0x41, 0})
		pre := []byte{0, 0, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 1, 3, byte(n >> 16), byte(n >> 8), byte(n)}
		return c02Case{Pre: pre, Unit: unit, Rep: n + rng(t, "more", -1, 1), FixLen: true}
	}
	// a valid message, possibly damaged
	b := genFrameBytes(t)
	k := rng(t, "mutations", 0, 3)
	for i := 0; i < k && len(b) > 0; i++ {
		p := rng(t, "pos", 0, len(b)-1)
		if coin(t, "late") && len(b) > 14 {
			p = rng(t, "bodypos", 14, len(b)-1)
		}
		switch rng(t, "mut", 0, 4) {
		case 0:
			b[p] ^= 1 << uint(rng(t, "bit", 0, 7))
		case 1:
			b[p] = rapid.Byte().Draw(t, "byte")
		case 2:
			b = append(b[:p:p], b[p+1:]...)
		case 3:
			b = append(b[:p:p], append([]byte{rapid.Byte().Draw(t, "ins")}, b[p:]...)...)
		case 4:
			b = b[:p]
		}
	}
	return c02Case{Pre: b, FixLen: rng(t, "fix", 0, 4) > 0}
}

func init() {
	shards("C02", 8, 8)
	hdr := []byte{0, 0, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 1}
	h := func(b ...byte) c02Case { return c02Case{Pre: append(append([]byte{}, hdr...), b...), FixLen: true} }
	register("C02", "bytes", "random bytes, valid messages with non-minimal lengths, mutated messages, deep nesting, huge declared lengths and counts, judged by a strict reference decoder (acceptance, values, re-encoding, memory); non-trivial: accepted, or rejected although the message length is right",
		opts{quick: budget{4000, 40}, thorough: budget{60000, 400}}, genC02, runC02,
		h(3, 0xff, 0xff, 0xff), h(0x23, 0xff, 0xff, 0xff), h(0x41, 1, 0x80), h(0xa5, 0, 0xa5, 0), h(0xa9, 1, 0), h(0x25, 1, 2), h(0x25, 3, 0x80, 0x40, 0), h(0x91, 4, 0x7f, 0x80, 0, 0), h(0x92, 0, 4, 0, 0, 0, 0),
		c02Case{Pre: hdr, Unit: []byte{1, 1}, Rep: 2000000, FixLen: true},
	)
}
