package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"

	"pgregory.net/rapid"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// C07: what one codec sends, another one receives unchanged, however the
// transport cuts the stream into pieces; truncated and oversized input is an error.

type c07Case struct {
	Proto   string // hsms json raw byte (raw and byte only inside fixlen)
	Fix     int    // 0: no FixLen, else its header size
	Little  bool
	MaxRecv int
	MaxSend int
	Buf     bool // wrapped in Bufio
	RBuf    int
	WBuf    int
	Msgs    []c07Msg
	Chunks  []int  // sizes of the pieces the reader hands out, cyclic; 0 is an empty read
	EOFWith bool   // the last piece arrives together with io.EOF
	Cut     int    // >0: the stream is cut after that many bytes (modulo its length)
	FailAt  int    // >0: the writer fails after that many bytes (modulo the length)
	Bad     string // a bad packet after the messages: "short", "garbage", "over", "huge", "nobody"
	BadByte []byte
}

type c07Msg struct {
	// hsms
	Ctrl bool    `json:",omitempty"`
	F    c07Frm  `json:",omitempty"`
	J    c07Json `json:",omitempty"`
	// raw and byte
	N    int  `json:",omitempty"`
	Fill byte `json:",omitempty"`
	// a message that cannot be sent
	Bogus bool `json:",omitempty"`
}

type c07Frm struct {
	Session uint16
	S, Fn   int
	W       bool
	Sys     uint32
	SType   byte
	B3      byte
	Empty   bool
	It      Item
}

func (f c07Frm) frame(ctrl bool) Frame {
	if ctrl {
		return ctrlFrame(f.Session, 0, f.B3, f.SType, f.Sys)
	}
	it := f.It
	if f.Empty {
		it = Item{}
	}
	return dataFrame(f.Session, f.S, f.Fn, f.W, f.Sys, it)
}

type c07Json struct {
	Kind int // 0: registered A, 1: registered by name B, 2: unregistered map, 3: string, 4: A by value
	A    JsonA
	B    JsonB
	M    map[string]JsonB
	S    string
}

// JsonA is registered with Register, JsonB with RegisterName.
type JsonA struct {
	Name string
	N    int64
	L    []int
	Sub  *JsonB
}
type JsonB struct {
	N    int
	Text string
	F    bool
}

func (j c07Json) value() interface{} {
	switch j.Kind {
	case 0:
		a := j.A
		return &a
	case 1:
		b := j.B
		return &b
	case 2:
		return j.M
	case 4:
		return j.A
	}
	return j.S
}

// want is what the receiver must deliver.
func (j c07Json) want() interface{} {
	switch j.Kind {
	case 0, 4:
		a := new(JsonA)
		b, _ := json.Marshal(j.A)
		json.Unmarshal(b, a)
		return a
	case 1:
		b := j.B
		return &b
	}
	var v interface{}
	b, _ := json.Marshal(j.value())
	json.Unmarshal(b, &v)
	return v
}

// chunkRW is a transport that hands out the stream in given pieces.
type chunkRW struct {
	data   []byte
	chunks []int
	i      int
	zeros  int
	eof    bool // the last piece together with io.EOF
	out    bytes.Buffer
	failAt int // -1: never
	closed int
}

func (c *chunkRW) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if len(c.chunks) > 0 {
		n = c.chunks[c.i%len(c.chunks)]
		c.i++
		if n == 0 {
			if c.zeros++; c.zeros%3 == 1 {
				return 0, nil
			}
			n = 1
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if c.eof && len(c.data) == 0 && n > 0 {
		return n, io.EOF
	}
	return n, nil
}

var errInjected = errors.New("injected write failure")

func (c *chunkRW) Write(p []byte) (int, error) {
	if c.failAt >= 0 && c.out.Len()+len(p) > c.failAt {
		n := c.failAt - c.out.Len()
		c.out.Write(p[:n])
		return n, errInjected
	}
	return c.out.Write(p)
}

func (c *chunkRW) Close() error { c.closed++; return nil }

// rawProto is an application's base protocol: the packet is the message.
type rawProto struct{}
type rawCodec struct{ rw io.ReadWriter }

func (rawProto) NewCodec(rw io.ReadWriter) (link.Codec, error) { return rawCodec{rw}, nil }
func (c rawCodec) Receive() (interface{}, error)               { return io.ReadAll(c.rw) }
func (c rawCodec) Close() error                                { return nil }
func (c rawCodec) Send(m interface{}) error {
	b, ok := m.([]byte)
	if !ok {
		return errors.New("not bytes")
	}
	for len(b) > 0 { // in pieces, as encoders do
		n := 1000
		if n > len(b) {
			n = len(b)
		}
		if _, err := c.rw.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

func (c c07Case) order() binary.ByteOrder {
	if c.Little {
		return binary.LittleEndian
	}
	return binary.BigEndian
}

func (c c07Case) proto() link.Protocol {
	var p link.Protocol
	switch c.Proto {
	case "hsms":
		p = codec.SECSII()
	case "json":
		j := codec.Json()
		j.Register(JsonA{})
		j.RegisterName("b", &JsonB{})
		p = j
	case "byte":
		p = codec.Byte()
	default:
		p = rawProto{}
	}
	if c.Fix > 0 {
		p = codec.FixLen(p, c.Fix, c.order(), c.MaxRecv, c.MaxSend)
	}
	if c.Buf {
		p = codec.Bufio(p, c.RBuf, c.WBuf)
	}
	return p
}

func limitFix(n, max int) int {
	switch n {
	case 1:
		return min(max, 0xff)
	case 2:
		return min(max, 0xffff)
	case 4:
		return min(max, 0xffffffff)
	}
	return max
}

func (c c07Case) head(n uint64) []byte {
	b := make([]byte, 8)
	switch c.Fix {
	case 1:
		b[0] = byte(n)
	case 2:
		c.order().PutUint16(b, uint16(n))
	case 4:
		c.order().PutUint32(b, uint32(n))
	case 8:
		c.order().PutUint64(b, n)
	}
	return b[:c.Fix]
}

func runC07(r *R, c c07Case) {
	out := &chunkRW{failAt: -1}
	snd, err := c.proto().NewCodec(out)
	if err != nil {
		r.Fatalf("NewCodec: %v", err)
	}
	type exp struct {
		end  int // the message is complete after that many bytes
		desc string
		eq   func(v interface{}) string
	}
	var want []exp
	var sendVals []interface{}
	for i, m := range c.Msgs {
		var v interface{}
		var payload []byte // nil: not known byte by byte
		var e exp
		switch c.Proto {
		case "hsms":
			f := m.F.frame(m.Ctrl)
			payload = f.enc()
			v = append([]byte{}, payload...)
			e.desc = fmt.Sprintf("HSMS message %x", clipb(payload))
			e.eq = func(v interface{}) string {
				hm, ok := v.(ast.HSMSMessage)
				if !ok {
					return fmt.Sprintf("is a %T", v)
				}
				if !bytes.Equal(hm.ToBytes(), f.enc()) {
					return fmt.Sprintf("is %x, want %x", clipb(hm.ToBytes()), clipb(f.enc()))
				}
				if dm, ok := hm.(*ast.DataMessage); ok {
					if d := diffNode(fromMsg(dm), m.F.itemNorm(), ""); d != "" && !m.F.Empty {
						return d
					}
				}
				return ""
			}
		case "json":
			v = m.J.value()
			w := m.J.want()
			e.desc = fmt.Sprintf("%#v", v)
			e.eq = func(v interface{}) string {
				if !reflect.DeepEqual(v, w) {
					return fmt.Sprintf("is %#v, want %#v", v, w)
				}
				return ""
			}
		default:
			b := bytes.Repeat([]byte{m.Fill}, m.N)
			if m.N > 0 {
				b[m.N-1]++
			}
			payload = b
			v = append([]byte{}, b...)
			e.desc = fmt.Sprintf("%d bytes %x", len(b), clipb(b))
			e.eq = func(v interface{}) string {
				g, ok := v.([]byte)
				if !ok {
					return fmt.Sprintf("is a %T", v)
				}
				if !bytes.Equal(g, b) {
					return fmt.Sprintf("is %d bytes %x, want %d bytes %x", len(g), clipb(g), len(b), clipb(b))
				}
				return ""
			}
		}
		before := out.out.Len()
		if m.Bogus {
			v = make(chan int)
			if err := snd.Send(v); err == nil {
				r.Failf("message %d: sending a %T succeeded", i, v)
			}
			if out.out.Len() != before {
				r.Failf("message %d: sending a %T failed but wrote %d bytes", i, v, out.out.Len()-before)
			}
			r.Label("unsendable message")
			continue
		}
		err := snd.Send(v)
		if c.Fix > 0 {
			plen := len(payload)
			if payload == nil {
				// what json.Encoder writes for the packet
				plen = jsonLen(m.J)
			}
			over := plen > limitFix(c.Fix, c.MaxSend)
			if over {
				if !errors.Is(err, codec.ErrTooLargePacket) {
					r.Failf("message %d of %d bytes, maximum send size %d: Send returned %v, want ErrTooLargePacket", i, plen, c.MaxSend, err)
				}
				if out.out.Len() != before {
					r.Failf("message %d: too large but %d bytes were written", i, out.out.Len()-before)
				}
				r.Label("over send limit")
				continue
			}
		}
		if err != nil {
			r.Fatalf("message %d (%s): Send: %v", i, e.desc, err)
		}
		got := append([]byte{}, out.out.Bytes()[before:]...)
		if payload != nil {
			w := payload
			if c.Fix > 0 {
				w = append(c.head(uint64(len(payload))), payload...)
			}
			if !bytes.Equal(got, w) {
				r.Failf("message %d: Send wrote %x, want %x", i, clipb(got), clipb(w))
			}
		} else if c.Fix > 0 {
			if len(got) < c.Fix || !bytes.Equal(got[:c.Fix], c.head(uint64(len(got)-c.Fix))) {
				r.Failf("message %d: packet %x has a wrong length prefix", i, clipb(got))
			}
		}
		e.end = out.out.Len()
		if c.Proto == "json" && c.Fix == 0 {
			e.end-- // the line feed is not needed
		}
		if c.Fix > 0 && len(got)-c.Fix > limitFix(c.Fix, c.MaxRecv) {
			// the receiver refuses it and everything after it
			e.eq = nil
		}
		want = append(want, e)
		sendVals = append(sendVals, v)
	}
	stream := append([]byte{}, out.out.Bytes()...)

	// A failing transport is reported by Send.
	if c.FailAt > 0 && len(stream) > 0 {
		at := c.FailAt % len(stream)
		fo := &chunkRW{failAt: at}
		fs, _ := c.proto().NewCodec(fo)
		ok := true
		for i, v := range sendVals {
			err := fs.Send(v)
			end := want[i].end
			if c.Proto == "json" && c.Fix == 0 {
				end++
			}
			if err == nil && end > at {
				r.Failf("message %d: the transport failed after %d bytes, but Send of a message that ends at byte %d succeeded", i, at, end)
			}
			if err != nil {
				if end <= at {
					r.Failf("message %d ends at byte %d, the transport fails after byte %d, but Send failed: %v", i, end, at, err)
				}
				ok = false
				break
			}
		}
		if !bytes.Equal(fo.out.Bytes(), stream[:at]) {
			r.Failf("with a transport that fails after %d bytes the stream is %x, want %x", at, clipb(fo.out.Bytes()), clipb(stream[:at]))
		}
		if !ok {
			r.Label("transport failure reported")
		}
	}

	end := "eof"
	switch {
	case c.Cut > 0 && len(stream) > 0:
		stream = stream[:c.Cut%len(stream)]
		r.Label("cut stream")
		end = "cut"
	case c.Bad != "":
		b := c.bad()
		if b != nil {
			stream = append(stream, b...)
			end = "bad"
			r.Label("bad packet: " + c.Bad)
		}
	}
	total := len(stream)

	in := &chunkRW{data: stream, chunks: c.Chunks, eof: c.EOFWith, failAt: -1}
	rcv, err := c.proto().NewCodec(in)
	if err != nil {
		r.Fatalf("NewCodec: %v", err)
	}
	var vals []interface{}
	var eqs []func(interface{}) string
	for i, e := range want {
		v, err := rcv.Receive()
		if e.eq == nil {
			if end == "cut" && e.end > total {
				if err == nil {
					r.Failf("Receive delivered %v from a stream cut at byte %d", v, total)
				}
			} else if !errors.Is(err, codec.ErrTooLargePacket) {
				r.Failf("message %d is larger than the receive limit %d: Receive returned %v, %v", i, c.MaxRecv, clip(fmt.Sprintf("%v", v), 200), err)
			}
			r.Label("over receive limit")
			end = "over"
			break
		}
		if e.end > total {
			if err == nil {
				r.Failf("the stream is cut at byte %d, but Receive delivered message %d, which ends at byte %d: %v", total, i, e.end, clip(fmt.Sprintf("%v", v), 300))
			}
			end = "done"
			break
		}
		if err != nil {
			r.Failf("message %d (%s) was sent but Receive returned %v", i, clip(e.desc, 300), err)
			r.Stop()
		}
		if d := e.eq(v); d != "" {
			r.Failf("message %d arrived changed: it %s", i, d)
			r.Stop()
		}
		vals, eqs = append(vals, v), append(eqs, e.eq)
	}
	switch end {
	case "eof":
		if v, err := rcv.Receive(); err != io.EOF {
			r.Failf("after the last message Receive returned %v, %v, want the end of the stream", clip(fmt.Sprintf("%v", v), 300), err)
		}
	case "cut", "bad":
		v, err := rcv.Receive()
		if err == nil {
			r.Failf("Receive delivered %v from a damaged stream (%s)", clip(fmt.Sprintf("%v", v), 300), end)
		}
		if end == "bad" && c.Fix > 0 && (c.Bad == "over" || c.Bad == "huge") && !errors.Is(err, codec.ErrTooLargePacket) {
			r.Failf("a packet beyond the receive limit gave %v, want ErrTooLargePacket", err)
		}
	}
	for i, v := range vals {
		if d := eqs[i](v); d != "" {
			r.Failf("message %d changed after it had been delivered: it %s", i, d)
		}
	}
	r.Label(c.Proto + map[bool]string{true: "/fixlen"}[c.Fix > 0] + map[bool]string{true: "/bufio"}[c.Buf])
	if len(vals) > 0 {
		r.NonTrivial()
	}
}

func fromMsg(m *ast.DataMessage) ast.ItemNode {
	n, err := m.Get()
	if err != nil {
		return ast.NewEmptyItemNode()
	}
	return n
}

func (f c07Frm) itemNorm() Item { return f.It.expand() }

func jsonLen(j c07Json) int {
	head := ""
	switch j.Kind {
	case 0, 4:
		t := reflect.TypeOf(JsonA{})
		head = t.PkgPath() + "/" + t.Name()
	case 1:
		head = "b"
	}
	b, _ := json.Marshal(struct {
		Head string
		Body interface{}
	}{head, j.value()})
	return len(b) + 1
}

// bad is a packet that must not be delivered.
func (c c07Case) bad() []byte {
	wrap := func(p []byte) []byte {
		if c.Fix == 0 {
			return p
		}
		if len(p) > limitFix(c.Fix, c.MaxRecv) {
			return nil
		}
		return append(c.head(uint64(len(p))), p...)
	}
	switch c.Bad {
	case "short": // an HSMS message that is too short to have a header
		if c.Proto != "hsms" {
			return nil
		}
		n := int(c.Fill(0)) % 10
		return wrap(append([]byte{0, 0, 0, byte(n)}, make([]byte, n)...))
	case "garbage":
		switch c.Proto {
		case "hsms":
			b := append([]byte{0, 0, 0, byte(10 + len(c.BadByte)), 0, 1, 1, 1, 0, 0, 0, 0, 0, 1}, c.BadByte...)
			if _, err := decFrame(b); err == nil {
				return nil
			}
			return wrap(b)
		case "json":
			return wrap([]byte(`{"Head":"b","Body":{"N":"text"}}` + "\n"))
		}
		return nil
	case "nobody":
		if c.Proto != "json" {
			return nil
		}
		return wrap([]byte(`{"Head":"b"}` + "\n"))
	case "over":
		if c.Fix == 0 {
			return nil
		}
		l := limitFix(c.Fix, c.MaxRecv)
		if c.Fix < 8 && l+1 >= 1<<(8*c.Fix) || l > 1<<20 {
			return nil
		}
		return append(c.head(uint64(l+1)), make([]byte, l+1)...)
	case "huge":
		if c.Fix != 8 && c.Fix != 4 {
			return nil
		}
		n := ^uint64(0) >> (uint(c.Fill(0)) % 4)
		if c.Fix == 4 {
			n = 0xffffffff >> (uint(c.Fill(0)) % 4)
		}
		return append(c.head(n), 1, 2, 3)
	}
	return nil
}

func (c c07Case) Fill(i int) byte {
	if i < len(c.BadByte) {
		return c.BadByte[i]
	}
	return 0
}

func genText(t *rapid.T, max int) string { return rapid.StringN(0, max, -1).Draw(t, "text") }

func genC07(t *rapid.T) c07Case {
	c := c07Case{Proto: pick(t, "proto", "hsms", "hsms", "json", "raw", "byte"), Buf: coin(t, "buf")}
	if c.Proto == "raw" || c.Proto == "byte" || oneIn(t, "fixlen", 3) {
		c.Fix = pick(t, "fix", 1, 2, 4, 8)
		c.Little = coin(t, "little")
		sizes := []int{rng(t, "max", 0, 300), 1 << 16, 255, 256, 65535, 65536, 1 << 20}
		c.MaxRecv, c.MaxSend = rapid.SampledFrom(sizes[1:]).Draw(t, "maxr"), rapid.SampledFrom(sizes[1:]).Draw(t, "maxs")
		if oneIn(t, "tight", 4) {
			c.MaxRecv = sizes[0]
		}
		if oneIn(t, "tight2", 4) {
			c.MaxSend = rng(t, "max2", 0, 300)
		}
		if c.Fix == 8 && oneIn(t, "maxint", 5) {
			c.MaxSend = int(^uint(0) >> 1)
		}
	}
	if c.Buf {
		c.RBuf = pick(t, "rbuf", 0, 1, 16, 17, 64, 4096, rng(t, "rbufx", 1, 300))
		c.WBuf = pick(t, "wbuf", 0, 1, 16, 17, 64, 4096, rng(t, "wbufx", 1, 300))
	}
	for i, n := 0, rng(t, "msgs", 0, 6); i < n; i++ {
		var m c07Msg
		if oneIn(t, "bogus", 12) {
			m.Bogus = true
		}
		switch c.Proto {
		case "hsms":
			m.Ctrl = oneIn(t, "ctrl", 4)
			m.F.Session, m.F.Sys = genSession(t), genSys(t)
			if m.Ctrl {
				m.F.SType = pick(t, "stype", byte(1), 2, 3, 4, 5, 6, 9)
				if m.F.SType%2 == 0 && m.F.SType != 6 {
					m.F.B3 = byte(rng(t, "status", 0, 3))
				}
				break
			}
			m.F.S, m.F.Fn = genSF(t)
			m.F.W = m.F.Fn%2 == 1 && coin(t, "w")
			if m.F.Empty = oneIn(t, "empty", 4); !m.F.Empty {
				m.F.It = genItem(t, rng(t, "depth", 0, 2), false)
				if oneIn(t, "large", 8) {
					m.F.It = Item{K: "B", B: []byte{byte(rng(t, "bb", 0, 255))}, Rep: pick(t, "bign", 245, 255, 256, 4096, 65535, 65536, 70000, 200000)}
				}
			}
		case "json":
			k := rng(t, "jk", 0, 4)
			m.J.Kind = k
			genB := func() JsonB {
				return JsonB{rng(t, "jn", -1000, 1000), genText(t, 8), coin(t, "jf")}
			}
			switch k {
			case 0, 4:
				m.J.A = JsonA{Name: genText(t, 20), N: rapid.Int64().Draw(t, "n")}
				if coin(t, "l") {
					m.J.A.L = rapid.SliceOfN(rapid.Int(), 0, 5).Draw(t, "ll")
				}
				if coin(t, "sub") {
					b := genB()
					m.J.A.Sub = &b
				}
			case 1:
				m.J.B = genB()
			case 2:
				m.J.M = map[string]JsonB{}
				for i, n := 0, rng(t, "mn", 0, 3); i < n; i++ {
					m.J.M[genText(t, 5)] = genB()
				}
			default:
				m.J.S = genText(t, pick(t, "sl", 10, 300))
			}
		case "raw":
			m.Fill = rapid.Byte().Draw(t, "fill")
			m.N = pick(t, "n", 0, 1, rng(t, "nx", 0, 600), 255, 256, c.MaxRecv%200000, c.MaxSend%200000, (c.MaxRecv+1)%200000, 65535, 65536, 100000)
		case "byte":
			m.Fill = rapid.Byte().Draw(t, "fill")
			m.N = pick(t, "n", 1, rng(t, "nx", 1, 600), 255, 256, 1000, 4092)
		}
		c.Msgs = append(c.Msgs, m)
	}
	switch rng(t, "chunking", 0, 4) {
	case 0: // as many bytes as asked for
	case 1:
		c.Chunks = []int{1}
	default:
		for i, n := 0, rng(t, "chunks", 1, 12); i < n; i++ {
			c.Chunks = append(c.Chunks, pick(t, "ch", 0, 1, 2, 3, 4, 5, 9, 10, 13, 14, 15, rng(t, "chx", 1, 100), 1000, 70000))
		}
	}
	c.EOFWith = coin(t, "eofwith")
	switch rng(t, "ending", 0, 3) {
	case 0:
		c.Cut = rng(t, "cut", 1, 1<<20)
	case 1:
		c.Bad = pick(t, "bad", "short", "garbage", "over", "huge", "nobody")
		c.BadByte = rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "badb")
	}
	if oneIn(t, "fail", 3) {
		c.FailAt = rng(t, "failat", 1, 1<<20)
	}
	return c
}

func init() {
	shards("C07", 8, 8)
	register("C07", "stream", "0-6 messages sent through a codec (HSMS, JSON, raw or byte base; alone, FixLen, Bufio, both; generated buffer sizes, byte orders, limits) and received from a transport that cuts the stream into generated pieces (1 byte, empty reads, data with EOF), is cut at a generated byte, fails at a generated byte when writing, or carries a malformed or oversized packet; every delivered message compared when it arrives and again at the end; non-trivial: a message was delivered",
		opts{quick: budget{18000, 20}, thorough: budget{400000, 400}}, genC07, runC07)
}
