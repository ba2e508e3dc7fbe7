package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// Item is the reference model of a SECS-II item, independent of the code
// under test. K is the format as written in SML; "" is the absent item.
// Rep repeats the values, so that large items have small descriptions.
type Item struct {
	K   string    `json:"k"`
	L   []Item    `json:"l,omitempty"`
	B   []byte    `json:"b,omitempty"`
	O   []bool    `json:"o,omitempty"`
	I   []int64   `json:"i,omitempty"`
	U   []uint64  `json:"u,omitempty"`
	F   []float64 `json:"f,omitempty"`
	S   string    `json:"s,omitempty"`
	Rep int       `json:"rep,omitempty"`
}

func rep[T any](s []T, n int) []T {
	if n <= 1 {
		return s
	}
	out := make([]T, 0, len(s)*n)
	for i := 0; i < n; i++ {
		out = append(out, s...)
	}
	return out
}

// expand removes Rep.
func (it Item) expand() Item {
	o := it
	o.Rep = 0
	o.B, o.O, o.I, o.U, o.F = rep(it.B, it.Rep), rep(it.O, it.Rep), rep(it.I, it.Rep), rep(it.U, it.Rep), rep(it.F, it.Rep)
	if it.Rep > 1 {
		o.S = strings.Repeat(it.S, it.Rep)
	}
	if it.L != nil {
		l := make([]Item, len(it.L))
		for i := range it.L {
			l[i] = it.L[i].expand()
		}
		o.L = rep(l, it.Rep)
	}
	return o
}

var codes = map[string]byte{"L": 0, "B": 0o10, "BOOLEAN": 0o11, "A": 0o20, "I8": 0o30, "I1": 0o31, "I2": 0o32, "I4": 0o34, "F8": 0o40, "F4": 0o44, "U8": 0o50, "U1": 0o51, "U2": 0o52, "U4": 0o54}
var kindOf = func() (a [64]string) {
	for k, c := range codes {
		a[c] = k
	}
	return
}()
var kinds = []string{"L", "B", "BOOLEAN", "A", "I1", "I2", "I4", "I8", "U1", "U2", "U4", "U8", "F4", "F8"}

func width(k string) int {
	switch k {
	case "I1", "U1", "B", "BOOLEAN", "A":
		return 1
	case "I2", "U2":
		return 2
	case "I4", "U4", "F4":
		return 4
	case "I8", "U8", "F8":
		return 8
	}
	return 0
}

func (it Item) n() int {
	switch {
	case it.K == "L":
		return len(it.L)
	case it.K == "B":
		return len(it.B)
	case it.K == "BOOLEAN":
		return len(it.O)
	case it.K == "A":
		return len(it.S)
	case strings.HasPrefix(it.K, "I"):
		return len(it.I)
	case strings.HasPrefix(it.K, "U"):
		return len(it.U)
	case strings.HasPrefix(it.K, "F"):
		return len(it.F)
	}
	return 0
}

// enc is the SEMI E5 encoding with minimal length bytes (it must be expanded).
func (it Item) enc() []byte { return it.encTo(nil, 0) }

// encTo appends the encoding with at least lb length bytes.
func (it Item) encTo(out []byte, lb int) []byte {
	if it.K == "" {
		return out
	}
	n := it.n()
	if it.K != "L" {
		n *= width(it.K)
	}
	need := 1
	if n > 0xFFFF {
		need = 3
	} else if n > 0xFF {
		need = 2
	}
	if lb > need {
		need = lb
	}
	out = append(out, codes[it.K]<<2|byte(need))
	for i := need - 1; i >= 0; i-- {
		out = append(out, byte(n>>(8*i)))
	}
	switch it.K {
	case "L":
		for _, c := range it.L {
			if c.K == "" {
				out = append(out, 1, 0) // an absent item inside a list is <L[0]>
				continue
			}
			out = c.encTo(out, lb)
		}
	case "B":
		out = append(out, it.B...)
	case "BOOLEAN":
		for _, b := range it.O {
			if b {
				out = append(out, 1)
			} else {
				out = append(out, 0)
			}
		}
	case "A":
		out = append(out, it.S...)
	case "I1", "I2", "I4", "I8":
		w := width(it.K)
		for _, v := range it.I {
			for i := w - 1; i >= 0; i-- {
				out = append(out, byte(uint64(v)>>(8*i)))
			}
		}
	case "U1", "U2", "U4", "U8":
		w := width(it.K)
		for _, v := range it.U {
			for i := w - 1; i >= 0; i-- {
				out = append(out, byte(v>>(8*i)))
			}
		}
	case "F4":
		for _, v := range it.F {
			out = binary.BigEndian.AppendUint32(out, math.Float32bits(float32(v)))
		}
	case "F8":
		for _, v := range it.F {
			out = binary.BigEndian.AppendUint64(out, math.Float64bits(v))
		}
	}
	return out
}

var errBad = errors.New("not decodable")

const maxNest = 1000

// decItem decodes one item at the start of b and returns the rest.
func decItem(b []byte, depth int) (Item, []byte, error) {
	var it Item
	if len(b) < 1 {
		return it, nil, errBad
	}
	code, lb := b[0]>>2, int(b[0]&3)
	it.K = kindOf[code]
	if it.K == "" || lb == 0 || len(b) < 1+lb {
		return it, nil, errBad
	}
	n := 0
	for i := 0; i < lb; i++ {
		n = n<<8 | int(b[1+i])
	}
	b = b[1+lb:]
	if it.K == "L" {
		if depth >= maxNest {
			return it, nil, errBad
		}
		if n > len(b) { // every element takes at least two bytes
			return it, nil, errBad
		}
		it.L = make([]Item, 0, n)
		for i := 0; i < n; i++ {
			c, r, err := decItem(b, depth+1)
			if err != nil {
				return it, nil, err
			}
			it.L = append(it.L, c)
			b = r
		}
		return it, b, nil
	}
	w := width(it.K)
	if n > len(b) || n%w != 0 {
		return it, nil, errBad
	}
	d := b[:n]
	b = b[n:]
	switch it.K {
	case "B":
		it.B = append([]byte{}, d...)
	case "BOOLEAN":
		for _, x := range d {
			it.O = append(it.O, x != 0)
		}
	case "A":
		for _, x := range d {
			if x > 127 {
				return it, nil, errBad
			}
		}
		it.S = string(d)
	case "F4", "F8":
		for i := 0; i < n; i += w {
			var f float64
			if w == 4 {
				f = float64(math.Float32frombits(binary.BigEndian.Uint32(d[i:])))
			} else {
				f = math.Float64frombits(binary.BigEndian.Uint64(d[i:]))
			}
			if math.IsNaN(f) || math.IsInf(f, 0) {
				return it, nil, errBad
			}
			it.F = append(it.F, f)
		}
	default:
		for i := 0; i < n; i += w {
			var v uint64
			for j := 0; j < w; j++ {
				v = v<<8 | uint64(d[i+j])
			}
			if it.K[0] == 'U' {
				it.U = append(it.U, v)
			} else {
				s := uint(64 - 8*w)
				it.I = append(it.I, int64(v<<s)>>s)
			}
		}
	}
	return it, b, nil
}

// Frame is a reference HSMS message.
type Frame struct {
	Session uint16 `json:"session"`
	B2, B3  byte   // header bytes 2 and 3
	PType   byte   `json:"ptype,omitempty"`
	SType   byte   `json:"stype"`
	Sys     uint32 `json:"sys"`
	Item    Item   `json:"item"`
	Body    []byte `json:"body,omitempty"` // raw body, overrides Item
}

func (f Frame) S() int  { return int(f.B2 & 0x7f) }
func (f Frame) F() int  { return int(f.B3) }
func (f Frame) W() bool { return f.B2&0x80 != 0 }

func dataFrame(session uint16, s, fn int, w bool, sys uint32, it Item) Frame {
	b2 := byte(s)
	if w {
		b2 |= 0x80
	}
	return Frame{Session: session, B2: b2, B3: byte(fn), Sys: sys, Item: it}
}

func ctrlFrame(session uint16, b2, b3, stype byte, sys uint32) Frame {
	return Frame{Session: session, B2: b2, B3: b3, SType: stype, Sys: sys}
}

const (
	sSelectReq   = 1
	sSelectRsp   = 2
	sDeselectReq = 3
	sDeselectRsp = 4
	sLinktestReq = 5
	sLinktestRsp = 6
	sRejectReq   = 7
	sSeparateReq = 9
)

func (f Frame) header() []byte {
	h := []byte{byte(f.Session >> 8), byte(f.Session), f.B2, f.B3, f.PType, f.SType}
	return binary.BigEndian.AppendUint32(h, f.Sys)
}

func (f Frame) enc() []byte {
	body := f.Body
	if body == nil {
		body = f.Item.expand().enc()
	}
	out := binary.BigEndian.AppendUint32(nil, uint32(10+len(body)))
	out = append(out, f.header()...)
	return append(out, body...)
}

// decFrame decodes one complete HSMS message (length bytes included), strictly.
func decFrame(b []byte) (Frame, error) {
	var f Frame
	if len(b) < 14 || uint64(binary.BigEndian.Uint32(b)) != uint64(len(b)-4) {
		return f, errBad
	}
	f.Session = binary.BigEndian.Uint16(b[4:])
	f.B2, f.B3, f.PType, f.SType = b[6], b[7], b[8], b[9]
	f.Sys = binary.BigEndian.Uint32(b[10:])
	f.Body = b[14:]
	if f.PType != 0 {
		return f, errBad
	}
	if f.SType != 0 {
		switch f.SType {
		case 1, 2, 3, 4, 5, 6, 7, 9:
			if len(f.Body) != 0 {
				return f, errBad
			}
			return f, nil
		}
		return f, errBad
	}
	if f.W() && f.F()%2 == 0 {
		return f, errBad
	}
	if len(f.Body) == 0 {
		return f, nil
	}
	it, rest, err := decItem(f.Body, 0)
	if err != nil || len(rest) != 0 {
		return f, errBad
	}
	f.Item = it
	return f, nil
}

// node builds the item with the constructors of the code under test (it must
// be expanded).
func (it Item) node() ast.ItemNode {
	if it.Rep > 1 {
		it = it.expand()
	}
	switch it.K {
	case "":
		return ast.NewEmptyItemNode()
	case "L":
		v := make([]interface{}, len(it.L))
		for i := range it.L {
			v[i] = it.L[i].node()
		}
		return ast.NewListNode(v...)
	case "B":
		v := make([]interface{}, len(it.B))
		for i := range it.B {
			v[i] = int(it.B[i])
		}
		return ast.NewBinaryNode(v...)
	case "BOOLEAN":
		v := make([]interface{}, len(it.O))
		for i := range it.O {
			v[i] = it.O[i]
		}
		return ast.NewBooleanNode(v...)
	case "A":
		return ast.NewASCIINode(it.S)
	case "I1", "I2", "I4", "I8":
		v := make([]interface{}, len(it.I))
		for i := range it.I {
			v[i] = it.I[i]
		}
		return ast.NewIntNode(width(it.K), v...)
	case "U1", "U2", "U4", "U8":
		v := make([]interface{}, len(it.U))
		for i := range it.U {
			v[i] = it.U[i]
		}
		return ast.NewUintNode(width(it.K), v...)
	case "F4", "F8":
		v := make([]interface{}, len(it.F))
		for i := range it.F {
			v[i] = it.F[i]
		}
		return ast.NewFloatNode(width(it.K), v...)
	}
	panic("harness: kind " + it.K)
}

// diffNode compares a node's observable format, size and values with the
// expanded reference item; "" means equal.
func diffNode(n ast.ItemNode, it Item, path string) string {
	if n == nil {
		return path + ": no item"
	}
	want := map[byte]string{'L': "*ast.ListNode", 'B': "*ast.BinaryNode", 'A': "*ast.ASCIINode", 'I': "*ast.IntNode", 'U': "*ast.UintNode", 'F': "*ast.FloatNode"}
	if it.K == "" {
		if got := fmt.Sprintf("%T", n); got != "ast.emptyItemNode" {
			return fmt.Sprintf("%s: item is %s, want no item", path, got)
		}
		return ""
	}
	w := want[it.K[0]]
	if it.K == "BOOLEAN" {
		w = "*ast.BooleanNode"
	}
	if got := fmt.Sprintf("%T", n); got != w {
		return fmt.Sprintf("%s: item is a %s, want %s (%s)", path, got, w, it.K)
	}
	if n.Size() != it.n() {
		return fmt.Sprintf("%s: size %d, want %d", path, n.Size(), it.n())
	}
	if len(n.Variables()) != 0 {
		return fmt.Sprintf("%s: has variables %q", path, n.Variables())
	}
	bad := func(i int, got, want any) string {
		return fmt.Sprintf("%s: %s value %d is %v, want %v", path, it.K, i, got, want)
	}
	switch vs := n.Values().(type) {
	case []ast.ItemNode:
		if len(vs) != len(it.L) {
			return fmt.Sprintf("%s: %d elements, want %d", path, len(vs), len(it.L))
		}
		for i := range vs {
			c := it.L[i]
			if c.K == "" {
				c = Item{K: "L"}
			}
			if d := diffNode(vs[i], c, fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case string:
		if vs != it.S {
			return bad(0, fmt.Sprintf("%q", clip(vs, 200)), fmt.Sprintf("%q", clip(it.S, 200)))
		}
	case []int:
		for i := range it.B {
			if vs[i] != int(it.B[i]) {
				return bad(i, vs[i], it.B[i])
			}
		}
	case []bool:
		for i := range it.O {
			if vs[i] != it.O[i] {
				return bad(i, vs[i], it.O[i])
			}
		}
	case []int64:
		for i := range it.I {
			if vs[i] != it.I[i] {
				return bad(i, vs[i], it.I[i])
			}
		}
	case []uint64:
		for i := range it.U {
			if vs[i] != it.U[i] {
				return bad(i, vs[i], it.U[i])
			}
		}
	case []float64:
		for i := range it.F {
			wv := it.F[i]
			if it.K == "F4" {
				wv = float64(float32(wv))
			}
			if gv := vs[i]; it.K == "F4" && float64(float32(gv)) != wv || it.K == "F8" && (gv != wv || math.Signbit(gv) != math.Signbit(wv)) {
				return bad(i, vs[i], wv)
			}
		}
	default:
		return fmt.Sprintf("%s: Values() is a %T", path, vs)
	}
	// format and byte size are visible in the encoding
	if e := n.ToBytes(); it.K != "L" && string(e) != string(it.enc()) {
		return fmt.Sprintf("%s: encodes to %x, want %x", path, clipb(e), clipb(it.enc()))
	}
	return ""
}

func clipb(b []byte) []byte {
	if len(b) > 120 {
		return b[:120]
	}
	return b
}

// same compares two expanded items by value.
func (it Item) same(o Item) bool { return it.K == o.K && string(it.enc()) == string(o.enc()) }

// String is a compact SML-like form for messages of the harness.
func (it Item) String() string {
	if it.Rep > 1 {
		return fmt.Sprintf("%d*%s", it.Rep, func() string { o := it; o.Rep = 0; return o.String() }())
	}
	switch it.K {
	case "":
		return "<>"
	case "L":
		var s []string
		for _, c := range it.L {
			s = append(s, c.String())
		}
		return "<L " + strings.Join(s, " ") + ">"
	case "A":
		return fmt.Sprintf("<A %q>", it.S)
	case "B":
		return fmt.Sprintf("<B %x>", it.B)
	case "BOOLEAN":
		return fmt.Sprintf("<BOOLEAN %v>", it.O)
	}
	switch it.K[0] {
	case 'I':
		return fmt.Sprintf("<%s %v>", it.K, it.I)
	case 'U':
		return fmt.Sprintf("<%s %v>", it.K, it.U)
	}
	return fmt.Sprintf("<%s %v>", it.K, it.F)
}

// shorthand builders
func iL(c ...Item) Item          { return Item{K: "L", L: c} }
func iA(s string) Item           { return Item{K: "A", S: s} }
func iB(b ...byte) Item          { return Item{K: "B", B: b} }
func iO(b ...bool) Item          { return Item{K: "BOOLEAN", O: b} }
func iU(w int, v ...uint64) Item { return Item{K: fmt.Sprintf("U%d", w), U: v} }
func iI(w int, v ...int64) Item  { return Item{K: fmt.Sprintf("I%d", w), I: v} }
func iF(w int, v ...float64) Item {
	return Item{K: fmt.Sprintf("F%d", w), F: v}
}

// fromNode reads a node of the code under test into a reference item through
// its encoding (used where the node's own accessors are not under test).
func fromNode(n ast.ItemNode) Item {
	b := n.ToBytes()
	if len(b) == 0 {
		return Item{}
	}
	it, rest, err := decItem(b, 0)
	if err != nil || len(rest) != 0 {
		return Item{K: "A", S: fmt.Sprintf("!undecodable %x", clipb(b))}
	}
	return it
}
