package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"pgregory.net/rapid"
)

// GV is a Go value of some type.
type GV struct {
	T string  `json:"t"`
	I int64   `json:"i"`
	U uint64  `json:"u"`
	F float64 `json:"f"`
	S string  `json:"s,omitempty"`
	N int     `json:"n,omitempty"` // string repeated
}

func (g GV) gov() interface{} {
	switch g.T {
	case "int":
		return int(g.I)
	case "int8":
		return int8(g.I)
	case "int16":
		return int16(g.I)
	case "int32":
		return int32(g.I)
	case "int64":
		return g.I
	case "uint":
		return uint(g.U)
	case "uint8":
		return uint8(g.U)
	case "uint16":
		return uint16(g.U)
	case "uint32":
		return uint32(g.U)
	case "uint64":
		return g.U
	case "float32":
		return float32(g.F)
	case "float64":
		return g.F
	case "bool":
		return g.I != 0
	case "string":
		if g.N > 1 {
			return strings.Repeat(g.S, g.N)
		}
		return g.S
	}
	return struct{}{}
}

func (g GV) isInt() bool  { return strings.HasPrefix(g.T, "int") }
func (g GV) isUint() bool { return strings.HasPrefix(g.T, "uint") }

type c06Case struct {
	K    string
	Vals []GV
	Rep  int
	Fill bool // through variables
}

// want is what must happen: the item, or a refusal.
func (c c06Case) want() (it Item, ok bool) {
	it = Item{K: c.K}
	w := width(c.K)
	for _, v := range c.Vals {
		switch {
		case c.K == "A":
			s := v.gov().(string)
			for i := 0; i < len(s); i++ {
				if s[i] > 127 {
					return it, false
				}
			}
			it.S = s
		case c.K == "BOOLEAN":
			if v.T != "bool" {
				return it, false
			}
			it.O = append(it.O, v.I != 0)
		case c.K == "B":
			var n int64
			switch v.T {
			case "int", "int8":
				n = v.I
			case "uint8":
				n = int64(v.U)
			case "string": // "0b..."
				if !strings.HasPrefix(v.S, "0b") {
					return it, false
				}
				x, err := strconv.ParseUint(v.S[2:], 2, 64)
				if err != nil || x > 255 {
					return it, false
				}
				n = int64(x)
			default:
				return it, false
			}
			if n < 0 || n > 255 {
				return it, false
			}
			it.B = append(it.B, byte(n))
		case c.K[0] == 'I':
			var n int64
			switch {
			case v.isInt():
				n = v.I
			case v.isUint() && v.U <= math.MaxInt64:
				n = int64(v.U)
			default:
				return it, false
			}
			if w < 8 && (n < -(1<<uint(8*w-1)) || n > 1<<uint(8*w-1)-1) {
				return it, false
			}
			it.I = append(it.I, n)
		case c.K[0] == 'U':
			var n uint64
			switch {
			case v.isUint():
				n = v.U
			case v.isInt() && v.I >= 0:
				n = uint64(v.I)
			default:
				return it, false
			}
			if w < 8 && n > 1<<uint(8*w)-1 {
				return it, false
			}
			it.U = append(it.U, n)
		case c.K[0] == 'F':
			var f float64
			switch {
			case v.isInt():
				f = float64(v.I)
			case v.isUint():
				f = float64(v.U)
			case v.T == "float32" || v.T == "float64":
				f = v.F
				if v.T == "float32" {
					f = float64(float32(v.F))
				}
			default:
				return it, false
			}
			if c.K == "F4" && math.Abs(f) > math.MaxFloat32 {
				return it, false
			}
			it.F = append(it.F, f)
		}
	}
	if c.Rep > 1 {
		it.Rep = c.Rep
		it = it.expand()
	}
	if it.n()*max(1, width(c.K)) > 1<<24-1 {
		return it, false
	}
	return it, true
}

func runC06(r *R, c c06Case) {
	want, ok := c.want()
	var vals []interface{}
	for _, v := range c.Vals {
		vals = append(vals, v.gov())
	}
	vals = rep(vals, c.Rep)
	var n ast.ItemNode
	refusal := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				refusal = fmt.Sprint(e)
			}
		}()
		args := vals
		fill := map[string]interface{}{}
		if c.Fill {
			args = nil
			for i, v := range vals {
				name := fmt.Sprintf("v%d", i)
				args = append(args, name)
				fill[name] = v
			}
		}
		switch c.K {
		case "A":
			if c.Fill {
				n = ast.NewASCIINodeVariable("v0", 0, -1)
			} else {
				n = ast.NewASCIINode(vals[0].(string))
			}
		case "B":
			n = ast.NewBinaryNode(args...)
		case "BOOLEAN":
			n = ast.NewBooleanNode(args...)
		case "F4", "F8":
			n = ast.NewFloatNode(width(c.K), args...)
		case "I1", "I2", "I4", "I8":
			n = ast.NewIntNode(width(c.K), args...)
		default:
			n = ast.NewUintNode(width(c.K), args...)
		}
		if c.Fill {
			n = n.FillVariables(fill)
		}
	}()
	desc := clip(fmt.Sprintf("%s from %#v", c.K, vals[:min(len(vals), 4)]), 300)
	if refusal != "" {
		if ok {
			r.Fatalf("%s is refused (%s) although every value is in range", desc, refusal)
		}
		r.Label("refused")
		r.NonTrivial()
		return
	}
	if !ok {
		r.Fatalf("%s gives %s although a value is out of range", desc, clip(fmt.Sprint(n), 300))
	}
	if d := diffNode(n, want, desc); d != "" {
		r.Fatalf("%s", d)
	}
	r.Label("accepted")
	if len(c.Vals) > 0 {
		r.NonTrivial()
	}
}

var goInts = map[string][2]int64{"int": {math.MinInt64, math.MaxInt64}, "int8": {-128, 127}, "int16": {-32768, 32767}, "int32": {math.MinInt32, math.MaxInt32}, "int64": {math.MinInt64, math.MaxInt64}}
var goUints = map[string]uint64{"uint": math.MaxUint64, "uint8": 255, "uint16": 65535, "uint32": math.MaxUint32, "uint64": math.MaxUint64}

// edges of all formats, with their neighbours
var edgeInts = func() (out []int64) {
	for _, b := range []uint{7, 8, 15, 16, 31, 32, 53, 63} {
		for d := int64(-2); d <= 2; d++ {
			v := int64(uint64(1)<<b) + d
			out = append(out, v, -v)
		}
	}
	return append(out, 0, 1, -1)
}()

func genGV(t *rapid.T, k string) GV {
	types := []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"}
	switch k[0] {
	case 'F':
		types = append(types, "float32", "float64", "float64", "float64")
	case 'B':
		if k == "B" {
			types = []string{"int", "int8", "uint8", "string", "int", "int", "int16", "bool"}
		} else {
			types = []string{"bool", "bool", "bool", "int"}
		}
	case 'A':
		types = []string{"string"}
	}
	if k[0] != 'A' && oneIn(t, "badtype", 25) {
		types = []string{"bool", "float64", "nil"}
		if k[0] == 'F' {
			types = []string{"bool", "nil"}
		}
		if k == "BOOLEAN" {
			types = []string{"float64", "nil", "uint8"}
		}
	}
	g := GV{T: pick(t, "type", types...)}
	if lim, ok := goInts[g.T]; ok {
		if k == "B" && coin(t, "byteish") {
			g.I = int64(rng(t, "small", -2, 258))
		} else if coin(t, "edge") {
			g.I = pick(t, "ei", edgeInts...)
		} else if w := width(k); coin(t, "fit") && (k[0] == 'I' || k[0] == 'U') {
			if k[0] == 'I' {
				g.I = genIntOf(t, w)
			} else {
				g.I = int64(genUintOf(t, w) & math.MaxInt64)
			}
		} else {
			g.I = rapid.Int64Range(lim[0], lim[1]).Draw(t, "i")
		}
		if g.I < lim[0] || g.I > lim[1] {
			g.I %= 100
		}
	} else if lim, ok := goUints[g.T]; ok {
		if coin(t, "edge") {
			g.U = uint64(pick(t, "ei", edgeInts...))
		} else if w := width(k); coin(t, "fit") && w > 0 {
			g.U = genUintOf(t, w)
		} else {
			g.U = rapid.Uint64Range(0, lim).Draw(t, "u")
		}
		if g.U > lim {
			g.U %= 100
		}
	} else if g.T == "float32" {
		g.F = genFloatOf(t, 4)
	} else if g.T == "float64" {
		switch rng(t, "f64", 0, 3) {
		case 0:
			g.F = genFloatOf(t, 4)
		case 1:
			g.F = pick(t, "fe", math.MaxFloat32, -math.MaxFloat32, math.Nextafter(math.MaxFloat32, 1e39), 3.4028235e38, -3.40282355e38, 3.4028236e38, 3.41e38, -3.41e38, 1e39, 1e308, 0.1, 1e-300)
		default:
			g.F = genFloatOf(t, 8)
		}
	} else if g.T == "bool" {
		g.I = int64(rng(t, "bool", 0, 1))
	} else if g.T == "string" {
		if k == "B" {
			g.S = pick(t, "bin", "0b0", "0b1", "0b11111111", "0b100000000", "0b10101010", "0b2", "0b", "0b111111111111111111111111111111111111111111111111111111111111111111", "0b01111111")
		} else {
			g.S = genASCII(t, 20)
			if oneIn(t, "nonascii", 3) {
				g.S += pick(t, "na", "é", "\u0080", "漢", "\x7f", "ÿ", "\U0001F600")
			}
			if oneIn(t, "long", 30) && len(g.S) > 0 {
				g.N = pick(t, "sn", (1<<24-1)/len(g.S), (1<<24-1)/len(g.S)+1)
			}
		}
	}
	return g
}

func init() {
	shards("C06", 8, 8)
	fixed := []c06Case{
		{K: "I8", Vals: []GV{{T: "int", I: 5}}, Rep: 1<<21 - 1}, {K: "I8", Vals: []GV{{T: "int", I: 5}}, Rep: 1 << 21},
		{K: "U4", Vals: []GV{{T: "int", I: 5}}, Rep: 1<<22 - 1}, {K: "U4", Vals: []GV{{T: "int", I: 5}}, Rep: 1 << 22},
		{K: "F8", Vals: []GV{{T: "float64", F: 5}}, Rep: 1<<21 - 1}, {K: "F8", Vals: []GV{{T: "float64", F: 5}}, Rep: 1 << 21},
		{K: "A", Vals: []GV{{T: "string", S: "x", N: 1<<24 - 1}}}, {K: "A", Vals: []GV{{T: "string", S: "x", N: 1 << 24}}},
		{K: "B", Vals: []GV{{T: "int", I: 5}}, Rep: 1 << 24},
	}
	// every edge value in every Go type for every format
	for _, k := range kinds {
		if k == "L" || k == "A" || k == "BOOLEAN" {
			continue
		}
		for t, lim := range goInts {
			for _, v := range edgeInts {
				if v >= lim[0] && v <= lim[1] && (k[0] == 'I' || k[0] == 'U' || k[0] == 'F' || t == "int" || t == "int8") {
					fixed = append(fixed, c06Case{K: k, Vals: []GV{{T: t, I: v}}})
				}
			}
		}
		for t, lim := range goUints {
			for _, v := range edgeInts {
				if uint64(v) <= lim && (k[0] == 'I' || k[0] == 'U' || k[0] == 'F' || t == "uint8") {
					fixed = append(fixed, c06Case{K: k, Vals: []GV{{T: t, U: uint64(v)}}})
				}
			}
		}
	}
	register("C06", "construct", "items of every format built (directly or by filling variables) from 0-4 values of every Go type at and around the limits of all formats, sizes at the item size limit; every limit value in every type is also enumerated; acceptance and values compared with the arithmetic of the ranges; non-trivial: has a value or is refused",
		opts{quick: budget{20000, 30}, thorough: budget{400000, 300}},
		func(t *rapid.T) c06Case {
			c := c06Case{K: pick(t, "k", kinds[1:]...)}
			n := rng(t, "n", 1, 3)
			if c.K == "A" {
				n = 1
			} else if oneIn(t, "none", 20) {
				n = 0
			}
			for i := 0; i < n; i++ {
				c.Vals = append(c.Vals, genGV(t, c.K))
			}
			// a string is a variable's name when it does not look like a value
			c.Fill = oneIn(t, "fill", 4) && n > 0
			return c
		}, runC06, fixed...)
}
