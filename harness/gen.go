package main

import (
	"math"

	"pgregory.net/rapid"
)

func pick[T any](t *rapid.T, l string, xs ...T) T { return rapid.SampledFrom(xs).Draw(t, l) }
func rng(t *rapid.T, l string, a, b int) int      { return rapid.IntRange(a, b).Draw(t, l) }
func coin(t *rapid.T, l string) bool              { return rapid.Bool().Draw(t, l) }

// oneIn is true about once in n.
func oneIn(t *rapid.T, l string, n int) bool { return rapid.IntRange(0, n-1).Draw(t, l) == n-1 }

func genIntOf(t *rapid.T, w int) int64 {
	bits := uint(8*w - 1)
	lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
	if w < 8 {
		lo, hi = -(1 << bits), 1<<bits-1
	}
	switch rng(t, "imode", 0, 3) {
	case 0:
		return pick(t, "ib", lo, lo+1, -1, 0, 1, hi-1, hi)
	case 1:
		return int64(rng(t, "ismall", -10, 10))
	}
	return rapid.Int64Range(lo, hi).Draw(t, "i")
}

func genUintOf(t *rapid.T, w int) uint64 {
	hi := uint64(math.MaxUint64)
	if w < 8 {
		hi = 1<<uint(8*w) - 1
	}
	switch rng(t, "umode", 0, 3) {
	case 0:
		return pick(t, "ub", 0, 1, hi>>1, hi>>1+1, hi-1, hi)
	case 1:
		return uint64(rng(t, "usmall", 0, 10))
	}
	return rapid.Uint64Range(0, hi).Draw(t, "u")
}

func genFloatOf(t *rapid.T, w int) float64 {
	if w == 4 {
		switch rng(t, "fmode", 0, 4) {
		case 0:
			return float64(pick(t, "fb", float32(0), float32(math.Copysign(0, -1)), 1, -1, 0.5, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 3.4e38, 1e-45, 123456.7))
		case 1:
			return float64(rng(t, "fint", -1000, 1000))
		case 2:
			return float64(float32(rng(t, "ffrac", -100000, 100000)) / 1000)
		}
		return float64(rapid.Float32Range(-math.MaxFloat32, math.MaxFloat32).Draw(t, "f"))
	}
	switch rng(t, "fmode", 0, 4) {
	case 0:
		return pick(t, "fb", 0, math.Copysign(0, -1), 1, -1, 0.5, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1e21, 1e-7, 123456.789, math.Pi)
	case 1:
		return float64(rng(t, "fint", -1000, 1000))
	case 2:
		return float64(rng(t, "ffrac", -100000, 100000)) / 1000
	}
	return rapid.Float64Range(-math.MaxFloat64, math.MaxFloat64).Draw(t, "f")
}

func genASCII(t *rapid.T, max int) string {
	n := rng(t, "alen", 0, max)
	b := make([]byte, n)
	mode := rng(t, "amode", 0, 2)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(rng(t, "ac", 'A', 'Z'))
		case 1:
			b[i] = byte(rng(t, "ac", 32, 126))
		default:
			b[i] = byte(rng(t, "ac", 0, 127))
		}
	}
	return string(b)
}

// boundary sizes in bytes, where the length encoding changes
var edgeSizes = []int{255, 256, 257, 511, 512, 65535, 65536, 65537}

// genLeaf makes an item that is not a list.
func genLeaf(t *rapid.T, kind string, max int) Item {
	it := Item{K: kind}
	n := rng(t, "n", 0, max)
	if oneIn(t, "n1", 2) {
		n = 1
	}
	w := width(kind)
	switch kind[0] {
	case 'B':
		if kind == "B" {
			it.B = []byte{}
			for i := 0; i < n; i++ {
				it.B = append(it.B, rapid.Byte().Draw(t, "b"))
			}
		} else {
			for i := 0; i < n; i++ {
				it.O = append(it.O, coin(t, "o"))
			}
		}
	case 'A':
		it.S = genASCII(t, max*3)
	case 'I':
		for i := 0; i < n; i++ {
			it.I = append(it.I, genIntOf(t, w))
		}
	case 'U':
		for i := 0; i < n; i++ {
			it.U = append(it.U, genUintOf(t, w))
		}
	case 'F':
		for i := 0; i < n; i++ {
			it.F = append(it.F, genFloatOf(t, w))
		}
	}
	return it
}

// genItem makes an item tree. big allows items at the length boundaries.
func genItem(t *rapid.T, depth int, big bool) Item {
	kind := ""
	if depth > 0 && rng(t, "list?", 0, 2) > 0 {
		kind = "L"
	} else {
		kind = pick(t, "kind", kinds[1:]...)
		if oneIn(t, "emptylist", 12) {
			kind = "L"
			depth = 0
		}
	}
	if kind != "L" {
		it := genLeaf(t, kind, 6)
		if big && oneIn(t, "big", 8) {
			makeBig(t, &it)
		}
		return it
	}
	it := Item{K: "L"}
	if depth > 0 {
		n := rng(t, "ln", 0, 4)
		for i := 0; i < n; i++ {
			it.L = append(it.L, genItem(t, depth-1, false))
		}
		if big && oneIn(t, "biglist", 8) {
			it = Item{K: "L", L: []Item{genLeaf(t, pick(t, "bk", "U1", "A", "B", "BOOLEAN", "I2"), 1)}, Rep: pick(t, "lrep", 255, 256, 257, 300, 1000, 65535, 65536)}
		}
	}
	return it
}

// makeBig gives a leaf a size at or near a length boundary.
func makeBig(t *rapid.T, it *Item) {
	size := pick(t, "edge", edgeSizes...)
	w := width(it.K)
	one := *it
	switch it.K[0] {
	case 'B':
		if it.K == "B" {
			one.B = []byte{rapid.Byte().Draw(t, "b")}
		} else {
			one.O = []bool{coin(t, "o")}
		}
	case 'A':
		one.S = string(rune(rng(t, "ac", 32, 126)))
	case 'I':
		one.I = []int64{genIntOf(t, w)}
	case 'U':
		one.U = []uint64{genUintOf(t, w)}
	case 'F':
		one.F = []float64{genFloatOf(t, w)}
	}
	n := size / w
	if size%w != 0 || coin(t, "edgeup") && w > 1 {
		n++
	}
	one.Rep = n
	*it = one
}

func (it Item) depth() int {
	d := 0
	for _, c := range it.L {
		if e := c.depth(); e > d {
			d = e
		}
	}
	if it.K == "L" {
		d++
	}
	return d
}

// count of items in the description
func (it Item) count() int {
	n := 1
	for _, c := range it.L {
		n += c.count()
	}
	return n
}

// bytesTotal is the encoded size without building it.
func (it Item) big() bool {
	if it.Rep > 200 {
		return true
	}
	for _, c := range it.L {
		if c.big() {
			return true
		}
	}
	return false
}

func genSF(t *rapid.T) (int, int) {
	s := rng(t, "stream", 0, 127)
	f := rng(t, "function", 0, 255)
	return s, f
}

func genSession(t *rapid.T) uint16 {
	if coin(t, "sedge") {
		return pick(t, "sess", uint16(0), 1, 255, 256, 0x7fff, 0x8000, 0xfffe)
	}
	return uint16(rng(t, "session", 0, 0xfffe))
}

func genSys(t *rapid.T) uint32 {
	if coin(t, "syedge") {
		return pick(t, "sys", uint32(0), 1, 0xff, 0x100, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304)
	}
	return rapid.Uint32().Draw(t, "system")
}
