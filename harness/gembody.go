package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// gemID is an identifier of a variable, report, event or process program.
type gemID struct {
	N uint64
	S string
	A bool // an ASCII identifier
}

func idN(n uint64) gemID { return gemID{N: n} }
func idA(s string) gemID { return gemID{S: s, A: true} }

func (d gemID) key() string {
	if d.A {
		return "S:" + d.S
	}
	return fmt.Sprintf("N:%d", d.N)
}

// api is the identifier as the application writes it.
func (d gemID) api() any {
	if d.A {
		return d.S
	}
	return d.N
}

// wire is the item the endpoint makes of an identifier given by the application.
func (d gemID) wire() Item {
	switch {
	case d.A:
		return iA(d.S)
	case d.N > 0xffffffff:
		return iU(8, d.N)
	}
	return iU(4, d.N)
}

// as encodes a numeric identifier in another format, if that can hold it.
func (d gemID) as(format string) Item {
	if d.A {
		return iA(d.S)
	}
	w := width(format)
	switch format[0] {
	case 'U':
		if w == 8 || d.N < 1<<(8*w) {
			return iU(w, d.N)
		}
	case 'I':
		if d.N < 1<<(8*w-1) {
			return iI(w, int64(d.N))
		}
	}
	return d.wire()
}

// idOf reads an identifier the way the endpoint has to.
func idOf(it Item) (gemID, bool) {
	switch it.K {
	case "A":
		return idA(it.S), true
	case "U1", "U2", "U4", "U8":
		if len(it.U) > 0 {
			return idN(it.U[0]), true
		}
	case "I1", "I2", "I4", "I8":
		if len(it.I) > 0 && it.I[0] >= 0 {
			return idN(uint64(it.I[0])), true
		}
	}
	return gemID{}, false
}

// echo is the item that has to identify the object named by it in a reply: the
// same identifier. Formats of numbers are free.
func sameID(it Item, d gemID) bool {
	e, ok := idOf(it)
	return ok && e == d
}

var idFormats = []string{"U1", "U2", "U4", "U8", "I1", "I2", "I4", "I8"}

func genIDItem(t *rapid.T, d gemID) Item { return d.as(pick(t, "idfmt", idFormats...)) }

// genGemID draws from a small pool, so that identifiers meet; k separates kinds.
func genGemID(t *rapid.T, n int) gemID {
	switch rng(t, "idkind", 0, 9) {
	case 0:
		return pick(t, "idedge", idN(255), idN(256), idN(65535), idN(65536), idN(1<<32-1), idN(1<<32), idN(1<<63-1), idN(1<<63), idN(1<<64-1), idN(0))
	case 1:
		// identifiers that differ in little
		return pick(t, "idnear", idA("A"), idA("A "), idA(" A"), idA("a"), idA("AA"), idA("A\x00"), idA("01"))
	case 2:
		return pick(t, "idtext", idA("A"), idA("B"), idA("1"), idA(""), idA("ID with \"quotes\" and\nlines"))
	}
	return idN(uint64(rng(t, "idn", 1, n)))
}

func genIDList(t *rapid.T, n, max int) Item {
	l := iL()
	for i, k := 0, rng(t, "ids", 0, max); i < k; i++ {
		l.L = append(l.L, genIDItem(t, genGemID(t, n)))
	}
	return l
}

// gemTemplate makes a well-formed body of a message of the GEM services, with
// identifiers that often exist.
func gemTemplate(t *rapid.T, s, f int) Item {
	id := func() Item { return genIDItem(t, genGemID(t, 4)) }
	list := func(n int, one func() Item) Item {
		l := iL()
		for i, k := 0, rng(t, "len", 0, n); i < k; i++ {
			l.L = append(l.L, one())
		}
		return l
	}
	value := func() Item { return genItem(t, 1, false) }
	ack := func() Item {
		if oneIn(t, "ackx", 4) {
			return iB(byte(rng(t, "ack", 0, 255)))
		}
		return iB(0)
	}
	text := func() Item { return iA(genASCII(t, 20)) }
	alarm := func() Item { return iL(iB(byte(rng(t, "alcd", 0, 255))), iU(4, uint64(rng(t, "alid", 0, 5))), text()) }
	report := func() Item {
		return iL(iU(1, 1), id(), list(3, func() Item { return iL(id(), list(3, value)) }))
	}
	dated := func() Item {
		return iA(fmt.Sprintf("%04d%02d%02d%02d%02d%02d%02d", rng(t, "y", 1970, 2100), rng(t, "mo", 1, 12), rng(t, "d", 1, 28), rng(t, "h", 0, 23), rng(t, "mi", 0, 59), rng(t, "s", 0, 59), rng(t, "cs", 0, 99)))
	}
	switch s*1000 + f {
	case 1001, 1015, 1017, 2017, 5005, 5007:
		return Item{}
	case 1002:
		return iL(text(), text())
	case 1003, 1011, 2013, 2029:
		return genIDList(t, 4, 4)
	case 1004, 2014:
		return list(4, value)
	case 1012:
		return list(4, func() Item { return iL(id(), text(), text()) })
	case 1013:
		return iL(text(), text())
	case 1014:
		return iL(ack(), iL(text(), text()))
	case 1016, 1018, 2016, 2032, 2034, 2036, 2038, 5002, 5004, 6012, 7004:
		return ack()
	case 2015:
		return list(3, func() Item { return iL(id(), value()) })
	case 2018:
		return dated()
	case 2030:
		return list(3, func() Item { return iL(id(), text(), value(), value(), value(), text()) })
	case 2031:
		return dated()
	case 2033:
		return iL(iU(1, 1), list(3, func() Item { return iL(id(), genIDList(t, 4, 3)) }))
	case 2035:
		return iL(iU(1, 1), list(3, func() Item { return iL(id(), genIDList(t, 4, 3)) }))
	case 2037:
		return iL(iO(coin(t, "ceed")), genIDList(t, 4, 3))
	case 2041:
		return iL(text(), list(3, func() Item { return iL(text(), value()) }))
	case 2042:
		return iL(ack(), list(3, func() Item { return iL(text(), ack()) }))
	case 5001:
		return alarm()
	case 5003:
		return iL(iB(byte(pick(t, "aled", 0, 128))), list(3, func() Item { return iU(4, uint64(rng(t, "alid", 0, 5))) }))
	case 5006, 5008:
		return list(4, alarm)
	case 6011, 6016:
		return report()
	case 6015:
		return id()
	case 7003:
		return iL(id(), text())
	case 7005:
		return id()
	case 7006:
		return iL(id(), text(), ack())
	}
	return value()
}

// mutateItem changes one place of an item tree (or more).
func mutateItem(t *rapid.T, it Item) Item {
	// number the nodes and choose one
	n := it.count()
	at := rng(t, "at", 0, n-1)
	k := 0
	var walk func(x Item) Item
	walk = func(x Item) Item {
		me := k
		k++
		var l []Item
		for _, c := range x.L {
			l = append(l, walk(c))
		}
		if x.K == "L" {
			x.L = l
		}
		if me != at {
			return x
		}
		if x.K == "" {
			return genItem(t, 2, false)
		}
		switch rng(t, "how", 0, 9) {
		case 0:
			return genItem(t, 2, false)
		case 1:
			return iL()
		case 2:
			return iL(x)
		case 3:
			if x.K == "L" && len(x.L) > 0 {
				return x.L[0]
			}
			return genLeaf(t, pick(t, "k", kinds[1:]...), 3)
		case 4:
			if x.K == "L" && len(x.L) > 0 {
				i := rng(t, "drop", 0, len(x.L)-1)
				x.L = append(append([]Item{}, x.L[:i]...), x.L[i+1:]...)
				return x
			}
			return Item{K: x.K}
		case 5:
			if x.K == "L" {
				x.L = append(append([]Item{}, x.L...), genItem(t, 1, false))
				return x
			}
			return Item{K: pick(t, "empty", kinds[1:]...)}
		case 6:
			if x.K == "L" && len(x.L) > 0 && len(x.L) < 6 {
				x.Rep = pick(t, "rep", 2, 3, 50, 300)
				return x
			}
			return genLeaf(t, pick(t, "k", "I1", "I4", "I8"), 2)
		case 7:
			// deep
			for i := 0; i < pick(t, "deep", 3, 20, 200); i++ {
				x = iL(x)
			}
			return x
		case 8:
			return genLeaf(t, pick(t, "k", kinds[1:]...), 1)
		default:
			return Item{K: x.K}
		}
	}
	out := walk(it)
	if oneIn(t, "again", 3) && out.count() < 100 {
		return mutateItem(t, out)
	}
	return out
}
