package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/sml"
	"pgregory.net/rapid"
)

// ---- well-formed text in free layout ----

type tok struct {
	s    string
	kind string // what the token is, for damaging it
	item string // item format it belongs to
	n    int    // of a size: the number of values, or -1
}

type c04Case struct {
	Msgs []smlMsg
	NoDr []bool `json:"nodr,omitempty"` // direction left out
	Text string
	Bad  string // how the text is damaged; "" is well formed
}

type layouter struct {
	t    *rapid.T
	toks []tok
}

func (l *layouter) add(kind, item, s string) {
	l.toks = append(l.toks, tok{s: s, kind: kind, item: item, n: -1})
}

func (l *layouter) casing(s string) string {
	switch rng(l.t, "case", 0, 3) {
	case 0:
		return strings.ToLower(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if coin(l.t, "up") {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

func (l *layouter) size(n int) string {
	sp := func() string { return pick(l.t, "szsp", "", "", "", " ", "\t", "\n", "\r\n", " \n ") }
	a, b := n-rng(l.t, "below", 0, 2), n+rng(l.t, "above", 0, 2)
	if a < 0 {
		a = 0
	}
	switch rng(l.t, "szmode", 0, 4) {
	case 0:
		return fmt.Sprintf("[%s%d%s..%s%d%s]", sp(), a, sp(), sp(), b, sp())
	case 1:
		return fmt.Sprintf("[%s%d%s..%s]", sp(), a, sp(), sp())
	case 2:
		return fmt.Sprintf("[%s..%s%d%s]", sp(), sp(), b, sp())
	}
	return fmt.Sprintf("[%s%d%s]", sp(), n, sp())
}

func (l *layouter) integer(neg bool, abs uint64) string {
	sign := ""
	if neg {
		sign = "-"
	} else if oneIn(l.t, "plus", 6) {
		sign = "+"
	}
	switch rng(l.t, "base", 0, 5) {
	case 0:
		return sign + pick(l.t, "x", "0x", "0X") + l.casing(strings.ToUpper(strconv.FormatUint(abs, 16)))
	case 1:
		return sign + pick(l.t, "b", "0b", "0B") + strconv.FormatUint(abs, 2)
	case 2:
		return sign + pick(l.t, "o", "0o", "0O") + strconv.FormatUint(abs, 8)
	}
	return sign + strconv.FormatUint(abs, 10)
}

// unsigned values are written without a sign: strconv.ParseUint has none.
func (l *layouter) unsigned(v uint64) string {
	return strings.TrimPrefix(l.integer(false, v), "+")
}

func (l *layouter) value(k string, v TV) {
	switch k {
	case "B":
		l.add("num", k, l.unsigned(uint64(v.B)))
	case "BOOLEAN":
		s := "F"
		if v.O {
			s = "T"
		}
		l.add("bool", k, l.casing(s))
	case "F4", "F8":
		bits := 8 * width(k)
		s := strconv.FormatFloat(v.F, byte(pick(l.t, "ff", 'g', 'e', 'g', 'G')), -1, bits)
		if v.F > -1e15 && v.F < 1e15 && (v.F == 0 || v.F > 1e-4 || v.F < -1e-4) && coin(l.t, "plain") {
			s = strconv.FormatFloat(v.F, 'f', -1, bits)
		}
		if !strings.HasPrefix(s, "-") && oneIn(l.t, "fplus", 6) {
			s = "+" + s
		}
		if strings.HasPrefix(s, "0.") && coin(l.t, "dot") {
			s = s[1:]
		}
		l.add("num", k, s)
	case "I1", "I2", "I4", "I8":
		abs := uint64(v.I)
		if v.I < 0 {
			abs = -abs
		}
		l.add("num", k, l.integer(v.I < 0, abs))
	default:
		l.add("num", k, l.unsigned(v.U))
	}
}

func (l *layouter) item(m Tmpl) {
	l.add("<", m.K, "<")
	l.add("type", m.K, l.casing(m.K))
	hasEll := false
	for _, e := range m.El {
		hasEll = hasEll || e.Ell != ""
	}
	n := len(m.Vals) + len(m.El) + len(m.S)
	if m.K == "A" && m.Var != "" {
		switch {
		case m.Min == 0 && m.Max == -1:
			if oneIn(l.t, "open", 3) {
				l.add("size", m.K, "[0..]")
			}
		case m.Max == -1:
			l.add("size", m.K, fmt.Sprintf("[%d..]", m.Min))
		case m.Min == m.Max && coin(l.t, "exact"):
			l.add("size", m.K, fmt.Sprintf("[%d]", m.Min))
		case m.Min == 0 && coin(l.t, "upper"):
			l.add("size", m.K, fmt.Sprintf("[..%d]", m.Max))
		default:
			l.add("size", m.K, fmt.Sprintf("[%d..%d]", m.Min, m.Max))
		}
		l.add("var", m.K, m.Var)
		l.add(">", m.K, ">")
		return
	}
	if !hasEll && oneIn(l.t, "size", 2) {
		l.add("size", m.K, l.size(n))
		l.toks[len(l.toks)-1].n = n
	}
	if m.K == "A" {
		i := 0
		for i < len(m.S) {
			c := m.S[i]
			plain := func(c byte) bool { return c >= 32 && c < 127 && c != '"' && c != '\\' }
			if !plain(c) || oneIn(l.t, "code", 5) {
				l.add("num", "A", l.unsigned(uint64(c)))
				i++
				continue
			}
			j := i
			for j < len(m.S) && plain(m.S[j]) && !(j > i && oneIn(l.t, "split", 8)) {
				j++
			}
			l.add("str", "A", `"`+m.S[i:j]+`"`)
			i = j
			if oneIn(l.t, "emptystr", 10) {
				l.add("str", "A", `""`)
			}
		}
		if len(m.S) == 0 && coin(l.t, "quotes") {
			l.add("str", "A", `""`)
		}
	}
	for _, v := range m.Vals {
		if v.V != "" {
			l.add("var", m.K, v.V)
		} else {
			l.value(m.K, v)
		}
	}
	for _, e := range m.El {
		switch {
		case e.T != nil:
			l.item(*e.T)
		case e.Var != "":
			l.add("var", "L", e.Var)
		default:
			x := "..."
			if oneIn(l.t, "ellnum", 3) {
				x = fmt.Sprintf("...[%d]", pick(l.t, "elln", 0, 1, 2, 9, 10, 12, 345))
			}
			l.add("ell", "L", x)
		}
	}
	l.add(">", m.K, ">")
}

func (l *layouter) message(m smlMsg, noDir bool) {
	l.add("sf", "", l.casing(fmt.Sprintf("S%dF%d", m.S, m.F)))
	switch m.Wait {
	case 1:
		l.add("w", "", l.casing("W"))
	case 2:
		l.add("w", "", l.casing("[W]"))
	}
	if !noDir {
		l.add("dir", "", l.casing(m.Dir))
	}
	if m.Name != "" {
		l.add("name", "", m.Name)
	}
	if m.T.K != "" {
		l.item(m.T)
	}
	l.add(".", "", ".")
}

// gap between two tokens; some token pairs need no separator.
func (l *layouter) gap(a, b tok) string {
	must := true
	switch {
	case a.kind == "", b.kind == "":
		must = false
	case a.kind == "<", b.kind == ">", a.kind == ">" && (b.kind == "<" || b.kind == "ell" || b.kind == "var" || b.kind == "."), b.kind == "<" && a.kind != "name" && a.kind != "sf" && a.kind != "dir", b.kind == "size" && a.kind == "type", a.kind == ".":
		must = false
	case b.kind == "." && a.kind == ">":
		must = false
	}
	ws := func() string {
		// in the header white space is any white space
		if (a.kind == "dir" || a.kind == "name") && b.kind != "" && oneIn(l.t, "uspace", 8) {
			return pick(l.t, "uws", "\v", "\f", "\u0085", "\u00a0", "\u3000", " \u2003 ")
		}
		return pick(l.t, "ws", " ", "  ", "\n", "\t", "\r\n", "\n\n  ")
	}
	s := ""
	if must {
		s = ws()
	} else if coin(l.t, "gapsp") {
		s = ws()
	}
	if oneIn(l.t, "comment", 10) {
		body := pick(l.t, "cbody", "", " comment", ` <A "x"> .`, " S1F1 W", " \"", " é漢", " // again", "]", " T 1 2")
		if a.kind == "name" && s == "" {
			s = " "
		}
		s += "//" + body + pick(l.t, "cend", "\n", " \n", "\r\n")
	}
	return s
}

func (l *layouter) text() string {
	var b strings.Builder
	prev := tok{}
	for _, x := range l.toks {
		b.WriteString(l.gap(prev, x))
		b.WriteString(x.s)
		prev = x
	}
	b.WriteString(l.gap(prev, tok{}))
	return b.String()
}

var outOfRange = map[string][]string{
	"B": {"256", "0x100", "-1", "0b100000000", "99999999999999999999"}, "A": {"128", "0x80", "0xFF", "256", "-1", "99999999999999999999"},
	"I1": {"128", "-129", "0x80", "256", "384"}, "I2": {"32768", "-32769", "65536", "98304"}, "I4": {"2147483648", "-2147483649", "4294967296"}, "I8": {"9223372036854775808", "-9223372036854775809", "18446744073709551616"},
	"U1": {"256", "-1", "0x100", "257", "4294967296"}, "U2": {"65536", "-1", "0x10000"}, "U4": {"4294967296", "-1"}, "U8": {"18446744073709551616", "-1"},
	"F4": {"3.5e38", "-3.5e38", "1e39"}, "F8": {"1.8e308", "-1e309"},
}

var wrongKind = map[string][]string{
	"B": {`"x"`, "T", "1.5", "1e2", "0b12", "0x", "1_0", "0x_1"}, "BOOLEAN": {"1", "0", `"T"`, "1.0"}, "A": {"T", "1.5", "F", "1e1"},
	"I1": {`"1"`, "T", "1.5", "1e2", "1_0"}, "I2": {`"1"`, "F", "1.5", "0x1.8", "1_"}, "I4": {`"1"`, "T", "1.5", ".5", "-", "12x", "1_000"}, "I8": {`"1"`, "T", "1.5", "+"},
	"U1": {`"1"`, "T", "1.5", "1e2", "1_0"}, "U2": {`"1"`, "T", "1.5", "0b2", "0x1G", "1é"}, "U4": {`"1"`, "T", "1.5", "1e0"}, "U8": {`"1"`, "F", "0.0"},
	"F4": {`"1"`, "T", "0x", "1e", "1_0", "1.5_", "1.5f"}, "F8": {`"1.0"`, "F", "1e+"}, "L": {"1", `"x"`, "T", "-1.5"},
}

// wrongSize returns a size declaration that n values do not satisfy.
func wrongSize(t *rapid.T, n int) string {
	k := pick(t, "off", 1, 2, 100)
	switch rng(t, "wrongsize", 0, 6) {
	case 0:
		return fmt.Sprintf("[%d..]", n+k)
	case 1:
		return fmt.Sprintf("[%d..%d]", n+k, n+k+rng(t, "more", 0, 3))
	case 2: // the limits the wrong way round
		return fmt.Sprintf("[%d..%d]", n+k, rng(t, "low", 0, n+k-1))
	case 3:
		if n > 0 {
			return fmt.Sprintf("[%d..%d]", n-rng(t, "lower", 0, n-1), n-rng(t, "upper", 1, n))
		}
	case 4:
		if n > 0 {
			return fmt.Sprintf("[..%d]", rng(t, "upper", 0, n-1))
		}
	case 5:
		if n > 0 {
			return fmt.Sprintf("[%d]", rng(t, "less", 0, n-1))
		}
	}
	return fmt.Sprintf("[%d]", n+k)
}

// damage makes the tokens ill-formed in one way and says how; "" if it could not.
func (l *layouter) damage() string {
	t := l.t
	find := func(f func(tok) bool) int {
		var at []int
		for i, x := range l.toks {
			if f(x) {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return -1
		}
		return at[rng(t, "at", 0, len(at)-1)]
	}
	del := func(i int) { l.toks = append(append([]tok{}, l.toks[:i]...), l.toks[i+1:]...) }
	ins := func(i int, x tok) {
		l.toks = append(append(append([]tok{}, l.toks[:i]...), x), l.toks[i:]...)
	}
	switch rng(t, "damage", 0, 13) {
	case 0, 1:
		if i := find(func(x tok) bool { return x.kind == "num" }); i >= 0 {
			l.toks[i].s = pick(t, "oor", outOfRange[l.toks[i].item]...)
			return fmt.Sprintf("value %s out of range of %s", l.toks[i].s, l.toks[i].item)
		}
	case 2, 3:
		if i := find(func(x tok) bool { return x.kind == "num" || x.kind == "bool" || x.kind == "str" }); i >= 0 {
			l.toks[i].s = pick(t, "wk", wrongKind[l.toks[i].item]...)
			return fmt.Sprintf("value %s of the wrong kind for %s", l.toks[i].s, l.toks[i].item)
		}
	case 4: // a value in a list
		if i := find(func(x tok) bool { return x.kind == ">" && x.item == "L" }); i >= 0 {
			s := pick(t, "lv", wrongKind["L"]...)
			ins(i, tok{s: s, kind: "num", item: "L"})
			return "value " + s + " in a list"
		}
	case 5: // wrong declared count
		i := find(func(x tok) bool { return x.kind == "size" && x.n >= 0 })
		if i < 0 {
			i = find(func(x tok) bool { return x.kind == "type" })
			if i < 0 || l.toks[i+1].kind == "size" || l.toks[i+1].kind == "var" || l.toks[i].item == "L" {
				return ""
			}
			n, c := 0, 0
			for j := i + 1; l.toks[j].kind != ">"; j++ {
				c++
				if l.toks[j].kind == "str" {
					n += len(l.toks[j].s) - 2
				} else {
					n++
				}
			}
			_ = c
			ins(i+1, tok{s: wrongSize(t, n), kind: "size", item: l.toks[i].item, n: n})
			return "declared size that does not match the number of values"
		}
		l.toks[i].s = wrongSize(t, l.toks[i].n)
		return "declared size that does not match the number of values"
	case 6:
		if i := find(func(x tok) bool { return x.kind == ">" }); i >= 0 {
			del(i)
			return "'>' missing"
		}
	case 7:
		// (after a header alone, the next header would be taken for a name)
		k := -1
		i := find(func(x tok) bool {
			k++
			return x.kind == "." && (k == len(l.toks)-1 || l.toks[k-1].kind == ">")
		})
		if i < 0 {
			return ""
		}
		del(i)
		return "'.' missing"
	case 8:
		if i := find(func(x tok) bool { return x.kind == "str" && len(x.s) > 2 }); i >= 0 {
			switch rng(t, "strdamage", 0, 4) {
			case 0:
				l.toks[i].s = l.toks[i].s[:len(l.toks[i].s)-1] + "\n"
				return "string not terminated"
			case 3:
				k := rng(t, "break", 1, len(l.toks[i].s)-1)
				l.toks[i].s = l.toks[i].s[:k] + pick(t, "brk", "\n", "\r", "\r\n") + l.toks[i].s[k:]
				return "string with a line break in it"
			case 4:
				l.toks[i].s = l.toks[i].s[:len(l.toks[i].s)-1] + strings.Repeat(pick(t, "esc", `\q`, `\x`, `\8`, `\u12`), rng(t, "escs", 1, 4)) + `"`
				return "string with invalid escape sequences"
			case 1:
				l.toks[i].s = `"é` + l.toks[i].s[1:]
				return "string with a character beyond ASCII"
			default:
				l.toks[i].s = `"\q` + l.toks[i].s[1:]
				return "string with an invalid escape sequence"
			}
		}
	case 9:
		if i := find(func(x tok) bool { return x.kind == "type" }); i >= 0 {
			if coin(t, "notype") {
				del(i)
				return "item type missing"
			}
			l.toks[i].s = pick(t, "badtype", "U3", "X", "I16", "LL", "AA", "1", "F2", "BOOL")
			return "unknown item type " + l.toks[i].s
		}
	case 10:
		i := find(func(x tok) bool { return x.kind == "sf" })
		var s, f int
		fmt.Sscanf(strings.ToUpper(l.toks[i].s), "S%dF%d", &s, &f)
		switch rng(t, "sf", 0, 2) {
		case 0:
			l.toks[i].s = fmt.Sprintf("S%dF%d", pick(t, "bads", 128, 129, 256, 1000), f)
			return "stream out of range"
		case 1:
			l.toks[i].s = fmt.Sprintf("S%dF%d", s, pick(t, "badf", 256, 257, 999))
			return "function out of range"
		default:
			l.toks[i].s = fmt.Sprintf("S%dF%d", s, f&^1)
			if i+1 < len(l.toks) && l.toks[i+1].kind == "w" {
				l.toks[i+1].s = "W"
			} else {
				ins(i+1, tok{s: "W", kind: "w"})
			}
			return "wait bit on a reply"
		}
	case 11:
		if i := find(func(x tok) bool { return x.item != "" && x.kind != "<" }); i >= 0 {
			s := pick(t, "junk", "@", "#", "]", "}", ")", "=", ";", "é", "'", "[", "<", ".", "&")
			ins(i, tok{s: s, kind: "junk"})
			return "stray " + s
		}
	case 12: // the same name twice in one message
		i := find(func(x tok) bool { return x.kind == "var" })
		if i < 0 {
			return ""
		}
		var others []int
		for _, d := range []int{-1, 1} {
			for j := i + d; j >= 0 && j < len(l.toks) && l.toks[j].kind != "sf"; j += d {
				if l.toks[j].kind == "var" {
					others = append(others, j)
				}
			}
		}
		if len(others) > 0 {
			l.toks[i].s = l.toks[pick(t, "other", others...)].s
			return "variable " + l.toks[i].s + " twice"
		}
		if l.toks[i].item == "A" {
			return ""
		}
		ins(i, l.toks[i])
		return "variable " + l.toks[i].s + " twice in one item"
	case 13:
		if i := find(func(x tok) bool { return x.kind == "ell" }); i >= 0 && coin(t, "two") {
			ins(i, tok{s: "...", kind: "ell", item: l.toks[i].item})
			return "two ellipses in one list"
		}
		if i := find(func(x tok) bool { return x.kind == "type" && x.item == "L" }); i >= 0 {
			if i++; l.toks[i].kind == "size" {
				l.toks[i].s = ""
				del(i)
			}
			ins(i, tok{s: "...", kind: "ell", item: "L"})
			return "ellipsis at the start of a list"
		}
	}
	return ""
}

func genC04(t *rapid.T) c04Case {
	n := pick(t, "msgs", 1, 1, 2, 3)
	var c c04Case
	l := &layouter{t: t}
	for i := 0; i < n; i++ {
		m := genSmlMsg(t)
		m.Fill = nil
		nd := oneIn(t, "nodir", 4)
		if nd {
			m.Dir = "H<->E"
			m.Name = pick(t, "safename", "", "Name", "name2")
		}
		if strings.HasSuffix(m.Name, "/") {
			m.Name += "x"
		}
		c.Msgs = append(c.Msgs, m)
		c.NoDr = append(c.NoDr, nd)
		l.message(m, nd)
	}
	if coin(t, "bad") {
		c.Bad = l.damage()
	}
	c.Text = l.text()
	return c
}

func runC04(r *R, c c04Case) {
	before := allocated()
	ps, errs, _ := sml.Parse(c.Text)
	if used := allocated() - before; used > 16<<20+200000*uint64(len(c.Text)) {
		r.Failf("parsing %d bytes allocates %d bytes", len(c.Text), used)
	}
	if c.Bad != "" {
		if len(errs) == 0 {
			r.Fatalf("text with %s is accepted without error, %d messages\n%s", c.Bad, len(ps), clip(c.Text, 1500))
		}
		if len(ps) > 0 {
			r.Fatalf("text with %s gives errors %q and %d messages nevertheless\n%s", c.Bad, errs, len(ps), clip(c.Text, 1500))
		}
		r.Label("damaged: " + strings.SplitN(c.Bad, " ", 2)[0])
		r.NonTrivial()
		return
	}
	if len(errs) > 0 || len(ps) != len(c.Msgs) {
		r.Fatalf("well-formed text gives %d messages (want %d), errors %q\n%s", len(ps), len(c.Msgs), errs, clip(c.Text, 1500))
	}
	for i, m := range c.Msgs {
		p := ps[i]
		what := fmt.Sprintf("message %d of text\n%s\n", i, clip(c.Text, 1200))
		m.checkHead(r, what, p)
		k := 0
		want := m.T.renameEll(func() string { k++; return fmt.Sprintf("...[%d]", k-1) })
		root, err := p.Get()
		if err != nil {
			r.Fatalf("%s: %v", what, err)
		}
		checkTmpl(r, what, root, want)
		got, lim := map[string]string{}, map[string]string{}
		asciiLimits(root, got)
		m.T.limits(lim)
		if !reflect.DeepEqual(got, lim) {
			r.Fatalf("%s: length limits %v, want %v", what, got, lim)
		}
		if m.T.K != "" {
			r.NonTrivial()
		}
	}
	r.Label("well formed")
}

// ---- arbitrary text ----

type c04Soup struct {
	Pre  string
	Unit string `json:"unit,omitempty"`
	Rep  int    `json:"rep,omitempty"`
	Post string `json:"post,omitempty"`
	Ok   int    `json:"ok,omitempty"` // well formed: so many messages
}

var soupTokens = []string{"S1F1", "s2f3", "S128F1", "S1F999", "W", "[W]", "w", "H->E", "h<-e", "H<->E", "Name", "<", "<", ">", ">", ".", ".", "L", "A", "B", "BOOLEAN", "U1", "I8", "F4", "<L", "<A", "<U1", "[1]", "[0..2]", "[2..]", "[..3]", "[99999999999999999999]", "[16777215]", "[4294967296]", "[-1]", "[", "]", "1", "-1", "0x1F", "256", "1e5", "1e400", "99999999999999999999", "T", "F", "x", "x", "y[0]", "y[0][1]", "...", "...[0]", "...[5]", "\"a\"", "\"", "\"\\n\"", "//", "//c\n", "\n", "é", "\x00", "\xff", "+", "-", ".5", "5.", "0b", "0xG", "_", "S1F1 W H->E <A \"x\"> ."}

func genSoup(t *rapid.T) c04Soup {
	if oneIn(t, "longtext", 40) { // long but well formed
		n := pick(t, "len", 10, 100, 300, 1000, 1001, 1002, 1003, 1500, 2100)
		switch rng(t, "long", 0, 4) {
		case 0:
			return c04Soup{Pre: "S1F1 W H->E <L ", Unit: pick(t, "flat", "<U1 1> ", "<L> ", "<L <A \"x\">>", "<B> <BOOLEAN T>", "<L[0]>"), Rep: n, Post: "> .", Ok: 1}
		case 1:
			return c04Soup{Pre: "S1F1 W H->E <U2 ", Unit: "7 ", Rep: n, Post: "> .", Ok: 1}
		case 2:
			return c04Soup{Pre: "S1F1 W H->E <A ", Unit: pick(t, "piece", "\"ab\" ", "0x41 ", "\"\" "), Rep: n, Post: "> .", Ok: 1}
		case 3:
			return c04Soup{Unit: pick(t, "many", "S1F1 W H->E Name .\n", "S1F2 H<-E <L <A v> ...>.", "S2F3 H<->E <U1[1] 5> .//c\n"), Rep: n, Ok: n}
		}
		return c04Soup{Pre: "S1F1 W H->E <L ", Unit: "//c\n", Rep: n, Post: "> .", Ok: 1}
	}
	switch rng(t, "soup", 0, 5) {
	case 0:
		return c04Soup{Pre: rapid.String().Draw(t, "raw")}
	case 1:
		unit := pick(t, "unit", "<L ", "<L[1] ", "<L <A[16777215] v> ", "<A[16777215] v> ", "S1F1 W ", "x ", "1 ", "... ", "\"a\" ", "(", ".", "<", ">", "//c\n", "[", "0", "-")
		n := pick(t, "rep", 2, 10, 100, 999, 1000, 1001, 1500)
		return c04Soup{Pre: pick(t, "pre", "", "S1F1 W H->E\n", "S1F1 W H->E <L ", "S1F1 H->E <A ", "S1F1 H->E <U1 "), Unit: unit, Rep: n, Post: pick(t, "post", "", ">", ".", "> .")}
	case 2: // a well-formed text with characters changed
		l := &layouter{t: t}
		m := genSmlMsg(t)
		l.message(m, false)
		b := []byte(l.text())
		k := rng(t, "edits", 1, 4)
		for i := 0; i < k && len(b) > 0; i++ {
			p := rng(t, "p", 0, len(b)-1)
			switch rng(t, "edit", 0, 2) {
			case 0:
				b[p] = rapid.Byte().Draw(t, "nb")
			case 1:
				b = append(b[:p:p], b[p+1:]...)
			default:
				b = append(b[:p:p], append([]byte(pick(t, "tok", soupTokens...)), b[p:]...)...)
			}
		}
		return c04Soup{Pre: string(b)}
	}
	n := rng(t, "toks", 0, 30)
	var b strings.Builder
	if coin(t, "head") {
		b.WriteString("S1F1 W H->E ")
	}
	for i := 0; i < n; i++ {
		b.WriteString(pick(t, "tok", soupTokens...))
		b.WriteString(pick(t, "sep", " ", " ", "", "\n"))
	}
	return c04Soup{Pre: b.String()}
}

func runSoup(r *R, c c04Soup) {
	text := c.Pre + strings.Repeat(c.Unit, c.Rep) + c.Post
	before := allocated()
	ps, errs, _ := sml.Parse(text)
	if used := allocated() - before; used > 32<<20+200000*uint64(len(text)) {
		r.Failf("parsing %d bytes allocates %d bytes", len(text), used)
	}
	if len(ps) > 0 && len(errs) > 0 {
		r.Failf("text gives %d messages and errors %q: %q", len(ps), errs, clip(text, 500))
	}
	if c.Ok > 0 && (len(errs) > 0 || len(ps) != c.Ok) {
		r.Failf("well-formed text gives %d messages (want %d), errors %q: %q", len(ps), c.Ok, errs, clip(text, 500))
	}
	if len(ps) > 0 && len(errs) == 0 {
		r.Label("accepted")
		r.NonTrivial()
	}
	if len(ps) == 0 && len(errs) == 0 {
		// nothing but white space and comments
		for _, line := range strings.Split(text, "\n") {
			if i := strings.Index(line, "//"); i >= 0 {
				line = line[:i]
			}
			if strings.TrimSpace(line) != "" {
				r.Fatalf("text yields neither message nor error: %q", clip(text, 500))
			}
		}
	}
	if len(errs) == 0 {
		for i, p := range ps {
			txt := p.String()
			qs, errs2, _ := sml.Parse(txt)
			if len(errs2) > 0 || len(qs) != 1 || qs[0].String() != txt {
				r.Fatalf("message %d of accepted text %q prints as %q, which gives %d messages, errors %q", i, clip(text, 500), clip(txt, 500), len(qs), errs2)
			}
		}
	}
}

func init() {
	shards("C04", 8, 8)
	register("C04", "text", "1-3 random messages written in free layout (white space, comments, letter case, number bases, size declarations, split strings), half of them damaged in one of 16 ways; well-formed text must give exactly the described messages, damaged text an error; non-trivial: damaged or has an item",
		opts{quick: budget{7000, 30}, thorough: budget{60000, 300}}, genC04, runC04)
	register("C04", "soup", "random strings, token sequences, repeated tokens (nesting, huge sizes), edited messages: the parser returns with bounded memory, and what it accepts prints and parses to itself, long well-formed text is accepted; non-trivial: accepted",
		opts{quick: budget{5000, 20}, thorough: budget{60000, 300}}, genSoup, runSoup,
		c04Soup{Pre: "S1F1 W H->E <L ", Unit: "<U1 1> ", Rep: 1500, Post: "> .", Ok: 1}, c04Soup{Unit: "S1F1 W H->E <A \"x\"> .\n", Rep: 1200, Ok: 1200})
}
