package main

import (
	"bytes"
	"fmt"
	"slices"
	"strings"
	"unicode"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"pgregory.net/rapid"
)

// C06, part structure: names, limits, headers and ellipses that the constructors accept or refuse, and what the typed
// accessors say about the result.

type c06bCase struct {
	T       Tmpl
	Name    string
	S, F    int
	Wait    int
	Dir     string
	Item    bool // only the item
	Full    bool // NewHSMSDataMessage
	Session int
	Set     bool // session id and system bytes set afterwards
	Sys     []byte
	Paths   [][]int
}

// goodVar: letter or underbar, then letters, digits and underbars, then any number of [digits].
func goodVar(n string) bool {
	word := func(c byte, digit bool) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || digit && c >= '0' && c <= '9'
	}
	if n == "" || !word(n[0], false) {
		return false
	}
	i := 1
	for i < len(n) && word(n[i], true) {
		i++
	}
	return brackets(n[i:], -1)
}

// brackets: a sequence of [digits], at most max of them.
func brackets(s string, max int) bool {
	for k := 0; s != ""; k++ {
		if k == max || s[0] != '[' {
			return false
		}
		j := strings.IndexByte(s, ']')
		if j < 2 || strings.Trim(s[1:j], "0123456789") != "" {
			return false
		}
		s = s[j+1:]
	}
	return true
}

func goodEll(n string) bool { return strings.HasPrefix(n, "...") && brackets(n[3:], 1) }

// flaw says why the item cannot be built, "" if it can.
func (t Tmpl) flaw() string {
	var why string
	bad := func(f string, a ...interface{}) {
		if why == "" {
			why = fmt.Sprintf(f, a...)
		}
	}
	var walk func(t Tmpl)
	walk = func(t Tmpl) {
		for _, v := range t.Vals {
			if v.V != "" && !goodVar(v.V) {
				bad("%q is no name of a variable", v.V)
			}
		}
		if t.Var != "" {
			if !goodVar(t.Var) {
				bad("%q is no name of a variable", t.Var)
			}
			if t.Min < 0 || t.Max < -1 || t.Max >= 0 && t.Min > t.Max {
				bad("the length limits %d and %d", t.Min, t.Max)
			}
		}
		n := 0
		for i, e := range t.El {
			if e.T != nil {
				walk(*e.T)
				continue
			}
			name := e.Var + e.Ell
			switch {
			case goodVar(name):
			case !goodEll(name):
				bad("%q is no name of a variable", name)
			case i == 0:
				bad("an ellipsis at the start of a list")
			default:
				if n++; n > 1 {
					bad("two ellipses in one list")
				}
			}
		}
	}
	walk(t)
	seen := map[string]bool{}
	for _, v := range t.vars() {
		if seen[v] {
			bad("two variables are called %q", v)
		}
		seen[v] = true
	}
	return why
}

func (c c06bCase) flaw() string {
	if f := c.T.flaw(); f != "" || c.Item {
		return f
	}
	if strings.ContainsFunc(c.Name, unicode.IsSpace) {
		return "white space in the name"
	}
	switch {
	case c.S < 0 || c.S > 127:
		return "the stream code"
	case c.F < 0 || c.F > 255:
		return "the function code"
	case c.Wait < 0 || c.Wait > 2 || c.Wait == 2 && c.Full:
		return "the wait bit"
	case c.Wait == 1 && c.F%2 == 0:
		return "a reply that is to be answered"
	case !slices.Contains(dirs, c.Dir):
		return "the direction"
	case c.Full && len(c.T.vars()) > 0:
		return "open variables"
	case c.Full && (c.Session < 0 || c.Session > 65535), c.Set && (c.Session < -1 || c.Session > 65535):
		return "the session id"
	}
	return ""
}

func refused(f func()) (why string) {
	defer func() {
		if e := recover(); e != nil {
			why = fmt.Sprint("refused: ", e)
		}
	}()
	f()
	return ""
}

func runC06b(r *R, c c06bCase) {
	var n ast.ItemNode
	var m *ast.DataMessage
	handed := append([]byte{}, c.Sys...)
	got := refused(func() {
		n = c.T.build()
		switch {
		case c.Item:
		case c.Full:
			m = ast.NewHSMSDataMessage(c.Name, c.S, c.F, c.Wait, c.Dir, n, c.Session, handed)
		default:
			m = ast.NewDataMessage(c.Name, c.S, c.F, c.Wait, c.Dir, n)
		}
		if m != nil && c.Set {
			m = m.SetSessionIDAndSystemBytes(c.Session, handed)
		}
	})
	for i := range handed { // the caller's to change afterwards
		handed[i] ^= 0xff
	}
	want := c.flaw()
	if want != "" {
		r.NonTrivial()
		r.Label("refused")
		if got == "" {
			r.Fatalf("accepted in spite of %s", want)
		}
		return
	}
	if got != "" {
		r.Fatalf("%s, although nothing is wrong with it", got)
	}
	r.Label("accepted")
	if v := n.Variables(); fmt.Sprint(v) != fmt.Sprint(c.T.vars()) {
		r.Failf("Variables() = %q, want %q", v, c.T.vars())
	}
	if m == nil {
		m = ast.NewDataMessage("", 1, 1, 0, "H->E", n)
	} else {
		if m.Name() != c.Name || m.StreamCode() != c.S || m.FunctionCode() != c.F || m.Direction() != c.Dir || m.WaitBit() != []string{"false", "true", "optional"}[c.Wait] {
			r.Failf("the header is %q %d %d %s %s", m.Name(), m.StreamCode(), m.FunctionCode(), m.Direction(), m.WaitBit())
		}
		session, sys := -1, []byte{0, 0, 0, 0}
		if c.Full || c.Set {
			session, sys = c.Session, c.Sys
		}
		if m.SessionID() != session || !bytes.Equal(m.SystemBytes(), sys) {
			r.Failf("session id %d, system bytes % x instead of %d, % x", m.SessionID(), m.SystemBytes(), session, sys)
		}
		if c.Wait == 2 {
			for _, w := range []bool{false, true} {
				var o *ast.DataMessage
				why := refused(func() { o = m.SetWaitBit(w) })
				if w && c.F%2 == 0 {
					if why == "" {
						r.Failf("SetWaitBit(true) accepted for function %d", c.F)
					}
				} else if why != "" || o.WaitBit() != fmt.Sprint(w) || o.SessionID() != session || m.WaitBit() != "optional" {
					r.Failf("SetWaitBit(%v): %s", w, why)
				}
			}
		}
	}
	for _, p := range c.Paths {
		c.access(r, m, p)
	}
	if len(c.T.vars()) > 0 || len(c.Paths) > 0 {
		r.NonTrivial()
	}
}

// at is the item under a path; nil if there is none, open if it is a variable of a list.
func (t *Tmpl) at(p []int) (_ *Tmpl, open bool) {
	for _, i := range p {
		if t.K != "L" || i < 0 || i >= len(t.El) {
			return nil, false
		}
		if t = t.El[i].T; t == nil {
			t, open = &Tmpl{}, true
		}
	}
	return t, open
}

// access: every accessor returns the value, or an error if there is none of that kind. An index beyond the values of
// an item is the caller's mistake.
func (c c06bCase) access(r *R, m *ast.DataMessage, p []int) {
	it, open := c.T.at(p)
	n, err := m.Get(p...)
	if (it == nil) != (err != nil) {
		r.Failf("Get(%v): error %v", p, err)
		return
	}
	if it != nil && !open && it.K != "" {
		if have, want := n.Type(), typeNames[it.K]; have != want {
			r.Failf("the item at %v, of kind %s, is said to be %q", p, it.K, have)
		}
	}
	var s string
	if why := refused(func() { s, err = m.GetAscii(p...) }); why != "" {
		r.Failf("GetAscii(%v): %s", p, why)
	} else if good := it != nil && it.K == "A" && it.Var == ""; good != (err == nil) && (it == nil || it.Var == "") || good && s != it.S {
		r.Failf("GetAscii(%v) = %q, %v", p, s, err)
	}
	if len(p) == 0 {
		return
	}
	it, _ = c.T.at(p[:len(p)-1])
	i := p[len(p)-1]
	for _, a := range []struct {
		name  string
		kinds string
		get   func() (interface{}, error)
	}{
		{"GetByte", "B", func() (interface{}, error) { return m.GetByte(p...) }},
		{"GetBoolean", "BOOLEAN", func() (interface{}, error) { return m.GetBoolean(p...) }},
		{"GetInt", "I1 I2 I4 I8", func() (interface{}, error) { return m.GetInt(p...) }},
		{"GetFloat", "F4 F8", func() (interface{}, error) { return m.GetFloat(p...) }},
	} {
		good := it != nil && it.K != "" && slices.Contains(strings.Fields(a.kinds), it.K)
		if good && (i < 0 || i >= len(it.Vals)) {
			continue
		}
		var v interface{}
		var err error
		if why := refused(func() { v, err = a.get() }); why != "" {
			r.Failf("%s(%v): %s", a.name, p, why)
			continue
		}
		if good != (err == nil) {
			r.Failf("%s(%v) = %v, %v", a.name, p, v, err)
		}
		if !good || it.Vals[i].V != "" {
			continue
		}
		r.Label("value read")
		var want interface{}
		switch x := it.Vals[i]; it.K[0] {
		case 'I':
			want = x.I
		case 'F':
			want = x.F
		default:
			if want = x.O; it.K == "B" {
				want = byte(x.B)
			}
		}
		if it.K == "F4" {
			want, v = float32(want.(float64)), float32(v.(float64))
		}
		if v != want {
			r.Failf("%s(%v) = %v, want %v", a.name, p, v, want)
		}
	}
}

var typeNames = map[string]string{"L": "list", "A": "ascii", "B": "binary", "BOOLEAN": "boolean", "F4": "f4", "F8": "f8",
	"I1": "i1", "I2": "i2", "I4": "i4", "I8": "i8", "U1": "u1", "U2": "u2", "U4": "u4", "U8": "u8"}

// nodes of the template.
func (t *Tmpl) all() []*Tmpl {
	out := []*Tmpl{t}
	for _, e := range t.El {
		if e.T != nil {
			out = append(out, e.T.all()...)
		}
	}
	return out
}

func (t *Tmpl) setVar(t2 *rapid.T, name string) {
	// names of one item, in a list, or an ASCII variable
	var at []*string
	for _, n := range t.all() {
		for i := range n.Vals {
			if n.Vals[i].V != "" {
				at = append(at, &n.Vals[i].V)
			}
		}
		if n.Var != "" {
			at = append(at, &n.Var)
		}
		for i := range n.El {
			if n.El[i].Var != "" {
				at = append(at, &n.El[i].Var)
			} else if n.El[i].Ell != "" {
				at = append(at, &n.El[i].Ell)
			}
		}
	}
	if len(at) > 0 {
		*at[rng(t2, "which", 0, len(at)-1)] = name
	}
}

func genC06b(t *rapid.T) c06bCase {
	c := c06bCase{Name: genName(t), Wait: rng(t, "wait", 0, 2), Dir: pick(t, "dir", dirs...), Item: oneIn(t, "item", 3), Full: oneIn(t, "full", 3),
		Set: coin(t, "set"), Session: int(genSession(t)), Sys: []byte{1, 2, 3, 4}}
	c.S, c.F = genSF(t)
	if c.F%2 == 0 && c.Wait == 1 {
		c.Wait = 0
	}
	if c.Full && c.Wait == 2 {
		c.Wait = 0
	}
	vars := rng(t, "vars", 0, 3)
	if c.Full && !c.Item && !oneIn(t, "open", 4) {
		vars = 0
	}
	if !oneIn(t, "noitem", 8) {
		c.T = genTmpl(t, rng(t, "depth", 0, 3), vars, vars > 0)
	}
	names := c.T.vars()
	if len(names) > 0 && coin(t, "flaw") {
		switch rng(t, "flawed", 0, 2) {
		case 0:
			c.T.setVar(t, pick(t, "bad", "1a", "a b", " a", "a ", "a\n", "a-b", "é", "名", "aé", "a[", "a]", "a[]", "a[x]", "a[1]b", "a[1][2]", "a[-1]", "[1]", "..", "...", "....", "...[]", "...[x]", "...[1]", "...[1][2]", "...a", "_", "a[01]", "a[1] ", "T", "L", "<", "\"", "a.b"))
		case 1:
			c.T.setVar(t, pick(t, "same", names...))
		default:
			ns := c.T.all()
			n := ns[rng(t, "node", 0, len(ns)-1)]
			switch {
			case n.K == "L":
				at := rng(t, "at", 0, len(n.El))
				n.El = slices.Insert(n.El, at, TEl{Ell: pick(t, "ename", "...", "...[7]", "...[99]")})
			case n.Var != "":
				n.Min, n.Max = rng(t, "min", -1, 3), rng(t, "max", -2, 3)
			}
		}
	}
	if !c.Item && oneIn(t, "head", 2) {
		switch rng(t, "headflaw", 0, 6) {
		case 0:
			c.Name = pick(t, "badname", " ", "a b", "a\t", "\na", "\u00a0", "a\u2003b", "\u0085", "a\u200bb", "a_b")
		case 1:
			c.S = pick(t, "bads", -1, 0, 127, 128, 255, 256, -128)
		case 2:
			c.F = pick(t, "badf", -1, 0, 255, 256, 257, 65535)
		case 3:
			c.Wait = pick(t, "badw", -1, 1, 2, 3, 255)
		case 4:
			c.Dir = pick(t, "badd", "", "H->e", "E->H", "H<->E", "H<-E ", "H", "->")
		default:
			c.Session = pick(t, "badid", -2, -1, 0, 65535, 65536, 65537, 1<<20, -65536)
		}
	}
	// paths to items and values, and beyond
	for i, n := 0, rng(t, "paths", 0, 4); i < n; i++ {
		p := []int{}
		at := &c.T
		for at != nil && at.K == "L" && len(at.El) > 0 && !oneIn(t, "stop", 4) {
			k := rng(t, "step", 0, len(at.El)-1)
			p = append(p, k)
			at = at.El[k].T
		}
		if at != nil && at.K != "L" && len(at.Vals) > 0 && coin(t, "value") {
			p = append(p, rng(t, "vi", 0, len(at.Vals)-1))
		} else if oneIn(t, "beyond", 3) {
			p = append(p, pick(t, "bi", -1, 0, 1, 5, 1<<30))
		}
		c.Paths = append(c.Paths, p)
	}
	return c
}

func init() {
	register("C06", "structure", "items and messages with names of variables, ellipses, string limits and headers at and beyond what the documentation allows; refused exactly when one of them is not allowed, otherwise everything reads back as given; every typed accessor on up to 4 paths gives the value or an error; non-trivial: refused, has variables, or a path was read",
		opts{quick: budget{8000, 10}, thorough: budget{400000, 200}}, genC06b, runC06b)
}
