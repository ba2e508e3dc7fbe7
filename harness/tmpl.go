package main

import (
	"fmt"
	"strings"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"pgregory.net/rapid"
)

// TV is a value or an open variable of a leaf item.
type TV struct {
	V string  `json:"v,omitempty"` // variable name
	I int64   `json:"i,omitempty"`
	U uint64  `json:"u,omitempty"`
	F float64 `json:"f"`
	B int     `json:"b,omitempty"`
	O bool    `json:"o,omitempty"`
}

// Tmpl is the reference model of an item that may have variables.
type Tmpl struct {
	K    string `json:"k"`
	Vals []TV   `json:"vals,omitempty"`
	S    string `json:"s,omitempty"`
	Var  string `json:"var,omitempty"` // ASCII variable
	Min  int    `json:"min,omitempty"`
	Max  int    `json:"max,omitempty"`
	El   []TEl  `json:"el,omitempty"`
}

// TEl is an element of a list: an item, an item variable or an ellipsis.
type TEl struct {
	T   *Tmpl  `json:"t,omitempty"`
	Var string `json:"var,omitempty"`
	Ell string `json:"ell,omitempty"`
}

func (t Tmpl) goVal(v TV) interface{} {
	if v.V != "" {
		return v.V
	}
	switch t.K {
	case "B":
		return v.B
	case "BOOLEAN":
		return v.O
	case "F4", "F8":
		return v.F
	case "I1", "I2", "I4", "I8":
		return v.I
	}
	return v.U
}

// build makes the item with the constructors of the code under test.
func (t Tmpl) build() ast.ItemNode {
	if t.K == "" {
		return ast.NewEmptyItemNode()
	}
	var vs []interface{}
	for _, v := range t.Vals {
		vs = append(vs, t.goVal(v))
	}
	// the values passed in are the caller's to change afterwards
	defer func() {
		for i := range vs {
			vs[i] = nil
		}
	}()
	switch t.K {
	case "L":
		for _, e := range t.El {
			switch {
			case e.T != nil:
				vs = append(vs, e.T.build())
			case e.Var != "":
				vs = append(vs, e.Var)
			default:
				vs = append(vs, e.Ell)
			}
		}
		return ast.NewListNode(vs...)
	case "A":
		if t.Var != "" {
			return ast.NewASCIINodeVariable(t.Var, t.Min, t.Max)
		}
		return ast.NewASCIINode(t.S)
	case "B":
		return ast.NewBinaryNode(vs...)
	case "BOOLEAN":
		return ast.NewBooleanNode(vs...)
	case "F4", "F8":
		return ast.NewFloatNode(width(t.K), vs...)
	case "I1", "I2", "I4", "I8":
		return ast.NewIntNode(width(t.K), vs...)
	}
	return ast.NewUintNode(width(t.K), vs...)
}

// vars lists the open variables and ellipses in order of appearance.
func (t Tmpl) vars() []string {
	out := []string{}
	for _, v := range t.Vals {
		if v.V != "" {
			out = append(out, v.V)
		}
	}
	if t.Var != "" {
		out = append(out, t.Var)
	}
	for _, e := range t.El {
		switch {
		case e.T != nil:
			out = append(out, e.T.vars()...)
		case e.Var != "":
			out = append(out, e.Var)
		default:
			out = append(out, e.Ell)
		}
	}
	return out
}

func isEll(n string) bool { return strings.HasPrefix(n, "...") }

func ells(vars []string) (e []string) {
	for _, v := range vars {
		if isEll(v) {
			e = append(e, v)
		}
	}
	return
}

// normEll writes the name of a single ellipsis as "...": whether it is called
// "..." or "...[0]" is not specified.
func normEll(vars []string) []string {
	one := len(ells(vars)) == 1
	out := append([]string{}, vars...)
	for i, v := range out {
		if one && isEll(v) {
			out[i] = "..."
		}
	}
	return out
}

// anyEll writes every ellipsis as "...".
func anyEll(vars []string) []string {
	out := append([]string{}, vars...)
	for i, v := range out {
		if isEll(v) {
			out[i] = "..."
		}
	}
	return out
}

// fillEll is the model of filling ellipses: count[name] repetitions.
func (t Tmpl) fillEll(count map[string]int) Tmpl {
	hit := false
	for _, e := range ells(t.vars()) {
		if _, ok := count[e]; ok {
			hit = true
		}
	}
	if !hit {
		return t
	}
	out := t.repeat(count, "")
	if left := ells(out.vars()); len(left) > 0 {
		i := 0
		out = out.renameEll(func() string {
			if len(left) == 1 {
				return "..."
			}
			i++
			return fmt.Sprintf("...[%d]", i-1)
		})
	}
	return out
}

func (t Tmpl) renameEll(next func() string) Tmpl {
	o := t
	o.El = nil
	for _, e := range t.El {
		if e.T != nil {
			c := e.T.renameEll(next)
			o.El = append(o.El, TEl{T: &c})
		} else if e.Ell != "" {
			o.El = append(o.El, TEl{Ell: next()})
		} else {
			o.El = append(o.El, e)
		}
	}
	return o
}

func (t Tmpl) repeat(count map[string]int, suffix string) Tmpl {
	o := t
	o.Vals = append([]TV{}, t.Vals...)
	for i := range o.Vals {
		if o.Vals[i].V != "" {
			o.Vals[i].V += suffix
		}
	}
	if o.Var != "" {
		o.Var += suffix
	}
	if t.K != "L" {
		return o
	}
	o.El = nil
	one := func(e TEl, suffix string) TEl {
		switch {
		case e.T != nil:
			c := e.T.repeat(count, suffix)
			return TEl{T: &c}
		case e.Var != "":
			return TEl{Var: e.Var + suffix}
		}
		return e
	}
	at, n := -1, 0
	for i, e := range t.El {
		if e.Ell != "" {
			if c, ok := count[e.Ell]; ok {
				at, n = i, c
			}
		}
	}
	if at < 0 {
		for _, e := range t.El {
			o.El = append(o.El, one(e, suffix))
		}
		return o
	}
	for k := 0; k <= n; k++ {
		s := suffix
		if n > 0 {
			s = fmt.Sprintf("%s[%d]", suffix, k)
		}
		for _, e := range t.El[:at] {
			o.El = append(o.El, one(e, s))
		}
	}
	for _, e := range t.El[at+1:] {
		o.El = append(o.El, one(e, suffix))
	}
	return o
}

// FV is a value to fill a variable with.
type FV struct {
	TV
	S      string `json:"s,omitempty"`
	Item   *Tmpl  `json:"item,omitempty"`
	Rename string `json:"rename,omitempty"`
}

// fillVars is the model of filling variables that are not ellipses.
func (t Tmpl) fillVars(m map[string]FV) Tmpl {
	o := t
	o.Vals = append([]TV{}, t.Vals...)
	for i, v := range o.Vals {
		if f, ok := m[v.V]; ok && v.V != "" {
			o.Vals[i] = f.TV
			if f.Rename != "" {
				o.Vals[i] = TV{V: f.Rename}
			}
		}
	}
	if f, ok := m[t.Var]; ok && t.Var != "" {
		o.Var, o.Min, o.Max, o.S = "", 0, 0, f.S
	}
	o.El = nil
	for _, e := range t.El {
		if e.T != nil {
			c := e.T.fillVars(m)
			o.El = append(o.El, TEl{T: &c})
		} else if f, ok := m[e.Var]; ok && e.Var != "" {
			if f.Rename != "" {
				o.El = append(o.El, TEl{Var: f.Rename})
			} else {
				o.El = append(o.El, TEl{T: f.Item})
			}
		} else {
			o.El = append(o.El, e)
		}
	}
	return o
}

// kindOfVar finds the item kind a variable belongs to ("item" for an item variable).
func (t Tmpl) kindOfVar(name string) (string, *Tmpl) {
	for _, v := range t.Vals {
		if v.V == name {
			return t.K, &t
		}
	}
	if t.Var == name {
		return "A", &t
	}
	for _, e := range t.El {
		if e.T != nil {
			if k, x := e.T.kindOfVar(name); k != "" {
				return k, x
			}
		} else if e.Var == name {
			return "item", nil
		}
	}
	return "", nil
}

// item is the reference item of a template without variables.
func (t Tmpl) item() Item {
	it := Item{K: t.K, S: t.S}
	for _, v := range t.Vals {
		switch t.K[0] {
		case 'B':
			if t.K == "B" {
				it.B = append(it.B, byte(v.B))
			} else {
				it.O = append(it.O, v.O)
			}
		case 'I':
			it.I = append(it.I, v.I)
		case 'U':
			it.U = append(it.U, v.U)
		case 'F':
			it.F = append(it.F, v.F)
		}
	}
	for _, e := range t.El {
		c := e.T.item()
		if c.K == "" {
			c = Item{K: "L"}
		}
		it.L = append(it.L, c)
	}
	return it
}

func (t Tmpl) size() int {
	n := 1 + len(t.Vals)
	for _, e := range t.El {
		n++
		if e.T != nil {
			n += e.T.size()
		}
	}
	return n
}

// ---- generation ----

type tmplGen struct {
	t     *rapid.T
	n     int // variables so far
	ell   bool
	vars  int // one in vars values is a variable; 0 none
	names map[string]bool
}

func (g *tmplGen) name() string {
	g.n++
	base := pick(g.t, "vname", "v", "Var", "_x", "item_name", "SVID", "L1", "Tx", "i4x", "b_1")
	n := fmt.Sprintf("%s%d", base, g.n)
	if oneIn(g.t, "vidx", 6) {
		for i, k := 0, pick(g.t, "dims", 1, 1, 1, 2, 3, 5); i < k; i++ {
			n += fmt.Sprintf("[%d]", rng(g.t, "vi", 0, 12))
		}
	}
	return n
}

func (g *tmplGen) val(k string) TV {
	t := g.t
	switch k {
	case "B":
		return TV{B: rng(t, "b", 0, 255)}
	case "BOOLEAN":
		return TV{O: coin(t, "o")}
	case "F4", "F8":
		return TV{F: genFloatOf(t, width(k))}
	case "I1", "I2", "I4", "I8":
		return TV{I: genIntOf(t, width(k))}
	}
	return TV{U: genUintOf(t, width(k))}
}

func (g *tmplGen) tmpl(depth int) Tmpl {
	t := g.t
	if depth > 0 && rng(t, "list?", 0, 2) > 0 {
		o := Tmpl{K: "L"}
		n := rng(t, "ln", 0, 4)
		for i := 0; i < n; i++ {
			if g.vars > 0 && oneIn(t, "ivar", g.vars+1) {
				o.El = append(o.El, TEl{Var: g.name()})
				continue
			}
			c := g.tmpl(depth - 1)
			o.El = append(o.El, TEl{T: &c})
		}
		if g.ell && n > 0 && oneIn(t, "ell", 2) {
			at := rng(t, "ellat", 1, len(o.El))
			el := append([]TEl{}, o.El[:at]...)
			el = append(el, TEl{Ell: "?"})
			o.El = append(el, o.El[at:]...)
		}
		return o
	}
	k := pick(t, "kind", kinds[1:]...)
	o := Tmpl{K: k}
	if k == "A" {
		if g.vars > 0 && oneIn(t, "avar", g.vars) {
			o.Var = g.name()
			o.Max = -1
			switch rng(t, "alen", 0, 3) {
			case 0:
				o.Min = rng(t, "min", 0, 5)
			case 1:
				o.Min = rng(t, "min", 0, 5)
				o.Max = o.Min + rng(t, "more", 0, 5)
			case 2:
				o.Max = rng(t, "max", 0, 8)
			}
			return o
		}
		o.S = genASCII(t, 12)
		return o
	}
	n := rng(t, "n", 0, 4)
	for i := 0; i < n; i++ {
		if g.vars > 0 && oneIn(t, "var", g.vars) {
			o.Vals = append(o.Vals, TV{V: g.name()})
		} else {
			o.Vals = append(o.Vals, g.val(k))
		}
	}
	return o
}

// chain nests lists with an ellipsis each, so that a variable gets an index per
// ellipsis when they are filled.
func (g *tmplGen) chain(n int) Tmpl {
	t := g.t
	var o Tmpl
	if coin(t, "chainleaf") {
		o = Tmpl{K: "U1", Vals: []TV{{V: g.name()}}}
	} else {
		o = Tmpl{K: "A", Var: g.name(), Max: -1}
	}
	for i := 0; i < n; i++ {
		c := o
		l := Tmpl{K: "L"}
		if oneIn(t, "before", 5) {
			l.El = append(l.El, TEl{Var: g.name()})
		}
		l.El = append(l.El, TEl{T: &c})
		if !oneIn(t, "noell", 8) {
			l.El = append(l.El, TEl{Ell: "?"})
		}
		if oneIn(t, "after", 5) {
			x := Tmpl{K: "BOOLEAN", Vals: []TV{{V: g.name()}}}
			l.El = append(l.El, TEl{T: &x})
		}
		o = l
	}
	return o
}

// genTmpl makes a template item; ellipses get distinct names.
func genTmpl(t *rapid.T, depth, vars int, ell bool) Tmpl {
	g := &tmplGen{t: t, vars: vars, ell: ell}
	o := g.tmpl(depth)
	if ell && oneIn(t, "chain", 8) {
		o = g.chain(rng(t, "links", 3, 6))
	}
	n := len(ells(o.vars2()))
	if n > 0 {
		i := 0
		step := rng(t, "ellstep", 1, 3)
		single := n == 1 && coin(t, "ellplain")
		o = o.renameEll(func() string {
			i += step
			if single {
				return "..."
			}
			return fmt.Sprintf("...[%d]", i-step)
		})
	}
	return o
}

// vars2 is vars for templates whose ellipses have no names yet.
func (t Tmpl) vars2() []string {
	out := []string{}
	for _, e := range t.El {
		if e.T != nil {
			out = append(out, e.T.vars2()...)
		} else if e.Ell != "" {
			out = append(out, "...")
		}
	}
	return out
}

// fillValue makes a value for a variable.
func (g *tmplGen) fillValue(k string, owner *Tmpl, allowOpen bool) FV {
	t := g.t
	if allowOpen && k != "A" && oneIn(t, "rename", 6) {
		return FV{Rename: "r" + g.name()}
	}
	switch k {
	case "A":
		n := owner.Min + rng(t, "slen", 0, 4)
		if owner.Max >= 0 && n > owner.Max {
			n = owner.Max
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(rng(t, "sc", 0, 127))
		}
		return FV{S: string(b)}
	case "item":
		v := g.vars
		if !allowOpen {
			g.vars = 0
		}
		e := g.ell
		g.ell = false
		c := g.tmpl(rng(t, "fd", 0, 2))
		g.vars, g.ell = v, e
		return FV{Item: &c}
	}
	return FV{TV: g.val(k)}
}

func (t Tmpl) goFill(name string, f FV) interface{} {
	if f.Rename != "" {
		return f.Rename
	}
	k, owner := t.kindOfVar(name)
	switch k {
	case "A":
		return f.S
	case "item":
		return f.Item.build()
	}
	return owner.goVal(f.TV)
}
