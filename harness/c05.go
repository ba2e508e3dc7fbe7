package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"pgregory.net/rapid"
)

type c05Step struct {
	Ell  []int         `json:"ell,omitempty"` // count for the i-th open ellipsis; -1 leaves it open
	Vals map[string]FV `json:"vals,omitempty"`
}

type c05Case struct {
	T     Tmpl
	Msg   bool
	Opt   bool
	Steps []c05Step
	Extra bool // unknown names in the map as well
}

func genC05(t *rapid.T) c05Case {
	c := c05Case{T: genTmpl(t, rng(t, "depth", 0, 3), rng(t, "vars", 1, 3), true), Msg: coin(t, "msg"), Opt: coin(t, "opt"), Extra: coin(t, "extra")}
	g := &tmplGen{t: t, vars: 3, n: 100}
	cur := c.T
	n := rng(t, "steps", 1, 4)
	for i := 0; i < n; i++ {
		var st c05Step
		vs := cur.vars()
		cnt := map[string]int{}
		es := ells(vs)
		if len(es) > 0 && rng(t, "fillell", 0, 3) > 0 {
			all := coin(t, "allell")
			for _, e := range es {
				k := -1
				if all || coin(t, "thisell") {
					k = pick(t, "count", 0, 1, 1, 2, 3)
					if len(es) > 3 && k > 1 && !oneIn(t, "many", 3) {
						k = 1
					}
				}
				st.Ell = append(st.Ell, k)
				if k >= 0 {
					cnt[e] = k
				}
			}
			nx := cur.fillEll(cnt)
			if nx.size() > 150 {
				break
			}
			cur = nx
		}
		mode := rng(t, "mode", 0, 3)
		st.Vals = map[string]FV{}
		for _, v := range cur.vars() {
			if isEll(v) || mode == 0 || mode < 3 && coin(t, "skipvar") {
				continue
			}
			k, owner := cur.kindOfVar(v)
			st.Vals[v] = g.fillValue(k, owner, i < n-1)
		}
		cur = cur.fillVars(st.Vals)
		c.Steps = append(c.Steps, st)
	}
	return c
}

type snap struct {
	s, v string
	b    []byte
	size int
}

func snapOf(n ast.ItemNode) snap {
	return snap{fmt.Sprint(n), fmt.Sprintf("%q", n.Variables()), n.ToBytes(), n.Size()}
}

func (a snap) eq(b snap) bool {
	return a.s == b.s && a.v == b.v && bytes.Equal(a.b, b.b) && a.size == b.size
}

// scribble changes everything Values() hands out: it is the caller's.
func scribble(n ast.ItemNode) {
	switch v := n.Values().(type) {
	case []ast.ItemNode:
		for i := range v {
			scribble(v[i])
			v[i] = ast.NewASCIINode("changed")
		}
	case []int:
		for i := range v {
			v[i] ^= 1
		}
	case []int64:
		for i := range v {
			v[i] ^= 1
		}
	case []uint64:
		for i := range v {
			v[i] ^= 1
		}
	case []float64:
		for i := range v {
			v[i] = -v[i] - 1
		}
	case []bool:
		for i := range v {
			v[i] = !v[i]
		}
	}
}

// checkTmpl compares a node with the model.
func checkTmpl(r *R, what string, n ast.ItemNode, m Tmpl) {
	vs := n.Variables()
	if got, want := normEll(vs), normEll(m.vars()); !reflect.DeepEqual(got, want) {
		r.Fatalf("%s: variables %q, want %q\nitem: %v", what, vs, m.vars(), n)
	}
	if len(vs) > 0 { // what is handed out is the caller's
		vs[0] = "changed"
		if again := n.Variables(); again[0] == "changed" {
			r.Fatalf("%s: changing the list returned by Variables() changes the item", what)
		}
	}
	scribble(n)
	b := m.build()
	if got, want := fmt.Sprint(n), fmt.Sprint(b); got != want {
		r.Fatalf("%s: item is\n%s\nwant\n%s", what, clip(got, 900), clip(want, 900))
	}
	if n.Size() != b.Size() {
		r.Fatalf("%s: size %d, want %d", what, n.Size(), b.Size())
	}
	if n.Type() != b.Type() && m.K != "A" {
		r.Fatalf("%s: type %q, want %q", what, n.Type(), b.Type())
	}
	if len(m.vars()) == 0 {
		if m.K == "" {
			return
		}
		if d := diffNode(n, m.item(), what); d != "" {
			r.Fatalf("%s", d)
		}
		if !bytes.Equal(n.ToBytes(), m.item().enc()) {
			r.Fatalf("%s: encodes to %x, want %x", what, clipb(n.ToBytes()), clipb(m.item().enc()))
		}
	} else if len(n.ToBytes()) != 0 {
		r.Fatalf("%s: has open variables %q and encodes to %x", what, m.vars(), clipb(n.ToBytes()))
	}
}

func runC05(r *R, c c05Case) {
	cur := c.T
	node := cur.build()
	checkTmpl(r, "built item", node, cur)
	var msg *ast.DataMessage
	wb := 0
	if c.Opt {
		wb = 2
	}
	if c.Msg {
		sys := []byte{1, 2, 3, 4}
		msg = ast.NewDataMessage("Name", 6, 11, wb, "H<-E", node).SetSessionIDAndSystemBytes(7, sys)
		copy(sys, []byte{9, 9, 9, 9}) // the caller's to change afterwards
	}
	type old struct {
		n ast.ItemNode
		s snap
	}
	olds := []old{{node, snapOf(node)}}
	var msgs []*ast.DataMessage
	var texts []string
	all := map[string]interface{}{}
	filled, repeated := 0, 0
	oneStep := true
	for i, st := range c.Steps {
		what := fmt.Sprintf("step %d", i)
		vals := map[string]interface{}{}
		cnt := map[string]int{}
		names := ells(node.Variables())
		model := ells(cur.vars())
		if len(names) != len(model) {
			r.Fatalf("%s: ellipses %q, want %q", what, names, model)
		}
		for j, k := range st.Ell {
			if k >= 0 && j < len(names) {
				vals[names[j]] = k
				cnt[model[j]] = k
				if k > 0 {
					repeated++
				}
				if i > 0 {
					oneStep = false
				}
				all[names[j]] = k
			}
		}
		cur = cur.fillEll(cnt)
		for v, f := range st.Vals {
			if f.Rename != "" || f.Item != nil && len(f.Item.vars()) > 0 {
				oneStep = false
			}
			vals[v] = cur.goFill(v, f)
			all[v] = vals[v]
			filled++
		}
		if c.Extra {
			vals["notThere"] = 1
			vals["not_there[3]"] = "x"
			if len(names) == 0 {
				vals["...[77]"] = 1
			}
		}
		keys := fmt.Sprint(sortedKeys(vals))
		next := node.FillVariables(vals)
		if k := fmt.Sprint(sortedKeys(vals)); k != keys {
			r.Fatalf("%s: filling changed the map of values", what)
		}
		cur = cur.fillVars(st.Vals)
		checkTmpl(r, what, next, cur)
		if c.Msg {
			before := msg.String()
			nm := msg.FillVariables(vals)
			if msg.String() != before {
				r.Fatalf("%s: filling changed the message", what)
			}
			root, _ := nm.Get()
			checkTmpl(r, what+" of message", root, cur)
			if !reflect.DeepEqual(normEll(nm.Variables()), normEll(cur.vars())) {
				r.Fatalf("%s: message variables %q, want %q", what, nm.Variables(), cur.vars())
			}
			if nm.Header() != msg.Header() || nm.Name() != "Name" || nm.SessionID() != 7 || nm.WaitBit() != msg.WaitBit() || nm.Direction() != "H<-E" || nm.StreamCode() != 6 || nm.FunctionCode() != 11 || !bytes.Equal(nm.SystemBytes(), []byte{1, 2, 3, 4}) {
				r.Fatalf("%s: filling changed the header: %s session %d system %x", what, nm.Header(), nm.SessionID(), nm.SystemBytes())
			}
			complete := len(cur.vars()) == 0 && !c.Opt
			if want := dataFrame(7, 6, 11, false, 0x01020304, Item{}); complete {
				want.Item = cur.item()
				if !bytes.Equal(nm.ToBytes(), want.enc()) {
					r.Fatalf("%s: message encodes to %x, want %x", what, clipb(nm.ToBytes()), clipb(want.enc()))
				}
			} else if len(nm.ToBytes()) != 0 {
				r.Fatalf("%s: incomplete message encodes to %x", what, clipb(nm.ToBytes()))
			}
			if vs := nm.Variables(); len(vs) > 0 {
				vs[0] = "changed"
				if again := nm.Variables(); again[0] == "changed" {
					r.Fatalf("%s: changing the list returned by the message's Variables() changes the message", what)
				}
			}
			if sb := nm.SystemBytes(); len(sb) > 0 {
				sb[0]++
				if again := nm.SystemBytes(); again[0] != 1 {
					r.Fatalf("%s: changing what SystemBytes() returns changes the message", what)
				}
			}
			msgs, texts = append(msgs, msg), append(texts, before)
			msg = nm
		}
		node = next
		olds = append(olds, old{node, snapOf(node)})
	}
	for i, o := range olds {
		if !o.s.eq(snapOf(o.n)) {
			r.Fatalf("the item before step %d changed later: was\n%s\nis\n%v", i, o.s.s, o.n)
		}
	}
	for i, m := range msgs {
		if m.String() != texts[i] {
			r.Fatalf("the message before step %d changed later", i)
		}
	}
	// all steps at once give the same (when no step opens a variable another fills)
	if oneStep && len(c.Steps) > 1 {
		r.Label("also in one step")
		whole := olds[0].n.FillVariables(all)
		checkTmpl(r, "all steps in one", whole, cur)
	}
	if filled > 0 {
		r.Label("variables filled")
	}
	if repeated > 0 {
		r.Label("ellipsis repeated")
	}
	if repeated > 1 {
		r.Label("several ellipses repeated")
	}
	if filled+repeated > 0 {
		r.NonTrivial()
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// c05Len fills a string variable with length limits, alone or in a list, in one
// step or after a repetition.
type c05Len struct {
	Min, Max int // Max -1: none
	S        string
	Nest     int  // lists around it
	Rep      int  // repeated by an ellipsis that often, the last one is filled
	Msg      bool // through a message
}

func genC05Len(t *rapid.T) c05Len {
	c := c05Len{Min: rng(t, "min", 0, 6), Max: -1, Nest: rng(t, "nest", 0, 3), Rep: rng(t, "rep", 0, 2), Msg: coin(t, "msg")}
	if coin(t, "max?") {
		c.Max = c.Min + rng(t, "span", 0, 4)
	}
	n := c.Min + rng(t, "d", -2, 2)
	if c.Max >= 0 && coin(t, "atmax") {
		n = c.Max + rng(t, "dm", -2, 2)
	}
	b := make([]byte, max(n, 0))
	for i := range b {
		b[i] = byte(rng(t, "sc", 0, 127))
	}
	c.S = string(b)
	return c
}

func runC05Len(r *R, c c05Len) {
	name := "v"
	var n, want ast.ItemNode = ast.NewASCIINodeVariable("v", c.Min, c.Max), ast.NewASCIINode(c.S)
	if c.Rep > 0 {
		n = ast.NewListNode(n, "...").FillVariables(map[string]interface{}{"...": c.Rep})
		name = fmt.Sprintf("v[%d]", c.Rep)
		var els []interface{}
		for i := 0; i < c.Rep; i++ {
			els = append(els, ast.NewASCIINodeVariable(fmt.Sprintf("v[%d]", i), c.Min, c.Max))
		}
		want = ast.NewListNode(append(els, want)...)
	}
	for i := 0; i < c.Nest; i++ {
		n, want = ast.NewListNode(n, ast.NewUintNode(1, i)), ast.NewListNode(want, ast.NewUintNode(1, i))
	}
	var got ast.ItemNode
	refused := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				refused = fmt.Sprint("refused: ", e)
			}
		}()
		vals := map[string]interface{}{name: c.S}
		if c.Msg {
			got, _ = ast.NewDataMessage("M", 1, 1, 0, "H->E", n).FillVariables(vals).Get()
		} else {
			got = n.FillVariables(vals)
		}
	}()
	ok := len(c.S) >= c.Min && (c.Max < 0 || len(c.S) <= c.Max)
	r.NonTrivial()
	if !ok {
		r.Label("outside the limits")
		if refused == "" {
			r.Failf("a string of %d characters is accepted for a variable of %d..%d: %v", len(c.S), c.Min, c.Max, got)
		}
		return
	}
	r.Label("within the limits")
	if refused != "" {
		r.Failf("a string of %d characters for a variable of %d..%d: %s", len(c.S), c.Min, c.Max, refused)
	} else if fmt.Sprint(got) != fmt.Sprint(want) {
		r.Failf("filled item is %v, want %v", got, want)
	}
}

func init() {
	register("C05", "limits", "string variables with length limits (at the limits, one or two off), alone, nested in lists or repeated by an ellipsis, filled directly or through a message: refused exactly when the length is outside the limits; non-trivial: all",
		opts{quick: budget{4000, 5}, thorough: budget{40000, 30}}, genC05Len, runC05Len)
	shards("C05", 8, 8)
	register("C05", "fill", "random item templates with value, ASCII, item variables and nested ellipses, filled in 1-4 partial or complete steps (counts 0-3, renames, items that contain variables), every stage compared with a substitution model built from scratch, earlier stages checked for change; non-trivial: a variable or ellipsis was filled",
		opts{quick: budget{12000, 30}, thorough: budget{200000, 400}}, genC05, runC05)
}
