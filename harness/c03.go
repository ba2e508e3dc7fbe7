package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"unicode"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/sml"
	"pgregory.net/rapid"
)

// smlMsg is a message as SML can express it.
type smlMsg struct {
	Name string `json:"name,omitempty"`
	S, F int
	Wait int // 0, 1, 2 (optional)
	Dir  string
	T    Tmpl
	Fill map[string]FV `json:"fill,omitempty"`
}

var dirs = []string{"H->E", "H<-E", "H<->E"}

func goodName(n string) bool {
	if strings.Contains(n, "//") || strings.HasPrefix(n, ".") || strings.HasPrefix(n, "<") {
		return false
	}
	for _, c := range n {
		if unicode.IsSpace(c) || c == unicode.ReplacementChar {
			return false
		}
	}
	return true
}

func genName(t *rapid.T) string {
	switch rng(t, "namemode", 0, 4) {
	case 0:
		return ""
	case 1:
		return pick(t, "name", "MessageName", "W", "[W]", "S1F2", "H->E", "T", "L", "a.b", "x/", "/", "[3]", "a\"b", "a<b>", "名前", "é", "...", "<", ">", "'", "name.")
	}
	n := rapid.StringOfN(rapid.RuneFrom(nil, unicode.Letter, unicode.Digit, unicode.Punct, unicode.Symbol), 1, 12, -1).Draw(t, "uname")
	return n
}

func genSmlMsg(t *rapid.T) smlMsg {
	m := smlMsg{Name: genName(t), Wait: rng(t, "wait", 0, 2), Dir: pick(t, "dir", dirs...)}
	if !goodName(m.Name) {
		m.Name = ""
	}
	m.S, m.F = genSF(t)
	if m.F%2 == 0 && m.Wait == 1 {
		m.Wait = 0
	}
	if !oneIn(t, "noitem", 8) {
		m.T = genTmpl(t, rng(t, "depth", 0, 4), pick(t, "vars", 0, 3, 5), true)
	}
	g := &tmplGen{t: t, n: 200}
	m.Fill = map[string]FV{}
	for _, v := range m.T.vars() {
		if !isEll(v) {
			k, o := m.T.kindOfVar(v)
			m.Fill[v] = g.fillValue(k, o, false)
		}
	}
	return m
}

func (m smlMsg) build() *ast.DataMessage {
	return ast.NewDataMessage(m.Name, m.S, m.F, m.Wait, m.Dir, m.T.build())
}

var waitNames = []string{"false", "true", "optional"}

func (m smlMsg) checkHead(r *R, what string, d *ast.DataMessage) {
	if d.Name() != m.Name || d.StreamCode() != m.S || d.FunctionCode() != m.F || d.WaitBit() != waitNames[m.Wait] || d.Direction() != m.Dir {
		r.Fatalf("%s: header is name %q S%dF%d wait %s %s, want name %q S%dF%d wait %s %s", what, d.Name(), d.StreamCode(), d.FunctionCode(), d.WaitBit(), d.Direction(), m.Name, m.S, m.F, waitNames[m.Wait], m.Dir)
	}
}

// closed fills all variables, with every ellipsis filled with 0, and compares
// with the model: so every value and variable position shows.
func (m smlMsg) closed(r *R, what string, d *ast.DataMessage) {
	vals := map[string]interface{}{}
	cnt := map[string]int{}
	for _, e := range ells(m.T.vars()) {
		cnt[e] = 0
	}
	for _, e := range ells(d.Variables()) {
		vals[e] = 0
	}
	for v, f := range m.Fill {
		vals[v] = m.T.goFill(v, f)
	}
	want := m.T.fillEll(cnt).fillVars(m.Fill)
	n, err := d.FillVariables(vals).Get()
	if err != nil {
		r.Fatalf("%s: %v", what, err)
	}
	if want.K == "" {
		if len(n.ToBytes()) != 0 {
			r.Fatalf("%s: has item %v, want none", what, n)
		}
		return
	}
	if df := diffNode(n, want.item(), what); df != "" {
		r.Fatalf("%s", df)
	}
	if !bytes.Equal(n.ToBytes(), want.item().enc()) {
		r.Fatalf("%s: encodes to %x, want %x", what, clipb(n.ToBytes()), clipb(want.item().enc()))
	}
}

// asciiLimits collects the length limits of the ASCII variables.
func asciiLimits(n ast.ItemNode, out map[string]string) {
	switch v := n.(type) {
	case *ast.ASCIINode:
		if vs := v.Variables(); len(vs) == 1 {
			a, b := v.FillInStringLength()
			out[vs[0]] = fmt.Sprintf("%d..%d", a, b)
		}
	case *ast.ListNode:
		for _, c := range v.Values().([]ast.ItemNode) {
			asciiLimits(c, out)
		}
	}
}

func (t Tmpl) limits(out map[string]string) {
	if t.K == "A" && t.Var != "" {
		out[t.Var] = fmt.Sprintf("%d..%d", t.Min, t.Max)
	}
	for _, e := range t.El {
		if e.T != nil {
			e.T.limits(out)
		}
	}
}

type c03Case struct{ Msgs []smlMsg }

func runC03(r *R, c c03Case) {
	var text strings.Builder
	for i, m := range c.Msgs {
		d := m.build()
		what := fmt.Sprintf("message %d", i)
		m.checkHead(r, what+" as built", d)
		txt := d.String()
		text.WriteString(txt)
		text.WriteString("\n")
		ps, errs, _ := sml.Parse(txt)
		if len(errs) > 0 || len(ps) != 1 {
			r.Fatalf("%s: parsing its text gives %d messages, errors %q\n%s", what, len(ps), errs, clip(txt, 1500))
		}
		m.sameAs(r, what+" parsed from\n"+clip(txt, 1200), ps[0], txt)
		m.closed(r, what+" as built", d)
		if d.String() != txt {
			r.Fatalf("%s: printing again gives other text", what)
		}
		if len(m.T.vars()) > 0 {
			r.Label("with variables")
		}
		if len(ells(m.T.vars())) > 0 {
			r.Label("with ellipsis")
		}
		if m.T.K != "" {
			r.NonTrivial()
		}
		r.Label("kind " + m.T.K)
	}
	ps, errs, _ := sml.Parse(text.String())
	if len(errs) > 0 || len(ps) != len(c.Msgs) {
		r.Fatalf("parsing the text of %d messages gives %d, errors %q\n%s", len(c.Msgs), len(ps), errs, clip(text.String(), 1500))
	}
	for i, m := range c.Msgs {
		m.sameAs(r, fmt.Sprintf("message %d of several parsed from\n%s", i, clip(text.String(), 1200)), ps[i], m.build().String())
	}
}

func (m smlMsg) sameAs(r *R, what string, p *ast.DataMessage, txt string) {
	m.checkHead(r, what, p)
	if p.String() != txt {
		r.Fatalf("%s\nprints as\n%s", what, clip(p.String(), 1200))
	}
	if got, want := anyEll(p.Variables()), anyEll(m.T.vars()); !reflect.DeepEqual(got, want) {
		r.Fatalf("%s\nvariables %q, want %q", what, got, want)
	}
	root, err := p.Get()
	if err != nil {
		r.Fatalf("%s: %v", what, err)
	}
	got, want := map[string]string{}, map[string]string{}
	asciiLimits(root, got)
	m.T.limits(want)
	if !reflect.DeepEqual(got, want) {
		r.Fatalf("%s\nlength limits of ASCII variables %v, want %v", what, got, want)
	}
	m.closed(r, what, p)
}

func init() {
	shards("C03", 8, 8)
	register("C03", "print-parse", "1-3 random messages (names over unicode punctuation and symbols, all headers, item trees with every format, control characters, variables, length limits, ellipses) printed, parsed and compared field by field, value by value (variables filled on both sides) and text by text, alone and concatenated; non-trivial: has an item",
		opts{quick: budget{8000, 40}, thorough: budget{60000, 400}},
		func(t *rapid.T) c03Case {
			n := pick(t, "msgs", 1, 1, 1, 2, 3)
			var c c03Case
			for i := 0; i < n; i++ {
				c.Msgs = append(c.Msgs, genSmlMsg(t))
			}
			return c
		}, runC03)
}
