package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"pgregory.net/rapid"
)

// C29: what an endpoint cannot do is refused and has no effect.

type c29Op struct {
	Op  string
	Bad int // which invalid identifier, text or value
	N   int // valid ones around it
	Pos int
	On  bool
}

type c29Case struct {
	Active, Equip bool
	Ops           []c29Op
}

type c29Named string

// values that are no identifiers
var c29IDs = []struct {
	name string
	v    any
}{
	{"int -1", -1}, {"int8", int8(-128)}, {"int16", int16(-1)}, {"int32", int32(math.MinInt32)}, {"int64", int64(math.MinInt64)},
	{"float64", 1.0}, {"float32", float32(2)}, {"bool", true}, {"nil", nil}, {"struct", struct{}{}}, {"[]byte", []byte("1")}, {"[]int", []int{1}},
	{"pointer", new(int)}, {"error", errors.New("1")}, {"complex", complex(1, 0)},
	{"text \u00e9", "\u00e9"}, {"text 0x80", "A\x80"}, {"text \U0001f600", "\U0001f600"}, {"text 0xff", "\xff"},
}

// values that are no parameter values
var c29Vals = []any{struct{}{}, map[string]int{}, []int{1}, make(chan int), func() {}, new(int), complex(1, 1), "\u00e9", "ok\xff", []string{"a"}, errors.New("x")}

var c29Texts = []string{"\u00e9", "body\x80", "\xff\xfe", strings.Repeat("a", 100) + "\u4e2d"}

var c29Times = []string{"", "2024", "2024010203040", "2024010203\u0664405", "20240102030405\u00e9"}

func c29Template(w int) *ast.DataMessage {
	return ast.NewDataMessage("open", 1, 3, w, "H<->E", ast.NewListNode(ast.NewUintNode(4, "var")))
}

// c29Wrong: for each operation its error and whether it must be the one for
// the other kind of device.
type c29Wrong struct {
	role bool
	f    func(x *c29Run, o c29Op) error
}

func (o c29Op) id() any { return c29IDs[o.Bad%len(c29IDs)].v }

// among puts the invalid identifier among valid ones.
func (o c29Op) among() []any {
	var a []any
	good := []any{1, "A", uint64(1 << 32), 2}
	for i := 0; i < o.N; i++ {
		a = append(a, good[i%len(good)])
	}
	p := o.Pos % (len(a) + 1)
	return append(append(append([]any{}, a[:p]...), o.id()), a[p:]...)
}

func second[T any](_ T, err error) error { return err }

func isNil[T any](p *T, err error) error {
	if err == nil {
		return nil
	}
	if p != nil {
		return nil // an error and a definition: not refused
	}
	return err
}

var c29Both = map[string]c29Wrong{
	"SendDataMessage nil": {false, func(x *c29Run, o c29Op) error { return x.e.p.SendDataMessage(nil) }},
	"SendAndWait nil":     {false, func(x *c29Run, o c29Op) error { return second(x.e.p.SendAndWait(nil)) }},
	"SendResponse nil":    {false, func(x *c29Run, o c29Op) error { return x.e.p.SendResponse(nil, []byte{1, 2, 3, 4}) }},
	"SendDataMessage open": {false, func(x *c29Run, o c29Op) error {
		return x.e.p.SendDataMessage(c29Template(o.N % 3))
	}},
	"SendAndWait open": {false, func(x *c29Run, o c29Op) error { return second(x.e.p.SendAndWait(c29Template(o.N % 3))) }},
	"SendResponse open": {false, func(x *c29Run, o c29Op) error {
		return x.e.p.SendResponse(ast.NewDataMessage("open", 1, 4, 0, "H<->E", ast.NewASCIINodeVariable("v", 0, -1)), []byte{1, 2, 3, 4})
	}},
	"NewGemHandler without protocol": {false, func(x *c29Run, o c29Op) error { return isNil(gem.NewGemHandler(gem.Options{})) }},
	"NewStatusVariable": {false, func(x *c29Run, o c29Op) error {
		return isNil(gem.NewStatusVariable(o.id(), "n", "u"))
	}},
	"NewDataVariable":      {false, func(x *c29Run, o c29Op) error { return isNil(gem.NewDataVariable(o.id(), "n")) }},
	"NewCollectionEvent":   {false, func(x *c29Run, o c29Op) error { return isNil(gem.NewCollectionEvent(o.id(), "n")) }},
	"NewEquipmentConstant": {false, func(x *c29Run, o c29Op) error { return isNil(gem.NewEquipmentConstant(o.id(), "n", iU(1, 1).node())) }},
	"NewEquipmentConstant without value": {false, func(x *c29Run, o c29Op) error {
		return isNil(gem.NewEquipmentConstant(77, "n", nil))
	}},
	"RegisterStatusVariable nil":    {false, func(x *c29Run, o c29Op) error { return x.e.g.RegisterStatusVariable(nil) }},
	"RegisterDataVariable nil":      {false, func(x *c29Run, o c29Op) error { return x.e.g.RegisterDataVariable(nil) }},
	"RegisterCollectionEvent nil":   {false, func(x *c29Run, o c29Op) error { return x.e.g.RegisterCollectionEvent(nil) }},
	"RegisterEquipmentConstant nil": {false, func(x *c29Run, o c29Op) error { return x.e.g.RegisterEquipmentConstant(nil) }},
}

// equipment definitions with the identifier n
func c29SV(n any) *gem.StatusVariable {
	v, err := gem.NewStatusVariable(n, "again", "again", gem.WithStatusValue(iA("again").node()))
	mustOK(err)
	return v
}
func c29DV(n any) *gem.DataVariable {
	v, err := gem.NewDataVariable(n, "again", gem.WithDataValue(iA("again").node()))
	mustOK(err)
	return v
}
func c29EC(n any) *gem.EquipmentConstant {
	v, err := gem.NewEquipmentConstant(n, "again", iA("again").node())
	mustOK(err)
	return v
}
func c29CE(n any) *gem.CollectionEvent {
	v, err := gem.NewCollectionEvent(n, "again")
	mustOK(err)
	return v
}

func (o c29Op) alarm() int { return []int{-1, math.MinInt, 99, math.MaxInt, 5}[o.Bad%5] }

var c29Equip = map[string]c29Wrong{
	"RegisterStatusVariable again": {false, func(x *c29Run, o c29Op) error {
		return x.e.g.RegisterStatusVariable(c29SV([]any{1, "A", uint64(1 << 32), int8(2)}[o.N%4]))
	}},
	"RegisterDataVariable again": {false, func(x *c29Run, o c29Op) error { return x.e.g.RegisterDataVariable(c29DV(10 + o.N%5)) }},
	"RegisterCollectionEvent again": {false, func(x *c29Run, o c29Op) error {
		return x.e.g.RegisterCollectionEvent(c29CE([]any{1, "A", uint64(1 << 32), int8(2)}[o.N%4]))
	}},
	"RegisterEquipmentConstant again": {false, func(x *c29Run, o c29Op) error {
		return x.e.g.RegisterEquipmentConstant(c29EC([]any{1, "A", uint16(3), int8(2)}[o.N%4]))
	}},
	"RegisterProcessProgram bad id":   {false, func(x *c29Run, o c29Op) error { return x.e.g.RegisterProcessProgram(o.id(), "body") }},
	"RegisterProcessProgram bad body": {false, func(x *c29Run, o c29Op) error { return x.e.g.RegisterProcessProgram(1, c29Texts[o.Bad%len(c29Texts)]) }},
	"TriggerCollectionEvent none":     {false, func(x *c29Run, o c29Op) error { return x.e.g.TriggerCollectionEvent() }},
	"TriggerCollectionEvent bad id":   {false, func(x *c29Run, o c29Op) error { return x.e.g.TriggerCollectionEvent(o.among()...) }},
	"RaiseAlarm unknown":              {false, func(x *c29Run, o c29Op) error { return x.e.g.RaiseAlarm(o.alarm(), o.On) }},
	"ClearAlarm unknown":              {false, func(x *c29Run, o c29Op) error { return x.e.g.ClearAlarm(o.alarm()) }},
}

var c29Host = map[string]c29Wrong{
	"RegisterStatusVariable":    {true, func(x *c29Run, o c29Op) error { return x.e.g.RegisterStatusVariable(c29SV(1)) }},
	"RegisterDataVariable":      {true, func(x *c29Run, o c29Op) error { return x.e.g.RegisterDataVariable(c29DV(1)) }},
	"RegisterCollectionEvent":   {true, func(x *c29Run, o c29Op) error { return x.e.g.RegisterCollectionEvent(c29CE(1)) }},
	"RegisterEquipmentConstant": {true, func(x *c29Run, o c29Op) error { return x.e.g.RegisterEquipmentConstant(c29EC(1)) }},
	"RegisterProcessProgram":    {true, func(x *c29Run, o c29Op) error { return x.e.g.RegisterProcessProgram(1, "body") }},
	"RaiseAlarm": {true, func(x *c29Run, o c29Op) error {
		x.e.g.RegisterAlarm(gem.Alarm{ID: 1, Text: "a"})
		return x.e.g.RaiseAlarm(1, o.On)
	}},
	"ClearAlarm":             {true, func(x *c29Run, o c29Op) error { return x.e.g.ClearAlarm(1) }},
	"TriggerCollectionEvent": {true, func(x *c29Run, o c29Op) error { return x.e.g.TriggerCollectionEvent(1) }},

	"RequestStatusVariables none":    {false, func(x *c29Run, o c29Op) error { return second(x.e.g.RequestStatusVariables()) }},
	"RequestStatusVariables":         {false, func(x *c29Run, o c29Op) error { return second(x.e.g.RequestStatusVariables(o.among()...)) }},
	"RequestStatusVariableInfo":      {false, func(x *c29Run, o c29Op) error { return second(x.e.g.RequestStatusVariableInfo(o.among()...)) }},
	"RequestEquipmentConstants none": {false, func(x *c29Run, o c29Op) error { return second(x.e.g.RequestEquipmentConstants()) }},
	"RequestEquipmentConstants":      {false, func(x *c29Run, o c29Op) error { return second(x.e.g.RequestEquipmentConstants(o.among()...)) }},
	"RequestEquipmentConstantInfo":   {false, func(x *c29Run, o c29Op) error { return second(x.e.g.RequestEquipmentConstantInfo(o.among()...)) }},
	"SendEquipmentConstantValues bad id": {false, func(x *c29Run, o c29Op) error {
		var a []gem.EquipmentConstantUpdate
		for _, id := range o.among() {
			a = append(a, gem.EquipmentConstantUpdate{ID: id, Value: iU(1, 1).node()})
		}
		return second(x.e.g.SendEquipmentConstantValues(a))
	}},
	"SendEquipmentConstantValues no value": {false, func(x *c29Run, o c29Op) error {
		a := []gem.EquipmentConstantUpdate{{ID: 1, Value: iU(1, 1).node()}, {ID: 2}, {ID: 3, Value: iL().node()}}
		return second(x.e.g.SendEquipmentConstantValues(a[o.N%2 : 2+o.Pos%2]))
	}},
	"SendEquipmentConstantValues open": {false, func(x *c29Run, o c29Op) error {
		return second(x.e.g.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: 1, Value: ast.NewUintNode(4, "var")}}))
	}},
	"DefineReports bad report": {false, func(x *c29Run, o c29Op) error {
		var a []gem.ReportDefinitionRequest
		for _, id := range o.among() {
			a = append(a, gem.ReportDefinitionRequest{ReportID: id, VIDs: []any{1}})
		}
		return second(x.e.g.DefineReports(a...))
	}},
	"DefineReports bad variable": {false, func(x *c29Run, o c29Op) error {
		return second(x.e.g.DefineReports(gem.ReportDefinitionRequest{ReportID: 1, VIDs: []any{1}}, gem.ReportDefinitionRequest{ReportID: 2, VIDs: o.among()}))
	}},
	"LinkEventReports bad event": {false, func(x *c29Run, o c29Op) error {
		var a []gem.EventReportLinkRequest
		for _, id := range o.among() {
			a = append(a, gem.EventReportLinkRequest{CEID: id, ReportIDs: []any{1}})
		}
		return second(x.e.g.LinkEventReports(a...))
	}},
	"LinkEventReports bad report": {false, func(x *c29Run, o c29Op) error {
		return second(x.e.g.LinkEventReports(gem.EventReportLinkRequest{CEID: 1, ReportIDs: o.among()}))
	}},
	"EnableEventReports":           {false, func(x *c29Run, o c29Op) error { return second(x.e.g.EnableEventReports(o.On, o.among()...)) }},
	"RequestCollectionEventReport": {false, func(x *c29Run, o c29Op) error { return second(x.e.g.RequestCollectionEventReport(o.id())) }},
	"UploadProcessProgram bad id":  {false, func(x *c29Run, o c29Op) error { return second(x.e.g.UploadProcessProgram(o.id(), "body")) }},
	"UploadProcessProgram bad body": {false, func(x *c29Run, o c29Op) error {
		return second(x.e.g.UploadProcessProgram(1, c29Texts[o.Bad%len(c29Texts)]))
	}},
	"RequestProcessProgram": {false, func(x *c29Run, o c29Op) error {
		_, _, err := x.e.g.RequestProcessProgram(o.id())
		return err
	}},
	"SetDateTime":                   {false, func(x *c29Run, o c29Op) error { return second(x.e.g.SetDateTime(c29Times[o.Bad%len(c29Times)])) }},
	"SendRemoteCommand bad command": {false, func(x *c29Run, o c29Op) error { return second(x.e.g.SendRemoteCommand(o.id(), nil)) }},
	"SendRemoteCommand bad name": {false, func(x *c29Run, o c29Op) error {
		var a []gem.RemoteCommandParameterValue
		for _, id := range o.among() {
			a = append(a, gem.RemoteCommandParameterValue{Name: id, Value: 1})
		}
		return second(x.e.g.SendRemoteCommand("GO", a))
	}},
	"SendRemoteCommand bad value": {false, func(x *c29Run, o c29Op) error {
		return second(x.e.g.SendRemoteCommand("GO", []gem.RemoteCommandParameterValue{{Name: "A", Value: 1}, {Name: "B", Value: c29Vals[o.Bad%len(c29Vals)]}}))
	}},
	"SendRemoteCommand open": {false, func(x *c29Run, o c29Op) error {
		return second(x.e.g.SendRemoteCommand("GO", []gem.RemoteCommandParameterValue{{Name: "A", Value: ast.NewUintNode(4, "var")}}))
	}},
	"SendEnableAlarm": {false, func(x *c29Run, o c29Op) error {
		a := []int{1, 2, 3}
		a[o.Pos%3] = []int{-1, math.MinInt, -65536}[o.Bad%3]
		return second(x.e.g.SendEnableAlarm(a, o.On))
	}},
}

func init() {
	for _, n := range hostCallNames {
		c29Equip[n] = c29Wrong{true, func(x *c29Run, o c29Op) error { return hostCalls[n](x.e.g) }}
	}
}

// c29Good are operations that are permitted and do have an effect.
var c29Good = []string{"set value", "raise", "store", "define", "constant", "open reply", "sync"}

type c29Run struct {
	r   *R
	c   c29Case
	e   *gemEnd
	svs map[int]*gem.StatusVariable
	log syncBuf
	n   int
}

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}

func (s *syncBuf) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

func (x *c29Run) wrong(name string) (c29Wrong, bool) {
	if w, ok := c29Both[name]; ok {
		return w, true
	}
	if x.c.Equip {
		w, ok := c29Equip[name]
		return w, ok
	}
	w, ok := c29Host[name]
	return w, ok
}

func runC29(r *R, c c29Case) {
	x := &c29Run{r: r, c: c}
	x.e = newGem(r, c.Active, c.Equip, 3, nil)
	e := x.e
	e.p.ConfigureLogging(hsms.LoggingConfig{Enabled: true, Mode: hsms.LoggingModeSML, Writer: &x.log})
	if c.Equip {
		furnish(e.g)
		sv, err := gem.NewStatusVariable(50, "free", "", gem.WithStatusValue(iU(4, 0).node()))
		mustOK(err)
		mustOK(e.g.RegisterStatusVariable(sv))
		x.svs = map[int]*gem.StatusVariable{50: sv}
	}
	e.g.RegisterStreamFunctionHandler(64, 1, func(*ast.DataMessage) (*ast.DataMessage, error) {
		return ast.NewDataMessage("open", 64, 2, 0, "H<->E", ast.NewASCIINodeVariable("v", 0, -1)), nil
	})
	if !e.up() {
		return
	}
	if c.Equip {
		for _, q := range []struct {
			f  int
			it Item
		}{{33, iL(iU(1, 0), iL(iL(iU(4, 7), iL(iU(4, 1), iU(4, 50), iA("A")))))}, {35, iL(iU(1, 0), iL(iL(iU(4, 1), iL(iU(4, 7)))))}, {37, iL(iO(true), iL(iU(4, 1)))}} {
			if a, ok := e.askItem(2, q.f, q.it); !ok {
				return
			} else if a.K != "B" || len(a.B) != 1 || a.B[0] != 0 {
				r.Failf("S2F%d was answered with %v", q.f, a)
				return
			}
		}
	}
	if !e.peer.sync(r) {
		return
	}
	e.peer.rest()
	before, ok := x.shown()
	if !ok {
		return
	}
	for i, o := range c.Ops {
		pre := fmt.Sprintf("op %d (%s): ", i, o.Op)
		if w, bad := x.wrong(o.Op); bad {
			var err error
			done := make(chan any, 1)
			go func() {
				defer func() { done <- recover() }()
				err = w.f(x, o)
			}()
			select {
			case p := <-done:
				if p != nil {
					if f, ok := p.(refusal); ok {
						panic(f)
					}
					r.Failf("%sit panicked: %v", pre, p)
					return
				}
			case <-time.After(netWait):
				r.Slowf("%sno answer in %v; it cannot be done and has to be refused", pre, netWait)
				return
			}
			what := fmt.Sprintf("identifier %s, %d %d", c29IDs[o.Bad%len(c29IDs)].name, o.N, o.Pos)
			if err == nil {
				r.Failf("%sit was not refused (%s)", pre, what)
				return
			}
			if w.role != errors.Is(err, gem.ErrOperationNotSupported) {
				r.Failf("%sthe error is %v; want the one for an operation of the other kind of device: %v", pre, err, w.role)
				return
			}
			if !e.peer.sync(r) {
				return
			}
			for _, f := range e.peer.rest() {
				if f.SType == 0 {
					r.Failf("%sit was refused (%v), but %v was sent", pre, err, f.view())
					return
				}
			}
			after, ok := x.shown()
			if !ok {
				return
			}
			if d := diffShown(before, after); d != "" {
				r.Failf("%sit was refused (%v), but it had an effect: %s", pre, err, d)
				return
			}
			r.NonTrivial()
			r.Label(o.Op)
			continue
		}
		if !x.good(pre, o) {
			return
		}
		if !e.peer.sync(r) {
			return
		}
		e.peer.rest()
		if before, ok = x.shown(); !ok {
			return
		}
	}
	if !x.serves() {
		return
	}
	e.peer.sync(r)
	e.peer.mu.Lock()
	sent := 0
	for _, f := range e.peer.all {
		if f.SType == 0 {
			sent++
		}
	}
	e.peer.mu.Unlock()
	if n := strings.Count(x.log.String(), "[OUT][DATA]"); n != sent {
		r.Failf("%d data messages were sent, the traffic log shows %d", sent, n)
	}
	e.peer.check(r)
}

// good does something that is permitted.
func (x *c29Run) good(pre string, o c29Op) bool {
	e, r := x.e, x.r
	x.n++
	if o.Op == "open reply" {
		e.peer.send(dataFrame(3, 64, 1, true, e.peer.nextSys(), iL()))
		if !e.peer.sync(r) {
			return false
		}
		for _, f := range e.peer.rest() {
			if f.SType == 0 {
				r.Failf("%sthe reply has an open variable, but %v was sent", pre, f.view())
				return false
			}
		}
		return true
	}
	if !x.c.Equip {
		return e.peer.sync(r)
	}
	switch o.Op {
	case "set value":
		x.svs[50].SetValue(iU(4, uint64(o.N*1000+x.n)).node())
	case "raise":
		if err := e.g.RaiseAlarm(o.N%3, o.On); err != nil {
			r.Failf("%sRaiseAlarm(%d): %v", pre, o.N%3, err)
			return false
		}
		if _, ok := e.peer.take(netWait, isF(5, 1)); !ok {
			r.Slowf("%sno S5F1 in %v", pre, netWait)
			return false
		}
	case "store":
		if err := e.g.RegisterProcessProgram([]any{1, "A", 9}[o.N%3], fmt.Sprint("body ", x.n)); err != nil {
			r.Failf("%sRegisterProcessProgram: %v", pre, err)
			return false
		}
	case "define":
		vids := []Item{iU(4, 1), iU(4, 50), iA("A"), iU(4, 10)}[:1+o.N%4]
		if _, ok := e.askItem(2, 33, iL(iU(1, 0), iL(iL(iU(4, 8), iL(vids...))))); !ok {
			return false
		}
	case "constant":
		if _, ok := e.askItem(2, 15, iL(iL(iU(4, 1), iI(4, int64(o.N%5))))); !ok {
			return false
		}
	}
	return true
}

// shown is what the other side and the application can see of the endpoint.
func (x *c29Run) shown() (map[string]string, bool) {
	e := x.e
	m := map[string]string{"state": fmt.Sprint(e.g.State()), "control": fmt.Sprint(e.g.ControlState()), "programs": c29Programs(e.g.ListProcessPrograms())}
	if !x.c.Equip {
		return m, true
	}
	for _, q := range []struct {
		s, f int
		it   Item
	}{{1, 3, iL()}, {1, 11, iL()}, {2, 13, iL()}, {2, 29, iL()}, {5, 5, iL()}, {5, 7, iL()}, {7, 5, iU(4, 1)}, {7, 5, iA("A")}, {7, 5, iU(4, 9)}, {6, 15, iU(4, 1)}, {1, 3, iL(iU(4, 10), iU(4, 77), iA("\x01"))}} {
		a, ok := e.askItem(q.s, q.f, q.it)
		if !ok {
			return nil, false
		}
		if q.s == 6 && a.K == "L" && len(a.L) > 0 {
			a.L = a.L[1:]
		}
		m[fmt.Sprintf("S%dF%d %v", q.s, q.f, q.it)] = fmt.Sprint(a)
	}
	return m, true
}

func c29Programs(a []gem.ProcessProgram) string {
	m := map[string]string{}
	for _, p := range a {
		m[fmt.Sprint(p.ID())] = p.Body
	}
	return fmt.Sprint(len(a), m)
}

func diffShown(a, b map[string]string) string {
	if reflect.DeepEqual(a, b) {
		return ""
	}
	for k, v := range a {
		if b[k] != v {
			return fmt.Sprintf("%s was %s and is %s", k, short(v), short(b[k]))
		}
	}
	return "different keys"
}

// serves: the endpoint still does its work.
func (x *c29Run) serves() bool {
	e, r := x.e, x.r
	if _, ok := e.askItem(1, 1, Item{}); !ok {
		return false
	}
	if x.c.Equip {
		if err := e.g.TriggerCollectionEvent(1); err != nil {
			r.Failf("at the end TriggerCollectionEvent(1): %v", err)
			return false
		}
		if _, ok := e.peer.take(netWait, isF(6, 11)); !ok {
			r.Slowf("at the end no S6F11 in %v", netWait)
			return false
		}
		return true
	}
	var text string
	var err error
	hostExchange(r, e, "RequestDateTime at the end", 2, 17, func() { text, err = e.g.RequestDateTime() }, func(Item) string { return "" }, iA("2024010203040506"))
	if !r.failed() && (err != nil || text != "2024010203040506") {
		r.Failf("at the end RequestDateTime: %q, %v", text, err)
	}
	return !r.failed()
}

func init() {
	shards("C29", 16, 16)
	keys := func(ms ...map[string]c29Wrong) (a []string) {
		for _, m := range ms {
			a = append(a, sortedKeys(m)...)
		}
		return
	}
	register("C29", "refused", "a GEM endpoint in either role with communication established performs up to 30 operations: those of the other kind of device, with identifiers, values, texts and messages that cannot be sent or do not exist, definitions that exist, mixed with permitted ones; error, frames, everything the endpoint shows and its traffic log compared after each; non-trivial: something was refused",
		opts{quick: budget{600, 25}, thorough: budget{2000, 300}},
		func(t *rapid.T) c29Case {
			c := c29Case{Active: coin(t, "active"), Equip: coin(t, "equip")}
			own := keys(c29Host, c29Both)
			if c.Equip {
				own = keys(c29Equip, c29Both)
			}
			for n := rng(t, "n", 1, 30); n > 0; n-- {
				o := c29Op{Bad: rng(t, "bad", 0, 1000), N: rng(t, "around", 0, 5), Pos: rng(t, "pos", 0, 5), On: coin(t, "on")}
				if oneIn(t, "good", 4) {
					o.Op = pick(t, "op", c29Good...)
				} else {
					o.Op = pick(t, "op", own...)
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		}, runC29)
}
