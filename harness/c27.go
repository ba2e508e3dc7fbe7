package main

import (
	"fmt"
	"io"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// C27: operations of several goroutines at once. This check is built with the
// race detector of Go (see run.sh), which ends the process when two goroutines
// access the same memory without synchronization.

type c27Op struct {
	Op   string
	A, B int
	Text string
}

type c27Case struct {
	Active  bool // the equipment connects
	Host    [][]c27Op
	Equip   [][]c27Op
	Loop    bool // the equipment's goroutines repeat their operations while the host's run
	Session uint16
}

const (
	c27Vars   = 6 // status variables 1..6; 1..3 never change
	c27Consts = 3
	c27Events = 3 // linked to reports with variables 1..3, always enabled
)

func c27Name(n int) string { return fmt.Sprintf("name %d", n) }

type c27Run struct {
	r       *R
	c       c27Case
	h, e    *gem.GemHandler
	sv      []*gem.StatusVariable
	ec      []*gem.EquipmentConstant
	mu      sync.Mutex
	events  map[string]int // reports the host was told of
	alarms  map[int]int
	trig    [c27Events + 1]atomic.Int32
	raised  [3]atomic.Int32
	times   map[string]bool
	wg      sync.WaitGroup
	ops     atomic.Int32
	failing atomic.Int32
}

func sharedProgram(n int) string { n %= 26; return strings.Repeat(string(rune('A'+n)), n) }

func uintOf(n ast.ItemNode) (uint64, bool) {
	it := fromNode(n)
	if len(it.U) != 1 {
		return 0, false
	}
	return it.U[0], true
}

var c27Time = time.Date(2031, 5, 6, 7, 8, 9, 0, time.UTC)

// newPair makes a host and an equipment that are to be connected to each other.
func newPair(r *R, active bool, session uint16) (h, e *gem.GemHandler) {
	ip, port := loopback(), freePort()
	end := func(equip bool) *gem.GemHandler {
		p := newProto(r, &Station{ip: ip, port: port, active: active == equip}, int(session))
		o := gem.Options{Protocol: p, DeviceType: gem.DeviceHost, DeviceID: session, MDLN: "m", SOFTREV: "s", EstablishCommunicationWait: 50 * time.Millisecond}
		if equip {
			o.DeviceType = gem.DeviceEquipment
		}
		g, err := gem.NewGemHandler(o)
		mustOK(err)
		return g
	}
	return end(false), end(true)
}

// pairUp enables both ends of a pair and waits until they communicate and are online.
func pairUp(r *R, h, e *gem.GemHandler, active bool) bool {
	first, second := h, e // the passive side first
	if !active {
		first, second = e, h
	}
	first.Enable()
	time.Sleep(5 * time.Millisecond)
	second.Enable()
	r.Cleanup(func() {
		// the passive side first: the active one has nothing to deselect then
		done := make(chan struct{})
		go func() {
			defer close(done)
			first.Disable()
			pollFor(time.Second, func() bool { return !second.Protocol().Connected() })
			second.Disable()
		}()
		select {
		case <-done:
		case <-time.After(3 * time.Second): // C16 judges Disable
		}
	})
	if !h.WaitForCommunicating(netWait) || !e.WaitForCommunicating(netWait) || !pollFor(netWait, func() bool { return strings.HasPrefix(string(e.ControlState()), "ONLINE") }) {
		r.Slowf("host %v and equipment %v %v after %v", h.State(), e.State(), e.ControlState(), netWait)
		return false
	}
	return true
}

func runC27(r *R, c c27Case) {
	x := &c27Run{r: r, c: c, events: map[string]int{}, alarms: map[int]int{}}
	x.h, x.e = newPair(r, c.Active, c.Session)
	x.furnish()
	x.h.Events().EventReportReceived.AddCallback(func(d map[string]any) {
		rep := d["report"].(gem.EventReport)
		x.mu.Lock()
		x.events[fmt.Sprint(rep.CEID)]++
		x.mu.Unlock()
		x.reportIs("S6F11", rep, 0)
	})
	x.h.Events().AlarmReceived.AddCallback(func(d map[string]any) {
		x.mu.Lock()
		x.alarms[d["alarm"].(gem.AlarmEvent).ID]++
		x.mu.Unlock()
	})
	if !pairUp(r, x.h, x.e, c.Active) {
		return
	}
	for k := 1; k <= c27Events; k++ {
		a, e1 := x.h.DefineReports(gem.ReportDefinitionRequest{ReportID: k, VIDs: []any{k, k + 3}})
		b, e2 := x.h.LinkEventReports(gem.EventReportLinkRequest{CEID: k, ReportIDs: []any{k}})
		d, e3 := x.h.EnableEventReports(true, k)
		if a != 0 || b != 0 || d != 0 || e1 != nil || e2 != nil || e3 != nil {
			r.Failf("report %d could not be defined, linked and enabled: %d %v, %d %v, %d %v", k, a, e1, b, e2, d, e3)
			return
		}
	}
	start := make(chan struct{})
	var hosts atomic.Int32
	hosts.Store(int32(len(c.Host)))
	for i, ops := range c.Host {
		x.wg.Add(1)
		go func() {
			defer x.wg.Done()
			defer hosts.Add(-1)
			<-start
			t := &c27Thread{c27Run: x, i: i, who: fmt.Sprintf("host thread %d", i)}
			for j, op := range ops {
				if r.failed() {
					return
				}
				t.host(j, op)
				x.ops.Add(1)
			}
			t.settle()
		}()
	}
	for i, ops := range c.Equip {
		x.wg.Add(1)
		go func() {
			defer x.wg.Done()
			<-start
			t := &c27Thread{c27Run: x, i: i, who: fmt.Sprintf("equipment thread %d", i)}
			for j := 0; j < len(ops) || c.Loop && j < 3000 && hosts.Load() > 0; j++ {
				if r.failed() {
					return
				}
				t.equip(j, ops[j%len(ops)])
				x.ops.Add(1)
			}
		}()
	}
	close(start)
	x.wg.Wait()
	if r.failed() {
		return
	}
	// every report and alarm that was due arrives
	due := func() string {
		x.mu.Lock()
		defer x.mu.Unlock()
		for k := 1; k <= c27Events; k++ {
			if n := x.events[fmt.Sprint(k)]; n != int(x.trig[k].Load()) {
				return fmt.Sprintf("event %d was triggered %d times and reported %d times", k, x.trig[k].Load(), n)
			}
		}
		for k := 1; k <= 2; k++ {
			if n := x.alarms[k]; n != int(x.raised[k].Load()) {
				return fmt.Sprintf("alarm %d was raised or cleared %d times and reported %d times", k, x.raised[k].Load(), n)
			}
		}
		return ""
	}
	if !pollFor(netWait, func() bool { return due() == "" }) {
		r.Slowf("%s", due())
		return
	}
	time.Sleep(2 * time.Millisecond)
	if why := due(); why != "" {
		r.Failf("%s", why)
		return
	}
	r.LabelN("operations", int(x.ops.Load()))
	if len(c.Host)+len(c.Equip) > 1 && x.ops.Load() > 3 {
		r.NonTrivial()
	}
}

func (x *c27Run) furnish() {
	g := x.e
	for k := 1; k <= c27Vars; k++ {
		v, err := gem.NewStatusVariable(k, c27Name(k), "u", gem.WithStatusValue(ast.NewUintNode(8, uint64(k)*1000)))
		mustOK(err)
		mustOK(g.RegisterStatusVariable(v))
		x.sv = append(x.sv, v)
	}
	for k := 1; k <= c27Consts; k++ {
		v, err := gem.NewEquipmentConstant(k, c27Name(k), ast.NewUintNode(8, uint64(k)*1000), gem.WithEquipmentConstantUnit("u"), gem.WithEquipmentConstantMin(ast.NewUintNode(8, uint64(k)*1000)), gem.WithEquipmentConstantMax(ast.NewUintNode(8, uint64(k)*1000+999)))
		mustOK(err)
		mustOK(g.RegisterEquipmentConstant(v))
		x.ec = append(x.ec, v)
	}
	for k := 1; k <= c27Events; k++ {
		v, err := gem.NewCollectionEvent(k, c27Name(k))
		mustOK(err)
		mustOK(g.RegisterCollectionEvent(v))
	}
	for k := 1; k <= 2; k++ {
		g.RegisterAlarm(gem.Alarm{ID: k, Text: c27Name(k)})
	}
	// what belongs to one thread
	for i := 0; i < 8; i++ {
		v, err := gem.NewCollectionEvent(50+i, c27Name(50+i))
		mustOK(err)
		mustOK(g.RegisterCollectionEvent(v))
		g.RegisterAlarm(gem.Alarm{ID: 50 + i, Text: c27Name(50 + i)})
	}
	mustOK(g.RegisterProcessProgram("S", sharedProgram(5)))
	x.command()
	g.SetTimeProvider(func() time.Time { return c27Time })
	g.SetClockSyncHandler(func(t time.Time) (byte, error) { return byte(t.Second()), nil })
}

// command sets the handler of remote commands: it acknowledges parameter k with k.
func (x *c27Run) command() {
	x.e.SetRemoteCommandHandler(func(q gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
		var res gem.RemoteCommandResult
		for i, p := range q.Parameters {
			res.ParameterAcks = append(res.ParameterAcks, gem.RemoteCommandParameterAck{Name: p.Identifier, Ack: gem.CPACKCode(1 + i%3)})
		}
		return res, nil
	})
}

// valueOK: the value of status variable k.
func (x *c27Run) valueOK(what string, k int, n ast.ItemNode) {
	if n == nil {
		x.r.Failf("%s: no value of variable %d", what, k)
		return
	}
	v, ok := uintOf(n)
	if !ok || v/1000 != uint64(k) || k <= 3 && v != uint64(k)*1000 {
		x.r.Failf("%s: variable %d is %v, which it never was", what, k, fromNode(n))
	}
}

// reportIs: the report of one of the shared events.
func (x *c27Run) reportIs(what string, rep gem.EventReport, want int) {
	id, ok := rep.CEID.(uint64)
	if ok && id >= 50 {
		return
	}
	k := int(id)
	if !ok || k < 1 || k > c27Events || want != 0 && k != want || len(rep.Reports) != 1 || rep.Reports[0].RPTID != uint64(k) || len(rep.Reports[0].Values) != 2 {
		x.r.Failf("%s: %+v is no report of an event that was defined (asked for: %d)", what, rep, want)
		return
	}
	x.valueOK(what, k, rep.Reports[0].Values[0])
	x.valueOK(what, k+3, rep.Reports[0].Values[1])
}

type c27Thread struct {
	*c27Run
	i       int
	who     string
	linked  []int
	on      bool
	program string
	alarm   int // 1 enabled, 2 disabled
	last    map[int]uint64
}

func (t *c27Thread) fail(j int, op c27Op, f string, a ...any) {
	t.r.Failf("%s, operation %d (%+v): %s", t.who, j, op, fmt.Sprintf(f, a...))
}

func (t *c27Thread) host(j int, op c27Op) {
	h := t.h
	what := fmt.Sprintf("%s, operation %d (%+v)", t.who, j, op)
	ok := func(code int, err error) bool {
		if err != nil || code != 0 {
			t.fail(j, op, "acknowledge code %d, error %v", code, err)
			return false
		}
		return true
	}
	k, l := 1+op.A%c27Vars, 1+op.B%c27Vars
	switch op.Op {
	case "sv":
		a, err := h.RequestStatusVariables(k, l)
		if err != nil || len(a) != 2 {
			t.fail(j, op, "%d values, error %v", len(a), err)
			return
		}
		t.valueOK(what, k, a[0].Value)
		t.valueOK(what, l, a[1].Value)
	case "allsv":
		a, err := h.Protocol().SendAndWait(message(1, 3, true, iL()))
		if err != nil {
			t.fail(j, op, "S1F3 for all: error %v", err)
			return
		}
		b, err := h.RequestStatusVariableInfo()
		if n, e := a.Get(); e != nil || err != nil || len(fromNode(n).L) < c27Vars || len(b) < c27Vars {
			t.fail(j, op, "S1F3 and S1F11 for all: %v and %v, error %v", a, b, err)
		}
	case "svinfo":
		a, err := h.RequestStatusVariableInfo(k, l)
		if err != nil || len(a) != 2 || a[0].Name != c27Name(k) || a[1].Name != c27Name(l) || a[0].Unit != "u" {
			t.fail(j, op, "%+v, error %v", a, err)
		}
	case "ec":
		k = 1 + op.A%c27Consts
		a, err := h.RequestEquipmentConstants(k)
		if err != nil || len(a) != 1 {
			t.fail(j, op, "%d values, error %v", len(a), err)
			return
		}
		if v, ok := uintOf(a[0].Value); !ok || v/1000 != uint64(k) {
			t.fail(j, op, "equipment constant %d is %v, which it never was", k, fromNode(a[0].Value))
		}
	case "ecinfo":
		k = 1 + op.A%c27Consts
		a, err := h.RequestEquipmentConstantInfo(k)
		if err != nil || len(a) != 1 || a[0].Name != c27Name(k) || a[0].Unit != "u" {
			t.fail(j, op, "%+v, error %v", a, err)
		}
	case "ecset":
		k = 1 + op.A%c27Consts
		v := uint64(k*1000 + op.B%1000)
		code, err := h.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: k, Value: ast.NewUintNode(8, v)}})
		ok(code, err)
	case "report":
		k = 1 + op.A%c27Events
		rep, err := h.RequestCollectionEventReport(k)
		if err != nil {
			t.fail(j, op, "error %v", err)
			return
		}
		t.reportIs(what, rep, k)
	case "define":
		ce := 50 + t.i
		if len(t.linked) == 0 {
			var defs []gem.ReportDefinitionRequest
			var ids []any
			for n := 0; n < 1+op.A%3; n++ {
				id := 50 + t.i + 10*n
				t.linked = append(t.linked, id)
				ids = append(ids, id)
				defs = append(defs, gem.ReportDefinitionRequest{ReportID: id, VIDs: []any{1, 2}})
			}
			if code, err := h.DefineReports(defs...); !ok(code, err) {
				return
			}
			if code, err := h.LinkEventReports(gem.EventReportLinkRequest{CEID: ce, ReportIDs: ids}); !ok(code, err) {
				return
			}
			t.on = op.B%4 != 0
			if code, err := h.EnableEventReports(t.on, ce); !ok(code, err) {
				return
			}
		} else {
			n := op.B % len(t.linked)
			if code, err := h.DefineReports(gem.ReportDefinitionRequest{ReportID: t.linked[n]}); !ok(code, err) {
				return
			}
			t.linked = append(append([]int{}, t.linked[:n]...), t.linked[n+1:]...)
		}
		t.private(what)
	case "program":
		t.program = fmt.Sprintf("body %d %s", op.B, op.Text)
		if code, err := h.UploadProcessProgram(fmt.Sprintf("P%d", t.i), t.program); !ok(code, err) {
			return
		}
		t.fetch(what)
	case "shared":
		if op.A%2 == 0 {
			code, err := h.UploadProcessProgram("S", sharedProgram(op.B))
			ok(code, err)
			return
		}
		body, ack, err := h.RequestProcessProgram("S")
		if err != nil || ack != 0 || body != sharedProgram(len(body)) {
			t.fail(j, op, "the process program S is %q (%d, %v), which it never was", body, ack, err)
		}
	case "alarm":
		on := op.B%2 == 0
		t.alarm = 2 - b2i(on)
		code, err := h.SendEnableAlarm([]int{50 + t.i}, on)
		if !ok(int(code), err) {
			return
		}
		t.alarmIs(what)
	case "alarms":
		a, err := h.RequestAlarmList()
		seen := map[int]string{}
		for _, x := range a {
			seen[x.ID] = x.Text
		}
		if err != nil || seen[1] != c27Name(1) || seen[2] != c27Name(2) {
			t.fail(j, op, "%v, error %v", a, err)
		}
	case "command":
		var ps []gem.RemoteCommandParameterValue
		for n := 0; n < op.B%5; n++ {
			ps = append(ps, gem.RemoteCommandParameterValue{Name: fmt.Sprintf("%d/%d/%d", t.i, j, n), Value: n})
		}
		res, err := h.SendRemoteCommand("GO", ps)
		good := err == nil && res.HCACK == 0 && len(res.ParameterAcks) == len(ps)
		for n := 0; good && n < len(ps); n++ {
			good = res.ParameterAcks[n].Name == ps[n].Name && int(res.ParameterAcks[n].Ack) == 1+n%3
		}
		if !good {
			t.fail(j, op, "%+v, error %v", res, err)
		}
	case "time":
		s, err := h.RequestDateTime()
		if err != nil || s != "2031050607080900" {
			t.fail(j, op, "%q, error %v", s, err)
		}
	case "settime":
		n := op.B % 60
		code, err := h.SetDateTime(fmt.Sprintf("20310506070%d%02d00", 8, n))
		if err != nil || int(code) != n {
			t.fail(j, op, "code %d, error %v, want %d", code, err, n)
		}
	case "state":
		if s := h.State(); s != gem.CommunicationStateCommunicating {
			t.fail(j, op, "the state is %v", s)
		}
		h.WaitForCommunicating(time.Millisecond)
	case "callback":
		cb := func(map[string]any) {}
		h.Events().EventReportReceived.AddCallback(cb)
		h.Events().AlarmReceived.AddCallback(cb)
		h.Events().EventReportReceived.RemoveCallback(cb)
		h.Events().AlarmReceived.RemoveCallback(cb)
	case "log":
		t.log(h, op)
	}
}

func (t *c27Thread) log(g *gem.GemHandler, op c27Op) {
	g.Protocol().ConfigureLogging(hsms.LoggingConfig{Enabled: op.A%2 == 0, Mode: []hsms.LoggingMode{hsms.LoggingModeSML, hsms.LoggingModeBinary, hsms.LoggingModeBoth}[op.B%3], IncludeControlMessages: true, Writer: io.Discard})
}

// private: the report of the thread's own event is the one defined last.
func (t *c27Thread) private(what string) {
	rep, err := t.h.RequestCollectionEventReport(50 + t.i)
	if err != nil {
		t.r.Failf("%s: S6F15 ended with the error %v", what, err)
		return
	}
	want := t.linked
	if !t.on {
		want = nil
	}
	good := rep.CEID == uint64(50+t.i) && len(rep.Reports) == len(want)
	for n := 0; good && n < len(want); n++ {
		good = rep.Reports[n].RPTID == uint64(want[n]) && len(rep.Reports[n].Values) == 2
	}
	if !good {
		t.r.Failf("%s: the answer to S6F15 is %+v, reports %v are linked, enabled: %v", what, rep, t.linked, t.on)
		return
	}
	for _, x := range rep.Reports {
		t.valueOK(what, 1, x.Values[0])
		t.valueOK(what, 2, x.Values[1])
	}
}

func (t *c27Thread) fetch(what string) {
	body, ack, err := t.h.RequestProcessProgram(fmt.Sprintf("P%d", t.i))
	if body != t.program || ack != 0 || err != nil {
		t.r.Failf("%s: the process program is %q (%d, %v), want %q", what, body, ack, err, t.program)
	}
}

func (t *c27Thread) alarmIs(what string) {
	a, err := t.h.RequestEnabledAlarmList()
	n := 0
	for _, x := range a {
		if x.ID == 50+t.i {
			n++
		}
	}
	if err != nil || n != 2-t.alarm {
		t.r.Failf("%s: alarm %d is listed as enabled %d times (error %v), want %d", what, 50+t.i, n, err, 2-t.alarm)
	}
}

// settle looks once more at what only this thread changes.
func (t *c27Thread) settle() {
	if t.r.failed() {
		return
	}
	what := t.who + ", at its end"
	t.private(what)
	if t.program != "" {
		t.fetch(what)
	}
	if t.alarm != 0 {
		t.alarmIs(what)
	}
}

func (t *c27Thread) equip(j int, op c27Op) {
	g := t.e
	ok := func(err error) {
		if err != nil {
			t.fail(j, op, "error %v", err)
		}
	}
	switch op.Op {
	case "set":
		k := 4 + op.A%3
		v := ast.NewUintNode(8, uint64(k*1000+op.B%1000))
		if op.B%4 == 0 {
			t.sv[k-1].SetValueProvider(func() (ast.ItemNode, error) { return v, nil })
		} else {
			t.sv[k-1].SetValue(v)
			if op.B%4 == 1 {
				t.sv[k-1].SetValueProvider(nil)
			}
		}
		if n, err := t.sv[k-1].Value(); err != nil {
			ok(err)
		} else {
			t.valueOK(t.who, k, n)
		}
	case "constant":
		k := 1 + op.A%c27Consts
		ok(t.ec[k-1].ApplyValue(ast.NewUintNode(8, uint64(k*1000+op.B%1000))))
		if n, err := t.ec[k-1].Value(); err != nil {
			ok(err)
		} else if v, good := uintOf(n); !good || v/1000 != uint64(k) {
			t.fail(j, op, "equipment constant %d is %v", k, fromNode(n))
		}
	case "trigger":
		k := 1 + op.A%c27Events
		t.trig[k].Add(1)
		ok(g.TriggerCollectionEvent(k))
	case "both":
		t.trig[1].Add(1)
		t.trig[2].Add(1)
		ok(g.TriggerCollectionEvent(1, 2))
	case "other":
		ok(g.TriggerCollectionEvent(50 + op.A%4))
	case "alarm":
		k := 1 + op.A%2
		t.raised[k].Add(1)
		if op.B%2 == 0 {
			ok(g.RaiseAlarm(k, true))
		} else {
			ok(g.ClearAlarm(k))
		}
	case "able":
		// alarms nobody else looks at
		id := 900 + t.i
		g.RegisterAlarm(gem.Alarm{ID: id, Text: "own"})
		if op.B%2 == 0 {
			ok(g.EnableAlarm(id))
		} else {
			ok(g.DisableAlarm(id))
		}
	case "register":
		id := 10000 + 10000*t.i + j
		v, err := gem.NewStatusVariable(id, c27Name(id), "", gem.WithStatusValue(ast.NewUintNode(8, uint64(id)*1000)))
		ok(err)
		ok(g.RegisterStatusVariable(v))
		d, err := gem.NewDataVariable(id+500000, c27Name(id), gem.WithDataValue(ast.NewUintNode(1, 1)))
		ok(err)
		ok(g.RegisterDataVariable(d))
		ce, err := gem.NewCollectionEvent(id, c27Name(id))
		ok(err)
		ok(g.RegisterCollectionEvent(ce))
		ec, err := gem.NewEquipmentConstant(id, c27Name(id), ast.NewUintNode(8, uint64(id)*1000))
		ok(err)
		ok(g.RegisterEquipmentConstant(ec))
		g.RegisterAlarm(gem.Alarm{ID: id, Text: c27Name(id)})
		ok(g.RegisterProcessProgram(fmt.Sprintf("R%d", id), "body"))
		// it is served from now on
		a, err := t.h.RequestStatusVariables(id)
		if err != nil || len(a) != 1 {
			t.fail(j, op, "%v, error %v", a, err)
			break
		}
		if n, good := uintOf(a[0].Value); !good || n != uint64(id)*1000 {
			t.fail(j, op, "variable %d is %v", id, fromNode(a[0].Value))
		}
	case "shared":
		if op.A%2 == 0 {
			ok(g.RegisterProcessProgram("S", sharedProgram(op.B)))
			return
		}
		for _, p := range g.ListProcessPrograms() {
			if p.ID() == "S" && p.Body != sharedProgram(len(p.Body)) {
				t.fail(j, op, "the process program S is %q, which it never was", p.Body)
			}
		}
	case "programs":
		switch op.B % 4 {
		case 0:
			g.SetProcessProgramUploadHandler(nil)
		case 1:
			g.SetProcessProgramUploadHandler(func(any, string) int { return 0 })
		case 2:
			g.SetProcessProgramRequestHandler(nil)
		case 3:
			g.SetProcessProgramRequestHandler(func(id any) (string, int) {
				for _, p := range g.ListProcessPrograms() {
					if p.ID() == id {
						return p.Body, 0
					}
				}
				return "", 1
			})
		}
	case "list":
		for _, p := range g.ListProcessPrograms() {
			if p.Body == "" && p.ID() != "S" {
				t.fail(j, op, "process program %v has no body", p.ID())
			}
		}
	case "mode":
		var err error
		if op.B%2 == 0 {
			err = g.SwitchControlOnlineLocal()
		} else {
			err = g.SwitchControlOnlineRemote()
		}
		ok(err)
		if s := g.ControlState(); s != stLoc && s != stRem {
			t.fail(j, op, "the control state is %v", s)
		}
		g.ControlStateMachine().OnlineMode()
	case "handlers":
		switch op.B % 5 {
		case 0:
			t.command()
		case 1:
			g.SetTimeProvider(func() time.Time { return c27Time })
		case 2:
			g.SetClockSyncHandler(func(t time.Time) (byte, error) { return byte(t.Second()), nil })
		case 3:
			g.RegisterStreamFunctionHandler(10, 1+2*(op.A%5), func(m *ast.DataMessage) (*ast.DataMessage, error) { return nil, nil })
		case 4:
			g.RegisterDefaultStreamHandler(nil)
		}
	case "callback":
		cb := func(map[string]any) {}
		g.Events().ControlStateChanged.AddCallback(cb)
		g.Events().RemoteCommandReceived.AddCallback(cb)
		g.Events().ControlStateChanged.RemoveCallback(cb)
		g.Events().RemoteCommandReceived.RemoveCallback(cb)
	case "time":
		if s := g.GetEquipmentTime(); s != "2031050607080900" {
			t.fail(j, op, "the time is %q", s)
		}
	case "state":
		if s := g.State(); s != gem.CommunicationStateCommunicating {
			t.fail(j, op, "the state is %v", s)
		}
		g.Protocol().Connected()
		g.Protocol().CurrentState()
	case "log":
		t.log(g, op)
	}
}

// ---------------------------------------------------------------------------
// One message used by several goroutines
// ---------------------------------------------------------------------------

type c27Shared struct {
	Tmpl    Tmpl
	Fill    map[string]FV
	Threads int
	Session int
}

func runC27Shared(r *R, c c27Shared) {
	n := c.Tmpl.build()
	vars := n.Variables()
	fill := map[string]any{}
	for name, f := range c.Fill {
		fill[name] = c.Tmpl.goFill(name, f)
	}
	m := ast.NewDataMessage("name", 1, 1, 1, "H->E", n)
	use := func(k int) string {
		x := m
		var b strings.Builder
		fmt.Fprint(&b, n.Variables(), n, m.String(), m.Name(), m.StreamCode(), m.FunctionCode(), m.WaitBit())
		if len(vars) == 0 {
			x = m.SetSessionIDAndSystemBytes(c.Session, []byte{1, 2, 3, 4})
			fmt.Fprintf(&b, "%x %x", x.ToBytes(), n.ToBytes())
			if it, err := x.Get(); err == nil {
				fmt.Fprint(&b, it.Type(), it.Size())
			}
		} else {
			y := m.FillVariables(fill)
			fmt.Fprint(&b, y.String())
		}
		return b.String()
	}
	want := use(0)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < c.Threads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < 3; k++ {
				if got := use(k); got != want {
					r.Failf("used by %d goroutines, the message gives %q; alone: %q", c.Threads, got, want)
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	r.NonTrivial()
}

// ---------------------------------------------------------------------------
// Connections that come and go under concurrent use
// ---------------------------------------------------------------------------

type c27Life struct {
	Equip, Active bool
	Threads       [][]c27Op
	Life          []c27Op // drop, cycle, reselect, wait
}

func runC27Life(r *R, c c27Life) {
	e := newGem(r, c.Active, c.Equip, 5, func(o *gem.Options) { o.EstablishCommunicationWait = 20 * time.Millisecond })
	e.p.Timeouts().SetT3ReplyTimeout(1)
	e.p.Timeouts().SetT6ControlTransTimeout(1)
	if c.Equip {
		furnish(e.g)
	}
	h0 := e.st.hook
	e.st.hook = func(p *Peer, f rxFrame) bool {
		if h0(p, f) {
			return true
		}
		if f.SType == 0 && f.W() && f.S() != 9 {
			p.send(dataFrame(5, f.S(), f.F()+1, false, f.Sys, iL()))
			return true
		}
		return false
	}
	if !e.up() {
		return
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var sent atomic.Int32
	g, p := e.g, e.p
	for i, ops := range c.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; ; j++ {
				select {
				case <-stop:
					return
				default:
				}
				op := ops[j%len(ops)]
				switch op.Op {
				case "call":
					n := hostCallNames[op.A%len(hostCallNames)]
					if c.Equip {
						n = []string{"RaiseAlarm", "TriggerCollectionEvent"}[op.A%2]
					}
					if err := hostCalls[n](g); err == nil {
						sent.Add(1)
					}
				case "send":
					if err := p.SendDataMessage(message(6, 3, false, iU(4, uint64(i)))); err == nil {
						sent.Add(1)
					}
				case "wait":
					g.WaitForCommunicating(time.Millisecond)
				case "state":
					g.State()
					g.ControlState()
					p.Connected()
					p.CurrentState()
				case "handler":
					p.RegisterHandler(20+op.A%3, 1, func(m *ast.DataMessage) (*ast.DataMessage, error) { return nil, nil })
					p.RegisterHandler(20+op.B%3, 1, nil)
				case "log":
					p.ConfigureLogging(hsms.LoggingConfig{Enabled: op.A%2 == 0, Mode: hsms.LoggingModeBoth, IncludeControlMessages: true, Writer: io.Discard})
				case "mode":
					g.SwitchControlOnline()
					g.SwitchControlOnlineLocal()
					g.SwitchControlOnlineRemote()
					if op.A%3 == 0 {
						g.SwitchControlOffline()
					}
				case "pause":
					time.Sleep(time.Duration(op.A) * 100 * time.Microsecond)
				}
				time.Sleep(50 * time.Microsecond)
			}
		}()
	}
	live := true
	for i, op := range c.Life {
		if r.failed() {
			break
		}
		time.Sleep(time.Duration(op.A) * time.Millisecond)
		switch op.Op {
		case "drop":
			e.peer.close()
			live = false
		case "cycle":
			g.Disable()
			e.peer.close()
			if op.B%2 == 0 {
				time.Sleep(5 * time.Millisecond)
			}
			g.Enable()
			live = false
		case "up":
			if !live {
				q := e.st.upAnew(r, 5)
				if q == nil {
					break
				}
				e.peer, live = q, true
			}
			for k := 0; k < 1+op.B%8; k++ {
				s, f, it := 1, 3, iL()
				switch k % 4 {
				case 1:
					s, f, it = 2, 33, iL(iU(1, 1), iL(iL(iU(4, uint64(k)), iL(iU(4, 1)))))
				case 2:
					s, f, it = 1, 13, e.s1f13()
				case 3:
					s, f, it = 5, 5, iL()
				}
				e.peer.send(dataFrame(5, s, f, true, e.peer.nextSys(), it))
			}
		}
		r.Label(op.Op)
		_ = i
	}
	close(stop)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * netWait):
		r.Slowf("some of %d goroutines had not returned from their calls %v after the last change", len(c.Threads), 3*netWait)
		return
	}
	if r.failed() {
		return
	}
	// the endpoint is usable in the end
	g.Disable()
	e.peer.close()
	g.Enable()
	q := e.st.upAnew(r, 5)
	if q == nil {
		return
	}
	e.peer = q
	if a, ok := e.ask(1, 13, e.s1f13()); ok && a.F() != 14 {
		r.Failf("at the end S1F13 was answered with %v", a.view())
	}
	if sent.Load() > 0 {
		r.NonTrivial()
	}
}

// borrowed makes a part of another check a part of C27.
func borrowed(prop, name, as string, quick, thorough budget) {
	q := findPart(prop, name)
	if q == nil {
		panic("harness: no part " + prop + "/" + name)
	}
	p := *q
	p.prop, p.name, p.o.quick, p.o.thorough = "C27", as, quick, thorough
	if p.o.hang > 0 {
		p.o.hang *= 2
	}
	parts["C27"] = append(parts["C27"], &p)
}

var c27Focus = [][2][]string{
	{{"define", "define", "report"}, {"other", "trigger", "set"}},
	{{"define"}, {"other"}},
	{{"ecset", "ec", "ecinfo"}, {"constant", "register"}},
	{{"shared", "program"}, {"shared", "list", "programs"}},
	{{"alarm", "alarms"}, {"alarm", "able", "register"}},
	{{"sv", "allsv", "svinfo"}, {"set", "register"}},
	{{"command", "time", "settime"}, {"handlers", "time"}},
	{{"sv", "state", "log", "callback"}, {"log", "callback", "mode", "state"}},
}

// genC27Ops makes the operations of 1-4 goroutines, of a few kinds in most cases.
func genC27Ops(t *rapid.T, n string, ops ...string) (a [][]c27Op) {
	if !oneIn(t, n+" of all kinds", 4) {
		all := ops
		ops = nil
		for i, k := 0, rng(t, n+" kinds", 1, 4); i < k; i++ {
			ops = append(ops, pick(t, "kind", all...))
		}
	}
	for i, k := 0, rng(t, n, 1, 4); i < k; i++ {
		var l []c27Op
		for j, m := 0, rng(t, "ops", 1, 12); j < m; j++ {
			l = append(l, c27Op{Op: pick(t, "op", ops...), A: rng(t, "a", 0, 7), B: rng(t, "b", 0, 999)})
		}
		a = append(a, l)
	}
	return
}

func init() {
	shards("C27", 16, 16)
	register("C27", "pair", "a GEM host and a GEM equipment of the library connected to each other, 1-4 goroutines on each side with up to 12 operations each: all requests of the host's interface, and values, constants, events, alarms, registrations, handlers, callbacks, modes and logging of the equipment's; every result is one that the definitions allow, every event and alarm is reported exactly as often as it occurred, and what only one thread changes is as that thread left it; non-trivial: at least two goroutines",
		opts{quick: budget{400, 20}, thorough: budget{20000, 300}, hang: 90 * time.Second},
		func(t *rapid.T) c27Case {
			c := c27Case{Active: coin(t, "active"), Session: uint16(pick(t, "session", 0, 1, 77, 32767)), Loop: coin(t, "loop")}
			host := []string{"sv", "sv", "allsv", "svinfo", "ec", "ecinfo", "ecset", "report", "report", "define", "define", "program", "shared", "alarm", "alarms", "command", "time", "settime", "state", "callback", "log"}
			equip := []string{"set", "set", "constant", "trigger", "trigger", "both", "other", "alarm", "able", "register", "list", "shared", "programs", "mode", "handlers", "handlers", "callback", "time", "state", "log"}
			if oneIn(t, "same", 2) {
				// operations on the same things
				f := pick(t, "focus", c27Focus...)
				host, equip = f[0], f[1]
			}
			c.Host, c.Equip = genC27Ops(t, "host", host...), genC27Ops(t, "equip", equip...)
			return c
		}, runC27)
	register("C27", "lives", "an endpoint used by 1-4 goroutines (requests, events, states, handlers, logging, control state) while its connection is lost, made again, used by the peer, or the endpoint disabled and enabled, up to 8 times; no data race, every goroutine returns, and the endpoint is usable in the end; non-trivial: something was sent",
		opts{quick: budget{40, 18}, thorough: budget{2000, 300}, hang: 150 * time.Second},
		func(t *rapid.T) c27Life {
			c := c27Life{Equip: coin(t, "equip"), Active: coin(t, "active"), Threads: genC27Ops(t, "threads", "call", "call", "send", "send", "wait", "state", "handler", "log", "mode", "pause")}
			for i, n := 0, rng(t, "life", 1, 8); i < n; i++ {
				c.Life = append(c.Life, c27Op{Op: pick(t, "life", "drop", "cycle", "up", "up", "up"), A: pick(t, "wait", 0, 1, 5, 20), B: rng(t, "b", 0, 9)})
			}
			return c
		}, runC27Life)
	register("C27", "shared", "one message or item, with or without variables, used by 2-5 goroutines at once: every method gives what it gives to one; non-trivial: every case",
		opts{quick: budget{600, 8}, thorough: budget{20000, 80}},
		func(t *rapid.T) c27Shared {
			c := c27Shared{Tmpl: genTmpl(t, rng(t, "depth", 0, 3), pick(t, "vars", 0, 0, 3), coin(t, "ellipses")), Threads: rng(t, "threads", 2, 5), Session: rng(t, "session", 0, 65534), Fill: map[string]FV{}}
			g := &tmplGen{t: t}
			for _, v := range c.Tmpl.vars() {
				if isEll(v) || coin(t, "open") {
					continue
				}
				k, owner := c.Tmpl.kindOfVar(v)
				c.Fill[v] = g.fillValue(k, owner, false)
			}
			return c
		}, runC27Shared)
}

// lastly: after the parts of the other checks have been registered.
func borrowForC27() {
	borrowed("C08", "concurrent", "sessions", budget{400, 8}, budget{20000, 120})
	borrowed("C08", "server", "server", budget{20, 8}, budget{600, 60})
	borrowed("C09", "handoff", "queue", budget{300, 5}, budget{20000, 60})
	borrowed("C26", "concurrent", "events", budget{1500, 5}, budget{60000, 60})
	borrowed("C18", "concurrent", "control", budget{300, 5}, budget{10000, 60})
	borrowed("C10", "rounds", "requests", budget{100, 10}, budget{5000, 120})
	borrowed("C28", "inside", "inside", budget{15, 8}, budget{1000, 120})
	borrowed("C07", "session", "transport", budget{30, 8}, budget{1000, 60})
}
