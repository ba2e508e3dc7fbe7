package main

import (
	"errors"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// C28: the code a user gives to the library (value providers, updaters,
// validators, handlers, callbacks, clocks, loggers) uses the library itself.

type c28In struct {
	Site string // where the library calls the user's code
	Op   string // what that code does then
	A    int
}

type c28Case struct {
	Active bool
	In     []c28In
	Host   []c27Op // what makes the library call the code
	Equip  []c27Op
	Writer bool // a goroutine registers definitions all the while
}

const (
	c28SV  = 7
	c28DV  = 8
	c28EC  = 9
	c28CE  = 3
	c28AL  = 4
	c28Val = 4242
)

// reading a state is all that a logger does
var c28Read = map[string]bool{"state": true, "time": true, "programs": true, "value": true}

type c28Run struct {
	r      *R
	c      c28Case
	h, e   *gem.GemHandler
	sv     *gem.StatusVariable
	dv     *gem.DataVariable
	ec     *gem.EquipmentConstant
	plain  *gem.StatusVariable
	depth  atomic.Int32
	next   atomic.Int32
	called sync.Map
	mu     sync.Mutex
	vars   []int // registered inside
	alarms []int
	inside atomic.Int32
	over   atomic.Bool
}

// at is what the user's code does when the library calls it at a site.
func (x *c28Run) at(site string) {
	x.called.Store(site, true)
	if x.over.Load() || x.depth.Add(1) > 1 {
		x.depth.Add(-1)
		return // it does not call itself for ever
	}
	defer x.depth.Add(-1)
	host := site == "event" || site == "alarm" || site == "s9" || site == "up" || site == "hostlog"
	for _, in := range x.c.In {
		if in.Site != site {
			continue
		}
		x.inside.Add(1)
		if host {
			x.hostDo(in)
		} else {
			x.do(in)
		}
	}
}

func (x *c28Run) fail(in c28In, f string, a ...any) {
	x.r.Failf("in %s, %s: %s", in.Site, in.Op, fmt.Sprintf(f, a...))
}

func (x *c28Run) hostDo(in c28In) {
	g := x.h
	switch in.Op {
	case "state", "time", "programs", "value":
		g.State()
		g.ControlState()
		g.Protocol().Connected()
		g.WaitForCommunicating(time.Millisecond)
	case "handler":
		g.RegisterStreamFunctionHandler(10, 1+2*(in.A%4), func(*ast.DataMessage) (*ast.DataMessage, error) { return nil, nil })
	case "callback":
		cb := func(map[string]any) {}
		for _, e := range []interface {
			AddCallback(func(map[string]any))
			RemoveCallback(func(map[string]any))
		}{g.Events().EventReportReceived, g.Events().AlarmReceived, g.Events().HandlerCommunicating, g.Events().S9ErrorReceived} {
			e.AddCallback(cb)
			e.RemoveCallback(cb)
		}
	case "log":
		g.Protocol().ConfigureLogging(hsms.LoggingConfig{Enabled: in.A%2 == 0, Mode: hsms.LoggingModeBoth, IncludeControlMessages: true, Writer: io.Discard})
	default:
		g.Protocol().SendDataMessage(message(10, 1, false, iL()))
	}
}

func (x *c28Run) do(in c28In) {
	g := x.e
	ok := func(err error) {
		if err != nil {
			x.fail(in, "%v", err)
		}
	}
	id := int(x.next.Add(1)) + 1000
	value := func() ast.ItemNode { return ast.NewUintNode(8, uint64(id)) }
	switch in.Op {
	case "state":
		g.State()
		g.ControlState()
		g.ControlStateMachine().OnlineMode()
		g.Protocol().Connected()
		g.WaitForCommunicating(time.Millisecond)
	case "value":
		if v, err := x.plain.Value(); err != nil || fmt.Sprint(fromNode(v).U) != fmt.Sprint([]uint64{c28Val}) {
			x.fail(in, "the plain variable is %v, %v", v, err)
		}
		x.ec.Value()
		x.dv.Value()
	case "setvalue":
		x.plain.SetValue(ast.NewUintNode(8, uint64(c28Val)))
		x.plain.SetValueProvider(nil)
		x.dv.SetValue(ast.NewUintNode(8, uint64(1)))
		x.sv.SetValue(ast.NewUintNode(8, uint64(1)))
		x.sv.SetValueProvider(x.provide("sv", c28SV))
	case "variable":
		v, err := gem.NewStatusVariable(id, c27Name(id), "", gem.WithStatusValue(value()))
		ok(err)
		ok(g.RegisterStatusVariable(v))
		x.mu.Lock()
		x.vars = append(x.vars, id)
		x.mu.Unlock()
	case "data":
		v, err := gem.NewDataVariable(id, c27Name(id), gem.WithDataValue(value()))
		ok(err)
		ok(g.RegisterDataVariable(v))
	case "constant":
		v, err := gem.NewEquipmentConstant(id, c27Name(id), value())
		ok(err)
		ok(g.RegisterEquipmentConstant(v))
	case "event":
		v, err := gem.NewCollectionEvent(id, c27Name(id))
		ok(err)
		ok(g.RegisterCollectionEvent(v))
	case "alarm":
		g.RegisterAlarm(gem.Alarm{ID: id, Text: c27Name(id)})
		x.mu.Lock()
		x.alarms = append(x.alarms, id)
		x.mu.Unlock()
	case "program":
		ok(g.RegisterProcessProgram(fmt.Sprintf("X%d", id), "body"))
	case "programs":
		g.ListProcessPrograms()
	case "trigger":
		g.TriggerCollectionEvent(c28CE)
	case "raise":
		if in.A%2 == 0 {
			g.RaiseAlarm(c28AL, true)
		} else {
			g.ClearAlarm(c28AL)
		}
	case "able":
		ok(g.DisableAlarm(c28AL))
		ok(g.EnableAlarm(c28AL))
	case "mode":
		// refused while the equipment is not online
		if in.A%2 == 0 {
			g.SwitchControlOnlineLocal()
		} else {
			g.SwitchControlOnlineRemote()
		}
	case "online":
		ok(g.SwitchControlOnline())
	case "time":
		g.GetEquipmentTime()
	case "providers":
		x.setProviders()
	case "callback":
		cb := func(map[string]any) {}
		for _, e := range []interface {
			AddCallback(func(map[string]any))
			RemoveCallback(func(map[string]any))
		}{g.Events().ControlStateChanged, g.Events().RemoteCommandReceived, g.Events().HandlerCommunicating} {
			e.AddCallback(cb)
			e.RemoveCallback(cb)
		}
	case "handler":
		g.RegisterStreamFunctionHandler(10, 1, x.message)
		g.RegisterDefaultStreamHandler(nil)
	case "log":
		g.Protocol().ConfigureLogging(hsms.LoggingConfig{Enabled: in.A%2 == 0, Mode: hsms.LoggingModeBoth, IncludeControlMessages: true, Writer: io.Discard})
	default:
		g.Protocol().SendDataMessage(message(10, 3, false, iL()))
	}
}

func (x *c28Run) provide(site string, v int) func() (ast.ItemNode, error) {
	return func() (ast.ItemNode, error) {
		x.at(site)
		return ast.NewUintNode(8, uint64(v)), nil
	}
}

func (x *c28Run) message(m *ast.DataMessage) (*ast.DataMessage, error) {
	x.at("message")
	return message(m.StreamCode(), m.FunctionCode()+1, false, iU(1, 7)), nil
}

// setProviders (re)places the handlers of the equipment.
func (x *c28Run) setProviders() {
	g := x.e
	g.SetTimeProvider(func() time.Time { x.at("time"); return c27Time })
	g.SetClockSyncHandler(func(t time.Time) (byte, error) { x.at("clock"); return byte(t.Second()), nil })
	g.SetRemoteCommandHandler(func(gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
		x.at("command")
		return gem.RemoteCommandResult{}, nil
	})
	g.SetProcessProgramUploadHandler(func(any, string) int { x.at("upload"); return 0 })
	g.SetProcessProgramRequestHandler(func(id any) (string, int) { x.at("fetch"); return fmt.Sprint("body of ", id), 0 })
}

type c28Log struct {
	x    *c28Run
	site string
}

func (l c28Log) say()                 { l.x.at(l.site) }
func (l c28Log) Debug(string, ...any) { l.say() }
func (l c28Log) Info(string, ...any)  { l.say() }
func (l c28Log) Warn(string, ...any)  { l.say() }
func (l c28Log) Error(string, ...any) { l.say() }

func runC28(r *R, c c28Case) {
	x := &c28Run{r: r, c: c}
	ip, port := loopback(), freePort()
	end := func(equip bool) *gem.GemHandler {
		p := newProto(r, &Station{ip: ip, port: port, active: c.Active == equip}, 3)
		p.Timeouts().SetT3ReplyTimeout(4)
		o := gem.Options{Protocol: p, DeviceType: gem.DeviceHost, DeviceID: 3, MDLN: "m", SOFTREV: "s", EstablishCommunicationWait: 50 * time.Millisecond, Logger: c28Log{x, "hostlog"}}
		if equip {
			o.DeviceType = gem.DeviceEquipment
			o.Logger = c28Log{x, "log"}
		}
		g, err := gem.NewGemHandler(o)
		mustOK(err)
		return g
	}
	x.over.Store(true)
	x.h, x.e = end(false), end(true)
	g := x.e
	var err error
	x.sv, err = gem.NewStatusVariable(c28SV, "sv", "u", gem.WithStatusValueProvider(x.provide("sv", c28SV)))
	mustOK(err)
	mustOK(g.RegisterStatusVariable(x.sv))
	x.plain, err = gem.NewStatusVariable(1, "plain", "u", gem.WithStatusValue(ast.NewUintNode(8, uint64(c28Val))))
	mustOK(err)
	mustOK(g.RegisterStatusVariable(x.plain))
	x.dv, err = gem.NewDataVariable(c28DV, "dv", gem.WithDataValueProvider(x.provide("dv", c28DV)))
	mustOK(err)
	mustOK(g.RegisterDataVariable(x.dv))
	x.ec, err = gem.NewEquipmentConstant(c28EC, "ec", ast.NewUintNode(8, uint64(1)),
		gem.WithEquipmentConstantValueProvider(x.provide("constant", c28EC)),
		gem.WithEquipmentConstantValidator(func(ast.ItemNode) error { x.at("validator"); return nil }),
		gem.WithEquipmentConstantValueUpdater(func(ast.ItemNode) error { x.at("updater"); return nil }))
	mustOK(err)
	mustOK(g.RegisterEquipmentConstant(x.ec))
	ce, err := gem.NewCollectionEvent(c28CE, "ce")
	mustOK(err)
	mustOK(g.RegisterCollectionEvent(ce))
	g.RegisterAlarm(gem.Alarm{ID: c28AL, Text: "al"})
	x.setProviders()
	g.RegisterStreamFunctionHandler(10, 1, x.message)
	g.Events().ControlStateChanged.AddCallback(func(map[string]any) { x.at("control") })
	g.Events().RemoteCommandReceived.AddCallback(func(map[string]any) { x.at("remote") })
	g.Events().HandlerCommunicating.AddCallback(func(map[string]any) { x.at("communicating") })
	x.h.Events().HandlerCommunicating.AddCallback(func(map[string]any) { x.at("up") })
	x.h.Events().EventReportReceived.AddCallback(func(map[string]any) { x.at("event") })
	x.h.Events().AlarmReceived.AddCallback(func(map[string]any) { x.at("alarm") })
	x.h.Events().S9ErrorReceived.AddCallback(func(map[string]any) { x.at("s9") })
	x.over.Store(false)
	r.Cleanup(func() { x.over.Store(true) })
	if !pairUp(r, x.h, x.e, c.Active) {
		return
	}
	online := func() bool {
		return pollFor(netWait, func() bool { s := g.ControlState(); return s == stLoc || s == stRem })
	}
	d1, e1 := x.h.DefineReports(gem.ReportDefinitionRequest{ReportID: 1, VIDs: []any{c28SV, c28DV, 1}})
	d2, e2 := x.h.LinkEventReports(gem.EventReportLinkRequest{CEID: c28CE, ReportIDs: []any{1}})
	if d1 != 0 || d2 != 0 || e1 != nil || e2 != nil {
		x.timed("S2F33 and S2F35", errors.Join(e1, e2), "%d %d", d1, d2)
		return
	}
	var wg sync.WaitGroup
	stop := make(chan struct{})
	if c.Writer {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for id := 100000; ; id++ {
				select {
				case <-stop:
					return
				default:
				}
				v, _ := gem.NewStatusVariable(id, "", "", gem.WithStatusValue(ast.NewUintNode(1, 1)))
				g.RegisterStatusVariable(v)
				d, _ := gem.NewDataVariable(id, "", gem.WithDataValue(ast.NewUintNode(1, 1)))
				g.RegisterDataVariable(d)
				k, _ := gem.NewEquipmentConstant(id, "", ast.NewUintNode(1, 1))
				g.RegisterEquipmentConstant(k)
				e, _ := gem.NewCollectionEvent(id, "")
				g.RegisterCollectionEvent(e)
				g.RegisterAlarm(gem.Alarm{ID: id})
				if id%20 == 0 {
					time.Sleep(100 * time.Microsecond)
				}
			}
		}()
	}
	finished := make(chan struct{})
	for _, side := range []bool{true, false} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if !side {
				for _, op := range c.Equip {
					x.equip(op)
				}
				return
			}
			defer close(finished)
			for _, op := range c.Host {
				if r.failed() {
					return
				}
				x.host(op)
			}
		}()
	}
	select {
	case <-finished:
	case <-time.After(time.Duration(len(c.Host)+3) * 5 * time.Second):
	}
	close(stop)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(netWait):
		r.Slowf("the operations have not all returned %v after the last: code that the library calls uses the library", netWait)
		return
	}
	if r.failed() {
		return
	}
	x.over.Store(true)
	// what was registered from inside is there
	g.SwitchControlOnline()
	if !online() {
		r.Slowf("the equipment is %v at the end", g.ControlState())
		return
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, id := range x.vars {
		a, err := x.h.RequestStatusVariables(id)
		if err != nil || len(a) != 1 || fmt.Sprint(fromNode(a[0].Value).U) != fmt.Sprint([]uint64{uint64(id)}) {
			x.timed(fmt.Sprintf("the status variable %d, which was registered from inside", id), err, "%v", a)
			return
		}
	}
	if len(x.alarms) > 0 {
		a, err := x.h.RequestAlarmList()
		seen := map[int]bool{}
		for _, l := range a {
			seen[l.ID] = true
		}
		for _, id := range x.alarms {
			if !seen[id] {
				x.timed(fmt.Sprintf("the alarm %d, which was registered from inside", id), err, "is not listed")
				return
			}
		}
	}
	x.called.Range(func(k, _ any) bool { r.Label("called: " + k.(string)); return true })
	if x.inside.Load() > 0 {
		r.NonTrivial()
	}
}

// timed reports a wrong answer; one that did not come may be late.
func (x *c28Run) timed(what string, err error, f string, a ...any) {
	if errors.Is(err, hsms.ErrT3Timeout) {
		x.r.Slowf("%s: no answer in 4 s: code that the library calls uses the library", what)
		return
	}
	x.r.Failf("%s: %s, error %v", what, fmt.Sprintf(f, a...), err)
}

func (x *c28Run) equip(op c27Op) {
	g := x.e
	switch op.Op {
	case "trigger":
		g.TriggerCollectionEvent(c28CE)
	case "raise":
		g.RaiseAlarm(c28AL, op.A%2 == 0)
	case "local":
		g.SwitchControlOnlineLocal()
	case "remote":
		g.SwitchControlOnlineRemote()
	case "offline":
		g.SwitchControlOffline()
		g.SwitchControlOnline()
	case "apply":
		x.ec.ApplyValue(ast.NewUintNode(8, uint64(op.A)))
	case "time":
		if s := g.GetEquipmentTime(); s != "2031050607080900" {
			x.r.Failf("GetEquipmentTime gives %q", s)
		}
	}
}

func (x *c28Run) host(op c27Op) {
	h := x.h
	bad := func(err error, f string, a ...any) { x.timed("the request "+op.Op, err, f, a...) }
	code := func(n int, err error) {
		if n != 0 || err != nil {
			bad(err, "acknowledge code %d", n)
		}
	}
	is := func(n ast.ItemNode, v int) bool {
		return n != nil && fmt.Sprint(fromNode(n).U) == fmt.Sprint([]uint64{uint64(v)})
	}
	switch op.Op {
	case "sv":
		a, err := h.RequestStatusVariables(c28SV, 1)
		if err != nil || len(a) != 2 || !(is(a[0].Value, c28SV) || is(a[0].Value, 1)) || !is(a[1].Value, c28Val) {
			bad(err, "%v", a)
		}
	case "allsv":
		if _, err := h.Protocol().SendAndWait(message(1, 3, true, iL())); err != nil {
			bad(err, "")
		}
	case "info":
		_, e1 := h.RequestStatusVariableInfo()
		_, e2 := h.RequestEquipmentConstantInfo()
		if e1 != nil || e2 != nil {
			bad(errors.Join(e1, e2), "")
		}
	case "report":
		rep, err := h.RequestCollectionEventReport(c28CE)
		if err != nil || len(rep.Reports) != 1 || len(rep.Reports[0].Values) != 3 || !is(rep.Reports[0].Values[2], c28Val) {
			bad(err, "%v", rep)
		}
	case "constant":
		a, err := h.RequestEquipmentConstants(c28EC)
		if err != nil || len(a) != 1 || !is(a[0].Value, c28EC) {
			bad(err, "%v", a)
		}
	case "set":
		n, err := h.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: c28EC, Value: ast.NewUintNode(8, uint64(op.A))}})
		code(n, err)
	case "command":
		res, err := h.SendRemoteCommand("GO", nil)
		if err != nil || res.HCACK != 0 {
			bad(err, "%v", res)
		}
	case "time":
		s, err := h.RequestDateTime()
		if err != nil || s != "2031050607080900" {
			bad(err, "%q", s)
		}
	case "settime":
		n, err := h.SetDateTime("2031050607080000")
		code(int(n), err)
	case "upload":
		n, err := h.UploadProcessProgram("P", "b")
		code(n, err)
	case "fetch":
		b, n, err := h.RequestProcessProgram("P")
		if err != nil || n != 0 || b != "body of P" {
			bad(err, "%q %d", b, n)
		}
	case "message":
		m, err := h.Protocol().SendAndWait(message(10, 1, true, iL()))
		if err != nil || m == nil || m.FunctionCode() != 2 {
			bad(err, "%v", m)
		}
	case "unknown":
		h.Protocol().SendDataMessage(message(11, 1, false, iL()))
	}
}

func init() {
	shards("C28", 24, 24)
	sites := []string{"sv", "sv", "dv", "constant", "validator", "updater", "command", "remote", "time", "clock", "upload", "fetch", "message", "control", "communicating", "log", "event", "alarm", "s9", "up", "hostlog"}
	acts := []string{"state", "value", "setvalue", "variable", "data", "constant", "event", "alarm", "program", "programs", "trigger", "raise", "able", "mode", "online", "time", "providers", "callback", "handler", "log", "send"}
	host := map[string][]string{"sv": {"sv", "allsv", "report"}, "dv": {"report"}, "constant": {"constant"}, "validator": {"set"}, "updater": {"set"}, "command": {"command"}, "remote": {"command"}, "time": {"time"}, "clock": {"settime"}, "upload": {"upload"}, "fetch": {"fetch"}, "message": {"message"}, "log": {"unknown", "info"}, "s9": {"unknown"}, "event": {"sv"}, "alarm": {"sv"}}
	register("C28", "inside", "a GEM host and a GEM equipment of the library connected to each other; value providers, updaters, validators, command, program, clock and message handlers, event callbacks and loggers of both perform 1-6 operations of the library when they are called (definitions, values, events, alarms, modes, handlers, callbacks, logging, states, sending), while the host makes requests, the equipment triggers events and a goroutine registers definitions: every call returns, with the right result, and what was registered from inside is there; non-trivial: code that used the library was called",
		opts{quick: budget{60, 25}, thorough: budget{5000, 600}, hang: 70 * time.Second},
		func(t *rapid.T) c28Case {
			c := c28Case{Active: coin(t, "active"), Writer: coin(t, "writer")}
			for i, n := 0, rng(t, "inside", 1, 6); i < n; i++ {
				in := c28In{Site: pick(t, "site", sites...), Op: pick(t, "act", acts...), A: rng(t, "a", 0, 5)}
				if in.Site == "log" && !c28Read[in.Op] {
					in.Op = pick(t, "read", "state", "time", "programs", "value")
				}
				if in.Site == "hostlog" {
					in.Op = "state"
				}
				c.In = append(c.In, in)
				for k := rng(t, "more", 0, 3); k > 0; k-- {
					if l := host[in.Site]; l != nil {
						c.Host = append(c.Host, c27Op{Op: pick(t, "cause", l...), A: rng(t, "a", 0, 5)})
					}
					c.Equip = append(c.Equip, c27Op{Op: pick(t, "cause2", "trigger", "raise", "local", "remote", "offline", "apply", "time"), A: rng(t, "a", 0, 5)})
				}
			}
			for i, n := 0, rng(t, "host", 1, 5); i < n; i++ {
				c.Host = append(c.Host, c27Op{Op: pick(t, "hop", "sv", "allsv", "info", "report", "constant", "set", "command", "time", "settime", "upload", "fetch", "message", "unknown"), A: rng(t, "a", 0, 5)})
			}
			return c
		}, runC28)
}
