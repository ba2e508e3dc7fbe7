package main

import (
	"errors"
	"fmt"
	"runtime/debug"
	"sort"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// mustOK ends the case: a valid definition was refused.
func mustOK(err error) {
	if err != nil {
		panic(refusal{err, string(debug.Stack())})
	}
}

type refusal struct {
	err   error
	stack string
}

// furnish gives equipment something of every kind to serve.
func furnish(g *gem.GemHandler) {
	for i, d := range []gemID{idN(1), idN(2), idN(3), idA("A"), idN(1 << 32)} {
		sv, err := gem.NewStatusVariable(d.api(), fmt.Sprintf("SV%d", i), "mm", gem.WithStatusValue(iU(2, uint64(i)).node()))
		mustOK(err)
		mustOK(g.RegisterStatusVariable(sv))
		dv, err := gem.NewDataVariable(idN(uint64(10+i)).api(), fmt.Sprintf("DV%d", i), gem.WithDataValue(iA("dv").node()))
		mustOK(err)
		mustOK(g.RegisterDataVariable(dv))
		ce, err := gem.NewCollectionEvent(d.api(), fmt.Sprintf("CE%d", i))
		mustOK(err)
		mustOK(g.RegisterCollectionEvent(ce))
		mustOK(g.RegisterProcessProgram(d.api(), "body"))
		g.RegisterAlarm(gem.Alarm{ID: i, Text: fmt.Sprintf("alarm %d", i)})
	}
	sv, err := gem.NewStatusVariable(4, "failing", "", gem.WithStatusValueProvider(func() (ast.ItemNode, error) { return nil, errors.New("no value") }))
	mustOK(err)
	mustOK(g.RegisterStatusVariable(sv))
	for i, d := range []gemID{idN(1), idA("A"), idN(3)} {
		ec, err := gem.NewEquipmentConstant(d.api(), fmt.Sprintf("EC%d", i), iI(4, int64(i)).node(), gem.WithEquipmentConstantUnit("s"), gem.WithEquipmentConstantMin(iI(4, -5).node()), gem.WithEquipmentConstantMax(iI(4, 5).node()))
		mustOK(err)
		mustOK(g.RegisterEquipmentConstant(ec))
	}
	ec, err := gem.NewEquipmentConstant(2, "checked", iA("x").node(),
		gem.WithEquipmentConstantValidator(func(n ast.ItemNode) error {
			if n.Type() != "ascii" {
				return errors.New("not text")
			}
			return nil
		}))
	mustOK(err)
	mustOK(g.RegisterEquipmentConstant(ec))
	g.SetRemoteCommandHandler(func(q gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
		res := gem.RemoteCommandResult{}
		for _, p := range q.Parameters {
			res.ParameterAcks = append(res.ParameterAcks, gem.RemoteCommandParameterAck{Name: p.Identifier, Ack: 1})
		}
		return res, nil
	})
	g.SetClockSyncHandler(func(time.Time) (byte, error) { return 0, nil })
}

// calls are the requests of the host's and the equipment's programming
// interface, for peers that answer them badly.
var hostCalls = map[string]func(g *gem.GemHandler) error{
	"RequestStatusVariables":       func(g *gem.GemHandler) error { _, e := g.RequestStatusVariables(1, "A", uint64(1<<32)); return e },
	"RequestStatusVariableInfo":    func(g *gem.GemHandler) error { _, e := g.RequestStatusVariableInfo(1, "A"); return e },
	"RequestEquipmentConstants":    func(g *gem.GemHandler) error { _, e := g.RequestEquipmentConstants(1, "A"); return e },
	"RequestEquipmentConstantInfo": func(g *gem.GemHandler) error { _, e := g.RequestEquipmentConstantInfo(1, "A"); return e },
	"SendEquipmentConstantValues": func(g *gem.GemHandler) error {
		_, e := g.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: 1, Value: iA("v").node()}})
		return e
	},
	"DefineReports": func(g *gem.GemHandler) error {
		_, e := g.DefineReports(gem.ReportDefinitionRequest{ReportID: 1, VIDs: []any{1, "A"}})
		return e
	},
	"LinkEventReports": func(g *gem.GemHandler) error {
		_, e := g.LinkEventReports(gem.EventReportLinkRequest{CEID: 1, ReportIDs: []any{1}})
		return e
	},
	"EnableEventReports":           func(g *gem.GemHandler) error { _, e := g.EnableEventReports(true, 1); return e },
	"RequestCollectionEventReport": func(g *gem.GemHandler) error { _, e := g.RequestCollectionEventReport(1); return e },
	"UploadProcessProgram":         func(g *gem.GemHandler) error { _, e := g.UploadProcessProgram(1, "body"); return e },
	"RequestProcessProgram":        func(g *gem.GemHandler) error { _, _, e := g.RequestProcessProgram(1); return e },
	"RequestDateTime":              func(g *gem.GemHandler) error { _, e := g.RequestDateTime(); return e },
	"SetDateTime":                  func(g *gem.GemHandler) error { _, e := g.SetDateTime("2024010203040500"); return e },
	"SendRemoteCommand": func(g *gem.GemHandler) error {
		_, e := g.SendRemoteCommand("GO", []gem.RemoteCommandParameterValue{{Name: "P", Value: 1}})
		return e
	},
	"RaiseAlarm":              func(g *gem.GemHandler) error { return g.RaiseAlarm(1, true) },
	"TriggerCollectionEvent":  func(g *gem.GemHandler) error { return g.TriggerCollectionEvent(1, "A") },
	"SendEnableAlarm":         func(g *gem.GemHandler) error { _, e := g.SendEnableAlarm([]int{1, 2}, true); return e },
	"RequestAlarmList":        func(g *gem.GemHandler) error { _, e := g.RequestAlarmList(); return e },
	"RequestEnabledAlarmList": func(g *gem.GemHandler) error { _, e := g.RequestEnabledAlarmList(); return e },
}

var hostCallNames = func() (a []string) {
	for k := range hostCalls {
		if k == "RaiseAlarm" || k == "TriggerCollectionEvent" {
			continue
		}
		a = append(a, k)
	}
	sort.Strings(a)
	return
}()
