package main

import (
	"errors"
	"strings"
	"sync/atomic"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
)

// gemEnd is a GEM endpoint under test with its peer.
type gemEnd struct {
	r       *R
	st      *Station
	p       *hsms.HsmsProtocol
	g       *gem.GemHandler
	peer    *Peer
	session uint16
	equip   bool
	auto13  atomic.Bool // the peer accepts S1F13
	auto1   atomic.Bool // the peer answers S1F1
}

func newGem(r *R, active, equip bool, session uint16, mod func(*gem.Options)) *gemEnd {
	e := &gemEnd{r: r, equip: equip, session: session}
	e.auto13.Store(true)
	e.auto1.Store(true)
	e.st = newStation(r, active)
	e.st.hook = func(p *Peer, f rxFrame) bool {
		if f.SType != 0 || f.S() != 1 || !f.W() {
			return false
		}
		switch {
		case f.F() == 13 && e.auto13.Load():
			body := iL(iB(0), iL(iA("peer"), iA("1")))
			if e.equip {
				body = iL(iB(0), iL())
			}
			p.send(dataFrame(session, 1, 14, false, f.Sys, body))
			return true
		case f.F() == 1 && e.auto1.Load():
			p.send(dataFrame(session, 1, 2, false, f.Sys, iL()))
			return true
		}
		return false
	}
	e.p = newProto(r, e.st, int(session))
	o := gem.Options{Protocol: e.p, DeviceType: gem.DeviceHost, DeviceID: session}
	if equip {
		o.DeviceType = gem.DeviceEquipment
		o.InitialControlState = gem.ControlStateEquipmentOffline
	}
	if mod != nil {
		mod(&o)
	}
	g, err := gem.NewGemHandler(o)
	mustOK(err)
	e.g = g
	r.Cleanup(func() {
		e.st.stop()
		done := make(chan struct{})
		go func() { g.Disable(); close(done) }()
		select {
		case <-done:
		case <-time.After(10 * time.Millisecond):
		}
	})
	return e
}

// selected enables the endpoint if need be, connects and selects.
func (e *gemEnd) selected() bool {
	e.g.Enable()
	e.peer = e.st.up(e.r, e.session)
	return e.peer != nil
}

// talk establishes communication, started by the peer; equipment goes online.
func (e *gemEnd) talk() bool {
	if a, ok := e.ask(1, 13, e.s1f13()); !ok {
		return false
	} else if a.F() != 14 {
		e.r.Failf("S1F13 was answered with %v", a.view())
		return false
	}
	if s := e.g.State(); s != gem.CommunicationStateCommunicating {
		e.r.Failf("the state is %v after S1F13 was answered", s)
		return false
	}
	if e.equip {
		if !pollFor(netWait, func() bool { return e.online() }) {
			e.r.Slowf("the equipment did not go online in %v after communication was established: %v", netWait, e.g.ControlState())
			return false
		}
		e.peer.sync(e.r)
	}
	return true
}

func (e *gemEnd) up() bool { return e.selected() && e.talk() }

func (e *gemEnd) online() bool { return strings.HasPrefix(string(e.g.ControlState()), "ONLINE") }

func (e *gemEnd) s1f13() Item {
	if e.equip {
		return iL() // from the host
	}
	return iL(iA("peer"), iA("1"))
}

func pollFor(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
	return true
}

var errNoReply = errors.New("no reply")

// ask sends a primary message and returns the data message with its system
// bytes that comes back.
func (e *gemEnd) ask(s, f int, it Item) (rxFrame, bool) {
	sys := e.peer.nextSys()
	e.peer.send(dataFrame(e.session, s, f, true, sys, it))
	a, ok := e.peer.take(netWait, func(x rxFrame) bool { return x.SType == 0 && x.Sys == sys })
	if !ok {
		e.r.Slowf("S%dF%d was not answered in %v (connection ended: %v)", s, f, netWait, e.peer.ended())
	}
	return a, ok
}

// askItem is ask for the reply function f+1 and returns its item.
func (e *gemEnd) askItem(s, f int, it Item) (Item, bool) {
	a, ok := e.ask(s, f, it)
	if !ok {
		return Item{}, false
	}
	if a.S() != s || a.F() != f+1 || a.W() || a.Session != e.session {
		e.r.Failf("S%dF%d was answered with %v", s, f, a.view())
		return Item{}, false
	}
	return a.Item, true
}

// upAnew connects and selects after connections that may have left remains:
// those that end or are not answered are left behind.
func (s *Station) upAnew(r *R, session uint16) *Peer {
	end := time.Now().Add(2 * netWait)
	last := "no connection"
	for time.Now().Before(end) {
		p := s.conn(time.Until(end))
		if p == nil {
			break
		}
		if s.active {
			f, ok := p.take(3*time.Second, func(f rxFrame) bool { return f.SType == sSelectReq })
			if ok {
				p.send(ctrlFrame(f.Session, 0, 0, sSelectRsp, f.Sys))
			} else {
				last = "a connection without select.req"
				p.close()
				continue
			}
		} else if quietSync(p, 3*time.Second) {
			sys := p.nextSys()
			p.send(ctrlFrame(session, 0, 0, sSelectReq, sys))
			f, ok := p.take(3*time.Second, func(f rxFrame) bool { return f.SType == sSelectRsp && f.Sys == sys })
			if ok && f.B3 != 0 {
				r.Failf("select.req was answered with status %d", f.B3)
				return nil
			}
		}
		if quietSync(p, 3*time.Second) {
			return p
		}
		last = "a connection that is not answered"
		p.close()
	}
	r.Slowf("no selected connection in %v; the last one was %s", 2*netWait, last)
	return nil
}
