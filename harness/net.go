package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/younglifestyle/secs4go/common"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// ---------------------------------------------------------------------------
// Addresses. Every process uses a loopback address of its own and ports below
// the ephemeral range, so that parallel shards cannot meet.
// ---------------------------------------------------------------------------

var (
	ipOnce   sync.Once
	ipAddr   string
	portNext atomic.Int32
)

func loopback() string {
	ipOnce.Do(func() {
		pid := os.Getpid()
		ipAddr = fmt.Sprintf("127.%d.%d.%d", 64+(pid>>14)&63, 1+(pid>>7)&127, 1+pid&127)
		portNext.Store(20000)
		if l, err := net.Listen("tcp", ipAddr+":0"); err == nil {
			l.Close()
		} else {
			ipAddr = "127.0.0.1"
			portNext.Store(int32(10000 + (pid*37)%20000))
		}
	})
	return ipAddr
}

func freePort() int {
	ip := loopback()
	for i := 0; i < 10000; i++ {
		p := int(portNext.Add(1))
		if p > 32000 {
			portNext.Store(20000)
			continue
		}
		l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", ip, p))
		if err == nil {
			l.Close()
			return p
		}
	}
	panic("harness: no free port")
}

// ---------------------------------------------------------------------------
// Peer: the other side of a connection, speaking HSMS with the reference codec
// ---------------------------------------------------------------------------

type rxFrame struct {
	Frame
	raw []byte
	at  time.Time
}

type Peer struct {
	c       net.Conn
	mu      sync.Mutex
	cond    chan struct{} // closed and replaced when something arrives
	pend    []rxFrame     // received, not taken
	all     []rxFrame
	err     error // set when the connection has ended
	errAt   time.Time
	bad     string // a frame that is not valid HSMS
	silent  bool   // do not answer linktest.req
	onFrame func(p *Peer, f rxFrame) (consumed bool)
	sys     uint32
	wmu     sync.Mutex
	track   bool
	sent    [][]byte // with track: the frames sent
}

func newPeer(c net.Conn, onFrame func(*Peer, rxFrame) bool, track bool) *Peer {
	p := &Peer{c: c, cond: make(chan struct{}), sys: 0x70000000, onFrame: onFrame, track: track}
	go p.read()
	return p
}

func (p *Peer) read() {
	for {
		h := make([]byte, 4)
		_, err := io.ReadFull(p.c, h)
		var b []byte
		if err == nil {
			n := binary.BigEndian.Uint32(h)
			if n > 64<<20 {
				err = fmt.Errorf("frame with length %d", n)
				p.mu.Lock()
				p.bad = err.Error()
				p.mu.Unlock()
			} else {
				b = make([]byte, 4+n)
				copy(b, h)
				var m int
				m, err = io.ReadFull(p.c, b[4:])
				if err != nil {
					err = fmt.Errorf("connection ended inside a frame after %d of %d bytes: %w", m, n, err)
				}
			}
		}
		if err != nil {
			p.mu.Lock()
			p.err, p.errAt = err, time.Now()
			close(p.cond)
			p.cond = make(chan struct{})
			p.mu.Unlock()
			return
		}
		f, derr := decFrame(b)
		rf := rxFrame{f, b, time.Now()}
		p.mu.Lock()
		if derr != nil && p.bad == "" {
			p.bad = fmt.Sprintf("%x: %v", clipb(b), derr)
		}
		p.all = append(p.all, rf)
		silent, hook := p.silent, p.onFrame
		p.mu.Unlock()
		if derr == nil && f.SType == sLinktestReq && !silent {
			p.send(ctrlFrame(f.Session, 0, 0, sLinktestRsp, f.Sys))
			continue
		}
		if hook != nil && hook(p, rf) {
			continue
		}
		p.mu.Lock()
		p.pend = append(p.pend, rf)
		close(p.cond)
		p.cond = make(chan struct{})
		p.mu.Unlock()
	}
}

func (p *Peer) write(b []byte) error {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	return p.writeLocked(b)
}

func (p *Peer) writeLocked(b []byte) error {
	p.c.SetWriteDeadline(time.Now().Add(20 * time.Second))
	_, err := p.c.Write(b)
	return err
}

func (p *Peer) send(f Frame) error {
	b := f.enc()
	p.wmu.Lock()
	defer p.wmu.Unlock()
	if p.track {
		p.sent = append(p.sent, b)
	}
	return p.writeLocked(b)
}

// writeChunks writes b in pieces of the given sizes (cyclic). Nothing else is
// sent in between.
func (p *Peer) writeChunks(b []byte, chunks []int) error {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	for i := 0; len(b) > 0; i++ {
		n := len(b)
		if len(chunks) > 0 && i < 200 {
			n = min(n, max(1, chunks[i%len(chunks)]))
		}
		if err := p.writeLocked(b[:n]); err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

func (p *Peer) nextSys() uint32 { return atomic.AddUint32(&p.sys, 1) }

func (p *Peer) close() { p.c.Close() }

// reset closes the connection with a TCP reset.
func (p *Peer) reset() {
	if t, ok := p.c.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	p.c.Close()
}

// take waits for a frame that satisfies ok and removes it.
func (p *Peer) take(d time.Duration, ok func(rxFrame) bool) (rxFrame, bool) {
	end := time.Now().Add(d)
	for {
		p.mu.Lock()
		for i, f := range p.pend {
			if ok(f) {
				p.pend = append(append([]rxFrame{}, p.pend[:i]...), p.pend[i+1:]...)
				p.mu.Unlock()
				return f, true
			}
		}
		ended, c := p.err != nil, p.cond
		p.mu.Unlock()
		left := time.Until(end)
		if ended || left <= 0 {
			return rxFrame{}, false
		}
		t := time.NewTimer(left)
		select {
		case <-c:
		case <-t.C:
		}
		t.Stop()
	}
}

// rest returns and removes the frames nobody has taken.
func (p *Peer) rest() []rxFrame {
	p.mu.Lock()
	defer p.mu.Unlock()
	a := p.pend
	p.pend = nil
	return a
}

func (p *Peer) ended() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.err != nil }

func (p *Peer) waitEnd(d time.Duration) bool {
	p.take(d, func(rxFrame) bool { return false })
	return p.ended()
}

// check reports frames that were not valid HSMS.
func (p *Peer) check(r *R) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.bad != "" {
		r.Failf("the endpoint sent a frame that is not valid HSMS: %s", p.bad)
	}
	if p.err != nil && !errors.Is(p.err, io.EOF) && bytes.Contains([]byte(p.err.Error()), []byte("inside a frame")) && !errors.Is(p.err, net.ErrClosed) {
		var ne *net.OpError
		if !errors.As(p.err, &ne) {
			r.Failf("%v", p.err)
		}
	}
}

const netWait = 10 * time.Second // for what happens at once

// sync returns when the endpoint has processed everything sent before.
func (p *Peer) sync(r *R) bool {
	sys := p.nextSys()
	p.send(ctrlFrame(0xffff, 0, 0, sLinktestReq, sys))
	_, ok := p.take(netWait, func(f rxFrame) bool { return f.SType == sLinktestRsp && f.Sys == sys })
	if !ok {
		if p.ended() {
			r.Slowf("the endpoint ended the connection (%v) where it should answer a linktest.req", p.err)
		} else {
			r.Slowf("the endpoint did not answer a linktest.req in %v", netWait)
		}
	}
	return ok
}

// selectIt sends select.req and waits for the acceptance.
func (p *Peer) selectIt(r *R, session uint16) bool {
	sys := p.nextSys()
	p.send(ctrlFrame(session, 0, 0, sSelectReq, sys))
	f, ok := p.take(netWait, func(f rxFrame) bool { return f.SType == sSelectRsp && f.Sys == sys })
	if !ok {
		r.Slowf("no select.rsp in %v (connection ended: %v)", netWait, p.ended())
		return false
	}
	if f.B3 != 0 {
		r.Failf("select.req was answered with status %d", f.B3)
		return false
	}
	return p.sync(r) // the state changes after the response has been sent
}

// acceptSelect answers the select.req of an active endpoint.
func (p *Peer) acceptSelect(r *R) bool {
	f, ok := p.take(netWait, func(f rxFrame) bool { return f.SType == sSelectReq })
	if !ok {
		r.Slowf("the active endpoint sent no select.req in %v (connection ended: %v)", netWait, p.ended())
		return false
	}
	p.send(ctrlFrame(f.Session, 0, 0, sSelectRsp, f.Sys))
	return p.sync(r)
}

// ---------------------------------------------------------------------------
// Station: the peer's side of an endpoint: it dials a passive one and accepts
// the connections of an active one.
// ---------------------------------------------------------------------------

type Station struct {
	active bool // role of the endpoint under test
	ip     string
	port   int
	l      net.Listener
	conns  chan net.Conn
	hook   func(*Peer, rxFrame) bool
	track  bool
	mu     sync.Mutex
	peers  []*Peer
	naccpt atomic.Int32
}

func newStation(r *R, active bool) *Station {
	s := &Station{active: active, ip: loopback(), port: freePort(), conns: make(chan net.Conn, 64)}
	if active {
		if err := s.listen(); err != nil {
			panic("harness: " + err.Error())
		}
	}
	r.Cleanup(s.stop)
	return s
}

func (s *Station) listen() error {
	l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", s.ip, s.port))
	if err != nil {
		return err
	}
	s.mu.Lock()
	s.l = l
	s.mu.Unlock()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.naccpt.Add(1)
			select {
			case s.conns <- c:
			default:
				c.Close()
			}
		}
	}()
	return nil
}

func (s *Station) unlisten() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.l != nil {
		s.l.Close()
		s.l = nil
	}
}

func (s *Station) stop() {
	s.unlisten()
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, p := range s.peers {
		p.c.Close()
	}
	for {
		select {
		case c := <-s.conns:
			c.Close()
			continue
		default:
		}
		break
	}
}

// conn returns the next connection with the endpoint, or nil.
func (s *Station) conn(d time.Duration) *Peer {
	var c net.Conn
	if s.active {
		t := time.NewTimer(d)
		defer t.Stop()
		select {
		case c = <-s.conns:
		case <-t.C:
			return nil
		}
	} else {
		end := time.Now().Add(d)
		for {
			k, err := net.DialTimeout("tcp", fmt.Sprintf("%s:%d", s.ip, s.port), 2*time.Second)
			if err == nil {
				c = k
				break
			}
			if time.Now().After(end) {
				return nil
			}
			time.Sleep(3 * time.Millisecond)
		}
	}
	p := newPeer(c, s.hook, s.track)
	s.mu.Lock()
	s.peers = append(s.peers, p)
	s.mu.Unlock()
	return p
}

// up connects and selects.
func (s *Station) up(r *R, session uint16) *Peer {
	end := time.Now().Add(2 * netWait)
	for {
		p := s.conn(netWait)
		if p == nil {
			r.Slowf("no connection with the enabled endpoint in %v", netWait)
			return nil
		}
		if s.active {
			if p.acceptSelect(r) {
				return p
			}
			return nil
		}
		// A connection made while the endpoint gets ready to listen again may be
		// dropped at once: then try again.
		sys := p.nextSys()
		p.send(ctrlFrame(session, 0, 0, sSelectReq, sys))
		f, ok := p.take(netWait/3, func(f rxFrame) bool { return f.SType == sSelectRsp && f.Sys == sys })
		if ok {
			if f.B3 != 0 {
				r.Failf("select.req was answered with status %d", f.B3)
				return nil
			}
			if p.sync(r) {
				return p
			}
			return nil
		}
		if time.Now().After(end) {
			r.Slowf("no select.rsp (connection ended: %v)", p.ended())
			return nil
		}
		p.close()
	}
}

// ---------------------------------------------------------------------------
// Endpoint under test
// ---------------------------------------------------------------------------

func newProto(r *R, s *Station, session int) *hsms.HsmsProtocol {
	p := hsms.NewHsmsProtocol(s.ip, s.port, s.active, session, "verif")
	if d := os.Getenv("VERIF_DEBUG"); d != "" {
		f, _ := os.OpenFile(d, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		p.SetLogger(common.NewStdLogger(f, ""))
		p.ConfigureLogging(hsms.LoggingConfig{Enabled: true, IncludeControlMessages: true, Writer: f})
	}
	if session%2 == 1 && os.Getenv("VERIF_DEBUG") == "" {
		p.SetLogger(nil) // none
	}
	t := p.Timeouts()
	t.SetLinktest(3600)
	t.SetT3ReplyTimeout(30)
	t.SetT5ConnSeparateTimeout(0)
	t.SetT6ControlTransTimeout(2)
	t.SetT7NotSelectTimeout(30)
	t.SetT8NetworkIntercharTimeout(0)
	t.SetReconnectBackoffBase(1)
	t.SetReconnectBackoffMax(1)
	t.SetMaxReconnectAttempts(0)
	return p
}

// disable ends an endpoint in a cleanup: the connection is dropped first, so
// that an active endpoint does not wait for a deselect.rsp.
func disable(p *hsms.HsmsProtocol, s *Station) {
	s.stop()
	done := make(chan struct{})
	go func() { p.Disable(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Millisecond): // the rest is C16's concern
	}
}

// message builds a data message for sending or replying.
func message(s, f int, w bool, it Item) *ast.DataMessage {
	return ast.NewDataMessage("", s, f, b2i(w), "H<->E", it.node())
}

// view describes a data message the application received.
type view struct {
	Session uint16
	S, F    int
	W       string
	Sys     string
	Item    string // encoded
}

func viewOf(m *ast.DataMessage) view {
	b := m.ToBytes()
	v := view{Session: uint16(m.SessionID()), S: m.StreamCode(), F: m.FunctionCode(), W: m.WaitBit(), Sys: string(m.SystemBytes())}
	if len(b) >= 14 {
		v.Item = string(b[14:])
	}
	return v
}

func (f Frame) view() view {
	w := "false"
	if f.W() {
		w = "true"
	}
	e := f.enc()
	return view{Session: f.Session, S: f.S(), F: f.F(), W: w, Sys: string(sysB(f.Sys)), Item: string(e[14:])}
}

func (v view) String() string {
	return fmt.Sprintf("S%dF%d session=%d W=%s sys=%x item=%x", v.S, v.F, v.Session, v.W, v.Sys, clipb([]byte(v.Item)))
}

func frameStr(f Frame) string {
	if f.SType == 0 {
		return f.view().String()
	}
	return fmt.Sprintf("control %d session=%d b2=%d b3=%d sys=%08x", f.SType, f.Session, f.B2, f.B3, f.Sys)
}

func waitState(p *hsms.HsmsProtocol, d time.Duration, state string) bool {
	end := time.Now().Add(d)
	for p.CurrentState() != state {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
	return true
}
