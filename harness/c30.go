package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"
	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"pgregory.net/rapid"
)

// C30: nothing is left behind.

// libGoroutines are the goroutines in which code of the library runs or that it
// has started.
func libGoroutines() (a []string) {
	b := make([]byte, 1<<20)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			b = b[:n]
			break
		}
		b = make([]byte, 2*len(b))
	}
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, "younglifestyle/secs4go") {
			a = append(a, g)
		}
	}
	return
}

// sockets counts the sockets this process has open.
func sockets() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	n := 0
	for _, e := range d {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

// heap is the memory in use that is reachable.
func heap() uint64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

type c30Step struct {
	Op string
	N  int
}

type c30End struct {
	Kind   string // hsms, equip, host
	Active bool
	Link   int // linktest interval
	T5     int
	Steps  []c30Step
	Last   string // state in which it is disabled
}

type c30Case struct{ Ends []c30End }

const c30Session = 5

type c30Run struct {
	r    *R
	c    c30End
	pre  string
	st   *Station
	p    *hsms.HsmsProtocol
	g    *gem.GemHandler
	e    *gemEnd
	peer *Peer
	ids  int
}

func newC30(r *R, pre string, c c30End) *c30Run {
	x := &c30Run{r: r, c: c, pre: pre}
	if c.Kind == "hsms" {
		x.st = newStation(r, c.Active)
		x.p = newProto(r, x.st, c30Session)
		x.p.RegisterHandler(1, 1, func(*ast.DataMessage) (*ast.DataMessage, error) {
			return ast.NewDataMessage("", 1, 2, 0, "H<->E", ast.NewListNode()), nil
		})
	} else {
		x.e = newGem(r, c.Active, c.Kind == "equip", c30Session, nil)
		x.st, x.p, x.g = x.e.st, x.e.p, x.e.g
		if c.Kind == "equip" {
			furnish(x.g)
		}
	}
	t := x.p.Timeouts()
	t.SetT3ReplyTimeout(1)
	t.SetT5ConnSeparateTimeout(c.T5)
	t.SetT6ControlTransTimeout(1)
	t.SetT7NotSelectTimeout(1)
	if c.Link > 0 {
		t.SetLinktest(c.Link)
	}
	r.Cleanup(x.off)
	return x
}

func (x *c30Run) on() {
	if x.g != nil {
		x.g.Enable()
	} else {
		x.p.Enable()
	}
}

func (x *c30Run) off() {
	if x.g != nil {
		x.g.Disable()
	} else {
		x.p.Disable()
	}
}

// offIn disables within a limit.
func (x *c30Run) offIn() bool {
	done := make(chan struct{})
	go func() { x.off(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(2 * netWait):
		x.r.Slowf("%sDisable has not returned after %v", x.pre, 2*netWait)
		return false
	}
}

// use exchanges messages in both directions.
func (x *c30Run) use(what string, n int) bool {
	p := x.peer
	msg := ast.NewDataMessage("", 64, 1, 1, "H<->E", ast.NewASCIINode("request"))
	switch what {
	case "answered", "twice":
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); x.p.SendAndWait(msg) }()
		}
		for i := 0; i < n; i++ {
			f, ok := p.take(netWait, isF(64, 1))
			if !ok {
				break // T3 may have passed on a busy machine
			}
			{
				p.send(dataFrame(c30Session, 64, 2, false, f.Sys, iA("reply")))
			}
			if what == "twice" {
				p.send(dataFrame(c30Session, 64, 2, false, f.Sys, iA("again")))
			}
		}
		wg.Wait()
	case "unanswered", "late":
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); x.p.SendAndWait(msg) }()
		}
		wg.Wait()
		if what == "late" {
			for _, f := range p.rest() {
				if f.SType == 0 && f.S() == 64 {
					p.send(dataFrame(c30Session, 64, 2, false, f.Sys, iA("late")))
				}
			}
		}
	case "unasked": // replies to nothing
		for i := 0; i < n; i++ {
			p.send(dataFrame(c30Session, 64, 2, false, uint32(0x11000000+i), iA("reply")))
			p.send(ctrlFrame(0xffff, 0, 0, sLinktestRsp, uint32(0x12000000+i)))
		}
	case "primaries":
		for i := 0; i < n; i++ {
			p.send(dataFrame(c30Session, 1, 1, true, p.nextSys(), Item{}))
			p.send(dataFrame(c30Session, 63, 1, i%2 == 0, p.nextSys(), iL()))
		}
	case "sends":
		for i := 0; i < n; i++ {
			x.p.SendDataMessage(ast.NewDataMessage("", 64, 3, 0, "H<->E", ast.NewListNode()))
		}
	case "linktests":
		for i := 0; i < n; i++ {
			p.send(ctrlFrame(0xffff, 0, 0, sLinktestReq, p.nextSys()))
		}
	case "selects":
		for i := 0; i < n; i++ {
			p.send(ctrlFrame(c30Session, 0, 0, sSelectReq, p.nextSys()))
			p.send(ctrlFrame(c30Session, 0, 0, 7, p.nextSys()))
		}
	case "waits": // for communication that is not established
		if x.g != nil {
			for i := 0; i < n; i++ {
				x.g.WaitForCommunicating(time.Nanosecond)
			}
		}
	case "reports": // defined, linked, enabled, and all deleted
		if x.c.Kind != "equip" {
			break
		}
		var reports, links []Item
		for i := 0; i < n; i++ {
			x.ids++
			reports = append(reports, iL(iU(4, uint64(x.ids)), iL(iU(1, 1), iA("A"))))
			links = append(links, iU(4, uint64(x.ids)))
		}
		p.send(dataFrame(c30Session, 2, 33, true, p.nextSys(), iL(iU(1, 1), iL(reports...))))
		p.send(dataFrame(c30Session, 2, 35, true, p.nextSys(), iL(iU(1, 1), iL(iL(iU(1, 1), iL(links...))))))
		p.send(dataFrame(c30Session, 2, 37, true, p.nextSys(), iL(iO(true), iL(iU(1, 1)))))
		p.send(dataFrame(c30Session, 6, 15, true, p.nextSys(), iU(1, 1)))
		if x.ids%2 == 0 { // one by one
			for i := range reports {
				reports[i].L[1] = iL()
			}
			p.send(dataFrame(c30Session, 2, 33, true, p.nextSys(), iL(iU(1, 1), iL(reports...))))
		}
		p.send(dataFrame(c30Session, 2, 33, true, p.nextSys(), iL(iU(1, 1), iL())))
	case "constants":
		for i := 0; i < n; i++ {
			p.send(dataFrame(c30Session, 2, 15, true, p.nextSys(), iL(iL(iU(1, 3), iI(4, int64(i%5))))))
			p.send(dataFrame(c30Session, 2, 13, true, p.nextSys(), iL()))
		}
	case "programs": // uploaded under names in use
		for i := 0; i < n; i++ {
			p.send(dataFrame(c30Session, 7, 3, true, p.nextSys(), iL(iA("A"), iA(strings.Repeat("x", 100+i%10)))))
			p.send(dataFrame(c30Session, 7, 5, true, p.nextSys(), iA("A")))
		}
	case "handlers": // registered and removed
		for i := 0; i < n; i++ {
			x.p.RegisterHandler(i%128, i/128%256, func(*ast.DataMessage) (*ast.DataMessage, error) { return nil, nil })
		}
		for i := 0; i < n; i++ {
			x.p.RegisterHandler(i%128, i/128%256, nil)
		}
	case "gem":
		if x.g == nil || x.g.State() != gem.CommunicationStateCommunicating {
			break
		}
		if x.c.Kind == "equip" {
			for i := 0; i < n; i++ {
				x.g.RaiseAlarm(i%5, i%2 == 0)
				x.g.TriggerCollectionEvent(1)
			}
			p.send(dataFrame(c30Session, 1, 3, true, p.nextSys(), iL()))
			break
		}
		p.send(dataFrame(c30Session, 5, 1, false, p.nextSys(), iL(iB(1), iU(2, 1), iA("a"))))
		p.send(dataFrame(c30Session, 6, 11, true, p.nextSys(), iL(iU(4, 1), iU(4, 1), iL())))
	}
	return quietSync(p, 5*time.Second)
}

func (x *c30Run) forget() {
	x.st.mu.Lock()
	for _, p := range x.st.peers {
		p.mu.Lock()
		p.all, p.pend = nil, nil
		p.mu.Unlock()
	}
	if n := len(x.st.peers); n > 0 && x.st.peers[n-1] == x.peer {
		x.st.peers = []*Peer{x.peer}
	} else {
		x.st.peers = nil
	}
	x.st.mu.Unlock()
}

// part of c30Step: a connection and how it ends.
func (x *c30Run) connect(how string) bool {
	if how == "nobody" {
		if x.c.Active {
			x.st.unlisten()
			time.Sleep(1200 * time.Millisecond)
			if err := x.st.listen(); err != nil {
				x.r.Stop()
			}
		}
		x.peer = nil
		return true
	}
	if how == "unselected" || how == "t7" {
		p := x.st.conn(netWait)
		x.peer = nil
		if p == nil {
			x.r.Slowf("%sno connection with the enabled endpoint in %v", x.pre, netWait)
			return false
		}
		if how == "t7" {
			p.waitEnd(netWait)
		}
		p.close()
		return true
	}
	x.peer = x.st.upAnew(x.r, c30Session)
	return x.peer != nil
}

func (x *c30Run) end(how string) {
	p := x.peer
	if p == nil {
		return
	}
	switch how {
	case "reset":
		p.reset()
	case "separate":
		p.send(ctrlFrame(c30Session, 0, 0, sSeparateReq, 9))
		p.waitEnd(2 * time.Second)
		p.close()
	case "disable":
		x.offIn()
		p.close()
		x.on()
	case "extra": // a second connection to a passive endpoint
		if !x.c.Active {
			if c, err := net.DialTimeout("tcp", fmt.Sprintf("%s:%d", x.st.ip, x.st.port), time.Second); err == nil {
				c.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
				io.Copy(io.Discard, c)
				c.Close()
			}
		}
		p.close()
	default:
		p.close()
	}
	x.peer = nil
}

func (x *c30Run) communicate() {
	if x.e == nil || x.peer == nil {
		return
	}
	x.e.peer = x.peer
	x.peer.send(dataFrame(c30Session, 1, 13, true, x.peer.nextSys(), x.e.s1f13()))
	pollFor(2*time.Second, func() bool { return x.g.State() == gem.CommunicationStateCommunicating })
}

// gone waits until no goroutine of the library is left.
func gone(r *R, pre string, d time.Duration) bool {
	var left []string
	if pollFor(d, func() bool { left = libGoroutines(); time.Sleep(5 * time.Millisecond); return len(left) == 0 }) {
		return true
	}
	r.Slowf("%s%d goroutines of the library are left %v after everything ended; the first:\n%s", pre, len(left), d, left[0])
	return false
}

func runC30(r *R, c c30Case) {
	if left := libGoroutines(); len(left) > 0 { // of a case before, judged there
		pollFor(netWait, func() bool { return len(libGoroutines()) == 0 })
	}
	base := sockets()
	var wg sync.WaitGroup
	var bad atomic.Bool
	xs := make([]*c30Run, len(c.Ends))
	for i, e := range c.Ends {
		xs[i] = newC30(r, fmt.Sprintf("endpoint %d (%s, active %v): ", i, e.Kind, e.Active), e)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if !xs[i].ends() {
				bad.Store(true)
			}
		}()
	}
	wg.Wait()
	if bad.Load() || r.failed() {
		return
	}
	// all timeouts are 1 s, what depends on them has ended some time after that
	if !gone(r, "", netWait) {
		return
	}
	for _, x := range xs {
		if !x.c.Active {
			if !pollFor(2*time.Second, func() bool {
				l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", x.st.ip, x.st.port))
				if err == nil {
					l.Close()
				}
				return err == nil
			}) {
				r.Slowf("%sits port is still in use after Disable", x.pre)
				return
			}
		}
		x.st.stop()
	}
	n := 0
	if !pollFor(netWait, func() bool { n = sockets(); return n <= base }) {
		r.Slowf("%d sockets were open before and %d after all endpoints had been disabled and their peers had gone", base, n)
	}
}

func (x *c30Run) ends() bool {
	x.on()
	for _, s := range x.c.Steps {
		switch {
		case strings.HasPrefix(s.Op, "conn "):
			x.end("close")
			if !x.connect(s.Op[5:]) {
				return false
			}
		case strings.HasPrefix(s.Op, "end "):
			x.end(s.Op[4:])
		case s.Op == "talk":
			x.communicate()
		default:
			if x.peer != nil && !x.use(s.Op, s.N) {
				x.end("close")
			}
		}
		if x.r.failed() {
			return false
		}
	}
	switch x.c.Last {
	case "down":
		x.end("close")
	case "open": // requests that nobody answers
		if x.peer != nil {
			for i := 0; i < 3; i++ {
				go x.p.SendAndWait(ast.NewDataMessage("", 64, 1, 1, "H<->E", ast.NewListNode()))
			}
			x.peer.take(time.Second, isF(64, 1))
		}
	case "nobody":
		x.end("close")
		x.connect("nobody")
	}
	alive := x.peer != nil && quietSync(x.peer, 2*time.Second)
	if x.peer != nil {
		x.peer.mu.Lock()
		x.peer.silent = true
		x.peer.mu.Unlock()
	}
	if !x.offIn() {
		return false
	}
	if alive {
		x.r.NonTrivial()
		if !x.peer.waitEnd(netWait) {
			x.r.Slowf("%sits connection is still there %v after Disable", x.pre, netWait)
			return false
		}
	}
	x.r.Label("disabled while " + x.c.Last)
	return true
}

// ---------------------------------------------------------------------------

type c30Steady struct {
	End   c30End
	Use   []c30Step
	Conns int    // connections per round
	How   string // how they end
	Times int    // rounds measured
	Waits int    // for communication while there is no connection
}

// runC30Steady: rounds of the same traffic need the same memory.
func runC30Steady(r *R, c c30Steady) {
	x := newC30(r, "", c.End)
	x.on()
	work, conns := 0, 0
	round := func() bool {
		if c.Waits > 0 && x.g != nil && x.peer == nil {
			for i := 0; i < c.Waits; i++ {
				x.g.WaitForCommunicating(time.Nanosecond)
			}
			work += c.Waits
			return true
		}
		for i := 0; i < max(1, c.Conns); i++ {
			if x.peer == nil {
				if x.peer = x.st.upAnew(r, c30Session); x.peer == nil {
					return false
				}
				x.communicate()
				conns++
			}
			for _, s := range c.Use {
				if !x.use(s.Op, s.N) {
					return false
				}
				work += s.N
			}
			if c.Conns > 0 {
				x.end(c.How)
			}
			x.forget()
		}
		if x.peer == nil {
			if x.peer = x.st.upAnew(r, c30Session); x.peer == nil {
				return false
			}
			x.communicate()
		}
		x.peer.sync(r)
		x.forget()
		return !r.failed()
	}
	for i := 0; i < 2; i++ {
		if !round() {
			return
		}
	}
	settle := func() (int, uint64) {
		n := 1 << 30
		end := time.Now().Add(2500 * time.Millisecond)
		for same := 0; same < 40 && time.Now().Before(end); {
			if k := len(libGoroutines()); k < n {
				n, same = k, 0
			}
			same++
			time.Sleep(5 * time.Millisecond)
		}
		return n, heap()
	}
	g0, h0 := settle()
	work, conns = 0, 0
	for i := 0; i < c.Times; i++ {
		if !round() {
			return
		}
	}
	limit := h0 + 96<<10 + uint64(40*work) + uint64(1000*conns)
	var g1 int
	var h1 uint64
	for i := 0; i < 4; i++ {
		if g1, h1 = settle(); (g1 <= g0 || c.Waits > 0) && h1 <= limit {
			break
		}
		time.Sleep(500 * time.Millisecond)
	}
	if g1 > g0 && c.Waits == 0 { // connections come and go when it waits
		r.Slowf("%d goroutines of the library before and %d after %d further rounds of the same traffic", g0, g1, c.Times)
	}
	if h1 > limit {
		r.Slowf("%d bytes in use before and %d after %d further messages and %d connections", h0, h1, work, conns)
	}
	r.NonTrivial()
	if conns > 0 {
		r.Label("connections")
	}
	if work > 0 {
		r.Label("messages")
	}
	runtime.KeepAlive(x)
}

// ---------------------------------------------------------------------------

type c30Links struct {
	Queue   int
	Clients []c30Link
	Stop    string // how the server ends
}

type c30Link struct {
	Dial bool   // by Dial, otherwise a raw connection
	End  string // client, server, both, idle
	Put  int    // put into channels so many times
	Msgs int
	Bad  bool // no codec can be made
	Late bool // its codec is made when the server has been stopped
}

// runC30Links: servers, sessions, channels and managers.
func runC30Links(r *R, c c30Links) {
	base := sockets()
	var mu sync.Mutex
	var n, finalized atomic.Int32
	var srvSessions []*link.Session
	bad, late := false, false
	stopped := make(chan struct{})
	letGo := sync.OnceFunc(func() { close(stopped) })
	r.Cleanup(letGo)
	var waiting atomic.Int32
	var kept []any
	proto := link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
		mu.Lock()
		b, l := bad, late
		mu.Unlock()
		if l {
			waiting.Add(1)
			<-stopped
		}
		if b {
			mu.Lock()
			kept = append(kept, rw) // not closed by the garbage collector
			mu.Unlock()
			return nil, io.ErrUnexpectedEOF
		}
		return codec.Bufio(codec.FixLen(codec.Byte(), 2, binary.BigEndian, 4096, 4096), 512, 512).NewCodec(rw)
	})
	channels := []*link.Channel{link.NewChannel(), link.NewChannel()}
	srv, err := link.Listen("tcp", loopback()+":0", proto, c.Queue, link.HandlerFunc(func(s *link.Session) {
		n.Add(1)
		runtime.SetFinalizer(s, func(*link.Session) { finalized.Add(1) })
		mu.Lock()
		srvSessions = append(srvSessions, s)
		mu.Unlock()
		for {
			m, err := s.Receive()
			if err != nil {
				return
			}
			s.Send(m)
		}
	}))
	if err != nil {
		r.Stop()
	}
	served := make(chan error, 1)
	go func() { served <- srv.Serve() }()
	stop := sync.OnceFunc(func() { srv.Stop() })
	r.Cleanup(stop)
	addr := srv.Listener().Addr().String()
	var raws []net.Conn
	var dialed []*link.Session
	var lates []net.Conn
	want := int32(0)
	for i, q := range c.Clients {
		if q.Late {
			mu.Lock()
			late = true
			mu.Unlock()
			raw, err := net.Dial("tcp", addr)
			if err != nil {
				r.Stop()
			}
			lates = append(lates, raw)
			if !pollFor(netWait, func() bool { return int(waiting.Load()) == len(lates) }) {
				r.Slowf("client %d: no codec was made for its connection in %v", i, netWait)
				return
			}
			mu.Lock()
			late = false
			mu.Unlock()
			continue
		}
		if q.Bad {
			mu.Lock()
			bad = true
			mu.Unlock()
			if s, err := link.Dial("tcp", addr, proto, c.Queue); err == nil {
				r.Failf("client %d: Dial without a codec succeeded: %v", i, s)
			}
			time.Sleep(10 * time.Millisecond)
			mu.Lock()
			bad = false
			mu.Unlock()
			continue
		}
		var s *link.Session
		var raw net.Conn
		if q.Dial {
			s, err = link.Dial("tcp", addr, proto, c.Queue)
		} else {
			raw, err = net.Dial("tcp", addr)
		}
		if err != nil {
			r.Stop()
		}
		want++
		if !pollFor(netWait, func() bool { mu.Lock(); defer mu.Unlock(); return len(srvSessions) >= int(want) }) {
			r.Slowf("client %d: its connection was not handled in %v", i, netWait)
			return
		}
		mu.Lock()
		peer := srvSessions[len(srvSessions)-1]
		mu.Unlock()
		if s != nil {
			n.Add(1)
			runtime.SetFinalizer(s, func(*link.Session) { finalized.Add(1) })
			for k := 0; k < q.Msgs; k++ {
				s.Send([]byte{byte(k)})
				s.Receive()
			}
		}
		for k := 0; k < q.Put; k++ {
			channels[k%2].Put(k+100*i, peer)
			if s != nil && k%3 == 0 {
				channels[1-k%2].Put(-k-100*i, s)
			}
			if k%4 == 3 {
				channels[k%2].Remove(k + 100*i)
			}
		}
		switch q.End {
		case "client":
			if s != nil {
				s.Close()
			} else {
				raw.Close()
			}
		case "server":
			peer.Close()
		case "both":
			go peer.Close()
			if s != nil {
				s.Close()
			} else {
				raw.Close()
			}
		}
		if raw != nil {
			raws = append(raws, raw)
		}
		if s != nil {
			dialed = append(dialed, s)
		}
		peer = nil
	}
	if c.Stop == "clients first" {
		for _, k := range raws {
			k.Close()
		}
		for _, s := range dialed {
			s.Close()
		}
	}
	done := make(chan struct{})
	go func() { stop(); close(done) }()
	select {
	case <-done:
	case <-time.After(netWait):
		r.Slowf("Stop has not returned in %v", netWait)
		return
	}
	letGo()
	for i, k := range lates { // the server closes these
		k.SetReadDeadline(time.Now().Add(netWait))
		if _, err := k.Read(make([]byte, 1)); errors.Is(err, os.ErrDeadlineExceeded) {
			r.Slowf("a connection (%d) whose codec was made after Stop is still open %v later", i, netWait)
		}
		k.Close()
	}
	if r.failed() {
		return
	}
	for _, k := range raws {
		k.Close()
	}
	for _, s := range dialed {
		s.Close()
	}
	select {
	case <-served:
	case <-time.After(netWait):
		r.Slowf("Serve has not returned %v after Stop", netWait)
		return
	}
	dialed, raws = nil, nil
	if !gone(r, "", netWait) {
		return
	}
	mu.Lock()
	srvSessions = nil
	mu.Unlock()
	k := 0
	if !pollFor(netWait, func() bool { k = sockets(); return k <= base }) {
		r.Slowf("%d sockets were open before and %d after the server was stopped and all sessions were closed", base, k)
		return
	}
	if !pollFor(netWait, func() bool { runtime.GC(); return finalized.Load() >= n.Load() }) {
		r.Slowf("%d of %d closed sessions are still held by the server or a channel", n.Load()-finalized.Load(), n.Load())
	}
	for i, ch := range channels {
		if ch.Len() != 0 {
			r.Failf("channel %d still has %d sessions", i, ch.Len())
		}
	}
	if n.Load() > 0 {
		r.NonTrivial()
	}
	runtime.KeepAlive(srv)
	runtime.KeepAlive(kept)
	runtime.KeepAlive(channels)
}

// ---------------------------------------------------------------------------

type c30Keys struct {
	Sessions int
	Ops      []c30Key
	Times    int
}

type c30Key struct {
	Op             string
	Chan, Key, Ses int
}

// runC30Keys: channels and sessions that live on.
func runC30Keys(r *R, c c30Keys) {
	var ses []*link.Session
	for i := 0; i < c.Sessions; i++ {
		ses = append(ses, link.NewSession(nullCodec{}, 0))
	}
	chans := []*link.Channel{link.NewChannel(), link.NewChannel()}
	round := func() {
		for _, o := range c.Ops {
			ch := chans[o.Chan]
			switch o.Op {
			case "put":
				ch.Put(o.Key, ses[o.Ses%len(ses)])
			case "remove":
				ch.Remove(o.Key)
			case "close":
				ch.Close()
			case "take":
				ch.FetchAndRemove(func(*link.Session) {})
			case "callback":
				ses[o.Ses%len(ses)].AddCloseCallback(o.Chan, o.Key, func() {})
				ses[o.Ses%len(ses)].RemoveCloseCallback(o.Chan, o.Key)
			}
		}
		for _, ch := range chans {
			ch.Close()
		}
	}
	round()
	h0 := heap()
	for i := 0; i < c.Times; i++ {
		round()
	}
	h1 := heap()
	if limit := h0 + 64<<10; h1 > limit {
		h1 = heap()
		if h1 > limit {
			r.Failf("%d bytes in use before and %d after the same operations on channels had been repeated %d times and all channels emptied", h0, h1, c.Times)
		}
	}
	var freed atomic.Int32
	for _, ch := range chans {
		runtime.SetFinalizer(ch, func(*link.Channel) { freed.Add(1) })
	}
	n := int32(len(chans))
	chans = nil
	if !pollFor(netWait, func() bool { runtime.GC(); return freed.Load() == n }) {
		r.Slowf("%d of %d emptied channels are still held by the sessions that were in them", n-freed.Load(), n)
	}
	for _, s := range ses {
		runtime.KeepAlive(s)
	}
	for _, o := range c.Ops {
		if o.Op == "put" {
			r.NonTrivial()
			break
		}
	}
}

type nullCodec struct{}

func (nullCodec) Receive() (any, error) { select {} }
func (nullCodec) Send(any) error        { return nil }
func (nullCodec) Close() error          { return nil }

var c30Uses = []string{"answered", "twice", "unanswered", "late", "unasked", "primaries", "sends", "linktests", "selects", "gem", "reports", "constants", "programs", "handlers"}

func genC30End(t *rapid.T) c30End {
	return c30End{Kind: pick(t, "kind", "hsms", "equip", "host"), Active: coin(t, "active"), Link: rng(t, "linktest", 0, 1), T5: rng(t, "t5", 0, 1)}
}

func init() {
	shards("C30", 16, 16)
	register("C30", "ends", "batches of 4 endpoints (HSMS, GEM equipment, GEM host, both roles) with a history of connections (none, unselected, refused, ended by T7, lost, reset, separated, doubled), requests answered, doubly, late or not, primaries, linktests, Disable and Enable, then disabled in some state: connections end, goroutines of the library and sockets are gone, the port is free; non-trivial: disabled with a connection",
		opts{quick: budget{3, 20}, thorough: budget{150, 300}},
		func(t *rapid.T) c30Case {
			var c c30Case
			for i := 0; i < 4; i++ {
				e := genC30End(t)
				e.Last = pick(t, "last", "as it is", "as it is", "down", "open", "nobody")
				for n := rng(t, "steps", 0, 10); n > 0; n-- {
					switch rng(t, "what", 0, 9) {
					case 0, 1, 2:
						e.Steps = append(e.Steps, c30Step{"conn " + pick(t, "conn", "selected", "selected", "selected", "unselected", "t7", "nobody"), 0})
					case 3, 4:
						e.Steps = append(e.Steps, c30Step{"end " + pick(t, "end", "close", "reset", "separate", "disable", "extra"), 0})
					case 5:
						e.Steps = append(e.Steps, c30Step{"talk", 0})
					default:
						e.Steps = append(e.Steps, c30Step{pick(t, "use", c30Uses...), rng(t, "n", 1, 20)})
					}
				}
				if coin(t, "up") {
					e.Steps = append(e.Steps, c30Step{"conn selected", 0}, c30Step{"talk", 0})
				}
				c.Ends = append(c.Ends, e)
			}
			return c
		}, runC30)
	register("C30", "steady", "one endpoint (HSMS, GEM equipment, GEM host, both roles) with rounds of the same traffic (requests answered, doubly, late or not, replies to nothing, primaries, events and alarms, control messages, connections lost and made again): goroutines of the library and memory in use after some rounds compared with those after the first two; non-trivial: measured",
		opts{quick: budget{3, 18}, thorough: budget{100, 300}},
		func(t *rapid.T) c30Steady {
			c := c30Steady{End: genC30End(t), Times: 3, How: pick(t, "how", "close", "reset", "separate", "extra", "disable", "disable")}
			c.End.Link = 0
			if coin(t, "connections") {
				c.Conns = rng(t, "conns", 10, 30)
				if c.End.Active || c.How == "extra" {
					c.Conns = 3
				}
				if c.How == "disable" {
					c.Conns = min(c.Conns, 10)
				}
				if c.End.Kind != "hsms" && oneIn(t, "waits", 4) {
					c.Waits = rng(t, "waits", 1000, 2000)
				}
				for n := rng(t, "uses", 0, 2); n > 0; n-- {
					u := pick(t, "use", "answered", "unasked", "primaries", "gem", "reports")
					c.Use = append(c.Use, c30Step{u, rng(t, "n", 1, 10)})
				}
			} else {
				for n := rng(t, "uses", 1, 3); n > 0; n-- {
					u := c30Step{pick(t, "use", c30Uses...), rng(t, "n", 200, 1000)}
					if u.Op == "reports" {
						u.N /= 4
					}
					c.Use = append(c.Use, u)
				}
			}
			return c
		}, runC30Steady)
	register("C30", "links", "a link server with up to 12 clients (Dial, raw connections, connections without a codec), sessions put into channels, closed from either side, both or neither, then the server stopped: goroutines and sockets gone, closed sessions held by neither server nor channel; non-trivial: a session was made",
		opts{quick: budget{60, 8}, thorough: budget{3000, 100}},
		func(t *rapid.T) c30Links {
			c := c30Links{Queue: rng(t, "queue", 0, 3), Stop: pick(t, "stop", "clients first", "server first")}
			for n := rng(t, "clients", 1, 12); n > 0; n-- {
				c.Clients = append(c.Clients, c30Link{Dial: coin(t, "dial"), End: pick(t, "end", "client", "server", "both", "idle"), Put: rng(t, "put", 0, 6), Msgs: rng(t, "msgs", 0, 4), Bad: oneIn(t, "bad", 8), Late: oneIn(t, "late", 8)})
			}
			return c
		}, runC30Links)
	register("C30", "keys", "sessions that stay open, put into two channels under a few keys, replaced, removed, taken out, channels emptied, over and over: memory in use bounded, emptied channels not held; non-trivial: something was put",
		opts{quick: budget{150, 8}, thorough: budget{5000, 100}},
		func(t *rapid.T) c30Keys {
			c := c30Keys{Sessions: rng(t, "sessions", 1, 4), Times: 1500}
			for n := rng(t, "ops", 4, 30); n > 0; n-- {
				c.Ops = append(c.Ops, c30Key{pick(t, "op", "put", "put", "put", "remove", "take", "close", "callback"), rng(t, "chan", 0, 1), rng(t, "key", 0, 3), rng(t, "session", 0, 3)})
			}
			return c
		}, runC30Keys)
}
