package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"
)

// C08, parts sending and listen: what a session does with the messages it is
// given, and how listening and dialling make and lose connections.

// ---------------------------------------------------------------------------
// sending
// ---------------------------------------------------------------------------

type c08sOp struct {
	Op string // send, hold, release, fail, close, receive, end
	N  int
}

type c08sCase struct {
	Queue    int
	Clear    bool // the codec wants what is left in the queue
	ID       uint64
	CloseErr bool
	Callers  int  // goroutines that send at the same time
	Settle   bool // wait after every operation
	Ops      []c08sOp
}

var errBroken, errEnd, errClose = errors.New("broken pipe"), errors.New("end of stream"), errors.New("close failed")

// sendCodec records what a session does to it.
type sendCodec struct {
	mu       sync.Mutex
	cond     *sync.Cond
	begun    []int // messages of which Send has been called
	sent     []int // and returned nil
	failed   []int
	clear    []int
	closes   int
	hold     bool
	fail     bool
	after    bool // Send was called after it had failed
	in       chan interface{}
	closeErr error
	cleared  int
}

func newSendCodec() *sendCodec {
	c := &sendCodec{in: make(chan interface{}, 100)}
	c.cond = sync.NewCond(&c.mu)
	return c
}
func (c *sendCodec) Receive() (interface{}, error) {
	m, ok := <-c.in
	if e, is := m.(error); is {
		return nil, e
	}
	if !ok {
		return nil, io.EOF
	}
	return m, nil
}
func (c *sendCodec) Send(m interface{}) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.begun = append(c.begun, m.(int))
	if len(c.failed) > 0 {
		c.after = true
	}
	for c.hold && c.closes == 0 {
		c.cond.Wait()
	}
	if c.fail || c.closes > 0 {
		c.failed = append(c.failed, m.(int))
		return errBroken
	}
	c.sent = append(c.sent, m.(int))
	return nil
}
func (c *sendCodec) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	if c.closes == 1 {
		close(c.in)
	}
	c.cond.Broadcast()
	return c.closeErr
}

type clearCodec struct{ *sendCodec }

func (c clearCodec) ClearSendChan(ch <-chan interface{}) {
	c.mu.Lock()
	c.cleared++
	c.mu.Unlock()
	for m := range ch {
		c.mu.Lock()
		c.clear = append(c.clear, m.(int))
		c.mu.Unlock()
	}
}

func runC08Sending(r *R, c c08sCase) {
	cd := newSendCodec()
	var lc link.Codec = cd
	if c.Clear {
		lc = clearCodec{cd}
	}
	if c.CloseErr {
		cd.closeErr = errClose
	}
	var s *link.Session
	if c.ID > 0 {
		s = link.NewSessionWithId(lc, c.Queue, c.ID)
		if s.ID() != c.ID {
			r.Failf("a session made with id %d has id %d", c.ID, s.ID())
		}
	} else {
		s = link.NewSession(lc, c.Queue)
		if o := link.NewSession(newSendCodec(), 0); o.ID() == s.ID() {
			r.Failf("two sessions have the id %d", o.ID())
		}
	}
	if s.Codec() != lc {
		r.Failf("Codec() is not the codec the session was made with")
	}
	w := &c08World{r: r}
	r.Cleanup(func() {
		go func() {
			cd.mu.Lock()
			cd.hold = false
			cd.cond.Broadcast()
			cd.mu.Unlock()
			s.Close()
		}()
	})
	next, closed, blocked := 0, false, false
	perCaller := map[int]int{} // message -> caller
	var accepted []int         // in the order of one caller
	refused := map[int]error{}
	var amu sync.Mutex
	send := func(m int) error {
		err := s.Send(m)
		amu.Lock()
		if err == nil {
			accepted = append(accepted, m)
		} else {
			refused[m] = err
		}
		amu.Unlock()
		return err
	}
	// everything accepted has been taken from the queue, as far as the codec lets it
	settled := func() string {
		amu.Lock()
		n := len(accepted)
		amu.Unlock()
		cd.mu.Lock()
		defer cd.mu.Unlock()
		if s.IsClosed() {
			return ""
		}
		if cd.hold {
			if len(cd.begun) < min(n, len(cd.sent)+len(cd.failed)+1) {
				return fmt.Sprintf("%d messages accepted, %d given to the codec", n, len(cd.begun))
			}
			return ""
		}
		if len(cd.sent)+len(cd.failed) < n {
			return fmt.Sprintf("%d messages accepted, %d sent", n, len(cd.sent)+len(cd.failed))
		}
		return ""
	}
	held := false
	failing := false
	for _, op := range c.Ops {
		switch op.Op {
		case "send":
			if held && c.Queue == 0 {
				// the caller would wait for the codec
				break
			}
			if c.Callers == 1 {
				for k := 0; k < op.N; k++ {
					next++
					amu.Lock()
					pending := len(accepted)
					amu.Unlock()
					cd.mu.Lock()
					pending -= len(cd.begun)
					cd.mu.Unlock()
					var err error
					w.within("Send", func() { err = send(next) })
					switch {
					case closed:
						if err != link.SessionClosedError {
							r.Failf("Send on a closed session: %v", err)
						}
					case c.Queue == 0:
						want := error(nil)
						if failing {
							want, closed = errBroken, true
						}
						if err != want {
							r.Failf("Send without a queue: %v instead of %v", err, want)
						}
					case c.Settle && held && !failing:
						want := error(nil)
						if pending >= c.Queue {
							want, closed, blocked = link.SessionBlockedError, true, true
						}
						if err != want {
							r.Failf("Send with %d of %d places of the queue in use: %v instead of %v", pending, c.Queue, err, want)
						}
					case err == link.SessionBlockedError:
						// a full queue; a message at least was not taken before
						if pending < c.Queue {
							r.Failf("Send: %v, but no more than %d of %d places of the queue were in use", err, pending, c.Queue)
						}
						closed, blocked = true, true
					case err == link.SessionClosedError && failing:
						closed = true
					case err != nil:
						r.Failf("Send: %v", err)
					}
					if c.Settle && !r.failed() {
						eventually(r, 10*time.Second, settled)
					}
				}
			} else {
				var wg sync.WaitGroup
				base := next
				next += c.Callers * op.N
				for g := 0; g < c.Callers; g++ {
					for k := 0; k < op.N; k++ {
						perCaller[base+g*op.N+k+1] = g
					}
					wg.Add(1)
					go func(g int) {
						defer wg.Done()
						for k := 0; k < op.N; k++ {
							send(base + g*op.N + k + 1)
						}
					}(g)
				}
				w.within("Send of several goroutines", wg.Wait)
				closed = s.IsClosed()
				if closed && !failing {
					blocked = true
				}
			}
		case "hold", "release":
			held = op.Op == "hold"
			cd.mu.Lock()
			cd.hold = held
			cd.cond.Broadcast()
			cd.mu.Unlock()
			if !held && c.Settle {
				eventually(r, 10*time.Second, settled)
			}
		case "fail":
			failing = true
			cd.mu.Lock()
			cd.fail = true
			cd.mu.Unlock()
		case "close":
			var err error
			w.within("Close", func() { err = s.Close() })
			want := cd.closeErr
			if closed {
				want = link.SessionClosedError
			}
			if err != want && !(failing && err == link.SessionClosedError) {
				r.Failf("Close (closed before: %v): %v instead of %v", closed, err, want)
			}
			closed = true
		case "receive":
			if s.IsClosed() || closed || failing {
				break
			}
			cd.in <- 1000 + op.N
			var m interface{}
			var err error
			w.within("Receive", func() { m, err = s.Receive() })
			if err != nil || m != 1000+op.N {
				r.Failf("Receive gave %v, %v instead of %d", m, err, 1000+op.N)
			}
		case "end":
			if s.IsClosed() || closed || failing {
				break
			}
			cd.in <- errEnd
			var err error
			w.within("Receive", func() { _, err = s.Receive() })
			if err != errEnd {
				r.Failf("Receive at the end of the stream: %v", err)
			}
			if !s.IsClosed() {
				r.Failf("the session is open although Receive has failed")
			}
			closed = true
		}
		if r.failed() {
			return
		}
		if closed && !s.IsClosed() {
			r.Failf("the session is not closed after %s", op.Op)
			return
		}
	}
	if !closed && !held {
		if !eventually(r, 10*time.Second, settled) {
			return
		}
	}
	if failing && len(accepted) > 0 {
		cd.mu.Lock()
		n := len(cd.failed)
		cd.mu.Unlock()
		if n > 0 {
			eventually(r, 10*time.Second, func() string {
				if !s.IsClosed() {
					return "the session is open although a message could not be sent"
				}
				return ""
			})
		}
	}
	w.within("Close", func() { s.Close() })
	if err := s.Send(0); err != link.SessionClosedError {
		r.Failf("Send on a closed session: %v", err)
	}
	if err := s.Close(); err != link.SessionClosedError {
		r.Failf("Close of a closed session: %v", err)
	}
	// when it has settled
	var judge func() string
	judge = func() string {
		cd.mu.Lock()
		defer cd.mu.Unlock()
		if cd.closes != 1 {
			return fmt.Sprintf("the codec was closed %d times", cd.closes)
		}
		if c.Clear && c.Queue > 0 && len(cd.sent)+len(cd.failed)+len(cd.clear) < len(accepted) {
			return fmt.Sprintf("%d messages were accepted, %d sent, %d could not be sent and %d were given to ClearSendChan", len(accepted), len(cd.sent), len(cd.failed), len(cd.clear))
		}
		if c.Clear && c.Queue > 0 && cd.cleared != 1 {
			return fmt.Sprintf("ClearSendChan was called %d times", cd.cleared)
		}
		if len(cd.begun) != len(cd.sent)+len(cd.failed) {
			return "a Send has not returned"
		}
		return ""
	}
	if !eventually(r, 10*time.Second, judge) {
		return
	}
	cd.mu.Lock()
	defer cd.mu.Unlock()
	count := map[int]int{}
	for _, l := range [][]int{cd.begun, cd.clear} {
		for _, m := range l {
			count[m]++
		}
	}
	for m, n := range count {
		if n > 1 {
			r.Failf("message %d was sent %d times", m, n)
		}
		if _, ok := refused[m]; ok && refused[m] != errBroken {
			r.Failf("message %d was sent although Send refused it: %v", m, refused[m])
		}
	}
	if c.Queue == 0 {
		if len(cd.sent) != len(accepted) {
			r.Failf("%d messages were accepted, %d sent", len(accepted), len(cd.sent))
		}
	} else if cd.after && !closed {
		r.Failf("the session went on sending after a message could not be sent")
	}
	// the order of each caller is kept
	last := map[int]int{}
	for _, l := range [][]int{cd.begun, cd.clear} {
		for g := range last {
			delete(last, g)
		}
		for _, m := range l {
			if g := perCaller[m]; m < last[g] {
				r.Failf("message %d of a caller was sent after message %d", m, last[g])
			} else {
				last[g] = m
			}
		}
	}
	if len(accepted) > 0 {
		r.NonTrivial()
	}
	if len(cd.clear) > 0 {
		r.Label("left in the queue")
	}
	if blocked {
		r.Label("queue full")
	}
	if failing {
		r.Label("failure")
	}
}

// ---------------------------------------------------------------------------
// listen
// ---------------------------------------------------------------------------

type c08lStep struct {
	Kind string // conn, bad (no codec for it), temp
}

type c08lCase struct {
	Mode  string // serve, single, accept
	Steps []c08lStep
	End   string // closed, error, stop
	Queue int
	Dials []string // ok, bad, refused, timeout variants
}

type tempErr struct{}

func (tempErr) Error() string   { return "too many open files" }
func (tempErr) Timeout() bool   { return false }
func (tempErr) Temporary() bool { return true }

var errListen = errors.New("listener failed")
var errNoCodec = errors.New("no codec")

type countConn struct {
	net.Conn
	closes atomic.Int32
	bad    bool
}

func (c *countConn) Close() error { c.closes.Add(1); return c.Conn.Close() }

type scriptListener struct {
	mu     sync.Mutex
	steps  []func() (net.Conn, error)
	closed chan struct{}
	once   sync.Once
	closes atomic.Int32
	calls  atomic.Int32
}

func (l *scriptListener) Accept() (net.Conn, error) {
	l.calls.Add(1)
	l.mu.Lock()
	if len(l.steps) > 0 {
		f := l.steps[0]
		l.steps = l.steps[1:]
		l.mu.Unlock()
		return f()
	}
	l.mu.Unlock()
	<-l.closed
	return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
}
func (l *scriptListener) Close() error {
	l.closes.Add(1)
	l.once.Do(func() { close(l.closed) })
	return nil
}
func (l *scriptListener) Addr() net.Addr { return &net.TCPAddr{} }

func runC08Listen(r *R, c c08lCase) {
	l := &scriptListener{closed: make(chan struct{})}
	var conns []*countConn
	var peers []net.Conn
	for _, s := range c.Steps {
		if s.Kind == "temp" {
			l.steps = append(l.steps, func() (net.Conn, error) { return nil, tempErr{} })
			continue
		}
		a, b := net.Pipe()
		k := &countConn{Conn: a, bad: s.Kind == "bad"}
		conns, peers = append(conns, k), append(peers, b)
		l.steps = append(l.steps, func() (net.Conn, error) { return k, nil })
	}
	wantErr := error(io.EOF)
	switch c.End {
	case "error":
		l.steps = append(l.steps, func() (net.Conn, error) { return nil, errListen })
		wantErr = errListen
	case "closed":
		l.steps = append(l.steps, func() (net.Conn, error) { return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed} })
	}
	r.Cleanup(func() {
		l.Close()
		for _, p := range peers {
			p.Close()
		}
	})
	w := &c08World{r: r}
	if c.Mode == "accept" {
		for i, k := range conns {
			var got net.Conn
			var err error
			w.within("Accept", func() { got, err = link.Accept(l) })
			if err != nil || got != net.Conn(k) {
				r.Fatalf("Accept %d gave %v, %v instead of connection %d of the listener", i, got, err, i)
			}
		}
		if c.End != "stop" {
			var got net.Conn
			var err error
			w.within("Accept", func() { got, err = link.Accept(l) })
			if got != nil || err != wantErr {
				r.Failf("Accept of a listener that has ended gave %v, %v instead of %v", got, err, wantErr)
			}
			r.NonTrivial()
		}
		return
	}
	var mu sync.Mutex
	handled := map[*countConn]int{}
	sess := map[*countConn]*link.Session{}
	proto := link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
		if rw.(*countConn).bad {
			return nil, errNoCodec
		}
		return codec.Byte().NewCodec(rw)
	})
	var srv *link.Server
	var once sync.Once
	found := true
	srv = link.NewServer(l, link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
		cc, err := proto(rw)
		if err != nil {
			return nil, err
		}
		return connCodec{cc, rw.(*countConn)}, nil
	}), c.Queue, link.HandlerFunc(func(s *link.Session) {
		k := s.Codec().(connCodec).k
		mu.Lock()
		handled[k]++
		sess[k] = s
		if srv.GetSession(s.ID()) != s && !s.IsClosed() {
			found = false
		}
		mu.Unlock()
		for {
			if _, err := s.Receive(); err != nil {
				return
			}
		}
	}))
	if srv.Listener() != net.Listener(l) {
		r.Failf("Listener() is not the server's listener")
	}
	stop := func() { once.Do(func() { srv.Stop() }) }
	r.Cleanup(func() { go stop() })
	if c.Mode == "single" {
		// one call per connection
		for i, k := range conns {
			done := make(chan error, 1)
			go func() { done <- srv.SingleServe() }()
			if k.bad {
				var err error
				w.within("SingleServe", func() { err = <-done })
				if err != errNoCodec {
					r.Failf("SingleServe of a connection without a codec: %v", err)
				}
				if k.closes.Load() == 0 {
					r.Failf("connection %d, for which there is no codec, stays open", i)
				}
				continue
			}
			eventually(r, 10*time.Second, func() string {
				mu.Lock()
				defer mu.Unlock()
				if handled[k] != 1 {
					return fmt.Sprintf("connection %d was handled %d times", i, handled[k])
				}
				return ""
			})
			if r.failed() {
				return
			}
			select {
			case err := <-done:
				r.Failf("SingleServe returned %v before its handler", err)
				return
			default:
			}
			mu.Lock()
			if !found {
				r.Failf("the session of the connection SingleServe handles is not found by the server")
			}
			mu.Unlock()
			if c.End == "stop" && i == len(conns)-1 {
				// the peer stays: it is Stop that ends the session
				w.within("Stop", stop)
				if k.closes.Load() == 0 {
					r.Failf("the connection of a session of SingleServe is open after Stop")
				}
				r.Label("stopped while handled")
			} else {
				peers[i].Close()
			}
			var err error
			w.within("SingleServe", func() { err = <-done })
			if err != nil {
				r.Failf("SingleServe: %v", err)
			}
			r.NonTrivial()
		}
		if c.End != "stop" {
			var err error
			w.within("SingleServe", func() { err = srv.SingleServe() })
			if err != wantErr {
				r.Failf("SingleServe of a listener that has ended: %v instead of %v", err, wantErr)
			}
		}
		w.within("Stop", stop)
		return
	}
	served := make(chan error, 1)
	go func() { served <- srv.Serve() }()
	all := func() string {
		mu.Lock()
		defer mu.Unlock()
		for i, k := range conns {
			want := 1
			if k.bad {
				want = 0
				if k.closes.Load() == 0 {
					return fmt.Sprintf("connection %d, for which there is no codec, stays open", i)
				}
			}
			if handled[k] != want {
				return fmt.Sprintf("connection %d was handled %d times instead of %d", i, handled[k], want)
			}
		}
		return ""
	}
	if !eventually(r, 15*time.Second, all) {
		return
	}
	if !found {
		r.Failf("the handler's session is not found by the server")
	}
	if c.End != "stop" {
		var err error
		w.within("Serve", func() { err = <-served })
		if err != wantErr {
			r.Failf("Serve returned %v instead of %v", err, wantErr)
		}
	} else {
		select {
		case err := <-served:
			r.Failf("Serve returned %v although the listener was not closed", err)
			return
		default:
		}
	}
	mu.Lock()
	for k, s := range sess {
		if s.IsClosed() || k.closes.Load() != 0 {
			r.Failf("a session was closed before Stop")
		}
	}
	mu.Unlock()
	w.within("Stop", stop)
	if l.closes.Load() == 0 {
		r.Failf("the listener is open after Stop")
	}
	if c.End == "stop" {
		var err error
		w.within("Serve", func() { err = <-served })
		if err != io.EOF {
			r.Failf("Serve of a stopped server returned %v", err)
		}
	}
	mu.Lock()
	for k, s := range sess {
		if !s.IsClosed() || k.closes.Load() == 0 {
			r.Failf("a session or its connection is open after Stop")
		}
	}
	mu.Unlock()
	if s := all(); s != "" {
		r.Failf("after Stop: %s", s)
	}
	r.NonTrivial()
}

type connCodec struct {
	link.Codec
	k *countConn
}

// ---------------------------------------------------------------------------
// dial
// ---------------------------------------------------------------------------

func runC08Dial(r *R, c c08lCase) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Stop()
	}
	r.Cleanup(func() { l.Close() })
	addr := l.Addr().String()
	free, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Stop()
	}
	nobody := free.Addr().String()
	free.Close()
	for i, d := range c.Dials {
		proto := link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
			if d[0] == 'b' {
				return nil, errNoCodec
			}
			return codec.Byte().NewCodec(rw)
		})
		to := addr
		if d[0] == 'r' {
			to = nobody
		}
		var s *link.Session
		if d[len(d)-1] == 't' {
			s, err = link.DialTimeout("tcp", to, 10*time.Second, proto, c.Queue)
		} else {
			s, err = link.Dial("tcp", to, proto, c.Queue)
		}
		if d[0] == 'r' {
			if err == nil || s != nil {
				// somebody else may listen there by now
				r.Label("address in use")
				s.Close()
			}
			continue
		}
		l.(*net.TCPListener).SetDeadline(time.Now().Add(10 * time.Second))
		k, aerr := l.Accept()
		if aerr != nil {
			r.SlowFatalf("dial %d (%s) made no connection: %v (%v)", i, d, err, aerr)
		}
		r.Cleanup(func() { k.Close() })
		k.SetDeadline(time.Now().Add(10 * time.Second))
		one := make([]byte, 3)
		if d[0] == 'b' {
			if err != errNoCodec || s != nil {
				r.Failf("dialling without a codec gave %v, %v", s, err)
			}
			if _, err := k.Read(one); err != io.EOF {
				r.Failf("a connection for which there is no codec stays open: %v", err)
			}
			continue
		}
		if err != nil || s == nil {
			r.Fatalf("dial %d: %v, %v", i, s, err)
		}
		if err := s.Send([]byte{1, 2, 3}); err != nil {
			r.Failf("Send: %v", err)
		}
		if _, err := io.ReadFull(k, one); err != nil || string(one) != "\x01\x02\x03" {
			r.Slowf("sent 1 2 3, the other side read % x, %v", one, err)
		}
		s.Close()
		if _, err := k.Read(one); err != io.EOF {
			r.Failf("the connection of a closed session is open: %v", err)
		}
		r.NonTrivial()
	}
}

func init() {
	register("C08", "sending", "a session with or without a send queue over a scripted codec: up to 20 operations (messages sent by 1-3 goroutines, the codec held up, released, failing, closing, received messages, end of the stream); what the codec was given against what Send accepted, in order, once, and not after the end; the errors returned; the codec closed once; with ClearSendChan everything accepted is either sent or cleared; non-trivial: a message was accepted",
		opts{quick: budget{4000, 10}, thorough: budget{150000, 100}},
		func(t *rapid.T) c08sCase {
			c := c08sCase{Queue: rng(t, "queue", 0, 4), Clear: !oneIn(t, "clear", 3), CloseErr: oneIn(t, "cerr", 5), Callers: 1, Settle: !oneIn(t, "settle", 3)}
			if oneIn(t, "id", 3) {
				c.ID = uint64(rng(t, "idv", 1, 1<<30))
			}
			if oneIn(t, "callers", 3) {
				c.Callers = rng(t, "n", 2, 3)
			}
			for i, n := 0, rng(t, "ops", 1, 20); i < n; i++ {
				op := c08sOp{Op: pick(t, "op", "send", "send", "send", "send", "hold", "release", "receive", "fail", "close", "end"), N: rng(t, "k", 1, 5)}
				if (op.Op == "fail" || op.Op == "close" || op.Op == "end") && !oneIn(t, "not", 3) {
					op.Op = "send"
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runC08Sending)
	register("C08", "listen", "a link.Server (Serve, SingleServe) or Accept on a scripted listener that gives connections, some of which no codec can be made for, temporary errors, and ends by an error, by being closed or by Stop: every connection is handled once or closed, the errors returned, sessions found, everything closed after Stop; non-trivial: Serve, or a connection handled",
		opts{quick: budget{150, 12}, thorough: budget{5000, 60}},
		func(t *rapid.T) c08lCase {
			c := c08lCase{Mode: pick(t, "mode", "serve", "serve", "single", "accept"), End: pick(t, "end", "closed", "error", "stop"), Queue: rng(t, "queue", 0, 2)}
			temps, most := 0, 4
			if oneIn(t, "many", 30) {
				for most = rng(t, "most", 5, 8); temps < most; temps++ {
					c.Steps = append(c.Steps, c08lStep{"temp"})
				}
			}
			for i, n := 0, rng(t, "steps", 0, 8); i < n; i++ {
				k := pick(t, "kind", "conn", "conn", "bad", "temp")
				if k == "temp" {
					if temps++; temps > most {
						k = "conn"
					}
				}
				c.Steps = append(c.Steps, c08lStep{k})
			}
			return c
		}, runC08Listen, c08lCase{Mode: "serve", End: "stop", Steps: append(slices.Repeat([]c08lStep{{"temp"}}, 10), c08lStep{"conn"}, c08lStep{"bad"})})
	register("C08", "dial", "Dial and DialTimeout to a listener, to nobody, and with a protocol that makes no codec: session or error, bytes sent, and no connection left open; non-trivial: a session was made",
		opts{quick: budget{60, 6}, thorough: budget{3000, 30}},
		func(t *rapid.T) c08lCase {
			c := c08lCase{Queue: rng(t, "queue", 0, 2)}
			for i, n := 0, rng(t, "dials", 1, 6); i < n; i++ {
				c.Dials = append(c.Dials, pick(t, "d", "ok", "okt", "bad", "badt", "ref", "reft"))
			}
			return c
		}, runC08Dial)
}
