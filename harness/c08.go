package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"
)

// C08: stateful check of Session, Channel and Manager against a model, and the
// same operations from several goroutines against the final-state rules.

type c08Op struct {
	Op  string
	S   int // session
	Ch  int
	Key int
	Cb  int
}

type c08Case struct {
	Sessions []int // per session: 0 free, 1 managed, 2 managed with a send queue, 3 free with a send queue
	Ops      []c08Op
}

// fakeCodec is a codec whose end of stream and send failure are controlled.
type fakeCodec struct {
	in      chan interface{}
	closed  atomic.Int32
	bad     atomic.Bool
	stuck   chan struct{}
	isStuck atomic.Bool
	once    sync.Once
}

func newFakeCodec() *fakeCodec {
	return &fakeCodec{in: make(chan interface{}, 4), stuck: make(chan struct{})}
}
func (f *fakeCodec) Receive() (interface{}, error) {
	m, ok := <-f.in
	if !ok {
		return nil, errors.New("end of stream")
	}
	return m, nil
}
func (f *fakeCodec) Send(interface{}) error {
	if f.isStuck.Load() {
		<-f.stuck
	}
	if f.bad.Load() {
		return errors.New("broken pipe")
	}
	return nil
}
func (f *fakeCodec) Close() error {
	if f.closed.Add(1) == 1 {
		close(f.stuck)
		f.once.Do(func() { close(f.in) })
	}
	return nil
}

const c08Keys, c08Chans, c08Cbs = 4, 2, 3

type c08World struct {
	r     *R
	mgr   *link.Manager
	chans []*link.Channel
	codes []*fakeCodec
	sess  []*link.Session
	kind  []int
	// counts of close callback runs: [session][handler cb] -> list of registrations
	mu   sync.Mutex
	regs []*c08Reg
}

type c08Reg struct {
	s, cb   int
	runs    atomic.Int32
	removed bool
	maybe   bool // removed while the session was closing
}

type c08Handler struct{ n int }

func newC08(r *R, kinds []int) *c08World {
	w := &c08World{r: r, mgr: link.NewManager(), kind: kinds}
	for i := 0; i < c08Chans; i++ {
		w.chans = append(w.chans, link.NewChannel())
	}
	for _, k := range kinds {
		c := newFakeCodec()
		q := 0
		if k >= 2 {
			q = 2
		}
		var s *link.Session
		if k == 1 || k == 2 {
			s = w.mgr.NewSession(c, q)
		} else {
			s = link.NewSession(c, q)
		}
		w.codes, w.sess = append(w.codes, c), append(w.sess, s)
	}
	return w
}

var c08H = &c08Handler{1}

func (w *c08World) addCb(s, cb int) *c08Reg {
	g := &c08Reg{s: s, cb: cb}
	w.mu.Lock()
	w.regs = append(w.regs, g)
	w.mu.Unlock()
	return g
}

// within runs f and reports a deadlock if it does not return.
func (w *c08World) within(what string, f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case e := <-done:
		if e != nil {
			w.r.Fatalf("%s panicked: %v", what, e)
		}
	case <-time.After(15 * time.Second):
		w.r.SlowFatalf("%s did not return in 15 s (deadlock)", what)
	}
}

// eventually polls until cond returns "".
func eventually(r *R, d time.Duration, cond func() string) bool {
	end := time.Now().Add(d)
	wait := 20 * time.Microsecond
	for {
		m := cond()
		if m == "" {
			return true
		}
		if time.Now().After(end) {
			r.Slowf("%s", m)
			return false
		}
		time.Sleep(wait)
		if wait < 5*time.Millisecond {
			wait *= 2
		}
	}
}

func runC08(r *R, c c08Case) {
	w := newC08(r, c.Sessions)
	n := len(c.Sessions)
	r.Cleanup(func() {
		for _, s := range w.sess {
			s.Close()
		}
	})
	// model
	open := make([]bool, len(w.sess))
	for i := range open {
		open[i] = true
	}
	model := make([]map[int]int, c08Chans)
	for i := range model {
		model[i] = map[int]int{}
	}
	disposed := false
	closed := 0
	mclose := func(s int) {
		if open[s] {
			open[s] = false
			closed++
			for _, m := range model {
				for k, v := range m {
					if v == s {
						delete(m, k)
					}
				}
			}
		}
	}
	check := func() string {
		for i, s := range w.sess {
			if s.IsClosed() == open[i] {
				return fmt.Sprintf("session %d: closed=%v, model says open=%v", i, s.IsClosed(), open[i])
			}
			if k := w.kind[i]; k == 1 || k == 2 {
				g := w.mgr.GetSession(s.ID())
				if open[i] && g != s || !open[i] && g != nil {
					return fmt.Sprintf("manager.GetSession for session %d (open=%v) returns %v", i, open[i], g != nil)
				}
			} else if g := w.mgr.GetSession(s.ID()); g != nil {
				return fmt.Sprintf("the manager finds session %d, which is not its own", i)
			}
		}
		for ci, ch := range w.chans {
			if ch.Len() != len(model[ci]) {
				return fmt.Sprintf("channel %d has %d sessions, want %d (%v)", ci, ch.Len(), len(model[ci]), model[ci])
			}
			for k := 0; k < c08Keys; k++ {
				g := ch.Get(k)
				if v, ok := model[ci][k]; ok && g != w.sess[v] || !ok && g != nil {
					return fmt.Sprintf("channel %d: Get(%d) returns the wrong session; want %v", ci, k, model[ci])
				}
			}
			seen := map[*link.Session]int{}
			ch.Fetch(func(s *link.Session) { seen[s]++ })
			for _, v := range model[ci] {
				seen[w.sess[v]]--
			}
			for _, n := range seen {
				if n != 0 {
					return fmt.Sprintf("channel %d: Fetch visits other sessions than Get returns", ci)
				}
			}
		}
		for _, g := range w.regs {
			n := int(g.runs.Load())
			want := 0
			if !open[g.s] && !g.removed {
				want = 1
			}
			if g.maybe && n <= 1 {
				continue
			}
			if n != want {
				return fmt.Sprintf("callback %d of session %d (open=%v, removed=%v) ran %d times", g.cb, g.s, open[g.s], g.removed, n)
			}
		}
		return ""
	}
	unsettled := map[int]bool{} // sessions closed since the last settling
	settle := func(where string) bool {
		unsettled = map[int]bool{}
		return eventually(r, 5*time.Second, func() string {
			if m := check(); m != "" {
				return where + ": " + m
			}
			return ""
		})
	}
	for i, op := range c.Ops {
		if op.S >= len(w.sess) {
			op.S %= len(w.sess)
		}
		s := op.S
		ch := w.chans[op.Ch]
		what := fmt.Sprintf("op %d %+v", i, op)
		switch op.Op {
		case "put":
			w.within(what, func() { ch.Put(op.Key, w.sess[s]) })
			delete(model[op.Ch], op.Key)
			if open[s] {
				model[op.Ch][op.Key] = s
			}
		case "remove":
			var got bool
			w.within(what, func() { got = ch.Remove(op.Key) })
			_, had := model[op.Ch][op.Key]
			if had && !got {
				r.Failf("%s: Remove of a key that is held returned false", what)
			}
			if !had && got && len(unsettled) == 0 {
				r.Failf("%s: Remove of a key that is not held returned true", what)
			}
			delete(model[op.Ch], op.Key)
		case "fetchremove":
			seen := map[*link.Session]bool{}
			w.within(what, func() {
				ch.FetchAndRemove(func(x *link.Session) {
					seen[x] = true
					if op.Cb == 1 {
						x.Close()
					}
				})
			})
			for _, v := range model[op.Ch] {
				if !seen[w.sess[v]] {
					r.Failf("%s: FetchAndRemove skipped session %d", what, v)
				}
			}
			model[op.Ch] = map[int]int{}
			if op.Cb == 1 {
				for j, x := range w.sess {
					if seen[x] {
						if open[j] {
							unsettled[j] = true
						}
						mclose(j)
					}
				}
			}
		case "fetchclose":
			seen := map[*link.Session]bool{}
			w.within(what, func() {
				ch.Fetch(func(x *link.Session) {
					seen[x] = true
					if op.Cb == 1 {
						x.Close()
					}
				})
			})
			for _, v := range model[op.Ch] {
				if !seen[w.sess[v]] {
					r.Failf("%s: Fetch skipped session %d", what, v)
				}
			}
			if op.Cb == 1 {
				for j, x := range w.sess {
					if seen[x] {
						if open[j] {
							unsettled[j] = true
						}
						mclose(j)
					}
				}
			}
		case "chclose":
			w.within(what, ch.Close)
			model[op.Ch] = map[int]int{}
		case "close", "recverr", "senderr", "blocked":
			wasOpen := open[s]
			var err error
			switch op.Op {
			case "close":
				w.within(what, func() { err = w.sess[s].Close() })
				if wasOpen != (err == nil) {
					r.Failf("%s: Close of a session with open=%v returned %v", what, wasOpen, err)
				}
			case "recverr":
				w.codes[s].once.Do(func() { close(w.codes[s].in) })
				w.within(what, func() { _, err = w.sess[s].Receive() })
				if err == nil {
					r.Failf("%s: Receive at the end of the stream returned no error", what)
				}
			case "senderr":
				w.codes[s].bad.Store(true)
				w.within(what, func() { err = w.sess[s].Send("x") })
				if !wasOpen && err != link.SessionClosedError {
					r.Failf("%s: Send on a closed session returned %v", what, err)
				}
				if wasOpen && w.kind[s] >= 2 && !eventually(r, 5*time.Second, func() string {
					if !w.sess[s].IsClosed() {
						return what + ": the session is open although its transport is broken"
					}
					return ""
				}) {
					return
				}
				if wasOpen && w.kind[s] < 2 && err == nil {
					r.Failf("%s: Send over a broken transport returned no error", what)
				}
			case "blocked":
				if w.kind[s] < 2 {
					continue
				}
				w.codes[s].isStuck.Store(true)
				// the queue holds 2, the sender at most 1 more
				for k := 0; k < 4 && err == nil; k++ {
					w.within(what, func() { err = w.sess[s].Send("x") })
				}
				if wasOpen && err != link.SessionBlockedError || !wasOpen && err != link.SessionClosedError {
					r.Failf("%s: Send with a full queue on a session with open=%v returned %v", what, wasOpen, err)
				}
			}
			if wasOpen {
				unsettled[s] = true
				r.Label("session ends by " + op.Op)
			}
			mclose(s)
		case "addcb":
			g := w.addCb(s, op.Cb)
			w.within(what, func() { w.sess[s].AddCloseCallback(c08H, op.Cb, func() { g.runs.Add(1) }) })
			if !open[s] {
				r.Label("callback added after close")
			}
		case "rmcb":
			w.within(what, func() { w.sess[s].RemoveCloseCallback(c08H, op.Cb) })
			for _, g := range w.regs {
				if g.s == s && g.cb == op.Cb && !g.removed {
					if !open[s] {
						if unsettled[s] {
							g.maybe = true
						} else {
							break // has run already
						}
					}
					if !g.maybe {
						g.removed = true
						break
					}
				}
			}
		case "dispose":
			w.within(what, w.mgr.Dispose)
			for j, k := range w.kind {
				if k == 1 || k == 2 {
					mclose(j)
				}
			}
			disposed = true
			for j, k := range w.kind {
				if (k == 1 || k == 2) && w.mgr.GetSession(w.sess[j].ID()) != nil {
					r.Failf("%s: the disposed manager still finds session %d", what, j)
				}
			}
			r.Label("dispose")
		case "new":
			if len(w.sess) >= n+4 {
				continue
			}
			cc := newFakeCodec()
			s := w.mgr.NewSession(cc, op.Cb)
			w.sess, w.codes, w.kind, open = append(w.sess, s), append(w.codes, cc), append(w.kind, 1+min(op.Cb, 1)), append(open, !disposed)
			if disposed {
				unsettled[len(open)-1] = true
			}
		case "settle":
			if !settle(what) {
				return
			}
		}
		if r.failed() {
			return
		}
		if len(unsettled) == 0 {
			if m := check(); m != "" {
				// callbacks added to closed sessions run in their own goroutine
				if !settle(what) {
					return
				}
			}
		}
	}
	if !settle("at the end") {
		return
	}
	time.Sleep(time.Millisecond)
	if m := check(); m != "" {
		r.Failf("shortly after the end: %s", m)
	}
	for i, cc := range w.codes {
		if n := int(cc.closed.Load()); n > 1 || (n == 1) == open[i] {
			r.Failf("the codec of session %d (open=%v) was closed %d times", i, open[i], n)
		}
	}
	ids := map[uint64]bool{}
	for _, s := range w.sess {
		if ids[s.ID()] {
			r.Failf("two sessions have the id %d", s.ID())
		}
		ids[s.ID()] = true
	}
	if closed > 0 {
		r.NonTrivial()
	}
}

func genC08Op(t *rapid.T, n int) c08Op {
	op := c08Op{Op: pick(t, "op", "put", "put", "put", "put", "close", "close", "remove", "addcb", "addcb", "rmcb", "fetchremove", "fetchclose", "chclose", "recverr", "senderr", "blocked", "settle", "new", "dispose"),
		S: rng(t, "s", 0, n-1), Ch: rng(t, "ch", 0, c08Chans-1), Key: rng(t, "key", 0, c08Keys-1), Cb: rng(t, "cb", 0, c08Cbs-1)}
	if op.Op == "dispose" && rng(t, "really", 0, 3) > 0 {
		op.Op = "put"
	}
	if op.Op == "new" {
		op.Cb = pick(t, "q", 0, 2)
	}
	return op
}

// ---------------------------------------------------------------------------

type c08Conc struct {
	Sessions []int
	Scripts  [][]c08Op
	Yield    int
}

// runC08Conc: goroutine g owns channel key 100+g (nobody else uses it) and
// shares keys 0..3 with the others.
func runC08Conc(r *R, c c08Conc) {
	w := newC08(r, c.Sessions)
	r.Cleanup(func() {
		for _, s := range w.sess {
			s.Close()
		}
	})
	closedBy := make([]atomic.Bool, len(w.sess))
	disposed := atomic.Bool{}
	put := make([]map[int]map[int]bool, c08Chans) // channel -> shared key -> sessions put
	for i := range put {
		put[i] = map[int]map[int]bool{}
	}
	last := make([][c08Chans]int, len(c.Scripts)) // session put last under the own key, -1 none
	wiped := make([]atomic.Bool, c08Chans)
	for g, sc := range c.Scripts {
		for ci := range last[g] {
			last[g][ci] = -1
		}
		for _, op := range sc {
			if op.Op == "put" {
				m := put[op.Ch]
				if m[op.Key] == nil {
					m[op.Key] = map[int]bool{}
				}
				m[op.Key][op.S] = true
			}
		}
	}
	type reg struct {
		s, g, cb int
		runs     atomic.Int32
		removed  bool
	}
	regs := make([][]*reg, len(c.Scripts))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g, sc := range c.Scripts {
		h := &c08Handler{g}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, op := range sc {
				s, ch := op.S, w.chans[op.Ch]
				switch op.Op {
				case "put":
					ch.Put(op.Key, w.sess[s])
				case "putown":
					ch.Put(100+g, w.sess[s])
					last[g][op.Ch] = s
				case "remown":
					ch.Remove(100 + g)
					last[g][op.Ch] = -1
				case "remove":
					ch.Remove(op.Key)
				case "fetchclose":
					ch.Fetch(func(x *link.Session) {
						if op.Cb == 1 {
							for j := range w.sess {
								if w.sess[j] == x {
									closedBy[j].Store(true)
								}
							}
							x.Close()
						}
					})
				case "chclose", "fetchremove":
					wiped[op.Ch].Store(true)
					if op.Op == "chclose" {
						ch.Close()
					} else {
						ch.FetchAndRemove(func(*link.Session) {})
					}
				case "get":
					ch.Get(op.Key)
					ch.Len()
				case "close":
					closedBy[s].Store(true)
					w.sess[s].Close()
				case "recverr":
					closedBy[s].Store(true)
					w.codes[s].once.Do(func() { close(w.codes[s].in) })
					w.sess[s].Receive()
				case "senderr":
					closedBy[s].Store(true)
					w.codes[s].bad.Store(true)
					w.sess[s].Send("x")
				case "addcb":
					x := &reg{s: s, g: g, cb: op.Cb}
					regs[g] = append(regs[g], x)
					w.sess[s].AddCloseCallback(h, x, func() {
						w.chans[0].Len() // callbacks may use channels
						x.runs.Add(1)
					})
				case "rmcb":
					for _, x := range regs[g] {
						if x.s == s && !x.removed {
							x.removed = true
							w.sess[s].RemoveCloseCallback(h, x)
							break
						}
					}
				case "dispose":
					disposed.Store(true)
					w.mgr.Dispose()
				}
				if c.Yield > 0 {
					time.Sleep(time.Duration(c.Yield) * time.Microsecond)
				}
			}
		}()
	}
	close(start)
	w.within("the concurrent operations", wg.Wait)
	if r.failed() {
		return
	}
	isOpen := func(i int) bool {
		return !closedBy[i].Load() && !(disposed.Load() && (w.kind[i] == 1 || w.kind[i] == 2))
	}
	idx := map[*link.Session]int{}
	for i, s := range w.sess {
		idx[s] = i
	}
	check := func() string {
		for i, s := range w.sess {
			if s.IsClosed() == isOpen(i) {
				return fmt.Sprintf("session %d: IsClosed is %v", i, s.IsClosed())
			}
			if k := w.kind[i]; k == 1 || k == 2 {
				if g := w.mgr.GetSession(s.ID()); (g == s) != isOpen(i) {
					return fmt.Sprintf("the manager finds session %d (open=%v): %v", i, isOpen(i), g != nil)
				}
			}
		}
		for ci, ch := range w.chans {
			n := 0
			for k := 0; k < c08Keys; k++ {
				g := ch.Get(k)
				if g == nil {
					continue
				}
				n++
				if !isOpen(idx[g]) {
					return fmt.Sprintf("channel %d holds session %d, which is closed", ci, idx[g])
				}
				if !put[ci][k][idx[g]] {
					return fmt.Sprintf("channel %d holds session %d under key %d, where it was never put", ci, idx[g], k)
				}
			}
			for g := range c.Scripts {
				x := ch.Get(100 + g)
				if x != nil {
					n++
				}
				l := last[g][ci]
				if x != nil && (l < 0 || x != w.sess[l]) {
					return fmt.Sprintf("channel %d holds session %d under key %d, last put there was %d", ci, idx[x], 100+g, l)
				}
				if x != nil && !isOpen(idx[x]) {
					return fmt.Sprintf("channel %d holds session %d, which is closed", ci, idx[x])
				}
				if x == nil && l >= 0 && isOpen(l) && !wiped[ci].Load() {
					return fmt.Sprintf("channel %d does not hold session %d, which is open and was put under key %d", ci, l, 100+g)
				}
			}
			if ch.Len() != n {
				return fmt.Sprintf("channel %d has %d sessions but Len is %d", ci, n, ch.Len())
			}
		}
		for _, rs := range regs {
			for _, x := range rs {
				n := int(x.runs.Load())
				switch {
				case isOpen(x.s) && n != 0:
					return fmt.Sprintf("a callback of session %d, which is open, ran", x.s)
				case !isOpen(x.s) && !x.removed && n != 1:
					return fmt.Sprintf("a callback of session %d, which is closed, ran %d times", x.s, n)
				case n > 1:
					return fmt.Sprintf("a callback of session %d ran %d times", x.s, n)
				}
			}
		}
		return ""
	}
	if !eventually(r, 5*time.Second, check) {
		return
	}
	time.Sleep(time.Millisecond)
	if m := check(); m != "" {
		r.Failf("shortly after the end: %s", m)
	}
	for i, cc := range w.codes {
		if n := int(cc.closed.Load()); n > 1 || (n == 1) == isOpen(i) {
			r.Failf("the codec of session %d (open=%v) was closed %d times", i, isOpen(i), n)
		}
	}
	nc := 0
	for i := range w.sess {
		if !isOpen(i) {
			nc++
		}
	}
	r.LabelN("sessions closed", nc)
	if nc > 0 && len(c.Scripts) > 1 {
		r.NonTrivial()
	}
}

// ---------------------------------------------------------------------------

type c08Srv struct {
	Clients int
	Queue   int
	Ops     []c08Op // close of client or server side
	StopAt  int     // stop while the clients connect (>= 0: after that many)
}

func runC08Srv(r *R, c c08Srv) {
	var mu sync.Mutex
	var ss []*link.Session
	var cbs []*atomic.Int32
	// A connection made while the listener closes may never be handed to the
	// server by the kernel and stay half-open: only those seen here count.
	known := map[string]bool{}
	proto := link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
		mu.Lock()
		known[rw.(net.Conn).RemoteAddr().String()] = true
		mu.Unlock()
		return codec.Byte().NewCodec(rw)
	})
	srv, err := link.Listen("tcp", "127.0.0.1:0", proto, c.Queue, link.HandlerFunc(func(s *link.Session) {
		n := new(atomic.Int32)
		s.AddCloseCallback(c08H, 1, func() { n.Add(1) })
		mu.Lock()
		ss, cbs = append(ss, s), append(cbs, n)
		mu.Unlock()
		for {
			if _, err := s.Receive(); err != nil {
				return
			}
		}
	}))
	if err != nil {
		r.Stop()
	}
	served := make(chan error, 1)
	go func() { served <- srv.Serve() }()
	stopped := make(chan struct{})
	var once sync.Once
	stop := func() { once.Do(func() { go func() { srv.Stop(); close(stopped) }() }) }
	r.Cleanup(stop)
	addr := srv.Listener().Addr().String()
	var cl []net.Conn
	r.Cleanup(func() {
		for _, c := range cl {
			c.Close()
		}
	})
	for i := 0; i < c.Clients; i++ {
		if c.StopAt == i {
			stop()
			r.Label("stop while connecting")
		}
		k, err := net.DialTimeout("tcp", addr, 5*time.Second)
		if err != nil {
			if c.StopAt < 0 {
				r.SlowFatalf("dial: %v", err)
			}
			continue
		}
		cl = append(cl, k)
	}
	count := func() int { mu.Lock(); defer mu.Unlock(); return len(ss) }
	if c.StopAt < 0 {
		if !eventually(r, 10*time.Second, func() string {
			if n := count(); n != len(cl) {
				return fmt.Sprintf("%d clients connected, the handler got %d sessions", len(cl), n)
			}
			return ""
		}) {
			return
		}
		for i, s := range ss {
			if srv.GetSession(s.ID()) != s {
				r.Failf("the server does not find session %d", i)
			}
		}
		live := len(cl)
		gone := map[string]bool{}
		for _, op := range c.Ops {
			i := op.S % len(cl)
			if op.Op == "client" {
				cl[i].Close()
				gone[cl[i].LocalAddr().String()] = true
			} else {
				ss[i].Close()
				gone[fmt.Sprint("s", i)] = true
			}
		}
		_ = live
		srvClosed := func() (n int) {
			for i := range ss {
				if srv.GetSession(ss[i].ID()) == nil {
					n++
				}
			}
			return
		}
		min := 0
		for k := range gone {
			if k[0] != 's' {
				min++
			}
		}
		eventually(r, 10*time.Second, func() string {
			if n := srvClosed(); n < min {
				return fmt.Sprintf("%d clients closed their connection, but only %d of the sessions are gone", min, n)
			}
			for k := range gone {
				var i int
				if _, err := fmt.Sscanf(k, "s%d", &i); err == nil && srv.GetSession(ss[i].ID()) != nil {
					return fmt.Sprintf("the server finds session %d, which has been closed", i)
				}
			}
			return ""
		})
		if len(gone) > 0 {
			r.NonTrivial()
		}
	} else {
		r.NonTrivial()
	}
	stop()
	select {
	case <-stopped:
	case <-time.After(15 * time.Second):
		r.SlowFatalf("Stop did not return in 15 s")
	}
	select {
	case <-served:
	case <-time.After(15 * time.Second):
		r.SlowFatalf("Serve did not return after Stop")
	}
	eventually(r, 10*time.Second, func() string {
		mu.Lock()
		defer mu.Unlock()
		for i, s := range ss {
			if !s.IsClosed() {
				return fmt.Sprintf("session %d is open after Stop", i)
			}
			if srv.GetSession(s.ID()) != nil {
				return fmt.Sprintf("the stopped server finds session %d", i)
			}
			if cbs[i].Load() != 1 {
				return fmt.Sprintf("the close callback of session %d ran %d times", i, cbs[i].Load())
			}
		}
		return ""
	})
	for i, k := range cl {
		mu.Lock()
		seen := known[k.LocalAddr().String()]
		mu.Unlock()
		if !seen {
			r.Label("connection the server never saw")
			continue
		}
		k.SetReadDeadline(time.Now().Add(10 * time.Second))
		if _, err := k.Read(make([]byte, 1)); err == nil {
			r.Failf("client %d received data", i)
		} else if ne, ok := err.(net.Error); ok && ne.Timeout() {
			r.Slowf("connection %d is still open after Stop", i)
		}
	}
}

func init() {
	shards("C08", 8, 8)
	kinds := func(t *rapid.T, max int) (k []int) {
		for i, n := 0, rng(t, "sessions", 1, max); i < n; i++ {
			k = append(k, rng(t, "kind", 0, 3))
		}
		return
	}
	register("C08", "model", "up to 40 operations (Put, Remove, Fetch, FetchAndRemove, Close of channels and sessions, ends by failing reads, writes and full queues, AddCloseCallback, RemoveCloseCallback, NewSession, Dispose) on up to 5 sessions and 2 channels, compared with a model after every operation or, in part of the runs, only when it has settled; non-trivial: a session was closed",
		opts{quick: budget{2500, 10}, thorough: budget{60000, 150}},
		func(t *rapid.T) c08Case {
			c := c08Case{Sessions: kinds(t, 5)}
			for i, n := 0, rng(t, "ops", 1, 40); i < n; i++ {
				c.Ops = append(c.Ops, genC08Op(t, len(c.Sessions)+1))
			}
			return c
		}, runC08)
	register("C08", "concurrent", "2-6 goroutines with up to 20 operations each on shared sessions, channels and a manager; when all have returned and it has settled: channels hold only open sessions, private keys hold exactly the last session put, the manager finds exactly the open ones, callbacks ran exactly once; no deadlock; non-trivial: sessions closed",
		opts{quick: budget{2500, 12}, thorough: budget{60000, 200}},
		func(t *rapid.T) c08Conc {
			c := c08Conc{Sessions: kinds(t, 5), Yield: pick(t, "yield", 0, 0, 0, 1, 20)}
			for g, n := 0, rng(t, "goroutines", 2, 6); g < n; g++ {
				var sc []c08Op
				for i, n := 0, rng(t, "ops", 1, 20); i < n; i++ {
					op := c08Op{Op: pick(t, "op", "put", "put", "putown", "putown", "putown", "remown", "remove", "close", "close", "addcb", "addcb", "rmcb", "fetchclose", "chclose", "fetchremove", "get", "recverr", "senderr", "dispose"),
						S: rng(t, "s", 0, len(c.Sessions)-1), Ch: rng(t, "ch", 0, c08Chans-1), Key: rng(t, "key", 0, c08Keys-1), Cb: rng(t, "cb", 0, 1)}
					if (op.Op == "chclose" || op.Op == "fetchremove" || op.Op == "dispose") && rng(t, "really", 0, 5) > 0 {
						op.Op = "putown"
					}
					sc = append(sc, op)
				}
				c.Scripts = append(c.Scripts, sc)
			}
			return c
		}, runC08Conc)
	register("C08", "server", "a link.Server with 1-8 client connections, closed from either side in generated order, stopped at the end or while clients connect: GetSession finds exactly the open sessions, Stop closes all and returns, callbacks run once; non-trivial: closed before or during Stop",
		opts{quick: budget{60, 8}, thorough: budget{1500, 100}},
		func(t *rapid.T) c08Srv {
			c := c08Srv{Clients: rng(t, "clients", 1, 8), Queue: pick(t, "queue", 0, 4), StopAt: -1}
			if oneIn(t, "early", 3) {
				c.StopAt = rng(t, "stopat", 0, c.Clients-1)
			}
			for i, n := 0, rng(t, "ops", 0, 8); i < n; i++ {
				c.Ops = append(c.Ops, c08Op{Op: pick(t, "side", "client", "server"), S: rng(t, "i", 0, 7)})
			}
			return c
		}, runC08Srv)
}
