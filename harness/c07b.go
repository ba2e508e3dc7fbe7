package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"pgregory.net/rapid"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// C07, second part: several goroutines send through one session over a real
// connection; every message arrives once, whole, those of one sender in order.

type c07Sess struct {
	Senders int
	Per     int
	Size    int // payload bytes
	Chan    int // send channel: 0 direct, 1 large enough
	Buf     bool
	Fix     bool
	Back    bool // the server session sends, the client receives
	Slow    int  // receiver pauses in microseconds every 16 messages
}

func (c c07Sess) proto() link.Protocol {
	var p link.Protocol = codec.SECSII()
	if c.Fix {
		p = codec.FixLen(p, 4, binary.BigEndian, 1<<24, 1<<24)
	}
	if c.Buf {
		p = codec.Bufio(p, 512, 512)
	}
	return p
}

func runC07Sess(r *R, c c07Sess) {
	total := c.Senders * c.Per
	ch := 0
	if c.Chan > 0 {
		ch = total + 1
	}
	got := make(chan *link.Session, 1)
	srv, err := link.Listen("tcp", "127.0.0.1:0", c.proto(), ch, link.HandlerFunc(func(s *link.Session) { got <- s }))
	if err != nil {
		r.Stop()
	}
	go srv.Serve()
	r.Cleanup(srv.Stop)
	cl, err := link.DialTimeout("tcp", srv.Listener().Addr().String(), 5*time.Second, c.proto(), ch)
	if err != nil {
		r.SlowFatalf("dial: %v", err)
	}
	var ss *link.Session
	select {
	case ss = <-got:
	case <-time.After(10 * time.Second):
		r.SlowFatalf("the server did not hand out a session")
	}
	snd, rcv := cl, ss
	if c.Back {
		snd, rcv = ss, cl
	}
	var wg sync.WaitGroup
	for i := 0; i < c.Senders; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < c.Per; k++ {
				it := Item{K: "B", B: []byte{byte(i)}, Rep: 1 + (c.Size*(k+1))/c.Per}
				f := dataFrame(uint16(i), 1, 1, true, uint32(k), iL(iU(4, uint64(i)), iU(4, uint64(k)), it))
				if err := snd.Send(f.enc()); err != nil {
					r.Failf("sender %d: Send of message %d failed: %v", i, k, err)
					return
				}
			}
		}()
	}
	next := make([]int, c.Senders)
	fin := make(chan struct{})
	go func() {
		defer close(fin)
		for n := 0; n < total; n++ {
			v, err := rcv.Receive()
			if err != nil {
				r.Failf("after %d of %d messages Receive returned %v", n, total, err)
				return
			}
			m, ok := v.(*ast.DataMessage)
			if !ok {
				r.Failf("message %d is a %T", n, v)
				return
			}
			i := m.SessionID()
			if i < 0 || i >= c.Senders {
				r.Failf("message %d is from sender %d of %d", n, i, c.Senders)
				return
			}
			k := next[i]
			next[i]++
			it := Item{K: "B", B: []byte{byte(i)}, Rep: 1 + (c.Size*(k+1))/c.Per}
			w := dataFrame(uint16(i), 1, 1, true, uint32(k), iL(iU(4, uint64(i)), iU(4, uint64(k)), it))
			if string(m.ToBytes()) != string(w.enc()) {
				r.Failf("message %d of sender %d is %x, want %x", k, i, clipb(m.ToBytes()), clipb(w.enc()))
				return
			}
			if c.Slow > 0 && n%16 == 0 {
				time.Sleep(time.Duration(c.Slow) * time.Microsecond)
			}
		}
	}()
	select {
	case <-fin:
	case <-time.After(30 * time.Second):
		r.Slowf("the %d messages did not arrive in 30 s", total)
	}
	if !r.failed() {
		wg.Wait()
		if err := snd.Close(); err != nil {
			r.Failf("Close of an open session returned %v", err)
		}
		ec := make(chan error, 1)
		go func() { _, err := rcv.Receive(); ec <- err }()
		select {
		case err := <-ec:
			if err != io.EOF {
				if _, ok := err.(net.Error); !ok {
					r.Failf("after the sender closed, Receive returned %v", err)
				}
			}
		case <-time.After(10 * time.Second):
			r.Slowf("Receive did not return after the other side had closed")
		}
		if !snd.IsClosed() {
			r.Failf("the closed session is not closed")
		}
		if err := snd.Send([]byte{}); err != link.SessionClosedError {
			r.Failf("Send on a closed session returned %v", err)
		}
	}
	snd.Close()
	rcv.Close()
	if c.Senders > 1 {
		r.NonTrivial()
	}
	r.Label(fmt.Sprintf("chan=%d", c.Chan))
}

func init() {
	register("C07", "session", "1-6 goroutines send 1-60 messages each (up to 70 kB) through one link session over loopback TCP (direct or queued sending, buffered or not, FixLen or not, either direction); each arrives once, whole, in its sender's order; non-trivial: more than one sender",
		opts{quick: budget{60, 10}, thorough: budget{1500, 120}, hang: 90 * time.Second},
		func(t *rapid.T) c07Sess {
			return c07Sess{Senders: rng(t, "senders", 1, 6), Per: rng(t, "per", 1, 60), Size: pick(t, "size", 0, 10, 300, 5000, 70000), Chan: rng(t, "chan", 0, 1),
				Buf: coin(t, "buf"), Fix: coin(t, "fix"), Back: coin(t, "back"), Slow: pick(t, "slow", 0, 0, 200)}
		}, runC07Sess)
}
