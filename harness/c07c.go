package main

import (
	"errors"
	"fmt"
	"io"
	"time"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"
	"pgregory.net/rapid"
)

// C07, part ends: how codecs end: Close reaches the transport through every stack, and so do the deadlines a buffered
// codec passes on; messages of a kind the codec cannot send are refused.

type c07eCase struct {
	Proto string
	Fix   int
	Bufs  [][2]int // a buffered codec, possibly around another
	Can   string   // close, deadline, both, none
	Fail  bool     // Close and deadlines of the transport fail
	Base  bool     // the innermost codec's own Close fails and leaves the transport alone
	Ops   []string // close, rd, wd, bad…
	Max   int
}

type c07Plain struct{ w int }

func (*c07Plain) Read(p []byte) (int, error)    { return 0, io.EOF }
func (t *c07Plain) Write(p []byte) (int, error) { t.w += len(p); return len(p), nil }

type c07Calls struct {
	closed int
	rd, wd []time.Time
	err    error
}

func (c *c07Calls) close() error { c.closed++; return c.err }

type c07Closer struct {
	*c07Plain
	c *c07Calls
}

func (t c07Closer) Close() error { return t.c.close() }

type c07Dead struct {
	*c07Plain
	c *c07Calls
}

func (t c07Dead) SetReadDeadline(x time.Time) error  { t.c.rd = append(t.c.rd, x); return t.c.err }
func (t c07Dead) SetWriteDeadline(x time.Time) error { t.c.wd = append(t.c.wd, x); return t.c.err }
func (t c07Dead) SetDeadline(x time.Time) error {
	t.c.rd, t.c.wd = append(t.c.rd, x), append(t.c.wd, x)
	return t.c.err
}

type c07Both struct{ c07Dead }

func (t c07Both) Close() error { return t.c.close() }

var errBaseClose = errors.New("the inner codec's own error")

type c07NoClose struct{ link.Codec }

func (c07NoClose) Close() error { return errBaseClose }

func failClose(p link.Protocol) link.Protocol {
	return link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
		c, err := p.NewCodec(rw)
		if err != nil {
			return nil, err
		}
		return c07NoClose{c}, nil
	})
}

func runC07Ends(r *R, c c07eCase) {
	base := c07Case{Proto: c.Proto, Fix: c.Fix, MaxRecv: c.Max, MaxSend: c.Max}
	p := base.proto()
	if c.Base {
		p = failClose(p)
	}
	for _, b := range c.Bufs {
		p = codec.Bufio(p, b[0], b[1])
	}
	plain := &c07Plain{}
	calls := &c07Calls{}
	if c.Fail {
		calls.err = errors.New("the transport's own error")
	}
	var rw io.ReadWriter = plain
	switch c.Can {
	case "close":
		rw = c07Closer{plain, calls}
	case "deadline":
		rw = c07Dead{plain, calls}
	case "both":
		rw = c07Both{c07Dead{plain, calls}}
	}
	cd, err := p.NewCodec(rw)
	if err != nil {
		r.Fatalf("NewCodec: %v", err)
	}
	mayClose := c.Can == "close" || c.Can == "both"
	mayWait := c.Can == "deadline" || c.Can == "both"
	dead, ok := cd.(link.DeadlineCodec)
	if len(c.Bufs) > 0 && !ok {
		r.Failf("a buffered codec has no deadlines")
	}
	for i, op := range c.Ops {
		switch op {
		case "close":
			before := calls.closed
			err := cd.Close()
			switch {
			case c.Base && len(c.Bufs) == 0:
				// the harness's own codec
			case c.Base && !errors.Is(err, errBaseClose) && !(mayClose && c.Fail && errors.Is(err, calls.err)):
				r.Failf("operation %d: Close returned %v although the inner codec could not be closed", i, err)
			case c.Base && mayClose && calls.closed == before && before == 0:
				r.Failf("operation %d: Close did not close the transport after the inner codec had failed to close", i)
			case c.Base:
				r.Label("inner codec fails to close")
			case mayClose && calls.closed == before && before == 0:
				r.Failf("operation %d: Close did not close the transport", i)
			case mayClose && calls.closed > before && c.Fail && !errors.Is(err, calls.err):
				r.Failf("operation %d: Close returned %v instead of the error of the transport", i, err)
			case err != nil && !(mayClose && c.Fail):
				r.Failf("operation %d: Close: %v", i, err)
			}
			r.NonTrivial()
		case "rd", "wd":
			if dead == nil || len(c.Bufs) == 0 {
				continue
			}
			if len(c.Bufs) > 1 {
				continue // what is below the outer buffered codec is its transport
			}
			at := time.Unix(1700000000+int64(i), int64(i))
			set, seen, other := dead.SetReadDeadline, &calls.rd, &calls.wd
			if op == "wd" {
				set, seen, other = dead.SetWriteDeadline, other, seen
			}
			n, m := len(*seen), len(*other)
			err := set(at)
			switch {
			case !mayWait && err != nil:
				r.Failf("operation %d: %s: %v", i, op, err)
			case mayWait && (len(*seen) != n+1 || !(*seen)[n].Equal(at) || len(*other) != m):
				r.Failf("operation %d: %s of %v: the transport got read deadlines %v and write deadlines %v", i, op, at, calls.rd, calls.wd)
			case mayWait && c.Fail != (err != nil):
				r.Failf("operation %d: %s returned %v", i, op, err)
			}
			r.NonTrivial()
		default:
			var v interface{}
			switch op {
			case "string":
				v = "text"
			case "int":
				v = 7
			case "chan":
				v = make(chan int)
			case "func":
				v = func() {}
			case "ptr":
				v = &[]byte{1, 2}
			}
			if c.Proto == "json" && (op == "string" || op == "int" || op == "ptr") {
				continue // has a JSON form
			}
			if c.Proto == "raw" {
				continue // the harness's own
			}
			before := plain.w
			var err error
			if why := refused(func() { err = cd.Send(v) }); why != "" {
				r.Failf("operation %d: Send of a %T: %s", i, v, why)
			} else if err == nil {
				r.Failf("operation %d: Send of a %T succeeded", i, v)
			}
			if plain.w != before {
				r.Failf("operation %d: Send of a %T failed but wrote %d bytes", i, v, plain.w-before)
			}
			r.Label("unsendable")
			r.NonTrivial()
		}
	}
	r.Label(fmt.Sprintf("transport %s, %d buffers", c.Can, len(c.Bufs)))
}

func init() {
	register("C07", "ends", "generated stacks of codecs over transports that can or cannot be closed and given deadlines, and whose Close and deadlines fail or not: what Close, SetReadDeadline and SetWriteDeadline do to the transport and return, and values that cannot be sent; non-trivial: an operation reached the codec",
		opts{quick: budget{2000, 3}, thorough: budget{50000, 20}},
		func(t *rapid.T) c07eCase {
			c := c07eCase{Proto: pick(t, "proto", "hsms", "json", "byte", "raw"), Can: pick(t, "can", "close", "deadline", "both", "both", "none"), Fail: oneIn(t, "fail", 3), Max: pick(t, "max", 300, 1<<20, 1<<33, 1<<62)}
			if coin(t, "fixlen") || c.Proto == "raw" {
				c.Fix = pick(t, "fix", 1, 2, 4, 8)
			}
			c.Base = oneIn(t, "base", 4)
			for i, n := 0, pick(t, "bufs", 0, 1, 1, 1, 2); i < n; i++ {
				c.Bufs = append(c.Bufs, [2]int{pick(t, "rbuf", 0, 16, 4096), pick(t, "wbuf", 0, 16, 4096)})
			}
			for i, n := 0, rng(t, "ops", 1, 6); i < n; i++ {
				c.Ops = append(c.Ops, pick(t, "op", "close", "rd", "wd", "rd", "wd", "nil", "string", "int", "chan", "func", "ptr"))
			}
			return c
		}, runC07Ends)
}
