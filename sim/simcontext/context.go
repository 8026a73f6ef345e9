// Package simcontext stands in for package context: cancellation closes
// channels the simulator's way and deadlines use its clock. Background, TODO and
// WithValue are the real ones.
package simcontext

import (
	"context"
	"time"
	"unsafe"

	"verifsim/sim"
	"verifsim/simtime"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context                        { return context.Background() }
func TODO() Context                              { return context.TODO() }
func WithValue(parent Context, k, v any) Context { return context.WithValue(parent, k, v) }

var key int

type cancelCtx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	kids     []*cancelCtx
	after    []*afterFunc
	deadline time.Time
	timed    bool
	timer    *simtime.Timer
	hb       uint64
}

type afterFunc struct {
	f    func()
	gone bool
}

func (c *cancelCtx) acquire() { sim.RaceAcquire(unsafe.Pointer(&c.hb)) }
func (c *cancelCtx) release() { sim.RaceReleaseMerge(unsafe.Pointer(&c.hb)) }

func (c *cancelCtx) Done() <-chan struct{} { return c.done }

//go:norace
func (c *cancelCtx) Err() error {
	c.acquire()
	defer c.release()
	return c.err
}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.timed {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *cancelCtx) Value(k any) any {
	if k == any(&key) {
		return c
	}
	return c.parent.Value(k)
}

func (c *cancelCtx) String() string { return "context.WithCancel" }

//go:norace
func (c *cancelCtx) cancel(err, cause error) {
	c.acquire()
	if c.err != nil {
		c.release()
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	kids, after := c.kids, c.after
	c.kids, c.after = nil, nil
	c.release()
	if c.timer != nil {
		c.timer.Stop()
	}
	sim.Close(c.done)
	for _, k := range kids {
		k.cancel(err, cause)
	}
	for _, a := range after {
		if !a.gone {
			a.gone = true
			start(a.f)
		}
	}
}

func start(f func()) {
	k := sim.NewTask(0)
	go func() {
		sim.Begin(k)
		defer sim.End(k)
		f()
	}()
}

//go:norace
func newCtx(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(&key).(*cancelCtx); ok {
		p.acquire()
		err, cause := p.err, p.cause
		if err == nil {
			p.kids = append(p.kids, c)
		}
		p.release()
		if err != nil {
			c.cancel(err, cause)
		}
	} else if d := parent.Done(); d != nil && sim.Active() {
		k := sim.NewTask(0)
		sim.Daemon(k)
		go func() {
			sim.Begin(k)
			defer sim.End(k)
			sim.Recv(d)
			c.cancel(parent.Err(), context.Cause(parent))
		}()
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCtx(parent)
	c.timed, c.deadline = true, d
	if p, ok := parent.Deadline(); ok && p.Before(d) {
		c.deadline = p
	}
	if c.err == nil {
		left := simtime.Until(d)
		if left <= 0 {
			c.cancel(DeadlineExceeded, cause)
		} else {
			c.timer = simtime.AfterFunc(left, func() { c.cancel(DeadlineExceeded, cause) })
		}
	}
	return c, func() { c.cancel(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, simtime.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), cause)
}

//go:norace
func Cause(c Context) error {
	if p, ok := c.Value(&key).(*cancelCtx); ok {
		p.acquire()
		defer p.release()
		return p.cause
	}
	return context.Cause(c)
}

type withoutCancel struct{ Context }

func (withoutCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (withoutCancel) Done() <-chan struct{}       { return nil }
func (withoutCancel) Err() error                  { return nil }
func (w withoutCancel) Value(k any) any {
	if k == any(&key) {
		return nil
	}
	return w.Context.Value(k)
}

func WithoutCancel(parent Context) Context { return withoutCancel{parent} }

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	c := newCtx(ctx)
	a := &afterFunc{f: f}
	if c.err != nil {
		a.gone = true
		start(f)
		return func() bool { return false }
	}
	c.after = append(c.after, a)
	return func() bool {
		was := !a.gone
		a.gone = true
		return was
	}
}
