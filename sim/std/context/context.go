// Package context replaces the standard package in instrumented code.
package context

import (
	stdctx "context"
	"time"

	"vsim/rt"
	simtime "vsim/std/time"
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *rt.Chan[struct{}]
	Err() error
	Value(key any) any
}

type CancelFunc func()
type CancelCauseFunc func(cause error)

var (
	Canceled         = stdctx.Canceled
	DeadlineExceeded = stdctx.DeadlineExceeded
)

type emptyCtx struct{ name string }

func (*emptyCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (*emptyCtx) Done() *rt.Chan[struct{}]    { return nil }
func (*emptyCtx) Err() error                  { return nil }
func (*emptyCtx) Value(any) any               { return nil }
func (e *emptyCtx) String() string            { return e.name }

var (
	background = &emptyCtx{"context.Background"}
	todo       = &emptyCtx{"context.TODO"}
)

func Background() Context { return background }
func TODO() Context       { return todo }

type cancelKey struct{}

type cancelCtx struct {
	parent   Context
	done     *rt.Chan[struct{}]
	err      error
	cause    error
	children []*cancelCtx
	after    func()
	deadline time.Time
	hasDl    bool
	timer    *rt.Event
	vc       rt.VC
}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() *rt.Chan[struct{}] { return c.done }
func (c *cancelCtx) Err() error {
	if rt.S != nil && !rt.Dying() {
		rt.Sync()
		rt.Acquire(&c.vc)
	}
	return c.err
}
func (c *cancelCtx) Value(k any) any {
	if _, ok := k.(cancelKey); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *cancelCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	rt.Release(&c.vc)
	c.done.CloseNow()
	c.timer.Stop()
	if c.after != nil {
		rt.Go(c.after)
	}
	for _, k := range c.children {
		k.cancel(err, cause)
	}
	c.children = nil
}

func newCancel(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: rt.NewChan[struct{}](0)}
	if p, ok := parent.Value(cancelKey{}).(*cancelCtx); ok && p.done == parent.Done() {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	} else if d := parent.Done(); d != nil {
		rt.Go(func() {
			r := rt.CaseRecv(d)
			o := rt.CaseRecv(c.done)
			if rt.Select(false, r, o) == 0 {
				c.cancel(parent.Err(), Cause(parent))
			}
		})
	}
	return c
}

func (c *cancelCtx) unlink() {
	if p, ok := c.parent.Value(cancelKey{}).(*cancelCtx); ok {
		for i, k := range p.children {
			if k == c {
				p.children = append(p.children[:i:i], p.children[i+1:]...)
				break
			}
		}
	}
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCancel(parent)
	return c, c.cancelFunc(Canceled)
}

func (c *cancelCtx) cancelFunc(err error) CancelFunc {
	return func() {
		if rt.S == nil || rt.Dying() {
			return
		}
		rt.Sync()
		c.unlink()
		c.cancel(err, nil)
	}
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) {
		if rt.S == nil || rt.Dying() {
			return
		}
		rt.Sync()
		c.unlink()
		c.cancel(Canceled, cause)
	}
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCancel(parent)
	if cur, ok := parent.Deadline(); !ok || d.Before(cur) {
		c.deadline, c.hasDl = d, true
		if c.err == nil {
			if dur := simtime.Until(d); dur <= 0 {
				c.cancel(DeadlineExceeded, cause)
			} else {
				c.timer = rt.After(int64(dur), func() {
					rt.Count("event.ctx_deadline")
					c.unlink()
					c.cancel(DeadlineExceeded, cause)
				})
			}
		}
	}
	return c, c.cancelFunc(Canceled)
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, simtime.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), cause)
}

type valueCtx struct {
	Context
	key, val any
}

func (v *valueCtx) Value(k any) any {
	if v.key == k {
		return v.val
	}
	return v.Context.Value(k)
}

func WithValue(parent Context, key, val any) Context { return &valueCtx{parent, key, val} }

type withoutCancel struct{ c Context }

func (withoutCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (withoutCancel) Done() *rt.Chan[struct{}]    { return nil }
func (withoutCancel) Err() error                  { return nil }
func (w withoutCancel) Value(k any) any {
	if _, ok := k.(cancelKey); ok {
		return nil
	}
	return w.c.Value(k)
}

func WithoutCancel(parent Context) Context { return withoutCancel{parent} }

func Cause(c Context) error {
	if k, ok := c.Value(cancelKey{}).(*cancelCtx); ok {
		return k.cause
	}
	return c.Err()
}

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	c := newCancel(ctx)
	c.after = f
	if c.err != nil {
		c.after = nil
		rt.Go(f)
		return func() bool { return false }
	}
	return func() bool {
		if rt.S == nil || rt.Dying() {
			return false
		}
		rt.Sync()
		stopped := c.err == nil
		c.after = nil
		if stopped {
			c.unlink()
			c.cancel(Canceled, nil)
		}
		return stopped
	}
}
