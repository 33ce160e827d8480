// Package vctx replaces package context in the instrumented build: same
// interface, but cancellation goes through the scheduler and deadlines use
// virtual time.
package vctx

import (
	"context"
	"errors"
	"sync"
	"time"

	"PKG/vsched"
)

type cancelCtx struct {
	parent   context.Context
	mu       sync.Mutex
	done     chan struct{}
	err      error
	cause    error
	children []*cancelCtx
	afters   []func()
	deadline time.Time
	hasDl    bool
}

type ctxKey int

var cancelKey ctxKey

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() <-chan struct{} { return c.done }
func (c *cancelCtx) Err() error {
	vsched.StepAddr(chanAddr(c.done), false, "ctx.err")
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *cancelCtx) Value(k any) any {
	if k == &cancelKey {
		return c
	}
	return c.parent.Value(k)
}

func (c *cancelCtx) closeTree(err, cause error) (afters []func()) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return nil
	}
	c.err = err
	c.cause = cause
	ch := c.children
	c.children = nil
	afters = c.afters
	c.afters = nil
	close(c.done)
	c.mu.Unlock()
	for _, x := range ch {
		afters = append(afters, x.closeTree(err, cause)...)
	}
	return afters
}

func (c *cancelCtx) cancel(err, cause error, timer bool) {
	if cause == nil {
		cause = err
	}
	if !timer {
		vsched.StepAddr(chanAddr(c.done), true, "cancel")
	}
	afters := c.closeTree(err, cause)
	// Unlink from the parent.
	if p, ok := c.parent.Value(&cancelKey).(*cancelCtx); ok {
		p.mu.Lock()
		for i, x := range p.children {
			if x == c {
				p.children = append(p.children[:i:i], p.children[i+1:]...)
				break
			}
		}
		p.mu.Unlock()
	}
	for _, f := range afters {
		vsched.Go(f)
	}
}

func newCancel(parent context.Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(&cancelKey).(*cancelCtx); ok && p.done == parent.Done() {
		p.mu.Lock()
		if p.err != nil {
			err, cause := p.err, p.cause
			p.mu.Unlock()
			c.closeTree(err, cause)
		} else {
			p.children = append(p.children, c)
			p.mu.Unlock()
		}
	} else if d := parent.Done(); d != nil {
		// A foreign context.
		if parent.Err() != nil {
			c.closeTree(parent.Err(), context.Cause(parent))
		} else {
			vsched.Go(func() {
				i, t := vsched.Sel(false, vsched.RecvCase(d), vsched.RecvCase((<-chan struct{})(c.done)))
				if i == 0 {
					<-d
					t.After()
					c.cancel(parent.Err(), nil, false)
				} else {
					<-c.done
					t.After()
				}
			})
		}
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCancel(parent)
	return c, func() { c.cancel(context.Canceled, nil, false) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) { c.cancel(context.Canceled, cause, false) }
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		return WithCancel(parent)
	}
	c := newCancel(parent)
	c.deadline = d
	c.hasDl = true
	dur := d.Sub(vsched.Now())
	if dur <= 0 {
		c.cancel(context.DeadlineExceeded, cause, true)
		return c, func() {}
	}
	stop := vsched.AddTimer(dur, func() { c.cancel(context.DeadlineExceeded, cause, true) })
	return c, func() {
		stop()
		c.cancel(context.Canceled, nil, false)
	}
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, vsched.Now().Add(d))
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, vsched.Now().Add(d), cause)
}

func Cause(c context.Context) error {
	if cc, ok := c.Value(&cancelKey).(*cancelCtx); ok {
		cc.mu.Lock()
		cause := cc.cause
		cc.mu.Unlock()
		if cause != nil {
			return cause
		}
	}
	return c.Err()
}

type withoutCancel struct{ c context.Context }

func (w withoutCancel) Deadline() (t time.Time, ok bool) { return }
func (w withoutCancel) Done() <-chan struct{}            { return nil }
func (w withoutCancel) Err() error                       { return nil }
func (w withoutCancel) Value(k any) any {
	if k == &cancelKey {
		return nil
	}
	return w.c.Value(k)
}

func WithoutCancel(parent context.Context) context.Context { return withoutCancel{parent} }

func AfterFunc(ctx context.Context, f func()) func() bool {
	c, ok := ctx.Value(&cancelKey).(*cancelCtx)
	if !ok {
		return func() bool { return true }
	}
	ran := false
	var mu sync.Mutex
	g := func() {
		mu.Lock()
		if ran {
			mu.Unlock()
			return
		}
		ran = true
		mu.Unlock()
		f()
	}
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		vsched.Go(g)
	} else {
		c.afters = append(c.afters, g)
		c.mu.Unlock()
	}
	return func() bool {
		mu.Lock()
		defer mu.Unlock()
		if ran {
			return false
		}
		ran = true
		return true
	}
}

var _ = errors.New
