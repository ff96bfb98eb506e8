package hook

import (
	"context"
	"sync"
	"time"
)

// deadline is a context whose time is up when the simulator says so.
type deadline struct {
	context.Context // the parent
	at              time.Time
	mu              sync.Mutex
	up              chan struct{}
	err             error
	after           []func()
}

func (c *deadline) Deadline() (time.Time, bool) { return c.at, true }

func (c *deadline) Done() <-chan struct{} { return c.up }

func (c *deadline) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

// AfterFunc is what contexts made of this one use.
func (c *deadline) AfterFunc(f func()) func() bool {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		f()
		return func() bool { return false }
	}
	i := len(c.after)
	c.after = append(c.after, f)
	c.mu.Unlock()
	return func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		was := c.err == nil && c.after[i] != nil
		if was {
			c.after[i] = nil
		}
		return was
	}
}

func (c *deadline) end(err error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err = err
	after := c.after
	c.mu.Unlock()
	Close(c.up)
	for _, f := range after {
		if f != nil {
			f()
		}
	}
}

// WithTimeout is context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if !mine() {
		return context.WithTimeout(parent, d)
	}
	return WithDeadline(parent, time.Now().Add(d))
}

// WithDeadline is context.WithDeadline.
func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	if !mine() {
		return context.WithDeadline(parent, at)
	}
	c := &deadline{Context: parent, at: at, up: make(chan struct{})}
	if before, ok := parent.Deadline(); ok && before.Before(at) {
		c.at = before
	}
	if parent.Done() != nil {
		context.AfterFunc(parent, func() { c.end(parent.Err()) })
	}
	t := AfterFunc(time.Until(at), func() { c.end(context.DeadlineExceeded) })
	return c, func() {
		t.Stop()
		c.end(context.Canceled)
	}
}
