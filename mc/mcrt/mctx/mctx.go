// Package mctx stands in for the package context in explored code.
package mctx

import (
	"context"
	"time"

	"verif/mcrt"
	"verif/mcrt/mtime"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
	Background       = context.Background
	TODO             = context.TODO
	WithValue        = context.WithValue
)

type ctx struct {
	parent   Context
	done     chan struct{}
	closed   bool
	err      error
	cause    error
	deadline time.Time
	children []*ctx
	timer    *mtime.Timer
}

type key struct{}

func (c *ctx) Done() <-chan struct{} { return c.done }

func (c *ctx) Err() error {
	mcrt.Yield()
	return c.err
}

func (c *ctx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *ctx) Value(k interface{}) interface{} {
	if _, ok := k.(key); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *ctx) cancel(err, cause error) {
	if c.closed {
		return
	}
	if cause == nil {
		cause = err
	}
	c.closed, c.err, c.cause = true, err, cause
	mcrt.Close(c.done)
	if c.timer != nil {
		c.timer.Stop()
	}
	for _, child := range c.children {
		child.cancel(err, cause)
	}
}

func newCtx(parent Context) *ctx {
	c := &ctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(key{}).(*ctx); ok {
		if p.closed {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func Cause(c Context) error {
	if x, ok := c.Value(key{}).(*ctx); ok {
		return x.cause
	}
	return c.Err()
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	c := newCtx(parent)
	if p, ok := parent.Deadline(); !ok || d.Before(p) {
		c.deadline = d
		if !c.closed {
			c.timer = mtime.AfterFunc(mtime.Until(d), func() { c.cancel(DeadlineExceeded, nil) })
		}
	}
	return c, func() { c.cancel(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, mtime.Now().Add(d))
}
