//go:build go1.21

// Package mctx models the cancellable contexts of package context.
package mctx

import (
	"context"
	"errors"
	"time"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
)

type Ctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	deadline int64
	kids     []*Ctx
	timer    *mcrt.Timer
	// W is woken when the context ends.
	W mcrt.Waiter
}

func (c *Ctx) Deadline() (time.Time, bool) {
	if c.deadline > 0 {
		return time.Unix(0, c.deadline).UTC(), true
	}
	return c.parent.Deadline()
}
func (c *Ctx) Done() <-chan struct{} { return c.done }
func (c *Ctx) Err() error            { return c.err }

type self struct{}

func (c *Ctx) Value(k interface{}) interface{} {
	if _, ok := k.(self); ok {
		return c
	}
	return c.parent.Value(k)
}

// Find returns the modelled context that ctx derives from, or nil.
func Find(ctx context.Context) *Ctx {
	if ctx == nil {
		return nil
	}
	c, _ := ctx.Value(self{}).(*Ctx)
	return c
}

// Cancel cancels with the given error.
func (c *Ctx) Cancel(err error) {
	if c.err != nil || mcrt.Ending() {
		return
	}
	c.err = err
	mcrt.EnvClose(c.done)
	c.W.WakeAll()
	for _, k := range c.kids {
		k.Cancel(err)
	}
}

func newCtx(parent context.Context) *Ctx {
	c := &Ctx{parent: parent, done: make(chan struct{})}
	if pc := Find(parent); pc != nil {
		if pc.err != nil {
			c.Cancel(pc.err)
		} else {
			pc.kids = append(pc.kids, c)
		}
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() {
		mcrt.Yield("cancel")
		c.Cancel(context.Canceled)
	}
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(parent, time.Duration(d.UnixNano()-mcrt.NowNanos()))
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	c.deadline = mcrt.NowNanos() + int64(d)
	c.timer = mcrt.NewTimer(int64(d), func() { c.Cancel(context.DeadlineExceeded) })
	return c, func() {
		mcrt.Yield("cancel")
		mcrt.StopTimer(c.timer)
		c.Cancel(context.Canceled)
	}
}

var ErrUnused = errors.New("unused")
