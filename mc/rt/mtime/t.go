//go:build go1.21

// Package mtime is the virtual clock version of the parts of package time
// that read the clock or wait.
package mtime

import (
	"time"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
)

func at(ns int64) time.Time { return time.Unix(0, ns).UTC() }

func Now() time.Time                         { return at(mcrt.NowNanos()) }
func Since(t time.Time) time.Duration        { return Now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(Now()) }
func Sleep(d time.Duration)                  { mcrt.SleepNanos(int64(d)) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Timer models time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	t *mcrt.Timer
}

func NewTimer(d time.Duration) *Timer {
	mcrt.GoexitIfEnding()
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.t = mcrt.NewTimer(int64(d), func() { mcrt.EnvSend(c, Now()) })
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	mcrt.GoexitIfEnding()
	return &Timer{t: mcrt.AfterFunc(int64(d), f)}
}

// sync: in the Go version in use, an expired timer whose value has not been
// received counts as running, and Stop and Reset withdraw the value.
var syncChan = func() bool {
	t := time.NewTimer(time.Hour)
	defer t.Stop()
	return cap(t.C) == 0
}()

func withdraw(c <-chan time.Time) bool { return syncChan && c != nil && mcrt.EnvRecv(c) }

// Stop disarms the timer.
func (t *Timer) Stop() bool {
	w := withdraw(t.C)
	return mcrt.StopTimer(t.t) || w
}

// Reset arms the timer again.
func (t *Timer) Reset(d time.Duration) bool {
	w := withdraw(t.C)
	return mcrt.ResetTimer(t.t, int64(d)) || w
}

// Ticker models time.Ticker.
type Ticker struct {
	C       <-chan time.Time
	t       *mcrt.Timer
	d       time.Duration
	stopped bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	mcrt.GoexitIfEnding()
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, d: d}
	t.t = mcrt.NewTimer(int64(d), func() {
		mcrt.EnvSend(c, Now())
		if !t.stopped {
			mcrt.ResetTimer(t.t, int64(t.d))
		}
	})
	return t
}

func (t *Ticker) Stop() {
	t.stopped = true
	withdraw(t.C)
	mcrt.StopTimer(t.t)
}

func (t *Ticker) Reset(d time.Duration) {
	t.stopped = false
	withdraw(t.C)
	t.d = d
	mcrt.ResetTimer(t.t, int64(d))
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
