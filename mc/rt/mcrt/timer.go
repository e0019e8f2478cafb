//go:build go1.21

package mcrt

// Timer is a virtual timer. fire runs in scheduler context.
type Timer struct {
	when  int64
	seq   int64
	idx   int // heap index, -1 when not armed
	fire  func()
	label string
}

type timerHeap struct{ h []*Timer }

func (th *timerHeap) less(i, j int) bool {
	a, b := th.h[i], th.h[j]
	if a.when != b.when {
		return a.when < b.when
	}
	return a.seq < b.seq
}
func (th *timerHeap) swap(i, j int) {
	th.h[i], th.h[j] = th.h[j], th.h[i]
	th.h[i].idx, th.h[j].idx = i, j
}
func (th *timerHeap) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !th.less(i, p) {
			return
		}
		th.swap(i, p)
		i = p
	}
}
func (th *timerHeap) down(i int) {
	for {
		l := 2*i + 1
		if l >= len(th.h) {
			return
		}
		if l+1 < len(th.h) && th.less(l+1, l) {
			l++
		}
		if !th.less(l, i) {
			return
		}
		th.swap(i, l)
		i = l
	}
}

func (th *timerHeap) push(t *Timer) {
	t.idx = len(th.h)
	th.h = append(th.h, t)
	th.up(t.idx)
}

func (th *timerHeap) remove(t *Timer) bool {
	i := t.idx
	if i < 0 || i >= len(th.h) || th.h[i] != t {
		return false
	}
	last := len(th.h) - 1
	if i != last {
		th.swap(i, last)
	}
	th.h = th.h[:last]
	if i != last {
		th.down(i)
		th.up(i)
	}
	t.idx = -1
	return true
}

// NewTimer arms a timer d nanoseconds from now.
func NewTimer(d int64, fire func()) *Timer {
	x := X
	t := &Timer{fire: fire, idx: -1}
	x.arm(t, d)
	return t
}

func (x *Exec) arm(t *Timer, d int64) {
	if d < 0 {
		d = 0
	}
	w := x.now + d
	if w < x.now { // overflow
		w = int64(^uint64(0) >> 1)
	}
	t.when = w
	x.tseq++
	t.seq = x.tseq
	x.timers.push(t)
}

// StopTimer disarms t; it reports whether it was armed.
func StopTimer(t *Timer) bool {
	if X == nil || X.ending {
		return false
	}
	return X.timers.remove(t)
}

// ResetTimer rearms t; it reports whether it was armed.
func ResetTimer(t *Timer, d int64) bool {
	if X == nil || X.ending {
		return false
	}
	was := X.timers.remove(t)
	X.arm(t, d)
	return was
}

func (x *Exec) advance() {
	w := x.timers.h[0].when
	if w > x.now {
		x.now = w
	}
	for len(x.timers.h) > 0 && x.timers.h[0].when <= x.now {
		t := x.timers.h[0]
		x.timers.remove(t)
		t.fire()
	}
}

// NowNanos returns the virtual time.
func NowNanos() int64 {
	if X == nil {
		return Epoch
	}
	return X.now
}

// SleepNanos parks the current thread for d.
func SleepNanos(d int64) {
	x := X
	if x == nil {
		return
	}
	x.checkEnding()
	raceDisable()
	if d <= 0 {
		x.yieldLow()
		raceEnable()
		return
	}
	t := x.cur
	op := &waitOp{what: "sleep"}
	NewTimer(d, func() { x.makeRunnable(t) })
	x.park(op)
	raceEnable()
}

// SetNow jumps the virtual clock forward without firing timers (scenario
// setup only).
func SetNow(ns int64) { X.now = ns }

// StartThread starts a thread from scheduler context (timer callbacks).
func (x *Exec) startFromTimer(name string, f func()) {
	t := x.newThread(name)
	x.start(t, f)
	x.runq = append(x.runq, t)
}

// AfterFunc arms a timer which runs f in a new thread.
func AfterFunc(d int64, f func()) *Timer {
	x := X
	return NewTimer(d, func() { x.startFromTimer("afterfunc", f) })
}

// ---------------------------------------------------------------------
// generic blocking used by the fakes

// Waiter is a simple wait queue for fakes.
type Waiter struct{ ts []*Thread }

// WakeAll makes every waiting thread runnable.
func (w *Waiter) WakeAll() {
	x := X
	if x == nil || x.ending {
		return
	}
	for _, t := range w.ts {
		x.makeRunnable(t)
	}
	w.ts = w.ts[:0]
}

func (w *Waiter) drop(t *Thread) {
	for i, o := range w.ts {
		if o == t {
			w.ts = append(w.ts[:i], w.ts[i+1:]...)
			return
		}
	}
}

// BlockUntil blocks the current thread until cond holds; it is evaluated
// whenever the waiter is woken.  With deadline >= 0 it gives up at that
// virtual time and returns false.
func BlockUntil(what string, w *Waiter, deadline int64, cond func() bool) bool {
	x := X
	x.checkEnding()
	raceDisable()
	x.point(what)
	for !cond() {
		if deadline >= 0 && x.now >= deadline {
			raceEnable()
			return false
		}
		t := x.cur
		w.ts = append(w.ts, t)
		var tm *Timer
		if deadline >= 0 {
			tm = NewTimer(deadline-x.now, func() { x.makeRunnable(t) })
		}
		x.park(&waitOp{what: what})
		w.drop(t)
		if tm != nil {
			x.timers.remove(tm)
		}
	}
	raceEnable()
	return true
}
