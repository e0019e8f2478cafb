//go:build go1.21

package mcrt

import "runtime"

// Mutex models sync.Mutex.
type Mutex struct {
	locked bool
	w      Waiter
	rs     byte
}

// Lock locks m.
func (m *Mutex) Lock() {
	x := X
	if x == nil {
		return
	}
	x.checkEnding()
	raceDisable()
	x.point("lock")
	for m.locked {
		m.w.ts = append(m.w.ts, x.cur)
		x.park(&waitOp{what: "mutex"})
	}
	m.locked = true
	raceEnable()
	raceAcquire(&m.rs)
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	x := X
	if x == nil {
		return true
	}
	x.checkEnding()
	raceDisable()
	x.point("trylock")
	if m.locked {
		raceEnable()
		return false
	}
	m.locked = true
	raceEnable()
	raceAcquire(&m.rs)
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	x := X
	if x == nil || x.ending {
		return
	}
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	raceReleaseMerge(&m.rs)
	raceDisable()
	m.locked = false
	m.w.WakeAll()
	x.point("unlock")
	raceEnable()
}

func fatal(msg string) { panic("fatal error: " + msg) }

// RWMutex models sync.RWMutex (a waiting writer blocks new readers).
type RWMutex struct {
	w        Waiter
	writer   bool
	readers  int
	wwaiting int
	rs       byte
	rr       byte
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	x := X
	if x == nil {
		return
	}
	x.checkEnding()
	raceDisable()
	x.point("wlock")
	for m.writer || m.readers > 0 {
		m.wwaiting++
		m.w.ts = append(m.w.ts, x.cur)
		x.park(&waitOp{what: "rwmutex"})
		m.wwaiting--
	}
	m.writer = true
	raceEnable()
	raceAcquire(&m.rs)
	raceAcquire(&m.rr)
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	x := X
	if x == nil {
		return true
	}
	x.checkEnding()
	raceDisable()
	x.point("trywlock")
	if m.writer || m.readers > 0 {
		raceEnable()
		return false
	}
	m.writer = true
	raceEnable()
	raceAcquire(&m.rs)
	raceAcquire(&m.rr)
	return true
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	x := X
	if x == nil || x.ending {
		return
	}
	if !m.writer {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	raceReleaseMerge(&m.rs)
	raceDisable()
	m.writer = false
	m.w.WakeAll()
	x.point("wunlock")
	raceEnable()
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	x := X
	if x == nil {
		return
	}
	x.checkEnding()
	raceDisable()
	x.point("rlock")
	for m.writer || m.wwaiting > 0 {
		m.w.ts = append(m.w.ts, x.cur)
		x.park(&waitOp{what: "rwmutex"})
		if !m.writer && m.readers > 0 {
			break
		}
		if !m.writer {
			break
		}
	}
	m.readers++
	raceEnable()
	raceAcquire(&m.rs)
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	x := X
	if x == nil {
		return true
	}
	x.checkEnding()
	raceDisable()
	x.point("tryrlock")
	if m.writer {
		raceEnable()
		return false
	}
	m.readers++
	raceEnable()
	raceAcquire(&m.rs)
	return true
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	x := X
	if x == nil || x.ending {
		return
	}
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(&m.rr)
	raceDisable()
	m.readers--
	if m.readers == 0 {
		m.w.WakeAll()
	}
	x.point("runlock")
	raceEnable()
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup models sync.WaitGroup.
type WaitGroup struct {
	n  int
	w  Waiter
	rs byte
}

// Add adds delta.
func (wg *WaitGroup) Add(delta int) {
	x := X
	if x == nil || x.ending {
		return
	}
	if delta < 0 {
		raceReleaseMerge(&wg.rs)
	}
	raceDisable()
	x.point("wg")
	wg.n += delta
	if wg.n < 0 {
		raceEnable()
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 {
		wg.w.WakeAll()
	}
	raceEnable()
}

// Done is Add(-1).
func (wg *WaitGroup) Done() { wg.Add(-1) }

// Go runs f in a new thread accounted for by wg.
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	Go(func() {
		defer wg.Done()
		f()
	})
}

// Wait blocks until the counter is zero.
func (wg *WaitGroup) Wait() {
	x := X
	if x == nil {
		return
	}
	x.checkEnding()
	raceDisable()
	x.point("wait")
	for wg.n > 0 {
		wg.w.ts = append(wg.w.ts, x.cur)
		x.park(&waitOp{what: "waitgroup"})
	}
	raceEnable()
	raceAcquire(&wg.rs)
}

// Once models sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	if X == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	o.m.Lock()
	if o.done {
		o.m.Unlock()
		return
	}
	defer o.m.Unlock()
	defer func() { o.done = true }()
	f()
}

// Cond models sync.Cond.
type Cond struct {
	L    Locker
	wait []*Thread
	rs   byte
}

// NewCond returns a new Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a wakeup.
func (c *Cond) Wait() {
	x := X
	x.checkEnding()
	t := x.cur
	c.wait = append(c.wait, t)
	c.L.Unlock()
	raceDisable()
	for {
		in := false
		for _, o := range c.wait {
			if o == t {
				in = true
			}
		}
		if !in {
			break
		}
		x.park(&waitOp{what: "cond"})
	}
	raceEnable()
	raceAcquire(&c.rs)
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	x := X
	if x == nil || x.ending {
		return
	}
	raceReleaseMerge(&c.rs)
	raceDisable()
	x.point("signal")
	if len(c.wait) > 0 {
		t := c.wait[0]
		c.wait = append(c.wait[:0:0], c.wait[1:]...)
		x.makeRunnable(t)
	}
	raceEnable()
}

// Broadcast wakes every waiter.
func (c *Cond) Broadcast() {
	x := X
	if x == nil || x.ending {
		return
	}
	raceReleaseMerge(&c.rs)
	raceDisable()
	x.point("broadcast")
	for _, t := range c.wait {
		x.makeRunnable(t)
	}
	c.wait = nil
	raceEnable()
}

// Pool models sync.Pool: Get may return any pooled item or a new one.
type Pool struct {
	New   func() interface{}
	items []interface{}
	rs    byte
	id    byte
}

// Get takes an item.
func (p *Pool) Get() interface{} {
	x := X
	if x != nil {
		x.checkEnding()
		raceDisable()
		x.point("poolget")
		raceEnable()
	}
	raceAcquire(&p.rs)
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	x := X
	if x != nil {
		if x.ending {
			return
		}
		raceReleaseMerge(&p.rs)
		raceDisable()
		x.point("poolput")
		raceEnable()
	}
	p.items = append(p.items, v)
}

// Map models sync.Map.
type Map struct {
	m    Mutex
	keys []interface{}
	vals []interface{}
}

func (m *Map) find(k interface{}) int {
	for i := range m.keys {
		if m.keys[i] == k {
			return i
		}
	}
	return -1
}

// Load returns the value for k.
func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if i := m.find(k); i >= 0 {
		return m.vals[i], true
	}
	return nil, false
}

// Store sets the value for k.
func (m *Map) Store(k, v interface{}) {
	m.m.Lock()
	defer m.m.Unlock()
	if i := m.find(k); i >= 0 {
		m.vals[i] = v
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

// LoadOrStore returns the existing value or stores v.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if i := m.find(k); i >= 0 {
		return m.vals[i], true
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	return v, false
}

// LoadAndDelete deletes k.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if i := m.find(k); i >= 0 {
		v := m.vals[i]
		m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
		m.vals = append(m.vals[:i:i], m.vals[i+1:]...)
		return v, true
	}
	return nil, false
}

// Delete deletes k.
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

// Range calls f for each entry.
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.m.Lock()
	ks := append([]interface{}(nil), m.keys...)
	vs := append([]interface{}(nil), m.vals...)
	m.m.Unlock()
	for i := range ks {
		if !f(ks[i], vs[i]) {
			return
		}
	}
}

// AtomicPoint is the scheduling point before an atomic operation.
func AtomicPoint() {
	x := X
	if x == nil || !x.opts.Atomics || x.cur == nil {
		return
	}
	if x.ending {
		return
	}
	raceDisable()
	x.point("atomic")
	raceEnable()
}

// GoexitIfEnding unwinds during teardown.
func GoexitIfEnding() {
	if X != nil && X.ending {
		runtime.Goexit()
	}
}
