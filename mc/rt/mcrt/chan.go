//go:build go1.21

package mcrt

import (
	"runtime"
	"unsafe"
)

// chanState is the model of one channel; the native channel value is only
// used as its identity.
type chanState struct {
	key    unsafe.Pointer
	cap    int
	buf    []msg
	recvq  []*waitRef
	sendq  []*waitRef
	closed bool
	keep   interface{}
	// race builds only: happens-before edges exactly as in the Go memory
	// model (send k -> receive k, receive k -> send k+cap, close -> receive)
	recvTok []*byte
	nsend   int
	csync   byte
}

type msg struct {
	v   interface{}
	tok *byte
}

type waitRef struct {
	op   *waitOp
	idx  int
	send bool
	m    msg   // value to send
	rtok *byte // receiver's history
}

type selCase struct {
	c    *chanState
	send bool
	val  interface{}
}

// newTok publishes the calling thread's history on a fresh sync object.
func newTok() *byte {
	if !RaceBuild {
		return nil
	}
	p := new(byte)
	raceEnable()
	raceReleaseMerge(p)
	raceDisable()
	return p
}

func acqTok(p *byte) {
	if !RaceBuild || p == nil {
		return
	}
	raceEnable()
	raceAcquire(p)
	raceDisable()
}

// sent accounts for send number nsend and returns the token of the receive
// that happens before its completion.
func (c *chanState) sent() *byte {
	if !RaceBuild {
		return nil
	}
	k := c.nsend - c.cap
	c.nsend++
	if k >= 0 && k < len(c.recvTok) {
		return c.recvTok[k]
	}
	return nil
}

func (c *chanState) received(rtok *byte) {
	if RaceBuild {
		c.recvTok = append(c.recvTok, rtok)
	}
}

// chanTable maps channel pointers to their model (open addressing; no Go
// map so that nothing here is visible to the race detector).
type chanTable struct {
	ents []*chanState
	n    int
}

func hashPtr(p unsafe.Pointer) uintptr {
	h := uintptr(p)
	h ^= h >> 17
	h *= 0x9E3779B97F4A7C15
	return h ^ (h >> 29)
}

func (ct *chanTable) get(p unsafe.Pointer, capacity int, keep interface{}) *chanState {
	if ct.n*2 >= len(ct.ents) {
		old := ct.ents
		sz := len(old) * 2
		if sz == 0 {
			sz = 64
		}
		ct.ents = make([]*chanState, sz)
		for _, e := range old {
			if e != nil {
				ct.put(e)
			}
		}
	}
	m := uintptr(len(ct.ents) - 1)
	for i := hashPtr(p) & m; ; i = (i + 1) & m {
		e := ct.ents[i]
		if e == nil {
			e = &chanState{key: p, cap: capacity, keep: keep}
			ct.ents[i] = e
			ct.n++
			return e
		}
		if e.key == p {
			return e
		}
	}
}

func (ct *chanTable) put(e *chanState) {
	m := uintptr(len(ct.ents) - 1)
	i := hashPtr(e.key) & m
	for ct.ents[i] != nil {
		i = (i + 1) & m
	}
	ct.ents[i] = e
}

func firstWaiter(q *[]*waitRef) *waitRef {
	for len(*q) > 0 {
		r := (*q)[0]
		*q = (*q)[1:]
		if !r.op.done {
			return r
		}
	}
	return nil
}

func hasWaiter(q *[]*waitRef) bool {
	for len(*q) > 0 {
		if !(*q)[0].op.done {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

func (x *Exec) complete(r *waitRef, val interface{}, ok bool, tok *byte) {
	r.op.done = true
	r.op.idx = r.idx
	r.op.val = val
	r.op.ok = ok
	r.op.tok = tok
	x.makeRunnable(r.op.t)
}

func (c *chanState) sendReady() bool {
	return c.closed || len(c.buf) < c.cap || hasWaiter(&c.recvq)
}

func (c *chanState) recvReady() bool {
	return len(c.buf) > 0 || c.closed || hasWaiter(&c.sendq)
}

// doSend performs a ready send. Race sync is disabled on entry.
func (x *Exec) doSend(c *chanState, v interface{}) {
	if c.closed {
		raceEnable()
		panic("send on closed channel")
	}
	m := msg{v, newTok()}
	if r := firstWaiter(&c.recvq); r != nil {
		c.received(r.rtok)
		x.complete(r, v, true, m.tok)
	} else {
		c.buf = append(c.buf, m)
	}
	acqTok(c.sent())
}

// envSend delivers a value from scheduler context (timers), dropping it
// when the buffer is full.
func (x *Exec) envSend(c *chanState, v interface{}) bool {
	if c.closed {
		return false
	}
	if r := firstWaiter(&c.recvq); r != nil {
		c.received(r.rtok)
		c.sent()
		x.complete(r, v, true, nil)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, msg{v, nil})
		c.sent()
		return true
	}
	return false
}

// doRecv performs a ready receive.
func (x *Exec) doRecv(c *chanState) (interface{}, bool) {
	if len(c.buf) > 0 {
		m := c.buf[0]
		c.buf = append(c.buf[:0:0], c.buf[1:]...)
		acqTok(m.tok)
		c.received(newTok())
		if r := firstWaiter(&c.sendq); r != nil {
			c.buf = append(c.buf, r.m)
			x.complete(r, nil, true, c.sent())
		}
		return m.v, true
	}
	if r := firstWaiter(&c.sendq); r != nil {
		acqTok(r.m.tok)
		c.received(newTok())
		x.complete(r, nil, true, c.sent())
		return r.m.v, true
	}
	// closed
	acqTok(&c.csync)
	return nil, false
}

func (x *Exec) chanOf(p unsafe.Pointer, capacity int, keep interface{}) *chanState {
	return x.chans.get(p, capacity, keep)
}

// opSend sends v (blocking).
func opSend(p unsafe.Pointer, capacity int, keep, v interface{}) {
	x := X
	if x == nil {
		panic("channel operation outside of an execution")
	}
	x.checkEnding()
	raceDisable()
	x.point("send")
	if p == nil {
		x.park(&waitOp{what: "send on nil channel"})
	}
	c := x.chanOf(p, capacity, keep)
	if c.sendReady() {
		x.doSend(c, v)
		raceEnable()
		return
	}
	op := &waitOp{what: "chan send"}
	c.sendq = append(c.sendq, &waitRef{op: op, idx: 0, send: true, m: msg{v, newTok()}})
	x.park(op)
	if !op.ok {
		raceEnable()
		panic("send on closed channel")
	}
	acqTok(op.tok)
	raceEnable()
}

func opRecv(p unsafe.Pointer, capacity int, keep interface{}) (interface{}, bool) {
	x := X
	if x == nil {
		panic("channel operation outside of an execution")
	}
	x.checkEnding()
	raceDisable()
	x.point("recv")
	if p == nil {
		x.park(&waitOp{what: "receive from nil channel"})
	}
	c := x.chanOf(p, capacity, keep)
	if c.recvReady() {
		v, ok := x.doRecv(c)
		raceEnable()
		return v, ok
	}
	op := &waitOp{what: "chan receive"}
	c.recvq = append(c.recvq, &waitRef{op: op, rtok: newTok()})
	x.park(op)
	acqTok(op.tok)
	raceEnable()
	return op.val, op.ok
}

func opClose(p unsafe.Pointer, capacity int, keep interface{}) {
	x := X
	if x == nil {
		panic("channel operation outside of an execution")
	}
	if x.ending {
		return
	}
	raceDisable()
	x.point("close")
	if p == nil {
		raceEnable()
		panic("close of nil channel")
	}
	c := x.chanOf(p, capacity, keep)
	if c.closed {
		raceEnable()
		panic("close of closed channel")
	}
	if RaceBuild {
		raceEnable()
		raceReleaseMerge(&c.csync)
		raceDisable()
	}
	x.closeChan(c)
	raceEnable()
}

func (x *Exec) closeChan(c *chanState) {
	c.closed = true
	for {
		r := firstWaiter(&c.recvq)
		if r == nil {
			break
		}
		x.complete(r, nil, false, &c.csync)
	}
	for {
		r := firstWaiter(&c.sendq)
		if r == nil {
			break
		}
		x.complete(r, nil, false, &c.csync)
	}
}

func opLen(p unsafe.Pointer, capacity int, keep interface{}) int {
	x := X
	if x == nil || p == nil {
		return 0
	}
	return len(x.chanOf(p, capacity, keep).buf)
}

// opSelect runs a select statement. cases[i].c is nil for nil channels.
func opSelect(hasDefault bool, cases []selCase) (int, interface{}, bool) {
	x := X
	if x == nil {
		panic("select outside of an execution")
	}
	x.checkEnding()
	raceDisable()
	x.point("select")
	var ready [16]int
	n := 0
	for i := range cases {
		c := cases[i].c
		if c == nil {
			continue
		}
		if cases[i].send && c.sendReady() || !cases[i].send && c.recvReady() {
			if n < len(ready) {
				ready[n] = i
				n++
			}
		}
	}
	if n > 0 {
		k := 0
		if n > 1 {
			k = x.choose(n, ClassSched, "select")
			if x.ending {
				x.stop()
			}
		}
		i := ready[k]
		if cases[i].send {
			x.doSend(cases[i].c, cases[i].val)
			raceEnable()
			return i, nil, true
		}
		v, ok := x.doRecv(cases[i].c)
		raceEnable()
		return i, v, ok
	}
	if hasDefault {
		raceEnable()
		return -1, nil, false
	}
	op := &waitOp{what: "select"}
	tok := newTok()
	for i := range cases {
		c := cases[i].c
		if c == nil {
			continue
		}
		r := &waitRef{op: op, idx: i, send: cases[i].send, m: msg{cases[i].val, tok}, rtok: tok}
		if cases[i].send {
			c.sendq = append(c.sendq, r)
		} else {
			c.recvq = append(c.recvq, r)
		}
	}
	x.park(op)
	i := op.idx
	acqTok(op.tok)
	if cases[i].send && !op.ok {
		raceEnable()
		panic("send on closed channel")
	}
	raceEnable()
	return i, op.val, op.ok
}

// BlockForever is select{}.
func BlockForever() {
	x := X
	x.checkEnding()
	raceDisable()
	x.park(&waitOp{what: "select{}"})
	runtime.Goexit()
}

// ---------------------------------------------------------------------
// typed front end used by instrumented code

func ptrOf[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func ptrOfS[T any](ch chan<- T) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&ch))
}

func unbox[T any](v interface{}) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := opRecv(ptrOf(ch), cap(ch), ch)
	return unbox[T](v)
}

// Recv2 is the two value form of <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok := opRecv(ptrOf(ch), cap(ch), ch)
	return unbox[T](v), ok
}

// Sender carries the channel of a send statement.
type Sender[T any] struct{ ch chan<- T }

// SendTo starts a send statement.
func SendTo[T any](ch chan<- T) Sender[T] { return Sender[T]{ch} }

// Do sends v.
func (s Sender[T]) Do(v T) { opSend(ptrOfS(s.ch), cap(s.ch), s.ch, v) }

// Close is close(ch).
func Close[T any](ch chan<- T) { opClose(ptrOfS(ch), cap(ch), ch) }

// Len is len(ch) for receivable channels.
func Len[T any](ch <-chan T) int { return opLen(ptrOf(ch), cap(ch), ch) }

// LenS is len(ch) for send-only channels.
func LenS[T any](ch chan<- T) int { return opLen(ptrOfS(ch), cap(ch), ch) }

// Case is one case of a select statement.
type Case interface {
	selCase() selCase
	set(v interface{}, ok bool)
}

// RCase is a receive case.
type RCase[T any] struct {
	ch <-chan T
	V  T
	Ok bool
}

// R builds a receive case.
func R[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

func (c *RCase[T]) selCase() selCase {
	if c.ch == nil {
		return selCase{}
	}
	return selCase{c: lookup(ptrOf(c.ch), cap(c.ch), c.ch)}
}
func (c *RCase[T]) set(v interface{}, ok bool) { c.V, c.Ok = unbox[T](v), ok }

// SCase is a send case.
type SCase[T any] struct {
	ch chan<- T
	v  T
}

// S builds a send case.
func S[T any](ch chan<- T) *SCase[T] { return &SCase[T]{ch: ch} }

// With sets the value to send.
func (c *SCase[T]) With(v T) *SCase[T] { c.v = v; return c }

func (c *SCase[T]) selCase() selCase {
	if c.ch == nil {
		return selCase{send: true}
	}
	return selCase{c: lookup(ptrOfS(c.ch), cap(c.ch), c.ch), send: true, val: c.v}
}
func (c *SCase[T]) set(v interface{}, ok bool) {}

func lookup(p unsafe.Pointer, capacity int, keep interface{}) *chanState {
	if X == nil {
		panic("select outside of an execution")
	}
	return X.chanOf(p, capacity, keep)
}

// Select runs a select statement; -1 means default.
func Select(hasDefault bool, cases ...Case) int {
	sc := make([]selCase, len(cases))
	for i, c := range cases {
		sc[i] = c.selCase()
	}
	i, v, ok := opSelect(hasDefault, sc)
	if i >= 0 {
		cases[i].set(v, ok)
	}
	return i
}

// EnvSend delivers v on ch without blocking, from scheduler context.
func EnvSend[T any](ch chan T, v T) bool {
	return X.envSend(X.chanOf(ptrOf[T](ch), cap(ch), ch), v)
}

// EnvClose closes ch from scheduler or fake context (no point).
func EnvClose[T any](ch chan T) {
	x := X
	c := x.chanOf(ptrOf[T](ch), cap(ch), ch)
	if c.closed {
		return
	}
	x.closeChan(c)
}

// EnvRecv withdraws a buffered value from ch; it reports whether there was
// one (no point).
func EnvRecv[T any](ch <-chan T) bool {
	if X == nil || X.ending {
		return false
	}
	c := X.chanOf(ptrOf(ch), cap(ch), ch)
	if len(c.buf) == 0 {
		return false
	}
	c.buf = append(c.buf[:0:0], c.buf[1:]...)
	return true
}
