//go:build go1.21

// Package mcrt is the controlled runtime under which the instrumented
// influx-spout code is model checked.  Every goroutine of the code under
// test is a cooperative thread: exactly one runs at a time and it only
// gives up control inside a function of this package.  Every decision
// (which thread next, which ready select case, which input, which fault)
// goes through choose(), so an execution is a function of its choice
// vector and can be enumerated and replayed.
package mcrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
)

// Choice classes.
const (
	ClassInput = 0 // free: every alternative is always explored
	ClassSched = 1 // scheduling deviation, bounded by Bounds.Sched
	ClassFault = 2 // environment fault, bounded by Bounds.Fault
)

// Point is one recorded decision.
type Point struct {
	N      int
	Chosen int
	Class  uint8
	Label  string
}

// Opts configures one execution.
type Opts struct {
	MaxSteps    int   // horizon: scheduling steps before "no progress"
	CaseSteps   int   // the same for one enumerated case (0: no limit)
	MaxLoops    int64 // loop iterations between two scheduling steps
	Atomics     bool  // atomics are scheduling points
	SlowThreads bool  // a deviation may stall a thread across timer events
	MapOrder    bool  // map iteration order is a (sched class) choice
	Demote      bool  // a deviation may demote a thread until quiescence
	Fine        []string
	NoSwitch    bool // do not offer plain preemption (only demotion)
	Trace       bool
}

const (
	stRunnable = iota
	stRunning
	stParked
	stDone
)

// Thread is one goroutine of the modelled program.
type Thread struct {
	id    int
	Name  string
	baton chan struct{}
	state int
	op    *waitOp
	steps uint64
}

// Exec is one execution.
type Exec struct {
	opts     Opts
	prefix   []int
	Points   []Point
	threads  []*Thread
	runq     []*Thread
	demoted  []*Thread
	stalled  []*Thread // demoted across timer events
	stallN   []int
	cur      *Thread
	now      int64
	timers   timerHeap
	tseq     int64
	chans    chanTable
	Steps    int
	fp       uint64
	caseBase int
	loops    int64
	ending   bool
	endTh    *Thread
	finished chan struct{}
	joinAddr byte
	live     int

	Violation string
	Kind      string // "" | "fail" | "panic" | "deadlock" | "hang" | "exit" | "diverge"
	Stack     string
	Log       []string
	Races     []string // data races reported during this execution
	races0    int
	Obs       []string
	cleanup   []func()
	Data      map[string]interface{}
}

// X is the current execution, nil outside of one.
var X *Exec

// Epoch is the virtual time at which every execution starts.
const Epoch = int64(1600000000) * 1e9

// Run executes body as the main thread of a new execution that follows
// the given choice prefix and takes alternative 0 afterwards.
func Run(opts Opts, prefix []int, body func()) *Exec {
	if opts.MaxSteps == 0 {
		opts.MaxSteps = 1000000
	}
	if opts.MaxLoops == 0 {
		opts.MaxLoops = 200000000
	}
	x := &Exec{opts: opts, prefix: prefix, now: Epoch, finished: make(chan struct{}, 1), Data: map[string]interface{}{}}
	setFine(opts.Fine)
	X = x
	x.races0 = RaceErrors()
	main := x.newThread("main")
	x.start(main, body)
	main.state = stRunning
	x.cur = main
	raceDisable()
	main.baton <- struct{}{}
	<-x.finished
	raceEnable()
	raceAcquire(&x.joinAddr)
	for i := len(x.cleanup) - 1; i >= 0; i-- {
		x.cleanup[i]()
	}
	setFine(nil)
	X = nil
	return x
}

// OnEnd registers a function run after the execution has been torn down.
func OnEnd(f func()) { X.cleanup = append(X.cleanup, f) }

func (x *Exec) newThread(name string) *Thread {
	t := &Thread{id: len(x.threads), Name: name, baton: make(chan struct{}, 1), state: stRunnable}
	x.threads = append(x.threads, t)
	x.live++
	return t
}

func (x *Exec) start(t *Thread, f func()) {
	go x.threadMain(t, f)
}

func (x *Exec) threadMain(t *Thread, f func()) {
	raceDisable()
	<-t.baton
	raceEnable()
	if x.ending {
		x.threadExit(t)
		return
	}
	normal := false
	defer func() {
		if !normal {
			if r := recover(); r != nil {
				x.recordPanic(t, r)
			}
		}
		x.threadExit(t)
	}()
	f()
	normal = true
}

func (x *Exec) recordPanic(t *Thread, r interface{}) {
	if x.Violation != "" || (x.ending && x.endTh != t) {
		return
	}
	x.Kind = "panic"
	x.Violation = fmt.Sprintf("panic in thread %s: %v", t.Name, r)
	x.Stack = cleanStack(string(debug.Stack()))
	x.setEnding()
}

func cleanStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "runtime/debug") || strings.Contains(l, "mcrt.(*Exec)") {
			continue
		}
		out = append(out, l)
		if len(out) > 40 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// threadExit runs on the thread's goroutine when it is finished.
func (x *Exec) threadExit(t *Thread) {
	raceReleaseMerge(&x.joinAddr)
	raceDisable()
	t.state = stDone
	x.live--
	if t.id == 0 && !x.ending {
		x.setEnding()
	}
	if x.ending {
		x.killNext()
		return
	}
	x.cur = nil
	x.dispatch(nil)
}

// killNext unwinds the remaining threads one after the other.
func (x *Exec) killNext() {
	for _, o := range x.threads {
		if o.state != stDone {
			x.cur = o
			o.state = stRunning
			o.baton <- struct{}{}
			return
		}
	}
	x.finished <- struct{}{}
}

// setEnding starts the teardown.
func (x *Exec) setEnding() {
	if !x.ending {
		x.ending = true
		x.Races = raceReports(x.races0)
	}
}

// stop unwinds the calling thread; race sync must be disabled.
func (x *Exec) stop() {
	x.endTh = x.cur
	raceUndo()
	runtime.Goexit()
}

// Fail records a violation and ends the execution.
func Fail(format string, args ...interface{}) {
	x := X
	if x.ending {
		runtime.Goexit()
	}
	if x.Violation == "" {
		x.Kind = "fail"
		x.Violation = fmt.Sprintf(format, args...)
	}
	x.setEnding()
	x.endTh = x.cur
	runtime.Goexit()
}

// ExitProcess models os.Exit / log.Fatal.
func ExitProcess(why string) {
	x := X
	if x == nil {
		panic("process exit: " + why)
	}
	if !x.ending && x.Violation == "" {
		x.Kind = "exit"
		x.Violation = "process exit: " + why
	}
	x.setEnding()
	x.endTh = x.cur
	runtime.Goexit()
}

func (x *Exec) failKind(kind, msg string) {
	if x.Violation == "" {
		x.Kind = kind
		x.Violation = msg
	}
	x.setEnding()
}

// choose is the only source of nondeterminism.
func (x *Exec) choose(n int, class uint8, label string) int {
	if n <= 1 {
		return 0
	}
	i := len(x.Points)
	c := 0
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c >= n {
			x.failKind("diverge", fmt.Sprintf("replay divergence at point %d (%s): choice %d of %d", i, label, c, n))
			c = 0
		}
	}
	x.Points = append(x.Points, Point{n, c, class, label})
	return c
}

// Choose is a free (input) choice.
func Choose(label string, n int) int {
	x := X
	c := x.choose(n, ClassInput, label)
	x.fp ^= mix(uint64(len(x.Points))<<20 ^ uint64(c) ^ 0xabcdef<<40)
	return c
}

// Fault is an environment choice: alternative 0 is the fault-free one.
func Fault(label string, n int) int {
	if X.ending {
		return 0
	}
	return X.choose(n, ClassFault, label)
}

// SchedChoice is a choice charged to the scheduling budget.
func SchedChoice(label string, n int) int {
	if X == nil || X.ending {
		return 0
	}
	return X.choose(n, ClassSched, label)
}

// Observe adds to the observed outcome (for distinct-outcome counting).
func Observe(format string, args ...interface{}) {
	X.Obs = append(X.Obs, fmt.Sprintf(format, args...))
}

// Logf adds a line to the execution's trace.
func Logf(format string, args ...interface{}) {
	if X == nil || X.ending {
		return
	}
	if X.opts.Trace {
		name := "?"
		if X.cur != nil {
			name = X.cur.Name
		}
		X.Log = append(X.Log, fmt.Sprintf("[%d.%06d %s] ", (X.now-Epoch)/1e9, (X.now-Epoch)%1e9/1000, name)+fmt.Sprintf(format, args...))
	}
}

func (x *Exec) tracef(format string, args ...interface{}) {
	if x.opts.Trace && !x.ending {
		raceDisable()
		Logf(format, args...)
		raceEnable()
	}
}

// checkEnding unwinds the calling thread when the execution is over.
func (x *Exec) checkEnding() {
	if x.ending {
		runtime.Goexit()
	}
}

// States is a bitmap of abstract scheduler states seen (per thread step
// counters and virtual time, hashed); StatesN counts the set bits.
var (
	States  [1 << 17]uint64
	StatesN int
)

func mix(v uint64) uint64 {
	v ^= v >> 30
	v *= 0xbf58476d1ce4e5b9
	v ^= v >> 27
	v *= 0x94d049bb133111eb
	return v ^ v>>31
}

// StateSalt distinguishes the scenarios sharing the bitmap.
var StateSalt uint64

func (x *Exec) note() {
	h := mix(x.fp ^ uint64(x.now) ^ StateSalt)
	w, b := (h>>6)&(1<<17-1), uint64(1)<<(h&63)
	if States[w]&b == 0 {
		States[w] |= b
		StatesN++
	}
}

func (x *Exec) step() bool {
	x.Steps++
	x.loops = 0
	if t := x.cur; t != nil {
		x.fp ^= mix(uint64(t.id)<<40 | t.steps)
		t.steps++
		x.fp ^= mix(uint64(t.id)<<40 | t.steps)
		x.note()
	}
	if x.Steps&(1<<14-1) == 0 && memoryRunaway() {
		x.failKind("hang", "no termination before the memory is exhausted")
		return false
	}
	if x.opts.CaseSteps > 0 && x.Steps-x.caseBase > x.opts.CaseSteps {
		x.failKind("hang", fmt.Sprintf("no termination within %d scheduling steps", x.opts.CaseSteps))
		return false
	}
	if x.Steps > x.opts.MaxSteps {
		x.failKind("hang", fmt.Sprintf("no termination within %d scheduling steps", x.opts.MaxSteps))
		return false
	}
	return true
}

// point is a scheduling point of the running thread.  It must be called
// with race sync disabled.
func (x *Exec) point(label string) {
	t := x.cur
	if !x.step() {
		x.stop()
	}
	nq := len(x.runq)
	if x.opts.NoSwitch {
		nq = 0
	}
	n := 1 + nq
	dem, slow := -1, -1
	if x.opts.Demote && len(x.runq) > 0 {
		dem = n
		n++
	}
	if x.opts.SlowThreads && (len(x.runq) > 0 || len(x.timers.h) > 0) {
		slow = n
		n++
	}
	c := x.choose(n, ClassSched, label)
	if x.ending {
		x.stop()
	}
	switch {
	case c == 0:
		return
	case c == dem:
		t.state = stRunnable
		x.demoted = append(x.demoted, t)
		x.dispatch(t)
	case c == slow:
		t.state = stRunnable
		x.stalled = append(x.stalled, t)
		x.stallN = append(x.stallN, 1)
		x.dispatch(t)
	default:
		next := x.runq[c-1]
		shiftDown(x.runq[c-1:])
		x.runq = x.runq[:len(x.runq)-1]
		t.state = stRunnable
		// the preempted thread goes to the front
		x.runq = append(x.runq, nil)
		shiftUp(x.runq)
		x.runq[0] = t
		x.switchTo(t, next)
	}
}

// dispatch picks the next thread after "from" stopped running (parked,
// demoted or finished).  It returns when "from" runs again.
func (x *Exec) dispatch(from *Thread) {
	for {
		if len(x.runq) > 0 {
			if !x.step() {
				break
			}
			c := x.choose(len(x.runq), ClassSched, "dispatch")
			if x.ending {
				break
			}
			next := x.runq[c]
			shiftDown(x.runq[c:])
			x.runq = x.runq[:len(x.runq)-1]
			x.switchTo(from, next)
			return
		}
		if len(x.demoted) > 0 {
			// quiescent at this instant: demoted threads continue
			x.runq = append(x.runq, x.demoted[0])
			shiftDown(x.demoted)
			x.demoted = x.demoted[:len(x.demoted)-1]
			continue
		}
		if len(x.timers.h) > 0 {
			if !x.step() {
				break
			}
			x.advance()
			// release stalled threads after their timer events, behind
			// the threads the timer made runnable
			for i := 0; i < len(x.stalled); {
				x.stallN[i]--
				if x.stallN[i] <= 0 {
					x.demoted = append(x.demoted, x.stalled[i])
					shiftDown(x.stalled[i:])
					x.stalled = x.stalled[:len(x.stalled)-1]
					shiftDown(x.stallN[i:])
					x.stallN = x.stallN[:len(x.stallN)-1]
				} else {
					i++
				}
			}
			continue
		}
		if len(x.stalled) > 0 {
			for _, t := range x.stalled {
				x.runq = append(x.runq, t)
			}
			x.stalled = x.stalled[:0]
			x.stallN = x.stallN[:0]
			continue
		}
		x.failKind("deadlock", "deadlock: "+x.describe())
		break
	}
	// the execution is over
	x.setEnding()
	if from != nil {
		x.cur = from
		from.state = stRunning
		x.endTh = from
		raceUndo()
		runtime.Goexit()
	}
	x.killNext()
}

func (x *Exec) describe() string {
	var parts []string
	for _, t := range x.threads {
		if t.state != stDone {
			w := "?"
			if t.op != nil {
				w = t.op.what
			}
			parts = append(parts, t.Name+" waits on "+w)
		}
	}
	return strings.Join(parts, "; ")
}

// switchTo hands the baton from the current thread to next.
func (x *Exec) switchTo(from, next *Thread) {
	if next == from {
		from.state = stRunning
		x.cur = from
		return
	}
	next.state = stRunning
	x.cur = next
	next.baton <- struct{}{}
	if from == nil {
		return
	}
	<-from.baton
	if x.ending {
		raceUndo()
		runtime.Goexit()
	}
}

// makeRunnable marks a parked thread runnable.
func (x *Exec) makeRunnable(t *Thread) {
	if t.state == stParked {
		t.state = stRunnable
		x.runq = append(x.runq, t)
	}
}

// park blocks the current thread until another thread completes its op.
func (x *Exec) park(op *waitOp) {
	t := x.cur
	t.op = op
	op.t = t
	t.state = stParked
	x.dispatch(t)
	t.op = nil
}

// waitOp describes what a parked thread waits for.
type waitOp struct {
	t     *Thread
	what  string
	done  bool
	idx   int
	val   interface{}
	ok    bool
	cases []selCase
	tok   *byte
}

// Go starts a new thread.
func Go(f func()) { GoNamed("", f) }

// GoNamed starts a new named thread.
func GoNamed(name string, f func()) {
	x := X
	if x == nil {
		panic("mcrt.Go outside of an execution")
	}
	if x.ending {
		runtime.Goexit()
	}
	if name == "" {
		name = fmt.Sprintf("g%d%s", len(x.threads), callerName())
	}
	t := x.newThread(name)
	x.start(t, f) // real goroutine creation: gives the happens-before edge
	raceDisable()
	x.runq = append(x.runq, t)
	x.point("go")
	raceEnable()
}

func callerName() string {
	pcs := make([]uintptr, 1)
	if runtime.Callers(4, pcs) == 0 {
		return ""
	}
	f, _ := runtime.CallersFrames(pcs).Next()
	n := f.Function
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		n = n[i+1:]
	}
	return ":" + n
}

// Gosched is a scheduling point that lets others run.
func Gosched() {
	x := X
	if x == nil {
		return
	}
	x.checkEnding()
	raceDisable()
	x.yieldLow()
	raceEnable()
}

func (x *Exec) yieldLow() {
	if !x.step() {
		x.stop()
	}
	t := x.cur
	t.state = stRunnable
	x.runq = append(x.runq, t)
	x.dispatch(t)
}

// Quiesce lets every other thread run until none of them can make
// progress without the clock advancing.
func Quiesce() {
	x := X
	x.checkEnding()
	raceDisable()
	for {
		t := x.cur
		if len(x.runq) == 0 && len(x.demoted) == 0 {
			break
		}
		t.state = stRunnable
		x.demoted = append(x.demoted, t)
		x.dispatch(t)
	}
	raceEnable()
}

// Yield is a plain scheduling point.
func Yield(label string) {
	x := X
	if x == nil {
		return
	}
	x.checkEnding()
	raceDisable()
	x.point(label)
	raceEnable()
}

// Ending reports whether the execution is being torn down.
func Ending() bool { return X == nil || X.ending }

// CurName returns the name of the current thread.
func CurName() string {
	if X == nil || X.cur == nil {
		return ""
	}
	return X.cur.Name
}

// LiveThreads returns the names of unfinished threads other than main.
func LiveThreads() []string {
	var out []string
	for _, t := range X.threads {
		if t.state != stDone && t.id != 0 {
			w := ""
			if t.op != nil {
				w = " waits on " + t.op.what
			}
			out = append(out, t.Name+w)
		}
	}
	return out
}

// ---------------------------------------------------------------------
// statement level points and loop accounting

const maxPkgs = 64

var fineOn [maxPkgs]bool
var pkgNames [maxPkgs]string

// RegisterPkg is called from generated code.
func RegisterPkg(idx int, path string) {
	if idx < maxPkgs {
		pkgNames[idx] = path
	}
}

func setFine(names []string) {
	for i := range fineOn {
		fineOn[i] = false
		for _, n := range names {
			if pkgNames[i] != "" && (strings.HasSuffix(pkgNames[i], "/"+n) || n == "*") {
				fineOn[i] = true
			}
		}
	}
}

// P is inserted before every statement of instrumented code.
func P(pkg int) {
	if fineOn[pkg] {
		pSlow()
	}
}

func pSlow() {
	x := X
	if x == nil || x.ending || x.cur == nil {
		return
	}
	raceDisable()
	x.point("stmt")
	raceEnable()
}

var noExecLoops int64

// Loop is inserted at the start of every loop body.
func Loop() {
	x := X
	if x == nil {
		return
	}
	x.loops++
	if x.loops > x.opts.MaxLoops || x.loops&(1<<19-1) == 0 && memoryRunaway() {
		loopHang(x)
	}
}

// memoryRunaway tells whether a loop that does not end eats all memory.
func memoryRunaway() bool {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc <= 1<<30 {
		return false
	}
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc > 1<<30
}

func loopHang(x *Exec) {
	if x.ending {
		runtime.Goexit()
	}
	name := "?"
	if x.cur != nil {
		name = x.cur.Name
	}
	x.failKind("hang", fmt.Sprintf("thread %s loops without reaching a scheduling point%s", name, map[bool]string{true: fmt.Sprintf(" (%d iterations)", x.opts.MaxLoops), false: " and allocates without end"}[x.loops > x.opts.MaxLoops]))
	x.Stack = cleanStack(string(debug.Stack()))
	x.endTh = x.cur
	runtime.Goexit()
}

// ResetLoops restarts the loop accounting (used between enumerated cases).
func ResetLoops() { X.loops, X.caseBase = 0, X.Steps }

// ---------------------------------------------------------------------
// package variable reset

type resetEntry struct {
	path string
	f    func()
}

var resets []resetEntry

// RegisterReset is called from generated code, in dependency order.
func RegisterReset(path string, f func()) { resets = append(resets, resetEntry{path, f}) }

// ResetPackages restores every package level variable of the code under
// test to its initial value.
func ResetPackages() {
	for _, r := range resets {
		r.f()
	}
}

// shiftDown moves every element one place towards the front.  Loops rather
// than copy: the race detector sees copy even in uninstrumented packages.
func shiftDown[T any](s []T) {
	for i := 1; i < len(s); i++ {
		s[i-1] = s[i]
	}
}

func shiftUp[T any](s []T) {
	for i := len(s) - 1; i > 0; i-- {
		s[i] = s[i-1]
	}
}

// CopyBytes is copy for the fakes (see shiftDown).
func CopyBytes(dst, src []byte) int {
	n := len(src)
	if len(dst) < n {
		n = len(dst)
	}
	if !RaceBuild {
		return copy(dst, src)
	}
	for i := 0; i < n; i++ {
		dst[i] = src[i]
	}
	return n
}

// Steps returns the number of steps the unfinished threads have taken.
func Steps() map[string]uint64 {
	out := map[string]uint64{}
	for _, t := range X.threads {
		if t.state != stDone && t.id != 0 {
			out[t.Name] = t.steps
		}
	}
	return out
}

// StepsOf returns the number of steps of one thread, finished or not.
func StepsOf(name string) uint64 {
	for _, t := range X.threads {
		if t.Name == name {
			return t.steps
		}
	}
	return 0
}
