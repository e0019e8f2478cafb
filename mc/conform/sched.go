//go:build go1.21

package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
)

// The scheduler: every small program over channels, select, a mutex and a
// shared variable is explored completely in the model and run many times by
// the Go runtime; whatever the runtime does must be among what the
// exploration found.

const (
	opInc = iota // lock; x++; unlock
	opLoad
	opSend0
	opRecv0
	opSend1
	opRecv1
	opSelect
	opClose1
	opTry
	nLitmusOps
)

var litmusNames = []string{"inc", "load", "send", "recv", "bsend", "brecv", "select", "close", "try"}

type litmusLog struct {
	mu  sync.Mutex
	res [][]string
}

func (l *litmusLog) add(t int, s string) {
	l.mu.Lock()
	l.res[t] = append(l.res[t], s)
	l.mu.Unlock()
}

func (l *litmusLog) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	var out []string
	for _, r := range l.res {
		out = append(out, strings.Join(r, " "))
	}
	return strings.Join(out, " | ")
}

// litmusModel returns all outcomes of prog (one operation list per thread).
func litmusModel(prog [][]int) map[string]bool {
	out := map[string]bool{}
	var stack [][]int
	stack = append(stack, nil)
	for len(stack) > 0 {
		prefix := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		l := &litmusLog{res: make([][]string, len(prog))}
		x := mcrt.Run(mcrt.Opts{}, prefix, func() {
			c0, c1 := make(chan int), make(chan int, 1)
			var m mcrt.Mutex
			shared := 0
			for t := range prog {
				t := t
				mcrt.Go(func() {
					defer func() {
						if r := recover(); r != nil && !mcrt.Ending() {
							l.add(t, fmt.Sprint(r))
						}
					}()
					for i, op := range prog[t] {
						v := 10*(t+1) + i
						switch op {
						case opInc:
							m.Lock()
							shared++
							m.Unlock()
							l.add(t, "inc")
						case opLoad:
							mcrt.AtomicPoint()
							mcrt.Yield("load")
							l.add(t, fmt.Sprint("x=", shared))
						case opSend0:
							mcrt.SendTo(c0).Do(v)
							l.add(t, "sent")
						case opRecv0:
							r, ok := mcrt.Recv2(c0)
							l.add(t, fmt.Sprint("got ", r, ok))
						case opSend1:
							mcrt.SendTo(c1).Do(v)
							l.add(t, "bsent")
						case opRecv1:
							r, ok := mcrt.Recv2(c1)
							l.add(t, fmt.Sprint("bgot ", r, ok))
						case opSelect:
							a, b := mcrt.R(c0), mcrt.R(c1)
							switch mcrt.Select(false, a, b) {
							case 0:
								l.add(t, fmt.Sprint("sel0 ", a.V, a.Ok))
							case 1:
								l.add(t, fmt.Sprint("sel1 ", b.V, b.Ok))
							}
						case opClose1:
							mcrt.Close(c1)
							l.add(t, "closed")
						case opTry:
							a, b := mcrt.R(c0), mcrt.S(c1).With(v)
							switch mcrt.Select(true, a, b) {
							case 0:
								l.add(t, fmt.Sprint("try0 ", a.V, a.Ok))
							case 1:
								l.add(t, "try1")
							default:
								l.add(t, "none")
							}
						}
					}
					l.add(t, "end")
				})
			}
			mcrt.Quiesce()
			out[l.String()] = true
		})
		if x.Violation != "" {
			out["model: "+x.Kind+" "+x.Violation] = true
		}
		for at := len(prefix); at < len(x.Points); at++ {
			for alt := 1; alt < x.Points[at].N; alt++ {
				p := make([]int, at+1)
				for i := 0; i < at; i++ {
					p[i] = x.Points[i].Chosen
				}
				p[at] = alt
				stack = append(stack, p)
			}
		}
	}
	return out
}

// litmusReal runs prog once under the Go runtime.
func litmusReal(prog [][]int, seed int64, patience int) string {
	l := &litmusLog{res: make([][]string, len(prog))}
	c0, c1 := make(chan int), make(chan int, 1)
	var m sync.Mutex
	var shared, done, steps int64
	start := make(chan struct{})
	for t := range prog {
		t := t
		rnd := rand.New(rand.NewSource(seed*7 + int64(t)))
		go func() {
			defer atomic.AddInt64(&done, 1)
			defer func() {
				if r := recover(); r != nil {
					l.add(t, fmt.Sprint(r))
				}
			}()
			<-start
			for i, op := range prog[t] {
				for k := rnd.Intn(4); k > 0; k-- {
					runtime.Gosched()
				}
				v := 10*(t+1) + i
				switch op {
				case opInc:
					m.Lock()
					atomic.AddInt64(&shared, 1)
					m.Unlock()
					l.add(t, "inc")
				case opLoad:
					l.add(t, fmt.Sprint("x=", atomic.LoadInt64(&shared)))
				case opSend0:
					c0 <- v
					l.add(t, "sent")
				case opRecv0:
					r, ok := <-c0
					l.add(t, fmt.Sprint("got ", r, ok))
				case opSend1:
					c1 <- v
					l.add(t, "bsent")
				case opRecv1:
					r, ok := <-c1
					l.add(t, fmt.Sprint("bgot ", r, ok))
				case opSelect:
					select {
					case r, ok := <-c0:
						l.add(t, fmt.Sprint("sel0 ", r, ok))
					case r, ok := <-c1:
						l.add(t, fmt.Sprint("sel1 ", r, ok))
					}
				case opClose1:
					close(c1)
					l.add(t, "closed")
				case opTry:
					select {
					case r, ok := <-c0:
						l.add(t, fmt.Sprint("try0 ", r, ok))
					case c1 <- v:
						l.add(t, "try1")
					default:
						l.add(t, "none")
					}
				}
				atomic.AddInt64(&steps, 1)
			}
			l.add(t, "end")
		}()
	}
	close(start)
	last, idle := "", 0
	for n := 0; atomic.LoadInt64(&done) < int64(len(prog)); n++ {
		if n < 200 {
			runtime.Gosched()
			continue
		}
		time.Sleep(200 * time.Microsecond)
		now := l.String()
		if now == last {
			idle++
		} else {
			idle = 0
		}
		last = now
		if idle > 10*patience {
			break // deadlock
		}
	}
	return l.String()
}

func init() {
	addPart("scheduler", "all programs of 2 threads x 2 operations and 3 threads x 1 operation: outcomes of the Go runtime are among those explored", func(p *part) {
		var cases [][]int
		sequences(nLitmusOps, 4, func(s []int) {
			if s[0] > s[2] || s[0] == s[2] && s[1] > s[3] {
				return // symmetric
			}
			cases = append(cases, append([]int{2}, s...))
		})
		sequences(nLitmusOps, 3, func(s []int) {
			if s[0] > s[1] || s[1] > s[2] {
				return
			}
			cases = append(cases, append([]int{3}, s...))
		})
		explored, seenReal := 0, 0
		parallel(64, cases, func(_ int, c []int) {
			var prog [][]int
			if c[0] == 2 {
				prog = [][]int{c[1:3], c[3:5]}
			} else {
				prog = [][]int{c[1:2], c[2:3], c[3:4]}
			}
			modelMu.Lock()
			allowed := litmusModel(prog)
			modelMu.Unlock()
			seen := map[string]bool{}
			bad := ""
			for i := 0; i < 40; i++ {
				o := litmusReal(prog, int64(i), 1)
				if !allowed[o] {
					// a slow run can look like a deadlock
					o2 := litmusReal(prog, int64(i), 20)
					if !allowed[o2] {
						bad = o2
					}
					o = o2
				}
				seen[o] = true
			}
			var names []string
			for _, th := range prog {
				var n []string
				for _, op := range th {
					n = append(n, litmusNames[op])
				}
				names = append(names, strings.Join(n, ";"))
			}
			p.mu.Lock()
			defer p.mu.Unlock()
			p.Cases++
			p.Steps += len(seen)
			explored += len(allowed)
			seenReal += len(seen)
			if bad != "" {
				p.Diffs++
				if p.Diffs <= 10 || *verbose {
					var all []string
					for a := range allowed {
						all = append(all, a)
					}
					sort.Strings(all)
					fmt.Printf("DIFFERENCE scheduler program %s\n  runtime: %s\n  explored:\n    %s\n", strings.Join(names, " || "), bad, strings.Join(all, "\n    "))
				}
			}
		})
		p.Doc += fmt.Sprintf(" (%d outcomes explored, %d of them seen in 40 runs each)", explored, seenReal)
	})
}
