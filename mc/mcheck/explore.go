//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
)

// Bounds of an exploration.
type Bounds struct {
	Sched int // scheduling deviations
	Fault int // environment faults
}

// Scenario is one closed program (component + environment + oracle) whose
// executions are enumerated.
type Scenario struct {
	Name     string
	Doc      string
	Opts     mcrt.Opts
	Quick    Bounds
	Thorough Bounds
	Weight   int // share of the time budget
	Body     func()
	// N, Case: an input enumeration; Body is the per chunk setup.
	N     func(thorough bool) int
	Case  func(i int)
	Chunk int
	// Post may reinterpret the end of an execution ("" = fine).
	Post func(x *mcrt.Exec) string
	// Known is the id of the known finding this scenario reproduces.
	Known string
	// ThoroughOnly scenarios are skipped by the quick tier.
	ThoroughOnly bool
	// Race scenarios run in the race instrumented build.
	Race bool
}

// Property groups the scenarios that decide a property.
type Property struct {
	ID        string
	Scenarios []*Scenario
	// Accept lists violation kinds other than "fail" which break this
	// property (default: all).
	Assumptions []string
}

// Viol is a confirmed violation.
type Viol struct {
	Scenario string   `json:"scenario"`
	Kind     string   `json:"kind"`
	Message  string   `json:"message"`
	Stack    string   `json:"stack,omitempty"`
	Choices  []int    `json:"choices"`
	Labels   []string `json:"labels,omitempty"`
	Case     int      `json:"case"`
	Trace    []string `json:"trace,omitempty"`
	Known    string   `json:"known,omitempty"`
	Sched    int      `json:"sched_deviations"`
	Fault    int      `json:"faults"`
}

// Result of one scenario in one worker.
type Result struct {
	Scenario   string   `json:"scenario"`
	Executions int64    `json:"executions"`
	Cases      int64    `json:"cases"`
	Inputs     int64    `json:"inputs"`
	Steps      int64    `json:"steps"`
	Points     int64    `json:"points"`
	MaxPoints  int      `json:"max_points"`
	Levels     []Level  `json:"levels"`
	Complete   bool     `json:"complete"`
	Outcomes   []uint64 `json:"outcomes"`
	Diverged   int64    `json:"diverged"`
	Flaky      int64    `json:"flaky"`
	Viols      []Viol   `json:"violations"`
	Sample     []string `json:"sample"`
	Wall       float64  `json:"wall"`
}

// Level reports one deepening level.
type Level struct {
	Sched, Fault int
	Executions   int64
	Complete     bool
}

type explorer struct {
	sc       *Scenario
	shard, n int
	deadline time.Time
	res      *Result
	outcomes map[uint64]bool
	seenViol map[string]bool
	thorough bool
	prop     string
	known    knownSet
}

// isKnown records a known finding; the exploration goes on after it.
func (e *explorer) isKnown(v Viol) bool {
	if e.known.match(e.prop, e.sc.Name, v.Message) == nil {
		return false
	}
	if !e.seenViol[v.Message] {
		e.seenViol[v.Message] = true
		e.res.Viols = append(e.res.Viols, v)
	}
	return true
}

var curCase int

// inputs counts the individual inputs checked by cases that check many.
var inputs int64

func tick() { inputs++ }

func (e *explorer) run(prefix []int, trace bool) *mcrt.Exec {
	o := e.sc.Opts
	o.Trace = trace
	curCase = -1
	beat()
	x := mcrt.Run(o, prefix, e.sc.Body)
	return x
}

func (e *explorer) verdict(x *mcrt.Exec) string {
	if x.Kind == "diverge" {
		return ""
	}
	if e.sc.Post != nil {
		return e.sc.Post(x)
	}
	if len(x.Races) > 0 && x.Violation == "" {
		x.Kind = "race"
		return "data race between a " + x.Races[0]
	}
	return x.Violation
}

func choices(x *mcrt.Exec) []int {
	out := make([]int, len(x.Points))
	for i, p := range x.Points {
		out[i] = p.Chosen
	}
	return out
}

type node struct {
	parent []mcrt.Point
	at     int
	c      int
	sched  int
	fault  int
	depth  int
}

func (nd *node) prefix() []int {
	if nd.parent == nil {
		return nil
	}
	p := make([]int, nd.at+1)
	for i := 0; i < nd.at; i++ {
		p[i] = nd.parent[i].Chosen
	}
	p[nd.at] = nd.c
	return p
}

// explore enumerates every execution within b exactly once (over all
// shards together).
func (e *explorer) explore(b Bounds) (int64, bool) {
	var count int64
	stack := []node{{at: -1}}
	deepShard := false
	var rr int
	for len(stack) > 0 {
		if time.Now().After(e.deadline) {
			return count, false
		}
		nd := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		// root and (with deep sharding) depth 1 nodes are executed by every
		// worker but counted by one
		ownIt := true
		if nd.depth == 0 {
			ownIt = e.shard == 0
		} else if nd.depth == 1 && deepShard {
			ownIt = (nd.at+nd.c)%e.n == e.shard
		}
		prefix := nd.prefix()
		x := e.run(prefix, false)
		e.checkReplay(x, nd)
		if ownIt {
			count++
			e.account(x)
		}
		if x.Kind == "diverge" {
			e.res.Diverged++
			continue
		}
		if v := e.verdict(x); v != "" {
			if e.violation(x, nd) {
				return count, false
			}
		}
		// children
		pts := append([]mcrt.Point(nil), x.Points...)
		var kids []node
		for i := nd.at + 1; i < len(pts); i++ {
			s, f := nd.sched, nd.fault
			switch pts[i].Class {
			case mcrt.ClassSched:
				s++
			case mcrt.ClassFault:
				f++
			}
			if s > b.Sched || f > b.Fault {
				continue
			}
			for c := 1; c < pts[i].N; c++ {
				kids = append(kids, node{pts, i, c, s, f, nd.depth + 1})
			}
		}
		if nd.depth == 0 {
			deepShard = len(kids) < 12*e.n
			if !deepShard {
				var k2 []node
				for j, k := range kids {
					if j%e.n == e.shard {
						k2 = append(k2, k)
					}
				}
				kids = k2
			}
		} else if nd.depth == 1 && deepShard {
			var k2 []node
			for _, k := range kids {
				if rr%e.n == e.shard {
					k2 = append(k2, k)
				}
				rr++
			}
			kids = k2
		}
		for j := len(kids) - 1; j >= 0; j-- {
			stack = append(stack, kids[j])
		}
	}
	return count, true
}

func (e *explorer) checkReplay(x *mcrt.Exec, nd node) {
	for i := 0; i < nd.at && i < len(x.Points); i++ {
		if x.Points[i].N != nd.parent[i].N || x.Points[i].Label != nd.parent[i].Label {
			if x.Kind != "diverge" {
				x.Kind = "diverge"
				x.Violation = fmt.Sprintf("point %d: %s/%d became %s/%d", i, nd.parent[i].Label, nd.parent[i].N, x.Points[i].Label, x.Points[i].N)
			}
			if os.Getenv("MC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "diverge:", x.Violation)
			}
			return
		}
	}
}

func (e *explorer) account(x *mcrt.Exec) {
	e.res.Executions++
	e.res.Steps += int64(x.Steps)
	e.res.Points += int64(len(x.Points))
	if len(x.Points) > e.res.MaxPoints {
		e.res.MaxPoints = len(x.Points)
	}
	if len(e.outcomes) < 200000 {
		h := fnv.New64a()
		for _, o := range x.Obs {
			h.Write([]byte(o))
			h.Write([]byte{0})
		}
		h.Write([]byte(x.Kind))
		e.outcomes[h.Sum64()] = true
	}
}

// violation confirms and records a violation; it reports whether to stop.
func (e *explorer) violation(x *mcrt.Exec, nd node) bool {
	msg := e.verdict(x)
	ch := choices(x)
	for i := 0; i < 5; i++ {
		if x.Kind == "hang" && i > 0 {
			break // slow to repeat
		}
		y := e.run(ch, false)
		if e.verdict(y) != msg {
			// race reports are suppressed when the same stacks repeat:
			// one confirmation of any kind of report is enough there
			if x.Kind == "race" && y.Kind == "race" {
				continue
			}
			if os.Getenv("MC_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "flaky: %s / %s\n", msg, e.verdict(y))
			}
			e.res.Flaky++
			return false
		}
	}
	t := e.run(ch, true)
	v := Viol{Scenario: e.sc.Name, Kind: x.Kind, Message: msg, Stack: x.Stack, Choices: ch, Case: curCaseOf(x), Trace: t.Log, Known: e.sc.Known,
		Sched: nd.sched, Fault: nd.fault}
	for i, p := range x.Points {
		if p.Chosen != 0 {
			v.Labels = append(v.Labels, fmt.Sprintf("point %d %s: %d of %d", i, p.Label, p.Chosen, p.N))
		}
	}
	if e.isKnown(v) {
		return false
	}
	e.res.Viols = append(e.res.Viols, v)
	return true
}

func curCaseOf(x *mcrt.Exec) int {
	if c, ok := x.Data["case"].(int); ok {
		return c
	}
	return -1
}

// enumerate runs an input enumeration.
func (e *explorer) enumerate() {
	total := e.sc.N(e.thorough)
	chunk := e.sc.Chunk
	if chunk == 0 {
		chunk = 500
	}
	complete := true
	for lo, k := 0, 0; lo < total; lo, k = lo+chunk, k+1 {
		if k%e.n != e.shard {
			continue
		}
		if time.Now().After(e.deadline) {
			complete = false
			break
		}
		hi := lo + chunk
		if hi > total {
			hi = total
		}
		from := lo
	again:
		x := e.runCases(from, hi, false)
		e.account(x)
		if c, ok := x.Data["case"].(int); ok {
			e.res.Cases += int64(c - from + 1)
		}
		if v := e.verdict(x); v != "" {
			c := curCaseOf(x)
			// isolate the case
			ok := 0
			var y *mcrt.Exec
			for i := 0; i < 3; i++ {
				y = e.runCases(c, c+1, i == 2)
				if e.verdict(y) != "" {
					ok++
				}
				if x.Kind == "hang" && y.Kind == "hang" {
					ok = 3 // slow to repeat
					break
				}
			}
			if ok != 3 {
				// depends on the earlier cases of the chunk: confirm as a whole
				ok = 0
				for i := 0; i < 3; i++ {
					y = e.runCases(from, c+1, false)
					if e.verdict(y) == v {
						ok++
					}
				}
				if ok != 3 {
					e.res.Flaky++
					continue
				}
			}
			vi := Viol{Scenario: e.sc.Name, Kind: x.Kind, Message: e.verdict(y), Stack: x.Stack, Case: c, Trace: y.Log, Known: e.sc.Known, Choices: []int{from, c}}
			if e.isKnown(vi) {
				if from = c + 1; from < hi {
					goto again
				}
				continue
			}
			e.res.Viols = append(e.res.Viols, vi)
			complete = false
			break
		}
	}
	e.res.Complete = complete
	e.res.Levels = append(e.res.Levels, Level{Executions: e.res.Cases, Complete: complete})
}

func (e *explorer) runCases(lo, hi int, trace bool) *mcrt.Exec {
	o := e.sc.Opts
	o.Trace = trace
	if o.CaseSteps == 0 {
		o.CaseSteps = 3000000
	}
	beat()
	return mcrt.Run(o, nil, func() {
		if e.sc.Body != nil {
			e.sc.Body()
		}
		for i := lo; i < hi; i++ {
			mcrt.X.Data["case"] = i
			mcrt.ResetLoops()
			beat()
			e.sc.Case(i)
		}
	})
}

func runScenario(prop string, kn knownSet, sc *Scenario, shard, n int, thorough bool, deadline time.Time) *Result {
	start := time.Now()
	res := &Result{Scenario: sc.Name}
	inputs = 0
	h := fnv.New64a()
	h.Write([]byte(sc.Name))
	mcrt.StateSalt = h.Sum64()
	e := &explorer{sc: sc, shard: shard, n: n, deadline: deadline, res: res, outcomes: map[uint64]bool{}, seenViol: map[string]bool{}, thorough: thorough, prop: prop, known: kn}
	if sc.N != nil {
		e.enumerate()
		if shard == 0 {
			y := e.runCases(0, 1, true)
			res.Sample = clipLog(y.Log)
		}
	} else {
		b := sc.Quick
		if thorough {
			b = sc.Thorough
		}
		if shard == 0 {
			y := e.run(nil, true)
			res.Sample = clipLog(y.Log)
		}
		res.Complete = true
		for s := 0; s <= b.Sched; s++ {
			before := len(res.Viols)
			execs, done := e.explore(Bounds{Sched: s, Fault: b.Fault})
			res.Levels = append(res.Levels, Level{s, b.Fault, execs, done})
			if !done {
				res.Complete = false
				break
			}
			if len(res.Viols) > before {
				break
			}
		}
	}
	for o := range e.outcomes {
		res.Outcomes = append(res.Outcomes, o)
	}
	res.Wall = time.Since(start).Seconds()
	res.Inputs = inputs
	return res
}

func clipLog(l []string) []string {
	if len(l) > 25 {
		l = l[:25]
	}
	out := make([]string, len(l))
	for i, s := range l {
		if len(s) > 240 {
			s = s[:240] + "..."
		}
		out[i] = strings.ToValidUTF8(s, "?")
	}
	return out
}

// worker side
func workerMain(p *Property, names []string, shard, n int, thorough bool, budget time.Duration, outFile string) {
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	go watchdog()
	f, err := os.Create(outFile)
	if err != nil {
		fatal("%v", err)
	}
	enc := json.NewEncoder(f)
	var scs []*Scenario
	total := 0
	for _, sc := range p.Scenarios {
		if sc.ThoroughOnly && !thorough || sc.Race != *raceRun {
			continue
		}
		if len(names) > 0 && !contains(names, sc.Name) {
			continue
		}
		scs = append(scs, sc)
		total += weight(sc)
	}
	kn := loadKnown(*known)
	end := time.Now().Add(budget)
	for _, sc := range scs {
		share := time.Until(end) * time.Duration(weight(sc)) / time.Duration(total)
		total -= weight(sc)
		r := runScenario(p.ID, kn, sc, shard, n, thorough, time.Now().Add(share))
		if err := enc.Encode(r); err != nil {
			fatal("%v", err)
		}
	}
	f.Close()
	// state bitmap
	b := make([]byte, 0, len(mcrt.States)*8)
	for _, w := range mcrt.States {
		b = append(b, byte(w), byte(w>>8), byte(w>>16), byte(w>>24), byte(w>>32), byte(w>>40), byte(w>>48), byte(w>>56))
	}
	if err := os.WriteFile(outFile+".states", b, 0644); err != nil {
		fatal("%v", err)
	}
}

func weight(sc *Scenario) int {
	if sc.Weight == 0 {
		return 1
	}
	return sc.Weight
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "mcheck: "+f+"\n", a...)
	os.Exit(3)
}
