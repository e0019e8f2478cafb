//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/downsampler"
	"github.com/jumptrading/influx-spout/v2/filter"
	"github.com/jumptrading/influx-spout/v2/listener"
	"github.com/jumptrading/influx-spout/v2/monitor"
	"github.com/jumptrading/influx-spout/v2/verifmc/fnats"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mhttp"
	"github.com/jumptrading/influx-spout/v2/verifmc/mnet"
	"github.com/jumptrading/influx-spout/v2/writer"
)

const probePort = 8100

// comp describes one component for the life cycle scenarios.
type comp struct {
	name  string
	toml  string
	start func(c *config.Config) (func(), error)
	tcp   []int
	udp   []int
	// feed hands unit i to the component without yielding; done reports
	// whether the unit has been processed completely.
	feed func(l *life, i int)
	done func(l *life, i int) bool
	// stopBound is the longest time Stop may take.
	stopBound time.Duration
}

// life is one running instance in its environment.
type life struct {
	e    *env
	d    *db
	c    *comp
	reqs []*mhttp.Result
}

func unit(i int) string { return fmt.Sprintf("unit%d", i) }

func (l *life) publishedUnit(subj string, i int) bool {
	for _, p := range l.e.published(subj) {
		if strings.Contains(string(p), unit(i)+" ") {
			return true
		}
	}
	return false
}

func lifeToml(mode, more string) string {
	return fmt.Sprintf("mode=%q\nname=\"lc\"\nprobe_port=%d\nbatch_max_count=1\nbatch_max_age=\"1s\"\nstats_interval=\"100h\"\n%s", mode, probePort, more)
}

var comps = []*comp{
	{name: "udp listener", toml: lifeToml("listener", "port=10001\n"),
		start: func(c *config.Config) (func(), error) {
			l, err := listener.StartListener(c)
			if err != nil {
				return nil, err
			}
			return l.Stop, nil
		},
		udp: []int{10001},
		feed: func(l *life, i int) {
			if u := l.e.N.UDP(10001); u != nil {
				u.Send([]byte(unit(i) + " v=1\n"))
			}
		},
		done:      func(l *life, i int) bool { return l.publishedUnit(subjIn, i) },
		stopBound: 1100 * time.Millisecond,
	},
	{name: "http listener", toml: lifeToml("listener_http", "port=13337\n"),
		start: func(c *config.Config) (func(), error) {
			l, err := listener.StartHTTPListener(c)
			if err != nil {
				return nil, err
			}
			return l.Stop, nil
		},
		tcp: []int{13337},
		feed: func(l *life, i int) {
			l.reqs = append(l.reqs, mhttp.CallAsync("client", 13337, "POST", "/write", pc(unit(i)+" v"), pcd("=1\n", time.Millisecond)))
		},
		done:      func(l *life, i int) bool { return l.publishedUnit(subjIn, i) },
		stopBound: 100 * time.Millisecond,
	},
	{name: "filter", toml: lifeToml("filter", "workers=2\n"),
		start: func(c *config.Config) (func(), error) {
			if c.Rule == nil {
				c.Rule = []config.Rule{{Rtype: "basic", Match: "other", Subject: "other"}}
			}
			f, err := filter.StartFilter(c)
			if err != nil {
				return nil, err
			}
			return f.Stop, nil
		},
		feed:      func(l *life, i int) { l.e.B.Inject(subjIn, []byte(unit(i)+" v=1\n")) },
		done:      func(l *life, i int) bool { return l.publishedUnit(subjJunk, i) },
		stopBound: 100 * time.Millisecond,
	},
	{name: "downsampler", toml: lifeToml("downsampler", "nats_subject=[\"in\",\"in2\"]\ndownsample_period=\"10s\"\n"),
		start: func(c *config.Config) (func(), error) {
			d, err := downsampler.StartDownsampler(c)
			if err != nil {
				return nil, err
			}
			return d.Stop, nil
		},
		feed: func(l *life, i int) {
			l.e.B.Inject([]string{"in", "in2"}[i%2], []byte(fmt.Sprintf("%s v=1 %d\n", unit(i), mcrt.NowNanos())))
		},
		done:      func(l *life, i int) bool { return l.publishedUnit([]string{"in", "in2"}[i%2]+"-archive", i) },
		stopBound: 100 * time.Millisecond,
	},
	{name: "writer", toml: lifeToml("writer", "nats_subject=[\"in\",\"in2\"]\nworkers=2\ninfluxdb_address=\"db1\"\ninfluxdb_dbname=\"metrics\"\nwrite_timeout=\"10s\"\n"),
		start: func(c *config.Config) (func(), error) {
			w, err := writer.StartWriter(c)
			if err != nil {
				return nil, err
			}
			return w.Stop, nil
		},
		feed: func(l *life, i int) { l.e.B.Inject([]string{"in", "in2"}[i%2], []byte(unit(i)+" v=1\n")) },
		done: func(l *life, i int) bool {
			for _, b := range l.d.bodies() {
				if strings.Contains(b, unit(i)+" ") {
					return true
				}
			}
			return false
		},
		stopBound: 22 * time.Second,
	},
	{name: "monitor", toml: lifeToml("monitor", "port=9331\n"),
		start: func(c *config.Config) (func(), error) {
			m, err := monitor.Start(c)
			if err != nil {
				return nil, err
			}
			return m.Stop, nil
		},
		tcp:  []int{9331},
		feed: func(l *life, i int) { l.e.B.Inject(subjMon, []byte(unit(i)+" 1\n")) },
		done: func(l *life, i int) bool {
			if !mnet.N.TCPBound(9331) {
				return false
			}
			return strings.Contains(string(mhttp.Call(9331, "GET", "/metrics").Body), unit(i)+" ")
		},
		stopBound: 100 * time.Millisecond,
	},
}

func newLife(answer func(n int, r *mhttp.Request) mhttp.Response) *life {
	e := setup()
	d := e.influx(answer)
	d.timeout = 10 * time.Second
	return &life{e: e, d: d, c: comps[mcrt.Choose("component", len(comps))]}
}

// released checks that nothing of the component is left.
func (l *life) released(when string) {
	for _, p := range append([]int{probePort}, l.c.tcp...) {
		if mnet.N.TCPBound(p) {
			mcrt.Fail("%s: %s still holds TCP port %d", l.c.name, when, p)
		}
	}
	for _, p := range l.c.udp {
		if mnet.N.UDPBound(p) {
			mcrt.Fail("%s: %s still holds UDP port %d", l.c.name, when, p)
		}
	}
	for i, c := range l.e.B.Conns {
		if !c.IsClosed() {
			mcrt.Fail("%s: %s leaves NATS connection %d open", l.c.name, when, i)
		}
	}
	if n := mhttp.H.Unclosed(); n > 0 {
		mcrt.Fail("%s: %s leaves the connections of %d answers from InfluxDB open", l.c.name, when, n)
	}
}

func (l *life) effects() int {
	n := len(l.d.reqs)
	for _, p := range l.e.B.Log {
		if p.Err == nil {
			n++
		}
	}
	return n
}

// ownGoroutine matches the names of goroutines started by the component.
var ownGoroutine = regexp.MustCompile(`^g[0-9]+:`)

// lifeStop stops a component under traffic.
func lifeStop() func() {
	return func() {
		slow := 0
		l := newLife(func(n int, r *mhttp.Request) mhttp.Response {
			switch slow {
			case 1:
				return mhttp.Response{Status: 204, Delay: 3 * time.Second}
			case 2:
				return mhttp.Response{Status: 503, Body: "{\"error\":\"timeout\"}\n"}
			case 3:
				return mhttp.Response{Status: 500, Delay: time.Minute}
			}
			return mhttp.Response{Status: 204}
		})
		if l.c.name == "writer" {
			slow = mcrt.Choose("database", 4)
		}
		stop, err := l.c.start(conf(l.c.toml))
		must(err)
		units := 0
		ns, phases := []int{0, 2}, []time.Duration{0, 700 * time.Millisecond}
		if thoroughTier() {
			ns, phases = []int{0, 1, 2}, []time.Duration{0, time.Millisecond, 700 * time.Millisecond}
		}
		n := ns[mcrt.Choose("units before", len(ns))]
		gap := time.Duration(0)
		if n > 0 {
			gap = []time.Duration{0, 300 * time.Millisecond, 1500 * time.Millisecond}[mcrt.Choose("gap", 3)]
		}
		for i := 0; i < n; i++ {
			l.c.feed(l, units)
			units++
			if i == 0 {
				sleep(gap)
			}
		}
		if l.c.name == "http listener" {
			// a client stalls in its body
			switch mcrt.Choose("stalled client", 3) {
			case 1:
				l.reqs = append(l.reqs, mhttp.CallAsync("stalled", 13337, "POST", "/write", pc("s v=1\ns"), pcd(" v=2\n", 30*time.Minute)))
			case 2:
				l.reqs = append(l.reqs, mhttp.CallAsync("stalled", 13337, "POST", "/write?precision=ms", pc("s v=1\ns"), pcd(" v=2\n", time.Hour)))
			}
		}
		if mcrt.Choose("traffic while stopping", 2) == 1 {
			mcrt.GoNamed("traffic", func() {
				for i := 0; i < 3; i++ {
					mcrt.Yield("traffic")
					l.c.feed(l, 100+i)
					if i == 1 {
						sleep(time.Millisecond)
					}
				}
			})
		}
		sleep(phases[mcrt.Choose("phase", len(phases))])
		t0 := mcrt.NowNanos()
		stop()
		bound := l.c.stopBound
		if slow == 3 {
			// what was queued may still be attempted, one timeout each
			bound += time.Duration(units+3) * l.d.timeout
		}
		if d := since(t0); d > bound {
			mcrt.Fail("%s: Stop took %v", l.c.name, d)
		}
		running := mcrt.Steps()
		l.released("after Stop")
		before := l.effects()
		sleep(2 * time.Hour)
		for _, name := range keysOf(running) {
			if k := mcrt.StepsOf(name) - running[name]; ownGoroutine.MatchString(name) && k > 0 {
				mcrt.Fail("%s: goroutine %s was still running when Stop returned (%d)", l.c.name, name, k)
			}
		}
		if after := l.effects(); after != before {
			mcrt.Fail("%s: %d effects after Stop returned", l.c.name, after-before)
		}
		if lt := mcrt.LiveThreads(); len(lt) > 0 {
			mcrt.Fail("%s: goroutines left after Stop: %s", l.c.name, strings.Join(lt, ", "))
		}
		for _, r := range l.reqs {
			if r.Panic != "" {
				mcrt.Fail("%s: panic in a request while stopping: %s", l.c.name, r.Panic)
			}
		}
		// a new instance takes over
		slow = 0
		stop, err = l.c.start(conf(l.c.toml))
		must(err)
		sleep(10 * time.Millisecond)
		l.c.feed(l, 999)
		sleep(25 * time.Second)
		if !l.c.done(l, 999) {
			mcrt.Fail("%s: does not work after a restart", l.c.name)
		}
		mcrt.Observe("%s %d", l.c.name, before)
		stop()
		l.released("after the second Stop")
	}
}

// lifeStopRetrying stops a writer whose retry queues are full.
func lifeStopRetrying() {
	e := setup()
	answer := mhttp.Response{Status: 503}
	d := e.influx(func(n int, r *mhttp.Request) mhttp.Response { return answer })
	d.timeout = 10 * time.Second
	workers := 1 + mcrt.Choose("workers", 2)
	interval := []time.Duration{time.Second, 20 * time.Second}[mcrt.Choose("interval", 2)]
	w := startWriter(limits{count: 1, bytes: 100000, age: time.Second}, func(c *config.Config) {
		c.Workers = workers
		c.WriteTimeout = config.NewDuration(d.timeout)
		c.WriterRetryBatches = 8
		c.WriterRetryInterval = config.NewDuration(interval)
		c.WriterRetryTimeout = config.NewDuration(time.Hour)
	})
	n := []int{1, 12, 20}[mcrt.Choose("messages", 3)]
	for i := 0; i < n; i++ {
		e.B.Inject("in", []byte(unit(i)+" v=1\n"))
		sleep(time.Millisecond)
	}
	if len(d.reqs) != n {
		mcrt.Fail("%d writes for %d messages", len(d.reqs), n)
	}
	// from now on the database behaves differently
	switch mcrt.Choose("database", 3) {
	case 1:
		answer = mhttp.Response{Status: 204}
	case 2:
		answer.Delay = time.Minute
	}
	// idle, right when a retry starts, or within one
	sleep([]time.Duration{0, interval - time.Duration(n)*time.Millisecond, interval, interval + time.Second}[mcrt.Choose("phase", 4)])
	t0 := mcrt.NowNanos()
	w.Stop()
	bound := 100 * time.Millisecond
	if answer.Delay > 0 {
		// a retry under way and one that is due
		bound += 2 * d.timeout
	}
	if got := since(t0); got > bound {
		mcrt.Fail("writer: Stop with %d failed batches queued took %v", n, got)
	}
	mcrt.Observe("%d %v", len(d.reqs), since(t0))
	before := len(d.reqs)
	sleep(2 * time.Hour)
	if len(d.reqs) != before {
		mcrt.Fail("writer: %d writes after Stop returned", len(d.reqs)-before)
	}
	if lt := mcrt.LiveThreads(); len(lt) > 0 {
		mcrt.Fail("writer: goroutines left after Stop: %s", strings.Join(lt, ", "))
	}
}

// lifeFailedStart lets any one step of the start fail.
func lifeFailedStart() {
	l := newLife(nil)
	faults := 0
	on := true
	fault := func(what string) bool {
		if on && mcrt.Fault(what, 2) == 1 {
			faults++
			return true
		}
		return false
	}
	boom := errors.New("boom")
	l.e.B.ConnectErr = func(url, name string) error {
		if fault("connect") {
			return fnats.ErrNoServers
		}
		return nil
	}
	l.e.B.SubscribeErr = func(c *fnats.Conn, subj, queue string) error {
		if fault("subscribe") {
			return boom
		}
		return nil
	}
	starting := true
	l.e.B.FlushErr = func(c *fnats.Conn) error {
		if starting && strings.HasPrefix(mcrt.CurName(), "main") && fault("flush") {
			return fnats.ErrTimeout
		}
		return nil
	}
	l.e.N.BindErr = func(network string, port int) error {
		if port != probePort && fault("bind") {
			return boom
		}
		return nil
	}
	l.e.N.BufErr = func() error {
		if fault("buffer") {
			return boom
		}
		return nil
	}
	c := conf(l.c.toml)
	badLimit := false
	if mcrt.Choose("pending limit", 2) == 1 {
		switch l.c.name {
		case "filter", "writer", "downsampler":
			c.NATSMaxPendingSize = 0 // refused by the client library
			badLimit = true
		}
	}
	badRule := false
	if l.c.name == "writer" && !badLimit && mcrt.Choose("bad rule", 2) == 1 {
		c.Rule = []config.Rule{{Rtype: "regex", Match: "(", Subject: "x"}}
		badRule = true
	}
	prober := probeLoop(false, 10, 30*time.Millisecond, nil)
	stop, err := l.c.start(c)
	starting = false
	if (faults > 0 || badLimit || badRule) != (err != nil) {
		mcrt.Fail("%s: start with %d faults (bad limit %v, bad rule %v): error %v", l.c.name, faults, badLimit, badRule, err)
	}
	if err != nil {
		l.released("after a failed start")
		sleep(2 * time.Hour)
		if lt := mcrt.LiveThreads(); len(lt) > 0 {
			mcrt.Fail("%s: goroutines left after a failed start: %s", l.c.name, strings.Join(lt, ", "))
		}
		if prober.ready > 0 {
			mcrt.Fail("%s: was ready although the start failed", l.c.name)
		}
		// try again
		on = false
		c.NATSMaxPendingSize = conf(l.c.toml).NATSMaxPendingSize
		c.Rule = nil
		stop, err = l.c.start(c)
		must(err)
	}
	on = false
	sleep(10 * time.Millisecond)
	l.c.feed(l, 1)
	sleep(25 * time.Second)
	if !l.c.done(l, 1) {
		mcrt.Fail("%s: does not work (%d faults at the first start)", l.c.name, faults)
	}
	mcrt.Observe("%s %d", l.c.name, faults)
	stop()
	l.released("after Stop")
}

// ---------------------------------------------------------------------
// C25 probes

type probing struct {
	ready, unready, refused int
	over                    bool
}

// probeLoop polls the readiness probe; onReady is called at once after
// every successful answer; alive: the liveness probe must succeed as well.
func probeLoop(alive bool, n int, every time.Duration, onReady func(p *probing)) *probing {
	p := &probing{}
	mcrt.GoNamed("prober", func() {
		for i := 0; i < n; i++ {
			r := mhttp.Call(probePort, "GET", "/readyz")
			switch {
			case r.Err != nil:
				p.refused++
			case r.Status == 200:
				p.ready++
				if onReady != nil {
					onReady(p)
				}
			default:
				p.unready++
			}
			if alive {
				if h := mhttp.Call(probePort, "GET", "/healthz"); h.Err == nil && h.Status != 200 {
					mcrt.Fail("/healthz is %d although nobody stopped the component", h.Status)
				}
			}
			sleep(every)
		}
		p.over = true
	})
	return p
}

// probeStart: whatever is sent after a successful readiness answer is
// processed, and a successful start becomes ready.
func probeStart() {
	l := newLife(nil)
	delay := []time.Duration{0, 50 * time.Millisecond}[mcrt.Choose("subscription delay", 2)]
	l.e.B.SubDelay = func(string) time.Duration { return delay }
	probes := 4
	if mcrt.Choose("round trip", 2) == 1 {
		probes = 12
		l.e.B.RTT = func() time.Duration { return 5 * time.Millisecond }
	}
	fed := 0
	p := probeLoop(true, probes, 2*time.Millisecond, func(p *probing) {
		l.c.feed(l, fed)
		fed++
	})
	stop, err := l.c.start(conf(l.c.toml))
	must(err)
	if mcrt.Choose("settle", 2) == 1 {
		sleep(time.Millisecond)
	}
	h := mhttp.Call(probePort, "GET", "/healthz")
	r := mhttp.Call(probePort, "GET", "/readyz")
	for i := 0; i < 3 && (h.Err != nil || r.Err != nil); i++ {
		sleep(time.Millisecond) // the probe server is not up yet
		h = mhttp.Call(probePort, "GET", "/healthz")
		r = mhttp.Call(probePort, "GET", "/readyz")
	}
	if h.Err != nil || h.Status != 200 {
		mcrt.Fail("%s: /healthz after the start: %d %v", l.c.name, h.Status, h.Err)
	}
	if r.Err != nil || r.Status != 200 {
		mcrt.Fail("%s: /readyz after the start: %d %v", l.c.name, r.Status, r.Err)
	}
	l.c.feed(l, 50)
	sleep(25 * time.Second)
	if !p.over || p.ready != fed {
		mcrt.Fail("prober did not finish")
	}
	for i := 0; i < fed; i++ {
		if !l.c.done(l, i) {
			mcrt.Fail("%s: data sent right after a successful readiness probe was not processed (unit %d)", l.c.name, i)
		}
	}
	if !l.c.done(l, 50) {
		mcrt.Fail("%s: data sent after the start was not processed", l.c.name)
	}
	if p.refused == 0 && p.ready == 0 {
		mcrt.Fail("%s: never ready", l.c.name)
	}
	mcrt.Observe("%s %d %d", l.c.name, p.ready, p.unready)
	stop()
}

// probeStop: not ready and not alive from the moment the shutdown begins.
func probeStop() {
	l := newLife(nil)
	l.e.B.CloseDelay = []time.Duration{0, 3 * time.Millisecond}[mcrt.Choose("slow close", 2)]
	if l.c.name == "writer" {
		l.d.answer = func(n int, r *mhttp.Request) mhttp.Response {
			return mhttp.Response{Status: 204, Delay: 2 * time.Second}
		}
	}
	busy, publishing := false, 0
	l.e.B.PublishErr = func(c *fnats.Conn, subj string, data []byte) error {
		if busy {
			publishing++
			sleep(20 * time.Millisecond)
			publishing--
		}
		return nil
	}
	stop, err := l.c.start(conf(l.c.toml))
	must(err)
	sleep(5 * time.Millisecond)
	if l.c.name != "writer" && l.c.name != "monitor" {
		busy = mcrt.Choose("stopped while publishing", 2) == 1
	}
	if busy {
		l.c.feed(l, 0)
		for i := 0; i < 30000 && publishing == 0; i++ {
			sleep(time.Millisecond)
		}
		if publishing == 0 {
			mcrt.Fail("%s: nothing published", l.c.name)
		}
	} else {
		for i := 0; i < mcrt.Choose("units", 3); i++ {
			l.c.feed(l, i)
		}
		sleep([]time.Duration{0, 50 * time.Millisecond}[mcrt.Choose("phase", 2)])
	}
	stopping := false
	stopAt := int64(0)
	probe := func(name, path string) *bool {
		over := new(bool)
		mcrt.GoNamed(name, func() {
			wasDown := false
			for i := 0; i < 5; i++ {
				// time passes once every step of Stop that need not wait is done
				begun := stopping && mcrt.NowNanos() > stopAt
				r := mhttp.Call(probePort, "GET", path)
				up := r.Err == nil && r.Status == 200
				if up && begun {
					mcrt.Fail("%s: %s answered 200 while stopping", l.c.name, path)
				}
				if up && wasDown {
					mcrt.Fail("%s: %s went back to 200", l.c.name, path)
				}
				if !up && !stopping {
					mcrt.Fail("%s: %s is %d (%v) although nobody stopped it", l.c.name, path, r.Status, r.Err)
				}
				wasDown = !up
				if i > 0 {
					sleep(400 * time.Microsecond)
				}
			}
			*over = true
		})
		return over
	}
	a := probe("ready-prober", "/readyz")
	b := probe("alive-prober", "/healthz")
	sleep([]time.Duration{0, 500 * time.Microsecond}[mcrt.Choose("lead", 2)])
	stopping, stopAt = true, mcrt.NowNanos()
	stop()
	for _, path := range []string{"/readyz", "/healthz"} {
		if r := mhttp.Call(probePort, "GET", path); r.Err == nil {
			mcrt.Fail("%s: %s still answers (%d) after Stop", l.c.name, path, r.Status)
		}
	}
	sleep(time.Second)
	if !*a || !*b {
		mcrt.Fail("probers did not finish")
	}
}

// probeOff: port 0 disables the probes.
func probeOff() {
	l := newLife(nil)
	c := conf(l.c.toml)
	c.ProbePort = 0
	stop, err := l.c.start(c)
	must(err)
	sleep(10 * time.Millisecond)
	for _, p := range []int{probePort, 0, 80} {
		if mnet.N.TCPBound(p) {
			mcrt.Fail("%s: port %d bound with probes disabled", l.c.name, p)
		}
	}
	l.c.feed(l, 1)
	sleep(25 * time.Second)
	if !l.c.done(l, 1) {
		mcrt.Fail("%s: does not work without probes", l.c.name)
	}
	stop()
	l.released("after Stop")
}

func init() {
	addScenario("C24",
		&Scenario{Name: "stop", Doc: "every component stopped under every traffic, phase and database behaviour, then restarted", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Weight: 3,
			Opts: mcrt.Opts{Demote: true}, Body: lifeStop()},
		&Scenario{Name: "stop-retrying", Doc: "writers with full retry queues stopped before, at and within retries, with every database behaviour", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Weight: 1,
			Opts: mcrt.Opts{Demote: true}, Body: lifeStopRetrying},
		&Scenario{Name: "failed-start", Doc: "any step of any component's start fails, then it is started again", Quick: Bounds{Sched: 1, Fault: 1}, Thorough: Bounds{Sched: 2, Fault: 2}, Weight: 1,
			Opts: mcrt.Opts{Demote: true}, Body: lifeFailedStart},
	)
	addScenario("C25",
		&Scenario{Name: "start", Doc: "readiness probed between any two steps of the start; data sent at once when ready", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Weight: 2,
			Opts: mcrt.Opts{Atomics: true, Demote: true}, Body: probeStart},
		&Scenario{Name: "stop", Doc: "both probes polled between any two steps of the shutdown", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Weight: 2,
			Body: probeStop},
		&Scenario{Name: "disabled", Doc: "probe port 0", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Body: probeOff},
	)
}
