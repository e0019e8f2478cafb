//go:build go1.21

package main

import (
	"fmt"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mhttp"
)

// raceBody runs one component with several sources of traffic, statistics,
// probes and scrapes, and stops it.  The race detector judges.
func raceBody(k int) func() {
	return func() {
		e := setup()
		ans := mcrt.Choose("database", 3)
		d := e.influx(func(n int, r *mhttp.Request) mhttp.Response {
			switch {
			case ans == 1 && n < 3:
				return mhttp.Response{Status: 503}
			case ans == 2:
				return mhttp.Response{Status: 204, Delay: 40 * time.Millisecond}
			}
			return mhttp.Response{Status: 204}
		})
		if comps[k].name != "writer" && ans > 0 {
			return
		}
		l := &life{e: e, d: d, c: comps[k]}
		c := conf(l.c.toml)
		c.StatsInterval = config.NewDuration(50 * time.Millisecond)
		c.WriterRetryInterval = config.NewDuration(60 * time.Millisecond)
		c.BatchMaxCount = 2
		c.BatchMaxAge = config.NewDuration(70 * time.Millisecond)
		c.DownsamplePeriod = config.NewDuration(time.Second)
		c.Debug = mcrt.Choose("debug", 2) == 1
		switch comps[k].name {
		case "filter":
			c.Rule = raceRules
		case "writer":
			if ans == 0 {
				for _, r := range raceRules {
					r.Subject = ""
					c.Rule = append(c.Rule, r)
				}
			}
		}
		stop, err := l.c.start(c)
		must(err)
		for t := 0; t < 2; t++ {
			t := t
			mcrt.GoNamed(fmt.Sprintf("traffic%d", t), func() {
				for i := 0; i < 3; i++ {
					l.c.feed(l, 10*t+i)
					switch comps[k].name {
					case "filter":
						l.e.B.Inject(subjIn, []byte(raceLines(10*t+i)))
					case "downsampler":
						l.e.B.Inject([]string{"in", "in2"}[t], []byte(raceLines(10*t+i)))
					case "writer":
						l.e.B.Inject([]string{"in", "in2"}[i%2], []byte(raceLines(10*t+i)))
					case "http listener":
						l.reqs = append(l.reqs, mhttp.CallAsync("client", 13337, "POST", "/write?precision=ms", pc(raceLines(10*t+i))))
					case "monitor":
						l.e.B.Inject(subjMon, []byte(fmt.Sprintf("a{x=\"1\",w=\"q\\\"\\n\"} %d 5\nnot a metric\n", i)))
					}
					sleep(time.Duration(30+15*t) * time.Millisecond)
				}
			})
		}
		mcrt.GoNamed("observer", func() {
			for i := 0; i < 3; i++ {
				mhttp.Call(probePort, "GET", "/readyz")
				mhttp.Call(probePort, "GET", "/healthz")
				if comps[k].name == "monitor" {
					mhttp.CallAsync("scrape", 9331, "GET", "/metrics")
				}
				sleep(35 * time.Millisecond)
			}
		})
		sleep([]time.Duration{20 * time.Millisecond, 130 * time.Millisecond, 1300 * time.Millisecond}[mcrt.Choose("stop at", 3)])
		stop()
		sleep(time.Second)
		mcrt.Observe("%d", l.effects())
	}
}

// raceRules are rules of every type, tried one after the other.
var raceRules = []config.Rule{
	{Rtype: "basic", Match: "other", Subject: "other"},
	{Rtype: "tags", Tags: [][]string{{"z", "1"}, {"y", "9"}}, Subject: "out1"},
	{Rtype: "regex", Match: "nothing|x,c", Subject: "out2"},
	{Rtype: "negregex", Match: "unit|new|w=", Subject: "other"},
	{Rtype: "tags", Tags: [][]string{{"y", "2"}}, Subject: "out3"},
	{Rtype: "regex", Match: "^new", Subject: "out4"},
}

// raceLines is a message with lines of every shape: unsorted and escaped
// tags, strings, integers, malformed, old and with a timestamp.
func raceLines(i int) string {
	return fmt.Sprintf("other,b=1,a=%d v=1\nother\\ x,c\\,d=1,b\\=e=2,a=\\ 3 v=\"s \\\" t\",w=%di,b=t\nbad\nold,z=1,y=2 v=1 1000000000000000000\nnew,z=1,y=2 v=%d %d\nother", i, i, i, mcrt.NowNanos())
}

// raceProps are the properties which a data race in a component breaks, other
// than C26.
var raceProps = map[string][]string{
	"udp listener": {"C01"}, "http listener": {"C02", "C25"}, "filter": {"C11", "C21"}, "writer": {"C16"}, "downsampler": {"C12"}, "monitor": {"C22"},
}

func init() {
	race := func(sc Scenario, props ...string) {
		sc.Race = true
		for _, p := range append(props, "C26") {
			sc := sc
			if p != "C26" {
				sc.Weight = 3
			}
			addScenario(p, &sc)
		}
	}
	for k, c := range comps {
		race(Scenario{Weight: map[string]int{"writer": 6, "http listener": 2, "filter": 2, "downsampler": 2}[c.name], Name: "race-" + squashName(c.name), Doc: c.name + " under concurrent traffic, statistics, probes and shutdown with race detection",
			Opts: mcrt.Opts{Atomics: true}, Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Body: raceBody(k)}, raceProps[c.name]...)
	}
	race(Scenario{Name: "race-http-clients", Doc: "3 concurrent HTTP clients with race detection", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2},
		Body: httpConcurrent(3, func(i int) []httpReq { return httpReqs(i)[1:3] }, []limits{{2, time.Second, "1MB", mb}}, false)}, "C02")
	race(Scenario{Name: "race-filter-workers", Doc: "2 filter workers and publish failures with race detection", Opts: mcrt.Opts{Atomics: true}, Quick: Bounds{Sched: 1, Fault: 1}, Thorough: Bounds{Sched: 2, Fault: 2}, Body: filterWorkers(2, 2, true, 1)}, "C11")
	race(Scenario{Name: "race-writer-workers", Doc: "2 writer workers on two subjects with race detection", Opts: mcrt.Opts{Atomics: true}, Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Body: writerWorkers(2, 2, []time.Duration{0, 500 * time.Millisecond}, false)}, "C16")
	race(Scenario{Name: "race-retry", Doc: "retries of split batches while buffers are reused with race detection", Quick: Bounds{}, Thorough: Bounds{Sched: 1}, Body: retryChunks}, "C17")
	race(Scenario{Name: "race-monitor", Doc: "scrapes racing updates with race detection", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Body: monConcurrent(2)}, "C22")
}

func squashName(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] == ' ' {
			b[i] = '-'
		}
	}
	return string(b)
}
