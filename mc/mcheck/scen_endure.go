//go:build go1.21

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mhttp"
)

// Components that run for a long time, mostly idle: they work, report and
// answer probes after every pause as they did at the start.

func idlePauses(th bool) []time.Duration {
	ps := []time.Duration{61 * time.Second, 16 * time.Minute, 61 * time.Minute, 150 * time.Minute, 25 * time.Hour}
	if th {
		ps = append(ps, 8*time.Hour, 8*24*time.Hour)
	}
	return ps
}

// idleN: pauses x rounds x report intervals, per component.
func idleN(th bool) int { return len(idlePauses(th)) * 2 * 2 }

// idleCounters: the counter of the units received.
var idleCounters = map[string]string{"udp listener": "received", "http listener": "received", "filter": "processed", "downsampler": "received", "writer": "received"}

func idleCase(k, i int) {
	tick()
	ps := idlePauses(thoroughTier())
	pause := ps[i%len(ps)]
	i /= len(ps)
	rounds := 1 + 2*(i%2)
	stats := i/2 == 1
	e := setup()
	d := e.influx(nil)
	l := &life{e: e, d: d, c: comps[k]}
	c := conf(l.c.toml)
	if stats {
		c.StatsInterval = config.NewDuration(3 * time.Second)
		if pause > time.Hour {
			c.StatsInterval = config.NewDuration(20 * time.Minute)
		}
	}
	stop, err := l.c.start(c)
	must(err)
	sleep(10 * time.Millisecond)
	what := fmt.Sprintf("%s with pauses of %v", l.c.name, pause)
	fed := 0
	feed := func() {
		l.c.feed(l, fed)
		fed++
	}
	count := func(n int) int {
		switch l.c.name {
		case "udp listener", "http listener":
			return strings.Count(string(join(e.published(subjIn))), unit(n)+" ")
		case "filter":
			return strings.Count(string(join(e.published(subjJunk))), unit(n)+" ")
		case "writer":
			return strings.Count(strings.Join(d.bodies(), ""), unit(n)+" ")
		}
		if l.c.done(l, n) {
			return 1
		}
		return 0
	}
	check := func(when string) {
		sleep(25 * time.Second)
		for n := 0; n < fed; n++ {
			if g := count(n); g != 1 {
				mcrt.Fail("%s: unit %d appears %d times %s", what, n, g, when)
			}
		}
		for _, p := range []string{"/readyz", "/healthz"} {
			if r := mhttp.Call(probePort, "GET", p); r.Err != nil || r.Status != 200 {
				mcrt.Fail("%s: %s answers %d (%v) %s", what, p, r.Status, r.Err, when)
			}
		}
		name := idleCounters[l.c.name]
		if !stats || name == "" {
			return
		}
		sleep(c.StatsInterval.Duration + time.Second)
		if g, ok := e.counter(subjMon, name, ""); !ok || g != int64(fed) {
			mcrt.Fail("%s: %s is %d (present: %v) %s, expected %d", what, name, g, ok, when, fed)
		}
	}
	feed()
	check("before the first pause")
	for r := 0; r < rounds; r++ {
		sleep(pause)
		feed()
		sleep(100 * time.Millisecond)
		feed()
		check(fmt.Sprintf("after pause %d", r))
	}
	sleep(pause)
	check("at the end")
	t0 := mcrt.NowNanos()
	stop()
	if took := since(t0); took > l.c.stopBound {
		mcrt.Fail("%s: Stop took %v", what, took)
	}
	l.released("after Stop")
}

func init() {
	props := map[string]string{"udp listener": "C01", "http listener": "C02", "filter": "C06", "downsampler": "C12", "writer": "C16", "monitor": "C22"}
	for k, c := range comps {
		k := k
		sc := Scenario{Name: "idle", Doc: c.name + " with 1 or 3 pauses of 1 minute to 25 hours (thorough 8 days), with and without reports",
			Opts: mcrt.Opts{MaxSteps: 200000000, CaseSteps: 20000000, MaxLoops: 100000000}, Chunk: 1, N: idleN, Case: func(i int) { idleCase(k, i) }}
		addScenario(props[c.name], &sc)
		sc2 := sc
		sc2.Name = "idle-" + squashName(c.name)
		addScenario("C25", &sc2)
		if idleCounters[c.name] != "" {
			sc3 := sc2
			addScenario("C21", &sc3)
		}
	}
}
