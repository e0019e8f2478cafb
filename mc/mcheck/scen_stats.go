//go:build go1.21

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/prometheus"
	"github.com/jumptrading/influx-spout/v2/stats"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
)

// ---------------------------------------------------------------------
// C21: identity, freshness and values of the reports

var ruleSubjects = []string{"out", "Out", "out.A", "OUT.a", "in-archive"}
var filterNames = []string{"flt", "Flt.1", "a b"}

// ruleLabels: rules with equal and with confusable subjects; every subject's
// count must arrive at the monitor's page.
func ruleLabels(i int) {
	tick()
	name := filterNames[i%len(filterNames)]
	i /= len(filterNames)
	var rules []config.Rule
	want := map[string]int{}
	msg := ""
	for k := 0; k < 3; k++ {
		s := i % (len(ruleSubjects) + 1)
		i /= len(ruleSubjects) + 1
		if s == len(ruleSubjects) {
			continue
		}
		rules = append(rules, config.Rule{Rtype: "basic", Match: fmt.Sprintf("m%d", k), Subject: ruleSubjects[s]})
		for n := 0; n < []int{1, 2, 5}[k]; n++ {
			msg += fmt.Sprintf("m%d v=%d\n", k, n)
			want[ruleSubjects[s]]++
		}
	}
	e := setup()
	startMonitor(nil)
	startFilter(e, append(rules, config.Rule{Rtype: "basic", Match: "never", Subject: "idle"}), func(c *config.Config) {
		c.Name = name
		c.Workers = 2
		c.StatsInterval = config.NewDuration(time.Second)
	})
	sleep(100 * time.Millisecond)
	e.B.Inject(subjIn, []byte(msg))
	sleep(2500 * time.Millisecond)
	want["idle"] = 0
	page := scrape()
	got := map[string]string{}
	for _, l := range strings.Split(page, "\n") {
		if !strings.HasPrefix(l, "triggered{") {
			continue
		}
		if !strings.Contains(l, `component="filter"`) || !strings.Contains(l, fmt.Sprintf("name=\"%s\"", name)) {
			mcrt.Fail("filter %q reports %q", name, l)
		}
		a := strings.Index(l, `rule="`)
		if a < 0 {
			mcrt.Fail("filter %q reports %q without a rule", name, l)
		}
		a += len(`rule="`)
		s := l[a : a+strings.IndexByte(l[a:], '"')]
		if _, ok := got[s]; ok {
			mcrt.Fail("two counts for the rules of subject %q", s)
		}
		got[s] = strings.Fields(l[strings.LastIndexByte(l, '}')+1:])[0]
	}
	for _, s := range keysOf(want) {
		if got[s] != fmt.Sprint(want[s]) {
			mcrt.Fail("rules %v: the count for subject %q is %q, %d lines matched", ruleList(rules), s, got[s], want[s])
		}
	}
	if len(got) != len(want) {
		mcrt.Fail("rules %v: counts for %q", ruleList(rules), keysOf(got))
	}
}

func ruleList(rules []config.Rule) []string {
	var out []string
	for _, r := range rules {
		out = append(out, r.Match+":"+r.Subject)
	}
	return out
}

var freshIntervals = []time.Duration{100 * time.Millisecond, time.Second, 3 * time.Second, 70 * time.Second}
var freshGaps = []int64{10, 33, 49, 130, 251} // hundredths of an interval

// fresh: reports come at the configured interval and contain all that
// happened before them.
func fresh(i int) {
	tick()
	c := comps[i%5]
	i /= 5
	interval := freshIntervals[i%len(freshIntervals)]
	i /= len(freshIntervals)
	gap := time.Duration(freshGaps[i%len(freshGaps)]) * interval / 100
	i /= len(freshGaps)
	name := []string{"lc", "Other Name"}[i%2]
	l := &life{e: setup(), c: c}
	l.d = l.e.influx(nil)
	cf := conf(c.toml)
	cf.StatsInterval = config.NewDuration(interval)
	cf.Name = name
	t0 := mcrt.NowNanos()
	stop, err := c.start(cf)
	must(err)
	sleep(7 * time.Microsecond)
	var at []int64
	for k := 0; k < 8; k++ {
		at = append(at, mcrt.NowNanos())
		l.c.feed(l, k)
		sleep(gap)
	}
	sleep(2 * interval)
	end := mcrt.NowNanos()
	stop()
	what := "received"
	if c.name == "filter" {
		what = "processed"
	}
	component := strings.Split(c.toml, "\"")[1]
	if component == "listener_http" {
		component = "listener"
	}
	last := int64(-1)
	for _, p := range l.e.B.Log {
		if p.Subj != subjMon {
			continue
		}
		for _, line := range strings.Split(string(p.Data), "\n") {
			if !strings.HasPrefix(line, what+"{") {
				continue
			}
			if !strings.Contains(line, `component="`+component+`"`) || !strings.Contains(line, `name="`+name+`"`) {
				mcrt.Fail("%s %q reports %q", c.name, name, line)
			}
			if last < 0 && p.At > t0+int64(interval) {
				mcrt.Fail("%s with stats_interval %v: first report after %v", c.name, interval, time.Duration(p.At-t0))
			}
			if last >= 0 && (p.At-last > int64(interval+interval/10) || p.At-last < int64(interval-interval/10)) {
				mcrt.Fail("%s with stats_interval %v: a report came %v after the one before", c.name, interval, time.Duration(p.At-last))
			}
			last = p.At
			n, most := 0, 0
			for _, t := range at {
				if t+int64(2*time.Millisecond) < p.At {
					n++
				}
				if t <= p.At {
					most++
				}
			}
			f := strings.Fields(line[strings.LastIndexByte(line, '}')+1:])
			var v int
			fmt.Sscan(f[0], &v)
			if v < n || v > most {
				mcrt.Fail("%s with stats_interval %v: report after %v says %s is %d, expected %d", c.name, interval, time.Duration(p.At-t0), what, v, n)
			}
			if len(f) != 2 || f[1] != fmt.Sprint(p.At/1e6) {
				mcrt.Fail("%s: report at %d has the timestamp of %q", c.name, p.At, line)
			}
		}
	}
	if last < 0 || end-last > int64(interval+interval/10) {
		mcrt.Fail("%s with stats_interval %v: no more reports after %v", c.name, interval, time.Duration(last-t0))
	}
}

// bigValues: counts of any size survive until they are parsed.
func bigValues(i int) {
	vals := []uint64{0, 1, 255, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<62 + 1, 1<<63 - 1}
	tick()
	v := vals[i%len(vals)]
	w := vals[i/len(vals)]
	st := stats.New("a", "b")
	st.Max("a", v)
	st.Max("b", w)
	want := map[string]uint64{"a": v, "b": w}
	now := time.Unix(1600000000, 0)
	labels := stats.NewLabels("c", "n")
	for k := uint64(0); k < 3; k++ {
		for _, name := range []string{"a", "b"} {
			if want[name] < 1<<63-1 && k > 0 {
				st.Inc(name)
				want[name]++
			}
			if got := st.Get(name); got != want[name] {
				mcrt.Fail("counter %s is %d, expected %d", name, got, want[name])
			}
		}
		if k == 2 {
			// a lower value does not count
			st.Max("a", v)
		}
		check := func(text []byte, names ...string) {
			set, err := prometheus.ParseMetrics(text)
			if err != nil {
				mcrt.Fail("cannot parse the report %q: %v", text, err)
			}
			all := set.All()
			if len(all) != len(names) {
				mcrt.Fail("report %q has %d counters", text, len(all))
			}
			for _, m := range all {
				if uint64(m.Value) != want[string(m.Name)] || m.Milliseconds != 1600000000000 {
					mcrt.Fail("counter %s is %d, reported as %q", m.Name, want[string(m.Name)], text)
				}
			}
		}
		check(stats.SnapshotToPrometheus(st.Snapshot(), now, labels), "a", "b")
		check(stats.CounterToPrometheus("a", int(want["a"]), now, labels.With("x", "y")), "a")
	}
}

func init() {
	n := len(ruleSubjects) + 1
	addScenario("C21",
		&Scenario{Name: "rule-labels", Doc: "3 rules with every choice of 5 subjects (equal, similar), 3 filter names, through the monitor", N: func(bool) int { return n * n * n * len(filterNames) }, Case: ruleLabels, Chunk: 1},
		&Scenario{Name: "intervals", Doc: "5 components x 4 intervals x 5 arrival gaps x 2 names: every report on time and up to date", N: func(bool) int { return 5 * len(freshIntervals) * len(freshGaps) * 2 }, Case: fresh, Chunk: 1},
		&Scenario{Name: "values", Doc: "pairs of counts around powers of two up to 2^63-1", N: func(bool) int { return 144 }, Case: bigValues},
	)
}
