//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/listener"
	"github.com/jumptrading/influx-spout/v2/monitor"
	"github.com/jumptrading/influx-spout/v2/prometheus"
	"github.com/jumptrading/influx-spout/v2/stats"
	"github.com/jumptrading/influx-spout/v2/verifmc/fnats"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mhttp"
	"github.com/jumptrading/influx-spout/v2/verifmc/mnet"
)

const monPort = 9331

func startMonitor(mod func(*config.Config)) *monitor.Monitor {
	c := conf("mode=\"monitor\"\nname=\"mon\"\n")
	if mod != nil {
		mod(c)
	}
	m, err := monitor.Start(c)
	must(err)
	return m
}

func scrape() string {
	r := mhttp.Call(monPort, "GET", "/metrics")
	return scraped(r)
}

func scraped(r *mhttp.Result) string {
	if r.Err != nil || r.Status != 200 {
		mcrt.Fail("scrape failed: status %d err %v panic %q", r.Status, r.Err, r.Panic)
	}
	return string(r.Body)
}

// ---------------------------------------------------------------------
// C22

type monMsg struct {
	text string
	// upd maps canonical series -> value text; nil: the message is refused
	upd map[string]string
}

var monMenu = []monMsg{
	{"a{x=\"1\"} 1 1000", map[string]string{`a{x="1"}`: "1 1000"}},
	{"a{x=\"1\"} 2 2000\n", map[string]string{`a{x="1"}`: "2 2000"}},
	{"a{x=\"2\"} 7 1500\nb 5\n", map[string]string{`a{x="2"}`: "7 1500", "b": "5"}},
	{"a{y=\"q\",x=\"1\"} 3 900", map[string]string{`a{x="1",y="q"}`: "3 900"}},
	{"a{x=\"1\",y=\"q\"} 4 800\na{x=\"1\"} 0 3000\n", map[string]string{`a{x="1",y="q"}`: "4 800", `a{x="1"}`: "0 3000"}},
	{"b -12", map[string]string{"b": "-12"}},
	{"a{x=\"1\"} 9x 1000", nil},
	{"b 8\nnot a metric\n", nil},
	{"b{", nil},
	{"", map[string]string{}},
	{"longname_total{component=\"filter\",host=\"h\",name=\"n\"} 123456789012 1600000000000\n", map[string]string{`longname_total{component="filter",host="h",name="n"}`: "123456789012 1600000000000"}},
}

func monRender(state map[string]string) string {
	var ls []string
	for k, v := range state {
		ls = append(ls, k+" "+v)
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

func canonScrape(s string) string {
	if s != "" && !strings.HasSuffix(s, "\n") {
		mcrt.Fail("scrape output does not end with a newline: %q", s)
	}
	ls := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	if s == "" {
		ls = nil
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

func apply(state map[string]string, m monMsg) map[string]string {
	n := map[string]string{}
	for k, v := range state {
		n[k] = v
	}
	for k, v := range m.upd {
		n[k] = v
	}
	return n
}

func monSequences(nmsg int) func() {
	return func() {
		e := setup()
		m := startMonitor(nil)
		waitHTTP(monPort)
		state := map[string]string{}
		var hist []string
		for i := 0; i < nmsg; i++ {
			mm := monMenu[mcrt.Choose("msg", len(monMenu))]
			hist = append(hist, mm.text)
			e.B.Inject(subjMon, []byte(mm.text))
			state = apply(state, mm)
			sleep(time.Millisecond)
			if i < nmsg-1 && i%2 == 1 {
				continue // also scrape rarely: rendering must not disturb state
			}
			if got, want := canonScrape(scrape()), monRender(state); got != want {
				mcrt.Fail("after %q the monitor serves %q, expected %q", hist, got, want)
			}
		}
		m.Stop()
	}
}

// metricPool holds metrics whose names and labels are easily confused.
type poolMetric struct{ text, canon string }

var metricPool = func() []poolMetric {
	vals := []string{"", "a", "b", "a,z=b", "} 1", ",r="}
	var out []poolMetric
	for _, name := range []string{"m", "mr", "m_"} {
		out = append(out, poolMetric{name, name})
		for _, v := range vals {
			for _, k := range []string{"r", "z"} {
				s := fmt.Sprintf("%s{%s=\"%s\"}", name, k, v)
				out = append(out, poolMetric{s, s})
			}
			for _, w := range vals {
				canon := fmt.Sprintf("%s{r=\"%s\",z=\"%s\"}", name, v, w)
				out = append(out, poolMetric{canon, canon})
				out = append(out, poolMetric{fmt.Sprintf("%s{z=\"%s\",r=\"%s\"}", name, w, v), canon})
			}
		}
	}
	return out
}()

func metricPairs(bool) int { return len(metricPool) }

// metricIdentity: every pair of metrics is one series if and only if name
// and labels are the same.
func metricIdentity(i int) {
	a := metricPool[i]
	for _, b := range metricPool {
		set, err := prometheus.ParseMetrics([]byte(a.text + " 1 10\n"))
		if err != nil {
			mcrt.Fail("metric %q is refused: %v", a.text, err)
		}
		upd, err := prometheus.ParseMetrics([]byte(b.text + " 2 20\n"))
		if err != nil {
			mcrt.Fail("metric %q is refused: %v", b.text, err)
		}
		set.UpdateFromSet(upd)
		want := map[string]string{a.canon: "1 10"}
		want[b.canon] = "2 20"
		if got := canonScrape(string(set.ToBytes())); got != monRender(want) {
			mcrt.Fail("metrics %q and then %q are rendered as %q", a.text, b.text, got)
		}
		both, err := prometheus.ParseMetrics([]byte(a.text + " 1 10\n" + b.text + " 2 20\n"))
		if err != nil {
			mcrt.Fail("metrics %q %q are refused: %v", a.text, b.text, err)
		}
		if got := canonScrape(string(both.ToBytes())); got != monRender(want) {
			mcrt.Fail("metrics %q and %q in one message are rendered as %q", a.text, b.text, got)
		}
	}
}

// monIdentity: the same through a running monitor, for one metric and all
// others in one history.
func monIdentity() {
	e := setup()
	startMonitor(nil)
	waitHTTP(monPort)
	state := map[string]string{}
	n := mcrt.Choose("start", 8)
	step := []int{1, 7, 31, 180}[mcrt.Choose("step", 4)]
	for k := 0; k < 60; k++ {
		m := metricPool[(n*23+k*step)%len(metricPool)]
		v := fmt.Sprintf("%d %d", k, 1000-k)
		e.B.Inject(subjMon, []byte(m.text+" "+v))
		state[m.canon] = v
	}
	sleep(time.Millisecond)
	if got, want := canonScrape(scrape()), monRender(state); got != want {
		mcrt.Fail("the monitor serves %q, expected %q", got, want)
	}
}

// monConcurrent: scrapes while messages arrive see a state between two
// messages, never going back.
func monConcurrent(nscrape int) func() {
	return func() {
		e := setup()
		startMonitor(nil)
		waitHTTP(monPort)
		seqs := [][]int{{0, 1, 2}, {2, 5, 7}, {3, 4, 1}, {10, 8, 0}}
		seq := seqs[mcrt.Choose("seq", len(seqs))]
		states := []string{""}
		st := map[string]string{}
		for _, k := range seq {
			st = apply(st, monMenu[k])
			states = append(states, monRender(st))
		}
		var rs []*mhttp.Result
		for i := 0; i < nscrape; i++ {
			rs = append(rs, mhttp.CallAsync(fmt.Sprintf("scrape%d", i), monPort, "GET", "/metrics"))
		}
		for _, k := range seq {
			mcrt.Yield("inject")
			e.B.Inject(subjMon, []byte(monMenu[k].text))
		}
		rs = append(rs, mhttp.CallAsync("scrape-x", monPort, "GET", "/metrics"))
		sleep(time.Second)
		for _, r := range rs {
			if !r.Done {
				mcrt.Fail("scrape not answered")
			}
			got := canonScrape(scraped(r))
			ok := false
			for i, s := range states {
				if s == got {
					ok = true
					mcrt.Observe("state %d", i)
				}
			}
			if !ok {
				mcrt.Fail("scrape returned %q which is not the state after any prefix of the messages %q", got, states)
			}
		}
		if got := canonScrape(scrape()); got != states[len(states)-1] {
			mcrt.Fail("finally the monitor serves %q, expected %q", got, states[len(states)-1])
		}
	}
}

// monGarbageSetup, monGarbage: no message can disturb the monitor.
func monGarbageSetup() {
	e := setup()
	startMonitor(nil)
	waitHTTP(monPort)
	mcrt.X.Data["env"] = e
	e.B.Inject(subjMon, []byte("zz{k=\"v\"} 77 88"))
	sleep(time.Millisecond)
}

const monAlphabet = "a{}=\", 1\n-"

func monGarbage(i int) {
	e := mcrt.X.Data["env"].(*env)
	g := garbageAt(i, monAlphabet)
	e.B.Inject(subjMon, []byte(g))
	v := fmt.Sprintf("zz{k=\"v\"} %d 88", i)
	e.B.Inject(subjMon, []byte(v))
	sleep(time.Millisecond)
	if i%7 == 0 {
		out := scrape()
		found := false
		for _, l := range strings.Split(out, "\n") {
			if l == v {
				found = true
			}
		}
		if !found {
			mcrt.Fail("after message %q the monitor does not serve the next update: %s", g, short(out))
		}
	}
}

// ---------------------------------------------------------------------
// C23 encoding

var (
	encNames  = []string{"a", "received", "failed_nats_publish", "x:y_1"}
	encLabels = [][2]string{{"component", "filter"}, {"name", "my filter, 1"}, {"host", "h=1{x}"}, {"z", ""}, {"a0", "é/\\t"}}
	encValues = []int64{0, 1, -1, 10, 9223372036854775807, -9223372036854775808, 1234567890123}
	encTimes  = []int64{0, 1, 1600000000000, 9223372036854775807}
)

func labelSets() [][]int {
	var out [][]int
	n := len(encLabels)
	var rec func(cur []int)
	rec = func(cur []int) {
		out = append(out, append([]int(nil), cur...))
		if len(cur) == 3 {
			return
		}
		for k := 0; k < n; k++ {
			dup := false
			for _, c := range cur {
				dup = dup || c == k
			}
			if !dup {
				rec(append(cur, k))
			}
		}
	}
	rec(nil)
	return out
}

var encSets = labelSets()

func encodeN(bool) int { return len(encSets) * len(encNames) * len(encValues) * len(encTimes) }

func encodeCase(i int) {
	set := encSets[i%len(encSets)]
	i /= len(encSets)
	name := encNames[i%len(encNames)]
	i /= len(encNames)
	val := encValues[i%len(encValues)]
	i /= len(encValues)
	ms := encTimes[i]
	mk := func() *prometheus.Metric {
		m := &prometheus.Metric{Name: []byte(name), Value: val, Milliseconds: ms}
		for _, k := range set {
			m.Labels = append(m.Labels, prometheus.NewLabel(encLabels[k][0], encLabels[k][1]))
		}
		return m
	}
	labelsOf := func(m *prometheus.Metric) string {
		var ls []string
		for _, l := range m.Labels {
			ls = append(ls, fmt.Sprintf("%q=%q", l.Name, l.Value))
		}
		sort.Strings(ls)
		return strings.Join(ls, ",")
	}
	wire := mk().ToBytes()
	keep := string(wire)
	got, err := prometheus.ParseMetric(wire)
	if err != nil {
		mcrt.Fail("metric %q cannot be parsed back: %v", keep, err)
	}
	w := mk()
	if string(got.Name) != name || got.Value != val || got.Milliseconds != ms || labelsOf(got) != labelsOf(w) {
		mcrt.Fail("metric %q was parsed back as %q %d %d %s", keep, got.Name, got.Value, got.Milliseconds, labelsOf(got))
	}
	// rendering the parsed metric must not change it or the message
	again := string(got.ToBytes())
	if again != keep || string(wire) != keep {
		mcrt.Fail("metric %q is rendered as %q after parsing (message now %q)", keep, again, wire)
	}
	if labelsOf(got) != labelsOf(w) {
		mcrt.Fail("rendering metric %q changed its labels to %s", keep, labelsOf(got))
	}
	// the stats helpers produce what the monitor understands
	if ms > 0 && len(set) > 0 && ms < 9000000000000 && val >= 0 {
		var ls prometheus.Labels
		for _, k := range set {
			ls = ls.With(encLabels[k][0], encLabels[k][1])
		}
		now := time.Unix(0, ms*1e6)
		one := stats.CounterToPrometheus(name, int(val), now, ls)
		if string(one) != keep {
			mcrt.Fail("counter %s=%d is reported as %q, expected %q", name, val, one, keep)
		}
		snap := stats.Snapshot{{Name: name, Value: uint64(val)}, {Name: name + "2", Value: 3}}
		set2, err := prometheus.ParseMetrics(stats.SnapshotToPrometheus(snap, now, ls))
		if err != nil {
			mcrt.Fail("snapshot of %s cannot be parsed: %v", name, err)
		}
		n := 0
		for _, m := range set2.All() {
			if labelsOf(m) != labelsOf(w) || m.Milliseconds != ms {
				mcrt.Fail("snapshot metric %s differs", m)
			}
			if string(m.Name) == name && m.Value == val || string(m.Name) == name+"2" && m.Value == 3 {
				n++
			}
		}
		if n != 2 {
			mcrt.Fail("snapshot of %s yields %d of 2 counters", name, n)
		}
	}
}

// parseCase: arbitrary bytes never break the parser, and whatever it
// accepts is stable under rendering.
func parseCase(i int) { parseCheck(garbageAt(i, monAlphabet)) }

var parseTokens = []string{"a", "a{", "}", "{}", "x=\"1\"", ",", "=\"", "\"", " ", "1", "-", "99999999999999999999", "18446744073709551617", "\n"}

func parseTokensCase(i int) { parseCheck(tokenAt(i, parseTokens)) }

func parseCheck(g string) {
	buf := []byte(g)
	m, err := prometheus.ParseMetric(buf)
	if err == nil {
		if !strings.Contains(g, "\n") {
			r := string(m.ToBytes())
			m2, err2 := prometheus.ParseMetric([]byte(r))
			if len(m.Name) > 0 && len(r) >= 3 && (err2 != nil || string(m2.ToBytes()) != r) {
				mcrt.Fail("%q is accepted as %q but that is not accepted again (%v)", g, r, err2)
			}
			if f := strings.Fields(g[strings.LastIndexAny(g, "}")+1:]); len(f) > 0 && len(m.Labels) == 0 && !strings.ContainsAny(g, "{}") {
				// name value [timestamp]
				want := strings.SplitN(g, " ", 3)
				if len(want) >= 2 {
					checkIntText("value", want[1], m.Value)
				}
				if len(want) == 3 {
					checkIntText("timestamp", want[2], m.Milliseconds)
				}
			}
		}
	}
	if string(buf) != g {
		mcrt.Fail("parsing %q changed the message to %q", g, buf)
	}
	if set, err := prometheus.ParseMetrics(buf); err == nil {
		set.ToBytes()
		if string(buf) != g {
			mcrt.Fail("rendering the metrics of %q changed the message to %q", g, buf)
		}
	}
}

func checkIntText(what, text string, v int64) {
	var n int64
	if _, err := fmt.Sscanf(text, "%d", &n); err != nil || n != v {
		mcrt.Fail("%s %q was read as %d", what, text, v)
	}
}

// ---------------------------------------------------------------------
// C21 counters

// counterPath: the numbers seen through the monitor.
func viaMonitor(name, label string) (int64, bool) {
	var val int64
	found := false
	for _, l := range strings.Split(scrape(), "\n") {
		if !strings.HasPrefix(l, name+"{") || !strings.Contains(l, label) {
			continue
		}
		f := strings.Fields(l[strings.LastIndex(l, "}")+1:])
		if _, err := fmt.Sscan(f[0], &val); err == nil {
			found = true
		}
	}
	return val, found
}

func expectMon(label string, want map[string]int) {
	for _, k := range keysOf(want) {
		if n, ok := viaMonitor(k, label); !ok || n != int64(want[k]) {
			mcrt.Fail("the monitor reports %s=%d (present: %v) for %s, expected %d", k, n, ok, label, want[k])
		}
	}
}

func countUDP() {
	e := setup()
	startMonitor(nil)
	lim := limits{2, 2 * time.Second, "1MB", mb}
	pubErr, readErr := 0, 0
	e.B.PublishErr = func(c *fnats.Conn, subj string, data []byte) error {
		if subj == subjIn && mcrt.Fault("publish-error", 2) == 1 {
			pubErr++
			return errors.New("nats: boom")
		}
		return nil
	}
	e.N.ReadErr = func(c *mnet.UDPConn) error {
		if mcrt.Fault("read-error", 2) == 1 {
			readErr++
			return errors.New("recvfrom: connection refused")
		}
		return nil
	}
	c := udpConf(lim)
	c.StatsInterval = config.NewDuration(time.Second)
	_, err := listener.StartListener(c)
	must(err)
	n := 0
	for i := 0; i < 3; i++ {
		d := udpAlphabet[[]int{0, 2, 3}[mcrt.Choose("dgram", 3)]]
		if d != "" {
			n++
		}
		e.N.UDP(10001).Send([]byte(d))
		if mcrt.Choose("gap", 2) == 1 {
			sleep(700 * time.Millisecond)
		}
	}
	sleep(6 * time.Second)
	att := 0
	for _, p := range e.B.Log {
		if p.Subj == subjIn {
			att++
		}
	}
	expectMon(`component="listener"`, map[string]int{"received": n, "read_errors": readErr, "sent": att, "failed_nats_publish": pubErr})
}

func countHTTP(nclients int) func() {
	return func() {
		e := setup()
		startMonitor(nil)
		lim := limits{2, 2 * time.Second, "1MB", mb}
		pubErr := 0
		e.B.PublishErr = func(c *fnats.Conn, subj string, data []byte) error {
			if subj == subjIn && mcrt.Fault("publish-error", 2) == 1 {
				pubErr++
				return errors.New("nats: boom")
			}
			return nil
		}
		c := httpConf(lim)
		c.StatsInterval = config.NewDuration(time.Second)
		_, err := listener.StartHTTPListener(c)
		must(err)
		waitHTTP(13337)
		recv, rerr := 0, 0
		for i := 0; i < nclients; i++ {
			tgt := []string{"/write", "/write?precision=s"}[mcrt.Choose("prec", 2)]
			switch mcrt.Choose("body", 4) {
			case 0:
				recv++
				mhttp.CallAsync(fmt.Sprintf("c%d", i), 13337, "POST", tgt, pc(fmt.Sprintf("a%d v=1\n", i)))
			case 1:
				mhttp.CallAsync(fmt.Sprintf("c%d", i), 13337, "POST", tgt)
			case 2:
				recv++
				rerr++
				mhttp.CallAsync(fmt.Sprintf("c%d", i), 13337, "POST", tgt, pc(fmt.Sprintf("a%d v=1\n", i)), mhttp.Piece{Err: errors.New("unexpected EOF")})
			case 3:
				recv++
				mhttp.CallAsync(fmt.Sprintf("c%d", i), 13337, "POST", tgt, pc(fmt.Sprintf("a%d v=1\nb", i)), pc(fmt.Sprintf("%d v=2\n", i)))
			}
		}
		sleep(6 * time.Second)
		att := 0
		for _, p := range e.B.Log {
			if p.Subj == subjIn {
				att++
			}
		}
		expectMon(`component="listener"`, map[string]int{"received": recv, "read_errors": rerr, "sent": att, "failed_nats_publish": pubErr})
	}
}

// countPipeline: filter, downsampler, writer and monitor together.
func countPipeline() {
	e := setup()
	startMonitor(nil)
	d := e.influx(func(n int, r *mhttp.Request) mhttp.Response {
		return mhttp.Response{Status: []int{204, 400, 503}[mcrt.Choose("status", 3)]}
	})
	rules := []config.Rule{{Rtype: "basic", Match: "a", Subject: "out0"}, {Rtype: "basic", Match: "b", Subject: "out1"}}
	startFilter(e, rules, func(c *config.Config) {
		c.Workers = 1
		c.StatsInterval = config.NewDuration(time.Second)
		c.Name = "flt"
		c.NATSSubjectJunkyard = "junk"
	})
	startDS(func(c *config.Config) {
		c.NATSSubject = []string{"out1"}
		c.StatsInterval = config.NewDuration(time.Second)
		c.DownsamplePeriod = config.NewDuration(2 * time.Second)
	})
	startWriter(limits{1, time.Hour, "", 1000}, func(c *config.Config) {
		c.NATSSubject = []string{"out0"}
		c.StatsInterval = config.NewDuration(time.Second)
		c.WriterRetryBatches = 0
	})
	sleep(100 * time.Millisecond)
	na, nb, nj, nt, nmsg := 0, 0, 0, 0, 0
	msgsA, msgsB := 0, 0
	now := mcrt.NowNanos()
	for i := 0; i < 2; i++ {
		ls := []string{"a v=1\n", "b v=2\n", "c v=3\n", fmt.Sprintf("a v=9 %d\n", now-int64(time.Hour)), "b v=x=\"\n"}
		msg := ""
		ha, hb := false, false
		for k, l := range ls[:4] {
			if mcrt.Choose("line", 2) == 1 {
				msg += l
				switch k {
				case 0:
					na++
					ha = true
				case 1:
					nb++
					hb = true
				case 2:
					nj++
				case 3:
					nt++
				}
			}
		}
		if msg == "" {
			continue
		}
		nmsg++
		if ha {
			msgsA++
		}
		if hb {
			msgsB++
		}
		e.B.Inject(subjIn, []byte(msg))
		sleep(10 * time.Millisecond)
	}
	sleep(9 * time.Second)
	expectMon(`component="filter"`, map[string]int{"processed": na + nb + nj + nt, "passed": na + nb, "rejected": nj, "invalid_time": nt, "failed_nats_publish": 0, "nats_dropped": 0})
	expectMon(`rule="out0"`, map[string]int{"triggered": na})
	expectMon(`rule="out1"`, map[string]int{"triggered": nb})
	sent := 0
	if nb > 0 {
		sent = 1
	}
	expectMon(`component="downsampler"`, map[string]int{"received": msgsB, "sent": sent, "invalid_lines": 0, "invalid_timestamps": 0, "failed_nats_publish": 0})
	fails := 0
	for _, q := range d.reqs {
		if !q.ok() {
			fails++
		}
	}
	expectMon(`component="writer"`, map[string]int{"received": msgsA, "write_requests": len(d.reqs), "failed_writes": fails})
	if len(d.reqs) != msgsA {
		mcrt.Fail("%d write requests for %d messages", len(d.reqs), msgsA)
	}
}

// writerCountSplit: every request of a split batch is counted.
func countSplit() {
	e := setup()
	startMonitor(nil)
	d := e.influx(func(n int, r *mhttp.Request) mhttp.Response {
		return mhttp.Response{Status: []int{204, 500}[mcrt.Choose("status", 2)]}
	})
	retries := mcrt.Choose("retries", 2)
	startWriter(limits{3, time.Hour, "", 24}, func(c *config.Config) {
		c.StatsInterval = config.NewDuration(time.Second)
		c.WriterRetryBatches = retries * 4
		c.WriterRetryInterval = config.NewDuration(time.Second)
		c.WriterRetryTimeout = config.NewDuration(1500 * time.Millisecond)
	})
	sleep(100 * time.Millisecond)
	for i := 0; i < 3; i++ {
		m := fmt.Sprintf("m%d v=1\n", i)
		if mcrt.Choose("size", 2) == 1 {
			m += fmt.Sprintf("n%d v=2\no%d v=3\n", i, i)
		}
		e.B.Inject("in", []byte(m))
	}
	sleep(12 * time.Second)
	fails := 0
	for _, q := range d.reqs {
		if !q.ok() {
			fails++
		}
	}
	expectMon(`component="writer"`, map[string]int{"received": 3, "write_requests": len(d.reqs), "failed_writes": fails})
}

func init() {
	big := mcrt.Opts{MaxSteps: 50000000}
	addScenario("C21",
		&Scenario{Name: "udp-listener", Doc: "3 datagrams, read and publish failures anywhere", Body: countUDP, Quick: Bounds{0, 2}, Thorough: Bounds{1, 3}, Weight: 1},
		&Scenario{Name: "http-listener", Doc: "2 concurrent requests (empty, failing, split bodies), publish failures", Body: countHTTP(2), Quick: Bounds{1, 1}, Thorough: Bounds{2, 2}, Weight: 2},
		&Scenario{Name: "pipeline", Doc: "filter, downsampler, writer and monitor together, every line mix of two messages and write outcome", Body: countPipeline, Opts: mcrt.Opts{MapOrder: true}, Quick: Bounds{0, 0}, Thorough: Bounds{1, 0}, Weight: 3},
		&Scenario{Name: "writer-split", Doc: "batches that need several requests", Body: countSplit, Weight: 1},
	)
	addScenario("C22",
		&Scenario{Name: "sequences", Doc: "every sequence of 3 messages from a menu of 11 (valid, malformed, mixed) with scrapes between, all map orders", Body: monSequences(3), Opts: mcrt.Opts{MapOrder: true, NoSwitch: true}, Quick: Bounds{1, 0}, Thorough: Bounds{2, 0}, Weight: 1},
		&Scenario{Name: "sequences-5", Doc: "as sequences with 5 messages", Body: monSequences(5), ThoroughOnly: true, Weight: 4},
		&Scenario{Name: "concurrent", Doc: "3 scrapes racing 3 messages, all schedules and map orders", Body: monConcurrent(2), Opts: mcrt.Opts{MapOrder: true}, Quick: Bounds{3, 0}, Thorough: Bounds{5, 0}, Weight: 2},
		&Scenario{Name: "concurrent-fine", Doc: "as concurrent with a scheduling point at every statement of the metric set", Body: monConcurrent(1), Opts: mcrt.Opts{Fine: []string{"monitor", "prometheus"}, MaxSteps: 200000}, Quick: Bounds{1, 0}, Thorough: Bounds{2, 0}, Weight: 2},
		&Scenario{Name: "identity", Doc: "all ordered pairs of 219 easily confused metrics (labels in both orders, values with separators): one series exactly if name and labels agree", N: metricPairs, Case: metricIdentity},
		&Scenario{Name: "identity-live", Doc: "histories of 60 such metrics through a running monitor", Body: monIdentity},
		&Scenario{Name: "garbage", Doc: "every byte string up to length 5 (thorough 6) over 10 symbols as a message", Body: monGarbageSetup, N: func(th bool) int { return tokenTotal(thInt(th, 5, 6), len(monAlphabet)) }, Case: monGarbage, Chunk: 4000, Opts: big, Weight: 2},
	)
	addScenario("C23",
		&Scenario{Name: "round-trip", Doc: "names x ordered label sets up to 3 of 5 x values x timestamps", Body: func() {}, N: encodeN, Case: encodeCase, Chunk: 1000, Opts: big, Weight: 1},
		&Scenario{Name: "bytes", Doc: "every byte string up to length 7 (thorough 8) over 10 symbols", Body: func() {}, N: func(th bool) int { return tokenTotal(thInt(th, 7, 8), len(monAlphabet)) }, Case: parseCase, Chunk: 20000, Opts: big, Weight: 2},
		&Scenario{Name: "tokens", Doc: "every sequence of up to 5 (thorough 6) of 14 tokens", Body: func() {}, N: func(th bool) int { return tokenTotal(thInt(th, 5, 6), len(parseTokens)) }, Case: parseTokensCase, Chunk: 20000, Opts: big, Weight: 2},
	)
}

func thInt(th bool, a, b int) int {
	if th {
		return b
	}
	return a
}
