//go:build go1.21

package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/listener"
	"github.com/jumptrading/influx-spout/v2/verifmc/fnats"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mhttp"
	"github.com/jumptrading/influx-spout/v2/verifmc/mos"

	tap "github.com/jumptrading/influx-spout/v2/verifmc/gen/influxspouttap"
)

// ---------------------------------------------------------------------
// C29 sharing of work between instances

// groupBodies are the lines a database got.
func (d *db) linesOf(addr string) []string {
	var out []string
	for _, q := range d.reqs {
		if q.ok() && strings.Contains(q.URL.String(), addr) {
			out = append(out, lines(q.Body)...)
		}
	}
	return out
}

func groupWriters() {
	e := setup()
	d := e.influx(nil)
	e.B.QueuePick = func(n int) int { return mcrt.Choose("queue member", n) }
	menu := [][]string{{"g", "g"}, {"", ""}, {"g", "h"}, {"", "g"}}
	if thoroughTier() {
		menu = append(menu, []string{"g", "g", "g"}, []string{"g", "g", ""}, []string{"g", "h", "g"})
	}
	groups := menu[mcrt.Choose("groups", len(menu))]
	subjects := []string{"in", "in2"}
	for i, g := range groups {
		i, g := i, g
		startWriter(limits{count: 1, bytes: 100000, age: time.Second}, func(c *config.Config) {
			c.NATSSubject = subjects
			c.QueueGroup = g
			c.InfluxDBAddress = fmt.Sprintf("host%d", i)
		})
	}
	n := 3
	var want []string
	for i := 0; i < n; i++ {
		e.B.Inject(subjects[i%2], []byte(unit(i)+" v=1\n"))
		want = append(want, unit(i)+" v=1\n")
		if mcrt.Choose("gap", 2) == 1 {
			sleep(10 * time.Millisecond)
		}
	}
	sleep(10 * time.Second)
	got := map[string][]string{}
	for i, g := range groups {
		l := d.linesOf(fmt.Sprintf("host%d:", i))
		if g == "" {
			g = fmt.Sprintf("alone%d", i)
		}
		got[g] = append(got[g], l...)
	}
	for _, g := range keysOf(got) {
		if !sameMultiset(got[g], want) {
			sort.Strings(got[g])
			mcrt.Fail("writers with the queue groups %q: the members of %q wrote %q, expected %q", groups, g, got[g], want)
		}
	}
	mcrt.Observe("%v %d", groups, len(d.reqs))
}

// groupFilters: several filters share the messages; one may stop.
func groupFilters() {
	e := setup()
	e.B.QueuePick = func(n int) int { return mcrt.Choose("queue member", n) }
	rules := []config.Rule{{Rtype: "basic", Match: "unit1", Subject: "out"}}
	qg := [][2]string{{"", ""}, {"a", "b"}, {"", "b"}}[mcrt.Choose("configured queue groups", 3)] // belong to the writer
	f1 := startFilter(e, rules, func(c *config.Config) { c.Name = "one"; c.QueueGroup = qg[0] })
	startFilter(e, rules, func(c *config.Config) { c.Name = "two"; c.QueueGroup = qg[1] })
	stopAt := mcrt.Choose("stop before", 5)
	var want []string
	for i := 0; i < 4; i++ {
		if i == stopAt {
			sleep(10 * time.Millisecond)
			f1.Stop()
		}
		e.B.Inject(subjIn, []byte(unit(i%3)+fmt.Sprintf(" v=%d\n", i)))
		want = append(want, unit(i%3)+fmt.Sprintf(" v=%d\n", i))
	}
	sleep(time.Second)
	got := append(lines(join(e.published("out"))), lines(join(e.published(subjJunk)))...)
	if !sameMultiset(got, want) {
		sort.Strings(got)
		mcrt.Fail("two filters published %q, expected %q", got, want)
	}
	mcrt.Observe("%d", stopAt)
}

// groupOthers: instances of every other consumer each get everything.
func groupOthers() {
	e := setup()
	e.B.QueuePick = func(n int) int { return mcrt.Choose("queue member", n) }
	qg := [][2]string{{"", ""}, {"a", "a"}}[mcrt.Choose("configured queue groups", 2)] // belong to the writer
	startDS(func(c *config.Config) { c.Name = "one"; c.QueueGroup = qg[0]; c.DownsampleSuffix = "-one" })
	startDS(func(c *config.Config) { c.Name = "two"; c.QueueGroup = qg[1]; c.DownsampleSuffix = "-two" })
	startMonitor(func(c *config.Config) { c.Name = "m1"; c.QueueGroup = qg[0]; c.Port = 9331 })
	startMonitor(func(c *config.Config) { c.Name = "m2"; c.QueueGroup = qg[1]; c.Port = 9332 })
	sleep(10 * time.Millisecond)
	for i := 0; i < 3; i++ {
		e.B.Inject("in", []byte(fmt.Sprintf("%s v=%d %d\n", unit(i), i, mcrt.NowNanos())))
		e.B.Inject(subjMon, []byte(fmt.Sprintf("own%d{component=\"x\"} %d 1000\n", i, i)))
		if mcrt.Choose("gap", 2) == 1 {
			sleep(10 * time.Millisecond)
		}
	}
	sleep(3 * time.Minute)
	for _, s := range []string{"in-one", "in-two"} {
		var got []string
		for _, l := range lines(join(e.published(s))) {
			got = append(got, l[:strings.LastIndex(l, " ")])
		}
		want := []string{"unit0 v=0", "unit1 v=1", "unit2 v=2"}
		if !sameMultiset(got, want) {
			sort.Strings(got)
			mcrt.Fail("two downsamplers: %s got %q, expected %q", s, got, want)
		}
	}
	for _, port := range []int{9331, 9332} {
		r := mhttp.Call(port, "GET", "/metrics")
		for i := 0; i < 3; i++ {
			if !strings.Contains(string(r.Body), fmt.Sprintf("own%d{", i)) {
				mcrt.Fail("two monitors: the page of port %d lacks metric %d: %q", port, i, r.Body)
			}
		}
	}
	mcrt.Observe("%v", qg)
}

// ---------------------------------------------------------------------
// C30 arbitrary input

const robustAlphabet = "a,= \\\"\n1{}\x00i"

func robustTotal(thorough bool) int {
	max := 4
	if thorough {
		max = 5
	}
	t, p := 0, 1
	for l := 0; l <= max; l++ {
		t += p
		p *= len(robustAlphabet)
	}
	return t
}

var robustTokens = []string{"m", ",a=1", "{a=\"1\"}", " v=1", " v=1i", " v=\"x\"", " ", "\n", "\\", "\"", " 99999999999999999999", " 1e400", ","}

func robustTokenTotal(thorough bool) int {
	max := 4
	if thorough {
		max = 5
	}
	t, p := 0, 1
	for l := 0; l <= max; l++ {
		t += p
		p *= len(robustTokens)
	}
	return t
}

// robustSetup starts all six components.
func robustSetup()      { robustStart(false) }
func robustDebugSetup() { robustStart(true) }

func robustStart(debug bool) {
	e := setup()
	d := e.influx(nil)
	d.timeout = 10 * time.Second
	l := map[string]*life{}
	for _, c := range comps {
		cf := conf(c.toml)
		cf.ProbePort = 0
		cf.Debug = debug
		switch c.name {
		case "filter":
			c := *c
			c.start = nil
			startFilter(e, []config.Rule{
				{Rtype: "tags", Tags: [][]string{{"a", "1"}}, Subject: "t"},
				{Rtype: "regex", Match: "v=1i", Subject: "r"},
				{Rtype: "negregex", Match: "[^\x00]", Subject: "n"},
				{Rtype: "basic", Match: "m", Subject: "b"},
			}, func(c *config.Config) { c.Workers = 1; c.Debug = debug })
		case "writer":
			cf.Rule = []config.Rule{{Rtype: "basic", Match: "m"}, {Rtype: "tags", Tags: [][]string{{"a", "1"}}}, {Rtype: "regex", Match: "unit[0-9]+ v|v=1"}, {Rtype: "negregex", Match: ","}}
			_, err := c.start(cf)
			must(err)
		default:
			_, err := c.start(cf)
			must(err)
		}
		l[c.name] = &life{e: e, d: d, c: c}
	}
	waitHTTP(13337)
	waitHTTP(9331)
	mcrt.X.Data["lives"] = l
}

func robustCheck(what string, i int, poke func(e *env)) {
	ls := mcrt.X.Data["lives"].(map[string]*life)
	e := ls["writer"].e
	poke(e)
	sleep(100 * time.Millisecond)
	for _, c := range comps {
		c.feed(ls[c.name], 2*i+1)
	}
	sleep(25 * time.Second)
	for _, c := range comps {
		l := ls[c.name]
		ok := c.done(l, 2*i+1)
		if c.name == "filter" {
			// unitN is matched by no rule but the negregex
			ok = l.publishedUnit(subjJunk, 2*i+1)
		}
		if !ok {
			mcrt.Fail("the %s does not process data any more after %s", c.name, what)
		}
	}
	for _, l := range ls {
		for _, r := range l.reqs {
			if r.Panic != "" {
				mcrt.Fail("panic in a request after %s: %s", what, r.Panic)
			}
		}
		l.reqs = nil
		l.d.reqs = nil
	}
	e.B.Log = nil
}

func robustInput(i int, g string) {
	tick()
	robustCheck(fmt.Sprintf("the input %q", g), i, func(e *env) {
		e.N.UDP(10001).Send([]byte(g))
		mhttp.CallAsync("client", 13337, "POST", "/write", pc(g))
		mhttp.CallAsync("client", 13337, "POST", "/write?precision=ms", pc(g))
		for _, s := range []string{subjIn, "in", "in2", subjMon} {
			e.B.Inject(s, []byte(g))
		}
	})
}

func robustBytes(i int) { robustInput(i, garbageAt(i, robustAlphabet)) }
func robustTok(i int)   { robustInput(i, tokenAt(i, robustTokens)) }

var robustMethods = []string{"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "BREW"}
var robustTargets = []string{"/", "/write", "/write?precision=", "/write?precision=x", "/write?precision=s&precision=ns", "/write?%70recision=u", "/write?precision=%zz", "/write?a=b;c=d", "/query", "/metrics", "/metrics/x", "/ping", "//write", "/write/../write"}
var robustBodies = []string{"", "m v=1", "\n\n\n", "m v=1 9223372036854775807\n", "\x00\xff\n", "m v=1 -1\nm v=1 x\n"}

func robustReqN(bool) int { return len(robustMethods) * len(robustTargets) * len(robustBodies) }
func robustReq(i int) {
	tick()
	m, t, b := robustMethods[i%7], robustTargets[i/7%len(robustTargets)], robustBodies[i/7/len(robustTargets)]
	robustCheck(fmt.Sprintf("the request %s %s %q", m, t, b), i, func(e *env) {
		mhttp.CallAsync("client", 13337, m, t, pc(b))
		mhttp.CallAsync("client", 9331, m, t, pc(b))
	})
}

// robustAnswers: whatever InfluxDB answers.
func robustAnswersN(bool) int { return 410 }
func robustAnswer(i int) {
	tick()
	ls := mcrt.X.Data["lives"].(map[string]*life)
	status := 200 + i
	n := 0
	ls["writer"].d.answer = func(int, *mhttp.Request) mhttp.Response {
		n++
		if n <= 2 && i < 400 {
			return mhttp.Response{Status: status, Body: "{}\n"}
		}
		switch {
		case n > 2:
		case i < 403:
			return mhttp.Response{Err: errRefused}
		case i < 406:
			return mhttp.Response{Status: 500, Body: strings.Repeat("x%s{", 1000)}
		case i < 410:
			return mhttp.Response{Status: 204, Delay: time.Hour}
		}
		return mhttp.Response{Status: 204}
	}
	robustCheck(fmt.Sprintf("the answer %d from InfluxDB", status), i, func(e *env) {
		e.B.Inject("in", []byte("m v=1\n"))
		e.B.Inject("in2", []byte("m v=2\n"))
		sleep(30 * time.Second)
	})
	if mhttp.H.Unclosed() > 0 {
		mcrt.Fail("the writer left the connection of the answer %d from InfluxDB open", status)
	}
}

// ---------------------------------------------------------------------
// C31 the whole pipeline

type pipeLine struct {
	text func(ts int64, unit int64) string
	old  bool
}

const pipePeriod = int64(10 * time.Second)

// pipeline starts everything; returns after feeding.
func pipeline(route []int, order []int, count int, fail func(n int) bool) {
	e := setup()
	n := 0
	d := e.influx(func(_ int, r *mhttp.Request) mhttp.Response {
		n++
		if fail != nil && fail(n) {
			return mhttp.Response{Status: 503}
		}
		return mhttp.Response{Status: 204}
	})
	startMonitor(nil)
	wr := func(name, subject string) {
		startWriter(limits{count: count, bytes: 100000, age: time.Second}, func(c *config.Config) {
			c.Name = name
			c.NATSSubject = []string{subject}
			c.InfluxDBAddress = name
			c.DBName = name
			c.StatsInterval = config.NewDuration(15 * time.Second)
			c.WriterRetryBatches = 10
		})
	}
	wr("main", "system")
	wr("arch", "system-archive")
	wr("junk", subjJunk)
	startDS(func(c *config.Config) {
		c.NATSSubject = []string{"system"}
		c.DownsamplePeriod = config.NewDuration(time.Duration(pipePeriod))
		c.StatsInterval = config.NewDuration(15 * time.Second)
	})
	startFilter(e, []config.Rule{
		{Rtype: "basic", Match: "cpu", Subject: "system"},
		{Rtype: "tags", Tags: [][]string{{"a", "2"}}, Subject: "system"},
	}, func(c *config.Config) { c.StatsInterval = config.NewDuration(15 * time.Second); c.Workers = 2 })
	lim := limits{count, 2 * time.Second, "1MB", mb}
	_, err := listener.StartListener(udpConf(lim))
	must(err)
	_, err = listener.StartHTTPListener(httpConf(lim))
	must(err)
	waitHTTP(13337)

	t := mcrt.NowNanos() / int64(time.Second) * int64(time.Second)
	heads := []string{"cpu,host=a v=1i", "cpu,host=a v=3i", "mem,b=1,a=2 free=5", "other x=1", "cpu,host=b v=2.5"}
	outs := []string{"cpu,host=a v=1i", "cpu,host=a v=3i", "mem,a=2,b=1 free=5", "other x=1", ""}
	old := t - int64(20*time.Minute)
	var body, bodyS string
	for _, i := range order {
		ts := t
		if i == 4 {
			ts = old
		}
		switch route[i] {
		case 0:
			e.N.UDP(10001).Send([]byte(fmt.Sprintf("%s %d\n", heads[i], ts)))
		case 1:
			body += fmt.Sprintf("%s %d\n", heads[i], ts)
		case 2:
			bodyS += fmt.Sprintf("%s %d\n", heads[i], ts/int64(time.Second))
		}
	}
	if body != "" {
		mhttp.CallAsync("client", 13337, "POST", "/write", pc(body))
	}
	if bodyS != "" {
		mhttp.CallAsync("client", 13337, "POST", "/write?precision=s", pc(bodyS))
	}
	sleep(50 * time.Second)

	end := (t/pipePeriod)*pipePeriod + pipePeriod
	if t%pipePeriod == 0 {
		end = t + pipePeriod
	}
	line := func(i int) string { return fmt.Sprintf("%s %d\n", outs[i], t) }
	want := map[string][]string{
		"main": {line(0), line(1), line(2)},
		"junk": {line(3)},
		"arch": {fmt.Sprintf("cpu,host=a v=2i %d\n", end), fmt.Sprintf("mem,a=2,b=1 free=5 %d\n", end)},
	}
	for _, w := range keysOf(want) {
		if got := d.linesOf("db=" + w); !sameMultiset(got, want[w]) {
			sort.Strings(got)
			mcrt.Fail("the database %s got %q, expected %q (ways %v, order %v)", w, got, want[w], route, order)
		}
	}
	expectMon("component=\"filter\"", map[string]int{"processed": 5, "passed": 3, "rejected": 1, "invalid_time": 1, "failed_nats_publish": 0, "nats_dropped": 0})
	expectMon("name=\"junk\"", map[string]int{"received": 1})
	mcrt.Observe("%d", len(d.reqs))
}

func pipeN(bool) int { return 243 * 3 }
func pipeCase(i int) {
	tick()
	k := i / 3
	route := []int{k % 3, k / 3 % 3, k / 9 % 3, k / 27 % 3, k / 81}
	orders := [][]int{{0, 1, 2, 3, 4}, {4, 3, 2, 1, 0}, {2, 4, 0, 3, 1}}
	pipeline(route, orders[i%3], []int{1, 2, 10}[(i/3+i)%3], nil)
}

func pipeSchedules() {
	faults := 0
	count := []int{1, 10}[mcrt.Choose("count", 2)]
	pipeline([]int{0, 0, 1, 1, 0}, []int{0, 4, 1, 2, 3}, count, func(n int) bool {
		if n <= 3 && mcrt.Fault("write", 2) == 1 {
			faults++
			return true
		}
		return false
	})
}

// ---------------------------------------------------------------------
// C32 limited backlog

func pendUnit(i, size int) string {
	s := fmt.Sprintf("%s v=1 ", unit(i))
	ts := fmt.Sprintf("%d\n", mcrt.NowNanos())
	pad := size - len(s) - len(ts) - len(",p=")
	return fmt.Sprintf("%s,p=%s v=1 %s", unit(i), strings.Repeat("x", pad), ts)
}

// pendingCheck sends bursts the component cannot see before they end.
func pendingCheck(which, limit int, bursts [][]int, subj func(i int) string) {
	e := setup()
	d := e.influx(nil)
	mod := func(c *config.Config) {
		c.NATSMaxPendingSize = datasize.ByteSize(limit)
		c.StatsInterval = config.NewDuration(time.Second)
	}
	two := func(c *config.Config) { mod(c); c.Workers = 1; c.NATSSubject = []string{"in", "in2"} }
	switch which {
	case 0:
		startFilter(e, nil, mod)
		subj = func(int) string { return subjIn }
	case 1:
		startWriter(limits{count: 1, bytes: 10 << 20, age: time.Second}, two)
	case 2:
		startDS(func(c *config.Config) { two(c); c.DownsamplePeriod = config.NewDuration(10 * time.Second) })
	}
	sleep(10 * time.Millisecond)
	type cnt struct{ pend, drop int }
	dropped := map[string]int{}
	sent := map[string][]bool{} // per burst
	_ = sent
	accepted := map[int]bool{}
	n := 0
	subjects := map[string]bool{}
	for _, burst := range bursts {
		pend := map[string]int{}
		for _, size := range burst {
			s := subj(n)
			subjects[s] = true
			e.B.Inject(s, []byte(pendUnit(n, size)))
			if pend[s]+size > limit {
				dropped[s]++
			} else {
				pend[s] += size
				accepted[n] = true
			}
			n++
		}
		sleep(1500 * time.Millisecond)
		for _, s := range keysOf(subjects) {
			label := ""
			if which != 0 {
				label = "subject=\"" + s + "\""
			}
			if got, ok := e.counter(subjMon, "nats_dropped", label); !ok || got != int64(dropped[s]) {
				mcrt.Fail("%s with nats_max_pending_size %d: bursts of %v bytes: nats_dropped for %s is %d (present: %v), expected %d", [...]string{"filter", "writer", "downsampler"}[which], limit, clipInts(bursts), s, got, ok, dropped[s])
			}
		}
	}
	sleep(25 * time.Second)
	var out []byte
	switch which {
	case 0:
		out = join(e.published(subjJunk))
	case 1:
		out = []byte(strings.Join(d.bodies(), ""))
	case 2:
		out = append(join(e.published("in-archive")), join(e.published("in2-archive"))...)
	}
	seen := map[string]int{}
	for _, l := range lines(out) {
		if i := strings.IndexAny(l, ", "); i >= 0 {
			l = l[:i]
		}
		seen[l]++
	}
	for i := 0; i < n; i++ {
		if w := b2i(accepted[i]); seen[unit(i)] != w {
			mcrt.Fail("%s with nats_max_pending_size %d: bursts of %v bytes: message %d was processed %d times, expected %d", [...]string{"filter", "writer", "downsampler"}[which], limit, clipInts(bursts), i, seen[unit(i)], w)
		}
	}
}

func clipInts(b [][]int) string {
	s := fmt.Sprint(b)
	if len(s) > 100 {
		s = s[:100] + "..."
	}
	return s
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var pendSizes = []int{100, 400, 700}

func pendingN(thorough bool) int {
	if thorough {
		return 3 * 3 * 2187
	}
	return 3 * 3 * 243
}

func pendingCase(i int) {
	tick()
	which, limit := i%3, []int{1000, 1100, 400}[i/3%3]
	k := i / 9
	var b []int
	for j := 0; j < 5; j++ {
		b = append(b, pendSizes[k%3])
		k /= 3
	}
	if thoroughTier() {
		b = append(b, pendSizes[k%3], pendSizes[k/3%3])
	}
	pendingCheck(which, limit, [][]int{b[:3], b[3:], b}, func(i int) string { return []string{"in", "in", "in2"}[i%3] })
}

func fill(n, size int) []int {
	b := make([]int, n)
	for i := range b {
		b[i] = size
	}
	return b
}

// pendingMany: thousands of dropped messages.
func pendingManyN(bool) int { return 6 }
func pendingMany(i int) {
	tick()
	one := func(int) string { return "in" }
	pendingCheck(i%3, 1000, [][]int{fill([]int{1500, 70000}[i/3], 100), {100}, fill(300, 100)}, one)
}

func pendingBigN(bool) int { return 6 }
func pendingBig(i int) {
	tick()
	one := func(int) string { return "in" }
	if i < 3 {
		// beyond the client library's default limit of 64 MB
		pendingCheck(i, 100<<20, [][]int{fill(80, 1<<20), fill(101, 1<<20)}, one)
		return
	}
	// beyond the client library's default limit of 65536 messages
	pendingCheck(i-3, 100<<20, [][]int{fill(66000, 60)}, one)
}

// pendingLimit: the limit set at the client library is the configured one.
var pendLimits = []datasize.ByteSize{1, 1023, 1 << 16, 1<<31 - 1, 1 << 31, 1<<31 + 1, 3 << 30, 1 << 32, 1<<32 + 1, 5 << 32, 1 << 40, 1<<62 + 12345}

func pendingLimitN(bool) int { return 3 * len(pendLimits) }

func pendingLimit(i int) {
	tick()
	e := setup()
	e.influx(nil)
	which := i % 3
	lim := pendLimits[i/3]
	mod := func(c *config.Config) {
		c.NATSMaxPendingSize = lim
		if which > 0 {
			c.NATSSubject = []string{"in", "in2"}
		}
	}
	n := 2
	switch which {
	case 0:
		n = 1
		startFilter(e, nil, mod)
	case 1:
		startWriter(limits{count: 1, bytes: 10 << 20, age: time.Second}, mod)
	case 2:
		startDS(mod)
	}
	sleep(10 * time.Millisecond)
	subs := e.B.Subs()
	if len(subs) < n {
		mcrt.Fail("%d subscriptions", len(subs))
	}
	for _, s := range subs {
		m, b := s.SubLimits()
		if m > 0 || b != int(lim) {
			mcrt.Fail("%s: nats_max_pending_size is %d, the subscription to %s is limited to %d messages, %d bytes", [...]string{"filter", "writer", "downsampler"}[which], lim, s.Subject, m, b)
		}
	}
}

// ---------------------------------------------------------------------
// C33 tap

var tapMsgs = []string{"", "m v=1", "m v=1\n", "m,a=1 v=1\nn v=2\n", "\n\n", "n v=%d%s%!\n", "a=1", "m v=\"x\ny\"\n", "\x00\xff\nm\n", "mm v=1\r\n", "%\n100%\n"}
var tapRegexps = []string{"", "m", "^m", "a=1", "%", "[^m]", "v=.\\d?", "^n v"}

func tapN(bool) int { return len(tapRegexps) * 121 * 2 }

func tapCase(i int) {
	tick()
	e := setup()
	re := tapRegexps[i%len(tapRegexps)]
	k := i / len(tapRegexps)
	m := []string{tapMsgs[k%11], tapMsgs[k/11%11]}
	sub := []string{"", "data.>"}[k/121]
	oldArgs, oldFlags := os.Args, flag.CommandLine
	defer func() { os.Args, flag.CommandLine = oldArgs, oldFlags }()
	flag.CommandLine = flag.NewFlagSet("influx-spout-tap", flag.PanicOnError)
	os.Args = []string{"influx-spout-tap"}
	subj := "influx-spout"
	if sub != "" {
		os.Args = append(os.Args, "-s", sub, "-h", "nats://other:4222")
		subj = "data.x"
	}
	if re != "" {
		os.Args = append(os.Args, "-e", re)
	}
	mcrt.GoNamed("tap", tap.MCMain)
	sleep(time.Second)
	want := ""
	r := regexp.MustCompile(re)
	for _, x := range m {
		e.B.Inject("elsewhere", []byte("m,a=1 v=%\n"))
		e.B.Inject(subj, []byte(x))
		for _, l := range strings.SplitAfter(x, "\n") {
			if r.MatchString(l) {
				want += l
			}
		}
	}
	sleep(time.Second)
	if got := string(mos.Stdout.Buf); got != want {
		mcrt.Fail("tap with the regular expression %q printed %q for the messages %q, expected %q", re, got, m, want)
	}
	if len(e.B.Conns) != 1 || sub != "" && e.B.Conns[0].Opts.Url != "nats://other:4222" {
		mcrt.Fail("tap connected to the wrong server")
	}
}

// tapSchedules: messages close together, or while the tap is writing.
func tapSchedules() {
	e := setup()
	oldArgs, oldFlags := os.Args, flag.CommandLine
	defer func() { os.Args, flag.CommandLine = oldArgs, oldFlags }()
	flag.CommandLine = flag.NewFlagSet("influx-spout-tap", flag.PanicOnError)
	os.Args = []string{"influx-spout-tap", "-e", "v=[12]"}
	mcrt.GoNamed("tap", tap.MCMain)
	sleep(time.Second)
	want := ""
	for i := 0; i < 4; i++ {
		a, b := fmt.Sprintf("a%d v=%d\n", i, i), fmt.Sprintf("b%d v=2%d\n", i, i)
		e.B.Inject("influx-spout", []byte(a+b))
		if i == 1 || i == 2 {
			want += a
		}
		want += b
		if mcrt.Choose("gap", 2) == 1 {
			sleep(time.Millisecond)
		}
	}
	sleep(time.Second)
	if got := string(mos.Stdout.Buf); got != want {
		mcrt.Fail("tap printed %q, expected %q", got, want)
	}
	mcrt.Observe("%d", len(want))
}

// tapFailing: the tap ends with an error if it cannot do its work.
func tapFailing() {
	e := setup()
	oldArgs, oldFlags := os.Args, flag.CommandLine
	defer func() { os.Args, flag.CommandLine = oldArgs, oldFlags }()
	flag.CommandLine = flag.NewFlagSet("influx-spout-tap", flag.PanicOnError)
	os.Args = []string{"influx-spout-tap"}
	fails := mcrt.Choose("failure", 4)
	switch fails {
	case 1:
		e.B.GoDown()
	case 2:
		os.Args = append(os.Args, "-s", "a b")
	case 3:
		e.B.SubscribeErr = func(c *fnats.Conn, subj, queue string) error { return fnats.ErrConnectionClosed }
	}
	mcrt.X.Data["fails"] = fails > 0
	mcrt.GoNamed("tap", tap.MCMain)
	sleep(time.Second)
	if fails > 0 {
		mcrt.Fail("tap keeps running although it cannot receive anything")
	}
	if len(e.B.Subs()) != 1 {
		mcrt.Fail("tap has %d subscriptions", len(e.B.Subs()))
	}
}

func tapPost(x *mcrt.Exec) string {
	if fails, _ := x.Data["fails"].(bool); fails && x.Kind == "exit" {
		return ""
	}
	return x.Violation
}

// ---------------------------------------------------------------------
// C34 outages of the NATS server

func outage() {
	l := newLife(nil)
	stop, err := l.c.start(conf(l.c.toml))
	must(err)
	sleep(10 * time.Millisecond)
	l.c.feed(l, 0)
	sleep(25 * time.Second)
	if !l.c.done(l, 0) {
		mcrt.Fail("%s: does not work", l.c.name)
	}
	n := 1 + mcrt.Choose("second outage", 2)
	id := 1
	var during []int
	for k := 0; k < n; k++ {
		l.e.B.GoDown()
		ls := []time.Duration{time.Millisecond, 30 * time.Second, 5 * time.Minute}
		if thoroughTier() {
			ls = append(ls, 3*time.Hour)
		}
		length := ls[mcrt.Choose("length", len(ls))]
		fed := mcrt.Choose("data during the outage", 3)
		for i := 0; i < fed; i++ {
			l.c.feed(l, id)
			during = append(during, id)
			id++
			sleep(length / 4)
		}
		sleep(length)
		l.e.B.GoUp()
		sleep([]time.Duration{4 * time.Second, 10 * time.Millisecond}[mcrt.Choose("after", 2)])
	}
	sleep(25 * time.Second)
	l.c.feed(l, 900)
	l.c.feed(l, 901)
	sleep(25 * time.Second)
	for _, i := range []int{900, 901} {
		if !l.c.done(l, i) {
			mcrt.Fail("%s: does not work after an outage of the NATS server", l.c.name)
		}
	}
	for _, path := range []string{"/readyz", "/healthz"} {
		if r := mhttp.Call(probePort, "GET", path); r.Err != nil || r.Status != 200 {
			mcrt.Fail("%s: %s is %d (%v) after an outage of the NATS server", l.c.name, path, r.Status, r.Err)
		}
	}
	if strings.HasSuffix(l.c.name, " listener") {
		// what it received during the outage is sent later, in order and once
		at := -1
		all := string(join(l.e.published(subjIn)))
		for _, i := range during {
			if c := strings.Count(all, unit(i)+" "); c != 1 {
				mcrt.Fail("%s: data received during an outage of the NATS server was sent %d times", l.c.name, c)
			}
			if p := strings.Index(all, unit(i)+" "); p < at {
				mcrt.Fail("%s: data received during an outage of the NATS server was reordered", l.c.name)
			} else {
				at = p
			}
		}
	}
	mcrt.Observe("%s %d", l.c.name, len(during))
	stop()
	l.released("after Stop")
}

// outageReports: reporting goes on after an outage.
func outageReports() {
	l := newLife(nil)
	if l.c.name == "monitor" {
		return
	}
	c := conf(l.c.toml)
	c.StatsInterval = config.NewDuration(3 * time.Second)
	stop, err := l.c.start(c)
	must(err)
	sleep(10 * time.Millisecond)
	l.c.feed(l, 0)
	sleep([]time.Duration{25 * time.Second, 26*time.Second + 400*time.Millisecond}[mcrt.Choose("phase", 2)])
	id := 1
	for k := 0; k < 1+mcrt.Choose("second outage", 2); k++ {
		l.e.B.GoDown()
		if mcrt.Choose("data during the outage", 2) == 1 && strings.HasSuffix(l.c.name, " listener") {
			l.c.feed(l, id)
			id++
		}
		sleep([]time.Duration{time.Millisecond, 30 * time.Second, 5 * time.Minute}[mcrt.Choose("length", 3)])
		l.e.B.GoUp()
		sleep([]time.Duration{25 * time.Second, 2100 * time.Millisecond}[mcrt.Choose("after", 2)])
	}
	l.c.feed(l, id)
	id++
	sleep(25 * time.Second)
	t0 := mcrt.NowNanos()
	sleep(7 * time.Second)
	n := 0
	name := "received"
	if l.c.name == "filter" {
		name = "processed"
	}
	for _, p := range l.e.B.Log {
		if p.At > t0 && p.Subj == subjMon && p.Err == nil && strings.Contains(string(p.Data), name+"{") {
			n++
		}
	}
	if n < 2 || n > 3 {
		mcrt.Fail("%s: %d reports within 7 s after an outage of the NATS server, stats_interval is 3s", l.c.name, n)
	}
	if got, ok := l.e.counter(subjMon, name, ""); !ok || got != int64(id) {
		mcrt.Fail("%s: %s is %d (present: %v) after an outage of the NATS server, expected %d", l.c.name, name, got, ok, id)
	}
	mcrt.Observe("%s %d", l.c.name, id)
	stop()
	l.released("after Stop")
}

// outageStop stops a component during an outage.
func outageStop() {
	l := newLife(nil)
	stop, err := l.c.start(conf(l.c.toml))
	must(err)
	sleep(10 * time.Millisecond)
	l.e.B.GoDown()
	l.c.feed(l, 1)
	sleep([]time.Duration{0, 3 * time.Second, 3 * time.Minute}[mcrt.Choose("phase", 3)])
	t0 := mcrt.NowNanos()
	stop()
	// a flush gives up after 10 s
	if d := since(t0); d > l.c.stopBound+10*time.Second {
		mcrt.Fail("%s: Stop during an outage of the NATS server took %v", l.c.name, d)
	}
	l.released("after Stop")
	sleep(10 * time.Minute)
	if lt := mcrt.LiveThreads(); len(lt) > 0 {
		mcrt.Fail("%s: goroutines left after Stop: %s", l.c.name, strings.Join(lt, ", "))
	}
	// without a server nothing starts
	if _, err = l.c.start(conf(l.c.toml)); err == nil {
		mcrt.Fail("%s: started without a NATS server", l.c.name)
	}
	l.released("after a failed start")
	l.e.B.GoUp()
	stop, err = l.c.start(conf(l.c.toml))
	must(err)
	sleep(10 * time.Millisecond)
	l.c.feed(l, 2)
	sleep(25 * time.Second)
	if !l.c.done(l, 2) {
		mcrt.Fail("%s: does not work after a restart", l.c.name)
	}
	stop()
}

func init() {
	bigSteps := mcrt.Opts{MaxSteps: 20000000}
	addScenario("C29",
		&Scenario{Name: "writers", Doc: "2 (thorough 3) writers in the same or different queue groups or none, 2 subjects, 3 messages, every choice of the member", Opts: bigSteps, Quick: Bounds{1, 0}, Thorough: Bounds{2, 0}, Body: groupWriters},
		&Scenario{Name: "filters", Doc: "2 filters, 4 messages, every choice of the member, one filter stopped between any two messages", Quick: Bounds{1, 0}, Thorough: Bounds{2, 0}, Body: groupFilters},
		&Scenario{Name: "others", Doc: "2 downsamplers and 2 monitors on the same subjects, with or without a (meaningless) queue group, each get all of 3 messages", Quick: Bounds{1, 0}, Thorough: Bounds{2, 0}, Body: groupOthers},
	)
	addScenario("C30",
		&Scenario{Name: "bytes", Doc: "every byte string up to length 4 (thorough 5) over 13 symbols as a datagram, HTTP body (with and without precision), and message to the filter, downsampler, writer and monitor", Opts: bigSteps, Chunk: 40, Body: robustSetup, N: robustTotal, Case: robustBytes, Weight: 3},
		&Scenario{Name: "tokens", Doc: "every sequence of up to 4 (thorough 5) of 13 tokens as the same", Opts: bigSteps, Chunk: 40, Body: robustSetup, N: robustTokenTotal, Case: robustTok, Weight: 3},
		&Scenario{Name: "requests", Doc: "7 methods x 14 targets x 6 bodies to the HTTP listener and the monitor", Opts: bigSteps, Chunk: 40, Body: robustSetup, N: robustReqN, Case: robustReq},
		&Scenario{Name: "debug", Doc: "every byte string up to length 3 and every request with debugging output enabled", Opts: bigSteps, Chunk: 40, Body: robustDebugSetup,
			N: func(bool) int { return 2380 + robustReqN(false) }, Case: func(i int) {
				if i < 2380 {
					robustBytes(i)
				} else {
					robustReq(i - 2380)
				}
			}},
		&Scenario{Name: "answers", Doc: "every status from 200 to 599, errors, long bodies and timeouts from InfluxDB", Opts: bigSteps, Chunk: 10, Body: robustSetup, N: robustAnswersN, Case: robustAnswer},
	)
	addScenario("C31",
		&Scenario{Name: "ways", Doc: "5 lines, each through UDP, HTTP or HTTP with precision, in 3 orders and 3 batch sizes", Opts: bigSteps, Chunk: 1, N: pipeN, Case: pipeCase},
		&Scenario{Name: "schedules", Weight: 6, Doc: "both listeners, filter with 2 workers, downsampler, 3 writers and monitor in one execution; failing writes", Opts: bigSteps, Quick: Bounds{1, 0}, Thorough: Bounds{1, 2}, Body: pipeSchedules},
		&Scenario{Name: "failing-writes", Doc: "the same with up to 3 of the first 3 writes failing", Opts: bigSteps, Quick: Bounds{0, 3}, Thorough: Bounds{0, 3}, Body: pipeSchedules},
	)
	addScenario("C32",
		&Scenario{Name: "bursts", Doc: "every burst of 5 (thorough 7) messages of 3 sizes in 3 rounds x 3 limits x 3 components", Opts: bigSteps, Chunk: 1, N: pendingN, Case: pendingCase},
		&Scenario{Name: "large", Doc: "bursts beyond the NATS client's own default limits (64 MB, 65536 messages)", Opts: bigSteps, Chunk: 1, N: pendingBigN, Case: pendingBig},
		&Scenario{Name: "many", Doc: "1500 and 70000 messages dropped at once", Opts: bigSteps, Chunk: 1, N: pendingManyN, Case: pendingMany},
		&Scenario{Name: "limits", Doc: "limits of 1 byte to 2^62 bytes on every subscription of 3 components", Opts: bigSteps, Chunk: 1, N: pendingLimitN, Case: pendingLimit},
	)
	addScenario("C21",
		&Scenario{Name: "dropped-many", Doc: "1500 and 70000 messages dropped at once are counted exactly", Opts: bigSteps, Chunk: 1, N: pendingManyN, Case: pendingMany},
	)
	addScenario("C33",
		&Scenario{Name: "messages", Doc: "every pair of 11 messages x 8 regular expressions x 2 subjects", Opts: bigSteps, Chunk: 1, N: tapN, Case: tapCase},
		&Scenario{Name: "schedules", Doc: "4 messages of 2 lines, arriving together or apart, in every schedule", Body: tapSchedules, Quick: Bounds{2, 0}, Thorough: Bounds{4, 0}},
		&Scenario{Name: "failing", Doc: "no server, invalid subject, refused subscription", Body: tapFailing, Post: tapPost, Quick: Bounds{1, 0}, Thorough: Bounds{2, 0}},
	)
	addScenario("C34",
		&Scenario{Name: "outages", Doc: "6 components, 1 or 2 outages of 3 (4) lengths (1 ms to 5 minutes, thorough 3 hours) with data arriving during them", Opts: bigSteps, Quick: Bounds{0, 0}, Thorough: Bounds{1, 0}, Body: outage},
		&Scenario{Name: "reports", Doc: "5 components, 1 or 2 outages of 3 lengths: statistics keep coming with the right counts", Opts: bigSteps, Quick: Bounds{0, 0}, Thorough: Bounds{1, 0}, Body: outageReports},
		&Scenario{Name: "stop", Doc: "6 components stopped and restarted during an outage", Opts: bigSteps, Quick: Bounds{1, 0}, Thorough: Bounds{2, 0}, Body: outageStop},
	)
}
