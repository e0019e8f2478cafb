//go:build go1.21

package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/downsampler"
	"github.com/jumptrading/influx-spout/v2/filter"
	"github.com/jumptrading/influx-spout/v2/listener"
	"github.com/jumptrading/influx-spout/v2/monitor"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mhttp"
	"github.com/jumptrading/influx-spout/v2/writer"
)

// C31: richer pipelines, with every type of rule, all ways in, several
// databases and longer histories.

type corpusLine struct {
	in, out string // without the timestamp; out has its tags sorted
	subject string
	arch    string // as downsampled, if it is
	ts      string // "": a current timestamp, "none" or "old"
}

var corpus = []corpusLine{
	{"cpu,host=a v=1i", "cpu,host=a v=1i", "system", "cpu,host=a v=1i", ""},
	{"cpu,z=1,host=b v=\"a b\",u=2.5", "cpu,host=b,z=1 v=\"a b\",u=2.5", "system", "cpu,host=b,z=1 u=2.5,v=\"a b\"", ""},
	{"mem,b=1,a=2 free=5i", "mem,a=2,b=1 free=5i", "system", "mem,a=2,b=1 free=5i", ""},
	{"mem,a=2\\,x free=1i", "mem,a=2\\,x free=1i", "junk", "", ""},
	{"network,if=eth0 rx=10i,tx=-20i", "network,if=eth0 rx=10i,tx=-20i", "network", "network,if=eth0 rx=10i,tx=-20i", ""},
	{"my\\ cpu,x=1 v=t", "my\\ cpu,x=1 v=t", "junk", "", ""},
	{"cpu\\,x v=1i", "cpu\\,x v=1i", "junk", "", ""},
	{"zeta,q=\\=,p=c:\\ d up=true", "zeta,p=c:\\ d,q=\\= up=true", "late", "", ""},
	{"events text=\"x, y=z \\\"q\\\"\",n=1i", "events text=\"x, y=z \\\"q\\\"\",n=1i", "junk", "", ""},
	{in: "cpu,special=1 v=3i", out: "cpu,special=1 v=3i", subject: "network", arch: "cpu,special=1 v=3i"},
	{in: "mem,a-b=1,a=2 v=0.1234567890123456", out: "mem,a=2,a-b=1 v=0.1234567890123456", subject: "system", arch: "mem,a=2,a-b=1 v=0.1234567890123456"},
	{in: "cpu,host=n v=9i", out: "cpu,host=n v=9i", subject: "system", arch: "cpu,host=n v=9i", ts: "none"},
	{in: "cpu,host=o v=9i", ts: "old"},
}

// The ways into the pipeline.
var corpusWays = []struct {
	query string
	unit  int64
}{{"udp", 1}, {"", 1}, {"?precision=n", 1}, {"?precision=u", 1e3}, {"?precision=ms", 1e6}, {"?precision=s", 1e9}, {"?precision=m", 60e9}}

type pipeOpts struct {
	count, wcount, workers int
	size                   string // of the listeners' batches
	period                 time.Duration
	answer                 func(n int, r *mhttp.Request) mhttp.Response
}

// corpusPipe starts a whole pipeline.
func corpusPipe(o pipeOpts) (*env, *db) {
	e := setup()
	d := e.influx(o.answer)
	st := config.NewDuration(15 * time.Second)
	startMonitor(nil)
	wr := func(name string, rules []config.Rule, subjects ...string) {
		startWriter(limits{count: o.wcount, bytes: 100000, age: time.Second}, func(c *config.Config) {
			c.Name, c.NATSSubject, c.Rule = name, subjects, rules
			c.InfluxDBAddress, c.DBName = name, name
			c.StatsInterval = st
			c.WriterRetryBatches = 1000
			c.WriterRetryInterval = config.NewDuration(100 * time.Millisecond)
			c.WriterRetryTimeout = config.NewDuration(time.Hour)
		})
	}
	wr("main", nil, "system", "network", "late")
	wr("part", []config.Rule{{Rtype: "regex", Match: "host=[a-z]"}, {Rtype: "basic", Match: "network"}, {Rtype: "tags", Tags: [][]string{{"special", "1"}}}}, "system", "network", subjJunk)
	wr("arch", nil, "system-archive", "network-archive")
	wr("junk", nil, subjJunk)
	startDS(func(c *config.Config) {
		c.NATSSubject = []string{"system", "network"}
		c.DownsamplePeriod = config.NewDuration(o.period)
		c.StatsInterval = st
	})
	startFilter(e, []config.Rule{
		{Rtype: "regex", Match: "special=1", Subject: "network"},
		{Rtype: "basic", Match: "cpu", Subject: "system"},
		{Rtype: "tags", Tags: [][]string{{"a", "2"}}, Subject: "system"},
		{Rtype: "regex", Match: "^net", Subject: "network"},
		{Rtype: "negregex", Match: "^[a-o]", Subject: "late"},
	}, func(c *config.Config) { c.StatsInterval = st; c.Workers = o.workers })
	if o.size == "" {
		o.size = "1MB"
	}
	lim := limits{o.count, 2 * time.Second, o.size, 0}
	uc, hc := udpConf(lim), httpConf(lim)
	uc.StatsInterval, hc.StatsInterval = st, st
	hc.Name = "lsthttp"
	_, err := listener.StartListener(uc)
	must(err)
	_, err = listener.StartHTTPListener(hc)
	must(err)
	waitHTTP(13337)
	return e, d
}

func (e *env) feed(way int, body string) {
	if way == 0 {
		e.N.UDP(10001).Send([]byte(body))
		return
	}
	checkAnswers([]*mhttp.Result{mhttp.Call(13337, "POST", "/write"+corpusWays[way].query, pc(body))})
}

func expectDB(what string, d *db, want map[string][]string) {
	for _, w := range keysOf(want) {
		got := d.linesOf("db=" + w)
		if !sameMultiset(got, want[w]) {
			sort.Strings(got)
			sort.Strings(want[w])
			mcrt.Fail("%s: the database %s got %s, expected %s", what, w, clipLines(got), clipLines(want[w]))
		}
	}
}

func clipLines(ls []string) string {
	n := len(ls)
	if n > 12 {
		ls = ls[:12]
	}
	s := fmt.Sprintf("%d lines %q", n, ls)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func corpusN(th bool) int {
	n := len(corpus) * len(corpus) * len(corpusWays)
	if th {
		n *= len(corpusWays)
	}
	return n
}

// corpusCase sends two of the lines, together or apart.
func corpusCase(i int) {
	tick()
	k := i
	a, b := k%len(corpus), k/len(corpus)%len(corpus)
	k /= len(corpus) * len(corpus)
	w1 := k % len(corpusWays)
	w2 := (w1 + k/len(corpusWays)) % len(corpusWays)
	if k < len(corpusWays) {
		w2 = (w1 + a + b) % len(corpusWays)
	}
	e, d := corpusPipe(pipeOpts{count: []int{1, 2, 10}[i%3], wcount: []int{1, 2, 10}[(i/3+i)%3], workers: 1 + i%2, period: time.Minute})
	const minute = int64(time.Minute)
	sleep(time.Duration(minute - mcrt.NowNanos()%minute + int64(time.Second)))
	t := mcrt.NowNanos() / minute * minute
	text := func(l corpusLine, way int) string {
		switch l.ts {
		case "none":
			return l.in + "\n"
		case "old":
			return fmt.Sprintf("%s %d\n", l.in, (t-20*minute)/corpusWays[way].unit)
		}
		return fmt.Sprintf("%s %d\n", l.in, t/corpusWays[way].unit)
	}
	l1, l2 := text(corpus[a], w1), text(corpus[b], w2)
	if w1 == w2 {
		e.feed(w1, l1+l2)
	} else {
		e.feed(w1, l1)
		if i%5 == 0 {
			sleep(3 * time.Second)
		}
		e.feed(w2, l2)
	}
	sleep(3 * time.Minute)

	want := map[string][]string{"main": nil, "part": nil, "arch": nil, "junk": nil}
	st := map[string]int{"processed": 2, "passed": 0, "rejected": 0, "invalid_time": 0, "failed_nats_publish": 0, "nats_dropped": 0}
	for _, c := range []int{a, b} {
		l := corpus[c]
		out := fmt.Sprintf("%s %d\n", l.out, t)
		if l.ts == "none" {
			out = l.out + "\n"
		}
		if l.ts == "old" {
			st["invalid_time"]++
			continue
		}
		if l.subject == "junk" {
			want["junk"] = append(want["junk"], out)
			st["rejected"]++
		} else {
			want["main"] = append(want["main"], out)
			st["passed"]++
		}
		if strings.Contains(l.out, "host=") || l.subject == "network" {
			want["part"] = append(want["part"], out)
		}
		if l.arch != "" && (a != b || len(want["arch"]) == 0) {
			want["arch"] = append(want["arch"], fmt.Sprintf("%s %d\n", l.arch, t+minute))
		}
	}
	expectDB(fmt.Sprintf("lines %q (%s) and %q (%s)", l1, corpusWays[w1].query, l2, corpusWays[w2].query), d, want)
	expectMon("component=\"filter\"", st)
	expectMon("component=\"downsampler\"", map[string]int{"invalid_lines": 0, "invalid_timestamps": 0, "failed_nats_publish": 0})
	mcrt.Observe("%d", len(d.reqs))
}

// pipePeriods: a line every few seconds over several sampling periods, with
// the databases unavailable for part of the time.
func pipePeriods() {
	period := []time.Duration{10 * time.Second, time.Minute, 20 * time.Second}[mcrt.Choose("period", 3)]
	gap := []time.Duration{1700 * time.Millisecond, 7 * time.Second, 25 * time.Second}[mcrt.Choose("gap", 3)]
	count := []int{1, 3}[mcrt.Choose("count", 2)]
	pipeHistory(period, gap, count, mcrt.Choose("unavailable", 3), 24)
}

// pipeDay: a line every minute or so for hours.
func pipeDay(i int) {
	tick()
	n := 150
	if thoroughTier() {
		n = 1500
	}
	pipeHistory([]time.Duration{time.Minute, 5 * time.Minute}[i%2], 61300*time.Millisecond, []int{1, 3}[i/2%2], i/4, n)
}

func pipeHistory(period, gap time.Duration, count, down, n int) {
	var from, until int64
	e, d := corpusPipe(pipeOpts{count: count, wcount: count, workers: 2, period: period, answer: func(n int, r *mhttp.Request) mhttp.Response {
		if now := mcrt.NowNanos(); from <= now && now < until {
			if down == 1 {
				return mhttp.Response{Status: 503}
			}
			return mhttp.Response{Err: errRefused}
		}
		return mhttp.Response{Status: 204}
	}})
	sleep(500 * time.Millisecond)
	if down > 0 {
		from = mcrt.NowNanos() + int64(20*time.Second)
		until = from + int64(45*time.Second)
	}
	p := int64(period)
	want := map[string][]string{"main": nil, "part": nil, "arch": nil, "junk": nil}
	sums := map[int64]*big.Int{}
	counts := map[int64]int64{}
	for k := 0; k < n; k++ {
		ts := mcrt.NowNanos()
		way := k % 3
		v := int64(k*k) - 100
		e.feed(way, fmt.Sprintf("cpu,host=a v=%di,s=\"%d\" %d\nother v=%d %d\n", v, k, ts, k, ts))
		l := fmt.Sprintf("cpu,host=a v=%di,s=\"%d\" %d\n", v, k, ts)
		want["main"] = append(want["main"], l)
		want["part"] = append(want["part"], l)
		want["junk"] = append(want["junk"], fmt.Sprintf("other v=%d %d\n", k, ts))
		end := ts/p*p + p
		if sums[end] == nil {
			sums[end] = new(big.Int)
		}
		sums[end].Add(sums[end], big.NewInt(v))
		counts[end]++
		sleep(gap)
	}
	sleep(3*period + 70*time.Second)
	// The order of the two listeners' lines decides the latest string, so
	// that is left out.
	var got []string
	for _, l := range d.linesOf("db=arch") {
		head, rest, _ := strings.Cut(l, "s=\"")
		_, rest, _ = strings.Cut(rest, "\"")
		got = append(got, head+rest)
	}
	var arch []string
	for end, s := range sums {
		q := new(big.Int).Quo(s, big.NewInt(counts[end]))
		arch = append(arch, fmt.Sprintf("cpu,host=a ,v=%di %d\n", q, end))
	}
	what := fmt.Sprintf("a line every %s, period %s, batches of %d, unavailable %d", gap, period, count, down)
	if !sameMultiset(got, arch) {
		sort.Strings(got)
		sort.Strings(arch)
		mcrt.Fail("%s: the database arch got %s, expected %s", what, clipLines(got), clipLines(arch))
	}
	delete(want, "arch")
	expectDB(what, d, want)
	expectMon("component=\"filter\"", map[string]int{"processed": 2 * n, "passed": n, "rejected": n, "invalid_time": 0})
	mcrt.Observe("%d", len(got))
}

// pipeVolume: many lines in large datagrams, bodies and batches; slow clients
// at the same time; a third of the writes fails at first.
func pipeVolume(i int) {
	tick()
	o := pipeOpts{count: []int{1, 10, 1000}[i%3], wcount: []int{1, 10, 1000}[i/3%3], workers: 3, period: time.Minute}
	o.size = []string{"1MB", "20KB"}[i/36%2]
	if i/72 == 1 {
		n := 0
		failed := map[string]bool{}
		o.answer = func(_ int, r *mhttp.Request) mhttp.Response {
			n++
			if n%3 == 0 && !failed[string(r.Body)] {
				failed[string(r.Body)] = true
				return mhttp.Response{Status: 503}
			}
			return mhttp.Response{Status: 204}
		}
	}
	e, d := corpusPipe(o)
	const minute = int64(time.Minute)
	sleep(time.Duration(minute - mcrt.NowNanos()%minute + int64(time.Second)))
	start := mcrt.NowNanos() / minute * minute
	ways := i / 9 % 4 // UDP, HTTP, HTTP with precision, all
	want := map[string][]string{"main": nil, "part": nil, "junk": nil, "arch": nil}
	k := 0
	block := func(way, size int) string {
		var b strings.Builder
		now := mcrt.NowNanos() / 1e9 * 1e9
		for b.Len() < size-200 {
			pad := strings.Repeat("x", k%90)
			if way != 0 && k%700 == 0 {
				pad = strings.Repeat("x", 70000) // longer than a datagram
			}
			name := []string{"cpu,host=a", "cpu,dc=b", "other,host=a"}[k%3]
			head := fmt.Sprintf("%s,p=y%d%s v=%di ", name, k, pad, k)
			fmt.Fprintf(&b, "%s%d\n", head, now/corpusWays[way].unit)
			l := fmt.Sprintf("%s%d\n", head, now)
			if k%3 < 2 {
				want["main"] = append(want["main"], l)
				want["arch"] = append(want["arch"], fmt.Sprintf("%s%d\n", head, start+minute))
			} else {
				want["junk"] = append(want["junk"], l)
			}
			if k%3 != 1 {
				want["part"] = append(want["part"], l)
			}
			k++
		}
		return b.String()
	}
	for r := 0; r < 6; r++ {
		switch w := []int{0, 1, 5}[r%3]; {
		case ways < 3 && w != []int{0, 1, 5}[ways]:
		case w == 0:
			for j := 0; j < 20; j++ {
				e.feed(0, block(0, 50000))
				if j%7 == 6 {
					sleep(300 * time.Millisecond)
				}
			}
		default:
			// three slow clients
			var rs []*mhttp.Result
			for c := 0; c < 3; c++ {
				body := block(w, []int{10000, 300000, 900000}[(i+r+c)%3])
				third := len(body) / 3
				rs = append(rs, mhttp.CallAsync("client", 13337, "POST", "/write"+corpusWays[w].query,
					mhttp.Piece{Data: []byte(body[:third])},
					mhttp.Piece{Data: []byte(body[third : 2*third]), Delay: time.Duration(c+1) * 100 * time.Millisecond},
					mhttp.Piece{Data: []byte(body[2*third:]), Delay: 250 * time.Millisecond}))
			}
			sleep(2 * time.Second)
			checkAnswers(rs)
		}
	}
	sleep(4 * time.Minute)
	expectDB(fmt.Sprintf("volume %d", i), d, want)
	mcrt.Observe("%d", len(d.reqs))
}

// pipeDefaults: components configured with as little as possible work
// together.
func pipeDefaults(i int) {
	tick()
	e := setup()
	d := e.influx(nil)
	nudp, nhttp := []int{0, 1, 9, 10, 11}[i%5], []int{0, 1, 9, 10, 20}[i/5]
	m, err := monitor.Start(conf("mode=\"monitor\"\nport=9331\n"))
	must(err)
	w1, err := writer.StartWriter(conf("mode=\"writer\"\nnats_subject=[\"system\"]\ninfluxdb_dbname=\"metrics\"\n"))
	must(err)
	w2, err := writer.StartWriter(conf("mode=\"writer\"\nnats_subject=[\"system-archive\"]\ninfluxdb_dbname=\"arch\"\n"))
	must(err)
	w3, err := writer.StartWriter(conf("mode=\"writer\"\nnats_subject=[\"influx-spout-junk\"]\n"))
	must(err)
	ds, err := downsampler.StartDownsampler(conf("mode=\"downsampler\"\nnats_subject=[\"system\"]\ndownsample_period=\"10m\"\n"))
	must(err)
	f, err := filter.StartFilter(conf("mode=\"filter\"\n[[rule]]\ntype=\"basic\"\nmatch=\"cpu\"\nsubject=\"system\"\n"))
	must(err)
	l, err := listener.StartListener(conf("mode=\"listener\"\nport=10001\n"))
	must(err)
	h, err := listener.StartHTTPListener(conf("mode=\"listener_http\"\nport=13337\n"))
	must(err)
	waitHTTP(13337)
	const ten = int64(10 * time.Minute)
	if left := ten - mcrt.NowNanos()%ten; left < ten*9/10 {
		sleep(time.Duration(left) + time.Second)
	}
	want := map[string][]string{"metrics": nil, "influx-spout-junk": nil, "arch": nil}
	ts := mcrt.NowNanos()
	var sum, n int64
	for k := 0; k < nudp+nhttp; k++ {
		name := []string{"cpu", "mem"}[k%2]
		line := fmt.Sprintf("%s v=%di %d\n", name, k*k, ts)
		if k < nudp {
			e.feed(0, line)
		} else {
			e.feed(1, line)
		}
		if k%2 == 0 {
			want["metrics"] = append(want["metrics"], line)
			sum += int64(k * k)
			n++
		} else {
			want["influx-spout-junk"] = append(want["influx-spout-junk"], line)
		}
	}
	// Stale after batching for the maximum of 5 minutes.
	e.feed(0, fmt.Sprintf("cpu v=1i %d\n", ts-int64(11*time.Minute)))
	if n > 0 {
		want["arch"] = []string{fmt.Sprintf("cpu v=%di %d\n", sum/n, ts/ten*ten+ten)}
	}
	sleep(40 * time.Minute)
	expectDB(fmt.Sprintf("default configurations, %d datagrams and %d requests", nudp, nhttp), d, want)
	expectMon("component=\"filter\"", map[string]int{"processed": nudp + nhttp + 1, "passed": int(n), "rejected": nudp + nhttp - int(n), "invalid_time": 1})
	for _, c := range []interface{ Stop() }{h, l, f, ds, w1, w2, w3, m} {
		c.Stop()
	}
	mcrt.Observe("%d", len(d.reqs))
}

func init() {
	bigSteps := mcrt.Opts{MaxSteps: 20000000}
	addScenario("C31",
		&Scenario{Name: "corpus", Doc: "every pair of 13 lines (all rule types, escapes, types, tag orders) x 7 ways in x batch sizes into 4 databases, one with rules, and the monitor", Opts: bigSteps, Chunk: 1, N: corpusN, Case: corpusCase},
		&Scenario{Name: "periods", Doc: "24 messages over several sampling periods, 3 periods x 3 spacings x 2 batch sizes x the databases available, refusing or unreachable for 45 seconds", Opts: bigSteps, Body: pipePeriods},
		&Scenario{Name: "day", Doc: "a message a minute for 2.5 (thorough 25) hours, 2 periods x 2 batch sizes x 3 kinds of outage of the databases", Opts: bigSteps, Chunk: 1, N: func(bool) int { return 12 }, Case: pipeDay},
		&Scenario{Name: "defaults", Doc: "components with minimal configurations, 5 numbers of datagrams x 5 numbers of requests", Opts: bigSteps, Chunk: 1, N: func(bool) int { return 25 }, Case: pipeDefaults},
		&Scenario{Name: "volume", Doc: "megabytes in large datagrams and in requests of slow clients at the same time x 9 batch sizes x 2 listener batch sizes, with and without failing writes", Opts: bigSteps, Chunk: 1, N: func(bool) int { return 144 }, Case: pipeVolume},
	)
}
