//go:build go1.21

package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/listener"
	"github.com/jumptrading/influx-spout/v2/verifmc/fnats"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mhttp"
)

// ---------------------------------------------------------------------
// slow HTTP clients

// httpSlow: a client stalls in the middle of its body; nobody else may
// notice, neither the other clients nor the sending of the batch.
func httpSlow() {
	e := setup()
	lim := []limits{{1, time.Second, "1MB", mb}, {10, time.Second, "1MB", mb}, {2, 5 * time.Second, "1MB", mb}}[mcrt.Choose("limits", 3)]
	l, err := listener.StartHTTPListener(httpConf(lim))
	must(err)
	waitHTTP(13337)
	stall := []time.Duration{50 * time.Millisecond, 3 * time.Second, time.Hour}[mcrt.Choose("stall", 3)]
	targets := []string{"/write", "/write?precision=ms"}
	slowTarget := targets[mcrt.Choose("slow precision", 2)]
	slowLines := []string{"s0 v=0", "s1 v=1"}
	pieces := []mhttp.Piece{pc("s0 v=0\ns1"), pcd(" v=1\n", stall)}
	if mcrt.Choose("silent", 2) == 1 {
		pieces = []mhttp.Piece{pcd("s0 v=0\ns1 v=1\n", stall)}
	}
	slow := mhttp.CallAsync("slow", 13337, "POST", slowTarget, pieces...)
	sleep([]time.Duration{0, 700 * time.Millisecond}[mcrt.Choose("gap", 2)])
	t0 := mcrt.NowNanos()
	var rs []*mhttp.Result
	for i := 0; i < 2; i++ {
		target := targets[mcrt.Choose("precision", 2)]
		r := mhttp.CallAsync("good", 13337, "POST", target, pc(fmt.Sprintf("g%d v=1\n", i)))
		sleep(time.Millisecond)
		if !r.Done {
			mcrt.Fail("a request was held up by another client's slow request")
		}
		rs = append(rs, r)
	}
	checkAnswers(rs)
	sleep(lim.age + 50*time.Millisecond)
	all := string(join(e.published(subjIn)))
	for i := 0; i < 2; i++ {
		if strings.Count(all, fmt.Sprintf("g%d v=1\n", i)) != 1 {
			mcrt.Fail("line %d was not published within batch_max_age while another client was slow (after %v): %q", i, since(t0), all)
		}
	}
	if stall > 10*time.Second {
		l.Stop()
		return
	}
	sleep(stall + 2*lim.age)
	checkAnswers([]*mhttp.Result{slow})
	httpOracle(e, [][]string{slowLines, {"g0 v=1"}, {"g1 v=1"}})
	l.Stop()
}

// ---------------------------------------------------------------------
// repeated messages: nothing may be taken for a duplicate

// repeatAt enumerates the sequences of length 2..n over k messages in
// which at least two are equal.
func repeatSeqs(k, n int) [][]int {
	var out [][]int
	for i := 0; i < seqTotal(k, n); i++ {
		s := seqAt(i, k)
		seen := map[int]bool{}
		dup := false
		for _, x := range s {
			dup = dup || seen[x]
			seen[x] = true
		}
		if dup {
			out = append(out, s)
		}
	}
	return out
}

var repeats = repeatSeqs(3, 5)

var repeatMsgs = []string{"a,t=1 v=1\n", "b v=2i 1600000000000000000\n", "a,t=1 v=1\na,t=1 v=1\n"}

func repeatText(s []int) (parts []string, all string) {
	for _, x := range s {
		parts = append(parts, repeatMsgs[x])
		all += repeatMsgs[x]
	}
	return
}

var repeatGaps = []time.Duration{0, time.Millisecond, 2500 * time.Millisecond}

func repeatN(bool) int { return len(repeats) * len(repeatGaps) * 2 }

func repeatArgs(i int) (s []int, gap time.Duration, count int) {
	tick()
	return repeats[i/6], repeatGaps[i/2%3], []int{1, 3}[i%2]
}

func repeatUDP(i int) {
	s, gap, count := repeatArgs(i)
	e := setup()
	l, err := listener.StartListener(udpConf(limits{count, 2 * time.Second, "1MB", mb}))
	must(err)
	parts, _ := repeatText(s)
	for _, p := range parts {
		e.N.UDP(10001).Send([]byte(p))
		sleep(gap)
	}
	sleep(5 * time.Second)
	udpOracle(e, parts)
	l.Stop()
}

func repeatHTTP(i int) {
	s, gap, count := repeatArgs(i)
	e := setup()
	l, err := listener.StartHTTPListener(httpConf(limits{count, 2 * time.Second, "1MB", mb}))
	must(err)
	waitHTTP(13337)
	parts, _ := repeatText(s)
	var reqs [][]string
	for k, p := range parts {
		want := p
		target := "/write"
		if k%2 == 1 {
			target += "?precision=ms"
			p = strings.Replace(p, "1600000000000000000", "1600000000000", -1)
		}
		checkAnswers([]*mhttp.Result{mhttp.Call(13337, "POST", target, pc(p))})
		reqs = append(reqs, strings.Split(strings.TrimSuffix(want, "\n"), "\n"))
		sleep(gap)
	}
	sleep(5 * time.Second)
	httpOracle(e, reqs)
	l.Stop()
}

func repeatFilter(i int) {
	s, gap, workers := repeatArgs(i)
	e := setup()
	f := startFilter(e, []config.Rule{{Rtype: "basic", Match: "a", Subject: "out0"}}, func(c *config.Config) {
		c.MaxTimeDelta = config.NewDuration(100 * 365 * 24 * time.Hour)
		c.Workers = workers
	})
	parts, _ := repeatText(s)
	want := map[string]string{}
	for _, p := range parts {
		e.B.Inject(subjIn, []byte(p))
		sleep(gap)
		if p[0] == 'a' {
			want["out0"] += p
		} else {
			want[subjJunk] += p
		}
	}
	sleep(time.Second)
	checkRoute(e, want, fmt.Sprintf("messages %q", parts))
	f.Stop()
}

func repeatWriter(i int) {
	s, gap, count := repeatArgs(i)
	e := setup()
	d := e.influx(nil)
	w := startWriter(limits{count: count, bytes: 100000, age: 2 * time.Second}, nil)
	parts, all := repeatText(s)
	for _, p := range parts {
		e.B.Inject("in", []byte(p))
		sleep(gap)
	}
	sleep(5 * time.Second)
	if got := strings.Join(d.bodies(), ""); got != all {
		mcrt.Fail("messages %q: InfluxDB received %q", parts, got)
	}
	w.Stop()
}

// repeatRetry: equal batches all fail first; each is retried.
func repeatRetry(i int) {
	s, gap, _ := repeatArgs(i)
	e := setup()
	down := true
	d := e.influx(func(n int, r *mhttp.Request) mhttp.Response {
		if down {
			return mhttp.Response{Status: 503}
		}
		return mhttp.Response{Status: 204}
	})
	w := startWriter(limits{count: 1, bytes: 100000, age: 2 * time.Second}, func(c *config.Config) {
		c.WriterRetryBatches = 10
		c.WriterRetryInterval = config.NewDuration(time.Minute)
		c.WriterRetryTimeout = config.NewDuration(time.Hour)
	})
	parts, _ := repeatText(s)
	for _, p := range parts {
		e.B.Inject("in", []byte(p))
		sleep(gap)
	}
	sleep(time.Second)
	down = false
	if i%2 == 0 {
		sleep(20 * time.Minute)
		if got := d.bodies(); !sameMultiset(got, parts) {
			mcrt.Fail("batches %q failed once: InfluxDB received %q", parts, got)
		}
	} else {
		// some retries fail as well
		n := 0
		d.answer = func(int, *mhttp.Request) mhttp.Response {
			n++
			if n%2 == 1 && n < 6 {
				return mhttp.Response{Err: errRefused}
			}
			return mhttp.Response{Status: 204}
		}
		sleep(30 * time.Minute)
		if got := d.bodies(); !sameMultiset(got, parts) {
			mcrt.Fail("batches %q failed once or twice: InfluxDB received %q", parts, got)
		}
	}
	w.Stop()
}

// repeatDS: equal lines all contribute (the mean of equal values must not
// hide it, so the values differ from a last one).
func repeatDS(i int) {
	s, gap, _ := repeatArgs(i)
	e := setup()
	d := startDS(func(c *config.Config) { c.DownsamplePeriod = config.NewDuration(time.Minute) })
	msgs := []string{"m v=4\n", "m v=10\n", "m v=4\nm v=4\n"}
	sum, n := 0, 0
	for _, x := range s {
		e.B.Inject("in", []byte(msgs[x]))
		sleep(gap)
		sum += []int{4, 10, 8}[x]
		n += []int{1, 1, 2}[x]
	}
	e.B.Inject("in", []byte("m v=1000\n"))
	sum, n = sum+1000, n+1
	sleep(3 * time.Minute)
	out := e.dsOutput("in-archive")
	if len(out) != 1 {
		mcrt.Fail("%d lines emitted for one period", len(out))
	}
	f, err := strconv.ParseFloat(strings.TrimPrefix(out[0].fields, "v="), 64)
	if want := float64(sum) / float64(n); err != nil || f-want > 1e-9 || want-f > 1e-9 {
		mcrt.Fail("lines %v: %s emitted, expected the mean %v of %d values", s, out[0].fields, want, n)
	}
	d.Stop()
}

// repeatMon: a metric sent again with the same value.
func repeatMon(i int) {
	s, gap, _ := repeatArgs(i)
	e := setup()
	m := startMonitor(nil)
	waitHTTP(monPort)
	state := map[string]string{}
	var hist []string
	for _, x := range s {
		mm := monMenu[x]
		hist = append(hist, mm.text)
		e.B.Inject(subjMon, []byte(mm.text))
		state = apply(state, mm)
		sleep(gap + time.Millisecond)
		if got, want := canonScrape(scrape()), monRender(state); got != want {
			mcrt.Fail("after %q the monitor serves %q, expected %q", hist, got, want)
		}
	}
	m.Stop()
}

// ---------------------------------------------------------------------
// C09 the window moves with the time

// windowSeq: several messages while time passes; at each the window is
// the one of that moment.
func windowSeq(nmsg int) func() {
	return func() {
		e := setup()
		delta := []time.Duration{time.Second, 10 * time.Minute}[mcrt.Choose("delta", 2)]
		f := startFilter(e, []config.Rule{{Rtype: "basic", Match: "m", Subject: "out0"}}, func(c *config.Config) {
			c.MaxTimeDelta = config.NewDuration(delta)
		})
		gaps := []time.Duration{0, 1, time.Millisecond, 100 * time.Millisecond, delta / 2, delta, 3*delta + 1}
		want := map[string]string{}
		for k := 0; k < nmsg; k++ {
			if k > 0 {
				sleep(gaps[mcrt.Choose("gap", len(gaps))])
			}
			now, d := mcrt.NowNanos(), int64(delta)
			msg := ""
			for j, o := range []int64{-d - 1, -d, -d + 1, -1, 0, 1, d - 1, d, d + 1} {
				s := fmt.Sprintf("m%s v=%d %d\n", []string{"", "x"}[j%2], k, now+o)
				msg += s
				if o > -d && o < d {
					want[[]string{"out0", subjJunk}[j%2]] += s
				}
			}
			e.B.Inject(subjIn, []byte(msg))
			mcrt.Yield("inject")
		}
		sleep(time.Millisecond)
		checkRoute(e, want, fmt.Sprintf("max_time_delta %v", delta))
		f.Stop()
	}
}

// ---------------------------------------------------------------------
// C12 a blocked downsampler

// dsBlocked: publishing blocks for up to several periods.  Every line is
// then either counted as unacceptable or contributes exactly once, to the
// output of its own period.
func dsBlocked(nmsg int) func() {
	return func() {
		e := setup()
		p := int64(10 * time.Second)
		blocks := []time.Duration{0, 4 * time.Second, 10 * time.Second, 14 * time.Second, 25 * time.Second, 47 * time.Second}
		left := 2
		e.B.PublishErr = func(c *fnats.Conn, subj string, data []byte) error {
			if subj == "in-archive" && left > 0 {
				left--
				sleep(blocks[mcrt.Choose("publish blocks", len(blocks))])
			}
			return nil
		}
		startDS(func(c *config.Config) {
			c.StatsInterval = config.NewDuration(time.Second)
			c.NATSMaxPendingSize = 1 << 20
		})
		sleep(3 * time.Second)
		type in struct {
			val int
			ts  int64
		}
		var ins []in
		send := func() {
			now := mcrt.NowNanos()
			msg := ""
			for _, o := range []int64{0, -p} {
				v := 1 << uint(len(ins))
				ins = append(ins, in{v, now + o})
				msg += fmt.Sprintf("m,i=%d v=%di %d\nall v=%di %d\n", len(ins), v, now+o, v, now+o)
			}
			e.B.Inject("in", []byte(msg))
		}
		for k := 0; k < nmsg; k++ {
			send()
			sleep([]time.Duration{time.Second, 11 * time.Second}[mcrt.Choose("gap", 2)])
		}
		sleep(5 * time.Minute)
		bad, found := e.counter(subjMon, "invalid_timestamps", "")
		if !found {
			mcrt.Fail("no invalid_timestamps metric")
		}
		out := map[string]int64{}
		n := 0
		for _, o := range e.dsOutput("in-archive") {
			k := fmt.Sprintf("%s %d", o.head, o.ts)
			v, err := strconv.ParseInt(strings.TrimSuffix(strings.TrimPrefix(o.fields, "v="), "i"), 10, 64)
			if err != nil {
				mcrt.Fail("malformed output %q", o.fields)
			}
			if _, dup := out[k]; dup {
				mcrt.Fail("series %s emitted twice for one period", o.head)
			}
			out[k] = v
		}
		lost := 0
		sum, cnt := map[int64]int64{}, map[int64]int64{}
		for k, x := range ins {
			end := x.ts/p*p + p
			key := fmt.Sprintf("m,i=%d %d", k+1, end)
			v, ok := out[key]
			if !ok {
				lost++
				continue
			}
			n++
			if v != int64(x.val) {
				mcrt.Fail("series i=%d: value %d emitted, expected %d", k+1, v, x.val)
			}
			delete(out, key)
			sum[end] += v
			cnt[end]++
		}
		for end, s := range sum {
			key := fmt.Sprintf("all %d", end)
			if v, ok := out[key]; !ok || v != s/cnt[end] {
				mcrt.Fail("period ending %v: average of all %d (present: %v), expected %d of %d values", time.Duration(end-mcrt.Epoch), v, ok, s/cnt[end], cnt[end])
			}
			delete(out, key)
		}
		if len(out) > 0 {
			mcrt.Fail("unexpected output for %s", keysOf(out)[0])
		}
		if int64(2*lost) != bad {
			mcrt.Fail("%d lines do not appear in the output of their period, but invalid_timestamps is %d", 2*lost, bad)
		}
		mcrt.Observe("%d %d", n, lost)
	}
}

// ---------------------------------------------------------------------
// C31 unterminated lines through the whole pipeline

var untermBodies = []string{"cpu,host=a v=1i", "cpu,host=b v=2i\ncpu,host=c v=3i", "cpu,host=d v=4i\n"}

// pipeUnterminated: the last line of an HTTP write need not be terminated.
func pipeUnterminated(i int) {
	tick()
	e := setup()
	d := e.influx(nil)
	count := []int{1, 10}[i%2]       // of the listener
	wcount := []int{1, 2, 10}[i/2%3] // of the writer
	rules := i/6%2 == 1
	withFilter := i/12%2 == 1
	first, second := i/24%3, i/72%3
	prec := i/216%2 == 1
	subject := "in"
	startWriter(limits{count: wcount, bytes: 100000, age: time.Second}, func(c *config.Config) {
		c.NATSSubject = []string{subject}
		if rules {
			c.Rule = []config.Rule{{Rtype: "basic", Match: "cpu"}}
		}
	})
	lc := httpConf(limits{count, 2 * time.Second, "1MB", mb})
	lc.NATSSubject = []string{subject}
	if withFilter {
		lc.NATSSubject = []string{subjIn}
		startFilter(e, []config.Rule{{Rtype: "basic", Match: "cpu", Subject: subject}}, nil)
	}
	_, err := listener.StartHTTPListener(lc)
	must(err)
	waitHTTP(13337)
	target := "/write"
	if prec {
		target += "?precision=s"
	}
	var want []string
	for _, b := range []string{untermBodies[first], untermBodies[second], untermBodies[first]} {
		checkAnswers([]*mhttp.Result{mhttp.Call(13337, "POST", target, pc(b))})
		want = append(want, strings.Split(strings.TrimSuffix(b, "\n"), "\n")...)
		sleep(time.Millisecond)
	}
	sleep(10 * time.Second)
	var got []string
	for _, b := range d.bodies() {
		got = append(got, strings.Split(strings.TrimSuffix(b, "\n"), "\n")...)
	}
	if !sameMultiset(got, want) {
		sort.Strings(got)
		// is everything right up to the writer, and does the writer only
		// lack the separation of messages?
		var upTo []string
		for _, m := range e.published(subject) {
			upTo = append(upTo, strings.Split(strings.TrimSuffix(string(m), "\n"), "\n")...)
		}
		if sameMultiset(upTo, want) && strings.Join(d.bodies(), "") == string(join(e.published(subject))) {
			mcrt.Fail("the writer (with rules: %v) merges the unterminated last line of a message with the first line of the next message of its batch", rules)
		}
		mcrt.Fail("HTTP bodies %q, %q, %q (batch_max_count %d, writer's %d, writer rules %v, filter %v, %s): InfluxDB received the lines %q",
			untermBodies[first], untermBodies[second], untermBodies[first], count, wcount, rules, withFilter, target, got)
	}
}

func init() {
	bigSteps := mcrt.Opts{MaxSteps: 20000000}
	addScenario("C02",
		&Scenario{Name: "http-slow-client", Doc: "a client stalls in its body for up to an hour while others write", Opts: mcrt.Opts{Demote: true}, Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Body: httpSlow},
	)
	rep := func(prop string, name string, f func(int)) {
		addScenario(prop, &Scenario{Name: name, Doc: "every sequence of up to 5 messages with repetitions", Opts: bigSteps, Chunk: 1, N: repeatN, Case: f})
	}
	rep("C01", "repeats", repeatUDP)
	rep("C02", "repeats", repeatHTTP)
	rep("C06", "repeats", repeatFilter)
	rep("C12", "repeats", repeatDS)
	rep("C16", "repeats", repeatWriter)
	rep("C17", "repeats", repeatRetry)
	rep("C22", "repeats", repeatMon)
	addScenario("C09",
		&Scenario{Name: "window-moves", Doc: "4 messages, every boundary at each, 7 spacings", Quick: Bounds{Sched: 0}, Thorough: Bounds{Sched: 1}, Body: windowSeq(4)},
	)
	addScenario("C12",
		&Scenario{Name: "blocked", Doc: "publishing blocks for up to several periods", Quick: Bounds{}, Thorough: Bounds{Sched: 1}, Body: dsBlocked(4)},
	)
	addScenario("C31",
		&Scenario{Name: "unterminated", Doc: "HTTP bodies with and without a final newline through listener, filter and writer", Opts: bigSteps, Chunk: 1, N: func(bool) int { return 432 }, Case: pipeUnterminated},
	)
}
