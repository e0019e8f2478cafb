//go:build go1.21

package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/listener"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mhttp"
)

// Long histories.  Every case repeats one word of a small alphabet of
// steps; all words up to a length are enumerated.  What only shows after
// many messages, a long time or beyond a size is reached here.

// word decodes the i-th word of length 1..n over k letters.
func word(i, k int) []int { return seqAt(i, k) }

// words is the number of words of length 1..n.
func words(k, n int) int { return seqTotal(k, n) }

// ---------------------------------------------------------------------
// listeners

var longLimits = []limits{
	{1, 2 * time.Second, "1MB", mb},
	{7, 1500 * time.Millisecond, "1MB", mb},
	{100000, 2 * time.Second, "1MB", mb},
	{100000, 10 * time.Minute, "256KB", 256 * 1024},
}

var longGaps = []time.Duration{0, 130 * time.Millisecond, 1100 * time.Millisecond, 11 * time.Second}

func longData(k, i int) string {
	switch k {
	case 0:
		return fmt.Sprintf("u%d v=1\n", i)
	case 1:
		return fmt.Sprintf("u%d v=1", i)
	case 2:
		return fmt.Sprintf("u%d v=1\nx%d v=2\ny%d v=3\n", i, i, i)
	}
	return bigLine(fmt.Sprintf("u%d ", i), 40000)
}

func longListenerN(th bool) int { return words(16, thInt(th, 1, 2)) * len(longLimits) }

func longUDP(n int, timing bool) func(int) {
	return func(i int) {
		tick()
		lim := longLimits[i%len(longLimits)]
		w := word(i/len(longLimits), 16)
		e := setup()
		c := udpConf(lim)
		c.StatsInterval = config.NewDuration(time.Minute)
		l, err := listener.StartListener(c)
		must(err)
		var arr []arrival
		var dgrams []string
		for k := 0; k < n; k++ {
			s := w[k%len(w)]
			d := longData(s%4, k)
			e.N.UDP(10001).Send([]byte(d))
			arr = append(arr, arrival{mcrt.NowNanos(), ensureNL(d), 1})
			dgrams = append(dgrams, d)
			sleep(longGaps[s/4])
			if longGaps[s/4] == 0 && k%20 == 19 {
				sleep(time.Millisecond)
				arr[k].at = mcrt.NowNanos() - int64(time.Millisecond)
			}
		}
		sleep(lim.age + 2500*time.Millisecond)
		if timing {
			batchOracle(e, lim, arr, time.Second, 65536)
		} else {
			udpOracle(e, dgrams)
			sleep(time.Minute)
			if got, _ := e.counter(subjMon, "received", ""); got != int64(n) {
				mcrt.Fail("received is %d after %d datagrams", got, n)
			}
		}
		l.Stop()
	}
}

func longHTTP(n int, timing bool) func(int) {
	return func(i int) {
		tick()
		lim := longLimits[i%len(longLimits)]
		w := word(i/len(longLimits), 16)
		e := setup()
		c := httpConf(lim)
		c.StatsInterval = config.NewDuration(time.Minute)
		l, err := listener.StartHTTPListener(c)
		must(err)
		waitHTTP(13337)
		var arr []arrival
		var reqs [][]string
		for k := 0; k < n; k++ {
			s := w[k%len(w)]
			d := longData(s%4, k)
			if timing {
				d = ensureNL(d)
			}
			target := "/write"
			sent := d
			if !timing && k%3 == 2 {
				// converted line by line
				target += "?precision=s"
				sent = strings.Replace(d, "\n", " 1600000000\n", -1)
				d = strings.Replace(d, "\n", " 1600000000000000000\n", -1)
			}
			a := arrival{mcrt.NowNanos(), d, 1}
			cut := len(sent) / 3
			checkAnswers([]*mhttp.Result{mhttp.Call(13337, "POST", target, pc(sent[:cut]), pc(sent[cut:]))})
			arr = append(arr, a)
			reqs = append(reqs, strings.Split(strings.TrimSuffix(d, "\n"), "\n"))
			sleep(longGaps[s/4])
		}
		sleep(2*lim.age + time.Second)
		if timing {
			batchOracle(e, lim, arr, 0, 65536)
		} else {
			httpOracle(e, reqs)
			sleep(time.Minute)
			if got, _ := e.counter(subjMon, "received", ""); got != int64(n) {
				mcrt.Fail("received is %d after %d requests", got, n)
			}
		}
		l.Stop()
	}
}

// manyClients: a crowd of clients at the same moment.
func manyClients(i int) {
	tick()
	n := []int{4, 8, 17, 64, 150}[i%5]
	kind := i / 5 % 4
	lim := longLimits[i/20]
	e := setup()
	l, err := listener.StartHTTPListener(httpConf(lim))
	must(err)
	waitHTTP(13337)
	var reqs [][]string
	var rs []*mhttp.Result
	for k := 0; k < n; k++ {
		var ls []string
		for j := 0; j <= k%3; j++ {
			ls = append(ls, fmt.Sprintf("c%dl%d v=%d 1600000000000000000", k, j, j))
		}
		body := strings.Join(ls, "\n")
		if k%2 == 0 {
			body += "\n"
		}
		target := "/write"
		if kind == 1 || kind == 2 && k%2 == 0 {
			target += "?precision=ms"
			body = strings.Replace(body, "1600000000000000000", "1600000000000", -1)
		}
		ps := []mhttp.Piece{pc(body)}
		if kind >= 2 {
			c := len(body) / 2
			ps = []mhttp.Piece{pc(body[:c]), pcd(body[c:], time.Duration(k%5)*time.Millisecond)}
		}
		rs = append(rs, mhttp.CallAsync("c", 13337, "POST", target, ps...))
		reqs = append(reqs, ls)
	}
	sleep(2*lim.age + time.Second)
	checkAnswers(rs)
	httpOracle(e, reqs)
	l.Stop()
}

// ---------------------------------------------------------------------
// filter

// manyRules: n rules, one line for each and some for none, as one message,
// one message per line and in between.
var ruleCounts = []int{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}

func manyRules(i int) {
	tick()
	n := ruleCounts[i%len(ruleCounts)]
	k := i / len(ruleCounts)
	kind, per := k%5, []int{1, 10, 100000}[k/5]
	var rules []config.Rule
	line := func(j int) refLine {
		return refLine{fmt.Sprintf("m%dx", j), [][2]string{{"t", fmt.Sprint(j)}}, fmt.Sprintf("v=%d", j)}
	}
	for j := 0; j < n; j++ {
		subj := fmt.Sprintf("out%d", j)
		t := kind
		if kind == 4 {
			t = j % 3
		}
		switch t {
		case 0:
			rules = append(rules, config.Rule{Rtype: "basic", Match: fmt.Sprintf("m%dx", j), Subject: subj})
		case 1:
			rules = append(rules, config.Rule{Rtype: "tags", Tags: [][]string{{"t", fmt.Sprint(j)}}, Subject: subj})
		case 2:
			rules = append(rules, config.Rule{Rtype: "regex", Match: fmt.Sprintf("^m%dx", j), Subject: subj})
		case 3: // all to few subjects
			rules = append(rules, config.Rule{Rtype: "basic", Match: fmt.Sprintf("m%dx", j), Subject: fmt.Sprintf("out%d", j%3)})
		}
	}
	e := setup()
	f := startFilter(e, rules, func(c *config.Config) { c.Workers = 1 })
	var ls []refLine
	for r := 0; r < 2; r++ {
		for j := 0; j < n+2; j++ {
			ls = append(ls, line((j*(r+1)*7)%(n+2)))
		}
	}
	want := map[string][]string{}
	for len(ls) > 0 {
		m := ls
		if len(m) > per {
			m = m[:per]
		}
		ls = ls[len(m):]
		msg := ""
		for _, l := range m {
			msg += l.render(nil) + "\n"
			j, _ := strconv.Atoi(l.meas[1 : len(l.meas)-1])
			s := subjJunk
			if j < n {
				s = rules[j].Subject
			}
			want[s] = append(want[s], l.render(nil)+"\n")
		}
		e.B.Inject(subjIn, []byte(msg))
		sleep(time.Millisecond)
	}
	// rules with the same subject have separate batches, so the order of
	// their lines within a message is not fixed
	got := map[string][]string{}
	for _, p := range e.B.Log {
		if p.Subj != subjMon {
			got[p.Subj] = append(got[p.Subj], lines(p.Data)...)
		}
	}
	for _, s := range keysOf(want) {
		if !sameMultiset(got[s], want[s]) {
			mcrt.Fail("%d rules of kind %d, %d lines per message: subject %s received %d lines, expected %d", n, kind, per, s, len(got[s]), len(want[s]))
		}
	}
	for _, s := range keysOf(got) {
		if want[s] == nil {
			mcrt.Fail("%d rules of kind %d: unexpected subject %s", n, kind, s)
		}
	}
	f.Stop()
}

// filterSizes: lines and messages of every size class.
var lineSizes = []int{1, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537, 131072, 262144, 500000, 1000000}

func filterSizes(i int) {
	tick()
	n := lineSizes[i%len(lineSizes)]
	where := i / len(lineSizes) % 5
	neigh := i / len(lineSizes) / 5 % 2
	e := setup()
	f := startFilter(e, []config.Rule{
		{Rtype: "basic", Match: "a", Subject: "out0"},
		{Rtype: "tags", Tags: [][]string{{"k", strings.Repeat("w", n)}}, Subject: "out1"},
		{Rtype: "regex", Match: "END", Subject: "out2"},
	}, func(c *config.Config) { c.Workers = 1; c.MaxTimeDelta = config.NewDuration(time.Hour) })
	pad := strings.Repeat("w", n)
	ts := mcrt.NowNanos()
	var l, subj string
	switch where {
	case 0:
		l, subj = pad+" v=1 "+fmt.Sprint(ts)+"\n", subjJunk
	case 1:
		l, subj = "b,a=1,k="+pad+" v=1\n", "out1"
	case 2:
		l, subj = "b v=\""+pad+"END\" "+fmt.Sprint(ts)+"\n", "out2"
	case 3: // many fields
		l = "a "
		for len(l) < n {
			l += fmt.Sprintf("f%d=%d,", len(l), n)
		}
		l, subj = l+"z=1\n", "out0"
	case 4: // an old one: dropped
		l, subj = "a v=\""+pad+"\" 1000000000000000000\n", ""
	}
	want := map[string]string{}
	msg := l
	if subj != "" {
		want[subj] = l
	}
	if neigh == 1 {
		msg = "a n=1\n" + l + "a n=2\n"
		if subj == "out0" {
			want["out0"] = msg
		} else {
			want["out0"] = "a n=1\na n=2\n"
		}
	}
	e.B.Inject(subjIn, []byte(msg))
	sleep(time.Millisecond)
	checkRoute(e, want, fmt.Sprintf("line of %d bytes (%d)", len(l), where))
	f.Stop()
}

var longFilterMsgs = []struct {
	text string
	subj []string
}{
	{"a v=%d\n", []string{"out0"}},
	{"b,t=1 v=%d\n", []string{"out1"}},
	{"c v=%d\nd v=%d\n", []string{subjJunk, subjJunk}},
	{"a v=%d\nc v=%d\na,t=1 v=%d\n", []string{"out0", subjJunk, "out0"}},
	{"a v=%d 1000000000000000000\na v=%d\n", []string{"", "out0"}},
	{"a,b v=%d\na v=%d\n", []string{"", "out0"}},
}

func longFilter(n int) func(int) {
	return func(i int) {
		tick()
		k := len(longFilterMsgs)
		gap := []time.Duration{0, time.Millisecond, 17 * time.Second}[i%3]
		w := word(i/3, k)
		e := setup()
		f := startFilter(e, []config.Rule{{Rtype: "basic", Match: "a", Subject: "out0"}, {Rtype: "tags", Tags: [][]string{{"t", "1"}}, Subject: "out1"}},
			func(c *config.Config) {
				c.Workers = 1
				c.StatsInterval = config.NewDuration(time.Minute)
				c.Name = "flt"
			})
		want := map[string]string{}
		count := map[string]int64{}
		for j := 0; j < n; j++ {
			m := longFilterMsgs[w[j%len(w)]]
			msg := ""
			for x, l := range strings.SplitAfter(strings.TrimSuffix(m.text, "\n"), "\n") {
				l = ensureNL(fmt.Sprintf(l, j))
				msg += l
				count["processed"]++
				switch m.subj[x] {
				case "":
					if strings.Contains(l, " 1000000000000000000") {
						count["invalid_time"]++
					}
					continue
				case subjJunk:
					count["rejected"]++
				default:
					count["passed"]++
				}
				want[m.subj[x]] += l
			}
			e.B.Inject(subjIn, []byte(msg))
			sleep(gap)
		}
		sleep(61 * time.Second)
		checkRoute(e, want, fmt.Sprintf("%d messages %v", n, w))
		for _, c := range []string{"processed", "passed", "rejected", "invalid_time"} {
			if got, ok := e.counter(subjMon, c, ""); !ok || got != count[c] {
				mcrt.Fail("%d messages %v: %s is %d, expected %d", n, w, c, got, count[c])
			}
		}
		f.Stop()
	}
}

// longWindow: the window is checked at every of many moments.
func longWindow(i int) {
	tick()
	gaps := []time.Duration{0, 1, 3 * time.Millisecond, 999 * time.Millisecond, time.Second, 61 * time.Second, 25 * time.Hour}
	delta := []time.Duration{time.Millisecond, time.Second, 10 * time.Minute, 24 * time.Hour}[i%4]
	w := word(i/4, len(gaps))
	e := setup()
	f := startFilter(e, []config.Rule{{Rtype: "basic", Match: "m", Subject: "out0"}}, func(c *config.Config) {
		c.MaxTimeDelta = config.NewDuration(delta)
		c.Workers = 1
	})
	want := ""
	for k := 0; k < 60; k++ {
		now, d := mcrt.NowNanos(), int64(delta)
		msg := ""
		for _, o := range []int64{-d - 1, -d, -d + 1, 0, d - 1, d, d + 1} {
			s := fmt.Sprintf("m v=%d %d\n", k, now+o)
			msg += s
			if o > -d && o < d {
				want += s
			}
		}
		e.B.Inject(subjIn, []byte(msg))
		mcrt.Yield("inject")
		if g := gaps[w[k%len(w)]]; g > 0 {
			sleep(g)
		}
	}
	sleep(time.Millisecond)
	checkRoute(e, map[string]string{"out0": want}, fmt.Sprintf("max_time_delta %v, messages every %v", delta, w))
	f.Stop()
}

// ---------------------------------------------------------------------
// downsampler

var longDSGaps = []float64{0, 0.13, 0.5, 1, 2.7}

// longDS: many periods with data in them at a word of gaps and offsets.
func longDS(n int) func(int) {
	return func(i int) {
		tick()
		period := []time.Duration{time.Second, 10 * time.Second, time.Minute, time.Hour}[i%4]
		w := word(i/4, 4*len(longDSGaps))
		p := int64(period)
		e := setup()
		d := startDS(func(c *config.Config) {
			c.DownsamplePeriod = config.NewDuration(period)
			c.StatsInterval = config.NewDuration(time.Hour)
		})
		sleep(period / 10)
		type key struct {
			head string
			end  int64
		}
		sum, cnt := map[key]int64{}, map[key]int64{}
		for m := 0; m < n; m++ {
			s := w[m%len(w)]
			now := mcrt.NowNanos()
			tc := now/p*p + p
			ts := []int64{now, tc - 2*p, tc, tc + p - 1}[s%4]
			val := int64(m*m%1009 + 1)
			heads := []string{"all", fmt.Sprintf("part,k=%d", m%3)}
			if m%17 == 0 {
				heads = append(heads, "rare,x=y")
			}
			msg := ""
			for _, h := range heads {
				msg += fmt.Sprintf("%s v=%di %d\n", h, val, ts)
				k := key{h, ts/p*p + p}
				sum[k] += val
				cnt[k]++
			}
			e.B.Inject("in", []byte(msg))
			mcrt.Yield("inject")
			if g := longDSGaps[s/4]; g > 0 {
				sleep(time.Duration(g * float64(period)))
			}
		}
		sleep(5 * period)
		seen := map[key]bool{}
		for _, o := range e.dsOutput("in-archive") {
			k := key{o.head, o.ts}
			if seen[k] || cnt[k] == 0 {
				mcrt.Fail("series %s emitted twice or without data for the window ending %v (word %v, period %v)", o.head, time.Duration(o.ts-mcrt.Epoch), w, period)
			}
			seen[k] = true
			if o.at != o.ts+p {
				mcrt.Fail("window ending %v emitted at %v", time.Duration(o.ts-mcrt.Epoch), time.Duration(o.at-mcrt.Epoch))
			}
			if want := fmt.Sprintf("v=%di", sum[k]/cnt[k]); o.fields != want {
				mcrt.Fail("series %s window %v: %s, expected %s of %d values (word %v, period %v)", o.head, time.Duration(o.ts-mcrt.Epoch), o.fields, want, cnt[k], w, period)
			}
		}
		if len(seen) != len(cnt) {
			mcrt.Fail("%d series/windows were emitted, %d received data (word %v, period %v)", len(seen), len(cnt), w, period)
		}
		d.Stop()
	}
}

// manySeries: many series, fields, lines and subjects in one period.
var manyCounts = []int{1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 999, 1000, 1024, 1025, 3000}

func manySeries(i int) {
	tick()
	n := manyCounts[i%len(manyCounts)]
	kind := i / len(manyCounts)
	e := setup()
	subjects := []string{"in"}
	if kind == 3 {
		if n > 300 {
			return
		}
		subjects = nil
		for k := 0; k < n; k++ {
			subjects = append(subjects, fmt.Sprintf("s%d", k))
		}
	}
	d := startDS(func(c *config.Config) {
		c.DownsamplePeriod = config.NewDuration(time.Minute)
		c.StatsInterval = config.NewDuration(time.Hour)
		c.NATSSubject = subjects
	})
	want := map[string]map[string]string{}
	put := func(subj, head, fields string) {
		if want[subj] == nil {
			want[subj] = map[string]string{}
		}
		want[subj][head] = fields
	}
	for round := 0; round < 2; round++ {
		switch kind {
		case 0: // series
			msg := ""
			for k := 0; k < n; k++ {
				msg += fmt.Sprintf("m,k=%d a=%d,b=\"s%d\"\n", k, k+4*round, k+round)
				put("in", fmt.Sprintf("m,k=%d", k), fmt.Sprintf("a=%d,b=\"s%d\"", k+2, k+1))
			}
			e.B.Inject("in", []byte(msg))
		case 1: // fields
			msg, f := "m ", ""
			for k := 0; k < n; k++ {
				msg += fmt.Sprintf("f%d=%di,", k, k+4*round)
				f += fmt.Sprintf("f%d=%di,", k, k+2)
			}
			put("in", "m", strings.TrimSuffix(f, ","))
			e.B.Inject("in", []byte(strings.TrimSuffix(msg, ",")+"\n"))
		case 2: // lines for one series, over many messages
			for k := 0; k < n; k++ {
				e.B.Inject("in", []byte(fmt.Sprintf("m v=%di\nm v=%di\n", k, k)))
				if k%100 == 99 {
					sleep(time.Millisecond)
				}
			}
			put("in", "m", fmt.Sprintf("v=%di", (n-1)/2))
		case 3: // subjects
			for k := 0; k < n; k++ {
				e.B.Inject(subjects[k], []byte(fmt.Sprintf("m v=%di\n", k+4*round)))
				put(subjects[k], "m", fmt.Sprintf("v=%di", k+2))
			}
		}
		sleep(time.Millisecond)
	}
	sleep(3 * time.Minute)
	for _, s := range keysOf(want) {
		got := map[string]string{}
		for _, o := range e.dsOutput(s + "-archive") {
			if got[o.head] != "" {
				mcrt.Fail("series %s emitted twice", o.head)
			}
			got[o.head] = canonFields(o.fields)
		}
		for _, h := range keysOf(want[s]) {
			if got[h] != canonFields(want[s][h]) {
				mcrt.Fail("kind %d, %d: series %s on %s is %s, expected %s", kind, n, h, s, short(got[h]), short(want[s][h]))
			}
		}
		if len(got) != len(want[s]) {
			mcrt.Fail("kind %d, %d: %d series emitted, expected %d", kind, n, len(got), len(want[s]))
		}
	}
	d.Stop()
}

// manyBad: many lines that cannot be parsed or are stale among good ones.
func manyBad(i int) {
	tick()
	n := manyCounts[i%len(manyCounts)]
	e := setup()
	d := startDS(func(c *config.Config) {
		c.DownsamplePeriod = config.NewDuration(time.Minute)
		c.StatsInterval = config.NewDuration(time.Second)
	})
	sleep(time.Second)
	bad := func(k int) string {
		switch i / len(manyCounts) {
		case 0:
			return badLines[k%len(badLines)] + "\n"
		case 1:
			return fmt.Sprintf("m v=%d 1500000000000000000\n", k)
		}
		return "m v=\"conflict\"\n"
	}
	msg := "m v=4\n"
	for k := 0; k < n; k++ {
		msg += bad(k)
		if k%50 == 49 {
			msg += fmt.Sprintf("g%d v=1\n", k)
		}
	}
	e.B.Inject("in", []byte(msg+"m v=10\n"))
	for k := 0; k < n && k < 300; k++ {
		e.B.Inject("in", []byte(bad(k)))
		if k%20 == 19 {
			sleep(time.Millisecond)
		}
	}
	e.B.Inject("in", []byte("m v=16\nlast v=1\n"))
	sleep(3 * time.Minute)
	want := map[string]string{"m": "v=10", "last": "v=1"}
	for k := 49; k < n; k += 50 {
		want[fmt.Sprintf("g%d", k)] = "v=1"
	}
	for _, o := range e.dsOutput("in-archive") {
		if want[o.head] != o.fields {
			mcrt.Fail("with %d rejected lines per message, series %s is %s, expected %q", n, o.head, o.fields, want[o.head])
		}
		delete(want, o.head)
	}
	if len(want) > 0 {
		mcrt.Fail("with %d rejected lines in a message, series %v are missing", n, keysOf(want))
	}
	total := n + n
	if n > 300 {
		total = n + 300
	}
	nl, _ := e.counter(subjMon, "invalid_lines", "")
	nt, _ := e.counter(subjMon, "invalid_timestamps", "")
	if nl+nt != int64(total) || nt > 0 != (i/len(manyCounts) == 1) {
		mcrt.Fail("%d lines were rejected, invalid_lines is %d and invalid_timestamps is %d", total, nl, nt)
	}
	d.Stop()
}

func canonFields(s string) string {
	f := strings.Split(s, ",")
	sort.Strings(f)
	return strings.Join(f, ",")
}

// ---------------------------------------------------------------------
// writer

var longWriterLimits = []limits{
	{count: 1, bytes: 1 << 20, age: 2 * time.Second},
	{count: 7, bytes: 1 << 20, age: 1500 * time.Millisecond},
	{count: 100000, bytes: 1 << 20, age: 3 * time.Second},
	{count: 100000, bytes: 50000, age: 10 * time.Minute},
}

func longWriterN(th bool) int { return words(12, thInt(th, 1, 2)) * len(longWriterLimits) * 2 }

func longWriter(n int) func(int) {
	return func(i int) {
		tick()
		lim := longWriterLimits[i/2%len(longWriterLimits)]
		w := word(i/2/len(longWriterLimits), 12)
		rules := i%2 == 1
		e := setup()
		d := e.influx(nil)
		wr := startWriter(lim, func(c *config.Config) {
			c.Workers = 1
			if rules {
				c.Rule = []config.Rule{{Rtype: "regex", Match: "^[uxy]", Subject: ""}}
			}
		})
		var arr []arrival
		for k := 0; k < n; k++ {
			s := w[k%len(w)]
			var m string
			switch s % 3 {
			case 0:
				m = fmt.Sprintf("u%d v=1\n", k)
			case 1:
				m = fmt.Sprintf("u%d v=1\nx%d v=2\ny%d v=3\n", k, k, k)
			case 2:
				m = bigLine(fmt.Sprintf("u%d ", k), 9000) + "\n"
			}
			at := mcrt.NowNanos()
			e.B.Inject("in", []byte(m))
			arr = append(arr, arrival{at, m, 1})
			sleep(longGaps[s/3])
		}
		sleep(lim.age + 2*time.Second)
		writerOracleSettled(d, lim, arr, rules)
		wr.Stop()
	}
}

// writerOracleSettled: with rules a message counts one write per line.
func writerOracleSettled(d *db, lim limits, arr []arrival, rules bool) {
	if rules {
		want := ""
		for _, a := range arr {
			want += a.data
		}
		if got := strings.Join(d.bodies(), ""); got != want {
			mcrt.Fail("InfluxDB received %s, expected %s", short(got), short(want))
		}
		return
	}
	writerOracle(d, lim, arr, false)
}

// longRetry: a long stream of batches under a periodic pattern of answers.
func longRetry(n int) func(int) {
	return func(i int) {
		tick()
		cfg := []retryCfg{{3, 2*time.Second + time.Microsecond, 9 * time.Second, 1}, {50, 500*time.Millisecond + time.Microsecond, 20 * time.Second, 1}}[i%2]
		gap := []time.Duration{37 * time.Millisecond, 2100 * time.Millisecond}[i/2%2]
		w := word(i/4, len(longAnswers))
		e := setup()
		wto := 700 * time.Millisecond
		d := e.influx(func(k int, r *mhttp.Request) mhttp.Response {
			a := longAnswers[w[k%len(w)]]
			a.Delay += time.Duration(k+1) * 7 // no two batches fail at the same time
			return a
		})
		d.timeout = wto
		wr := startWriter(limits{1, time.Hour, "", 100000}, func(c *config.Config) {
			c.Workers = 1
			c.WriterRetryBatches = cfg.batches
			c.WriterRetryInterval = config.NewDuration(cfg.interval)
			c.WriterRetryTimeout = config.NewDuration(cfg.timeout)
			c.WriteTimeout = config.NewDuration(wto)
			c.StatsInterval = config.NewDuration(5 * time.Second)
		})
		sleep(100 * time.Millisecond)
		var msgs []string
		for k := 0; k < n; k++ {
			m := fmt.Sprintf("m%d,t=x v=%d\n", k, k)
			e.B.Inject("in", []byte(m))
			msgs = append(msgs, m)
			sleep(gap)
		}
		sleep(cfg.timeout + 4*cfg.interval + time.Duration(n)*wto)
		retryOracle(d, cfg, msgs, mcrt.NowNanos())
		sleep(5500 * time.Millisecond)
		fails := 0
		for _, q := range d.reqs {
			if !q.ok() {
				fails++
			}
		}
		for _, c := range []struct {
			n string
			v int
		}{{"received", n}, {"write_requests", len(d.reqs)}, {"failed_writes", fails}} {
			if got, ok := e.counter(subjMon, c.n, ""); !ok || got != int64(c.v) {
				mcrt.Fail("%s is %d, InfluxDB saw %d", c.n, got, c.v)
			}
		}
		wr.Stop()
	}
}

var longAnswers = []mhttp.Response{
	{Status: 204},
	{Status: 500},
	{Status: 400},
	{Err: errRefused},
	{Status: 204, Delay: 2 * time.Second}, // beyond the timeout
	{Status: 503, Delay: 300 * time.Millisecond},
}

// bigQueue: outages that fill large retry queues.
var queueSizes = []int{1, 2, 5, 10, 20, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257}

func bigQueue(i int) {
	tick()
	nb := queueSizes[i%len(queueSizes)]
	excess := []int{-1, 0, 1, 2, nb, 3*nb + 1}[i/len(queueSizes)]
	n := nb + excess
	if n < 1 {
		return
	}
	e := setup()
	outage := true
	d := e.influx(func(int, *mhttp.Request) mhttp.Response {
		if outage {
			return mhttp.Response{Status: 500}
		}
		return mhttp.Response{Status: 204}
	})
	wr := startWriter(limits{1, time.Hour, "", 100000}, func(c *config.Config) {
		c.Workers = 1
		c.WriterRetryBatches = nb
		c.WriterRetryInterval = config.NewDuration(time.Minute)
		c.WriterRetryTimeout = config.NewDuration(1000 * time.Hour)
	})
	var msgs []string
	for k := 0; k < n; k++ {
		m := fmt.Sprintf("m%d v=%d\n", k, k)
		e.B.Inject("in", []byte(m))
		msgs = append(msgs, m)
		sleep(time.Millisecond)
	}
	if excess > 0 {
		sleep(10*time.Minute + time.Second) // a few rounds fail, too
	}
	outage = false
	sleep(time.Duration(n+15) * time.Minute)
	want := msgs
	if n > nb {
		want = msgs[n-nb:]
	}
	if got := d.bodies(); !sameMultiset(got, want) {
		mcrt.Fail("writer_retry_batches %d, %d failed batches: %d were written after the outage, expected the last %d", nb, n, len(got), len(want))
	}
	wr.Stop()
}

// ---------------------------------------------------------------------
// statistics beyond the width of small integers

func bigCounts(i int) {
	tick()
	e := setup()
	n := []int{255, 256, 257, 65535, 65536, 65537, 70001}[i%7]
	switch i / 7 {
	case 0:
		startFilter(e, []config.Rule{{Rtype: "basic", Match: "a", Subject: "out0"}}, func(c *config.Config) {
			c.Workers = 1
			c.StatsInterval = config.NewDuration(time.Second)
		})
		e.B.Inject(subjIn, []byte(strings.Repeat("a v=1\n", n)))
		e.B.Inject(subjIn, []byte(strings.Repeat("b v=1\n", n)))
		e.B.Inject(subjIn, []byte(strings.Repeat("a v=1 1000000000000000000\n", n)))
		sleep(10 * time.Second)
		for _, c := range []struct {
			name string
			want int
		}{{"processed", 3 * n}, {"passed", n}, {"rejected", n}, {"invalid_time", n}, {"triggered", n}} {
			if got, ok := e.counter(subjMon, c.name, ""); !ok || got != int64(c.want) {
				mcrt.Fail("%s is %d, expected %d", c.name, got, c.want)
			}
		}
	case 1:
		startDS(func(c *config.Config) { c.StatsInterval = config.NewDuration(time.Second) })
		e.B.Inject("in", []byte(strings.Repeat("bad v\n", n)))
		e.B.Inject("in", []byte(strings.Repeat("a v=1 1000000000000000000\n", n)))
		sleep(10 * time.Second)
		for _, c := range []string{"invalid_lines", "invalid_timestamps"} {
			if got, ok := e.counter(subjMon, c, ""); !ok || got != int64(n) {
				mcrt.Fail("%s is %d, expected %d", c, got, n)
			}
		}
	case 2:
		if n > 300 {
			n = 1000 + n%1000
		}
		e.influx(func(k int, r *mhttp.Request) mhttp.Response { return mhttp.Response{Status: []int{204, 400}[k%2]} })
		startWriter(limits{count: 1, bytes: 100000, age: time.Hour}, func(c *config.Config) { c.Workers = 1; c.StatsInterval = config.NewDuration(time.Second) })
		for k := 0; k < n; k++ {
			e.B.Inject("in", []byte("m v=1\n"))
			sleep(time.Millisecond)
		}
		sleep(10 * time.Second)
		for _, c := range []struct {
			name string
			want int
		}{{"received", n}, {"write_requests", n}, {"failed_writes", n / 2}} {
			if got, ok := e.counter(subjMon, c.name, ""); !ok || got != int64(c.want) {
				mcrt.Fail("%s is %d, expected %d", c.name, got, c.want)
			}
		}
	}
}

// ---------------------------------------------------------------------
// monitor

func longMon(n int) func(int) {
	return func(i int) {
		tick()
		gap := []time.Duration{0, 7 * time.Second}[i%2]
		w := word(i/2, len(monMenu))
		e := setup()
		m := startMonitor(nil)
		waitHTTP(monPort)
		state := map[string]string{}
		for k := 0; k < n; k++ {
			mm := monMenu[w[k%len(w)]]
			e.B.Inject(subjMon, []byte(mm.text))
			state = apply(state, mm)
			if k%5 == 0 {
				// and a series of its own, updated now and then
				x := monMsg{fmt.Sprintf("s{k=\"%d\"} %d", k/5%23, k), map[string]string{fmt.Sprintf("s{k=\"%d\"}", k/5%23): fmt.Sprint(k)}}
				e.B.Inject(subjMon, []byte(x.text))
				state = apply(state, x)
			}
			sleep(gap + time.Millisecond)
			if k%7 == 3 || k == n-1 {
				if got, want := canonScrape(scrape()), monRender(state); got != want {
					mcrt.Fail("after %d messages %v the monitor serves %s, expected %s", k+1, w, short(got), short(want))
				}
			}
		}
		m.Stop()
	}
}

// manyMetrics: pages with many metrics and labels.
func manyMetrics(i int) {
	tick()
	n := manyCounts[i%len(manyCounts)]
	kind := i / len(manyCounts)
	e := setup()
	m := startMonitor(nil)
	waitHTTP(monPort)
	state := map[string]string{}
	for round := 0; round < 2; round++ {
		msg := ""
		for k := 0; k < n; k++ {
			var s string
			switch kind {
			case 0:
				s = fmt.Sprintf("m%d", k)
			case 1:
				s = fmt.Sprintf("m{k=\"%d\"}", k)
			case 2: // one metric with many labels
				if k > 0 || n > 300 {
					continue
				}
				var ls []string
				for x := 0; x < n; x++ {
					ls = append(ls, fmt.Sprintf("l%04d=\"%d\"", x, x))
				}
				s = "m{" + strings.Join(ls, ",") + "}"
			case 3: // long names and values
				if k > 0 {
					continue
				}
				s = strings.Repeat("n", n) + "{" + strings.Repeat("k", n) + "=\"" + strings.Repeat("v", n) + "\"}"
			}
			v := fmt.Sprintf("%d %d", k*(round+1)+round, 1600000000000+int64(round))
			msg += s + " " + v + "\n"
			state[s] = v
			if kind == 1 && k%10 == 9 {
				e.B.Inject(subjMon, []byte(msg))
				msg = ""
			}
		}
		e.B.Inject(subjMon, []byte(msg))
		sleep(time.Millisecond)
		if got, want := canonScrape(scrape()), monRender(state); got != want {
			mcrt.Fail("%d metrics of kind %d: the monitor serves %s, expected %s", n, kind, short(got), short(want))
		}
	}
	m.Stop()
}

// ---------------------------------------------------------------------
// many lives

func manyLives(i int) {
	tick()
	cp := comps[i%len(comps)]
	gap := []time.Duration{0, time.Millisecond, 3 * time.Second, 30 * time.Second}[i/len(comps)]
	e := setup()
	d := e.influx(nil)
	d.timeout = 10 * time.Second
	l := &life{e: e, d: d, c: cp}
	for k := 0; k < 40; k++ {
		stop, err := cp.start(conf(cp.toml))
		if err != nil {
			mcrt.Fail("%s: start %d failed: %v", cp.name, k, err)
		}
		sleep(10 * time.Millisecond)
		if k%3 != 2 {
			cp.feed(l, k)
		}
		sleep(gap)
		t0 := mcrt.NowNanos()
		stop()
		if x := since(t0); x > cp.stopBound {
			mcrt.Fail("%s: Stop %d took %v", cp.name, k, x)
		}
		l.released(fmt.Sprintf("after stop %d", k))
	}
	sleep(time.Hour)
	if lt := mcrt.LiveThreads(); len(lt) > 0 {
		mcrt.Fail("%s: goroutines left after 40 lives: %s", cp.name, strings.Join(lt, ", "))
	}
}

func fixedN(n int) func(bool) int { return func(bool) int { return n } }

func wordsN(mult, k, quick, thorough int) func(bool) int {
	return func(th bool) int { return mult * words(k, thInt(th, quick, thorough)) }
}

func init() {
	bigSteps := mcrt.Opts{CaseSteps: 5000000, MaxSteps: 5000000}
	add := func(prop, name, doc string, n func(bool) int, f func(int)) {
		addScenario(prop, &Scenario{Name: name, Doc: doc, N: n, Case: f, Chunk: 1, Opts: bigSteps})
	}
	add("C01", "long", "150 datagrams repeating every word of up to 1 (thorough 2) of 16 steps (4 shapes x 4 gaps) x 4 limits", longListenerN, longUDP(150, false))
	add("C03", "long-udp", "as C01's long, with the times of the batches", longListenerN, longUDP(150, true))
	add("C02", "long", "150 requests repeating every word of up to 1 (thorough 2) of 16 steps x 4 limits", longListenerN, longHTTP(150, false))
	add("C03", "long-http", "as C02's long, with the times of the batches", longListenerN, longHTTP(150, true))
	add("C02", "many-clients", "4 to 150 clients at the same time, 4 kinds of requests, 4 limits", fixedN(80), manyClients)
	add("C06", "many-rules", "1 to 300 rules of every type around powers of two, lines packed in 3 ways", fixedN(len(ruleCounts)*15), manyRules)
	add("C06", "sizes", "lines of 26 sizes up to 1 MB, by measurement, tag, string, fields, alone and with neighbours", fixedN(len(lineSizes)*10), filterSizes)
	add("C06", "long", "300 messages repeating every word of up to 2 (thorough 3) of 6 messages x 3 gaps", wordsN(3, 6, 2, 3), longFilter(300))
	add("C09", "long", "60 messages, each with all boundaries, repeating every word of up to 2 (thorough 3) of 7 gaps x 4 windows", wordsN(4, 7, 2, 3), longWindow)
	add("C12", "long", "120 messages repeating every word of up to 1 (thorough 2) of 20 steps (5 gaps x 4 timestamps) x 4 periods", wordsN(4, 20, 1, 2), longDS(120))
	add("C12", "many", "1 to 3000 series, fields, lines and subjects around powers of two", fixedN(len(manyCounts)*4), manySeries)
	add("C14", "many-bad-lines", "1 to 3000 rejected lines of every kind in a message and in a row", fixedN(len(manyCounts)*3), manyBad)
	add("C16", "long", "200 messages repeating every word of up to 1 (thorough 2) of 12 steps x 4 limits, with and without rules", longWriterN, longWriter(200))
	add("C17", "long", "60 batches while the answers repeat every word of up to 3 (thorough 4) of 6 x 2 queues x 2 gaps", wordsN(4, 6, 3, 4), longRetry(60))
	add("C18", "large", "queues of 1 to 257 batches, outages of up to four times as many", fixedN(len(queueSizes)*6), bigQueue)
	add("C21", "large-counts", "counts around 2^8 and 2^16", fixedN(21), bigCounts)
	add("C21", "retries", "the writer's counts while the answers repeat every word of up to 3 (thorough 4) of 6", wordsN(4, 6, 3, 4), longRetry(40))
	add("C22", "long", "120 messages repeating every word of up to 2 (thorough 3) of 11, scraped in between", wordsN(2, len(monMenu), 2, 3), longMon(120))
	add("C22", "many", "1 to 3000 metrics, labels and bytes", fixedN(len(manyCounts)*4), manyMetrics)
	add("C24", "many-lives", "40 lives in a row of every component", fixedN(len(comps)*4), manyLives)
}
