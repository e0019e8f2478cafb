//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/listener"

	"github.com/jumptrading/influx-spout/v2/verifmc/fnats"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mhttp"
)

// A component is held up by one slow operation while many messages wait
// (more than any internal queue takes).  All of them are processed
// afterwards.

var backlogStalls = []time.Duration{300 * time.Millisecond, 1500 * time.Millisecond, 6 * time.Second, 70 * time.Second, time.Hour}
var backlogCounts = []int{1, 100, 1023, 1024, 1025, 1026, 1027, 2500}

func backlogN(bool) int { return len(backlogStalls) * len(backlogCounts) * 4 }

type backlogCase struct {
	stall time.Duration
	n     int
	at    int // the operation that stalls
	two   bool
}

func backlogOf(i int) backlogCase {
	c := backlogCase{stall: backlogStalls[i%len(backlogStalls)]}
	i /= len(backlogStalls)
	c.n = backlogCounts[i%len(backlogCounts)]
	i /= len(backlogCounts)
	c.at = []int{0, 3}[i%2]
	c.two = i/2 == 1
	return c
}

// stallPublish makes the at'th publish to a subject that is not the
// monitor's take long.
func stallPublish(e *env, c backlogCase, subj string) {
	n := 0
	e.B.PublishErr = func(_ *fnats.Conn, s string, _ []byte) error {
		if s == subj {
			n++
			if n == c.at+1 {
				mcrt.SleepNanos(int64(c.stall))
			}
		}
		return nil
	}
}

// checkLines: every message came out once, in order if it has to be.
func backlogLines(what, got string, c backlogCase, ordered bool) {
	seen := map[string]int{}
	for k, l := range strings.SplitAfter(got, "\n") {
		if l == "" {
			continue
		}
		seen[l]++
		if ordered && l != fmt.Sprintf("a v=%d\n", k) {
			mcrt.Fail("%s held up for %v with %d messages: line %d is %q", what, c.stall, c.n, k, l)
		}
	}
	for k := 0; k < c.n; k++ {
		if n := seen[fmt.Sprintf("a v=%d\n", k)]; n != 1 {
			mcrt.Fail("%s held up for %v with %d messages: message %d was delivered %d times", what, c.stall, c.n, k, n)
		}
	}
	if len(seen) != c.n {
		mcrt.Fail("%s held up for %v with %d messages: %d different lines were delivered", what, c.stall, c.n, len(seen))
	}
}

// backlogFilter: publishing blocks.
func backlogFilter(i int) {
	tick()
	c := backlogOf(i)
	e := setup()
	stallPublish(e, c, "out0")
	startFilter(e, []config.Rule{{Rtype: "basic", Match: "a", Subject: "out0"}}, func(cf *config.Config) {
		cf.StatsInterval = config.NewDuration(time.Second)
		cf.Workers = 1
		if c.two {
			cf.Workers = 2
		}
	})
	for k := 0; k < c.n; k++ {
		e.B.Inject(subjIn, []byte(fmt.Sprintf("a v=%d\n", k)))
		if k%100 == 99 {
			sleep(10 * time.Millisecond)
		}
	}
	sleep(c.stall + 5*time.Second)
	backlogLines("filter", string(join(e.published("out0"))), c, !c.two)
	for _, name := range []string{"processed", "passed", "triggered"} {
		expectCounter(e, name, c.n)
	}
	expectCounter(e, "nats_dropped", 0)
}

// backlogWriter: a request to InfluxDB takes long; all of them within the
// time a request may take.
func backlogWriter(i int) {
	tick()
	c := backlogOf(i)
	e := setup()
	n := 0
	d := e.influx(func(int, *mhttp.Request) mhttp.Response {
		n++
		if n == c.at+1 {
			return mhttp.Response{Status: 204, Delay: c.stall}
		}
		return mhttp.Response{Status: 204}
	})
	d.timeout = 2 * time.Hour
	count := 1
	if c.two {
		count = 7
	}
	startWriter(limits{count: count, bytes: 100000, age: time.Second}, func(cf *config.Config) {
		cf.StatsInterval = config.NewDuration(time.Second)
		cf.Workers = 1
		cf.WriteTimeout = config.NewDuration(2 * time.Hour)
	})
	for k := 0; k < c.n; k++ {
		e.B.Inject("in", []byte(fmt.Sprintf("a v=%d\n", k)))
		if k%100 == 99 {
			sleep(10 * time.Millisecond)
		}
	}
	sleep(c.stall + 5*time.Second)
	backlogLines("writer", strings.Join(d.bodies(), ""), c, true)
	expectCounter(e, "received", c.n)
	expectCounter(e, "nats_dropped", 0)
}

// backlogListener: publishing blocks while datagrams or requests come in.
func backlogUDP(i int) {
	tick()
	c := backlogOf(i)
	e := setup()
	stallPublish(e, c, subjIn)
	count := 1
	if c.two {
		count = 7
	}
	cf := udpConf(limits{count, time.Second, "1MB", mb})
	cf.StatsInterval = config.NewDuration(time.Second)
	_, err := listener.StartListener(cf)
	must(err)
	for k := 0; k < c.n; k++ {
		e.N.UDP(10001).Send([]byte(fmt.Sprintf("a v=%d\n", k)))
		if k%100 == 99 {
			sleep(10 * time.Millisecond)
		}
	}
	sleep(c.stall + 5*time.Second)
	backlogLines("UDP listener", string(join(e.published(subjIn))), c, true)
	expectCounter(e, "received", c.n)
}

func backlogHTTP(i int) {
	tick()
	c := backlogOf(i)
	if c.n > 1024 {
		c.n = 1024 // every request has its own goroutine
	}
	e := setup()
	stallPublish(e, c, subjIn)
	count := 1
	if c.two {
		count = 7
	}
	cf := httpConf(limits{count, time.Second, "1MB", mb})
	cf.StatsInterval = config.NewDuration(time.Second)
	_, err := listener.StartHTTPListener(cf)
	must(err)
	waitHTTP(13337)
	var rs []*mhttp.Result
	for k := 0; k < c.n; k++ {
		rs = append(rs, mhttp.CallAsync("client", 13337, "POST", "/write", pc(fmt.Sprintf("a v=%d\n", k))))
		if k%100 == 99 {
			sleep(10 * time.Millisecond)
		}
	}
	sleep(c.stall + 5*time.Second)
	checkAnswers(rs)
	backlogLines("HTTP listener", string(join(e.published(subjIn))), c, false)
	expectCounter(e, "received", c.n)
}

// backlogDS: publishing the output blocks for part of a period while the
// lines of the running period arrive.
func backlogDS(i int) {
	tick()
	c := backlogOf(i)
	c.stall /= 2 // 150 ms to 3 s of a period of 10 s
	if c.stall > 7*time.Second {
		c.stall = 7 * time.Second
	}
	e := setup()
	stallPublish(e, backlogCase{stall: c.stall}, "in-archive")
	startDS(func(cf *config.Config) {
		cf.StatsInterval = config.NewDuration(time.Second)
		if c.two {
			cf.NATSSubject = []string{"in", "two"}
		}
	})
	sleep(3 * time.Second)
	e.B.Inject("in", []byte("first v=1i\n"))
	sleep(17*time.Second + time.Millisecond) // the output of the first period is being published
	sum := 0
	for k := 0; k < c.n; k++ {
		v := k * (1 + c.at)
		sum += v
		e.B.Inject("in", []byte(fmt.Sprintf("a v=%di\n", v)))
	}
	sleep(50 * time.Second)
	var got []outLine
	for _, o := range e.dsOutput("in-archive") {
		if o.head == "a" {
			got = append(got, o)
		}
	}
	if len(got) != 1 || got[0].fields != fmt.Sprintf("v=%di", sum/c.n) {
		mcrt.Fail("downsampler held up for %v with %d messages: emitted %v, expected a mean of %d", c.stall, c.n, got, sum/c.n)
	}
	expectCounter(e, "received", c.n+1)
	expectCounter(e, "nats_dropped", 0)
}

// udpErrorStream: reading keeps failing while datagrams come in and wait to
// be sent.
var errorGaps = []time.Duration{50 * time.Millisecond, 300 * time.Millisecond, 990 * time.Millisecond, time.Second, 1700 * time.Millisecond}
var errorKinds = []error{os.NewSyscallError("recvfrom", syscall.ECONNREFUSED), os.NewSyscallError("recvfrom", syscall.ENOBUFS), os.NewSyscallError("recvfrom", syscall.EINTR), errors.New("boom")}

func udpErrorN(bool) int { return len(errorGaps) * len(errorKinds) * len(seqGaps) * len(errorLimits) }

var seqGaps = [][]time.Duration{{0}, {700 * time.Millisecond}, {2300 * time.Millisecond}, {0, 0, 3 * time.Second}, {10 * time.Millisecond, 5 * time.Second}}
var errorLimits = []limits{{1000, 2 * time.Second, "1MB", mb}, {3, 2 * time.Second, "1MB", mb}, {1, 2 * time.Second, "1MB", mb}, {1000, 500 * time.Millisecond, "1MB", mb}, {1000, 5 * time.Second, "1MB", mb}}

func udpErrorStream(i int) {
	tick()
	gap := errorGaps[i%len(errorGaps)]
	i /= len(errorGaps)
	kind := errorKinds[i%len(errorKinds)]
	i /= len(errorKinds)
	gaps := seqGaps[i%len(seqGaps)]
	lim := errorLimits[i/len(seqGaps)]
	e := setup()
	c := udpConf(lim)
	c.StatsInterval = config.NewDuration(time.Second)
	_, err := listener.StartListener(c)
	must(err)
	n := 0
	stop := false
	mcrt.GoNamed("errors", func() {
		for !stop {
			e.N.UDP(10001).SendErr(kind)
			n++
			sleep(gap)
		}
	})
	var arr []arrival
	for k := 0; k < 10; k++ {
		d := fmt.Sprintf("u%d v=1", k)
		e.N.UDP(10001).Send([]byte(d))
		arr = append(arr, arrival{mcrt.NowNanos(), ensureNL(d), 1})
		sleep(gaps[k%len(gaps)])
	}
	sleep(lim.age + 2500*time.Millisecond)
	batchOracle(e, lim, arr, time.Second, 65536)
	stop = true
	sleep(4 * time.Second)
	expectCounter(e, "received", 10)
	expectCounter(e, "read_errors", n)
}

// writerLarge: batches of many megabytes.
var largeMax = []struct {
	text  string
	bytes int
}{{"1MB", mb}, {"1500KB", 1500 * 1024}, {"5MB", 5 * mb}, {"10MB", 10 * mb}, {"16MB", 16 * mb}}
var largeSizes = [][]int{{mb}, {mb - 1}, {mb, 1, mb}, {700001}, {65536, 131072, 1000}, {300000, mb, 10}}

func writerLargeN(bool) int { return len(largeMax) * len(largeSizes) * 6 }

func writerLarge(i int) {
	tick()
	max := largeMax[i%len(largeMax)]
	i /= len(largeMax)
	sizes := largeSizes[i%len(largeSizes)]
	i /= len(largeSizes)
	refuse, rules := i%3, i/3 == 1
	e := setup()
	d := e.influx(func(n int, r *mhttp.Request) mhttp.Response {
		if n < refuse {
			return mhttp.Response{Status: 503}
		}
		return mhttp.Response{Status: 204}
	})
	startWriter(limits{count: 100000, bytes: max.bytes, age: 2 * time.Second}, func(cf *config.Config) {
		cf.WriterRetryBatches = 5
		cf.WriterRetryInterval = config.NewDuration(3 * time.Second)
		cf.NATSMaxPendingSize = 1 << 30
		if rules {
			cf.Rule = []config.Rule{{Rtype: "regex", Match: "^m"}}
		}
	})
	want := map[string]int{} // the starts of the lines and their lengths
	total, k := 0, 0
	for total < max.bytes+max.bytes/2 {
		n := sizes[k%len(sizes)]
		var msg []byte
		for len(msg) < n {
			// lines of up to 100 kB
			l := n - len(msg)
			if l > 100000 && l < 100100 {
				l = 50000
			} else if l > 100000 {
				l = 100000
			}
			head := fmt.Sprintf("m%d_%d v=1", k, len(msg))
			if l <= len(head) {
				l = len(head) + 1
			}
			want[head] = l
			msg = append(msg, head...)
			for len(msg) > 0 && l > len(head)+1 {
				msg = append(msg, '0')
				l--
			}
			msg = append(msg, '\n')
		}
		total += len(msg)
		k++
		e.B.Inject("in", msg)
		sleep(time.Millisecond)
	}
	sleep(30 * time.Second)
	got := map[string]int{}
	for n, q := range d.reqs {
		if len(q.Body) > max.bytes {
			mcrt.Fail("request %d has %d bytes, batch_max_size is %s", n, len(q.Body), max.text)
		}
		if !q.ok() {
			continue
		}
		for _, l := range lines(q.Body) {
			a := strings.Index(l, " v=1")
			if a < 0 || l[len(l)-1] != '\n' {
				mcrt.Fail("batch_max_size %s: request %d contains the line %s", max.text, n, short(l))
			}
			head := l[:a+4]
			if got[head] != 0 || want[head] != len(l) {
				mcrt.Fail("batch_max_size %s: line %q was written with %d bytes, expected %d bytes once", max.text, head, len(l), want[head])
			}
			got[head] = len(l)
		}
	}
	for _, h := range keysOf(want) {
		if got[h] == 0 {
			mcrt.Fail("batch_max_size %s: line %q was never written", max.text, h)
		}
	}
}

func init() {
	addScenario("C16", &Scenario{Name: "large", Doc: "batches of 1 to 16 MB from 6 patterns of messages up to 1 MB, with 0 to 2 refused requests, with and without rules", Opts: mcrt.Opts{CaseSteps: 5000000, MaxSteps: 5000000}, N: writerLargeN, Case: writerLarge, Chunk: 1})
	opts := mcrt.Opts{CaseSteps: 5000000, MaxSteps: 5000000}
	const doc = "held up for 0.3 s to an hour with up to 2500 messages waiting"
	add := func(prop, name, doc string, f func(int)) {
		addScenario(prop, &Scenario{Name: name, Doc: doc, Opts: opts, N: backlogN, Case: f, Chunk: 1})
	}
	add("C11", "backlog", "filter "+doc, backlogFilter)
	add("C16", "backlog", "writer "+doc, backlogWriter)
	add("C01", "backlog", "UDP listener "+doc, backlogUDP)
	add("C02", "backlog", "HTTP listener held up for 0.3 s to an hour with up to 1024 requests waiting", backlogHTTP)
	for _, prop := range []string{"C01", "C03"} {
		addScenario(prop, &Scenario{Name: "error-stream", Doc: "10 datagrams in 5 rhythms while reads fail every 0.05 to 1.7 s with 4 kinds of errors, 5 limits", N: udpErrorN, Case: udpErrorStream, Chunk: 1})
	}
	add("C12", "backlog", "downsampler held up for up to 7 s with up to 2500 messages waiting", backlogDS)
}
