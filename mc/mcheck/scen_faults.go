//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/listener"
	"github.com/jumptrading/influx-spout/v2/verifmc/fnats"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mhttp"
)

// ---------------------------------------------------------------------
// C35 a failed publish costs only its own message

// publishFaults makes any publish except on the monitor subject fail.
func publishFaults(e *env, also func(subj string) bool) {
	e.B.PublishErr = func(c *fnats.Conn, subj string, data []byte) error {
		if also(subj) && mcrt.Fault("publish-error", 2) == 1 {
			return errors.New("nats: outbound buffer limit exceeded")
		}
		return nil
	}
}

// attempts explains the publishes on subj: every byte of want is offered
// once, in order; a message that failed may be offered again.  It returns
// the number of failed publishes.
func attempts(e *env, subj, want string) int {
	pos, fails := 0, 0
	retry := ""
	for _, p := range e.B.Log {
		if p.Subj != subj {
			continue
		}
		d := string(p.Data)
		switch {
		case retry != "" && d == retry:
		case strings.HasPrefix(want[pos:], d) && d != "":
			pos += len(d)
			if d[len(d)-1] != '\n' {
				mcrt.Fail("message on %s does not end at a line boundary: %s", subj, short(d))
			}
		default:
			mcrt.Fail("after %d failed publishes %s was offered %s, expected %s next", fails, subj, short(d), short(want[pos:]))
		}
		retry = ""
		if p.Err != nil {
			fails++
			retry = d
		}
	}
	if pos != len(want) {
		mcrt.Fail("%d publishes failed; %d of %d bytes were never offered to %s, starting with %s", fails, len(want)-pos, len(want), subj, short(want[pos:]))
	}
	return fails
}

func expectCounter(e *env, name string, want int) {
	if n, ok := e.counter(subjMon, name, ""); !ok || n != int64(want) {
		mcrt.Fail("%s is %d, expected %d", name, n, want)
	}
}

// faultUDP: batches of several messages, each of which may fail.
func faultUDP() {
	e := setup()
	publishFaults(e, func(s string) bool { return s == subjIn })
	lim := []limits{{1000, 2 * time.Second, "1MB", mb}, {1, 2 * time.Second, "1MB", mb}, {3, 2 * time.Second, "1MB", mb}}[mcrt.Choose("limits", 3)]
	c := udpConf(lim)
	c.StatsInterval = config.NewDuration(time.Second)
	l, err := listener.StartListener(c)
	must(err)
	want := ""
	n, size := 4, 20
	if lim.count == 1000 {
		n, size = 60, 60000
	}
	for i := 0; i < n; i++ {
		d := bigLine(fmt.Sprintf("m%d v=1 ", i), size)
		e.N.UDP(10001).Send([]byte(d))
		want += ensureNL(d)
		if i%20 == 19 {
			sleep(10 * time.Millisecond)
		}
	}
	sleep(6 * time.Second)
	expectCounter(e, "failed_nats_publish", attempts(e, subjIn, want))
	switch lim.count {
	case 1:
		expectCounter(e, "sent", 4)
	case 3:
		expectCounter(e, "sent", 2)
	}
	l.Stop()
}

// faultHTTP: one request that needs several messages, then small ones.
func faultHTTP() {
	e := setup()
	publishFaults(e, func(s string) bool { return s == subjIn })
	lim := limits{[]int{1, 2, 5}[mcrt.Choose("count", 3)], 2 * time.Second, "1MB", mb}
	c := httpConf(lim)
	c.StatsInterval = config.NewDuration(time.Second)
	l, err := listener.StartHTTPListener(c)
	must(err)
	waitHTTP(13337)
	target := []string{"/write", "/write?precision=ms"}[mcrt.Choose("precision", 2)]
	want := ""
	post := func(s string) {
		checkAnswers([]*mhttp.Result{mhttp.Call(13337, "POST", target, pc(s))})
		want += s
	}
	post("first v=1\n")
	var b strings.Builder
	for i := 0; i < 44; i++ {
		b.WriteString(bigLine(fmt.Sprintf("m%d v=1 ", i), 60000) + "\n")
	}
	post(b.String())
	post("last v=1\n")
	sleep(5 * time.Second)
	expectCounter(e, "failed_nats_publish", attempts(e, subjIn, want))
	if lim.count == 1 {
		expectCounter(e, "sent", 3) // batches, however many messages they need
	}
	l.Stop()
}

// faultFilter: several subjects and messages.
func faultFilter() {
	e := setup()
	rules := []config.Rule{{Rtype: "basic", Match: "a", Subject: "out0"}, {Rtype: "basic", Match: "b", Subject: "out1"}, {Rtype: "basic", Match: "c", Subject: "out2"}}
	publishFaults(e, func(s string) bool { return s != subjMon && s != subjIn })
	f := startFilter(e, rules, func(c *config.Config) { c.StatsInterval = config.NewDuration(time.Second) })
	want := map[string]string{}
	for m := 0; m < 2; m++ {
		msg := ""
		for _, h := range []string{"c", "a", "x", "b", "a"} {
			s := fmt.Sprintf("%s v=%d\n", h, m)
			msg += s
			want[map[string]string{"a": "out0", "b": "out1", "c": "out2", "x": subjJunk}[h]] += s
		}
		e.B.Inject(subjIn, []byte(msg))
		sleep(time.Millisecond)
	}
	sleep(3 * time.Second)
	fails := 0
	for _, s := range keysOf(want) {
		fails += attempts(e, s, want[s])
	}
	expectCounter(e, "failed_nats_publish", fails)
	f.Stop()
}

// faultDS: two subjects whose output needs several messages.
func faultDS() {
	e := setup()
	subjects := []string{"in", "two"}
	publishFaults(e, func(s string) bool { return strings.HasSuffix(s, "-archive") })
	d := startDS(func(c *config.Config) {
		c.NATSSubject = subjects
		c.StatsInterval = config.NewDuration(time.Second)
		c.NATSMaxPendingSize = 100 << 20
	})
	sleep(3 * time.Second)
	want := map[string]int{}
	for w := 0; w < 2; w++ {
		for _, s := range subjects {
			for i := 0; i < 24; i++ {
				size := 10
				if w == 0 && s == "in" {
					size = 100000
				}
				e.B.Inject(s, []byte(fmt.Sprintf("%s%d%d,k=%s v=1i\n", s, w, i, strings.Repeat("z", size))))
				want[fmt.Sprintf("%s-archive %s%d%d", s, s, w, i)]++
			}
		}
		sleep(10 * time.Second)
	}
	sleep(30 * time.Second)
	got := map[string]int{}
	fails := 0
	last := map[string]string{}
	for _, p := range e.B.Log {
		if !strings.HasSuffix(p.Subj, "-archive") {
			continue
		}
		if last[p.Subj] != string(p.Data) { // not a repetition of a failed one
			for _, ln := range lines(p.Data) {
				if ln[len(ln)-1] != '\n' {
					mcrt.Fail("message on %s ends with a partial line", p.Subj)
				}
				got[p.Subj+" "+ln[:strings.IndexByte(ln, ',')]]++
			}
		}
		last[p.Subj] = ""
		if p.Err != nil {
			fails++
			last[p.Subj] = string(p.Data)
		}
	}
	for _, k := range keysOf(want) {
		if got[k] != 1 {
			mcrt.Fail("%d publishes failed; series %s was offered %d times", fails, k, got[k])
		}
	}
	if len(got) != len(want) {
		mcrt.Fail("%d series were offered, expected %d", len(got), len(want))
	}
	expectCounter(e, "failed_nats_publish", fails)
	expectCounter(e, "sent", 4) // one per subject and period, failed or not
	d.Stop()
}

// faultStats: publishing the statistics fails; the work of the component
// goes on and later statistics are complete.
func faultStats() {
	e := setup()
	n := 0
	e.B.PublishErr = func(c *fnats.Conn, subj string, data []byte) error {
		if subj == subjMon && n < 12 {
			n++
			if mcrt.Fault("publish-error", 2) == 1 {
				return errors.New("nats: outbound buffer limit exceeded")
			}
		}
		return nil
	}
	d := e.influx(nil)
	stop := func() {}
	counts := map[string]int{}
	var send func(i int)
	check := func() {}
	switch mcrt.Choose("component", 5) {
	case 0:
		c := udpConf(limits{1, time.Second, "1MB", mb})
		c.StatsInterval = config.NewDuration(time.Second)
		l, err := listener.StartListener(c)
		must(err)
		stop = l.Stop
		send = func(i int) { e.N.UDP(10001).Send([]byte(fmt.Sprintf("a v=%d\n", i))) }
		check = func() { attempts(e, subjIn, "a v=0\na v=1\na v=2\n") }
		counts["received"], counts["sent"] = 3, 3
	case 1:
		c := httpConf(limits{1, time.Second, "1MB", mb})
		c.StatsInterval = config.NewDuration(time.Second)
		l, err := listener.StartHTTPListener(c)
		must(err)
		waitHTTP(13337)
		stop = l.Stop
		send = func(i int) {
			checkAnswers([]*mhttp.Result{mhttp.Call(13337, "POST", "/write", pc(fmt.Sprintf("a v=%d\n", i)))})
		}
		check = func() { attempts(e, subjIn, "a v=0\na v=1\na v=2\n") }
		counts["received"], counts["sent"] = 3, 3
	case 2:
		f := startFilter(e, []config.Rule{{Rtype: "basic", Match: "a", Subject: "out0"}}, func(c *config.Config) { c.StatsInterval = config.NewDuration(time.Second) })
		stop = f.Stop
		send = func(i int) { e.B.Inject(subjIn, []byte(fmt.Sprintf("a v=%d\n", i))) }
		check = func() { attempts(e, "out0", "a v=0\na v=1\na v=2\n") }
		counts["processed"], counts["passed"], counts["triggered"], counts["rejected"] = 3, 3, 3, 0
	case 3:
		w := startWriter(limits{count: 1, bytes: 100000, age: time.Second}, func(c *config.Config) { c.StatsInterval = config.NewDuration(time.Second) })
		stop = w.Stop
		send = func(i int) { e.B.Inject("in", []byte(fmt.Sprintf("a v=%d\n", i))) }
		check = func() {
			if got := strings.Join(d.bodies(), ""); got != "a v=0\na v=1\na v=2\n" {
				mcrt.Fail("InfluxDB received %q", got)
			}
		}
		counts["received"], counts["write_requests"] = 3, 3
	case 4:
		ds := startDS(func(c *config.Config) { c.StatsInterval = config.NewDuration(time.Second) })
		stop = ds.Stop
		send = func(i int) { e.B.Inject("in", []byte("a v=2\n")) }
		check = func() {
			if o := e.dsOutput("in-archive"); len(o) != 1 || o[0].head != "a" || o[0].fields != "v=2" {
				mcrt.Fail("the downsampler emitted %v", o)
			}
		}
		counts["received"], counts["sent"] = 3, 1
	}
	for i := 0; i < 3; i++ {
		send(i)
		sleep(1300 * time.Millisecond)
	}
	sleep(30 * time.Second)
	check()
	for _, k := range keysOf(counts) {
		expectCounter(e, k, counts[k])
	}
	stop()
}

func init() {
	addScenario("C35",
		&Scenario{Name: "udp", Doc: "datagram batches of 1 to 4 messages, every message may fail", Quick: Bounds{Fault: 3}, Thorough: Bounds{Sched: 1, Fault: 4}, Body: faultUDP},
		&Scenario{Name: "http", Doc: "a body of 3 messages between small ones, every message may fail", Quick: Bounds{Fault: 3}, Thorough: Bounds{Sched: 1, Fault: 4}, Body: faultHTTP},
		&Scenario{Name: "filter", Doc: "2 messages for 3 rules and the junk subject, every publish may fail", Quick: Bounds{Sched: 1, Fault: 3}, Thorough: Bounds{Sched: 2, Fault: 8}, Body: faultFilter},
		&Scenario{Name: "downsampler", Doc: "2 subjects, 2 periods, output of 1 and 3 messages, every publish may fail", Quick: Bounds{Fault: 3}, Thorough: Bounds{Sched: 1, Fault: 5}, Body: faultDS},
		&Scenario{Name: "statistics", Doc: "publishing the statistics fails at any point, 5 components", Quick: Bounds{Sched: 1, Fault: 2}, Thorough: Bounds{Sched: 2, Fault: 4}, Weight: 2, Body: faultStats},
	)
	addScenario("C21",
		&Scenario{Name: "udp-faults", Doc: "publish failures of batches of 1 to 4 messages: failed and sent counts", Quick: Bounds{Fault: 2}, Thorough: Bounds{Sched: 1, Fault: 4}, Body: faultUDP},
		&Scenario{Name: "http-faults", Doc: "publish failures of a body of 3 messages between small ones: failed and sent counts", Quick: Bounds{Fault: 2}, Thorough: Bounds{Sched: 1, Fault: 4}, Body: faultHTTP},
		&Scenario{Name: "downsampler-faults", Doc: "publish failures of output of 1 and 3 messages: failed and sent counts", Quick: Bounds{Fault: 2}, Thorough: Bounds{Sched: 1, Fault: 4}, Body: faultDS},
	)
}
