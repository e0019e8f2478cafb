//go:build go1.21

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"strings"
	"syscall"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mhttp"
	"github.com/jumptrading/influx-spout/v2/writer"
)

const wrToml = "mode=\"writer\"\nname=\"wr\"\nnats_subject=[\"in\"]\ninfluxdb_address=\"db1\"\ninfluxdb_dbname=\"metrics\"\nworkers=1\nstats_interval=\"100h\"\n"

// dbReq is one request that reached the modelled InfluxDB.
type dbReq struct {
	mhttp.Request
	resp mhttp.Response
	end  int64 // when the client got its answer (or gave up)
}

// db is the modelled InfluxDB.
type db struct {
	reqs    []*dbReq
	timeout time.Duration
	// answer decides the response (default 204).
	answer func(n int, r *mhttp.Request) mhttp.Response
}

var errRefused = errors.New("dial tcp: connection refused")

func (e *env) influx(answer func(n int, r *mhttp.Request) mhttp.Response) *db {
	d := &db{answer: answer, timeout: 30 * time.Second}
	e.H.Do = func(r *mhttp.Request) mhttp.Response {
		resp := mhttp.Response{Status: 204}
		if d.answer != nil {
			resp = d.answer(len(d.reqs), r)
		}
		q := &dbReq{Request: *r, resp: resp}
		dl := resp.Delay
		if d.timeout > 0 && dl > d.timeout {
			dl = d.timeout
			q.resp = mhttp.Response{Err: errors.New("timeout")}
		}
		q.end = r.At + int64(dl)
		d.reqs = append(d.reqs, q)
		return resp
	}
	return d
}

func (q *dbReq) ok() bool { return q.resp.Err == nil && q.resp.Status >= 200 && q.resp.Status < 300 }
func (q *dbReq) permanent() bool {
	return q.resp.Err == nil && q.resp.Status >= 400 && q.resp.Status < 500
}

// bodies returns the bodies of the requests InfluxDB accepted.
func (d *db) bodies() []string {
	var out []string
	for _, q := range d.reqs {
		if q.ok() {
			out = append(out, string(q.Body))
		}
	}
	return out
}

func startWriter(lim limits, mod func(*config.Config)) *writer.Writer {
	c := conf(wrToml)
	c.BatchMaxCount = lim.count
	c.BatchMaxSize = datasize.ByteSize(lim.bytes)
	c.BatchMaxAge = config.NewDuration(lim.age)
	if mod != nil {
		mod(c)
	}
	must(c.Validate())
	w, err := writer.StartWriter(c)
	must(err)
	return w
}

// ---------------------------------------------------------------------
// C16 delivery and batching

// writerOracle checks what one worker wrote: content, chunking, limits.
func writerOracle(d *db, lim limits, arr []arrival, busy bool) {
	want := ""
	for _, a := range arr {
		want += a.data
	}
	got := ""
	off := 0 // bytes explained so far
	i := 0   // next arrival
	used := 0
	bytesUpTo := func(k int) int {
		n := 0
		for x := 0; x < k; x++ {
			n += len(arr[x].data)
		}
		return n
	}
	_ = used
	for k := 0; k < len(d.reqs); k++ {
		q := d.reqs[k]
		if !q.ok() {
			mcrt.Fail("unexpected request outcome %v", q.resp)
		}
		if len(q.Body) == 0 {
			mcrt.Fail("writer sent an empty write request")
		}
		if len(q.Body) > lim.bytes {
			mcrt.Fail("write request body has %d bytes, batch_max_size is %d", len(q.Body), lim.bytes)
		}
		got += string(q.Body)
		if len(got) > len(want) || got != want[:len(got)] {
			mcrt.Fail("InfluxDB received %s which is not a prefix of the messages %s", short(got), short(want))
		}
		if len(got) < len(want) && q.Body[len(q.Body)-1] != '\n' && strings.Contains(string(q.Body), "\n") {
			mcrt.Fail("write request body ends inside a line: %s", short(string(q.Body)))
		}
	}
	if got != want {
		mcrt.Fail("InfluxDB received %s, messages were %s", short(got), short(want))
	}
	// timing: group the requests of one flush
	for k := 0; k < len(d.reqs); {
		j := k
		size := 0
		last := d.reqs[k]
		for j < len(d.reqs) && (j == k || !busy && d.reqs[j].At == last.At) {
			size += len(d.reqs[j].Body)
			last = d.reqs[j]
			j++
		}
		first := i
		end := off + size
		for i < len(arr) && bytesUpTo(i+1) <= end {
			i++
		}
		if bytesUpTo(i) != end {
			mcrt.Fail("flush ends inside message %d", i)
		}
		if first == i {
			mcrt.Fail("flush without a message")
		}
		at := d.reqs[k].At
		age := time.Duration(at - arr[first].at)
		cnt := 0
		for x := first; x < i; x++ {
			if arr[x].at > at {
				mcrt.Fail("message written before it arrived")
			}
			cnt += arr[x].writes
		}
		full := cnt >= lim.count || size >= lim.bytes
		if age > lim.age+time.Second && !busy {
			mcrt.Fail("oldest message of the batch waited %v, batch_max_age is %v", age, lim.age)
		}
		if !full && age < lim.age {
			mcrt.Fail("batch written before any limit was reached: %d messages of %d, %d bytes of %d, age %v of %v", cnt, lim.count, size, lim.bytes, age, lim.age)
		}
		if !busy {
			// the limit must not have been reached by an earlier message
			c, s := 0, 0
			for x := first; x < i; x++ {
				c += arr[x].writes
				s += len(arr[x].data)
				if (c >= lim.count || s >= lim.bytes) && arr[x].at < at {
					mcrt.Fail("full batch (%d messages of %d, %d bytes of %d) written %v late", c, lim.count, s, lim.bytes, time.Duration(at-arr[x].at))
				}
			}
		}
		off = end
		k = j
	}
}

func writerBatching(nmsg int) func() {
	return func() {
		e := setup()
		ls := []limits{{1, 5 * time.Second, "", 1000}, {2, 5 * time.Second, "", 1000}, {3, 1500 * time.Millisecond, "", 1000},
			{100, 2500 * time.Millisecond, "", 1000}, {100, 5 * time.Second, "", 30}, {100, 4 * time.Second, "", 24}, {2, 3 * time.Second, "", 11}}
		lim := ls[mcrt.Choose("limits", len(ls))]
		d := e.influx(nil)
		w := startWriter(lim, nil)
		sleep(100 * time.Millisecond)
		gaps := []time.Duration{0, 400 * time.Millisecond, 1300 * time.Millisecond, 3100 * time.Millisecond}
		var arr []arrival
		for i := 0; i < nmsg; i++ {
			if i > 0 {
				sleep(gaps[mcrt.Choose("gap", len(gaps))])
			}
			m := ""
			switch mcrt.Choose("msg", 3) {
			case 0:
				m = fmt.Sprintf("m%d,t=a v=%d\n", i, i)
			case 1:
				m = fmt.Sprintf("m%d v=1\nn%d v=2\nlonglonglong%d v=3\n", i, i, i)
			case 2:
				m = fmt.Sprintf("m%d v=%d\n", i, i)
			}
			e.B.Inject("in", []byte(m))
			arr = append(arr, arrival{mcrt.NowNanos(), m, 1})
		}
		sleep(lim.age + 3*time.Second)
		writerOracle(d, lim, arr, false)
		w.Stop()
		writerOracle(d, lim, arr, false)
	}
}

// checkWhole checks that the accepted bodies contain every message exactly
// once and in one piece (message contents are unique).
func checkWhole(bodies []string, msgs []string) {
	all := strings.Join(bodies, "")
	n := 0
	for _, m := range msgs {
		c := strings.Count(all, m)
		if c != 1 {
			mcrt.Fail("message %s was written %d times; bodies: %q", short(m), c, bodies)
		}
		n += len(m)
	}
	if n != len(all) {
		mcrt.Fail("bodies contain %d bytes, messages %d: %q", len(all), n, bodies)
	}
}

func writerWorkers(nw, nmsg int, delays []time.Duration, group bool) func() {
	return func() {
		e := setup()
		lim := limits{2, 1500 * time.Millisecond, "", 1000}
		d := e.influx(func(n int, r *mhttp.Request) mhttp.Response {
			return mhttp.Response{Status: 204, Delay: delays[mcrt.Choose("delay", len(delays))]}
		})
		if group {
			e.B.QueuePick = func(n int) int { return mcrt.Choose("member", n) }
		}
		mod := func(c *config.Config) {
			c.Workers = nw
			c.NATSSubject = []string{"in", "in2"}
			if group {
				c.QueueGroup = "g"
			}
		}
		startWriter(lim, mod)
		if group {
			startWriter(lim, mod)
		}
		sleep(100 * time.Millisecond)
		var msgs []string
		for i := 0; i < nmsg; i++ {
			m := fmt.Sprintf("m%d v=%d\n", i, i)
			e.B.Inject([]string{"in", "in2"}[i%2], []byte(m))
			msgs = append(msgs, m)
			if i == nmsg/2 {
				sleep(300 * time.Millisecond)
			}
		}
		sleep(lim.age + 20*time.Second)
		checkWhole(d.bodies(), msgs)
		for _, q := range d.reqs {
			mcrt.Observe("%q", q.Body)
		}
	}
}

// writerSplit: every cut of message sizes around the maximum body size.
func writerSplit() {
	e := setup()
	max := 8
	lim := limits{2, 1500 * time.Millisecond, "", max}
	d := e.influx(nil)
	startWriter(lim, nil)
	var arr []arrival
	for i := 0; i < 2; i++ {
		// messages made of up to three lines of length 1..5 or 9
		m := ""
		for k := 0; k < 3; k++ {
			n := []int{0, 1, 2, 5, 8, 9, 17}[mcrt.Choose("len", 7)]
			if n > 0 {
				m += bigLine(string(rune('a'+i*3+k)), n-1) + "\n"
			}
		}
		if m == "" {
			m = "\n"
		}
		e.B.Inject("in", []byte(m))
		arr = append(arr, arrival{mcrt.NowNanos(), m, 1})
	}
	sleep(lim.age + 2*time.Second)
	got := ""
	want := arr[0].data + arr[1].data
	for _, q := range d.reqs {
		if len(q.Body) == 0 || len(q.Body) > max {
			mcrt.Fail("write request body has %d bytes, batch_max_size is %d (messages %q)", len(q.Body), max, want)
		}
		got += string(q.Body)
		if !strings.HasPrefix(want, got) {
			mcrt.Fail("InfluxDB received %q, messages were %q", got, want)
		}
		if q.Body[len(q.Body)-1] != '\n' {
			// only inside a line that does not fit
			ls := strings.LastIndexByte(got, '\n') + 1
			le := len(got) + strings.IndexByte(want[len(got):], '\n') + 1
			if le-ls <= max {
				mcrt.Fail("line %q was cut in two although it fits a request of %d bytes", want[ls:le], max)
			}
		}
	}
	if got != want {
		mcrt.Fail("InfluxDB received %q, messages were %q", got, want)
	}
}

// writerSlow: messages keep arriving while a write is in progress.
func writerSlow() {
	e := setup()
	lim := limits{2, 2 * time.Second, "", 1000}
	delays := []time.Duration{0, 900 * time.Millisecond, 4 * time.Second}
	d := e.influx(func(n int, r *mhttp.Request) mhttp.Response {
		return mhttp.Response{Status: 204, Delay: delays[mcrt.Choose("delay", 3)]}
	})
	startWriter(lim, nil)
	sleep(100 * time.Millisecond)
	var arr []arrival
	for i := 0; i < 5; i++ {
		m := fmt.Sprintf("m%d v=%d\n", i, i)
		e.B.Inject("in", []byte(m))
		arr = append(arr, arrival{mcrt.NowNanos(), m, 1})
		sleep([]time.Duration{0, 700 * time.Millisecond}[mcrt.Choose("gap", 2)])
	}
	sleep(lim.age + 30*time.Second)
	writerOracle(d, lim, arr, true)
}

// ---------------------------------------------------------------------
// C17, C18 retries

type retryCfg struct {
	batches  int
	interval time.Duration
	timeout  time.Duration
	workers  int
}

// retryOracle follows the life of every batch through the request log.
// writerRepeated: messages that are equal are separate data: each is
// written, whatever became of the others.
func writerRepeatedN(th bool) int { return 4 * 16 * 81 }

func writerRepeated(k int) {
	retries, rules := k%2 == 1, k/2%2 == 1
	k /= 4
	e := setup()
	answers := []mhttp.Response{{Status: 204}, {Status: 400}, {Status: 404}}
	if !retries {
		answers[2] = mhttp.Response{Status: 503}
	}
	kinds, answer := k%16, k/16
	pow := []int{1, 3, 9, 27}
	d := e.influx(func(n int, r *mhttp.Request) mhttp.Response {
		if n < 4 {
			return answers[answer/pow[n]%3]
		}
		return mhttp.Response{Status: 204}
	})
	startWriter(limits{count: 1, bytes: 100000, age: time.Second}, func(c *config.Config) {
		c.WriterRetryBatches = 0
		if retries {
			c.WriterRetryBatches = 4
			c.WriterRetryInterval = config.NewDuration(time.Second)
			c.WriterRetryTimeout = config.NewDuration(time.Hour)
		}
		if rules {
			c.Rule = []config.Rule{{Rtype: "regex", Match: "^[ab]"}}
		}
	})
	var want []string
	for i := 0; i < 5; i++ {
		m := "a v=1\n"
		if i > 0 && kinds>>uint(i-1)&1 == 1 {
			m = "b v=1\n"
		}
		want = append(want, m)
		e.B.Inject("in", []byte(m))
		sleep(10 * time.Millisecond)
	}
	sleep(10 * time.Second)
	var got []string
	for _, q := range d.reqs {
		got = append(got, string(q.Body))
	}
	if !reflect.DeepEqual(got, want) {
		mcrt.Fail("messages %q, written %q", want, got)
	}
}

func retryOracle(d *db, cfg retryCfg, msgs []string, horizon int64) {
	type pend struct {
		body     string
		queued   int64 // retry deadline counts from here
		pos      int64 // since when it has its place in the queue
		attempts []int64
		ends     []int64
		dropped  bool
		dropAt   int64
		done     bool
		doneAt   int64
		perm     bool
		seen     bool
	}
	bs := map[string]*pend{}
	var order []*pend
	slack := int64(0)
	for _, q := range d.reqs {
		if q.end-q.At > slack {
			slack = q.end - q.At
		}
	}
	lastRetryEnd := int64(-1)
	var retries, ends []int64
	inflight := 0       // retry requests under way
	var waiting []*pend // failed while a retry was under way
	// events in time order: requests are logged in start order
	type ev struct {
		at    int64
		end   bool
		q     *dbReq
		p     *pend
		first bool
	}
	live := func(now int64) []*pend {
		var l []*pend
		for _, p := range order {
			if p.queued != 0 && !p.done && !p.dropped && now <= p.queued+int64(cfg.timeout) {
				k := len(l)
				for k > 0 && l[k-1].queued > p.queued {
					k--
				}
				l = append(l, nil)
				copy(l[k+1:], l[k:])
				l[k] = p
			}
		}
		return l
	}
	var evs []ev
	for _, q := range d.reqs {
		p := bs[string(q.Body)]
		first := p == nil
		if first {
			p = &pend{body: string(q.Body)}
			bs[p.body] = p
			order = append(order, p)
		}
		s := ev{q.At, false, q, p, first}
		f := ev{q.end, true, q, p, first}
		// insertion sort by time; an end comes before a later start
		ins := func(x ev) {
			k := len(evs)
			for k > 0 && evs[k-1].at > x.at {
				k--
			}
			evs = append(evs, ev{})
			copy(evs[k+1:], evs[k:])
			evs[k] = x
		}
		ins(s)
		ins(f)
	}
	known := map[string]bool{}
	for _, m := range msgs {
		known[m] = true
	}
	for _, x := range evs {
		p := x.p
		switch {
		case !x.end && x.first:
			if !known[p.body] {
				mcrt.Fail("request body %q is not what was batched", p.body)
			}
		case !x.end:
			// a retry
			if p.done {
				if p.perm {
					mcrt.Fail("batch %q was retried after InfluxDB permanently refused it", p.body)
				}
				mcrt.Fail("batch %q was written again %v after it was accepted", p.body, time.Duration(x.at-p.doneAt))
			}
			if cfg.batches == 0 {
				mcrt.Fail("batch %q was retried although retries are disabled", p.body)
			}
			if p.dropped {
				mcrt.Fail("batch %q was retried although newer batches had taken its place", p.body)
			}
			if x.at > p.queued+int64(cfg.timeout)+slack {
				mcrt.Fail("batch %q was retried %v after it failed, writer_retry_timeout is %v", p.body, time.Duration(x.at-p.queued), cfg.timeout)
			}
			if cfg.workers == 1 && lastRetryEnd >= 0 && x.at < lastRetryEnd+int64(cfg.interval) {
				mcrt.Fail("retry of %q only %v after the previous retry, writer_retry_interval is %v", p.body, time.Duration(x.at-lastRetryEnd), cfg.interval)
			}
			if cfg.workers == 1 {
				for _, o := range live(x.at) {
					if o != p && o.pos < p.pos {
						mcrt.Fail("batch %q was retried %v after it was queued or last tried, although batch %q had been waiting for %v", p.body, time.Duration(x.at-p.pos), o.body, time.Duration(x.at-o.pos))
					}
				}
			}
			p.attempts = append(p.attempts, x.at)
			retries = append(retries, x.at)
			inflight++
		case x.end:
			if !x.first {
				lastRetryEnd = x.at
				inflight--
				p.pos = x.at
				p.ends = append(p.ends, x.at)
				ends = append(ends, x.at)
			}
			switch {
			case x.q.ok():
				p.done, p.doneAt = true, x.at
			case x.q.permanent():
				p.done, p.doneAt, p.perm = true, x.at, true
			case x.first && cfg.batches > 0:
				waiting = append(waiting, p)
			}
			for inflight == 0 && len(waiting) > 0 {
				if l := live(x.at); len(l) >= cfg.batches && cfg.workers == 1 {
					l[0].dropped, l[0].dropAt = true, x.at
				}
				waiting[0].queued, waiting[0].pos = x.at, x.at
				waiting = waiting[1:]
			}
		}
	}
	for _, m := range msgs {
		if bs[m] == nil {
			mcrt.Fail("batch %q was never written", m)
		}
	}
	// progress: whenever batches wait for a retry, a retry happens every
	// interval and every waiting batch gets its turn.
	if cfg.batches == 0 {
		return
	}
	for _, p := range order {
		if p.queued == 0 {
			continue
		}
		until := p.queued + int64(cfg.timeout)
		if p.done && p.doneAt < until {
			until = p.doneAt
		}
		if p.dropped && p.dropAt < until {
			until = p.dropAt
		}
		if until > horizon {
			until = horizon
		}
		turn := int64(cfg.batches)*(int64(cfg.interval)+slack) + slack
		last := p.queued
		for _, a := range append(append([]int64(nil), p.attempts...), until) {
			if a-last > turn {
				mcrt.Fail("batch %q waited %v for a retry (interval %v, at most %d batches queued)", p.body, time.Duration(a-last), cfg.interval, cfg.batches)
			}
			last = a
		}
		if cfg.workers != 1 {
			continue
		}
		// while it waits some batch is retried every interval
		for k, from := range append([]int64{p.queued}, p.ends...) {
			to := until
			if k < len(p.attempts) {
				to = p.attempts[k]
			}
			for i := range retries {
				if retries[i] > from && retries[i] < to {
					if retries[i]-from > int64(cfg.interval) {
						mcrt.Fail("batch %q was waiting, but no batch was retried for %v, the interval is %v", p.body, time.Duration(retries[i]-from), cfg.interval)
					}
					if i < len(ends) {
						from = ends[i]
					}
				}
			}
			if to-from > int64(cfg.interval) {
				mcrt.Fail("batch %q was waiting, but no batch was retried for %v, the interval is %v", p.body, time.Duration(to-from), cfg.interval)
			}
		}
	}
}

var retryAnswers = []mhttp.Response{
	{Status: 204}, {Status: 500, Delay: 11 * time.Millisecond}, {Status: 400}, {Err: errRefused, Delay: 17 * time.Millisecond}, {Delay: time.Minute, Status: 204}, {Status: 503, Delay: 300 * time.Millisecond}, {Status: 302, Delay: 5 * time.Millisecond}, {Status: 200}, {Status: 422},
}

// retryHistories: every sequence of answers over a short prefix, then a
// fixed behaviour.
func retryHistories(cfgs []retryCfg, nmsg, prefix int, answers []int) func() {
	return func() {
		e := setup()
		cfg := cfgs[mcrt.Choose("cfg", len(cfgs))]
		tail := mcrt.Choose("tail", 2)
		wto := 700 * time.Millisecond
		d := e.influx(func(n int, r *mhttp.Request) mhttp.Response {
			if n < prefix {
				return retryAnswers[answers[mcrt.Choose("answer", len(answers))]]
			}
			if tail == 0 {
				return mhttp.Response{Status: 204}
			}
			return mhttp.Response{Status: 503, Delay: 13 * time.Millisecond}
		})
		d.timeout = wto
		w := startWriter(limits{1, time.Hour, "", 1000}, func(c *config.Config) {
			c.Workers = cfg.workers
			c.WriterRetryBatches = cfg.batches
			c.WriterRetryInterval = config.NewDuration(cfg.interval)
			c.WriterRetryTimeout = config.NewDuration(cfg.timeout)
			c.WriteTimeout = config.NewDuration(wto)
			c.StatsInterval = config.NewDuration(5 * time.Second)
		})
		sleep(100 * time.Millisecond)
		gaps := []time.Duration{37 * time.Millisecond, 1613 * time.Millisecond}
		var msgs []string
		for i := 0; i < nmsg; i++ {
			m := fmt.Sprintf("m%d,t=x v=%d\n", i, i)
			e.B.Inject("in", []byte(m))
			msgs = append(msgs, m)
			sleep(gaps[mcrt.Choose("gap", 2)])
		}
		sleep(cfg.timeout + 4*cfg.interval + 2*time.Second)
		retryOracle(d, cfg, msgs, mcrt.NowNanos())
		// C21: the counters agree with what InfluxDB saw
		sleep(5500 * time.Millisecond)
		fails := 0
		for _, q := range d.reqs {
			if !q.ok() {
				fails++
			}
		}
		for _, c := range []struct {
			n string
			v int
		}{{"received", nmsg}, {"write_requests", len(d.reqs)}, {"failed_writes", fails}} {
			if n, ok := e.counter(subjMon, c.n, ""); !ok || n != int64(c.v) {
				mcrt.Fail("%s is %d, InfluxDB saw %d", c.n, n, c.v)
			}
		}
		w.Stop()
	}
}

// statusErrs are the ways a request can fail without an answer.
var statusErrs = []error{
	errRefused,
	io.EOF,
	io.ErrUnexpectedEOF,
	context.DeadlineExceeded,
	context.Canceled,
	&net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET},
	&net.DNSError{Err: "no such host", Name: "db1", IsNotFound: true},
	errors.New("tls: handshake failure"),
	errors.New("400 Bad Request"),
}

const statusFrom, statusTo = 199, 600

func statusN(bool) int { return (statusTo - statusFrom + len(statusErrs)) * 3 * 2 }

// retryStatus: every status and error as answer to the first attempt, to the
// first retry or to both of a batch.
func retryStatus(i int) {
	tick()
	debug := i%2 == 1
	where := i / 2 % 3
	i /= 6
	var bad mhttp.Response
	if i < len(statusErrs) {
		bad.Err = statusErrs[i]
	} else {
		bad.Status = statusFrom + 1 + i - len(statusErrs)
		bad.Body = "{\"error\": \"%s\"}\n"
	}
	bad.Delay = 5 * time.Millisecond
	e := setup()
	seen := map[string]int{}
	d := e.influx(func(n int, r *mhttp.Request) mhttp.Response {
		seen[string(r.Body)]++
		if strings.HasPrefix(string(r.Body), "m0") {
			switch {
			case seen[string(r.Body)] == where+1, where == 2 && seen[string(r.Body)] < 3:
				return bad
			case seen[string(r.Body)] == 1:
				return mhttp.Response{Status: 503, Delay: 7 * time.Millisecond}
			}
		}
		return mhttp.Response{Status: 204, Delay: time.Millisecond}
	})
	cfg := retryCfg{4, time.Second, time.Minute, 1}
	startWriter(limits{1, time.Hour, "", 1000}, func(c *config.Config) {
		c.WriterRetryBatches = cfg.batches
		c.WriterRetryInterval = config.NewDuration(cfg.interval)
		c.WriterRetryTimeout = config.NewDuration(cfg.timeout)
		c.Debug = debug
	})
	sleep(100 * time.Millisecond)
	msgs := []string{"m0 v=1\n", "m1 v=2\n"}
	for _, m := range msgs {
		e.B.Inject("in", []byte(m))
		sleep(37 * time.Millisecond)
	}
	sleep(10 * time.Second)
	retryOracle(d, cfg, msgs, mcrt.NowNanos())
}

// retryChunks: a batch larger than the limit fails; each part is retried
// unchanged while the batch buffer is reused.
func retryChunks() { retryChunksIn(false, 1, 2) }

func retryChunksPacked() {
	rules := mcrt.Choose("rules", 2) == 1
	per := []int{1, 2, 4}[mcrt.Choose("lines per message", 3)]
	retryChunksIn(rules, per, []int{2, 1}[mcrt.Choose("count", 2)])
}

func retryChunksIn(rules bool, per, count int) {
	e := setup()
	answers := []int{0, 1, 3}
	d := e.influx(func(n int, r *mhttp.Request) mhttp.Response {
		if n < 5 {
			return retryAnswers[answers[mcrt.Choose("answer", len(answers))]]
		}
		return mhttp.Response{Status: 204}
	})
	cfg := retryCfg{4, time.Second, time.Minute, 1}
	startWriter(limits{count, time.Hour, "", 16}, func(c *config.Config) {
		c.WriterRetryBatches = cfg.batches
		c.WriterRetryInterval = config.NewDuration(cfg.interval)
		c.WriterRetryTimeout = config.NewDuration(cfg.timeout)
		if rules {
			c.Rule = []config.Rule{{Rtype: "regex", Match: "."}}
		}
	})
	sleep(100 * time.Millisecond)
	msgs := []string{"aaaaaaa v=1\n", "bbbbbb v=2\n", "ccccccc v=3\n", "ddddd v=4\n"}
	gap := []time.Duration{0, 30 * time.Millisecond, 1700 * time.Millisecond}[mcrt.Choose("gap", 3)]
	for i := 0; i < len(msgs); i += per {
		e.B.Inject("in", []byte(strings.Join(msgs[i:i+per], "")))
		if i < 2 && i+per >= 2 {
			sleep(gap)
		}
	}
	sleep(40 * time.Second)
	retryOracle(d, cfg, msgs, mcrt.NowNanos())
	checkWhole(d.bodies(), msgs)
}

// retryStop: a retry is under way or waiting when the writer is used
// further; everything is delivered exactly once once InfluxDB is back.
func retrySchedules() {
	e := setup()
	cfg := retryCfg{2, time.Second, time.Minute, 2}
	d := e.influx(func(n int, r *mhttp.Request) mhttp.Response {
		if n < 2 && mcrt.Choose("fail", 2) == 1 {
			return mhttp.Response{Status: 500}
		}
		return mhttp.Response{Status: 204}
	})
	startWriter(limits{1, time.Hour, "", 1000}, func(c *config.Config) {
		c.Workers = 2
		c.WriterRetryBatches = cfg.batches
		c.WriterRetryInterval = config.NewDuration(cfg.interval)
		c.WriterRetryTimeout = config.NewDuration(cfg.timeout)
	})
	var msgs []string
	for i := 0; i < 3; i++ {
		m := fmt.Sprintf("m%d v=%d\n", i, i)
		e.B.Inject("in", []byte(m))
		msgs = append(msgs, m)
	}
	sleep(20 * time.Second)
	checkWhole(d.bodies(), msgs)
	retryOracle(d, cfg, msgs, mcrt.NowNanos())
	for _, q := range d.reqs {
		mcrt.Observe("%d %q", q.At-mcrt.Epoch, q.Body)
	}
}

// retryOverflow: an outage with more failing batches than may be kept.
func retryOverflow() {
	e := setup()
	nb := 1 + mcrt.Choose("batches", 3)
	cfg := retryCfg{nb, 10 * time.Second, 5 * time.Minute, 1}
	n := nb + 1 + mcrt.Choose("excess", 3)
	outage := true
	d := e.influx(func(k int, r *mhttp.Request) mhttp.Response {
		if outage {
			return mhttp.Response{Status: 500}
		}
		return mhttp.Response{Status: 204}
	})
	startWriter(limits{1, time.Hour, "", 1000}, func(c *config.Config) {
		c.WriterRetryBatches = cfg.batches
		c.WriterRetryInterval = config.NewDuration(cfg.interval)
		c.WriterRetryTimeout = config.NewDuration(cfg.timeout)
	})
	sleep(100 * time.Millisecond)
	var msgs []string
	gaps := []time.Duration{13 * time.Millisecond, 7 * time.Second, 17 * time.Second}
	for i := 0; i < n; i++ {
		m := fmt.Sprintf("m%d v=%d\n", i, i)
		e.B.Inject("in", []byte(m))
		msgs = append(msgs, m)
		sleep(gaps[mcrt.Choose("gap", len(gaps))])
	}
	sleep(3 * time.Second)
	outage = false
	sleep(5 * time.Minute)
	retryOracle(d, cfg, msgs, mcrt.NowNanos())
	got := d.bodies()
	want := msgs[n-nb:]
	if !sameMultiset(got, want) {
		mcrt.Fail("after an outage with %d failing batches and writer_retry_batches=%d InfluxDB received %q, expected %q", n, nb, got, want)
	}
}

// ---------------------------------------------------------------------
// C19 rules

var writerRuleMenu = []config.Rule{
	{Rtype: "basic", Match: "cpu"},
	{Rtype: "tags", Tags: [][]string{{"host", "a"}}},
	{Rtype: "tags", Tags: [][]string{{"host", "b"}, {"dc", "x"}}},
	{Rtype: "regex", Match: "^mem"},
	{Rtype: "negregex", Match: "host|cpu"},
	{Rtype: "basic", Match: "no thing"},
}

var writerLines = []refLine{
	{meas: "cpu", rest: "v=1"},
	{meas: "cpu", tags: [][2]string{{"host", "a"}}, rest: "v=2"},
	{meas: "cpu2", rest: "v=3 1600000000000000000"},
	{meas: "mem", tags: [][2]string{{"host", "b"}, {"dc", "x"}}, rest: "s=\"cpu host\""},
	{meas: "no thing", rest: "v=1i"},
	{meas: "disk", tags: [][2]string{{"dc", "x"}, {"host", "b"}}, rest: "v=4"},
	{meas: "disk", tags: [][2]string{{"dc", "x"}}, rest: "v=5"},
}

func writerRulesN(th bool) int {
	n := len(writerRuleMenu)
	return 1 + n + n*n
}

func writerRulesAt(i int) []config.Rule {
	n := len(writerRuleMenu)
	if i == 0 {
		return nil
	}
	i--
	if i < n {
		return []config.Rule{writerRuleMenu[i]}
	}
	i -= n
	return []config.Rule{writerRuleMenu[i/n], writerRuleMenu[i%n]}
}

func writerRules(i int) {
	rules := writerRulesAt(i)
	nl := len(writerLines)
	for a := 0; a < nl; a++ {
		for b := 0; b < nl; b++ {
			e := setup()
			d := e.influx(nil)
			w := startWriter(limits{1, time.Hour, "", 1000}, func(c *config.Config) { c.Rule = rules })
			var data, want string
			for _, k := range []int{a, b, (a + b) % nl} {
				l := writerLines[k]
				s := l.render(nil) + "\n"
				data += s
				ok := len(rules) == 0
				for _, r := range rules {
					ok = ok || refMatch(r, l)
				}
				if ok {
					want += s
				}
			}
			e.B.Inject("in", []byte(data))
			sleep(3 * time.Second)
			got := strings.Join(d.bodies(), "")
			// the tags of a line may come out in key order
			canon := func(s string) string {
				var out []string
				for _, l := range lines([]byte(s)) {
					out = append(out, sortLineTags(l))
				}
				return strings.Join(out, "")
			}
			if canon(got) != canon(want) {
				mcrt.Fail("rules %v: message %q was written as %q, expected %q", rules, data, got, want)
			}
			if strings.TrimSpace(want) == "" && len(d.reqs) > 0 {
				mcrt.Fail("rules %v: request for a message without matching lines: %q", rules, d.reqs[0].Body)
			}
			w.Stop()
			mcrt.Quiesce()
		}
	}
}

// Lines whose tags can't be parsed match no rule, also none of the rules that
// look at something else.
var writerMalformed = []string{"cpu,host v=1", "mem,host=a,dc", ",", "zz,a=1,b v=\"x\" 12", "cpu,host v=host=a 16\r"}

var writerMalformedRules = [][]config.Rule{
	{{Rtype: "negregex", Match: "zebra"}},
	{{Rtype: "regex", Match: "."}},
	{{Rtype: "regex", Match: "()"}, {Rtype: "basic", Match: "cpu"}},
	{{Rtype: "basic", Match: "mem"}, {Rtype: "negregex", Match: "^cpu"}},
	{{Rtype: "tags", Tags: [][]string{{"host", "a"}}}, {Rtype: "basic", Match: ","}, {Rtype: "basic", Match: "zz"}},
}

func writerMalformedN(bool) int { return len(writerMalformedRules) * len(writerMalformed) * 4 }

func writerMalformedCase(i int) {
	tick()
	rules := writerMalformedRules[i%len(writerMalformedRules)]
	i /= len(writerMalformedRules)
	bad := writerMalformed[i%len(writerMalformed)]
	i /= len(writerMalformed)
	good := refLine{meas: "mem", tags: [][2]string{{"host", "a"}}, rest: "v=1"}
	e := setup()
	d := e.influx(nil)
	w := startWriter(limits{1, time.Hour, "", 1000}, func(c *config.Config) { c.Rule = rules })
	g := good.render(nil) + "\n"
	data := []string{bad + "\n" + g, g + bad + "\n" + g, g + bad, bad + "\n"}[i]
	want := []string{g, g + g, g, ""}[i]
	e.B.Inject("in", []byte(data))
	sleep(3 * time.Second)
	if got := strings.Join(d.bodies(), ""); got != want {
		mcrt.Fail("rules %v: message %q was written as %q, expected %q", rules, data, got, want)
	}
	e.B.Inject("in", []byte(g))
	sleep(3 * time.Second)
	if got := strings.Join(d.bodies(), ""); got != want+g {
		mcrt.Fail("rules %v: after message %q %q was written, expected %q", rules, data, got, want+g)
	}
	w.Stop()
}

// sortLineTags orders the tags of a line without escapes in its tags.
func sortLineTags(l string) string {
	for _, w := range writerLines {
		s := w.sorted()
		if l == w.render(nil)+"\n" {
			return s.render(nil) + "\n"
		}
	}
	return l
}

// writerRulesBatch: with rules the limits count what is kept, whatever the
// message packing.
func writerRulesPacking() {
	e := setup()
	d := e.influx(nil)
	startWriter(limits{2, 2 * time.Second, "", 1000}, func(c *config.Config) {
		c.Rule = []config.Rule{{Rtype: "basic", Match: "keep"}}
	})
	sleep(100 * time.Millisecond)
	want := ""
	var keepAt []int64
	msg := ""
	for i := 0; i < 5; i++ {
		l := fmt.Sprintf("drop v=%d\n", i)
		if mcrt.Choose("keep", 2) == 1 {
			l = fmt.Sprintf("keep v=%d\n", i)
			want += l
			keepAt = append(keepAt, 0)
		}
		msg += l
		if mcrt.Choose("cut", 2) == 1 {
			e.B.Inject("in", []byte(msg))
			for k := range keepAt {
				if keepAt[k] == 0 {
					keepAt[k] = mcrt.NowNanos()
				}
			}
			msg = ""
			sleep([]time.Duration{0, 1200 * time.Millisecond}[mcrt.Choose("gap", 2)])
		}
	}
	if msg != "" {
		e.B.Inject("in", []byte(msg))
		for k := range keepAt {
			if keepAt[k] == 0 {
				keepAt[k] = mcrt.NowNanos()
			}
		}
	}
	sleep(6 * time.Second)
	got := ""
	k := 0
	for _, q := range d.reqs {
		got += string(q.Body)
		if len(q.Body) == 0 {
			mcrt.Fail("empty write request")
		}
		for range lines(q.Body) {
			if k < len(keepAt) && q.At-keepAt[k] > int64(3*time.Second) {
				mcrt.Fail("line %d waited %v, batch_max_age is 2s", k, time.Duration(q.At-keepAt[k]))
			}
			k++
		}
	}
	if got != want {
		mcrt.Fail("InfluxDB received %q, expected %q", got, want)
	}
}

// ---------------------------------------------------------------------
// C20 requests

func writerRequests(i int) {
	protos := []string{"http", "https"}
	hosts := []string{"localhost", "influx.example.com", "10.1.2.3"}
	ports := []int{1, 8086, 65535}
	dbs := []string{"influx-spout-junk", "metrics", "m_2.x", "my db", "a&b=c;d", "x+y 100%", "é#1?/"}
	users := [][2]string{{"", ""}, {"u", "p"}, {"user name", "p:a ss@w&?é"}, {" u", "p "}, {"u\t", "\np"}, {"U", "P"}, {"%41", "%"}}
	retry := i % 2
	i /= 2
	pr := protos[i%2]
	i /= 2
	ho := hosts[i%3]
	i /= 3
	po := ports[i%3]
	i /= 3
	dbn := dbs[i%len(dbs)]
	i /= len(dbs)
	u := users[i%len(users)]
	e := setup()
	d := e.influx(func(n int, r *mhttp.Request) mhttp.Response {
		if n == 0 && retry == 1 {
			return mhttp.Response{Status: 500}
		}
		return mhttp.Response{Status: 204}
	})
	w := startWriter(limits{1, time.Hour, "", 1000}, func(c *config.Config) {
		c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, c.DBName = pr, ho, po, dbn
		c.InfluxDBUser, c.InfluxDBPass = u[0], u[1]
		c.WriterRetryInterval = config.NewDuration(time.Second)
		c.Debug = retry == 1
	})
	e.B.Inject("in", []byte("a v=1\n"))
	sleep(5 * time.Second)
	if len(d.reqs) != 1+retry {
		mcrt.Fail("%d requests", len(d.reqs))
	}
	for _, q := range d.reqs {
		if q.Method != "POST" {
			mcrt.Fail("method %s", q.Method)
		}
		if q.URL.Scheme != pr || q.URL.Host != fmt.Sprintf("%s:%d", ho, po) || q.URL.Path != "/write" {
			mcrt.Fail("request to %s, expected %s://%s:%d/write", q.URL, pr, ho, po)
		}
		v := q.URL.Query()
		if strings.ContainsAny(q.URL.RawQuery, " \t\n#") || len(v["db"]) != 1 || v["db"][0] != dbn {
			mcrt.Fail("query %q for database %q", q.URL.RawQuery, dbn)
		}
		if q.HasAuth != (u[0] != "") || q.User != u[0] || q.Pass != u[1] {
			mcrt.Fail("credentials %v %q %q, expected %q", q.HasAuth, q.User, q.Pass, u)
		}
		if string(q.Body) != "a v=1\n" {
			mcrt.Fail("body %q", q.Body)
		}
		if ce := q.Header.Get("Content-Encoding"); ce != "" && ce != "identity" {
			mcrt.Fail("body declared as %s", ce)
		}
	}
	w.Stop()
	mcrt.Quiesce()
}

func init() {
	addScenario("C16",
		&Scenario{Name: "repeated", Doc: "5 messages of two kinds (and their repetitions), every pattern of accepted and refused writes, with and without retries and rules: each message is written on its own", N: writerRepeatedN, Case: writerRepeated, Chunk: 1},
		&Scenario{Name: "batching", Doc: "1 worker, 3 messages, every combination of 7 limit settings, message shapes and arrival gaps", Body: writerBatching(3), Weight: 2},
		&Scenario{Name: "batching-4", Doc: "as batching with 4 messages", Body: writerBatching(4), Weight: 4, ThoroughOnly: true},
		&Scenario{Name: "split", Doc: "two messages of up to three lines of length 0..17 with batch_max_size 8", Body: writerSplit, Weight: 3},
		&Scenario{Name: "slow-database", Doc: "writes take 0, 0.9 or 4 s while 5 messages arrive", Body: writerSlow, Weight: 1},
		&Scenario{Name: "workers", Doc: "2 workers, two subjects, all schedules", Body: writerWorkers(2, 3, []time.Duration{0}, false), Quick: Bounds{2, 0}, Thorough: Bounds{3, 0}, Weight: 3},
		&Scenario{Name: "workers-slow", Doc: "2 workers with slow writes", Body: writerWorkers(2, 4, []time.Duration{0, 800 * time.Millisecond, 3 * time.Second}, false), Quick: Bounds{1, 0}, Thorough: Bounds{2, 0}, Weight: 2},
		&Scenario{Name: "queue-group", Doc: "two writers in one queue group, every assignment of messages", Body: writerWorkers(1, 3, []time.Duration{0}, true), Quick: Bounds{1, 0}, Thorough: Bounds{2, 0}, Weight: 2},
	)
	cfgs := []retryCfg{{1, time.Second, 3500 * time.Millisecond, 1}, {2, time.Second, 4500 * time.Millisecond, 1}, {3, 500 * time.Millisecond, 2200 * time.Millisecond, 1}}
	addScenario("C17",
		&Scenario{Name: "statuses", Doc: "every HTTP status from 200 to 600 and 9 errors as answer to the first attempt, the first retry or both, with and without debugging output", N: statusN, Case: retryStatus, Chunk: 1},
		&Scenario{Name: "answers", Doc: "2 batches, 4 answers from {204,500,400,refused,timeout,slow 503,302,200,422} then all OK or all failing", Body: retryHistories(cfgs[:1], 2, 4, []int{0, 1, 2, 3, 4, 5}), Weight: 4},
		&Scenario{Name: "one-batch", Doc: "1 batch, 5 answers from all 9 kinds", Body: retryHistories(cfgs[:1], 1, 4, []int{0, 1, 2, 3, 4, 5, 6, 7, 8}), Weight: 2},
		&Scenario{Name: "three-batches", Doc: "3 batches, 4 answers", Body: retryHistories(cfgs, 3, 4, []int{0, 1, 2, 4}), Weight: 3},
		&Scenario{Name: "answers-6", Doc: "3 batches, 6 answers", Body: retryHistories(cfgs, 3, 6, []int{0, 1, 2, 4}), Weight: 8, ThoroughOnly: true},
		&Scenario{Name: "chunks-packed", Doc: "as chunks, several lines per message, with and without rules", Body: retryChunksPacked, Thorough: Bounds{1, 0}, Weight: 2},
		&Scenario{Name: "chunks", Doc: "split batches whose parts fail while the buffer is reused", Body: retryChunks, Quick: Bounds{1, 0}, Thorough: Bounds{2, 0}, Weight: 2},
		&Scenario{Name: "schedules", Doc: "2 workers, 3 batches, failures, all schedules", Body: retrySchedules, Quick: Bounds{2, 0}, Thorough: Bounds{3, 0}, Weight: 2},
	)
	addScenario("C18",
		&Scenario{Name: "overflow", Doc: "outage with up to 3 more batches than writer_retry_batches, every arrival pattern", Body: retryOverflow, Weight: 2},
		&Scenario{Name: "disabled", Doc: "writer_retry_batches=0", Body: retryHistories([]retryCfg{{0, time.Second, 10 * time.Second, 1}}, 3, 3, []int{0, 1, 2, 3, 4, 5}), Weight: 1},
		&Scenario{Name: "small", Doc: "writer_retry_batches=1..2, 4 batches, answers", Body: retryHistories([]retryCfg{{1, 3 * time.Second, 30 * time.Second, 1}, {2, 3 * time.Second, 30 * time.Second, 1}}, 4, 5, []int{0, 1}), Weight: 2},
	)
	addScenario("C19",
		&Scenario{Name: "rule-lists", Doc: "every list of up to 2 rules from a menu of 6 (all types) x messages of 3 lines", Body: func() {}, N: writerRulesN, Case: writerRules, Chunk: 2, Opts: mcrt.Opts{MaxSteps: 20000000}, Weight: 2},
		&Scenario{Name: "malformed", Doc: "5 lines without valid tags x 5 rule lists x 4 positions", Chunk: 1, N: writerMalformedN, Case: writerMalformedCase},
		&Scenario{Name: "packing", Doc: "kept and dropped lines packed into messages in every way", Body: writerRulesPacking, Weight: 2},
	)
	addScenario("C20",
		&Scenario{Name: "requests", Doc: "every combination of protocol, host, port, database, credentials, first attempt and retry", Body: func() {}, N: func(bool) int { return 2 * 2 * 3 * 3 * 7 * 7 }, Case: writerRequests, Chunk: 20, Opts: mcrt.Opts{MaxSteps: 20000000}, Weight: 1},
	)
}
