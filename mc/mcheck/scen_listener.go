//go:build go1.21

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/listener"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mhttp"
	"github.com/jumptrading/influx-spout/v2/verifmc/mnet"
)

const (
	subjIn  = "influx-spout"
	subjMon = "influx-spout-monitor"
	mb      = 1 << 20
)

// listenerConf describes the batching limits of a listener.
type limits struct {
	count int
	age   time.Duration
	size  string
	bytes int
}

func (l limits) toml() string {
	return fmt.Sprintf("name=\"lst\"\nbatch_max_count=%d\nbatch_max_age=\"%s\"\nbatch_max_size=\"%s\"\nstats_interval=\"100h\"\n", l.count, l.age, l.size)
}

func udpConf(l limits) *config.Config { return conf("mode=\"listener\"\nport=10001\n" + l.toml()) }
func httpConf(l limits) *config.Config {
	return conf("mode=\"listener_http\"\nport=13337\n" + l.toml())
}

func ensureNL(s string) string {
	if s != "" && !strings.HasSuffix(s, "\n") {
		return s + "\n"
	}
	return s
}

func bigLine(tag string, n int) string {
	if n <= len(tag) {
		return tag[:n]
	}
	return tag + strings.Repeat("x", n-len(tag))
}

// udpOracle checks delivery of dgrams (in order, exactly once, intact).
func udpOracle(e *env, dgrams []string) {
	want := ""
	for _, d := range dgrams {
		want += ensureNL(d)
	}
	got := string(join(e.published(subjIn)))
	if got != want {
		mcrt.Fail("UDP listener published %s, expected %s", short(got), short(want))
	}
	for _, m := range e.published(subjIn) {
		if len(m) == 0 || m[len(m)-1] != '\n' {
			mcrt.Fail("published message does not end at a line boundary: %s", short(string(m)))
		}
	}
}

func short(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q...%q (%d bytes)", s[:120], s[len(s)-60:], len(s))
	}
	return fmt.Sprintf("%q", s)
}

var udpAlphabet = []string{"a v=1\n", "b v=2", "c v=3\nd v=4", "", "\n", "e,t=1 v=\"x\\\" y\" 1600000000000000000\n"}

func udpSched() {
	e := setup()
	lim := []limits{{1, 2 * time.Second, "1MB", mb}, {2, 5 * time.Second, "1MB", mb}, {100, 1500 * time.Millisecond, "1MB", mb}}[mcrt.Choose("limits", 3)]
	l, err := listener.StartListener(udpConf(lim))
	must(err)
	var sent []string
	for i := 0; i < 3; i++ {
		d := udpAlphabet[mcrt.Choose("dgram", len(udpAlphabet))]
		switch mcrt.Choose("gap", 2) {
		case 1:
			sleep(700 * time.Millisecond)
		}
		mcrt.Yield("send")
		e.N.UDP(10001).Send([]byte(d))
		sent = append(sent, d)
	}
	sleep(lim.age + 2500*time.Millisecond)
	udpOracle(e, sent)
	l.Stop()
	udpOracle(e, sent)
	for _, m := range e.published(subjIn) {
		mcrt.Observe("%q", m)
	}
}

func udpFaults() {
	e := setup()
	lim := limits{2, 2 * time.Second, "1MB", mb}
	nerr := 0
	e.N.ReadErr = func(c *mnet.UDPConn) error {
		if mcrt.Fault("read-error", 2) == 1 {
			nerr++
			return errors.New("recvfrom: connection refused")
		}
		return nil
	}
	l, err := listener.StartListener(udpConf(lim))
	must(err)
	var sent []string
	for i := 0; i < 4; i++ {
		d := fmt.Sprintf("m%d v=%d", i, i)
		if i == 2 {
			sleep(1200 * time.Millisecond)
		}
		e.N.UDP(10001).Send([]byte(d))
		sent = append(sent, d)
		mcrt.Yield("send")
	}
	sleep(lim.age + 3*time.Second)
	udpOracle(e, sent)
	mcrt.Observe("%d", nerr)
	l.Stop()
}

var udpSizes = []int{1, 2000, 32767, 65506, 65507}

// single datagrams against configured sizes around the largest datagram
var udpNear = []int{32767, 32768, 32769, 65000, 65100, 65505, 65506, 65507, 65508, 65535, 65536, 65537, 66000, 131071, 131072, 131073}

func udpNearCase(i int) {
	tick()
	e := setup()
	n := udpNear[i]
	lim := limits{1000, time.Second, fmt.Sprintf("%dB", n), n}
	l, err := listener.StartListener(udpConf(lim))
	must(err)
	var sent []string
	for k, s := range []int{65507, 10, 65506, 65507, n - 1, 65000, n, 65507, 1, 65507} {
		if s > 65507 {
			continue
		}
		d := bigLine(fmt.Sprintf("m%d ", k), s)
		e.N.UDP(10001).Send([]byte(d))
		sent = append(sent, d)
		sleep([]time.Duration{0, 10 * time.Millisecond, 2500 * time.Millisecond}[k%3])
	}
	sleep(4 * time.Second)
	udpOracle(e, sent)
	l.Stop()
}

func udpSize() {
	e := setup()
	ls := []limits{{1000, time.Second, "1KB", 1024}, {1000, time.Second, "100KB", 100 * 1024}, {1000, time.Second, "192KB", 192 * 1024}, {1000, time.Second, "1MB", mb}, {3, time.Second, "1MB", mb}}
	lim := ls[mcrt.Choose("limits", len(ls))]
	l, err := listener.StartListener(udpConf(lim))
	must(err)
	var sent []string
	for i := 0; i < 4; i++ {
		n := udpSizes[mcrt.Choose("size", len(udpSizes))]
		d := bigLine(fmt.Sprintf("m%d ", i), n)
		if mcrt.Choose("nl", 2) == 1 {
			d = d[:n-1] + "\n"
		}
		e.N.UDP(10001).Send([]byte(d))
		sent = append(sent, d)
	}
	sleep(3500 * time.Millisecond)
	udpOracle(e, sent)
	l.Stop()
}

func udpMany() {
	e := setup()
	lim := limits{100000, 2 * time.Second, "1MB", mb}
	l, err := listener.StartListener(udpConf(lim))
	must(err)
	n := []int{65507, 65000, 40000, 65536 - 29}[mcrt.Choose("size", 4)]
	var sent []string
	for i := 0; i < 40; i++ {
		d := bigLine(fmt.Sprintf("m%d ", i), n)
		e.N.UDP(10001).Send([]byte(d))
		sent = append(sent, d)
		if i%8 == 7 && mcrt.Choose("pause", 2) == 1 {
			sleep(100 * time.Millisecond)
		}
	}
	sleep(4 * time.Second)
	udpOracle(e, sent)
	l.Stop()
}

// ---------------------------------------------------------------------
// HTTP listener

// httpOracle checks that the lines of all accepted requests are published
// exactly once, unaltered, and in order within each request.
func httpOracle(e *env, reqs [][]string) {
	var got []string
	for _, m := range e.published(subjIn) {
		for _, l := range bytes.Split(m, []byte("\n")) {
			if len(l) > 0 {
				got = append(got, string(l))
			}
		}
	}
	var want []string
	for _, r := range reqs {
		want = append(want, r...)
	}
	if !sameMultiset(got, want) {
		mcrt.Fail("HTTP listener published lines %s, expected %s", short(strings.Join(got, "|")), short(strings.Join(want, "|")))
	}
	// order within one request
	for _, r := range reqs {
		i := 0
		for _, g := range got {
			if i < len(r) && g == r[i] {
				i++
			}
		}
		if i != len(r) {
			mcrt.Fail("lines of one request were reordered: got %s, request %s", short(strings.Join(got, "|")), short(strings.Join(r, "|")))
		}
	}
}

type httpReq struct {
	target string
	pieces []mhttp.Piece
	lines  []string
}

func pc(s string) mhttp.Piece { return mhttp.Piece{Data: []byte(s)} }
func pcd(s string, d time.Duration) mhttp.Piece {
	return mhttp.Piece{Data: []byte(s), Delay: d}
}

// request bodies of client i
func httpReqs(i int) []httpReq {
	n := func(k int) string { return fmt.Sprintf("c%dl%d v=%d", i, k, k) }
	return []httpReq{
		{"/write", []mhttp.Piece{pc(n(0) + "\n")}, []string{n(0)}},
		{"/write", []mhttp.Piece{pc(n(0) + "\n" + n(1)[:3]), pc(n(1)[3:] + "\n")}, []string{n(0), n(1)}},
		{"/write?precision=ms", []mhttp.Piece{pc(n(0) + " 1600000000000\n" + n(1) + "\n")}, []string{n(0) + " 1600000000000000000", n(1)}},
		{"/write?precision=s", []mhttp.Piece{pc(n(0) + " 16000"), pc("00000\n" + n(1) + " 1600000001\n")}, []string{n(0) + " 1600000000000000000", n(1) + " 1600000001000000000"}},
		{"/write?db=x&precision=ns", []mhttp.Piece{pc(n(0) + " 1600000000000000000\n")}, []string{n(0) + " 1600000000000000000"}},
	}
}

func httpUnterminated(i int) []httpReq {
	n := func(k int) string { return fmt.Sprintf("c%dl%d v=%d", i, k, k) }
	return []httpReq{
		{"/write", []mhttp.Piece{pc(n(0) + "\n" + n(1))}, []string{n(0), n(1)}},
		{"/write?precision=ms", []mhttp.Piece{pc(n(0) + "\n" + n(1))}, []string{n(0), n(1)}},
		{"/write?precision=u", []mhttp.Piece{pc(n(0) + " 1600000000000000")}, []string{n(0) + " 1600000000000000000"}},
	}
}

// bodies with empty lines in every position
func httpBlank(i int) []httpReq {
	n := func(k int) string { return fmt.Sprintf("c%dl%d v=%d", i, k, k) }
	var out []httpReq
	for _, t := range []string{"/write", "/write?precision=ms"} {
		out = append(out,
			httpReq{t, []mhttp.Piece{pc("\n" + n(0) + "\n")}, []string{n(0)}},
			httpReq{t, []mhttp.Piece{pc("\n\n"), pc(n(0) + "\n\n" + n(1))}, []string{n(0), n(1)}},
			httpReq{t, []mhttp.Piece{pc("\n")}, nil},
			httpReq{t, []mhttp.Piece{pc(n(0) + "\n\n\n" + n(1) + "\n\n")}, []string{n(0), n(1)}},
			httpReq{t, []mhttp.Piece{pc(" " + n(0) + "\n#" + n(1) + "\na\n")}, []string{" " + n(0), "#" + n(1), "a"}})
	}
	return out
}

func checkAnswers(rs []*mhttp.Result) {
	for i, r := range rs {
		if !r.Done {
			mcrt.Fail("request %d was not answered", i)
		}
		if r.Panic != "" {
			mcrt.Fail("panic while handling request %d: %s", i, r.Panic)
		}
		if r.Err != nil {
			mcrt.Fail("request %d failed: %v", i, r.Err)
		}
		if r.Status != 204 {
			mcrt.Fail("request %d answered with status %d", i, r.Status)
		}
	}
}

func waitHTTP(port int) {
	for i := 0; !mhttp.Listening(port); i++ {
		if i > 20 {
			mcrt.Fail("HTTP server on port %d did not start", port)
		}
		sleep(10 * time.Millisecond)
	}
}

func httpConcurrent(nclients int, menu func(int) []httpReq, ls []limits, gaps bool) func() {
	return func() {
		e := setup()
		lim := ls[mcrt.Choose("limits", len(ls))]
		l, err := listener.StartHTTPListener(httpConf(lim))
		must(err)
		waitHTTP(13337)
		var reqs [][]string
		var rs []*mhttp.Result
		for i := 0; i < nclients; i++ {
			m := menu(i)
			q := m[mcrt.Choose("body", len(m))]
			if gaps && mcrt.Choose("gap", 2) == 1 {
				sleep(lim.age - 10*time.Millisecond)
			}
			rs = append(rs, mhttp.CallAsync(fmt.Sprintf("client%d", i), 13337, "POST", q.target, q.pieces...))
			reqs = append(reqs, q.lines)
		}
		sleep(2*lim.age + time.Second)
		checkAnswers(rs)
		httpOracle(e, reqs)
		for _, m := range e.published(subjIn) {
			mcrt.Observe("%q", m)
		}
		l.Stop()
		httpOracle(e, reqs)
	}
}

// httpFailing: the body of one client breaks off; the other clients must
// not notice.
func httpFailing() {
	e := setup()
	lim := []limits{{1, time.Second, "1MB", mb}, {10, time.Second, "1MB", mb}}[mcrt.Choose("limits", 2)]
	l, err := listener.StartHTTPListener(httpConf(lim))
	must(err)
	waitHTTP(13337)
	menu := httpReqs(0)
	q := menu[mcrt.Choose("body", len(menu))]
	badLines := []string{"b0 v=0", "b1 v=1", "b2 v=2"}
	badTarget := []string{"/write", "/write?precision=ms"}[mcrt.Choose("precision", 2)]
	text := strings.Join(badLines, "\n") + "\n"
	at := []int{0, 3, 6, 7, 9, 14, 20}[mcrt.Choose("breaks at", 7)]
	bad := []mhttp.Piece{pc(text[:at]), {Err: io.ErrUnexpectedEOF}}
	if at == 0 {
		bad = bad[1:]
	}
	first := mcrt.Choose("first", 2)
	var good, r *mhttp.Result
	if first == 0 {
		r = mhttp.CallAsync("broken", 13337, "POST", badTarget, bad...)
	}
	good = mhttp.CallAsync("good", 13337, "POST", q.target, q.pieces...)
	if first == 1 {
		if mcrt.Choose("gap", 2) == 1 {
			sleep(10 * time.Millisecond)
		}
		r = mhttp.CallAsync("broken", 13337, "POST", badTarget, bad...)
	}
	sleep(2*lim.age + time.Second)
	last := mhttp.CallAsync("last", 13337, "POST", "/write", pc("last v=1\n"))
	sleep(2*lim.age + time.Second)
	checkAnswers([]*mhttp.Result{good, last})
	if !r.Done || r.Panic != "" {
		mcrt.Fail("the broken request was not handled: %q", r.Panic)
	}
	// what arrived of the broken body may be forwarded
	var rest []string
	next := 0
	for _, m := range e.published(subjIn) {
		for _, ln := range strings.Split(string(m), "\n") {
			if ln == "" {
				continue
			}
			if ln[0] == 'b' && next < len(badLines) && strings.HasPrefix(badLines[next], ln) {
				next++
				continue
			}
			rest = append(rest, ln)
		}
	}
	if want := append(append([]string{}, q.lines...), "last v=1"); !sameMultiset(rest, want) {
		mcrt.Fail("published lines %s next to a broken request, expected %s", short(strings.Join(rest, "|")), short(strings.Join(want, "|")))
	}
	l.Stop()
}

// httpForms: requests whose bodies have no announced length, and headers
// of every kind of client, next to each other.
func httpForms() {
	e := setup()
	lim := []limits{{1, time.Second, "1MB", mb}, {10, time.Second, "1MB", mb}}[mcrt.Choose("limits", 2)]
	l, err := listener.StartHTTPListener(httpConf(lim))
	must(err)
	waitHTTP(13337)
	e.H.Chunked = mcrt.Choose("no length", 2) == 1
	e.H.Header = []map[string]string{
		nil,
		{"Content-Type": "application/x-www-form-urlencoded", "User-Agent": "curl/8"},
		{"Content-Type": "text/plain; charset=utf-8", "User-Agent": "Telegraf/1.20", "Expect": "100-continue"},
		{"Content-Type": "application/octet-stream", "Authorization": "Token x:y", "Connection": "close", "Accept-Encoding": "gzip"},
		{"Content-Encoding": "identity", "X-Forwarded-For": "10.0.0.1"},
	}[mcrt.Choose("headers", 5)]
	var reqs [][]string
	var rs []*mhttp.Result
	for i := 0; i < 2; i++ {
		m := append(httpReqs(i), httpUnterminated(i)[:2]...)
		q := m[mcrt.Choose("body", len(m))]
		rs = append(rs, mhttp.CallAsync(fmt.Sprintf("client%d", i), 13337, "POST", q.target, q.pieces...))
		reqs = append(reqs, q.lines)
	}
	sleep(2*lim.age + time.Second)
	checkAnswers(rs)
	httpOracle(e, reqs)
	l.Stop()
}

func httpLarge() {
	e := setup()
	lim := limits{1000, time.Second, "1MB", mb}
	l, err := listener.StartHTTPListener(httpConf(lim))
	must(err)
	waitHTTP(13337)
	prec := []string{"", "?precision=ms"}[mcrt.Choose("precision", 2)]
	e.H.Chunked = mcrt.Choose("no length", 2) == 1
	var reqs [][]string
	for i := 0; i < 2; i++ {
		n := []int{10, 65536, 65537, 300000, 1 << 20}[mcrt.Choose("bytes", 5)]
		var ls []string
		var body strings.Builder
		for k := 0; body.Len() < n; k++ {
			s := fmt.Sprintf("r%dl%d v=%s", i, k, strings.Repeat("7", 100))
			if n > 100000 {
				s = fmt.Sprintf("r%dl%d v=%s", i, k, strings.Repeat("7", 5000))
			}
			body.WriteString(s + "\n")
			ls = append(ls, s)
		}
		reqs = append(reqs, ls)
		r := mhttp.Call(13337, "POST", "/write"+prec, pc(body.String()))
		checkAnswers([]*mhttp.Result{r})
	}
	sleep(3 * time.Second)
	httpOracle(e, reqs)
	l.Stop()
}

func init() {
	addScenario("C01",
		&Scenario{Name: "udp-sched", Doc: "3 datagrams of every shape and spacing x 3 batching limits, all schedules", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 3}, Weight: 3, Body: udpSched},
		&Scenario{Name: "udp-read-errors", Doc: "transient socket errors at every read", Quick: Bounds{Sched: 1, Fault: 2}, Thorough: Bounds{Sched: 2, Fault: 3}, Body: udpFaults},
		&Scenario{Name: "udp-sizes", Doc: "datagram sizes around buffer growth boundaries", Quick: Bounds{}, Thorough: Bounds{Sched: 1}, Weight: 2, Body: udpSize},
		&Scenario{Name: "udp-configured-sizes", Doc: "batch_max_size around the largest datagram and its multiples", Chunk: 1, N: fixedN(len(udpNear)), Case: udpNearCase},
		&Scenario{Name: "udp-many", Doc: "40 large datagrams in one burst", Quick: Bounds{}, Thorough: Bounds{Sched: 1}, Body: udpMany},
	)
	hl := []limits{{1, time.Second, "1MB", mb}, {2, time.Second, "1MB", mb}, {10, time.Second, "1MB", mb}}
	addScenario("C02",
		&Scenario{Name: "http-2-clients", Doc: "2 concurrent requests, every body shape x 3 limits, all schedules", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 3}, Weight: 3,
			Opts: mcrt.Opts{Demote: true}, Body: httpConcurrent(2, httpReqs, hl, true)},
		&Scenario{Name: "http-3-clients", Doc: "3 concurrent requests", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Weight: 2,
			Opts: mcrt.Opts{Demote: true}, Body: httpConcurrent(3, func(i int) []httpReq { return httpReqs(i)[1:4] }, hl[1:], false)},
		&Scenario{Name: "http-fine", Doc: "2 concurrent requests, preemption between any two statements of listener and batch", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Weight: 3,
			Opts: mcrt.Opts{Fine: []string{"listener", "batch"}}, Body: httpConcurrent(2, func(i int) []httpReq { return httpReqs(i)[1:3] }, hl[1:], false)},
		&Scenario{Name: "http-unterminated", Doc: "bodies whose last line has no newline", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Weight: 1,
			Body: httpConcurrent(3, httpUnterminated, hl[2:], true)},
		&Scenario{Name: "http-blank-lines", Doc: "bodies with empty lines and very short lines", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Weight: 1,
			Body: httpConcurrent(2, httpBlank, hl[1:], false)},
		&Scenario{Name: "http-broken-body", Doc: "a body that breaks off at any place next to good requests", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Weight: 1,
			Body: httpFailing},
		&Scenario{Name: "http-forms", Doc: "2 requests of every shape with and without an announced length x the headers of usual clients", Quick: Bounds{}, Thorough: Bounds{Sched: 1}, Body: httpForms},
		&Scenario{Name: "http-large", Doc: "large bodies with and without an announced length", Quick: Bounds{}, Thorough: Bounds{Sched: 1}, Body: httpLarge},
	)
}
