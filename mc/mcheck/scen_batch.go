//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/batchsplitter"
	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/listener"
	"github.com/jumptrading/influx-spout/v2/verifmc/fnats"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mhttp"
)

// ---------------------------------------------------------------------
// C03 batching limits

// arrival is one unit (datagram or request) handed to a listener.
type arrival struct {
	at     int64
	data   string
	writes int
}

// batchOracle explains every published message as a run of consecutive
// arrivals and checks it against the limits.  slack is the polling delay
// allowed on top of the age limit.
func batchOracle(e *env, lim limits, arr []arrival, slack time.Duration, margin int) {
	i := 0
	for _, p := range e.B.Log {
		if p.Subj != subjIn {
			continue
		}
		if p.Err != nil {
			mcrt.Fail("publish of a %d byte batch failed: %v", len(p.Data), p.Err)
		}
		rest := string(p.Data)
		first := i
		writes := 0
		size := 0
		full := false
		for len(rest) > 0 {
			if i >= len(arr) || !strings.HasPrefix(rest, arr[i].data) {
				mcrt.Fail("published batch %s is not a run of received units (unit %d)", short(string(p.Data)), i)
			}
			for i < len(arr) && arr[i].data == "" {
				i++
			}
			if full {
				mcrt.Fail("batch kept growing after reaching a limit: %d units, %d writes, %d bytes (count %d, size %s)", i-first, writes, size, lim.count, lim.size)
			}
			rest = rest[len(arr[i].data):]
			writes += arr[i].writes
			size += len(arr[i].data)
			full = writes >= lim.count || size >= lim.bytes
			i++
			for i < len(arr) && arr[i].data == "" {
				i++
			}
		}
		lastAt := arr[i-1].at
		for k := i - 1; k >= first; k-- {
			if arr[k].data != "" {
				lastAt = arr[k].at
				break
			}
		}
		for arr[first].data == "" {
			first++
		}
		if full && p.At != lastAt {
			mcrt.Fail("full batch (%d writes of %d, %d bytes of %s) published %v late", writes, lim.count, size, lim.size, time.Duration(p.At-lastAt))
		}
		age := time.Duration(p.At - arr[first].at)
		if age > lim.age+slack {
			mcrt.Fail("oldest data of the batch waited %v, batch_max_age is %v", age, lim.age)
		}
		if !full && age < lim.age && size < lim.bytes-margin {
			mcrt.Fail("batch published before any limit was reached: %d writes of %d, %d bytes of %s, age %v of %v", writes, lim.count, size, lim.size, age, lim.age)
		}
		biggest := 0
		for k := first; k < i; k++ {
			if len(arr[k].data) > biggest {
				biggest = len(arr[k].data)
			}
		}
		if margin > 0 && len(p.Data) > lim.bytes && len(p.Data) > biggest {
			mcrt.Fail("published batch has %d bytes, batch_max_size is %s", len(p.Data), lim.size)
		}
	}
	for i < len(arr) && arr[i].data == "" {
		i++
	}
	if i < len(arr) {
		mcrt.Fail("unit %d (%s) was never published", i, short(arr[i].data))
	}
}

func udpBatching() {
	e := setup()
	ls := []limits{{1, 2 * time.Second, "1MB", mb}, {2, 2 * time.Second, "1MB", mb}, {3, 1500 * time.Millisecond, "1MB", mb},
		{1000, 2500 * time.Millisecond, "1MB", mb}, {1000, 5 * time.Second, "128KB", 128 * 1024}, {1000, 2 * time.Second, "192KB", 192 * 1024}}
	k := mcrt.Choose("limits", len(ls))
	lim := ls[k]
	l, err := listener.StartListener(udpConf(lim))
	must(err)
	var arr []arrival
	n := 4
	gaps := []time.Duration{0, 700 * time.Millisecond, 1600 * time.Millisecond}
	for i := 0; i < n; i++ {
		sz := 12
		if k >= 4 {
			sz = []int{20000, 65507, 65536 - 1000}[mcrt.Choose("size", 3)]
		}
		d := bigLine(fmt.Sprintf("u%d ", i), sz)
		if k < 4 && i == 1 && mcrt.Choose("empty", 2) == 1 {
			d = ""
		}
		if i > 0 {
			sleep(gaps[mcrt.Choose("gap", len(gaps))])
		}
		if len(d) > 65507 {
			d = d[:65507]
		}
		e.N.UDP(10001).Send([]byte(d))
		arr = append(arr, arrival{mcrt.NowNanos(), ensureNL(d), 1})
	}
	sleep(lim.age + 2500*time.Millisecond)
	batchOracle(e, lim, arr, time.Second, 65536)
	l.Stop()
}

func httpBatching() {
	e := setup()
	ls := []limits{{1, 2 * time.Second, "1MB", mb}, {2, 2 * time.Second, "1MB", mb}, {4, 1500 * time.Millisecond, "1MB", mb},
		{1000, 2500 * time.Millisecond, "1MB", mb}, {1000, 5 * time.Second, "128KB", 128 * 1024}}
	k := mcrt.Choose("limits", len(ls))
	lim := ls[k]
	l, err := listener.StartHTTPListener(httpConf(lim))
	must(err)
	waitHTTP(13337)
	sleep([]time.Duration{0, 900 * time.Millisecond}[mcrt.Choose("phase", 2)])
	var arr []arrival
	gaps := []time.Duration{0, 700 * time.Millisecond, 1600 * time.Millisecond}
	n := 3
	for i := 0; i < n; i++ {
		if i > 0 {
			sleep(gaps[mcrt.Choose("gap", len(gaps))])
		}
		var r *mhttp.Result
		a := arrival{at: mcrt.NowNanos()}
		switch mcrt.Choose("kind", 3) {
		case 0:
			a.data = fmt.Sprintf("u%d v=1\n", i)
			if k == 4 {
				a.data = bigLine(fmt.Sprintf("u%d ", i), 70000) + "\n"
			}
			a.writes = 1
			r = mhttp.Call(13337, "POST", "/write", pc(a.data))
		case 1:
			a.data = fmt.Sprintf("u%d v=1\nu%d v=2\n", i, i)
			a.writes = 1 // whatever its length, a body counts once
			r = mhttp.Call(13337, "POST", "/write?precision=ns", pc(a.data[:5]), pc(a.data[5:]))
		case 2:
			a.data = ""
			r = mhttp.Call(13337, "POST", "/write")
		}
		checkAnswers([]*mhttp.Result{r})
		arr = append(arr, a)
	}
	sleep(2*lim.age + time.Second)
	batchOracle(e, lim, arr, 0, 65536)
	l.Stop()
}

func httpPrecisionAge() {
	// age and count limits with bodies that are converted line by line
	e := setup()
	ls := []limits{{3, 2 * time.Second, "1MB", mb}, {1000, 1500 * time.Millisecond, "1MB", mb}}
	lim := ls[mcrt.Choose("limits", len(ls))]
	l, err := listener.StartHTTPListener(httpConf(lim))
	must(err)
	waitHTTP(13337)
	type rec struct {
		at   int64
		line string
	}
	var sent []rec
	for i := 0; i < 3; i++ {
		if i > 0 {
			sleep([]time.Duration{0, 700 * time.Millisecond, 1600 * time.Millisecond}[mcrt.Choose("gap", 3)])
		}
		body := fmt.Sprintf("u%d v=1 1600000000000\n", i)
		sent = append(sent, rec{mcrt.NowNanos(), fmt.Sprintf("u%d v=1 1600000000000000000\n", i)})
		checkAnswers([]*mhttp.Result{mhttp.Call(13337, "POST", "/write?precision=ms", pc(body))})
	}
	sleep(2*lim.age + time.Second)
	i := 0
	for _, p := range e.B.Log {
		if p.Subj != subjIn {
			continue
		}
		n := 0
		for _, ln := range lines(p.Data) {
			if i >= len(sent) || sent[i].line != ln {
				mcrt.Fail("unexpected line %q", ln)
			}
			if a := time.Duration(p.At - sent[i].at); a > lim.age {
				mcrt.Fail("line waited %v, batch_max_age is %v", a, lim.age)
			}
			i++
			n++
		}
		if n > lim.count {
			mcrt.Fail("batch of %d lines, batch_max_count is %d", n, lim.count)
		}
	}
	if i != len(sent) {
		mcrt.Fail("line %d was never published", i)
	}
	l.Stop()
}

// ---------------------------------------------------------------------
// C04 splitting

type splitCase struct {
	n, bits, chunk int
}

var splitDims = func() (q, t int) { return 14, 18 }

func splitTotal(maxLen int) int {
	n := 0
	for l := 0; l <= maxLen; l++ {
		n += 1 << l * 7
	}
	return n
}

func splitAt(i int) (string, int) {
	l := 0
	for i >= 1<<l*7 {
		i -= 1 << l * 7
		l++
	}
	chunk := i%7 + 1
	bits := i / 7
	b := make([]byte, l)
	for k := range b {
		if bits>>k&1 == 1 {
			b[k] = '\n'
		} else {
			b[k] = 'a' + byte(k%26)
		}
	}
	return string(b), chunk
}

func checkSplit(what, in string, out []string, chunk int) {
	if strings.Join(out, "") != in {
		mcrt.Fail("%s: chunks %s of %s do not add up", what, short(strings.Join(out, "|")), short(in))
	}
	pos := 0
	for i, c := range out {
		if len(c) == 0 {
			mcrt.Fail("%s: empty chunk for %s", what, short(in))
		}
		if len(c) > chunk {
			mcrt.Fail("%s: chunk %d of %s has %d bytes, limit %d", what, i, short(in), len(c), chunk)
		}
		if i < len(out)-1 && c[len(c)-1] != '\n' {
			// only a line longer than the limit may be cut
			start := strings.LastIndexByte(in[:pos], '\n') + 1
			end := strings.IndexByte(in[pos:], '\n')
			if end < 0 {
				end = len(in)
			} else {
				end += pos + 1
			}
			if strings.IndexByte(c, '\n') >= 0 {
				mcrt.Fail("%s: chunk %d (%s) of %s ends inside a line", what, i, short(c), short(in))
			}
			if end-start <= chunk {
				mcrt.Fail("%s: chunk %d (%s) of %s cuts a line that fits", what, i, short(c), short(in))
			}
		}
		pos += len(c)
	}
}

func splitOne(i int) {
	in, chunk := splitAt(i)
	s := batchsplitter.New([]byte(in), datasize.ByteSize(chunk))
	var out []string
	for s.Next() {
		out = append(out, string(s.Chunk()))
		if len(out) > len(in)+1 {
			mcrt.Fail("splitting %q by %d does not terminate", in, chunk)
		}
	}
	checkSplit("splitter", in, out, chunk)
	if s.Next() {
		mcrt.Fail("Next() true after the end")
	}
}

// listener: one body whose line boundaries lie around the message limit
func listenerSplit() {
	e := setup()
	lim := limits{1000, time.Second, "1MB", mb}
	l, err := listener.StartHTTPListener(httpConf(lim))
	must(err)
	waitHTTP(13337)
	// first line so that its end is at mb+off
	off := []int{-2, -1, 0, 1, 2}[mcrt.Choose("offset", 5)]
	extra := []int{0, 1, 2, 100, mb - 3, mb - 1, mb, mb + 1}[mcrt.Choose("extra", 8)]
	nl := mcrt.Choose("lines", 3)
	var b bytes.Buffer
	n := mb + off
	switch nl {
	case 0: // many lines, one of them ends at n
		for b.Len() < n-200 {
			fmt.Fprintf(&b, "m%d v=1\n", b.Len())
		}
	case 1: // two lines
		b.WriteString(bigLine("m1 ", mb/2) + "\n")
	}
	b.WriteString(bigLine("x ", n-b.Len()-1) + "\n")
	if extra > 1 {
		b.WriteString(bigLine("y", extra-1) + "\n")
	} else if extra == 1 {
		b.WriteString("\n")
	}
	in := b.String()
	checkAnswers([]*mhttp.Result{mhttp.Call(13337, "POST", "/write", pc(in))})
	sleep(3 * time.Second)
	checkPublished(e, "listener", subjIn, in)
	l.Stop()
}

// checkPublished checks the messages on subj: sizes, boundaries, content.
func checkPublished(e *env, what, subj, in string) {
	var out []string
	for _, p := range e.B.Log {
		if p.Subj != subj {
			continue
		}
		if p.Err == fnats.ErrMaxPayload {
			mcrt.Fail("%s handed a message of %d bytes to NATS (limit %d)", what, len(p.Data), mb)
		}
		if p.Err == nil {
			out = append(out, string(p.Data))
		}
	}
	checkSplit(what, in, out, mb)
}

// ---------------------------------------------------------------------
// C05 timestamp precision

var precisions = []string{"", "ns", "u", "ms", "s", "m", "h", "x"}
var multipliers = []int64{1, 1, 1000, 1000000, 1000000000, 60000000000, 3600000000000, 1}

func tsPool(mult int64) []string {
	max := new(big.Int).SetInt64(1<<63 - 1)
	m := big.NewInt(mult)
	var out []string
	add := func(b *big.Int) { out = append(out, b.String()) }
	for _, v := range []int64{0, 1, -1, 9, 10, 99, 1600000000, -1600000000, 1600000000000, 26666666, 444444} {
		add(big.NewInt(v))
	}
	q := new(big.Int).Div(max, m)
	for d := int64(-2); d <= 2; d++ {
		add(new(big.Int).Add(q, big.NewInt(d)))
		add(new(big.Int).Neg(new(big.Int).Add(q, big.NewInt(d))))
	}
	// values whose product wraps around 2^64 into range
	w := new(big.Int).Lsh(big.NewInt(1), 64)
	w.Div(w, m)
	for d := int64(-1); d <= 2; d++ {
		add(new(big.Int).Add(w, big.NewInt(d)))
	}
	out = append(out, "1234567890123456789", "9223372036854775806", "9223372036854775805", "12a", "1.5", "--1", "-", "+5")
	return out
}

func precisionWant(prec int, line string) string {
	// line: body of one line without newline
	i := strings.LastIndexByte(line, ' ')
	ts := line[i+1:]
	n, ok := new(big.Int).SetString(ts, 10)
	if !ok || strings.HasPrefix(ts, "+") || i < 0 || len(ts) > 19 {
		return line
	}
	if !n.IsInt64() {
		return line
	}
	n.Mul(n, big.NewInt(multipliers[prec]))
	lo := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(-1), 63), big.NewInt(2))
	hi := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(2))
	if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
		return line
	}
	if precisions[prec] == "" || precisions[prec] == "ns" || precisions[prec] == "x" {
		// already nanoseconds
		return line[:i+1] + n.String()
	}
	return line[:i+1] + n.String()
}

var precHeads = []string{"m v=1", "cpu,host=a\\ b usage=1.5,s=\"x 12\"", "m,t=1 s=\"ends with 99\""}

func precisionBodies(prec int) []string {
	var out []string
	for _, h := range precHeads {
		for _, t := range tsPool(multipliers[prec]) {
			out = append(out, h+" "+t)
		}
		out = append(out, h)
	}
	return append(out, "a", "ab", "\r", "m v=1 16\r", "m v=1 \t16", "m v=1  16", "m\tv=1\t16")
}

// precisionForms: the ways a client can pass the parameter.
var precisionForms = []struct {
	target, ctype string
	prec          int
}{
	{"/write?precision=s", "application/x-www-form-urlencoded", 4},
	{"/write?db=a&precision=ms&rp=b", "text/plain", 3},
	{"/write?precision=%6ds", "", 3},
	{"/write?precision=h&precision=s", "", 6},
	{"/write?db=x", "application/x-www-form-urlencoded", 0},
	{"/write", "application/x-www-form-urlencoded", 0},
	{"/write?precision", "application/x-www-form-urlencoded", 0},
	{"/write?Precision=s", "", 0},
	{"/write?precision=m", "multipart/form-data; boundary=x", 5},
	{"/write", "multipart/form-data; boundary=x", 0},
	{"/write?precision=MS", "", 7},
	{"/write?precision=ms%20", "", 7},
	{"/write?precision=n", "", 7},
	{"/write?precision=us", "", 7},
	{"/write?precision=hours", "", 7},
	{"/write?precision=", "application/x-www-form-urlencoded", 0},
	{"/write?db=%zz&precision=s", "", 4},
	{"/write?consistency=all&precision=u&u=a&p=b", "application/octet-stream", 2},
}

func precisionForm(i int) {
	tick()
	f := precisionForms[i/2]
	e := setup()
	e.H.Chunked = i%2 == 1
	l, err := listener.StartHTTPListener(httpConf(limits{1, time.Second, "1MB", mb}))
	must(err)
	waitHTTP(13337)
	if f.ctype != "" {
		e.H.Header = map[string]string{"Content-Type": f.ctype}
	}
	var want []string
	for _, b := range []string{"m v=1 16", "precision=h&a v=1 17", "precision=s", "m,t=&x=1;y v=\"%zz\" 18"} {
		checkAnswers([]*mhttp.Result{mhttp.Call(13337, "POST", f.target, pc(b+"\n"))})
		want = append(want, precisionWant(f.prec, b)+"\n")
	}
	sleep(3 * time.Second)
	compareLines(fmt.Sprintf("%s with content type %q", f.target, f.ctype), lines(join(e.published(subjIn))), want)
	l.Stop()
}

// precisionValues posts every pool line, one request per line.
func precisionValues() {
	e := setup()
	prec := mcrt.Choose("precision", len(precisions))
	bodies := precisionBodies(prec)
	lim := limits{1, time.Second, "1MB", mb}
	l, err := listener.StartHTTPListener(httpConf(lim))
	must(err)
	waitHTTP(13337)
	mode := mcrt.Choose("mode", 3)
	target := "/write"
	if precisions[prec] != "" {
		target += "?precision=" + precisions[prec]
	}
	var want []string
	post := func(s string) {
		checkAnswers([]*mhttp.Result{mhttp.Call(13337, "POST", target, pc(s))})
	}
	switch mode {
	case 0: // one line per request
		for _, b := range bodies {
			post(b + "\n")
			want = append(want, precisionWant(prec, b)+"\n")
		}
	case 1: // all lines in one request
		post(strings.Join(bodies, "\n") + "\n")
		for _, b := range bodies {
			want = append(want, precisionWant(prec, b)+"\n")
		}
	case 2: // last line of the body unterminated
		for _, b := range bodies {
			if len(b) == 1 {
				continue
			}
			post("a v=1\n" + b)
			want = append(want, "a v=1\n", precisionWant(prec, b)+"\n")
		}
	}
	sleep(3 * time.Second)
	var got []string
	for _, m := range e.published(subjIn) {
		if m[len(m)-1] != '\n' {
			m = append(m, '\n')
		}
		got = append(got, lines(m)...)
	}
	compareLines("precision "+precisions[prec], got, want)
	l.Stop()
}

func compareLines(what string, got, want []string) {
	for i := range want {
		if i >= len(got) {
			mcrt.Fail("%s: line %d %s missing", what, i, short(want[i]))
		}
		if got[i] != want[i] {
			mcrt.Fail("%s: line %d is %s, expected %s", what, i, short(got[i]), short(want[i]))
		}
	}
	if len(got) > len(want) {
		mcrt.Fail("%s: unexpected line %s", what, short(got[len(want)]))
	}
}

// precisionSplits delivers one body in two pieces cut at every position.
func precisionSplits() {
	e := setup()
	prec := mcrt.Choose("precision", 4) + 2
	body := "m v=1 16000\ncpu,a=b v=\"x y\" 1600001\n\nlast v=3\nz v=1 1600002"
	nl := mcrt.Choose("terminated", 2)
	if nl == 1 {
		body += "\n"
	}
	cut := mcrt.Choose("cut", len(body)+1)
	lim := limits{100, time.Second, "1MB", mb}
	l, err := listener.StartHTTPListener(httpConf(lim))
	must(err)
	waitHTTP(13337)
	var p []mhttp.Piece
	if cut > 0 {
		p = append(p, pc(body[:cut]))
	}
	if cut < len(body) {
		p = append(p, pcd(body[cut:], []time.Duration{0, 300 * time.Millisecond}[mcrt.Choose("pause", 2)]))
	}
	checkAnswers([]*mhttp.Result{mhttp.Call(13337, "POST", "/write?precision="+precisions[prec], p...)})
	sleep(3 * time.Second)
	var want []string
	for _, ln := range strings.Split(body, "\n") {
		if ln != "" {
			want = append(want, precisionWant(prec, ln)+"\n")
		}
	}
	var got []string
	for _, ln := range lines(join(e.published(subjIn))) {
		if ln != "\n" {
			got = append(got, ln)
		}
	}
	compareLines("split body", got, want)
	l.Stop()
}

// precisionShort posts every short body.
const shortAlphabet = "a 1\n="

var shortPrecs = []int{0, 2, 4, 7}

func precisionShortN(th bool) int {
	n := 7
	if th {
		n = 8
	}
	return len(shortPrecs) * tokenTotal(n, len(shortAlphabet))
}

func precisionShortSetup() {
	e := setup()
	_, err := listener.StartHTTPListener(httpConf(limits{1, time.Second, "1MB", mb}))
	must(err)
	waitHTTP(13337)
	mcrt.X.Data["env"] = e
}

func precisionShort(i int) {
	e := mcrt.X.Data["env"].(*env)
	prec := shortPrecs[i%len(shortPrecs)]
	body := garbageAt(i/len(shortPrecs), shortAlphabet)
	target := "/write"
	if precisions[prec] != "" {
		target += "?precision=" + precisions[prec]
	}
	checkAnswers([]*mhttp.Result{mhttp.Call(13337, "POST", target, pc(body))})
	want := ""
	if prec == 0 {
		want = body
	} else {
		for _, ln := range strings.SplitAfter(body, "\n") {
			switch {
			case ln == "" || ln == "\n":
				continue
			case len(ln) >= 6: // might have a timestamp
				ln = precisionWant(prec, strings.TrimSuffix(ln, "\n")) + "\n"
			}
			want += ln
		}
	}
	got := string(join(e.published(subjIn)))
	if strings.TrimSuffix(got, "\n") != strings.TrimSuffix(want, "\n") {
		mcrt.Fail("body %q with precision %q was published as %q", body, precisions[prec], got)
	}
	e.B.Log = e.B.Log[:0]
}

// precisionLong posts lines of every size class up to the message limit.
func precisionLong() {
	e := setup()
	prec := []string{"", "ns", "ms", "s"}[mcrt.Choose("precision", 4)]
	n := []int{4095, 4096, 4097, 65535, 65536, 65537, 70000, 300000, mb - 20, mb + 100, 2500000}[mcrt.Choose("length", 11)]
	e2 := mcrt.Choose("neighbours", 2)
	lim := []limits{{1, time.Second, "1MB", mb}, {1, time.Second, "10KB", 10 << 10}}[mcrt.Choose("batch size", 2)]
	l, err := listener.StartHTTPListener(httpConf(lim))
	must(err)
	waitHTTP(13337)
	target := "/write"
	if prec != "" {
		target += "?precision=" + prec
	}
	ts, want := "1600000000000000000", "1600000000000000000"
	switch prec {
	case "ms":
		ts = "1600000000000"
	case "s":
		ts = "1600000000"
	}
	head := bigLine("m,t=1 v=\"", n-len(ts)-3) + "\" "
	body, exp := "", []string{}
	if e2 == 1 {
		body, exp = "a v=1 "+ts+"\n", append(exp, "a v=1 "+want+"\n")
	}
	body += head + ts + "\n"
	exp = append(exp, head+want+"\n")
	if e2 == 1 {
		body += "z v=1 " + ts + "\n"
		exp = append(exp, "z v=1 "+want+"\n")
	}
	cut := []int{0, len(body) / 2}[mcrt.Choose("cut", 2)]
	pieces := []mhttp.Piece{pc(body)}
	if cut > 0 {
		pieces = []mhttp.Piece{pc(body[:cut]), pcd(body[cut:], time.Millisecond)}
	}
	checkAnswers([]*mhttp.Result{mhttp.Call(13337, "POST", target, pieces...)})
	sleep(3 * time.Second)
	compareLines("long line", lines(join(e.published(subjIn))), exp)
	l.Stop()
}

func precisionReqs(i int) []httpReq {
	n := func(k int) string { return fmt.Sprintf("c%dl%d v=%d", i, k, k) }
	return []httpReq{
		{"/write?precision=ms", []mhttp.Piece{pc(n(0) + " 1600000000000\n" + n(1) + "\n")}, []string{n(0) + " 1600000000000000000", n(1)}},
		{"/write?precision=s", []mhttp.Piece{pc(n(0) + " 16000"), pc("00000\n" + n(1) + " 1600000001\n")}, []string{n(0) + " 1600000000000000000", n(1) + " 1600000001000000000"}},
		{"/write?precision=h", []mhttp.Piece{pc(n(0) + " 444444\n" + n(1) + " 9\n")}, []string{n(0) + " 1599998400000000000", n(1) + " 32400000000000"}},
		{"/write?precision=u", []mhttp.Piece{pc(n(0) + " 1600000000000000\n")}, []string{n(0) + " 1600000000000000000"}},
		{"/write", []mhttp.Piece{pc(n(0) + " 16000"), pc("00000\n")}, []string{n(0) + " 1600000000"}},
	}
}

var _ = config.MaxNATSMsgSize

func init() {
	addScenario("C03",
		&Scenario{Name: "udp-batching", Doc: "4 datagrams, all spacings/sizes x 6 limit settings, all schedules", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Weight: 3, Body: udpBatching},
		&Scenario{Name: "http-batching", Doc: "3 requests, all kinds/spacings x 5 limit settings, all schedules", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Weight: 3, Body: httpBatching},
		&Scenario{Name: "http-precision-age", Doc: "line by line converted bodies", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 3}, Body: httpPrecisionAge},
	)
	addScenario("C04",
		&Scenario{Name: "splitter", Doc: "every line structure up to a length x every chunk size 1..7", Weight: 2, Chunk: 4000,
			N: func(th bool) int {
				q, t := splitDims()
				if th {
					return splitTotal(t)
				}
				return splitTotal(q)
			}, Case: splitOne},
		&Scenario{Name: "listener-1MB", Doc: "line boundaries at every offset around the NATS message limit", Weight: 2, Thorough: Bounds{Sched: 1}, Body: listenerSplit},
	)
	addScenario("C05",
		&Scenario{Name: "short-bodies", Doc: "every body of up to 7 (thorough 8) bytes over 5 characters x 4 precisions", Opts: mcrt.Opts{MaxSteps: 100000000}, Chunk: 400, Body: precisionShortSetup, N: precisionShortN, Case: precisionShort},
		&Scenario{Name: "values", Doc: "every precision x boundary timestamps x line shapes x request shapes", Thorough: Bounds{Sched: 1}, Body: precisionValues},
		&Scenario{Name: "request-forms", Doc: "every way to pass the parameter x content types x with and without a Content-Length", Chunk: 1, N: fixedN(2 * len(precisionForms)), Case: precisionForm},
		&Scenario{Name: "body-cuts", Doc: "a body delivered in two pieces cut at every byte", Quick: Bounds{}, Thorough: Bounds{Sched: 1}, Body: precisionSplits},
		&Scenario{Name: "long-lines", Doc: "lines of every size class up to 2.5 MB, with small and large batches", Quick: Bounds{}, Thorough: Bounds{Sched: 1}, Body: precisionLong},
		&Scenario{Name: "concurrent", Doc: "2 requests with converted bodies at the same time, all schedules", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 3}, Weight: 2,
			Opts: mcrt.Opts{Demote: true}, Body: httpConcurrent(2, precisionReqs, []limits{{1, time.Second, "1MB", mb}, {10, time.Second, "1MB", mb}}, true)},
	)
}
