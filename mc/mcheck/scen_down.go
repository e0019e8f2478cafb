//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/downsampler"
	"github.com/jumptrading/influx-spout/v2/verifmc/fnats"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
)

const dsToml = "mode=\"downsampler\"\nname=\"ds\"\nnats_subject=[\"in\"]\ndownsample_period=\"10s\"\nstats_interval=\"100h\"\n"

func startDS(mod func(*config.Config)) *downsampler.Downsampler {
	c := conf(dsToml)
	if mod != nil {
		mod(c)
	}
	must(c.Validate())
	d, err := downsampler.StartDownsampler(c)
	must(err)
	return d
}

// outLine is one line emitted by the downsampler.
type outLine struct {
	at     int64
	head   string // measurement, tags
	fields string
	ts     int64
}

func (e *env) dsOutput(subj string) []outLine {
	var out []outLine
	for _, p := range e.B.Log {
		if p.Subj != subj {
			continue
		}
		if p.Err == fnats.ErrMaxPayload {
			mcrt.Fail("downsampler handed a message of %d bytes to NATS", len(p.Data))
		}
		if p.Err != nil {
			continue
		}
		if len(p.Data) == 0 || p.Data[len(p.Data)-1] != '\n' {
			mcrt.Fail("downsampler message does not end with a newline: %s", short(string(p.Data)))
		}
		for _, ln := range strings.Split(strings.TrimSuffix(string(p.Data), "\n"), "\n") {
			i := strings.LastIndexByte(ln, ' ')
			if i < 0 {
				mcrt.Fail("malformed output line %q", ln)
			}
			ts, err := strconv.ParseInt(ln[i+1:], 10, 64)
			if err != nil {
				mcrt.Fail("output line without timestamp: %q", ln)
			}
			rest := ln[:i]
			// first unescaped space ends the key
			k := 0
			for k < len(rest) && rest[k] != ' ' {
				if rest[k] == '\\' {
					k++
				}
				k++
			}
			if k >= len(rest) {
				mcrt.Fail("output line without fields: %q", ln)
			}
			out = append(out, outLine{p.At, rest[:k], rest[k+1:], ts})
		}
	}
	return out
}

// ---------------------------------------------------------------------
// C12

const phase12 = 3 * time.Second

func windows(period time.Duration, nmsg int, offs []int, subj string, gaps []time.Duration) func() {
	return func() {
		e := setup()
		p := int64(period)
		startDS(func(c *config.Config) {
			c.DownsamplePeriod = config.NewDuration(period)
			c.StatsInterval = config.NewDuration(time.Hour)
		})
		sleep(period * 3 / 10)
		type key struct {
			head string
			end  int64
		}
		sum := map[key]float64{}
		cnt := map[key]int{}
		rejected := 0
		for m := 0; m < nmsg; m++ {
			if m > 0 {
				sleep(gaps[mcrt.Choose("gap", len(gaps))])
			}
			now := mcrt.NowNanos()
			floor := func(ts int64) int64 { return time.Unix(0, ts).Truncate(period).UnixNano() }
			tc := floor(now) + p
			o := offs[mcrt.Choose("ts", len(offs))]
			ts := now
			switch o {
			case 0: // no timestamp
			case 1:
				ts = now
			case 2:
				ts = tc - 2*p - 1
			case 3:
				ts = tc - 2*p
			case 4:
				ts = tc - p - 1
			case 5:
				ts = tc - p
			case 6:
				ts = tc - 1
			case 7:
				ts = tc
			case 8:
				ts = tc + p - 1
			case 9:
				ts = tc + p
			case 10:
				ts = 1
			}
			val := float64(int(1) << uint(m))
			var msg string
			for _, h := range []string{"all,h=a", fmt.Sprintf("one,m=%d", m)} {
				if o == 0 {
					msg += fmt.Sprintf("%s v=%v\n", h, val)
				} else {
					msg += fmt.Sprintf("%s v=%v %d\n", h, val, ts)
				}
				if ts < tc-2*p || ts >= tc+p {
					rejected++
					continue
				}
				k := key{h, floor(ts) + p}
				sum[k] += val
				cnt[k]++
			}
			e.B.Inject("in", []byte(msg))
			mcrt.Yield("inject")
		}
		sleep(5*period + period/2)
		seen := map[key]bool{}
		for _, o := range e.dsOutput("in-archive") {
			k := key{o.head, o.ts}
			if seen[k] {
				mcrt.Fail("series %s emitted twice for window %d", o.head, o.ts)
			}
			seen[k] = true
			if cnt[k] == 0 {
				mcrt.Fail("nothing was received for series %s in the window ending %d (relative %v)", o.head, o.ts, time.Duration(o.ts-mcrt.Epoch))
			}
			if o.at != o.ts+p {
				mcrt.Fail("window ending %v emitted at %v, expected %v", time.Duration(o.ts-mcrt.Epoch), time.Duration(o.at-mcrt.Epoch), time.Duration(o.ts+p-mcrt.Epoch))
			}
			want := sum[k] / float64(cnt[k])
			f, err := strconv.ParseFloat(strings.TrimPrefix(o.fields, "v="), 64)
			if err != nil || f-want > 1e-9 || want-f > 1e-9 {
				mcrt.Fail("series %s window %v: %s, expected average %v of %d values", o.head, time.Duration(o.ts-mcrt.Epoch), o.fields, want, cnt[k])
			}
		}
		if len(seen) != len(cnt) {
			mcrt.Fail("%d series/windows were emitted, %d received data", len(seen), len(cnt))
		}
		for i := range e.B.Log {
			if e.B.Log[i].Subj != "in-archive" && e.B.Log[i].Subj != subjMon {
				mcrt.Fail("unexpected publish on %s", e.B.Log[i].Subj)
			}
		}
		mcrt.Observe("%d %d", len(seen), rejected)
	}
}

// dsSchedules: two subjects, traffic around a rotation, all schedules
func dsSchedules() {
	e := setup()
	startDS(func(c *config.Config) {
		c.NATSSubject = []string{"in", "in2"}
		c.StatsInterval = config.NewDuration(time.Second)
	})
	p := int64(10 * time.Second)
	base := mcrt.NowNanos() / p * p
	want := map[string]int{}
	for i := 0; i < 3; i++ {
		for _, s := range []string{"in", "in2"} {
			e.B.Inject(s, []byte(fmt.Sprintf("m,i=%d v=%d %d\nall v=%d %d\n", i, i, base+int64(i), 2*i, base+int64(i))))
			mcrt.Yield("inject")
			want[s+fmt.Sprintf("m,i=%d v=%d", i, i)]++
		}
		if i == 1 {
			sleep(9 * time.Second)
		}
	}
	want["inall v=2"], want["in2all v=2"] = 1, 1
	sleep(30 * time.Second)
	for _, s := range []string{"in", "in2"} {
		for _, o := range e.dsOutput(s + "-archive") {
			if o.ts != base+p {
				mcrt.Fail("line emitted for window %d", o.ts)
			}
			k := s + o.head + " " + o.fields
			want[k]--
			if want[k] < 0 {
				mcrt.Fail("unexpected output %q on %s", o.head+" "+o.fields, s)
			}
		}
	}
	for _, k := range keysOf(want) {
		if want[k] != 0 {
			mcrt.Fail("missing output %q", k)
		}
	}
}

// ---------------------------------------------------------------------
// C13 aggregates

var intPool = []int64{0, 1, -1, 2, 5, -8, 100, 1000000007, 1<<63 - 1, -1 << 63, 1<<62 + 1}
var floatPool = []string{"0", "1.5", "-2.25", "1e10", "3", "0.1", "-1e-3", "1.7976931348623157e308", "-1.7976931348623157e308", "1e-300", "9007199254740993"}

var strPool = []string{`""`, `"x1"`, `"1"`, `"2i"`, `"true"`, `"a=b"`, `"` + strings.Repeat("long ", 60) + `"`, `"q\"q"`, `" "`, `"=#"`, `"日本"`}
var boolPool = []string{"t", "f", "T", "F", "true", "false", "True", "False", "TRUE", "FALSE"}

func boolText(s string) bool {
	for _, b := range boolPool {
		if s == b {
			return true
		}
	}
	return false
}

// aggCase: one chunk element = one value sequence in one window.
func aggSetup() {
	e := setup()
	startDS(nil)
	mcrt.X.Data["env"] = e
	sleep(3 * time.Second)
}

func aggRun(lines []string) map[string]string {
	e := mcrt.X.Data["env"].(*env)
	from := len(e.B.Log)
	for _, ln := range lines {
		e.B.Inject("in", []byte(ln))
	}
	sleep(20 * time.Second)
	got := map[string]string{}
	sub := &env{B: &fnats.Broker{Log: e.B.Log[from:]}}
	for _, o := range sub.dsOutput("in-archive") {
		if got[o.head] != "" {
			mcrt.Fail("series %s emitted twice", o.head)
		}
		got[o.head] = o.fields
	}
	e.B.Log = e.B.Log[:0]
	return got
}

func seqAt(i, n int) []int {
	// sequences of length >= 1 in length order
	p, l := n, 1
	for i >= p {
		i -= p
		p *= n
		l++
	}
	out := make([]int, l)
	for k := range out {
		out[k] = i % n
		i /= n
	}
	return out
}

func seqTotal(n, maxLen int) int {
	t, p := 0, 1
	for l := 1; l <= maxLen; l++ {
		p *= n
		t += p
	}
	return t
}

func parseFields(s string) map[string]string {
	// values without commas or spaces
	out := map[string]string{}
	for _, f := range strings.Split(s, ",") {
		i := strings.IndexByte(f, '=')
		if i < 0 {
			mcrt.Fail("malformed fields %q", s)
		}
		out[f[:i]] = f[i+1:]
	}
	return out
}

func checkInt(what string, got string, vals []int64) {
	if !strings.HasSuffix(got, "i") {
		mcrt.Fail("%s: integer field came out as %q", what, got)
	}
	n, err := strconv.ParseInt(got[:len(got)-1], 10, 64)
	if err != nil {
		mcrt.Fail("%s: integer field came out as %q", what, got)
	}
	sum := new(big.Int)
	for _, v := range vals {
		sum.Add(sum, big.NewInt(v))
	}
	// rounded toward zero
	d := new(big.Int).Quo(sum, big.NewInt(int64(len(vals))))
	if d.Cmp(big.NewInt(n)) != 0 {
		l := fmt.Sprint(vals)
		if len(vals) > 20 {
			l = fmt.Sprint(vals[:10]) + "..."
		}
		mcrt.Fail("%s: average of %d integers %s came out as %d, the mean is %s/%d", what, len(vals), l, n, sum, len(vals))
	}
}

func checkFloat(what string, got string, vals []string) {
	f, err := strconv.ParseFloat(got, 64)
	if err != nil {
		mcrt.Fail("%s: float field came out as %q", what, got)
	}
	want, mag := 0.0, 0.0
	exact := new(big.Rat)
	for _, v := range vals {
		x, _ := strconv.ParseFloat(v, 64)
		exact.Add(exact, new(big.Rat).SetFloat64(x))
		if x < 0 {
			x = -x
		}
		if x > mag {
			mag = x
		}
	}
	want, _ = exact.Quo(exact, big.NewRat(int64(len(vals)), 1)).Float64()
	d := f - want
	if d < 0 {
		d = -d
	}
	if len(vals) == 1 && f != want {
		mcrt.Fail("%s: the only value %s came out as %s", what, vals[0], got)
	}
	if !(d <= 1e-15*float64(8+len(vals))*mag) {
		mcrt.Fail("%s: average of %d floats came out as %v, the mean is %v", what, len(vals), f, want)
	}
}

// aggCase packs the same sequence as ints, floats, strings and booleans.
func aggCase(i int) {
	seq := seqAt(i, len(intPool))
	var ls []string
	var ints []int64
	var floats []string
	for k, s := range seq {
		f := floatPool[s%len(floatPool)]
		ints = append(ints, intPool[s])
		floats = append(floats, f)
		ls = append(ls, fmt.Sprintf("m,h=a i=%di,f=%s,s=%s,b=%v\nother i=%di\n", intPool[s], f, strPool[s], boolPool[s%len(boolPool)], k))
	}
	got := aggRun(ls)
	if len(got) != 2 {
		mcrt.Fail("expected 2 series, got %v", keysOf(got))
	}
	f := parseFields(got["m,h=a"])
	last := seq[len(seq)-1]
	checkInt(fmt.Sprintf("sequence %v", seq), f["i"], ints)
	checkFloat(fmt.Sprintf("sequence %v", seq), f["f"], floats)
	if f["s"] != strPool[last] {
		mcrt.Fail("sequence %v: string field is %s, the last value was %s", seq, f["s"], strPool[last])
	}
	if b := boolPool[last%len(boolPool)]; !boolText(f["b"]) || (f["b"][0]|32) != (b[0]|32) {
		mcrt.Fail("sequence %v: boolean field is %s, the last value was %s", seq, f["b"], b)
	}
	if len(f) != 4 {
		mcrt.Fail("sequence %v: fields %v", seq, keysOf(f))
	}
	// the values of the window before must not leak into the next one
}

// aggLong: periodic sequences long enough to expose drift.
type longSpec struct {
	pattern []int64
	n       int
}

func longSpecs(th bool) []longSpec {
	vals := []int64{0, 1, 3, 50, -7}
	var out []longSpec
	ns := []int{50, 333}
	if th {
		ns = []int{50, 333, 1000, 3000}
	}
	for _, a := range vals {
		for _, b := range vals {
			for _, c := range vals {
				for _, n := range ns {
					out = append(out, longSpec{[]int64{a, b, c}, n})
				}
			}
		}
	}
	// ramps and steps
	for _, n := range ns {
		out = append(out, longSpec{nil, n})
	}
	return out
}

var longQuick, longThorough = longSpecs(false), longSpecs(true)

func aggLong(i int) {
	sp := longThorough[i]
	if i < len(longQuick) {
		sp = longQuick[i]
	}
	var ints []int64
	var floats []string
	var b strings.Builder
	for k := 0; k < sp.n; k++ {
		v := int64(k)
		if sp.pattern != nil {
			v = sp.pattern[k%len(sp.pattern)]
			if k < sp.n/3 {
				v = sp.pattern[0]
			}
		}
		ints = append(ints, v)
		floats = append(floats, fmt.Sprintf("%d.25", v))
		fmt.Fprintf(&b, "m i=%di,f=%d.25\n", v, v)
	}
	got := aggRun([]string{b.String()})
	f := parseFields(got["m"])
	checkInt("long sequence", f["i"], ints)
	checkFloat("long sequence", f["f"], floats)
}

// ---------------------------------------------------------------------
// C14 rejected lines

var badLines = []string{
	"bad ", "bad v", "bad v=", "bad v=1,", "bad v=1,w", "bad v=\"x", "bad v=\"", "bad v=\"x\\\"", "bad ,", "bad =",
	"g1,h=a v=100,w", "g1,h=a v=100,s=\"x", "g2 s=\"zz\",v=50,",
	"bad a=1,v=\"unterminated 1600000000000000000", " ", "bad  v", "bad,t=1 v", "bad v 1600000000000000000",
	"g1,h=a v=100 w=5", "g2 s=\"zz\"v=7", "g2 v=50,s=\"zz\"x",
}

func badLineCase(th bool) func() {
	return func() {
		e := setup()
		startDS(func(c *config.Config) { c.StatsInterval = config.NewDuration(time.Second) })
		sleep(3 * time.Second)
		now := mcrt.NowNanos()
		good := []string{"g1,h=a v=1", "g2 v=2,s=\"a b\"", "g1,h=a v=3"}
		stale := []string{fmt.Sprintf("g1,h=a v=100 %d", now-int64(time.Hour)), fmt.Sprintf("g1,h=a v=100 %d", now+int64(time.Hour))}
		var ls []string
		nb, ns := 0, 0
		n := 2
		if th {
			n = 3
		}
		for k := 0; k < n; k++ {
			ls = append(ls, good[k])
			c := mcrt.Choose("bad", len(badLines)+len(stale)+2)
			switch {
			case c == len(badLines)+len(stale):
				ls = append(ls, "") // empty lines are skipped
			case c < len(badLines):
				ls = append(ls, badLines[c])
				nb++
			case c < len(badLines)+len(stale):
				ls = append(ls, stale[c-len(badLines)])
				ns++
			}
		}
		if n == 2 {
			ls = append(ls, good[2])
		}
		switch mcrt.Choose("packing", 3) {
		case 0:
			e.B.Inject("in", []byte(strings.Join(ls, "\n")+"\n"))
		case 1:
			e.B.Inject("in", []byte(strings.Join(ls, "\n")))
		default:
			for _, l := range ls {
				e.B.Inject("in", []byte(l+"\n"))
			}
		}
		sleep(30 * time.Second)
		var got []string
		for _, o := range e.dsOutput("in-archive") {
			got = append(got, o.head+" "+o.fields)
		}
		sort.Strings(got)
		if strings.Join(got, "|") != "g1,h=a v=2|g2 s=\"a b\",v=2" {
			mcrt.Fail("with lines %q the output is %q", ls, got)
		}
		if n, ok := e.counter(subjMon, "invalid_lines", ""); !ok || n != int64(nb) {
			mcrt.Fail("invalid_lines is %d for lines %q", n, ls)
		}
		if n, ok := e.counter(subjMon, "invalid_timestamps", ""); !ok || n != int64(ns) {
			mcrt.Fail("invalid_timestamps is %d for lines %q", n, ls)
		}
	}
}

// typeConflict: a value of another type is rejected but the rest of the
// line and of the series is unaffected.
// Values with their types and, for numbers, twice their value.
var conflictVals = []struct {
	text string
	typ  byte
	two  int64
}{
	{"4i", 'i', 8}, {"10i", 'i', 20}, {"2.5", 'f', 5}, {"0.5", 'f', 1}, {"12", 'f', 24}, {"\"7\"", 's', 0}, {"\"a b,v=1\"", 's', 0}, {"\"3i\"", 's', 0}, {"true", 'b', 0}, {"f", 'b', 0},
	// of no type: never part of a mean
	{"99999999999999999999i", 'x', 0}, {"1xi", 'x', 0}, {"i", 'x', 0}, {"1.5.2", 'x', 0},
}

// typeConflict: sequences of values of different types for one field. The
// first decides the type, values of other types are errors.
func typeConflict() {
	n := 3
	if thoroughTier() {
		n = 4
	}
	e := setup()
	startDS(func(c *config.Config) { c.StatsInterval = config.NewDuration(time.Second) })
	sleep(3 * time.Second)
	var seq []string
	var typ byte
	var sum, count, bad int64
	last := ""
	for i := 0; i < n; i++ {
		v := conflictVals[mcrt.Choose("value", len(conflictVals))]
		if i == 0 {
			typ = v.typ
		}
		if typ == 'x' {
			noType(e, v.text)
			return
		}
		if typ == 'b' && v.typ == 'x' {
			return // indistinguishable for the downsampler
		}
		if v.typ == typ {
			sum += v.two
			count++
			last = v.text
		} else {
			bad++
		}
		seq = append(seq, v.text)
		e.B.Inject("in", []byte(fmt.Sprintf("m v=%s,w=%d\nx v=%d\n", v.text, 2*i+1, 2*i+1)))
	}
	want := last
	switch typ {
	case 'i':
		want = fmt.Sprintf("%di", sum/2/count)
	case 'f':
		want = strconv.FormatFloat(float64(sum)/2/float64(count), 'g', -1, 64)
	}
	sleep(30 * time.Second)
	var got []string
	for _, o := range e.dsOutput("in-archive") {
		if typ == 'f' && strings.HasPrefix(o.fields, "v=") {
			// allow for rounding of the last digits
			k := strings.IndexByte(o.fields, ',')
			if k > 0 {
				f, err := strconv.ParseFloat(o.fields[2:k], 64)
				if w, _ := strconv.ParseFloat(want, 64); err == nil && f > w-1e-12 && f < w+1e-12 {
					o.fields = "v=" + want + o.fields[k:]
				}
			}
		}
		got = append(got, o.head+" "+o.fields)
	}
	sort.Strings(got)
	if len(got) != 2 || got[0] != "m v="+want+fmt.Sprintf(",w=%d", n) || got[1] != fmt.Sprintf("x v=%d", n) {
		mcrt.Fail("values %s: output %q, expected the value %s", seq, got, want)
	}
	if n, ok := e.counter(subjMon, "invalid_lines", ""); !ok || n != bad {
		mcrt.Fail("values %s: invalid_lines is %d, expected %d", seq, n, bad)
	}
}

// noType: a value which is none is either rejected or left as it is.
func noType(e *env, text string) {
	e.B.Inject("in", []byte(fmt.Sprintf("m v=%s,w=1\nx v=1\n", text)))
	sleep(30 * time.Second)
	ok := false
	for _, o := range e.dsOutput("in-archive") {
		switch {
		case o.head == "x" && o.fields == "v=1":
			ok = true
		case o.head == "m" && (o.fields == "w=1" || o.fields == "v="+text+",w=1"):
		default:
			mcrt.Fail("value %s: output %q", text, o.head+" "+o.fields)
		}
	}
	if !ok {
		mcrt.Fail("value %s: the other series is missing", text)
	}
}

// ---------------------------------------------------------------------
// C15 identity of series and fields

var idMeas = []string{"m", "m\\ x", "m\\,y"}
var idTags = []string{"", ",h=a", ",h=b", ",h=a,i=b", ",h=a\\,i\\=b", ",h=a\\ b", ",日=本"}
var idFields = []string{"v", "w", "v\\ 1", "v\\=1", "v\\,w", "日"}
var idStrings = []string{"plain", "", "a b", "a,b=c", "say \\\"hi\\\"", "trail\\\\", "a\\\\b", "\\\\\\\"q", "日本", "c:\\\\dir\\\\", "a\\,b \\\"", "x=\\\"1\\\",y=2"}

// collidingNames returns names of which pairs have equal 32 bit hashes, for
// all commonly used hash functions.
func collidingNames(format string) []string {
	var out []string
	for _, h := range []func([]byte) uint32{
		func(b []byte) uint32 { h := fnv.New32(); h.Write(b); return h.Sum32() },
		func(b []byte) uint32 { h := fnv.New32a(); h.Write(b); return h.Sum32() },
		crc32.ChecksumIEEE,
		func(b []byte) uint32 { return crc32.Checksum(b, crc32.MakeTable(crc32.Castagnoli)) },
		adler32.Checksum,
		func(b []byte) uint32 { // djb2
			h := uint32(5381)
			for _, c := range b {
				h = h*33 + uint32(c)
			}
			return h
		},
		func(b []byte) uint32 { // Java's String.hashCode
			h := uint32(0)
			for _, c := range b {
				h = h*31 + uint32(c)
			}
			return h
		},
	} {
		seen := map[uint32]string{}
		for i, n := 0, 0; n < 2 && i < 250000; i++ {
			s := fmt.Sprintf(format, uint32(i)*0x9E3779B1)
			k := h([]byte(s))
			if o, ok := seen[k]; ok {
				out = append(out, o, s)
				n++
			}
			seen[k] = s
		}
	}
	var uniq []string
	done := map[string]bool{}
	for _, s := range out {
		if !done[s] {
			done[s] = true
			uniq = append(uniq, s)
		}
	}
	return uniq
}

// identityCollide sends series (case 0) or fields of one series (case 1)
// whose names collide in some hash function.
func identityCollide(i int) {
	e := setup()
	startDS(nil)
	sleep(3 * time.Second)
	series, field := "m,host=h%08x", "v"
	if i == 1 {
		series, field = "m,host=a", "f%08x"
	}
	names := collidingNames([]string{series, field}[i])
	want := map[string]int{}
	for _, add := range []int{0, 2} {
		for k, n := range names {
			if i == 0 {
				e.B.Inject("in", []byte(fmt.Sprintf("%s v=%di\n", n, 10*k+add)))
			} else {
				e.B.Inject("in", []byte(fmt.Sprintf("%s %s=%di\n", series, n, 10*k+add)))
			}
			want[n] = 10*k + 1
		}
	}
	sleep(20 * time.Second)
	got := map[string]string{}
	for _, o := range e.dsOutput("in-archive") {
		for f, v := range parseFields(o.fields) {
			n := o.head
			if i == 1 {
				n = f
			}
			if got[n] != "" {
				mcrt.Fail("%s emitted twice", n)
			}
			got[n] = v
		}
	}
	for _, n := range names {
		if got[n] != fmt.Sprintf("%di", want[n]) {
			mcrt.Fail("the mean for %s is %q, expected %di", n, got[n], want[n])
		}
	}
	if len(got) != len(want) {
		mcrt.Fail("%d names came out as %d", len(want), len(got))
	}
}

var dsSubjects = []string{"in", "in2", "i", "in-archive", "in.archive", "a.b", "A.B", "a", "archive", "x-archive-archive", "in_1h"}
var dsSuffixes = []string{"-archive", "archive", ".a", "_1h", "-", "2", "n"}

func dsNamesN(bool) int { return len(dsSubjects) * len(dsSubjects) * len(dsSuffixes) }

// dsNames: the subjects downsampled data are published on.
func dsNames(i int) {
	suffix := dsSuffixes[i%len(dsSuffixes)]
	i /= len(dsSuffixes)
	a, b := dsSubjects[i%len(dsSubjects)], dsSubjects[i/len(dsSubjects)]
	if a == b || a+suffix == b || b+suffix == a {
		return // one is the output of the other
	}
	e := setup()
	startDS(func(c *config.Config) { c.NATSSubject = []string{a, b}; c.DownsampleSuffix = suffix })
	sleep(3 * time.Second)
	for k := 0; k < 3; k++ {
		e.B.Inject(a, []byte(fmt.Sprintf("m,a=1 v=%di\n", k)))
		e.B.Inject(b, []byte(fmt.Sprintf("m,a=1 v=%di\n", 10*k+20)))
	}
	sleep(20 * time.Second)
	for _, o := range []struct{ subj, want string }{{a + suffix, "m,a=1 v=1i"}, {b + suffix, "m,a=1 v=30i"}} {
		out := e.dsOutput(o.subj)
		if len(out) != 1 || out[0].head+" "+out[0].fields != o.want {
			mcrt.Fail("subjects %q and %q, suffix %q: on %q came %v, expected %q once", a, b, suffix, o.subj, out, o.want)
		}
	}
	for _, p := range e.B.Log {
		if p.Subj != a && p.Subj != b && p.Subj != a+suffix && p.Subj != b+suffix && p.Subj != subjMon {
			mcrt.Fail("subjects %q and %q, suffix %q: data published on %q", a, b, suffix, p.Subj)
		}
	}
}

func identityCase(i int) {
	// all series at once; string value i in one of them
	s := idStrings[i%len(idStrings)]
	form := i / len(idStrings)
	e := setup()
	startDS(nil)
	sleep(3 * time.Second)
	want := map[string]string{}
	var b strings.Builder
	n := 0
	for _, m := range idMeas {
		for _, t := range idTags {
			n++
			var fs, out []string
			for k, f := range idFields {
				fs = append(fs, fmt.Sprintf("%s=%d", f, n*10+k))
				out = append(out, f)
			}
			switch form {
			case 0:
				fs = append(fs, "str=\""+s+"\"")
			case 1:
				fs = append([]string{"str=\"" + s + "\""}, fs...)
			}
			out = append(out, "str")
			sort.Strings(out)
			var parts []string
			for _, f := range out {
				if f == "str" {
					parts = append(parts, "str=\""+s+"\"")
					continue
				}
				for k, g := range idFields {
					if g == f {
						parts = append(parts, fmt.Sprintf("%s=%d", f, n*10+k))
					}
				}
			}
			want[m+t] = strings.Join(parts, ",")
			fmt.Fprintf(&b, "%s%s %s\n", m, t, strings.Join(fs, ","))
		}
	}
	e.B.Inject("in", []byte(b.String()))
	e.B.Inject("in", []byte(b.String()))
	sleep(30 * time.Second)
	got := map[string]string{}
	for _, o := range e.dsOutput("in-archive") {
		if _, dup := got[o.head]; dup {
			mcrt.Fail("series %q emitted twice", o.head)
		}
		got[o.head] = o.fields
	}
	for _, k := range keysOf(want) {
		if got[k] != want[k] {
			mcrt.Fail("series %q: fields %s, expected %s", k, short(got[k]), short(want[k]))
		}
	}
	if len(got) != len(want) {
		mcrt.Fail("%d series out, %d in: %q", len(got), len(want), keysOf(got))
	}
}

// dsBig: more output than one NATS message can carry.
func dsBig() {
	e := setup()
	startDS(nil)
	sleep(3 * time.Second)
	vlen := []int{100, 3000, 40000}[mcrt.Choose("size", 3)]
	total := []int{mb - 2000, mb + 2000, 3 * mb}[mcrt.Choose("total", 3)]
	want := map[string]bool{}
	var b strings.Builder
	sent := 0
	for i := 0; sent < total; i++ {
		h := fmt.Sprintf("m,i=%d,pad=%s", i, strings.Repeat("p", vlen))
		ln := h + " v=1i\n"
		if b.Len()+len(ln) > mb {
			e.B.Inject("in", []byte(b.String()))
			b.Reset()
		}
		b.WriteString(ln)
		sent += len(ln) + 20
		want[h] = true
	}
	e.B.Inject("in", []byte(b.String()))
	sleep(30 * time.Second)
	for _, o := range e.dsOutput("in-archive") {
		if !want[o.head] || o.fields != "v=1i" {
			mcrt.Fail("unexpected output %s", short(o.head+" "+o.fields))
		}
		delete(want, o.head)
	}
	if len(want) > 0 {
		mcrt.Fail("%d series missing from the output", len(want))
	}
}

// dsPublishFaults: a failed publish is counted and does not stop output.
func dsPublishFaults() {
	e := setup()
	fails := 0
	e.B.PublishErr = func(c *fnats.Conn, subj string, data []byte) error {
		if subj != subjMon && mcrt.Fault("publish-error", 2) == 1 {
			fails++
			return errors.New("nats: boom")
		}
		return nil
	}
	startDS(func(c *config.Config) { c.StatsInterval = config.NewDuration(time.Second) })
	sleep(3 * time.Second)
	for k := 0; k < 3; k++ {
		e.B.Inject("in", []byte(fmt.Sprintf("m v=%d\n", k)))
		sleep(10 * time.Second)
	}
	sleep(30 * time.Second)
	ok := len(e.dsOutput("in-archive"))
	if ok+fails != 3 {
		mcrt.Fail("%d windows published and %d failed of 3", ok, fails)
	}
	if n, found := e.counter(subjMon, "failed_nats_publish", ""); !found || n != int64(fails) {
		mcrt.Fail("failed_nats_publish is %d, %d publishes failed", n, fails)
	}
}

func init() {
	bigSteps := mcrt.Opts{MaxSteps: 20000000}
	all := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
	gaps := []time.Duration{0, 5 * time.Second, 8 * time.Second, 10 * time.Second, 23 * time.Second}
	addScenario("C12",
		&Scenario{Name: "windows-3", Doc: "3 messages x every timestamp relative to the window boundaries x 5 spacings, period 10s", Quick: Bounds{}, Thorough: Bounds{Sched: 1}, Weight: 3, Body: windows(10*time.Second, 3, all, "in", gaps)},
		&Scenario{Name: "windows-4", Doc: "4 messages", ThoroughOnly: true, Weight: 3, Body: windows(10*time.Second, 4, all, "in", gaps)},
		&Scenario{Name: "windows-sched", Doc: "2 messages, all schedules and map orders", Opts: mcrt.Opts{MapOrder: true}, Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Weight: 2, Body: windows(time.Minute, 2, all, "in", []time.Duration{0, 30 * time.Second, time.Minute, 140 * time.Second})},
		&Scenario{Name: "windows-1s", Doc: "period 1s", Quick: Bounds{}, Thorough: Bounds{Sched: 1}, Body: windows(time.Second, 3, []int{0, 3, 4, 7, 8, 9}, "in", []time.Duration{0, 800 * time.Millisecond, 3300 * time.Millisecond})},
		&Scenario{Name: "windows-sub-second", Doc: "period 500ms", Quick: Bounds{}, Thorough: Bounds{Sched: 1}, Body: windows(500*time.Millisecond, 3, []int{0, 3, 4, 7, 8, 9}, "in", []time.Duration{0, 400 * time.Millisecond, 1650 * time.Millisecond})},
		&Scenario{Name: "windows-odd", Doc: "period 7s, which divides no minute", Quick: Bounds{}, Thorough: Bounds{Sched: 1}, Body: windows(7*time.Second, 3, []int{0, 3, 4, 7, 8, 9}, "in", []time.Duration{0, 5 * time.Second, 16100 * time.Millisecond})},
		&Scenario{Name: "two-subjects", Doc: "two subjects around a rotation, all schedules and map orders", Opts: mcrt.Opts{MapOrder: true}, Quick: Bounds{Sched: 2}, Thorough: Bounds{Sched: 3}, Body: dsSchedules},
	)
	addScenario("C12",
		&Scenario{Name: "subjects", Doc: "every pair of 11 subjects x 7 suffixes: the output is published on the subject with the suffix", N: dsNamesN, Case: dsNames, Chunk: 1},
	)
	addScenario("C13",
		&Scenario{Name: "sequences", Doc: "every sequence of up to 4 (thorough 5) values per type in one window", Opts: bigSteps, Chunk: 200, Body: aggSetup, Weight: 2,
			N: func(th bool) int {
				if th {
					return seqTotal(len(intPool), 6)
				}
				return seqTotal(len(intPool), 5)
			}, Case: aggCase},
		&Scenario{Name: "long", Doc: "long periodic sequences (drift)", Opts: bigSteps, Chunk: 5, Body: aggSetup,
			N: func(th bool) int {
				if th {
					return len(longThorough)
				}
				return len(longQuick)
			}, Case: aggLong},
	)
	addScenario("C14",
		&Scenario{Name: "bad-lines", Doc: "every pair of malformed, stale or empty lines among good ones", Quick: Bounds{}, Thorough: Bounds{Sched: 1}, Body: badLineCase(false)},
		&Scenario{Name: "bad-lines-3", Doc: "every triple", ThoroughOnly: true, Body: badLineCase(true)},
		&Scenario{Name: "type-conflict", Doc: "every sequence of 3 (thorough 4) values of all types for one field", Quick: Bounds{Sched: 0}, Thorough: Bounds{Sched: 1}, Body: typeConflict},
	)
	addScenario("C15",
		&Scenario{Name: "subjects", Doc: "every pair of 11 subjects x 7 suffixes, equal series on both", N: dsNamesN, Case: dsNames, Chunk: 1},
		&Scenario{Name: "identity", Doc: "series and field names with every escape, string values", Opts: bigSteps, Chunk: 1, N: func(bool) int { return 2 * len(idStrings) }, Case: identityCase},
		&Scenario{Name: "hash-collisions", Doc: "series and fields whose names collide in 7 common 32 bit hash functions", Opts: bigSteps, Chunk: 1, N: func(bool) int { return 2 }, Case: identityCollide},
	)
	addScenario("C04",
		&Scenario{Name: "downsampler-big", Doc: "downsampler output larger than a NATS message", Body: dsBig},
	)
	addScenario("C21",
		&Scenario{Name: "downsampler-rejects", Doc: "every pair of malformed, stale or good lines between good ones, in one message or several: each rejected line is counted once", Body: badLineCase(false)},
		&Scenario{Name: "downsampler-publish-faults", Doc: "publish failures at every point", Quick: Bounds{Fault: 3}, Thorough: Bounds{Sched: 1, Fault: 3}, Body: dsPublishFaults},
	)
}
