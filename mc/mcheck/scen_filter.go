//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/filter"
	"github.com/jumptrading/influx-spout/v2/verifmc/fnats"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
)

const subjJunk = "influx-spout-junk"

const filterToml = "mode=\"filter\"\nname=\"flt\"\nworkers=1\nmax_time_delta=\"10m\"\nstats_interval=\"100h\"\n"

func startFilter(e *env, rules []config.Rule, mod func(*config.Config)) *filter.Filter {
	c := conf(filterToml)
	c.Rule = rules
	if mod != nil {
		mod(c)
	}
	must(c.Validate())
	f, err := filter.StartFilter(c)
	must(err)
	return f
}

// refLine is a line protocol line in structured form.
type refLine struct {
	meas string
	tags [][2]string
	rest string // fields (and timestamp), already in wire format
}

func escChars(s, chars string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(chars, s[i]) >= 0 {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func (l refLine) render(perm []int) string {
	s := escChars(l.meas, ", ")
	for i := range l.tags {
		t := l.tags[i]
		if perm != nil {
			t = l.tags[perm[i]]
		}
		s += "," + escChars(t[0], ",= ") + "=" + escChars(t[1], ",= ")
	}
	if l.rest != "" {
		s += " " + l.rest
	}
	return s
}

func (l refLine) sorted() refLine {
	t := append([][2]string(nil), l.tags...)
	sort.SliceStable(t, func(i, j int) bool { return t[i][0] < t[j][0] })
	l.tags = t
	return l
}

// plain is the unescaped text of the canonical line.
func (l refLine) plain() string {
	l = l.sorted()
	s := l.meas
	for _, t := range l.tags {
		s += "," + t[0] + "=" + t[1]
	}
	if l.rest != "" {
		s += " " + strings.Replace(strings.Replace(l.rest, `\"`, `"`, -1), `\ `, " ", -1)
	}
	return s
}

func (l refLine) hasTag(k, v string) bool {
	for _, t := range l.tags {
		if t[0] == k && t[1] == v {
			return true
		}
	}
	return false
}

func refMatch(r config.Rule, l refLine) bool {
	switch r.Rtype {
	case "basic":
		return l.meas == r.Match
	case "tags":
		for _, t := range r.Tags {
			if !l.hasTag(t[0], t[1]) {
				return false
			}
		}
		return true
	case "regex":
		return cachedRegexp(r.Match).MatchString(l.plain() + "\n")
	case "negregex":
		return !cachedRegexp(r.Match).MatchString(l.plain() + "\n")
	}
	panic("rule type")
}

var reCache = map[string]*regexp.Regexp{}

func cachedRegexp(s string) *regexp.Regexp {
	r := reCache[s]
	if r == nil {
		r = regexp.MustCompile(s)
		reCache[s] = r
	}
	return r
}

// refRoute returns the expected contents per subject.
func refRoute(rules []config.Rule, ls []refLine) map[string]string {
	out := map[string]string{}
	for _, l := range ls {
		subj := subjJunk
		for _, r := range rules {
			if refMatch(r, l) {
				subj = r.Subject
				break
			}
		}
		out[subj] += l.sorted().render(nil) + "\n"
	}
	return out
}

// checkRoute compares everything accepted by NATS (except monitoring).
func checkRoute(e *env, want map[string]string, what string) {
	got := map[string]string{}
	for _, p := range e.B.Log {
		if p.Subj == subjMon || p.Subj == subjIn {
			continue
		}
		if p.Err != nil {
			mcrt.Fail("%s: publish to %s failed: %v", what, p.Subj, p.Err)
		}
		got[p.Subj] += string(p.Data)
	}
	for _, s := range keysOf(want) {
		if got[s] != want[s] {
			mcrt.Fail("%s: subject %s received %s, expected %s", what, s, short(got[s]), short(want[s]))
		}
	}
	for _, s := range keysOf(got) {
		if want[s] == "" {
			mcrt.Fail("%s: subject %s received unexpected %s", what, s, short(got[s]))
		}
	}
}

// ---------------------------------------------------------------------
// C06

var routeRules = []config.Rule{
	{Rtype: "basic", Match: "cpu"},
	{Rtype: "basic", Match: "mem"},
	{Rtype: "basic", Match: "cpu load"},
	{Rtype: "tags", Tags: [][]string{{"host", "a"}}},
	{Rtype: "tags", Tags: [][]string{{"dc", "x"}, {"host", "a"}}},
	{Rtype: "tags", Tags: [][]string{{"k e", "v,w"}}},
	{Rtype: "regex", Match: "^cpu"},
	{Rtype: "regex", Match: "host=a"},
	{Rtype: "regex", Match: "usage=[0-9]+"},
	{Rtype: "negregex", Match: "dc="},
	{Rtype: "negregex", Match: "cpu"},
	{Rtype: "regex", Match: "no such line"},
}

var routeLines = []refLine{
	{"cpu", nil, "usage=1"},
	{"cpu", [][2]string{{"host", "a"}}, "usage=1,x=2 1600000000000000000"},
	{"mem", [][2]string{{"host", "a"}, {"dc", "x"}}, "free=1"},
	{"cpu load", [][2]string{{"dc", "x"}, {"host", "b"}}, "v=\"a b, c=d\""},
	{"disk", [][2]string{{"zone", "long-zone"}, {"k e", "v,w"}, {"host", "a"}}, "usage=77i 1600000000000000001"},
	{"cpux", [][2]string{{"dc", "y"}}, "v=t"},
	{"net", [][2]string{{"hostname", "a"}, {"dc", "xx"}}, "v=\"say \\\"cpu\\\"\""},
	{"disk", [][2]string{{"host", "ab"}}, "v=1"},
	{"me,m", nil, "v=1 1599999999999999999"},
	{"cpu", nil, "v=1"},
}

func ruleListAt(i, n int) []config.Rule {
	// lists of length 0..3 with distinct subjects
	size, l := 1, 0
	for i >= size {
		i -= size
		size *= n
		l++
	}
	out := make([]config.Rule, l)
	for k := 0; k < l; k++ {
		r := routeRules[i%n]
		i /= n
		r.Subject = fmt.Sprintf("out%d", k)
		out[k] = r
	}
	return out
}

func routeTotal(th bool) int {
	n := len(routeRules)
	t := 1 + n + n*n + n*n*n
	if th {
		t += n * n * n * n
	}
	return t
}

func routeCase(i int) {
	e := setup()
	rules := ruleListAt(i, len(routeRules))
	startFilter(e, rules, nil)
	var msg string
	for _, l := range routeLines {
		msg += l.render(nil) + "\n"
	}
	e.B.Inject(subjIn, []byte(msg))
	sleep(time.Millisecond)
	var d []string
	for _, r := range rules {
		d = append(d, r.Rtype+" "+r.Match+fmt.Sprint(r.Tags))
	}
	checkRoute(e, refRoute(rules, routeLines), "rules ["+strings.Join(d, "; ")+"]")
}

// routeSeq: several messages in sequence through one filter: no state
// leaks from one message to the next.
func routeSeq() {
	e := setup()
	rules := ruleListAt(1+12+mcrt.Choose("rules", 144), 12)
	startFilter(e, rules, nil)
	var all []refLine
	for m := 0; m < 3; m++ {
		k := mcrt.Choose("lines", 4)
		var msg string
		for j := 0; j <= k; j++ {
			l := routeLines[(m*3+j*(m+1))%len(routeLines)]
			msg += l.render(nil) + "\n"
			all = append(all, l)
		}
		e.B.Inject(subjIn, []byte(msg))
		sleep(time.Millisecond)
	}
	checkRoute(e, refRoute(rules, all), "sequence")
}

// ---------------------------------------------------------------------
// C07 match semantics

var matchMeas = []string{"a", "b", "ab", "a b", "a,b", "a=b", "b a", "pmcfp", "bs0i", "pmcfi", "bs0p"}
var matchTagPool = [][2]string{{"h", "1"}, {"hh", "1"}, {"h1", "22"}, {"d c", "x y"}, {"z", "a,b"}, {"q=", "="}, {"zz", "long-value-here"}}
var matchRests = []string{"v=1", "v=\"a b=c, h=1\" 1600000000000000000", "v=\"say \\\"h=1\\\" \",w=2"}

// tags that nearly equal one of the pool
var matchNear = [][2]string{{"H", "1"}, {"h", "12"}, {"h", "11"}, {"h", "x1"}, {"HH", "1"}, {"h", "01"}, {"D C", "x y"}, {"d c", "X Y"}, {"d c", "x  y"}, {"d c ", "x y"}, {"dc", "xy"}, {"z", "a,b,c"}, {"z", "a"}, {"z", "A,B"}, {"q", "="}, {"q=", "=="}, {"zz", "long-value-her"}, {"zz", "long-value-heree"}, {"zz", "Long-value-here"}}

func matchLines() []refLine {
	var out []refLine
	for _, m := range matchMeas {
		out = append(out, refLine{m, nil, matchRests[0]})
	}
	for i, t := range matchNear {
		out = append(out, refLine{"m", matchNear[i : i+1], matchRests[2]})
		out = append(out, refLine{"M", [][2]string{{"a", "b"}, t}, matchRests[0]})
	}
	n := len(matchTagPool)
	for i := 0; i < n; i++ {
		out = append(out, refLine{"m", matchTagPool[i : i+1], matchRests[i%2]})
		for j := 0; j < n; j++ {
			out = append(out, refLine{"m", [][2]string{matchTagPool[i], matchTagPool[j]}, matchRests[(i+j)%2]})
			for k := 0; k < n; k++ {
				out = append(out, refLine{"a b", [][2]string{matchTagPool[i], matchTagPool[j], matchTagPool[k]}, matchRests[(i+j+k)%2]})
			}
		}
	}
	return out
}

func matchRules() []config.Rule {
	var out []config.Rule
	for _, m := range matchMeas {
		out = append(out, config.Rule{Rtype: "basic", Match: m})
	}
	tag := func(ts ...[2]string) {
		r := config.Rule{Rtype: "tags"}
		for _, t := range ts {
			r.Tags = append(r.Tags, []string{t[0], t[1]})
		}
		out = append(out, r)
	}
	p := matchTagPool
	for i := range p {
		tag(p[i])
		tag([2]string{p[i][0], "nope"})
		tag([2]string{"nope", p[i][1]})
		for j := range p {
			if i != j {
				tag(p[i], p[j])
			}
		}
	}
	for i := range p {
		for j := range p {
			for k := range p {
				if i != j || j != k {
					tag(p[i], p[j], p[k])
				}
			}
		}
	}
	tag(p[0], p[1], p[2], p[3])
	for _, t := range matchNear {
		tag(t)
	}
	tag([2]string{"h", "1"}, [2]string{"h", "1"})
	for _, re := range []string{"^a", "h=1", "^m,h=1", "d c=x y", "z=a,b", "a b=c", "1600", "^(a|b) ", "long-value", ",h=1.*,zz=", "q===", "^a,b ", "say \"h=1\" ", "^M,a=b,H", "(?i)^m,a=b,h=1 ", "w=2\n$"} {
		out = append(out, config.Rule{Rtype: "regex", Match: re}, config.Rule{Rtype: "negregex", Match: re})
	}
	return out
}

var theMatchLines = matchLines()
var theMatchRules = matchRules()

// matchCase sends every line through a filter with one rule.
func matchCase(i int) {
	e := setup()
	r := theMatchRules[i]
	r.Subject = "out0"
	rules := []config.Rule{r}
	startFilter(e, rules, nil)
	var msg strings.Builder
	for _, l := range theMatchLines {
		msg.WriteString(l.render(nil) + "\n")
	}
	e.B.Inject(subjIn, []byte(msg.String()))
	sleep(time.Millisecond)
	got := map[string]int{}
	for _, ln := range lines(join(e.published("out0"))) {
		got[ln]++
	}
	for _, l := range theMatchLines {
		s := l.sorted().render(nil) + "\n"
		if refMatch(r, l) {
			if got[s] == 0 {
				mcrt.Fail("%s rule %q %q did not match line %q", r.Rtype, r.Match, r.Tags, l.render(nil))
			}
			got[s]--
		} else if got[s] > 0 {
			mcrt.Fail("%s rule %q %q matched line %q", r.Rtype, r.Match, r.Tags, l.render(nil))
		}
	}
	for _, s := range keysOf(got) {
		if got[s] != 0 {
			mcrt.Fail("%s rule %q %q: unexpected output %q", r.Rtype, r.Match, r.Tags, s)
		}
	}
}

// matchCollide: rules and lines with names of equal length which collide in
// some hash function.
func matchCollide(i int) {
	e := setup()
	form := []string{"m%08x", "%08x"}[i%2]
	names := append(collidingNames(form), "bdkada", "akpkhh") // the last two: 32 bit FNV
	line := func(n string) refLine {
		switch i / 2 {
		case 0:
			return refLine{n, [][2]string{{"h", "1"}}, "v=1"}
		case 1:
			return refLine{"m", [][2]string{{n, "1"}}, "v=1"}
		}
		return refLine{"m", [][2]string{{"h", n}}, "v=1"}
	}
	var rules []config.Rule
	for k, n := range names {
		if k%2 == 1 {
			continue // these have no rule
		}
		r := config.Rule{Rtype: "basic", Match: n, Subject: fmt.Sprintf("out%d", k)}
		switch i / 2 {
		case 1:
			r.Rtype, r.Match, r.Tags = "tags", "", [][]string{{n, "1"}}
		case 2:
			r.Rtype, r.Match, r.Tags = "tags", "", [][]string{{"h", n}}
		}
		rules = append(rules, r)
	}
	startFilter(e, rules, nil)
	var ls []refLine
	msg := ""
	for _, order := range []int{1, -1} {
		for k := range names {
			if order < 0 {
				k = len(names) - 1 - k
			}
			l := line(names[k])
			ls = append(ls, l)
			msg += l.render(nil) + "\n"
		}
	}
	e.B.Inject(subjIn, []byte(msg))
	sleep(time.Millisecond)
	checkRoute(e, refRoute(rules, ls), "colliding names")
}

// ---------------------------------------------------------------------
// C08 canonical tag order

var sortTagPool = [][2]string{{"a", "1"}, {"b", "22222"}, {"aa", "x y"}, {"c d", "v"}, {"e", "p=q"}, {"Z", "up"}, {"f,g", ",,"}, {"日", "本"}, {"a.b", "\"q\""}}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func subsets(n, k int) [][]int {
	var out [][]int
	for m := 0; m < 1<<n; m++ {
		var s []int
		for i := 0; i < n; i++ {
			if m>>i&1 == 1 {
				s = append(s, i)
			}
		}
		if len(s) == k {
			out = append(out, s)
		}
	}
	return out
}

var sortRests = []string{"v=1", "v=1,w=\"a b,c=d \\\" e\" 1600000000000000000", ""}
var sortMeas = []string{"m", "my meas,x", "k=v"}

type sortSpec struct {
	tags []int
	m, r int
}

func sortSpecs(th bool) []sortSpec {
	var out []sortSpec
	max := 5
	if th {
		max = 6
	}
	for k := 0; k <= max; k++ {
		for _, s := range subsets(len(sortTagPool), k) {
			for m := range sortMeas {
				for r := range sortRests {
					out = append(out, sortSpec{s, m, r})
				}
			}
		}
	}
	return out
}

var sortSpecsAll = sortSpecs(true)
var nQuickSort = len(sortSpecs(false))

var manyTagCounts = []int{48, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 300}

// sortManyCase sends lines with more tags than the small cases, in every
// rotation of the ascending and the descending order and some shuffles.
func sortManyCase(i int) {
	n := i + 5
	if i >= 36 {
		n = manyTagCounts[i-36]
	}
	e := setup()
	startFilter(e, nil, nil)
	l := refLine{meas: "m", rest: "v=1i,s=\"x,y=z\" 1600000000000000000"}
	for k := 0; k < n; k++ {
		l.tags = append(l.tags, [2]string{fmt.Sprintf("k%d", k*7), strings.Repeat("v,", k%4) + fmt.Sprint(k)})
	}
	want := l.sorted().render(nil) + "\n"
	var orders [][]int
	for r := 0; r < n; r++ {
		if n > 40 && r > 3 && r < n-3 && r%16 != 0 {
			continue
		}
		var up, down, step []int
		for k := 0; k < n; k++ {
			up = append(up, (k+r)%n)
			down = append(down, (2*n-1-k-r)%n)
		}
		orders = append(orders, up, down)
		if st := r + 1; gcd(st, n) == 1 {
			for k := 0; k < n; k++ {
				step = append(step, k*st%n)
			}
			orders = append(orders, step)
		}
	}
	var in strings.Builder
	for _, o := range orders {
		in.WriteString(l.render(o) + "\n")
	}
	e.B.Inject(subjIn, []byte(in.String()))
	sleep(time.Millisecond)
	got := lines(join(e.published(subjJunk)))
	if len(got) != len(orders) {
		mcrt.Fail("%d lines became %d", len(orders), len(got))
	}
	for k, g := range got {
		if g != want {
			mcrt.Fail("line with %d tags %s came out as %s", n, short(l.render(orders[k])), short(g))
		}
	}
}

// rawTags are spellings of tags with redundant or missing escapes, in the
// order of their (unescaped) keys.
var rawTags = []string{`a=\"q\"`, `b=p\=q`, `c=p=q`, `c\"=1`, `d\=e=\,\ `, `f\n=\n`, `g=back\slash`, `h="x"`}
var rawMeas = []string{"m", `m\=x`, `m=x`, `m\"x`, `m\ x\,y`, `m\q`}
var rawRests = []string{"", " v=1", ` s="a\"b\\",v=1 1600000000000000000`, " v=1  ", " "}

func sortRawN(th bool) int { return len(rawMeas) * len(rawRests) * 2 }

// sortRawCase: every order of every three tags; spellings are kept.
func sortRawCase(i int) {
	e := setup()
	startFilter(e, nil, nil)
	nl := []string{"\n", ""}[i%2]
	meas, rest := rawMeas[i/2%len(rawMeas)], rawRests[i/2/len(rawMeas)]
	for k := 1; k <= 4; k++ {
		for _, s := range subsets(len(rawTags), k) {
			want := meas
			for _, t := range s {
				want += "," + rawTags[t]
			}
			want += rest + nl
			for _, p := range perms(k) {
				in := meas
				for _, x := range p {
					in += "," + rawTags[s[x]]
				}
				in += rest + nl
				from := len(e.B.Log)
				e.B.Inject(subjIn, []byte(in))
				sleep(time.Millisecond)
				got := ""
				for _, q := range e.B.Log[from:] {
					if q.Subj == subjJunk {
						got += string(q.Data)
					}
				}
				if got != want {
					mcrt.Fail("line %q came out as %q, expected %q", in, got, want)
				}
			}
		}
	}
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func sortCase(i int) {
	sp := sortSpecsAll[i]
	e := setup()
	l := refLine{meas: sortMeas[sp.m], rest: sortRests[sp.r]}
	for _, t := range sp.tags {
		l.tags = append(l.tags, sortTagPool[t])
	}
	startFilter(e, nil, nil)
	var in strings.Builder
	ps := perms(len(l.tags))
	for _, p := range ps {
		in.WriteString(l.render(p) + "\n")
	}
	want := l.sorted().render(nil)
	// once as one message, once as one message per line without newline
	e.B.Inject(subjIn, []byte(in.String()))
	sleep(time.Millisecond)
	out := join(e.published(subjJunk))
	if string(out) != strings.Repeat(want+"\n", len(ps)) {
		for k, g := range lines(out) {
			if g != want+"\n" {
				p := ""
				if k < len(ps) {
					p = l.render(ps[k])
				}
				mcrt.Fail("line %q came out as %q, expected %q", p, g, want+"\n")
			}
		}
		mcrt.Fail("%d lines became %d", len(ps), len(lines(out)))
	}
	n := len(e.published(subjJunk))
	for k, p := range ps {
		if k > 5 {
			break
		}
		e.B.Inject(subjIn, []byte(l.render(p)))
		sleep(time.Millisecond)
		g := e.published(subjJunk)
		if len(g) != n+1 || string(g[n]) != want {
			mcrt.Fail("unterminated line %q came out as %q, expected %q", l.render(p), join(g[n:]), want)
		}
		n++
	}
}

// ---------------------------------------------------------------------
// C09 timestamp window

func bigOff(k, d, add int64) *big.Int {
	x := new(big.Int).Mul(big.NewInt(k), big.NewInt(d))
	return x.Add(x, big.NewInt(add))
}

func windowCase() {
	e := setup()
	delta := []time.Duration{time.Second, 10 * time.Minute, time.Hour, 2000 * time.Hour, 262800 * time.Hour, 1000000 * time.Hour, 2562047 * time.Hour, 1, time.Millisecond}[mcrt.Choose("delta", 9)]
	startFilter(e, []config.Rule{{Rtype: "basic", Match: "m", Subject: "out0"}}, func(c *config.Config) {
		c.MaxTimeDelta = config.NewDuration(delta)
		c.StatsInterval = config.NewDuration(time.Second)
		c.Debug = mcrt.Choose("debug", 2) == 1
	})
	sleep([]time.Duration{0, 1500 * time.Millisecond}[mcrt.Choose("phase", 2)])
	now := mcrt.NowNanos()
	d := int64(delta)
	heads := []string{"m v=1", "m,host=a,b=c v=\"x 1600000000000000000\",w=2i", "other v=\"a b\""}
	var msg, out0, junk string
	bad := 0
	nl := mcrt.Choose("terminated", 2)
	first := mcrt.Choose("rotate", 3)
	var offs []int64
	for _, o := range []*big.Int{bigOff(-1, d, -1), bigOff(-1, d, 0), bigOff(-1, d, 1), bigOff(0, d, -1), bigOff(0, d, 0), bigOff(0, d, 1), bigOff(1, d, -1), bigOff(1, d, 0), bigOff(1, d, 1), bigOff(-2, d, 0), bigOff(2, d, 0), bigOff(1000, d, 0),
		bigOff(-1, now, -1000000000000000000), bigOff(-1, now, -1600000000000000000), bigOff(-1, now, 1<<63-2), bigOff(-1, now, 1000000000000000000)} {
		ts := new(big.Int).Add(o, big.NewInt(now))
		if ts.IsInt64() && len(strings.TrimPrefix(ts.String(), "-")) == 19 && o.IsInt64() {
			offs = append(offs, o.Int64())
		}
	}
	var ls []string
	for k, o := range offs {
		h := heads[(k+first)%3]
		for _, h := range []string{h, heads[(k+first+1)%3]} {
			ls = append(ls, fmt.Sprintf("%s %d", h, now+o))
			if o > -d && o < d {
				continue
			}
			bad++
		}
	}
	want := func(s string) {
		if strings.HasPrefix(s, "other") {
			junk += s
		} else {
			out0 += strings.Replace(s, ",host=a,b=c", ",b=c,host=a", 1)
		}
	}
	for k, s := range ls {
		o := offs[k/2]
		if k < len(ls)-1 || nl == 1 {
			s += "\n"
		}
		msg += s
		if o > -d && o < d {
			want(s)
		}
	}
	// lines without timestamp always pass
	for _, h := range heads {
		if nl == 1 {
			msg += h + "\n"
			want(h + "\n")
		}
	}
	e.B.Inject(subjIn, []byte(msg))
	sleep(time.Millisecond)
	checkRoute(e, map[string]string{"out0": out0, subjJunk: junk}, fmt.Sprintf("max_time_delta %v", delta))
	sleep(2500 * time.Millisecond)
	if n, ok := e.counter(subjMon, "invalid_time", ""); !ok || n != int64(bad) {
		mcrt.Fail("invalid_time is %d, %d lines were outside the window", n, bad)
	}
}

// ---------------------------------------------------------------------
// C10 isolation of arbitrary lines

const rawAlphabet = "\x00\r\xff\t,= \na"

const garbageAlphabet = "a,= \\\"\n1"

func garbageTotal(maxLen int) int {
	t, p := 0, 1
	for l := 0; l <= maxLen; l++ {
		t += p
		p *= len(garbageAlphabet)
	}
	return t
}

func garbageAt(i int, alpha string) string {
	p, l := 1, 0
	for i >= p {
		i -= p
		p *= len(alpha)
		l++
	}
	b := make([]byte, l)
	for k := range b {
		b[k] = alpha[i%len(alpha)]
		i /= len(alpha)
	}
	return string(b)
}

// tokenAt concatenates tokens of a pool.
func tokenAt(i int, pool []string) string {
	p, l := 1, 0
	for i >= p {
		i -= p
		p *= len(pool)
		l++
	}
	s := ""
	for k := 0; k < l; k++ {
		s += pool[i%len(pool)]
		i /= len(pool)
	}
	return s
}

func tokenTotal(maxLen, n int) int {
	t, p := 0, 1
	for l := 0; l <= maxLen; l++ {
		t += p
		p *= n
	}
	return t
}

var garbageTokens = []string{"m", ",b=1", ",aa=22", ",", "=", " ", "v=1", "\\", "\"", "\n", " 1600000000000000000"}

// squash is the same for two lines if one has the tags of the other in
// another order.
func squash(s string) string {
	b := strings.FieldsFunc(s, func(c rune) bool { return c == ',' || c == ' ' })
	sort.Strings(b)
	return fmt.Sprintf("%q %d %d", b, strings.Count(s, ","), strings.Count(s, " "))
}

func isolationSetup() {
	e := setup()
	startFilter(e, []config.Rule{
		{Rtype: "basic", Match: "good", Subject: "out0"},
		{Rtype: "tags", Tags: [][]string{{"a", "1"}}, Subject: "out1"},
		{Rtype: "regex", Match: "a=", Subject: "out2"},
	}, nil)
	mcrt.X.Data["env"] = e
}

func isolationBytes(i int)  { isolationCheck(i, garbageAt(i/3, garbageAlphabet)) }
func isolationRaw(i int)    { isolationCheck(i, garbageAt(i/3, rawAlphabet)) }
func isolationTokens(i int) { isolationCheck(i, tokenAt(i/3, garbageTokens)) }

func isolationCheck(i int, g string) {
	e := mcrt.X.Data["env"].(*env)
	good1, good2 := "good,zeta=1,b=22 v=1\n", "good,x=1,dd=2 v=\"2\" 1600000000000000000\n"
	want := "good,b=22,zeta=1 v=1\n"
	msg := good1
	from := len(e.B.Log)
	switch i % 3 {
	case 0:
		msg += g + "\n" + good2
		want += "good,dd=2,x=1 v=\"2\" 1600000000000000000\n"
	case 1:
		msg += g
	case 2: // a message of its own
		e.B.Inject(subjIn, []byte(g))
		sleep(time.Millisecond)
	}
	e.B.Inject(subjIn, []byte(msg))
	sleep(time.Millisecond)
	got := ""
	var others []string
	for _, p := range e.B.Log[from:] {
		if p.Subj == subjMon || p.Subj == subjIn {
			continue
		}
		if p.Subj == "out0" {
			got += string(p.Data)
			continue
		}
		others = append(others, lines(p.Data)...)
	}
	if got != want {
		mcrt.Fail("line %q changed its neighbours: published %q, expected %q", g, got, want)
	}
	avail := map[string]int{}
	for _, ln := range strings.SplitAfter(g+"\n", "\n") {
		avail[squash(strings.TrimSuffix(ln, "\n"))]++
	}
	for _, o := range others {
		k := squash(strings.TrimSuffix(o, "\n"))
		if avail[k] == 0 {
			mcrt.Fail("input %q produced a line that was not in it: %q", g, o)
		}
		avail[k]--
	}
	e.B.Log = e.B.Log[:0]
}

// ---------------------------------------------------------------------
// C11 parallel workers

func filterWorkers(nw, nmsg int, faults bool, instances int) func() {
	return func() {
		e := setup()
		if faults {
			e.B.PublishErr = func(c *fnats.Conn, subj string, data []byte) error {
				if subj != subjMon && mcrt.Fault("publish-error", 2) == 1 {
					return errors.New("nats: connection closed")
				}
				return nil
			}
		}
		if instances > 1 {
			e.B.QueuePick = func(n int) int { return mcrt.Choose("queue-pick", n) }
		}
		rules := []config.Rule{
			{Rtype: "regex", Match: "^z", Subject: "out2"},
			{Rtype: "negregex", Match: "v=", Subject: "out3"},
			{Rtype: "basic", Match: "a", Subject: "out0"},
			{Rtype: "tags", Tags: [][]string{{"t", "1"}}, Subject: "out1"},
		}
		for k := 0; k < instances; k++ {
			startFilter(e, rules, func(c *config.Config) {
				c.Workers = nw
				c.StatsInterval = config.NewDuration(time.Second)
				c.Name = fmt.Sprintf("flt%d", k)
			})
		}
		var msgs [][]refLine
		total := 0
		for m := 0; m < nmsg; m++ {
			ls := []refLine{
				{"a", nil, fmt.Sprintf("v=%d0", m)},
				{"b c", [][2]string{{"t", "1"}, {"h,", fmt.Sprint(m, " =")}}, fmt.Sprintf("v=%d1", m)},
				{"junk", nil, fmt.Sprintf("v=%d2", m)},
				{"a", nil, fmt.Sprintf("v=%d3", m)},
			}
			msg := ""
			for _, l := range ls {
				msg += l.render(nil) + "\n"
			}
			total += len(ls)
			msgs = append(msgs, ls)
			e.B.Inject(subjIn, []byte(msg))
			mcrt.Yield("inject")
		}
		sleep(3500 * time.Millisecond)
		// every message yields one publish per subject with its lines in order
		want := map[string]int{}
		for _, ls := range msgs {
			for s, d := range refRoute(rules, ls) {
				want[s+"\x00"+d]++
			}
		}
		fails := 0
		order := ""
		for _, p := range e.B.Log {
			if p.Subj == subjMon {
				continue
			}
			k := p.Subj + "\x00" + string(p.Data)
			if want[k] == 0 {
				mcrt.Fail("unexpected publish on %s: %q", p.Subj, p.Data)
			}
			want[k]--
			if p.Err != nil {
				fails++
			}
			order += p.Subj + string(p.Data[len(p.Data)-3])
		}
		for _, k := range keysOf(want) {
			if want[k] != 0 {
				mcrt.Fail("not published: %q", k)
			}
		}
		mcrt.Observe("%s", order)
		sum := func(name string) (n int64) {
			for k := 0; k < instances; k++ {
				v, ok := e.counter(subjMon, name, fmt.Sprintf("name=\"flt%d\"", k))
				if !ok {
					mcrt.Fail("counter %s of instance %d was not reported", name, k)
				}
				n += v
			}
			return
		}
		if n := sum("failed_nats_publish"); n != int64(fails) {
			mcrt.Fail("failed_nats_publish is %d, %d publishes failed", n, fails)
		}
		if n := sum("processed"); n != int64(total) {
			mcrt.Fail("processed is %d, %d lines were received", n, total)
		}
		if n := sum("passed"); n != int64(total*3/4) {
			mcrt.Fail("passed is %d, %d lines matched", n, total*3/4)
		}
		if n := sum("rejected"); n != int64(total/4) {
			mcrt.Fail("rejected is %d, %d lines did not match", n, total/4)
		}
	}
}

func init() {
	bigSteps := mcrt.Opts{MaxSteps: 5000000}
	addScenario("C06",
		&Scenario{Name: "rule-lists", Doc: "every list of up to 3 (thorough 4) rules of a pool of 12 x a pool of lines", Opts: bigSteps, Chunk: 50, N: routeTotal, Case: routeCase, Weight: 3},
		&Scenario{Name: "sequences", Doc: "sequences of 3 messages through every pair of rules", Quick: Bounds{}, Thorough: Bounds{Sched: 1}, Body: routeSeq},
	)
	addScenario("C07",
		&Scenario{Name: "single-rules", Doc: "every rule of a pool (basic, tags, regex, negregex; hash collisions, escapes) x every line with up to 3 ordered tags", Opts: bigSteps, Chunk: 5,
			N: func(bool) int { return len(theMatchRules) }, Case: matchCase},
		&Scenario{Name: "hash-collisions", Doc: "measurements, tag keys and tag values of equal length which collide in 7 common 32 bit hash functions", Opts: bigSteps, Chunk: 1, N: func(bool) int { return 6 }, Case: matchCollide},
	)
	addScenario("C08",
		&Scenario{Name: "spellings", Doc: "every order of up to 4 of 8 tags with redundant, missing and unusual escapes x 6 measurements x 5 remainders, with and without line end", Opts: bigSteps, Chunk: 1, N: sortRawN, Case: sortRawCase},
		&Scenario{Name: "permutations", Doc: "every permutation of every tag subset (<=5, thorough <=6 tags of 9), with escapes, with/without fields and newline", Opts: bigSteps, Chunk: 20,
			N: func(th bool) int {
				if th {
					return len(sortSpecsAll)
				}
				return nQuickSort
			}, Case: sortCase},
	)
	addScenario("C08",
		&Scenario{Name: "many-tags", Doc: "5 to 40 and up to 130 (thorough 256) tags in descending, rotated and interleaved orders", Opts: bigSteps, Chunk: 4,
			N: func(th bool) int {
				if th {
					return 36 + len(manyTagCounts)
				}
				return 36 + len(manyTagCounts) - 4
			}, Case: sortManyCase},
	)
	addScenario("C09",
		&Scenario{Name: "window", Doc: "timestamps at every boundary of the window", Thorough: Bounds{Sched: 2}, Quick: Bounds{Sched: 1}, Body: windowCase},
	)
	addScenario("C10",
		&Scenario{Name: "arbitrary-lines", Doc: "every byte string up to length 6 (thorough 7) over the protocol's special characters between two valid lines", Opts: bigSteps, Chunk: 400, Body: isolationSetup,
			N: func(th bool) int {
				if th {
					return 3 * garbageTotal(7)
				}
				return 3 * garbageTotal(6)
			}, Case: isolationBytes},
		&Scenario{Name: "raw-bytes", Doc: "every byte string up to length 5 (thorough 6) with control and non-ASCII bytes", Opts: bigSteps, Chunk: 400, Body: isolationSetup,
			N: func(th bool) int {
				if th {
					return 3 * tokenTotal(6, len(rawAlphabet))
				}
				return 3 * tokenTotal(5, len(rawAlphabet))
			}, Case: isolationRaw},
		&Scenario{Name: "token-lines", Doc: "every sequence of up to 5 (thorough 6) protocol fragments between two valid lines", Opts: bigSteps, Chunk: 400, Body: isolationSetup,
			N: func(th bool) int {
				if th {
					return 3 * tokenTotal(6, len(garbageTokens))
				}
				return 3 * tokenTotal(5, len(garbageTokens))
			}, Case: isolationTokens},
	)
	addScenario("C11",
		&Scenario{Name: "workers", Doc: "2 workers, 3 messages, preemption at every shared access", Opts: mcrt.Opts{Atomics: true}, Quick: Bounds{Sched: 2}, Thorough: Bounds{Sched: 3}, Weight: 2, Body: filterWorkers(2, 3, false, 1)},
		&Scenario{Name: "workers-faults", Doc: "2 workers, 2 messages, publish failures", Opts: mcrt.Opts{Demote: true}, Quick: Bounds{Sched: 1, Fault: 2}, Thorough: Bounds{Sched: 2, Fault: 3}, Body: filterWorkers(2, 2, true, 1)},
		&Scenario{Name: "workers-fine", Doc: "2 workers, preemption between any two statements of the filter", Opts: mcrt.Opts{Fine: []string{"filter", "influx"}}, Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Weight: 3, Body: filterWorkers(2, 2, false, 1)},
		&Scenario{Name: "queue-group", Doc: "two filter instances share the load", Opts: mcrt.Opts{Demote: true}, Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Body: filterWorkers(1, 3, false, 2)},
	)
}
