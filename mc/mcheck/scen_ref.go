//go:build go1.21

package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
)

// A reference for the downsampling of well-formed lines of one period.  It
// knows only strictly well-formed lines; about all others it only says that
// they must not influence anything else.

type refValue struct {
	typ   byte // i, f, s, b
	sum   float64
	count int64
	last  string
}

type refField struct {
	name, text string
	typ        byte
}

var (
	refNum  = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?$`)
	refInt  = regexp.MustCompile(`^-?[0-9]+i$`)
	refBool = regexp.MustCompile(`^(t|f|true|false)$`)
	refName = regexp.MustCompile(`^[a-z]+$`)
	refHead = regexp.MustCompile(`^[a-z]+(,[a-z]+=[a-z0-9]+)*$`)
)

// strictLine parses a strictly well-formed line; ts is "" if it has none.
func strictLine(s string) (key string, fields []refField, ts string, ok bool) {
	i := strings.IndexByte(s, ' ')
	if i < 0 || !refHead.MatchString(s[:i]) {
		return
	}
	key, s = s[:i], s[i+1:]
	seen := map[string]bool{}
	for {
		i = strings.IndexByte(s, '=')
		if i < 0 || !refName.MatchString(s[:i]) || seen[s[:i]] {
			return
		}
		f := refField{name: s[:i]}
		seen[f.name] = true
		s = s[i+1:]
		if strings.HasPrefix(s, `"`) {
			i = strings.IndexByte(s[1:], '"')
			if i < 0 || strings.IndexByte(s[:i+2], '\\') >= 0 {
				return
			}
			f.typ, f.text, s = 's', s[:i+2], s[i+2:]
		} else {
			i = strings.IndexAny(s, ", ")
			if i < 0 {
				i = len(s)
			}
			f.text, s = s[:i], s[i:]
			switch {
			case refInt.MatchString(f.text):
				f.typ = 'i'
			case refNum.MatchString(f.text):
				f.typ = 'f'
			case refBool.MatchString(f.text):
				f.typ = 'b'
			default:
				return
			}
		}
		fields = append(fields, f)
		if s == "" {
			return key, fields, "", true
		}
		if s[0] == ' ' {
			ts = s[1:]
			return key, fields, ts, len(ts) == 19 && refNum.MatchString(ts)
		}
		if s[0] != ',' {
			return
		}
		s = s[1:]
	}
}

// looseLine returns the series of a line and whether it is at least a head and
// a list of names and values (or no fields at all).  Words as values and names
// with other characters are passed on by the downsampler.
func looseLine(s, now string) (key string, ok bool) {
	until := func(s, stop string) (string, string) {
		i := 0
		for i < len(s) && (strings.IndexByte(stop, s[i]) < 0 || i > 0 && s[i-1] == '\\') {
			i++
		}
		return s[:i], s[i:]
	}
	s = strings.TrimSuffix(s, " "+now)
	if key, s = until(s, " "); key == "" {
		return
	}
	if s == "" {
		return key, key != ""
	}
	s = strings.TrimLeft(s, " ")
	for {
		var part string
		part, s = until(s, "=, ")
		if part == "" || !strings.HasPrefix(s, "=") {
			return key, false
		}
		s = s[1:]
		if strings.HasPrefix(s, `"`) {
			_, s = until(s[1:], `"`)
			if s == "" {
				return key, false
			}
			s = s[1:]
		} else if part, s = until(s, ", "); part == "" {
			return key, false
		}
		if strings.TrimLeft(s, " ") == "" {
			return key, true
		}
		if s[0] != ',' {
			return key, false
		}
		s = s[1:]
	}
}

type refDS struct {
	series  map[string]map[string]*refValue
	invalid int64
}

func newRefDS() *refDS { return &refDS{series: map[string]map[string]*refValue{}} }

func (d *refDS) add(key string, fields []refField) {
	s := d.series[key]
	if s == nil {
		s = map[string]*refValue{}
		d.series[key] = s
	}
	for _, f := range fields {
		v := s[f.name]
		if v == nil {
			v = &refValue{typ: f.typ}
			s[f.name] = v
		}
		if v.typ != f.typ {
			d.invalid++
			continue
		}
		x, _ := strconv.ParseFloat(strings.TrimSuffix(f.text, "i"), 64)
		v.sum += x
		v.count++
		v.last = f.text
	}
}

// matches says whether the fields of an output line are those expected.
func (d *refDS) matches(key, fields string) bool {
	_, fs, _, ok := strictLine("m " + fields)
	s := d.series[key]
	if !ok || len(fs) != len(s) {
		return false
	}
	for _, f := range fs {
		v := s[f.name]
		if v == nil || v.typ != f.typ {
			return false
		}
		switch f.typ {
		case 'i':
			if f.text != fmt.Sprintf("%di", int64(v.sum)/v.count) {
				return false
			}
		case 'f':
			x, _ := strconv.ParseFloat(f.text, 64)
			if math.Abs(x-v.sum/float64(v.count)) > 1e-9 {
				return false
			}
		default:
			if f.text != v.last {
				return false
			}
		}
	}
	return true
}

var dsTokens = []string{"a,h=1 ", "b ", "v=", "w=", "4", "7i", "\"s\"", "t", ",", " ", "=", "\"", "\\", " NOW", " OLD"}

var dsAround = []string{"a,h=1 v=1,w=\"x\"", "a,h=1 v=3", "b v=5i"}

// splitOut splits an output line, which may be one without fields.
func splitOut(ln string) outLine {
	i := strings.LastIndexByte(ln, ' ')
	if i < 0 || !strings.HasSuffix(ln, "\n") {
		mcrt.Fail("malformed output line %q", ln)
	}
	ts, err := strconv.ParseInt(strings.TrimSuffix(ln[i+1:], "\n"), 10, 64)
	if err != nil {
		mcrt.Fail("output line without timestamp: %q", ln)
	}
	rest := ln[:i]
	k := 1
	for k < len(rest) && (rest[k] != ' ' || rest[k-1] == '\\') {
		k++
	}
	if k >= len(rest) {
		return outLine{head: rest, ts: ts}
	}
	return outLine{head: rest[:k], fields: rest[k+1:], ts: ts}
}

func dsArbitrarySetup() {
	e := setup()
	startDS(func(c *config.Config) {
		c.StatsInterval = config.NewDuration(time.Second)
		c.DownsamplePeriod = config.NewDuration(time.Second)
	})
	mcrt.X.Data["env"] = e
	mcrt.X.Data["bad"] = [2]int64{}
}

func dsArbitrary(i int) {
	e := mcrt.X.Data["env"].(*env)
	sleep(time.Duration(1300000000 - mcrt.NowNanos()%1000000000))
	e.B.Log = e.B.Log[:0]
	now := mcrt.NowNanos()
	g := tokenAt(i/2, dsTokens)
	g = strings.NewReplacer("NOW", fmt.Sprint(now), "OLD", "1500000000000000000").Replace(g)
	ls := []string{dsAround[0], g, dsAround[1], dsAround[2]}
	if i%2 == 0 {
		e.B.Inject("in", []byte(strings.Join(ls, "\n")+"\n"))
	} else {
		for _, l := range ls {
			e.B.Inject("in", []byte(l))
		}
	}
	sleep(3 * time.Second)

	key, fields, ts, strict := strictLine(g)
	ref := newRefDS()
	stale := int64(0)
	for k, l := range ls {
		if k == 1 {
			if strict && ts != "" && ts != fmt.Sprint(now) {
				stale = 1
			} else if strict {
				ref.add(key, fields)
			}
			continue
		}
		kk, ff, _, _ := strictLine(l)
		ref.add(kk, ff)
	}
	old := mcrt.X.Data["bad"].([2]int64)
	badLines, _ := e.counter(subjMon, "invalid_lines", "")
	badTimes, ok := e.counter(subjMon, "invalid_timestamps", "")
	if !ok {
		mcrt.Fail("no statistics")
	}
	mcrt.X.Data["bad"] = [2]int64{badLines, badTimes}
	badLines -= old[0]
	badTimes -= old[1]
	own, usable := "", false // the series a line which isn't strictly well-formed may change
	if strict {
		if badLines != ref.invalid || badTimes != stale {
			mcrt.Fail("lines %q: %d invalid lines and %d invalid timestamps reported", ls, badLines, badTimes)
		}
	} else {
		own, usable = looseLine(g, fmt.Sprint(now))
	}
	var got []string
	seen := map[string]bool{}
	extra := 0
	for _, ln := range lines(join(e.published("in-archive"))) {
		o := splitOut(ln)
		got = append(got, o.head+" "+o.fields)
		if seen[o.head] {
			mcrt.Fail("lines %q: series %q emitted twice", ls, o.head)
		}
		seen[o.head] = true
		switch {
		case ref.series[o.head] == nil:
			extra++
			if !usable || own != o.head || extra > 1 {
				mcrt.Fail("lines %q: unexpected series %q %s", ls, o.head, o.fields)
			}
		case usable && own == o.head:
		case !ref.matches(o.head, o.fields):
			mcrt.Fail("lines %q: series %q came out as %s", ls, o.head, o.fields)
		}
	}
	for _, k := range keysOf(ref.series) {
		if !seen[k] {
			sort.Strings(got)
			mcrt.Fail("lines %q: series %q is missing in %q", ls, k, got)
		}
	}
}

func init() {
	addScenario("C14",
		&Scenario{Name: "arbitrary-lines", Doc: "every sequence of up to 4 (thorough 5) of 15 fragments as a line among others of the same and other series, in one message or several", Opts: mcrt.Opts{MaxSteps: 100000000}, Chunk: 400, Weight: 2,
			Body: dsArbitrarySetup, Case: dsArbitrary,
			N: func(th bool) int {
				if th {
					return 2 * tokenTotal(5, len(dsTokens))
				}
				return 2 * tokenTotal(4, len(dsTokens))
			}},
	)
}
