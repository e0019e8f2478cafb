//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/spf13/afero"

	"github.com/jumptrading/influx-spout/v2/verifmc/fnats"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mhttp"
	"github.com/jumptrading/influx-spout/v2/verifmc/mnet"
	"github.com/jumptrading/influx-spout/v2/verifmc/mos"
)

// env is the environment of one execution.
type env struct {
	B *fnats.Broker
	N *mnet.Network
	H *mhttp.Host
}

// setup resets the code under test and the environment.
func setup() *env {
	mcrt.ResetPackages()
	e := &env{B: fnats.Setup(), N: mnet.Setup(), H: mhttp.Setup()}
	mos.Reset()
	return e
}

var confCache = map[string]*config.Config{}

// conf parses a configuration through the public loader (once) and
// returns a private copy.
func conf(text string) *config.Config {
	c, ok := confCache[text]
	if !ok {
		fs := afero.NewMemMapFs()
		if err := afero.WriteFile(fs, "/x/comp.toml", []byte(text), 0644); err != nil {
			panic(err)
		}
		old := config.Fs
		config.Fs = fs
		var err error
		c, err = config.NewConfigFromFile("/x/comp.toml")
		config.Fs = old
		if err != nil {
			panic(fmt.Sprintf("config %q: %v", text, err))
		}
		confCache[text] = c
	}
	d := *c
	d.NATSSubject = append([]string(nil), c.NATSSubject...)
	d.Rule = append([]config.Rule(nil), c.Rule...)
	return &d
}

func must(err error) {
	if err != nil {
		mcrt.Fail("unexpected error: %v", err)
	}
}

// published returns the data accepted on subj, in order.
func (e *env) published(subj string) [][]byte {
	var out [][]byte
	for _, p := range e.B.Log {
		if p.Subj == subj && p.Err == nil {
			out = append(out, p.Data)
		}
	}
	return out
}

func join(l [][]byte) []byte { return bytes.Join(l, nil) }

func sleep(d time.Duration) { mcrt.SleepNanos(int64(d)) }

func since(t0 int64) time.Duration { return time.Duration(mcrt.NowNanos() - t0) }

// lines splits data into newline terminated lines (the terminator kept).
func lines(data []byte) []string {
	var out []string
	for _, l := range bytes.SplitAfter(data, []byte("\n")) {
		if len(l) > 0 {
			out = append(out, string(l))
		}
	}
	return out
}

func sameMultiset(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x := append([]string(nil), a...)
	y := append([]string(nil), b...)
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// counter extracts the latest value of a metric published on the monitor
// subject ("" label filter matches everything).
func (e *env) counter(subj, name string, label string) (int64, bool) {
	var val int64
	found := false
	for _, d := range e.published(subj) {
		for _, l := range strings.Split(string(d), "\n") {
			if !strings.HasPrefix(l, name+"{") && !strings.HasPrefix(l, name+" ") {
				continue
			}
			if label != "" && !strings.Contains(l, label) {
				continue
			}
			i := strings.LastIndex(l, "}")
			f := strings.Fields(l[i+1:])
			if len(f) > 0 {
				var n int64
				if _, err := fmt.Sscan(f[0], &n); err == nil {
					val, found = n, true
				}
			}
		}
	}
	return val, found
}

func keysOf[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
