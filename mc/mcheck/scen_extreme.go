package main

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/spf13/afero"

	spout "github.com/jumptrading/influx-spout/v2/verifmc/gen/influxspout"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mhttp"
)

// extreme configurations: every option of every component at the ends of
// its type.  What is accepted has to work.

type extremeVal struct {
	toml string
	// bad: the modes that cannot use the value ("*": all)
	bad string
}

func xv(bad string, vals ...string) []extremeVal {
	var out []extremeVal
	for _, v := range vals {
		out = append(out, extremeVal{v, bad})
	}
	return out
}

func cat(l ...[]extremeVal) []extremeVal {
	var out []extremeVal
	for _, x := range l {
		out = append(out, x...)
	}
	return out
}

var extremeOpts = []struct {
	key  string
	vals []extremeVal
}{
	{"workers", cat(xv("filter", "0"), xv("filter writer", "-1", "-2", "-9223372036854775808"), xv("", "1", "2", "100"))},
	{"batch_max_count", xv("", "0", "-1", "1", "9223372036854775807")},
	{"batch_max_size", cat(xv("", `"0"`, `"65507"`, `"65508"`, `"1MB"`), xv("listener listener_http", `"1048577"`, `"11MB"`, `"1TB"`, `"7EB"`), xv("listener listener_http writer", `"8EB"`, `"9223372036854775808"`, `"15EB"`))},
	{"batch_max_age", xv("", `"0s"`, `"-1s"`, `"20ms"`, `"2562047h"`)},
	{"write_timeout", xv("", `"0s"`, `"1s"`, `"2562047h"`)},
	{"writer_retry_batches", xv("", "0", "-1", "1", "-9223372036854775808", "100000")},
	{"writer_retry_interval", xv("", `"0s"`, `"1ms"`, `"2562047h"`)},
	{"writer_retry_timeout", xv("", `"0s"`, `"1ns"`, `"2562047h"`)},
	{"read_buffer_size", xv("", `"1"`, `"1GB"`)},
	{"nats_max_pending_size", xv("", `"1KB"`, `"1TB"`, `"7EB"`)},
	{"max_time_delta", xv("", `"1ns"`, `"2562047h"`)},
	{"stats_interval", cat(xv("*", `"0s"`, `"-1ns"`, `"-1s"`), xv("", `"100ms"`, `"2562047h"`))},
	{"downsample_period", cat(xv("listener listener_http filter writer monitor downsampler", `"-1s"`, `"-1ns"`), xv("listener listener_http filter writer monitor", `"100ms"`, `"7s"`))},
	{"name", xv("", `"a\\b"`, `"a b"`, `"%d"`, `"\u00fc"`, `"a,b={}"`)},
	{"queue_group", xv("", `"g"`)},
}

func extremeN(bool) int {
	n := 0
	for _, o := range extremeOpts {
		n += len(o.vals)
	}
	return 3 * (n + len(extremeOpts)) * len(comps)
}

func extreme(i int) {
	failing, command := i%3 == 1, i%3 == 2
	i /= 3
	c := comps[i%len(comps)]
	i /= len(comps)
	key := ""
	var val extremeVal
	for _, o := range extremeOpts {
		if i == len(o.vals) {
			key = o.key // absent: the default
			break
		}
		if i < len(o.vals) {
			key, val = o.key, o.vals[i]
			break
		}
		i -= len(o.vals) + 1
	}
	tick()
	e := setup()
	l := &life{e: e, c: c}
	l.d = e.influx(func(n int, r *mhttp.Request) mhttp.Response {
		if failing && n < 2 {
			return mhttp.Response{Status: 503, Delay: time.Millisecond}
		}
		return mhttp.Response{Status: 204, Delay: time.Millisecond}
	})
	var toml []string
	for _, line := range strings.Split(c.toml, "\n") {
		if !strings.HasPrefix(line, key+"=") {
			toml = append(toml, line)
		}
	}
	if val.toml != "" {
		toml = append(toml, key+"="+val.toml)
	}
	toml = append(toml, "")
	if command && c.name == "filter" {
		toml = append(toml, "[[rule]]", `type="basic"`, `match="other"`, `subject="other"`, "")
	}
	fs := afero.NewMemMapFs()
	afero.WriteFile(fs, confFile, []byte(strings.Join(toml, "\n")), 0644)
	old := config.Fs
	config.Fs = fs
	defer func() { config.Fs = old }()
	cf, err := config.NewConfigFromFile(confFile)
	what := fmt.Sprintf("%s with %s = %s", c.name, key, val.toml)
	mode := strings.Split(c.toml, "\"")[1]
	bad := val.bad == "*"
	for _, m := range strings.Fields(val.bad) {
		bad = bad || m == mode
	}
	if (err != nil) != bad {
		mcrt.Fail("%s: error %v, expected an error: %v", what, err, bad)
	}
	if err != nil {
		return
	}
	if cf.Mode == "writer" && cf.Workers == 0 {
		cf.Workers = 3 // as the command does
	}
	var stop func()
	if command {
		oldArgs := os.Args
		os.Args = []string{"influx-spout", confFile}
		defer func() { os.Args = oldArgs }()
		mcrt.GoNamed("command", spout.MCMain)
	} else {
		stop, err = c.start(cf)
		must(err)
	}
	sleep(10 * time.Millisecond)
	for u := 0; u < 3; u++ {
		l.c.feed(l, u)
		sleep(100 * time.Millisecond)
	}
	sleep(130 * time.Second) // the default period of the downsampler is a minute
	lost := ""
	for u := 0; u < 3; u++ {
		if !l.c.done(l, u) && !failing {
			lost = fmt.Sprintf("%s: unit %d is never processed", what, u)
		}
	}
	if lost != "" {
		mcrt.Fail("%s", lost)
	}
	if command {
		return
	}
	stop()
	l.released("after Stop")
	sleep(time.Hour)
	if lt := mcrt.LiveThreads(); len(lt) > 0 {
		mcrt.Fail("%s: goroutines left after Stop", what)
	}
}

func init() {
	addScenario("C28", &Scenario{Name: "extremes", Doc: "15 options at the ends of their ranges and types in all components: rejected or working (database up, failing at first; started by the command)", N: extremeN, Case: extreme, Chunk: 1})
}

// faultFs lets opening or reading one of the configuration files fail.
type faultFs struct {
	afero.Fs
	name   string
	err    error
	atRead int // bytes read before it fails, -1: opening fails
}

func (f *faultFs) Open(name string) (afero.File, error) {
	if name != f.name {
		return f.Fs.Open(name)
	}
	if f.atRead < 0 {
		return nil, &os.PathError{Op: "open", Path: name, Err: f.err}
	}
	file, err := f.Fs.Open(name)
	return &faultFile{file, f.atRead, f.err}, err
}

type faultFile struct {
	afero.File
	left int
	err  error
}

func (f *faultFile) Read(b []byte) (int, error) {
	if f.left == 0 {
		return 0, f.err
	}
	if len(b) > f.left {
		b = b[:f.left]
	}
	n, err := f.File.Read(b)
	f.left -= n
	return n, err
}

// unreadable: only a common file that does not exist may be missing.
func unreadable(i int) {
	const common = "nats_address = \"nats://a:1\"\n"
	const file = "mode = \"monitor\"\nport = 1234\n"
	names := []string{"/etc/influx-spout.toml", confFile}
	name := names[i%2]
	errs := []error{syscall.ENOENT, syscall.EACCES, syscall.EIO, syscall.ENOTDIR, syscall.EMFILE, os.ErrPermission, os.ErrNotExist, errors.New("boom")}
	err := errs[i/2%len(errs)]
	missing := err == syscall.ENOENT || err == os.ErrNotExist
	for at := -1; at < 29; at++ {
		tick()
		mem := afero.NewMemMapFs()
		afero.WriteFile(mem, names[0], []byte(common), 0644)
		afero.WriteFile(mem, names[1], []byte(file), 0644)
		old := config.Fs
		config.Fs = &faultFs{mem, name, err, at}
		c, got := config.NewConfigFromFile(confFile)
		config.Fs = old
		ok := missing && name == names[0] && at < 0
		if (got == nil) != ok && !(missing && name == names[0]) {
			mcrt.Fail("%s cannot be read after %d bytes (%v): error %v, expected one: %v", name, at, err, got, !ok)
		}
		if ok && (got != nil || c.NATSAddress != "nats://localhost:4222" || c.Port != 1234) {
			mcrt.Fail("without a common file: error %v", got)
		}
	}
}

func init() {
	addScenario("C28", &Scenario{Name: "unreadable", Doc: "opening or reading either file fails after any number of bytes with any of 8 errors", N: func(bool) int { return 16 }, Case: unreadable, Chunk: 1})
}
