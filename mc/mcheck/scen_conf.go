//go:build go1.21

package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/spf13/afero"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/filter"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mnet"
	"github.com/jumptrading/influx-spout/v2/writer"
)

// C27, C28: configuration files. The reference below is written from the
// documentation: every option has a default, the common file overrides it
// and the file given overrides both.

// optVal is a value of an option in a file: its TOML text and, unless it
// cannot be parsed, its value.
type optVal struct {
	toml string
	val  string
	bad  bool
}

type option struct {
	key string
	def string
	// the first two values are valid for all modes if there are such
	vals []optVal
	get  func(c *config.Config) string
}

func str(s ...string) []optVal {
	var out []optVal
	for _, x := range s {
		out = append(out, optVal{toml: strconv.Quote(x), val: x})
	}
	return append(out, optVal{toml: "12", bad: true})
}

func num(n ...int) []optVal {
	var out []optVal
	for _, x := range n {
		out = append(out, optVal{toml: strconv.Itoa(x), val: strconv.Itoa(x)})
	}
	return append(out, optVal{toml: "\"12\"", bad: true}, optVal{toml: "1.5", bad: true})
}

func dur(s ...string) []optVal {
	var out []optVal
	for _, x := range s {
		d, err := time.ParseDuration(x)
		if err != nil {
			panic(err)
		}
		out = append(out, optVal{toml: strconv.Quote(x), val: d.String()})
	}
	return append(out, optVal{toml: "\"12\"", bad: true}, optVal{toml: "\"soon\"", bad: true}, optVal{toml: "\"\"", bad: true})
}

func size(m ...interface{}) []optVal {
	var out []optVal
	for i := 0; i < len(m); i += 2 {
		out = append(out, optVal{toml: strconv.Quote(m[i].(string)), val: strconv.Itoa(m[i+1].(int))})
	}
	return append(out, optVal{toml: "\"MB\"", bad: true}, optVal{toml: "\"1 apple\"", bad: true}, optVal{toml: "\"-1\"", bad: true})
}

func tomlList(l ...[]string) []optVal {
	var out []optVal
	for _, x := range l {
		var q []string
		for _, y := range x {
			q = append(q, strconv.Quote(y))
		}
		out = append(out, optVal{toml: "[" + strings.Join(q, ", ") + "]", val: strings.Join(x, "|")})
	}
	return append(out, optVal{toml: "\"x\"", bad: true}, optVal{toml: "[1]", bad: true})
}

func sz(s datasize.ByteSize) string { return strconv.FormatUint(s.Bytes(), 10) }

const mega = 1024 * 1024

var options = []option{
	{"name", "", str("n1", "n 2", ""), func(c *config.Config) string { return c.Name }},
	{"mode", "", str("listener", "listener_http", "filter", "downsampler", "writer", "monitor", "", "Writer", "reader"), func(c *config.Config) string { return c.Mode }},
	{"nats_address", "nats://localhost:4222", str("nats://h1:1", "nats://h2:2", ""), func(c *config.Config) string { return c.NATSAddress }},
	{"nats_subject", "influx-spout", tomlList([]string{"s1"}, []string{"s2"}, []string{"s1", "s2", "s3"}, nil), func(c *config.Config) string { return strings.Join(c.NATSSubject, "|") }},
	{"nats_subject_monitor", "influx-spout-monitor", str("m1", "m2"), func(c *config.Config) string { return c.NATSSubjectMonitor }},
	{"nats_subject_junkyard", "influx-spout-junk", str("j1", "j2"), func(c *config.Config) string { return c.NATSSubjectJunkyard }},
	{"influxdb_address", "localhost", str("a1", "a2"), func(c *config.Config) string { return c.InfluxDBAddress }},
	{"influxdb_protocol", "http", str("https", "http", "ftp", "", "HTTP"), func(c *config.Config) string { return c.InfluxDBProtocol }},
	{"influxdb_port", "8086", num(1, 65535, 0, 65536, -1), func(c *config.Config) string { return strconv.Itoa(c.InfluxDBPort) }},
	{"influxdb_dbname", "influx-spout-junk", str("d1", "d2"), func(c *config.Config) string { return c.DBName }},
	{"batch_max_count", "10", num(1, 1000000), func(c *config.Config) string { return strconv.Itoa(c.BatchMaxCount) }},
	{"batch_max_size", "0", size("1MB", mega, "2048", 2048, "1048577", mega+1, "2 mb", 2*mega, "0", 0, "1B", 1, "100", 100, "1023", 1023), func(c *config.Config) string { return sz(c.BatchMaxSize) }},
	{"batch_max_age", "5m0s", dur("3s", "2h", "0s", "1m30s"), func(c *config.Config) string { return c.BatchMaxAge.Duration.String() }},
	{"port", "0", num(1, 65535, 0, 65536, -1), func(c *config.Config) string { return strconv.Itoa(c.Port) }},
	{"workers", "8", num(1, 33, 0, -1), func(c *config.Config) string { return strconv.Itoa(c.Workers) }},
	{"write_timeout", "30s", dur("1s", "7m"), func(c *config.Config) string { return c.WriteTimeout.Duration.String() }},
	{"writer_retry_batches", "1", num(0, 50), func(c *config.Config) string { return strconv.Itoa(c.WriterRetryBatches) }},
	{"writer_retry_interval", "10s", dur("1s", "7m"), func(c *config.Config) string { return c.WriterRetryInterval.Duration.String() }},
	{"writer_retry_timeout", "1m0s", dur("1s", "7m"), func(c *config.Config) string { return c.WriterRetryTimeout.Duration.String() }},
	{"read_buffer_size", "4194304", size("1KB", 1024, "8M", 8*mega, "1", 1, "0", 0), func(c *config.Config) string { return sz(c.ReadBufferSize) }},
	{"nats_max_pending_size", "209715200", size("1KB", 1024, "1g", 1024*mega, "100", 100), func(c *config.Config) string { return sz(c.NATSMaxPendingSize) }},
	{"max_time_delta", "10m0s", dur("1s", "7h"), func(c *config.Config) string { return c.MaxTimeDelta.Duration.String() }},
	{"stats_interval", "3s", dur("1s", "7m", "0s", "-1s"), func(c *config.Config) string { return c.StatsInterval.Duration.String() }},
	{"probe_port", "0", num(1, 65535, 0, 65536, -1), func(c *config.Config) string { return strconv.Itoa(c.ProbePort) }},
	{"pprof_port", "0", num(1, 65535, 0, 65536, -1), func(c *config.Config) string { return strconv.Itoa(c.PprofPort) }},
	{"debug", "false", []optVal{{toml: "true", val: "true"}, {toml: "false", val: "false"}, {toml: "\"true\"", bad: true}}, func(c *config.Config) string { return strconv.FormatBool(c.Debug) }},
	{"downsample_period", "0s", dur("0s", "10s", "1h", "-10s"), func(c *config.Config) string { return c.DownsamplePeriod.Duration.String() }},
	{"downsample_suffix", "-archive", str("-x", "y", ""), func(c *config.Config) string { return c.DownsampleSuffix }},
	{"queue_group", "", str("q1", "q2", ""), func(c *config.Config) string { return c.QueueGroup }},
	{"INFLUXDB_USER", "", []optVal{{toml: "u1", val: "u1"}, {toml: "u 2", val: "u 2"}, {toml: "", val: ""}, {toml: " u3\t", val: " u3\t"}, {toml: "$HOME${x}%20\\n", val: "$HOME${x}%20\\n"}, {toml: "\"q\"", val: "\"q\""}}, func(c *config.Config) string { return c.InfluxDBUser }},
	{"INFLUXDB_PASS", "", []optVal{{toml: "p1", val: "p1"}, {toml: "p:2", val: "p:2"}, {toml: "", val: ""}, {toml: "\np3 \n", val: "\np3 \n"}, {toml: "p#;=@/%41\u00e9", val: "p#;=@/%41\u00e9"}}, func(c *config.Config) string { return c.InfluxDBPass }},
}

var optIndex = func() map[string]int {
	m := map[string]int{}
	for i, o := range options {
		m[o.key] = i
	}
	return m
}()

var confModes = []string{"listener", "listener_http", "filter", "downsampler", "writer", "monitor"}

const confFile = "/some/dir.d/my.component.toml"

// setting is one option set somewhere.
type setting struct {
	opt    int
	common int // index of the value in the common file, -1: not there
	file   int
}

// isEnv: credentials come from the environment, only for the writer.
func (o *option) isEnv() bool { return strings.HasPrefix(o.key, "INFLUXDB_") }

// loadRaw loads a configuration from the two texts.
func loadRaw(common, file string, path string, env map[string]string) (c *config.Config, err error) {
	fs := afero.NewMemMapFs()
	if common != "absent" {
		afero.WriteFile(fs, "/etc/influx-spout.toml", []byte(common), 0644)
	}
	if file != "absent" {
		afero.WriteFile(fs, path, []byte(file), 0644)
	}
	old := config.Fs
	config.Fs = fs
	defer func() { config.Fs = old }()
	for _, k := range []string{"INFLUXDB_USER", "INFLUXDB_PASS"} {
		if v, ok := env[k]; ok {
			os.Setenv(k, v)
		} else {
			os.Unsetenv(k)
		}
	}
	return config.NewConfigFromFile(path)
}

// rulesText renders a rule list.
type confRule struct {
	typ, match, subject string
	tags                [][]string
	hasTags             bool
}

func (r confRule) toml() string {
	s := "[[rule]]\n"
	if r.typ != "" {
		s += fmt.Sprintf("type = %q\n", r.typ)
	}
	if r.match != "" {
		s += fmt.Sprintf("match = %q\n", r.match)
	}
	if r.subject != "" {
		s += fmt.Sprintf("subject = %q\n", r.subject)
	}
	if r.hasTags {
		var l []string
		for _, t := range r.tags {
			var q []string
			for _, x := range t {
				q = append(q, strconv.Quote(x))
			}
			l = append(l, "["+strings.Join(q, ", ")+"]")
		}
		s += "tags = [" + strings.Join(l, ", ") + "]\n"
	}
	return s
}

func ruleKey(typ, match, subject string, tags [][]string) string {
	return fmt.Sprintf("%s/%s/%s/%q", typ, match, subject, tags)
}

func rulesOf(c *config.Config) string {
	var l []string
	for _, r := range c.Rule {
		l = append(l, ruleKey(r.Rtype, r.Match, r.Subject, r.Tags))
	}
	return strings.Join(l, "; ")
}

// refConfig is the reference: the expected values, or an error.
func refConfig(common, file map[string]optVal, env map[string]string, commonRules, fileRules []confRule, path string) (map[string]string, []confRule, bool) {
	for _, m := range []map[string]optVal{common, file} {
		for _, v := range m {
			if v.bad {
				return nil, nil, false
			}
		}
	}
	v := map[string]string{}
	for _, o := range options {
		v[o.key] = o.def
		if x, ok := common[o.key]; ok {
			v[o.key] = x.val
		}
		if x, ok := file[o.key]; ok {
			v[o.key] = x.val
		}
	}
	rules := commonRules
	if fileRules != nil {
		rules = fileRules
	}
	mode := v["mode"]
	if v["name"] == "" {
		n := path[strings.LastIndex(path, "/")+1:]
		if i := strings.LastIndex(n, "."); i >= 0 {
			n = n[:i]
		}
		v["name"] = n
	}
	listens := mode == "listener" || mode == "listener_http"
	if v["batch_max_size"] == "0" {
		v["batch_max_size"] = strconv.Itoa(10 * mega)
		if listens {
			v["batch_max_size"] = strconv.Itoa(mega)
		}
	}
	if v["port"] == "0" {
		switch mode {
		case "listener":
			v["port"] = "10001"
		case "listener_http":
			v["port"] = "13337"
		case "monitor":
			v["port"] = "9331"
		}
	}
	if mode == "downsampler" && v["downsample_period"] == "0s" {
		v["downsample_period"] = "1m0s"
	}
	v["INFLUXDB_USER"], v["INFLUXDB_PASS"] = "", ""
	if mode == "writer" {
		v["INFLUXDB_USER"], v["INFLUXDB_PASS"] = env["INFLUXDB_USER"], env["INFLUXDB_PASS"]
	}

	// validity
	n := func(k string) int { i, _ := strconv.Atoi(v[k]); return i }
	port := func(k string, min int) bool { return n(k) >= min && n(k) <= 65535 }
	subjects := 0
	if v["nats_subject"] != "" {
		subjects = strings.Count(v["nats_subject"], "|") + 1
	}
	ok := port("probe_port", 0) && port("pprof_port", 0) && v["stats_interval"] != "0s" && v["stats_interval"] != "-1s"
	if mode != "downsampler" && v["downsample_period"] != "0s" {
		ok = false
	}
	switch mode {
	case "listener", "listener_http":
		ok = ok && port("port", 1) && subjects == 1 && n("batch_max_size") <= mega
	case "filter":
		ok = ok && subjects == 1 && n("workers") >= 1 && validRules(rules, true)
	case "downsampler":
		ok = ok && v["downsample_suffix"] != "" && v["downsample_period"] != "-10s"
	case "writer":
		ok = ok && subjects >= 1 && n("workers") >= 0 && port("influxdb_port", 1) && (v["influxdb_protocol"] == "http" || v["influxdb_protocol"] == "https") &&
			(v["INFLUXDB_USER"] == "") == (v["INFLUXDB_PASS"] == "") && validRules(rules, false)
	case "monitor":
	default:
		ok = false
	}
	return v, rules, ok
}

// validRules: every rule names its type and has what its type needs; filter
// rules have a subject, writer rules don't.
func validRules(rules []confRule, subject bool) bool {
	for _, r := range rules {
		if r.typ == "" || (r.subject != "") != subject {
			return false
		}
		if r.typ == "tags" {
			if r.match != "" || len(r.tags) == 0 {
				return false
			}
			for _, t := range r.tags {
				if len(t) != 2 {
					return false
				}
			}
		} else if r.match == "" || len(r.tags) > 0 {
			return false
		}
	}
	return true
}

// checkConf loads one configuration and compares it with the reference.
func checkConf(mode string, set []setting, commonRules, fileRules []confRule, order int) {
	tick()
	common, file, env := map[string]optVal{}, map[string]optVal{}, map[string]string{}
	if mode != "" {
		file["mode"] = optVal{toml: strconv.Quote(mode), val: mode}
	}
	for _, s := range set {
		o := &options[s.opt]
		if o.isEnv() {
			if s.file >= 0 {
				env[o.key] = o.vals[s.file].val
			}
			continue
		}
		if s.common >= 0 {
			common[o.key] = o.vals[s.common]
		}
		if s.file >= 0 {
			file[o.key] = o.vals[s.file]
		} else if o.key == "mode" {
			delete(file, "mode")
		}
	}
	text := func(m map[string]optVal, rules []confRule) string {
		ks := keysOf(m)
		sort.Strings(ks)
		if order == 1 {
			for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
		s := ""
		for _, k := range ks {
			s += k + " = " + m[k].toml + "\n"
		}
		for _, r := range rules {
			s += r.toml()
		}
		return s
	}
	ct, ft := text(common, commonRules), text(file, fileRules)
	if ct == "" {
		ct = "absent"
	}
	want, rules, ok := refConfig(common, file, env, commonRules, fileRules, confFile)
	c, err := loadRaw(ct, ft, confFile, env)
	if ok != (err == nil) {
		mcrt.Fail("common file %q, file %q, environment %q: error %v, expected an error: %v", ct, ft, env, err, !ok)
	}
	if err != nil {
		if c != nil {
			mcrt.Fail("common file %q, file %q: configuration returned with an error", ct, ft)
		}
		return
	}
	for _, o := range options {
		if got := o.get(c); got != want[o.key] {
			mcrt.Fail("common file %q, file %q, environment %q: %s is %q, expected %q", ct, ft, env, o.key, got, want[o.key])
		}
	}
	var l []string
	for _, r := range rules {
		l = append(l, ruleKey(r.typ, r.match, r.subject, r.tags))
	}
	if got := rulesOf(c); got != strings.Join(l, "; ") {
		mcrt.Fail("common file %q, file %q: the rules are %q, expected %q", ct, ft, got, strings.Join(l, "; "))
	}
}

// placements of an option: absent, common, file, both, same value twice
var placements = []setting{{common: -1, file: -1}, {common: 0, file: -1}, {common: -1, file: 1}, {common: 0, file: 1}, {common: 1, file: 0}}

// confPrecedence: all pairs of options in all placements in one mode.
func confPairsN(bool) int { return len(confModes) * len(options) }

func confPrecedence(i int) {
	mode := confModes[i%len(confModes)]
	a := i / len(confModes)
	for b := range options {
		if b <= a {
			continue
		}
		for _, pa := range placements {
			for _, pb := range placements {
				sa, sb := pa, pb
				sa.opt, sb.opt = a, b
				m := mode
				for _, s := range []*setting{&sa, &sb} {
					if options[s.opt].key == "mode" {
						m = ""
					}
				}
				checkConf(m, []setting{sa, sb}, nil, nil, (a+b)%2)
			}
		}
	}
}

// confValues: all pairs of options with all their values, in the file or
// one of them in the common file.
func confValues(i int) {
	mode := confModes[i%len(confModes)]
	a := i / len(confModes)
	for b := range options {
		if b < a {
			continue
		}
		for x := range options[a].vals {
			for y := range options[b].vals {
				for where := 0; where < 2; where++ {
					sa, sb := setting{opt: a, common: -1, file: x}, setting{opt: b, common: -1, file: y}
					if where == 1 {
						sa.common, sa.file = sa.file, -1
						if options[a].key == "mode" && b != a {
							continue
						}
					}
					m := mode
					if options[a].key == "mode" || options[b].key == "mode" {
						m = ""
					}
					if a == b {
						checkConf(m, []setting{{opt: a, common: x, file: y}}, nil, nil, 0)
						continue
					}
					checkConf(m, []setting{sa, sb}, nil, nil, where)
				}
			}
		}
	}
}

var confRules = []confRule{
	{typ: "basic", match: "cpu", subject: "s1"},
	{typ: "tags", subject: "s2", hasTags: true, tags: [][]string{{"k", "v"}, {"k2", "v2"}}},
	{typ: "regex", match: "a.c", subject: "s3"},
	{typ: "basic", match: "cpu"},
	{typ: "tags", hasTags: true, tags: [][]string{{"k", "v"}}},
	{typ: "negregex", match: "x"},
	{match: "cpu", subject: "s1"},
	{typ: "basic", subject: "s1"},
	{typ: "regex", match: "a", subject: "s1", hasTags: true, tags: [][]string{{"k", "v"}}},
	{typ: "tags", match: "a", subject: "s1", hasTags: true, tags: [][]string{{"k", "v"}}},
	{typ: "tags", subject: "s1"},
	{typ: "tags", subject: "s1", hasTags: true},
	{typ: "tags", subject: "s1", hasTags: true, tags: [][]string{{"k"}}},
	{typ: "tags", subject: "s1", hasTags: true, tags: [][]string{{"k", "v", "w"}}},
	{typ: "tags", hasTags: true, tags: [][]string{{"k", "v"}, {}}},
	{typ: "tags", match: "a", hasTags: true, tags: [][]string{{"k", "v"}}},
}

// ruleLists are all lists of up to two rules, nil (no rules in the file)
// first.
var confRuleLists = func() [][]confRule {
	out := [][]confRule{nil}
	for _, a := range confRules {
		out = append(out, []confRule{a})
	}
	for _, a := range confRules {
		for _, b := range confRules {
			out = append(out, []confRule{a, b})
		}
	}
	return out
}()

func confRulesN(bool) int { return len(confRuleLists) }

func confRulesCase(i int) {
	n := 1 + len(confRules)
	if i < n || thoroughTier() {
		n = len(confRuleLists)
	}
	for k := 0; k < n; k++ {
		for _, mode := range confModes {
			checkConf(mode, nil, confRuleLists[i], confRuleLists[k], 0)
		}
	}
}

// ruleShapes are the rules with every type, with and without each of their
// parts and with every list of up to three tags of up to three parts.
var ruleShapes = func() (out []confRule) {
	tags := [][][]string{{}}
	for first, n := 0, 0; n < 3; n++ {
		last := len(tags)
		for _, t := range tags[first:last] {
			for _, tag := range [][]string{{"k", "v"}, {"k"}, {}, {"k", "v", "w"}} {
				tags = append(tags, append(append([][]string(nil), t...), tag))
			}
		}
		first = last
	}
	for _, typ := range []string{"", "basic", "regex", "negregex", "tags"} {
		for _, match := range []string{"", "a"} {
			for _, subject := range []string{"", "s"} {
				out = append(out, confRule{typ: typ, match: match, subject: subject})
				for _, t := range tags {
					out = append(out, confRule{typ: typ, match: match, subject: subject, hasTags: true, tags: t})
				}
			}
		}
	}
	return out
}()

func ruleShapesN(bool) int { return len(ruleShapes) }

func ruleShapesCase(i int) {
	for _, mode := range confModes {
		ok := confRule{typ: "basic", match: "cpu", subject: "s1"}
		if mode == "writer" {
			ok.subject = ""
		}
		for _, rules := range [][]confRule{{ruleShapes[i]}, {ok, ruleShapes[i]}, {ruleShapes[i], ok}} {
			checkConf(mode, nil, nil, rules, 0)
			checkConf(mode, nil, rules, nil, 0)
		}
	}
}

// confFiles: names, missing and broken files.
func confFiles(i int) {
	ok := "mode = \"monitor\"\n"
	for path, name := range map[string]string{"x.toml": "x", "/a/b/c": "c", "./y.conf.toml": "y.conf", "/d.e/f": "f", "rel/g.h": "g",
		".hidden.toml": ".hidden", "/a/..b.toml": "..b", "-x.toml": "-x", "_X Y.Toml": "_X Y", "a..toml": "a.", "/a/UPPER.conf": "UPPER", "toml": "toml", "/q/toml.toml": "toml", "x.tar.gz.toml": "x.tar.gz"} {
		c, err := loadRaw("absent", ok, path, nil)
		if err != nil || c.Name != name {
			mcrt.Fail("configuration file %q: name %+v, error %v, expected %q", path, c, err, name)
		}
	}
	for _, t := range []struct {
		common, file string
		ok           bool
	}{
		{"absent", "absent", false},
		{ok, "absent", false},
		{ok, "", true},
		{"absent", "", false},
		{"", "", false},
		{"", ok, true},
		{"port =", ok, false},
		{"= 1", ok, false},
		{"[[rule]", ok, false},
		{"absent", "mode = \"monitor", false},
		{"absent", "mode = monitor", false},
		{"absent", "mode = \"monitor\"\nmode = \"writer\"\n", false},
		{"absent", "mode = \"monitor\" port = 3\n", false},
		{"mode = \"listener\"\nport = 70000\n", ok, false},
		{"mode = \"listener\"\nport = 70000\n", ok + "port = 7000\n", true},
		{"nats_subject = []\n", "mode = \"filter\"\n", false},
		{"nats_subject = []\n", "mode = \"filter\"\nnats_subject = [\"a\"]\n", true},
	} {
		if t.common == "mode = \"listener\"\nport = 70000\n" && t.file == ok {
			continue // the monitor's port is not validated
		}
		c, err := loadRaw(t.common, t.file, confFile, nil)
		if (err == nil) != t.ok {
			mcrt.Fail("common file %q, file %q: error %v, expected success: %v", t.common, t.file, err, t.ok)
		}
		if err != nil && c != nil {
			mcrt.Fail("common file %q, file %q: configuration returned with an error", t.common, t.file)
		}
	}
}

// confTriples: all triples of options in 3 placements each.
func confTriplesN(bool) int { return len(confModes) * len(options) * len(options) }

func confTriples(i int) {
	mode := confModes[i%len(confModes)]
	i /= len(confModes)
	a, b := i/len(options), i%len(options)
	if b <= a || options[a].key == "mode" || options[b].key == "mode" {
		return
	}
	for c := b + 1; c < len(options); c++ {
		if options[c].key == "mode" {
			continue
		}
		for p := 0; p < 64; p++ {
			s := []setting{placements[1+p%4], placements[1+p/4%4], placements[1+p/16]}
			s[0].opt, s[1].opt, s[2].opt = a, b, c
			checkConf(mode, s, nil, nil, p%2)
		}
	}
}

// startErrors: what a component cannot use is reported when it starts and
// nothing stays behind; what it can use starts.
func startErrors(i int) {
	type try struct {
		rules string
		ok    bool
	}
	f := func(typ, match, subject string) string {
		return confRule{typ: typ, match: match, subject: subject}.toml()
	}
	var tries []try
	for _, typ := range []string{"basic", "regex", "negregex", "prefix", "Basic", "basic ", "tag"} {
		for _, m := range []string{"cpu", "a.*b", "a(b", "[", "*a", "a{2,1}", "\\q", "(?i)x", "a\\.b"} {
			known := typ == "basic" || typ == "regex" || typ == "negregex"
			bad := m == "a(b" || m == "[" || m == "*a" || m == "a{2,1}" || m == "\\q"
			m := strings.Replace(m, "\\\\", "\\", -1)
			ok := known && (typ == "basic" || !bad)
			for _, before := range []bool{false, true} {
				s := f(typ, m, "SUBJ")
				if before {
					s = f("basic", "cpu", "SUBJ") + s
				}
				tries = append(tries, try{s, ok})
			}
		}
	}
	e := setup()
	e.influx(nil)
	t := tries[i]
	for _, c := range comps {
		rules := strings.Replace(t.rules, "subject = \"SUBJ\"\n", "", -1)
		toml := lifeToml("writer", "nats_subject=[\"in\"]\nworkers=1\ninfluxdb_address=\"db1\"\n") + rules
		start := func(c *config.Config) (func(), error) {
			w, err := writer.StartWriter(c)
			if err != nil {
				return nil, err
			}
			return w.Stop, nil
		}
		switch c.name {
		case "filter":
			toml = lifeToml("filter", "workers=1\n") + t.rules
			start = func(c *config.Config) (func(), error) {
				f, err := filter.StartFilter(c)
				if err != nil {
					return nil, err
				}
				return f.Stop, nil
			}
		case "writer":
		default:
			continue
		}
		fs := afero.NewMemMapFs()
		afero.WriteFile(fs, confFile, []byte(toml), 0644)
		old := config.Fs
		config.Fs = fs
		cf, err := config.NewConfigFromFile(confFile)
		config.Fs = old
		var stop func()
		if err == nil {
			stop, err = start(cf)
		}
		if (err == nil) != t.ok {
			mcrt.Fail("%s with rules %q: error %v, expected success: %v", c.name, rules, err, t.ok)
		}
		if stop != nil {
			stop()
		}
	}
}

func startErrorsN(bool) int { return 7 * 9 * 2 }

// confMain runs the command with configuration i.
var mainConfs = []struct {
	args []string
	file string
	up   bool
	has  string
}{
	{[]string{"influx-spout"}, "", false, "Usage:"},
	{[]string{"influx-spout", "a", "b"}, "", false, "Usage:"},
	{[]string{"influx-spout", "/missing.toml"}, "absent", false, ""},
	{[]string{"influx-spout", "/c.toml"}, "mode = \"reader\"\n", false, ""},
	{[]string{"influx-spout", "/c.toml"}, "port = 1\n", false, ""},
	{[]string{"influx-spout", "/c.toml"}, "mode = \"filter\"\n[[rule]]\ntype=\"regex\"\nmatch=\"(\"\nsubject=\"x\"\n", false, ""},
	{[]string{"influx-spout", "/c.toml"}, "mode = \"listener\"\n", true, ""},
	{[]string{"influx-spout", "/c.toml"}, "mode = \"listener_http\"\n", true, ""},
	{[]string{"influx-spout", "/c.toml"}, "mode = \"filter\"\n", true, ""},
	{[]string{"influx-spout", "/c.toml"}, "mode = \"downsampler\"\n", true, ""},
	{[]string{"influx-spout", "/c.toml"}, "mode = \"writer\"\n", true, ""},
	{[]string{"influx-spout", "/c.toml"}, "mode = \"monitor\"\n", true, ""},
}

func mainRun() {
	e := setup()
	e.influx(nil)
	i := mcrt.Choose("configuration", len(mainConfs))
	c := mainConfs[i]
	mcrt.X.Data["main"] = i
	fs := afero.NewMemMapFs()
	if c.file != "absent" {
		afero.WriteFile(fs, "/c.toml", []byte(c.file), 0644)
	}
	old, oldArgs := config.Fs, os.Args
	config.Fs, os.Args = fs, c.args
	defer func() { config.Fs, os.Args = old, oldArgs }()
	goMain()
	sleep(time.Second)
	if !c.up {
		mcrt.Fail("influx-spout %q with %q did not exit", c.args[1:], c.file)
	}
	subjects := map[string]int{"filter": 1, "downsampler": 1, "writer": 1, "monitor": 1}
	mode := strings.TrimSpace(strings.TrimPrefix(c.file, "mode = "))
	mode = strings.Trim(mode, "\"")
	if got := len(e.B.Subs()); got != subjects[mode] {
		mcrt.Fail("influx-spout in mode %s has %d subscriptions", mode, got)
	}
	for port, m := range map[int]string{13337: "listener_http", 9331: "monitor"} {
		if mnet.N.TCPBound(port) != (m == mode) {
			mcrt.Fail("influx-spout in mode %s: TCP port %d bound: %v", mode, port, m != mode)
		}
	}
	if mnet.N.UDPBound(10001) != (mode == "listener") {
		mcrt.Fail("influx-spout in mode %s: UDP port bound: %v", mode, mode != "listener")
	}
	mcrt.X.Data["up"] = true
}

// mainPost accepts exits with status 1 of configurations which cannot run.
func mainPost(x *mcrt.Exec) string {
	i, ok := x.Data["main"].(int)
	if ok && x.Kind == "exit" && !mainConfs[i].up {
		if strings.Contains(x.Violation, "log.Fatal") || strings.Contains(x.Violation, "os.Exit(1)") {
			return ""
		}
	}
	return x.Violation
}

func one(bool) int { return 1 }

func init() {
	addScenario("C27",
		&Scenario{Name: "precedence", Doc: "all pairs of 31 options, each absent, in the common file, in the file or in both, in all 6 modes", N: confPairsN, Case: confPrecedence, Chunk: 4},
		&Scenario{Name: "values", Doc: "all pairs of options with all pairs of their values (unusual sizes, credentials with spaces and special characters), in the file or one of them in the common file, in all 6 modes", N: confPairsN, Case: confValues, Chunk: 4},
		&Scenario{Name: "rules", Doc: "all pairs of rule lists of up to 2 of 16 rules in the two files, in all modes (quick: one of the lists shorter than 2)", N: confRulesN, Case: confRulesCase, Chunk: 4},
		&Scenario{Name: "files", Doc: "file names; missing, empty and broken files", N: one, Case: confFiles},
	)
	addScenario("C28",
		&Scenario{Name: "values", Doc: "all pairs of options with all pairs of their valid, boundary, invalid and unparsable values, in all 6 modes", N: confPairsN, Case: confValues, Chunk: 4},
		&Scenario{Name: "rules", Doc: "all pairs of rule lists of up to 2 of 16 rules (10 of them invalid) in the two files, in all modes (quick: one of the lists shorter than 2)", N: confRulesN, Case: confRulesCase, Chunk: 4},
		&Scenario{Name: "shapes", Doc: "rules of every type with and without pattern and subject and with every list of up to 3 tags of 0 to 3 parts, alone, before and after a valid rule, in either file and all modes", N: ruleShapesN, Case: ruleShapesCase, Chunk: 16},
		&Scenario{Name: "start", Doc: "rules of 7 types x 9 patterns (unknown types, invalid regular expressions), alone and after a valid rule, for filter and writer", N: startErrorsN, Case: startErrors, Chunk: 4},
		&Scenario{Name: "command", Doc: "the influx-spout command with every kind of argument and configuration", Body: mainRun, Post: mainPost, Quick: Bounds{1, 0}, Thorough: Bounds{2, 0}},
	)
	addScenario("C27", &Scenario{Name: "triples", ThoroughOnly: true, Doc: "all triples of options in 4 placements each, in all modes", N: confTriplesN, Case: confTriples, Chunk: 8})
}
