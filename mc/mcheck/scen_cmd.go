//go:build go1.21

package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/spf13/afero"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mhttp"
	"github.com/jumptrading/influx-spout/v2/verifmc/mnet"

	spout "github.com/jumptrading/influx-spout/v2/verifmc/gen/influxspout"
)

// C36: the command runs the configured component, and only that.

const pprofPort = 6060

func cmdStart(e *env, file string, common string) {
	fs := afero.NewMemMapFs()
	must(afero.WriteFile(fs, "/conf.d/node 7.toml", []byte(file), 0644))
	if common != "" {
		must(afero.WriteFile(fs, "/etc/influx-spout.toml", []byte(common), 0644))
	}
	config.Fs = fs
	os.Args = []string{"influx-spout", "/conf.d/node 7.toml"}
	goMain()
}

// goMain runs the command; the end of its main function is the end of the
// process.
func goMain() {
	mcrt.GoNamed("command", func() {
		spout.MCMain()
		mcrt.Fail("the command ends: main returned")
	})
}

func cmdRun() {
	inflight, most, slow := 0, 0, false
	l := newLife(func(n int, r *mhttp.Request) mhttp.Response {
		if !slow {
			return mhttp.Response{Status: 204}
		}
		inflight++
		if inflight > most {
			most = inflight
		}
		mcrt.GoNamed("answer", func() {
			sleep(5*time.Second - time.Millisecond)
			inflight--
		})
		return mhttp.Response{Status: 204, Delay: 5 * time.Second}
	})
	old, oldArgs := config.Fs, os.Args
	defer func() { config.Fs, os.Args = old, oldArgs }()
	pprof := mcrt.Choose("pprof", 3) // none, used, port taken
	named := mcrt.Choose("named", 2) == 1
	probe := mcrt.Choose("probes", 2) == 1
	split := mcrt.Choose("common file", 2) == 1
	file := l.c.toml
	if !named {
		file = strings.Replace(file, "name=\"lc\"\n", "", 1)
	}
	if !probe {
		file = strings.Replace(file, fmt.Sprintf("probe_port=%d\n", probePort), "", 1)
	}
	if pprof > 0 {
		file += fmt.Sprintf("pprof_port=%d\n", pprofPort)
	}
	workers := 2
	if l.c.name == "writer" {
		switch mcrt.Choose("workers", 4) {
		case 1:
			file = strings.Replace(file, "workers=2\n", "workers=0\n", 1)
			workers = 2 * runtime.GOMAXPROCS(-1)
		case 2:
			file = strings.Replace(file, "workers=2\n", "", 1)
			workers = 8
		case 3:
			file = strings.Replace(file, "workers=2\n", "workers=1\n", 1)
			workers = 1
		}
	}
	common := ""
	if split {
		// everything but the mode in the common file
		i := strings.Index(file, "\n") + 1
		common, file = file[i:], file[:i]
	}
	var mine *mnet.Binding
	if pprof == 2 {
		var err error
		mine, err = mnet.N.BindTCP(pprofPort)
		must(err)
	}
	cmdStart(l.e, file, common)
	sleep(time.Second)
	if probe {
		for _, p := range []string{"/readyz", "/healthz"} {
			if r := mhttp.Call(probePort, "GET", p); r.Err != nil || r.Status != 200 {
				mcrt.Fail("the command in mode %q: %s is %d (%v)", l.c.name, p, r.Status, r.Err)
			}
		}
	}
	tcp := map[int]bool{}
	for _, p := range l.c.tcp {
		tcp[p] = true
	}
	if probe {
		tcp[probePort] = true
	}
	if pprof > 0 {
		tcp[pprofPort] = true
	}
	for _, p := range []int{probePort, pprofPort, 9331, 13337, 10001, 8086, 80} {
		if mnet.N.TCPBound(p) != tcp[p] {
			mcrt.Fail("the command in mode %q (pprof %v, probes %v): TCP port %d bound: %v", l.c.name, pprof > 0, probe, p, !tcp[p])
		}
	}
	if got := mnet.N.TCPPorts(); len(got) != len(tcp) {
		mcrt.Fail("the command in mode %q (pprof %v, probes %v): TCP ports %v bound", l.c.name, pprof > 0, probe, got)
	}
	if mnet.N.UDPBound(10001) != (len(l.c.udp) > 0) {
		mcrt.Fail("the command in mode %q: UDP port bound: %v", l.c.name, len(l.c.udp) == 0)
	}
	// it goes on working
	for i := 0; i < 4; i++ {
		l.c.feed(l, i)
		sleep([]time.Duration{25 * time.Second, time.Hour}[i/2])
		if !l.c.done(l, i) {
			mcrt.Fail("the command in mode %q does not process message %d", l.c.name, i)
		}
	}
	if l.c.name == "writer" {
		// with the configured number of workers
		slow = true
		for i := 0; i < 3*workers; i++ {
			l.c.feed(l, 10+i)
		}
		sleep(30 * time.Second)
		if most != workers {
			mcrt.Fail("the command in mode \"writer\" makes up to %d writes at once, expected %d", most, workers)
		}
	}
	// under its name
	if l.c.name != "monitor" {
		name := "lc"
		if !named {
			name = "node 7"
		}
		n := 0
		for _, p := range l.e.published(subjMon) {
			for _, line := range strings.Split(string(p), "\n") {
				if line == "" {
					continue
				}
				n++
				if !strings.Contains(line, fmt.Sprintf("name=%q", name)) {
					mcrt.Fail("the command in mode %q named %q reports %q", l.c.name, name, line)
				}
			}
		}
		if n == 0 {
			mcrt.Fail("the command in mode %q reports nothing", l.c.name)
		}
	}
	if mine != nil && !mnet.N.TCPBound(pprofPort) {
		mcrt.Fail("the port of another process was taken")
	}
	mcrt.Observe("%s %d %v %v %v", l.c.name, pprof, named, probe, split)
}

// cmdFails: a start that fails at any step ends the command with an error.
func cmdFails() {
	l := newLife(nil)
	old, oldArgs := config.Fs, os.Args
	defer func() { config.Fs, os.Args = old, oldArgs }()
	mcrt.X.Data["fails"] = true
	what := []string{"nats", "port", "rule", "file"}[mcrt.Choose("failure", 4)]
	file := l.c.toml
	switch what {
	case "nats":
		l.e.B.GoDown()
	case "port":
		if len(l.c.tcp) == 0 && len(l.c.udp) == 0 {
			mcrt.X.Data["fails"] = false
			return
		}
		l.e.N.BindErr = func(network string, port int) error {
			if port != probePort {
				return fmt.Errorf("listen %s :%d: bind: address already in use", network, port)
			}
			return nil
		}
	case "rule":
		if l.c.name != "filter" && l.c.name != "writer" {
			mcrt.X.Data["fails"] = false
			return
		}
		file += "[[rule]]\ntype=\"regex\"\nmatch=\"(\"\n"
		if l.c.name == "filter" {
			file += "subject=\"x\"\n"
		}
	case "file":
		file = "x" + file
	}
	cmdStart(l.e, file, "")
	sleep(time.Minute)
	mcrt.Fail("the command in mode %q goes on although its start failed (%s)", l.c.name, what)
}

func cmdFailsPost(x *mcrt.Exec) string {
	if fails, _ := x.Data["fails"].(bool); fails && x.Kind == "exit" {
		if strings.Contains(x.Violation, "log.Fatal") || strings.Contains(x.Violation, "os.Exit(1)") {
			return ""
		}
	}
	return x.Violation
}

func init() {
	addScenario("C36",
		&Scenario{Name: "run", Doc: "the command in all 6 modes with and without pprof port (free or taken), name, probes and common file, and 3 numbers of writer workers; messages over 2 hours", Opts: mcrt.Opts{MaxSteps: 20000000}, Quick: Bounds{Sched: 0}, Thorough: Bounds{Sched: 1}, Body: cmdRun},
		&Scenario{Name: "failing", Doc: "NATS away, port taken, invalid rule, unparsable file in every mode", Quick: Bounds{Sched: 1}, Thorough: Bounds{Sched: 2}, Body: cmdFails, Post: cmdFailsPost},
		&Scenario{Name: "arguments", Doc: "every kind of argument and configuration", Body: mainRun, Post: mainPost, Quick: Bounds{1, 0}, Thorough: Bounds{2, 0}},
	)
}
