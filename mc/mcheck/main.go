//go:build go1.21

// Command mcheck decides the properties of influx-spout by enumerating
// executions of the instrumented code.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
)

var (
	propID   = flag.String("prop", "", "property")
	tier     = flag.String("tier", "quick", "quick or thorough")
	evidence = flag.String("evidence", "", "evidence file")
	replays  = flag.String("replays", "", "replay directory")
	known    = flag.String("known", "", "known findings file")
	only     = flag.String("scenario", "", "comma separated scenarios")
	budgetS  = flag.Float64("budget", 0, "seconds of exploration")
	nworkers = flag.Int("workers", 8, "worker processes")
	worker   = flag.Int("worker", -1, "internal")
	outF     = flag.String("out", "", "internal")
	replay   = flag.String("replay", "", "replay file")
	list     = flag.Bool("list", false, "list properties and scenarios")
	raceRun  = flag.Bool("racerun", false, "run the scenarios for the race instrumented build")
	raceBin  = flag.String("racebin", "", "race instrumented build of this program")
	extraEv  = flag.String("extra", "", "JSON file merged into the evidence coverage")
)

var lastBeat int64

func beat() { atomic.StoreInt64(&lastBeat, time.Now().UnixNano()) }

// watchdog ends a worker that is stuck outside of the controlled runtime.
func watchdog() {
	beat()
	for {
		time.Sleep(time.Second)
		if time.Now().UnixNano()-atomic.LoadInt64(&lastBeat) > 90e9 {
			buf := make([]byte, 1<<18)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "mcheck: watchdog: execution stuck\n%s\n", buf[:n])
			os.Exit(4)
		}
	}
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

func addScenario(id string, scs ...*Scenario) {
	p := properties[id]
	if p == nil {
		p = &Property{ID: id}
		properties[id] = p
	}
	p.Scenarios = append(p.Scenarios, scs...)
}

func main() {
	flag.Parse()
	if *list {
		var ids []string
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, s := range properties[id].Scenarios {
				fmt.Println(id, s.Name, "--", s.Doc)
				if os.Getenv("MC_BOUNDS") != "" {
					fmt.Println("\t", s.Case != nil, s.ThoroughOnly, s.Quick.Sched, s.Quick.Fault, s.Thorough.Sched, s.Thorough.Fault)
				}
			}
		}
		return
	}
	if *replay != "" {
		replayMain()
		return
	}
	p := properties[*propID]
	if p == nil {
		fatal("unknown property %q", *propID)
	}
	thorough := *tier == "thorough"
	budget := time.Duration(*budgetS * float64(time.Second))
	if budget == 0 {
		budget = 120 * time.Second
		if thorough {
			budget = 600 * time.Second
		}
	}
	var names []string
	if *only != "" {
		names = strings.Split(*only, ",")
	}
	if *worker >= 0 {
		workerMain(p, names, *worker, *nworkers, thorough, budget, *outF)
		return
	}
	os.Exit(parentMain(p, thorough, budget))
}

func thoroughTier() bool { return *tier == "thorough" }

func parentMain(p *Property, thorough bool, budget time.Duration) int {
	start := time.Now()
	tmp, err := ioutil.TempDir("", "mcheck")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	bin, _ := os.Executable()
	var wg sync.WaitGroup
	type wres struct {
		err    error
		stderr string
		res    []*Result
	}
	// The scenarios with and without race detection share the time.
	weights := map[bool]int{}
	for _, sc := range p.Scenarios {
		if !sc.ThoroughOnly || thorough {
			weights[sc.Race] += weight(sc)
		}
	}
	var out []wres
	for _, race := range []bool{false, true} {
		if weights[race] == 0 || race && *raceBin == "" {
			continue
		}
		share := budget.Seconds() * float64(weights[race]) / float64(weights[false]+weights[true])
		group := make([]wres, *nworkers)
		base := len(out)
		for i := 0; i < *nworkers; i++ {
			wg.Add(1)
			go func(i int, race bool) {
				defer wg.Done()
				of := filepath.Join(tmp, fmt.Sprintf("w%d", base+i))
				prog := bin
				if race {
					prog = *raceBin
				}
				cmd := exec.Command(prog, "-prop", p.ID, "-tier", *tier, "-scenario", *only, "-budget", fmt.Sprint(share), "-racerun="+fmt.Sprint(race),
					"-workers", strconv.Itoa(*nworkers), "-worker", strconv.Itoa(i), "-known", *known, "-out", of)
				cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single",
					"GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 history_size=2 log_path="+filepath.Join(tmp, fmt.Sprintf("race%d", i)))
				var eb strings.Builder
				cmd.Stderr = &eb
				err := cmd.Run()
				es := eb.String()
				if race && err != nil && cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 66 {
					err = nil // the race runtime's exit status
				}
				group[i].err, group[i].stderr = err, es
				if b, e := ioutil.ReadFile(of); e == nil {
					dec := json.NewDecoder(strings.NewReader(string(b)))
					for dec.More() {
						r := &Result{}
						if dec.Decode(r) != nil {
							break
						}
						group[i].res = append(group[i].res, r)
					}
				}
			}(i, race)
		}
		wg.Wait()
		out = append(out, group...)
	}

	// merge
	merged := map[string]*Result{}
	var order []string
	outcomes := map[string]map[uint64]bool{}
	crash := ""
	for i := range out {
		if out[i].err != nil {
			if strings.Contains(out[i].stderr, "goroutine stack exceeds") {
				crash = "stack overflow in the code under test\n" + out[i].stderr
			} else {
				fmt.Fprintf(os.Stderr, "worker %d: %v\n%s\n", i, out[i].err, tail(out[i].stderr, 6000))
				return 2
			}
		}
		for _, r := range out[i].res {
			m := merged[r.Scenario]
			if m == nil {
				m = &Result{Scenario: r.Scenario, Complete: true}
				merged[r.Scenario] = m
				order = append(order, r.Scenario)
				outcomes[r.Scenario] = map[uint64]bool{}
			}
			m.Executions += r.Executions
			m.Cases += r.Cases
			m.Inputs += r.Inputs
			m.Steps += r.Steps
			m.Points += r.Points
			m.Diverged += r.Diverged
			m.Flaky += r.Flaky
			m.Viols = append(m.Viols, r.Viols...)
			if r.MaxPoints > m.MaxPoints {
				m.MaxPoints = r.MaxPoints
			}
			m.Complete = m.Complete && r.Complete
			for k, l := range r.Levels {
				if k >= len(m.Levels) {
					m.Levels = append(m.Levels, Level{l.Sched, l.Fault, 0, true})
				}
				m.Levels[k].Executions += l.Executions
				m.Levels[k].Complete = m.Levels[k].Complete && l.Complete
			}
			// a level that some worker did not start is incomplete
			for k := len(r.Levels); k < len(m.Levels); k++ {
				m.Levels[k].Complete = false
			}
			if len(r.Sample) > 0 {
				m.Sample = r.Sample
			}
			if r.Wall > m.Wall {
				m.Wall = r.Wall
			}
			for _, o := range r.Outcomes {
				outcomes[r.Scenario][o] = true
			}
		}
	}
	for k := range merged {
		for i := range out {
			for _, r := range out[i].res {
				if r.Scenario == k {
					for j := len(r.Levels); j < len(merged[k].Levels); j++ {
						merged[k].Levels[j].Complete = false
					}
				}
			}
		}
	}
	states := 0
	var bm []byte
	for i := range out {
		b, err := ioutil.ReadFile(filepath.Join(tmp, fmt.Sprintf("w%d.states", i)))
		if err != nil {
			continue
		}
		if bm == nil {
			bm = b
			continue
		}
		for j := range b {
			bm[j] |= b[j]
		}
	}
	for _, v := range bm {
		states += bits.OnesCount8(v)
	}

	kf := loadKnown(*known)
	exit := 0
	nviol := 0
	if crash != "" {
		exit = 1
		nviol++
		f := writeReplay(p.ID, &Viol{Scenario: "?", Kind: "crash", Message: crash})
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, f)
		fmt.Println(tail(crash, 3000))
	}
	var knownSeen []string
	scen := map[string]interface{}{}
	var execs, inputsN, cases, steps, points, diverged, flaky int64
	distinct := 0
	exhaustive := true
	var samples []interface{}
	for _, name := range order {
		m := merged[name]
		execs += m.Executions
		cases += m.Cases
		steps += m.Steps
		points += m.Points
		diverged += m.Diverged
		flaky += m.Flaky
		exhaustive = exhaustive && m.Complete
		distinct += len(outcomes[name])
		info := map[string]interface{}{
			"executions": m.Executions, "choice_points": m.Points, "scheduling_steps": m.Steps, "longest_choice_vector": m.MaxPoints,
			"distinct_outcomes": len(outcomes[name]), "bound_exhausted": m.Complete, "levels": m.Levels, "wall_s": round1(m.Wall),
		}
		if m.Cases > 0 {
			info["cases"] = m.Cases
		}
		if m.Inputs > 0 {
			info["inputs"] = m.Inputs
			inputsN += m.Inputs
		}
		scen[name] = info
		if len(samples) < 4 && len(m.Sample) > 0 {
			samples = append(samples, map[string]interface{}{"scenario": name, "trace_of_default_execution": m.Sample})
		}
		sort.Slice(m.Viols, func(i, j int) bool {
			if m.Viols[i].Sched+m.Viols[i].Fault != m.Viols[j].Sched+m.Viols[j].Fault {
				return m.Viols[i].Sched+m.Viols[i].Fault < m.Viols[j].Sched+m.Viols[j].Fault
			}
			return len(m.Viols[i].Choices) < len(m.Viols[j].Choices)
		})
		reported := false
		for k := range m.Viols {
			v := &m.Viols[k]
			if e := kf.match(p.ID, name, v.Message); e != nil {
				knownSeen = append(knownSeen, e.what)
				continue
			}
			if reported {
				continue
			}
			reported = true
			nviol++
			exit = 1
			f := writeReplay(p.ID, v)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, f)
			fmt.Printf("  scenario %s (%d scheduling deviations, %d faults, case %d): %s: %s\n", name, v.Sched, v.Fault, v.Case, v.Kind, clip(v.Message, 1500))
			for _, l := range v.Labels {
				fmt.Printf("    %s\n", l)
			}
			if v.Stack != "" {
				fmt.Println(v.Stack)
			}
		}
	}
	seen := map[string]bool{}
	for _, w := range knownSeen {
		if !seen[w] {
			seen[w] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, w)
		}
	}
	lvl := "quick"
	if thorough {
		lvl = "thorough"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"states":                        states,
		"transitions":                   steps,
		"traces_validated_against_impl": execs,
		"evaluations":                   execs + cases + inputsN,
		"distinct_nontrivial":           distinct + int(cases),
		"rule": "an execution is one choice vector (inputs, schedule, faults) run on the real instrumented code; distinct means a different observed outcome; " +
			"an enumerated input is one case",
		"input_cases":         cases,
		"inputs_checked":      inputsN,
		"choice_points":       points,
		"distinct_outcomes":   distinct,
		"replay_divergences":  diverged,
		"unconfirmed_alarms":  flaky,
		"exhaustive":          exhaustive,
		"scenarios":           scen,
		"samples":             samples,
		"known_findings_seen": len(seen),
		"states_note":         "lower bound: set bits of a hashed bitmap of abstract scheduler states (per thread progress, inputs chosen, virtual time)",
	}
	if *extraEv != "" {
		if b, err := ioutil.ReadFile(*extraEv); err == nil {
			m := map[string]interface{}{}
			if json.Unmarshal(b, &m) == nil {
				for k, v := range m {
					cov[k] = v
				}
			}
		}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": lvl, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{
			"NATS, the network, HTTP transport, clock and goroutine scheduler are the controlled models in mc/rt",
			"interleavings are explored at the granularity of synchronisation, channel, clock and I/O operations (plus single statements in scenarios marked fine), up to the stated number of deviations from the default schedule",
		}, p.Assumptions...),
		"wall_s": round1(time.Since(start).Seconds()), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if *evidence != "" {
		if err := ioutil.WriteFile(*evidence, append(b, '\n'), 0644); err != nil {
			fatal("%v", err)
		}
	}
	fmt.Printf("%s %s: %d executions, %d input cases, %d inputs, %d steps, %d distinct outcomes, exhausted within bounds: %v, %.1fs\n",
		p.ID, lvl, execs, cases, inputsN, steps, distinct, exhaustive, time.Since(start).Seconds())
	if os.Getenv("MC_VERBOSE") != "" {
		for _, name := range order {
			m := merged[name]
			fmt.Printf("  %-34s execs %8d cases %8d inputs %9d maxpts %5d outcomes %6d complete %v div %d flaky %d wall %.1f levels", name, m.Executions, m.Cases, m.Inputs, m.MaxPoints, len(outcomes[name]), m.Complete, m.Diverged, m.Flaky, m.Wall)
			for _, l := range m.Levels {
				fmt.Printf(" %d/%d:%d%s", l.Sched, l.Fault, l.Executions, map[bool]string{true: "", false: "!"}[l.Complete])
			}
			fmt.Println()
		}
	}
	return exit
}

func round1(f float64) float64 { return float64(int(f*10+0.5)) / 10 }

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writeReplay(id string, v *Viol) string {
	dir := *replays
	if dir == "" {
		dir = os.TempDir()
	}
	os.MkdirAll(dir, 0755)
	name := filepath.Join(dir, fmt.Sprintf("%s-%s.json", id, v.Scenario))
	b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "tier": *tier, "violation": v}, "", " ")
	ioutil.WriteFile(name, append(b, '\n'), 0644)
	return name
}

func replayMain() {
	b, err := ioutil.ReadFile(*replay)
	if err != nil {
		fatal("%v", err)
	}
	var r struct {
		Property  string `json:"property"`
		Tier      string `json:"tier"`
		Violation Viol   `json:"violation"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	if r.Tier != "" {
		*tier = r.Tier
	}
	p := properties[r.Property]
	if p == nil {
		fatal("unknown property")
	}
	for _, sc := range p.Scenarios {
		if sc.Name != r.Violation.Scenario {
			continue
		}
		e := &explorer{sc: sc, n: 1, res: &Result{}, outcomes: map[uint64]bool{}}
		var x *mcrt.Exec
		if sc.N != nil {
			x = e.runCases(r.Violation.Case, r.Violation.Case+1, true)
		} else {
			x = e.run(r.Violation.Choices, true)
		}
		for _, l := range x.Log {
			fmt.Println(l)
		}
		if v := e.verdict(x); v != "" {
			fmt.Printf("%s: %s\n%s\n", x.Kind, v, x.Stack)
			os.Exit(1)
		}
		fmt.Println("no violation")
		return
	}
	fatal("unknown scenario %q", r.Violation.Scenario)
}

// ---------------------------------------------------------------------
// known findings

type knownEntry struct{ prop, scenario, message, what string }
type knownSet []knownEntry

func (k knownSet) match(prop, scenario, msg string) *knownEntry {
	for i := range k {
		if k[i].prop == prop && k[i].scenario == scenario && k[i].message == msg {
			return &k[i]
		}
	}
	return nil
}

// loadKnown reads lines of the form
//
//	known: property=ID scenario=NAME message="..." -- description
func loadKnown(file string) knownSet {
	if file == "" {
		return nil
	}
	b, err := ioutil.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var out knownSet
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		i := strings.Index(l, " message=")
		if i < 0 {
			fatal("bad known finding: %s", l)
		}
		var e knownEntry
		for _, w := range strings.Fields(l[:i]) {
			if strings.HasPrefix(w, "property=") {
				e.prop = w[9:]
			}
			if strings.HasPrefix(w, "scenario=") {
				e.scenario = w[9:]
			}
		}
		rest := l[i+9:]
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			fatal("bad known finding: %s", l)
		}
		e.message, _ = strconv.Unquote(q)
		e.what = strings.TrimPrefix(strings.TrimSpace(rest[len(q):]), "-- ")
		out = append(out, e)
	}
	return out
}
