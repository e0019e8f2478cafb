//go:build go1.21

// Command conform binds the environment models of the model checker to the
// real thing: it enumerates all operation sequences up to a bound and
// performs each of them twice, with the models (fnats, mhttp, mnet) under
// the controlled scheduler and with the real nats.go client and NATS server,
// net/http and UDP sockets on the loopback interface, and compares what the
// caller can observe.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
)

type diff struct{ part, what string }

type part struct {
	Name  string `json:"name"`
	Doc   string `json:"doc"`
	Cases int    `json:"cases"`
	Steps int    `json:"observations_compared"`
	Diffs int    `json:"differences"`
	Secs  string `json:"seconds"`
	run   func(p *part)
	mu    sync.Mutex
}

var verbose = flag.Bool("v", false, "print every difference")

// compare reports a difference between the two observations of a case; it
// is retried with more patience first, as the real side uses real time.
func (p *part) compare(name string, model, real func(patience int) []string) {
	var m, r []string
	ok := false
	for patience := 1; patience <= 16 && !ok; patience *= 4 {
		m, r = model(patience), real(patience)
		ok = strings.Join(m, "\n") == strings.Join(r, "\n")
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.Cases++
	p.Steps += len(m)
	if ok {
		return
	}
	p.Diffs++
	if p.Diffs <= 10 || *verbose {
		fmt.Printf("DIFFERENCE %s case %s\n", p.Name, name)
		for i := 0; i < len(m) || i < len(r); i++ {
			a, b := "-", "-"
			if i < len(m) {
				a = m[i]
			}
			if i < len(r) {
				b = r[i]
			}
			mark := " "
			if a != b {
				mark = "*"
			}
			fmt.Printf("  %s model %-60q real %q\n", mark, a, b)
		}
	}
}

var parts []*part

func addPart(name, doc string, run func(p *part)) {
	parts = append(parts, &part{Name: name, Doc: doc, run: run})
}

func main() {
	only := flag.String("only", "", "run one part")
	out := flag.String("out", "", "write the results here")
	flag.IntVar(&depth, "depth", 3, "operations per NATS sequence")
	flag.IntVar(&outageDepth, "outages", 2, "operations per NATS outage")
	flag.Parse()
	bad := 0
	sort.Slice(parts, func(i, j int) bool { return parts[i].Name < parts[j].Name })
	var ran []*part
	for _, p := range parts {
		if *only != "" && *only != p.Name {
			continue
		}
		t := time.Now()
		p.run(p)
		p.Secs = fmt.Sprintf("%.1f", time.Since(t).Seconds())
		fmt.Printf("conform %-14s %6d cases %7d observations %d differences %s s: %s\n", p.Name, p.Cases, p.Steps, p.Diffs, p.Secs, p.Doc)
		bad += p.Diffs
		ran = append(ran, p)
	}
	if *out != "" {
		b, _ := json.MarshalIndent(map[string]interface{}{"conformance": ran}, "", "  ")
		if err := os.WriteFile(*out, b, 0644); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}

var depth, outageDepth int

// inModel runs body in one modelled execution.
func inModel(body func()) []string {
	x := mcrt.Run(mcrt.Opts{}, nil, func() {
		body()
	})
	if x.Violation != "" {
		return []string{"model failed: " + x.Kind + " " + x.Violation}
	}
	return nil
}

// settleModel lets the model come to rest.
func settleModel() {
	mcrt.Quiesce()
	mcrt.SleepNanos(20e6)
	mcrt.Quiesce()
}

// sequences calls f with all sequences over n symbols of the given length.
func sequences(n, depth int, f func([]int)) {
	seq := make([]int, depth)
	for {
		f(append([]int(nil), seq...))
		i := depth - 1
		for i >= 0 {
			seq[i]++
			if seq[i] < n {
				break
			}
			seq[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

// parallel runs f for all cases on several goroutines.
func parallel(workers int, cases [][]int, f func(worker int, c []int)) {
	var wg sync.WaitGroup
	ch := make(chan []int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for c := range ch {
				f(w, c)
			}
		}(w)
	}
	for _, c := range cases {
		ch <- c
	}
	close(ch)
	wg.Wait()
}

// modelMu: one modelled execution at a time.
var modelMu sync.Mutex

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return err.Error()
}
