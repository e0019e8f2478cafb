//go:build go1.21

package main

import (
	"fmt"
	"sync"
	"time"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mtime"
)

// nonblocking channel operations, sequentially
func chanModel(c int, seq []int) (obs []string) {
	if v := inModel(func() {
		ch := make(chan int, c)
		for i, op := range seq {
			func() {
				defer func() {
					if r := recover(); r != nil && !mcrt.Ending() {
						obs = append(obs, fmt.Sprint("panic ", r))
					}
				}()
				switch op {
				case 0:
					s := mcrt.S(ch).With(i)
					if mcrt.Select(true, s) == 0 {
						obs = append(obs, "sent")
					} else {
						obs = append(obs, "full")
					}
				case 1:
					r := mcrt.R(ch)
					if mcrt.Select(true, r) == 0 {
						obs = append(obs, fmt.Sprint("received ", r.V, " ", r.Ok))
					} else {
						obs = append(obs, "empty")
					}
				case 2:
					mcrt.Close(ch)
					obs = append(obs, "closed")
				case 3:
					obs = append(obs, fmt.Sprint("len ", mcrt.Len(ch), " cap ", cap(ch)))
				case 4: // a waiting receiver
					mcrt.Go(func() { v, ok := mcrt.Recv2(ch); obs = append(obs, fmt.Sprint("receiver ", v, " ", ok)) })
					mcrt.Quiesce()
				}
				mcrt.Quiesce()
			}()
		}
	}); v != nil {
		return v
	}
	return obs
}

func chanReal(c int, seq []int) (obs []string) {
	ch := make(chan int, c)
	var mu sync.Mutex
	add := func(s string) { mu.Lock(); obs = append(obs, s); mu.Unlock() }
	n := 0
	for i, op := range seq {
		func() {
			defer func() {
				if r := recover(); r != nil {
					add(fmt.Sprint("panic ", r))
				}
			}()
			switch op {
			case 0:
				select {
				case ch <- i:
					add("sent")
				default:
					add("full")
				}
			case 1:
				select {
				case v, ok := <-ch:
					add(fmt.Sprint("received ", v, " ", ok))
				default:
					add("empty")
				}
			case 2:
				close(ch)
				add("closed")
			case 3:
				add(fmt.Sprint("len ", len(ch), " cap ", cap(ch)))
			case 4:
				n++
				go func() { v, ok := <-ch; add(fmt.Sprint("receiver ", v, " ", ok)) }()
			}
			time.Sleep(time.Millisecond)
		}()
	}
	mu.Lock()
	defer mu.Unlock()
	return append([]string(nil), obs...)
}

const unit = 25 * time.Millisecond

func timerModel(ticker bool, seq []int) (obs []string) {
	if v := inModel(func() {
		var c <-chan time.Time
		var reset func(time.Duration) string
		var stop func() string
		t0 := mcrt.NowNanos()
		if ticker {
			t := mtime.NewTicker(33 * unit / 10)
			c = t.C
			reset = func(d time.Duration) string { t.Reset(d); return "" }
			stop = func() string { t.Stop(); return "" }
		} else {
			t := mtime.NewTimer(33 * unit / 10)
			c = t.C
			reset = func(d time.Duration) string { return fmt.Sprint(t.Reset(d)) }
			stop = func() string { return fmt.Sprint(t.Stop()) }
		}
		for _, op := range seq {
			switch op {
			case 0:
				obs = append(obs, "reset "+reset(14*unit/10))
			case 1:
				obs = append(obs, "reset3 "+reset(33*unit/10))
			case 2:
				obs = append(obs, "stop "+stop())
			case 3:
				mtime.Sleep(2 * unit)
			case 4:
				r := mcrt.R(c)
				if mcrt.Select(true, r) == 0 {
					obs = append(obs, fmt.Sprint("fired ", time.Duration(r.V.UnixNano()-t0).Round(unit)/unit))
				} else {
					obs = append(obs, "not yet")
				}
			}
		}
	}); v != nil {
		return v
	}
	return obs
}

func timerReal(ticker bool, seq []int, patience int) (obs []string) {
	unit := unit * time.Duration(patience)
	t0 := time.Now()
	var c <-chan time.Time
	var reset func(time.Duration) string
	var stop func() string
	if ticker {
		t := time.NewTicker(33 * unit / 10)
		c = t.C
		reset = func(d time.Duration) string { t.Reset(d); return "" }
		stop = func() string { t.Stop(); return "" }
	} else {
		t := time.NewTimer(33 * unit / 10)
		c = t.C
		reset = func(d time.Duration) string { return fmt.Sprint(t.Reset(d)) }
		stop = func() string { return fmt.Sprint(t.Stop()) }
	}
	at := t0
	for _, op := range seq {
		switch op {
		case 0:
			obs = append(obs, "reset "+reset(14*unit/10))
		case 1:
			obs = append(obs, "reset3 "+reset(33*unit/10))
		case 2:
			obs = append(obs, "stop "+stop())
		case 3:
			at = at.Add(2 * unit)
			time.Sleep(time.Until(at))
		case 4:
			select {
			case v := <-c:
				obs = append(obs, fmt.Sprint("fired ", v.Sub(t0).Round(unit)/unit))
			default:
				obs = append(obs, "not yet")
			}
		}
	}
	return obs
}

func init() {
	addPart("channels", "channel operations in sequence, with receivers waiting", func(p *part) {
		var cases [][]int
		for c := 0; c <= 2; c++ {
			for d := 1; d <= 5; d++ {
				sequences(5, d, func(s []int) { cases = append(cases, append([]int{c}, s...)) })
			}
		}
		parallel(64, cases, func(_ int, s []int) {
			p.compare(fmt.Sprint(s),
				func(int) []string { modelMu.Lock(); defer modelMu.Unlock(); return chanModel(s[0], s[1:]) },
				func(int) []string { return chanReal(s[0], s[1:]) })
		})
	})
	addPart("timers", "timers and tickers: reset, stop, waiting and polling in sequence", func(p *part) {
		var cases [][]int
		for k := 0; k < 2; k++ {
			for d := 1; d <= 5; d++ {
				sequences(5, d, func(s []int) {
					// no expiry coincides with the end of a wait
					cases = append(cases, append([]int{k}, s...))
				})
			}
		}
		parallel(128, cases, func(_ int, s []int) {
			p.compare(fmt.Sprint(s),
				func(int) []string { modelMu.Lock(); defer modelMu.Unlock(); return timerModel(s[0] == 1, s[1:]) },
				func(patience int) []string { return timerReal(s[0] == 1, s[1:], patience) })
		})
	})
}
