//go:build go1.21 && race

package mcrt

import (
	"io/ioutil"
	"os"
	"runtime"
	"strconv"
	"strings"
	"unsafe"
)

const RaceBuild = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

// raceUndo balances raceDisable before a Goexit out of a runtime function.
func raceUndo() { runtime.RaceEnable() }

func raceAcquire(p *byte)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func raceRelease(p *byte)      { runtime.RaceRelease(unsafe.Pointer(p)) }
func raceReleaseMerge(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

// RaceRead tells the detector that the current thread reads b.
func RaceRead(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}

// RaceWrite tells the detector that the current thread writes b.
func RaceWrite(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}

// RaceAcquire and RaceReleaseMerge are happens-before edges of fakes.
func RaceAcquire(p *byte)      { raceAcquire(p) }
func RaceReleaseMerge(p *byte) { raceReleaseMerge(p) }

const repoPath = "github.com/jumptrading/influx-spout/v2/"

var logPos int

// raceReports reads the detector's reports written since the count was
// from and describes those between two accesses by code of the repository
// (or by libraries it called), as opposed to accesses of the machinery.
func raceReports(from int) []string {
	if runtime.RaceErrors() == from {
		return nil
	}
	path := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			path = f[9:] + "." + strconv.Itoa(os.Getpid())
		}
	}
	if path == "" {
		return nil
	}
	b, err := ioutil.ReadFile(path)
	if err != nil || len(b) <= logPos {
		return nil
	}
	text := string(b[logPos:])
	logPos = len(b)
	var out []string
	for _, rep := range strings.Split(text, "WARNING: DATA RACE")[1:] {
		if d := raceDescribe(rep); d != "" {
			out = append(out, d)
		}
	}
	return out
}

func raceDescribe(rep string) string {
	var acc []string
	for _, para := range strings.Split(rep, "\n\n") {
		ls := strings.Split(strings.TrimSpace(para), "\n")
		head := strings.ToLower(ls[0])
		if !strings.Contains(head, " at 0x") || !strings.Contains(head, " by ") {
			continue
		}
		kind := strings.TrimPrefix(head[:strings.Index(head, " at 0x")], "previous ")
		who := ""
		for _, l := range ls[1:] {
			if !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "    ") {
				continue
			}
			l = strings.TrimSpace(l)
			if strings.Contains(l, "failed to restore") {
				who = "unknown"
			}
			if !strings.Contains(l, repoPath) {
				continue
			}
			if strings.Contains(l, repoPath+"verifmc/") && !strings.Contains(l, repoPath+"verifmc/gen/") {
				return ""
			}
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			who = strings.Replace(l, repoPath, "", 1)
			break
		}
		if who == "" {
			return ""
		}
		acc = append(acc, kind+" in "+who)
	}
	if len(acc) != 2 {
		return ""
	}
	if acc[0] > acc[1] {
		acc[0], acc[1] = acc[1], acc[0]
	}
	return acc[0] + " and " + acc[1]
}
