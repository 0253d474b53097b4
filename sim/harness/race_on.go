//go:build go1.21 && race

package harness

import (
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"unsafe"
)

// C17 runs in a build with the race detector. The simulator hands the one thread of
// execution from task to task; that must not count as synchronisation between
// them, so it is hidden from the detector, which then sees two accesses of
// different tasks as ordered only if the program itself orders them. Data races are
// thus found in whatever order the schedule happens to run the two.

const raceMode = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

var raceEnd int

func raceLeave() { runtime.RaceReleaseMerge(unsafe.Pointer(&raceEnd)) }
func raceJoin()  { runtime.RaceAcquire(unsafe.Pointer(&raceEnd)) }

var raceSeen, raceRead int

// raceReport returns the first data race within the repository's code since the
// last call.
func raceReport() string {
	n := runtime.RaceErrors()
	if n == raceSeen {
		return ""
	}
	raceSeen = n
	ms, _ := filepath.Glob(raceLog + ".*")
	if len(ms) == 0 {
		return ""
	}
	b, _ := os.ReadFile(ms[0])
	text := string(b[raceRead:])
	raceRead = len(b)
	for _, rep := range strings.Split(text, "WARNING: DATA RACE")[1:] {
		var where []string
		for _, part := range strings.Split(rep, "\n\n") {
			head := strings.TrimSpace(strings.SplitN(strings.TrimLeft(part, "\n"), "\n", 2)[0])
			if !strings.Contains(head, " by ") || !strings.Contains(head, " at 0x") {
				continue
			}
			kind := strings.ToLower(head[:strings.Index(head, " at 0x")])
			for _, l := range strings.Split(part, "\n")[1:] {
				if l = strings.TrimSpace(l); strings.HasPrefix(l, "github.com/zellyn/diskii/") && strings.Contains(l, "(") {
					if !strings.Contains(l, "/zverif/") {
						where = append(where, kind+" in "+strings.TrimPrefix(l, "github.com/zellyn/diskii/"))
					}
					break
				}
			}
		}
		if len(where) == 2 {
			return where[1] + " and " + where[0]
		}
	}
	return ""
}
