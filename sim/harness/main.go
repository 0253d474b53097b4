//go:build go1.21

package harness

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Prop is one checked property.
type Prop struct {
	ID    string
	Gen   func(r *rng) *Plan
	Exec  func(w *World) *Violation
	Quick int // simulated runs in the quick tier
	Deep  int // simulated runs in the thorough tier
	Stub  string
	// Rare lists situations the generators must reach (probe names).
	Must []string
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if props[p.ID] != nil {
		panic("duplicate " + p.ID)
	}
	props[p.ID] = p
}

func unsafePtr(p *proc) unsafe.Pointer { return unsafe.Pointer(p) }

func seedFor(base uint64, prop string, i int) uint64 {
	r := newRng(base ^ hash([]byte(prop)) ^ uint64(i)*0xD1B54A32D192ED03)
	return r.next()
}

// gen makes the plan of a seed.
func gen(pr *Prop, seed uint64) *Plan {
	r := newRng(seed)
	p := pr.Gen(r)
	p.Prop = pr.ID
	p.Seed = seed
	if p.Rand == 0 {
		p.Rand = r.next()
	}
	// Verbosity changes nothing but standard error.
	if pr.ID != "C12" && r.chance(1, 5) {
		for i := range p.Steps {
			for j := range p.Steps[i].Procs {
				if r.chance(1, 2) {
					p.Steps[i].Procs[j].Verbose = r.rang(1, 4)
				}
			}
		}
	}
	return p
}

// execute runs a plan and reports the violation, if any, and the event log.
func execute(pr *Prop, p *Plan, st *Stats, trace bool) (*Violation, []string) {
	calmHeap()
	w := newWorld(p, st)
	w.k.tracing = trace
	v := pr.Exec(w)
	w.finish()
	if v != nil {
		v.Step = w.step
	}
	log := w.log
	if trace {
		log = append(append([]string(nil), w.k.trace...), log...)
	}
	return v, log
}

// calmHeap keeps the garbage collector out of the runs (what a sync.Pool holds
// would depend on it; the program's own pools start empty in every process, like
// its other variables) and gets the standard library's lazy initialisation over.
func calmHeap() {
	if !warm {
		warm = true
		debug.SetGCPercent(-1)
		p := &Plan{Files: []FileSpec{{Path: "/work/a.dsk", Image: &Image{Kind: "rand"}}}}
		for i := 0; i < 2; i++ {
			w := newWorld(p, newStats())
			w.one("reorder", "a.dsk", "b.po", "-f")
			w.one("reorder", "a.dsk", "nodir/b.po", "-f")
			w.one("ls", "a.dsk")
			w.one("nonsense")
		}
	}
	if sinceGC++; sinceGC >= 8 {
		sinceGC = 0
		runtime.GC()
	}
}

var (
	warm    bool
	sinceGC int
)

// Main is called instead of the program's main.
func Main(m func()) {
	mainFunc = m
	if os.Getenv("VERIF_PLAIN") != "" { // the untouched program
		return
	}
	debug.SetMaxStack(1 << 30)
	// Nothing of the host's environment reaches the simulation.
	hostEnv = os.Environ()
	assetDir = os.Getenv("VERIF_ASSETS")
	raceLog = os.Getenv("VERIF_RACELOG")
	os.Clearenv()
	fs := flag.NewFlagSet("sim", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "base seed")
	runs := fs.Int("runs", 0, "override the number of runs")
	wall := fs.Int("wall", 0, "wall clock cap, seconds")
	worker := fs.String("worker", "", "I/N: internal")
	single := fs.Uint64("single", 0, "run one seed")
	singleSet := false
	outp := fs.String("out", "", "worker result / evidence file")
	replay := fs.String("replay", "", "replay file")
	replayDir := fs.String("replays", "replays", "where to write replay files")
	known := fs.String("known", "", "known findings")
	points := fs.String("points", "", "points.json")
	list := fs.Bool("list", false, "list properties")
	trace := fs.Bool("trace", false, "print the trace of a single run")
	nwork := fs.Int("workers", 8, "worker processes")
	prof := fs.String("prof", "", "CPU profile (worker)")
	buildNote := fs.String("note", "", "note for the evidence file")
	raceBin := fs.String("racebin", "", "the same simulator built with the race detector")
	fs.Parse(os.Args[1:])
	fs.Visit(func(f *flag.Flag) {
		if f.Name == "single" {
			singleSet = true
		}
	})
	defer func() {
		if e := recover(); e != nil {
			hostErr("panic in the simulator: %v\n%s", e, debug.Stack())
		}
	}()
	if raceMode && raceLog == "" && (*replay != "" || singleSet) {
		again() // the race detector takes its options from the environment
	}
	initGlobals()
	installHooks()
	if *list {
		for _, k := range sortedKeys(props) {
			fmt.Println(k, props[k].Quick, props[k].Deep)
		}
		realExit(0)
	}
	if *replay != "" {
		doReplay(*replay, *trace)
	}
	pr := props[*prop]
	if pr == nil {
		hostErr("unknown property %q", *prop)
	}
	if singleSet {
		st := newStats()
		p := gen(pr, *single)
		v, log := execute(pr, p, st, *trace)
		if *trace {
			j, _ := json.MarshalIndent(p, "", " ")
			fmt.Println(string(j))
			for _, l := range log {
				fmt.Println(l)
			}
		}
		fmt.Printf("seed %d loghash %x violation %+v\n", *single, hash([]byte(strings.Join(log, "\n"))), v)
		if v != nil {
			realExit(1)
		}
		realExit(0)
	}
	if *worker != "" {
		if *prof != "" {
			f, _ := os.Create(*prof)
			pprof.StartCPUProfile(f)
		}
		runWorker(pr, *worker, *seed, *runs, *wall, *outp, *tier)
	}
	n := pr.Quick
	if *tier == "thorough" {
		n = pr.Deep
	}
	if *runs > 0 {
		n = *runs
	}
	if *wall == 0 {
		*wall = 300
		if *tier == "thorough" {
			*wall = 800
		}
	}
	parent(pr, *tier, *seed, n, *wall, *nwork, *outp, *replayDir, *known, *points, *buildNote, *raceBin)
}

// found is a violating plan a worker reports.
type found struct {
	Plan  *Plan      `json:"plan"`
	V     *Violation `json:"violation"`
	Log   uint64     `json:"log"`
	Orig  int        `json:"orig_size"`
	Min   int        `json:"min_size"`
	Tries int        `json:"tries"`
}

type workerOut struct {
	Stats    *Stats            `json:"stats"`
	Sigs     []uint64          `json:"sigs"`
	Inter    []uint64          `json:"inter"`
	Hits     map[int]uint32    `json:"hits"`
	Found    []found           `json:"found"`
	Det      int               `json:"det"`
	NonDet   string            `json:"nondet"`
	Mismatch int               `json:"mismatch"`
	Samples  []json.RawMessage `json:"samples"`
	Planned  int               `json:"planned"`
	Elapsed  float64           `json:"elapsed"`
}

func runWorker(pr *Prop, spec string, base uint64, runs, wall int, out, tier string) {
	var me, n int
	fmt.Sscanf(spec, "%d/%d", &me, &n)
	t0 := time.Now()
	st := newStats()
	wo := &workerOut{Stats: st, Hits: map[int]uint32{}}
	classes := map[string]bool{}
	cur := out + ".cur"
	for i := me; i < runs; i += n {
		if time.Since(t0) > time.Duration(wall)*time.Second {
			break
		}
		seed := seedFor(base, pr.ID, i)
		os.WriteFile(cur, []byte(fmt.Sprintf("%d %d", i, seed)), 0o644)
		p := gen(pr, seed)
		v, log := execute(pr, p, st, false)
		h := hash([]byte(strings.Join(log, "\n")))
		// Every sixteenth run is executed twice, to show that a seed is one execution.
		if (i/n)%16 == 0 || v != nil {
			scratch := newStats()
			v2, log2 := execute(pr, gen(pr, seed), scratch, false)
			wo.Det++
			if hash([]byte(strings.Join(log2, "\n"))) != h || (v == nil) != (v2 == nil) {
				// Something the simulator does not control. A violation counts only
				// if it comes back.
				wo.Mismatch++
				wo.NonDet = fmt.Sprintf("seed %d: two executions differ\n%s", seed, firstDiff(log, log2))
				for again := 0; v != nil && v2 == nil && again < 3; again++ {
					v2, _ = execute(pr, gen(pr, seed), scratch, false)
				}
				if v2 == nil {
					v = nil
				}
			}
		}
		if v == nil {
			if len(wo.Samples) < 1 && i >= 3*n {
				j, _ := json.Marshal(sampleOf(p, log))
				wo.Samples = append(wo.Samples, j)
			}
			continue
		}
		if classes[v.Class+"|"+v.Key] {
			continue
		}
		classes[v.Class+"|"+v.Key] = true
		f := minimise(pr, p, v)
		wo.Found = append(wo.Found, f)
		if len(wo.Found) >= 3 {
			break
		}
	}
	for s := range st.Sigs {
		wo.Sigs = append(wo.Sigs, s)
	}
	for s := range st.Inter {
		wo.Inter = append(wo.Inter, s)
	}
	for i, x := range st.Hits {
		if x > 0 {
			wo.Hits[i] = x
		}
	}
	pprof.StopCPUProfile()
	wo.Elapsed = time.Since(t0).Seconds()
	j, err := json.Marshal(wo)
	if err != nil {
		hostErr("marshal: %v", err)
	}
	if err := os.WriteFile(out, j, 0o644); err != nil {
		hostErr("%v", err)
	}
	realExit(0)
}

var (
	hostEnv  []string
	assetDir string
	raceLog  string // where the race detector writes
)

func childEnv(withRace bool, race string) []string {
	limit := "2500MiB"
	if withRace {
		limit = "350MiB" // its shadow memory is several times that
	}
	env := append(append([]string(nil), hostEnv...), "GOMAXPROCS=1", "GOGC=off", "GOMEMLIMIT="+limit)
	if withRace && race != "" {
		env = append(env, "VERIF_RACELOG="+race, "GORACE=log_path="+race+" exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=4 atexit_sleep_ms=0")
	}
	return env
}

// again runs this command in a child with the race detector's log in a file.
func again() {
	dir, err := os.MkdirTemp("/tmp", "verif-race-")
	if err != nil {
		hostErr("%v", err)
	}
	self, _ := os.Executable()
	c := exec.Command(self, os.Args[1:]...)
	c.Env = childEnv(true, filepath.Join(dir, "r"))
	c.Stdout, c.Stderr = os.Stdout, os.Stderr
	err = c.Run()
	os.RemoveAll(dir)
	if err != nil && c.ProcessState == nil {
		hostErr("%v", err)
	}
	realExit(c.ProcessState.ExitCode())
}

func firstDiff(a, b []string) string {
	for i := range a {
		if i >= len(b) {
			return "extra: " + a[i]
		}
		if a[i] != b[i] {
			return "1: " + a[i] + "\n2: " + b[i]
		}
	}
	if len(b) > len(a) {
		return "extra: " + b[len(a)]
	}
	return "(logs equal)"
}

func sampleOf(p *Plan, log []string) map[string]interface{} {
	var cmds []string
	for i, s := range p.Steps {
		for _, ps := range s.Procs {
			c := fmt.Sprintf("%d: diskii %s", i, strings.Join(ps.Args, " "))
			for _, f := range ps.Faults {
				c += fmt.Sprintf(" [%s@%d]", f.Kind, f.At)
			}
			if len(c) > 160 {
				c = c[:160]
			}
			cmds = append(cmds, c)
		}
		if s.Op != "" {
			cmds = append(cmds, fmt.Sprintf("%d: op %s %s", i, s.Op, s.Str))
		}
		if len(cmds) > 8 {
			cmds = append(cmds, "...")
			break
		}
	}
	var evs []string
	for _, l := range log {
		if len(l) > 220 {
			l = l[:220] + "..."
		}
		evs = append(evs, l)
		if len(evs) > 6 {
			evs = append(evs, fmt.Sprintf("... %d more events", len(log)-7))
			break
		}
	}
	return map[string]interface{}{"seed": p.Seed, "plan": cmds, "history": evs}
}

func parent(pr *Prop, tier string, base uint64, runs, wall, nw int, evid, replayDir, known, pointsFile, note, raceBin string) {
	t0 := time.Now()
	dir, err := os.MkdirTemp("/tmp", "verif-"+pr.ID+"-")
	if err != nil {
		hostErr("%v", err)
	}
	quit := func(code int) {
		os.RemoveAll(dir)
		realExit(code)
	}
	self, _ := os.Executable()
	type wres struct {
		i    int
		err  error
		tail string
	}
	all8 := nw
	if raceBin != "" { // as many again look for data races
		all8 = 2 * nw
	}
	exe := func(i int) string {
		if i >= nw {
			return raceBin
		}
		return self
	}
	raceWorkers := 0
	ch := make(chan wres, all8)
	for i := 0; i < all8; i++ {
		go func(i int) {
			out := filepath.Join(dir, fmt.Sprintf("w%d", i))
			runs, base := runs, base
			if i >= nw {
				runs, base = runs/5, base^0x7ace
			}
			cmd := exec.Command(exe(i), "-prop", pr.ID, "-tier", tier, "-seed", fmt.Sprint(base), "-runs", fmt.Sprint(runs), "-wall", fmt.Sprint(wall), "-worker", fmt.Sprintf("%d/%d", i%nw, nw), "-out", out)
			cmd.Env = childEnv(i >= nw, out+".race")
			var eb bytes.Buffer
			cmd.Stderr = &eb
			cmd.Stdout = &eb
			if err := cmd.Start(); err != nil {
				ch <- wres{i, err, ""}
				return
			}
			// Watchdog: the step budget ends every simulated process; a
			// worker whose current run does not change for two minutes is stuck
			// in code that takes no steps.
			done := make(chan struct{})
			go func() {
				last, since := "", time.Now()
				for {
					select {
					case <-done:
						return
					case <-time.After(2 * time.Second):
					}
					b, _ := os.ReadFile(out + ".cur")
					if string(b) != last {
						last, since = string(b), time.Now()
					} else if time.Since(since) > 150*time.Second {
						cmd.Process.Kill()
						return
					}
				}
			}()
			err := cmd.Wait()
			close(done)
			t := eb.String()
			if len(t) > 6000 {
				t = t[:3000] + "\n...\n" + t[len(t)-3000:]
			}
			ch <- wres{i, err, t}
		}(i)
	}
	total := newStats()
	var all []found
	var samples []json.RawMessage
	hits := map[int]uint32{}
	det, mismatch := 0, 0
	trouble := ""
	for k := 0; k < all8; k++ {
		r := <-ch
		out := filepath.Join(dir, fmt.Sprintf("w%d", r.i))
		if r.err != nil {
			cur, _ := os.ReadFile(out + ".cur")
			var idx int
			var seed uint64
			if n, _ := fmt.Sscanf(string(cur), "%d %d", &idx, &seed); n == 2 && !strings.Contains(r.tail, "HARNESS ERROR") {
				// A fatal error of the runtime: is it the run itself?
				c := exec.Command(exe(r.i), "-prop", pr.ID, "-single", fmt.Sprint(seed))
				c.Env = childEnv(r.i >= nw, out+".race1")
				done := make(chan error, 1)
				var b bytes.Buffer
				c.Stdout, c.Stderr = &b, &b
				c.Start()
				go func() { done <- c.Wait() }()
				var e2 error
				hang := false
				select {
				case e2 = <-done:
				case <-time.After(170 * time.Second):
					c.Process.Kill()
					<-done
					hang = true
				}
				if hang || e2 != nil && c.ProcessState.ExitCode() != 1 && !strings.Contains(b.String(), "HARNESS ERROR") {
					what := "the simulated program ends in a fatal runtime error"
					if hang {
						what = "the simulated program runs on without taking any step"
					}
					s := b.String()
					if len(s) > 600 {
						s = s[:600]
					}
					all = append(all, found{Plan: &Plan{Prop: pr.ID, Seed: seed, Params: map[string]int{"generate": 1}}, V: viol("fatal", "%s: %s", what, s)})
					continue
				}
			}
			if r.i >= nw && !strings.Contains(r.tail, "HARNESS ERROR") {
				// The race detector does not work on every machine.
				fmt.Fprintf(os.Stderr, "WARNING: race worker %d: %v\n%s\n", r.i, r.err, r.tail)
				continue
			}
			trouble = fmt.Sprintf("worker %d: %v\n%s", r.i, r.err, r.tail)
			continue
		}
		b, err := os.ReadFile(out)
		if err != nil {
			trouble = err.Error()
			continue
		}
		var wo workerOut
		if err := json.Unmarshal(b, &wo); err != nil {
			trouble = err.Error()
			continue
		}
		if wo.NonDet != "" {
			fmt.Fprintf(os.Stderr, "WARNING: %s\n", wo.NonDet)
		}
		if r.i >= nw {
			raceWorkers++
		}
		mismatch += wo.Mismatch
		det += wo.Det
		merge(total, wo.Stats)
		for _, s := range wo.Sigs {
			total.Sigs[s] = true
		}
		for _, s := range wo.Inter {
			total.Inter[s] = true
		}
		for i, x := range wo.Hits {
			hits[i] += x
		}
		for _, f := range wo.Found {
			if r.i >= nw {
				if f.Plan.Params == nil {
					f.Plan.Params = map[string]int{}
				}
				f.Plan.Params["race"] = 1
			}
			all = append(all, f)
		}
		samples = append(samples, wo.Samples...)
	}
	elapsed := time.Since(t0).Seconds()
	kf := loadKnown(known, pr.ID)
	// One report per class, smallest first.
	sort.SliceStable(all, func(i, j int) bool {
		if all[i].V.Class != all[j].V.Class {
			return all[i].V.Class < all[j].V.Class
		}
		return all[i].Min < all[j].Min
	})
	code := 0
	seen := map[string]bool{}
	nviol := 0
	var knownHit []string
	for _, f := range all {
		key := f.V.Class + "|" + f.V.Key
		if seen[key] {
			continue
		}
		seen[key] = true
		if what, ok := kf[key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", pr.ID, what)
			knownHit = append(knownHit, what)
			continue
		}
		os.MkdirAll(replayDir, 0o755)
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%d.json", pr.ID, safeName(f.V.Class), f.Plan.Seed))
		j, _ := json.MarshalIndent(f, "", " ")
		if err := os.WriteFile(path, append(j, '\n'), 0o644); err != nil {
			hostErr("%v", err)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, path)
		fmt.Printf("  class %s, seed %d, step %d\n  %s\n", f.V.Class, f.Plan.Seed, f.V.Step, strings.ReplaceAll(f.V.Detail, "\n", "\n  "))
		code = 1
		nviol++
	}
	if trouble != "" && code == 0 {
		fmt.Fprintf(os.Stderr, "HARNESS ERROR: %s\n", trouble)
		quit(2)
	}
	if raceBin != "" {
		note = fmt.Sprintf("%d of %d workers of a build with the race detector reported", raceWorkers, nw)
	}
	var missing []string
	for _, m := range pr.Must {
		if total.Probes[m] == 0 {
			missing = append(missing, m)
		}
	}
	writeEvidence(pr, tier, base, runs, elapsed, total, hits, det, mismatch, samples, nviol, knownHit, missing, evid, pointsFile, note, nw)
	fmt.Printf("%s %s: %d runs, %d commands, %d system calls, %d faults, %d distinct behaviours, %d interleavings, %.1f s, violations %d\n", pr.ID, tier, total.Runs, total.Commands, total.Syscalls, sum(total.Faults), len(total.Sigs), len(total.Inter), elapsed, nviol)
	if len(missing) > 0 && code == 0 {
		fmt.Printf("note: situations not reached: %s\n", strings.Join(missing, ", "))
	}
	quit(code)
}

func sum(m map[string]int) int {
	n := 0
	for _, x := range m {
		n += x
	}
	return n
}

func safeName(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '-'
	}, s)
}

func merge(a, b *Stats) {
	a.Runs += b.Runs
	a.Commands += b.Commands
	a.Syscalls += b.Syscalls
	a.Switches += b.Switches
	a.Short += b.Short
	a.SimNanos += b.SimNanos
	a.Steps += b.Steps
	a.NonTrivial += b.NonTrivial
	if b.MaxSteps > a.MaxSteps {
		a.MaxSteps = b.MaxSteps
	}
	if b.MaxAlloc > a.MaxAlloc {
		a.MaxAlloc = b.MaxAlloc
	}
	if b.MaxDepth > a.MaxDepth {
		a.MaxDepth = b.MaxDepth
	}
	for k, v := range b.Faults {
		a.Faults[k] += v
	}
	for k, v := range b.Probes {
		a.Probes[k] += v
	}
}

// loadKnown reads lines "known: property=ID key=CLASS|KEY what...".
func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+id || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		out[f[2][4:]] = strings.Join(f[3:], " ")
	}
	return out
}

func doReplay(path string, trace bool) {
	b, err := os.ReadFile(path)
	if err != nil {
		hostErr("%v", err)
	}
	var f found
	if err := json.Unmarshal(b, &f); err != nil {
		hostErr("%v", err)
	}
	pr := props[f.Plan.Prop]
	if pr == nil {
		hostErr("unknown property %q", f.Plan.Prop)
	}
	if f.Plan.Params["generate"] == 1 && len(f.Plan.Steps) == 0 {
		// The run kills the simulator itself: run it in a child.
		self, _ := os.Executable()
		c := exec.Command(self, "-prop", pr.ID, "-single", fmt.Sprint(f.Plan.Seed))
		c.Env = childEnv(false, "")
		out, err := c.CombinedOutput()
		os.Stdout.Write(out)
		if err != nil {
			fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, path)
			realExit(1)
		}
		realExit(0)
	}
	v, log := execute(pr, f.Plan, newStats(), false)
	h := hash([]byte(strings.Join(log, "\n")))
	if trace {
		_, tl := execute(pr, f.Plan, newStats(), true)
		for _, l := range tl {
			fmt.Println(l)
		}
	}
	if v == nil {
		fmt.Printf("replay of %s: the property holds\n", path)
		realExit(0)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n  class %s, step %d\n  %s\n", pr.ID, path, v.Class, v.Step, v.Detail)
	if h == f.Log && v.Class == f.V.Class && v.Detail == f.V.Detail {
		fmt.Println("  (exactly the recorded execution)")
	} else {
		fmt.Println("  (differs from the recorded execution: the code has changed since)")
	}
	realExit(1)
}

var _ = runtime.GOOS
