// mkoverlay prepares the simulated build of diskii.
//
//	mkoverlay -repo /repo -sim /verif/sim -out DIR
//
// It writes, under DIR, (1) patched copies of a handful of Go standard library
// files that put every operating-system effect behind a hook owned by the
// simulator, (2) instrumented copies of every non-test Go file of the
// repository (step counting at each function, loop and branch: no behaviour is
// changed), (3) one generated file per package that registers its package-level
// variables, so that every simulated process gets its own copy, and (4)
// overlay.json, which makes `go build -overlay` see all of that plus the
// harness sources as if they lay in the repository. The repository itself is
// never written to.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

const module = "github.com/zellyn/diskii"

var (
	repo = flag.String("repo", "/repo", "repository")
	sim  = flag.String("sim", "/verif/sim", "simulator sources")
	out  = flag.String("out", "", "output directory")
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "mkoverlay: "+f+"\n", a...)
	os.Exit(2)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

var replace = map[string]string{}

func emit(orig string, content []byte) {
	h := strings.ReplaceAll(strings.TrimPrefix(orig, "/"), "/", "__")
	p := filepath.Join(*out, "src", h)
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	must(os.WriteFile(p, content, 0o644))
	replace[orig] = p
}

// patch replaces each anchor exactly once; a missing anchor is an error.
func patch(file string, pairs ...string) {
	b, err := os.ReadFile(file)
	must(err)
	s := string(b)
	for i := 0; i < len(pairs); i += 2 {
		if n := strings.Count(s, pairs[i]); n != 1 {
			die("%s: anchor found %d times, want 1:\n%s", file, n, pairs[i])
		}
		s = strings.Replace(s, pairs[i], pairs[i+1], 1)
	}
	emit(file, []byte(s))
}

func patchStd(goroot string) {
	src := filepath.Join(goroot, "src")
	patch(filepath.Join(src, "syscall/syscall_linux.go"),
		`//go:uintptrkeepalive
//go:nosplit
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	runtime_entersyscall()`, `// SimHook, when set, sees every system call first.
var SimHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1 uintptr, err Errno, handled bool)

// SimGetpid, when set, answers Getpid (ok=false: ask the real kernel).
var SimGetpid func() (pid int, ok bool)

//go:uintptrescapes
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	if h := SimHook; h != nil {
		if r, e, ok := h(trap, a1, a2, a3, 0, 0, 0); ok {
			if e != 0 {
				return ^uintptr(0), 0, e
			}
			return r, 0, 0
		}
	}
	return realSyscall(trap, a1, a2, a3)
}

//go:uintptrkeepalive
//go:nosplit
func realSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	runtime_entersyscall()`,
		`//go:uintptrkeepalive
//go:nosplit
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	runtime_entersyscall()`, `//go:uintptrescapes
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if h := SimHook; h != nil {
		if r, e, ok := h(trap, a1, a2, a3, a4, a5, a6); ok {
			if e != 0 {
				return ^uintptr(0), 0, e
			}
			return r, 0, 0
		}
	}
	return realSyscall6(trap, a1, a2, a3, a4, a5, a6)
}

//go:uintptrkeepalive
//go:nosplit
func realSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	runtime_entersyscall()`)
	patch(filepath.Join(src, "internal/syscall/unix/getrandom.go"),
		`	ret, supported := vgetrandom(p, uint32(flags))
`, `	if h := syscall.SimHook; h != nil {
		if r, e, ok := h(getrandomTrap, uintptr(unsafe.Pointer(unsafe.SliceData(p))), uintptr(len(p)), uintptr(flags), 0, 0, 0); ok {
			if e != 0 {
				return 0, e
			}
			return int(r), nil
		}
	}
	ret, supported := vgetrandom(p, uint32(flags))
`)
	patch(filepath.Join(src, "syscall/zsyscall_linux_amd64.go"),
		`	r0, _ := rawSyscallNoError(SYS_GETPID, 0, 0, 0)
`, `	if h := SimGetpid; h != nil {
		if p, ok := h(); ok {
			return p
		}
	}
	r0, _ := rawSyscallNoError(SYS_GETPID, 0, 0, 0)
`)
	patch(filepath.Join(src, "internal/syscall/unix/fcntl_unix.go"),
		`	val, errno := fcntl(int32(fd), int32(cmd), int32(arg))
`, `	if h := syscall.SimHook; h != nil {
		if r, e, ok := h(syscall.SYS_FCNTL, uintptr(fd), uintptr(cmd), uintptr(arg), 0, 0, 0); ok {
			if e != 0 {
				return -1, e
			}
			return int(r), nil
		}
	}
	val, errno := fcntl(int32(fd), int32(cmd), int32(arg))
`)
	patch(filepath.Join(src, "os/proc.go"),
		`func Exit(code int) {
`, `func Exit(code int) {
	if h := SimExit; h != nil {
		h(code)
	}
`,
		`func runtime_beforeExit(exitCode int) // implemented in runtime
`, `func runtime_beforeExit(exitCode int) // implemented in runtime

// SimExit, when set, may end the calling goroutine instead of the process.
var SimExit func(code int)
`)
	patch(filepath.Join(src, "time/time.go"),
		`func Now() Time {
`, `func Now() Time {
	if h := SimNow; h != nil {
		if ns, ok := h(); ok {
			return Unix(ns/1e9, ns%1e9)
		}
	}
`,
		`func unixTime(sec int64, nsec int32) Time {
`, `// SimNow, when set, is the clock (ok=false: read the real one).
var SimNow func() (ns int64, ok bool)

func unixTime(sec int64, nsec int32) Time {
`)
	patch(filepath.Join(src, "runtime/rand.go"),
		`	seed := &globalRand.seed
`, `	seed := &globalRand.seed
	startupRand = nil
	for i := range seed {
		seed[i] = byte(i*7 + 1)
	}
	globalRand.state.Init(*seed)
	clear(seed[:])
	globalRand.init = true
	unlock(&globalRand.lock)
	return
}

func simUnusedRandinit() {
	seed := &globalRand.seed
`,
		`	mp := getg().m
	c := &mp.chacha8
`, `	if simRandOn && getg().simTask != nil {
		simRandState += 0x9E3779B97F4A7C15
		z := simRandState
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
		z = (z ^ (z >> 27)) * 0x94D049BB133111EB
		return z ^ (z >> 31)
	}
	mp := getg().m
	c := &mp.chacha8
`,
		`func cheaprand() uint32 {
	mp := getg().m
`, `func cheaprand() uint32 {
	if simRandOn && getg().simTask != nil {
		simCheap += 0x53c5ca59
		hi, lo := bits.Mul32(simCheap, simCheap^0x74743c1b)
		return hi ^ lo
	}
	mp := getg().m
`,
		`// mrandinit initializes the random state of an m.
`, `var simRandOn bool
var simRandState uint64

// simCheap feeds select, in a simulated task.
var simCheap uint32

// SimSeedRand makes every random number drawn by a simulated task's goroutine (map
// seeds, map iteration order, temporary names, math/rand) a function of s.
func SimSeedRand(s uint64) { simRandState = s; simCheap = uint32(s >> 17); simRandOn = true }

// SimSpawned, when set, is called after a simulated task has started a goroutine.
var SimSpawned func()

// SimPanicked, when set, gets the panics nobody recovered in a simulated task.
var SimPanicked func(v any)

// SimSleep, when set, is what a simulated task does instead of sleeping.
var SimSleep func(ns int64)

// SimRandState returns the current state, for saving at a context switch.
func SimRandState() uint64 { return simRandState }

// SimTask returns the simulated task of the calling goroutine; goroutines it
// starts inherit it.
func SimTask() unsafe.Pointer { return getg().simTask }

// SimG identifies the calling goroutine.
func SimG() uintptr { return uintptr(unsafe.Pointer(getg())) }

// SimSetTask sets the simulated task of the calling goroutine.
func SimSetTask(p unsafe.Pointer) { getg().simTask = p }

// mrandinit initializes the random state of an m.
`)
	patch(filepath.Join(src, "sync/mutex.go"),
		`func (m *Mutex) Lock() {
`, `func (m *Mutex) Lock() {
	if SimBlock != nil {
		for n := 0; ; n++ {
			if m.mu.TryLock() {
				return
			}
			if !SimBlock(n) {
				break
			}
		}
	}
`,
		`// Lock locks m.
// If the lock`, `// SimBlock, when set, lets other simulated tasks run while the caller waits for
// a lock (false: the caller is not a simulated task, wait for real).
var SimBlock func(tries int) bool

// Lock locks m.
// If the lock`)
	patch(filepath.Join(src, "sync/rwmutex.go"),
		`func (rw *RWMutex) RLock() {
`, `func (rw *RWMutex) RLock() {
	if SimBlock != nil {
		for n := 0; ; n++ {
			if rw.TryRLock() {
				return
			}
			if !SimBlock(n) {
				break
			}
		}
	}
`,
		`func (rw *RWMutex) Lock() {
`, `func (rw *RWMutex) Lock() {
	if SimBlock != nil {
		for n := 0; ; n++ {
			if rw.TryLock() {
				return
			}
			if !SimBlock(n) {
				break
			}
		}
	}
`)
	patch(filepath.Join(src, "runtime/runtime2.go"),
		`	labels          unsafe.Pointer // profiler labels
`, `	labels          unsafe.Pointer // profiler labels
	simTask         unsafe.Pointer // simulated task
`)
	patch(filepath.Join(src, "runtime/proc.go"),
		`	gp.labels = nil
`, `	gp.labels = nil
	gp.simTask = nil
`,
		`			newg.labels = mp.curg.labels
`, `			newg.labels = mp.curg.labels
			if callergp != nil && !isSystemGoroutine(newg, false) {
				newg.simTask = mp.curg.simTask
			}
`,
		`		if mainStarted {
			wakep()
		}
	})
}

// Create a new g`, `		if mainStarted {
			wakep()
		}
	})
	if h := SimSpawned; h != nil && gp.simTask != nil && !simSystemFn(fn) {
		h()
	}
}

func simSystemFn(fn *funcval) bool {
	f := findfunc(fn.fn)
	return !f.valid() || stringslite.HasPrefix(funcname(f), "runtime.")
}

// Create a new g`,
		`	if pp.schedtick%61 == 0 && !sched.runq.empty() {
`, `	if !simRandOn && pp.schedtick%61 == 0 && !sched.runq.empty() {
`,
		`		} else if pd.schedwhen+forcePreemptNS <= now {
			preemptone(pp)
`, `		} else if pd.schedwhen+forcePreemptNS <= now {
			if !simRandOn {
				preemptone(pp)
			}
`)
	patch(filepath.Join(src, "runtime/panic.go"),
		`	preprintpanics(&p)

	fatalpanic(&p)   // should not return
`, `	preprintpanics(&p)

	if h := SimPanicked; h != nil && gp.simTask != nil {
		h(p.arg)
	}
	fatalpanic(&p)   // should not return
`)
	patch(filepath.Join(src, "runtime/time.go"),
		`func timeSleep(ns int64) {
	if ns <= 0 {
		return
	}
`, `func timeSleep(ns int64) {
	if ns <= 0 {
		return
	}
	if h := SimSleep; h != nil && getg().simTask != nil {
		h(ns)
		return
	}
`)
}

type pkgInfo struct {
	Dir, ImportPath, Name string
	GoFiles               []string
	CgoFiles              []string
}

func listPkgs() []pkgInfo {
	cmd := exec.Command("go", "list", "-json=Dir,ImportPath,Name,GoFiles,CgoFiles", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	var ps []pkgInfo
	for dec.More() {
		var p pkgInfo
		must(dec.Decode(&p))
		ps = append(ps, p)
	}
	return ps
}

type ins struct {
	off  int
	text string
}

type point struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Kind string `json:"kind"`
}

// envs are the names of environment variables that the repository's source may read.
var envs = map[string]bool{}

// envValues are short string literals near where they are read.
var envValues = map[string]bool{}

var litRE = regexp.MustCompile(`"([A-Za-z0-9_.,:/-]{1,20})"`)

var envRE = regexp.MustCompile(`(?:(?:Getenv|LookupEnv)\(\s*|[eE]nv[A-Za-z]*\s*:?=?\s*|env[=:]\\?)["'` + "`" + `]([A-Za-z_][A-Za-z0-9_]*)["'\\` + "`" + `]`)

func envNames(src []byte) {
	for _, m := range envRE.FindAllSubmatchIndex(src, -1) {
		envs[string(src[m[2]:m[3]])] = true
		// What it may be compared with.
		end := m[1] + 400
		if end > len(src) {
			end = len(src)
		}
		for _, l := range litRE.FindAllSubmatch(src[m[1]:end], 12) {
			envValues[string(l[1])] = true
		}
	}
}

var points []point

func instrument(path string) (pkgvars []string) {
	b, err := os.ReadFile(path)
	must(err)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, b, parser.ParseComments)
	if err != nil {
		die("parse %s: %v", path, err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var list []ins
	rel, _ := filepath.Rel(*repo, path)
	id := func(p token.Pos, kind string) int {
		points = append(points, point{len(points), rel, fset.Position(p).Line, kind})
		return len(points) - 1
	}
	list = append(list, ins{off(f.Name.End()), `; import zvtick "` + module + `/zverif/tick"; var _ = zvtick.T`})
	fn := func(body *ast.BlockStmt) {
		if body == nil {
			return
		}
		list = append(list, ins{off(body.Lbrace) + 1, fmt.Sprintf("zvtick.F(%d); defer zvtick.L();", id(body.Lbrace, "func"))})
	}
	blk := func(body *ast.BlockStmt, kind string) {
		if body == nil {
			return
		}
		list = append(list, ins{off(body.Lbrace) + 1, fmt.Sprintf("zvtick.T(%d);", id(body.Lbrace, kind))})
	}
	// A task may be preempted before any statement.
	stmts := func(l []ast.Stmt) {
		for i, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				return
			}
			if i > 0 {
				list = append(list, ins{off(s.Pos()), "zvtick.P();"})
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		}
		switch x := n.(type) {
		case *ast.FuncDecl:
			fn(x.Body)
		case *ast.FuncLit:
			fn(x.Body)
		case *ast.ForStmt:
			blk(x.Body, "loop")
		case *ast.RangeStmt:
			blk(x.Body, "loop")
		case *ast.IfStmt:
			blk(x.Body, "if")
			if e, ok := x.Else.(*ast.BlockStmt); ok {
				blk(e, "else")
			}
		case *ast.CaseClause:
			list = append(list, ins{off(x.Colon) + 1, fmt.Sprintf("zvtick.T(%d);", id(x.Colon, "case"))})
		case *ast.CommClause:
			list = append(list, ins{off(x.Colon) + 1, fmt.Sprintf("zvtick.T(%d);", id(x.Colon, "case"))})
		}
		return true
	})
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			for _, nm := range s.(*ast.ValueSpec).Names {
				if nm.Name != "_" {
					pkgvars = append(pkgvars, nm.Name)
				}
			}
		}
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var o bytes.Buffer
	last := 0
	for _, x := range list {
		o.Write(b[last:x.off])
		o.WriteString(x.text)
		last = x.off
	}
	o.Write(b[last:])
	// The import inserted after the package clause must be followed by a
	// newline or semicolon-terminated import section: `var _` may not precede
	// imports, so it is appended at the end of the file instead.
	s := o.Bytes()
	s = bytes.Replace(s, []byte("; var _ = zvtick.T"), nil, 1)
	s = append(s, []byte("\nvar _ = zvtick.T\n")...)
	emit(path, s)
	return pkgvars
}

func main() {
	flag.Parse()
	if *out == "" {
		die("-out is required")
	}
	must(os.RemoveAll(filepath.Join(*out, "src")))
	must(os.MkdirAll(*out, 0o755))
	gr, err := exec.Command("go", "env", "GOROOT").Output()
	must(err)
	patchStd(strings.TrimSpace(string(gr)))
	for _, p := range listPkgs() {
		if len(p.CgoFiles) > 0 {
			die("%s uses cgo, which the simulator cannot control", p.ImportPath)
		}
		if strings.HasPrefix(p.ImportPath, module+"/zverif") {
			die("%s: the repository has a package where the harness goes", p.ImportPath)
		}
		var vars []string
		for _, f := range p.GoFiles {
			vars = append(vars, instrument(filepath.Join(p.Dir, f))...)
			src, err := os.ReadFile(filepath.Join(p.Dir, f))
			must(err)
			envNames(src)
		}
		if len(vars) > 0 && (p.Name != "main" || p.Dir == *repo) {
			var g bytes.Buffer
			fmt.Fprintf(&g, "package %s\n\nimport zvtick %q\n\nfunc init() {\n", p.Name, module+"/zverif/tick")
			for _, v := range vars {
				fmt.Fprintf(&g, "\tzvtick.Reg(%q, &%s)\n", p.ImportPath+"."+v, v)
			}
			g.WriteString("}\n")
			emit(filepath.Join(p.Dir, "zzzy_verif_globals.go"), g.Bytes())
		}
	}
	{
		var g bytes.Buffer
		g.WriteString("package harness\n\nfunc init() {\n")
		var names []string
		for n := range envs {
			names = append(names, n)
		}
		sort.Strings(names)
		var values []string
		for n := range envValues {
			values = append(values, n)
		}
		sort.Strings(values)
		fmt.Fprintf(&g, "\trepoEnv = %#v\n\trepoEnvValues = %#v\n}\n", names, values)
		emit(filepath.Join(*repo, "zverif/harness", "env_gen.go"), g.Bytes())
	}
	// Harness packages and the entry point.
	err = filepath.Walk(*sim, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(*sim, p)
		if filepath.Dir(rel) == "entry" {
			replace[filepath.Join(*repo, "zzzz_verif_"+filepath.Base(rel))] = p
		} else {
			replace[filepath.Join(*repo, "zverif", rel)] = p
		}
		return nil
	})
	must(err)
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644))
	pj, _ := json.Marshal(points)
	must(os.WriteFile(filepath.Join(*out, "points.json"), pj, 0o644))
}
