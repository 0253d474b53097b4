//go:build go1.21

package harness

import (
	"encoding/json"
	"fmt"
	"hash/crc32"
	"hash/fnv"
	"os"
	"runtime"
	"strings"

	"github.com/zellyn/diskii/zverif/tick"
)

// rng is splitmix64; one integer decides everything.
type rng struct{ s uint64 }

func newRng(seed uint64) *rng { r := &rng{seed * 0x9E3779B97F4A7C15}; r.next(); return r }

func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *rng) intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}
func (r *rng) rang(lo, hi int) int      { return lo + r.intn(hi-lo+1) }
func (r *rng) chance(num, den int) bool { return r.intn(den) < num }
func (r *rng) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.next() >> 17)
	}
	return b
}
func pickOf[T any](r *rng, xs ...T) T { return xs[r.intn(len(xs))] }

// Plan is one simulated run, written out: replaying it is a pure function of
// the plan and the code.
type Plan struct {
	Prop   string            `json:"prop"`
	Seed   uint64            `json:"seed"`
	Rand   uint64            `json:"rand"`            // seeds map order, temporary names, math/rand
	Files  []FileSpec        `json:"files,omitempty"` // the initial file system
	Steps  []Step            `json:"steps"`
	Cap    int64             `json:"cap,omitempty"` // free bytes on the file system; 0: unlimited
	Clock  int64             `json:"clock,omitempty"`
	Params map[string]int    `json:"params,omitempty"`
	Strs   map[string]string `json:"strs,omitempty"`
}

// FileSpec describes an initial file.
type FileSpec struct {
	Path  string `json:"path"`
	Mode  uint32 `json:"mode,omitempty"` // default 0644
	Link  string `json:"link,omitempty"` // symlink target
	Dir   bool   `json:"dir,omitempty"`
	Bytes *Blob  `json:"bytes,omitempty"`
	Image *Image `json:"image,omitempty"`
	Size  int    `json:"size,omitempty"` // cut or pad the image to this size
}

// Blob is generated content.
type Blob struct {
	Kind string `json:"kind"` // rand, zero, text, hex
	Seed uint64 `json:"seed,omitempty"`
	Len  int    `json:"len,omitempty"`
	Hex  string `json:"hex,omitempty"`
}

func (b *Blob) data() []byte {
	switch b.Kind {
	case "hex":
		return unhex(b.Hex)
	case "zero":
		return make([]byte, b.Len)
	case "text":
		r := newRng(b.Seed)
		out := make([]byte, b.Len)
		for i := range out {
			out[i] = byte(0x20+r.intn(0x5f)) | byte(r.intn(2)<<7)
			if r.intn(30) == 0 {
				out[i] = 0x8d
			}
		}
		return out
	case "zeroend": // random with zero bytes at the end
		r := newRng(b.Seed)
		out := r.bytes(b.Len)
		for i := r.intn(b.Len + 1); i < b.Len; i++ {
			out[i] = 0
		}
		return out
	}
	return newRng(b.Seed).bytes(b.Len)
}

func unhex(s string) []byte {
	out := make([]byte, len(s)/2)
	for i := range out {
		fmt.Sscanf(s[2*i:2*i+2], "%02x", &out[i])
	}
	return out
}

// Step is a set of processes running concurrently, or (Op set) an action of the
// environment between them.
type Step struct {
	Op    string         `json:"op,omitempty"` // property-specific tag
	Procs []ProcSpec     `json:"procs,omitempty"`
	Sched []int          `json:"sched,omitempty"` // who runs at each choice
	Loss  uint64         `json:"loss,omitempty"`  // chooses what a power loss leaves
	Arg   map[string]int `json:"arg,omitempty"`
	Str   string         `json:"str,omitempty"`
	Blob  *Blob          `json:"blob,omitempty"`
}

// ProcSpec is one simulated process.
type ProcSpec struct {
	Args    []string `json:"args"`
	Stdin   string   `json:"stdin,omitempty"`  // "": empty; "file:PATH"; "pipe:I" (stdout of process I)
	Stdout  string   `json:"stdout,omitempty"` // "": captured; "pipe"; "file:PATH" (truncated)
	PipeCap int      `json:"pipecap,omitempty"`
	Cwd     string   `json:"cwd,omitempty"`
	Faults  []Fault  `json:"faults,omitempty"`
	Drip    int      `json:"drip,omitempty"` // most bytes one read or write moves
	Slice   []int    `json:"slice,omitempty"`
	Verbose int      `json:"verbose,omitempty"` // -v, -vv, ... after the arguments
	sliceAt int
	body    func(p *proc)
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		hostErr("clone: %v", err)
	}
	return q
}

// Stats accumulates what was covered.
type Stats struct {
	Runs       int             `json:"runs"`
	Commands   int             `json:"commands"`
	Syscalls   int             `json:"syscalls"`
	Switches   int             `json:"switches"`
	Short      int             `json:"short"`
	SimNanos   int64           `json:"sim_nanos"`
	Steps      int64           `json:"steps"`
	MaxSteps   int64           `json:"max_steps"`
	MaxDepth   int             `json:"max_depth"`
	MaxAlloc   uint64          `json:"max_alloc"`
	Faults     map[string]int  `json:"faults"`
	Probes     map[string]int  `json:"probes"`
	NonTrivial int             `json:"nontrivial"`
	Sigs       map[uint64]bool `json:"-"`
	Inter      map[uint64]bool `json:"-"`
	Hits       []uint32        `json:"-"`
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int{}, Probes: map[string]int{}, Sigs: map[uint64]bool{}, Inter: map[uint64]bool{}, Hits: make([]uint32, tick.MaxPoints)}
}

func (s *Stats) fault(k string) { s.Faults[k]++ }
func (s *Stats) probe(k string) { s.Probes[k]++ }

// Violation is a broken property.
type Violation struct {
	Key    string   `json:"key,omitempty"` // identifies the failing input or call site more narrowly
	Class  string   `json:"class"`
	Detail string   `json:"detail"`
	Step   int      `json:"step"`
	Trace  []string `json:"trace,omitempty"`
}

func viol(class, f string, a ...interface{}) *Violation {
	return &Violation{Class: class, Detail: fmt.Sprintf(f, a...)}
}

// World is the running simulation of one plan.
type World struct {
	p       *Plan
	k       *kernel
	st      *Stats
	hits    []uint32
	nproc   int
	log     []string // event log: the determinism check compares it
	budget  int64
	step    int
	trivial bool
}

// Result of one simulated process.
type Result struct {
	Spec   *ProcSpec
	St     status
	Out    []byte
	Err    []byte
	Nsys   int
	calls  []callRec
	Fired  []Fault
	hit    []string // the calls that faults made fail
	Steps  int64
	Depth  int
	Shared bool // a fault of another process (full disk, power loss) hits this one too
}

const defaultBudget = 8_000_000

var mainFunc func()

func newWorld(p *Plan, st *Stats) *World {
	w := &World{p: p, st: st, hits: make([]uint32, tick.MaxPoints), budget: defaultBudget}
	w.k = newKernel(st)
	if p.Clock != 0 {
		w.k.now = p.Clock
	}
	for i := range p.Files {
		f := &p.Files[i]
		mode := f.Mode
		if mode == 0 {
			mode = 0o644
		}
		switch {
		case f.Dir:
			w.k.fs.mkdirAll(f.Path).mode = mode
		case f.Link != "":
			w.k.fs.symlink(f.Path, f.Link)
		case f.Image != nil:
			b := f.Image.build()
			if f.Size > 0 {
				for len(b) < f.Size {
					b = append(b, b[:min(len(b), f.Size-len(b))]...)
				}
				b = b[:f.Size]
			}
			w.k.fs.put(f.Path, b, mode)
		case f.Bytes != nil:
			w.k.fs.put(f.Path, f.Bytes.data(), mode)
		default:
			w.k.fs.put(f.Path, nil, mode)
		}
	}
	// Directories keep the requested mode only after their contents exist.
	w.k.fs.settle()
	if p.Cap > 0 {
		w.k.fs.cap = w.k.fs.used + p.Cap
	}
	return w
}

func (w *World) fs() *vfs { return w.k.fs }

func (w *World) read(path string) []byte {
	b, ok := w.k.fs.get(path)
	if !ok {
		return nil
	}
	return append([]byte{}, b...)
}

// run executes one step: all its processes to the end.
func (w *World) run(s *Step) []Result {
	k := w.k
	k.procs = nil
	k.power = false
	k.runs = k.runs[:0]
	k.faults = nil
	k.schedAt = 0
	k.sched = k.sched[:0]
	for _, x := range s.Sched {
		k.sched = append(k.sched, byte(x))
	}
	theKernel = k
	pipes := map[int]*pipe{}
	k.pipes = pipes
	for i := range s.Procs {
		if s.Procs[i].Stdout == "pipe" {
			c := s.Procs[i].PipeCap
			if c <= 0 {
				c = 65536
			}
			pipes[i] = &pipe{cap: c}
		}
	}
	for i := range s.Procs {
		ps := &s.Procs[i]
		ps.sliceAt = 0
		p := &proc{id: i, spec: ps, k: k, pid: k.nextPid, cwd: "/work", fds: map[int]*ofd{}, fired: make([]bool, len(ps.Faults)), body: ps.body}
		k.nextPid += 3
		if ps.Cwd != "" {
			p.cwd = ps.Cwd
		}
		p.ctx = tick.Ctx{Budget: w.budget, MaxDepth: 100_000, YieldIn: -1, Hit: w.hits}
		w.nproc++
		p.rand = w.p.Rand + uint64(w.nproc)*0x1234567
		p.seed = p.rand
		p.args = append([]string{"diskii"}, ps.Args...)
		if ps.Verbose > 0 && ps.body == nil {
			p.args = append(p.args, "-"+strings.Repeat("v", ps.Verbose))
		}
		mk := func(o *ofd) int { n := k.newFD(); o.ref = 1; p.fds[n] = o; return n }
		// stdin
		switch {
		case ps.Stdin == "":
			p.std[0] = mk(&ofd{node: k.fs.node("/dev/null"), path: "stdin"})
		case len(ps.Stdin) > 5 && ps.Stdin[:5] == "file:":
			pl, e := k.fs.walk(p.cwd, ps.Stdin[5:], true)
			if e != 0 || pl.node == nil {
				p.std[0] = mk(&ofd{node: k.fs.node("/dev/null"), path: "stdin"})
			} else {
				p.std[0] = mk(&ofd{node: pl.node, path: "stdin<" + ps.Stdin[5:]})
			}
		case len(ps.Stdin) > 5 && ps.Stdin[:5] == "pipe:":
			var n int
			fmt.Sscanf(ps.Stdin[5:], "%d", &n)
			pp := pipes[n]
			if pp == nil { // its writer was minimised away
				pp = &pipe{cap: 1}
			}
			pp.readers++
			p.std[0] = mk(&ofd{rd: pp, path: "stdin|"})
		}
		switch {
		case ps.Stdout == "":
			p.std[1] = mk(&ofd{sink: &p.out, flags: 1, path: "stdout"})
		case ps.Stdout == "pipe":
			pipes[i].writers++
			p.std[1] = mk(&ofd{wr: pipes[i], flags: 1, path: "stdout|"})
		case ps.Stdout == "null":
			p.std[1] = mk(&ofd{node: k.fs.node("/dev/null"), flags: 1, path: "stdout>null"})
		case ps.Stdout == "full":
			p.std[1] = mk(&ofd{node: k.fs.node("/dev/full"), flags: 1, path: "stdout>full"})
		case len(ps.Stdout) > 5 && ps.Stdout[:5] == "file:":
			path := ps.Stdout[5:]
			if path[0] != '/' {
				path = p.cwd + "/" + path
			}
			k.fs.put(path, nil, 0o644)
			p.std[1] = mk(&ofd{node: k.fs.node(path), flags: 1, path: "stdout>" + path})
		}
		p.std[2] = mk(&ofd{sink: &p.err, flags: 1, path: "stderr"})
		if p.body == nil {
			p.globals = freshVars()
		} else {
			p.ctx.YieldIn = p.nextSlice()
		}
		k.procs = append(k.procs, p)
	}
	k.logf("-- step %d", w.step)
	// NewFile asks for descriptor flags: create the files as the process.
	for _, p := range k.procs {
		if p.body == nil {
			nm := [3]string{"/dev/stdin", "/dev/stdout", "/dev/stderr"}
			for i := range p.files {
				k.cur = p
				runtime.SimSetTask(unsafePtr(p))
				p.files[i] = os.NewFile(uintptr(p.std[i]), nm[i])
				runtime.SimSetTask(nil)
			}
		}
	}
	if k.shared() {
		restoreVars(freshVars()) // one new process with several threads
	}
	t0 := k.now
	k.cur = nil
	over := false
	for _, p := range k.procs {
		p.start(mainFunc)
	}
	go k.watch(&over)
	host := [3]*os.File{os.Stdin, os.Stdout, os.Stderr}
	hostArgs := os.Args
	if len(k.procs) > 0 {
		first := k.pick(nil, false)
		k.resume(first)
		<-k.event
		for {
			var left *proc
			for _, p := range k.procs {
				if !p.done {
					left = p
					break
				}
			}
			if left == nil {
				break
			}
			if !left.dead {
				left.dead = true
				left.status.Block = true
			}
			left.blocked = nil
			k.resume(left)
			<-k.event
		}
	}
	os.Stdin, os.Stdout, os.Stderr = host[0], host[1], host[2]
	os.Args = hostArgs
	tick.Cur = nil
	over = true
	raceJoin()
	if tick.Multi { // goroutines left behind stop at their next step
		for i := 0; i < 100; i++ {
			runtime.Gosched()
		}
	}
	if w.p.Cap <= 0 {
		k.fs.cap = -1 // an injected full disk ends with the step
	}
	if k.power {
		k.lossLog = k.fs.powerLoss(newRng(s.Loss))
	}
	var rs []Result
	for _, p := range k.procs {
		r := Result{Spec: p.spec, St: p.status, Out: p.out, Err: p.err, Nsys: p.nsys, calls: p.calls, hit: p.hit, Steps: p.ctx.Steps, Depth: p.ctx.PeakDeep}
		for i, f := range p.fired {
			if f {
				r.Fired = append(r.Fired, p.spec.Faults[i])
			}
		}
		rs = append(rs, r)
		w.st.Commands++
		w.st.Steps += p.ctx.Steps
		if p.ctx.Steps > w.st.MaxSteps {
			w.st.MaxSteps = p.ctx.Steps
		}
		if p.ctx.PeakDeep > w.st.MaxDepth {
			w.st.MaxDepth = p.ctx.PeakDeep
		}
		w.log = append(w.log, fmt.Sprintf("step %d p%d %v -> %s out=%x err=%q nsys=%d steps=%d", w.step, p.id, p.spec.Args, p.status, hash(p.out), p.err, p.nsys, p.ctx.Steps))
	}
	for i := range rs {
		for _, f := range rs[i].Fired {
			if f.Kind == "full" || strings.HasPrefix(f.Kind, "power") {
				for j := range rs {
					rs[j].Shared = true
				}
			}
		}
	}
	w.log = append(w.log, fmt.Sprintf("step %d runs=%x faults=%v fs=%x", w.step, hash(k.runs), k.faults, w.fsHash()))
	if len(k.procs) > 1 {
		w.st.Inter[hash(k.runs)^uint64(len(k.runs))<<48] = true
	}
	w.st.SimNanos += k.now - t0
	k.procs = nil
	k.cur = nil
	w.step++
	return rs
}

// one runs a single command with no faults and everything captured.
func (w *World) one(args ...string) Result {
	return w.run(&Step{Procs: []ProcSpec{{Args: args}}})[0]
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func (w *World) fsHash() uint64 {
	h := fnv.New64a()
	s := w.k.fs.snapshot("/")
	for _, k := range sortedKeys(s) {
		e := s[k]
		fmt.Fprintf(h, "%s|%d|%o|%d|%s|%x|", k, e.Kind, e.Mode, len(e.Data), e.Target, crc32.Checksum([]byte(e.Data), castagnoli))
	}
	return h.Sum64()
}

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

// finish folds the run's coverage into the statistics.
func (w *World) finish() {
	w.st.Runs++
	h := fnv.New64a()
	var b [3]byte
	for id, n := range w.hits {
		if n > 0 {
			w.st.Hits[id] += 1
			c := byte(1)
			for n > 3 { // bucket counts by powers of four
				n >>= 2
				c++
			}
			b[0], b[1], b[2] = byte(id), byte(id>>8), c
			h.Write(b[:])
		}
	}
	h2 := h.Sum64()
	if !w.trivial {
		w.st.NonTrivial++
		w.st.Sigs[h2] = true
	}
}
