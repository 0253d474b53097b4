//go:build go1.21

package harness

import (
	"fmt"
	"os"
	"path"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/zellyn/diskii/zverif/tick"
)

// The virtual kernel: simulated processes, descriptors, pipes, faults and the
// scheduler. Exactly one simulated task runs at any time; which one is decided
// here, from the plan.

const firstVFD = 1_000_000

// Syscalls not among package syscall's constants on amd64.
const (
	sysGetrandom     = 318
	sysRenameat2     = 316
	sysCopyFileRange = 326
	sysStatx         = 332
	sysFaccessat2    = 439
	sysOpenat2       = 437
	sysFchmodat2     = 452
)

type pipe struct {
	buf     []byte
	all     []byte // everything ever written to it
	cap     int
	readers int
	writers int
}

type ofd struct {
	node   *inode
	rd, wr *pipe
	sink   *[]byte // captured output
	off    int64
	flags  int
	path   string
	dirpos int
	ref    int
	lock   int // flock: 1 shared, 2 exclusive
}

// Fault is one injected fault: the first applicable system call of the process
// at or after its At-th one is hit.
type Fault struct {
	At   int    `json:"at"`
	Kind string `json:"kind"`
	Arg  int    `json:"arg,omitempty"`
	// Pick, if not 0, chooses At from the calls an undisturbed run makes: a kind
	// of call on a file first, then one of those calls. Next: At is the call after
	// the previous fault's.
	Pick int  `json:"pick,omitempty"`
	Next bool `json:"next,omitempty"`
}

type proc struct {
	id    int
	spec  *ProcSpec
	k     *kernel
	pid   int
	cwd   string
	fds   map[int]*ofd
	std   [3]int
	out   []byte
	err   []byte
	nsys  int
	fired []bool
	calls []callRec
	hit   []string

	ctx     tick.Ctx
	globals []savedVar
	rand    uint64
	seed    uint64
	args    []string
	files   [3]*os.File
	body    func(p *proc) // nil: run the command line

	g        uintptr         // its main goroutine
	lockWait bool            // it could not get a lock
	waiters  []chan struct{} // its goroutines held at the gate
	conds    []func() bool   // what its goroutines in block wait for
	native   bool            // its goroutines all wait in the Go runtime
	kids     bool            // the program has started goroutines
	jit      uint64          // state of the choices among them
	jitMask  uint64
	done     bool
	dead     bool // no further effects
	blocked  func() bool
	status   status
	log      []string
	opens    []string // paths opened for writing, in order
}

// status is how a process ended.
type status struct {
	Code   int    // exit code
	Signal string // "KILL", "PIPE", "POWER"
	Panic  string
	Hung   string
	Block  bool // deadlocked: blocked with nobody to wake it
}

func (s status) ok() bool {
	return s.Code == 0 && s.Signal == "" && s.Panic == "" && s.Hung == "" && !s.Block
}

// clean reports a normal exit (any code).
func (s status) clean() bool { return s.Signal == "" && s.Panic == "" && s.Hung == "" && !s.Block }

func (s status) String() string {
	switch {
	case s.Panic != "":
		return "panic: " + s.Panic
	case s.Hung != "":
		return "hung (" + s.Hung + ")"
	case s.Signal != "":
		return "SIG" + s.Signal
	case s.Block:
		return "blocked forever"
	}
	return fmt.Sprintf("exit %d", s.Code)
}

type kernel struct {
	fs        *vfs
	procs     []*proc
	cur       *proc
	noWaiters bool
	event     chan int
	nextFD    int
	nextPid   int
	now       int64
	clockDt   int64
	sched     []byte
	appear    func(arg int) // what the environment does at an "appear" fault
	pipes     map[int]*pipe // of the last step, by writer
	schedAt   int
	stats     *Stats
	trace     []string
	tracing   bool
	recording bool   // keep the list of calls (aim)
	power     bool   // power was lost in this step
	lossRng   *rng   // chooses what survives
	lossLog   string // what the power loss did
	runs      []byte // which process ran at each switch (the interleaving)
	faults    []string
	errBug    string
	prog      int64 // grows whenever a simulated goroutine does something
}

func newKernel(st *Stats) *kernel {
	k := &kernel{event: make(chan int, 16), nextFD: firstVFD, nextPid: 4000, stats: st, now: 1_700_000_000e9, clockDt: 1000}
	k.fs = newVFS(func() int64 { return k.now })
	dev := k.fs.mkdirAll("/dev")
	k.fs.change(nschange{dev, "null", k.fs.newInode(kNull, 0o666)})
	k.fs.change(nschange{dev, "full", k.fs.newInode(kFull, 0o666)})
	k.fs.mkdirAll("/tmp")
	k.fs.mkdirAll("/work")
	return k
}

func (k *kernel) logf(f string, a ...interface{}) {
	if k.tracing {
		k.trace = append(k.trace, fmt.Sprintf(f, a...))
	}
}

var hostErr = func(f string, a ...interface{}) {
	os.Stderr.WriteString("HARNESS ERROR: " + fmt.Sprintf(f, a...) + "\n")
	realExit(2)
}

func realExit(code int) {
	os.SimExit = nil
	os.Exit(code)
}

var theKernel *kernel // the kernel whose tasks are running

func installHooks() {
	syscall.SimHook = hook
	syscall.SimGetpid = func() (int, bool) {
		if p := curTask(); p != nil {
			return p.pid, true
		}
		return 0, false
	}
	os.SimExit = func(code int) {
		p := curTask()
		if p == nil {
			return
		}
		if !p.dead {
			p.dead = true
			p.status.Code = code
		}
		p.exitG()
	}
	tick.Slow = slow
	runtime.SimSpawned = spawned
	runtime.SimPanicked = func(v any) {
		p := curTask()
		if p == nil {
			return
		}
		if !p.dead {
			p.dead = true
			p.status.Panic = fmt.Sprint(v)
			p.status.Code = 2
		}
		p.ended()
		select {}
	}
	runtime.SimSleep = func(ns int64) {
		if p := curTask(); p != nil && !p.dead {
			p.k.now += ns
			p.k.prog++
			p.siblings(4)
			p.yieldTo(true)
		}
	}
	sync.SimBlock = func(n int) bool {
		p := curTask()
		if p == nil {
			return false
		}
		if tick.Multi {
			p.gate()
		}
		k := p.k
		if p.kids && n%64 != 63 && n < 100_000 {
			p.siblings(1)
			return true
		}
		// Rather somebody who is not waiting for a lock too.
		p.lockWait = true
		k.noWaiters = true
		next := k.pick(p, true)
		k.noWaiters = false
		if next == nil || next == p || n > 100_000 {
			if p.kids && n < 100_000 {
				p.siblings(1)
				return true
			}
			// nobody will ever release it
			if !p.dead {
				p.dead = true
				p.status.Block = true
			}
			p.exitG()
		}
		k.stats.probe("contended lock")
		k.switchFrom(p, next)
		p.lockWait = false
		return true
	}
	setSimNow(func() (int64, bool) {
		if p := curTask(); p != nil {
			p.k.now += p.k.clockDt
			return p.k.now, true
		}
		return 0, false
	})
}

func curTask() *proc { return (*proc)(runtime.SimTask()) }

func hook(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, syscall.Errno, bool) {
	p := curTask()
	if p == nil {
		// A goroutine of the harness or the runtime. Descriptors of the
		// simulation may be closed by finalizers: nothing to do.
		switch trap {
		case syscall.SYS_CLOSE, syscall.SYS_FCNTL:
			if a1 >= firstVFD && a1 < 1<<40 {
				return 0, 0, true
			}
		}
		return 0, 0, false
	}
	if tick.Multi {
		p.gate()
		p.jitter(true)
	}
	p.k.prog++
	if p.dead {
		// The process is gone; its goroutine is only unwinding.
		return 0, syscall.EBADF, true
	}
	r, e := p.syscall(trap, a1, a2, a3, a4, a5, a6)
	return r, e, true
}

func cstr(p uintptr) string {
	if p == 0 {
		return ""
	}
	b := (*[1 << 20]byte)(ptr(p))
	n := 0
	for b[n] != 0 {
		n++
	}
	return string(b[:n])
}

func ptr(p uintptr) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&p)) }

func mem(p, n uintptr) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(ptr(p)), int(n))
}

var sysName = map[uintptr]string{
	syscall.SYS_READ: "read", syscall.SYS_PREAD64: "read", syscall.SYS_READV: "read",
	syscall.SYS_WRITE: "write", syscall.SYS_PWRITE64: "write",
	syscall.SYS_OPENAT: "open", syscall.SYS_OPEN: "open", syscall.SYS_CREAT: "open",
	syscall.SYS_CLOSE: "close", syscall.SYS_FSYNC: "fsync", syscall.SYS_FDATASYNC: "fsync",
	syscall.SYS_FSTAT: "fstat", syscall.SYS_NEWFSTATAT: "stat", sysStatx: "stat", syscall.SYS_STAT: "stat", syscall.SYS_LSTAT: "stat",
	syscall.SYS_RENAME: "rename", syscall.SYS_RENAMEAT: "rename", sysRenameat2: "rename",
	syscall.SYS_UNLINKAT: "unlink", syscall.SYS_UNLINK: "unlink", syscall.SYS_RMDIR: "unlink",
	syscall.SYS_LINKAT: "link", syscall.SYS_LINK: "link",
	syscall.SYS_SYMLINKAT: "symlink", syscall.SYS_READLINKAT: "readlink",
	syscall.SYS_FTRUNCATE: "truncate", syscall.SYS_TRUNCATE: "truncate",
	syscall.SYS_FCHMOD: "chmod", syscall.SYS_FCHMODAT: "chmod", sysFchmodat2: "chmod",
	syscall.SYS_FCHOWN: "chown", syscall.SYS_FCHOWNAT: "chown",
	syscall.SYS_MKDIRAT: "mkdir", syscall.SYS_LSEEK: "lseek", syscall.SYS_GETDENTS64: "getdents",
	syscall.SYS_FCNTL: "fcntl", syscall.SYS_GETCWD: "getcwd", syscall.SYS_CHDIR: "chdir",
	syscall.SYS_FACCESSAT: "access", sysFaccessat2: "access",
	syscall.SYS_FLOCK: "flock", syscall.SYS_UTIMENSAT: "utimens",
	sysCopyFileRange: "copyrange", syscall.SYS_SENDFILE: "sendfile", syscall.SYS_SPLICE: "splice",
	syscall.SYS_IOCTL: "ioctl", sysGetrandom: "getrandom", syscall.SYS_FALLOCATE: "fallocate",
	syscall.SYS_SYNC: "sync", syscall.SYS_FADVISE64: "fadvise", sysOpenat2: "openat2",
}

// which calls each fault kind can hit.
func applicable(kind, call string) bool {
	in := func(s string) bool { return strings.Contains(" "+s+" ", " "+call+" ") }
	switch kind {
	case "eio":
		return in("read write fsync close open stat rename unlink link chmod truncate getdents readlink")
	case "enospc":
		return in("write fsync rename link mkdir truncate symlink fallocate close")
	case "eacces":
		return in("open rename unlink link chmod stat")
	case "emfile", "enoent":
		return in("open")
	case "eintr":
		return in("open read write fsync")
	case "short":
		return in("read write")
	case "kill", "power", "stall", "appear":
		return true
	case "killafter", "powerafter":
		return in("write open rename unlink link fsync close truncate chmod read stat")
	case "killtorn", "powertorn":
		return in("write")
	case "full":
		return in("write open")
	}
	hostErr("unknown fault kind %q", kind)
	return false
}

var hardKinds = map[string]syscall.Errno{
	"eio": syscall.EIO, "enospc": syscall.ENOSPC, "eacces": syscall.EACCES, "emfile": syscall.EMFILE, "enoent": syscall.ENOENT,
}

func (p *proc) takeFault(call string) *Fault {
	for i := range p.spec.Faults {
		f := &p.spec.Faults[i]
		if !p.fired[i] && p.nsys >= f.At && applicable(f.Kind, call) {
			p.fired[i] = true
			p.k.stats.fault(f.Kind)
			p.k.faults = append(p.k.faults, fmt.Sprintf("p%d %s at call %d (%s)", p.id, f.Kind, p.nsys, call))
			return f
		}
	}
	return nil
}

func (p *proc) syscall(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, syscall.Errno) {
	k := p.k
	name := sysName[trap]
	if name == "" {
		// Not modelled: as on a kernel that does not have the call.
		k.stats.probe(fmt.Sprintf("enosys-%d", trap))
		return 0, syscall.ENOSYS
	}
	if name == "fcntl" {
		return p.doFcntl(a1, a2, a3)
	}
	p.nsys++
	if p.body == nil {
		// Numbers drawn from here on depend on the call only, not on how many the
		// standard library has drawn for its own caches.
		runtime.SimSeedRand(p.seed + uint64(p.nsys)*0xA0761D6478BD642F)
	}
	k.stats.Syscalls++
	k.now += k.clockDt
	p.yield()
	hit := name
	if name == "write" && p.mapFD(int(a1)) == p.std[2] {
		hit = "message" // messages get through: only crashes hit them
	}
	if k.recording {
		p.calls = append(p.calls, callRec{p.nsys, hit, p.object(trap, a1, a2)})
	}
	f := p.takeFault(hit)
	drip := p.spec.Drip
	after := ""
	if f != nil {
		k.logf("p%d FAULT %s on %s (call %d)", p.id, f.Kind, name, p.nsys)
		switch f.Kind {
		case "eintr":
			return 0, syscall.EINTR
		case "eio", "enospc", "eacces", "emfile", "enoent":
			p.hit = append(p.hit, name)
			if name == "close" {
				// The error comes from delayed writes: what was not synced is lost.
				if o := p.fds[p.mapFD(int(a1))]; o != nil && o.node != nil && o.node.kind == kFile && o.flags&3 != 0 && o.node.dirty {
					k.fs.setData(o.node, append([]byte(nil), o.node.synced...))
				}
				p.closeFD(int(a1))
			}
			return 0, hardKinds[f.Kind]
		case "short":
			n := f.Arg
			if n < 1 {
				n = 1
			}
			if drip == 0 || n < drip {
				drip = n
			}
		case "kill":
			p.die("KILL")
		case "power":
			k.losePower(p)
		case "stall":
			for i := 0; i < 2+f.Arg%7; i++ {
				p.yieldTo(true)
			}
		case "killtorn", "powertorn":
			n := int(a3)
			if n > 0 {
				n = f.Arg % n
			}
			if n > 0 {
				p.doWrite(trap, a1, a2, uintptr(n), a4, 0)
			}
			if f.Kind == "killtorn" {
				p.die("KILL")
			}
			k.losePower(p)
		case "full":
			k.fs.cap = k.fs.used + int64(f.Arg)
		case "appear": // somebody else does something here
			if k.appear != nil {
				k.appear(f.Arg)
			}
		case "killafter", "powerafter":
			after = f.Kind
		}
	}
	r, e := p.dispatch(trap, name, a1, a2, a3, a4, a5, a6, drip)
	if k.tracing {
		k.logf("p%d %-8s %s = %d %v", p.id, name, p.argStr(trap, a1, a2, a3, a4), int64(r), e)
	}
	switch after {
	case "killafter":
		p.die("KILL")
	case "powerafter":
		k.losePower(p)
	}
	return r, e
}

// callRec is one system call of a recorded run.
type callRec struct {
	at         int
	name, what string
}

func (p *proc) object(trap, a1, a2 uintptr) string {
	switch trap {
	case syscall.SYS_OPENAT, syscall.SYS_NEWFSTATAT, syscall.SYS_UNLINKAT, syscall.SYS_MKDIRAT, syscall.SYS_FCHMODAT, syscall.SYS_READLINKAT, syscall.SYS_RENAMEAT, sysRenameat2, syscall.SYS_LINKAT:
		return cstr(a2)
	case syscall.SYS_READ, syscall.SYS_WRITE, syscall.SYS_PREAD64, syscall.SYS_PWRITE64, syscall.SYS_CLOSE, syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, syscall.SYS_FSTAT, syscall.SYS_FTRUNCATE, syscall.SYS_FCHMOD, syscall.SYS_LSEEK:
		return p.fdName(int(a1))
	}
	return ""
}

// aim sets At of faults that are to hit calls seen in an undisturbed run.
func aim(fs []Fault, calls []callRec, nsys int) []Fault {
	fs = append([]Fault(nil), fs...)
	for i := range fs {
		f := &fs[i]
		if f.Next && i > 0 {
			f.At = fs[i-1].At + 1
			continue
		}
		if f.Pick == 0 {
			f.At %= nsys + 1
			continue
		}
		var groups [][]int
		idx := map[string]int{}
		for _, c := range calls {
			if !applicable(f.Kind, c.name) {
				continue
			}
			key := c.name + " " + c.what
			g, ok := idx[key]
			if !ok {
				g = len(groups)
				idx[key] = g
				groups = append(groups, nil)
			}
			groups[g] = append(groups[g], c.at)
		}
		if len(groups) == 0 {
			f.At %= nsys + 1
			continue
		}
		g := groups[f.Pick%len(groups)]
		switch n := f.Pick / len(groups); n % 4 {
		case 0:
			f.At = g[0]
		case 1:
			f.At = g[len(g)-1]
		default:
			f.At = g[n/4%len(g)]
		}
	}
	return fs
}

func (p *proc) argStr(trap, a1, a2, a3, a4 uintptr) string {
	switch trap {
	case syscall.SYS_OPENAT:
		return fmt.Sprintf("%q flags=%#x", cstr(a2), a3)
	case syscall.SYS_NEWFSTATAT, syscall.SYS_UNLINKAT, syscall.SYS_MKDIRAT, syscall.SYS_FCHMODAT, syscall.SYS_READLINKAT:
		return fmt.Sprintf("%q", cstr(a2))
	case syscall.SYS_RENAMEAT, sysRenameat2, syscall.SYS_LINKAT:
		return fmt.Sprintf("%q -> %q", cstr(a2), cstr(a4))
	case syscall.SYS_READ, syscall.SYS_WRITE:
		return fmt.Sprintf("fd %s n=%d", p.fdName(int(a1)), a3)
	}
	return "fd " + p.fdName(int(a1))
}

func (p *proc) fdName(fd int) string {
	o := p.fds[p.mapFD(fd)]
	if o == nil {
		return "?"
	}
	return o.path
}

func (p *proc) mapFD(fd int) int {
	if fd >= 0 && fd < 3 {
		return p.std[fd]
	}
	return fd
}

func (p *proc) die(sig string) {
	p.dead = true
	p.status.Signal = sig
	p.k.logf("p%d dies: SIG%s", p.id, sig)
	p.exitG()
}

func (k *kernel) losePower(p *proc) {
	k.power = true
	for _, q := range k.procs {
		if !q.done && !q.dead {
			q.dead = true
			q.status.Signal = "POWER"
		}
	}
	k.logf("POWER LOSS")
	p.exitG()
}

func (p *proc) doFcntl(fd, cmd, arg uintptr) (uintptr, syscall.Errno) {
	o := p.fds[p.mapFD(int(fd))]
	if o == nil {
		return 0, syscall.EBADF
	}
	switch cmd {
	case syscall.F_GETFL:
		return uintptr(o.flags &^ syscall.O_NONBLOCK), 0
	case syscall.F_GETFD:
		return 1, 0
	case syscall.F_SETFD:
		return 0, 0
	case syscall.F_DUPFD_CLOEXEC, syscall.F_DUPFD:
		n := p.k.newFD()
		o.ref++
		p.fds[n] = o
		return uintptr(n), 0
	}
	return 0, syscall.EINVAL // in particular O_NONBLOCK is refused, as for a file without poll support
}

func (k *kernel) newFD() int { k.nextFD++; return k.nextFD }

func (p *proc) closeFD(fd int) syscall.Errno {
	fd = p.mapFD(fd)
	o := p.fds[fd]
	if o == nil {
		return syscall.EBADF
	}
	delete(p.fds, fd)
	o.close()
	return 0
}

func (o *ofd) close() {
	o.ref--
	if o.ref > 0 {
		return
	}
	if o.lock != 0 {
		delete(o.node.locks, o)
		o.lock = 0
	}
	if o.rd != nil {
		o.rd.readers--
	}
	if o.wr != nil {
		o.wr.writers--
	}
}

// magic: /dev/stdin, /dev/fd/1 and the like name open descriptors.
func (p *proc) magic(base, name string) *ofd {
	if !strings.HasPrefix(name, "/") {
		name = base + "/" + name
	}
	name = path.Clean(name)
	fd := -1
	switch name {
	case "/dev/stdin":
		fd = 0
	case "/dev/stdout":
		fd = 1
	case "/dev/stderr":
		fd = 2
	default:
		t, ok := strings.CutPrefix(name, "/dev/fd/")
		if !ok {
			t, ok = strings.CutPrefix(name, "/proc/self/fd/")
		}
		if !ok {
			return nil
		}
		n, err := strconv.Atoi(t)
		if err != nil {
			return nil
		}
		fd = n
	}
	return p.fds[p.mapFD(fd)]
}

func (p *proc) at(dirfd uintptr) (string, syscall.Errno) {
	if int32(dirfd) == -100 {
		return p.cwd, 0
	}
	o := p.fds[p.mapFD(int(int32(dirfd)))]
	if o == nil || o.node == nil || o.node.kind != kDir {
		return "", syscall.EBADF
	}
	return o.path, 0
}

func (p *proc) dispatch(trap uintptr, name string, a1, a2, a3, a4, a5, a6 uintptr, drip int) (uintptr, syscall.Errno) {
	k := p.k
	fs := k.fs
	get := func(fd uintptr) *ofd { return p.fds[p.mapFD(int(fd))] }
	switch trap {
	case syscall.SYS_OPENAT:
		base, e := p.at(a1)
		if e != 0 {
			return 0, e
		}
		return p.doOpen(base, cstr(a2), int(a3), uint32(a4))
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		return p.doRead(trap, a1, a2, a3, a4, drip)
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		return p.doWrite(trap, a1, a2, a3, a4, drip)
	case syscall.SYS_CLOSE:
		return 0, p.closeFD(int(a1))
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		o := get(a1)
		if o == nil {
			return 0, syscall.EBADF
		}
		if o.node == nil {
			return 0, syscall.EINVAL
		}
		switch o.node.kind {
		case kFile:
			fs.syncFile(o.node)
		case kDir:
			fs.syncDir(o.node)
		}
		return 0, 0
	case syscall.SYS_SYNC:
		fs.settle()
		return 0, 0
	case syscall.SYS_FSTAT:
		o := get(a1)
		if o == nil {
			return 0, syscall.EBADF
		}
		fillStat((*syscall.Stat_t)(ptr(a2)), o.node, o)
		return 0, 0
	case syscall.SYS_NEWFSTATAT:
		base, e := p.at(a1)
		if e != 0 {
			return 0, e
		}
		path := cstr(a2)
		if path == "" && a4&0x1000 != 0 {
			o := get(a1)
			if o == nil {
				return 0, syscall.EBADF
			}
			fillStat((*syscall.Stat_t)(ptr(a3)), o.node, o)
			return 0, 0
		}
		if o := p.magic(base, path); o != nil {
			st := (*syscall.Stat_t)(ptr(a3))
			fillStat(st, o.node, o)
			if a4&0x100 != 0 { // the link itself
				st.Mode = syscall.S_IFLNK | 0o777
			}
			return 0, 0
		}
		pl, e := fs.walk(base, path, a4&0x100 == 0)
		if e != 0 {
			return 0, e
		}
		if pl.node == nil {
			return 0, syscall.ENOENT
		}
		fillStat((*syscall.Stat_t)(ptr(a3)), pl.node, nil)
		return 0, 0
	case syscall.SYS_RENAME:
		return 0, p.doRename(p.cwd, cstr(a1), p.cwd, cstr(a2), 0)
	case syscall.SYS_RENAMEAT, sysRenameat2:
		b1, e := p.at(a1)
		if e != 0 {
			return 0, e
		}
		b2, e := p.at(a3)
		if e != 0 {
			return 0, e
		}
		fl := uintptr(0)
		if trap == sysRenameat2 {
			fl = a5
		}
		return 0, p.doRename(b1, cstr(a2), b2, cstr(a4), fl)
	case syscall.SYS_UNLINKAT, syscall.SYS_UNLINK, syscall.SYS_RMDIR:
		base, path, rmdir := p.cwd, "", false
		if trap == syscall.SYS_UNLINKAT {
			b, e := p.at(a1)
			if e != 0 {
				return 0, e
			}
			base, path, rmdir = b, cstr(a2), a3&0x200 != 0
		} else {
			path, rmdir = cstr(a1), trap == syscall.SYS_RMDIR
		}
		pl, e := fs.walk(base, path, false)
		if e != 0 {
			return 0, e
		}
		if pl.node == nil {
			return 0, syscall.ENOENT
		}
		if !fs.may(pl.dir, 2) {
			return 0, syscall.EACCES
		}
		if rmdir {
			if pl.node.kind != kDir {
				return 0, syscall.ENOTDIR
			}
			if len(pl.node.ents) > 0 {
				return 0, syscall.ENOTEMPTY
			}
		} else if pl.node.kind == kDir {
			return 0, syscall.EISDIR
		}
		fs.drop(pl.node)
		fs.change(nschange{pl.dir, pl.name, nil})
		return 0, 0
	case syscall.SYS_LINKAT, syscall.SYS_LINK:
		b1, p1, b2, p2, fl := p.cwd, "", p.cwd, "", uintptr(0)
		if trap == syscall.SYS_LINKAT {
			var e syscall.Errno
			if b1, e = p.at(a1); e != 0 {
				return 0, e
			}
			if b2, e = p.at(a3); e != 0 {
				return 0, e
			}
			p1, p2, fl = cstr(a2), cstr(a4), a5
		} else {
			p1, p2 = cstr(a1), cstr(a2)
		}
		src, e := fs.walk(b1, p1, fl&0x400 != 0)
		if e != 0 {
			return 0, e
		}
		if src.node == nil {
			return 0, syscall.ENOENT
		}
		if src.node.kind == kDir {
			return 0, syscall.EPERM
		}
		dst, e := fs.walk(b2, p2, false)
		if e != 0 {
			return 0, e
		}
		if dst.node != nil {
			return 0, syscall.EEXIST
		}
		if !fs.may(dst.dir, 2) {
			return 0, syscall.EACCES
		}
		if src.node.dev != dst.dir.dev {
			return 0, syscall.EXDEV
		}
		src.node.nlink++
		fs.change(nschange{dst.dir, dst.name, src.node})
		return 0, 0
	case syscall.SYS_SYMLINKAT:
		b, e := p.at(a2)
		if e != 0 {
			return 0, e
		}
		pl, e := fs.walk(b, cstr(a3), false)
		if e != 0 {
			return 0, e
		}
		if pl.node != nil {
			return 0, syscall.EEXIST
		}
		if !fs.may(pl.dir, 2) {
			return 0, syscall.EACCES
		}
		n := fs.newInode(kLink, 0o777)
		n.target = cstr(a1)
		fs.change(nschange{pl.dir, pl.name, n})
		return 0, 0
	case syscall.SYS_READLINKAT:
		b, e := p.at(a1)
		if e != 0 {
			return 0, e
		}
		if o := p.magic(b, cstr(a2)); o != nil {
			t := "pipe:[77]"
			if o.node != nil {
				t = fs.pathOf(o.node)
			}
			return uintptr(copy(mem(a3, a4), t)), 0
		}
		pl, e := fs.walk(b, cstr(a2), false)
		if e != 0 {
			return 0, e
		}
		if pl.node == nil {
			return 0, syscall.ENOENT
		}
		if pl.node.kind != kLink {
			return 0, syscall.EINVAL
		}
		return uintptr(copy(mem(a3, a4), pl.node.target)), 0
	case syscall.SYS_FTRUNCATE, syscall.SYS_TRUNCATE:
		var n *inode
		if trap == syscall.SYS_FTRUNCATE {
			o := get(a1)
			if o == nil || o.flags&3 == 0 {
				return 0, syscall.EBADF
			}
			n = o.node
		} else {
			pl, e := fs.walk(p.cwd, cstr(a1), true)
			if e != 0 {
				return 0, e
			}
			if pl.node == nil {
				return 0, syscall.ENOENT
			}
			if !fs.may(pl.node, 2) {
				return 0, syscall.EACCES
			}
			n = pl.node
		}
		if n == nil || n.kind != kFile {
			return 0, syscall.EINVAL
		}
		sz := int(a2)
		if sz < 0 || sz > 1<<28 {
			return 0, syscall.EFBIG
		}
		d := make([]byte, sz)
		copy(d, n.data)
		fs.setData(n, d)
		return 0, 0
	case syscall.SYS_FCHMOD:
		o := get(a1)
		if o == nil {
			return 0, syscall.EBADF
		}
		if o.node != nil {
			o.node.mode = uint32(a2) & 0o7777
		}
		return 0, 0
	case syscall.SYS_FCHMODAT, sysFchmodat2:
		b, e := p.at(a1)
		if e != 0 {
			return 0, e
		}
		pl, e := fs.walk(b, cstr(a2), true)
		if e != 0 {
			return 0, e
		}
		if pl.node == nil {
			return 0, syscall.ENOENT
		}
		pl.node.mode = uint32(a3) & 0o7777
		return 0, 0
	case syscall.SYS_FCHOWN, syscall.SYS_FCHOWNAT, syscall.SYS_UTIMENSAT, syscall.SYS_FADVISE64:
		return 0, 0
	case syscall.SYS_FLOCK:
		o := get(a1)
		if o == nil || o.node == nil {
			return 0, syscall.EBADF
		}
		n := o.node
		delete(n.locks, o)
		o.lock = 0
		how := int(a2)
		if how&8 != 0 {
			return 0, 0
		}
		free := func() bool {
			for _, l := range n.locks {
				if l == 2 || how&2 != 0 {
					return false
				}
			}
			return true
		}
		for !free() {
			if how&4 != 0 {
				return 0, syscall.EAGAIN
			}
			p.block(free)
		}
		if n.locks == nil {
			n.locks = map[*ofd]int{}
		}
		o.lock = how & 3
		n.locks[o] = o.lock
		return 0, 0
	case syscall.SYS_FALLOCATE:
		return 0, syscall.EOPNOTSUPP
	case syscall.SYS_MKDIRAT:
		b, e := p.at(a1)
		if e != 0 {
			return 0, e
		}
		pl, e := fs.walk(b, cstr(a2), false)
		if e != 0 {
			return 0, e
		}
		if pl.node != nil {
			return 0, syscall.EEXIST
		}
		if !fs.may(pl.dir, 2) {
			return 0, syscall.EACCES
		}
		fs.change(nschange{pl.dir, pl.name, fs.newInode(kDir, uint32(a3)&0o777)})
		return 0, 0
	case syscall.SYS_LSEEK:
		o := get(a1)
		if o == nil {
			return 0, syscall.EBADF
		}
		if o.node == nil {
			return 0, syscall.ESPIPE
		}
		n := int64(a2)
		switch a3 {
		case 1:
			n += o.off
		case 2:
			n += int64(len(o.node.data))
		}
		if n < 0 {
			return 0, syscall.EINVAL
		}
		o.off = n
		o.dirpos = 0
		return uintptr(n), 0
	case syscall.SYS_GETDENTS64:
		o := get(a1)
		if o == nil || o.node == nil {
			return 0, syscall.EBADF
		}
		if o.node.kind != kDir {
			return 0, syscall.ENOTDIR
		}
		return p.getdents(o, mem(a2, a3)), 0
	case syscall.SYS_GETCWD:
		b := mem(a1, a2)
		n := copy(b, p.cwd+"\x00")
		return uintptr(n), 0
	case syscall.SYS_CHDIR:
		pl, e := fs.walk(p.cwd, cstr(a1), true)
		if e != 0 {
			return 0, e
		}
		if pl.node == nil {
			return 0, syscall.ENOENT
		}
		p.cwd = pl.path
		return 0, 0
	case syscall.SYS_FACCESSAT, sysFaccessat2:
		b, e := p.at(a1)
		if e != 0 {
			return 0, e
		}
		if p.magic(b, cstr(a2)) != nil {
			return 0, 0
		}
		pl, e := fs.walk(b, cstr(a2), true)
		if e != 0 {
			return 0, e
		}
		if pl.node == nil {
			return 0, syscall.ENOENT
		}
		if !fs.may(pl.node, uint32(a3)) {
			return 0, syscall.EACCES
		}
		return 0, 0
	case sysCopyFileRange, syscall.SYS_SENDFILE, syscall.SYS_SPLICE, sysStatx, sysOpenat2:
		return 0, syscall.ENOSYS
	case syscall.SYS_IOCTL:
		return 0, syscall.ENOTTY
	case sysGetrandom:
		b := mem(a1, a2)
		for i := range b {
			b[i] = byte(p.randByte())
		}
		return a2, 0
	}
	k.stats.probe("enosys-" + name)
	return 0, syscall.ENOSYS
}

func (p *proc) randByte() uint64 {
	s := runtime.SimRandState()
	r := rng{s}
	v := r.next()
	runtime.SimSeedRand(r.s)
	return v >> 24
}

func (p *proc) getdents(o *ofd, buf []byte) uintptr {
	names := sortedKeys(o.node.ents)
	n := 0
	for o.dirpos < len(names) {
		nm := names[o.dirpos]
		rec := (19 + len(nm) + 1 + 7) &^ 7
		if n+rec > len(buf) {
			break
		}
		b := buf[n : n+rec]
		for i := range b {
			b[i] = 0
		}
		ino := o.node.ents[nm].ino
		for i := 0; i < 8; i++ {
			b[i] = byte(ino >> (8 * i))
		}
		b[16], b[17] = byte(rec), byte(rec>>8)
		switch o.node.ents[nm].kind {
		case kFile:
			b[18] = 8
		case kDir:
			b[18] = 4
		case kLink:
			b[18] = 10
		}
		copy(b[19:], nm)
		n += rec
		o.dirpos++
	}
	return uintptr(n)
}

func fillStat(st *syscall.Stat_t, n *inode, o *ofd) {
	*st = syscall.Stat_t{}
	st.Blksize = 4096
	st.Nlink = 1
	if n == nil {
		st.Mode = syscall.S_IFIFO | 0o600
		if o != nil && o.sink != nil {
			st.Mode = syscall.S_IFCHR | 0o600
		}
		st.Ino = 1
		return
	}
	st.Dev = n.dev
	st.Ino = n.ino
	st.Uid = n.uid
	st.Gid = n.uid
	st.Nlink = uint64(n.nlink)
	st.Mtim.Sec = n.mtime / 1e9
	st.Mtim.Nsec = n.mtime % 1e9
	st.Ctim = st.Mtim
	st.Atim = st.Mtim
	switch n.kind {
	case kFile:
		st.Mode = syscall.S_IFREG | n.mode
		st.Size = int64(len(n.data))
		st.Blocks = (st.Size + 511) / 512
	case kDir:
		st.Mode = syscall.S_IFDIR | n.mode
		st.Size = 4096
	case kLink:
		st.Mode = syscall.S_IFLNK | n.mode
		st.Size = int64(len(n.target))
	default:
		st.Mode = syscall.S_IFCHR | n.mode
	}
}

func (p *proc) doOpen(base, path string, flags int, mode uint32) (uintptr, syscall.Errno) {
	fs := p.k.fs
	if len(p.fds) > 200 {
		return 0, syscall.EMFILE
	}
	excl := flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL
	if o := p.magic(base, path); o != nil {
		if excl {
			return 0, syscall.EEXIST
		}
		if o.node == nil {
			// a pipe or terminal: one more descriptor for it
			c := *o
			c.flags, c.ref = flags, 1
			if flags&3 == syscall.O_RDONLY && o.rd == nil || flags&3 != syscall.O_RDONLY && o.rd != nil {
				return 0, syscall.EACCES // (a real pipe could be opened the other way round)
			}
			if c.rd != nil {
				c.rd.readers++
			}
			if c.wr != nil {
				c.wr.writers++
			}
			fd := p.k.newFD()
			p.fds[fd] = &c
			return uintptr(fd), 0
		}
		if o.node.kind == kNull || o.node.kind == kFull {
			fd := p.k.newFD()
			p.fds[fd] = &ofd{node: o.node, flags: flags, path: o.path, ref: 1}
			return uintptr(fd), 0
		}
		at := fs.pathOf(o.node)
		if at == "" {
			return 0, syscall.ENOENT
		}
		base, path = "/", at
	}
	pl, e := fs.walk(base, path, !excl && flags&syscall.O_NOFOLLOW == 0)
	if e != 0 {
		return 0, e
	}
	acc := flags & 3
	n := pl.node
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return 0, syscall.ENOENT
		}
		if strings.HasSuffix(path, "/") {
			return 0, syscall.EISDIR
		}
		if !fs.may(pl.dir, 2) {
			return 0, syscall.EACCES
		}
		if fs.cap >= 0 && fs.used >= fs.cap && fs.cap == 0 {
			return 0, syscall.ENOSPC
		}
		n = fs.newInode(kFile, mode&0o777&^0o022)
		fs.change(nschange{pl.dir, pl.name, n})
	} else {
		if excl {
			return 0, syscall.EEXIST
		}
		if n.kind == kLink {
			return 0, syscall.ELOOP
		}
		if flags&syscall.O_DIRECTORY != 0 && n.kind != kDir {
			return 0, syscall.ENOTDIR
		}
		if n.kind == kDir && (acc != 0 || flags&syscall.O_CREAT != 0) {
			return 0, syscall.EISDIR
		}
		if acc != syscall.O_WRONLY && !fs.may(n, 4) || acc != syscall.O_RDONLY && !fs.may(n, 2) {
			return 0, syscall.EACCES
		}
		if flags&syscall.O_TRUNC != 0 && n.kind == kFile && acc != 0 {
			fs.setData(n, nil)
		}
	}
	if acc != 0 && n.kind == kFile {
		p.opens = append(p.opens, pl.path)
	}
	fd := p.k.newFD()
	p.fds[fd] = &ofd{node: n, flags: flags, path: pl.path, ref: 1}
	return uintptr(fd), 0
}

func (p *proc) doRename(b1, p1, b2, p2 string, fl uintptr) syscall.Errno {
	fs := p.k.fs
	src, e := fs.walk(b1, p1, false)
	if e != 0 {
		return e
	}
	if src.node == nil {
		return syscall.ENOENT
	}
	dst, e := fs.walk(b2, p2, false)
	if e != 0 {
		return e
	}
	if src.node.dev != dst.dir.dev {
		return syscall.EXDEV
	}
	if !fs.may(src.dir, 2) || !fs.may(dst.dir, 2) {
		return syscall.EACCES
	}
	if dst.node != nil {
		if fl&1 != 0 { // RENAME_NOREPLACE
			return syscall.EEXIST
		}
		if dst.node == src.node {
			return 0
		}
		if dst.node.kind == kDir && src.node.kind != kDir {
			return syscall.EISDIR
		}
		if dst.node.kind != kDir && src.node.kind == kDir {
			return syscall.ENOTDIR
		}
		if dst.node.kind == kDir && len(dst.node.ents) > 0 {
			return syscall.ENOTEMPTY
		}
		fs.drop(dst.node)
	}
	fs.change(nschange{src.dir, src.name, nil}, nschange{dst.dir, dst.name, src.node})
	return 0
}

func (p *proc) doRead(trap, fd, buf, n, off uintptr, drip int) (uintptr, syscall.Errno) {
	o := p.fds[p.mapFD(int(fd))]
	if o == nil || o.flags&3 == syscall.O_WRONLY || o.sink != nil || o.wr != nil {
		return 0, syscall.EBADF
	}
	if drip > 0 && n > uintptr(drip) {
		n = uintptr(drip)
		p.k.stats.Short++
	}
	b := mem(buf, n)
	if o.rd != nil {
		if trap == syscall.SYS_PREAD64 {
			return 0, syscall.ESPIPE
		}
		for len(o.rd.buf) == 0 && o.rd.writers > 0 {
			p.block(func() bool { return len(o.rd.buf) > 0 || o.rd.writers == 0 })
		}
		c := copy(b, o.rd.buf)
		o.rd.buf = o.rd.buf[c:]
		return uintptr(c), 0
	}
	switch o.node.kind {
	case kDir:
		return 0, syscall.EISDIR
	case kNull:
		return 0, 0
	case kFull:
		for i := range b {
			b[i] = 0
		}
		return n, 0
	}
	at := o.off
	if trap == syscall.SYS_PREAD64 {
		at = int64(off)
	}
	if at >= int64(len(o.node.data)) {
		return 0, 0
	}
	c := copy(b, o.node.data[at:])
	if trap != syscall.SYS_PREAD64 {
		o.off += int64(c)
	}
	return uintptr(c), 0
}

func (p *proc) doWrite(trap, fd, buf, n, off uintptr, drip int) (uintptr, syscall.Errno) {
	o := p.fds[p.mapFD(int(fd))]
	if o == nil || o.flags&3 == syscall.O_RDONLY {
		return 0, syscall.EBADF
	}
	if drip > 0 && n > uintptr(drip) {
		n = uintptr(drip)
		p.k.stats.Short++
	}
	b := mem(buf, n)
	if n == 0 {
		return 0, 0
	}
	switch {
	case o.sink != nil:
		*o.sink = append(*o.sink, b...)
		return n, 0
	case o.wr != nil:
		wrote := 0
		for {
			if o.wr.readers == 0 {
				if p.mapFD(int(fd)) == p.std[1] || p.mapFD(int(fd)) == p.std[2] {
					p.k.stats.fault("sigpipe")
					p.die("PIPE")
				}
				return 0, syscall.EPIPE
			}
			space := o.wr.cap - len(o.wr.buf)
			if space > 0 {
				c := space
				if c > len(b)-wrote {
					c = len(b) - wrote
				}
				o.wr.buf = append(o.wr.buf, b[wrote:wrote+c]...)
				o.wr.all = append(o.wr.all, b[wrote:wrote+c]...)
				wrote += c
			}
			if wrote == len(b) {
				return uintptr(wrote), 0
			}
			p.block(func() bool { return len(o.wr.buf) < o.wr.cap || o.wr.readers == 0 })
		}
	}
	switch o.node.kind {
	case kNull:
		return n, 0
	case kFull:
		p.k.stats.fault("devfull")
		return 0, syscall.ENOSPC
	case kDir:
		return 0, syscall.EISDIR
	}
	fs := p.k.fs
	node := o.node
	at := o.off
	if trap == syscall.SYS_PWRITE64 {
		at = int64(off)
	} else if o.flags&syscall.O_APPEND != 0 {
		at = int64(len(node.data))
	}
	end := at + int64(len(b))
	if grow := end - int64(len(node.data)); fs.cap >= 0 && grow > 0 && fs.used+grow > fs.cap {
		room := fs.cap - fs.used
		if room < 0 {
			room = 0
		}
		p.k.stats.fault("enospc-real")
		can := int64(len(node.data)) + room - at
		if can <= 0 {
			return 0, syscall.ENOSPC
		}
		b = b[:can]
		end = at + can
	}
	if end > 1<<28 {
		return 0, syscall.EFBIG
	}
	d := node.data
	if int64(len(d)) < end {
		if int64(cap(d)) < end {
			nd := make([]byte, end, end+end/4+512)
			copy(nd, d)
			d = nd
		} else {
			d = d[:end]
		}
		fs.used += end - int64(len(node.data))
	}
	copy(d[at:end], b)
	node.data = d
	node.dirty = true
	node.mtime = p.k.now
	if trap != syscall.SYS_PWRITE64 {
		o.off = end
	}
	return uintptr(len(b)), 0
}

// ---- scheduling ----

func (p *proc) yield() { p.yieldTo(false) }

func (p *proc) yieldTo(other bool) {
	k := p.k
	if len(k.procs) == 1 {
		return
	}
	next := k.pick(p, other)
	if next == p || next == nil {
		return
	}
	k.switchFrom(p, next)
}

// block suspends p until cond holds.
func (p *proc) block(cond func() bool) {
	k := p.k
	if cond() {
		return
	}
	n := len(p.conds)
	p.conds = append(p.conds, cond)
	defer func() { // (they may end in any order)
		p.conds[n] = nil
		for l := len(p.conds); l > 0 && p.conds[l-1] == nil; l-- {
			p.conds = p.conds[:l-1]
		}
	}()
	for !cond() {
		if p.kids { // its other goroutines may go on
			last, idle := k.prog, 0
			limit := 8
			if rs := k.runnable(); len(rs) == 0 || len(rs) == 1 && rs[0] == p {
				limit = 300
			}
			for idle < limit && !cond() {
				p.siblings(1)
				if idle++; k.prog != last {
					last, idle = k.prog, 0
				}
			}
			if cond() {
				break
			}
		}
		p.blocked = func() bool {
			for _, c := range p.conds {
				if c != nil && c() {
					return true
				}
			}
			return false
		}
		next := k.pick(p, true)
		if next == nil {
			p.status.Block = true
			p.dead = true
			p.exitG()
		}
		if next == p {
			p.blocked = nil
			if p.kids {
				p.siblings(1)
				continue
			}
			break
		}
		k.switchFrom(p, next)
		p.blocked = nil
	}
	p.blocked = nil
}

// ---- goroutines of the program under test ----
//
// They run on the Go scheduler, of which there is one thread and which neither
// preempts nor draws unseeded random numbers here; what they do is put into an order by
// the seeded choices below. Only goroutines of the running process get past a gate.

// gate holds the calling goroutine of p until p is the process that runs.
func (p *proc) gate() {
	for {
		if p.done {
			select {} // the process is gone
		}
		if p.k.cur == p {
			if p.dead && p.kids && runtime.SimG() != p.g {
				p.ended()
				select {}
			}
			return
		}
		ch := make(chan struct{}, 1)
		p.waiters = append(p.waiters, ch)
		raceOff()
		<-ch
		raceOn()
	}
}

// exitG ends the process from the calling goroutine.
func (p *proc) exitG() {
	if runtime.SimG() == p.g {
		runtime.Goexit()
	}
	p.ended()
	select {}
}

// siblings lets the other goroutines of p go on.
func (p *proc) siblings(n int) {
	if !p.kids {
		return
	}
	for i := 0; i < n; i++ {
		runtime.Gosched()
		p.gate()
	}
}

// jitter may let other goroutines of p go first.
func (p *proc) jitter(big bool) {
	if !p.kids || p.dead {
		return
	}
	p.jit ^= p.jit << 13
	p.jit ^= p.jit >> 7
	p.jit ^= p.jit << 17
	m := p.jitMask
	if big {
		m &= 1
	}
	if p.jit>>20&m == 0 {
		p.siblings(1 + int(p.jit>>50&1))
	}
}

func slow() bool {
	p := curTask()
	if p == nil {
		return false
	}
	p.gate()
	p.k.prog++
	p.jitter(false)
	return true
}

func spawned() {
	p := curTask()
	if p == nil || p.done {
		return
	}
	if !p.kids {
		p.kids = true
		tick.Multi = true
		p.jit = p.seed | 1
		p.jitMask = [4]uint64{1<<40 - 1, 63, 7, 1}[p.seed>>33&3]
		p.k.stats.probe("goroutines of the program")
	}
	p.jitter(true)
}

// watch ends or puts aside a process all of whose goroutines wait for something
// only the Go runtime knows about (a channel, a WaitGroup).
func (k *kernel) watch(over *bool) {
	type mark struct {
		p                        *proc
		prog, steps, nsys, swtch int64
	}
	var last mark
	var since time.Time
	idle := 0
	for !*over {
		runtime.Gosched()
		c := k.cur
		if c == nil || c.done {
			continue
		}
		m := mark{c, k.prog, c.ctx.Steps, int64(c.nsys), int64(k.stats.Switches)}
		if m != last {
			last, idle = m, 0
			continue
		}
		idle++
		if idle == 2000 {
			since = time.Now()
		}
		if idle > 2000 && idle%500 == 0 && time.Since(since) > 200*time.Millisecond {
			idle = 0
			k.unstick(c)
		}
	}
}

func (k *kernel) unstick(p *proc) {
	k.stats.probe("stuck in the Go runtime")
	if p.dead {
		p.ended()
		return
	}
	tick.Multi = true
	p.native = true
	p.blocked = func() bool { return len(p.waiters) > 0 }
	next := k.pick(p, true)
	if next == nil || next == p {
		p.dead = true
		p.status.Block = true
		p.ended()
		return
	}
	p.save()
	k.resume(next)
}

func (k *kernel) runnable() []*proc {
	var rs []*proc
	for _, q := range k.procs {
		if q.done {
			continue
		}
		if q.dead || q.blocked == nil || q.blocked() {
			rs = append(rs, q)
		}
	}
	return rs
}

// pick chooses who runs next; with other, the current process only if it is
// the only one. The choice is the next byte of the plan's schedule; when the
// schedule is used up the current process goes on until it ends or blocks.
func (k *kernel) pick(cur *proc, other bool) *proc {
	rs := k.runnable()
	if len(rs) == 0 {
		return nil
	}
	if k.noWaiters {
		var free []*proc
		for _, q := range rs {
			if !q.lockWait {
				free = append(free, q)
			}
		}
		if len(free) > 0 {
			rs = free
		}
	}
	var cand []*proc
	curOK := false
	for _, q := range rs {
		if q == cur {
			curOK = true
			if other && len(rs) > 1 {
				continue
			}
		}
		cand = append(cand, q)
	}
	if k.schedAt < len(k.sched) {
		b := k.sched[k.schedAt]
		k.schedAt++
		return cand[int(b)%len(cand)]
	}
	if curOK && !other {
		return cur
	}
	return cand[0]
}

func (k *kernel) switchFrom(p, next *proc) {
	p.save()
	k.stats.Switches++
	k.resume(next)
	p.gate()
	if p.dead {
		p.exitG()
	}
}

func (k *kernel) resume(next *proc) {
	k.cur = next
	if len(k.runs) < 4096 {
		k.runs = append(k.runs, byte(next.id))
	}
	next.restore()
	if next.native {
		next.native = false
		next.blocked = nil
	}
	ws := next.waiters
	next.waiters = nil
	if next.dead && len(ws) == 0 {
		next.ended() // none of its goroutines is there to do it
		return
	}
	raceOff()
	for _, ch := range ws {
		ch <- struct{}{}
	}
	raceOn()
}

func (p *proc) save() {
	p.rand = runtime.SimRandState()
	if !p.k.shared() {
		p.globals = saveVars(p.globals)
	}
}

// shared reports whether the tasks are threads of one process.
func (k *kernel) shared() bool { return len(k.procs) > 0 && k.procs[0].body != nil }

func (p *proc) restore() {
	tick.Cur = &p.ctx
	runtime.SimSeedRand(p.rand)
	if !p.k.shared() {
		restoreVars(p.globals)
		os.Args = p.args
		os.Stdin, os.Stdout, os.Stderr = p.files[0], p.files[1], p.files[2]
	}
}

// ended runs on p's goroutine when it is over.
func (p *proc) ended() {
	k := p.k
	if p.done {
		return
	}
	if k.cur != p {
		p.gate()
	}
	p.done = true
	p.dead = true
	raceLeave()
	for _, fd := range sortedInts(p.fds) {
		p.fds[fd].close()
		delete(p.fds, fd)
	}
	tick.Cur = nil
	if runtime.SimG() == p.g {
		runtime.SimSetTask(nil)
	}
	next := k.pick(p, true)
	if next == nil {
		// Everyone left is blocked forever, or all are done.
		k.event <- 1
		return
	}
	k.resume(next)
}

func sortedInts[V any](m map[int]V) []int {
	var ks []int
	for x := range m {
		ks = append(ks, x)
	}
	sort.Ints(ks)
	return ks
}

func (p *proc) start(mainFn func()) {
	p.ctx.Yield = func(c *tick.Ctx) {
		if p.dead {
			return
		}
		p.yield()
		c.YieldIn = p.nextSlice()
	}
	p.ctx.Over = func(c *tick.Ctx, why string) {
		if !p.dead {
			p.dead = true
			p.status.Hung = why
		}
		c.Budget = 1 << 62
		c.MaxDepth = 1 << 60
		p.exitG()
	}
	go func() {
		runtime.SimSetTask(unsafe.Pointer(p))
		p.g = runtime.SimG()
		p.gate()
		defer p.ended()
		defer func() {
			if r := recover(); r != nil {
				if !p.dead {
					p.status.Panic = fmt.Sprint(r)
					p.status.Code = 2
				}
				p.dead = true
			}
		}()
		if p.dead {
			return
		}
		if p.body != nil {
			p.body(p)
		} else {
			mainFn()
		}
	}()
	for len(p.waiters) == 0 {
		runtime.Gosched()
	}
}

func (p *proc) nextSlice() int64 {
	if p.spec.Slice == nil || len(p.spec.Slice) == 0 {
		return -1
	}
	if p.spec.sliceAt >= len(p.spec.Slice) {
		return -1
	}
	n := p.spec.Slice[p.spec.sliceAt]
	p.spec.sliceAt++
	return int64(n)
}
