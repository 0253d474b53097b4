//go:build go1.21

package harness

import (
	"fmt"
	"strings"
)

// clone copies a file system: volatile and durable state, pending changes.
func (fs *vfs) clone(clock func() int64) *vfs {
	c := &vfs{nextIno: fs.nextIno, used: fs.used, cap: fs.cap, clock: clock}
	m := map[*inode]*inode{}
	var cp func(n *inode) *inode
	cp = func(n *inode) *inode {
		if n == nil {
			return nil
		}
		if x := m[n]; x != nil {
			return x
		}
		x := &inode{}
		*x = *n
		m[n] = x
		if n.kind == kFile {
			x.data = append([]byte(nil), n.data...) // synced is never changed in place
		}
		if n.ents != nil {
			x.ents = map[string]*inode{}
			for k, v := range n.ents {
				x.ents[k] = cp(v)
			}
			x.dents = map[string]*inode{}
			for k, v := range n.dents {
				x.dents[k] = cp(v)
			}
		}
		return x
	}
	c.root = cp(fs.root)
	for _, op := range fs.journal {
		var o nsop
		for _, ch := range op.changes {
			o.changes = append(o.changes, nschange{cp(ch.dir), ch.name, cp(ch.to)})
		}
		c.journal = append(c.journal, o)
	}
	return c
}

// fork returns a world with a copy of the file system: what would happen if.
// Its commands count as simulated commands, its faults and schedules are its own.
func (w *World) fork() *World {
	f := *w
	f.k = &kernel{event: make(chan int), nextFD: firstVFD, nextPid: w.k.nextPid + 1000, stats: w.st, now: w.k.now, clockDt: w.k.clockDt, tracing: w.k.tracing}
	f.k.fs = w.k.fs.clone(func() int64 { return f.k.now })
	f.log = nil
	return &f
}

// join adds a fork's history to the log.
func (w *World) join(f *World, tag string) {
	for _, l := range f.log {
		w.log = append(w.log, tag+": "+l)
	}
	for _, l := range f.k.trace {
		w.k.trace = append(w.k.trace, tag+": "+l)
	}
	f.log, f.k.trace = nil, nil
}

// proc runs one process alone.
func (w *World) proc(ps ProcSpec) Result {
	return w.run(&Step{Procs: []ProcSpec{ps}})[0]
}

func plain(args ...string) ProcSpec { return ProcSpec{Args: args} }

// cmdline is a parsed command line (the harness's own reading of it).
type cmdline struct {
	verb  string
	force bool
	short bool
	raw   bool
	opts  map[string]string
	pos   []string
	at    []int // where in the arguments each of pos is
	bad   bool
}

func parseCmd(args []string) cmdline {
	c := cmdline{opts: map[string]string{}}
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "-f" || a == "--overwrite" || a == "--missing-ok":
			c.force = true
		case a == "-s":
			c.short = true
		case a == "-r" || a == "--raw":
			c.raw = true
		case strings.HasPrefix(a, "-v"):
			// verbosity
		case strings.HasPrefix(a, "--"):
			if k := strings.Index(a, "="); k > 0 {
				c.opts[a[2:k]] = a[k+1:]
			} else if i+1 < len(args) {
				c.opts[a[2:]] = args[i+1]
				i++
			}
		case c.verb == "":
			c.verb = a
		case c.verb == "nakedos" && a == "mkhello":
			c.verb = "mkhello"
		case c.verb == "applesoft" && a == "decode":
			c.verb = "decode"
		default:
			c.pos = append(c.pos, a)
			c.at = append(c.at, i)
		}
	}
	return c
}

func (c *cmdline) arg(i int) string {
	if i < len(c.pos) {
		return c.pos[i]
	}
	return ""
}

func abs(cwd, p string) string {
	if strings.HasPrefix(p, "/") {
		return p
	}
	return cwd + "/" + p
}

// uint16 of an option, decimal or 0x-hex.
func (c *cmdline) num(name string, def int) int {
	s, ok := c.opts[name]
	if !ok {
		return def
	}
	var n int
	if strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") {
		fmt.Sscanf(s[2:], "%x", &n)
	} else {
		fmt.Sscanf(s, "%d", &n)
	}
	return n
}

func cut(b []byte, n int) string {
	if len(b) > n {
		return fmt.Sprintf("%q...(%d bytes)", b[:n], len(b))
	}
	return fmt.Sprintf("%q", b)
}

var crashKinds = []string{"kill", "killafter", "killtorn", "power", "powerafter", "powertorn"}
var errorKinds = []string{"eio", "enospc", "eacces", "emfile", "full"}
var benignKinds = []string{"short", "eintr"}

// addFaults gives a process transfer limits and faults. weights: benign, errors, crashes
// are chances in 100.
func (r *rng) addFaults(ps *ProcSpec, benign, errs, crash, calls int) {
	if r.chance(benign, 100) {
		switch r.intn(4) {
		case 0:
			ps.Drip = pickOf(r, 1000, 4096, 255, 511, 30000, 7777, 143359)
		default:
			for n := r.rang(1, 4); n > 0; n-- {
				k := pickOf(r, benignKinds...)
				ps.Faults = append(ps.Faults, Fault{At: r.intn(calls), Kind: k, Arg: pickOf(r, 1, 2, 100, 4096, 143359, r.intn(143360))})
			}
		}
	}
	if r.chance(errs, 100) {
		k := pickOf(r, errorKinds...)
		ps.Faults = append(ps.Faults, Fault{At: r.intn(calls), Kind: k, Arg: pickOf(r, 0, 1, 5000, r.intn(143361))})
		if k == "eacces" {
			return // alone: without permission for the directory the image is written in place
		}
	}
	if r.chance(crash, 100) {
		k := pickOf(r, crashKinds...)
		ps.Faults = append(ps.Faults, Fault{At: r.intn(calls), Kind: k, Arg: r.intn(143361)})
	}
}

// aimed: two faults in three hit every kind of call equally often.
func (r *rng) aimed() int {
	if r.chance(1, 3) {
		return 0
	}
	return 1 + r.intn(1<<20)
}

// disturbed: did anything but benign faults hit it?
func (r *Result) disturbed() bool {
	if r.Shared {
		return true
	}
	for _, f := range r.Fired {
		if f.Kind != "short" && f.Kind != "eintr" && f.Kind != "stall" && f.Kind != "appear" {
			return true
		}
	}
	return false
}

// pathOf finds the path of a file.
func (fs *vfs) pathOf(n *inode) string {
	var find func(d *inode, at string) string
	find = func(d *inode, at string) string {
		for _, k := range sortedKeys(d.ents) {
			c := d.ents[k]
			if c == n {
				return at + "/" + k
			}
			if c.kind == kDir {
				if p := find(c, at+"/"+k); p != "" {
					return p
				}
			}
		}
		return ""
	}
	return find(fs.root, "")
}

// pathArgs says which arguments are names of files.
func (c *cmdline) pathArgs() (at []int) {
	var want []int
	switch c.verb {
	case "put":
		want = []int{0, 2}
	case "reorder", "mksd":
		want = []int{0, 1}
	default:
		want = []int{0}
	}
	for _, k := range want {
		if k < len(c.pos) && c.pos[k] != "-" {
			at = append(at, c.at[k])
		}
	}
	return
}

// bursts is a schedule in which processes run for a while before another gets a turn.
func (r *rng) bursts(n int) []int {
	var s []int
	mean := pickOf(r, 1, 2, 5, 12, 25)
	for len(s) < n {
		b := r.intn(256)
		for k := r.rang(1, 2*mean-1); k > 0; k-- {
			s = append(s, b)
		}
	}
	return s
}
