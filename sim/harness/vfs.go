//go:build go1.21

package harness

import (
	"bytes"
	"sort"
	"strings"
	"syscall"
)

// The virtual file system: inodes in memory, with a volatile state (what
// running processes see) and a durable state (what survives a power failure).

// rootDev is the device number of the simulated root file system.
const rootDev = 77

type inodeKind int

const (
	kFile inodeKind = iota
	kDir
	kLink
	kNull // /dev/null
	kFull // /dev/full
)

type inode struct {
	ino    uint64
	kind   inodeKind
	mode   uint32 // permission bits
	uid    uint32
	nlink  int
	dev    uint64 // the file system it lives on; 0 until it has a name
	mtime  int64
	data   []byte // kFile: volatile contents
	synced []byte // kFile: contents as of the last fsync (or creation)
	dirty  bool   // kFile: data may differ from synced
	target string // kLink
	ents   map[string]*inode
	dents  map[string]*inode // durable entries
	locks  map[*ofd]int      // flock
}

// nsop is one namespace change not yet known durable; changes inside one op are
// atomic (a rename is one op).
type nsop struct {
	changes []nschange
}

type nschange struct {
	dir  *inode
	name string
	to   *inode // nil: removed
}

type vfs struct {
	root    *inode
	nextIno uint64
	journal []nsop
	used    int64
	cap     int64 // bytes; <0: unlimited
	clock   func() int64
}

const simUID = 1000

func newVFS(clock func() int64) *vfs {
	fs := &vfs{cap: -1, clock: clock, nextIno: 2}
	fs.root = fs.newInode(kDir, 0o755)
	fs.root.dev = rootDev
	return fs
}

func (fs *vfs) newInode(k inodeKind, mode uint32) *inode {
	n := &inode{ino: fs.nextIno, kind: k, mode: mode, uid: simUID, nlink: 1, mtime: fs.clock()}
	fs.nextIno++
	if k == kDir {
		n.ents = map[string]*inode{}
		n.dents = map[string]*inode{}
	}
	return n
}

// lookup results.
type place struct {
	dir  *inode
	name string
	node *inode // nil if absent
	path string
}

func (fs *vfs) walk(cwd, path string, follow bool) (place, syscall.Errno) {
	return fs.walkN(cwd, path, follow, 0)
}

func (fs *vfs) walkN(cwd, path string, follow bool, depth int) (place, syscall.Errno) {
	if depth > 20 {
		return place{}, syscall.ELOOP
	}
	if path == "" {
		return place{}, syscall.ENOENT
	}
	full := path
	if !strings.HasPrefix(path, "/") {
		full = cwd + "/" + path
	}
	mustDir := strings.HasSuffix(path, "/")
	var parts []string
	for _, p := range strings.Split(full, "/") {
		if p == "" || p == "." {
			continue
		}
		if len(p) > 255 {
			return place{}, syscall.ENAMETOOLONG
		}
		parts = append(parts, p)
	}
	type lvl struct {
		n    *inode
		name string
	}
	stack := []lvl{{fs.root, ""}}
	cur := func() string {
		s := ""
		for _, l := range stack[1:] {
			s += "/" + l.name
		}
		if s == "" {
			return "/"
		}
		return s
	}
	if len(parts) == 0 {
		return place{dir: fs.root, name: ".", node: fs.root, path: "/"}, 0
	}
	for i, p := range parts {
		d := stack[len(stack)-1].n
		if d.kind != kDir {
			return place{}, syscall.ENOTDIR
		}
		if !fs.may(d, 1) {
			return place{}, syscall.EACCES
		}
		last := i == len(parts)-1
		if p == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			if last {
				n := stack[len(stack)-1].n
				return place{dir: n, name: ".", node: n, path: cur()}, 0
			}
			continue
		}
		n := d.ents[p]
		if n != nil && n.kind == kLink && (!last || follow || mustDir) {
			rest := strings.Join(parts[i+1:], "/")
			t := n.target
			if rest != "" {
				t += "/" + rest
			}
			if mustDir {
				t += "/"
			}
			return fs.walkN(cur(), t, follow, depth+1)
		}
		if last {
			if n != nil && mustDir && n.kind != kDir {
				return place{}, syscall.ENOTDIR
			}
			c := cur()
			if c == "/" {
				c = ""
			}
			return place{dir: d, name: p, node: n, path: c + "/" + p}, 0
		}
		if n == nil {
			return place{}, syscall.ENOENT
		}
		stack = append(stack, lvl{n, p})
	}
	return place{}, syscall.ENOENT
}

// may checks the owner's permission bits (want: 4 read, 2 write, 1 search).
func (fs *vfs) may(n *inode, want uint32) bool {
	bits := (n.mode >> 6) & 7
	if n.uid != simUID {
		bits = n.mode & 7
	}
	return bits&want == want
}

func (fs *vfs) change(cs ...nschange) {
	for _, c := range cs {
		if c.to == nil {
			delete(c.dir.ents, c.name)
		} else {
			c.dir.ents[c.name] = c.to
			if c.to.dev == 0 {
				// every directory at the top is a mount point of its own, as /tmp,
				// /home and a volume of disk images often are
				if c.to.dev = c.dir.dev; c.dir == fs.root && c.to.kind == kDir {
					c.to.dev = rootDev + c.to.ino
				}
			}
		}
		c.dir.mtime = fs.clock()
	}
	fs.journal = append(fs.journal, nsop{cs})
}

func (fs *vfs) setData(n *inode, data []byte) {
	fs.used += int64(len(data)) - int64(len(n.data))
	n.data = data
	n.dirty = true
	n.mtime = fs.clock()
}

func (fs *vfs) drop(n *inode) {
	n.nlink--
	if n.nlink == 0 && n.kind == kFile {
		fs.used -= int64(len(n.data)) // space is returned (open descriptors ignored)
	}
}

func (fs *vfs) syncFile(n *inode) {
	n.synced = append([]byte(nil), n.data...)
	n.dirty = false
}

// syncDir makes the changes to d durable (with every op that precedes them:
// metadata journals commit in order).
func (fs *vfs) syncDir(d *inode) {
	lastIdx := -1
	for i, op := range fs.journal {
		for _, c := range op.changes {
			if c.dir == d {
				lastIdx = i
			}
		}
	}
	fs.commit(lastIdx + 1)
}

func (fs *vfs) commit(k int) {
	for _, op := range fs.journal[:k] {
		for _, c := range op.changes {
			if c.to == nil {
				delete(c.dir.dents, c.name)
			} else {
				c.dir.dents[c.name] = c.to
			}
		}
	}
	fs.journal = append([]nsop(nil), fs.journal[k:]...)
}

// settle makes everything durable (used when a run starts).
func (fs *vfs) settle() {
	fs.commit(len(fs.journal))
	fs.each(fs.root, func(n *inode) {
		if n.kind == kFile {
			fs.syncFile(n)
		}
	})
}

func (fs *vfs) each(d *inode, f func(*inode)) {
	for _, nm := range sortedKeys(d.ents) {
		n := d.ents[nm]
		f(n)
		if n.kind == kDir {
			fs.each(n, f)
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// powerLoss replaces the volatile state by a state the disk may hold after
// losing power now: a prefix of the pending namespace changes, and for every
// file with unsynced data one of: the synced contents, the new contents, the
// new length with some 4 KiB pages of the old contents or zeroes, or a shorter
// prefix. choice drives the selection.
func (fs *vfs) powerLoss(r *rng) (what string) {
	k := 0
	if n := len(fs.journal); n > 0 {
		switch r.intn(4) {
		case 0:
			k = 0
		case 1, 2:
			k = n
		default:
			k = r.intn(n + 1)
		}
	}
	fs.commit(k)
	fs.journal = nil
	var rec func(d *inode)
	var kinds []string
	seen := map[*inode]bool{}
	rec = func(d *inode) {
		d.ents = map[string]*inode{}
		for _, nm := range sortedKeys(d.dents) {
			n := d.dents[nm]
			d.ents[nm] = n
			if seen[n] {
				continue
			}
			seen[n] = true
			if n.kind == kDir {
				rec(n)
			}
			if n.kind == kFile && n.dirty && !bytes.Equal(n.data, n.synced) {
				switch r.intn(5) {
				case 0:
					n.data = append([]byte(nil), n.synced...)
					kinds = append(kinds, "lost")
				case 1:
					kinds = append(kinds, "kept")
				case 2: // new length, pages mixed
					mix := make([]byte, len(n.data))
					for o := 0; o < len(mix); o += 4096 {
						e := o + 4096
						if e > len(mix) {
							e = len(mix)
						}
						switch r.intn(3) {
						case 0:
							copy(mix[o:e], n.data[o:e])
						case 1:
							if o < len(n.synced) {
								copy(mix[o:e], n.synced[o:])
							}
						}
					}
					n.data = mix
					kinds = append(kinds, "torn")
				case 3:
					n.data = append([]byte(nil), n.data[:r.intn(len(n.data)+1)]...)
					kinds = append(kinds, "prefix")
				default:
					n.data = make([]byte, len(n.data)) // allocated, never written
					kinds = append(kinds, "zeroed")
				}
			}
			if n.kind == kFile {
				fs.syncFile(n)
			}
		}
	}
	rec(fs.root)
	fs.used = 0
	fs.each(fs.root, func(n *inode) { fs.used += int64(len(n.data)) })
	return strings.Join(kinds, ",")
}

// ---- direct (harness side) access ----

func (fs *vfs) mkdirAll(path string) *inode {
	d := fs.root
	for _, p := range strings.Split(path, "/") {
		if p == "" {
			continue
		}
		n := d.ents[p]
		if n == nil {
			n = fs.newInode(kDir, 0o755)
			fs.change(nschange{d, p, n})
		}
		d = n
	}
	return d
}

func splitPath(p string) (string, string) {
	i := strings.LastIndex(p, "/")
	return p[:i], p[i+1:]
}

func (fs *vfs) put(path string, data []byte, mode uint32) {
	dn, nm := splitPath(path)
	d := fs.mkdirAll(dn)
	n := d.ents[nm]
	if n == nil || n.kind != kFile {
		n = fs.newInode(kFile, mode)
		fs.change(nschange{d, nm, n})
	}
	n.mode = mode
	fs.setData(n, append([]byte(nil), data...))
	fs.syncFile(n)
}

func (fs *vfs) symlink(path, target string) {
	dn, nm := splitPath(path)
	d := fs.mkdirAll(dn)
	n := fs.newInode(kLink, 0o777)
	n.target = target
	fs.change(nschange{d, nm, n})
}

func (fs *vfs) remove(path string) {
	dn, nm := splitPath(path)
	d := fs.mkdirAll(dn)
	if n := d.ents[nm]; n != nil {
		fs.drop(n)
		fs.change(nschange{d, nm, nil})
	}
}

func (fs *vfs) get(path string) ([]byte, bool) {
	pl, e := fs.walk("/", path, true)
	if e != 0 || pl.node == nil || pl.node.kind != kFile {
		return nil, false
	}
	return pl.node.data, true
}

func (fs *vfs) node(path string) *inode {
	pl, e := fs.walk("/", path, false)
	if e != 0 {
		return nil
	}
	return pl.node
}

// entry is one file of a snapshot.
type entry struct {
	Kind   inodeKind
	Mode   uint32
	Data   string
	Target string
}

// snapshot maps every path under dir to its observable state.
func (fs *vfs) snapshot(dir string) map[string]entry {
	out := map[string]entry{}
	var rec func(p string, d *inode)
	rec = func(p string, d *inode) {
		for nm, n := range d.ents {
			out[p+"/"+nm] = entry{n.kind, n.mode, string(n.data), n.target}
			if n.kind == kDir {
				rec(p+"/"+nm, n)
			}
		}
	}
	pl, e := fs.walk("/", dir, true)
	if e != 0 || pl.node == nil || pl.node.kind != kDir {
		return out
	}
	if dir == "/" {
		dir = ""
	}
	rec(dir, pl.node)
	return out
}

// diffSnap describes the first differences between two snapshots.
func diffSnap(a, b map[string]entry, ignore func(string) bool) []string {
	var out []string
	seen := map[string]bool{}
	for _, k := range sortedKeys(a) {
		seen[k] = true
		if ignore != nil && ignore(k) {
			continue
		}
		y, ok := b[k]
		x := a[k]
		switch {
		case !ok:
			out = append(out, k+" disappeared")
		case x.Kind != y.Kind || x.Target != y.Target:
			out = append(out, k+" changed kind or target")
		case x.Mode != y.Mode:
			out = append(out, k+" changed mode")
		case x.Data != y.Data:
			out = append(out, k+" changed contents ("+diffBytes([]byte(x.Data), []byte(y.Data))+")")
		}
	}
	for _, k := range sortedKeys(b) {
		if !seen[k] && (ignore == nil || !ignore(k)) {
			out = append(out, k+" appeared")
		}
	}
	return out
}
