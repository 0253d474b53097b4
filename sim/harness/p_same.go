//go:build go1.21

package harness

import (
	"bytes"
	"fmt"
	"os"
	"regexp"
	"strings"
	"syscall"
)

// C12: the same command in several worlds that differ only in what must not matter.

// worldVar is one such difference; a Step holds one, in Arg and Procs[0].
func (r *rng) variation(p *Plan, ps ProcSpec) Step {
	s := Step{Op: "vary", Arg: map[string]int{}}
	q := ps
	q.Args = append([]string(nil), ps.Args...)
	q.Faults = nil
	s.Arg["rand"] = int(r.next() >> 2)
	if r.chance(1, 2) {
		s.Arg["clock"] = int(pickOf[int64](r, 0, 1, 946684799_000000000, 4102444800_000000000, 1<<61, 1709164800_000000000, int64(r.next()>>3)))
	}
	if r.chance(1, 2) {
		s.Arg["pid"] = r.rang(2, 4_000_000)
	}
	if r.chance(1, 2) {
		s.Arg["mtime"] = int(r.next() >> 3)
	}
	if r.chance(1, 3) {
		s.Arg["env"] = r.rang(1, 1000)
	}
	if r.chance(1, 3) {
		s.Arg["strays"] = r.rang(1, 1000)
	}
	if r.chance(1, 3) { // another working directory
		q.Cwd = pickOf(r, "/", "/home/u", "/work/sub", "/home/v.po", "/home/v.do", "/home")
		c := parseCmd(q.Args)
		for _, i := range c.pathArgs() {
			if strings.HasPrefix(q.Args[i], "/") {
				continue
			}
			pre := "/work/"
			if r.chance(1, 2) {
				// /home/v.* are links to /work
				pre = map[string]string{"/": pickOf(r, "work/", "home/v.hdv/"), "/home/u": pickOf(r, "../../work/", "../v.po/", "../v.do/", "/home/v.dsk/"), "/work/sub": "../", "/home": pickOf(r, "v.po/", "v.do/", "v.hdv/")}[q.Cwd]
			}
			q.Args[i] = pre + q.Args[i]
		}
	}
	if r.chance(1, 3) {
		v := pickOf(r, "-v", "-vv", "-vvv", "-vvvv", "-vv")
		if r.chance(1, 2) {
			q.Args = append([]string{v}, q.Args...)
		} else {
			q.Args = append(q.Args, v)
		}
		s.Arg["verbose"] = 1
	}
	if r.chance(1, 3) {
		r.addFaults(&q, 100, 0, 0, 60)
	}
	s.Procs = []ProcSpec{q}
	if r.chance(1, 3) { // neighbours working on something else
		for n := r.rang(1, 2); n > 0; n-- {
			nb := pickOf(r,
				[]string{"ls", "/other/x.dsk"}, []string{"dump", "/other/x.dsk", "FSUPERMON"}, []string{"put", "-f", "/other/x.dsk", "FNB", "/other/src"},
				[]string{"reorder", "/other/x.dsk", "/other/y.po", "-f"}, []string{"rm", "-f", "/other/x.dsk", "FNB"}, []string{"filetypes"}, []string{"mksd", "/other/z.dsk", "/other/src"})
			s.Procs = append(s.Procs, ProcSpec{Args: nb})
		}
		s.Sched = r.sched(80)
	}
	return s
}

// repoEnv: environment variables that the repository's source names (found by mkoverlay).
var repoEnv []string

// repoEnvValues: string literals near the places that read them.
var repoEnvValues []string

func sameGen(r *rng) *Plan {
	p := &Plan{Params: map[string]int{}}
	for _, d := range []string{"/home/u", "/work/sub"} {
		p.Files = append(p.Files, FileSpec{Path: d, Dir: true, Mode: 0o755})
	}
	for _, l := range []string{"po", "do", "dsk", "hdv"} {
		p.Files = append(p.Files, FileSpec{Path: "/home/v." + l, Link: "/work"})
	}
	p.Files = append(p.Files, FileSpec{Path: "/other/x.dsk", Image: &Image{Kind: "real", Name: "Super-Mon-2.0.dsk"}}, FileSpec{Path: "/other/src", Bytes: &Blob{Kind: "rand", Seed: 7, Len: 700}})
	var ps ProcSpec
	switch k := r.intn(16); {
	case k < 4:
		ps, _ = r.refused(p)
	case k < 6:
		ps = r.ambiguous(p)
	default:
		ps = r.command(p)
	}
	if r.chance(1, 3) {
		for i := range p.Files {
			im := p.Files[i].Image
			if im == nil || im.Kind == "rand" || im.Kind == "blank" || p.Files[i].Path == "/other/x.dsk" {
				continue
			}
			r.damage(im)
		}
	}
	p.Steps = append(p.Steps, Step{Op: "base", Procs: []ProcSpec{ps}})
	for n := r.rang(3, 4); n > 0; n-- {
		p.Steps = append(p.Steps, r.variation(p, ps))
	}
	return p
}

// ambiguous is a command on a disk on which what it names exists more than once.
func (r *rng) ambiguous(p *Plan) ProcSpec {
	switch r.intn(3) {
	case 0:
		im := r.proImage(false)
		nm := r.proFileName()
		fs := &im.Files
		path := nm
		if r.chance(1, 2) {
			for i := range im.Files {
				if f := &im.Files[i]; f.Dir && !f.Deleted {
					fs, path = &f.Kids, f.Name+"/"+nm
					break
				}
			}
		}
		var dirs []ImgFile
		for n := r.rang(2, 4); n > 0; n-- {
			d := ImgFile{Name: nm, Dir: true, Num: 1}
			for k := r.rang(0, 3); k > 0; k-- {
				d.Kids = append(d.Kids, ImgFile{Name: r.proFileName(), Type: 4, Len: 5})
			}
			dirs = append(dirs, d)
		}
		*fs = append(dirs, *fs...)
		p.need(FileSpec{Path: "/work/vol.po", Image: im})
		return ProcSpec{Args: []string{"ls", "vol.po", path}}
	case 1:
		im := r.dosImage()
		for len(im.Files) < 4 {
			im.Files = append(im.Files, ImgFile{Name: r.dosFileName(), Type: 4, Len: 100 + len(im.Files), Seed: r.next() >> 40})
		}
		nm := im.Files[0].Name
		for n := r.rang(1, 3); n > 0; n-- {
			im.Files[1+r.intn(len(im.Files)-1)].Name = nm
		}
		p.need(FileSpec{Path: "/work/dos.dsk", Image: im})
		return ProcSpec{Args: []string{"dump", "dos.dsk", nm}}
	}
	im := r.nakImage(1)
	p.need(FileSpec{Path: "/work/nak.dsk", Image: im})
	var nums []int
	for i := range im.Files {
		nums = append(nums, im.Files[i].Num)
	}
	if im.Kind == "nakedos" && im.P["nosyms"] == 0 && len(nums) > 0 {
		for n := r.rang(2, 6); n > 0; n-- {
			im.Syms = append(im.Syms, ImgSym{Name: fmt.Sprintf("ALIAS%d", n), Addr: 0xdf00 + nums[r.intn(len(nums))]})
		}
	}
	if r.chance(1, 2) {
		return ProcSpec{Args: []string{"ls", "nak.dsk"}}
	}
	return ProcSpec{Args: r.nakCmd(p, "nak.dsk", nil, false)}
}

// tempDigits: the names of temporary files are random.
var tempDigits = regexp.MustCompile(`[0-9]{5,}`)

// sameFiles: do two commands name the same files?
func (w *World) sameFiles(a, b *ProcSpec) bool {
	at := func(ps *ProcSpec) (out []place, errs []syscall.Errno) {
		cwd := ps.Cwd
		if cwd == "" {
			cwd = "/work"
		}
		c := parseCmd(ps.Args)
		for _, i := range c.pathArgs() {
			pl, e := w.fs().walk(cwd, ps.Args[i], false)
			out, errs = append(out, pl), append(errs, e)
		}
		return
	}
	x, ex := at(a)
	y, ey := at(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if ex[i] != ey[i] || ex[i] == 0 && (x[i].dir != y[i].dir || x[i].name != y[i].name || x[i].node != y[i].node) {
			return false
		}
	}
	if d := b.Cwd; d != "" {
		if n, e := w.fs().walk("/", d, true); e != 0 || n.node == nil || n.node.kind != kDir {
			return false
		}
	}
	return true
}

func sameExec(w *World) *Violation {
	var base ProcSpec
	for i := range w.p.Steps {
		if w.p.Steps[i].Op == "base" && len(w.p.Steps[i].Procs) > 0 {
			base = w.p.Steps[i].Procs[0]
		}
	}
	if base.Args == nil {
		w.trivial = true
		return nil
	}
	f := w.fork()
	ref := f.proc(base)
	want := f.fs().snapshot("/")
	w.join(f, "base")
	if ref.St.Hung != "" || ref.St.Block {
		w.trivial = true // C11's concern
		return nil
	}
	if ref.St.ok() {
		w.st.probe("base-ok")
	} else {
		w.st.probe("base-refused")
	}
	for i := range w.p.Steps {
		s := &w.p.Steps[i]
		if s.Op != "vary" || len(s.Procs) == 0 {
			continue
		}
		ps := &s.Procs[0]
		if !w.sameFiles(&base, ps) {
			continue // (minimised too far)
		}
		// In the same world without -v: nothing of what it says is missing with it.
		var quiet *World
		if s.Arg["verbose"] == 1 && len(s.Procs) == 1 && i%2 == 0 {
			quiet = w.fork()
		}
		f := w.fork()
		q := *w.p
		q.Rand = uint64(s.Arg["rand"])
		f.p = &q
		if c, ok := s.Arg["clock"]; ok {
			f.k.now = int64(c)
			w.st.probe("vary-clock")
		}
		if c := s.Arg["pid"]; c != 0 {
			f.k.nextPid = c
			w.st.probe("vary-pid")
		}
		if c := s.Arg["mtime"]; c != 0 {
			r := newRng(uint64(c))
			f.fs().touchAll(r)
			w.st.probe("vary-mtime")
		}
		stray := map[string]bool{}
		if c := s.Arg["strays"]; c != 0 {
			// Files the command has nothing to do with.
			r := newRng(uint64(c))
			for _, n := range []string{"zz.tmp", ".zz.dsk.12345", "zz.dsk", "zz.po", "diskii.cfg", ".diskii", "README"} {
				if r.chance(1, 2) && f.fs().node("/work/"+n) == nil {
					f.fs().put("/work/"+n, r.bytes(r.intn(300)), 0o600)
					stray["/work/"+n] = true
				}
			}
			f.fs().settle()
			w.st.probe("vary-strays")
		}
		strays := f.fs().snapshot("/")
		var env []string
		if c := s.Arg["env"]; c != 0 {
			r := newRng(uint64(c))
			for _, kv := range []string{"HOME=/home/u", "TMPDIR=/work/sub", "TZ=Asia/Tokyo", pickOf(r, "LANG=de_DE.UTF-8", "LANG=C", "LANG=en_US.UTF-8"), pickOf(r, "LC_ALL=tr_TR", "LC_ALL=C", "LC_ALL=POSIX"), "TERM=dumb", "COLUMNS=20", "DEBUG=1", "DISKII_ORDER=po", "USER=root", "PWD=/elsewhere"} {
				if r.chance(1, 2) {
					env = append(env, kv)
				}
			}
			for _, n := range repoEnv {
				if n != "PATH" && len(repoEnvValues) > 0 && r.chance(1, 3) {
					env = append(env, n+"="+repoEnvValues[r.intn(len(repoEnvValues))])
					continue
				}
				if n != "PATH" && r.chance(1, 2) {
					env = append(env, n+"="+pickOf(r, "1", "0", "po", "do", ".po", ".do", "PO", "true", "prodos", "dos3", "nakedos", "/tmp", "/nowhere", "x", "B", "T", "3", "0x2000", ""))
				}
			}
			w.st.probe("vary-env")
		}
		for _, kv := range env {
			k := strings.Index(kv, "=")
			os.Setenv(kv[:k], kv[k+1:])
		}
		res := f.run(&Step{Procs: s.Procs, Sched: s.Sched})[0]
		for _, kv := range env {
			os.Unsetenv(kv[:strings.Index(kv, "=")])
		}
		after := f.fs().snapshot("/")
		w.join(f, fmt.Sprintf("vary%d", i))
		if len(s.Procs) > 1 {
			w.st.probe("vary-neighbours")
		}
		if s.Arg["verbose"] == 1 {
			w.st.probe("vary-verbosity")
		}
		if ps.Cwd != "" {
			w.st.probe("vary-cwd")
		}
		if ps.Drip > 0 || len(ps.Faults) > 0 {
			w.st.probe("vary-chunking")
		}
		desc := fmt.Sprintf("diskii %s (in %s) against diskii %s, %s", strings.Join(base.Args, " "), ref.St, strings.Join(ps.Args, " "), descVary(s))
		if res.St.Panic != "" && ref.St.Panic != "" {
			continue
		}
		if res.St.Code != ref.St.Code || res.St.Signal != ref.St.Signal || res.St.clean() != ref.St.clean() {
			return viol("status", "%s: %s; stderr %s / %s", desc, res.St, cut(ref.Err, 200), cut(res.Err, 200))
		}
		if !bytes.Equal(res.Out, ref.Out) {
			return viol("output", "%s: standard output differs: %s", desc, diffText(ref.Out, res.Out))
		}
		if s.Arg["verbose"] == 0 && res.St.Code != 0 && len(res.Err) == 0 {
			return viol("silent", "%s: no message", desc)
		}
		if quiet != nil && res.St.Code != 0 && len(env) == 0 {
			quiet.p = &q
			t := *ps
			t.Faults, t.Drip = nil, 0
			t.Args = nil
			for _, a := range ps.Args {
				if strings.Trim(a, "v") != "-" || len(a) < 2 {
					t.Args = append(t.Args, a)
				}
			}
			plain := quiet.proc(t)
			w.join(quiet, fmt.Sprintf("quiet%d", i))
			rest := tempDigits.ReplaceAllString(string(res.Err), "#")
			for _, l := range strings.Split(strings.TrimRight(tempDigits.ReplaceAllString(string(plain.Err), "#"), "\n"), "\n") {
				k := strings.Index(rest, l)
				if k < 0 {
					return viol("verbosity", "%s: with -v the message %q is missing: %s", desc, l, cut(res.Err, 300))
				}
				rest = rest[k+len(l):]
			}
			w.st.probe("messages-compared")
		}
		if d := diffSnap(want, after, func(p string) bool { return stray[p] || strings.HasPrefix(p, "/other/") }); len(d) > 0 {
			return viol("files", "%s: the files afterwards differ: %s", desc, d[0])
		}
		for p := range stray {
			if after[p] != strays[p] {
				return viol("files", "%s: %s changed", desc, p)
			}
		}
	}
	return nil
}

func descVary(s *Step) string {
	var out []string
	for _, k := range sortedKeys(s.Arg) {
		out = append(out, fmt.Sprintf("%s=%d", k, s.Arg[k]))
	}
	if len(s.Procs) > 1 {
		out = append(out, fmt.Sprintf("%d neighbours", len(s.Procs)-1))
	}
	return "under " + strings.Join(out, " ")
}

// touchAll gives every file another age.
func (fs *vfs) touchAll(r *rng) {
	var walk func(d *inode)
	walk = func(d *inode) {
		for _, k := range sortedKeys(d.ents) {
			n := d.ents[k]
			n.mtime = int64(r.next() >> 2)
			if n.kind == kDir {
				walk(n)
			}
		}
	}
	walk(fs.root)
}

func init() {
	register(&Prop{ID: "C12", Gen: sameGen, Exec: sameExec, Quick: 9000, Deep: 400000, Must: []string{"base-ok", "base-refused", "vary-clock", "vary-pid", "vary-mtime", "vary-strays", "vary-env", "vary-neighbours", "vary-verbosity", "vary-cwd", "vary-chunking", "messages-compared"}, Stub: "the same command in the base world"})
}
