//go:build go1.21 && !verif_cli

package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/zellyn/diskii/basic"
	"github.com/zellyn/diskii/basic/applesoft"
	"github.com/zellyn/diskii/basic/integer"
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/types"
)

// C17: the library used by several goroutines of one process. The tasks of a
// step are threads: they share the package-level variables, and the scheduler
// may switch between them at every statement of the repository and at every
// system call. Each task's results are compared with those of the same task run
// alone in a new process.

func libGen(r *rng) *Plan {
	p := &Plan{Params: map[string]int{}}
	type disk struct {
		path  string
		sys   string
		names []string
		dirs  []string
		syms  []string
		ord   string
	}
	var disks []disk
	for n := r.rang(1, 4); n > 0; n-- {
		d := disk{}
		var im *Image
		ext := ""
		if n := len(disks); n > 0 && r.chance(1, 3) {
			// nearly the same as the previous one
			im = r.sibling(p.Files[n-1].Image)
			d = disks[n-1]
			ext = filepath.Ext(d.path)
			d.path = fmt.Sprintf("/work/i%d%s", n, ext)
			p.Files = append(p.Files, FileSpec{Path: d.path, Image: im})
			disks = append(disks, d)
			continue
		}
		switch r.intn(7) {
		case 0, 1:
			im, d.sys = r.dosImage(), "dos3"
			if len(im.Files) > 12 {
				im.Files = im.Files[:12]
			}
			_, ref := im.dos33()
			d.names = append(d.names, ref.names...)
		case 2, 3:
			hdv := r.chance(1, 3)
			im, d.sys = r.proImage(hdv), "prodos"
			d.dirs = im.dirs()
			ext = ".po"
			if hdv {
				ext = ".hdv"
				if im.P["blocks"] > 1000 {
					im.P["blocks"] = 1000
				}
			}
		default:
			im, d.sys = r.nakImage(1), "nakedos"
			for _, f := range im.Files {
				d.names = append(d.names, r.numName(f.Num))
			}
			for _, s := range im.Syms {
				if len(d.syms) < 12 {
					d.syms = append(d.syms, s.Name)
				}
			}
			d.names = append(d.names, d.syms...)
			d.names = append(d.names, "DF05", "03")
		}
		d.ord = "do"
		if ext == "" {
			ext = pickOf(r, ".do", ".dsk", "", ".po")
			if ext == ".po" {
				im.Order = "po"
			}
		}
		if ext == ".po" || ext == ".hdv" {
			d.ord = "po"
		}
		if r.chance(1, 5) {
			r.damage(im)
		}
		d.path = fmt.Sprintf("/work/i%d%s", len(disks), ext)
		p.Files = append(p.Files, FileSpec{Path: d.path, Image: im})
		disks = append(disks, d)
	}
	_, b := r.basProg(0x801)
	if r.chance(1, 2) {
		b = append([]byte{byte(len(b)), byte(len(b) >> 8)}, b...)
	}
	p.Files = append(p.Files, FileSpec{Path: "/work/p.bas", Bytes: &Blob{Kind: "hex", Hex: hexOf(b)}})
	var q []byte
	for n := r.rang(1, 12); n > 0; n-- {
		line := r.bytes(r.intn(30))
		for i := range line {
			if r.chance(1, 3) || line[i] == 1 {
				line[i] = byte(0xb0 + r.intn(10))
			}
		}
		q = append(append(append(q, byte(4+len(line)), byte(n), 0), line...), 1)
	}
	if r.chance(1, 2) {
		q = append([]byte{byte(len(q)), byte(len(q) >> 8)}, q...)
	}
	p.Files = append(p.Files, FileSpec{Path: "/work/i.bas", Bytes: &Blob{Kind: "hex", Hex: hexOf(q)}})

	s := Step{Op: "lib", Str: "lib"}
	same := r.chance(1, 3) // tasks mostly doing the same thing
	var first []string
	for t := r.rang(2, 4); t > 0; t-- {
		args := []string{"lib"}
		type slot struct {
			d    disk
			read bool
		}
		var slots []slot
		for n := r.rang(2, 7); n > 0; n-- {
			if len(slots) == 0 || r.chance(1, 6) {
				d := disks[r.intn(len(disks))]
				mode := pickOf(r, "s", "p", "p", "f", "o")
				sys, ord := "auto", "auto"
				if r.chance(1, 3) {
					sys = d.sys
				}
				if r.chance(1, 3) {
					ord = d.ord
				}
				if r.chance(1, 12) {
					sys = pickOf(r, sysNames...)
				}
				args = append(args, strings.Join([]string{"open", d.path, mode, sys, ord}, "|"))
				slots = append(slots, slot{d, mode == "s" || mode == "o"})
				continue
			}
			i := r.intn(len(slots))
			sl := slots[i]
			name := func() string {
				if len(sl.d.names) == 0 {
					return "HELLO"
				}
				return strings.ReplaceAll(sl.d.names[r.intn(len(sl.d.names))], "|", "I")
			}
			op := []string{"", fmt.Sprint(i)}
			k := r.intn(13)
			if sl.read && (k == 3 || k == 4 || k == 5 || k == 6) {
				k = pickOf(r, 0, 2)
			}
			switch k {
			case 0:
				op[0] = "list"
			case 1:
				op[0] = "cat"
				if len(sl.d.dirs) > 0 && r.chance(3, 4) {
					op = append(op, sl.d.dirs[r.intn(len(sl.d.dirs))])
				} else {
					op = append(op, "")
				}
			case 2:
				op = append(op, name())
				op[0] = "get"
			case 3, 4:
				nm := name()
				if r.chance(1, 2) {
					nm = pickOf(r, "FNEW", "FNEW2", "0A:FTEN", "DF20", r.symName())
				}
				op = append(op, strings.ReplaceAll(nm, "|", "I"), fmt.Sprint(r.next()>>40), fmt.Sprint(r.intn(3000)), fmt.Sprint(r.intn(2)))
				op[0] = "put"
			case 5:
				op = append(op, name())
				op[0] = "del"
			case 6:
				op = append(op, fmt.Sprintf("/work/out%d-%d", t, len(args))+pickOf(r, ".dsk", ".po"), sl.d.ord)
				op[0] = "write"
			case 7:
				op[0] = "bytes"
			case 8:
				op = append(op, name())
				op[0] = "scrib"
			case 9:
				op[0] = "scribcat"
			case 10:
				op = []string{"swz", sl.d.path, pickOf(r, "s", "p"), pickOf(r, "do", "po", "raw")}
			case 11:
				op = []string{"app", "/work/p.bas", pickOf(r, "s", "p"), pickOf(r, "2049", "2049", "2049", "4096")}
			default:
				op = []string{"int", "/work/i.bas", pickOf(r, "s", "p")}
			}
			args = append(args, strings.Join(op, "|"))
		}
		if same && first != nil {
			args = append([]string(nil), first...)
			for i := range args { // output files are its own
				args[i] = strings.ReplaceAll(args[i], "/work/out", fmt.Sprintf("/work/out%d", t))
			}
		} else {
			first = args
		}
		ps := ProcSpec{Args: args}
		n, scale := pickOf(r, 20, 60, 200, 500), pickOf(r, 2, 12, 80, 700, 5000)
		if r.chance(1, 4) {
			ps.Slice = append(ps.Slice, r.intn(30000))
		}
		for ; n > 0; n-- {
			ps.Slice = append(ps.Slice, r.intn(scale))
		}
		r.addFaults(&ps, 30, 0, 0, 30)
		s.Procs = append(s.Procs, ps)
	}
	s.Sched = r.bursts(600)
	p.Steps = []Step{s}
	return p
}

// sibling is a copy of an image with a small difference.
func (r *rng) sibling(im *Image) *Image {
	b, _ := json.Marshal(im)
	x := &Image{}
	_ = json.Unmarshal(b, x)
	switch k := r.intn(4); {
	case k == 0 && len(x.Files) > 0:
		f := &x.Files[r.intn(len(x.Files))]
		f.Seed ^= 1 // other contents
	case k == 1 && len(x.Files) > 0:
		i := r.intn(len(x.Files))
		x.Files = append(x.Files[:i], x.Files[i+1:]...)
	case k == 2 && len(x.Syms) > 0:
		i := r.intn(len(x.Syms))
		x.Syms = append(x.Syms[:i], x.Syms[i+1:]...)
	default:
		x.Edits = append(x.Edits, Edit{Off: r.intn(143360), Hex: fmt.Sprintf("%02x", r.intn(256))})
	}
	return x
}

// badMark starts a complaint; no file name contains it.
const badMark = "\x01\x02BAD: "

// libTask is one goroutine: it performs the operations of args and returns what
// it got. in gives the input bytes several tasks read, ops the operators they
// only read from.
func libTask(p *proc, args []string, in map[string][]byte, priv map[string][]byte, ops map[string]types.Operator) {
	say := func(f string, a ...interface{}) { p.out = append(p.out, fmt.Sprintf(f, a...)...) }
	type slot struct {
		op  types.Operator
		ord types.DiskOrder
	}
	var slots []slot
	var got, kept []byte // the last input and what it was
	input := func(path, mode string) []byte {
		got = in[path]
		if mode != "s" {
			got = append([]byte(nil), priv[path]...)
		}
		kept = priv[path]
		return got
	}
	same := func(what string) {
		if !bytes.Equal(got, kept) {
			say(badMark+"%s changed its input\n", what)
		}
	}
	done := func(err error) {
		if err != nil {
			say("refused\n")
		} else {
			say("ok\n")
		}
	}
	file := func(f types.FileInfo) string {
		return fmt.Sprintf("%+v %d %x %d", f.Descriptor, len(f.Data), hash(f.Data), f.StartAddress)
	}
	for _, a := range args[1:] {
		f := append(strings.Split(a, "|"), "", "", "", "")
		say("%s: ", a)
		if f[0] == "open" {
			path, mode := f[1], f[2]
			var sl slot
			var err error
			switch mode {
			case "f":
				sl.op, sl.ord, err = disk.OpenFilename(path, types.DiskOrder(f[4]), f[3], factories(), 0)
			case "o":
				sl.op, sl.ord = ops[path], "do"
				if sl.op == nil {
					err = fmt.Errorf("none")
				}
			default:
				b := input(path, mode)
				var keep []byte
				if mode == "p" {
					keep = append(keep, b...)
				}
				sl.op, sl.ord, err = disk.OpenImage(b, path, types.DiskOrder(f[4]), f[3], factories(), 0)
				if mode == "p" && !bytes.Equal(b, keep) {
					say(badMark + "OpenImage changed its input\n")
				}
			}
			if err != nil {
				sl.op = nil
			} else {
				say("%s %s ", sl.op.Name(), sl.ord)
			}
			done(err)
			slots = append(slots, sl)
			continue
		}
		switch f[0] {
		case "swz":
			o, err := disk.Swizzle(input(f[1], f[2]), disk.LogicalToPhysicalByName[types.DiskOrder(f[3])])
			same("Swizzle")
			say("%x ", hash(o))
			done(err)
			continue
		case "app":
			loc, _ := strconv.Atoi(f[3])
			l, err := applesoft.Decode(input(f[1], f[2]), uint16(loc))
			same("applesoft.Decode")
			if err == nil {
				say("%x ", hash([]byte(l.String()+basic.ChevronControlCodes(l.String()))))
			}
			done(err)
			continue
		case "int":
			l, err := integer.Decode(input(f[1], f[2]))
			same("integer.Decode")
			if err == nil {
				say("%x ", hash([]byte(integer.ChevronControlCodes(l.String()))))
			}
			done(err)
			continue
		}
		n, _ := strconv.Atoi(f[1])
		if n >= len(slots) || slots[n].op == nil {
			say("no image\n")
			continue
		}
		op := slots[n].op
		switch f[0] {
		case "list":
			ds, err := op.Catalog("")
			for i, d := range ds {
				say("%+v;", d)
				if i < 4 && !op.HasSubdirs() {
					if fi, err := op.GetFile(d.Name); err == nil {
						say("%s;", file(fi))
					}
				}
			}
			done(err)
		case "cat":
			ds, err := op.Catalog(f[2])
			say("%+v ", ds)
			done(err)
		case "get":
			fi, err := op.GetFile(f[2])
			if err == nil {
				say("%s ", file(fi))
			}
			done(err)
		case "put":
			seed, _ := strconv.Atoi(f[3])
			size, _ := strconv.Atoi(f[4])
			data := newRng(uint64(seed)).bytes(size)
			keep := append([]byte(nil), data...)
			existed, err := op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: f[2], Length: size, Type: types.FiletypeBinary}, Data: data}, f[5] == "1")
			if !bytes.Equal(data, keep) {
				say(badMark + "PutFile changed its input\n")
			}
			before := hash(op.GetBytes())
			for i := range data {
				data[i] ^= 0x5a
			}
			if hash(op.GetBytes()) != before {
				say(badMark + "the image changes with the buffer given to PutFile\n")
			}
			say("%v %x ", existed, before)
			done(err)
		case "del":
			existed, err := op.Delete(f[2])
			say("%v %x ", existed, hash(op.GetBytes()))
			done(err)
		case "bytes":
			say("%x\n", hash(op.GetBytes()))
		case "write":
			err := disk.WriteBack(f[2], op, types.DiskOrder(f[3]), false)
			b, rerr := os.ReadFile(f[2])
			say("%d %x %v ", len(b), hash(b), rerr == nil)
			done(err)
		case "scrib":
			before := hash(op.GetBytes())
			fi, err := op.GetFile(f[2])
			if err != nil {
				done(err)
				continue
			}
			was := file(fi)
			for i := range fi.Data {
				fi.Data[i] ^= 0xff
			}
			if hash(op.GetBytes()) != before {
				say(badMark + "the image changes with what GetFile returned\n")
			}
			if fi, err = op.GetFile(f[2]); err != nil || file(fi) != was {
				say(badMark+"GetFile returns something else after its result was changed (%v)\n", err)
			}
			say("%s ", was)
			done(nil)
		case "scribcat":
			before := hash(op.GetBytes())
			ds, err := op.Catalog("")
			if err != nil {
				done(err)
				continue
			}
			was := fmt.Sprintf("%+v", ds)
			for i := range ds {
				ds[i] = types.Descriptor{Name: "CHANGED"}
			}
			ds, err = op.Catalog("")
			if now := fmt.Sprintf("%+v", ds); err != nil || now != was {
				say(badMark+"Catalog returns something else after its result was changed: %s / %s\n", was, now)
			}
			if hash(op.GetBytes()) != before {
				say(badMark + "the image changes with what Catalog returned\n")
			}
			say("%s ", was)
			done(nil)
		}
	}
}

func libExec(w *World) *Violation {
	w.budget = 60_000_000
	inputs := func() map[string][]byte {
		m := map[string][]byte{}
		for _, f := range w.p.Files {
			m[f.Path] = w.read(f.Path)
		}
		return m
	}
	for i := range w.p.Steps {
		s := &w.p.Steps[i]
		if len(s.Procs) == 0 {
			continue
		}
		orig := inputs()
		play := func(w *World, procs []ProcSpec, sched []int) ([]Result, *Violation) {
			in, priv := inputs(), inputs()
			ops := map[string]types.Operator{}
			raw := map[string]uint64{}
			if strings.Contains(fmt.Sprint(procs), "|o|") {
				rs := w.run(&Step{Procs: []ProcSpec{{Args: []string{"open"}, body: func(p *proc) {
					for _, f := range w.p.Files {
						if f.Image == nil {
							continue
						}
						if op, _, err := disk.OpenImage(priv[f.Path], f.Path, types.DiskOrderAuto, "auto", factories(), 0); err == nil {
							ops[f.Path] = op
							raw[f.Path] = hash(op.GetBytes())
						}
					}
				}, Slice: []int{1 << 30}}}})
				if !rs[0].St.ok() {
					return nil, viol("died", "opening the images: %s", rs[0].St)
				}
				w.st.probe("shared operator")
			}
			t := Step{Sched: sched}
			for j := range procs {
				ps := procs[j]
				if len(ps.Slice) == 0 {
					ps.Slice = []int{1 << 30}
				}
				args := ps.Args
				ps.body = func(p *proc) { libTask(p, args, in, priv, ops) }
				t.Procs = append(t.Procs, ps)
			}
			rs := w.run(&t)
			if raceMode {
				w.st.probe("data races looked for")
			}
			if race := raceReport(); race != "" {
				return nil, viol("race", "data race between tasks on separate images or only reading: %s", race)
			}
			for path, b := range in {
				if !bytes.Equal(b, orig[path]) {
					return nil, viol("input", "the input bytes of %s, which the tasks only read, have changed: %s", path, diffBytes(orig[path], b))
				}
			}
			for path, op := range ops {
				if hash(op.GetBytes()) != raw[path] {
					return nil, viol("input", "the image %s, which the tasks only read, has changed", path)
				}
			}
			return rs, nil
		}
		var forks []*World
		for range s.Procs {
			forks = append(forks, w.fork())
		}
		sw := w.st.Switches
		rs, v := play(w, s.Procs, s.Sched)
		if v != nil {
			return v
		}
		if w.st.Switches > sw+4 {
			w.st.probe("interleaved")
		}
		for j, r := range rs {
			f := forks[j]
			alone := s.Procs[j]
			alone.Slice, alone.Faults, alone.Drip = nil, nil, 0
			ref, v := play(f, []ProcSpec{alone}, nil)
			if v != nil {
				v.Detail = "alone: " + v.Detail
				return v
			}
			w.join(f, "alone")
			desc := fmt.Sprintf("task %d of %d", j, len(rs))
			if !ref[0].St.ok() {
				return viol("died", "%s alone: %s", desc, ref[0].St)
			}
			if !r.St.ok() {
				return viol("died", "%s: %s, but alone it ends normally", desc, r.St)
			}
			if k := bytes.Index(r.Out, []byte(badMark)); k >= 0 {
				return viol("alias", "%s: %s", desc, lineAt(r.Out, k))
			}
			if !bytes.Equal(r.Out, ref[0].Out) {
				return viol("interference", "%s: result differs from the one it gets alone: %s", desc, lineDiff(r.Out, ref[0].Out))
			}
			for _, a := range alone.Args[1:] {
				w.st.probe("op " + strings.SplitN(a, "|", 2)[0])
			}
			if bytes.Contains(r.Out, []byte(" ok\n")) {
				w.st.probe("succeeded")
			}
		}
	}
	return nil
}

func lineAt(b []byte, k int) string {
	s := bytes.LastIndexByte(b[:k], '\n') + 1
	e := bytes.IndexByte(b[k:], '\n')
	if e < 0 {
		e = len(b) - k
	}
	return cut(b[s:k+e], 300)
}

func lineDiff(a, b []byte) string {
	x, y := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			o := ""
			if i < len(y) {
				o = y[i]
			}
			return cut([]byte(x[i]), 200) + " / alone: " + cut([]byte(o), 200)
		}
	}
	return "shorter"
}

func init() {
	register(&Prop{ID: "C17", Gen: libGen, Exec: libExec, Quick: 4000, Deep: 400000, Must: []string{"interleaved", "shared operator", "succeeded", "op open", "op list", "op cat", "op get", "op put", "op del", "op write", "op bytes", "op scrib", "op scribcat", "op swz", "op app", "op int"}, Stub: "threads of one process: package variables shared, switches at every statement"})
}
