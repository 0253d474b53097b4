//go:build go1.21

package harness

import (
	"bytes"
	"fmt"
	"strings"
)

// C07: reorder, against the published interleave table and a decision table for
// the orders. C08: the same disk in several orders and under several names.

// extOrder is the order a file name implies.
func extOrder(name string) string {
	i := strings.LastIndexAny(name, "./")
	if i < 0 || name[i] != '.' {
		return ""
	}
	switch strings.ToLower(name[i:]) {
	case ".dsk", ".do":
		return "do"
	case ".po":
		return "po"
	}
	return ""
}

func otherOrder(o string) string {
	if o == "do" {
		return "po"
	}
	return "do"
}

// refOrders: from which order to which, or a reason to refuse.
func refOrders(c cmdline) (from, to, why string) {
	from, to = c.opts["order"], c.opts["new-order"]
	if from == "auto" {
		from = ""
	}
	if to == "auto" {
		to = ""
	}
	if from == "" && to == "" {
		from, to = extOrder(c.arg(0)), extOrder(c.arg(1))
	}
	switch {
	case from == "" && to == "":
		return "", "", "no order known"
	case from == to:
		return "", "", "same order"
	case from == "":
		return otherOrder(to), to, ""
	case to == "":
		return from, otherOrder(from), ""
	}
	return from, to, ""
}

func reorderGen(r *rng) *Plan {
	p := &Plan{Params: map[string]int{}}
	p.Files = append(p.Files, FileSpec{Path: "/work/sub", Dir: true, Mode: 0o755}, FileSpec{Path: "/work/dir.po", Dir: true, Mode: 0o755})
	names := []string{"a.dsk", "b.do", "c.po", "d", "E.DSK", "F.Po", "g.po.do", "h.nib", "sub/i.dO", "sub.po/j", "k.PO", "l.dsk.bak"}
	var have []string
	for n := r.rang(1, 3); n > 0; n-- {
		nm := pickOf(r, names...)
		if nm == "sub.po/j" {
			p.need(FileSpec{Path: "/work/sub.po", Dir: true, Mode: 0o755})
		}
		fs := FileSpec{Path: "/work/" + nm, Mode: pickOf[uint32](r, 0o644, 0o644, 0o600)}
		switch r.intn(12) {
		case 0:
			fs.Bytes = &Blob{Kind: "rand", Seed: r.next() >> 30, Len: pickOf(r, 0, 1, 4096, 116480, 143359, 143361, 143104, 143616, 286720, 147456, 143488, 143872, 143376, 143360-512, 143360+512*r.rang(2, 9), 143360+r.intn(8192), 140*1024+128, 160*1024, r.intn(150000), 819200)}
		case 1:
			fs.Image = &Image{Kind: "real", Name: pickOf(r, "dos33master.dsk", "dos33test.dsk")}
		default:
			fs.Image = &Image{Kind: "rand", Seed: r.next() >> 30}
		}
		p.need(fs)
		have = append(have, nm)
	}
	if r.chance(1, 6) {
		p.need(FileSpec{Path: "/work/ln.po", Link: have[0]})
		have = append(have, "ln.po")
	}
	mk := func() ProcSpec {
		ps := ProcSpec{}
		in := pickOf(r, have...)
		if r.chance(1, 20) {
			in = pickOf(r, names...)
		}
		args := []string{"reorder"}
		arg := in
		if r.chance(1, 6) {
			ps.Stdin = "file:/work/" + in
			arg = "-"
		}
		args = append(args, arg)
		switch r.intn(8) {
		case 0, 1: // in place
		case 2:
			args = append(args, "-")
		case 3:
			args = append(args, pickOf(r, have...))
		case 4:
			args = append(args, arg) // the same file by name
		default:
			out := pickOf(r, "n1.po", "n2.dsk", "n3.do", "N4.PO", "n5", "sub/n6.po", "n7.hdv", "n8.x.po", "dir.po", "nodir/n9.po")
			args = append(args, out)
			have = append(have, out)
		}
		ords := func() string { return pickOf(r, "do", "po", "auto") }
		if r.chance(2, 5) {
			args = append(args, "--order", ords())
		}
		if r.chance(2, 5) {
			args = append(args, "--new-order="+ords())
		}
		if r.chance(1, 3) {
			args = append(args, "-f")
		}
		ps.Args = args
		if r.chance(1, 10) {
			ps.Cwd = "/"
			for i, a := range ps.Args[1:] {
				if !strings.HasPrefix(a, "-") && a != "do" && a != "po" && a != "auto" {
					ps.Args[1+i] = pickOf(r, "work/", "/work/", "./work/", "work/sub/../") + a
				}
			}
		}
		r.addFaults(&ps, 35, 8, 8, 60)
		return ps
	}
	for n := r.rang(1, 5); n > 0; n-- {
		s := Step{Procs: []ProcSpec{mk()}, Loss: r.next() >> 20}
		p.Steps = append(p.Steps, s)
		if c := parseCmd(s.Procs[0].Args); len(c.pos) == 2 && r.chance(1, 2) {
			// and back again
			from, to, why := refOrders(c)
			if why == "" && !strings.Contains(c.pos[1], "-") {
				q := ProcSpec{Args: []string{"reorder", c.pos[1], "back.img", "-f", "--order", to, "--new-order", from}, Cwd: s.Procs[0].Cwd}
				r.addFaults(&q, 35, 0, 0, 60)
				p.Steps = append(p.Steps, Step{Op: "back", Str: c.pos[0], Procs: []ProcSpec{q}})
			}
		}
	}
	return p
}

func reorderExec(w *World) *Violation {
	for i := range w.p.Steps {
		s := &w.p.Steps[i]
		ps := &s.Procs[0]
		c := parseCmd(ps.Args)
		cwd := ps.Cwd
		if cwd == "" {
			cwd = "/work"
		}
		fs := w.fs()
		fs.settle()
		// What must happen.
		var src []byte
		srcNode := fs.node("/nonexistent")
		if c.arg(0) == "-" {
			src = w.read(strings.TrimPrefix(ps.Stdin, "file:"))
		} else if pl, e := fs.walk(cwd, c.arg(0), true); e == 0 && pl.node != nil && pl.node.kind == kFile {
			srcNode = pl.node
			src = append([]byte{}, pl.node.data...)
		}
		from, to, why := refOrders(c)
		if why == "" && src == nil {
			why = "no source"
		}
		if why == "" && len(src) != floppy {
			why = "size"
		}
		dest, force := c.arg(1), c.force
		if dest == "" {
			dest, force = c.arg(0), true
		}
		var old []byte
		exists := false
		if dest != "-" {
			lp, e := fs.walk(cwd, dest, false)
			if e == 0 && lp.node != nil {
				exists = true
				if !force {
					why = "exists"
				}
				fp, e2 := fs.walk(cwd, dest, true)
				if e2 == 0 && fp.node != nil {
					old = append([]byte{}, fp.node.data...)
					if fp.node.kind == kDir && why == "" {
						why = "directory"
					}
				}
			} else if e != 0 && why == "" {
				why = "no directory"
			}
		}
		var want []byte
		if why == "" {
			want = refReorder(src, from, to)
		}
		before := fs.snapshot("/")
		res := w.run(s)[0]
		desc := fmt.Sprintf("step %d: diskii %s [%s, faults %v]", i, strings.Join(ps.Args, " "), res.St, res.Fired)
		if res.St.Panic != "" || res.St.Hung != "" || res.St.Block {
			return viol("crash", "%s", desc)
		}
		after := fs.snapshot("/")
		var got []byte
		destPath := ""
		if dest != "-" {
			if fp, e := fs.walk(cwd, dest, true); e == 0 && fp.node != nil && fp.node.kind == kFile {
				got = fp.node.data
				destPath = fp.path
			}
		}
		// Nothing but the destination ever changes.
		if d := diffSnap(before, after, func(p string) bool {
			return p == destPath || res.disturbed() && tmpFile(p) || destPath == "" && res.disturbed() && dest != "-" && strings.HasSuffix(p, "/"+dest)
		}); len(d) > 0 {
			return viol("others", "%s: something other than the destination changed: %s", desc, d[0])
		}
		if srcNode != nil && destPath != "" && fs.node(destPath) != srcNode && !bytes.Equal(srcNode.data, src) {
			return viol("others", "%s: the source changed", desc)
		}
		switch {
		case res.St.ok():
			if why != "" {
				return viol("accepted", "%s: should be refused: %s", desc, why)
			}
			if dest == "-" {
				got = res.Out
			} else if len(res.Out) > 0 {
				return viol("bytes", "%s: prints %s", desc, cut(res.Out, 100))
			}
			if !bytes.Equal(got, want) {
				return viol("bytes", "%s: not the sectors of the source in %s order: %s", desc, to, diffBytes(want, got))
			}
			w.st.probe("done-" + from + "-" + to)
			if s.Op == "back" {
				w.st.probe("back")
			}
		case res.disturbed():
			w.st.probe("disturbed")
			if why != "" && exists && !bytes.Equal(got, old) {
				return viol("refused-changed", "%s: refused (%s), but the destination changed", desc, why)
			}
			if exists && old != nil && got != nil && !bytes.Equal(got, old) && !bytes.Equal(got, want) {
				return viol("torn", "%s: the destination is neither as before nor the reordered image", desc)
			}
		default:
			if !res.St.clean() {
				return viol("crash", "%s", desc)
			}
			if why == "" {
				return viol("refused", "%s: refused: %s", desc, cut(res.Err, 200))
			}
			if len(res.Err) == 0 {
				return viol("silent", "%s: no message", desc)
			}
			if len(res.Out) > 0 {
				return viol("bytes", "%s: refused, but prints %d bytes", desc, len(res.Out))
			}
			if d := diffSnap(before, after, nil); len(d) > 0 {
				return viol("refused-changed", "%s: refused (%s), but changes %s", desc, why, d[0])
			}
			w.st.probe("refused-" + why)
		}
	}
	return nil
}

// ---- C08 ----

// The variants of one disk: file name, order of its contents, whether the order
// has to be given.
type variant struct {
	name, order string
	flag        bool
}

var variants = []variant{
	{"a.do", "do", false}, {"b.po", "po", false}, {"c.dsk", "do", false}, {"noext", "do", false},
	{"d.dsk", "po", true}, {"e.po", "do", true}, {"f.do", "po", true}, {"g.img", "do", true}, {"h.img", "po", true},
	{"I.DO", "do", false}, {"J.Po", "po", false}, {"K.DSK", "do", false}, {"l.po.do", "do", false}, {"m.do.po", "po", false},
}

func variantOf(name string) *variant {
	for i := range variants {
		if variants[i].name == name {
			return &variants[i]
		}
	}
	return nil
}

func orderGen(r *rng) *Plan {
	p := &Plan{Params: map[string]int{}, Strs: map[string]string{}}
	var im *Image
	sys := pickOf(r, "nak", "nak", "nak", "dos", "dos", "pro", "pro")
	switch sys {
	case "nak":
		im = r.nakImage(1)
	case "dos":
		im = r.dosImage()
		if r.chance(1, 8) {
			im = &Image{Kind: "real", Name: pickOf(r, "dos33master.dsk", "dos33test.dsk")}
		}
	case "pro":
		im = r.proImage(false)
	}
	p.Strs["sys"] = sys
	p.Files = []FileSpec{{Path: "/work/base", Image: im}}
	used := map[int]bool{}
	var vs []variant
	for n := r.rang(2, 4); len(vs) < n; {
		k := r.intn(len(variants))
		if !used[k] {
			used[k] = true
			vs = append(vs, variants[k])
		}
	}
	for n := r.rang(2, 6); n > 0; n-- {
		var args []string
		switch sys {
		case "nak":
			args = r.nakCmd(p, "base", nil, false)
		case "dos":
			if im.Kind == "real" {
				args = []string{"ls", "base"}
				if r.chance(1, 2) {
					args = []string{"dump", "base", pickOf(r, "HELLO", "APPLESOFT", "LOADER.OBJ0", "FPBASIC", "INTBASIC", "MASTER", "RENUMBER", "COPY", "COPYA", "BOOT13")}
				}
			} else {
				args = r.dosCmd(p, "base", nil)
			}
		case "pro":
			args = []string{"ls", "base"}
			if ds := im.dirs(); len(ds) > 0 && r.chance(2, 3) {
				args = append(args, ds[r.intn(len(ds))])
			}
		}
		s := Step{Loss: r.next() >> 20}
		for _, v := range vs {
			ps := ProcSpec{}
			stdin := r.chance(1, 6)
			for _, a := range args {
				if a == "base" {
					a = v.name
					if stdin {
						a = "-"
					}
				}
				ps.Args = append(ps.Args, a)
			}
			if stdin {
				ps.Stdin = "file:/work/" + v.name
			}
			if v.flag || stdin || r.chance(1, 6) {
				ps.Args = append(ps.Args, "--order="+v.order)
			}
			if r.chance(1, 5) {
				switch {
				case sys == "dos":
					ps.Args = append(ps.Args, "--system", pickOf(r, "dos3", "auto"))
				case sys == "pro":
					ps.Args = append(ps.Args, "--system", pickOf(r, "prodos", "auto"))
				case args[0] == "ls":
					ps.Args = append(ps.Args, "--system", pickOf(r, "nakedos", "auto"))
				case args[0] != "nakedos":
					ps.Args = append(ps.Args, "--system", "auto")
				}
			}
			r.addFaults(&ps, 25, 4, 4, 60)
			s.Procs = append(s.Procs, ps)
		}
		s.Sched = r.sched(60)
		p.Steps = append(p.Steps, s)
	}
	return p
}

func orderExec(w *World) *Violation {
	var im *Image
	for i := range w.p.Files {
		if w.p.Files[i].Path == "/work/base" {
			im = w.p.Files[i].Image
		}
	}
	if im == nil {
		w.trivial = true
		return nil
	}
	fs := w.fs()
	logical := refReorder(w.read("/work/base"), im.order(), "do")
	state := map[string][]byte{} // per variant, the disk in DOS order
	for _, s := range w.p.Steps {
		for j := range s.Procs {
			for _, a := range append([]string{strings.TrimPrefix(s.Procs[j].Stdin, "file:/work/")}, s.Procs[j].Args...) {
				if v := variantOf(a); v != nil && state[a] == nil {
					state[a] = logical
					fs.put("/work/"+a, refReorder(logical, "do", v.order), 0o644)
				}
			}
		}
	}
	read := func(f string) []byte { return w.read(abs("/work", f)) }
	for i := range w.p.Steps {
		s := &w.p.Steps[i]
		fs.settle()
		type want struct {
			v    *variant
			res  Result
			disk []byte
			abs  *expect
			nak  *nakOutcome
			skip bool
		}
		cache := map[string]want{}
		var wants []want
		for j := range s.Procs {
			ps := &s.Procs[j]
			c := parseCmd(ps.Args)
			var v *variant
			if ps.Stdin != "" {
				v = variantOf(strings.TrimPrefix(ps.Stdin, "file:/work/"))
			} else {
				for _, a := range ps.Args {
					if x := variantOf(a); x != nil {
						v = x
					}
				}
			}
			if v == nil || c.verb == "put" && read(c.arg(2)) == nil {
				wants = append(wants, want{skip: true})
				continue
			}
			// The canonical command: the disk as a .do file.
			var args []string
			for k := 0; k < len(ps.Args); k++ {
				a := ps.Args[k]
				switch {
				case strings.HasPrefix(a, "--order"):
				case a == "--system":
					k++
				case a == "-" || a == v.name:
					args = append(args, "canon.do")
				default:
					args = append(args, a)
				}
			}
			key := strings.Join(args, "\x00") + fmt.Sprint(hash(state[v.name]))
			x, ok := cache[key]
			if !ok {
				f := w.fork()
				f.fs().put("/work/canon.do", state[v.name], 0o644)
				x.res = f.proc(ProcSpec{Args: args})
				x.disk = f.read("/work/canon.do")
				w.join(f, "canon")
				// and what the format says
				switch w.p.Strs["sys"] {
				case "nak":
					n, err := decodeNak(state[v.name], "do")
					if err == nil {
						o := modelOf(n).predict(c, read)
						x.nak = &o
					}
				case "pro":
					_, ref := im.prodos()
					names, ok := ref[c.arg(1)]
					x.abs = &expect{ok: ok, out: lines(names), why: "ProDOS directory"}
				default:
					ents := refDOS(state[v.name])
					if c.verb == "ls" {
						var names []string
						for _, e := range ents {
							names = append(names, e.Name)
						}
						x.abs = &expect{ok: true, out: lines(names), why: "DOS 3.3 catalog"}
					} else {
						x.abs = &expect{why: "no such file"}
						for _, e := range ents {
							if e.Name == c.arg(1) {
								x.abs = &expect{ok: e.OK, out: e.Data, why: fmt.Sprintf("type %d", e.Type)}
								break
							}
						}
					}
				}
				cache[key] = x
			}
			x.v = v
			wants = append(wants, x)
		}
		before := fs.snapshot("/")
		rs := w.run(s)
		for j, res := range rs {
			x := wants[j]
			if x.skip {
				continue
			}
			ps := &s.Procs[j]
			c := parseCmd(ps.Args)
			if ps.Stdin != "" {
				w.st.probe("stdin")
			}
			desc := fmt.Sprintf("step %d: diskii %s (%s order) [%s, faults %v]", i, strings.Join(ps.Args, " "), x.v.order, res.St, res.Fired)
			if res.St.Panic != "" || res.St.Hung != "" || res.St.Block {
				return viol("crash", "%s", desc)
			}
			old := refReorder(state[x.v.name], "do", x.v.order)
			neu := refReorder(x.disk, "do", x.v.order)
			modifies := c.verb == "put" || c.verb == "rm" || c.verb == "mkhello"
			got := w.read("/work/" + x.v.name)
			if res.disturbed() && (!res.St.ok() || res.Shared) {
				w.st.probe("disturbed")
				if bytes.Equal(got, old) {
					continue
				}
				if modifies && ps.Stdin == "" && bytes.Equal(got, neu) {
					state[x.v.name] = x.disk
					continue
				}
				return viol("torn", "%s: the image is neither as before nor as in the other order", desc)
			}
			if res.St.Code != x.res.St.Code || !res.St.clean() {
				return viol("status", "%s: as canon.do (DOS order) it gives %s; stderr %s / %s", desc, x.res.St, cut(res.Err, 150), cut(x.res.Err, 150))
			}
			// Against the format itself.
			if x.abs != nil {
				if x.abs.ok != res.St.ok() || x.abs.ok && !bytes.Equal(x.abs.out, res.Out) {
					return viol("format", "%s: not what the disk holds (%s): %s; stderr %s", desc, x.abs.why, diffText(x.abs.out, res.Out), cut(res.Err, 150))
				}
			}
			if x.nak != nil && !x.nak.alt && x.nak.ok != res.St.ok() {
				return viol("format", "%s: expected success=%v (%s); stderr %s", desc, x.nak.ok, x.nak.why, cut(res.Err, 150))
			}
			if ps.Stdin != "" && modifies && res.St.ok() {
				// The changed image comes out on standard output.
				if c.verb == "rm" && len(res.Out) == 0 && bytes.Equal(old, neu) {
					res.Out = old
				}
				if !bytes.Equal(res.Out, neu) {
					return viol("written", "%s: the image written to standard output is not the one in the other order: %s", desc, diffBytes(neu, res.Out))
				}
				if !bytes.Equal(got, old) {
					return viol("written", "%s: the image read from standard input was changed", desc)
				}
				w.st.probe("written-stdout")
				fs.put("/work/"+x.v.name, res.Out, 0o644)
				state[x.v.name] = x.disk
				continue
			}
			if !bytes.Equal(res.Out, x.res.Out) {
				return viol("output", "%s: as canon.do (DOS order) it prints something else: %s", desc, diffText(x.res.Out, res.Out))
			}
			if !bytes.Equal(got, neu) {
				return viol("written", "%s: the written image differs from the one in the other order by more than the order: %s", desc, diffBytes(neu, got))
			}
			if x.nak != nil && x.nak.ok && x.nak.next != nil && !x.nak.alt {
				n, err := decodeNak(got, x.v.order)
				if err != nil {
					return viol("written", "%s: not a NakedOS disk any more: %v", desc, err)
				}
				if d := x.nak.next.sameStore(n); d != "" {
					return viol("written", "%s: %s", desc, d)
				}
			}
			if modifies && res.St.ok() {
				w.st.probe("written-" + x.v.order)
			} else if res.St.ok() {
				w.st.probe("read-" + w.p.Strs["sys"] + "-" + x.v.order)
			} else {
				w.st.probe("refused")
			}
			state[x.v.name] = x.disk
		}
		ignore := func(p string) bool { return tmpFile(p) || variantOf(strings.TrimPrefix(p, "/work/")) != nil }
		if d := diffSnap(before, fs.snapshot("/"), ignore); len(d) > 0 {
			return viol("others", "step %d: other files changed: %s", i, d[0])
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C07", Gen: reorderGen, Exec: reorderExec, Quick: 9000, Deep: 500000, Must: []string{"done-do-po", "done-po-do", "back", "disturbed", "refused-same order", "refused-no order known", "refused-size", "refused-exists"}, Stub: "the published interleave table and a decision table of the orders"})
	register(&Prop{ID: "C08", Gen: orderGen, Exec: orderExec, Quick: 3500, Deep: 200000, Must: []string{"written-do", "written-po", "written-stdout", "read-nak-do", "read-nak-po", "read-dos-do", "read-dos-po", "read-pro-do", "read-pro-po", "stdin", "disturbed", "refused"}, Stub: "the same command on the same disk in DOS order in a fork of the world; format decoders"})
}
