//go:build go1.21

package harness

import (
	"bytes"
	"fmt"
	"strings"
)

// C13: nothing that exists is overwritten without -f, whoever races for it.
// C14: commands on one image are atomic: a linearizability check of each step.

func noclobGen(r *rng) *Plan {
	p := &Plan{Params: map[string]int{}, Strs: map[string]string{}}
	if r.chance(1, 3) {
		return r.noclobPut(p)
	}
	p.Strs["mode"] = "reorder"
	base := pickOf(r, "dest.po", "dest.do", "dest.dsk", "dest", "sub/dest.po")
	p.Strs["dest"] = "/work/" + base
	p.need(FileSpec{Path: "/work/sub", Dir: true, Mode: 0o755})
	p.need(FileSpec{Path: "/work/here", Link: "."})
	p.need(FileSpec{Path: "/work/innocent.po", Bytes: r.blob(2000)})
	switch r.intn(8) {
	case 0:
		p.need(FileSpec{Path: "/work/" + base, Bytes: r.blob(150000), Mode: pickOf[uint32](r, 0o644, 0o000, 0o444, 0o200)})
	case 1:
		p.need(FileSpec{Path: "/work/" + base, Image: &Image{Kind: "rand", Seed: r.next() >> 30}})
	case 2:
		p.need(FileSpec{Path: "/work/" + base, Dir: true, Mode: 0o755})
	case 3:
		p.need(FileSpec{Path: "/work/" + base, Link: pickOf(r, "/work/nowhere", "nothing.po", "/work/innocent.po", "/gone/x", base, "/work/sub")})
	case 4:
		p.need(FileSpec{Path: "/work/" + base, Bytes: &Blob{Kind: "zero"}})
	}
	s := Step{Op: "race", Loss: r.next() >> 20}
	for n := r.rang(1, 4); n > 0; n-- {
		src := fmt.Sprintf("src%d.img", n)
		p.need(FileSpec{Path: "/work/" + src, Image: &Image{Kind: "rand", Seed: r.next() >> 30}})
		d := base
		ps := ProcSpec{}
		switch r.intn(5) {
		case 0:
			d = "/work/" + base
		case 1:
			d = "here/" + base
		case 2:
			d = "sub/../" + base
		case 3:
			ps.Cwd = "/work/sub"
			d = "../" + base
		}
		in := src
		if ps.Cwd != "" {
			in = "../" + src
		}
		ps.Args = []string{"reorder", in, d, "--order", pickOf(r, "do", "po")}
		if r.chance(1, 6) {
			ps.Args[1] = "-"
			ps.Stdin = "file:/work/" + src
		}
		if r.chance(1, 10) {
			ps.Args = append(ps.Args, "-f")
		}
		if r.chance(1, 4) {
			ps.Faults = append(ps.Faults, Fault{At: r.intn(40), Kind: "stall", Arg: r.intn(7)})
		}
		r.addFaults(&ps, 25, 8, 6, 40)
		s.Procs = append(s.Procs, ps)
	}
	if r.chance(2, 5) {
		// Somebody else creates (or moves something onto) the destination.
		k := r.intn(len(s.Procs))
		at := r.intn(45)
		arg := r.intn(7)
		if arg == 6 {
			for i := range s.Procs {
				s.Procs[i].Faults = nil // moved into place, and nothing else goes wrong
			}
		}
		s.Procs[k].Faults = append(s.Procs[k].Faults, Fault{At: at, Kind: "appear", Arg: arg})
	}
	s.Sched = r.bursts(120)
	p.Steps = []Step{s}
	return p
}

func (r *rng) noclobPut(p *Plan) *Plan {
	p.Strs["mode"] = "put"
	name, order := r.nakDisk(p)
	im := p.image("/work/" + name)
	p.Strs["dest"] = "/work/" + name
	p.Strs["order"] = im.order()
	var nums []int
	n, err := decodeNak(im.build(), im.order())
	if err != nil {
		hostErr("noclobPut: %v", err)
	}
	m := modelOf(n)
	for f := 1; f < 0xfe; f++ {
		if m.files[f] != nil && !(m.st && (f == 3 || f == 4)) {
			nums = append(nums, f)
		}
	}
	if len(nums) == 0 {
		return noclobGen(r)
	}
	num := nums[r.intn(len(nums))]
	p.Params["num"] = num
	var syms []string
	for _, s := range sortedKeys(m.syms) {
		if m.syms[s] == 0xdf00+num {
			syms = append(syms, s)
		}
	}
	for k := r.rang(1, 3); k > 0; k-- {
		s := Step{Op: "put", Loss: r.next() >> 20}
		for c := r.rang(1, 3); c > 0; c-- {
			src := fmt.Sprintf("new%d.bin", len(p.Files))
			p.need(FileSpec{Path: "/work/" + src, Bytes: r.blob(3000)})
			nm := r.numName(num)
			switch {
			case len(syms) > 0 && r.chance(1, 2):
				nm = r.caseOf(syms[r.intn(len(syms))])
			case m.st && r.chance(1, 3):
				nm += ":" + pickOf(r, "FOTHER", "FNEW2", "HELLO")
			case len(syms) > 0 && r.chance(1, 2):
				// by number and by the name it has already
				nm += ":" + r.caseOf(syms[r.intn(len(syms))])
			case len(m.syms) > 0 && r.chance(1, 2):
				// by number and a name that something else has
				all := sortedKeys(m.syms)
				nm += ":" + r.caseOf(all[r.intn(len(all))])
			}
			ps := ProcSpec{Args: append([]string{"put", name, nm, src}, order...)}
			r.addFaults(&ps, 25, 8, 6, 60)
			s.Procs = append(s.Procs, ps)
		}
		if r.chance(1, 2) && len(nums) > 1 {
			// and others who work on other files of the disk
			other := nums[r.intn(len(nums))]
			for other == num {
				other = nums[r.intn(len(nums))]
			}
			var args []string
			switch r.intn(4) {
			case 0:
				args = []string{"rm", name, r.numName(other)}
			case 1:
				p.need(FileSpec{Path: "/work/small.bin", Bytes: r.blob(300)})
				args = []string{"put", "-f", name, r.numName(other), "small.bin"}
			case 2:
				args = []string{"dump", name, r.numName(num)}
			default:
				args = []string{"ls", name}
			}
			s.Procs = append(s.Procs, ProcSpec{Args: append(args, order...), Faults: []Fault{{At: r.intn(60), Kind: "stall", Arg: 3}}})
		}
		s.Sched = r.bursts(150)
		p.Steps = append(p.Steps, s)
	}
	return p
}

func noclobExec(w *World) *Violation {
	if w.p.Strs["mode"] == "put" {
		return noclobPutExec(w)
	}
	if len(w.p.Steps) == 0 {
		return nil
	}
	fs := w.fs()
	s := &w.p.Steps[0]
	dest := w.p.Strs["dest"]
	before := fs.snapshot("/")
	pre, existed := before[dest]
	// What each would write.
	wants := make([][]byte, len(s.Procs))
	forced := false
	for j := range s.Procs {
		c := parseCmd(s.Procs[j].Args)
		cwd := s.Procs[j].Cwd
		if cwd == "" {
			cwd = "/work"
		}
		src := strings.TrimPrefix(s.Procs[j].Stdin, "file:")
		if src == "" {
			pl, e := fs.walk(cwd, c.arg(0), true)
			if e == 0 && pl.node != nil {
				wants[j] = pl.node.data
			}
		} else {
			wants[j] = w.read(src)
		}
		if len(wants[j]) == floppy {
			wants[j] = refReorder(wants[j], c.opts["order"], otherOrder(c.opts["order"]))
		} else {
			wants[j] = nil
		}
		forced = forced || c.force
	}
	// The environment's part.
	appeared := 0
	var them entry
	w.k.appear = func(arg int) {
		n := fs.node(dest)
		if arg != 6 && n != nil || n != nil && n.kind == kDir {
			return
		}
		tag := fmt.Sprintf("made by somebody else %d", arg)
		switch arg {
		case 1:
			fs.mkdirAll(dest)
		case 2:
			fs.symlink(dest, "/work/nowhere")
		case 3:
			fs.symlink(dest, "/work/innocent.po")
		case 4:
			fs.put(dest, []byte(tag), 0)
		case 6: // moved onto it
			if n != nil {
				fs.remove(dest)
			}
			fs.put(dest, []byte(tag), 0o644)
		default:
			fs.put(dest, []byte(tag), 0o600)
		}
		appeared = 1
		if arg == 6 {
			appeared = 2
		}
		them = fs.snapshot("/")[dest]
	}
	rs := w.run(s)
	w.k.appear = nil
	after := fs.snapshot("/")
	now, exists := after[dest]
	winners, disturbed := 0, false
	who := -1
	var descs []string
	for j := range rs {
		res := &rs[j]
		c := parseCmd(s.Procs[j].Args)
		descs = append(descs, fmt.Sprintf("diskii %s [%s, faults %v]", strings.Join(s.Procs[j].Args, " "), res.St, res.Fired))
		if res.St.Panic != "" || res.St.Hung != "" || res.St.Block {
			return viol("crash", "%s", descs[j])
		}
		if res.disturbed() {
			disturbed = true
		}
		if res.St.ok() && !c.force {
			winners++
			who = j
		}
		if res.St.clean() && res.St.Code != 0 && len(res.Err) == 0 {
			return viol("silent", "%s: no message", descs[j])
		}
	}
	desc := strings.Join(descs, " | ")
	lost := len(rs) > 0 && rs[0].Shared && anyPower(rs)
	if d := diffSnap(before, after, func(p string) bool { return p == dest || disturbed && tmpFile(p) }); len(d) > 0 && appeared == 0 && !(forced && pre.Kind == kLink) {
		return viol("others", "%s: something besides the destination changed: %s", desc, d[0])
	}
	if fs.node("/work/nowhere") != nil || fs.node("/work/nothing.po") != nil && before["/work/nothing.po"] == (entry{}) {
		if !forced {
			return viol("through-link", "%s: wrote through a dangling symbolic link", desc)
		}
	}
	if existed {
		w.st.probe(fmt.Sprintf("existed-kind%d", pre.Kind))
		if winners > 0 {
			return viol("clobber", "%s: succeeded although %s existed", desc, dest)
		}
		if !forced && now != pre && !(appeared == 2 && now == them) {
			return viol("clobber", "%s: %s existed and changed", desc, dest)
		}
		return nil
	}
	if lost {
		w.st.probe("power")
		return nil
	}
	switch {
	case forced:
		w.st.probe("with-forced")
		if winners > 1 {
			return viol("two-winners", "%s: %d commands without -f succeeded", desc, winners)
		}
	case appeared == 1:
		w.st.probe("appeared")
		if winners > 0 {
			return viol("clobber", "%s: succeeded although somebody else had created %s", desc, dest)
		}
		if now != them {
			return viol("clobber", "%s: %s, created by somebody else meanwhile, was changed", desc, dest)
		}
	case appeared == 2:
		w.st.probe("moved-onto")
		if now != them {
			return viol("clobber", "%s: %s, moved there by somebody else meanwhile, was changed", desc, dest)
		}
	case winners > 1:
		return viol("two-winners", "%s: %d commands succeeded", desc, winners)
	case winners == 1:
		w.st.probe("one-winner")
		if len(rs) > 1 {
			w.st.probe("race-won")
		}
		if !exists || wants[who] == nil || now.Data != string(wants[who]) {
			return viol("winner", "%s: what remains is not the output of the one that succeeded: %s", desc, diffBytes(wants[who], []byte(now.Data)))
		}
	case !disturbed:
		ok := false
		for j := range wants {
			if wants[j] == nil {
				ok = true // its source is missing (minimised away)
			}
		}
		if !ok {
			return viol("no-winner", "%s: none succeeded; stderr %s", desc, cut(rs[0].Err, 200))
		}
	}
	return nil
}

func anyPower(rs []Result) bool {
	for _, r := range rs {
		if r.St.Signal == "POWER" {
			return true
		}
	}
	return false
}

func noclobPutExec(w *World) *Violation {
	img, order, num := w.p.Strs["dest"], w.p.Strs["order"], w.p.Params["num"]
	if w.read(img) == nil {
		return nil
	}
	n, err := decodeNak(w.read(img), order)
	if err != nil || n.file(num) == nil {
		w.trivial = true
		return nil
	}
	m := modelOf(n)
	for i := range w.p.Steps {
		s := &w.p.Steps[i]
		w.fs().settle()
		before := w.read(img)
		rs := w.run(s)
		others := false
		for j := range rs {
			c := parseCmd(s.Procs[j].Args)
			desc := fmt.Sprintf("step %d: diskii %s [%s, faults %v]", i, strings.Join(s.Procs[j].Args, " "), rs[j].St, rs[j].Fired)
			if rs[j].St.Panic != "" || rs[j].St.Hung != "" || rs[j].St.Block {
				return viol("crash", "%s", desc)
			}
			if c.verb != "put" || c.force {
				others = others || c.verb == "put" || c.verb == "rm"
				continue
			}
			if rs[j].St.ok() {
				return viol("clobber", "%s: succeeded although the file DF%02X exists", desc, num)
			}
			if rs[j].St.clean() && len(rs[j].Err) == 0 {
				return viol("silent", "%s: no message", desc)
			}
			w.st.probe("put-refused")
		}
		after := w.read(img)
		if !others && !bytes.Equal(before, after) {
			return viol("clobber", "step %d: refused, but the image changed: %s", i, diffBytes(before, after))
		}
		x, err := decodeNak(after, order)
		if err != nil {
			return viol("clobber", "step %d: the image is broken: %v", i, err)
		}
		if !bytes.Equal(x.file(num), m.files[num]) {
			return viol("clobber", "step %d: the file DF%02X was changed", i, num)
		}
		if d := m.sameSyms(x); d != "" {
			return viol("clobber", "step %d: the symbols changed: %s", i, d)
		}
	}
	return nil
}

// ---- C14 ----

func atomGen(r *rng) *Plan {
	p := &Plan{Params: map[string]int{}, Strs: map[string]string{}}
	var name string
	var order []string
	mkReader := func() []string { return nil }
	mkWriter := func() []string { return nil }
	k := r.intn(10)
	name, order = r.nakDisk(p)
	img := "/work/" + name
	p.need(FileSpec{Path: "/work/other.do", Image: &Image{Kind: "real", Name: "Super-Mon-2.0.dsk"}})
	p.need(FileSpec{Path: "/work/code.bin", Bytes: r.blob(9000)})
	mkReader = func() []string {
		if r.chance(1, 10) {
			return []string{"reorder", "--order", "do", name, "-"}
		}
		for {
			a := r.nakCmd(p, name, order, false)
			if a[0] == "ls" || a[0] == "dump" {
				return a
			}
		}
	}
	mkWriter = func() []string {
		switch {
		case k == 0 && r.chance(1, 2):
			return []string{"reorder", name, "--order", pickOf(r, "do", "po")}
		case k == 1 && r.chance(1, 2):
			return []string{"mksd", name, "code.bin"}
		case k == 2 && r.chance(1, 2):
			return []string{"reorder", "--order", "do", "other.do", name, "-f"}
		}
		return r.nakCmd(p, name, order, true)
	}
	link := r.chance(1, 4)
	if link {
		p.need(FileSpec{Path: "/links/l.dsk", Link: "../work/" + name})
	}
	p.Strs["img"] = img
	for n := r.rang(1, 3); n > 0; n-- {
		s := Step{Loss: r.next() >> 20}
		nw := r.rang(1, 3)
		nr := r.intn(4 - nw + 1)
		if nw+nr < 2 {
			nr++
		}
		for i := 0; i < nw+nr; i++ {
			a := mkReader()
			if i < nw {
				a = mkWriter()
			}
			ps := ProcSpec{Args: a}
			if link && r.chance(1, 2) && len(order) > 0 {
				for q := range ps.Args {
					if ps.Args[q] == name {
						ps.Args[q] = "/links/l.dsk"
					}
				}
			}
			if r.chance(1, 3) {
				ps.Faults = append(ps.Faults, Fault{At: r.intn(60), Kind: "stall", Arg: r.intn(7)})
			}
			r.addFaults(&ps, 25, 5, 5, 60)
			for q := range ps.Faults {
				if ps.Faults[q].Kind == "eacces" { // the directory stays writable
					ps.Faults[q].Kind = "eio"
				}
				if strings.HasPrefix(ps.Faults[q].Kind, "power") {
					ps.Faults[q].Kind = "kill" + strings.TrimPrefix(ps.Faults[q].Kind, "power")
				}
			}
			s.Procs = append(s.Procs, ps)
		}
		// in any order
		for i := len(s.Procs) - 1; i > 0; i-- {
			j := r.intn(i + 1)
			s.Procs[i], s.Procs[j] = s.Procs[j], s.Procs[i]
		}
		s.Sched = r.bursts(250)
		p.Steps = append(p.Steps, s)
	}
	return p
}

// span is when a process ran, in switches.
type span struct{ first, last int }

func atomExec(w *World) *Violation {
	img := w.p.Strs["img"]
	if w.read(img) == nil {
		w.trivial = true
		return nil
	}
	for i := range w.p.Steps {
		s := &w.p.Steps[i]
		if len(s.Procs) == 0 {
			continue
		}
		w.fs().settle()
		start := w.fork() // the world before the step
		rs := w.run(s)
		final := w.read(img)
		spans := make([]span, len(rs))
		for j := range spans {
			spans[j] = span{-1, 1 << 30}
		}
		if len(w.k.runs) < 4000 {
			for t, id := range w.k.runs {
				if spans[id].first < 0 {
					spans[id].first = t
				}
				spans[id].last = t
			}
		}
		var descs []string
		for j := range rs {
			descs = append(descs, fmt.Sprintf("diskii %s [%s, faults %v]", strings.Join(s.Procs[j].Args, " "), rs[j].St, rs[j].Fired))
			if rs[j].St.Panic != "" || rs[j].St.Hung != "" || rs[j].St.Block {
				return viol("crash", "step %d: %s", i, descs[j])
			}
		}
		desc := fmt.Sprintf("step %d: %s", i, strings.Join(descs, " | "))
		if final == nil {
			return viol("gone", "%s: the image is gone", desc)
		}
		// Search for an order of atomic reads and writes that explains everything.
		var states [][]byte
		ids := map[uint64]int{}
		id := func(b []byte) int {
			h := hash(b)
			if k, ok := ids[h]; ok {
				return k
			}
			ids[h] = len(states)
			states = append(states, b)
			return ids[h]
		}
		type outcome struct {
			code  int
			out   []byte
			after int
		}
		cache := map[[2]int]outcome{}
		apply := func(j, st int) outcome {
			k := [2]int{j, st}
			if o, ok := cache[k]; ok {
				return o
			}
			f := start.fork()
			n, _ := f.fs().walk("/", img, true)
			f.fs().setData(n.node, append([]byte(nil), states[st]...))
			ps := s.Procs[j]
			ps.Faults, ps.Drip = nil, 0
			r := f.proc(ps)
			o := outcome{r.St.Code, r.Out, id(f.read(img))}
			cache[k] = o
			w.join(f, "serial")
			return o
		}
		type node struct {
			cur   int
			stage [4]int8
			pend  [4]int16
		}
		seen := map[node]bool{}
		want := id(final)
		reached := map[int]bool{}
		var search func(n node) bool
		search = func(n node) bool {
			if seen[n] {
				return false
			}
			seen[n] = true
			done := true
			for j := range rs {
				switch n.stage[j] {
				case 0:
					done = false
					// Not before those that ended before it began.
					early := false
					for q := range rs {
						if q != j && n.stage[q] != 2 && spans[q].last < spans[j].first {
							early = true
						}
					}
					if early {
						continue
					}
					o := apply(j, n.cur)
					verb := parseCmd(s.Procs[j].Args).verb
					reader := verb == "ls" || verb == "dump" || verb == "reorder" && s.Procs[j].Args[len(s.Procs[j].Args)-1] == "-"
					if reader || o.code != 0 {
						if !rs[j].disturbed() || rs[j].St.ok() {
							if o.code != rs[j].St.Code || !bytes.Equal(o.out, rs[j].Out) {
								continue
							}
						}
						x := n
						x.stage[j] = 2
						if search(x) {
							return true
						}
						continue
					}
					// a writer
					if !rs[j].St.ok() && !rs[j].disturbed() {
						continue
					}
					if !rs[j].St.ok() || o.after == n.cur {
						x := n // no effect
						x.stage[j] = 2
						if search(x) {
							return true
						}
					}
					x := n
					x.stage[j] = 1
					x.pend[j] = int16(o.after)
					if search(x) {
						return true
					}
				case 1:
					done = false
					x := n
					x.stage[j] = 2
					x.cur = int(n.pend[j])
					x.pend[j] = 0
					if search(x) {
						return true
					}
				}
			}
			if done {
				reached[n.cur] = true
				return n.cur == want
			}
			return false
		}
		ok := search(node{cur: id(start.read(img))})
		if !ok {
			// Which part cannot be explained?
			if len(reached) > 0 {
				return viol("final", "%s: the image left is not what any order of the commands gives (%d possible)", desc, len(reached))
			}
			return viol("results", "%s: no order of the commands explains their results", desc)
		}
		w.st.probe(fmt.Sprintf("procs-%d", len(rs)))
		if len(states) > 3 {
			w.st.probe("several-states")
		}
		for j := range rs {
			if rs[j].disturbed() {
				w.st.probe("disturbed")
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C13", Gen: noclobGen, Exec: noclobExec, Quick: 12000, Deep: 600000, Must: []string{"existed-kind0", "existed-kind1", "existed-kind2", "appeared", "moved-onto", "race-won", "with-forced", "put-refused"}, Stub: "another program creating the destination"})
	register(&Prop{ID: "C14", Gen: atomGen, Exec: atomExec, Quick: 4000, Deep: 200000, Must: []string{"procs-2", "procs-3", "procs-4", "several-states", "disturbed"}, Stub: "each command run alone on each intermediate image, in forks of the world"})
}
