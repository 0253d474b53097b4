//go:build go1.21

package harness

import (
	"bytes"
	"fmt"
	"strings"
)

// C16: commands on streams and in pipelines, against the same commands on named
// files one after another.

func pipeGen(r *rng) *Plan {
	p := &Plan{Params: map[string]int{"fixedprocs": 1}}
	p.need(FileSpec{Path: "/work/code.bin", Bytes: r.blob(9000)})
	nm, nord := r.nakDisk(p)
	nim := p.image("/work/" + nm)
	var nums []int
	for _, f := range nim.Files {
		nums = append(nums, f.Num)
	}
	if len(nums) == 0 {
		nums = []int{1, 2}
	}
	nak := func() string { return r.numName(nums[r.intn(len(nums))]) }
	steps := r.rang(1, 3)
	for ; steps > 0; steps-- {
		s := Step{Loss: r.next() >> 20}
		add := func(args ...string) {
			s.Procs = append(s.Procs, ProcSpec{Args: args})
		}
		// what flows: "" nothing yet, "bytes", "bas", "img" (recognised as sys), "raw" image
		flow, sys, order := "", "", ""
		var dos *Image
		var dosPath string
		if r.chance(1, 2) {
			var ord []string
			dosPath, ord = r.dosDisk(p)
			dos = p.image("/work/" + dosPath)
			_ = ord
		}
		stdinFile := ""
		switch r.intn(8) {
		case 0: // a file of a DOS disk
			if dos == nil || len(dos.Files) == 0 {
				continue
			}
			f := dos.Files[r.intn(len(dos.Files))]
			add("dump", dosPath, f.Name, "--order", dos.order())
			flow = "bytes"
		case 1:
			add(append([]string{"dump", nm, nak()}, nord...)...)
			flow = "bytes"
		case 2: // a BASIC program
			_, b := r.basProg(0x801)
			n := fmt.Sprintf("prog%d.bas", len(p.Files))
			p.need(FileSpec{Path: "/work/" + n, Bytes: &Blob{Kind: "hex", Hex: hexOf(b)}})
			stdinFile, flow = "/work/"+n, "bytes"
		case 3, 4: // a NakedOS disk, reordered or streamed
			if r.chance(1, 2) {
				o := nim.order()
				add("reorder", nm, "-", "--order", o)
				flow, sys, order = "img", "nak", otherOrder(o)
			} else {
				stdinFile, flow, sys, order = "/work/"+nm, "img", "nak", nim.order()
			}
		case 5: // a DOS disk
			if dos == nil {
				continue
			}
			if r.chance(1, 2) {
				add("reorder", dosPath, "-", "--order", dos.order())
				flow, sys, order = "img", "dos", otherOrder(dos.order())
			} else {
				stdinFile, flow, sys, order = "/work/"+dosPath, "img", "dos", dos.order()
			}
		case 6:
			add("mksd", "-", "code.bin", "--address", "0x2000")
			flow, sys, order = "img", "sd", "do"
		default: // anything at all
			n := fmt.Sprintf("junk%d", len(p.Files))
			p.need(FileSpec{Path: "/work/" + n, Bytes: &Blob{Kind: "rand", Seed: r.next() >> 30, Len: pickOf(r, 0, 1, 143359, 143360, 143361, r.intn(200000))}})
			stdinFile = "/work/" + n
			flow = pickOf(r, "bytes", "img")
			sys, order = "junk", "do"
		}
		for n := r.rang(1, 3); n > 0 && flow != ""; n-- {
			if flow == "bytes" {
				switch r.intn(4) {
				case 0:
					add("put", nm, nak(), "-", "-f", "--order", nim.order())
					flow = ""
				case 1:
					add("mksd", pickOf(r, "sd1.dsk", "sd2.po", "-"), "-")
					if s.Procs[len(s.Procs)-1].Args[1] == "-" {
						flow, sys, order = "img", "sd", "do"
					} else {
						flow = ""
					}
				default:
					add("applesoft", "decode")
					q := &s.Procs[len(s.Procs)-1]
					if r.chance(1, 2) {
						q.Args = append(q.Args, "-")
					}
					if r.chance(1, 4) {
						q.Args = append(q.Args, "-r")
					}
					flow = ""
				}
				continue
			}
			of := []string{"--order", order}
			switch k := r.intn(9); {
			case k == 0:
				add(append([]string{"reorder", "-"}, of...)...)
				order = otherOrder(order)
			case k == 1:
				add(append([]string{"reorder", "-", "-"}, of...)...)
				order = otherOrder(order)
			case k == 2:
				add(append([]string{"reorder", "-", pickOf(r, "out1.img", "out2.po", "out1.img"), "-f"}, of...)...)
				flow = ""
			case k == 3:
				add(append([]string{"ls", "-"}, of...)...)
				flow = ""
			case sys == "nak" && k < 7:
				switch r.intn(3) {
				case 0:
					add(append([]string{"put", "-", pickOf(r, nak(), "DF1D", "FSTREAM"), "code.bin", "-f"}, of...)...)
				case 1:
					add(append([]string{"rm", "-", nak(), "-f"}, of...)...)
				default:
					add(append([]string{"nakedos", "mkhello", "-", nak()}, of...)...)
				}
			case sys == "nak":
				add(append([]string{"dump", "-", nak()}, of...)...)
				flow = "bytes"
			case sys == "dos" && dos != nil && len(dos.Files) > 0:
				add(append([]string{"dump", "-", dos.Files[r.intn(len(dos.Files))].Name}, of...)...)
				flow = "bytes"
			default:
				add(append([]string{"ls", "-"}, of...)...)
				flow = ""
			}
		}
		if len(s.Procs) == 0 {
			continue
		}
		for j := range s.Procs {
			q := &s.Procs[j]
			if j == 0 && stdinFile != "" {
				q.Stdin = "file:" + stdinFile
			}
			if j > 0 {
				q.Stdin = fmt.Sprintf("pipe:%d", j-1)
			}
			if j < len(s.Procs)-1 {
				q.Stdout = "pipe"
				q.PipeCap = pickOf(r, 65536, 65536, 4096, 1, 100, 511, 512, 200000)
			}
			if r.chance(1, 4) {
				r.devNames(q)
			}
			if r.chance(1, 5) {
				q.Faults = append(q.Faults, Fault{At: r.intn(60), Kind: "stall", Arg: r.intn(7)})
			}
			r.addFaults(q, 35, 4, 4, 60)
			if q.PipeCap > 0 && q.PipeCap < 100 {
				q.PipeCap = r.rang(20, 99) // one byte at a time only sometimes
				if r.chance(1, 30) {
					q.PipeCap = 1
				}
			}
		}
		s.Sched = r.bursts(200)
		p.Steps = append(p.Steps, s)
	}
	return p
}

// devNames names the standard streams by path, as a shell's process substitution
// does, where a command only reads or only writes the file.
func (r *rng) devNames(q *ProcSpec) {
	c := parseCmd(q.Args)
	in := func(k int) {
		if c.arg(k) == "-" {
			q.Args[c.at[k]] = pickOf(r, "/dev/stdin", "/dev/fd/0", "/proc/self/fd/0")
		}
	}
	out := func(k int) bool {
		if c.arg(k) == "-" {
			q.Args[c.at[k]] = pickOf(r, "/dev/stdout", "/dev/fd/1")
			return true
		}
		return false
	}
	switch c.verb {
	case "ls", "dump", "decode":
		in(0)
	case "put":
		in(2)
	case "mksd":
		out(0)
		in(1)
	case "reorder":
		if len(c.pos) == 2 {
			in(0)
			if out(1) {
				q.Args = append(q.Args, "-f")
			}
		}
	}
}

// namedStage runs one stage with named files instead of streams.
func namedStage(f *World, ps ProcSpec, in []byte) (Result, []byte) {
	ps.Faults, ps.Drip, ps.Stdin, ps.Stdout = nil, 0, "", ""
	args := append([]string(nil), ps.Args...)
	c := parseCmd(args)
	f.fs().put("/work/in.stream", in, 0o600)
	f.fs().remove("/work/out.stream")
	outFile := ""
	sub := func(k int, name string) bool {
		if a := c.arg(k); a == "-" || strings.HasPrefix(a, "/dev/") || strings.HasPrefix(a, "/proc/") {
			args[c.at[k]] = name
			f.st.probe(map[bool]string{true: "by-path", false: "dash"}[a != "-"])
			return true
		}
		return false
	}
	switch c.verb {
	case "ls", "dump":
		sub(0, "in.stream")
	case "put", "rm", "mkhello":
		if sub(0, "in.stream") {
			outFile = "/work/in.stream"
		}
		if c.verb == "put" {
			sub(2, "in.stream")
		}
	case "reorder":
		if sub(0, "in.stream") && len(c.pos) == 1 {
			args = append(args[:c.at[0]+1], append([]string{"out.stream"}, args[c.at[0]+1:]...)...)
			outFile = "/work/out.stream"
		}
		if sub(1, "out.stream") {
			outFile = "/work/out.stream"
		}
	case "mksd":
		if sub(0, "out.stream") {
			outFile = "/work/out.stream"
		}
		sub(1, "in.stream")
	case "decode":
		if !sub(0, "in.stream") && len(c.pos) == 0 {
			args = append(args, "in.stream")
		}
	}
	ps.Args = args
	res := f.proc(ps)
	out := res.Out
	if outFile != "" {
		out = nil
		if res.St.ok() {
			out = f.read(outFile)
		}
	}
	return res, out
}

func pipeExec(w *World) *Violation {
	for i := range w.p.Steps {
		s := &w.p.Steps[i]
		if len(s.Procs) == 0 {
			continue
		}
		w.fs().settle()
		f := w.fork()
		first := w.read(strings.TrimPrefix(s.Procs[0].Stdin, "file:"))
		rs := w.run(s)
		var descs []string
		anyDist := false
		for j := range rs {
			descs = append(descs, fmt.Sprintf("diskii %s [%s, faults %v]", strings.Join(s.Procs[j].Args, " "), rs[j].St, rs[j].Fired))
			anyDist = anyDist || rs[j].disturbed()
		}
		desc := fmt.Sprintf("step %d: %s", i, strings.Join(descs, " | "))
		clean := true
		for j := range rs {
			res := &rs[j]
			if res.St.Panic != "" || res.St.Hung != "" {
				return viol("crash", "%s", desc)
			}
			if res.St.Block {
				return viol("deadlock", "%s: the pipeline does not end", desc)
			}
			in := first
			if j > 0 {
				in = w.k.pipes[j-1].all
			}
			out := res.Out
			if s.Procs[j].Stdout == "pipe" {
				out = w.k.pipes[j].all
			}
			named := s.Procs[j]
			ref, want := namedStage(f, named, in)
			w.join(f, "named")
			// A reader that gives up early takes its writer down with it.
			downFailed := j+1 < len(rs) && !rs[j+1].St.ok()
			if res.disturbed() && !res.St.ok() {
				w.st.probe("disturbed")
				clean = false
				if !bytes.HasPrefix(want, out) && !(ref.St.Code != 0 && len(out) == 0) {
					return viol("stream", "%s: stage %d printed something else before it failed: %s", desc, j, diffPrefix(want, out))
				}
				continue
			}
			if downFailed && (res.St.Signal == "PIPE" || res.St.Code != 0) && ref.St.ok() && len(want) > 0 {
				w.st.probe("writer-stopped")
				if !bytes.HasPrefix(want, out) {
					return viol("stream", "%s: stage %d printed something else before it was stopped: %s", desc, j, diffPrefix(want, out))
				}
				continue
			}
			if res.St.Signal != "" || res.St.Code != ref.St.Code {
				return viol("status", "%s: stage %d: with files it gives %s: %s / %s", desc, j, ref.St, cut(ref.Err, 150), cut(res.Err, 150))
			}
			if res.St.Code != 0 && len(res.Err) == 0 {
				return viol("silent", "%s: stage %d fails without a message", desc, j)
			}
			if !bytes.Equal(out, want) {
				return viol("stream", "%s: stage %d: with files the output is different: %s", desc, j, diffText(want, out))
			}
			if res.St.ok() {
				w.st.probe("stage-" + parseCmd(s.Procs[j].Args).verb)
			} else {
				w.st.probe("stage-refused")
			}
		}
		w.st.probe(fmt.Sprintf("stages-%d", len(rs)))
		if clean {
			ignore := func(p string) bool { return p == "/work/in.stream" || p == "/work/out.stream" || anyDist && tmpFile(p) }
			if d := diffSnap(f.fs().snapshot("/"), w.fs().snapshot("/"), ignore); len(d) > 0 {
				return viol("files", "%s: the files afterwards differ from those of separate commands: %s", desc, d[0])
			}
		} else if anyDist {
			// Continue from what is there only if it is consistent: the next step
			// starts from the actual files either way.
			w.st.probe("after-disturbance")
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C16", Gen: pipeGen, Exec: pipeExec, Quick: 9000, Deep: 400000, Must: []string{"by-path", "dash", "stages-1", "stages-2", "stages-3", "stage-reorder", "stage-put", "stage-rm", "stage-mkhello", "stage-ls", "stage-dump", "stage-decode", "stage-mksd", "stage-refused", "disturbed", "writer-stopped"}, Stub: "the same stages on named files, one after another, in a fork of the world"})
}
