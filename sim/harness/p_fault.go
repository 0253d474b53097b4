//go:build go1.21

package harness

import (
	"bytes"
	"fmt"
	"strings"
)

// C06: every command under I/O faults; the same command undisturbed in a fork
// of the world is the reference.

func faultGen(r *rng) *Plan {
	p := &Plan{Params: map[string]int{}}
	n := r.rang(1, 3)
	for i := 0; i < n; i++ {
		ps := r.command(p)
		cnt := pickOf(r, 1, 1, 1, 2, 3)
		at := r.intn(60)
		for j := 0; j < cnt; j++ {
			k := pickOf(r, "eio", "eio", "enospc", "eacces", "emfile", "full", "short", "eintr", "eio", "enoent")
			f := Fault{At: (at + j*r.intn(5)), Kind: k, Arg: pickOf(r, 0, 1, 100, 4096, r.intn(143361))}
			if j > 0 && r.chance(1, 3) {
				f.Next = true
			} else {
				f.Pick = r.aimed()
			}
			ps.Faults = append(ps.Faults, f)
			if k == "eacces" {
				break
			}
		}
		switch r.intn(16) {
		case 15: // output that stops half-way
			ps.Faults = []Fault{{Kind: "short", Arg: pickOf(r, 1, 100, 4096, r.intn(5000), r.intn(143361)), Pick: 1 + r.intn(1<<20)}, {Kind: pickOf(r, "eio", "enospc"), Next: true}}
		case 14:
			ps.Stdout = "file:/work/stdout.txt"
			if r.chance(2, 3) {
				ps.Faults = []Fault{{Kind: "full", Arg: pickOf(r, 0, 1, 100, r.intn(2000), r.intn(143361)), Pick: r.aimed()}}
			}
		case 0:
			ps.Stdout = "full"
		case 1:
			ps.Stdout = "pipe" // nobody reads it
		case 2:
			ps.Drip = pickOf(r, 1000, 4096, 257, 511, 9999)
		case 3, 4:
			ps.Faults = nil
			r.addFaults(&ps, 100, 0, 0, 60)
		}
		p.Steps = append(p.Steps, Step{Procs: []ProcSpec{ps}})
	}
	if r.chance(1, 12) {
		p.Cap = pickOf[int64](r, 1, 1000, 143359, 143360, 150000, 300000)
	}
	return p
}

func faultExec(w *World) *Violation {
	for i := range w.p.Steps {
		ps := w.p.Steps[i].Procs[0]
		w.fs().settle()
		before := w.fs().snapshot("/")
		calm := ps
		calm.Faults, calm.Drip = nil, 0
		calm.Stdout = ""
		f := w.fork()
		f.k.recording = true
		f.k.fs.cap = -1
		ref := f.proc(calm)
		want := f.fs().snapshot("/")
		w.join(f, "calm")
		desc := fmt.Sprintf("step %d: diskii %s", i, strings.Join(ps.Args, " "))
		if !ref.St.clean() {
			return viol("crash", "%s: %s", desc, ref.St)
		}
		ps.Faults = aim(ps.Faults, ref.calls, ref.Nsys)
		res := w.run(&Step{Procs: []ProcSpec{ps}})[0]
		if strings.HasPrefix(ps.Stdout, "file:") {
			res.Out = w.read(ps.Stdout[5:])
			w.fs().remove(ps.Stdout[5:])
			w.st.probe("stdout-file")
		}
		after := w.fs().snapshot("/")
		desc += fmt.Sprintf(" [%s, stdout %q, faults %v]", res.St, ps.Stdout, res.Fired)
		if res.St.Signal == "PIPE" && ps.Stdout == "pipe" {
			w.st.probe("sigpipe")
			if len(ref.Out) == 0 {
				return viol("crash", "%s: killed by SIGPIPE though it has nothing to print", desc)
			}
			continue
		}
		if !res.St.clean() {
			return viol("crash", "%s", desc)
		}
		toFile := ps.Stdout == "" || strings.HasPrefix(ps.Stdout, "file:")
		hard := res.disturbed() || !toFile || w.p.Cap > 0
		if res.St.Code == 0 {
			w.st.probe("exit0")
			if ref.St.Code != 0 {
				return viol("lie", "%s: succeeds with faults, but fails without: %s", desc, cut(ref.Err, 200))
			}
			if toFile && !bytes.Equal(res.Out, ref.Out) {
				return viol("lie", "%s: exit 0, but the output is not complete: %s", desc, diffBytes(ref.Out, res.Out))
			}
			if !toFile && len(ref.Out) > 0 {
				return viol("lie", "%s: exit 0, but %d bytes could not be written to standard output", desc, len(ref.Out))
			}
			if d := diffSnap(want, after, tmpFile); len(d) > 0 {
				return viol("lie", "%s: exit 0, but the files are not those of an undisturbed run: %s", desc, d[0])
			}
			if res.disturbed() {
				w.st.probe("survived")
			}
			continue
		}
		if len(res.Err) == 0 {
			return viol("silent", "%s: no message on standard error", desc)
		}
		if !hard {
			if ref.St.Code == 0 {
				return viol("benign", "%s: interrupted or short transfers alone made it fail: %s", desc, cut(res.Err, 200))
			}
			if !bytes.Equal(res.Out, ref.Out) || len(diffSnap(want, after, nil)) > 0 {
				return viol("benign", "%s: interrupted or short transfers alone changed the result", desc)
			}
			continue
		}
		w.st.probe("failed")
		// It takes back what it has begun, unless that was made impossible too.
		tidy := true
		for _, h := range res.hit {
			if h == "unlink" || h == "stat" || h == "open" {
				tidy = false
			}
		}
		if tidy {
			for _, d := range sortedKeys(after) {
				if _, ok := before[d]; !ok {
					if after[d] == want[d] {
						continue // complete: it failed even later
					}
					return viol("stray", "%s: it fails (%s) and leaves %s behind", desc, cut(res.Err, 200), d)
				}
			}
			w.st.probe("tidy")
		}
		// Once the faults stop, the same command does what it should. (A new file left
		// behind when even removing it failed can be in the way of a command without
		// -f: only when nothing has changed is the reference outcome due.)
		if ref.St.Code == 0 && len(diffSnap(before, after, tmpFile)) == 0 && w.p.Cap == 0 {
			again := w.proc(calm)
			if !again.St.ok() || !bytes.Equal(again.Out, ref.Out) {
				return viol("rerun", "%s: once the faults stop, the command gives %s: %s", desc, again.St, cut(again.Err, 200))
			}
			if d := diffSnap(want, w.fs().snapshot("/"), tmpFile); len(d) > 0 {
				return viol("rerun", "%s: once the faults stop, the result differs: %s", desc, d[0])
			}
			w.st.probe("rerun")
		}
	}
	return nil
}

// tmpFile: a temporary file left behind when even removing it failed.
func tmpFile(path string) bool {
	i := strings.LastIndexByte(path, '/')
	b := path[i+1:]
	return strings.HasPrefix(b, ".") || strings.Contains(b, "tmp") || strings.HasPrefix(path, "/tmp/") || strings.HasSuffix(b, "~")
}

func init() {
	register(&Prop{ID: "C06", Gen: faultGen, Exec: faultExec, Quick: 12000, Deep: 500000, Must: []string{"exit0", "survived", "failed", "rerun", "sigpipe", "stdout-file", "tidy"}, Stub: "the undisturbed run in a fork of the simulated world"})
}
