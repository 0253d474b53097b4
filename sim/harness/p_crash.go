//go:build go1.21

package harness

import (
	"bytes"
	"fmt"
	"strings"
)

// C05: a modifying command on an existing image, interrupted anywhere, and
// what is then found under the image's name.

func crashGen(r *rng) *Plan {
	p := &Plan{Params: map[string]int{}, Strs: map[string]string{}}
	var args []string
	var img string
	switch r.intn(10) {
	case 0, 1, 2, 3, 4, 5:
		name, order := r.nakDisk(p)
		args = r.nakCmd(p, name, order, true)
		img = "/work/" + name
	case 6:
		img = pickOf(r, "/work/a.dsk", "/work/a.po", "/work/a.do")
		p.need(FileSpec{Path: img, Image: &Image{Kind: "rand", Seed: r.next() >> 30}})
		args = []string{"reorder", img[6:]}
	case 7, 8:
		p.need(FileSpec{Path: "/work/in.dsk", Image: &Image{Kind: "rand", Seed: r.next() >> 30}})
		img = "/work/out.po"
		if r.chance(1, 3) {
			p.need(FileSpec{Path: img, Bytes: r.blob(200000)})
		} else {
			p.need(FileSpec{Path: img, Image: &Image{Kind: "rand", Seed: r.next() >> 30}})
		}
		args = []string{"reorder", "in.dsk", "out.po", "-f"}
	default:
		img = pickOf(r, "/work/sd.dsk", "/work/sd.po", "/work/noext")
		p.need(FileSpec{Path: img, Image: &Image{Kind: "rand", Seed: r.next() >> 30}})
		p.need(FileSpec{Path: "/work/code.bin", Bytes: r.blob(20000)})
		args = []string{"mksd", img[6:], "code.bin"}
	}
	cwd := ""
	base := img[6:]
	f := &p.Files[0]
	for i := range p.Files {
		if p.Files[i].Path == img {
			f = &p.Files[i]
		}
	}
	f.Mode = pickOf[uint32](r, 0o644, 0o644, 0o600, 0o664, 0o666, 0o640, 0o755)
	real := img
	if r.chance(1, 3) {
		// The image is elsewhere, the name is a link to it.
		real = pickOf(r, "/data/disks/real.img", "/work/sub/real-"+base, "/work/.hidden.dsk")
		f.Path = real
		target := real
		if strings.HasPrefix(real, "/work/") && r.chance(2, 3) {
			target = real[6:]
		} else if r.chance(1, 3) {
			target = "../data/disks/real.img"
			if real[:6] == "/work/" {
				target = "./" + real[6:]
			}
		}
		p.Files = append(p.Files, FileSpec{Path: img, Link: target})
		if r.chance(1, 4) {
			// a chain of links
			p.Files[len(p.Files)-1].Path = "/work/link2"
			p.Files = append(p.Files, FileSpec{Path: img, Link: "link2"})
		}
	}
	switch r.intn(4) {
	case 0: // absolute name
		for i := range args {
			if args[i] == base {
				args[i] = img
			}
		}
	case 1: // another directory
		cwd = "/home/u"
		p.need(FileSpec{Path: cwd, Dir: true, Mode: 0o755})
		for i := range args {
			for _, g := range p.Files {
				if g.Path == "/work/"+args[i] {
					args[i] = "../../work/" + args[i]
					break
				}
			}
		}
	}
	ps := ProcSpec{Args: args, Cwd: cwd}
	// Where: any system call of the command, mostly late ones (the write back).
	at := r.intn(64)
	if r.chance(1, 2) {
		at = 40 + r.intn(24)
	}
	kind := pickOf(r, "kill", "killafter", "killtorn", "power", "powerafter", "powertorn", "power", "eio", "enospc", "full", "emfile", "none", "none", "killtorn", "full", "eio")
	if kind != "none" {
		ps.Faults = append(ps.Faults, Fault{At: at, Kind: kind, Arg: pickOf(r, 0, 1, 4096, 143359, r.intn(143361)), Pick: r.aimed()})
		if r.chance(1, 8) { // an error, then a crash while cleaning up
			ps.Faults = append(ps.Faults, Fault{At: at + r.rang(1, 6), Kind: pickOf(r, crashKinds...), Arg: r.intn(143361)})
		}
	}
	if r.chance(1, 4) {
		ps.Faults = append(ps.Faults, Fault{At: r.intn(60), Kind: pickOf(r, "short", "eintr"), Arg: r.intn(143360)})
	}
	p.Strs["img"] = img
	p.Strs["real"] = real
	p.Steps = []Step{{Procs: []ProcSpec{ps}, Loss: r.next() >> 12, Arg: map[string]int{"lose": r.intn(2)}}}
	// Some histories: more commands of the same kind afterwards.
	for n := r.intn(3); n > 0; n-- {
		q := ps
		q.Faults = []Fault{{At: r.intn(64), Kind: pickOf(r, crashKinds...), Arg: r.intn(143361), Pick: r.aimed()}}
		p.Steps = append(p.Steps, Step{Procs: []ProcSpec{q}, Loss: r.next() >> 12, Arg: map[string]int{"lose": r.intn(2)}})
	}
	return p
}

func crashExec(w *World) *Violation {
	img, real := w.p.Strs["img"], w.p.Strs["real"]
	fs := w.fs()
	if w.read(img) == nil {
		w.trivial = true
		return nil
	}
	for i := range w.p.Steps {
		s := &w.p.Steps[i]
		if len(s.Procs) == 0 {
			continue
		}
		ps := s.Procs[0]
		ps.Faults = append([]Fault(nil), ps.Faults...)
		fs = w.fs()
		fs.settle()
		before := w.read(img)
		snap := fs.snapshot("/")
		// What the command does undisturbed.
		calm := ps
		calm.Faults, calm.Drip = nil, 0
		f := w.fork()
		f.k.recording = true
		ref := f.proc(calm)
		want := f.read(img)
		w.join(f, "calm")
		if real != img && i == 0 {
			// The same without the link: a link makes no difference.
			g := w.fork()
			g.fs().remove(img)
			g.fs().put(img, before, snap[real].Mode)
			direct := g.proc(calm)
			w.join(g, "direct")
			if direct.St.ok() != ref.St.ok() || direct.St.ok() && !bytes.Equal(g.read(img), want) {
				return viol("link", "step %d: diskii %s on a symbolic link to %s [%s, stderr %s], on the image itself [%s], or with another result", i, strings.Join(ps.Args, " "), real, ref.St, cut(ref.Err, 200), direct.St)
			}
			w.st.probe("link")
		}
		// Faults are aimed at calls the command makes.
		ps.Faults = aim(ps.Faults, ref.calls, ref.Nsys)
		res := w.run(&Step{Procs: []ProcSpec{ps}, Loss: s.Loss})[0]
		desc := fmt.Sprintf("step %d: diskii %s [%s, %v]", i, strings.Join(ps.Args, " "), res.St, res.Fired)
		if res.St.Panic != "" || res.St.Hung != "" || res.St.Block {
			return viol("crash", "%s", desc)
		}
		check := func(when string) *Violation {
			got := w.read(img)
			n := fs.node(real)
			if got == nil || n == nil {
				return viol("lost", "%s: the image is gone%s", desc, when)
			}
			if !bytes.Equal(got, before) && !bytes.Equal(got, want) {
				return viol("torn", "%s: the image is neither as before nor as the command leaves it%s: %d bytes; from before: %s; from after: %s", desc, when, len(got), diffBytes(before, got), diffBytes(want, got))
			}
			now := fs.snapshot("/")
			if now[real].Mode != snap[real].Mode {
				return viol("mode", "%s: the image's permissions changed from %o to %o%s", desc, snap[real].Mode, now[real].Mode, when)
			}
			for p, e := range snap {
				if p == real {
					continue
				}
				if x, ok := now[p]; !ok || x != e {
					return viol("others", "%s: %s changed or disappeared%s", desc, p, when)
				}
			}
			return nil
		}
		if v := check(""); v != nil {
			return v
		}
		got := w.read(img)
		switch {
		case res.St.ok():
			w.st.probe("success")
			if !ref.St.ok() {
				return viol("status", "%s: succeeds with faults but not without: %s", desc, cut(ref.Err, 200))
			}
			if !bytes.Equal(got, want) {
				return viol("status", "%s: reported success, but the image is as before", desc)
			}
			if s.Arg["lose"] == 1 {
				// Power is lost after the command has reported success.
				w.st.probe("loss-after-success")
				w.st.fault("power-after-exit")
				fs.powerLoss(newRng(s.Loss))
				if v := check(" after a later power loss"); v != nil {
					return v
				}
			}
		case res.St.Signal == "KILL" || res.St.Signal == "POWER":
			if bytes.Equal(before, want) {
				break
			}
			if bytes.Equal(got, want) {
				w.st.probe("crash-new")
			} else {
				w.st.probe("crash-old")
			}
		default:
			if res.disturbed() {
				w.st.probe("error-exit")
			} else {
				w.st.probe("refused")
				if ref.St.ok() {
					return viol("status", "%s: fails without any fault: %s", desc, cut(res.Err, 200))
				}
			}
			if len(res.Err) == 0 && res.St.clean() {
				return viol("silent", "%s: no message", desc)
			}
		}
		if ref.St.ok() && bytes.Equal(w.read(img), before) && len(res.Fired) > 0 {
			// Running it again works.
			fs.settle()
			again := w.proc(calm)
			if !again.St.ok() || !bytes.Equal(w.read(img), want) {
				return viol("rerun", "%s: running it again without faults gives %s, stderr %s", desc, again.St, cut(again.Err, 200))
			}
			w.st.probe("rerun")
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C05", Gen: crashGen, Exec: crashExec, Quick: 12000, Deep: 600000, Must: []string{"success", "crash-old", "crash-new", "error-exit", "loss-after-success", "rerun", "link"}, Stub: "the undisturbed run in a fork of the simulated world"})
}
