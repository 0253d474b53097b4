//go:build go1.21

package harness

import (
	"fmt"
	"strings"
)

// C04: refused and read-only commands leave the whole file system as it was.

// refused returns a command that cannot succeed, and why.
func (r *rng) refused(p *Plan) (ProcSpec, string) {
	sp := func(why string, args ...string) (ProcSpec, string) { return ProcSpec{Args: args}, why }
	src := func() string {
		n := fmt.Sprintf("src%d.bin", len(p.Files))
		p.need(FileSpec{Path: "/work/" + n, Bytes: r.blob(3000)})
		return n
	}
	// any verb on an image that cannot be used
	onImage := func(why, img string, verbs ...string) (ProcSpec, string) {
		v := verbs[r.intn(len(verbs))]
		switch v {
		case "ls":
			return sp(why, "ls", img)
		case "dump":
			return sp(why, "dump", img, pickOf(r, "HELLO", "DF05", "FHELLO"))
		case "put":
			a, b := sp(why, "put", img, pickOf(r, "FFOO", "DF05", "12:FBAR"), src())
			if r.chance(1, 2) {
				a.Args = append(a.Args, "-f")
			}
			return a, b
		case "rm":
			return sp(why, "rm", img, pickOf(r, "FFOO", "DF05"))
		case "mkhello":
			return sp(why, "nakedos", "mkhello", img, pickOf(r, "DF05", "06"))
		case "reorder":
			a, b := sp(why, "reorder", "--order", "do", img)
			if r.chance(1, 2) {
				a.Args = append(a.Args, "fresh.po")
			}
			return a, b
		}
		return sp(why, v)
	}
	all := []string{"ls", "dump", "put", "rm", "mkhello", "reorder"}
	nak := func(want func(*Image) bool) (string, *Image, []string) {
		name, order := r.nakDisk(p)
		im := p.image("/work/" + name)
		if want != nil && !want(im) {
			return "", nil, nil
		}
		return name, im, order
	}
	switch r.intn(46) {
	case 0:
		return onImage("missing image", pickOf(r, "none.dsk", "/nowhere/x.dsk", "sub/none.po"), all...)
	case 1:
		p.need(FileSpec{Path: "/work/adir.dsk", Dir: true, Mode: 0o755})
		return onImage("image is a directory", "adir.dsk", all...)
	case 2:
		n := pickOf(r, 0, 1, 255, 143359, 143361, 116480, 286720, 143872, 143616, 143488, 143104, 147456, 163840, 143361+r.intn(5000), r.intn(143000))
		f := fmt.Sprintf("odd%d.%s", n, pickOf(r, "dsk", "do", "po", "DSK"))
		if n > 0 && r.chance(1, 2) { // a good disk, cut off or padded
			im := pickOf(r, r.nakImage(1), r.dosImage(), r.proImage(false))
			if strings.HasSuffix(f, "po") {
				im.Order = "po"
			}
			p.need(FileSpec{Path: "/work/" + f, Image: im, Size: n})
			return onImage("wrong size", f, all...)
		}
		p.need(FileSpec{Path: "/work/" + f, Bytes: &Blob{Kind: "rand", Seed: r.next() >> 30, Len: n}})
		return onImage("wrong size", f, all...)
	case 3:
		p.need(FileSpec{Path: "/work/blank.dsk", Image: &Image{Kind: "blank"}})
		return onImage("blank image", "blank.dsk", "put", "rm", "mkhello", "dump")
	case 4:
		p.need(FileSpec{Path: "/work/vol.po", Image: r.proImage(false)})
		return sp("unknown directory", "ls", "vol.po", pickOf(r, "NO.SUCH.DIR/X", "zzz", "/"))
	case 5:
		img, order := r.dosDisk(p)
		a, b := sp("directory on DOS", "ls", img, "SUBDIR")
		a.Args = append(a.Args, order...)
		return a, b
	case 6:
		img, _, order := nak(nil)
		a, b := sp("directory on NakedOS", "ls", img, "SUBDIR")
		a.Args = append(a.Args, order...)
		return a, b
	case 7:
		img, _, _ := nak(nil)
		return sp("bad flag value", pickOf(r, "ls", "dump", "rm"), img, "DF05", pickOf(r, "--order=xx", "--system=cpm", "--nope", "--order="))
	case 8:
		img, _, order := nak(nil)
		a, b := sp("bad number", "nakedos", "mkhello", img, "DF05", "--address", pickOf(r, "0x10000", "zz", "-1", "65536", "0xg"))
		a.Args = append(a.Args, order...)
		return a, b
	case 9:
		return sp("bad command line", pickOf(r, []string{}, []string{"frobnicate"}, []string{"nakedos"}, []string{"applesoft"}, []string{"put"}, []string{"put", "x.dsk"}, []string{"reorder"}, []string{"mksd", "x.dsk"}, []string{"ls", "a", "b", "c"}, []string{"--bogus"})...)
	case 10:
		im := r.nakImage(1)
		ext := pickOf(r, "img", "nib", "woz", "bin", "d13")
		p.need(FileSpec{Path: "/work/disk." + ext, Image: im})
		return onImage("unknown extension", "disk."+ext, "ls", "dump", "put", "rm", "mkhello")
	case 11:
		img, _, order := nak(nil)
		a, b := sp("file type", "put", "-f", img, "DF09", src(), "--filetype-name", pickOf(r, "T", "TXT", "A", "BAS", "NOSUCH", ""))
		a.Args = append(a.Args, order...)
		if a.Args[6] == "" {
			a.Args[6] = "ZZZZ"
		}
		return a, b
	case 12:
		img, order := r.dosDisk(p)
		a, b := onImage("DOS disks are read-only", img, "put", "rm")
		a.Args = append(a.Args, order...)
		return a, b
	case 13:
		p.need(FileSpec{Path: "/work/vol.po", Image: r.proImage(false)})
		return onImage("ProDOS disks are read-only", "vol.po", "put", "rm", "dump", "mkhello")
	case 14:
		p.need(FileSpec{Path: "/work/vol.hdv", Image: r.proImage(true)})
		verbs := []string{"put", "rm", "dump", "mkhello", "reorder"}
		if p.image("/work/vol.hdv").p("blocks", 280) == 280 {
			verbs = verbs[:4] // floppy-sized: reorder is in its rights
		}
		return onImage("ProDOS disks are read-only", "vol.hdv", verbs...)
	case 15, 16:
		img, im, order := nak(func(im *Image) bool { return len(im.Files) > 0 })
		if im == nil {
			return r.refused(p)
		}
		f := im.Files[r.intn(len(im.Files))]
		nm := r.numName(f.Num)
		if im.P["nosyms"] == 0 && r.chance(1, 2) {
			nm += ":FNEWNM"
		}
		a, b := sp("exists", "put", img, nm, src())
		a.Args = append(a.Args, order...)
		return a, b
	case 17, 18:
		img, im, order := nak(func(im *Image) bool { return len(im.Syms) < 800 })
		if im == nil {
			return r.refused(p)
		}
		n := fmt.Sprintf("big%d.bin", len(p.Files))
		p.need(FileSpec{Path: "/work/" + n, Bytes: &Blob{Kind: "rand", Seed: r.next() >> 30, Len: r.rang(548*256+1, 160000)}})
		nm := pickOf(r, "DF1E", "1E:FBIGGY")
		if im.P["nosyms"] == 0 && r.chance(1, 2) {
			nm = "FTOOBIG"
		}
		if im.P["nosyms"] == 1 {
			nm = "DF1E"
		}
		a, b := sp("no space", "put", "-f", img, nm, n)
		a.Args = append(a.Args, order...)
		return a, b
	case 19, 20:
		img, _, order := nak(nil)
		a, b := sp("bad name", "put", img, pickOf(r, "XY", "TOOLONGNAME", "BAD-NAME", "A.B.C", "SP ACE", "DF00:FOO", "FF:FOO", "DF05:06", "DF05:FOO:BAR", "DF07:NO_GO", ":FOO"), src(), "-f")
		a.Args = append(a.Args, order...)
		return a, b
	case 21:
		img, _, order := nak(nil)
		p.need(FileSpec{Path: "/work/empty.bin", Bytes: &Blob{Kind: "zero"}})
		a, b := sp("empty contents", "put", img, "DF1E", "empty.bin", "-f")
		a.Args = append(a.Args, order...)
		return a, b
	case 22:
		img, _, order := nak(nil)
		p.need(FileSpec{Path: "/work/adir.dsk", Dir: true, Mode: 0o755})
		a, b := sp("missing contents", "put", img, "DF1E", pickOf(r, "nosuch.bin", "adir.dsk"), "-f")
		a.Args = append(a.Args, order...)
		return a, b
	case 23:
		return sp("both from stdin", "put", "-", "DF05", "-")
	case 24:
		img, im, order := nak(func(im *Image) bool { return im.P["nosyms"] == 1 })
		if im == nil {
			return r.refused(p)
		}
		a, b := sp("no symbol table", "put", img, pickOf(r, "FFOO", "05:FFOO"), src(), "-f")
		a.Args = append(a.Args, order...)
		return a, b
	case 25, 26:
		img, im, order := nak(nil)
		_ = im
		a, b := sp("bad address", "nakedos", "mkhello", img, "DF05")
		switch r.intn(3) {
		case 0:
			a.Args = append(a.Args, "--address", fmt.Sprintf("0x%x", r.rang(1, 0xbf)<<8+r.rang(1, 255)))
		case 1:
			a.Args = append(a.Args, "--address", "0x2000", "--start", fmt.Sprintf("0x%x", pickOf(r, r.rang(0, 0x1fff), r.rang(0, 0x1fff), 0, 1, 0xff, 0x1f00, 0x1fff)))
		default:
			a.Args[3] = pickOf(r, "ZZNOSUCH", "DF00", "FF", "DF05:FOO:BAR")
		}
		a.Args = append(a.Args, order...)
		return a, b
	case 27, 28:
		img, im, order := nak(nil)
		have := map[int]bool{3: true, 4: true, 0xfd: true}
		ord := im.Order
		if ord == "" {
			ord = "do"
		}
		if d, err := decodeNak(im.build(), ord); err == nil {
			for n := 1; n < 0xfe; n++ {
				have[n] = have[n] || len(d.file(n)) > 0
			}
		}
		k := 5
		for have[k] {
			k++
		}
		if k > 0xfc {
			return r.refused(p)
		}
		a, b := sp("no such file", pickOf(r, "rm", "dump"), img, pickOf(r, r.numName(k), "ZZNOSUCH"))
		a.Args = append(a.Args, order...)
		return a, b
	case 29, 30:
		p.need(FileSpec{Path: "/work/a.dsk", Image: &Image{Kind: "rand", Seed: r.next() >> 30}})
		p.need(FileSpec{Path: "/work/b.po", Image: &Image{Kind: "rand", Seed: r.next() >> 30}})
		p.need(FileSpec{Path: "/work/c.img", Image: &Image{Kind: "rand", Seed: r.next() >> 30}})
		return sp("ambiguous orders", append([]string{"reorder"}, pickOf(r, []string{"c.img"}, []string{"c.img", "d.img"}, []string{"a.dsk", "new.do"}, []string{"a.dsk", "new.dsk"}, []string{"b.po", "new.po"}, []string{"--order", "do", "--new-order", "do", "a.dsk"}, []string{"--order", "po", "--new-order", "po", "a.dsk", "x.po"}, []string{"-f", "a.dsk", "a.dsk"})...)...)
	case 31, 32:
		p.need(FileSpec{Path: "/work/a.dsk", Image: &Image{Kind: "rand", Seed: r.next() >> 30}})
		p.need(FileSpec{Path: "/work/old.po", Bytes: r.blob(4000), Mode: 0o600})
		p.need(FileSpec{Path: "/work/adir.po", Dir: true, Mode: 0o755})
		p.need(FileSpec{Path: "/work/adir.po/x", Bytes: r.blob(10)})
		p.need(FileSpec{Path: "/work/ln.po", Link: "old.po"})
		switch r.intn(4) {
		case 0:
			return sp("destination exists", "reorder", "a.dsk", pickOf(r, "old.po", "ln.po"))
		case 1:
			return sp("no directory", "reorder", "a.dsk", "nodir/new.po")
		case 2:
			return sp("destination is a directory", "reorder", "a.dsk", "adir.po", "-f")
		default:
			return sp("destination is a directory", "reorder", "a.dsk", "adir.po")
		}
	case 33, 34, 35:
		p.need(FileSpec{Path: "/work/mcode.bin", Bytes: &Blob{Kind: "rand", Seed: 7, Len: r.rang(300, 9000)}})
		p.need(FileSpec{Path: "/work/mhuge.bin", Bytes: &Blob{Kind: "rand", Seed: 7, Len: pickOf(r, r.rang(0xc000, 0x10000), r.rang(45057, 46848), 45057)}})
		p.need(FileSpec{Path: "/work/zero.bin", Bytes: &Blob{Kind: "zero"}})
		p.need(FileSpec{Path: "/work/sd.dsk", Image: &Image{Kind: "rand", Seed: r.next() >> 30}})
		p.need(FileSpec{Path: "/work/adir.po", Dir: true, Mode: 0o755})
		dst := pickOf(r, "sd.dsk", "fresh.dsk", "fresh.po")
		switch r.intn(8) {
		case 0:
			return sp("unaligned", "mksd", dst, "mcode.bin", "--address", fmt.Sprintf("0x%x", 0x2000+r.rang(1, 255)))
		case 1:
			return sp("start below address", "mksd", dst, "mcode.bin", "--address", "0x4000", "--start", fmt.Sprintf("0x%x", pickOf(r, r.intn(0x4000), r.intn(0x4000), 0, 1, 0xff, 0x3f00, 0x3fff)))
		case 2:
			return sp("start beyond the end", "mksd", dst, "mcode.bin", "--address", "0x4000", "--start", fmt.Sprintf("0x%x", 0x4000+r.rang(9000, 0x4000)))
		case 3:
			return sp("too big", "mksd", dst, "mhuge.bin", "--address", "0x0900")
		case 4:
			return sp("past $BFFF", "mksd", dst, "mcode.bin", "--address", "0xbf00")
		case 5:
			return sp("nothing to load", "mksd", dst, "zero.bin")
		case 6:
			return sp("missing binary", "mksd", dst, pickOf(r, "nosuch.bin", "nodir/x"))
		default:
			return sp("bad destination", "mksd", pickOf(r, "adir.po", "nodir/x.dsk"), "mcode.bin")
		}
	case 36, 37:
		_, b := r.basProg(0x801)
		if len(b) < 8 {
			return r.refused(p)
		}
		b = b[:r.rang(3, len(b)-3)]
		if x := int(b[0]) + 256*int(b[1]); x == len(b)-2 || x == len(b)-3 || x == 0 {
			return r.refused(p)
		}
		n := fmt.Sprintf("cut%d.bas", len(p.Files))
		p.need(FileSpec{Path: "/work/" + n, Bytes: &Blob{Kind: "hex", Hex: hexOf(b)}})
		return sp("bad links", "applesoft", "decode", n)
	case 38:
		p.need(FileSpec{Path: "/work/adir.dsk", Dir: true, Mode: 0o755})
		return sp("missing program", "applesoft", "decode", pickOf(r, "nosuch.bas", "adir.dsk"))
	case 39, 40:
		// write protected
		im := r.nakImage(1)
		p.need(FileSpec{Path: "/work/ro.dsk", Image: im, Mode: 0o444})
		im = p.image("/work/ro.dsk")
		if len(im.Files) == 0 || r.chance(1, 3) {
			return sp("write protected", "reorder", "ro.dsk")
		}
		f := im.Files[r.intn(len(im.Files))]
		return sp("write protected", "rm", "ro.dsk", r.numName(f.Num))
	case 41:
		p.need(FileSpec{Path: "/work/secret.dsk", Image: r.nakImage(1), Mode: 0o200})
		return onImage("unreadable", "secret.dsk", all...)
	case 42:
		img, _, order := nak(nil)
		a, b := sp("wrong system", pickOf(r, "dump", "rm"), img, "DF05", "--system", "dos3")
		a.Args = append(a.Args, order...)
		return a, b
	case 43:
		p.need(FileSpec{Path: "/work/vol.hdv", Image: r.proImage(true)})
		a, b := sp("wrong system", "ls", "vol.hdv", pickOf(r, "--system=dos3", "--system=nakedos", "--order=do"))
		if p.image("/work/vol.hdv").p("blocks", 280) == 280 {
			return r.refused(p) // floppy-sized: treated as a floppy
		}
		if r.chance(1, 3) { // half a block too many or too few
			n := pickOf(r, 1, 256, 511, 700, 1025, 280*512-1, 280*512+256, 281*512-3)
			f := fmt.Sprintf("half%d.%s", n, pickOf(r, "hdv", "HDV"))
			p.need(FileSpec{Path: "/work/" + f, Image: r.proImage(true), Size: n})
			return onImage("wrong size", f, "ls", "dump", "put", "rm", "mkhello")
		}
		return a, b
	case 44:
		f := fmt.Sprintf("noise%d.%s", len(p.Files), pickOf(r, "dsk", "do", "po"))
		im := &Image{Kind: "rand", Seed: r.next() >> 30}
		p.need(FileSpec{Path: "/work/" + f, Image: im})
		return onImage("no known format", f, "ls", "dump", "put", "rm", "mkhello")
	default:
		p.need(FileSpec{Path: "/work/dangling.dsk", Link: "/nowhere/at/all.dsk"})
		return onImage("dangling link", "dangling.dsk", all...)
	}
}

func refuseGen(r *rng) *Plan {
	p := &Plan{Params: map[string]int{}}
	n := r.rang(1, 5)
	for i := 0; i < n; i++ {
		if r.chance(1, 4) {
			ps := r.command(p)
			v := parseCmd(ps.Args).verb
			if v == "ls" || v == "dump" || v == "decode" || v == "filetypes" {
				r.addFaults(&ps, 30, 20, 20, 40)
				p.Steps = append(p.Steps, Step{Op: "readonly", Procs: []ProcSpec{ps}})
				continue
			}
		}
		ps, why := r.refused(p)
		r.addFaults(&ps, 25, 10, 10, 60)
		p.Steps = append(p.Steps, Step{Op: "refused", Str: why, Procs: []ProcSpec{ps}})
	}
	return p
}

func refuseExec(w *World) *Violation {
	for i := range w.p.Steps {
		s := &w.p.Steps[i]
		ps := &s.Procs[0]
		w.fs().settle()
		before := w.fs().snapshot("/")
		res := w.run(&Step{Procs: []ProcSpec{*ps}, Loss: s.Loss})[0]
		after := w.fs().snapshot("/")
		desc := fmt.Sprintf("step %d: diskii %s (%s: %s) [%s, %v]", i, strings.Join(ps.Args, " "), s.Op, s.Str, res.St, res.Fired)
		if res.St.Panic != "" || res.St.Hung != "" || res.St.Block {
			return viol("crash", "%s", desc)
		}
		w.st.probe(s.Op + " " + s.Str)
		if d := diffSnap(before, after, nil); len(d) > 0 {
			return viol("changed", "%s: %s", desc, strings.Join(d, "; "))
		}
		if res.St.Signal != "" {
			continue
		}
		if s.Op == "refused" {
			if len(w.p.Files) != w.p.Params["files"] && w.p.Params["files"] > 0 {
				continue // files were minimised away
			}
			if res.St.Code == 0 {
				return viol("accepted", "%s: succeeds, stdout %s", desc, cut(res.Out, 100))
			}
		}
		if res.St.Code != 0 && len(res.Err) == 0 {
			return viol("silent", "%s: no message on standard error", desc)
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C04", Gen: func(r *rng) *Plan {
		p := refuseGen(r)
		p.Params["files"] = len(p.Files)
		return p
	}, Exec: refuseExec, Quick: 12000, Deep: 500000, Must: []string{"readonly ", "refused exists", "refused no space", "refused write protected", "refused destination exists", "refused too big"}, Stub: "snapshot of the simulated file system"})
}
