//go:build go1.21

package harness

import (
	"fmt"
	"os"
	"runtime/metrics"
	"strings"
)

// C11: damaged and hostile input. Liveness is bounded progress: a command must
// end within a number of steps proportional to its input, without a panic.

// field is a place in an image worth damaging.
type field struct {
	off  int
	kind string // ts, blk, byte, len
}

// fields lists the structure of a freshly built image, in its native space.
func (im *Image) fields() (fs []field, ptrs [][2]byte) {
	c := *im
	c.Edits, c.Len, c.Order = nil, 0, ""
	switch im.Kind {
	case "dos33":
		b := c.build()
		at := func(t, s byte) int { return (int(t)*4096 + int(s)*256) % (len(b) &^ 255) }
		seen := map[int]bool{}
		v := at(17, 0)
		fs = append(fs, field{v + 1, "ts"}, field{v + 3, "byte"}, field{v + 6, "byte"}, field{v + 0x27, "byte"}, field{v + 0x34, "byte"}, field{v + 0x35, "byte"}, field{v + 0x36, "len"})
		for t, s := b[v+1], b[v+2]; t != 0 && !seen[at(t, s)]; {
			o := at(t, s)
			seen[o] = true
			ptrs = append(ptrs, [2]byte{t, s})
			fs = append(fs, field{o + 1, "ts"}, field{o + 1, "ts"})
			for i := 0; i < 7; i++ {
				e := o + 0x0b + 35*i
				fs = append(fs, field{e, "ts"}, field{e + 2, "byte"}, field{e + 3 + i*4, "byte"}, field{e + 0x21, "len"})
				if b[e] == 0 || b[e] == 0xff {
					continue
				}
				for lt, ls := b[e], b[e+1]; lt != 0 && !seen[at(lt, ls)]; {
					l := at(lt, ls)
					seen[l] = true
					ptrs = append(ptrs, [2]byte{lt, ls})
					fs = append(fs, field{l + 1, "ts"}, field{l + 1, "ts"}, field{l + 1, "ts"}, field{l + 12, "ts"}, field{l + 14, "ts"}, field{l + 5, "len"})
					if lt == b[e] && ls == b[e+1] && b[l+12] != 0 { // the recorded length
						d := at(b[l+12], b[l+13])
						fs = append(fs, field{d, "len"}, field{d + 2, "len"})
					}
					lt, ls = b[l+1], b[l+2]
				}
			}
			t, s = b[o+1], b[o+2]
		}
	case "prodos":
		b := c.build()
		seen := map[int]bool{}
		var dir func(n int)
		dir = func(n int) {
			first := true
			for n != 0 && !seen[n] && n*512+512 <= len(b) {
				seen[n] = true
				o := n * 512
				ptrs = append(ptrs, [2]byte{byte(n), byte(n >> 8)})
				fs = append(fs, field{o, "blk"}, field{o + 2, "blk"}, field{o + 2, "blk"}, field{o + 511, "byte"})
				for i := 0; i < 13; i++ {
					e := o + 4 + i*0x27
					if first && i == 0 {
						fs = append(fs, field{e, "byte"}, field{e + 0x1f, "byte"}, field{e + 0x20, "byte"}, field{e + 0x21, "len"}, field{e + 0x23, "blk"}, field{e + 0x23, "blk"}, field{e + 0x25, "len"}, field{e + 0x10, "byte"})
						continue
					}
					if b[e] == 0 {
						continue
					}
					fs = append(fs, field{e, "byte"}, field{e + 0x11, "blk"}, field{e + 0x13, "len"}, field{e + 0x25, "blk"})
					if b[e]>>4 == 0xd {
						fs = append(fs, field{e + 0x11, "blk"}, field{e, "byte"})
						dir(int(b[e+0x11]) + 256*int(b[e+0x12]))
					}
				}
				first = false
				n = int(b[o+2]) + 256*int(b[o+3])
			}
		}
		dir(2)
	case "nakedos":
		for i := 0; i < 560; i += 7 {
			fs = append(fs, field{9*256 + 0xd0 + i, "byte"})
		}
		n, err := decodeNak(c.build(), "do")
		if err == nil && n.st {
			s3 := n.sectors(3)
			for i := 0; i < 819 && i < 40; i++ {
				o := i * 5
				fs = append(fs, field{s3[o/256]*256 + o%256, "byte"}, field{s3[(o+2)/256]*256 + (o+2)%256, "link"})
				l := 0xD000 + 5*i
				ptrs = append(ptrs, [2]byte{byte(l), byte(l >> 8)})
			}
		}
	}
	return
}

// hostile links nearly the whole of an image into one structure: chains as long
// as they get, and trees whose branches all meet again.
func (im *Image) hostile(b []byte) {
	r := newRng(im.Seed ^ 0x5eed)
	how, n := im.P["hostile"], im.p("hn", 100)
	switch im.Kind {
	case "dos33":
		at := func(t, s int) []byte { return b[t*4096+s*256 : t*4096+s*256+256] }
		var ss [][2]int
		for t := 1; t < 35; t++ {
			for s := 0; s < 16; s++ {
				if t != 17 {
					ss = append(ss, [2]int{t, s})
				}
			}
		}
		if n > len(ss) {
			n = len(ss)
		}
		v := at(17, 0)
		ct, cs := int(v[1]), int(v[2])
		if ct > 34 || cs > 15 {
			return
		}
		cat := at(ct, cs)
		if how == 1 { // one file of n track/sector lists
			e := cat[0x0b:]
			e[0], e[1], e[2] = byte(ss[0][0]), byte(ss[0][1]), 4
			for i := 0; i < n; i++ {
				l := at(ss[i][0], ss[i][1])
				for j := range l {
					l[j] = 0
				}
				if i+1 < n {
					l[1], l[2] = byte(ss[i+1][0]), byte(ss[i+1][1])
				}
				l[5], l[6] = byte(122*i), byte(122*i>>8)
				for j := 0; j < 122 && r.chance(9, 10); j++ {
					x := ss[r.intn(len(ss))]
					l[12+2*j], l[13+2*j] = byte(x[0]), byte(x[1])
				}
			}
			return
		}
		// a catalog of n sectors, all full
		prev := cat
		for i := 0; i < n; i++ {
			prev[1], prev[2] = byte(ss[i][0]), byte(ss[i][1])
			c := at(ss[i][0], ss[i][1])
			copy(c, cat)
			c[1], c[2] = 0, 0
			prev = c
		}
	case "prodos":
		nb := len(b) / 512
		blk := func(i int) []byte { return b[i*512 : i*512+512] }
		if n > nb-12 {
			n = nb - 12
		}
		put := func(x []byte, o, v int) { x[o], x[o+1] = byte(v), byte(v>>8) }
		name := func(e []byte, typ, i int) {
			s := fmt.Sprintf("D%d", i)
			e[0] = byte(typ<<4 | len(s))
			copy(e[1:16], s+"                ")
		}
		first := 12
		dir := func(i, parent int, kids func(j int) int) {
			d := blk(i)
			for j := range d {
				d[j] = 0
			}
			name(d[4:], 14, i)
			d[4+0x1f], d[4+0x20] = 0x27, 0x0d
			put(d, 4+0x23, parent)
			d[4+0x25], d[4+0x26] = 1, 0x27
			for j := 1; j <= 12; j++ {
				if k := kids(j); k > 0 {
					e := d[4+j*0x27:]
					name(e, 13, k)
					put(e, 0x11, k)
					put(e, 0x25, i)
				}
			}
		}
		v := blk(2)
		switch how {
		case 1: // the volume directory goes through everything
			put(v, 2, first)
			for i := 0; i < n; i++ {
				d := blk(first + i)
				copy(d[4:], blk(3)[4:])
				put(d, 0, first+i-1)
				put(d, 2, 0)
				if i+1 < n {
					put(d, 2, first+i+1)
				}
			}
		case 2: // every directory has the next one twelve times
			for j := 1; j <= 12; j++ {
				e := v[4+j*0x27:]
				name(e, 13, first)
				put(e, 0x11, first)
			}
			for i := 0; i < n; i++ {
				par := 2
				if i > 0 {
					par = first + i - 1
				}
				dir(first+i, par, func(j int) int {
					if i+1 < n {
						return first + i + 1
					}
					return 0
				})
			}
		case 3: // directories of each other
			e := v[4+0x27:]
			name(e, 13, first)
			put(e, 0x11, first)
			for i := 0; i < n; i++ {
				dir(first+i, pickOf(r, 2, first+r.intn(n), first+i), func(j int) int { return first + r.intn(n) })
			}
		default: // one subdirectory goes through everything
			e := v[4+0x27:]
			name(e, 13, first)
			put(e, 0x11, first)
			dir(first, 2, func(int) int { return 0 })
			for i := 0; i < n; i++ {
				put(blk(first+i), 2, first+i+1)
				if i > 0 {
					d := blk(first + i)
					copy(d[4:], v[4+0x27:4+13*0x27])
				}
			}
			put(blk(first+n-1), 2, pickOf(r, 0, 0, first, first+n/2))
		}
	}
}

// damage edits an image.
func (r *rng) damage(im *Image) {
	fs, ptrs := im.fields()
	n := pickOf(r, 1, 1, 1, 2, 2, 3, 5, 12)
	for ; n > 0; n-- {
		if len(fs) == 0 || r.chance(1, 10) {
			im.Edits = append(im.Edits, Edit{Off: r.intn(floppy), Hex: hexOf(r.bytes(pickOf(r, 1, 2, 4, 256)))})
			continue
		}
		f := fs[r.intn(len(fs))]
		var v []byte
		switch f.kind {
		case "byte":
			v = []byte{pickOf(r, 0, 1, 0xff, 0xfe, 0x7f, 0x80, 0xd1, 0xdf, 0xe3, 0xf0, 13, 14, 35, 36, byte(r.next()))}
		case "len":
			v = pickOf(r, []byte{0xff, 0xff}, []byte{0, 0}, []byte{1, 0}, []byte{0xfe, 0xff}, []byte{0, 1}, r.bytes(2))
		default:
			k := r.intn(6)
			if f.kind == "link" && k == 1 { // the ends of the symbol table
				l := pickOf(r, 0xdfff, 0xdffe, 0xdffd, 0xdffb, 0xdffa, 0xdff5, 0xcfff, 0xd000, 0xd001, 0xd005, 0xe000, 0xcffb)
				v = []byte{byte(l), byte(l >> 8)}
				break
			}
			switch k {
			case 0:
				v = r.bytes(2)
			case 1:
				v = pickOf(r, []byte{0, 0}, []byte{0xff, 0xff}, []byte{34, 15}, []byte{35, 0}, []byte{34, 16}, []byte{0, 5}, []byte{5, 0}, []byte{2, 0}, []byte{17, 0}, []byte{17, 15}, []byte{255, 0}, []byte{6, 0})
			default:
				if len(ptrs) == 0 {
					v = r.bytes(2)
				} else {
					x := ptrs[r.intn(len(ptrs))]
					v = x[:]
				}
			}
		}
		im.Edits = append(im.Edits, Edit{Off: f.off, Hex: hexOf(v)})
	}
	if r.chance(1, 15) {
		im.Len = pickOf(r, 1, 143359, 143361, r.intn(143360), 116480)
	}
	if im.Kind == "prodos" && len(ptrs) > 0 && r.chance(1, 12) {
		// it ends in the middle of something it needs
		x := ptrs[r.intn(len(ptrs))]
		im.Len = (int(x[0])+256*int(x[1]))*512 + pickOf(r, 256, 256, 511, 1, 4, 0)
		if im.Len == 0 {
			im.Len = 1
		}
	}
}

func damageGen(r *rng) *Plan {
	p := &Plan{Params: map[string]int{}}
	order := []string{}
	switch k := r.intn(20); {
	case k < 14:
		var im *Image
		name := "disk.dsk"
		var names []string
		switch k % 3 {
		case 0:
			im = r.dosImage()
			if r.chance(1, 3) { // many files only make it slow
				im.Files = im.Files[:len(im.Files)/2]
			}
			_, ref := im.dos33()
			names = append(ref.names, "HELLO")
		case 1:
			hdv := r.chance(1, 3)
			im = r.proImage(hdv)
			name = "disk.po"
			if hdv {
				name = "disk.hdv"
				if r.chance(1, 40) {
					im.P["blocks"] = 65536
				}
			}
			names = append(im.dirs(), "SUB", "A")
		default:
			im = r.nakImage(1)
			names = []string{"DF05", "FHELLO", "03", "04", "DF01"}
			for _, s := range im.Syms {
				if len(names) < 12 {
					names = append(names, s.Name)
				}
			}
		}
		if r.chance(1, 8) && (im.Kind == "dos33" || im.Kind == "prodos") {
			if im.P == nil {
				im.P = map[string]int{}
			}
			im.P["hostile"] = r.rang(1, 4)
			im.P["hn"] = pickOf(r, 3, 10, 30, 65, 100, 250, 600, 600)
			if r.chance(1, 3) {
				im.P["hn"] = 70000
			}
			p.Params["hostile"] = 1
		}
		if p.Params["hostile"] == 0 || r.chance(1, 3) {
			r.damage(im)
		}
		if im.Kind != "prodos" && r.chance(1, 3) {
			im.Order, name = "po", "disk.po"
		}
		p.Files = append(p.Files, FileSpec{Path: "/work/" + name, Image: im})
		if r.chance(1, 4) && name != "disk.hdv" {
			order = []string{"--order", pickOf(r, "do", "po")}
		}
		for n := r.rang(1, 4); n > 0; n-- {
			nm := names[r.intn(len(names))]
			if nm == "" || nm[0] == '-' {
				nm = "X"
			}
			var args []string
			switch r.intn(12) {
			case 0, 1:
				args = []string{"ls", name}
				if r.chance(1, 3) {
					args = append(args, "--system", pickOf(r, "dos3", "prodos", "nakedos"))
				}
			case 2, 3:
				args = []string{"ls", name, nm}
				if im.Kind != "prodos" {
					args = args[:2]
				}
			case 4, 5, 6:
				args = []string{"dump", name, nm}
			case 7:
				p.need(FileSpec{Path: "/work/src.bin", Bytes: r.blob(3000)})
				args = []string{"put", "-f", name, pickOf(r, nm, "10:FNEW", "FNEW2"), "src.bin"}
			case 8:
				args = []string{"rm", name, nm}
			case 9:
				args = []string{"nakedos", "mkhello", name, pickOf(r, nm, "DF06")}
			default:
				p.Steps = append(p.Steps, Step{Op: "lib-open", Str: "/work/" + name, Arg: map[string]int{"sys": r.intn(4), "ord": r.intn(3), "debug": pickOf(r, 0, 0, 0, 2)}})
				continue
			}
			args = append(args, order...)
			if r.chance(1, 12) {
				args = append(args, pickOf(r, "-v", "-vv"))
			}
			ps := ProcSpec{Args: args}
			st := Step{Op: "cmd", Procs: []ProcSpec{ps}}
			if r.chance(1, 12) && len(p.Steps) == 0 {
				// another program rewrites the image in place at the same time
				st.Op = "torn"
				st.Str = "/work/" + name
				st.Sched = r.sched(60)
				st.Arg = map[string]int{"chunk": pickOf(r, 4096, 256, 10000, 143360), "how": r.intn(3)}
				b2 := *im
				b2.Edits = nil
				r.damage(&b2)
				b2.Seed++
				p.need(FileSpec{Path: "/work/other.img", Image: &b2})
			}
			p.Steps = append(p.Steps, st)
		}
	case k < 18:
		var b []byte
		loc := pickOf(r, 0x801, 0x801, 0, 1, 0xffff, 0xfff0, r.intn(0x10000))
		if r.chance(1, 5) {
			b = r.bytes(pickOf(r, 0, 1, 2, 3, 4, 5, 6, r.intn(300)))
		} else {
			_, b = r.basProg(0x801)
			if r.chance(1, 3) {
				b = append([]byte{byte(len(b)), byte(len(b) >> 8)}, b...)
			}
			for n := r.rang(1, 4); n > 0 && len(b) > 0; n-- {
				switch r.intn(5) {
				case 0:
					b = b[:r.intn(len(b)+1)]
				case 1: // a link
					o := 0
					for q := r.intn(6); q > 0 && o+4 < len(b); q-- {
						if nx := int(b[o]) + 256*int(b[o+1]) - 0x801; nx > o && nx+4 < len(b) {
							o = nx
						}
					}
					v := pickOf(r, 0x801, 0x801+o, 0x800, 0x801+len(b), 0x800+len(b), 0x7ff+len(b), 0, 1, 0xffff, r.intn(0x10000), 0x801+r.intn(len(b)))
					if o+1 < len(b) {
						b[o], b[o+1] = byte(v), byte(v>>8)
					}
				case 2:
					b[r.intn(len(b))] = byte(pickOf(r, 0, 0xeb, 0xff, 0x80, r.intn(256)))
				case 3:
					b = append(b, r.bytes(r.intn(10))...)
				default:
					copy(b[r.intn(len(b)):], r.bytes(r.intn(20)))
				}
			}
		}
		p.Files = append(p.Files, FileSpec{Path: "/work/p.bas", Bytes: &Blob{Kind: "hex", Hex: hexOf(b)}})
		if r.chance(1, 2) {
			ps := ProcSpec{Args: []string{"applesoft", "decode", "p.bas", "--location", fmt.Sprint(loc)}}
			if r.chance(1, 2) {
				ps.Args = append(ps.Args, "-r")
			}
			p.Steps = append(p.Steps, Step{Op: "cmd", Procs: []ProcSpec{ps}})
		}
		p.Steps = append(p.Steps, Step{Op: pickOf(r, "lib-app", "lib-int", "lib-int"), Str: "/work/p.bas", Arg: map[string]int{"loc": loc}})
		// Integer programs: lines of length, number, tokens, 1.
		var q []byte
		for n := r.intn(8); n > 0; n-- {
			body := r.bytes(r.intn(30))
			for i := range body {
				if r.chance(1, 3) {
					body[i] = byte(0xb0 + r.intn(10)) // numbers
				}
			}
			l := 4 + len(body)
			if r.chance(1, 8) {
				l = pickOf(r, 0, 1, 2, 3, 4, 255, r.intn(256))
			}
			q = append(append(append(q, byte(l), byte(n), 0), body...), 1)
		}
		if r.chance(1, 3) {
			q = append([]byte{byte(len(q)), byte(len(q) >> 8)}, q...)
		}
		p.Files = append(p.Files, FileSpec{Path: "/work/i.bas", Bytes: &Blob{Kind: "hex", Hex: hexOf(q)}})
		p.Steps = append(p.Steps, Step{Op: "lib-int", Str: "/work/i.bas"})
	case k == 18:
		// anything at all
		n := pickOf(r, 0, 1, 100, 512, 1024, 143360, 143360, 116480, 143872, r.intn(300000), 512*r.intn(600))
		name := "any." + pickOf(r, "dsk", "po", "do", "hdv", "hdv", "bin", "d13")
		p.Files = append(p.Files, FileSpec{Path: "/work/" + name, Bytes: &Blob{Kind: pickOf(r, "rand", "zero", "zeroend"), Seed: r.next() >> 30, Len: n}})
		p.need(FileSpec{Path: "/work/src.bin", Bytes: r.blob(3000)})
		for _, a := range [][]string{{"ls", name}, {"ls", name, "A/B"}, {"dump", name, "HELLO"}, {"put", "-f", name, "DF10", "src.bin"}, {"rm", name, "DF01"}, {"nakedos", "mkhello", name, "DF02"}, {"reorder", "--order", "do", name, "out.po"}} {
			if r.chance(1, 2) {
				if r.chance(1, 3) && a[0] != "reorder" {
					a = append(a, "--order", pickOf(r, "do", "po"))
				}
				p.Steps = append(p.Steps, Step{Op: "cmd", Procs: []ProcSpec{{Args: a}}})
			}
		}
	default:
		p.Files = append(p.Files, FileSpec{Path: "/work/x.bin", Bytes: &Blob{Kind: "rand", Seed: r.next() >> 30, Len: pickOf(r, 0, 1, 255, 256, 257, 45311, 45312, 45313, 65536, r.intn(200000))}})
		a := []string{"mksd", "out.dsk", "x.bin"}
		if r.chance(2, 3) {
			a = append(a, "--address", fmt.Sprint(pickOf(r, 0, 256, 0xff00, 0x900, 0x800, 65535, r.intn(256)*256, r.intn(65536))))
		}
		if r.chance(1, 3) {
			a = append(a, "--start", fmt.Sprint(r.intn(65536)))
		}
		p.Steps = append(p.Steps, Step{Op: "cmd", Procs: []ProcSpec{{Args: a}}})
		nm, ord := r.nakDisk(p)
		b := append([]string{"put", "-f", nm, pickOf(r, "DF09", "FXX", "1:"+strings.Repeat("Q", r.intn(12)), "::", "", "DF", "ffffffffffffffffff"), "x.bin"}, ord...)
		p.Steps = append(p.Steps, Step{Op: "cmd", Procs: []ProcSpec{{Args: b}}})
	}
	return p
}

// allocated is the number of bytes allocated so far.
func allocated() uint64 {
	m := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(m)
	return m[0].Value.Uint64()
}

var sysNames = []string{"auto", "dos3", "prodos", "nakedos"}
var ordNames = []string{"auto", "do", "po"}

func damageExec(w *World) *Violation {
	if w.p.Params["hostile"] == 1 {
		w.st.probe("hostile")
	}
	for i := range w.p.Steps {
		s := &w.p.Steps[i]
		size := 0
		for _, f := range w.p.Files {
			size += len(w.read(f.Path))
		}
		if size > 4_000_000 {
			w.st.probe("large input")
		}
		// Generous: good images of this size take about a tenth at most.
		w.budget = int64(3_000_000 + 20*size)
		if w.p.Params["hostile"] == 1 && size < 1_000_000 {
			// A sector of a track/sector list can stand for 122 of zeros.
			w.budget += int64(200 * size)
		}
		desc := fmt.Sprintf("step %d: %s %s", i, s.Op, s.Str)
		var rs []Result
		lib := func(f func()) {
			rs = w.run(&Step{Procs: []ProcSpec{{Args: []string{s.Op}, body: func(p *proc) { f() }, Slice: []int{1 << 30}}}})
		}
		b := w.read(s.Str)
		mem := allocated()
		switch s.Op {
		case "cmd":
			desc = fmt.Sprintf("step %d: diskii %s", i, strings.Join(s.Procs[0].Args, " "))
			rs = w.run(s)
		case "torn":
			desc = fmt.Sprintf("step %d: diskii %s while the image is rewritten", i, strings.Join(s.Procs[0].Args, " "))
			other := w.read("/work/other.img")
			t := *s
			how, chunk := s.Arg["how"], s.Arg["chunk"]
			t.Procs = append(append([]ProcSpec(nil), s.Procs...), ProcSpec{Args: []string{"rewriter"}, Slice: []int{1 << 30}, body: func(p *proc) {
				fl := os.O_WRONLY
				if how == 1 {
					fl |= os.O_TRUNC
				}
				f, err := os.OpenFile(s.Str, fl, 0)
				if err != nil {
					return
				}
				for o := 0; o < len(other); o += chunk {
					e := o + chunk
					if e > len(other) {
						e = len(other)
					}
					f.Write(other[o:e])
				}
				if how == 2 {
					f.Truncate(int64(len(other) / 2))
				}
				f.Close()
			}})
			rs = w.run(&t)
			w.st.probe("torn")
		case "lib-open":
			sys, ord := sysNames[s.Arg["sys"]%4], ordNames[s.Arg["ord"]%3]
			desc = fmt.Sprintf("step %d: disk.OpenImage(%s, order %s, system %s), Catalog, GetFile", i, s.Str, ord, sys)
			left := 60
			if w.p.Params["hostile"] == 1 { // the budget is for one file
				left = 1
			}
			lib(func() { libOpen(b, s.Str, sys, ord, s.Arg["debug"], left) })
		case "lib-app":
			desc = fmt.Sprintf("step %d: applesoft.Decode(%d bytes, %#x)", i, len(b), s.Arg["loc"])
			lib(func() { libApplesoft(b, s.Arg["loc"]) })
		case "lib-int":
			desc = fmt.Sprintf("step %d: integer.Decode(%d bytes)", i, len(b))
			lib(func() { libInteger(b) })
		}
		if used := allocated() - mem; used > 16*uint64(size) {
			if used -= 16 * uint64(size); used > w.st.MaxAlloc {
				w.st.MaxAlloc = used
			}
			// About 50 MB at most in practice.
			if used > 400_000_000 {
				return viol("memory", "%s: takes %d MB (%d bytes of input)", desc, used>>20, size)
			}
		}
		for j, r := range rs {
			if r.St.Panic != "" {
				return viol("panic", "%s: %s", desc, r.St)
			}
			if r.St.Hung != "" || r.St.Block {
				return viol("hang", "%s: does not end: %s (%d bytes of input)", desc, r.St, size)
			}
			w.st.probe(s.Op)
			if s.Op == "cmd" || s.Op == "torn" && j == 0 {
				if r.St.Code != 0 {
					w.st.probe("refused")
					if len(r.Err) == 0 {
						return viol("silent", "%s: %s without a message", desc, r.St)
					}
				} else {
					w.st.probe("accepted")
				}
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C11", Gen: damageGen, Exec: damageExec, Quick: 12000, Deep: 900000, Must: []string{"cmd", "torn", "lib-open", "lib-app", "lib-int", "refused", "accepted", "large input", "hostile"}, Stub: "step budget and recursion bound proportional to the input"})
}
