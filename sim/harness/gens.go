//go:build go1.21

package harness

import (
	"fmt"
	"strings"
)

// Generators shared by the properties: disks, programs, commands.

const dosChars = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789. -'!#$%&()*+/:;<=>?@[]^_abcxyz\"~|"

func (r *rng) dosFileName() string {
	n := r.rang(1, 12)
	if r.chance(1, 6) {
		n = 30
	}
	b := make([]byte, n)
	for i := range b {
		if r.chance(3, 4) {
			b[i] = byte('A' + r.intn(26))
		} else {
			b[i] = dosChars[r.intn(len(dosChars))]
		}
	}
	b[0] = byte('A' + r.intn(26))
	if b[n-1] == ' ' {
		b[n-1] = 'Z'
	}
	return string(b)
}

// dosImage is a well-formed DOS 3.3 disk.
func (r *rng) dosImage() *Image {
	im := &Image{Kind: "dos33", Seed: r.next() >> 30, P: map[string]int{}}
	im.P["scatter"] = r.intn(2)
	im.P["catshuf"] = r.intn(2)
	im.P["trailing"] = r.intn(2)
	im.P["junk"] = r.intn(2)
	if r.chance(1, 3) {
		im.P["catsecs"] = r.rang(1, 15)
	}
	im.P["catany"] = r.intn(2)
	im.P["longholes"] = r.intn(2)
	im.P["nodos"] = r.intn(2)
	im.P["volume"] = r.rang(0, 254)
	im.P["down"] = r.intn(2)
	im.P["lasttrack"] = r.rang(1, 34)
	n := r.intn(14)
	if r.chance(1, 8) {
		n = r.rang(90, 105)
	}
	big := r.chance(1, 3)
	for i := 0; i < n; i++ {
		f := ImgFile{Name: r.dosFileName(), Type: pickOf(r, 0, 1, 2, 4, 4, 2, 0, 8, 0x10, 0x20, 0x40), Seed: r.next() >> 30, Locked: r.chance(1, 4), Deleted: r.chance(1, 6)}
		switch {
		case n > 50:
			f.Len = r.rang(1, 500)
		case big && r.chance(1, 2):
			f.Len = r.rang(31000, 65000)
		default:
			f.Len = pickOf(r, 1, 2, 251, 252, 253, 254, 255, 256, 257, 508, 510, 512, r.rang(1, 3000), r.rang(1, 9000))
		}
		if f.Type == 0 {
			f.Text = true
			if r.chance(1, 4) {
				f.Sparse = true
				f.Len += r.rang(0, 4000)
			}
			if big && r.chance(1, 4) {
				f.Len = r.rang(60000, 120000)
			}
			if r.chance(1, 12) {
				f.Len = 0
			}
		} else if r.chance(1, 15) {
			f.Len = 0
		}
		if r.chance(1, 5) {
			f.Extra = pickOf(r, 1, 2, 5, 100)
		}
		if big && f.Type == 4 && r.chance(1, 6) {
			f.Len = r.rang(65530, 65535)
		}
		if f.Type == 2 && r.chance(1, 2) {
			_, prog := r.basProg(0x801)
			f.Hex = hexOf(prog)
		}
		if k := len(im.Files); k > 0 && r.chance(1, 8) && im.Files[k-1].Deleted {
			f.Name = im.Files[k-1].Name // a deleted neighbour of the same name
		}
		dup := false
		for _, g := range im.Files {
			if g.Name == f.Name && !g.Deleted && !f.Deleted {
				dup = true
			}
		}
		if !dup {
			im.Files = append(im.Files, f)
		}
	}
	return im
}

func (r *rng) proFileName() string {
	if r.chance(1, 3) {
		return pickOf(r, "A", "B", "SUB", "DIR", "SUB.DIR", "X1", "LONGEST.NAME.15", "TEST.VOL")
	}
	n := r.rang(1, 15)
	b := make([]byte, n)
	for i := range b {
		b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789."[r.intn(37)]
	}
	b[0] = byte('A' + r.intn(26))
	return string(b)
}

// proImage is a well-formed ProDOS volume.
func (r *rng) proImage(hdv bool) *Image {
	im := &Image{Kind: "prodos", Seed: r.next() >> 30, P: map[string]int{"scatter": r.intn(2)}}
	if hdv {
		im.P["blocks"] = pickOf(r, 24, 279, 280, 281, 800, 1600, 4095, 4096, 4097, 8192, r.rang(20, 3000))
	}
	im.P["voldir"] = pickOf(r, 4, 4, 4, 1, 2, 3, 5, 9)
	if r.chance(1, 6) {
		im.P["volscatter"] = 1
	}
	if r.chance(1, 6) {
		im.P["bitmap"] = 1
	}
	budget := 40
	deep := r.chance(1, 6)
	maxDepth := 5
	if deep {
		maxDepth = 30
	}
	if b := im.p("blocks", 280); b < 60 {
		budget = 4
	}
	var kids func(depth, max int) []ImgFile
	kids = func(depth, max int) []ImgFile {
		n := r.intn(max + 1)
		if r.chance(1, 4) {
			n = pickOf(r, 11, 12, 13, 24, 25, 26, 38, 51, 52, 64, 77, 100, 116)
		}
		var fs []ImgFile
		have := map[string]bool{}
		for i := 0; i < n; i++ {
			f := ImgFile{Name: r.proFileName(), Type: pickOf(r, 0x04, 0x06, 0xfc, 0xff, 0xb3, 0x1a), Len: pickOf(r, 0, 1, 511, 512, 513, 5000, 140000, 1<<20), Seed: r.next() >> 40, Deleted: r.chance(1, 8)}
			if have[f.Name] {
				continue
			}
			have[f.Name] = true
			if r.chance(1, 12) {
				f.Extra = pickOf(r, 5, 5, 4) // forked (GS/OS) or Pascal area
			}
			f.Locked = r.chance(1, 12)
			if depth < maxDepth && budget > 0 && (r.chance(1, 4) || deep && len(fs) == 0) {
				f.Dir = true
				f.Num = pickOf(r, 1, 1, 1, 2, 3, 5, 9)
				budget -= f.Num
				f.Kids = kids(depth+1, 8)
				if f.Num > 1 && len(f.Kids) > 13 && r.chance(1, 2) {
					f.Num = (len(f.Kids) + 13) / 13
				}
			}
			fs = append(fs, f)
		}
		return fs
	}
	im.Files = kids(0, 14)
	return im
}

// dirs lists the directory paths of a ProDOS image.
func (im *Image) dirs() []string {
	_, ref := im.prodos()
	var out []string
	for _, d := range sortedKeys(ref) {
		if d != "" {
			out = append(out, d)
		}
	}
	return out
}

// basLine is one line of a BASIC program.
type basLine struct {
	Num  int
	Body []byte
}

func encodeBas(lines []basLine, loc int) []byte {
	var out []byte
	for _, l := range lines {
		next := loc + len(out) + 5 + len(l.Body)
		out = append(out, byte(next), byte(next>>8), byte(l.Num), byte(l.Num>>8))
		out = append(out, l.Body...)
		out = append(out, 0)
	}
	return append(out, 0, 0)
}

func (r *rng) basLines(n int) []basLine {
	var ls []basLine
	num := r.intn(20)
	odd := r.chance(1, 12) // numbers no editor would give
	for i := 0; i < n; i++ {
		k := r.rang(1, 30)
		if r.chance(1, 20) {
			k = r.rang(0, 250)
		}
		b := make([]byte, k)
		for j := range b {
			switch r.intn(8) {
			case 0, 1, 2:
				b[j] = byte(0x80 + r.intn(0x6b))
			case 3:
				if r.chance(1, 3) {
					b[j] = byte(1 + r.intn(0x1f)) // control characters
				} else {
					b[j] = byte(0x20 + r.intn(0x60))
				}
			default:
				b[j] = byte(0x20 + r.intn(0x5f))
			}
		}
		ls = append(ls, basLine{num, b})
		num += pickOf(r, 1, 10, r.rang(1, 100), r.rang(1, 1000))
		if odd {
			num = pickOf(r, ls[len(ls)-1].Num, 0, 65535, 64000, r.intn(65536), num&0xffff)
		} else if num > 63999 {
			break
		}
	}
	return ls
}

// basProg is a well-formed program without the length prefix.
func (r *rng) basProg(loc int) ([]basLine, []byte) {
	for {
		n := r.intn(12)
		if r.chance(1, 15) {
			n = r.rang(100, 400)
		}
		ls := r.basLines(n)
		b := encodeBas(ls, loc)
		if loc+len(b) > 0xfff0 {
			continue
		}
		// The reader may take the first link for a length when it happens to fit.
		if x := int(b[0]) + 256*int(b[1]); x == len(b)-2 || x == len(b)-3 {
			continue
		}
		return ls, b
	}
}

// ---- commands ----

// need adds an initial file unless there is one of that name.
func (p *Plan) need(f FileSpec) {
	for i := range p.Files {
		if p.Files[i].Path == f.Path {
			return
		}
	}
	p.Files = append(p.Files, f)
}

func (p *Plan) image(path string) *Image {
	for i := range p.Files {
		if p.Files[i].Path == path {
			return p.Files[i].Image
		}
	}
	return nil
}

func (r *rng) blob(max int) *Blob {
	return &Blob{Kind: pickOf(r, "rand", "rand", "text", "zeroend", "zero"), Seed: r.next() >> 30, Len: pickOf(r, 1, 255, 256, 257, 1000, r.rang(1, max), r.rang(1, max))}
}

// nakDisk puts a NakedOS image into the plan and returns its name.
func (r *rng) nakDisk(p *Plan) (name string, order []string) {
	im := r.nakImage(1)
	name = "nak.dsk"
	switch r.intn(5) {
	case 0:
		im.Order, name = "po", "nak.po"
	case 1:
		im.Order, order = "po", []string{"--order", "po"}
	case 2:
		name = pickOf(r, "nak.do", "nak.do", "nak")
	}
	p.need(FileSpec{Path: "/work/" + name, Image: im})
	return
}

// nakCmd is a command on a NakedOS image; modify: only those that change it.
func (r *rng) nakCmd(p *Plan, img string, order []string, modify bool) []string {
	im := p.image("/work/" + img)
	var nums []int
	var syms []string
	for _, f := range im.Files {
		nums = append(nums, f.Num)
	}
	for _, s := range im.Syms {
		if s.Addr > 0xdf00 && s.Addr < 0xdffe {
			syms = append(syms, s.Name)
		}
	}
	name := func() string {
		if len(syms) > 0 && r.chance(1, 2) {
			return r.caseOf(syms[r.intn(len(syms))])
		}
		if len(nums) > 0 && r.chance(5, 6) {
			return r.numName(nums[r.intn(len(nums))])
		}
		return r.numName(r.rang(5, 0x20))
	}
	k := r.intn(10)
	if modify {
		k = r.intn(7)
	}
	var args []string
	switch {
	case k < 3:
		src := fmt.Sprintf("src%d.bin", len(p.Files))
		p.need(FileSpec{Path: "/work/" + src, Bytes: r.blob(4000)})
		nm := name()
		if im.P["nosyms"] == 0 && r.chance(1, 2) {
			nm = pickOf(r, "FNEWFILE", "NEWONE", r.numName(r.rang(5, 0x20))+":FBLAH")
		}
		args = []string{"put", img, nm, src}
		if r.chance(4, 5) {
			args = append(args, "-f")
		}
	case k < 5:
		args = []string{"rm", img, name()}
		if r.chance(1, 4) {
			args = append(args, "-f")
		}
	case k < 7:
		args = []string{"nakedos", "mkhello", img, name()}
		if r.chance(1, 2) {
			args = append(args, "--address", fmt.Sprintf("0x%x", r.rang(1, 0xbf)<<8))
		}
	case k < 8:
		args = []string{"ls", img}
		if r.chance(1, 3) {
			args = append(args, "-s")
		}
	default:
		args = []string{"dump", img, name()}
	}
	return append(args, order...)
}

// dosDisk and dosCmd.
func (r *rng) dosDisk(p *Plan) (string, []string) {
	im := r.dosImage()
	name := pickOf(r, "dos.dsk", "dos.do", "dos.dsk", "dos")
	var order []string
	switch r.intn(5) {
	case 0:
		im.Order, name = "po", "dos.po"
	case 1:
		im.Order, name, order = "po", "dos.dsk", []string{"--order", "po"}
	}
	p.need(FileSpec{Path: "/work/" + name, Image: im})
	return name, order
}

func (r *rng) dosCmd(p *Plan, img string, order []string) []string {
	im := p.image("/work/" + img)
	var args []string
	if len(im.Files) == 0 || r.chance(1, 3) {
		args = []string{"ls", img}
	} else {
		args = []string{"dump", img, im.Files[r.intn(len(im.Files))].Name}
	}
	return append(args, order...)
}

// command is any command in any setting: names, streams, images.
func (r *rng) command(p *Plan) ProcSpec {
	switch r.intn(13) {
	case 0, 1, 2, 3:
		img, order := r.nakDisk(p)
		args := r.nakCmd(p, img, order, false)
		ps := ProcSpec{Args: args}
		if args[0] == "put" && r.chance(1, 4) {
			// contents from standard input
			for i, a := range args {
				if strings.HasPrefix(a, "src") && strings.HasSuffix(a, ".bin") {
					args[i] = "-"
					ps.Stdin = "file:/work/" + a
					return ps
				}
			}
		}
		if r.chance(1, 5) {
			// the same over streams
			return r.streamed(p, ps, "/work/"+img)
		}
		return ps
	case 4, 5:
		img, order := r.dosDisk(p)
		ps := ProcSpec{Args: r.dosCmd(p, img, order)}
		if r.chance(1, 5) {
			return r.streamed(p, ps, "/work/"+img)
		}
		return ps
	case 6, 7:
		hdv := r.chance(1, 2)
		im := r.proImage(hdv)
		img := "vol.po"
		if hdv {
			img = pickOf(r, "vol.hdv", "VOL.HDV")
		}
		p.need(FileSpec{Path: "/work/" + img, Image: im})
		im = p.image("/work/" + img)
		args := []string{"ls", img}
		if ds := im.dirs(); len(ds) > 0 && r.chance(1, 2) {
			args = append(args, ds[r.intn(len(ds))])
		}
		return ProcSpec{Args: args}
	case 8:
		loc := pickOf(r, 0x801, 0x801, 0x3001)
		_, b := r.basProg(loc)
		p.need(FileSpec{Path: "/work/prog.bas", Bytes: &Blob{Kind: "hex", Hex: hexOf(b)}})
		var ps ProcSpec
		switch r.intn(3) {
		case 0:
			ps = ProcSpec{Args: []string{"applesoft", "decode", "prog.bas"}}
		case 1:
			ps = ProcSpec{Args: []string{"applesoft", "decode", "-"}, Stdin: "file:/work/prog.bas"}
		default:
			ps = ProcSpec{Args: []string{"applesoft", "decode"}, Stdin: "file:/work/prog.bas"}
		}
		if loc != 0x801 {
			ps.Args = append(ps.Args, "--location", fmt.Sprintf("0x%x", loc))
		}
		if r.chance(1, 3) {
			ps.Args = append(ps.Args, "-r")
		}
		return ps
	case 9, 10:
		p.need(FileSpec{Path: "/work/a.dsk", Image: &Image{Kind: "rand", Seed: r.next() >> 30}})
		switch r.intn(6) {
		case 0:
			p.need(FileSpec{Path: "/work/old.po", Bytes: r.blob(5000)})
			return ProcSpec{Args: []string{"reorder", "a.dsk", "old.po", "-f"}}
		case 1:
			return ProcSpec{Args: []string{"reorder", "a.dsk"}}
		case 2:
			return ProcSpec{Args: []string{"reorder", "a.dsk", "-"}}
		case 3:
			return ProcSpec{Args: []string{"reorder", "-", "new.po"}, Stdin: "file:/work/a.dsk"}
		case 4:
			return ProcSpec{Args: []string{"reorder", "--order", "do", "-", "-"}, Stdin: "file:/work/a.dsk"}
		default:
			return ProcSpec{Args: []string{"reorder", "a.dsk", "new.po"}}
		}
	case 11:
		p.need(FileSpec{Path: "/work/code.bin", Bytes: r.blob(20000)})
		out := pickOf(r, "sd.dsk", "sd.po", "sd.do", "-")
		if out != "-" && r.chance(1, 2) {
			p.need(FileSpec{Path: "/work/" + out, Bytes: r.blob(5000)})
		}
		if r.chance(1, 4) {
			return ProcSpec{Args: []string{"mksd", out, "-"}, Stdin: "file:/work/code.bin"}
		}
		return ProcSpec{Args: []string{"mksd", out, "code.bin", "--address", fmt.Sprintf("0x%x", r.rang(0x10, 0x60)<<8)}}
	default:
		if r.chance(1, 2) {
			return ProcSpec{Args: []string{"filetypes", "--all"}}
		}
		return ProcSpec{Args: []string{"filetypes"}}
	}
}

// streamed turns a command on an image file into the same command on standard
// input (the image comes out on standard output if it is changed).
func (r *rng) streamed(p *Plan, ps ProcSpec, img string) ProcSpec {
	base := strings.TrimPrefix(img, "/work/")
	ord := "do"
	if p.image(img).Order == "po" {
		ord = "po"
	}
	var args []string
	hasOrder := false
	for _, a := range ps.Args {
		if a == base {
			a = "-"
		}
		if a == "--order" {
			hasOrder = true
		}
		args = append(args, a)
	}
	if !hasOrder {
		args = append(args, "--order", ord)
	}
	ps.Args = args
	ps.Stdin = "file:" + img
	return ps
}
