//go:build go1.21

package harness

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// C01, C02, C03: histories of commands on NakedOS/Super-Mon images, against a
// reference model, under faults.

// nakModel is the reference: what a NakedOS disk holds.
type nakModel struct {
	files map[int][]byte // padded contents
	syms  map[string]int
	st    bool
	cap   int // sectors that are not reserved
}

func (m *nakModel) clone() *nakModel {
	c := &nakModel{files: map[int][]byte{}, syms: map[string]int{}, st: m.st, cap: m.cap}
	for k, v := range m.files {
		c.files[k] = v
	}
	for k, v := range m.syms {
		c.syms[k] = v
	}
	return c
}

func (m *nakModel) free() int {
	n := m.cap
	for _, d := range m.files {
		n -= len(d) / 256
	}
	return n
}

func modelOf(n *nak) *nakModel {
	m := &nakModel{files: map[int][]byte{}, syms: map[string]int{}, st: n.st}
	for f := 1; f < 0xfe; f++ {
		if d := n.file(f); len(d) > 0 && !(n.st && (f == 3 || f == 4)) {
			m.files[f] = d
		}
	}
	if n.st {
		// The symbol table's own files: their contents are the symbols.
		m.files[3], m.files[4] = make([]byte, 4096), make([]byte, 4096)
	}
	for _, s := range n.syms {
		m.syms[s.Name] = s.Addr
	}
	m.cap = 560 - len(n.sectors(0xfe))
	return m
}

// fileNumber reads DFxx or xx.
func fileNumber(s string) int {
	v, err := strconv.ParseUint(s, 16, 16)
	if err != nil {
		return 0
	}
	if v > 0xdf00 && v < 0xdffe {
		return int(v - 0xdf00)
	}
	if v > 0 && v < 0xfe {
		return int(v)
	}
	return 0
}

// lookup resolves a number or symbol to a file number (0: none).
func (m *nakModel) lookup(s string) int {
	if n := fileNumber(s); n != 0 {
		return n
	}
	if a := m.syms[strings.ToUpper(s)]; a > 0xdf00 && a < 0xdffe {
		return a - 0xdf00
	}
	return 0
}

func validSym(s string) bool {
	if len(s) < 3 || len(s) > 9 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	u := strings.ToUpper(s)
	for i := 0; i < len(u); i++ {
		c := u[i]
		if !(c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return false
		}
	}
	_, bits := symBits(u)
	return bits <= 48
}

// nakOutcome is what the model says about a command.
type nakOutcome struct {
	ok    bool
	alt   bool       // (rm -f of a dangling symbol) both outcomes are fine
	next  *nakModel  // state after success
	lines [][]string // ls: the acceptable lines
	out   []byte     // dump
	why   string
	fits  int // put: 1 fits, -1 does not, 0 refused for another reason
	table int // the command names this file of the symbol table (3 or 4)
}

// tableFile returns n if it is one of the files that hold the symbols.
func tableFile(n int) int {
	if n == 3 || n == 4 {
		return n
	}
	return 0
}

func (m *nakModel) put(name string, data []byte, force bool) nakOutcome {
	no := func(why string) nakOutcome { return nakOutcome{why: why} }
	if len(data) == 0 {
		return no("empty contents")
	}
	num, sym := 0, ""
	parts := strings.Split(name, ":")
	switch {
	case len(parts) > 2:
		return no("two colons")
	case len(parts) == 2:
		num = fileNumber(parts[0])
		if num == 0 {
			return no("bad number")
		}
		if fileNumber(parts[1]) != 0 {
			return no("number as name")
		}
		sym = strings.ToUpper(parts[1])
		if sym == "" {
			return nakOutcome{alt: true, ok: true, why: "empty symbol"}
		}
	default:
		num = fileNumber(name)
		if num == 0 {
			sym = strings.ToUpper(name)
			num = m.lookup(name)
		}
	}
	if sym != "" {
		if !m.st {
			return no("no symbol table")
		}
		if !validSym(sym) {
			return no("bad symbol")
		}
	}
	if num == 0 {
		for n := 1; n < 0xfe; n++ {
			if m.files[n] == nil {
				num = n
				break
			}
		}
		if num == 0 {
			return no("all file numbers used")
		}
	}
	need := (len(data) + 255) / 256
	if m.files[num] != nil && !force {
		return no("exists")
	}
	if sym != "" {
		if _, have := m.syms[sym]; !have && len(m.syms) >= 819 {
			return no("symbol table full")
		}
	}
	if sym != "" && (num == 3 || num == 4) && m.syms[sym] != 0xdf00+num {
		return no("symbol for the table") // cannot keep both
	}
	if need > m.free()+len(m.files[num])/256 {
		return nakOutcome{why: "no space", fits: -1}
	}
	x := m.clone()
	d := make([]byte, need*256)
	copy(d, data)
	x.files[num] = d
	if sym != "" {
		x.syms[sym] = 0xdf00 + num
	}
	return nakOutcome{ok: true, next: x, fits: 1, table: tableFile(num)}
}

// predict says what a command line must do. read gives the contents of host files.
func (m *nakModel) predict(c cmdline, read func(string) []byte) nakOutcome {
	switch c.verb {
	case "put":
		if ft := c.opts["filetype-name"]; ft != "" && ft != "B" {
			return nakOutcome{why: "filetype"}
		}
		return m.put(c.arg(1), read(c.arg(2)), c.force)
	case "rm":
		n := m.lookup(c.arg(1))
		sym := ""
		if fileNumber(c.arg(1)) == 0 {
			sym = strings.ToUpper(c.arg(1))
		}
		if n == 0 || m.files[n] == nil {
			if c.force {
				if n != 0 && sym != "" {
					x := m.clone()
					delete(x.syms, sym)
					return nakOutcome{ok: true, alt: true, next: x, why: "dangling symbol"}
				}
				return nakOutcome{ok: true, next: m}
			}
			return nakOutcome{why: "no such file"}
		}
		x := m.clone()
		delete(x.files, n)
		if sym != "" {
			delete(x.syms, sym)
		}
		return nakOutcome{ok: true, next: x, table: tableFile(n)}
	case "mkhello":
		addr := c.num("address", 0x6000)
		start := c.num("start", 0xffff)
		if start == 0xffff {
			start = addr
		}
		if addr%256 != 0 || start < addr {
			return nakOutcome{why: "bad address"}
		}
		name := c.arg(1)
		load := 0
		if p := strings.Split(name, ":"); len(p) == 2 {
			load = fileNumber(p[0])
			if load == 0 || fileNumber(p[1]) != 0 {
				return nakOutcome{why: "bad name"}
			}
		} else if len(p) > 2 {
			return nakOutcome{why: "bad name"}
		} else {
			load = m.lookup(name)
		}
		if load == 0 {
			return nakOutcome{why: "no such file"}
		}
		code := []byte{0x20, 0x40, 0x03, 0x6d, 0x01, 0xdc, 0x2c, byte(load), 0xdf, 0x2c, 0, byte(addr >> 8), 0xd8, 0x4c, byte(start), byte(start >> 8)}
		return m.put("DF01:FHELLO", code, true)
	case "dump":
		n := m.lookup(c.arg(1))
		if n == 0 || m.files[n] == nil {
			return nakOutcome{why: "no such file"}
		}
		return nakOutcome{ok: true, next: m, out: m.files[n], table: tableFile(n)}
	case "ls":
		if c.arg(1) != "" {
			return nakOutcome{why: "no subdirectories"}
		}
		by := map[int][]string{}
		for s, a := range m.syms {
			by[a] = append(by[a], s)
		}
		o := nakOutcome{ok: true, next: m}
		for f := 1; f < 0xfe; f++ {
			if m.files[f] == nil {
				continue
			}
			num := fmt.Sprintf("DF%02X", f)
			var alts []string
			for _, s := range by[0xdf00+f] {
				if c.short {
					alts = append(alts, s)
				} else {
					alts = append(alts, num+":"+s)
				}
			}
			if alts == nil {
				alts = []string{num}
			}
			sort.Strings(alts)
			o.lines = append(o.lines, alts)
		}
		return o
	}
	return nakOutcome{ok: true, alt: true, next: m}
}

// sameStore compares a decoded disk with the model.
func (m *nakModel) sameStore(n *nak) string {
	for f := 1; f < 0xfe; f++ {
		if m.st && (f == 3 || f == 4) {
			continue
		}
		d := n.file(f)
		if !bytes.Equal(d, m.files[f]) {
			return fmt.Sprintf("file DF%02X: %s", f, diffBytes(m.files[f], d))
		}
	}
	return ""
}

func sameInts(a, b map[string]int) bool {
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return len(a) == len(b)
}

func (m *nakModel) sameSyms(n *nak) string {
	if n.st != m.st {
		return fmt.Sprintf("symbol table present: %v, expected %v", n.st, m.st)
	}
	if !m.st {
		return ""
	}
	got := map[string]int{}
	for _, s := range n.syms {
		if _, dup := got[s.Name]; dup {
			return fmt.Sprintf("symbol %s is there twice", s.Name)
		}
		got[s.Name] = s.Addr
	}
	for _, k := range sortedKeys(m.syms) {
		if a, ok := got[k]; !ok {
			return fmt.Sprintf("symbol %s (%04X) is gone", k, m.syms[k])
		} else if a != m.syms[k] {
			return fmt.Sprintf("symbol %s is %04X, expected %04X", k, a, m.syms[k])
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := m.syms[k]; !ok {
			return fmt.Sprintf("unexpected symbol %q (%04X)", k, got[k])
		}
	}
	return ""
}

func (m *nakModel) sameMap(n *nak) string {
	for f := 1; f < 0xfe; f++ {
		if got, want := len(n.sectors(f)), len(m.files[f])/256; got != want {
			return fmt.Sprintf("file DF%02X owns %d sectors, expected %d", f, got, want)
		}
	}
	if n.free() != m.free() {
		return fmt.Sprintf("%d sectors are free, expected %d", n.free(), m.free())
	}
	return ""
}

// reservedSame: the reserved sectors are the same and keep their contents.
func reservedSame(a, b *nak) string {
	for s := 0; s < 560; s++ {
		if (a.m[s] == 0xfe) != (b.m[s] == 0xfe) {
			return fmt.Sprintf("sector %d (track %d sector %d) was %02X in the map, is %02X", s, s/16, s%16, a.m[s], b.m[s])
		}
		if a.m[s] != 0xfe {
			continue
		}
		x, y := a.raw[s*256:s*256+256], b.raw[s*256:s*256+256]
		switch s {
		case 9:
			x, y = x[:0xd0], y[:0xd0]
		case 10, 11:
			continue
		}
		if !bytes.Equal(x, y) {
			return fmt.Sprintf("reserved sector %d: %s", s, diffBytes(x, y))
		}
	}
	return ""
}

var nakNames = []string{"FOO", "FBAR", "FHELLO", "GREMLINS", "ZORK9", "A12", "XYZZYPLUG", "N0123456", "SHAPES", "QWERTYUIO", "M55", "FGAME", "FTITLE", "OVERLAY7", "ZZZ", "LOADER2", "G1G2G3G4", "Z99999", "KLMNOPQRS", "Q01234567"[:8], "FACE", "FADED", "BEEF", "8012", "FD5"}

func (r *rng) symName() string {
	if r.chance(2, 3) {
		return nakNames[r.intn(len(nakNames))]
	}
	for {
		n := r.rang(3, 9)
		var b []byte
		for i := 0; i < n; i++ {
			if r.chance(1, 4) {
				b = append(b, byte('0'+r.intn(10)))
			} else {
				b = append(b, byte('A'+r.intn(26)))
			}
		}
		s := string(b)
		// Not something that could be meant as a file number.
		if validSym(s) && fileNumber(s) == 0 && s[0] != '0' && !strings.HasPrefix(s, "DF") {
			return s
		}
	}
}

func (r *rng) caseOf(s string) string {
	switch r.intn(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		b := []byte(strings.ToLower(s))
		for i := range b {
			if r.chance(1, 2) {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

// special returns a file number with a digit pattern of its own.
func (r *rng) special() int {
	return pickOf(r, 0xdf, 0xd, 0xf, 0xfd, 0xdd, 0xd0, 0xf0, 0xa0, 0xe, 0xe0, 0x80, 0x7f, 0x60, 0x40, 0x10, 0x99, 0xa)
}

func (r *rng) numName(n int) string {
	switch r.intn(4) {
	case 0:
		return fmt.Sprintf("DF%02X", n)
	case 1:
		return fmt.Sprintf("df%02x", n)
	case 2:
		return fmt.Sprintf("%02x", n)
	}
	if r.chance(1, 3) {
		return r.caseOf(fmt.Sprintf("DF%02X", n))
	}
	return fmt.Sprintf("%02X", n)
}

// nakImage generates an initial disk. focus: 1 general, 2 space, 3 symbols.
func (r *rng) nakImage(focus int) *Image {
	if r.chance(1, 10) {
		return &Image{Kind: "real", Name: pickOf(r, "Super-Mon-2.0.dsk", "chacha20.dsk")}
	}
	im := &Image{Kind: "nakedos", Seed: r.next() >> 20, P: map[string]int{}}
	im.P["scatter"] = pickOf(r, 0, 0, 10, 100)
	if r.chance(1, 3) {
		im.P["extrares"] = r.intn(40)
	}
	if focus != 3 && r.chance(1, 8) {
		im.P["nosyms"] = 1
	}
	im.P["links"] = pickOf(r, 1, 1, 1, 0)
	im.P["spread"] = pickOf(r, 0, 0, 1)
	used := map[int]bool{3: true, 4: true}
	nf := r.intn(12)
	if r.chance(1, 6) {
		nf = r.rang(12, 60)
	}
	if r.chance(1, 40) {
		nf = 252 // nearly every number used
	}
	for i := 0; i < nf; i++ {
		n := r.rang(1, 0xfd)
		if r.chance(2, 3) {
			n = r.rang(1, 14)
		}
		if nf > 200 {
			n = 1 + i
		}
		if used[n] {
			continue
		}
		used[n] = true
		l := pickOf(r, 1, 255, 256, 257, 512, 700, 4096, r.rang(1, 3000), r.rang(1, 3000))
		if nf > 100 {
			l = 200
		} else if r.chance(1, 20) {
			l = r.rang(1, 60000)
		}
		im.Files = append(im.Files, ImgFile{Num: n, Len: l, Seed: r.next() >> 30})
	}
	if im.P["nosyms"] == 0 {
		ns := r.intn(10)
		if focus == 3 {
			switch r.intn(6) {
			case 0:
				ns = r.rang(10, 60)
			case 1:
				ns = r.rang(100, 400)
			case 2:
				ns = r.rang(810, 819)
			}
		} else if r.chance(1, 30) {
			ns = r.rang(815, 819)
		}
		have := map[string]bool{}
		for i := 0; i < ns; i++ {
			nm := r.symName()
			if ns > 60 {
				nm = fmt.Sprintf("S%dX", i)
			}
			if have[nm] {
				continue
			}
			have[nm] = true
			a := r.rang(1, 0xdeff)
			switch {
			case r.chance(1, 2) && ns <= 60:
				a = 0xdf00 + r.rang(1, 16)
				if len(im.Files) > 0 && r.chance(2, 3) {
					a = 0xdf00 + im.Files[r.intn(len(im.Files))].Num
				}
				if tableFile(a-0xdf00) != 0 {
					a = 0x6000
				}
			case r.chance(1, 3):
				// collide with the addresses of low file numbers
				a = (0x20+r.intn(4))<<8 | ((0x20 + r.intn(4)) ^ 0x5f ^ r.intn(8))
			case r.chance(1, 4):
				a = r.rang(1, 250) * 0x101 // hash class 0
				if a > 0xde00 {
					a = 0x4141
				}
			}
			im.Syms = append(im.Syms, ImgSym{nm, a})
		}
	}
	if focus == 2 && r.chance(2, 3) || r.chance(1, 12) {
		used[0xfd] = true
		var fs []ImgFile
		for _, f := range im.Files {
			if f.Num != 0xfd {
				fs = append(fs, f)
			}
		}
		im.Files = fs
		im.P["fillfree"] = pickOf(r, 0, 1, 2, 3, 5, 15, 16, 17, 31, 32, 33, r.intn(60))
	}
	return im
}

func nakGen(focus int) func(r *rng) *Plan {
	return func(r *rng) *Plan {
		p := &Plan{Params: map[string]int{"focus": focus}}
		im := r.nakImage(focus)
		if im.Kind == "nakedos" {
			if im.P["nosyms"] == 0 && r.chance(1, 5) {
				im.Syms = append(im.Syms, ImgSym{"FSYMTBL1", 0xdf03}, ImgSym{"FSYMTBL2", 0xdf04})
				if len(im.Syms) > 819 {
					im.Syms = im.Syms[:819]
				}
			}
		}
		img := "disk.dsk"
		order := ""
		switch r.intn(6) {
		case 0:
			im.Order, img = "po", "disk.po"
		case 1:
			im.Order, img, order = "po", "disk.dsk", "po"
		case 2:
			img = "disk.do"
		case 3:
			order = "do"
		}
		p.Strs = map[string]string{"img": "/work/" + img, "order": "do"}
		if im.Order == "po" {
			p.Strs["order"] = "po"
		}
		p.Files = append(p.Files, FileSpec{Path: "/work/" + img, Image: im})
		n := r.rang(3, 14)
		if r.chance(1, 20) {
			n = 40
		}
		var nums []int
		for _, f := range im.Files {
			nums = append(nums, f.Num)
		}
		// table: whether to name a file of the symbol table.
		table := func() bool { return im.P["nosyms"] == 1 || r.chance(1, 8) }
		for i := 0; i < n; i++ {
			anyName := func(known int) string {
				if r.chance(1, 2) {
					nm := r.symName()
					if len(im.Syms) > 0 && r.chance(known, 100) {
						s := im.Syms[r.intn(len(im.Syms))]
						if tableFile(s.Addr-0xdf00) != 0 && !table() {
							s = im.Syms[0]
						}
						if s.Addr > 0xdf00 && s.Addr < 0xdffe {
							nm = s.Name
						}
					}
					// Never the name of a symbol that is not a file's.
					for _, s := range im.Syms {
						if s.Name == nm && !(s.Addr > 0xdf00 && s.Addr < 0xdffe) {
							nm = "FREEFILE"
						}
					}
					return r.caseOf(nm)
				}
				k := r.rang(1, 16)
				if len(nums) > 0 && r.chance(known, 100) {
					k = nums[r.intn(len(nums))]
				}
				if r.chance(1, 20) {
					k = r.rang(0x10, 0xfd)
				} else if r.chance(1, 20) {
					k = r.special()
				}
				if (k == 3 || k == 4) && !table() {
					k = 5
				}
				return r.numName(k)
			}
			var args []string
			switch x := r.intn(20); {
			case x < 9:
				src := fmt.Sprintf("src%d.bin", i)
				l := pickOf(r, 1, 255, 256, 257, 511, 512, 513, 1000, r.rang(1, 9000), r.rang(1, 2000))
				if r.chance(1, 12) {
					l = r.rang(1, 150000)
				}
				if r.chance(1, 40) {
					l = 0
				}
				kind := pickOf(r, "rand", "rand", "zeroend", "text", "zero")
				p.Files = append(p.Files, FileSpec{Path: "/work/" + src, Bytes: &Blob{Kind: kind, Seed: r.next() >> 30, Len: l}})
				name := anyName(60)
				if r.chance(1, 3) {
					k := r.rang(1, 14)
					if r.chance(1, 10) {
						k = 0x5f // DF5F hashes to zero with 0xDF..
					} else if r.chance(1, 8) {
						k = r.special()
					}
					if (k == 3 || k == 4) && !table() {
						k = 6
					}
					nm := r.symName()
					for _, s := range im.Syms {
						if s.Name == nm && !(s.Addr > 0xdf00 && s.Addr < 0xdffe) {
							nm = "FREEFILE"
						}
					}
					name = r.numName(k) + ":" + r.caseOf(nm)
				}
				if r.chance(1, 30) {
					name = pickOf(r, "AB", "TOOLONGNAME", "BAD-NAME", "A.B.C", "ABCDEFGHIJ", "SP ACE", "123456789", "DF05:X", "DF00:FOO", "DFFE", "FF:FOO", "DF05:06", "DF05:FOO:BAR", "R\u00e9GLE", "DF07:NO_GO")
				}
				args = []string{"put", img, name, src}
				if r.chance(3, 5) {
					args = append(args, "-f")
				}
				if r.chance(1, 50) {
					args = append(args, "--filetype-name", "T")
				}
			case x < 13:
				args = []string{"rm", img, anyName(85)}
				if r.chance(1, 4) {
					args = append(args, "-f")
				}
			case x < 15:
				args = []string{"nakedos", "mkhello", img, anyName(70)}
				if r.chance(1, 6) {
					args[3] = r.numName(r.rang(5, 14)) + ":" + r.caseOf("FBAR")
				}
				if r.chance(1, 2) {
					a := r.rang(1, 0xbf) << 8
					if r.chance(1, 8) {
						a = pickOf(r, 0, 0x100, 0xfe00, 0xff00, a+r.rang(1, 255))
					}
					args = append(args, "--address", fmt.Sprintf("0x%x", a))
					if r.chance(1, 2) {
						args = append(args, "--start", fmt.Sprintf("0x%x", a&0xff00+r.intn(256)))
					}
				} else if r.chance(1, 4) {
					args = append(args, "--start", fmt.Sprint(pickOf(r, r.intn(65535), r.intn(65535), r.intn(65535), 0, 1, 0x5fff, 0x6000, 0xfffe, 0xffff)))
				}
			case x < 17:
				args = []string{"ls", img}
				if r.chance(1, 3) {
					args = append(args, "-s")
				}
			default:
				args = []string{"dump", img, anyName(90)}
			}
			if order != "" {
				args = append(args, "--order", order)
			}
			ps := ProcSpec{Args: args}
			r.addFaults(&ps, 25, 5, 7, 40)
			p.Steps = append(p.Steps, Step{Procs: []ProcSpec{ps}, Loss: r.next() >> 12})
		}
		return p
	}
}

func nakExec(which int) func(w *World) *Violation {
	return func(w *World) *Violation {
		img, order := w.p.Strs["img"], w.p.Strs["order"]
		if w.read(img) == nil {
			w.trivial = true
			return nil // the image was minimised away
		}
		cur, err := decodeNak(w.read(img), order)
		if err != nil {
			hostErr("generated image: %v", err)
		}
		m := modelOf(cur)
		if pr, _ := cur.chains(); pr != "" {
			hostErr("generated image: %s", pr)
		}
		if which == 3 && !m.st {
			w.trivial = true
			return nil
		}
		// match reports whether the decoded disk is what the model says, in the
		// respect of this property.
		match := func(x *nakModel, n *nak) string {
			switch which {
			case 1:
				if s := x.sameStore(n); s != "" {
					return s
				}
				return x.sameSyms(n)
			case 2:
				return x.sameMap(n)
			}
			return x.sameSyms(n)
		}
		full := func(x *nakModel, n *nak) string {
			if s := x.sameStore(n); s != "" {
				return s
			}
			return x.sameSyms(n)
		}
		// tableOp checks a disk after a command that named a file of the symbol
		// table, and returns what it now holds.
		tableOp := func(o nakOutcome, n *nak) (*nakModel, string) {
			if d := n.file(o.table); !bytes.Equal(d, o.next.files[o.table]) {
				return nil, fmt.Sprintf("file DF%02X: %s", o.table, diffBytes(o.next.files[o.table], d))
			}
			if a, b := cur.file(7-o.table), n.file(7-o.table); !bytes.Equal(a, b) {
				return nil, fmt.Sprintf("file DF%02X: %s", 7-o.table, diffBytes(a, b))
			}
			x := modelOf(n)
			for f := 1; f < 0xfe; f++ {
				if tableFile(f) != 0 {
					continue
				}
				delete(x.files, f)
				if d, ok := o.next.files[f]; ok {
					x.files[f] = d
				}
			}
			if s := x.sameStore(n); s != "" {
				return nil, s
			}
			return x, x.sameMap(n)
		}
		changes := 0
		for i := range w.p.Steps {
			s := &w.p.Steps[i]
			ps := &s.Procs[0]
			c := parseCmd(ps.Args)
			read := func(f string) []byte { return w.read(abs("/work", f)) }
			if c.verb == "put" && read(c.arg(2)) == nil && w.fs().node(abs("/work", c.arg(2))) == nil {
				continue // source minimised away
			}
			o := m.predict(c, read)
			if o.why == "empty symbol" {
				continue
			}
			if o.table != 0 && c.verb == "dump" {
				o.out, o.table = cur.file(o.table), 0
			}
			w.st.probe("cmd-" + c.verb)
			if o.why != "" {
				w.st.probe("refuse-" + o.why)
			}
			w.k.fs.settle()
			before := w.read(img)
			res := w.run(s)[0]
			desc := fmt.Sprintf("step %d: diskii %s [%s]", i, strings.Join(ps.Args, " "), res.St)
			if len(res.Fired) > 0 {
				desc += fmt.Sprintf(" faults %v", res.Fired)
			}
			after := w.read(img)
			if after == nil {
				return viol("image-gone", "%s: the image is gone", desc)
			}
			n, err := decodeNak(after, order)
			if err != nil {
				return viol("image-broken", "%s: the image is not a NakedOS disk any more: %v", desc, err)
			}
			if res.disturbed() && !res.St.ok() {
				// Killed or hit by an error: old or new.
				w.st.probe("disturbed")
				if bytes.Equal(after, before) {
					continue
				}
				if o.ok && o.table != 0 {
					x, s := tableOp(o, n)
					if s != "" {
						return viol("interrupted-state", "%s: the image is neither as before nor as after the command: %s", desc, s)
					}
					if n.st || which == 3 {
						return nil
					}
					m, cur = x, n
					continue
				}
				if o.ok && o.next != nil && full(o.next, n) == "" {
					w.st.probe("disturbed-but-done")
					m, cur = o.next, n
					continue
				}
				return viol("interrupted-state", "%s: the image is neither as before nor as after the command", desc)
			}
			if !res.St.clean() {
				return viol("crash", "%s: %s", desc, res.St)
			}
			if o.alt {
				// Either is acceptable.
				if full(m, n) != "" {
					if s := full(o.next, n); s != "" {
						return viol("state", "%s: %s", desc, s)
					}
					m = o.next
				}
				cur = n
				continue
			}
			ok := res.St.Code == 0
			if which == 2 && c.verb == "put" && o.fits != 0 {
				if o.fits > 0 && !ok {
					return viol("refused-fit", "%s: refused although it fits (%d sectors free): %s", desc, m.free(), cut(res.Err, 200))
				}
				if o.fits < 0 && ok {
					return viol("accepted-overfull", "%s: accepted although only %d sectors were free", desc, m.free())
				}
			}
			if ok != o.ok {
				if which == 1 || which == 3 && (o.why == "bad symbol" || o.why == "symbol table full" || o.why == "symbol for the table") {
					return viol("status", "%s: expected success=%v (%s); stderr %s", desc, o.ok, o.why, cut(res.Err, 200))
				}
				if which == 3 && !ok && o.next != nil && !sameInts(o.next.syms, m.syms) {
					return viol("status", "%s: the symbol was refused: %s", desc, cut(res.Err, 200))
				}
			}
			if which == 1 && ok {
				if o.out != nil && !bytes.Equal(res.Out, o.out) {
					return viol("dump", "%s: wrong bytes: %s", desc, diffBytes(o.out, res.Out))
				}
				if c.verb == "ls" {
					got := strings.Split(strings.TrimSuffix(string(res.Out), "\n"), "\n")
					if len(res.Out) == 0 {
						got = nil
					}
					if len(got) != len(o.lines) {
						return viol("ls", "%s: %d lines, expected %d: %s", desc, len(got), len(o.lines), cut(res.Out, 300))
					}
					for j, g := range got {
						if !in(o.lines[j], g) {
							return viol("ls", "%s: line %d is %q, expected one of %v", desc, j, g, o.lines[j])
						}
					}
				}
			}
			if ok && o.ok && o.table != 0 {
				w.st.probe("table-file")
				x, s := tableOp(o, n)
				if s != "" {
					return viol("state", "%s: %s", desc, s)
				}
				if s := reservedSame(cur, n); s != "" && which == 2 {
					return viol("reserved", "%s: %s", desc, s)
				}
				changes++
				if n.st || which == 3 {
					return nil // Whatever the symbols are now.
				}
				m, cur = x, n
				continue
			}
			next := m
			if ok && o.ok {
				next = o.next
			} else if ok && !o.ok {
				// An unexpected success (not this property's concern): follow the disk.
				next = modelOf(n)
			}
			if s := match(next, n); s != "" {
				return viol("state", "%s: %s", desc, s)
			}
			if which == 2 {
				if s := reservedSame(cur, n); s != "" {
					return viol("reserved", "%s: %s", desc, s)
				}
			}
			if which == 3 {
				pr, heads := n.chains()
				if pr != "" {
					return viol("chains", "%s: %s", desc, pr)
				}
				_, old := cur.chains()
				for h, k := range heads {
					lim := old[h]
					if lim < 1 {
						lim = 1
					}
					if k > lim {
						return viol("chains", "%s: hash class %02X now has %d chains, had %d", desc, h, k, old[h])
					}
				}
			}
			if !bytes.Equal(before, after) {
				changes++
			}
			m, cur = next, n
		}
		if changes == 0 {
			w.trivial = true
		}
		return nil
	}
}

func in(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func init() {
	must := []string{"cmd-put", "cmd-rm", "cmd-mkhello", "cmd-ls", "cmd-dump", "refuse-no space", "refuse-exists", "refuse-bad symbol", "disturbed", "disturbed-but-done", "table-file"}
	register(&Prop{ID: "C01", Gen: nakGen(1), Exec: nakExec(1), Quick: 4500, Deep: 200000, Must: must, Stub: "reference model of a NakedOS disk and independent image decoder"})
	register(&Prop{ID: "C02", Gen: nakGen(2), Exec: nakExec(2), Quick: 4500, Deep: 200000, Must: must, Stub: "reference sector map"})
	register(&Prop{ID: "C03", Gen: nakGen(3), Exec: nakExec(3), Quick: 4500, Deep: 200000, Must: append(must, "refuse-symbol table full"), Stub: "reference symbol map and independent table decoder"})
}
