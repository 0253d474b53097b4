//go:build go1.21

package harness

import (
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// Reference knowledge of disk images, written from the published formats
// (README's interleave table, Beneath Apple DOS/ProDOS, the NakedOS layout) and
// not from the code under test.

const floppy = 143360

// doOfPhys[p] is the DOS 3.3 logical sector of physical sector p; poOfPhys the
// ProDOS half-block (block*2+half within the track).
var doOfPhys = [16]int{0x0, 0x7, 0xE, 0x6, 0xD, 0x5, 0xC, 0x4, 0xB, 0x3, 0xA, 0x2, 0x9, 0x1, 0x8, 0xF}
var poOfPhys = [16]int{0, 8, 1, 9, 2, 10, 3, 11, 4, 12, 5, 13, 6, 14, 7, 15}

func orderTable(o string) [16]int {
	switch o {
	case "do", "":
		return doOfPhys
	case "po":
		return poOfPhys
	case "raw":
		return [16]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
	}
	hostErr("order %q", o)
	return doOfPhys
}

// refReorder is the reference conversion between sector orders.
func refReorder(b []byte, from, to string) []byte {
	out := make([]byte, floppy)
	f, t := orderTable(from), orderTable(to)
	for tr := 0; tr < 35; tr++ {
		for p := 0; p < 16; p++ {
			copy(out[tr*4096+t[p]*256:][:256], b[tr*4096+f[p]*256:][:256])
		}
	}
	return out
}

// Image describes a generated disk image.
type Image struct {
	Kind  string         `json:"kind"`            // nakedos dos33 prodos real blank rand
	Order string         `json:"order,omitempty"` // do (default) or po: the order of the file
	Name  string         `json:"name,omitempty"`  // real: which
	Seed  uint64         `json:"seed,omitempty"`
	P     map[string]int `json:"p,omitempty"`
	Files []ImgFile      `json:"files,omitempty"`
	Syms  []ImgSym       `json:"syms,omitempty"`
	Edits []Edit         `json:"edits,omitempty"` // damage, in the image's own logical space
	Len   int            `json:"len,omitempty"`   // cut or extend to this length
}

// ImgFile is a file on a generated image.
type ImgFile struct {
	Name    string    `json:"name,omitempty"`
	Num     int       `json:"num,omitempty"` // NakedOS file number
	Type    int       `json:"type,omitempty"`
	Len     int       `json:"len,omitempty"`
	Seed    uint64    `json:"seed,omitempty"`
	Deleted bool      `json:"deleted,omitempty"`
	Locked  bool      `json:"locked,omitempty"`
	Sparse  bool      `json:"sparse,omitempty"`
	Extra   int       `json:"extra,omitempty"` // DOS 3.3: sectors beyond the recorded length
	Text    bool      `json:"text,omitempty"`
	Hex     string    `json:"hex,omitempty"` // explicit contents
	Dir     bool      `json:"dir,omitempty"`
	Kids    []ImgFile `json:"kids,omitempty"`
}

// ImgSym is a Super-Mon symbol; Chain says whether it is linked after the
// previous symbols of its hash class.
type ImgSym struct {
	Name string `json:"n"`
	Addr int    `json:"a"`
}

// Edit overwrites bytes.
type Edit struct {
	Off int    `json:"off"`
	Hex string `json:"hex"`
}

func (im *Image) p(k string, def int) int {
	if v, ok := im.P[k]; ok {
		return v
	}
	return def
}

func (im *Image) size() int {
	n := 2*len(im.Edits) + len(im.Syms)
	var rec func(fs []ImgFile)
	rec = func(fs []ImgFile) {
		for _, f := range fs {
			n += 3 + f.Len/1024
			rec(f.Kids)
		}
	}
	rec(im.Files)
	return n
}

// shrink returns the k-th simpler variant, nil when there are no more.
func (im *Image) shrink(k int) *Image {
	c := *im
	if k < len(im.Edits) {
		c.Edits = append(append([]Edit(nil), im.Edits[:k]...), im.Edits[k+1:]...)
		return &c
	}
	k -= len(im.Edits)
	if k < len(im.Files) {
		c.Files = append(append([]ImgFile(nil), im.Files[:k]...), im.Files[k+1:]...)
		return &c
	}
	k -= len(im.Files)
	if k < len(im.Files) {
		c.Files = append([]ImgFile(nil), im.Files...)
		f := &c.Files[k]
		if f.Len > 300 && f.Hex == "" {
			f.Len /= 2
		} else if len(f.Kids) > 0 {
			f.Kids = f.Kids[:len(f.Kids)/2]
		}
		return &c
	}
	k -= len(im.Files)
	if k == 0 && len(im.Syms) > 0 {
		c.Syms = im.Syms[:len(im.Syms)/2]
		return &c
	}
	return nil
}

func (f *ImgFile) data() []byte {
	if f.Hex != "" {
		return unhex(f.Hex)
	}
	k := "rand"
	if f.Text {
		k = "text"
	}
	return (&Blob{Kind: k, Seed: f.Seed, Len: f.Len}).data()
}

var assetCache = map[string][]byte{}

func asset(name string) []byte {
	if b := assetCache[name]; b != nil {
		return b
	}
	b, err := os.ReadFile(filepath.Join(assetDir, name))
	if err != nil {
		hostErr("asset: %v", err)
	}
	assetCache[name] = b
	return b
}

func (im *Image) build() []byte {
	var b []byte
	native := "do" // the order of the logical space b is in
	switch im.Kind {
	case "blank":
		b = make([]byte, floppy)
	case "rand":
		b = newRng(im.Seed).bytes(floppy)
	case "real":
		b = append([]byte(nil), asset(im.Name)...)
		if strings.HasSuffix(im.Name, ".po") {
			native = "po"
		}
	case "nakedos":
		b = im.buildNakedOS()
		native = "raw"
	case "dos33":
		b = im.buildDOS33()
	case "prodos":
		b = im.buildProDOS()
		native = "po"
	default:
		hostErr("image kind %q", im.Kind)
	}
	if im.P["hostile"] > 0 {
		im.hostile(b)
	}
	for _, e := range im.Edits {
		x := unhex(e.Hex)
		if e.Off >= 0 && e.Off < len(b) {
			copy(b[e.Off:], x)
		}
	}
	ord := im.Order
	if ord == "" {
		ord = "do"
		if im.Kind == "prodos" {
			ord = "po"
		}
	}
	if len(b) == floppy && ord != native {
		b = refReorder(b, native, ord)
	}
	if im.Len > 0 {
		nb := make([]byte, im.Len)
		copy(nb, b)
		b = nb
	}
	return b
}

// ---- NakedOS ----

func nakHash(a int) int { return (a ^ a>>8) & 0x7f }

func encodeSym(name string) (six [6]byte) {
	v, _ := symBits(name)
	for i := range six {
		six[i] = byte(v >> (8 * i))
	}
	return
}

// symBits packs a name: five bits a letter, six a digit, first character
// lowest.
func symBits(name string) (v uint64, bits int) {
	for i := len(name) - 1; i >= 0; i-- {
		c := name[i]
		switch {
		case c >= 'A' && c <= 'Z':
			v = v<<5 | uint64(c-'@')
			bits += 5
		case c >= '0' && c <= '4':
			v = v<<6 | uint64(0x1b+c-'0')
			bits += 6
		case c >= '5' && c <= '9':
			v = v<<6 | uint64(0x3b+c-'5')
			bits += 6
		}
	}
	return
}

func decodeSym(v uint64) string {
	var s []byte
	for v&0x1f != 0 {
		if v&0x1f < 27 {
			s = append(s, byte(v&0x1f)+'@')
			v >>= 5
			continue
		}
		d := byte(v&0x1f) - 0x1b + '0'
		if v&0x20 != 0 {
			d += 5
		}
		s = append(s, d)
		v >>= 6
	}
	return string(s)
}

// buildNakedOS lays out: twelve reserved sectors, the symbol table (files 3 and
// 4, unless nosyms), the files in scattered sectors, reserved extras. Knobs:
// nosyms, scatter, extrares (extra reserved sectors), links (0: none, 1:
// chained), fillfree (leave exactly that many free sectors, the rest belonging
// to file FD), blankname (leave junk names in blank symbol entries).
func (im *Image) buildNakedOS() []byte {
	r := newRng(im.Seed)
	b := r.bytes(floppy) // free sectors hold leftovers
	var m [560]byte
	for i := range m {
		m[i] = 0xff
	}
	for i := 0; i < 12; i++ {
		m[i] = 0xfe
	}
	free := make([]int, 0, 560)
	for i := 12; i < 560; i++ {
		free = append(free, i)
	}
	if im.p("scatter", 0) > 0 {
		for i := len(free) - 1; i > 0; i-- {
			j := r.intn(i + 1)
			if r.intn(100) < im.p("scatter", 0) {
				free[i], free[j] = free[j], free[i]
			}
		}
	}
	take := func(n int) []int {
		if n > len(free) {
			n = len(free)
		}
		t := append([]int(nil), free[:n]...)
		free = free[n:]
		// A file's sectors are read in ascending order.
		for i := 1; i < len(t); i++ {
			for j := i; j > 0 && t[j] < t[j-1]; j-- {
				t[j], t[j-1] = t[j-1], t[j]
			}
		}
		return t
	}
	store := func(num int, data []byte) {
		n := (len(data) + 255) / 256
		for i, s := range take(n) {
			m[s] = byte(num)
			sec := b[s*256 : s*256+256]
			for j := range sec {
				sec[j] = 0
			}
			copy(sec, data[i*256:])
		}
	}
	for i := 0; i < im.p("extrares", 0) && len(free) > 0; i++ {
		m[take(1)[0]] = 0xfe
	}
	if im.p("nosyms", 0) == 0 {
		t1, t2 := make([]byte, 0x1000), make([]byte, 0x1000)
		last := map[int]int{}
		for i, s := range im.Syms {
			idx := i
			if im.p("spread", 0) == 1 {
				idx = (i * 11) % 819
			}
			if idx >= 819 {
				break
			}
			o := idx * 5
			six := encodeSym(s.Name)
			t1[o], t1[o+1] = byte(s.Addr), byte(s.Addr>>8)
			t1[o+4] = six[5]
			copy(t2[o:o+5], six[:5])
			h := nakHash(s.Addr)
			if p, ok := last[h]; ok && im.p("links", 1) == 1 {
				l := 0xD000 + idx*5
				t1[p*5+2], t1[p*5+3] = byte(l), byte(l>>8)
			}
			last[h] = idx
		}
		store(3, t1)
		store(4, t2)
	}
	for i := range im.Files {
		f := &im.Files[i]
		if f.Num == 3 || f.Num == 4 {
			if im.p("nosyms", 0) == 0 {
				continue
			}
		}
		store(f.Num, f.data())
	}
	if ff := im.p("fillfree", -1); ff >= 0 && len(free) > ff {
		store(0xFD, r.bytes(256*(len(free)-ff)))
	}
	copy(b[9*256+0xd0:], m[:0x30])
	copy(b[10*256:], m[0x30:0x130])
	copy(b[11*256:], m[0x130:0x230])
	return b
}

// nak is a decoded NakedOS disk.
type nak struct {
	raw  []byte
	m    []byte
	syms []nakSym // live entries, with their index
	st   bool     // has a symbol table
	bad  string   // what is wrong with the symbol table
}

type nakSym struct {
	Idx, Addr, Link int
	Name            string
}

func decodeNak(file []byte, order string) (*nak, error) {
	if len(file) != floppy {
		return nil, fmt.Errorf("image is %d bytes long", len(file))
	}
	n := &nak{raw: refReorder(file, order, "raw")}
	n.m = append(n.m, n.raw[9*256+0xd0:10*256]...)
	n.m = append(n.m, n.raw[10*256:12*256]...)
	for i, f := range n.m {
		if i < 12 && f != 0xfe {
			return nil, fmt.Errorf("sector %d of track 0 is not reserved any more (%02X)", i, f)
		}
		if f == 0 {
			return nil, fmt.Errorf("sector map entry %d is 0", i)
		}
	}
	t1, t2 := n.file(3), n.file(4)
	if len(t1) != 0x1000 || len(t2) != 0x1000 {
		return n, nil
	}
	n.st = true
	for i := 0; i < 819; i++ {
		o := i * 5
		a := int(t1[o]) | int(t1[o+1])<<8
		if a == 0 {
			continue
		}
		l := int(t1[o+2]) | int(t1[o+3])<<8
		link := -1
		if l != 0 {
			if l < 0xD000 || l >= 0xDFFF || (l-0xD000)%5 != 0 {
				n.bad = fmt.Sprintf("entry %d has link %04X", i, l)
				continue
			}
			link = (l - 0xD000) / 5
		}
		v := uint64(t1[o+4])<<40 | uint64(t2[o]) | uint64(t2[o+1])<<8 | uint64(t2[o+2])<<16 | uint64(t2[o+3])<<24 | uint64(t2[o+4])<<32
		n.syms = append(n.syms, nakSym{i, a, link, decodeSym(v)})
	}
	return n, nil
}

func (n *nak) sectors(num int) []int {
	var s []int
	for i, f := range n.m {
		if int(f) == num {
			s = append(s, i)
		}
	}
	return s
}

func (n *nak) file(num int) []byte {
	var d []byte
	for _, s := range n.sectors(num) {
		d = append(d, n.raw[s*256:s*256+256]...)
	}
	return d
}

func (n *nak) free() int { return len(n.sectors(0xff)) }

// chains checks the shape of the symbol table's hash chains.
func (n *nak) chains() (problem string, heads map[int]int) {
	if n.bad != "" {
		return n.bad, nil
	}
	live := map[int]nakSym{}
	for _, s := range n.syms {
		live[s.Idx] = s
	}
	in := map[int]int{}
	heads = map[int]int{}
	for _, s := range n.syms {
		if s.Link < 0 {
			continue
		}
		t, ok := live[s.Link]
		if !ok {
			return fmt.Sprintf("symbol %s (entry %d) links to blank entry %d", s.Name, s.Idx, s.Link), nil
		}
		if nakHash(t.Addr) != nakHash(s.Addr) {
			return fmt.Sprintf("symbol %s (%04X) links to %s (%04X) of another hash class", s.Name, s.Addr, t.Name, t.Addr), nil
		}
		in[s.Link]++
		if in[s.Link] > 1 {
			return fmt.Sprintf("two symbols link to %s (entry %d)", t.Name, t.Idx), nil
		}
	}
	reach := 0
	for _, s := range n.syms {
		if in[s.Idx] > 0 {
			continue
		}
		heads[nakHash(s.Addr)]++
		for i := s.Idx; i >= 0; i = live[i].Link {
			reach++
		}
	}
	if reach != len(n.syms) {
		return fmt.Sprintf("only %d of %d symbols can be reached along the chains (a cycle)", reach, len(n.syms)), nil
	}
	return "", heads
}

// ---- DOS 3.3 ----

type dosRef struct {
	names  []string // catalog, in order
	data   map[string][]byte
	typ    map[string]int
	secs   map[string]int
	failed map[string]bool // did not fit
}

func dosName(s string) [30]byte {
	var n [30]byte
	for i := range n {
		n[i] = 0xa0
		if i < len(s) {
			n[i] = s[i] | 0x80
		}
	}
	return n
}

// buildDOS33 writes a DOS 3.3 disk; Files with Type 0 T, 1 I, 2 A, 4 B, 8 S,
// 0x10 R. Knobs: catsecs (catalog sectors), catshuf (their order), trailing
// (trailing garbage in the last sector).
func (im *Image) buildDOS33() []byte {
	b, _ := im.dos33()
	return b
}

func (im *Image) dos33() ([]byte, *dosRef) {
	ref := &dosRef{data: map[string][]byte{}, typ: map[string]int{}, secs: map[string]int{}, failed: map[string]bool{}}
	r := newRng(im.Seed)
	b := make([]byte, floppy)
	if im.p("junk", 1) == 1 {
		b = r.bytes(floppy)
	}
	sec := func(t, s int) []byte { return b[t*4096+s*256:][:256] }
	var used [35][16]bool
	first := 3 - 2*im.p("nodos", 0) // a data disk has only track 0 reserved
	for t := 0; t < first; t++ {
		for s := 0; s < 16; s++ {
			used[t][s] = true
		}
	}
	for s := 0; s < 16; s++ {
		used[17][s] = true
	}
	type ts struct{ t, s int }
	var free []ts
	for t := first; t < 35; t++ {
		for s := 0; s < 16; s++ {
			if t != 17 {
				free = append(free, ts{t, s})
			}
		}
	}
	if im.p("scatter", 1) == 1 {
		for i := len(free) - 1; i > 0; i-- {
			j := r.intn(i + 1)
			free[i], free[j] = free[j], free[i]
		}
	}
	alloc := func() (ts, bool) {
		if len(free) == 0 {
			return ts{}, false
		}
		x := free[0]
		free = free[1:]
		used[x.t][x.s] = true
		return x, true
	}
	// Catalog chain.
	ncat := im.p("catsecs", 15)
	cats := make([]ts, 15)
	for i := range cats {
		cats[i] = ts{17, 15 - i}
	}
	if im.p("catshuf", 0) == 1 {
		for i := len(cats) - 1; i > 0; i-- {
			j := r.intn(i + 1)
			cats[i], cats[j] = cats[j], cats[i]
		}
	}
	cats = cats[:ncat]
	if im.p("catany", 0) == 1 { // anywhere on the disk
		for i := range cats {
			if i > 0 || r.intn(2) == 0 {
				cats[i], _ = alloc()
			}
		}
	}
	for i, c := range cats {
		s := sec(c.t, c.s)
		for j := range s {
			s[j] = 0
		}
		if i+1 < len(cats) {
			s[1], s[2] = byte(cats[i+1].t), byte(cats[i+1].s)
		}
	}
	slot := 0
	for i := range im.Files {
		f := &im.Files[i]
		if slot >= ncat*7 {
			break
		}
		payload := f.data()
		var raw []byte
		ty := f.Type
		switch ty {
		case 4:
			raw = append([]byte{byte(f.Seed), byte(f.Seed >> 8), byte(len(payload)), byte(len(payload) >> 8)}, payload...)
		case 1, 2:
			raw = append([]byte{byte(len(payload)), byte(len(payload) >> 8)}, payload...)
		case 0:
			// A text file ends at its last non-zero byte.
			for j := range payload {
				if payload[j] == 0 {
					payload[j] = 0xa0
				}
			}
			raw = payload
		default:
			raw = payload
		}
		nsec := (len(raw) + 255) / 256
		if ty == 1 || ty == 2 || ty == 4 {
			nsec += f.Extra // DOS keeps the sectors when a file gets shorter
		}
		for len(raw) < nsec*256 {
			if ty == 0 || im.p("trailing", 1) == 0 {
				raw = append(raw, 0)
			} else {
				raw = append(raw, byte(r.next()))
			}
		}
		expect := payload
		nlist := (nsec + 121) / 122
		if nlist == 0 {
			nlist = 1
		}
		if nsec+nlist > len(free) || im.p("maxsec", 10000) < nsec {
			if f.Len > 300 {
				// shrink to fit
				continue
			}
			continue
		}
		lists := make([]ts, nlist)
		for j := range lists {
			lists[j], _ = alloc()
			s := sec(lists[j].t, lists[j].s)
			for q := range s {
				s[q] = 0
			}
			s[5], s[6] = byte(j*122), byte(j*122>>8)
		}
		count := nlist
		for j := range lists[:nlist-1] {
			s := sec(lists[j].t, lists[j].s)
			s[1], s[2] = byte(lists[j+1].t), byte(lists[j+1].s)
		}
		exp := append([]byte(nil), expect...)
		hole := 0
		for j := 0; j < nsec; j++ {
			l := sec(lists[j/122].t, lists[j/122].s)
			o := 0x0c + 2*(j%122)
			if f.Sparse && hole == 0 && r.intn(3) == 0 {
				hole = 1
				if im.p("longholes", 0) == 1 && r.intn(3) == 0 {
					hole = r.rang(1, 250)
				}
			}
			if f.Sparse && j < nsec-1 && hole > 0 && ty == 0 {
				hole--
				for q := j * 256; q < (j+1)*256 && q < len(exp); q++ {
					exp[q] = 0
				}
				continue // a hole
			}
			x, _ := alloc()
			count++
			l[o], l[o+1] = byte(x.t), byte(x.s)
			copy(sec(x.t, x.s), raw[j*256:(j+1)*256])
		}
		c := cats[slot/7]
		e := sec(c.t, c.s)[0x0b+35*(slot%7):][:35]
		slot++
		e[0], e[1] = byte(lists[0].t), byte(lists[0].s)
		e[2] = byte(ty)
		if f.Locked {
			e[2] |= 0x80
		}
		nm := dosName(f.Name)
		copy(e[3:], nm[:])
		e[0x21], e[0x22] = byte(count), byte(count>>8)
		if f.Deleted {
			e[0x20] = e[0]
			e[0] = 0xff
			continue
		}
		name := strings.TrimRight(f.Name, " ")
		ref.names = append(ref.names, name)
		if _, dup := ref.data[name]; !dup {
			ref.data[name] = exp
			ref.typ[name] = ty
			ref.secs[name] = nsec
		}
	}
	v := sec(17, 0)
	for i := range v {
		v[i] = 0
	}
	v[1], v[2], v[3] = byte(cats[0].t), byte(cats[0].s), 3
	v[6] = byte(im.p("volume", 254))
	v[0x27] = 122
	v[0x30], v[0x31] = byte(im.p("lasttrack", 18)), byte(1-2*im.p("down", 0))
	v[0x34], v[0x35], v[0x37] = 35, 16, 1
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			if !used[t][s] {
				if s >= 8 {
					v[0x38+4*t] |= 1 << (s - 8)
				} else {
					v[0x38+4*t+1] |= 1 << s
				}
			}
		}
	}
	return b, ref
}

// refDOS decodes a DOS 3.3 disk in DOS order: names and types of the live
// entries, and contents (nil if it cannot be dumped).
type dosEnt struct {
	Name string
	Type int
	Data []byte
	OK   bool
}

func refDOS(b []byte) []dosEnt {
	sec := func(t, s byte) []byte { return b[int(t)*4096+int(s)*256:][:256] }
	v := sec(17, 0)
	var out []dosEnt
	for t, s := v[1], v[2]; t != 0; {
		c := sec(t, s)
		for i := 0; i < 7; i++ {
			e := c[0x0b+35*i:][:35]
			if e[0] == 0 || e[0] == 0xff {
				continue
			}
			var nm []byte
			for _, x := range e[3:33] {
				nm = append(nm, x&0x7f)
			}
			d := dosEnt{Name: strings.TrimRight(string(nm), " "), Type: int(e[2] & 0x7f)}
			var raw []byte
			lastReal := 0
			for lt, ls := e[0], e[1]; lt != 0; {
				l := sec(lt, ls)
				for j := 0; j < 122; j++ {
					ft, fs := l[12+2*j], l[13+2*j]
					if ft == 0 && fs == 0 {
						raw = append(raw, make([]byte, 256)...)
					} else {
						raw = append(raw, sec(ft, fs)...)
						lastReal = len(raw)
					}
				}
				lt, ls = l[1], l[2]
			}
			raw = raw[:lastReal]
			switch d.Type {
			case 0:
				for len(raw) > 0 && raw[len(raw)-1] == 0 {
					raw = raw[:len(raw)-1]
				}
				d.Data, d.OK = raw, true
			case 1, 2, 4:
				if d.Type == 4 && len(raw) >= 2 {
					raw = raw[2:]
				}
				if len(raw) >= 2 {
					n := int(raw[0]) + 256*int(raw[1])
					if n+2 <= len(raw) {
						d.Data, d.OK = raw[2:2+n], true
					}
				}
			}
			out = append(out, d)
		}
		t, s = c[1], c[2]
	}
	return out
}

// ---- ProDOS ----

// buildProDOS writes a volume with nested directories. Knobs: blocks (280 by
// default), voldir (volume directory blocks).
func (im *Image) buildProDOS() []byte {
	b, _ := im.prodos()
	return b
}

// proRef maps a directory path ("" for the volume) to its listing.
type proRef map[string][]string

func (im *Image) prodos() ([]byte, proRef) {
	ref := proRef{}
	r := newRng(im.Seed)
	nb := im.p("blocks", 280)
	b := make([]byte, nb*512)
	blk := func(n int) []byte { return b[n*512 : n*512+512] }
	bitmapBlocks := (nb + 4095) / 4096
	vold := im.p("voldir", 4)
	next := 6 + bitmapBlocks
	var pool []int
	if nb > 4000 && im.p("scatter", 1) == 1 {
		// blocks from everywhere
		have := map[int]bool{}
		for len(pool) < 1500 {
			n := next + r.intn(nb-next)
			if len(pool) < 4 {
				n = nb - 1 - len(pool)
			}
			if !have[n] {
				have[n] = true
				pool = append(pool, n)
			}
		}
	}
	for i := next; i < nb && len(pool) < 3000; i++ {
		if nb > 4000 && im.p("scatter", 1) == 1 {
			break
		}
		pool = append(pool, i)
	}
	if im.p("scatter", 1) == 1 {
		for i := len(pool) - 1; i > 0; i-- {
			j := r.intn(i + 1)
			pool[i], pool[j] = pool[j], pool[i]
		}
	}
	alloc := func() int {
		if len(pool) == 0 {
			return 0
		}
		x := pool[0]
		pool = pool[1:]
		return x
	}
	put16 := func(s []byte, v int) { s[0], s[1] = byte(v), byte(v>>8) }
	stamp := func(s []byte) { put16(s, 21<<9|7<<5|4); s[2], s[3] = byte(r.intn(60)), byte(r.intn(24)) }
	bitmap := 6
	var fill func(path, name string, blocks []int, kids []ImgFile, parentBlk, parentEnt int)
	fill = func(path, name string, blocks []int, kids []ImgFile, parentBlk, parentEnt int) {
		for i, n := range blocks {
			x := blk(n)
			if i > 0 {
				put16(x, blocks[i-1])
			}
			if i+1 < len(blocks) {
				put16(x[2:], blocks[i+1])
			}
		}
		h := blk(blocks[0])[4:]
		copy(h[1:], name)
		stamp(h[0x18:])
		h[0x1e], h[0x1f], h[0x20] = 0xc3, 0x27, 0x0d
		live := 0
		entry := 0
		for i := range kids {
			f := &kids[i]
			slot := entry + 1 // the header is slot 0
			if slot >= 13*len(blocks) {
				break
			}
			bi, ei := slot/13, slot%13
			e := blk(blocks[bi])[4+ei*0x27:][:0x27]
			entry++
			st := 1
			key := 0
			used := 1
			eof := f.Len
			if f.Dir {
				st = 0xd
				n := f.Num
				if n < 1 {
					n = 1
				}
				if len(pool) < n+4 {
					st = 1
				} else {
					var kb []int
					for q := 0; q < n; q++ {
						kb = append(kb, alloc())
					}
					key, used, eof = kb[0], n, n*512
					if !f.Deleted {
						p := f.Name
						if path != "" {
							p = path + "/" + f.Name
						}
						fill(p, f.Name, kb, f.Kids, blocks[bi], ei+1)
					}
				}
			}
			if st == 1 {
				if len(pool) > 8 {
					key = alloc()
					copy(blk(key), r.bytes(200))
				} else {
					key = 6
				}
				switch {
				case f.Len > 131072:
					st = 3
				case f.Len > 512:
					st = 2
				}
				if f.Extra == 4 || f.Extra == 5 {
					st = f.Extra
				}
			}
			e[0] = byte(st<<4 | len(f.Name))
			copy(e[1:], f.Name)
			e[0x10] = byte(f.Type)
			if st == 0xd {
				e[0x10] = 0x0f
			}
			put16(e[0x11:], key)
			put16(e[0x13:], used)
			e[0x15], e[0x16], e[0x17] = byte(eof), byte(eof>>8), byte(eof>>16)
			stamp(e[0x18:])
			e[0x1e] = 0xe3
			if f.Locked {
				e[0x1e] = 0x21
			}
			stamp(e[0x21:])
			put16(e[0x25:], blocks[0])
			if f.Deleted {
				e[0] = 0 // ProDOS clears storage type and name length
				continue
			}
			live++
			ref[path] = append(ref[path], f.Name)
		}
		put16(h[0x21:], live)
		if path == "" {
			h[0] = byte(0xf0 | len(name))
			put16(h[0x23:], bitmap)
			tot := nb
			if tot > 65535 {
				tot = 65535
			}
			put16(h[0x25:], tot)
		} else {
			h[0] = byte(0xe0 | len(name))
			h[0x10] = 0x75
			put16(h[0x23:], parentBlk)
			h[0x25], h[0x26] = byte(parentEnt), 0x27
		}
		if ref[path] == nil {
			ref[path] = []string{}
		}
	}
	vb := []int{2}
	for i := 1; i < vold; i++ {
		if n := 2 + i; n < 6 && im.p("volscatter", 0) == 0 {
			vb = append(vb, n)
		} else if len(pool) > 20 {
			vb = append(vb, alloc())
		}
	}
	// The bitmap lies behind the directory, or anywhere.
	if im.p("bitmap", 0) != 0 && bitmapBlocks == 1 && len(pool) > 20 {
		bitmap = alloc()
	}
	fill("", "TEST.VOL", vb, im.Files, 0, 0)
	for i := 0; i < bitmapBlocks; i++ {
		x := blk(bitmap + i)
		for j := range x {
			x[j] = 0
		}
	}
	for _, n := range pool {
		if n/4096 < bitmapBlocks {
			blk(bitmap + n/4096)[n%4096/8] |= 0x80 >> (n % 8)
		}
	}
	return b, ref
}

func hexOf(b []byte) string { return hex.EncodeToString(b) }

func diffBytes(a, b []byte) string {
	if len(a) != len(b) {
		return fmt.Sprintf("length %d, then %d", len(a), len(b))
	}
	first, n := -1, 0
	for i := range a {
		if a[i] != b[i] {
			if first < 0 {
				first = i
			}
			n++
		}
	}
	if n == 0 {
		return "equal"
	}
	return fmt.Sprintf("%d bytes differ, the first at %#x: %02x then %02x", n, first, a[first], b[first])
}
