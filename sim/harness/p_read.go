//go:build go1.21

package harness

import (
	"bytes"
	"fmt"
	"strings"
)

// C09, C10, C18: what reading commands print, against the record of the
// builder that made the disk or program.

// expectation of a reading command.
type expect struct {
	ok  bool
	out []byte
	why string
}

// readCheck compares a finished reading command with what it should print.
func readCheck(w *World, i int, ps *ProcSpec, res Result, want expect) *Violation {
	desc := fmt.Sprintf("step %d: diskii %s [%s, faults %v]", i, strings.Join(ps.Args, " "), res.St, res.Fired)
	if res.St.Panic != "" || res.St.Hung != "" || res.St.Block {
		return viol("crash", "%s", desc)
	}
	if res.St.Signal != "" {
		if !bytes.HasPrefix(want.out, res.Out) {
			return viol("output", "%s: printed something else before it was killed: %s", desc, diffPrefix(want.out, res.Out))
		}
		w.st.probe("killed")
		return nil
	}
	if res.St.Code == 0 {
		if !want.ok {
			return viol("accepted", "%s: should be refused (%s), but prints %s", desc, want.why, cut(res.Out, 100))
		}
		if !bytes.Equal(res.Out, want.out) {
			return viol("output", "%s: wrong output (%s): %s", desc, want.why, diffText(want.out, res.Out))
		}
		w.st.probe("right")
		return nil
	}
	if len(res.Err) == 0 {
		return viol("silent", "%s: no message", desc)
	}
	if want.ok && !res.disturbed() {
		return viol("refused", "%s: fails (%s): %s", desc, want.why, cut(res.Err, 200))
	}
	if !want.ok && len(res.Out) > 0 {
		return viol("output", "%s: refused, but prints %s", desc, cut(res.Out, 100))
	}
	if want.ok {
		w.st.probe("error-exit")
	} else {
		w.st.probe("refused")
	}
	return nil
}

func diffPrefix(want, got []byte) string {
	n := len(got)
	if n > len(want) {
		n = len(want)
	}
	return diffText(want[:n], got)
}

func diffText(want, got []byte) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	lo := i - 20
	if lo < 0 {
		lo = 0
	}
	return fmt.Sprintf("%d bytes, want %d; they differ at %d: got %s, want %s", len(got), len(want), i, cut(got[lo:], 60), cut(want[lo:], 60))
}

func lines(names []string) []byte {
	var b []byte
	for _, n := range names {
		b = append(append(b, n...), '\n')
	}
	return b
}

// ---- C09 ----

func dosGen(r *rng) *Plan {
	p := &Plan{Params: map[string]int{}}
	var im *Image
	real := r.chance(1, 12)
	if real {
		im = &Image{Kind: "real", Name: pickOf(r, "dos33master.dsk", "dos33test.dsk")}
	} else {
		im = r.dosImage()
	}
	name := "disk.dsk"
	var order []string
	switch r.intn(8) {
	case 0:
		im.Order, name = "po", "disk.po"
	case 1:
		im.Order, order = "po", []string{"--order", "po"}
	case 2:
		name = "disk.do"
	case 3:
		order = []string{"--order=do"}
	case 4:
		name = pickOf(r, "DISK.DSK", "Disk.Do", "disk", "my.disk.dsk")
	}
	if r.chance(1, 4) {
		order = append(order, "--system", "dos3")
	}
	p.Files = []FileSpec{{Path: "/work/" + name, Image: im, Mode: pickOf[uint32](r, 0o644, 0o444, 0o400)}}
	var names []string
	for _, e := range refDOS(refReorder(im.build(), im.order(), "do")) {
		names = append(names, e.Name)
	}
	for _, f := range im.Files {
		names = append(names, f.Name) // deleted ones and those that did not fit
	}
	mk := func() ProcSpec {
		img := name
		ps := ProcSpec{}
		ord := order
		if r.chance(1, 5) {
			img, ps.Stdin = "-", "file:/work/"+name
			if (im.order() == "po" || r.chance(1, 2)) && (len(ord) == 0 || !strings.HasPrefix(ord[0], "--order")) {
				ord = append([]string{"--order", im.order()}, ord...)
			}
		}
		if len(names) == 0 || r.chance(2, 5) {
			ps.Args = []string{pickOf(r, "ls", "ls", "cat", "catalog", "list"), img}
			if r.chance(1, 6) {
				ps.Args = append(ps.Args, "-s")
			}
		} else {
			n := names[r.intn(len(names))]
			switch r.intn(14) {
			case 0:
				n = pickOf(r, "NO SUCH FILE", n+"X", strings.ToLower(n), n[:len(n)-1]+"?")
			case 1:
				n += " "
			}
			if n == "" || n[0] == '-' {
				n = "ZZZ"
			}
			ps.Args = []string{"dump", img, n}
		}
		ps.Args = append(ps.Args, ord...)
		r.addFaults(&ps, 30, 6, 4, 40)
		return ps
	}
	for n := r.rang(2, 6); n > 0; n-- {
		s := Step{Procs: []ProcSpec{mk()}, Loss: r.next() >> 20}
		for r.chance(1, 6) && len(s.Procs) < 3 {
			s.Procs = append(s.Procs, mk())
			s.Sched = r.sched(40)
		}
		p.Steps = append(p.Steps, s)
	}
	return p
}

func (im *Image) order() string {
	if im.Order != "" {
		return im.Order
	}
	if im.Kind == "prodos" || im.Kind == "real" && strings.HasSuffix(im.Name, ".po") {
		return "po"
	}
	return "do"
}

func (r *rng) sched(n int) []int {
	s := make([]int, r.rang(1, n))
	for i := range s {
		s[i] = r.intn(256)
	}
	return s
}

func dosExec(w *World) *Violation {
	var im *Image
	var path string
	for i := range w.p.Files {
		if w.p.Files[i].Image != nil {
			im, path = w.p.Files[i].Image, w.p.Files[i].Path
		}
	}
	if im == nil {
		return nil
	}
	img := w.read(path)
	ents := refDOS(refReorder(img, im.order(), "do"))
	if im.Kind == "dos33" && len(im.Edits) == 0 {
		// The decoder and the builder must agree.
		_, ref := im.dos33()
		if len(ref.names) != len(ents) {
			hostErr("DOS 3.3 builder and decoder disagree on the catalog")
		}
		for i, e := range ents {
			d := ref.data[e.Name]
			if e.Name != ref.names[i] || e.OK != (e.Type <= 2 || e.Type == 4) || e.OK && !bytes.Equal(bytes.TrimRight(d, "\x00"), bytes.TrimRight(e.Data, "\x00")) && e.Type == 0 || e.OK && e.Type != 0 && !bytes.Equal(d, e.Data) {
				hostErr("DOS 3.3 builder and decoder disagree on %q", e.Name)
			}
		}
	}
	var names []string
	for _, e := range ents {
		names = append(names, e.Name)
	}
	for i := range w.p.Steps {
		s := &w.p.Steps[i]
		for j, res := range w.run(s) {
			ps := &s.Procs[j]
			c := parseCmd(ps.Args)
			var want expect
			if c.verb == "dump" {
				want.why = "no such file"
				for _, e := range ents {
					if e.Name == c.arg(1) {
						want = expect{ok: e.OK, out: e.Data, why: fmt.Sprintf("type %d", e.Type)}
						w.st.probe(fmt.Sprintf("dump type %d", e.Type))
						if len(e.Data) > 31000 {
							w.st.probe("several T/S lists")
						}
						if len(e.Data) == 0 && e.OK {
							w.st.probe("empty file")
						}
						break
					}
				}
			} else {
				want = expect{ok: true, out: lines(names), why: "catalog"}
				w.st.probe("ls")
			}
			if v := readCheck(w, i, ps, res, want); v != nil {
				return v
			}
		}
		if !bytes.Equal(w.read(path), img) {
			return viol("changed", "step %d: the image was changed", i)
		}
	}
	return nil
}

// ---- C10 ----

func proGen(r *rng) *Plan {
	p := &Plan{Params: map[string]int{}}
	im := r.proImage(r.chance(1, 3))
	name := pickOf(r, "vol.po", "vol.po", "VOL.PO")
	var order []string
	if im.P["blocks"] != 0 {
		name = pickOf(r, "vol.hdv", "vol.hdv", "Vol.HDV")
		if r.chance(1, 60) {
			im.P["blocks"] = pickOf(r, 65535, 65536, 32769, 40000)
		}
		if r.chance(1, 4) {
			order = []string{"--order", "po"}
		}
	} else {
		switch r.intn(8) {
		case 0:
			im.Order, name = "do", "vol.do"
		case 1:
			im.Order, name = "do", "vol.dsk"
		case 2:
			im.Order, order = "do", []string{"--order", "do"}
		case 3:
			order = []string{"--order", "po"}
		case 4:
			name, order = pickOf(r, "vol.dsk", "vol"), []string{"--order", "po"}
		}
	}
	if r.chance(1, 4) {
		order = append(order, "--system", "prodos")
	}
	p.Files = []FileSpec{{Path: "/work/" + name, Image: im, Mode: pickOf[uint32](r, 0o644, 0o444)}}
	dirs := im.dirs()
	mk := func() ProcSpec {
		img := name
		ps := ProcSpec{}
		ord := order
		if im.P["blocks"] == 0 && r.chance(1, 6) {
			img, ps.Stdin = "-", "file:/work/"+name
			if len(ord) == 0 || ord[0] != "--order" {
				ord = append([]string{"--order", im.order()}, ord...)
			}
		}
		ps.Args = []string{pickOf(r, "ls", "ls", "ls", "cat", "list"), img}
		if r.chance(3, 4) {
			d := "NO.SUCH"
			if len(dirs) > 0 && r.chance(9, 10) {
				d = dirs[r.intn(len(dirs))]
				if r.chance(1, 10) {
					d = pickOf(r, d+"/NOPE", d[:len(d)-1], d+"X")
				}
			} else if len(im.Files) > 0 && r.chance(1, 2) {
				d = im.Files[r.intn(len(im.Files))].Name // often a plain file or a deleted one
			}
			if d == "" {
				d = "NO.SUCH"
			}
			ps.Args = append(ps.Args, d)
		}
		ps.Args = append(ps.Args, ord...)
		r.addFaults(&ps, 30, 6, 4, 40)
		return ps
	}
	for n := r.rang(2, 6); n > 0; n-- {
		s := Step{Procs: []ProcSpec{mk()}, Loss: r.next() >> 20}
		for r.chance(1, 8) && len(s.Procs) < 3 {
			s.Procs = append(s.Procs, mk())
			s.Sched = r.sched(40)
		}
		p.Steps = append(p.Steps, s)
	}
	return p
}

func proExec(w *World) *Violation {
	var im *Image
	var path string
	for i := range w.p.Files {
		if w.p.Files[i].Image != nil {
			im, path = w.p.Files[i].Image, w.p.Files[i].Path
		}
	}
	if im == nil {
		return nil
	}
	img := w.read(path)
	_, ref := im.prodos()
	if im.p("blocks", 280) > 60000 {
		w.st.probe("large volume")
	}
	if im.p("bitmap", 0) != 0 {
		w.st.probe("bitmap elsewhere")
	}
	for i := range w.p.Steps {
		s := &w.p.Steps[i]
		for j, res := range w.run(s) {
			ps := &s.Procs[j]
			c := parseCmd(ps.Args)
			d := c.arg(1)
			names, ok := ref[d]
			want := expect{ok: ok, out: lines(names), why: fmt.Sprintf("directory %q", d)}
			if d != "" && ok {
				w.st.probe("subdirectory")
				if strings.Count(d, "/") > 5 {
					w.st.probe("deep")
				}
			}
			if len(names) > 12 {
				w.st.probe("several blocks")
			}
			if len(names) > 51 && d != "" {
				w.st.probe("many blocks")
			}
			if v := readCheck(w, i, ps, res, want); v != nil {
				return v
			}
		}
		if !bytes.Equal(w.read(path), img) {
			return viol("changed", "step %d: the image was changed", i)
		}
	}
	return nil
}

// ---- C18 ----

// The tokens as listed by the Applesoft ROM, from $80.
var romTokens = strings.Fields(`END FOR NEXT DATA INPUT DEL DIM READ GR TEXT PR# IN# CALL PLOT HLIN VLIN HGR2 HGR HCOLOR= HPLOT DRAW XDRAW HTAB HOME ROT= SCALE= SHLOAD TRACE NOTRACE NORMAL INVERSE FLASH COLOR= POP VTAB HIMEM: LOMEM: ONERR RESUME RECALL STORE SPEED= LET GOTO RUN IF RESTORE & GOSUB RETURN REM STOP ON WAIT LOAD SAVE DEF POKE PRINT CONT LIST CLEAR GET NEW TAB( TO FN SPC( THEN AT NOT STEP + - * / ^ AND OR > = < SGN INT ABS USR FRE SCRN( PDL POS SQR RND LOG EXP COS SIN TAN ATN PEEK LEN STR$ VAL ASC CHR$ LEFT$ RIGHT$ MID$`)

// refList lists a program: each line its number and a space, then characters as
// they are and keywords between spaces.
func refList(ls []basLine, raw bool) []byte {
	var b []byte
	for _, l := range ls {
		b = append(b, fmt.Sprintf("%d ", l.Num)...)
		for _, c := range l.Body {
			if c >= 0x80 {
				b = append(b, ' ')
				b = append(b, romTokens[c-0x80]...)
				b = append(b, ' ')
			} else {
				b = append(b, c)
			}
		}
		b = append(b, '\n')
	}
	if raw {
		return b
	}
	var o []byte
	for _, c := range b {
		switch {
		case c == '\n' || c == '\t' || c >= 0x20:
			o = append(o, c)
		case c <= 0x1a:
			o = append(o, fmt.Sprintf("«ctrl-%c»", '@'+c)...)
		default:
			o = append(o, "«"+map[byte]string{0x1b: "?", 0x1c: "FS", 0x1d: "GS", 0x1e: "RS", 0x1f: "US"}[c]+"»"...)
		}
	}
	return o
}

func decodeLines(b []byte, loc int) (ls []basLine, ok bool) {
	if len(b) >= 2 {
		if x := int(b[0]) + 256*int(b[1]); x == len(b)-2 || x == len(b)-3 {
			b = b[2:]
		}
	}
	for at := loc; ; {
		o := at - loc
		if o < 0 || o+1 >= len(b) {
			return ls, false
		}
		next := int(b[o]) + 256*int(b[o+1])
		if next == 0 {
			return ls, true
		}
		if o+4 >= len(b) || next <= at {
			return ls, false
		}
		l := basLine{Num: int(b[o+2]) + 256*int(b[o+3])}
		q := o + 4
		for ; q < len(b) && b[q] != 0; q++ {
			l.Body = append(l.Body, b[q])
		}
		if q == len(b) {
			return ls, false
		}
		ls = append(ls, l)
		at = next
	}
}

func basGen(r *rng) *Plan {
	p := &Plan{Params: map[string]int{}}
	for n := r.rang(1, 4); n > 0; n-- {
		loc := 0x801
		if r.chance(1, 3) {
			loc = pickOf(r, 0x801, 0xc01, 0x2001, 0x4001, 0x6000, 1, 2, r.rang(1, 0xe000), 0xb000)
		}
		_, b := r.basProg(loc)
		good := 1
		if r.chance(1, 8) && len(b) > 8 {
			// A line link leaves the input.
			o := 0
			for k := r.intn(4); k > 0; k-- {
				nx := int(b[o]) + 256*int(b[o+1]) - loc
				if nx+4 < len(b) {
					o = nx
				}
			}
			bad := pickOf(r, loc+len(b), loc+len(b)+1, loc+len(b)+r.intn(5000), loc-1, loc-r.intn(loc), 0xffff)
			if bad > 0 && bad <= 0xffff {
				b[o], b[o+1] = byte(bad), byte(bad>>8)
				good = 0
			}
		}
		if x := int(b[0]) + 256*int(b[1]); x == len(b)-2 || x == len(b)-3 {
			continue
		}
		pre := r.intn(3)
		switch pre {
		case 1:
			b = append([]byte{byte(len(b)), byte(len(b) >> 8)}, b...)
		case 2: // disk files sometimes have a stray byte at the end
			b = append(append([]byte{byte(len(b)), byte(len(b) >> 8)}, b...), byte(r.intn(256)))
		}
		if pre == 0 && r.chance(1, 6) && good == 1 {
			c := append(append([]byte(nil), b...), r.bytes(r.rang(1, 40))...) // anything may follow the end of the program
			if x := int(c[0]) + 256*int(c[1]); x != len(c)-2 && x != len(c)-3 {
				b = c
			}
		}
		f := fmt.Sprintf("prog%d.bas", n)
		p.need(FileSpec{Path: "/work/" + f, Bytes: &Blob{Kind: "hex", Hex: hexOf(b)}})
		ps := ProcSpec{Args: []string{"applesoft", "decode", f}}
		st := Step{Op: "decode", Str: "/work/" + f, Arg: map[string]int{"loc": loc}}
		switch r.intn(4) {
		case 0:
			ps.Args[2], ps.Stdin = "-", "file:/work/"+f
		case 1:
			ps.Args, ps.Stdin = ps.Args[:2], "file:/work/"+f
		}
		if loc != 0x801 || r.chance(1, 10) {
			ps.Args = append(ps.Args, "--location", pickOf(r, fmt.Sprintf("0x%x", loc), fmt.Sprint(loc)))
		}
		if r.chance(1, 3) {
			ps.Args = append(ps.Args, pickOf(r, "-r", "--raw"))
		}
		r.addFaults(&ps, 40, 6, 4, 30)
		if r.chance(1, 6) {
			ps.Drip = pickOf(r, 1, 2, 3, 7, 64, 511, 512, 513)
		}
		st.Procs = []ProcSpec{ps}
		p.Steps = append(p.Steps, st)
	}
	return p
}

func basExec(w *World) *Violation {
	for i := range w.p.Steps {
		s := &w.p.Steps[i]
		if len(s.Procs) == 0 {
			continue
		}
		b := w.read(s.Str)
		if b == nil {
			continue
		}
		ps := &s.Procs[0]
		c := parseCmd(ps.Args)
		ls, ok := decodeLines(b, s.Arg["loc"])
		want := expect{ok: ok, why: fmt.Sprintf("%d lines", len(ls))}
		if ok {
			for _, l := range ls {
				for _, ch := range l.Body {
					if ch >= 0xeb {
						return nil // not a program
					}
				}
			}
			want.out = refList(ls, c.raw)
			w.st.probe("program")
			if len(ls) > 90 {
				w.st.probe("long program")
			}
		} else {
			w.st.probe("bad link")
		}
		res := w.run(s)[0]
		if v := readCheck(w, i, ps, res, want); v != nil {
			return v
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C09", Gen: dosGen, Exec: dosExec, Quick: 6000, Deep: 400000, Must: []string{"right", "refused", "several T/S lists", "empty file", "error-exit", "dump type 0", "dump type 1", "dump type 2", "dump type 4", "dump type 8"}, Stub: "the builder of the disk and an independent decoder"})
	register(&Prop{ID: "C10", Gen: proGen, Exec: proExec, Quick: 6000, Deep: 300000, Must: []string{"right", "refused", "subdirectory", "several blocks", "deep", "large volume", "many blocks", "bitmap elsewhere"}, Stub: "the builder of the volume"})
	register(&Prop{ID: "C18", Gen: basGen, Exec: basExec, Quick: 12000, Deep: 800000, Must: []string{"right", "refused", "program", "long program", "bad link"}, Stub: "an independent lister written from the ROM's token table"})
}
