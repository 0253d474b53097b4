//go:build go1.21

package harness

import (
	"bytes"
	"fmt"
	"strings"
)

// C15: mksd's images, booted in the simulated Apple II.

const sdLoader = 79 // bytes of the loader before its page list

func bootGen(r *rng) *Plan {
	p := &Plan{Params: map[string]int{}}
	for n := r.rang(1, 3); n > 0; n-- {
		addr := pickOf(r, 0x6000, 0x900, 0xa00, 0x2000, 0x4000, 0xbf00, r.rang(9, 0xbf)*256, r.rang(9, 0xbf)*256)
		room := 0xc000 - addr
		maxPages := 256 - sdLoader - 1
		size := 1
		switch r.intn(10) {
		case 0:
			size = pickOf(r, 1, 255, 256, 257)
		case 1:
			size = pickOf(r, 0, room, room+1, room-1, room-255, room-256)
		case 2:
			size = 256*maxPages + pickOf(r, -257, -256, -255, -1, 0, 1, 256)
			if r.chance(3, 4) {
				addr = pickOf(r, 0x900, 0xa00, 0x1000, 0x1100)
			}
		case 3: // around a track
			size = 256*(16*r.rang(1, 11)-1) + pickOf(r, -256, -255, 0, 1, 256)
		default:
			size = r.rang(1, 256*maxPages)
			if r.chance(3, 4) && size > room {
				size = r.rang(1, room)
			}
		}
		if size < 0 {
			size = 0
		}
		default6 := addr == 0x6000 && r.chance(3, 4)
		if r.chance(1, 14) {
			addr += r.rang(1, 255)
		}
		src := fmt.Sprintf("prog%d.bin", len(p.Files))
		p.Files = append(p.Files, FileSpec{Path: "/work/" + src, Bytes: &Blob{Kind: pickOf(r, "rand", "rand", "zeroend", "text"), Seed: r.next() >> 30, Len: size}})
		dest := pickOf(r, "sd.dsk", "sd.dsk", "sd.do", "sd.po", "sd.PO", "sd.Po", "SD.DSK", "sd", "sd.img", "my.po.dsk", "sd.dsk.po")
		if r.chance(1, 4) {
			p.need(FileSpec{Path: "/work/" + dest, Mode: 0o640, Bytes: &Blob{Kind: "rand", Seed: 9, Len: pickOf(r, 143360, 0, 5000)}})
		}
		num := func(v int) string {
			if r.chance(1, 16) {
				v += 65536 * pickOf(r, 1, 1, 2, 256, 65536) // more than 16 bits
			}
			switch r.intn(5) {
			case 0:
				return fmt.Sprint(v)
			case 1:
				return fmt.Sprintf("0X%X", v)
			default:
				return fmt.Sprintf("0x%04x", v)
			}
		}
		ps := ProcSpec{Args: []string{"mksd", dest, src}}
		if r.chance(1, 8) {
			ps.Args[2] = "-"
			ps.Stdin = "file:/work/" + src
		}
		if !default6 {
			ps.Args = append(ps.Args, "--address", num(addr))
		}
		switch r.intn(8) {
		case 0, 1, 2:
			st := addr + r.intn(size+1)
			if r.chance(1, 6) {
				st = pickOf(r, addr-1, addr+size, addr+size-1, addr, 0xffff, addr+255, 0, 1, 0x6000)
			}
			if st >= 0 && st <= 0xffff {
				ps.Args = append(ps.Args, "--start", num(st))
			}
		}
		if r.chance(1, 3) {
			ps.Args = append(ps.Args, "--order", pickOf(r, "do", "po", "auto"))
		}
		r.addFaults(&ps, 30, 8, 6, 30)
		p.Steps = append(p.Steps, Step{Op: "mksd", Procs: []ProcSpec{ps}, Loss: r.next() >> 20, Arg: map[string]int{"slot": r.rang(1, 7), "mem": r.intn(1 << 20)}})
	}
	return p
}

func bootExec(w *World) *Violation {
	for i := range w.p.Steps {
		s := &w.p.Steps[i]
		if len(s.Procs) == 0 {
			continue
		}
		ps := s.Procs[0]
		c := parseCmd(ps.Args)
		desc := fmt.Sprintf("step %d: diskii %s", i, strings.Join(ps.Args, " "))
		addr := c.num("address", 0x6000)
		start := c.num("start", 0xffff)
		if start == 0xffff {
			start = addr
		}
		srcPath := abs("/work", c.arg(1))
		if c.arg(1) == "-" {
			srcPath = strings.TrimPrefix(ps.Stdin, "file:")
		}
		dest := abs("/work", c.arg(0))
		src := w.read(srcPath)
		before := w.fs().snapshot("/")
		size := len(src)
		desc += fmt.Sprintf(" (%d bytes at $%04X, start $%04X)", size, addr, start)
		pages := (size + 255) / 256
		bad := ""
		switch {
		case addr%256 != 0:
			bad = "the address is not page-aligned"
		case size == 0:
			bad = "there is nothing to load"
		case start < addr || start >= addr+size:
			bad = "the start address is outside the program"
		case addr+size > 0xc000:
			bad = "it does not end below $C000"
		case sdLoader+pages+1 > 256:
			bad = "the page list has no room for it"
		}
		res := w.run(s)[0]
		for try := 0; ; try++ {
			now := w.fs().snapshot("/")
			if res.St.ok() {
				break
			}
			if res.St.Panic != "" || res.St.Hung != "" || res.St.Block {
				return viol("crash", "%s: %s", desc, res.St)
			}
			if res.St.Code != 0 && len(res.Err) == 0 {
				return viol("silent", "%s: %s without a message", desc, res.St)
			}
			if !res.disturbed() {
				if bad == "" && (start == addr || start+size <= 0xc000) {
					return viol("refused", "%s: refused: %s", desc, cut(res.Err, 200))
				}
				if d := diffSnap(before, now, nil); len(d) > 0 {
					return viol("written", "%s: refused, but %s", desc, strings.Join(d, ", "))
				}
				w.st.probe("refused")
				break
			}
			if try > 0 {
				return viol("stuck", "%s: still %s once the faults are over", desc, res.St)
			}
			w.st.probe("retried")
			before = now
			calm := ps
			calm.Faults, calm.Drip = nil, 0
			res = w.proc(calm)
		}
		if !res.St.ok() {
			continue
		}
		if bad != "" {
			return viol("accepted", "%s: accepted although %s", desc, bad)
		}
		if addr < 0x900 {
			continue
		}
		img := w.read(dest)
		if len(img) != floppy {
			return viol("image", "%s: the image has %d bytes", desc, len(img))
		}
		ord := c.opts["order"]
		if ord == "" || ord == "auto" {
			ord = "do"
			if strings.HasSuffix(strings.ToLower(dest), ".po") {
				ord = "po"
			}
		}
		mem := newRng(uint64(s.Arg["mem"])).bytes(0xc000)
		for _, slot := range []int{6, s.Arg["slot"]} {
			m := &apple{slot: slot, disk: refReorder(img, ord, "raw")}
			copy(m.ram[:], mem)
			m.boot(uint16(start))
			where := fmt.Sprintf("%s: booted in %s order from slot %d: ", desc, ord, slot)
			if m.stop != "" {
				return viol("boot", "%s%s (after %d sector reads: %s)", where, m.stop, len(m.reads), tail(m.reads))
			}
			if got := m.ram[addr : addr+size]; !bytes.Equal(got, src) {
				return viol("load", "%sthe program in memory is not the binary: %s (last reads %s)", where, diffBytes(src, got), tail(m.reads))
			}
			for a := 0x200; a < 0xc000; a++ {
				if a == 0x300 {
					a = 0x400
				}
				if a == 0x800 {
					a = 0x900
				}
				if a == addr {
					a += pages * 256
				}
				if a < 0xc000 && m.ram[a] != mem[a] {
					return viol("stray", "%smemory at $%04X is changed, outside the program", where, a)
				}
			}
			w.st.probe("booted " + ord)
			if pages > 16 {
				w.st.probe("several tracks")
			}
			if start != addr {
				w.st.probe("other start")
			}
			if pages == 256-sdLoader-1 {
				w.st.probe("largest")
			}
			if addr+size > 0xbf00 {
				w.st.probe("up to $BFFF")
			}
		}
	}
	return nil
}

func tail(xs []string) string {
	if len(xs) > 4 {
		xs = xs[len(xs)-4:]
	}
	return strings.Join(xs, " ")
}

func init() {
	register(&Prop{ID: "C15", Gen: bootGen, Exec: bootExec, Quick: 12000, Deep: 900000, Must: []string{"booted do", "booted po", "several tracks", "other start", "largest", "up to $BFFF", "refused", "retried"}, Stub: "6502, Disk II head and controller; the boot ROM's sector read and WAIT are stand-ins"})
}
