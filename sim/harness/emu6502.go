//go:build go1.21

package harness

import "fmt"

// A small Apple II: a 6502 with the documented instructions, RAM, one Disk II
// with its head and stepper phases, and stand-ins for the two ROM routines a boot
// loader may use: the controller's sector read ($Cs5C) and WAIT ($FCA8).

type apple struct {
	ram        [65536]byte
	a, x, y, s byte
	pc         uint16
	c, z, i, d bool
	v, n       bool
	slot       int
	head       int // quarter... half tracks from track 0
	motor      bool
	disk       []byte // by physical sector
	ops        int
	waits      int
	reads      []string
	stop       string
}

const (
	mImp = iota
	mAcc
	mImm
	mZp
	mZpx
	mZpy
	mAbs
	mAbx
	mAby
	mInd
	mIzx
	mIzy
	mRel
)

type opInfo struct {
	name string
	mode int
}

var ops6502 = func() map[byte]opInfo {
	m := map[byte]opInfo{}
	add := func(name string, kv ...int) {
		for i := 0; i < len(kv); i += 2 {
			m[byte(kv[i])] = opInfo{name, kv[i+1]}
		}
	}
	for name, base := range map[string]int{"ORA": 0x01, "AND": 0x21, "EOR": 0x41, "ADC": 0x61, "STA": 0x81, "LDA": 0xa1, "CMP": 0xc1, "SBC": 0xe1} {
		add(name, base, mIzx, base+4, mZp, base+12, mAbs, base+16, mIzy, base+20, mZpx, base+24, mAby, base+28, mAbx)
		if name != "STA" {
			add(name, base+8, mImm)
		}
	}
	for name, base := range map[string]int{"ASL": 0x06, "ROL": 0x26, "LSR": 0x46, "ROR": 0x66} {
		add(name, base, mZp, base+4, mAcc, base+8, mAbs, base+16, mZpx, base+24, mAbx)
	}
	add("DEC", 0xc6, mZp, 0xce, mAbs, 0xd6, mZpx, 0xde, mAbx)
	add("INC", 0xe6, mZp, 0xee, mAbs, 0xf6, mZpx, 0xfe, mAbx)
	add("STX", 0x86, mZp, 0x8e, mAbs, 0x96, mZpy)
	add("STY", 0x84, mZp, 0x8c, mAbs, 0x94, mZpx)
	add("LDX", 0xa2, mImm, 0xa6, mZp, 0xae, mAbs, 0xb6, mZpy, 0xbe, mAby)
	add("LDY", 0xa0, mImm, 0xa4, mZp, 0xac, mAbs, 0xb4, mZpx, 0xbc, mAbx)
	add("CPX", 0xe0, mImm, 0xe4, mZp, 0xec, mAbs)
	add("CPY", 0xc0, mImm, 0xc4, mZp, 0xcc, mAbs)
	add("BIT", 0x24, mZp, 0x2c, mAbs)
	add("JMP", 0x4c, mAbs, 0x6c, mInd)
	add("JSR", 0x20, mAbs)
	for name, b := range map[string]int{"BPL": 0x10, "BMI": 0x30, "BVC": 0x50, "BVS": 0x70, "BCC": 0x90, "BCS": 0xb0, "BNE": 0xd0, "BEQ": 0xf0} {
		add(name, b, mRel)
	}
	for name, b := range map[string]int{"BRK": 0x00, "RTI": 0x40, "RTS": 0x60, "PHP": 0x08, "PLP": 0x28, "PHA": 0x48, "PLA": 0x68, "DEY": 0x88, "TAY": 0xa8, "INY": 0xc8, "INX": 0xe8, "CLC": 0x18, "SEC": 0x38, "CLI": 0x58, "SEI": 0x78, "TYA": 0x98, "CLV": 0xb8, "CLD": 0xd8, "SED": 0xf8, "TXA": 0x8a, "TXS": 0x9a, "TAX": 0xaa, "TSX": 0xba, "DEX": 0xca, "NOP": 0xea} {
		add(name, b, mImp)
	}
	return m
}()

func (m *apple) io(addr uint16) {
	base := uint16(0xc080 + m.slot*16)
	if addr < base || addr > base+15 {
		return
	}
	sw := int(addr - base)
	switch {
	case sw < 8:
		if sw&1 == 1 { // a magnet next to the head pulls it half a track
			ph := sw >> 1
			switch {
			case (m.head+1)&3 == ph:
				if m.head < 79 {
					m.head++
				}
			case (m.head+3)&3 == ph:
				if m.head > 0 {
					m.head--
				}
			}
		}
	case sw == 8:
		m.motor = false
	case sw == 9:
		m.motor = true
	}
}

func (m *apple) get(a uint16) byte {
	if a >= 0xc000 && a < 0xd000 {
		m.io(a)
		return byte(m.ops * 37)
	}
	return m.ram[a]
}

func (m *apple) put(a uint16, v byte) {
	if a >= 0xc000 {
		m.io(a)
		return
	}
	m.ram[a] = v
}

func (m *apple) push(v byte) { m.ram[0x100+int(m.s)] = v; m.s-- }
func (m *apple) pop() byte   { m.s++; return m.ram[0x100+int(m.s)] }
func (m *apple) nz(v byte)   { m.n, m.z = v&0x80 != 0, v == 0 }

func (m *apple) fetch() byte { v := m.get(m.pc); m.pc++; return v }
func (m *apple) word() uint16 {
	lo := uint16(m.fetch())
	return lo | uint16(m.fetch())<<8
}

func (m *apple) flags() byte {
	var p byte = 0x30
	for i, b := range []bool{m.c, m.z, m.i, m.d, false, false, m.v, m.n} {
		if b {
			p |= 1 << i
		}
	}
	return p
}

func (m *apple) setFlags(p byte) {
	m.c, m.z, m.i, m.d, m.v, m.n = p&1 != 0, p&2 != 0, p&4 != 0, p&8 != 0, p&0x40 != 0, p&0x80 != 0
}

func (m *apple) step() {
	m.ops++
	at := m.pc
	op, ok := ops6502[m.fetch()]
	if !ok {
		m.stop = fmt.Sprintf("undocumented instruction %02X at $%04X", m.get(at), at)
		return
	}
	var ea uint16
	switch op.mode {
	case mImm:
		ea = m.pc
		m.pc++
	case mZp:
		ea = uint16(m.fetch())
	case mZpx:
		ea = uint16(m.fetch() + m.x)
	case mZpy:
		ea = uint16(m.fetch() + m.y)
	case mAbs:
		ea = m.word()
	case mAbx:
		ea = m.word() + uint16(m.x)
	case mAby:
		ea = m.word() + uint16(m.y)
	case mInd:
		p := m.word()
		ea = uint16(m.get(p)) | uint16(m.get(p&0xff00|uint16(byte(p)+1)))<<8
	case mIzx:
		z := m.fetch() + m.x
		ea = uint16(m.ram[z]) | uint16(m.ram[byte(z+1)])<<8
	case mIzy:
		z := m.fetch()
		ea = (uint16(m.ram[z]) | uint16(m.ram[byte(z+1)])<<8) + uint16(m.y)
	case mRel:
		o := int8(m.fetch())
		ea = m.pc + uint16(int16(o))
	}
	br := func(c bool) {
		if c {
			m.pc = ea
		}
	}
	cmp := func(r byte) {
		v := m.get(ea)
		m.c = r >= v
		m.nz(r - v)
	}
	rmw := func(f func(byte) byte) {
		if op.mode == mAcc {
			m.a = f(m.a)
			m.nz(m.a)
			return
		}
		v := f(m.get(ea))
		m.put(ea, v)
		m.nz(v)
	}
	adc := func(v byte) {
		c := 0
		if m.c {
			c = 1
		}
		if m.d {
			m.stop = "decimal mode arithmetic"
		}
		r := int(m.a) + int(v) + c
		m.v = (m.a^byte(r))&(v^byte(r))&0x80 != 0
		m.c = r > 255
		m.a = byte(r)
		m.nz(m.a)
	}
	switch op.name {
	case "ORA":
		m.a |= m.get(ea)
		m.nz(m.a)
	case "AND":
		m.a &= m.get(ea)
		m.nz(m.a)
	case "EOR":
		m.a ^= m.get(ea)
		m.nz(m.a)
	case "ADC":
		adc(m.get(ea))
	case "SBC":
		adc(^m.get(ea))
	case "STA":
		m.put(ea, m.a)
	case "STX":
		m.put(ea, m.x)
	case "STY":
		m.put(ea, m.y)
	case "LDA":
		m.a = m.get(ea)
		m.nz(m.a)
	case "LDX":
		m.x = m.get(ea)
		m.nz(m.x)
	case "LDY":
		m.y = m.get(ea)
		m.nz(m.y)
	case "CMP":
		cmp(m.a)
	case "CPX":
		cmp(m.x)
	case "CPY":
		cmp(m.y)
	case "BIT":
		v := m.get(ea)
		m.z, m.n, m.v = m.a&v == 0, v&0x80 != 0, v&0x40 != 0
	case "ASL":
		rmw(func(v byte) byte { m.c = v&0x80 != 0; return v << 1 })
	case "LSR":
		rmw(func(v byte) byte { m.c = v&1 != 0; return v >> 1 })
	case "ROL":
		rmw(func(v byte) byte {
			r := v << 1
			if m.c {
				r |= 1
			}
			m.c = v&0x80 != 0
			return r
		})
	case "ROR":
		rmw(func(v byte) byte {
			r := v >> 1
			if m.c {
				r |= 0x80
			}
			m.c = v&1 != 0
			return r
		})
	case "INC":
		rmw(func(v byte) byte { return v + 1 })
	case "DEC":
		rmw(func(v byte) byte { return v - 1 })
	case "JMP":
		m.pc = ea
	case "JSR":
		r := m.pc - 1
		m.push(byte(r >> 8))
		m.push(byte(r))
		m.pc = ea
	case "RTS":
		lo := uint16(m.pop())
		m.pc = (lo | uint16(m.pop())<<8) + 1
	case "RTI":
		m.setFlags(m.pop())
		lo := uint16(m.pop())
		m.pc = lo | uint16(m.pop())<<8
	case "BRK":
		m.stop = fmt.Sprintf("BRK at $%04X", at)
	case "BPL":
		br(!m.n)
	case "BMI":
		br(m.n)
	case "BVC":
		br(!m.v)
	case "BVS":
		br(m.v)
	case "BCC":
		br(!m.c)
	case "BCS":
		br(m.c)
	case "BNE":
		br(!m.z)
	case "BEQ":
		br(m.z)
	case "PHP":
		m.push(m.flags())
	case "PLP":
		m.setFlags(m.pop())
	case "PHA":
		m.push(m.a)
	case "PLA":
		m.a = m.pop()
		m.nz(m.a)
	case "DEY":
		m.y--
		m.nz(m.y)
	case "INY":
		m.y++
		m.nz(m.y)
	case "DEX":
		m.x--
		m.nz(m.x)
	case "INX":
		m.x++
		m.nz(m.x)
	case "TAY":
		m.y = m.a
		m.nz(m.y)
	case "TYA":
		m.a = m.y
		m.nz(m.a)
	case "TAX":
		m.x = m.a
		m.nz(m.x)
	case "TXA":
		m.a = m.x
		m.nz(m.a)
	case "TSX":
		m.x = m.s
		m.nz(m.x)
	case "TXS":
		m.s = m.x
	case "CLC":
		m.c = false
	case "SEC":
		m.c = true
	case "CLI":
		m.i = false
	case "SEI":
		m.i = true
	case "CLV":
		m.v = false
	case "CLD":
		m.d = false
	case "SED":
		m.d = true
	}
}

// rom stands in for the boot ROM's sector reader, from $Cs5C on: it reads
// physical sector $3D of track $41 to ($26), if the head is there.
func (m *apple) rom() {
	track, sector := int(m.ram[0x41]), int(m.ram[0x3d])
	buf := int(m.ram[0x26]) | int(m.ram[0x27])<<8
	if !m.motor {
		m.stop = "reads with the motor off"
		return
	}
	if m.head&1 != 0 || m.head/2 != track {
		m.stop = fmt.Sprintf("waits forever for track %d with the head at track %g", track, float64(m.head)/2)
		return
	}
	if sector > 15 || track > 34 {
		m.stop = fmt.Sprintf("waits forever for track %d, sector %d", track, sector)
		return
	}
	m.reads = append(m.reads, fmt.Sprintf("%d/%d>%04X", track, sector, buf))
	for k := 0; k < 256; k++ {
		m.put(uint16(buf+k), m.disk[track*4096+sector*256+k])
	}
	m.ram[0x40] = byte(track)
	m.ram[0x3c] = byte(m.ops)
	for k := 0x300; k < 0x356; k++ {
		m.ram[k] = byte(k*m.ops) & 0x3f
	}
	m.ram[0x27]++
	m.ram[0x3d]++
	m.a, m.y = m.ram[0x3d], 0
	m.c = m.a >= m.ram[0x800]
	m.x = m.ram[0x2b]
	m.nz(m.x)
	if !m.c {
		m.pc = uint16(0xc05c + m.slot<<8)
		return
	}
	m.pc = 0x801
}

// boot starts the machine and runs until the program counter reaches start.
func (m *apple) boot(start uint16) {
	m.s = 0xfb
	m.head, m.motor = 0, true
	m.ram[0x26], m.ram[0x27], m.ram[0x2b] = 0, 8, byte(m.slot*16)
	m.ram[0x3d], m.ram[0x41] = 0, 0
	m.x = m.ram[0x2b]
	for k := 0x356; k < 0x3d6; k++ { // the ROM's decoding table
		m.ram[k] = byte(k)
	}
	m.pc = uint16(0xc05c + m.slot<<8)
	for m.stop == "" {
		if m.pc == start && len(m.reads) > 0 && m.pc>>8 != 8 {
			return
		}
		switch {
		case m.pc == uint16(0xc05c+m.slot<<8):
			m.ops++
			m.rom()
		case m.pc == 0xfca8:
			m.ops++
			m.waits++
			m.a, m.z, m.n, m.c = 0, true, false, true
			lo := uint16(m.pop())
			m.pc = (lo | uint16(m.pop())<<8) + 1
		case m.pc >= 0xc000:
			m.stop = fmt.Sprintf("jumps to $%04X", m.pc)
		default:
			m.step()
		}
		if m.ops > 100_000 {
			m.stop = "does not start within 100000 instructions"
		}
	}
}
