// Package dosfmt builds DOS 3.3 disks byte by byte, independently of the code
// under test.
package dosfmt

import "math/rand"

// Disk is an image in DOS 3.3 logical sector order.
type Disk struct {
	B    []byte
	free [][2]int
	R    *rand.Rand
}

// TS is a track and sector.
type TS = [2]int

// Sector is the bytes of a sector.
func (d *Disk) Sector(p TS) []byte {
	o := (p[0]*16 + p[1]) * 256
	return d.B[o : o+256]
}

// New is an empty formatted disk with no catalog.
func New(r *rand.Rand) *Disk {
	d := &Disk{B: make([]byte, 143360), R: r}
	v := d.Sector(TS{17, 0})
	v[3] = 3
	v[6] = byte(1 + r.Intn(254))
	v[0x27] = 122
	v[0x30] = 18
	v[0x31] = 1
	v[0x34] = 35
	v[0x35] = 16
	v[0x37] = 1
	for t := 0; t < 35; t++ {
		v[0x38+4*t], v[0x39+4*t] = byte(r.Intn(256)), byte(r.Intn(256))
	}
	for t := 1; t < 35; t++ {
		for s := 0; s < 16; s++ {
			if t != 17 || s != 0 {
				d.free = append(d.free, TS{t, s})
			}
		}
	}
	r.Shuffle(len(d.free), func(i, j int) { d.free[i], d.free[j] = d.free[j], d.free[i] })
	return d
}

// Odd makes the unjudged and unused parts of the VTOC unusual but valid.
func (d *Disk) Odd() {
	r := d.R
	v := d.Sector(TS{17, 0})
	v[0] = byte(r.Intn(256))
	for _, i := range []int{4, 5, 0x28, 0x29, 0x2f, 0x30, 0x32, 0x33, 7, 0x26} {
		v[i] = byte(r.Intn(256))
	}
	if r.Intn(2) == 0 {
		v[0x31] = 0xff
	}
	v[6] = []byte{0, 1, 254, 100}[r.Intn(4)]
	for t := 35; t < 50; t++ {
		if r.Intn(2) == 0 {
			v[0x38+4*t], v[0x39+4*t] = byte(r.Intn(256)), byte(r.Intn(256))
		}
	}
}

// Alloc takes a free sector (never on track 0).
func (d *Disk) Alloc() TS {
	p := d.free[0]
	d.free = d.free[1:]
	return p
}

// Free is the number of free sectors.
func (d *Disk) Free() int { return len(d.free) }

// Catalog makes a chain of n catalog sectors and returns their places.
func (d *Disk) Catalog(n int) []TS {
	var c []TS
	for i := 0; i < n; i++ {
		c = append(c, d.Alloc())
	}
	d.Chain(TS{17, 0}, c)
	return c
}

// Chain links sectors from head on, ending with 0,0.
func (d *Disk) Chain(head TS, c []TS) {
	p := head
	for _, q := range c {
		d.Point(p, q)
		p = q
	}
	d.Point(p, TS{0, 0})
}

// Point stores a pointer in bytes 1 and 2 of a sector.
func (d *Disk) Point(p, q TS) {
	s := d.Sector(p)
	s[1], s[2] = byte(q[0]), byte(q[1])
}

// Name is a stored file name: high bits set, padded with blanks.
func Name(s string) []byte {
	b := make([]byte, 30)
	for i := range b {
		b[i] = 0xA0
		if i < len(s) {
			b[i] = s[i] | 0x80
		}
	}
	return b
}

// Entry stores a catalog entry.
func (d *Disk) Entry(cat TS, slot int, first TS, typ byte, name []byte, sectors int) {
	e := d.Sector(cat)[11+35*slot : 11+35*slot+35]
	e[0], e[1] = byte(first[0]), byte(first[1])
	e[2] = typ
	copy(e[3:33], name)
	e[33], e[34] = byte(sectors), byte(sectors>>8)
}

// Store writes data sectors (nil: a hole) and their lists, and returns the
// place of the first list and the number of sectors.
func (d *Disk) Store(secs [][]byte) (TS, int) {
	n := 0
	var slots []TS
	for _, s := range secs {
		if s == nil {
			slots = append(slots, TS{0, 0})
			continue
		}
		p := d.Alloc()
		copy(d.Sector(p), s)
		slots = append(slots, p)
		n++
	}
	var lists []TS
	for i := 0; i == 0 || i < len(slots); i += 122 {
		p := d.Alloc()
		lists = append(lists, p)
		n++
		s := d.Sector(p)
		s[5], s[6] = byte(i), byte(i>>8)
		for k := 0; k < 122 && i+k < len(slots); k++ {
			s[12+2*k], s[13+2*k] = byte(slots[i+k][0]), byte(slots[i+k][1])
		}
	}
	for i := 1; i < len(lists); i++ {
		d.Point(lists[i-1], lists[i])
	}
	return lists[0], n
}

// Split cuts data in sectors, the last padded.
func Split(b []byte) [][]byte {
	var r [][]byte
	for i := 0; i < len(b); i += 256 {
		s := make([]byte, 256)
		copy(s, b[i:])
		r = append(r, s)
	}
	return r
}
