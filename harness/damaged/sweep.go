package main

import (
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zz_verif/dosfmt"
	"github.com/zellyn/diskii/zz_verif/kit"
	"github.com/zellyn/diskii/zz_verif/nakfmt"
	pf "github.com/zellyn/diskii/zz_verif/prodosfmt"
)

// Sweeps: one field of a disk takes every value it can have, the rest of the
// disk staying sound.

// target is a disk in its system's own sector order, and what to ask of it.
type target struct {
	f    types.OperatorFactory
	b    []byte
	dirs []string
	gets []string
	n    int
}

func (x *target) try(t *kit.T, cs *calls) {
	if t.Over() {
		return
	}
	if x.n++; x.n%256 == 1 {
		t.Alive()
	}
	cs.do("recognise", func() error { x.f.SeemsToMatch(x.b, 0); return nil })
	var op types.Operator
	if !cs.do("open", func() (err error) { op, err = x.f.Operator(x.b, 0); return err }) {
		return
	}
	for _, d := range x.dirs {
		d := d
		cs.do("list", func() error { _, err := op.Catalog(d); return err })
	}
	for _, n := range x.gets {
		n := n
		cs.do("get", func() error { _, err := op.GetFile(n); return err })
	}
}

// bytes gives each byte of lo..hi-1 each value (every step'th of them).
func (x *target) bytes(t *kit.T, cs *calls, lo, hi, step int) {
	for o := lo; o < hi; o++ {
		was := x.b[o]
		for v := (o * 7) % step; v < 256; v += step {
			x.b[o] = byte(v)
			x.try(t, cs)
		}
		x.b[o] = was
	}
}

// words gives the two bytes at lo and hi every value of [from, to).
func (x *target) words(t *kit.T, cs *calls, lo, hi, from, to, step int) {
	a, b := x.b[lo], x.b[hi]
	for v := from; v < to; v += step {
		x.b[lo], x.b[hi] = byte(v), byte(v>>8)
		x.try(t, cs)
	}
	x.b[lo], x.b[hi] = a, b
}

func sweeps(c *kit.Ctx) {
	const parts = 8
	split := func(kind string, f func(t *kit.T, cs *calls, from, to int)) {
		for p := 0; p < parts; p++ {
			p := p
			c.Case(kind, func(t *kit.T) {
				var cs calls
				f(t, &cs, p*65536/parts, (p+1)*65536/parts)
				cs.emit(t, kind)
			})
		}
	}
	step := c.N(8, 1)

	// DOS 3.3: every pointer takes every track and sector.
	dos := func(r *kit.T) (*target, []int) {
		d := dosfmt.New(r.R)
		cat := d.Catalog(2)
		x := &target{f: dos3.OperatorFactory{}, b: d.B, dirs: []string{""}}
		first := dosfmt.TS{}
		for s, typ := range []byte{0, 1, 2, 4} {
			l := make([]byte, 700)
			r.R.Read(l)
			for i := range l {
				l[i] |= 1
			}
			l[0], l[1], l[2], l[3] = 100, 1, 100, 1
			var cnt int
			first, cnt = d.Store(dosfmt.Split(l))
			n := string(rune('A' + s))
			d.Entry(cat[0], s, first, typ, dosfmt.Name(n), cnt)
			x.gets = append(x.gets, n)
		}
		at := func(p dosfmt.TS) int { return (p[0]*16 + p[1]) * 256 }
		e := at(cat[0]) + 11 + 35*3
		l := d.Sector(first)
		return x, []int{at(dosfmt.TS{17, 0}) + 1, at(cat[0]) + 1, e, at(first) + 1, at(first) + 12,
			at(dosfmt.TS{int(l[12]), int(l[13])}), at(dosfmt.TS{int(l[12]), int(l[13])}) + 2, at(cat[0]), at(first), at(cat[1]) + 1}
	}
	for _, k := range []int{0, 1, 2, 3, 4, 5, 6, 9} { // 5 and 6: a binary's address and length
		k := k
		split("dos-pointer", func(t *kit.T, cs *calls, from, to int) {
			x, at := dos(t)
			x.words(t, cs, at[k], at[k]+1, from, to, 1)
		})
	}
	for s, typ := range []byte{1, 2} { // the length of a BASIC program, in one, two and three sectors
		s, typ := s, typ
		split("dos-length", func(t *kit.T, cs *calls, from, to int) {
			d := dosfmt.New(t.R)
			cat := d.Catalog(1)
			l := make([]byte, 256*(1+s+t.R.Intn(2)))
			secs := dosfmt.Split(l)
			first, cnt := d.Store(secs)
			d.Entry(cat[0], 0, first, typ, dosfmt.Name("A"), cnt)
			q := d.Sector(first)
			o := (int(q[12])*16 + int(q[13])) * 256
			x := &target{f: dos3.OperatorFactory{}, b: d.B, dirs: []string{""}, gets: []string{"A"}}
			x.words(t, cs, o, o+1, from, to, 1)
		})
	}
	for part := 0; part < 8; part++ {
		part := part
		c.Case("dos-bytes", func(t *kit.T) {
			var cs calls
			x, at := dos(t)
			lo := part * 32
			v, ct, ls := 17*16*256, at[7], at[8]
			x.bytes(t, &cs, v+lo, v+lo+32, step)
			x.bytes(t, &cs, ct+lo, ct+lo+32, step)
			x.bytes(t, &cs, ls+lo, ls+lo+32, step)
			cs.emit(t, "dos-bytes")
		})
	}

	// ProDOS: every pointer takes every block number, on volumes of some sizes.
	for _, n := range []int{280, 24, 4096, 65536} {
		n := n
		pro := func(t *kit.T) (*target, []int, []int) {
			v := pf.New(t.R, n)
			v.Root.Grow()
			a := v.Root.Mkdir(0, "A")
			v.Root.Entry(1, 1, "F", 4, 9)
			b := a.Mkdir(3, "B")
			b.Entry(0, 2, "G", 6, 9)
			a.Grow()
			c := a.Mkdir(12, "C")
			e := v.Root.Mkdir(12, "D")
			x := &target{f: prodos.OperatorFactory{}, b: v.B, dirs: []string{"", "A", "A/B", "A/C", "D", "A/B/Z"}, gets: []string{"F"}}
			ks := []int{2*512 + 2, 2*512 + 0x27, a.Blocks[0]*512 + 2, a.Blocks[1]*512 + 2, a.Blocks[0]*512 + 0x27, b.Blocks[0]*512 + 0x27, c.Blocks[0]*512 + 0x27,
				2*512 + 0x2b + 0x11, v.Root.Blocks[1]*512 + 4 + 0x11, a.Blocks[0]*512 + 0x2b + 39*3 + 0x11, e.Blocks[0]*512 + 2, v.Root.Blocks[1]*512 + 2}
			return x, ks, []int{2, v.Root.Blocks[1], a.Blocks[0], a.Blocks[1], b.Blocks[0]}
		}
		for k := 0; k < 12; k++ {
			k := k
			st := 1
			if n != 280 && !c.Thorough() {
				st = 61
			}
			split("prodos-pointer", func(t *kit.T, cs *calls, from, to int) {
				x, at, _ := pro(t)
				if at[k] == 2*512+0x27 && n == 65536 {
					st = st * 7 // sixteen blocks of bitmap each time
				}
				x.words(t, cs, at[k], at[k]+1, from, to, st)
				for v := n - 3; v < n+3; v++ {
					if v >= from && v < to {
						x.words(t, cs, at[k], at[k]+1, v, v+1, 1)
					}
				}
			})
		}
		if n != 280 {
			continue
		}
		for part := 0; part < 16; part++ {
			part := part
			c.Case("prodos-bytes", func(t *kit.T) {
				var cs calls
				x, _, blks := pro(t)
				for _, b := range blks {
					x.bytes(t, &cs, b*512+part*32, b*512+part*32+32, 2*step)
				}
				cs.emit(t, "prodos-bytes")
			})
		}
	}

	// NakedOS: the sector map's bytes, symbols' addresses and links.
	nak := func(t *kit.T) *target {
		b := nakfmt.Blank(t.R, nakfmt.Opts{Symbols: true, Scatter: true, UsedFiles: 9, LiveSyms: 30})
		return &target{f: supermon.OperatorFactory{}, b: b, dirs: []string{""}, gets: []string{"05", "DFFE", "AAA", "FHELLO"}}
	}
	for p := 0; p < 8; p++ {
		p := p
		c.Case("nakedos-bytes", func(t *kit.T) {
			var cs calls
			x := nak(t)
			x.bytes(t, &cs, 9*256+0xd0+70*p, 9*256+0xd0+70*p+70, 4*step)
			cs.emit(t, "nakedos-bytes")
		})
	}
	for _, slot := range []int{0, 1, 63, 408, 818} {
		for f := 0; f < 2; f++ { // address, link
			slot, f := slot, f
			if slot != 0 && slot != 818 && !c.Thorough() {
				continue
			}
			split("nakedos-symbol", func(t *kit.T, cs *calls, from, to int) {
				x := nak(t)
				lo, hi := nakfmt.SymbolPlace(x.b, slot, f)
				other, oh := nakfmt.SymbolPlace(x.b, slot, 1-f)
				if f == 1 { // a live one
					x.b[other], x.b[oh] = 0x05, 0xDF
				}
				st := 1
				if slot != 0 && !c.Thorough() {
					st = 5
				}
				x.words(t, cs, lo, hi, from, to, st)
				for v := 0xCF00; v < 0xE100; v++ {
					if v >= from && v < to {
						x.words(t, cs, lo, hi, v, v+1, 1)
					}
				}
			})
		}
	}
	for p := 0; p < 8; p++ {
		p := p
		c.Case("nakedos-table", func(t *kit.T) {
			var cs calls
			x := nak(t)
			for i, o := range x.b[9*256+0xd0 : 9*256+0xd0+560] {
				if (o == 3 || o == 4) && i%8 == p {
					x.bytes(t, &cs, i*256, i*256+256, 16*step)
				}
			}
			cs.emit(t, "nakedos-table")
		})
	}
}
