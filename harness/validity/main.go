// Command validity asks the validation of directory blocks and VTOCs (C26).
package main

import (
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/zz_verif/dosfmt"
	"github.com/zellyn/diskii/zz_verif/kit"
	"github.com/zellyn/diskii/zz_verif/prodosfmt"
)

var kinds = []string{"volkey", "vol", "subkey", "sub"}

// complaints counts what the validation has to say of a block.
func complaints(kind string, b []byte) int {
	var blk disk.Block
	copy(blk[:], b)
	fail := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	switch kind {
	case "volkey":
		var x prodos.VolumeDirectoryKeyBlock
		fail(x.FromBlock(blk))
		return len(x.Validate())
	case "vol":
		var x prodos.VolumeDirectoryBlock
		fail(x.FromBlock(blk))
		return len(x.Validate())
	case "subkey":
		var x prodos.SubdirectoryKeyBlock
		fail(x.FromBlock(blk))
		return len(x.Validate())
	case "sub":
		var x prodos.SubdirectoryBlock
		fail(x.FromBlock(blk))
		return len(x.Validate())
	}
	v := dos3.VTOC{}
	fail(v.FromSector(b))
	return kit.ErrFlag(v.Validate())
}

func block(t *kit.T, kind string, b []byte) {
	o := kit.Obj{"ev": "block", "kind2": kind, "base": kit.Ints(b), "n": -1}
	o["how"] = kit.Outcome(func() { o["n"] = complaints(kind, b) })
	t.Emit(o)
}

func sweep(t *kit.T, ev, kind string, b []byte, off int, vals []int) {
	ns := make([]int, len(vals))
	o := kit.Obj{"ev": ev, "kind2": kind, "base": kit.Ints(b), "off": off, "vals": vals, "ns": ns}
	o["how"] = kit.Outcome(func() {
		for i, v := range vals {
			c := append([]byte(nil), b...)
			c[off] = byte(v)
			ns[i] = complaints(kind, c)
		}
	})
	t.Emit(o)
}

func stamp(t *kit.T, b []byte) {
	b[0], b[1] = byte(t.R.Intn(256)), byte(t.R.Intn(200))
	b[2], b[3] = byte(t.R.Intn(60)), byte(t.R.Intn(24))
	switch t.R.Intn(6) {
	case 0:
		b[2], b[3] = 59, 23
	case 1:
		b[0], b[1], b[2], b[3] = 0, 0, 0, 0
	}
}

// wellFormed makes a block as ProDOS writes them.
func wellFormed(t *kit.T, kind string) []byte {
	r := t.R
	b := make([]byte, 512)
	key := kind == "volkey" || kind == "subkey"
	prodosfmt.PutWord(b, 2, r.Intn(2)*r.Intn(65536))
	if !key {
		prodosfmt.PutWord(b, 0, r.Intn(65536))
	}
	dense := 1 + r.Intn(4)
	for k := 0; k < 13; k++ {
		e := b[4+39*k : 4+39*k+39]
		if key && k == 0 {
			name := prodosfmt.Name(r)
			copy(e[1:], name)
			e[0] = 0xF0 | byte(len(name))
			r.Read(e[0x10:0x18])
			if kind == "subkey" {
				e[0] = 0xE0 | byte(len(name))
				e[0x10] = 0x75
			}
			stamp(t, e[0x18:])
			r.Read(e[0x1c:0x27])
			continue
		}
		if r.Intn(dense) > 0 {
			if r.Intn(2) == 0 { // removed: only the first byte is cleared
				stamp(t, e[0x18:])
				stamp(t, e[0x21:])
				copy(e[1:], prodosfmt.Name(r))
			}
			continue
		}
		name := prodosfmt.Name(r)
		r.Read(e)
		copy(e[1:], name)
		e[0] = []byte{0x10, 0x20, 0x30, 0xD0}[r.Intn(4)] | byte(len(name))
		stamp(t, e[0x18:])
		stamp(t, e[0x21:])
	}
	return b
}

// spoil breaks some of the rules.
func spoil(t *kit.T, kind string, b []byte) {
	r := t.R
	for n := 1 + r.Intn(4); n > 0; n-- {
		switch r.Intn(6) {
		case 0:
			b[r.Intn(2)] = byte(1 << r.Intn(8))
		case 1:
			b[511] = byte(1 + r.Intn(255))
		case 2:
			b[4+16] = byte(r.Intn(256))
		default:
			o := 4 + 39*r.Intn(13) + []int{0x18, 0x21}[r.Intn(2)]
			if r.Intn(2) == 0 {
				b[o+2] = byte(60 + r.Intn(196))
			} else {
				b[o+3] = byte(24 + r.Intn(232))
			}
		}
	}
}

func main() {
	kit.Main(func(c *kit.Ctx) {
		gs := c.GenLines()
		const batch = 200
		for i := 0; i < len(gs); i += batch {
			i := i
			c.Case("made", func(t *kit.T) {
				for k := i; k < i+batch && k < len(gs); k++ {
					m := gs[k]["block"].(map[string]interface{})
					b := make([]byte, 512)
					for _, p := range m["bytes"].([]interface{}) {
						q := p.([]interface{})
						b[int(q[0].(float64))] = byte(q[1].(float64))
					}
					block(t, m["kind"].(string), b)
				}
			})
		}
		vals := []int{0, 1, 15, 16, 23, 24, 25, 59, 60, 61, 116, 117, 118, 127, 128, 255}
		if c.Thorough() {
			vals = nil
			for v := 0; v < 256; v++ {
				vals = append(vals, v)
			}
		}
		for _, kind := range kinds {
			for off := 0; off < 512; off += 32 {
				kind, off := kind, off
				c.Case("bytes", func(t *kit.T) {
					for o := off; o < off+32; o++ {
						b := wellFormed(t, kind)
						if t.R.Intn(3) == 0 {
							spoil(t, kind, b)
						}
						sweep(t, "sweep", kind, b, o, vals)
					}
				})
			}
			// The fields that matter, with every value.
			kind := kind
			c.Case("fields", func(t *kit.T) {
				all := make([]int, 256)
				for v := range all {
					all[v] = v
				}
				offs := []int{0, 1, 511, 4 + 16}
				for k := 0; k < 13; k++ {
					offs = append(offs, 4+39*k+0x1a, 4+39*k+0x1b, 4+39*k+0x23, 4+39*k+0x24)
				}
				for _, o := range offs {
					sweep(t, "sweep", kind, wellFormed(t, kind), o, all)
				}
			})
			for i := 0; i < c.N(20, 300); i++ {
				c.Case("random", func(t *kit.T) {
					for k := 0; k < 20; k++ {
						b := wellFormed(t, kind)
						if t.R.Intn(2) == 0 {
							spoil(t, kind, b)
						}
						block(t, kind, b)
					}
				})
			}
		}
		// Real directories.
		c.Case("real", func(t *kit.T) {
			b := t.Disk("data/disks/ProDOS_2_4_2.po")
			block(t, "volkey", b[2*512:3*512])
			for k := 3; k < 6; k++ {
				block(t, "vol", b[k*512:k*512+512])
			}
		})
		// Volume tables of contents.
		for off := 0; off < 256; off += 16 {
			off := off
			c.Case("vtoc", func(t *kit.T) {
				all := make([]int, 256)
				for v := range all {
					all[v] = v
				}
				for o := off; o < off+16; o++ {
					d := dosfmt.New(t.R)
					if t.R.Intn(2) == 0 {
						d.Odd()
					}
					sweep(t, "vtoc", "vtoc", d.Sector(dosfmt.TS{17, 0}), o, all)
				}
			})
		}
		c.Case("default", func(t *kit.T) {
			o := kit.Obj{"ev": "default", "base": []int{}, "n": -1}
			o["how"] = kit.Outcome(func() {
				v := dos3.DefaultVTOC()
				o["n"] = kit.ErrFlag(v.Validate())
				s, err := v.ToSector()
				if err != nil {
					panic(err)
				}
				o["base"] = kit.Ints(s)
			})
			t.Emit(o)
		})
	})
}
