// Package prodosfmt builds ProDOS volumes byte by byte, independently of the
// code under test.
package prodosfmt

import (
	"bytes"
	"math/rand"
	"sort"

	"github.com/zellyn/diskii/zz_verif/kit"
)

// Vol is a volume in block order.
type Vol struct {
	B    []byte
	N    int
	R    *rand.Rand
	used map[int]bool
	want []int
	Dirs []*Dir // subdirectories, in order of making
	Root *Dir
}

// Dir is a directory being built.
type Dir struct {
	Name   string
	Path   string
	Blocks []int // key block first
	next   int   // next slot
	v      *Vol
}

// Block is the bytes of a block.
func (v *Vol) Block(b int) []byte { return v.B[b*512 : b*512+512] }

// PutWord stores a little-endian word.
func PutWord(b []byte, o, w int) { b[o], b[o+1] = byte(w), byte(w>>8) }

// New is a volume of n blocks with an empty directory of one block.
func New(r *rand.Rand, n int) *Vol {
	v := &Vol{B: make([]byte, n*512), N: n, R: r, used: map[int]bool{0: true, 1: true, 2: true}}
	bm := 6
	for i := 0; i <= (n-1)/4096; i++ {
		v.used[bm+i] = true
	}
	if n <= 8 { // tiny: no room for a bitmap
		v.used = map[int]bool{0: true, 1: true, 2: true}
	}
	if n < 3 {
		return v
	}
	v.Root = &Dir{Blocks: []int{2}, v: v}
	k := v.Block(2)
	name := Name(r)
	k[4] = 0xF0 | byte(len(name))
	copy(k[5:], name)
	r.Read(k[0x14:0x20])
	k[0x22] = byte(r.Intn(256))
	k[0x23], k[0x24] = 0x27, 0x0D
	PutWord(k, 0x25, r.Intn(300))
	PutWord(k, 0x27, bm)
	PutWord(k, 0x29, n)
	return v
}

// Alloc takes a free block, anywhere on the volume; -1 if there seems none.
func (v *Vol) Alloc() int {
	r := v.R
	for len(v.want) > 0 {
		b := v.want[0]
		v.want = v.want[1:]
		if !v.used[b] {
			v.used[b] = true
			return b
		}
	}
	for i := 0; i < 2000; i++ {
		b := 3 + r.Intn(v.N-3)
		switch r.Intn(6) {
		case 0:
			b = v.N - 1 - r.Intn(min(4, v.N-3))
		case 1:
			if v.N > 257 {
				b = 256 * (1 + r.Intn((v.N-1)/256))
			}
		}
		if b < v.N && !v.used[b] {
			v.used[b] = true
			return b
		}
	}
	return -1
}

// Take marks a block as used.
func (v *Vol) Take(b int) { v.used[b] = true }

// Name is a proper ProDOS name.
func Name(r *rand.Rand) string {
	const first = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	const rest = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789."
	n := 1 + r.Intn(15)
	if r.Intn(4) == 0 {
		n = []int{1, 15, 14, 2}[r.Intn(4)]
	}
	b := []byte{first[r.Intn(26)]}
	for len(b) < n {
		b = append(b, rest[r.Intn(len(rest))])
	}
	return string(b)
}

// Grow adds a block at the end of a directory.
func (d *Dir) Grow() bool {
	b := d.v.Alloc()
	if b < 0 {
		return false
	}
	last := d.Blocks[len(d.Blocks)-1]
	PutWord(d.v.Block(last), 2, b)
	PutWord(d.v.Block(b), 0, last)
	d.Blocks = append(d.Blocks, b)
	return true
}

// Slots is the number of entries the directory has room for.
func (d *Dir) Slots() int { return 12 + 13*(len(d.Blocks)-1) }

// Slot is the bytes of an entry, and the block it lies in.
func (d *Dir) Slot(i int) ([]byte, int) {
	if i < 12 {
		return d.v.Block(d.Blocks[0])[0x2b+39*i : 0x2b+39*i+39], d.Blocks[0]
	}
	i -= 12
	return d.v.Block(d.Blocks[1+i/13])[4+39*(i%13) : 4+39*(i%13)+39], d.Blocks[1+i/13]
}

// Entry writes an entry with random other fields.
func (d *Dir) Entry(i int, storage int, name string, typ byte, key int) int {
	e, blk := d.Slot(i)
	r := d.v.R
	r.Read(e)
	e[0] = byte(storage<<4) | byte(len(name))
	copy(e[1:], name)
	if r.Intn(2) == 0 {
		for k := 1 + len(name); k < 16; k++ {
			e[k] = 0
		}
	}
	e[0x10] = typ
	PutWord(e, 0x11, key)
	PutWord(e, 0x25, d.Blocks[0])
	return blk
}

// Header writes the header of a subdirectory key block.
func (v *Vol) Header(key int, name string, parent int) {
	k := v.Block(key)
	v.R.Read(k[4:0x2b])
	k[4] = 0xE0 | byte(len(name))
	copy(k[5:], name)
	k[0x14] = 0x75
	k[0x23], k[0x24] = 0x27, 0x0D
	PutWord(k, 0x27, parent)
	k[0x2a] = 0x27
}

// Mkdir makes a subdirectory in slot i of d. Its parent pointer names the key
// block, or the block the entry is in.
func (d *Dir) Mkdir(i int, name string) *Dir {
	v := d.v
	b := v.Alloc()
	if b < 0 {
		return nil
	}
	blk := d.Entry(i, 0xD, name, 0x0F, b)
	parent := d.Blocks[0]
	if v.R.Intn(2) == 0 {
		parent = blk
	}
	v.Header(b, name, parent)
	s := &Dir{Name: name, Path: name, Blocks: []int{b}, v: v}
	if d.Path != "" {
		s.Path = d.Path + "/" + name
	}
	v.Dirs = append(v.Dirs, s)
	return s
}

// At makes the next block allocated a given one, if it is free.
func (v *Vol) At(b int) {
	if b > 2 && b < v.N && !v.used[b] {
		v.want = append(v.want, b)
	}
}

// Counts sets the file counts of the directories' headers: now and then to
// something else than the truth, which listing does not depend on.
func (v *Vol) Counts() {
	for _, d := range append([]*Dir{v.Root}, v.Dirs...) {
		n := 0
		for i := 0; i < d.Slots(); i++ {
			if e, _ := d.Slot(i); e[0]>>4 != 0 {
				n++
			}
		}
		switch v.R.Intn(8) {
		case 0:
			n = 0
		case 1:
			n = v.R.Intn(1 + d.Slots())
		}
		PutWord(v.Block(d.Blocks[0]), 0x25, n)
	}
}

// Emit records the volume.
func Emit(t *kit.T, b []byte) {
	blks := []int{}
	secs := [][]int{}
	zero := make([]byte, 512)
	for i := 0; i*512 < len(b); i++ {
		if x := b[i*512 : i*512+512]; !bytes.Equal(x, zero) {
			blks = append(blks, i)
			secs = append(secs, kit.Ints(x))
		}
	}
	t.Emit(kit.Obj{"ev": "image", "n": len(b) / 512, "blks": blks, "secs": secs})
}

// Random fills a volume with a random tree.
func Random(r *rand.Rand, n, dirs int) *Vol {
	v := New(r, n)
	all := []*Dir{v.Root}
	for i := 0; i < len(all); i++ {
		d := all[i]
		for g := []int{0, 0, 1, 2, 3}[r.Intn(5)]; g > 0; g-- {
			d.Grow()
		}
		if r.Intn(15) == 0 {
			for g := r.Intn(12); g > 0; g-- {
				d.Grow()
			}
		}
		names := map[string]bool{}
		dense := 1 + r.Intn(4)
		for s := 0; s < d.Slots(); s++ {
			name := Name(r)
			if names[name] {
				continue
			}
			switch x := r.Intn(4 * dense); {
			case x == 0: // never used
			case x == 1: // deleted
				st := d.Entry(s, 0, name, byte(r.Intn(256)), r.Intn(65536))
				_ = st
				if r.Intn(2) == 0 {
					e, _ := d.Slot(s)
					e[0] = 0
				}
				if r.Intn(3) == 0 { // once a subdirectory
					e, _ := d.Slot(s)
					e[0x10] = 0x0F
					if r.Intn(2) == 0 && len(v.Dirs) > 0 {
						PutWord(e, 0x11, v.Dirs[r.Intn(len(v.Dirs))].Blocks[0])
					}
				}
			case len(v.Dirs) < dirs && (x == 2 || r.Intn(6) == 0):
				if i > 0 && r.Intn(8) == 0 {
					name = d.Name // a child named like its parent
				}
				if names[name] {
					continue
				}
				if sub := d.Mkdir(s, name); sub != nil {
					all = append(all, sub)
				}
			default:
				st := []int{1, 2, 3}[r.Intn(3)]
				if r.Intn(10) == 0 {
					st = 1 + r.Intn(12)
				}
				typ := byte(r.Intn(256))
				if r.Intn(3) == 0 {
					typ = []byte{0x04, 0x06, 0x0F, 0xFC, 0xFF}[r.Intn(5)]
				}
				if r.Intn(12) == 0 {
					name = string([]byte{byte(33 + r.Intn(90)), 'x', '/', 0xC1}[:1+r.Intn(4)])
				}
				d.Entry(s, st, name, typ, r.Intn(65536))
			}
			names[name] = true
		}
	}
	return v
}

// Paths are paths of directories, sorted.
func (v *Vol) Paths() []string {
	var p []string
	for _, d := range v.Dirs {
		p = append(p, d.Path)
	}
	sort.Strings(p)
	return p
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
