// Package nakfmt reads and makes NakedOS disk images (in physical sector
// order) from the published format, independently of the code under test.
package nakfmt

import (
	"bytes"
	"math/rand"
	"sort"
	"strconv"

	"github.com/zellyn/diskii/zz_verif/kit"
)

// Size of a floppy image.
const Size = 143360

const (
	free     = 0xFF
	reserved = 0xFE
	mapOfs   = 9*256 + 0xD0
	slots    = 819
)

// physical sector of each sector of a DOS-order image file (Understanding
// the Apple II, 9-42).
var dosPhys = [16]int{0x0, 0xD, 0xB, 0x9, 0x7, 0x5, 0x3, 0x1, 0xE, 0xC, 0xA, 0x8, 0x6, 0x4, 0x2, 0xF}

// DosToPhys puts a DOS-order image in physical order.
func DosToPhys(b []byte) []byte {
	r := make([]byte, len(b))
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			copy(r[(t*16+dosPhys[s])*256:][:256], b[(t*16+s)*256:][:256])
		}
	}
	return r
}

// PhysToDos is the inverse.
func PhysToDos(b []byte) []byte {
	r := make([]byte, len(b))
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			copy(r[(t*16+s)*256:][:256], b[(t*16+dosPhys[s])*256:][:256])
		}
	}
	return r
}

// PoToPhys is the inverse of PhysToPo.
func PoToPhys(b []byte) []byte {
	r := make([]byte, len(b))
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			p := 2 * s
			if s >= 8 {
				p = 2*s - 15
			}
			copy(r[(t*16+p)*256:][:256], b[(t*16+s)*256:][:256])
		}
	}
	return r
}

// PhysToPo puts a physical-order image in ProDOS order.
func PhysToPo(b []byte) []byte {
	r := make([]byte, len(b))
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			p := 2 * s
			if s >= 8 {
				p = 2*s - 15
			}
			copy(r[(t*16+s)*256:][:256], b[(t*16+p)*256:][:256])
		}
	}
	return r
}

// Real loads one of the repository's NakedOS images in physical order.
func Real(c *kit.Ctx, name string) []byte {
	dir := "data/disks/"
	if name == "chacha20.dsk" {
		dir = "supermon/testdata/"
	}
	return DosToPhys(c.Disk(dir + name))
}

// View is what an image shows.
type View struct {
	own  []int
	con  []int
	head int
	st   bool
	raw  map[int][2][]int // live slots
	img  []byte
}

func smap(img []byte) []byte { return img[mapOfs : mapOfs+560] }

// Data is what a file holds.
func (v *View) Data(f int) []byte { return fileBytes(v.img, byte(f)) }

func fileBytes(img []byte, f byte) []byte {
	var r []byte
	for i, o := range smap(img) {
		if o == f {
			r = append(r, img[i*256:(i+1)*256]...)
		}
	}
	return r
}

// Look reads an image.
func Look(in *kit.Interner, img []byte) *View {
	return LookAfter(in, img, nil)
}

// LookAfter is Look, given the view of an earlier state of the image.
func LookAfter(in *kit.Interner, img []byte, p *View) *View {
	v := &View{raw: map[int][2][]int{}, img: append([]byte(nil), img...)}
	if p == nil {
		v.con = in.Sectors(img)
	} else {
		v.con = append([]int(nil), p.con...)
		for i := range v.con {
			if s := img[i*256 : i*256+256]; !bytes.Equal(s, p.img[i*256:i*256+256]) {
				v.con[i] = in.Tok(s)
			}
		}
	}
	v.own = kit.Ints(smap(img))
	v.head = in.Tok(img[9*256 : mapOfs])
	t1, t2 := fileBytes(img, 3), fileBytes(img, 4)
	v.st = len(t1) == 4096 && len(t2) == 4096
	if v.st {
		for i := 0; i < slots; i++ {
			a, b := t1[5*i:5*i+5], t2[5*i:5*i+5]
			if a[0] != 0 || a[1] != 0 {
				v.raw[i] = [2][]int{kit.Ints(a), kit.Ints(b)}
			}
		}
	}
	return v
}

// Full is the whole view as fields of a trace line.
func (v *View) Full() kit.Obj {
	o := kit.Obj{"own": v.own, "con": v.con, "head": v.head, "st": kit.B(v.st)}
	inv := make([]int, slots)
	list := []interface{}{}
	for i := 0; i < slots; i++ {
		if x, ok := v.raw[i]; ok {
			list = append(list, []interface{}{i, x[0], x[1]})
			inv[i] = len(list)
		}
	}
	o["dslots"], o["sinv"] = list, inv
	return o
}

// Diff adds to o how v differs from p.
func (v *View) Diff(p *View, o kit.Obj) {
	down, dcon, ds := [][2]int{}, [][2]int{}, []interface{}{}
	for i := range v.own {
		if v.own[i] != p.own[i] {
			down = append(down, [2]int{i + 1, v.own[i]})
		}
		if v.con[i] != p.con[i] {
			dcon = append(dcon, [2]int{i + 1, v.con[i]})
		}
	}
	for i := 0; i < slots; i++ {
		a, okA := p.raw[i]
		b, okB := v.raw[i]
		switch {
		case okB && (!okA || !same(a, b)):
			ds = append(ds, []interface{}{i, b[0], b[1]})
		case okA && !okB:
			z := []int{0, 0, 0, 0, 0}
			ds = append(ds, []interface{}{i, z, z})
		}
	}
	o["down"], o["dcon"], o["dslots"], o["head"], o["st"] = down, dcon, ds, v.head, kit.B(v.st)
}

func same(a, b [2][]int) bool {
	for i := 0; i < 5; i++ {
		if a[0][i] != b[0][i] || a[1][i] != b[1][i] {
			return false
		}
	}
	return true
}

// Files lists the numbers of the files on the disk.
func (v *View) Files() []int {
	seen := map[int]bool{}
	for _, o := range v.own {
		if o >= 1 && o <= 253 {
			seen[o] = true
		}
	}
	r := []int{}
	for f := range seen {
		r = append(r, f)
	}
	sort.Ints(r)
	return r
}

// Sectors lists the places (from 0) of a file's sectors.
func (v *View) Sectors(f int) []int {
	r := []int{}
	for i, o := range v.own {
		if o == f {
			r = append(r, i)
		}
	}
	return r
}

// Free counts free sectors.
func (v *View) Free() int {
	n := 0
	for _, o := range v.own {
		if o == free {
			n++
		}
	}
	return n
}

// Names lists the names in the symbol table.
func (v *View) Names() []string {
	var r []string
	for i := 0; i < slots; i++ {
		if x, ok := v.raw[i]; ok {
			r = append(r, decode(x[0], x[1]))
		}
	}
	return r
}

// FileNames is Names without those of the symbol-table files.
func (v *View) FileNames() []string {
	var r []string
	for i := 0; i < slots; i++ {
		if x, ok := v.raw[i]; ok {
			if a := x[0][0] + 256*x[0][1]; a != 0xDF03 && a != 0xDF04 {
				r = append(r, decode(x[0], x[1]))
			}
		}
	}
	return r
}

func decode(a, b []int) string {
	var v uint64
	for i := 4; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	v |= uint64(a[4]) << 40
	s := ""
	for v&31 != 0 {
		if x := v & 31; x < 27 {
			s += string(rune('@' + x))
			v >>= 5
		} else {
			s += string(rune('0' + x - 27 + 5*(v>>5&1)))
			v >>= 6
		}
	}
	return s
}

func encode(name string) (a4 byte, b [5]byte) {
	var v uint64
	for i := len(name) - 1; i >= 0; i-- {
		c := name[i]
		if c >= 'A' && c <= 'Z' {
			v = v<<5 | uint64(c-'@')
		} else {
			d := uint64(c - '0')
			v = v<<6 | (d/5)<<5 | (27 + d%5)
		}
	}
	for i := range b {
		b[i] = byte(v >> (8 * i))
	}
	return byte(v >> 40), b
}

// Number is the file number a name gives, or 0.
func Number(s string) int {
	n, err := strconv.ParseUint(s, 16, 16)
	if err != nil {
		return 0
	}
	if n > 0xDF00 && n < 0xDFFE {
		return int(n - 0xDF00)
	}
	if n > 0 && n < 0xFE {
		return int(n)
	}
	return 0
}

// Opts says what disk to make.
type Opts struct {
	Symbols     bool // with a symbol table
	FreeSectors int  // 0: all that are not used
	Scatter     bool // free sectors all over the disk
	UsedFiles   int  // how many other file numbers are in use (one sector each)
	LiveSyms    int  // symbols in the table; -1: all but FreeSlots
	FreeSlots   int
	OneClass    bool // symbols in few hash classes
}

type sym struct {
	name string
	addr int
	link int // -1 none
}

// Blank makes a disk.
func Blank(r *rand.Rand, o Opts) []byte {
	img := make([]byte, Size)
	r.Read(img) // whatever was there
	own := make([]byte, 560)
	for i := range own {
		own[i] = free
	}
	for i := 0; i < 12; i++ {
		own[i] = reserved
	}
	avail := []int{}
	for i := 12; i < 560; i++ {
		avail = append(avail, i)
	}
	if o.Scatter {
		r.Shuffle(len(avail), func(i, j int) { avail[i], avail[j] = avail[j], avail[i] })
	}
	take := func(n int, f byte) []int {
		t := avail[:n]
		avail = avail[n:]
		for _, i := range t {
			own[i] = f
		}
		return t
	}
	if o.Symbols {
		take(16, 3)
		take(16, 4)
	}
	nums := r.Perm(253)
	n := 0
	for _, k := range nums {
		f := byte(k + 1)
		if (o.Symbols && (f == 3 || f == 4)) || n >= o.UsedFiles {
			continue
		}
		take(1, f)
		n++
	}
	if o.FreeSectors > 0 && o.FreeSectors < len(avail) {
		take(len(avail)-o.FreeSectors, reserved)
	}
	copy(img[mapOfs:], own)
	if o.Symbols {
		n := o.LiveSyms
		if n < 0 {
			n = slots - o.FreeSlots
		}
		putTable(r, img, randomSyms(r, n, o.OneClass))
	}
	return img
}

// Tight is the disk the model describes: four free sectors, two free slots,
// and (if tight) only file numbers 5 and 133 unused.
func Tight(r *rand.Rand, tight bool) []byte {
	img := make([]byte, Size)
	r.Read(img)
	own := make([]byte, 560)
	for i := range own {
		own[i] = reserved
	}
	n := 12
	if tight {
		for f := 1; f <= 253; f++ {
			if f != 3 && f != 4 && f != 5 && f != 133 {
				own[n] = byte(f)
				n++
			}
		}
	}
	for i := 0; i < 16; i++ {
		own[300+2*i] = 3
		own[301+2*i] = 4
	}
	for _, i := range []int{15, 16, 399, 559} {
		if own[i] != reserved { // keep the one-sector files that were there
			own[500+i%50] = own[i]
		}
		own[i] = free
	}
	copy(img[mapOfs:], own)
	k := 817
	if !tight {
		k = 12
	}
	putTable(r, img, randomSyms(r, k, false))
	return img
}

func hash(a int) int { return (a ^ a>>8) & 0x7f }

// randomSyms makes n symbols, none of them the name of a file or one of the
// names the drivers use, chained by hash class.
func randomSyms(r *rand.Rand, n int, oneClass bool) map[int]sym {
	st := map[int]sym{}
	used := map[string]bool{}
	tail := map[int]int{}
	perm := r.Perm(slots)
	if n < slots/2 && r.Intn(2) == 0 { // compact
		for i := range perm {
			perm[i] = i
		}
	}
	for k := 0; k < n; k++ {
		slot := perm[k]
		var name string
		for {
			b := make([]byte, 4+r.Intn(4))
			b[0] = 'S'
			b[1] = 'Y'
			for i := 2; i < len(b); i++ {
				b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[r.Intn(36)]
			}
			name = string(b)
			if !used[name] {
				used[name] = true
				break
			}
		}
		a := 1 + r.Intn(0xDEFF)
		if oneClass {
			hi := 1 + r.Intn(0xDE)
			a = hi<<8 | (hi ^ []int{0x00, 0x5A, 0x80}[r.Intn(3)])
		}
		st[slot] = sym{name, a, -1}
		if p, ok := tail[hash(a)]; ok && r.Intn(8) > 0 {
			x := st[p]
			x.link = slot
			st[p] = x
		}
		tail[hash(a)] = slot
	}
	return st
}

func putTable(r *rand.Rand, img []byte, st map[int]sym) {
	t1, t2 := make([]byte, 4096), make([]byte, 4096)
	for i := 0; i < slots; i++ {
		s, ok := st[i]
		if !ok {
			if r.Intn(4) == 0 { // stale leftovers in an empty slot
				r.Read(t1[5*i+2 : 5*i+5])
				r.Read(t2[5*i : 5*i+5])
			}
			continue
		}
		t1[5*i], t1[5*i+1] = byte(s.addr), byte(s.addr>>8)
		if s.link >= 0 {
			l := 0xD000 + 5*s.link
			t1[5*i+2], t1[5*i+3] = byte(l), byte(l>>8)
		}
		x, b := encode(s.name)
		t1[5*i+4] = x
		copy(t2[5*i:], b[:])
	}
	n1, n2 := 0, 0
	for i, o := range smap(img) {
		switch o {
		case 3:
			copy(img[i*256:(i+1)*256], t1[n1*256:])
			n1++
		case 4:
			copy(img[i*256:(i+1)*256], t2[n2*256:])
			n2++
		}
	}
}

// SymbolPlace is where in an image the two bytes of a symbol's address
// (which = 0) or link (which = 1) are.
func SymbolPlace(img []byte, slot, which int) (lo, hi int) {
	var secs []int
	for i, o := range smap(img) {
		if o == 3 {
			secs = append(secs, i)
		}
	}
	at := func(o int) int { return secs[o/256]*256 + o%256 }
	o := 5*slot + 2*which
	return at(o), at(o + 1)
}
