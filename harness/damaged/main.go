// Command damaged opens, lists and reads damaged images (C13).
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zz_verif/dosfmt"
	"github.com/zellyn/diskii/zz_verif/fsimg"
	"github.com/zellyn/diskii/zz_verif/kit"
	"github.com/zellyn/diskii/zz_verif/nakfmt"
	pf "github.com/zellyn/diskii/zz_verif/prodosfmt"
)

const floppy = 143360

var factories = []types.OperatorFactory{dos3.OperatorFactory{}, supermon.OperatorFactory{}, prodos.OperatorFactory{}}

// calls is the record of what was called.
type calls struct {
	l []kit.Obj
	n map[string]int
}

// do makes a call; only the first of each outcome of an operation is kept.
func (c *calls) do(op string, f func() error) bool {
	end := 2
	var err error
	if kit.Outcome(func() { err = f() }) == "ok" {
		end = 1
		if err != nil {
			end = 0
		}
	}
	k := fmt.Sprint(op, end)
	if c.n == nil {
		c.n = map[string]int{}
	}
	c.n[k]++
	if c.n[k] == 1 {
		c.l = append(c.l, kit.Obj{"op": op, "end": end})
	}
	return end == 1
}

func (c *calls) emit(t *kit.T, what string) {
	if c.l == nil {
		c.l = []kit.Obj{}
	}
	t.Emit(kit.Obj{"ev": "calls", "what": what, "calls": c.l})
}

// use does everything there is to do with an image of a system.
func (c *calls) use(t *kit.T, b []byte, name string, order types.DiskOrder, system string) {
	var op types.Operator
	if !c.do("open", func() (err error) {
		op, _, err = disk.OpenImage(append([]byte(nil), b...), name, order, system, factories, 0)
		return err
	}) {
		return
	}
	t.Alive()
	var names []string
	list := func(dir string) {
		c.do("list", func() error {
			ds, err := op.Catalog(dir)
			for _, d := range ds {
				names = append(names, d.Name, d.Fullname)
			}
			return err
		})
		t.Alive()
	}
	list("")
	if op.HasSubdirs() {
		n := len(names)
		for i := 0; i < n && i < 24; i++ {
			list(names[i])
			list(names[i] + "/" + names[(i*7+3)%n])
		}
	}
	if op.Name() == "nakedos" {
		for f := 0; f < 256; f++ {
			names = append(names, fmt.Sprintf("DF%02X", f))
		}
	}
	names = append(names, "", "X", "DF", ":", "FHELLO", strings.Repeat("A", 300), "\x00", "é", "0", "DF00", "DFFF", "ZZZZZ", "ZZZZZZZZZ")
	if len(names) > 700 {
		names = names[:700]
	}
	for _, n := range names {
		if t.Over() {
			return
		}
		n := n
		c.do("get", func() error {
			_, err := op.GetFile(n)
			return err
		})
	}
	t.Alive()
}

func (c *calls) all(t *kit.T, b []byte) {
	name := "x.hdv"
	if len(b) == floppy {
		name = "x.dsk"
	}
	c.use(t, b, name, "auto", "auto")
	if len(b) != floppy {
		return
	}
	for _, s := range []string{"dos3", "nakedos", "prodos"} {
		for _, o := range []types.DiskOrder{"do", "po"} {
			c.use(t, b, name, o, s)
		}
	}
}

func (c *calls) cli(t *kit.T, b []byte, systems ...string) {
	dir := t.Tmp()
	defer os.RemoveAll(dir)
	name := "x.hdv"
	if len(b) == floppy {
		name = "x.dsk"
	}
	kit.WriteFile(filepath.Join(dir, name), b)
	slow := false
	run := func(args ...string) string {
		var out string
		if slow || t.Over() {
			return ""
		}
		c.do("diskii "+args[0], func() error {
			r := t.Run(dir, nil, args...)
			if r.How != "ok" {
				slow = slow || r.Timeout
				panic(r.How)
			}
			out = string(r.Stdout)
			if r.Rc != 0 {
				return fmt.Errorf("rc %d", r.Rc)
			}
			return nil
		})
		return out
	}
	if len(systems) == 0 {
		systems = []string{"auto"}
	}
	for _, s := range systems {
		l := strings.Split(run("ls", "--system", s, name), "\n")
		for i, f := range l {
			if i < 4 && f != "" && !strings.HasPrefix(f, "-") && !strings.ContainsRune(f, 0) {
				run("dump", "--system", s, name, f)
				run("ls", "--system", s, name, f)
			}
		}
	}
}

// spoil changes a few bytes at places that matter.
func spoil(r *rand.Rand, b []byte, at []int) {
	for k := 1 + r.Intn(4); k > 0; k-- {
		o := at[r.Intn(len(at))]
		switch r.Intn(5) {
		case 0:
			b[o] = byte(r.Intn(256))
		case 1:
			b[o] = 0
		case 2:
			b[o] = 255
		case 3:
			b[o] ^= 1 << uint(r.Intn(8))
		case 4:
			b[o] = b[at[r.Intn(len(at))]]
		}
	}
}

func dosDisk(r *rand.Rand) ([]byte, []int) {
	d := dosfmt.New(r)
	cat := d.Catalog(1 + r.Intn(4))
	var at []int
	for i := 0; i < 0x40; i++ {
		at = append(at, 17*16*256+i)
	}
	mark := func(p dosfmt.TS, n int) {
		for i := 0; i < n; i++ {
			at = append(at, (p[0]*16+p[1])*256+i)
		}
	}
	for _, c := range cat {
		mark(c, 3)
		for s := 0; s < 7; s++ {
			if r.Intn(3) == 0 || d.Free() < 130 {
				continue
			}
			typ := []byte{0, 1, 2, 4, 0x84, 8, 0x10}[r.Intn(7)]
			n := r.Intn(1200)
			if r.Intn(30) == 0 {
				n = 32000
			}
			x := make([]byte, n)
			r.Read(x)
			secs := dosfmt.Split(x)
			first, cnt := d.Store(secs)
			d.Entry(c, s, first, typ, dosfmt.Name(pf.Name(r)), cnt)
			mark(first, 40)
			l := d.Sector(first)
			mark(dosfmt.TS{int(l[12]), int(l[13])}, 4)
			e := (c[0]*16+c[1])*256 + 11 + 35*s
			at = append(at, e, e+1, e+2, e+3, e+20)
		}
	}
	return d.B, at
}

func proDisk(r *rand.Rand, n int) ([]byte, []int) {
	v := pf.Random(r, n, r.Intn(10))
	var at []int
	for _, d := range append([]*pf.Dir{v.Root}, v.Dirs...) {
		for k, b := range d.Blocks {
			o := b * 512
			at = append(at, o, o+2, o+3, o+2, o+3)
			if k == 0 {
				at = append(at, o+4, o+0x27, o+0x28, o+0x27, o+0x28)
			}
		}
		for s := 0; s < d.Slots(); s++ {
			o := d.Blocks[0]*512 + 0x2b + 39*s
			if s >= 12 {
				o = d.Blocks[1+(s-12)/13]*512 + 4 + 39*((s-12)%13)
			}
			if v.B[o]>>4 == 0xD {
				at = append(at, o, o+0x11, o+0x12, o+0x11)
			} else {
				at = append(at, o)
			}
		}
	}
	return v.B, at
}

func nakDisk(r *rand.Rand) ([]byte, []int) {
	b := nakfmt.Blank(r, nakfmt.Opts{Symbols: true, Scatter: r.Intn(2) == 0, UsedFiles: r.Intn(40), LiveSyms: r.Intn(400)})
	var at []int
	for i := 0; i < 560; i++ {
		at = append(at, 9*256+0xd0+i)
		if o := b[9*256+0xd0+i]; o == 3 || o == 4 {
			for k := 0; k < 40; k++ {
				at = append(at, i*256+r.Intn(256))
			}
		}
	}
	return b, at
}

func c13(c *kit.Ctx) {
	for i := 0; i < c.N(250, 4000); i++ {
		i := i
		c.Case("spoiled", func(t *kit.T) {
			r := t.R
			var b []byte
			var at []int
			sys := "dos3"
			var order types.DiskOrder = "do"
			switch i % 3 {
			case 0:
				b, at = dosDisk(r)
			case 1:
				b, at = proDisk(r, 280)
				sys, order = "prodos", "po"
			case 2:
				b, at = nakDisk(r)
				sys = "nakedos"
			}
			var cs calls
			for k := 0; k < 12; k++ {
				x := append([]byte(nil), b...)
				spoil(r, x, at)
				if sys == "nakedos" {
					x = nakfmt.PhysToDos(x)
				}
				if k%4 == 0 {
					cs.all(t, x)
				} else {
					cs.use(t, x, "x.dsk", order, sys)
				}
				if i%20 == 0 && k < 3 {
					cs.cli(t, x, sys)
				}
			}
			cs.emit(t, sys)
		})
	}
	for fill := 0; fill < 256; fill += 16 {
		fill := fill
		c.Case("fill", func(t *kit.T) {
			var cs calls
			for f := fill; f < fill+16; f++ {
				b := make([]byte, floppy)
				for i := range b {
					b[i] = byte(f)
				}
				cs.all(t, b)
			}
			cs.emit(t, "fill")
		})
	}
	for i := 0; i < c.N(8, 200); i++ {
		c.Case("random", func(t *kit.T) {
			var cs calls
			for k := 0; k < 3; k++ {
				b := make([]byte, floppy)
				t.R.Read(b)
				cs.all(t, b)
				// random catalog and directory blocks behind a good VTOC
				d := dosfmt.New(t.R)
				copy(b[17*16*256:], d.B[17*16*256:17*16*256+256])
				b[17*16*256+1], b[17*16*256+2] = 17, 15
				cs.all(t, b)
			}
			cs.emit(t, "random")
		})
	}
	for _, n := range []int{0, 512, 1024, 1536, 2048, 4096 * 512, 4095 * 512, 8192 * 512, 65535 * 512, 65536 * 512, 100, 65537 * 512, 116480} {
		n := n
		c.Case("size", func(t *kit.T) {
			var cs calls
			b := make([]byte, n)
			cs.all(t, b)
			if n <= 8192*512 {
				t.R.Read(b)
				cs.all(t, b)
				for i := range b {
					b[i] = 0xff
				}
				cs.all(t, b)
			}
			if n%512 == 0 && n >= 2048 && n <= 65536*512 {
				for k := 0; k < 3; k++ {
					v, at := proDisk(t.R, n/512)
					spoil(t.R, v, at)
					cs.all(t, v)
				}
				cs.cli(t, b)
			}
			cs.emit(t, "size")
		})
	}
	for _, kind := range []string{"deep", "shared", "wide", "longchain", "nested-long", "all-subdirs"} {
		kind := kind
		for _, n := range []int{280, 65536} {
			n := n
			c.Case("extreme", func(t *kit.T) {
				var cs calls
				b := extreme(t.R, kind, n)
				cs.all(t, b)
				cs.cli(t, b)
				cs.emit(t, kind)
			})
		}
	}
	for _, g := range fsimg.Graphs(c) {
		g := g
		c.Case("graph", func(t *kit.T) {
			var cs calls
			dosGraph(t, &cs, g)
			cs.emit(t, "graph")
		})
	}
	// Every graph of directory pointers on a few blocks.
	var vols [][]interface{}
	for _, m := range c.GenLines() {
		if x, ok := m["vol"].([]interface{}); ok {
			vols = append(vols, x)
		}
	}
	const batch = 64
	for i := 0; i < len(vols); i += batch {
		i := i
		c.Case("volumes", func(t *kit.T) {
			var cs calls
			for k := i; k < i+batch && k < len(vols); k++ {
				volume(t, &cs, vols[k])
			}
			cs.emit(t, "volumes")
		})
	}
	for _, p := range []string{"ProDOS_2_4_2.po", "Super-Mon-2.0.dsk", "blank.dsk", "dos33master.dsk", "lode-runner-disk-1.dsk", "prodos-users-disk.dsk"} {
		p := p
		c.Case("real", func(t *kit.T) {
			var cs calls
			b := t.Disk("data/disks/" + p)
			cs.all(t, b)
			for k := 0; k < c.N(6, 200); k++ {
				x := append([]byte(nil), b...)
				base := []int{17 * 16 * 256, 17*16*256 + 15*256, 0x400, 9 * 256, 0x600, 0x800}[t.R.Intn(6)]
				for j := 1 + t.R.Intn(5); j > 0; j-- {
					x[base+t.R.Intn(512)] = byte(t.R.Intn(256))
				}
				cs.all(t, x)
			}
			cs.emit(t, p)
		})
	}
}

// extreme volumes, of n blocks.
func extreme(r *rand.Rand, kind string, n int) []byte {
	b := make([]byte, n*512)
	pf.PutWord(b, 2*512+0x27, 6)
	b[2*512+4] = 0xF1
	b[2*512+5] = 'V'
	sub := func(blk, slot, key int) { // entry for a subdirectory in a key block
		e := b[blk*512+0x2b+39*slot:]
		e[0] = 0xDF
		copy(e[1:], "ABCDEFGHIJKLMNO")
		pf.PutWord(e, 0x11, key)
	}
	head := func(blk, parent int) {
		b[blk*512+4] = 0xEF
		copy(b[blk*512+5:], "ABCDEFGHIJKLMNO")
		pf.PutWord(b, blk*512+0x27, parent)
	}
	switch kind {
	case "deep": // each directory in the one before
		for i := 2; i < n-1; i++ {
			if i > 2 {
				head(i, i-1)
			}
			sub(i, 0, i+1)
		}
		head(n-1, n-2)
	case "shared": // half the blocks directories, all continued by the other half
		half := n / 2
		for i := half; i < n-1; i++ {
			pf.PutWord(b, i*512+2, i+1)
		}
		for i := 2; i < half; i++ {
			if i > 2 {
				head(i, 2)
				pf.PutWord(b, i*512+2, half)
			}
			for s := 0; s < 12; s++ {
				if k := 3 + (i-2)*12 + s; k < half {
					sub(i, s, k)
				}
			}
		}
	case "wide": // a tree of twelve subdirectories each
		for i := 2; i < n; i++ {
			if i > 2 {
				head(i, 2+(i-3)/12)
			}
			for s := 0; s < 12; s++ {
				if k := 3 + (i-2)*12 + s; k < n {
					sub(i, s, k)
				}
			}
		}
	case "longchain":
		for i := 2; i < n-1; i++ {
			pf.PutWord(b, i*512+2, i+1)
		}
	case "nested-long": // a chain whose every block has subdirectories, all in each other
		for i := 2; i < n-1; i++ {
			if i > 2 {
				head(i, 2+r.Intn(i-2))
			}
			sub(i, 0, i+1)
			sub(i, 11, 2+r.Intn(n-2))
		}
	case "all-subdirs": // every entry of every block a subdirectory anywhere
		for i := 2; i < n; i++ {
			head(i, r.Intn(n))
			for s := 0; s < 12; s++ {
				sub(i, s, 2+r.Intn(n-2))
			}
		}
	}
	return b
}

func dosGraph(t *kit.T, cs *calls, g fsimg.Graph) {
	r := t.R
	d := dosfmt.New(r)
	at := []dosfmt.TS{}
	for range g.Next {
		at = append(at, d.Alloc())
	}
	to := func(k int) dosfmt.TS {
		if k == 0 {
			return dosfmt.TS{0, 0}
		}
		if k <= len(at) {
			return at[k-1]
		}
		return [][2]int{{35, 0}, {17, 16}, {255, 255}, {34, 16}}[r.Intn(4)]
	}
	// as catalog
	d.Point(dosfmt.TS{17, 0}, to(g.Start))
	for k, p := range at {
		d.Point(p, to(g.Next[k]))
	}
	cs.use(t, d.B, "x.do", "do", "dos3")
	// as list, of files of all types; and the lists' pairs name lists
	d2 := dosfmt.New(r)
	cat := d2.Catalog(1)
	for k, p := range at {
		d2.Point(p, to(g.Next[k]))
		s := d2.Sector(p)
		for j := 0; j < 4; j++ {
			q := to(r.Intn(len(at) + 1))
			s[12+2*j], s[13+2*j] = byte(q[0]), byte(q[1])
		}
	}
	for s, typ := range []byte{0, 1, 2, 4} {
		first := to(g.Start)
		if g.Start == 0 {
			first = dosfmt.TS{1, 200}
		}
		d2.Entry(cat[0], s, first, typ, dosfmt.Name(string(rune('A'+s))), 2)
	}
	cs.use(t, d2.B, "x.do", "do", "dos3")
}

// volume builds a volume of a graph of directory pointers.
func volume(t *kit.T, cs *calls, g []interface{}) {
	n := 9
	b := make([]byte, n*512)
	num := func(i, j int) int { return int(g[i].([]interface{})[j].(float64)) }
	ptr := func(k int) int {
		if k == 9 {
			return 9 + t.R.Intn(2)*1000
		}
		return k
	}
	for j := range g[0].([]interface{}) {
		blk := 2 + j
		x := b[blk*512 : blk*512+512]
		pf.PutWord(x, 2, ptr(num(0, j)))
		if blk > 2 {
			x[4], x[5] = 0xE1, byte('A'+j)
			pf.PutWord(x, 0x27, ptr(num(2, j)))
		}
		if s := num(1, j); s != 0 {
			// an entry that lies in the same place in key and later blocks: the
			// last one of each
			for _, o := range []int{0x2b + 39*11, 4 + 39*12} {
				e := x[o:]
				e[0], e[1] = 0xD1, byte('A'+s-2)
				pf.PutWord(e, 0x11, ptr(s))
			}
		}
	}
	cs.use(t, b, "x.hdv", "auto", "auto")
}

func main() {
	kit.Main(func(c *kit.Ctx) { c13(c); sweeps(c) })
}
