// Command prodos drives the listing of ProDOS volumes (C12).
package main

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zz_verif/fsimg"
	"github.com/zellyn/diskii/zz_verif/kit"
	"github.com/zellyn/diskii/zz_verif/nakfmt"
	pf "github.com/zellyn/diskii/zz_verif/prodosfmt"
)

var factories = []types.OperatorFactory{dos3.OperatorFactory{}, supermon.OperatorFactory{}, prodos.OperatorFactory{}}

func open(t *kit.T, b []byte) (types.Operator, error) {
	c := append([]byte(nil), b...)
	if len(b) != 143360 {
		op, _, err := disk.OpenImage(c, "x.hdv", "auto", "auto", factories, 0)
		return op, err
	}
	if t.R.Intn(2) == 0 {
		op, _, err := disk.OpenImage(c, "x.po", "po", "prodos", factories, 0)
		return op, err
	}
	op, _, err := disk.OpenImage(nakfmt.PhysToDos(nakfmt.PoToPhys(c)), "x.img", "do", "prodos", factories, 0)
	return op, err
}

func catalog(t *kit.T, b []byte, path string) {
	o := kit.Obj{"ev": "catalog", "path": kit.Str(path), "err": 0, "descs": []int{}}
	o["how"] = kit.Outcome(func() {
		op, err := open(t, b)
		if err != nil {
			o["err"] = 1
			return
		}
		ds, err := op.Catalog(path)
		if err != nil {
			o["err"] = 1
			return
		}
		l := []kit.Obj{}
		for _, d := range ds {
			l = append(l, kit.Obj{"name": kit.Str(d.Name), "type": int(d.Type), "blocks": d.Blocks, "length": d.Length})
		}
		o["descs"] = l
	})
	t.Emit(o)
}

func ls(t *kit.T, b []byte, path string) {
	if strings.ContainsRune(path, 0) || strings.HasPrefix(path, "-") {
		return
	}
	dir := t.Tmp()
	defer os.RemoveAll(dir)
	args := []string{"ls"}
	name := "x.hdv"
	if len(b) == 143360 {
		if t.R.Intn(2) == 0 {
			name = "x.po"
			args = append(args, "--system", "prodos")
		} else {
			name = "x.dsk"
			args = append(args, "--order", "po", "--system", "prodos")
		}
	}
	kit.WriteFile(filepath.Join(dir, name), b)
	args = append(args, name)
	if path != "" {
		args = append(args, path)
	}
	r := t.Run(dir, nil, args...)
	t.Emit(kit.Obj{"ev": "ls", "path": kit.Str(path), "how": r.How, "rc": r.Rc, "lines": fsimg.Lines(r.Stdout)})
}

func graphTo(v *pf.Vol, places []int, to, end int) int {
	if to == 0 {
		return end
	}
	if to <= len(places) {
		return places[to-1]
	}
	if v.N > 65535 {
		return end
	}
	if v.R.Intn(2) == 0 {
		return v.N
	}
	return v.N + v.R.Intn(65536-v.N)
}

func sizeOf(t *kit.T, thorough bool) int {
	if t.R.Intn(5) > 0 {
		return 280
	}
	n := []int{300, 1600, 4095, 4096, 4097, 20000, 65535, 65536}
	return n[t.R.Intn(len(n))]
}

func entries(v *pf.Vol, d *pf.Dir, tag string, from int) {
	for i := from; i < d.Slots(); i++ {
		if v.R.Intn(5) == 0 {
			d.Entry(i, 1+v.R.Intn(3), tag+pf.Name(v.R)[:1], byte(v.R.Intn(256)), v.R.Intn(65536))
		}
	}
}

func c12(c *kit.Ctx) {
	for i := 0; i < c.N(90, 900); i++ {
		i := i
		c.Case("trees", func(t *kit.T) {
			r := t.R
			n := sizeOf(t, false)
			v := pf.Random(r, n, []int{0, 1, 3, 8, 12}[r.Intn(5)])
			if r.Intn(3) > 0 {
				v.Counts()
			}
			pf.Emit(t, v.B)
			paths := append([]string{""}, v.Paths()...)
			for _, p := range paths {
				catalog(t, v.B, p)
			}
			var bogus []string
			for k := 0; k < 3; k++ {
				p := paths[r.Intn(len(paths))]
				q := paths[r.Intn(len(paths))]
				bogus = append(bogus, p+"/"+pf.Name(r), pf.Name(r), q+"/"+p, strings.TrimPrefix(p, "A"))
				if j := strings.LastIndex(p, "/"); j >= 0 {
					bogus = append(bogus, p[j+1:])
				}
				if len(p) > 1 {
					bogus = append(bogus, p[:len(p)-1])
				}
			}
			for _, p := range bogus {
				catalog(t, v.B, p)
			}
			if i%6 == 0 {
				ls(t, v.B, paths[r.Intn(len(paths))])
				ls(t, v.B, bogus[r.Intn(len(bogus))])
				ls(t, v.B, "")
			}
		})
	}
	// A long chain of directories in each other.
	for _, depth := range []int{2, 5, 20, 40, 63, 64, 65, 66} {
		depth := depth
		c.Case("deep", func(t *kit.T) {
			v := pf.New(t.R, 280)
			d := v.Root
			var ps []string
			for k := 0; k < depth; k++ {
				if t.R.Intn(3) == 0 {
					d.Grow()
				}
				s := t.R.Intn(d.Slots())
				entries(v, d, "F", s+1)
				d = d.Mkdir(s, string(rune('A'+k%3))+pf.Name(t.R)[:1])
				ps = append(ps, d.Path)
			}
			entries(v, d, "L", 0)
			pf.Emit(t, v.B)
			for k := 0; k < len(ps); k += 1 + len(ps)/6 {
				catalog(t, v.B, ps[k])
			}
			catalog(t, v.B, d.Path)
			catalog(t, v.B, d.Name)
			catalog(t, v.B, d.Path+"/X")
		})
	}
	// A directory of many blocks; sub-directories in its later blocks.
	for _, blocks := range []int{1, 2, 6, 40, 200} {
		blocks := blocks
		c.Case("long", func(t *kit.T) {
			v := pf.New(t.R, 280)
			d := v.Root
			if t.R.Intn(2) == 0 {
				d = d.Mkdir(3, "SUB")
			}
			for len(d.Blocks) < blocks {
				d.Grow()
			}
			var last *pf.Dir
			for s := 0; s < d.Slots(); s++ {
				if d == v.Root && s == 3 {
					continue
				}
				if len(v.Dirs) < 12 && t.R.Intn(40) == 0 || s == d.Slots()-1 {
					if x := d.Mkdir(s, "D"+pf.Name(t.R)[:1]+string(rune('A'+s%26))); x != nil {
						last = x
						entries(v, last, "X", 0)
					}
				} else if t.R.Intn(3) > 0 {
					d.Entry(s, 1, pf.Name(t.R), byte(s), t.R.Intn(65536))
				}
			}
			v.Counts()
			pf.Emit(t, v.B)
			catalog(t, v.B, d.Path)
			for _, p := range v.Paths() {
				catalog(t, v.B, p)
			}
			ls(t, v.B, d.Path)
		})
	}
	// Very many directories, mostly in each other's first blocks.
	for _, many := range []int{257, 300} {
		many := many
		c.Case("many", func(t *kit.T) {
			v := pf.New(t.R, 700)
			d, from := v.Root, 0
			for k, s := 0, 0; len(v.Dirs) < many; k++ {
				if s == d.Slots() {
					d, s = v.Dirs[from], 0
					from += 1 + t.R.Intn(3)
				}
				if e, _ := d.Slot(s); e[0] == 0 {
					d.Mkdir(s, "D"+string(rune('A'+k/26%26))+string(rune('A'+k%26)))
				}
				s++
			}
			entries(v, v.Dirs[len(v.Dirs)-1], "LAST", 0)
			v.Counts()
			pf.Emit(t, v.B)
			ps := v.Paths()
			for k := 0; k < 5; k++ {
				catalog(t, v.B, ps[t.R.Intn(len(ps))])
				catalog(t, v.B, v.Dirs[len(v.Dirs)-1-k].Path)
			}
			catalog(t, v.B, "")
		})
	}
	// Directories whose blocks' numbers differ in one bit only.
	for k := 0; k < c.N(8, 60); k++ {
		c.Case("bits", func(t *kit.T) {
			r := t.R
			v := pf.New(r, []int{65536, 65535, 280, 4096, 40000}[r.Intn(5)])
			base := 30 + r.Intn(v.N-30)
			if r.Intn(3) == 0 {
				base = 2
			}
			keys := []int{base}
			for bit := 0; bit < 16; bit++ {
				keys = append(keys, base^1<<bit)
			}
			r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
			if r.Intn(2) == 0 { // so do those of one directory, and of different ones
				for _, b := range keys {
					v.At(b)
				}
			}
			v.Root.Grow()
			d := v.Root
			for i, b := range keys {
				v.At(b)
				if i > 3 && r.Intn(3) == 0 {
					d = v.Dirs[r.Intn(len(v.Dirs))]
				} else {
					d = v.Root
				}
				if d != v.Root && r.Intn(2) == 0 {
					d.Grow()
				}
				s := r.Intn(d.Slots())
				if e, _ := d.Slot(s); e[0] != 0 {
					continue
				}
				if x := d.Mkdir(s, "D"+string(rune('A'+i))); x != nil {
					entries(v, x, "F", 0)
				}
			}
			v.Counts()
			pf.Emit(t, v.B)
			catalog(t, v.B, "")
			for _, p := range v.Paths() {
				catalog(t, v.B, p)
			}
		})
	}
	// All values of the interesting bytes.
	c.Case("fields", func(t *kit.T) {
		for base := 0; base < 256; base += 12 {
			v := pf.New(t.R, 280)
			for i := 0; i < 12; i++ {
				x := (base + i) % 256
				st, ln := x>>4, x&15
				if st >= 0xD {
					st = 1
				}
				name := pf.Name(t.R) + "ABCDEFGHIJKLMNO"
				v.Root.Entry(i, st, name[:ln], byte(x), t.R.Intn(65536))
			}
			pf.Emit(t, v.B)
			catalog(t, v.B, "")
		}
	})
	for gi, g := range fsimg.Graphs(c) {
		g := g
		kinds := []string{"volchain", "subchain", "subtree", "parents"}
		which := []string{kinds[gi%4]}
		if c.Thorough() || len(g.Next) < 3 {
			which = kinds
		}
		for _, kind := range which {
			kind := kind
			c.Case("graph-"+kind, func(t *kit.T) { graph(t, g, kind) })
		}
	}
	for _, n := range []int{0, 1, 2, 3, 4} {
		n := n
		c.Case("tiny", func(t *kit.T) {
			v := pf.New(t.R, n)
			pf.Emit(t, v.B)
			catalog(t, v.B, "")
			catalog(t, v.B, "X")
			if n > 2 {
				ls(t, v.B, "")
			}
		})
	}
	for _, p := range []string{"data/disks/ProDOS_2_4_2.po", "data/disks/prodos-users-disk.dsk", "data/disks/sam-hardware-ver.po"} {
		p := p
		c.Case("real", func(t *kit.T) {
			b := t.Disk(p)
			if strings.HasSuffix(p, ".dsk") {
				b = nakfmt.PhysToPo(nakfmt.DosToPhys(b))
			}
			pf.Emit(t, b)
			catalog(t, b, "")
			ls(t, b, "")
			for i := 0; i < 12; i++ { // every subdirectory of the volume's first block
				e := b[2*512+0x2b+39*i:]
				if e[0]>>4 == 0xD {
					catalog(t, b, string(e[1:1+int(e[0]&15)]))
				}
			}
		})
	}
}

func graph(t *kit.T, g fsimg.Graph, kind string) {
	r := t.R
	n := 280
	if r.Intn(6) == 0 {
		n = []int{4096, 65535, 300}[r.Intn(3)]
	}
	v := pf.New(r, n)
	var places []int
	for range g.Next {
		places = append(places, v.Alloc())
	}
	var queries []string
	nm := func(k int) string { return string(rune('A' + k)) }
	switch kind {
	case "volchain", "subchain":
		d := v.Root
		if kind == "subchain" {
			d = v.Root.Mkdir(r.Intn(12), "SUB")
		} else if r.Intn(5) == 0 {
			places[r.Intn(len(places))] = 2 // back to the start
		}
		entries(v, d, "K", 0)
		pf.PutWord(v.Block(d.Blocks[0]), 2, graphTo(v, places, g.Start, 0))
		for k, p := range places {
			if p == 2 {
				continue
			}
			x := &pf.Dir{Blocks: []int{d.Blocks[0], p}}
			_ = x
			for s := 0; s < 13; s++ {
				if r.Intn(3) == 0 {
					e := v.Block(p)[4+39*s : 4+39*s+39]
					r.Read(e)
					e[0] = 0x12
					e[1], e[2] = byte('A'+k), byte('A'+s)
				}
			}
			pf.PutWord(v.Block(p), 2, graphTo(v, places, g.Next[k], 0))
		}
		queries = []string{"", "SUB"}
	case "subtree":
		// place k holds directory k, with an entry for directory Next[k]
		// (and now and then a second one).
		if r.Intn(8) == 0 {
			places[r.Intn(len(places))] = []int{2, 0, 1}[r.Intn(3)]
		}
		parent := make([]int, len(places))
		if g.Start > 0 {
			v.Root.Entry(r.Intn(12), 0xD, nm(g.Start-1), 15, graphTo(v, places, g.Start, 0))
			if g.Start <= len(places) {
				parent[g.Start-1] = 2
			}
		}
		for k, to := range g.Next {
			if to > 0 && to <= len(places) && parent[to-1] == 0 {
				parent[to-1] = places[k]
			}
		}
		for k, p := range places {
			if p == 2 {
				continue
			}
			v.Header(p, nm(k), parent[k])
			for s := 0; s < 12; s++ {
				if r.Intn(4) == 0 {
					e := v.Block(p)[0x2b+39*s : 0x2b+39*s+39]
					r.Read(e)
					e[0] = 0x22
					e[1], e[2] = byte('A'+k), byte('A'+s)
				}
			}
			if g.Next[k] > 0 {
				e := v.Block(p)[0x2b+39*r.Intn(12):]
				e[0], e[1] = 0xD1, nm(g.Next[k] - 1)[0]
				pf.PutWord(e, 0x11, graphTo(v, places, g.Next[k], 0))
			}
		}
	case "parents":
		// all directories have entries in the volume's; parent pointers vary
		for k, p := range places {
			blk := v.Root.Entry(k, 0xD, nm(k), 15, p)
			_ = blk
			v.Header(p, nm(k), graphTo(v, places, g.Next[k], 2))
			e := v.Block(p)[0x2b:]
			e[0], e[1] = 0x11, 'Z'-byte(k)
			if r.Intn(3) == 0 { // a second block, which parent pointers may name
				q := v.Alloc()
				pf.PutWord(v.Block(p), 2, q)
				for j := range places {
					if g.Next[j] == k+1 {
						pf.PutWord(v.Block(places[j]), 0x27, q)
					}
				}
			}
		}
	}
	if queries == nil {
		queries = []string{""}
		for a := range places {
			queries = append(queries, nm(a))
			for b := range places {
				queries = append(queries, nm(a)+"/"+nm(b))
				c := r.Intn(len(places))
				queries = append(queries, nm(a)+"/"+nm(b)+"/"+nm(c))
			}
		}
	}
	pf.Emit(t, v.B)
	for _, q := range queries {
		catalog(t, v.B, q)
	}
}

func main() {
	kit.Main(func(c *kit.Ctx) {
		switch c.Prop {
		case "C12":
			c12(c)
		}
	})
}
