// Command opening drives the choice of an image's order and system (C03).
package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zz_verif/dosfmt"
	"github.com/zellyn/diskii/zz_verif/fsimg"
	"github.com/zellyn/diskii/zz_verif/kit"
	"github.com/zellyn/diskii/zz_verif/nakfmt"
	pf "github.com/zellyn/diskii/zz_verif/prodosfmt"
)

const floppy = 143360

var factories = []types.OperatorFactory{dos3.OperatorFactory{}, supermon.OperatorFactory{}, prodos.OperatorFactory{}}

// toPhys and fromPhys convert between an order and the physical one.
func toPhys(b []byte, o string) []byte {
	switch o {
	case "do":
		return nakfmt.DosToPhys(b)
	case "po":
		return nakfmt.PoToPhys(b)
	}
	return append([]byte(nil), b...)
}

func fromPhys(b []byte, o string) []byte {
	switch o {
	case "do":
		return nakfmt.PhysToDos(b)
	case "po":
		return nakfmt.PhysToPo(b)
	}
	return append([]byte(nil), b...)
}

func convert(b []byte, from, to string) []byte { return fromPhys(toPhys(b, from), to) }

// ---------------------------------------------------------------- stand-ins

type stub struct {
	name         string
	so           string
	seems, opens map[string]bool
	as           map[string][]byte // content read as that file order, in order so
}

func (s *stub) which(b []byte) string {
	for _, o := range []string{"do", "po"} {
		if bytes.Equal(b, s.as[o]) {
			return o
		}
	}
	return ""
}

func (s *stub) Name() string                          { return s.name }
func (s *stub) DiskOrder() types.DiskOrder            { return types.DiskOrder(s.so) }
func (s *stub) SeemsToMatch(b []byte, debug int) bool { return s.seems[s.which(b)] }
func (s *stub) Operator(b []byte, debug int) (types.Operator, error) {
	o := s.which(b)
	if o != "" && !s.opens[o] {
		return nil, errors.New("stand-in cannot open this")
	}
	return stubOp{s, b}, nil
}

type stubOp struct {
	s *stub
	b []byte
}

func (s stubOp) Name() string                               { return s.s.name }
func (s stubOp) DiskOrder() types.DiskOrder                 { return types.DiskOrder(s.s.so) }
func (s stubOp) HasSubdirs() bool                           { return false }
func (s stubOp) Catalog(string) ([]types.Descriptor, error) { return nil, nil }
func (s stubOp) GetFile(string) (types.FileInfo, error)     { return types.FileInfo{}, fmt.Errorf("none") }
func (s stubOp) Delete(string) (bool, error)                { return false, fmt.Errorf("none") }
func (s stubOp) PutFile(types.FileInfo, bool) (bool, error) { return false, fmt.Errorf("none") }
func (s stubOp) GetBytes() []byte                           { return s.b }

type content struct {
	file []byte
	as   map[string]map[string][]byte // file order, system order
}

// stamp makes an image of n bytes whose 256-byte units all differ.
func stamp(t *kit.T, n int) *content {
	b := make([]byte, n)
	for i := 0; i < n; i += 256 {
		b[i] = byte(t.R.Intn(256))
		for j, k := i+1, i/256; j < n && j < i+5; j++ {
			b[j] = byte(k)
			k >>= 8
		}
	}
	c := &content{file: b, as: map[string]map[string][]byte{}}
	for _, fo := range []string{"do", "po"} {
		c.as[fo] = map[string][]byte{}
		for _, so := range []string{"do", "po", "raw"} {
			if n == floppy {
				c.as[fo][so] = convert(b, fo, so)
			} else if fo == "po" {
				c.as[fo][so] = b
			}
		}
	}
	return c
}

func flags(m map[string]bool) kit.Obj {
	return kit.Obj{"do": kit.B(m["do"]), "po": kit.B(m["po"])}
}

func openStub(t *kit.T, c *content, order, system, name string, stubs []*stub) {
	var fs []types.OperatorFactory
	facs := []kit.Obj{}
	for _, s := range stubs {
		s.as = map[string][]byte{"do": c.as["do"][s.so], "po": c.as["po"][s.so]}
		fs = append(fs, s)
		facs = append(facs, kit.Obj{"name": s.name, "seems": flags(s.seems), "opens": flags(s.opens)})
	}
	o := kit.Obj{"ev": "stub", "order": order, "system": system, "name": kit.Str(name), "n": len(c.file), "facs": facs,
		"err": 0, "sys": "", "rorder": "", "seen": flags(nil)}
	o["how"] = kit.Outcome(func() {
		op, ro, err := disk.OpenImage(append([]byte(nil), c.file...), name, types.DiskOrder(order), system, fs, 0)
		if err != nil {
			o["err"] = 1
			return
		}
		seen := map[string]bool{}
		for _, s := range stubs {
			if s.name == op.Name() {
				for fo := range c.as {
					seen[fo] = bytes.Equal(op.GetBytes(), s.as[fo])
				}
			}
		}
		o["sys"], o["rorder"], o["seen"] = op.Name(), string(ro), flags(seen)
	})
	t.Emit(o)
}

var nameFor = map[string][]string{
	"po":   {"x.po", "X.PO", "a.do.po", "dir.dsk/y.Po", "/tmp/z.po", ".po"},
	"do":   {"x.do", "X.DO", "a.po.do", "dir.po/y.dO", "a b.do"},
	"dsk":  {"x.dsk", "X.DSK", "a.po.dsk", "dir.po/y.Dsk", "do.dsk"},
	"none": {"x", "dir.po/y", "po", "dsk", "", "-"},
	"img":  {"x.img", "x.nib", "x.poo", "x.2mg", "x.", "x.po ", "x.d", "x.dsk~"},
}

func set(x interface{}) map[string]bool {
	m := map[string]bool{}
	l, _ := x.([]interface{})
	for _, s := range l {
		m[s.(string)] = true
	}
	return m
}

func c03(c *kit.Ctx) {
	// Every generated combination, on stand-ins.
	groups := map[string][]map[string]interface{}{}
	var keys []string
	for _, m := range c.GenLines() {
		g, ok := m["open"].(map[string]interface{})
		if !ok {
			continue
		}
		k := fmt.Sprint(g["order"], "|", g["ext"], "|", g["system"])
		if groups[k] == nil {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], g)
	}
	sort.Strings(keys)
	for _, k := range keys {
		k := k
		c.Case("stub", func(t *kit.T) {
			ct := stamp(t, floppy)
			for _, g := range groups[k] {
				names := nameFor[g["ext"].(string)]
				so := []string{"do", "po", "raw"}
				openStub(t, ct, g["order"].(string), g["system"].(string), names[t.R.Intn(len(names))], []*stub{
					{name: "dos3", so: so[t.R.Intn(3)], seems: set(g["s1"]), opens: set(g["o1"])},
					{name: "prodos", so: so[t.R.Intn(3)], seems: set(g["s2"]), opens: set(g["o2"])},
				})
			}
		})
	}
	yes := map[string]bool{"do": true, "po": true}
	for _, n := range []int{0, 1, 256, 511, 512, 1024, 1536, floppy - 1, floppy + 1, floppy - 512, floppy + 512, 116480, 116480 + 512, 819200,
		65535 * 512, 65536 * 512, 65536*512 + 1, 65536*512 + 512, 65537 * 512} {
		n := n
		c.Case("sizes", func(t *kit.T) {
			ct := stamp(t, n)
			for _, name := range []string{"x.hdv", "x.HDV", "a.po.Hdv", "x.po", "x.dsk", "x", "x.hdvx", "hdv", "x.hdv/y"} {
				for _, order := range []string{"auto", "do", "po", "raw"} {
					for _, system := range []string{"auto", "prodos", "dos3", "nosuch"} {
						if n > 1<<20 && t.R.Intn(6) > 0 {
							continue
						}
						a := &stub{name: "dos3", so: "do", seems: yes, opens: yes}
						b := &stub{name: "prodos", so: "po", seems: map[string]bool{"po": t.R.Intn(2) == 0}, opens: map[string]bool{"do": true, "po": t.R.Intn(4) > 0}}
						l := []*stub{a, b}
						switch t.R.Intn(6) {
						case 0:
							l = []*stub{b, a}
						case 1:
							l = []*stub{a}
						}
						openStub(t, ct, order, system, name, l)
					}
				}
			}
		})
	}
	c.Case("none", func(t *kit.T) {
		ct := stamp(t, floppy)
		for _, o := range []string{"auto", "do", "po"} {
			for _, s := range []string{"auto", "dos3"} {
				openStub(t, ct, o, s, "x.dsk", nil)
				openStub(t, ct, o, s, "x.hdv", []*stub{{name: "dos3", so: "do", seems: yes, opens: yes}})
			}
		}
	})
	// More than two systems.
	for i := 0; i < c.N(6, 40); i++ {
		c.Case("many", func(t *kit.T) {
			ct := stamp(t, floppy)
			r := t.R
			for k := 0; k < 60; k++ {
				var l []*stub
				for j := 0; j < 1+r.Intn(6); j++ {
					rnd := func(p int) map[string]bool {
						return map[string]bool{"do": r.Intn(4) < p, "po": r.Intn(4) < p}
					}
					l = append(l, &stub{name: fmt.Sprint("s", j), so: []string{"do", "po", "raw"}[r.Intn(3)], seems: rnd(1), opens: rnd(3)})
				}
				ext := []string{"po", "do", "dsk", "none", "img"}[r.Intn(5)]
				openStub(t, ct, []string{"auto", "auto", "do", "po"}[r.Intn(4)], []string{"auto", "auto", "s0", "s1", "s3", "dos3", ""}[r.Intn(7)],
					nameFor[ext][r.Intn(len(nameFor[ext]))], l)
			}
		})
	}
	// The real systems.
	for i := 0; i < c.N(150, 1500); i++ {
		i := i
		c.Case("real", func(t *kit.T) {
			b := image(t)
			judge(t, b, i%5 == 0)
		})
	}
	for _, f := range []string{"ProDOS_2_4_2.po", "Super-Mon-2.0.dsk", "blank.dsk", "dos33master.dsk", "lode-runner-disk-1.dsk", "prodos-users-disk.dsk", "sam-hardware-ver.po"} {
		f := f
		c.Case("disk", func(t *kit.T) { judge(t, t.Disk("data/disks/"+f), true) })
	}
	// VTOC fields, map bytes: each alone.
	c.Case("vtoc", func(t *kit.T) {
		for off := 0; off < 256; off++ {
			if !t.Thorough() && off > 0x3f && off%16 > 3 {
				continue
			}
			b := dosDisk(t)
			x := b[17*16*256+off]
			y := byte(t.R.Intn(256))
			if t.R.Intn(3) == 0 {
				y = x + byte(1+2*t.R.Intn(2)-1)
			}
			b[17*16*256+off] = y
			file := b
			fsimg.Emit(t, file)
			seems(t, file, []string{"do"}, factories[:1])
		}
		for _, off := range []int{3, 6, 0x27, 0x31, 0x34, 0x35, 0x36, 0x37} {
			for _, x := range []byte{0, 1, 2, 3, 4, 13, 16, 34, 35, 36, 122, 121, 254, 255, 128} {
				b := dosDisk(t)
				b[17*16*256+off] = x
				fsimg.Emit(t, b)
				seems(t, b, []string{"do"}, factories[:1])
			}
		}
	})
	c.Case("map", func(t *kit.T) {
		for k := 0; k < 560; k++ {
			if !t.Thorough() && k > 16 && k < 540 && t.R.Intn(8) > 0 && (k < 40 || k > 60) {
				continue
			}
			vals := []byte{0, 0, 1, 253, 254, 255}
			if k > 12 {
				i := t.R.Intn(6)
				vals = vals[i : i+1]
			}
			for _, x := range vals {
				p := nakfmt.Blank(t.R, nakfmt.Opts{})
				p[9*256+0xd0+k] = x
				fo := []string{"do", "po"}[t.R.Intn(2)]
				b := fromPhys(p, fo)
				fsimg.Emit(t, b)
				seems(t, b, []string{fo}, factories[1:2])
			}
		}
	})
	for _, g := range fsimg.Graphs(c) {
		g := g
		c.Case("graph", func(t *kit.T) {
			r := t.R
			if r.Intn(2) == 0 {
				d := dosfmt.New(r)
				var at []dosfmt.TS
				for range g.Next {
					at = append(at, d.Alloc())
				}
				to := func(k int) dosfmt.TS {
					if k == 0 {
						return dosfmt.TS{0, 0}
					}
					if k <= len(at) {
						return at[k-1]
					}
					return [][2]int{{35, 0}, {17, 16}, {255, 255}}[r.Intn(3)]
				}
				d.Point(dosfmt.TS{17, 0}, to(g.Start))
				for k, p := range at {
					d.Point(p, to(g.Next[k]))
				}
				fsimg.Emit(t, d.B)
				seems(t, d.B, []string{"do"}, factories[:1])
				openReal(t, d.B, "auto", "auto", "x.do")
				return
			}
			v := pf.New(r, 280)
			var at []int
			for range g.Next {
				at = append(at, v.Alloc())
			}
			to := func(k, end int) int {
				if k == 0 {
					return end
				}
				if k <= len(at) {
					return at[k-1]
				}
				return 280 + r.Intn(65256)
			}
			switch r.Intn(3) {
			case 0:
				pf.PutWord(v.Block(2), 2, to(g.Start, 0))
				for k, p := range at {
					pf.PutWord(v.Block(p), 2, to(g.Next[k], 0))
				}
			case 1:
				d := v.Root.Mkdir(r.Intn(12), "SUB")
				pf.PutWord(v.Block(d.Blocks[0]), 2, to(g.Start, 0))
				for k, p := range at {
					pf.PutWord(v.Block(p), 2, to(g.Next[k], 0))
				}
			case 2:
				for k, p := range at {
					v.Root.Entry(k, 0xD, "D", 15, p)
					v.Header(p, "D", to(g.Next[k], 2))
				}
			}
			fsimg.Emit(t, v.B)
			seems(t, v.B, []string{"po"}, factories[2:])
			openReal(t, v.B, "auto", "auto", "x.po")
		})
	}
}

func dosDisk(t *kit.T) []byte {
	r := t.R
	d := dosfmt.New(r)
	if r.Intn(3) == 0 {
		d.Odd()
	}
	cat := d.Catalog(1 + r.Intn(3))
	for _, c := range cat {
		for s := 0; s < 7; s++ {
			if r.Intn(3) == 0 {
				d.Entry(c, s, dosfmt.TS{1 + r.Intn(34), r.Intn(16)}, 4, dosfmt.Name("DOS "+pf.Name(r)), r.Intn(40))
			}
		}
	}
	return d.B
}

// image makes a file (in one of the file orders) of one or several systems,
// possibly damaged.
func image(t *kit.T) []byte {
	r := t.R
	phys := make([]byte, floppy)
	overlay := func(p []byte) {
		zero := make([]byte, 256)
		for i := 0; i < floppy; i += 256 {
			if !bytes.Equal(p[i:i+256], zero) {
				copy(phys[i:], p[i:i+256])
			}
		}
	}
	fo := []string{"do", "po"}[r.Intn(2)]
	// A system's disk, as that system would see it if the file order were o.
	put := func(b []byte, so, o string) { overlay(toPhys(convert(toFile(b, so, o), fo, fo), fo)) }
	any := func() string { return []string{"do", "po"}[r.Intn(2)] }
	if r.Intn(8) == 0 {
		r.Read(phys)
	}
	order := r.Perm(3)
	for _, k := range order {
		switch k {
		case 0:
			if r.Intn(2) == 0 {
				put(dosDisk(t), "do", any())
			}
		case 1:
			if r.Intn(2) == 0 {
				n := nakfmt.Blank(r, nakfmt.Opts{})
				x := make([]byte, floppy)
				copy(x[9*256:12*256], n[9*256:12*256])
				put(x, "raw", any())
			}
		case 2:
			if r.Intn(2) == 0 {
				put(pf.Random(r, 280, r.Intn(4)).B, "po", any())
			}
		}
	}
	b := fromPhys(phys, fo)
	for k := r.Intn(3); k > 0; k-- {
		// damage in the structures
		off := []int{17 * 16 * 256, 0x200, 9 * 256, 10 * 256, 0x400}[r.Intn(5)] + r.Intn(64)
		b[off] = byte(r.Intn(256))
	}
	return b
}

// toFile is the file, of which order o gives the system (of order so) b.
func toFile(b []byte, so, o string) []byte { return convert(b, so, o) }

func seems(t *kit.T, file []byte, orders []string, fs []types.OperatorFactory) {
	for _, f := range fs {
		so := map[string]string{"dos3": "do", "nakedos": "raw", "prodos": "po"}[f.Name()]
		for _, fo := range orders {
			o := kit.Obj{"ev": "seems", "sys": f.Name(), "fo": fo, "seems": 0}
			b := convert(file, fo, so)
			o["how"] = kit.Outcome(func() { o["seems"] = kit.B(f.SeemsToMatch(b, 0)) })
			t.Emit(o)
		}
	}
}

func openReal(t *kit.T, file []byte, order, system, name string) {
	o := kit.Obj{"ev": "open", "order": order, "system": system, "name": kit.Str(name), "err": 0, "sys": "", "rorder": "", "seen": flags(nil)}
	o["how"] = kit.Outcome(func() {
		op, ro, err := disk.OpenImage(append([]byte(nil), file...), name, types.DiskOrder(order), system, factories, 0)
		if err != nil {
			o["err"] = 1
			return
		}
		so := map[string]string{"dos3": "do", "nakedos": "raw", "prodos": "po"}[op.Name()]
		seen := map[string]bool{}
		for _, fo := range []string{"do", "po"} {
			seen[fo] = bytes.Equal(op.GetBytes(), convert(file, fo, so))
		}
		o["sys"], o["rorder"], o["seen"] = op.Name(), string(ro), flags(seen)
	})
	t.Emit(o)
}

func judge(t *kit.T, file []byte, cli bool) {
	r := t.R
	fsimg.Emit(t, file)
	seems(t, file, []string{"do", "po"}, factories)
	for _, order := range []string{"auto", "do", "po", "raw"} {
		for _, ext := range []string{"po", "do", "dsk", "none", "img"} {
			if order != "auto" && r.Intn(4) > 0 {
				continue
			}
			for _, system := range []string{"auto", "dos3", "prodos", "nakedos", "nosuch"} {
				if system != "auto" && r.Intn(3) > 0 {
					continue
				}
				openReal(t, file, order, system, nameFor[ext][r.Intn(len(nameFor[ext]))])
			}
		}
	}
	if !cli {
		return
	}
	for _, name := range []string{"x.dsk", "x.po", "x.DO", "x", "x.img"} {
		order, system := "auto", "auto"
		if r.Intn(3) == 0 {
			order = []string{"do", "po"}[r.Intn(2)]
		}
		if r.Intn(3) == 0 {
			system = []string{"dos3", "prodos", "nakedos"}[r.Intn(3)]
		}
		args := []string{"ls"}
		if order != "auto" || r.Intn(2) == 0 {
			args = append(args, "--order", order)
		}
		if system != "auto" || r.Intn(2) == 0 {
			args = append(args, "--system", system)
		}
		dir := t.Tmp()
		kit.WriteFile(filepath.Join(dir, name), file)
		res := t.Run(dir, nil, append(args, name)...)
		_ = os.RemoveAll(dir)
		t.Emit(kit.Obj{"ev": "ls", "order": order, "system": system, "name": kit.Str(name), "how": res.How, "rc": res.Rc, "lines": fsimg.Lines(res.Stdout)})
	}
}

func main() {
	kit.Main(func(c *kit.Ctx) { c03(c) })
}
