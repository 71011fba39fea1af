// Command dos33 drives the reading of DOS 3.3 disks (C10, C11).
package main

import (
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zz_verif/dosfmt"
	"github.com/zellyn/diskii/zz_verif/fsimg"
	"github.com/zellyn/diskii/zz_verif/kit"
	"github.com/zellyn/diskii/zz_verif/nakfmt"
)

type TS = dosfmt.TS

var factories = []types.OperatorFactory{dos3.OperatorFactory{}, supermon.OperatorFactory{}, prodos.OperatorFactory{}}

// open opens an image (in logical DOS order) as a dos3 disk, stored in one of
// the two file orders.
func open(t *kit.T, b []byte) (types.Operator, error) {
	if t.R.Intn(2) == 0 {
		op, _, err := disk.OpenImage(append([]byte(nil), b...), "x.do", "do", "dos3", factories, 0)
		return op, err
	}
	po := nakfmt.PhysToPo(nakfmt.DosToPhys(b))
	op, _, err := disk.OpenImage(po, "x.img", "po", "dos3", factories, 0)
	return op, err
}

func descs(fds []dos3.FileDesc) []kit.Obj {
	r := []kit.Obj{}
	for i := range fds {
		r = append(r, kit.Obj{"name": kit.Str(fds[i].FilenameString()), "sectors": int(fds[i].SectorCount), "raw": int(fds[i].Filetype)})
	}
	return r
}

func catalog(t *kit.T, b []byte) {
	o := kit.Obj{"ev": "readcatalog", "err": 0, "files": []int{}, "deleted": []int{}}
	o["how"] = kit.Outcome(func() {
		files, deleted, err := dos3.ReadCatalog(append([]byte(nil), b...), 0)
		o["err"] = kit.ErrFlag(err)
		if err == nil {
			o["files"], o["deleted"] = descs(files), descs(deleted)
		}
	})
	t.Emit(o)
	o = kit.Obj{"ev": "catalog", "err": 0, "descs": []int{}}
	o["how"] = kit.Outcome(func() {
		op, err := open(t, b)
		if err != nil {
			o["err"] = 1
			return
		}
		ds, err := op.Catalog("")
		if err != nil {
			o["err"] = 1
			return
		}
		l := []kit.Obj{}
		for _, d := range ds {
			l = append(l, kit.Obj{"name": kit.Str(d.Name), "type": int(d.Type), "locked": kit.B(d.Locked), "sectors": d.Sectors})
		}
		o["descs"] = l
	})
	t.Emit(o)
}

func ls(t *kit.T, b []byte) {
	dir := t.Tmp()
	defer os.RemoveAll(dir)
	kit.WriteFile(filepath.Join(dir, "x.dsk"), b)
	r := t.Run(dir, nil, "ls", "--system", "dos3", "--order", "do", "x.dsk")
	t.Emit(kit.Obj{"ev": "ls", "how": r.How, "rc": r.Rc, "lines": fsimg.Lines(r.Stdout)})
}

func get(t *kit.T, b []byte, name string) {
	o := kit.Obj{"ev": "get", "name": kit.Str(name), "err": 0, "data": []int{}, "start": -1, "length": -1, "type": -1}
	o["how"] = kit.Outcome(func() {
		op, err := open(t, b)
		if err != nil {
			o["err"] = 1
			return
		}
		fi, err := op.GetFile(name)
		if err != nil {
			o["err"] = 1
			return
		}
		o["data"], o["start"], o["length"], o["type"] = kit.Ints(fi.Data), int(fi.StartAddress), fi.Descriptor.Length, int(fi.Descriptor.Type)
	})
	t.Emit(o)
}

func dump(t *kit.T, b []byte, name string) {
	if name == "" || strings.HasPrefix(name, "-") || strings.ContainsRune(name, 0) {
		return
	}
	dir := t.Tmp()
	defer os.RemoveAll(dir)
	kit.WriteFile(filepath.Join(dir, "x.po"), nakfmt.PhysToPo(nakfmt.DosToPhys(b)))
	r := t.Run(dir, nil, "dump", "--system", "dos3", "--order", "po", "x.po", name)
	t.Emit(kit.Obj{"ev": "get", "name": kit.Str(name), "how": r.How, "err": kit.B(r.Rc != 0), "data": kit.Ints(r.Stdout), "start": -1, "length": -1, "type": -1})
}

// randomName is a file name of one of several habits.
func randomName(r *rand.Rand) string {
	n := 1 + r.Intn(30)
	b := make([]byte, n)
	alphabet := "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .-,/()"
	if r.Intn(6) == 0 {
		alphabet = "ABC \x01\x04\x7fabc!~'\""
	}
	for i := range b {
		b[i] = alphabet[r.Intn(len(alphabet))]
	}
	switch r.Intn(8) {
	case 0:
		b[0] = ' '
	case 1:
		b = append(b, "  "...)
	case 2:
		return "A" + strings.Repeat(" ", r.Intn(29)) + "Z"
	}
	if len(b) > 30 {
		b = b[:30]
	}
	return string(b)
}

var kinds = []byte{0, 1, 2, 4, 8, 0x10, 0x20, 0x40}

func randomType(r *rand.Rand) byte {
	k := kinds[r.Intn(len(kinds))]
	if r.Intn(10) == 0 {
		k = byte(r.Intn(128))
	}
	if r.Intn(3) == 0 {
		k |= 0x80
	}
	return k
}

// randomCatalog fills a catalog with entries of all sorts.
func randomCatalog(d *dosfmt.Disk, n int, low bool) []string {
	r := d.R
	var names []string
	cat := d.Catalog(n)
	dense := r.Intn(3)
	for _, c := range cat {
		if r.Intn(4) == 0 {
			// an entry for never-used slots with rubbish in them
			s := d.Sector(c)
			for i := 3; i < 11; i++ {
				s[i] = byte(r.Intn(256))
			}
			s[0] = byte(r.Intn(256))
		}
		for i := 0; i < 7; i++ {
			name := randomName(r)
			raw := dosfmt.Name(name)
			if low && r.Intn(8) == 0 {
				raw[r.Intn(30)] &= 0x7f
			}
			count := r.Intn(65536)
			if r.Intn(2) == 0 {
				count = r.Intn(300)
			}
			first := TS{1 + r.Intn(254), r.Intn(256)}
			switch r.Intn(4 + dense*3) {
			case 0: // deleted: the track moves to the end of the name
				raw[29] = byte(r.Intn(256))
				d.Entry(c, i, TS{255, r.Intn(256)}, randomType(r), raw, count)
			case 1: // never used
				if r.Intn(2) == 0 {
					d.Entry(c, i, TS{0, r.Intn(256)}, randomType(r), raw, count)
				}
			default:
				d.Entry(c, i, first, randomType(r), raw, count)
				names = append(names, strings.TrimRight(name, " "))
			}
		}
	}
	return names
}

func graphPoint(d *dosfmt.Disk, places []TS, p, to int) {
	q := TS{0, 0}
	if to > 0 && to <= len(places) {
		q = places[to-1]
	} else if to > len(places) {
		q = [][2]int{{35, 0}, {255, 255}, {17, 16}, {0, 16}, {34, 255}, {128, 3}}[d.R.Intn(6)]
	}
	if p == 0 {
		d.Point(TS{17, 0}, q)
	} else {
		d.Point(places[p-1], q)
	}
}

func c10(c *kit.Ctx) {
	for i := 0; i < c.N(120, 900); i++ {
		i := i
		c.Case("catalogs", func(t *kit.T) {
			d := dosfmt.New(t.R)
			if t.R.Intn(2) == 0 {
				d.Odd()
			}
			n := t.R.Intn(6)
			if i%20 == 0 {
				n = 15
			}
			if i%60 == 7 {
				n = 40 + t.R.Intn(200)
			}
			randomCatalog(d, n, t.R.Intn(4) == 0)
			fsimg.Emit(t, d.B)
			catalog(t, d.B)
			if i%3 == 0 {
				ls(t, d.B)
			}
		})
	}
	// One entry, all fields swept.
	c.Case("types", func(t *kit.T) {
		for typ := 0; typ < 256; typ += 7 {
			d := dosfmt.New(t.R)
			cat := d.Catalog(1)
			for i := 0; i < 7; i++ {
				d.Entry(cat[0], i, TS{1 + t.R.Intn(254), t.R.Intn(256)}, byte(typ+i), dosfmt.Name(randomName(t.R)), t.R.Intn(65536))
			}
			fsimg.Emit(t, d.B)
			catalog(t, d.B)
		}
	})
	c.Case("tracks", func(t *kit.T) {
		for tr := 0; tr < 256; tr += 7 {
			d := dosfmt.New(t.R)
			cat := d.Catalog(1)
			for i := 0; i < 7; i++ {
				d.Entry(cat[0], i, TS{(tr + i) % 256, t.R.Intn(256)}, randomType(t.R), dosfmt.Name(randomName(t.R)), t.R.Intn(65536))
			}
			fsimg.Emit(t, d.B)
			catalog(t, d.B)
		}
	})
	c.Case("names", func(t *kit.T) {
		for n := 0; n <= 30; n++ {
			d := dosfmt.New(t.R)
			cat := d.Catalog(1)
			for i := 0; i < 7; i++ {
				name := []byte(strings.Repeat(string(rune('A'+i)), n))
				if i == 3 && n > 0 {
					name[n-1] = ' '
				}
				if i == 4 && n > 0 {
					name[0] = ' '
				}
				track := 20
				if i%2 == 1 {
					track = 255
				}
				d.Entry(cat[0], i, TS{track, 1}, 4, dosfmt.Name(string(name)), n)
			}
			fsimg.Emit(t, d.B)
			catalog(t, d.B)
		}
	})
	// Every character at the start, in the middle, at the end of a name.
	c.Case("characters", func(t *kit.T) {
		for ch := 0; ch < 128; ch++ {
			d := dosfmt.New(t.R)
			cat := d.Catalog(1)
			for i, name := range characterNames(byte(ch)) {
				track := 20
				if t.R.Intn(5) == 0 {
					track = 255
				}
				d.Entry(cat[0], i, TS{track, 1}, 4, dosfmt.Name(name), ch)
			}
			fsimg.Emit(t, d.B)
			catalog(t, d.B)
		}
	})
	// Every small graph of catalog pointers.
	for gi, g := range fsimg.Graphs(c) {
		g := g
		c.Case("graph", func(t *kit.T) {
			d := dosfmt.New(t.R)
			if t.R.Intn(4) == 0 {
				d.Sector(TS{17, 0})[0x35] = 13
			}
			places := catalogGraph(d, g, t.R.Intn(2) == 0)
			_ = places
			fsimg.Emit(t, d.B)
			catalog(t, d.B)
		})
		_ = gi
	}
	realDisk(c, func(t *kit.T, b []byte) {
		catalog(t, b)
		ls(t, b)
	})
}

// characterNames are names with a character in telling places.
func characterNames(ch byte) []string {
	c := string([]byte{ch})
	return []string{c, "AB" + c, c + "AB", "A" + c + "B", "A" + c + c, strings.Repeat("Z", 29) + c, "A " + c + " "}
}

// catalogGraph makes a catalog of the graph's pointers.
func catalogGraph(d *dosfmt.Disk, g fsimg.Graph, plain bool) []TS {
	r := d.R
	var places []TS
	for range g.Next {
		p := d.Alloc()
		for p[1] >= 13 && d.Sector(TS{17, 0})[0x35] == 13 && r.Intn(4) > 0 {
			p = d.Alloc()
		}
		places = append(places, p)
	}
	if !plain && r.Intn(2) == 0 {
		// a place on track 0 or where only one half of the pointer is zero
		places[r.Intn(len(places))] = [][2]int{{0, 1}, {0, 15}, {1, 0}, {34, 0}, {34, 15}}[r.Intn(5)]
	}
	for k, p := range places {
		for i := 0; i < 7; i++ {
			if r.Intn(2) == 0 {
				d.Entry(p, i, TS{1 + r.Intn(34), r.Intn(16)}, randomType(r), dosfmt.Name(randomName(r)), k*10+i)
			}
		}
	}
	graphPoint(d, places, 0, g.Start)
	for k, to := range g.Next {
		graphPoint(d, places, k+1, to)
	}
	return places
}

func realDisk(c *kit.Ctx, f func(t *kit.T, b []byte)) {
	for _, p := range []string{"data/disks/dos33master.dsk"} {
		p := p
		c.Case("real", func(t *kit.T) {
			b := t.Disk(p)
			fsimg.Emit(t, b)
			f(t, b)
		})
	}
}

// ---------------------------------------------------------------- C11

func randomData(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
		r.Read(b)
	case 1: // compressible
		for i := range b {
			b[i] = byte(i / 256)
		}
	default:
		x := byte(r.Intn(256))
		for i := range b {
			if r.Intn(50) == 0 {
				x = byte(r.Intn(256))
			}
			b[i] = x
		}
	}
	return b
}

// stored is the stored form of a file of a type with given contents.
func stored(typ byte, body []byte, length int, addr int) []byte {
	var h []byte
	if typ&0x7f == 4 {
		h = append(h, byte(addr), byte(addr>>8))
	}
	if typ&0x7f != 0 {
		h = append(h, byte(length), byte(length>>8))
	}
	return append(h, body...)
}

func c11(c *kit.Ctx) {
	for i := 0; i < c.N(160, 1500); i++ {
		i := i
		c.Case("files", func(t *kit.T) {
			r := t.R
			d := dosfmt.New(r)
			cat := d.Catalog(1 + r.Intn(3))
			var names []string
			for _, p := range cat {
				for s := 0; s < 7; s++ {
					if r.Intn(3) == 0 || d.Free() < 140 {
						continue
					}
					name := randomName(r)
					if len(names) > 0 && r.Intn(12) == 0 {
						name = names[r.Intn(len(names))] // a duplicate
					}
					typ := []byte{0, 1, 2, 4}[r.Intn(4)]
					if r.Intn(8) == 0 {
						typ = randomType(r)
					}
					if r.Intn(4) == 0 {
						typ |= 0x80
					}
					n := []int{0, 1, 2, 3, 251, 252, 253, 254, 255, 256, 257, 508, 510, 511, 512, 513}[r.Intn(16)]
					if r.Intn(2) == 0 {
						n = r.Intn(2000)
					}
					if i%12 == 0 && s == 0 {
						n = 121*256 + r.Intn(600)
					}
					length := n
					if r.Intn(8) == 0 {
						length = []int{n + 1, n + 256, 0xffff, n - 1, 0, n / 2, n + 254}[r.Intn(7)]
						if length < 0 {
							length = 0
						}
					}
					secs := dosfmt.Split(stored(typ, randomData(r, n), length, r.Intn(65536)))
					switch r.Intn(6) {
					case 0: // a hole
						if len(secs) > 0 {
							secs[r.Intn(len(secs))] = nil
						}
					case 1: // slack sectors
						secs = append(secs, make([]byte, 256))
					case 2: // trailing zeros in the last sector
						if len(secs) > 0 && typ&0x7f == 0 {
							z := secs[len(secs)-1]
							for k := r.Intn(256); k < 256; k++ {
								z[k] = 0
							}
						}
					}
					first, cnt := d.Store(secs)
					if r.Intn(16) == 0 {
						// an emptied list
						l := d.Sector(first)
						for k := 12; k < 256; k++ {
							l[k] = 0
						}
					}
					if r.Intn(12) == 0 {
						// a pair outside the disk
						l := d.Sector(first)
						k := 12 + 2*r.Intn(5)
						q := [][2]int{{35, 0}, {255, 0}, {1, 16}, {1, 255}, {34, 16}, {0, 16}}[r.Intn(6)]
						l[k], l[k+1] = byte(q[0]), byte(q[1])
					}
					if r.Intn(12) == 0 {
						// a pair in track 0 or with sector 0
						l := d.Sector(first)
						k := 12 + 2*r.Intn(5)
						q := [][2]int{{0, 1}, {1, 0}, {34, 15}, {17, 0}, {34, 0}}[r.Intn(5)]
						l[k], l[k+1] = byte(q[0]), byte(q[1])
					}
					d.Entry(p, s, first, typ, dosfmt.Name(name), cnt)
					names = append(names, strings.TrimRight(name, " "))
				}
			}
			if r.Intn(10) == 0 { // a deleted and a never-used file keep their lists
				for k := 0; k < 2; k++ {
					e := d.Sector(cat[0])[11+35*r.Intn(7):]
					e[0] = []byte{0, 255}[k]
				}
			}
			fsimg.Emit(t, d.B)
			for _, n := range names {
				get(t, d.B, n)
			}
			for _, n := range []string{"NO SUCH FILE", "", strings.ToLower(first(names)), first(names) + "X", first(names) + " "} {
				get(t, d.B, n)
			}
			if i%8 == 0 && len(names) > 0 {
				dump(t, d.B, names[r.Intn(len(names))])
			}
		})
	}
	for _, n := range []int{120, 121, 122, 123, 243, 244, 245, 246, 300} {
		n := n
		for k := 0; k < c.N(1, 3); k++ {
			c.Case("long", func(t *kit.T) {
				r := t.R
				d := dosfmt.New(r)
				cat := d.Catalog(1)
				for s, typ := range []byte{0, 4} {
					if d.Free() < n+5 {
						continue
					}
					var secs [][]byte
					for j := 0; j < n; j++ {
						x := make([]byte, 256)
						for b := range x {
							x[b] = byte(j*3 + b/64 + 1)
						}
						if r.Intn(30) == 0 {
							x = nil
						}
						secs = append(secs, x)
					}
					if typ == 4 {
						ln := n*256 - 4 - r.Intn(3)
						if ln > 65535 {
							ln = 65535
						}
						x := make([]byte, 256)
						copy(x, []byte{0, 0x20, byte(ln), byte(ln >> 8), 9, 9, 9})
						secs[0] = x
					}
					f, cnt := d.Store(secs)
					d.Entry(cat[0], s, f, typ, dosfmt.Name(string(rune('A'+s))), cnt)
				}
				fsimg.Emit(t, d.B)
				get(t, d.B, "A")
				get(t, d.B, "B")
			})
		}
	}
	// Sparse files of many lists.
	counts := []int{5, 6, 9}
	if c.Thorough() {
		counts = append(counts, 4, 7, 8, 13, 17, 33, 64)
	}
	for _, n := range counts {
		n := n
		c.Case("sparse", func(t *kit.T) {
			r := t.R
			d := dosfmt.New(r)
			cat := d.Catalog(1)
			for s, typ := range []byte{0, 4, 2} {
				secs := make([][]byte, n*122)
				for _, j := range []int{0, 121, 122, 243, 244, n*122 - 1 - r.Intn(122), (n-1)*122 - 1, r.Intn(n * 122), r.Intn(n * 122)} {
					x := make([]byte, 256)
					for b := range x {
						x[b] = byte(j + b/128 + 1)
					}
					secs[j] = x
				}
				if typ != 0 {
					ln := 65535 - r.Intn(300)
					copy(secs[0], stored(typ, []byte{7, 7, 7}, ln, 0x2000))
				}
				f, cnt := d.Store(secs)
				d.Entry(cat[0], s, f, typ, dosfmt.Name(string(rune('A'+s))), cnt)
			}
			fsimg.Emit(t, d.B)
			if n <= 17 {
				get(t, d.B, "A")
			}
			get(t, d.B, "B")
			get(t, d.B, "C")
		})
	}
	// Every character at the start, in the middle, at the end of a name: each
	// file is found under its own name, and no other.
	for base := 0; base < 128; base += 16 {
		base := base
		c.Case("characters", func(t *kit.T) {
			for ch := base; ch < base+16; ch++ {
				d := dosfmt.New(t.R)
				cat := d.Catalog(1)
				names := characterNames(byte(ch))
				for i, name := range names {
					f, n := d.Store(dosfmt.Split([]byte{byte(i + 1), byte(ch)}))
					d.Entry(cat[0], i, f, 0, dosfmt.Name(name), n)
				}
				fsimg.Emit(t, d.B)
				for _, n := range names {
					get(t, d.B, strings.TrimRight(n, " "))
				}
				for _, n := range []string{"A", "AB", strings.Repeat("Z", 29), "", "AA", names[1] + " ", " " + names[1], names[5] + "Z"} {
					get(t, d.B, n)
				}
			}
		})
	}
	// Every small graph of list pointers.
	for _, g := range fsimg.Graphs(c) {
		g := g
		if g.Start == 0 {
			continue // such an entry is a never-used one or on track 0
		}
		c.Case("graph", func(t *kit.T) {
			r := t.R
			d := dosfmt.New(r)
			cat := d.Catalog(1)
			var places []TS
			for range g.Next {
				places = append(places, d.Alloc())
			}
			if r.Intn(3) == 0 {
				places[r.Intn(len(places))] = [][2]int{{1, 0}, {34, 0}, {34, 15}, {17, 0}}[r.Intn(4)]
			}
			for k, p := range places {
				if p == (TS{17, 0}) {
					continue
				}
				s := d.Sector(p)
				for j := 0; j < 122; j++ {
					if r.Intn(40) == 0 || j == k {
						q := d.Alloc()
						x := d.Sector(q)
						for b := range x {
							x[b] = byte(k + 1)
						}
						s[12+2*j], s[13+2*j] = byte(q[0]), byte(q[1])
					}
				}
			}
			for k, to := range g.Next {
				if places[k] == (TS{17, 0}) {
					continue // the catalog pointer stays
				}
				graphPoint(d, places, k+1, to)
			}
			first := TS{35 + r.Intn(220), r.Intn(256)}
			if r.Intn(2) == 0 {
				first = TS{1 + r.Intn(34), 16 + r.Intn(240)}
			}
			if g.Start <= len(places) {
				first = places[g.Start-1]
			}
			d.Entry(cat[0], r.Intn(7), first, 0, dosfmt.Name("FILE"), 3)
			fsimg.Emit(t, d.B)
			get(t, d.B, "FILE")
		})
	}
	realDisk(c, func(t *kit.T, b []byte) {
		fs, _, err := dos3.ReadCatalog(b, 0)
		if err != nil {
			return
		}
		for i := range fs {
			n := fs[i].FilenameString()
			get(t, b, n)
			if i%5 == 0 {
				dump(t, b, n)
			}
		}
	})
	c.Case("invalid", func(t *kit.T) {
		for k := 0; k < 12; k++ {
			d := dosfmt.New(t.R)
			cat := d.Catalog(1)
			f, n := d.Store(dosfmt.Split(randomData(t.R, 300)))
			d.Entry(cat[0], 0, f, 0, dosfmt.Name("FILE"), n)
			if k > 0 {
				d.Sector(TS{17, 0})[[]int{3, 0x27, 0x31, 0x34, 0x35, 0x37}[k%6]] ^= 0x42
			}
			fsimg.Emit(t, d.B)
			get(t, d.B, "FILE")
		}
	})
}

func first(n []string) string {
	if len(n) == 0 {
		return "A"
	}
	return n[0]
}

func main() {
	kit.Main(func(c *kit.Ctx) {
		switch c.Prop {
		case "C10":
			c10(c)
		case "C11":
			c11(c)
		}
	})
}
