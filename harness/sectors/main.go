// Command sectors drives the sector-level code: reordering, opening and
// writing back (C01, C02), and sector and block access (C22).
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zz_verif/kit"
	"github.com/zellyn/diskii/zz_verif/nakfmt"
)

const floppy = 143360

func randomBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// ---------------------------------------------------------------- C01

func swizzle(t *kit.T, img []byte, order []int) {
	o := kit.Obj{"ev": "swizzle", "order": order, "n": len(img), "img": []int{}, "out": []int{}, "after": []int{}, "err": 0}
	if len(img) == floppy {
		o["img"] = t.Int.Sectors(img)
	}
	in := append([]byte(nil), img...)
	o["how"] = kit.Outcome(func() {
		out, err := disk.Swizzle(in, append([]int(nil), order...))
		o["err"] = kit.ErrFlag(err)
		if err == nil {
			o["out"] = t.Int.Sectors(out)
		}
	})
	if len(img) == floppy {
		o["after"] = t.Int.Sectors(in)
	}
	t.Emit(o)
}

func swizzles(c *kit.Ctx) {
	c.Case("tables", func(t *kit.T) {
		img := randomBytes(t.R, floppy)
		for _, order := range []types.DiskOrder{types.DiskOrderDO, types.DiskOrderPO, types.DiskOrderRaw} {
			swizzle(t, img, disk.LogicalToPhysicalByName[order])
			swizzle(t, img, disk.PhysicalToLogicalByName[order])
		}
	})
	for i := 0; i < c.N(12, 60); i++ {
		i := i
		c.Case("swizzle", func(t *kit.T) {
			r := t.R
			for k := 0; k < 14; k++ {
				img := randomBytes(r, floppy)
				if r.Intn(4) == 0 {
					// many equal sectors
					for s := 0; s < 560; s++ {
						if r.Intn(2) == 0 {
							copy(img[s*256:s*256+256], make([]byte, 256))
						}
					}
				}
				q := r.Perm(16)
				switch (k + i) % 7 {
				case 0: // a repeat
					q[r.Intn(16)] = q[r.Intn(16)]
				case 1: // out of range
					q[r.Intn(16)] = []int{-1, 16, 17, 255, 256, -16, 1 << 20, 32}[r.Intn(8)]
				case 2: // wrong length
					if r.Intn(2) == 0 {
						q = r.Perm(1 + r.Intn(15))
					} else {
						q = append(q, r.Intn(16))
					}
				case 3:
					img = randomBytes(r, []int{0, 1, 256, 4096, floppy - 1, floppy + 1, floppy - 256, floppy + 256, floppy - 4096, floppy + 4096, 116480, 2 * floppy, 819200, 512 * r.Intn(700)}[r.Intn(14)])
				}
				if len(q) == 0 {
					continue
				}
				swizzle(t, img, q)
			}
		})
	}
	// Each bad order of one changed entry.
	c.Case("badorders", func(t *kit.T) {
		img := randomBytes(t.R, floppy)
		for p := 0; p < 16; p++ {
			q := t.R.Perm(16)
			q[p] = q[(p+1+t.R.Intn(15))%16]
			swizzle(t, img, q)
			q = t.R.Perm(16)
			q[p] = 16 + t.R.Intn(3)
			swizzle(t, img, q)
			q = t.R.Perm(16)
			q[p] = -1 - t.R.Intn(16)
			swizzle(t, img, q)
			// what would be right if some of its bits, or its sign, were dropped
			q = t.R.Perm(16)
			q[p] += []int{16, -16, 256, -256, 65536, -65536, 1 << 30, -1 << 30, 32, 512}[p%10]
			swizzle(t, img, q)
			q = t.R.Perm(16)
			q[p] += []int{-256, 256, -1 << 16, -16, -512, 16, 48, -65536}[p%8]
			swizzle(t, img, q)
			if q = t.R.Perm(16); q[p] != 0 {
				q[p] = -q[p]
			} else {
				q[p] = 128
			}
			swizzle(t, img, q)
		}
	})
}

var exts = []string{".dsk", ".do", ".po", "", ".DO", ".Po", ".DSK", ".hdv", ".img", ".po.bak", ".do.po", ".d", ".dos"}

func reorderOnce(t *kit.T, name, newname, opt, newopt string, img []byte) {
	dir := t.Tmp()
	defer os.RemoveAll(dir)
	args := []string{"reorder"}
	o := kit.Obj{"ev": "reorder", "opt": opt, "newopt": newopt, "name": kit.Str(name), "newname": kit.Str(newname), "n": len(img), "img": []int{}, "out": []int{}, "kept": 0}
	if opt != "auto" || t.R.Intn(2) == 0 {
		args = append(args, "--order="+opt)
	}
	if newopt != "auto" || t.R.Intn(2) == 0 {
		args = append(args, "--new-order="+newopt)
	}
	var stdin []byte
	if name == "-" {
		stdin = img
	} else {
		kit.WriteFile(filepath.Join(dir, name), img)
	}
	target := name
	want := 1
	if name == "-" {
		want = 0
	}
	old := []byte(nil) // what is in the way
	if newname != "" {
		target = newname
		if newname == name {
			args = append(args, "-f")
		} else if newname != "-" && t.R.Intn(4) == 0 {
			old = randomBytes(t.R, []int{0, 700, floppy, floppy + 1, floppy + 4096}[t.R.Intn(5)])
			kit.WriteFile(filepath.Join(dir, newname), old)
			args = append(args, []string{"-f", "--overwrite"}[t.R.Intn(2)])
			want++
		}
	}
	args = append(args, name)
	if newname != "" {
		args = append(args, newname)
	}
	res := t.Run(dir, stdin, args...)
	o["rc"], o["how"] = res.Rc, res.How
	var out []byte
	if target == "-" {
		out = res.Stdout
	} else {
		out, _ = os.ReadFile(filepath.Join(dir, target))
	}
	if len(img) == floppy {
		o["img"] = t.Int.Sectors(img)
	}
	if res.Rc == 0 {
		o["out"] = t.Int.Sectors(out)
	} else {
		kept := true
		if name != "-" {
			b, err := os.ReadFile(filepath.Join(dir, name))
			kept = err == nil && string(b) == string(img)
		}
		if old != nil {
			b, err := os.ReadFile(filepath.Join(dir, newname))
			kept = kept && err == nil && string(b) == string(old)
		}
		ents, _ := os.ReadDir(dir)
		o["kept"] = kit.B(kept && len(ents) == want)
	}
	t.Emit(o)
}

func reorders(c *kit.Ctx) {
	orders := []string{"auto", "do", "po"}
	for _, e1 := range exts {
		e1 := e1
		c.Case("reorder", func(t *kit.T) {
			img := randomBytes(t.R, floppy)
			for _, e2 := range append([]string{"none"}, exts...) {
				for _, a := range orders {
					for _, b := range orders {
						if !t.Thorough() && a != "auto" && b != "auto" && t.R.Intn(3) > 0 {
							continue
						}
						n2 := "y" + e2
						if e2 == "none" {
							n2 = ""
						}
						reorderOnce(t, "x"+e1, n2, a, b, img)
					}
				}
			}
		})
	}
	c.Case("reorder-itself", func(t *kit.T) {
		for _, e := range exts {
			img := randomBytes(t.R, floppy)
			for _, a := range orders {
				for _, b := range orders {
					reorderOnce(t, "x"+e, "x"+e, a, b, img)
				}
			}
		}
	})
	c.Case("reorder-std", func(t *kit.T) {
		for _, a := range orders {
			for _, b := range orders {
				img := randomBytes(t.R, floppy)
				reorderOnce(t, "-", "-", a, b, img)
				reorderOnce(t, "-", "", a, b, img)
				reorderOnce(t, "-", "z.po", a, b, img)
				reorderOnce(t, "z.po", "-", a, b, img)
			}
		}
	})
	c.Case("reorder-size", func(t *kit.T) {
		for _, n := range []int{0, 1, 512, 116480, floppy - 1, floppy + 1, floppy - 512, floppy + 512, floppy * 2, 819200} {
			reorderOnce(t, "x.dsk", "y.po", "auto", "auto", randomBytes(t.R, n))
			reorderOnce(t, "x.po", "", "po", "do", randomBytes(t.R, n))
		}
	})
}

// ---------------------------------------------------------------- C02

type stubFactory struct {
	order types.DiskOrder
	got   *[]byte
}

func (f stubFactory) Name() string                  { return "stub" }
func (f stubFactory) DiskOrder() types.DiskOrder    { return f.order }
func (f stubFactory) SeemsToMatch([]byte, int) bool { return true }
func (f stubFactory) Operator(b []byte, _ int) (types.Operator, error) {
	*f.got = append([]byte(nil), b...)
	return stubOp{f.order, f.got}, nil
}

type stubOp struct {
	order types.DiskOrder
	data  *[]byte
}

func (s stubOp) Name() string                               { return "stub" }
func (s stubOp) DiskOrder() types.DiskOrder                 { return s.order }
func (s stubOp) HasSubdirs() bool                           { return false }
func (s stubOp) Catalog(string) ([]types.Descriptor, error) { return nil, nil }
func (s stubOp) GetFile(string) (types.FileInfo, error)     { return types.FileInfo{}, fmt.Errorf("none") }
func (s stubOp) Delete(string) (bool, error)                { return false, fmt.Errorf("none") }
func (s stubOp) PutFile(types.FileInfo, bool) (bool, error) { return false, fmt.Errorf("none") }
func (s stubOp) GetBytes() []byte                           { return *s.data }

func openStub(t *kit.T, fo, so types.DiskOrder, opt types.DiskOrder, name string, img []byte, change []int) {
	dir := t.Tmp()
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, name)
	kit.WriteFile(file, img)
	var got []byte
	o := kit.Obj{"ev": "open", "fo": string(fo), "so": string(so), "img": t.Int.Sectors(img), "err": 0, "seen": []int{}, "out": []int{}, "rorder": ""}
	ch := [][2]int{}
	o["how"] = kit.Outcome(func() {
		op, rorder, err := disk.OpenFilename(file, opt, "auto", []types.OperatorFactory{stubFactory{so, &got}}, 0)
		if err != nil {
			o["err"] = 1
			return
		}
		o["rorder"] = string(rorder)
		o["seen"] = t.Int.Sectors(got)
		if len(got) == floppy {
			for _, s := range change {
				b := randomBytes(t.R, 256)
				copy(got[s*256:], b)
				ch = append(ch, [2]int{s + 1, t.Int.Tok(b)})
			}
		}
		if err := disk.WriteBack(file, op, rorder, true); err != nil {
			o["err"] = 1
			return
		}
		b, err := os.ReadFile(file)
		kit.Must(err)
		o["out"] = t.Int.Sectors(b)
	})
	o["ch"] = ch
	t.Emit(o)
}

func writeBack(c *kit.Ctx) {
	files := []types.DiskOrder{types.DiskOrderDO, types.DiskOrderPO}
	systems := []types.DiskOrder{types.DiskOrderDO, types.DiskOrderPO, types.DiskOrderRaw}
	for _, fo := range files {
		for _, so := range systems {
			fo, so := fo, so
			c.Case("open-stub", func(t *kit.T) {
				ext := map[types.DiskOrder]string{"do": "a.do", "po": "a.PO"}[fo]
				for k := 0; k < t.N(6, 20); k++ {
					img := randomBytes(t.R, floppy)
					openStub(t, fo, so, fo, "x", img, nil)
					openStub(t, fo, so, types.DiskOrderAuto, ext, img, nil)
					openStub(t, fo, so, fo, "x.dsk", img, t.R.Perm(560)[:1+t.R.Intn(40)])
				}
				// each sector of a track, changed alone
				for s := 0; s < 16; s++ {
					openStub(t, fo, so, fo, "x.img", randomBytes(t.R, floppy), []int{t.R.Intn(35)*16 + s})
				}
				// each track
				for tr := 0; tr < 35; tr++ {
					if t.Thorough() || tr%5 == 0 || tr == 34 {
						openStub(t, fo, so, fo, "x.img", randomBytes(t.R, floppy), []int{tr*16 + t.R.Intn(16)})
					}
				}
			})
		}
	}
	c.Case("verbatim", func(t *kit.T) {
		for _, n := range []int{0, 1, 512, 116480, floppy - 1, floppy + 1, floppy - 512, floppy + 512, 819200, 1600*512 + 512, 65536 * 512} {
			for _, so := range systems {
				for _, fo := range files {
					dir := t.Tmp()
					file := filepath.Join(dir, "x.hdv")
					img := randomBytes(t.R, n)
					data := append([]byte(nil), img...)
					if n > 1<<20 && so != "po" {
						continue
					}
					var toks []int
					if n <= 1<<20 {
						toks = t.Int.Sectors(img)
					} else {
						toks = []int{t.Int.Tok(img)}
					}
					o := kit.Obj{"ev": "verbatim", "n": n, "img": toks, "err": 0, "out": []int{}, "outn": -1}
					o["how"] = kit.Outcome(func() {
						if err := disk.WriteBack(file, stubOp{so, &data}, fo, true); err != nil {
							o["err"] = 1
							return
						}
						b, err := os.ReadFile(file)
						kit.Must(err)
						o["outn"] = len(b)
						if n <= 1<<20 {
							o["out"] = t.Int.Sectors(b)
						} else {
							o["out"] = []int{t.Int.Tok(b)}
						}
					})
					os.RemoveAll(dir)
					t.Emit(o)
				}
			}
		}
	})
	// The real systems, unmodified.
	type realDisk struct {
		path, system string
		file, order  types.DiskOrder
		fac          types.OperatorFactory
	}
	for _, d := range []realDisk{
		{"data/disks/dos33master.dsk", "dos3", "do", "do", dos3.OperatorFactory{}},
		{"data/disks/ProDOS_2_4_2.po", "prodos", "po", "po", prodos.OperatorFactory{}},
		{"supermon/testdata/chacha20.dsk", "nakedos", "do", "raw", supermon.OperatorFactory{}},
	} {
		d := d
		c.Case("open-real", func(t *kit.T) {
			orig := t.Disk(d.path)
			for _, fo := range files {
				img := orig
				if d.file == "do" {
					img = nakfmt.DosToPhys(orig)
				} else {
					img = nakfmt.PoToPhys(orig)
				}
				if fo == "do" {
					img = nakfmt.PhysToDos(img)
				} else {
					img = nakfmt.PhysToPo(img)
				}
				for _, opt := range []types.DiskOrder{fo, types.DiskOrderAuto} {
					for _, system := range []string{d.fac.Name(), "auto"} {
						dir := t.Tmp()
						file := filepath.Join(dir, "x."+string(fo))
						kit.WriteFile(file, img)
						o := kit.Obj{"ev": "open", "fo": string(fo), "so": string(d.order), "img": t.Int.Sectors(img), "err": 0, "seen": []int{}, "out": []int{}, "rorder": "", "ch": []int{}}
						o["how"] = kit.Outcome(func() {
							op, ro, err := disk.OpenFilename(file, opt, system, []types.OperatorFactory{d.fac}, 0)
							if err != nil {
								o["err"] = 1
								return
							}
							o["rorder"] = string(ro)
							o["seen"] = t.Int.Sectors(op.GetBytes())
							if err := disk.WriteBack(file, op, ro, true); err != nil {
								o["err"] = 1
								return
							}
							b, err := os.ReadFile(file)
							kit.Must(err)
							o["out"] = t.Int.Sectors(b)
						})
						os.RemoveAll(dir)
						t.Emit(o)
					}
				}
			}
		})
	}
}

// ---------------------------------------------------------------- C22

// stamped makes an image whose unit i (of u bytes) is recognisable.
func stamped(n, u int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += u {
		e := i + u
		if e > n {
			e = n
		}
		x := b[i:e]
		k := uint32(i/u + 1)
		for j := range x {
			x[j] = byte(k>>(8*(uint(j)%3))) ^ byte(j*7)
		}
	}
	return b
}

// unitTok is the number stamped in a unit, or 0 if it is not one.
func unitTok(b []byte, u int) int {
	if len(b) != u {
		return 0
	}
	k := int(b[0]) | int(b[1]^7)<<8 | int(b[2]^14)<<16
	w := stampUnit(k, u)
	if string(w) != string(b) {
		return 0
	}
	return k
}

func stampUnit(k, u int) []byte {
	x := make([]byte, u)
	for j := range x {
		x[j] = byte(uint32(k)>>(8*(uint(j)%3))) ^ byte(j*7)
	}
	return x
}

type secSink struct {
	data          []byte
	track, sector int
}

func (s *secSink) FromSector(d []byte) error { s.data = d; return nil }
func (s *secSink) SetTrack(t byte)           { s.track = int(t) }
func (s *secSink) SetSector(t byte)          { s.sector = int(t) }

type secSource struct {
	data          []byte
	track, sector byte
}

func (s secSource) ToSector() ([]byte, error) { return s.data, nil }
func (s secSource) GetTrack() byte            { return s.track }
func (s secSource) GetSector() byte           { return s.sector }

type blkSink struct {
	data disk.Block
	idx  int
}

func (s *blkSink) FromBlock(b disk.Block) error { s.data = b; return nil }
func (s *blkSink) SetBlock(i uint16)            { s.idx = int(i) }

type blkSource struct {
	data disk.Block
	idx  uint16
}

func (s blkSource) ToBlock() (disk.Block, error) { return s.data, nil }
func (s blkSource) GetBlock() uint16             { return s.idx }

func changes(a, b []byte, u int, tok func([]byte) int) [][2]int {
	r := [][2]int{}
	for i := 0; i < len(a); i += u {
		e := i + u
		if e > len(a) {
			e = len(a)
		}
		if string(a[i:e]) != string(b[i:e]) {
			r = append(r, [2]int{i / u, tok(b[i:e])})
		}
	}
	return r
}

func access(c *kit.Ctx) {
	sizes := []int{0, 1, 255, 256, 257, 4095, 4096, 4097, floppy, floppy - 1, floppy + 1, floppy - 256, floppy + 256, 116480, 50 * 4096, 256 * 4096, 255*4096 + 4095}
	for _, n := range sizes {
		n := n
		for part := 0; part < 4; part++ {
			part := part
			c.Case("sectors", func(t *kit.T) {
				orig := stamped(n, 256)
				// (for n=0 there is nothing but refusals)
				for track := part; track < 256; track += 4 {
					if !t.Thorough() && track > 40 && track%16 != t.R.Intn(16) && track != 255 && n < 256*4000 {
						continue
					}
					readRow(t, orig, track)
					if n <= 50*4096 || (t.Thorough() && track%8 == 3) || track%64 == 7 {
						writeRow(t, orig, track)
					}
				}
			})
		}
	}
	c.Case("lengths", func(t *kit.T) {
		img := stamped(floppy, 256)
		for _, ln := range []int{0, 1, 128, 255, 257, 511, 512, 4096} {
			for k := 0; k < 4; k++ {
				track, sector := byte(t.R.Intn(35)), byte(t.R.Intn(16))
				for api := 0; api < 2; api++ {
					w := append([]byte(nil), img...)
					o := kit.Obj{"ev": "wlen", "len": ln, "err": 0}
					o["how"] = kit.Outcome(func() {
						var err error
						if api == 0 {
							err = disk.WriteSector(w, track, sector, randomBytes(t.R, ln))
						} else {
							err = disk.MarshalLogicalSector(w, secSource{randomBytes(t.R, ln), track, sector})
						}
						o["err"] = kit.ErrFlag(err)
					})
					o["same"] = kit.B(string(w) == string(img))
					t.Emit(o)
				}
			}
		}
	})
	for _, n := range []int{0, 511, 512, 513, 1024, floppy, floppy - 1, floppy + 1, floppy + 512, 1600 * 512, 1600*512 - 1, 65535 * 512, 65536 * 512, 65536*512 - 1} {
		n := n
		if n > 1<<21 && n != 65536*512 && c.Tier == "quick" && n != 65535*512 {
			continue
		}
		for part := 0; part < 4; part++ {
			part := part
			c.Case("blocks", func(t *kit.T) {
				orig := stamped(n, 512)
				for hi := part; hi < 256; hi += 4 {
					if hi > n/512/256+1 && hi%32 != 31 && hi < 252 {
						continue
					}
					if !t.Thorough() && n > 1<<21 && hi%16 > 3 && hi < 252 {
						continue
					}
					blockReads(t, orig, hi)
					if n <= 1600*512 {
						blockWrites(t, orig, hi)
					} else {
						blockWriteAll(t, orig, hi)
					}
				}
			})
		}
	}
}

func readRow(t *kit.T, orig []byte, track int) {
	img := append([]byte(nil), orig...)
	errs, tok, idx := make([]int, 256), make([]int, 256), make([]int, 256)
	alias := 0
	o := kit.Obj{"ev": "rsec", "n": len(orig), "track": track}
	o["how"] = kit.Outcome(func() {
		for s := 0; s < 256; s++ {
			var data []byte
			var err error
			sink := secSink{nil, -1, -1}
			if (track+s)%2 == 0 {
				data, err = disk.ReadSector(img, byte(track), byte(s))
				idx[s] = s
			} else {
				err = disk.UnmarshalLogicalSector(img, &sink, byte(track), byte(s))
				data = sink.data
				idx[s] = sink.sector
				if sink.track != track {
					idx[s] = -2
				}
			}
			errs[s] = kit.ErrFlag(err)
			if err != nil {
				continue
			}
			tok[s] = unitTok(data, 256)
			// neither copy affects the other
			for j := range data {
				data[j] ^= 0xFF
			}
			if string(img) != string(orig) {
				alias = 1
				copy(img, orig)
			}
			keep := append([]byte(nil), data...)
			if off := (track*16 + s) * 256; off+256 <= len(img) {
				img[off] ^= 0x55
				img[off+255] ^= 0x55
				if string(keep) != string(data) {
					alias = 1
				}
				copy(img[off:off+256], orig[off:off+256])
			}
		}
	})
	o["errs"], o["tok"], o["idx"], o["alias"] = errs, tok, idx, alias
	t.Emit(o)
}

func writeRow(t *kit.T, orig []byte, track int) {
	img := append([]byte(nil), orig...)
	errs, dat := make([]int, 256), make([]int, 256)
	ch := make([][][2]int, 256)
	o := kit.Obj{"ev": "wsec", "n": len(orig), "track": track}
	o["how"] = kit.Outcome(func() {
		for s := 0; s < 256; s++ {
			k := 1<<20 + track*256 + s
			dat[s] = k
			ch[s] = [][2]int{}
			d := stampUnit(k, 256)
			var err error
			if (track+s)%2 == 0 {
				err = disk.WriteSector(img, byte(track), byte(s), d)
			} else {
				err = disk.MarshalLogicalSector(img, secSource{d, byte(track), byte(s)})
			}
			errs[s] = kit.ErrFlag(err)
			if string(img) != string(orig) {
				ch[s] = changes(orig, img, 256, func(b []byte) int { return unitTok(b, 256) })
				copy(img, orig)
			}
		}
	})
	for s := range ch {
		if ch[s] == nil {
			ch[s] = [][2]int{}
		}
	}
	o["errs"], o["dat"], o["ch"] = errs, dat, ch
	t.Emit(o)
}

func blockReads(t *kit.T, orig []byte, hi int) {
	img := append([]byte(nil), orig...)
	errs, tok, idx := make([]int, 256), make([]int, 256), make([]int, 256)
	alias := 0
	o := kit.Obj{"ev": "rblk", "n": len(orig), "hi": hi}
	o["how"] = kit.Outcome(func() {
		for b := 0; b < 256; b++ {
			i := hi*256 + b
			sink := blkSink{idx: -1}
			err := disk.UnmarshalBlock(img, &sink, uint16(i))
			errs[b] = kit.ErrFlag(err)
			if err != nil {
				continue
			}
			tok[b] = unitTok(sink.data[:], 512)
			idx[b] = sink.idx - hi*256
			sink.data[0] ^= 0xFF
			if off := i * 512; off+512 <= len(img) && img[off] != orig[off] {
				alias = 1
			}
		}
	})
	o["errs"], o["tok"], o["idx"], o["alias"] = errs, tok, idx, alias
	t.Emit(o)
}

func blockOf(k int) (r disk.Block) {
	copy(r[:], stampUnit(k, 512))
	return
}

func blockWrites(t *kit.T, orig []byte, hi int) {
	img := append([]byte(nil), orig...)
	errs, dat := make([]int, 256), make([]int, 256)
	ch := make([][][2]int, 256)
	o := kit.Obj{"ev": "wblk", "n": len(orig), "hi": hi}
	o["how"] = kit.Outcome(func() {
		for b := 0; b < 256; b++ {
			k := 1<<20 + hi*256 + b
			dat[b] = k
			ch[b] = [][2]int{}
			errs[b] = kit.ErrFlag(disk.MarshalBlock(img, blkSource{blockOf(k), uint16(hi*256 + b)}))
			if string(img) != string(orig) {
				ch[b] = changes(orig, img, 512, func(x []byte) int { return unitTok(x, 512) })
				copy(img, orig)
			}
		}
	})
	for s := range ch {
		if ch[s] == nil {
			ch[s] = [][2]int{}
		}
	}
	o["errs"], o["dat"], o["ch"] = errs, dat, ch
	t.Emit(o)
}

func blockWriteAll(t *kit.T, orig []byte, hi int) {
	img := append([]byte(nil), orig...)
	errs, dat := make([]int, 256), make([]int, 256)
	o := kit.Obj{"ev": "wall", "n": len(orig), "hi": hi}
	o["how"] = kit.Outcome(func() {
		for _, b := range t.R.Perm(256) {
			k := 1<<20 + hi*256 + b
			dat[b] = k
			errs[b] = kit.ErrFlag(disk.MarshalBlock(img, blkSource{blockOf(k), uint16(hi*256 + b)}))
		}
	})
	o["errs"], o["dat"] = errs, dat
	o["diff"] = changes(orig, img, 512, func(x []byte) int { return unitTok(x, 512) })
	t.Emit(o)
}

func main() {
	kit.Main(func(c *kit.Ctx) {
		switch c.Prop {
		case "C01":
			swizzles(c)
			reorders(c)
		case "C02":
			writeBack(c)
		case "C22":
			access(c)
		}
	})
}
