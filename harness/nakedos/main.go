// Command nakedos drives the real NakedOS/Super-Mon code through histories
// (the specification's own, and seeded random ones) and records them.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/errors"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zz_verif/kit"
	"github.com/zellyn/diskii/zz_verif/nakfmt"
)

var factories = []types.OperatorFactory{supermon.OperatorFactory{}}

// session is one disk being worked on.
type session struct {
	t     *kit.T
	op    types.Operator
	last  *nakfmt.View // as last recorded
	dead  bool
	names []string // names used so far, for probing
	saved [3]struct {
		img  []byte
		view *nakfmt.View
	}
}

func (s *session) bytes() []byte { return s.op.GetBytes() }

func openBytes(img []byte) (op types.Operator, how string) {
	how = kit.Outcome(func() {
		o, err := supermon.OperatorFactory{}.Operator(append([]byte(nil), img...), 0)
		if err != nil {
			panic("open: " + err.Error())
		}
		op = o
	})
	return op, how
}

// start opens img and records it.
func start(t *kit.T, img []byte) *session {
	s := &session{t: t}
	op, how := openBytes(img)
	if how != "ok" {
		t.Emit(kit.Obj{"ev": "died", "how": how, "msg": kit.LastPanic})
		s.dead = true
		return s
	}
	s.op = op
	v := nakfmt.Look(t.Int, img)
	s.last = v
	o := v.Full()
	o["ev"] = "init"
	o["gets"] = []interface{}{}
	o["cats"] = []interface{}{}
	t.Emit(o)
	return s
}

func (s *session) after(o kit.Obj) kit.Obj {
	v := nakfmt.LookAfter(s.t.Int, s.bytes(), s.last)
	v.Diff(s.last, o)
	s.last = v
	return o
}

func catalog(op types.Operator) kit.Obj {
	o := kit.Obj{"err": 0, "list": []interface{}{}}
	o["how"] = kit.Outcome(func() {
		ds, err := op.Catalog("")
		if err != nil {
			o["err"] = 1
			return
		}
		l := []interface{}{}
		for _, d := range ds {
			l = append(l, kit.Obj{"name": kit.Str(d.Name), "full": kit.Str(d.Fullname), "sectors": d.Sectors, "length": d.Length})
		}
		o["list"] = l
	})
	return o
}

func get(t *kit.T, op types.Operator, q string) kit.Obj {
	o := kit.Obj{"q": kit.Str(q), "err": 0, "data": []int{}, "n": 0}
	o["how"] = kit.Outcome(func() {
		fi, err := op.GetFile(q)
		if err != nil {
			o["err"] = 1
			return
		}
		o["data"] = t.Int.Sectors(fi.Data)
		o["n"] = len(fi.Data)
	})
	return o
}

// probe adds what reading shows, in the running session and after opening
// the image afresh.
func (s *session) probe(o kit.Obj, qs []string) kit.Obj {
	gets, cats := []interface{}{}, []interface{}{}
	fresh, how := openBytes(s.bytes())
	for _, q := range qs {
		if how != "ok" || s.t.R.Intn(2) == 0 {
			gets = append(gets, get(s.t, s.op, q))
		} else {
			gets = append(gets, get(s.t, fresh, q))
		}
	}
	if how != "ok" {
		cats = append(cats, kit.Obj{"how": how, "err": 1, "list": []interface{}{}})
	} else if n := len(s.last.Files()); s.t.R.Intn(1+n/10) == 0 { // long catalogs less often
		if s.t.R.Intn(2) == 0 {
			cats = append(cats, catalog(s.op))
		} else {
			cats = append(cats, catalog(fresh))
		}
	}
	o["gets"], o["cats"] = gets, cats
	return o
}

func errKind(err error) string {
	switch {
	case err == nil:
		return "none"
	case errors.IsOutOfSpace(err):
		return "space"
	case errors.IsFileExists(err):
		return "exists"
	}
	return "other"
}

func mixCase(r *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] = strings.ToLower(string(b[i : i+1]))[0]
		} else {
			b[i] = strings.ToUpper(string(b[i : i+1]))[0]
		}
	}
	return string(b)
}

// queries picks what to read back after operating on name.
func (s *session) queries(name string) []string {
	r := s.t.R
	var qs []string
	part := name
	if i := strings.IndexByte(name, ':'); i >= 0 {
		qs = append(qs, name[:i])
		part = name[i+1:]
	}
	if strings.IndexByte(part, ':') < 0 && part != "" {
		qs = append(qs, mixCase(r, part))
		s.names = append(s.names, part)
	}
	if len(s.names) > 0 {
		qs = append(qs, mixCase(r, s.names[r.Intn(len(s.names))]))
	}
	qs = append(qs, fmt.Sprintf("DF%02X", 1+r.Intn(12)))
	if used := s.last.Files(); len(used) > 0 {
		qs = append(qs, fmt.Sprintf("%02X", used[r.Intn(len(used))]))
	}
	return qs
}

type putArgs struct {
	name  string
	data  []byte
	ow    bool
	ftype types.Filetype
	dlen  int
}

func (s *session) put(a putArgs) {
	if s.dead {
		return
	}
	o := kit.Obj{"ev": "put", "name": kit.Str(a.name), "n": len(a.data), "data": s.t.Int.Padded(a.data), "dlen": a.dlen,
		"binary": kit.B(a.ftype == types.FiletypeBinary), "ow": kit.B(a.ow), "err": 0, "ek": "none", "existed": 0}
	o["how"] = kit.Outcome(func() {
		existed, err := s.op.PutFile(types.FileInfo{
			Descriptor: types.Descriptor{Name: a.name, Length: a.dlen, Type: a.ftype},
			Data:       append([]byte(nil), a.data...),
		}, a.ow)
		o["existed"], o["err"], o["ek"] = kit.B(existed), kit.ErrFlag(err), errKind(err)
	})
	s.after(o)
	if o["how"] != "ok" {
		s.dead = true
		o["gets"], o["cats"] = []interface{}{}, []interface{}{}
		s.t.Emit(o)
		return
	}
	s.t.Emit(s.probe(o, s.queries(a.name)))
}

func (s *session) del(name string) {
	if s.dead {
		return
	}
	o := kit.Obj{"ev": "del", "name": kit.Str(name), "err": 0, "ek": "none", "existed": 0}
	o["how"] = kit.Outcome(func() {
		existed, err := s.op.Delete(name)
		o["existed"], o["err"], o["ek"] = kit.B(existed), kit.ErrFlag(err), errKind(err)
	})
	s.after(o)
	if o["how"] != "ok" {
		s.dead = true
		o["gets"], o["cats"] = []interface{}{}, []interface{}{}
		s.t.Emit(o)
		return
	}
	s.t.Emit(s.probe(o, s.queries(name)))
}

// reopen saves the disk in a file order and opens that file.
func (s *session) reopen(order types.DiskOrder) {
	if s.dead {
		return
	}
	name := filepath.Join(s.t.Tmp(), "x."+string(order))
	o := kit.Obj{"ev": "reopen", "order": string(order), "err": 0, "ek": "none", "existed": 0}
	var op types.Operator
	o["how"] = kit.Outcome(func() {
		if err := disk.WriteBack(name, s.op, order, true); err != nil {
			o["err"] = 1
			return
		}
		var got types.DiskOrder
		var err error
		op, got, err = disk.OpenFilename(name, types.DiskOrderAuto, "nakedos", factories, 0)
		if err != nil || got != order {
			o["err"] = 1
		}
	})
	if o["how"] == "ok" && o["err"] == 0 {
		s.op = op
	} else {
		s.dead = true
	}
	s.after(o)
	var qs []string
	for _, f := range s.last.Files() {
		qs = append(qs, fmt.Sprintf("%02X", f))
	}
	s.t.R.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
	if len(qs) > 4 {
		qs = qs[:4]
	}
	if len(s.names) > 0 {
		qs = append(qs, s.names[s.t.R.Intn(len(s.names))])
	}
	s.t.Emit(s.probe(o, qs))
}

// readAll probes every file by number, and every name used.
func (s *session) readAll() {
	if s.dead {
		return
	}
	var qs []string
	for _, f := range s.last.Files() {
		qs = append(qs, fmt.Sprintf("%02X", f))
	}
	seen := map[string]bool{}
	for _, n := range s.names {
		if !seen[n] {
			seen[n] = true
			qs = append(qs, mixCase(s.t.R, n))
		}
	}
	if len(qs) > 120 {
		s.t.R.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
		qs = qs[:120]
	}
	o := kit.Obj{"ev": "reopen", "order": "none", "how": "ok", "err": 0, "ek": "none", "existed": 0}
	s.after(o)
	s.t.Emit(s.probe(o, qs))
}

func (s *session) save(level int) {
	if s.dead {
		return
	}
	s.saved[level].img = append([]byte(nil), s.bytes()...)
	s.saved[level].view = s.last
	s.t.Emit(kit.Obj{"ev": "save", "level": level})
}

// restore goes back to a saved disk, opened afresh.
func (s *session) restore(level int) {
	op, how := openBytes(s.saved[level].img)
	if how != "ok" {
		s.dead = true
		return
	}
	s.dead = false
	s.op = op
	s.last = s.saved[level].view
	s.t.Emit(kit.Obj{"ev": "restore", "level": level})
}

// fill makes contents: noise mostly, but also sectors of zeros, of $FF and of
// one value at either end, in the middle and throughout, and equal sectors.
func fill(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	set := func(lo, hi int, v byte) {
		for i := lo; i < hi && i < n; i++ {
			if i >= 0 {
				b[i] = v
			}
		}
	}
	v := []byte{0, 0, 0, 0xFF, 0x20, 0xA0}[r.Intn(6)]
	switch r.Intn(12) {
	case 0:
		set(0, n, v)
	case 1:
		set(0, 256*(1+r.Intn(3)), v)
	case 2:
		set(n-256*(1+r.Intn(3)), n, v)
	case 3:
		k := r.Intn(n/256 + 1)
		set(256*k, 256*(k+1+r.Intn(2)), v)
	case 4:
		set(n-1-r.Intn(300), n, v)
	case 5:
		for i := 256; i < n; i++ {
			b[i] = b[i-256]
		}
	case 6:
		for k := 0; k*256 < n; k += 2 {
			set(256*k, 256*(k+1), v)
		}
	default:
		if n > 0 && b[n-1] == 0 {
			b[n-1] = 1 // the last byte tells the length apart from its padding
		}
	}
	return b
}

// ---------------------------------------------------------------------------

type hop struct {
	Op   string
	Name []int
	K, V int
	Ow   bool
}

func (h hop) name() string {
	b := make([]byte, len(h.Name))
	for i, x := range h.Name {
		b[i] = byte(x)
	}
	return string(b)
}

func (s *session) do(h hop, base string) {
	name := h.name()
	if h.Op == "del" {
		s.del(name)
		return
	}
	n := 256*h.K - (h.V-1)*100
	if h.K == 0 {
		n = 0
	}
	d := make([]byte, n)
	zero := s.t.R.Intn(4) // this sector is zeros, in one version of the contents
	for i := range d {
		d[i] = byte(16*h.V + i/256 + 1)
		if h.V == 2 && i/256 == zero {
			d[i] = 0
		}
	}
	s.put(putArgs{name: name, data: d, ow: h.Ow, ftype: types.FiletypeBinary, dlen: n})
}

// generated replays the specification's histories, and after each one every
// operation of its alphabet.
func generated(c *kit.Ctx) {
	var hists [][]hop
	for _, g := range c.GenLines() {
		b, _ := json.Marshal(g["hist"])
		var hs []hop
		if err := json.Unmarshal(b, &hs); err != nil {
			panic("kit: " + err.Error())
		}
		hists = append(hists, hs)
	}
	sort.SliceStable(hists, func(i, j int) bool { return len(hists[i]) < len(hists[j]) })
	alphabet := []hop{}
	for _, n := range []string{"05", "DF85", "AAA", "bbb", "05:AAA", "DF85:aaa", "DF85:BBB", "06"} {
		alphabet = append(alphabet, hop{Op: "del", Name: kit.Str(n)})
		for _, k := range []int{0, 1, 2, 5} {
			for _, ow := range []bool{false, true} {
				alphabet = append(alphabet, hop{Op: "put", Name: kit.Str(n), K: k, V: 2, Ow: ow})
			}
		}
	}
	bases := []string{"tight", "loose"}
	per := 12
	for bi, base := range bases {
		for lo := 0; lo < len(hists); lo += per {
			hi := lo + per
			if hi > len(hists) {
				hi = len(hists)
			}
			batch := hists[lo:hi]
			base := base
			bi := bi
			c.Case("gen-"+base, func(t *kit.T) {
				img := nakfmt.Tight(t.R, base == "tight")
				s := start(t, img)
				s.save(1)
				for hn, h := range batch {
					if s.dead && hn > 0 {
						s.restore(1)
					} else if hn > 0 {
						s.restore(1)
					}
					s.names = nil
					for _, o := range h {
						s.do(o, base)
					}
					if s.dead {
						continue
					}
					s.save(2)
					for ai, o := range alphabet {
						// all of them in the thorough tier; a rotating part in the quick one
						if !t.Thorough() && (ai+hn+lo+int(t.Seed))%(6-2*bi) != 0 {
							continue
						}
						s.do(o, base)
						s.restore(2)
					}
				}
			})
		}
	}
}

// ---------------------------------------------------------------------------

var badNames = []string{"AB", "A", "ABCDEFGHIJ", "A-B", "A.BC", "AB CD", "FOO:BAR", "05:06", "05:DF10", "05:A:B", "::", "FE:ABC", "00:ABC",
	"1234567890", "123456789", "A12345678", "ABCDE1234", "ÄÖÜ", "A_B_C", ":ABC", "DFFE:ABC", "HELLO!", "05:AB", "05:TOOLONGNAME", "A:B:C", "+05", "0x05:ABC"}

// names that are hexadecimal but out of the range of file numbers, or that
// need all 48 bits, or that have digits of both kinds.
var goodNames = []string{"ABC", "FACE", "DEAD", "BEEF", "ABCDEFGHI", "ABCDEF123", "A1B2C3D", "Z99", "A00", "A45", "M5N6", "HELLO", "FHELLO", "FDEMO",
	"DFE", "DFA", "CAFE", "DF0", "QQQQQQQQQ", "ZZZZZZ999", "X04", "X59", "X95", "FE0", "ABE", "11111111", "A2345678", "0FE", "123", "888"}

func randomName(r *rand.Rand, pool []string) string {
	switch r.Intn(10) {
	case 0, 1, 2, 3:
		return pool[r.Intn(len(pool))]
	case 4, 5:
		return mixCase(r, goodNames[r.Intn(len(goodNames))])
	case 6:
		n := 3 + r.Intn(7)
		b := make([]byte, n)
		for i := range b {
			b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[r.Intn(36)]
		}
		return string(b)
	case 7:
		return badNames[r.Intn(len(badNames))]
	}
	return pool[r.Intn(len(pool))]
}

func randomNumber(r *rand.Rand) string {
	nums := []int{1, 2, 5, 6, 7, 0x85, 0x86, 0x5F, 0xDF, 0x10, 0x90, 0xFD, 0xFC, 0x7F, 0x80}
	n := nums[r.Intn(len(nums))]
	if r.Intn(3) == 0 {
		n = 1 + r.Intn(253)
	}
	if n == 3 || n == 4 {
		n = 5
	}
	switch r.Intn(4) {
	case 0:
		return fmt.Sprintf("%02X", n)
	case 1:
		return fmt.Sprintf("DF%02X", n)
	case 2:
		return fmt.Sprintf("df%02x", n)
	}
	return fmt.Sprintf("%04x", n)
}

func size(r *rand.Rand, free int) int {
	edge := []int{1, 255, 256, 257, 511, 512, 513, 1024, 4096, 2000, 8192}
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return free * 256
	case 2:
		return free*256 + 1
	case 3:
		if free > 0 {
			return free*256 - 255
		}
		return 256
	case 4:
		return 1 + r.Intn(20000)
	}
	return edge[r.Intn(len(edge))]
}

func (s *session) random(steps int, pool []string) {
	r := s.t.R
	for i := 0; i < steps && !s.dead; i++ {
		var name string
		switch r.Intn(5) {
		case 0, 1:
			name = randomName(r, pool)
		case 2:
			name = randomNumber(r)
		default:
			name = randomNumber(r) + ":" + randomName(r, pool)
		}
		switch k := r.Intn(20); {
		case k < 12:
			d := fill(r, size(r, s.last.Free()))
			if r.Intn(8) == 0 { // what a file holds already, or nearly
				if fs := s.last.Files(); len(fs) > 0 {
					if old := s.last.Data(fs[r.Intn(len(fs))]); len(old) > 0 {
						d = old
						d[r.Intn(len(d))] ^= byte(r.Intn(2))
					}
				}
			}
			a := putArgs{name: name, data: d, ow: r.Intn(3) > 0, ftype: types.FiletypeBinary, dlen: len(d)}
			if r.Intn(15) == 0 {
				a.ftype = []types.Filetype{types.FiletypeASCIIText, types.FiletypeApplesoftBASIC, types.FiletypeTypeless, types.FiletypeNewB}[r.Intn(4)]
			}
			if r.Intn(15) == 0 {
				a.dlen += []int{-1, 1, 256, -len(d)}[r.Intn(4)]
			}
			s.put(a)
		case k < 17:
			if r.Intn(3) > 0 && len(s.names) > 0 {
				name = mixCase(r, s.names[r.Intn(len(s.names))])
			} else if r.Intn(2) == 0 {
				name = randomNumber(r)
			} else {
				name = randomName(r, pool)
			}
			if n := nakfmt.Number(name); n == 3 || n == 4 {
				continue
			}
			s.del(name)
		case k < 19:
			s.reopen([]types.DiskOrder{types.DiskOrderDO, types.DiskOrderPO}[r.Intn(2)])
		default:
			s.readAll()
		}
	}
	s.reopen(types.DiskOrderPO)
	s.readAll()
}

func randomHistories(c *kit.Ctx) {
	imgs := []string{"Super-Mon-2.0.dsk", "chacha20.dsk"}
	pool := []string{"AAA", "BBB", "FHELLO", "FDEMO", "HELLO", "NAME1", "ZED99"}
	for i := 0; i < c.N(120, 1200); i++ {
		i := i
		c.Case("rand", func(t *kit.T) {
			r := t.R
			var img []byte
			steps := 25
			p := append([]string(nil), pool...)
			switch i % 6 {
			case 0:
				img = nakfmt.Real(t.Ctx, imgs[r.Intn(len(imgs))])
				// names that are already on the disk, whatever they mean
				v := nakfmt.Look(kit.NewInterner(), img)
				ns := v.FileNames()
				for k := 0; k < 4 && len(ns) > 0; k++ {
					p = append(p, ns[r.Intn(len(ns))])
				}
			case 1:
				img = nakfmt.Blank(r, nakfmt.Opts{Symbols: true})
			case 2:
				img = nakfmt.Blank(r, nakfmt.Opts{Symbols: true, FreeSectors: 3 + r.Intn(12), Scatter: true, LiveSyms: r.Intn(40)})
			case 3:
				img = nakfmt.Blank(r, nakfmt.Opts{Symbols: true, FreeSectors: 20 + r.Intn(200), Scatter: true, FreeSlots: 1 + r.Intn(3), LiveSyms: -1})
			case 4:
				img = nakfmt.Blank(r, nakfmt.Opts{Symbols: true, FreeSectors: 10 + r.Intn(100), UsedFiles: 253 - 2 - r.Intn(4), LiveSyms: r.Intn(30)})
			case 5:
				img = nakfmt.Blank(r, nakfmt.Opts{Symbols: false, FreeSectors: 5 + r.Intn(200), Scatter: true, UsedFiles: r.Intn(30)})
			}
			s := start(t, img)
			s.random(steps, p)
		})
	}
}

// outOfRange deletes and puts by numbers that are no file's.
func outOfRange(c *kit.Ctx) {
	for i := 0; i < 2; i++ {
		i := i
		c.Case("range", func(t *kit.T) {
			s := start(t, nakfmt.Blank(t.R, nakfmt.Opts{Symbols: i == 0, FreeSectors: 60, Scatter: true, UsedFiles: 20}))
			for _, n := range []string{"DFFE", "FE", "dfff", "FF", "DF00", "00", "0", "00FE", "00ff", "E000", "DEFE", "DE05", "FFFE", "FFFF", "0100", "01FE", "10005"} {
				if s.dead {
					return
				}
				s.del(n)
				if s.dead {
					return
				}
				d := fill(t.R, 300)
				s.put(putArgs{name: n, data: d, ow: true, ftype: types.FiletypeBinary, dlen: len(d)})
			}
			s.reopen(types.DiskOrderDO)
			s.readAll()
		})
	}
}

// ---------------------------------------------------------------------------

// symbolOps works on the symbol table directly.
func symbolOps(c *kit.Ctx) {
	for i := 0; i < c.N(60, 500); i++ {
		i := i
		c.Case("sym", func(t *kit.T) {
			r := t.R
			var img []byte
			switch i % 4 {
			case 0:
				img = nakfmt.Real(t.Ctx, []string{"Super-Mon-2.0.dsk", "chacha20.dsk"}[r.Intn(2)])
			case 1:
				img = nakfmt.Blank(r, nakfmt.Opts{Symbols: true, FreeSectors: r.Intn(40), Scatter: true})
			case 2:
				img = nakfmt.Blank(r, nakfmt.Opts{Symbols: true, LiveSyms: r.Intn(60), OneClass: r.Intn(2) == 0})
			case 3:
				img = nakfmt.Blank(r, nakfmt.Opts{Symbols: true, FreeSlots: 1 + r.Intn(3), LiveSyms: -1})
			}
			s := start(t, img)
			if s.dead {
				return
			}
			data := append([]byte(nil), img...)
			var sm supermon.SectorMap
			var st supermon.SymbolTable
			load := func() bool {
				return kit.Outcome(func() {
					var err error
					if sm, err = supermon.LoadSectorMap(data); err == nil {
						st, err = sm.ReadSymbolTable(data)
					}
					if err != nil {
						panic(err.Error())
					}
				}) == "ok"
			}
			if !load() {
				t.Emit(kit.Obj{"ev": "died", "how": "could not read the table", "msg": kit.LastPanic})
				return
			}
			pool := []string{"AAA", "BBB", "CCC", "DDD", "EEE", "FFF", "HELLO", "ZZZ99"}
			for k := 0; k < 3; k++ {
				if ns := s.last.Names(); len(ns) > 0 {
					pool = append(pool, ns[r.Intn(len(ns))])
				}
			}
			// a few addresses in few hash classes, hash 0 among them
			addrs := []int{0xDF5F, 0xDFDF, 0xDF05, 0xDF85, 0x0101, 0x8080, 0x7A20, 0xDF06, 0x0001, 0xFFFF, 0x1234}
			for k := 0; k < 40; k++ {
				n := mixCase(r, pool[r.Intn(len(pool))])
				o := kit.Obj{"name": kit.Str(n), "err": 0, "ek": "none", "existed": 0, "gets": []interface{}{}, "cats": []interface{}{}}
				var err error
				if r.Intn(5) < 3 {
					a := addrs[r.Intn(len(addrs))]
					if r.Intn(20) == 0 {
						a = 0
					}
					o["ev"], o["addr"] = "sadd", a
					o["how"] = kit.Outcome(func() {
						err = st.AddSymbol(n, uint16(a))
						o["err"] = kit.ErrFlag(err)
					})
				} else {
					o["ev"] = "sdel"
					o["how"] = kit.Outcome(func() { o["existed"] = kit.B(st.DeleteSymbol(n)) })
				}
				if o["how"] == "ok" {
					o["how"] = kit.Outcome(func() {
						if e := sm.WriteSymbolTable(data, st); e != nil {
							o["err"] = 1
						}
					})
				}
				v := nakfmt.LookAfter(t.Int, data, s.last)
				v.Diff(s.last, o)
				s.last = v
				if o["how"] == "ok" {
					rb := []interface{}{}
					o["rberr"] = 0
					how := kit.Outcome(func() {
						sm2, e1 := supermon.LoadSectorMap(data)
						st2, e2 := sm2.ReadSymbolTable(data)
						if e1 != nil || e2 != nil {
							o["rberr"] = 1
							return
						}
						for i, sym := range st2 {
							if sym.Address != 0 {
								rb = append(rb, []interface{}{i, sym.Address, sym.Link, kit.Str(sym.Name)})
							}
						}
					})
					if how != "ok" {
						o["rberr"] = 1
					}
					if k%4 == 3 || o["rberr"] == 1 {
						o["rb"] = rb
					} else {
						delete(o, "rberr")
					}
				}
				t.Emit(o)
				if o["how"] != "ok" || o["rberr"] == 1 {
					return
				}
				if r.Intn(4) == 0 && !load() {
					t.Emit(kit.Obj{"ev": "died", "how": "could not read the table", "msg": kit.LastPanic})
					return
				}
			}
		})
	}
}

func main() {
	kit.Main(func(c *kit.Ctx) {
		if c.Prop != "C09" || true {
			generated(c)
			randomHistories(c)
			outOfRange(c)
		}
		if c.Prop == "" || c.Prop == "C09" {
			symbolOps(c)
		}
	})
}
