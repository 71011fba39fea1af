// Command lookups reads symbol tables and sector maps, and asks them all
// kinds of questions (C27).
package main

import (
	"bytes"
	"sort"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/errors"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/zz_verif/kit"
	"github.com/zellyn/diskii/zz_verif/nakfmt"
)

const (
	slots  = 819
	mapOfs = 9*256 + 0xD0
)

// memory is a symbol table as stored: by slot, five bytes of file 3 and five
// of file 4.
type memory map[int][10]byte

func (m memory) put(slot, addr, link int, six [6]byte) {
	m[slot] = [10]byte{byte(addr), byte(addr >> 8), byte(link), byte(link >> 8), six[5], six[0], six[1], six[2], six[3], six[4]}
}

func (m memory) list() [][]interface{} {
	r := [][]interface{}{}
	for i := 0; i < slots; i++ {
		if x, ok := m[i]; ok {
			r = append(r, []interface{}{i, kit.Ints(x[:5]), kit.Ints(x[5:])})
		}
	}
	return r
}

func pack(name string) (six [6]byte) {
	var v uint64
	for i := len(name) - 1; i >= 0; i-- {
		if c := name[i]; c >= 'A' && c <= 'Z' {
			v = v<<5 | uint64(c-'@')
		} else {
			d := uint64(c - '0')
			v = v<<6 | (d/5)<<5 | (27 + d%5)
		}
	}
	for i := range six {
		six[i] = byte(v >> (8 * i))
	}
	return six
}

func hash(a int) int { return (a ^ a>>8) & 127 }

// image makes a disk with the table in files of n3 and n4 sectors.
func image(t *kit.T, m memory, n3, n4 int) []byte {
	img := make([]byte, nakfmt.Size)
	t.R.Read(img)
	own := img[mapOfs : mapOfs+560]
	for i := range own {
		own[i] = 255
		if i < 12 {
			own[i] = 254
		}
	}
	p := t.R.Perm(548)[:n3+n4]
	for i, k := range p {
		own[12+k] = 3
		if i >= n3 {
			own[12+k] = 4
		}
	}
	for i := range own {
		if own[i] == 255 && t.R.Intn(3) == 0 {
			own[i] = byte(5 + t.R.Intn(249))
		}
	}
	t1, t2 := make([]byte, 256*40), make([]byte, 256*40)
	t1[4095], t2[4095] = byte(t.R.Intn(256)), byte(t.R.Intn(256))
	for s, x := range m {
		copy(t1[5*s:], x[:5])
		copy(t2[5*s:], x[5:])
	}
	for i, f := range own {
		switch f {
		case 3:
			copy(img[256*i:256*i+256], t1)
			t1 = t1[256:]
		case 4:
			copy(img[256*i:256*i+256], t2)
			t2 = t2[256:]
		}
	}
	return img
}

// stored is the table an image holds.
func stored(img []byte) memory {
	var t1, t2 []byte
	for i, f := range img[mapOfs : mapOfs+560] {
		switch f {
		case 3:
			t1 = append(t1, img[256*i:256*i+256]...)
		case 4:
			t2 = append(t2, img[256*i:256*i+256]...)
		}
	}
	m := memory{}
	if len(t1) < 4096 || len(t2) < 4096 {
		return m
	}
	for s := 0; s < slots; s++ {
		if t1[5*s] != 0 || t1[5*s+1] != 0 {
			var x [10]byte
			copy(x[:], t1[5*s:5*s+5])
			copy(x[5:], t2[5*s:5*s+5])
			m[s] = x
		}
	}
	return m
}

func sym(s supermon.Symbol) []interface{} {
	return []interface{}{int(s.Address), s.Link, kit.Str(s.Name)}
}

func syms(l []supermon.Symbol) []interface{} {
	r := []interface{}{}
	for _, s := range l {
		r = append(r, sym(s))
	}
	return r
}

// read reads the table of an image and records what came of it.
func read(t *kit.T, m memory, n3, n4 int) (img []byte, sm supermon.SectorMap, st supermon.SymbolTable, ok bool) {
	img = image(t, m, n3, n4)
	before := append([]byte(nil), img...)
	o := kit.Obj{"ev": "table", "raw": m.list(), "n3": n3, "n4": n4, "err": 1, "len": 0}
	got := [][]interface{}{}
	o["how"] = kit.Outcome(func() {
		var err error
		sm, err = supermon.LoadSectorMap(img)
		if err != nil {
			panic(err)
		}
		st, err = sm.ReadSymbolTable(img)
		o["err"] = kit.ErrFlag(err)
		ok = err == nil
		if ok {
			o["len"] = len(st)
			for i, s := range st {
				if s.Address != 0 {
					got = append(got, append([]interface{}{i}, sym(s)...))
				}
			}
		}
	})
	o["got"], o["same"] = got, kit.B(bytes.Equal(before, img))
	t.Emit(o)
	return
}

// write puts the table on the same or another disk.
func write(t *kit.T, st supermon.SymbolTable, img []byte) {
	to := append([]byte(nil), img...)
	before := append([]byte(nil), to...)
	o := kit.Obj{"ev": "write", "err": 1}
	o["how"] = kit.Outcome(func() {
		sm, err := supermon.LoadSectorMap(to)
		if err != nil {
			panic(err)
		}
		o["err"] = kit.ErrFlag(sm.WriteSymbolTable(to, st))
	})
	n := 0 // what changed elsewhere
	mine := func(f byte) bool { return f == 3 || f == 4 }
	own, now := before[mapOfs:mapOfs+560], to[mapOfs:mapOfs+560]
	for i := range to {
		switch k := i - mapOfs; {
		case to[i] == before[i]:
		case k >= 0 && k < 560:
			if !mine(own[k]) && own[k] != 255 || !mine(now[k]) && now[k] != 255 {
				n++
			}
		case !mine(own[i/256]) && !mine(now[i/256]):
			n++
		}
	}
	o["raw"], o["outside"], o["same"] = stored(to).list(), n, kit.B(bytes.Equal(to, before))
	t.Emit(o)
}

// ask asks for many texts.
func ask(t *kit.T, st supermon.SymbolTable, texts []string) {
	for len(texts) > 0 && !t.Over() {
		n := 50
		if n > len(texts) {
			n = len(texts)
		}
		qs := []kit.Obj{}
		o := kit.Obj{"ev": "texts"}
		o["how"] = kit.Outcome(func() {
			for _, s := range texts[:n] {
				q := kit.Obj{"s": kit.Str(s)}
				a, b, name, err := st.ParseCompoundSymbol(s)
				q["c"] = []interface{}{kit.ErrFlag(err), int(a), int(b), kit.Str(name)}
				f, g, name2, err := st.FilesForCompoundName(s)
				q["f"] = []interface{}{kit.ErrFlag(err), int(f), int(g), kit.Str(name2)}
				h, err := st.FileForName(s)
				q["n"] = []interface{}{kit.ErrFlag(err), int(h), kit.B(errors.IsFileNotFound(err)), kit.B(errors.IsFileExists(err) || errors.IsOutOfSpace(err))}
				q["a"] = int(st.ByName(s))
				qs = append(qs, q)
			}
		})
		o["qs"] = qs
		t.Emit(o)
		texts = texts[n:]
	}
}

func addresses(t *kit.T, st supermon.SymbolTable, m memory) {
	o := kit.Obj{"ev": "addresses"}
	all := [][]interface{}{}
	some := [][]interface{}{}
	names := [][]interface{}{}
	o["how"] = kit.Outcome(func() {
		by := st.SymbolsByAddress()
		keys := []int{}
		for a := range by {
			keys = append(keys, int(a))
		}
		sort.Ints(keys)
		for _, a := range keys {
			all = append(all, []interface{}{a, syms(by[uint16(a)])})
		}
		want := []int{1, 0xDF00, 0xDF01, 0xDFFD, 0xDFFE, 0xFFFF, 1 + t.R.Intn(65535)}
		for _, x := range m {
			if a := int(x[0]) + 256*int(x[1]); a != 0 {
				want = append(want, a, a%65535+1)
			}
			if len(want) > 200 {
				break
			}
		}
		sort.Ints(want)
		for _, a := range want {
			some = append(some, []interface{}{a, syms(st.SymbolsForAddress(uint16(a)))})
		}
		for f := 1; f <= 253; f++ {
			names = append(names, []interface{}{f, kit.Str(supermon.NameForFile(byte(f), st)), kit.Str(supermon.FullnameForFile(byte(f), st))})
		}
	})
	o["all"], o["some"], o["names"] = all, some, names
	t.Emit(o)
}

var words = []string{"GGG", "DDD", "D9G0", "GG", "G9G", "DEAD", "BAD", "ABCDEFGHI", "AAAA99999", "A1", "Z", "FD", "DF10", "ADD", "FACE", "99999999", "SYMBOL"}

// random makes a table; broken in one place if bad.
func random(t *kit.T, n int, bad bool) memory {
	r := t.R
	m := memory{}
	last := map[int]int{}
	addrs := map[int]int{}
	place := r.Perm(slots)[:n]
	if r.Intn(2) == 0 {
		for i := range place {
			place[i] = i
			if r.Intn(2) == 0 && n < 700 {
				place[i] = slots - 1 - i
			}
		}
	}
	used := map[int]bool{}
	var live []int
	for _, s := range place {
		if used[s] {
			continue
		}
		used[s] = true
		a := 1 + r.Intn(65535)
		switch r.Intn(6) {
		case 0, 1:
			a = 0xDF00 + 1 + r.Intn(253)
		case 2:
			a = []int{1, 0xDF00, 0xDF01, 0xDFFD, 0xDFFE, 0xDFFF, 0xFFFF, 0x100}[r.Intn(8)]
		case 3:
			if len(live) > 0 { // an address that is there
				a = addrs[live[r.Intn(len(live))]]
			}
		}
		var six [6]byte
		switch r.Intn(10) {
		case 0:
			r.Read(six[:])
		case 1, 2, 3:
			six = pack(words[r.Intn(len(words))])
		default:
			b := make([]byte, 1+r.Intn(9))
			for i := range b {
				b[i] = byte('A' + r.Intn(26))
				if r.Intn(5) == 0 && len(b) < 9 {
					b[i] = byte('0' + r.Intn(10))
				}
			}
			six = pack(string(b))
		}
		link := 0
		if p, ok := last[hash(a)]; ok && r.Intn(4) > 0 {
			link = 0xD000 + 5*p
		}
		last[hash(a)] = s
		addrs[s] = a
		live = append(live, s)
		m.put(s, a, link, six)
	}
	for i := 0; i < 5; i++ { // remains in empty slots
		s := r.Intn(slots)
		if !used[s] {
			m.put(s, 0, r.Intn(65536), pack("GGG"))
		}
	}
	if bad && len(live) > 0 {
		s := live[r.Intn(len(live))]
		x := m[s]
		l := 0
		switch r.Intn(7) {
		case 6: // an address that differs in one bit, or in two that cancel out
			for _, u := range live {
				if u == s {
					continue
				}
				l = 0xD000 + 5*u
				y := m[u]
				y[0], y[1], y[2], y[3] = x[0], x[1], 0, 0
				y[r.Intn(2)] ^= 1 << r.Intn(8)
				if r.Intn(3) == 0 {
					k := byte(1) << r.Intn(8)
					y[0], y[1] = y[0]^k, y[1]^k
				}
				if y[0] != 0 || y[1] != 0 {
					m[u] = y
				}
				break
			}
		case 0:
			l = 0xD000 + 5*s // itself
		case 1:
			l = 0xD000 + 5*live[r.Intn(len(live))] // any
		case 2:
			l = 0xD000 + r.Intn(4096)
		case 3:
			l = 1 + r.Intn(65535)
		case 4:
			l = []int{0xCFFB, 0xCFFF, 0xDFFF, 0xDFFA, 0xDFFB, 0xDFFE, 0xE000, 0xE001, 0xFFFF, 1, 5, 0x00D0}[r.Intn(12)]
		case 5:
			l = 0xD000 + 5*r.Intn(slots)
		}
		x[2], x[3] = byte(l), byte(l>>8)
		m[s] = x
	}
	return m
}

// The tables of the model of texts.
func modelTable(k int) memory {
	m := memory{}
	switch k {
	case 1:
		m.put(0, 57090, 0, pack("GGG"))
		m.put(2, 4660, 0, pack("DDD"))
		m.put(3, 57341, 0, pack("D9G0"))
		m.put(5, 57091, 0, pack("GGG"))
	case 2:
		m.put(1, 57342, 0, pack("G9G"))
		m.put(4, 1, 0, pack("GG"))
	}
	return m
}

func sectorMap(t *kit.T, own []byte) {
	r := t.R
	img := make([]byte, nakfmt.Size)
	r.Read(img)
	copy(img[mapOfs:], own)
	o := kit.Obj{"ev": "map", "map": kit.Ints(own), "first": -1, "free": -1, "verify": -1}
	files, owners, sets, del := [][]interface{}{}, [][]int{}, [][]interface{}{}, [][]interface{}{}
	by := [][]interface{}{}
	places := func(l []disk.TrackSector) []int {
		x := []int{}
		for _, ts := range l {
			x = append(x, 16*int(ts.Track)+int(ts.Sector)+1)
		}
		return x
	}
	o["how"] = kit.Outcome(func() {
		sm, err := supermon.LoadSectorMap(img)
		if err != nil {
			panic(err)
		}
		o["first"], o["free"], o["verify"] = int(sm.FirstFreeFile()), sm.FreeSectors(), 1-kit.ErrFlag(sm.Verify())
		for _, f := range []int{0, 1, 2, 253, 254, 255, r.Intn(256), int(own[r.Intn(560)]), int(own[r.Intn(560)])} {
			files = append(files, []interface{}{f, places(sm.SectorsForFile(byte(f)))})
		}
		all := sm.SectorsByFile()
		keys := []int{}
		for f := range all {
			keys = append(keys, int(f))
		}
		sort.Ints(keys)
		for _, f := range keys {
			by = append(by, []interface{}{f, places(all[byte(f)])})
		}
		telling := []int{0, 1, 7, 15, 16, 17, 33, 34, 35, 36, 127, 128, 254, 255}
		for i := 0; i < 30; i++ {
			a, b := telling[r.Intn(len(telling))], telling[r.Intn(len(telling))]
			if i%2 == 0 {
				a, b = r.Intn(35), r.Intn(16)
			}
			owners = append(owners, []int{a, b, int(sm.FileForSector(byte(a), byte(b)))})
			f := []int{0, 1, 2, 100, 252, 253, 254, 255}[r.Intn(8)]
			c := append(supermon.SectorMap(nil), sm...)
			err := c.SetFileForSector(byte(a), byte(b), byte(f))
			sets = append(sets, []interface{}{a, b, f, kit.ErrFlag(err), diff(sm, c)})
		}
		for i := 0; i < 3; i++ {
			f := int(own[r.Intn(560)])
			if i == 2 {
				f = 1 + r.Intn(253)
			}
			if f < 1 || f > 253 {
				continue
			}
			c := append(supermon.SectorMap(nil), sm...)
			c.Delete(byte(f))
			del = append(del, []interface{}{f, diff(sm, c)})
		}
	})
	o["files"], o["by"], o["owners"], o["sets"], o["del"] = files, by, owners, sets, del
	t.Emit(o)

	// Saving a map onto another disk.
	to := make([]byte, nakfmt.Size)
	r.Read(to)
	before := append([]byte(nil), to...)
	o = kit.Obj{"ev": "save", "err": 1, "from": kit.Ints(own), "loaded": []int{}}
	o["how"] = kit.Outcome(func() {
		sm, err := supermon.LoadSectorMap(img)
		if err != nil {
			panic(err)
		}
		o["err"] = kit.ErrFlag(sm.Persist(to))
		again, err := supermon.LoadSectorMap(to)
		if err != nil {
			panic(err)
		}
		o["loaded"] = kit.Ints(again)
	})
	n := 0
	for i := range to {
		if to[i] != before[i] && (i < mapOfs || i >= mapOfs+560) {
			n++
		}
	}
	o["outside"], o["stored"] = n, kit.Ints(to[mapOfs:mapOfs+560])
	t.Emit(o)
}

func diff(a, b []byte) [][]int {
	r := [][]int{}
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			x := -1
			if i < len(b) {
				x = int(b[i])
			}
			r = append(r, []int{i + 1, x})
		}
	}
	return r
}

func randomMap(t *kit.T) []byte {
	r := t.R
	own := make([]byte, 560)
	for i := range own {
		own[i] = 255
		if i < 12 {
			own[i] = 254
		}
	}
	switch r.Intn(5) {
	case 0: // crowded: all numbers but a few
		skip := map[int]bool{}
		for i := r.Intn(3); i > 0; i-- {
			skip[[]int{1, 2, 3, 100, 251, 252, 253}[r.Intn(7)]] = true
		}
		p := r.Perm(548)
		n := 0
		for f := 1; f <= 253; f++ {
			if !skip[f] {
				own[12+p[n]] = byte(f)
				n++
			}
		}
	case 1:
		r.Read(own)
	case 2:
		for i := 12; i < 560; i++ {
			own[i] = byte(1 + r.Intn(254))
		}
	default:
		for i := 12; i < 560; i++ {
			if r.Intn(3) > 0 {
				own[i] = byte(1 + r.Intn(1+r.Intn(20)))
			}
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		own[r.Intn(560)] = []byte{0, 253, 254, 255, 1}[r.Intn(5)]
	}
	if r.Intn(3) == 0 {
		own[r.Intn(14)] = byte(250 + r.Intn(6))
	}
	return own
}

func main() {
	kit.Main(func(c *kit.Ctx) {
		var texts []string
		var mems [][][]int
		for _, g := range c.GenLines() {
			if m, ok := g["text"].(map[string]interface{}); ok {
				b := []byte{}
				for _, x := range m["s"].([]interface{}) {
					b = append(b, byte(x.(float64)))
				}
				texts = append(texts, string(b))
			}
			if m, ok := g["memory"].(map[string]interface{}); ok {
				var mem [][]int
				for _, x := range m["slots"].([]interface{}) {
					y := x.([]interface{})
					mem = append(mem, []int{int(y[0].(float64)), int(y[1].(float64))})
				}
				mems = append(mems, mem)
			}
		}
		sort.Strings(texts)
		// All short texts, asked of the model's tables and of others.
		for k := 0; k < 3; k++ {
			for at := 0; at < len(texts); at += 1000 {
				k, at := k, at
				c.Case("texts", func(t *kit.T) {
					_, _, st, ok := read(t, modelTable(k), 16, 16)
					if !ok {
						return
					}
					end := at + 1000
					if end > len(texts) {
						end = len(texts)
					}
					l := texts[at:end]
					if !t.Thorough() && k != 1 {
						l = append([]string{}, l...)
						t.R.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
						l = l[:len(l)/8]
					}
					ask(t, st, l)
				})
			}
		}
		// Small memories, at either end of the table.
		names := []string{"GGG", "D09", ""}
		for at := 0; at < len(mems); at += 200 {
			at := at
			c.Case("memories", func(t *kit.T) {
				for i := at; i < at+200 && i < len(mems); i++ {
					if !t.Thorough() && t.R.Intn(16) > 0 {
						continue
					}
					base := 816
					if t.R.Intn(2) == 0 {
						base = 0
					}
					m := memory{}
					for j, x := range mems[i] {
						l := x[1]
						if l >= 0xD000 {
							l += 5 * base
						}
						if x[0] != 0 || l != 0 {
							m.put(base+j, x[0], l, pack(names[j]))
						}
					}
					read(t, m, 16, 16)
				}
			})
		}
		// Random tables.
		for i := 0; i < c.N(64, 1500); i++ {
			i := i
			c.Case("tables", func(t *kit.T) {
				r := t.R
				n := []int{1, 3, 10, 40, 200, 819}[r.Intn(6)]
				m := random(t, n, i%2 == 0)
				n3, n4 := 16, 16
				if i%12 == 5 {
					n3, n4 = []int{0, 15, 16, 17, 32}[r.Intn(5)], []int{0, 15, 16, 17, 32}[r.Intn(5)]
				}
				img, _, st, ok := read(t, m, n3, n4)
				if !ok {
					return
				}
				addresses(t, st, m)
				var l []string
				for _, s := range st {
					if s.Address != 0 && s.Name != "" && len(l) < 60 {
						b := []byte(s.Name)
						for k := range b {
							if r.Intn(2) == 0 && b[k] >= 'A' {
								b[k] += 32
							}
						}
						l = append(l, string(b), "1f:"+s.Name, "DF10:"+string(b), s.Name+"A", s.Name[1:], string(b)+":"+s.Name)
					}
				}
				for k := 0; k < 60 && len(texts) > 0; k++ {
					l = append(l, texts[r.Intn(len(texts))])
				}
				for _, w := range words {
					l = append(l, w)
				}
				ask(t, st, l)
				write(t, st, img)
				if r.Intn(2) == 0 {
					write(t, st, image(t, random(t, 100, false), 16, 16))
				}
			})
		}
		// The real ones.
		for _, n := range []string{"chacha20.dsk"} {
			n := n
			c.Case("real", func(t *kit.T) {
				img := nakfmt.Real(t.Ctx, n)
				m := stored(img)
				o := kit.Obj{"ev": "table", "raw": m.list(), "n3": 16, "n4": 16, "err": 1, "len": 0, "same": 1}
				got := [][]interface{}{}
				var st supermon.SymbolTable
				o["how"] = kit.Outcome(func() {
					sm, err := supermon.LoadSectorMap(img)
					if err != nil {
						panic(err)
					}
					st, err = sm.ReadSymbolTable(img)
					o["err"] = kit.ErrFlag(err)
					o["len"] = len(st)
					for i, s := range st {
						if s.Address != 0 {
							got = append(got, append([]interface{}{i}, sym(s)...))
						}
					}
				})
				o["got"] = got
				t.Emit(o)
				if st != nil {
					addresses(t, st, m)
					var l []string
					for _, s := range st {
						if s.Address != 0 {
							l = append(l, s.Name)
						}
					}
					ask(t, st, l)
					write(t, st, img)
				}
			})
		}
		// Every place of a good map spoiled.
		for at := 0; at < 560; at += 80 {
			at := at
			c.Case("verify", func(t *kit.T) {
				own := make([]byte, 560)
				for i := range own {
					own[i] = byte(1 + t.R.Intn(255))
					if i < 12 {
						own[i] = 254
					}
				}
				spoils := [][]int{}
				o := kit.Obj{"ev": "verify", "map": kit.Ints(own)}
				o["how"] = kit.Outcome(func() {
					for p := at; p < at+80; p++ {
						for _, v := range []int{0, 1, 3, 127, 252, 253, 254, 255} {
							m := supermon.SectorMap(append([]byte(nil), own...))
							m[p] = byte(v)
							spoils = append(spoils, []int{p + 1, v, 1 - kit.ErrFlag(m.Verify())})
						}
					}
				})
				o["spoils"] = spoils
				t.Emit(o)
			})
		}
		for i := 0; i < c.N(80, 4000); i++ {
			c.Case("map", func(t *kit.T) {
				for k := 0; k < 4; k++ {
					sectorMap(t, randomMap(t))
				}
			})
		}
	})
}
