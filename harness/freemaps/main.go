// Command freemaps drives free-space maps and index blocks (C21).
package main

import (
	"bytes"

	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/zz_verif/kit"
)

type mark struct {
	block int
	free  bool
}

// history makes a bitmap of n blocks, marks blocks and writes it out.
func history(t *kit.T, n, start int, marks []mark) {
	var vbm prodos.VolumeBitMap
	not := func() []int {
		r := []int{}
		for b := 0; b < n; b++ {
			if !vbm.IsFree(uint16(b)) {
				if r = append(r, b); len(r) > 2000 {
					break
				}
			}
		}
		return r
	}
	o := kit.Obj{"ev": "new", "n": n, "start": start, "not": []int{}}
	o["how"] = kit.Outcome(func() {
		vbm = prodos.NewVolumeBitMap(uint16(start), uint16(n))
		o["not"] = not()
	})
	t.Emit(o)
	if o["how"] != "ok" {
		return
	}
	write := func() {
		nb := (n + 4095) / 4096
		orig := make([]byte, (start+nb+2)*512)
		t.R.Read(orig)
		dev := append([]byte(nil), orig...)
		o := kit.Obj{"ev": "write", "err": 0, "runs": [][2]int{}, "others": []int{}}
		o["how"] = kit.Outcome(func() {
			if vbm.Write(dev) != nil {
				o["err"] = 1
			}
			o["runs"] = kit.RLE(dev[start*512 : (start+nb)*512])
		})
		others := []int{}
		for u := 0; u < len(orig)/512; u++ {
			if (u < start || u >= start+nb) && !bytes.Equal(orig[u*512:u*512+512], dev[u*512:u*512+512]) {
				others = append(others, u)
			}
		}
		o["others"] = others
		t.Emit(o)
	}
	if t.R.Intn(3) == 0 {
		write()
	}
	for _, m := range marks {
		o := kit.Obj{"ev": "mark", "block": m.block, "free": kit.B(m.free), "not": []int{}}
		o["how"] = kit.Outcome(func() {
			if m.free {
				vbm.MarkUnused(uint16(m.block))
			} else {
				vbm.MarkUsed(uint16(m.block))
			}
			o["not"] = not()
		})
		t.Emit(o)
		if o["how"] != "ok" {
			return
		}
	}
	write()
}

// interesting picks k different blocks of a volume of n.
func interesting(t *kit.T, n, k int) []int {
	cand := []int{0, n - 1, 1, 7, 8, n - 2, n / 2, 4095, 4096, 255, 256, 8191, 32767, 32768, 61439, 61440, 65534, 511 * 8}
	seen := map[int]bool{}
	var r []int
	t.R.Shuffle(len(cand), func(i, j int) { cand[i], cand[j] = cand[j], cand[i] })
	for _, b := range cand {
		if b >= 0 && b < n && !seen[b] && len(r) < k && t.R.Intn(3) != 0 {
			seen[b] = true
			r = append(r, b)
		}
	}
	for len(r) < k {
		b := t.R.Intn(n)
		if n < k || !seen[b] {
			seen[b] = true
			r = append(r, b)
		}
	}
	return r
}

func startFor(t *kit.T, n int) int {
	if t.R.Intn(8) == 0 {
		return 65535 - (n+4095)/4096 - t.R.Intn(4)
	}
	return t.R.Intn(40)
}

func table(t *kit.T, steps int) {
	var ib prodos.IndexBlock
	if t.R.Intn(4) != 0 {
		t.R.Read(ib[:])
	}
	look := func(o kit.Obj) {
		gets := []int{}
		how := kit.Outcome(func() {
			for s := 0; s < 256; s++ {
				gets = append(gets, int(ib.Get(byte(s))))
			}
		})
		if o["how"] == "ok" {
			o["how"] = how
		}
		for len(gets) < 256 {
			gets = append(gets, -1)
		}
		o["gets"], o["data"] = gets, kit.Ints(ib[:])
		t.Emit(o)
	}
	look(kit.Obj{"ev": "table", "init": kit.Ints(ib[:]), "how": "ok"})
	for i := 0; i < steps; i++ {
		s := t.R.Intn(256)
		if t.R.Intn(4) == 0 {
			s = []int{0, 1, 127, 128, 254, 255}[t.R.Intn(6)]
		}
		v := t.R.Intn(65536)
		if t.R.Intn(3) == 0 {
			v = []int{0, 1, 255, 256, 32767, 32768, 65280, 65535}[t.R.Intn(8)]
		}
		o := kit.Obj{"ev": "slot", "slot": s, "v": v}
		o["how"] = kit.Outcome(func() { ib.Set(byte(s), uint16(v)) })
		look(o)
	}
}

func sectors(t *kit.T, b0 int) {
	o := kit.Obj{"ev": "sectors", "b0": b0}
	masks := make([]int, 256)
	above := 0
	o["how"] = kit.Outcome(func() {
		for k := range masks {
			m := dos3.TrackFreeSectors{byte(b0), byte(k), byte(t.R.Intn(256)), byte(t.R.Intn(256))}
			for s := 0; s < 256; s++ {
				if m.IsFree(byte(s)) {
					if s < 16 {
						masks[k] |= 1 << s
					} else {
						above++
					}
				}
			}
		}
	})
	o["masks"], o["above"] = masks, above
	t.Emit(o)
}

var sizes = []int{1, 7, 8, 9, 279, 280, 1600, 4095, 4096, 4097, 8192, 8193, 32767, 32768, 32769, 61439, 61440, 61441, 65527, 65534, 65535}

func main() {
	kit.Main(func(c *kit.Ctx) {
		c.Case("empty", func(t *kit.T) { history(t, 0, 6, nil) })
		for b0 := 0; b0 < 256; b0 += 16 {
			b0 := b0
			c.Case("sectors", func(t *kit.T) {
				for i := 0; i < 16; i++ {
					sectors(t, b0+i)
				}
			})
		}
		for i := 0; i < c.N(40, 600); i++ {
			c.Case("table", func(t *kit.T) { table(t, 20) })
		}
		// Histories generated by TLC over a few blocks, laid on real blocks.
		for k, g := range c.GenLines() {
			ms, ok := g["marks"].([]interface{})
			if !ok {
				continue
			}
			k := k
			c.Case("generated", func(t *kit.T) {
				n := sizes[k%len(sizes)]
				if k%len(sizes) < 4 && k%2 == 0 {
					n = 10 + t.R.Intn(65526)
				}
				bs := interesting(t, n, 8)
				var marks []mark
				for _, x := range ms {
					p := x.([]interface{})
					marks = append(marks, mark{bs[int(p[0].(float64))], p[1].(float64) == 1})
				}
				history(t, n, startFor(t, n), marks)
			})
		}
		for i := 0; i < c.N(60, 1500); i++ {
			c.Case("random", func(t *kit.T) {
				n := 1 + t.R.Intn(65535)
				if t.R.Intn(2) == 0 {
					n = 1 + t.R.Intn(700)
				}
				var marks []mark
				bs := interesting(t, n, 30)
				for k := 0; k < 25; k++ {
					b := bs[t.R.Intn(30)]
					if t.R.Intn(3) == 0 && b+1 < n {
						b++
					}
					marks = append(marks, mark{b, t.R.Intn(3) == 0})
				}
				history(t, n, startFor(t, n), marks)
			})
		}
	})
}
