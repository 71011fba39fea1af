// Command applesoft drives the decoding of Applesoft programs (C16).
package main

import (
	"fmt"
	"path/filepath"

	"github.com/zellyn/diskii/basic"
	asoft "github.com/zellyn/diskii/basic/applesoft"
	"github.com/zellyn/diskii/zz_verif/kit"
)

type line struct {
	num  int
	text []byte
}

// stored lays lines at a location, in memory order perm (nil: in sequence).
func stored(lines []line, loc int, perm []int) []byte {
	n := len(lines)
	if perm == nil {
		for i := range lines {
			perm = append(perm, i)
		}
	}
	at := make([]int, n+1)
	pos := loc
	var order []int
	// line 0 must come first, as the walk starts at the location
	for _, p := range perm {
		if p == 0 {
			order = append([]int{0}, order...)
		} else {
			order = append(order, p)
		}
	}
	for _, p := range order {
		at[p] = pos
		pos += 5 + len(lines[p].text)
	}
	at[n] = pos
	var b []byte
	for _, p := range order {
		nx := at[p+1]
		b = append(b, byte(nx), byte(nx>>8), byte(lines[p].num), byte(lines[p].num>>8))
		b = append(b, lines[p].text...)
		b = append(b, 0)
	}
	return append(b, 0, 0)
}

func lines(l asoft.Listing) []kit.Obj {
	r := []kit.Obj{}
	for _, x := range l {
		r = append(r, kit.Obj{"num": x.Num, "text": kit.Ints(x.Bytes)})
	}
	return r
}

func decode(t *kit.T, raw []byte, loc int) {
	o := kit.Obj{"ev": "decode", "raw": kit.Ints(raw), "loc": loc, "err": 0, "lines": []kit.Obj{}, "listing": []int{}}
	o["how"] = kit.Outcome(func() {
		l, err := asoft.Decode(append([]byte(nil), raw...), uint16(loc))
		if err != nil {
			o["err"] = 1
			return
		}
		o["lines"], o["listing"] = lines(l), kit.Str(l.String())
	})
	t.Emit(o)
}

func show(t *kit.T, raw []byte, loc int) {
	dir := t.Tmp()
	args := []string{"applesoft", "decode"}
	rawopt := t.R.Intn(2) == 0
	if rawopt {
		args = append(args, []string{"--raw", "-r"}[t.R.Intn(2)])
	}
	if loc != 0x801 || t.R.Intn(2) == 0 {
		args = append(args, "--location", fmt.Sprintf([]string{"%d", "0x%x", "0x%X"}[t.R.Intn(3)], loc))
	}
	var stdin []byte
	switch t.R.Intn(3) {
	case 0:
		stdin = append([]byte{}, raw...)
	case 1:
		stdin = append([]byte{}, raw...)
		args = append(args, "-")
	default:
		kit.WriteFile(filepath.Join(dir, "prog.bas"), raw)
		args = append(args, "prog.bas")
	}
	r := t.Run(dir, stdin, args...)
	t.Emit(kit.Obj{"ev": "show", "raw": kit.Ints(raw), "loc": loc, "rawopt": kit.B(rawopt), "how": r.How, "rc": r.Rc, "out": kit.Ints(r.Stdout)})
}

func visible(t *kit.T, text []byte) {
	o := kit.Obj{"ev": "visible", "text": kit.Ints(text), "out": []int{}}
	o["how"] = kit.Outcome(func() { o["out"] = kit.Str(basic.ChevronControlCodes(string(text))) })
	t.Emit(o)
}

func text(t *kit.T, n int) []byte {
	b := make([]byte, t.R.Intn(n+1))
	for i := range b {
		switch t.R.Intn(6) {
		case 0:
			b[i] = byte(1 + t.R.Intn(31))
		case 1, 2:
			b[i] = byte(0x80 + t.R.Intn(0x6b))
		case 3:
			b[i] = byte(1 + t.R.Intn(127))
		default:
			b[i] = byte(32 + t.R.Intn(95))
		}
	}
	return b
}

func program(t *kit.T, max, width int) []line {
	var ls []line
	for k := t.R.Intn(max + 1); k > 0; k-- {
		num := t.R.Intn(65536)
		if t.R.Intn(3) == 0 {
			num = []int{0, 1, 9, 10, 255, 256, 999, 32767, 32768, 63999, 65535}[t.R.Intn(11)]
		}
		ls = append(ls, line{num, text(t, width)})
	}
	return ls
}

func location(t *kit.T) int {
	switch t.R.Intn(6) {
	case 0:
		return 0x801
	case 1:
		return 0x3001
	case 2:
		return []int{0, 1, 2, 255, 256, 0x7fff, 0x8000}[t.R.Intn(7)]
	}
	return t.R.Intn(60000)
}

func withHeader(t *kit.T, b []byte) []byte {
	n := len(b)
	switch t.R.Intn(4) {
	case 0:
		return append([]byte{byte(n), byte(n >> 8)}, b...)
	case 1:
		return append([]byte{byte(n), byte(n >> 8)}, append(b, byte(t.R.Intn(256)))...)
	case 2:
		return append(b, make([]byte, t.R.Intn(20))...)
	}
	return b
}

// spoil damages a program.
func spoil(t *kit.T, b []byte, loc int) []byte {
	if len(b) == 0 {
		return b
	}
	b = append([]byte(nil), b...)
	switch t.R.Intn(6) {
	case 0:
		return b[:t.R.Intn(len(b))]
	case 1: // unknown token
		b[t.R.Intn(len(b))] = byte(0xeb + t.R.Intn(0x15))
	case 2: // a link anywhere
		o := t.R.Intn(len(b))
		x := loc + t.R.Intn(len(b)+6) - 3
		b[o] = byte(x)
		if o+1 < len(b) {
			b[o+1] = byte(x >> 8)
		}
	case 3:
		b[t.R.Intn(len(b))] = 0
	case 4: // back to the start, or just off either end
		x := []int{loc, loc - 1, loc - 2, loc + len(b) - 2, loc + len(b) - 1, loc + len(b)}[t.R.Intn(6)]
		o := len(b) - 2
		if o >= 0 {
			b[o], b[o+1] = byte(x), byte(x>>8)
		}
	default:
		for k := t.R.Intn(3); k >= 0; k-- {
			b[t.R.Intn(len(b))] = byte(t.R.Intn(256))
		}
	}
	return b
}

func main() {
	kit.Main(func(c *kit.Ctx) {
		// Every small memory of the model, in batches.
		gen := c.GenLines()
		for k := 0; k < len(gen); k += 200 {
			part := gen[k:]
			if len(part) > 200 {
				part = part[:200]
			}
			c.Case("generated", func(t *kit.T) {
				for _, g := range part {
					m := g["mem"].([]interface{})
					var raw []byte
					for _, x := range m[1].([]interface{}) {
						raw = append(raw, byte(x.(float64)))
					}
					decode(t, raw, int(m[0].(float64)))
				}
			})
		}
		c.Case("every-byte", func(t *kit.T) {
			for b := 0; b < 256; b++ {
				p := stored([]line{{b, []byte{'A', 34, byte(b), 34, 'Z'}}, {b * 257, []byte{byte(b)}}}, 0x801, nil)
				decode(t, p, 0x801)
				visible(t, []byte{'x', byte(b), 'y'})
			}
		})
		// Every byte in every surrounding.
		for base := 0; base < 256; base += 32 {
			base := base
			c.Case("pairs", func(t *kit.T) {
				for b := base; b < base+32; b++ {
					if b == 0 || b > 0xea {
						continue
					}
					x := byte(b)
					var ls []line
					for _, y := range []byte{0xb2, 0x83, 34, ' ', 'A', '1', ':', 0xba, 0xc8, 4, 9, 10, 13, 0x7f} {
						ls = append(ls, line{b, []byte{y, x}}, line{b, []byte{x, y}}, line{b, []byte{'B', y, x, y, x, 34, x}})
					}
					ls = append(ls, line{b, []byte{x, x, x}})
					decode(t, stored(ls, 0x801, nil), 0x801)
				}
			})
		}
		for k := 0; k < c.N(2, 8); k++ {
			c.Case("large", func(t *kit.T) {
				var ls []line
				for k := 0; k < 150; k++ {
					x := text(t, 20)
					for len(x) < 220 {
						x = append(x, byte('A'+k%26), 0xba)
					}
					ls = append(ls, line{k, x})
				}
				loc := 0x801 + t.R.Intn(20000)
				b := stored(ls, loc, nil)
				b = append([]byte{byte(len(b)), byte(len(b) >> 8)}, b...)
				if t.R.Intn(2) == 0 {
					b = append(b, 0)
				}
				decode(t, b, loc)
			})
		}
		for b := 0; b < 256; b += 32 {
			b := b
			c.Case("every-byte-cli", func(t *kit.T) {
				var txt []byte
				for i := b; i < b+32; i++ {
					if i != 0 && i < 0xeb {
						txt = append(txt, byte(i))
					}
				}
				show(t, stored([]line{{b, txt}}, 0x801, nil), 0x801)
				show(t, stored([]line{{b, txt}}, 0x3001, nil), 0x3001)
				show(t, stored([]line{{b, txt}}, 0, nil), 0)
			})
		}
		for i := 0; i < c.N(150, 3000); i++ {
			c.Case("random", func(t *kit.T) {
				for k := 0; k < 10; k++ {
					loc := location(t)
					ls := program(t, 8, 30)
					var perm []int
					if t.R.Intn(3) == 0 {
						perm = t.R.Perm(len(ls))
					}
					b := stored(ls, loc, perm)
					decode(t, withHeader(t, append([]byte(nil), b...)), loc)
					decode(t, spoil(t, withHeader(t, append([]byte(nil), b...)), loc), loc)
					decode(t, spoil(t, b, loc), loc)
					if t.R.Intn(4) == 0 { // the wrong location
						decode(t, b, location(t))
					}
				}
			})
		}
		for i := 0; i < c.N(40, 400); i++ {
			c.Case("cli", func(t *kit.T) {
				loc := location(t)
				b := withHeader(t, stored(program(t, 5, 30), loc, nil))
				show(t, b, loc)
				show(t, spoil(t, b, loc), loc)
			})
		}
		for i := 0; i < c.N(3, 30); i++ {
			c.Case("long", func(t *kit.T) {
				var ls []line
				for k := 0; k < 100; k++ {
					ls = append(ls, line{k * 10, text(t, 20)})
				}
				ls = append(ls, line{7, make([]byte, 0)}, line{8, append(text(t, 200), text(t, 300)...)})
				loc := location(t)
				decode(t, withHeader(t, stored(ls, loc, nil)), loc)
				if loc+4000 < 65536 {
					b := stored(ls, loc, t.R.Perm(len(ls)))
					decode(t, b, loc)
				}
			})
		}
		// Ending against the top of the address space.
		c.Case("top", func(t *kit.T) {
			for k := 0; k < 40; k++ {
				ls := program(t, 3, 10)
				n := len(stored(ls, 0, nil))
				loc := 65536 - n + t.R.Intn(5) - 3
				if loc > 65535 {
					loc = 65535
				}
				decode(t, stored(ls, loc, nil), loc)
			}
		})
		c.Case("junk", func(t *kit.T) {
			for k := 0; k < c.N(150, 2000); k++ {
				b := make([]byte, t.R.Intn(60))
				t.R.Read(b)
				decode(t, b, t.R.Intn(65536))
				visible(t, b)
				visible(t, []byte("é\u0085«\x04»日本"+string(rune(t.R.Intn(0x3000)))))
			}
		})
	})
}
