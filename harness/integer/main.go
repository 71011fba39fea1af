// Command integer drives the decoding of Integer BASIC programs (C17).
package main

import (
	intb "github.com/zellyn/diskii/basic/integer"
	"github.com/zellyn/diskii/zz_verif/kit"
)

type line struct {
	num  int
	text []byte
}

func stored(ls []line) []byte {
	var b []byte
	for _, l := range ls {
		b = append(b, byte(len(l.text)+4), byte(l.num), byte(l.num>>8))
		b = append(b, l.text...)
		b = append(b, 1)
	}
	return b
}

func decode(t *kit.T, raw []byte) {
	o := kit.Obj{"ev": "decode", "raw": kit.Ints(raw), "err": 0, "listing": []int{}}
	ls, strs := []kit.Obj{}, [][]int{}
	o["how"] = kit.Outcome(func() {
		l, err := intb.Decode(append([]byte(nil), raw...))
		if err != nil {
			o["err"] = 1
			return
		}
		for _, x := range l {
			ls = append(ls, kit.Obj{"num": x.Num, "text": kit.Ints(x.Bytes)})
		}
		for _, x := range l {
			strs = append(strs, kit.Str(x.String()))
		}
		o["listing"] = kit.Str(l.String())
	})
	o["lines"], o["strs"] = ls, strs
	t.Emit(o)
}

func alone(t *kit.T, num int, text []byte) {
	o := kit.Obj{"ev": "line", "num": num, "text": kit.Ints(text), "out": []int{}}
	o["how"] = kit.Outcome(func() { o["out"] = kit.Str(intb.Line{Num: num, Bytes: append([]byte(nil), text...)}.String()) })
	t.Emit(o)
}

func visible(t *kit.T, text []byte) {
	o := kit.Obj{"ev": "visible", "text": kit.Ints(text), "out": []int{}}
	o["how"] = kit.Outcome(func() { o["out"] = kit.Str(intb.ChevronControlCodes(string(text))) })
	t.Emit(o)
}

func high(s string) []byte {
	b := []byte(s)
	for i := range b {
		b[i] |= 0x80
	}
	return b
}

func chars(t *kit.T, n int) []byte {
	b := make([]byte, t.R.Intn(n+1))
	for i := range b {
		switch t.R.Intn(3) {
		case 0:
			b[i] = byte(0xb0 + t.R.Intn(10))
		case 1:
			b[i] = byte(0xc1 + t.R.Intn(26))
		default:
			b[i] = byte(0x80 + t.R.Intn(128))
		}
	}
	return b
}

func constant(t *kit.T) []byte {
	v := t.R.Intn(32768)
	if t.R.Intn(3) == 0 {
		v = []int{0, 1, 9, 10, 255, 256, 257, 32767, 40, 41, 93, 65535}[t.R.Intn(12)]
	}
	return []byte{byte(0xb0 + t.R.Intn(10)), byte(v), byte(v >> 8)}
}

// text is a line put together from the language's elements.
func text(t *kit.T, n int) []byte {
	var b []byte
	word := false // a character could continue a word
	for k := t.R.Intn(n + 1); k > 0; k-- {
		switch t.R.Intn(6) {
		case 0, 1:
			b = append(b, byte(3+t.R.Intn(125)))
			if l := b[len(b)-1]; l == 0x5d || l == 0x28 {
				b[len(b)-1] = 0x61
			}
			word = false
		case 2:
			if word {
				b = append(b, 0x12)
			}
			b = append(b, constant(t)...)
			b = append(b, byte([]int{0x03, 0x12, 0x57, 0x72, 0x24}[t.R.Intn(5)]))
			word = false
		case 3:
			if word {
				b = append(b, 0x14)
			}
			b = append(b, byte(0xc1+t.R.Intn(26)))
			for i := t.R.Intn(3); i > 0; i-- {
				b = append(b, high("A1Z90B")[t.R.Intn(6)])
			}
			word = true
		case 4:
			b = append(b, 0x28)
			b = append(b, chars(t, 12)...)
			b = append(b, 0x29)
			word = false
		case 5:
			b = append(b, 0x03)
			word = false
		}
	}
	if t.R.Intn(4) == 0 {
		b = append(b, 0x5d)
		b = append(b, chars(t, 14)...)
	}
	return b
}

func program(t *kit.T, max int) []line {
	var ls []line
	for k := t.R.Intn(max + 1); k > 0; k-- {
		num := t.R.Intn(32768)
		if t.R.Intn(3) == 0 {
			num = []int{0, 1, 9, 10, 99, 100, 255, 256, 9999, 10000, 32767, 65535}[t.R.Intn(12)]
		}
		x := text(t, 8)
		if len(x) > 251 {
			x = x[:251]
		}
		ls = append(ls, line{num, x})
	}
	return ls
}

func withHeader(t *kit.T, b []byte) []byte {
	n := len(b)
	switch t.R.Intn(4) {
	case 0:
		return append([]byte{byte(n), byte(n >> 8)}, b...)
	case 1:
		return append([]byte{byte(n), byte(n >> 8)}, append(b, byte(t.R.Intn(256)))...)
	case 2:
		return append(b, make([]byte, t.R.Intn(6))...)
	}
	return b
}

func spoil(t *kit.T, b []byte) []byte {
	if len(b) == 0 {
		return b
	}
	b = append([]byte(nil), b...)
	switch t.R.Intn(4) {
	case 0:
		return b[:t.R.Intn(len(b))]
	case 1:
		b[0] = byte(t.R.Intn(8))
	case 2:
		b[len(b)-1] = byte(t.R.Intn(256))
	default:
		for k := t.R.Intn(3); k >= 0; k-- {
			b[t.R.Intn(len(b))] = byte(t.R.Intn(256))
		}
	}
	return b
}

func main() {
	kit.Main(func(c *kit.Ctx) {
		gen := c.GenLines()
		for k := 0; k < len(gen); k += 200 {
			part := gen[k:]
			if len(part) > 200 {
				part = part[:200]
			}
			c.Case("generated", func(t *kit.T) {
				for _, g := range part {
					var raw []byte
					for _, x := range g["mem"].([]interface{}) {
						raw = append(raw, byte(x.(float64)))
					}
					decode(t, raw)
				}
			})
		}
		c.Case("every-byte", func(t *kit.T) {
			for b := 0; b < 256; b++ {
				x := byte(b)
				alone(t, b, []byte{x})
				visible(t, []byte{'x', x, 'y', x, x})
				alone(t, b*257, append(append([]byte{0x61, 0x28}, x|0x80), 0x29, 0x03, x))
				alone(t, b*256, []byte{0x5d, x, x | 0x80})
				alone(t, b, []byte{0x5f, 0xb1, x, 0, 0x03})
				alone(t, b, []byte{0x5f, 0xb9, 0, x, 0x72})
				alone(t, b, []byte{0xc1, x | 0x80, 0x71, 0xb0, x, x})
				decode(t, stored([]line{{b, []byte{0x61, x}}, {65535 - b, nil}}))
			}
		})
		// Every byte before, after and between the language's elements.
		els := [][]byte{{0xb1, 0x02, 0x01, 0x03}, {0xc1}, {0xfa, 0xb7}, {0x28, 0xb1, 0x29}, {0x5d, 0xb1}, {0x61}, {0xb3, 0x00, 0x00}}
		for base := 0; base < 256; base += 32 {
			base := base
			c.Case("pairs", func(t *kit.T) {
				for b := base; b < base+32; b++ {
					x := byte(b)
					for i, e := range els {
						alone(t, b, append([]byte{x}, e...))
						alone(t, b, append(append([]byte{}, e...), x))
						alone(t, b, append([]byte{0xc1, x}, e...))
						alone(t, b, append([]byte{0x28, x}, e...))
						f := els[(i+b)%len(els)]
						alone(t, b, append(append(append([]byte{}, f...), x), e...))
					}
				}
			})
		}
		// Every line of up to three bytes over a telling alphabet.
		al := []byte{0x03, 0x28, 0x29, 0x5d, 0x61, 0xb1, 0xc1, 0xa0}
		for i := range al {
			i := i
			c.Case("short-lines", func(t *kit.T) {
				for j := range al {
					alone(t, 5, []byte{al[i], al[j]})
					for k := range al {
						alone(t, 5, []byte{al[i], al[j], al[k]})
						for m := range al {
							alone(t, 5, []byte{al[i], al[j], al[k], al[m]})
						}
					}
				}
			})
		}
		for i := 0; i < c.N(150, 3000); i++ {
			c.Case("random", func(t *kit.T) {
				for k := 0; k < 10; k++ {
					b := stored(program(t, 8))
					decode(t, withHeader(t, append([]byte(nil), b...)))
					decode(t, spoil(t, withHeader(t, append([]byte(nil), b...))))
					decode(t, spoil(t, b))
					alone(t, t.R.Intn(65536), text(t, 6))
				}
			})
		}
		c.Case("long", func(t *kit.T) {
			for k := 0; k < c.N(6, 60); k++ {
				var ls []line
				for len(ls) < 40 {
					ls = append(ls, line{t.R.Intn(65536), append([]byte{0x5d}, chars(t, 249)...)})
				}
				ls = append(ls, line{1, append([]byte{0x5d}, make([]byte, 0)...)}, line{2, append([]byte{0x28}, high("0123456789")...)})
				full := append([]byte{0x28}, make([]byte, 250)...)
				for i := range full[1:] {
					full[i+1] = byte(0x80 + t.R.Intn(128))
				}
				ls = append(ls, line{3, full})
				decode(t, withHeader(t, stored(ls)))
			}
		})
		c.Case("junk", func(t *kit.T) {
			for k := 0; k < c.N(300, 4000); k++ {
				b := make([]byte, t.R.Intn(40))
				t.R.Read(b)
				decode(t, b)
				visible(t, b)
				visible(t, []byte("é\u0085«\x04»日本"+string(rune(t.R.Intn(0x3000)))))
				if len(b) > 3 {
					b[0] = byte(4 + t.R.Intn(len(b)-3))
					b[b[0]-1] = 1
					decode(t, b)
				}
				alone(t, t.R.Intn(65536), b)
			}
		})
	})
}
