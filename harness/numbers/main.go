// Command numbers runs commands of the real program with all kinds of texts
// for addresses (C25).
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/zellyn/diskii/zz_verif/kit"
	"github.com/zellyn/diskii/zz_verif/nakfmt"
)

type text struct {
	s string
	v int
}

var options = []string{"hello-start", "hello-address", "sd-start", "sd-address", "put-address", "location"}

type place struct {
	t   *kit.T
	dir string
}

func flag(t *kit.T, name, s string) []string {
	if strings.HasPrefix(s, "-") || t.R.Intn(2) == 0 {
		return []string{"--" + name + "=" + s}
	}
	return []string{"--" + name, s}
}

// shuffled puts flags before or after the other arguments.
func shuffled(t *kit.T, flags, rest []string) []string {
	if t.R.Intn(2) == 0 {
		return append(append([]string{}, flags...), rest...)
	}
	return append(append([]string{}, rest...), flags...)
}

func num(t *kit.T, v int) string {
	return fmt.Sprintf([]string{"%d", "0x%x", "0x%04X"}[t.R.Intn(3)], v)
}

func (p *place) try(opt string, x text) {
	t, r := p.t, p.t.R
	o := kit.Obj{"ev": "number", "opt": opt, "text": kit.Str(x.s), "base": 0, "n": 0, "code": []int{}}
	read := func(n string) []byte { b, _ := os.ReadFile(filepath.Join(p.dir, n)); return b }
	var args []string
	var file string
	var stdin []byte
	switch opt {
	case "hello-start", "hello-address", "put-address":
		file = "nak.dsk"
	case "sd-start", "sd-address":
		file = "sd.dsk"
	case "location":
		file = "none"
	}
	before := read(file)
	switch opt {
	case "hello-start":
		base := 256 * r.Intn(3)
		o["base"] = base
		args = append([]string{"nakedos", "mkhello"}, shuffled(t, append(flag(t, "start", x.s), "--address", num(t, base)), []string{file, "DF05"})...)
	case "hello-address":
		o["base"] = 65534
		args = append([]string{"nakedos", "mkhello"}, shuffled(t, append(flag(t, "address", x.s), "--start", "65534"), []string{file, "DF05"})...)
	case "put-address":
		args = append([]string{"put"}, shuffled(t, append(flag(t, "address", x.s), "-f"), []string{file, "DF07", "src"})...)
	case "sd-start":
		n := 0xB000
		base := 256 * r.Intn(17)
		if x.v >= 0x1100 && x.v < 0xC000 && r.Intn(2) == 0 { // just inside, and just outside
			base = x.v &^ 0xff
			n = x.v - base + r.Intn(2)
		}
		if n < 1 {
			n = 1
		}
		kit.WriteFile(filepath.Join(p.dir, "bin"), bytes.Repeat([]byte{0x60}, n))
		o["base"], o["n"] = base, n
		args = append([]string{"mksd"}, shuffled(t, append(flag(t, "start", x.s), "--address="+num(t, base)), []string{file, "bin"})...)
	case "sd-address":
		n := 1 + r.Intn(600)
		kit.WriteFile(filepath.Join(p.dir, "bin"), bytes.Repeat([]byte{0x60}, n))
		o["n"] = n
		args = append([]string{"mksd"}, shuffled(t, flag(t, "address", x.s), []string{file, "bin"})...)
	case "location":
		loc := 1 + r.Intn(65000)
		if x.v > 0 && x.v < 65500 { // (at 0 the first link would look like a length)
			loc = x.v
		}
		o["base"] = loc
		end := loc + 8
		stdin = []byte{byte(end), byte(end >> 8), 10, 0, 0xBA, 'A', 'B', 0, 0, 0}
		args = append([]string{"applesoft", "decode"}, shuffled(t, flag(t, "location", x.s), []string{"-"})...)
	}
	res := t.Run(p.dir, stdin, args...)
	after := read(file)
	o["how"], o["rc"] = res.How, res.Rc
	o["same"] = kit.B(bytes.Equal(before, after))
	switch opt {
	case "hello-start", "hello-address":
		if len(after) == nakfmt.Size {
			phys := nakfmt.DosToPhys(after)
			if d := nakfmt.Look(t.Int, phys).Data(1); len(d) >= 256 {
				o["code"] = kit.Ints(d[:256])
			}
		}
	case "sd-start", "sd-address":
		if len(after) == nakfmt.Size {
			o["code"] = kit.Ints(after[:256])
		}
	}
	o["args"] = args
	t.Emit(o)
}

// spellings of a number.
func spell(t *kit.T, v int) text {
	r := t.R
	z := strings.Repeat("0", r.Intn(4)*r.Intn(2))
	f := []string{"%d", "0x" + z + "%x", "0X" + z + "%x", "0x" + z + "%X", "0X" + z + "%X", "0o" + z + "%o", "0O" + z + "%o", "0b" + z + "%b", "0B" + z + "%b"}[r.Intn(9)]
	return text{fmt.Sprintf(f, v), v}
}

func main() {
	kit.Main(func(c *kit.Ctx) {
		var xs []text
		for _, g := range c.GenLines() {
			m := g["number"].(map[string]interface{})
			var b []byte
			for _, x := range m["s"].([]interface{}) {
				b = append(b, byte(x.(float64)))
			}
			xs = append(xs, text{string(b), int(m["v"].(float64))})
		}
		run := func(kind string, n int, get func(t *kit.T, i int) []text) {
			const batch = 15
			for i := 0; i < n; i += batch {
				i := i
				c.Case(kind, func(t *kit.T) {
					p := &place{t: t, dir: t.Tmp()}
					defer os.RemoveAll(p.dir)
					kit.WriteFile(filepath.Join(p.dir, "bin"), bytes.Repeat([]byte{0x60}, 300))
					kit.WriteFile(filepath.Join(p.dir, "src"), bytes.Repeat([]byte{0x60}, 300))
					kit.WriteFile(filepath.Join(p.dir, "nak.dsk"), nakfmt.PhysToDos(nakfmt.Blank(t.R, nakfmt.Opts{Symbols: true, UsedFiles: 6, LiveSyms: 5})))
					for k := i; k < i+batch && k < n; k++ {
						for _, x := range get(t, k) {
							os := options
							if kind == "texts" && !c.Thorough() {
								os = []string{options[(k+int(c.Seed))%6], options[(k+3+int(c.Seed))%6], options[(k+1+int(c.Seed))%6]}
							}
							for _, o := range os {
								p.try(o, x)
							}
						}
					}
				})
			}
		}
		run("texts", len(xs), func(t *kit.T, i int) []text { return xs[i : i+1] })
		run("spelled", c.N(150, 3000), func(t *kit.T, i int) []text {
			r := t.R
			v := r.Intn(65536)
			switch r.Intn(4) {
			case 0:
				v &^= 255
			case 1:
				v = 65536 + r.Intn(65536)
			}
			return []text{spell(t, v)}
		})
		odd := []string{"18446744073709551615", "18446744073709551616", "18446744073709576192", "0x10000000000006000", "0x100006000", "4294991872", "-1", "-24576", "- 1",
			"0x", "0x ", "$6000", "6000h", "0xG000", "0x6000 ", " 0x6000", "\t1", "1\n", "1e3", "1.0", "24576.0", "0x60.00", "٣", "１２", "0xx60", "x6000", "0o8", "0b2", "0o", "0b", "true", "nil", "+24576", "0x+6000", "0x-6000", "6,000", "6 000", "1\x00", "\xff"}
		run("odd", len(odd), func(t *kit.T, i int) []text {
			if strings.ContainsRune(odd[i], 0) {
				return nil
			}
			return []text{{odd[i], -1}}
		})
	})
}
