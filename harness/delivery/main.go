// Command delivery drives `diskii mksd` (C18).
package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/zellyn/diskii/zz_verif/kit"
)

const floppy = 143360

var names = []string{"x.dsk", "x.do", "x.po", "x", "x.bin", "X.DSK", "x.Po", "x.po.dsk", "x.do.po", "x.hdv", "-"}

type job struct {
	n, addr, start int
	opt, name      string
	content        []byte
}

func num(t *kit.T, v int) string {
	switch t.R.Intn(3) {
	case 0:
		return fmt.Sprintf("%d", v)
	case 1:
		return fmt.Sprintf("0x%x", v)
	}
	return fmt.Sprintf("0x%04X", v)
}

func run(t *kit.T, j job) {
	dir := t.Tmp()
	defer os.RemoveAll(dir)
	args := []string{"mksd"}
	if j.opt != "auto" || t.R.Intn(2) == 0 {
		args = append(args, "--order="+j.opt)
	}
	args = append(args, j.name)
	var stdin []byte
	if t.R.Intn(8) == 0 {
		stdin = j.content
		args = append(args, "-")
	} else {
		// the binary's own name means nothing
		prog := []string{"prog.o", "prog.o", "prog.po", "prog.do", "prog.DSK", "prog", "prog.hdv", "prog.po.bin"}[t.R.Intn(8)]
		kit.WriteFile(filepath.Join(dir, prog), j.content)
		args = append(args, prog)
	}
	if j.addr != 0x6000 || t.R.Intn(2) == 0 {
		args = append(args, "--address="+num(t, j.addr))
	}
	if j.start != 0xFFFF || t.R.Intn(4) == 0 {
		args = append(args, "--start", num(t, j.start))
	}
	out := filepath.Join(dir, j.name)
	old := ""
	if j.name != "-" && t.R.Intn(3) == 0 {
		old = "an older file, of another length"
		if t.R.Intn(2) == 0 {
			old = string(make([]byte, floppy+3))
		}
		kit.WriteFile(out, []byte(old))
	}
	res := t.Run(dir, stdin, args...)
	o := kit.Obj{"ev": "sd", "n": j.n, "addr": j.addr, "start": j.start, "opt": j.opt, "name": kit.Str(j.name),
		"rc": res.Rc, "how": res.How, "kept": 1, "size": 0, "con": []int{}, "boot": []int{}, "data": t.Int.Padded(j.content)}
	var img []byte
	if j.name == "-" {
		img = res.Stdout
		o["kept"] = kit.B(len(img) == 0)
	} else {
		var err error
		img, err = os.ReadFile(out)
		if old == "" {
			o["kept"] = kit.B(err != nil)
		} else {
			o["kept"] = kit.B(err == nil && string(img) == old)
		}
	}
	if res.Rc == 0 {
		o["size"] = len(img)
		if len(img) == floppy {
			o["con"] = t.Int.Sectors(img)
			o["boot"] = kit.Ints(img[:256])
		}
	}
	t.Emit(o)
}

func content(t *kit.T, n int) []byte {
	b := make([]byte, n)
	t.R.Read(b)
	switch t.R.Intn(4) {
	case 0: // some empty or equal pages
		for i := 0; i < n; i += 256 {
			if t.R.Intn(3) == 0 {
				for k := i; k < i+256 && k < n; k++ {
					b[k] = 0
				}
			}
		}
	case 1: // ends in zeros
		for k := n - 1; k >= 0 && k > n-300; k-- {
			b[k] = 0
		}
	}
	return b
}

func some(t *kit.T, n, addr, start int) {
	opts := []string{"auto", "auto", "do", "po"}
	run(t, job{n, addr, start, opts[t.R.Intn(len(opts))], names[t.R.Intn(len(names))], content(t, n)})
}

func main() {
	kit.Main(func(c *kit.Ctx) {
		// Every order with every name.
		for _, n := range names {
			n := n
			c.Case("orders", func(t *kit.T) {
				for _, o := range []string{"auto", "do", "po"} {
					run(t, job{20 * 256, 0x6000, 0xFFFF, o, n, content(t, 20*256)})
				}
			})
		}
		// The cases of the specification.
		var gen [][3]int
		for _, g := range c.GenLines() {
			if v, ok := g["sd"].([]interface{}); ok {
				gen = append(gen, [3]int{int(v[0].(float64)), int(v[1].(float64)), int(v[2].(float64))})
			}
		}
		for i := 0; i < len(gen); i += 40 {
			i := i
			c.Case("limits", func(t *kit.T) {
				for k := i; k < i+40 && k < len(gen); k++ {
					some(t, gen[k][0], gen[k][1], gen[k][2])
				}
			})
		}
		// Every number of pages.
		for p := 1; p <= 192; p += 8 {
			p := p
			c.Case("pages", func(t *kit.T) {
				for k := p; k < p+8; k++ {
					a := 256 * t.R.Intn(0xC1-k)
					n := 256*(k-1) + 1 + t.R.Intn(256)
					some(t, n, a, a+t.R.Intn(n))
				}
			})
		}
		for i := 0; i < c.N(40, 400); i++ {
			c.Case("random", func(t *kit.T) {
				for k := 0; k < 12; k++ {
					a := 256 * t.R.Intn(0xC1)
					if t.R.Intn(20) == 0 {
						a += t.R.Intn(256)
					}
					room := 0xC000 - a
					if room > 180*256 {
						room = 180 * 256
					}
					n := 1 + t.R.Intn(room+200)
					if t.R.Intn(3) == 0 {
						n = 1 + t.R.Intn(3000)
					}
					s := a + t.R.Intn(n)
					switch t.R.Intn(12) {
					case 0, 1, 2:
						s = 0xFFFF
					case 3:
						s = a + n + t.R.Intn(3)
					case 4:
						s = t.R.Intn(65536)
					}
					if s > 0xFFFF {
						s = 0xFFFF
					}
					some(t, n, a, s)
				}
			})
		}
	})
}
