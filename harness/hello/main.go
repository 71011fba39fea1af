// Command hello drives `diskii nakedos mkhello` (C19).
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/zellyn/diskii/zz_verif/dosfmt"
	"github.com/zellyn/diskii/zz_verif/kit"
	"github.com/zellyn/diskii/zz_verif/nakfmt"
	"github.com/zellyn/diskii/zz_verif/prodosfmt"
)

func num(r *rand.Rand, v int) string {
	switch r.Intn(3) {
	case 0:
		return fmt.Sprintf("%d", v)
	case 1:
		return fmt.Sprintf("0x%x", v)
	}
	return fmt.Sprintf("0x%04X", v)
}

// session is an image file on which the command is run again and again.
type session struct {
	t         *kit.T
	dir, name string
	opt       string
	po        bool
	view      *nakfmt.View
}

func (s *session) path() string { return filepath.Join(s.dir, s.name) }

func start(t *kit.T, phys []byte) *session {
	r := t.R
	s := &session{t: t, dir: t.Tmp(), po: r.Intn(2) == 0, opt: "auto"}
	ext := []string{".dsk", ".do", ".DSK"}[r.Intn(3)]
	if s.po {
		ext = []string{".po", ".Po"}[r.Intn(2)]
	}
	if r.Intn(3) == 0 { // told, whatever the name says
		ext = []string{".dsk", ".do", ".po", ""}[r.Intn(4)]
		s.opt = "do"
		if s.po {
			s.opt = "po"
		}
	}
	s.name = "disk" + ext
	file := nakfmt.PhysToDos(phys)
	if s.po {
		file = nakfmt.PhysToPo(phys)
	}
	kit.WriteFile(s.path(), file)
	s.view = nakfmt.Look(t.Int, phys)
	o := s.view.Full()
	o["ev"] = "init"
	t.Emit(o)
	return s
}

func (s *session) phys() []byte {
	b, err := os.ReadFile(s.path())
	if err != nil || len(b) != nakfmt.Size {
		return nil
	}
	if s.po {
		return nakfmt.PoToPhys(b)
	}
	return nakfmt.DosToPhys(b)
}

func args(t *kit.T, opt, name, ref string, addr, start int) []string {
	r := t.R
	a := []string{"nakedos", "mkhello"}
	if opt != "auto" || r.Intn(3) == 0 {
		a = append(a, "--order="+opt)
	}
	a = append(a, name, ref)
	if addr != 0x6000 || r.Intn(2) == 0 {
		a = append(a, "--address="+num(r, addr))
	}
	if start != 0xFFFF || r.Intn(4) == 0 {
		a = append(a, "--start", num(r, start))
	}
	return a
}

// alone says whether dir holds just the one file (and no leftovers).
func alone(dir string) bool {
	e, _ := os.ReadDir(dir)
	return len(e) == 1
}

func (s *session) hello(ref string, addr, start int) {
	before, _ := os.ReadFile(s.path())
	res := s.t.Run(s.dir, nil, args(s.t, s.opt, s.name, ref, addr, start)...)
	after, _ := os.ReadFile(s.path())
	o := kit.Obj{}
	phys := s.phys()
	if phys != nil && !bytes.Equal(before, after) {
		s.view = nakfmt.Look(s.t.Int, phys)
		o = s.view.Full()
	}
	o["ev"], o["name"], o["addr"], o["start"] = "hello", kit.Str(ref), addr, start
	o["rc"], o["how"] = res.Rc, res.How
	o["same"] = kit.B(bytes.Equal(before, after) && alone(s.dir))
	o["whole"] = kit.B(phys != nil && alone(s.dir))
	o["code"] = []int{}
	if phys != nil {
		for _, i := range s.view.Sectors(1) {
			o["code"] = kit.Ints(phys[i*256 : i*256+256])
			break
		}
	}
	s.t.Emit(o)
}

func (s *session) close() { os.RemoveAll(s.dir) }

// ref makes a reference of the wanted kind.
func (s *session) ref(kind string) string {
	r := s.t.R
	var names []string
	for _, n := range s.view.FileNames() {
		if nakfmt.Number(n) == 0 {
			names = append(names, n)
		}
	}
	var files []int
	files = append(files, s.view.Files()...)
	n := 1 + r.Intn(253)
	if len(files) > 0 && r.Intn(3) > 0 {
		n = files[r.Intn(len(files))]
	}
	name := "FNONE9"
	if len(names) > 0 {
		name = names[r.Intn(len(names))]
	}
	mixed := func(x string) string {
		switch r.Intn(3) {
		case 0:
			return strings.ToLower(x)
		case 1:
			return strings.Title(strings.ToLower(x)) //nolint:staticcheck
		}
		return x
	}
	number := func() string {
		switch r.Intn(4) {
		case 0:
			return mixed(fmt.Sprintf("%02X", n))
		case 1:
			return mixed(fmt.Sprintf("%X", n))
		}
		return mixed(fmt.Sprintf("DF%02X", n))
	}
	switch kind {
	case "number":
		return mixed(fmt.Sprintf("%02X", n))
	case "df":
		return mixed(fmt.Sprintf("DF%02X", n))
	case "name":
		return mixed(name)
	case "both":
		return number() + ":" + mixed(name)
	case "bothold":
		return number() + ":" + []string{"FNEW", "FHELLO", "ZZZZ", "FNONE9"}[r.Intn(4)]
	case "other":
		return []string{"FHELLO", "fhello", "01", "DF01", "df01:fhello", "FD", "DFFD", "3", "DF04"}[r.Intn(9)]
	case "unknown":
		return []string{"FNONE9", "ZQXJ", "FE", "DFFE", "00", "DF00", "FF", "0", "DEFF", "E001", "100", "F.X", "F-1", "TOOLONGNAME", "X Y", "$05", "0x05", "DF005", "00005"}[r.Intn(19)]
	case "colons":
		return []string{"5:6:7", "DF05:A:B", "::", "A:B:C", "DF05:FOO:"}[r.Intn(5)]
	case "badnum":
		return []string{"FE", "00", "XX", "FOO", "", "DFFF", "1000", name}[r.Intn(8)] + ":" + name
	}
	return number() + ":" + []string{"06", "DF07", "9"}[r.Intn(3)]
}

var kinds = []string{"number", "df", "name", "name", "both", "bothold", "other", "unknown", "colons", "badnum", "numnum"}

func randomDisk(t *kit.T) []byte {
	r := t.R
	switch r.Intn(6) {
	case 0:
		return nakfmt.Real(t.Ctx, []string{"Super-Mon-2.0.dsk", "chacha20.dsk"}[r.Intn(2)])
	case 1:
		return nakfmt.Tight(r, r.Intn(2) == 0)
	}
	o := nakfmt.Opts{Symbols: r.Intn(6) > 0, Scatter: r.Intn(2) == 0, UsedFiles: r.Intn(60), LiveSyms: r.Intn(40), OneClass: r.Intn(3) == 0}
	switch r.Intn(6) {
	case 0:
		o.FreeSectors = 1 + r.Intn(3)
	case 1:
		o.LiveSyms, o.FreeSlots = -1, r.Intn(3)
	case 2:
		o.UsedFiles = 250
	}
	return nakfmt.Blank(r, o)
}

func other(t *kit.T, file []byte, opt, name string) {
	dir := t.Tmp()
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, name)
	kit.WriteFile(p, file)
	res := t.Run(dir, nil, args(t, opt, name, "05", 0x6000, 0xFFFF)...)
	after, _ := os.ReadFile(p)
	t.Emit(kit.Obj{"ev": "other", "rc": res.Rc, "how": res.How, "same": kit.B(bytes.Equal(after, file) && alone(dir))})
}

func main() {
	kit.Main(func(c *kit.Ctx) {
		gen := c.GenLines()
		for i := 0; i < len(gen); i += 20 {
			i := i
			c.Case("arguments", func(t *kit.T) {
				s := start(t, randomDisk(t))
				defer s.close()
				for k := i; k < i+20 && k < len(gen); k++ {
					g, ok := gen[k]["hello"].(map[string]interface{})
					if !ok {
						continue
					}
					s.hello(s.ref(g["ref"].(string)), int(g["addr"].(float64)), int(g["start"].(float64)))
				}
			})
		}
		for i := 0; i < c.N(60, 600); i++ {
			c.Case("disks", func(t *kit.T) {
				s := start(t, randomDisk(t))
				defer s.close()
				for k := 0; k < 8; k++ {
					addr := 256 * t.R.Intn(256)
					if t.R.Intn(12) == 0 {
						addr = t.R.Intn(65536)
						if t.R.Intn(2) == 0 {
							addr = addr&^0xFF | 1<<t.R.Intn(8)
						}
					}
					from := 0xFFFF
					if t.R.Intn(2) == 0 {
						from = addr + t.R.Intn(65536-addr)
					} else if t.R.Intn(8) == 0 {
						from = t.R.Intn(65536)
					}
					kind := kinds[t.R.Intn(len(kinds))]
					if t.R.Intn(2) == 0 {
						kind = kinds[t.R.Intn(7)]
					}
					s.hello(s.ref(kind), addr, from)
				}
			})
		}
		c.Case("files", func(t *kit.T) { // every number
			s := start(t, nakfmt.Real(t.Ctx, "Super-Mon-2.0.dsk"))
			defer s.close()
			step := 3
			if t.Thorough() {
				step = 1
			}
			for f := 1; f < 254; f += step {
				s.hello(fmt.Sprintf([]string{"DF%02X", "%02X", "%x"}[t.R.Intn(3)], f), 256*t.R.Intn(256), 0xFFFF)
			}
		})
		c.Case("others", func(t *kit.T) {
			for _, n := range []string{"dos33master.dsk", "prodos-users-disk.dsk", "ProDOS_2_4_2.po", "lode-runner-disk-1.dsk", "sam-hardware-ver.po"} {
				b := t.Disk("data/disks/" + n)
				other(t, b, "auto", "x"+n[len(n)-4:])
				other(t, b, "auto", n)
				other(t, b, "do", n)
				other(t, b, "po", n)
			}
			for k := 0; k < 8; k++ {
				d := dosfmt.New(t.R)
				other(t, d.B, []string{"auto", "do"}[k%2], "x.dsk")
				v := prodosfmt.New(t.R, 280)
				other(t, v.B, "auto", "x.po")
				b := make([]byte, []int{143360, 143360, 0, 116480, 143359, 819200, 256, 143361}[k])
				t.R.Read(b)
				other(t, b, "auto", []string{"x.dsk", "x.po", "x.do", "x.hdv"}[t.R.Intn(4)])
			}
		})
	})
}
