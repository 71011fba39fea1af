// Command hostfiles runs the real program on directories of files, command
// after command, and records what became of the files (C15).
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/zellyn/diskii/zz_verif/dosfmt"
	"github.com/zellyn/diskii/zz_verif/kit"
	"github.com/zellyn/diskii/zz_verif/nakfmt"
	"github.com/zellyn/diskii/zz_verif/prodosfmt"
)

const floppy = nakfmt.Size

// shop is a directory in which commands are run.
type shop struct {
	t     *kit.T
	dir   string
	files map[string][]byte // nil: a directory
	naks  map[string]*disk
	kind  map[string]string // of contents
	fresh int
}

type disk struct {
	order string
	view  *nakfmt.View
	phys  []byte
}

// whole are the numbers of whole contents.
func (s *shop) listing() [][2]interface{} {
	var names []string
	for n := range s.files {
		names = append(names, n)
	}
	sort.Strings(names)
	r := [][2]interface{}{}
	for _, n := range names {
		tok := -1
		if b := s.files[n]; b != nil {
			tok = s.t.Int.Tok(append([]byte("whole file "), b...))
		}
		r = append(r, [2]interface{}{n, tok})
	}
	return r
}

// snapshot reads the directory.
func (s *shop) snapshot() map[string][]byte {
	m := map[string][]byte{}
	kit.Must(filepath.Walk(s.dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(s.dir, p)
		if rel == "." {
			return nil
		}
		if i.IsDir() {
			m[rel] = nil
			return nil
		}
		b, err := os.ReadFile(p)
		if b == nil {
			b = []byte{}
		}
		m[rel] = b
		return err
	}))
	return m
}

// nakedAs tells whether the physical image has a NakedOS sector map.
func nakedAs(phys []byte) bool {
	m := phys[9*256+0xD0 : 9*256+0xD0+560]
	for i, o := range m {
		if o == 0 || (i < 12 && o != 254) {
			return false
		}
	}
	return true
}

func (s *shop) naked(b []byte) *disk {
	if len(b) != floppy {
		return nil
	}
	d, p := nakfmt.DosToPhys(b), nakfmt.PoToPhys(b)
	switch {
	case nakedAs(d) && nakedAs(p):
		return nil
	case nakedAs(d):
		return &disk{"do", nakfmt.Look(s.t.Int, d), d}
	case nakedAs(p):
		return &disk{"po", nakfmt.Look(s.t.Int, p), p}
	}
	return nil
}

func (d *disk) obj(name string) kit.Obj {
	o := d.view.Full()
	o["order"], o["file"] = d.order, name
	return o
}

// update takes the directory as it is now, and records changes in o.
func (s *shop) update(o kit.Obj) {
	now := s.snapshot()
	disks, gone := []interface{}{}, []string{}
	for n := range s.naks {
		if _, ok := now[n]; !ok {
			gone = append(gone, n)
			delete(s.naks, n)
		}
	}
	var names []string
	for n := range now {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		b := now[n]
		if old, ok := s.files[n]; ok && bytes.Equal(old, b) && (old == nil) == (b == nil) {
			continue
		}
		if d := s.naked(b); d != nil {
			s.naks[n] = d
			disks = append(disks, d.obj(n))
		} else if s.naks[n] != nil {
			delete(s.naks, n)
			gone = append(gone, n)
		}
	}
	s.files = now
	o["files"], o["disks"], o["gone"] = s.listing(), disks, gone
}

func (s *shop) write(name, kind string, b []byte) {
	kit.WriteFile(filepath.Join(s.dir, name), b)
	s.kind[string(b)] = kind
}

func nakedDisk(t *kit.T) []byte {
	r := t.R
	switch r.Intn(5) {
	case 0:
		return nakfmt.Real(t.Ctx, []string{"Super-Mon-2.0.dsk", "chacha20.dsk"}[r.Intn(2)])
	case 1:
		return nakfmt.Tight(r, r.Intn(2) == 0)
	}
	return nakfmt.Blank(r, nakfmt.Opts{Symbols: r.Intn(6) > 0, Scatter: r.Intn(2) == 0, UsedFiles: r.Intn(40), LiveSyms: r.Intn(30), OneClass: r.Intn(3) == 0, FreeSectors: r.Intn(2) * r.Intn(20)})
}

func open(t *kit.T) *shop {
	r := t.R
	s := &shop{t: t, dir: t.Tmp(), files: map[string][]byte{}, naks: map[string]*disk{}, kind: map[string]string{}}
	s.write("nak.do", "nak", nakfmt.PhysToDos(nakedDisk(t)))
	s.write("nak.po", "nak", nakfmt.PhysToPo(nakedDisk(t)))
	if r.Intn(2) == 0 {
		s.write("nak.dsk", "nak", nakfmt.PhysToPo(nakedDisk(t)))
	} else {
		s.write("nak.dsk", "nak", nakfmt.PhysToDos(nakedDisk(t)))
	}
	if r.Intn(2) == 0 {
		s.write("dos.dsk", "dos", dosfmt.New(r).B)
	} else {
		s.write("dos.dsk", "dos", t.Disk("data/disks/dos33master.dsk"))
	}
	s.write("prodos.po", "prodos", prodosfmt.New(r, 280).B)
	s.write("hard.hdv", "prodos", prodosfmt.New(r, 600).B)
	junk := make([]byte, floppy)
	r.Read(junk)
	s.write("junk.dsk", "junk", junk)
	s.write("empty.dsk", "junk", []byte{})
	prog := make([]byte, 1+r.Intn(1500))
	r.Read(prog)
	s.write("prog.bin", "junk", prog)
	s.write("empty.bin", "junk", []byte{})
	big := make([]byte, 150000)
	r.Read(big)
	s.write("big.bin", "junk", big)
	s.write("basic.bin", "junk", []byte{13, 0, 7, 8, 10, 0, 0x80, 0, 14, 8, 20, 0, 'A', 0xD0, '1', 0, 0, 0}[2:])
	kit.Must(os.Mkdir(filepath.Join(s.dir, "sub"), 0o700))
	kit.WriteFile(filepath.Join(s.dir, "sub", "x.po"), []byte("not an image"))
	o := kit.Obj{"ev": "dir"}
	s.update(o)
	t.Emit(o)
	return s
}

func str(g map[string]interface{}, k string) string {
	v, _ := g[k].(string)
	return v
}

// imageFor is the file of the wanted kind; "-" comes with what to feed.
func (s *shop) imageFor(kind string) (name, stdin string) {
	r := s.t.R
	switch kind {
	case "nakdo":
		return "nak.do", ""
	case "nakpo":
		return "nak.po", ""
	case "nakdsk":
		return "nak.dsk", ""
	case "dos":
		return "dos.dsk", ""
	case "prodos":
		return "prodos.po", ""
	case "hdv":
		return "hard.hdv", ""
	case "junk":
		return "junk.dsk", ""
	case "empty":
		return "empty.dsk", ""
	case "missing":
		return "missing.dsk", ""
	case "dir":
		return "sub", ""
	case "-":
		return "-", []string{"nak.do", "nak.dsk", "nak.po", "dos.dsk", "junk.dsk"}[r.Intn(5)]
	}
	panic("kit: image " + kind)
}

// orderFor translates right and wrong for an image.
func (s *shop) orderFor(opt, image string) string {
	right := "do"
	if d := s.naks[image]; d != nil {
		right = d.order
	} else if image == "prodos.po" || image == "hard.hdv" {
		right = "po"
	}
	switch opt {
	case "right":
		return right
	case "wrong":
		if right == "do" {
			return "po"
		}
		return "do"
	}
	return "auto"
}

func (s *shop) nameFor(kind, image string) string {
	r := s.t.R
	d := s.naks[image]
	switch kind {
	case "old":
		if d != nil {
			var names []string
			for _, n := range d.view.FileNames() {
				if nakfmt.Number(n) == 0 {
					names = append(names, n)
				}
			}
			if len(names) > 0 {
				return names[r.Intn(len(names))]
			}
		}
		return "HELLO"
	case "number":
		n := 5 + r.Intn(249)
		if d != nil && r.Intn(3) > 0 {
			for _, f := range d.view.Files() {
				if f != 3 && f != 4 && r.Intn(3) == 0 {
					n = f
				}
			}
		}
		return fmt.Sprintf("DF%02X", n)
	case "new":
		return []string{"FNEW", "fnew2", "DF77:FABC", "5:FX", "FZZ9"}[r.Intn(5)]
	}
	return []string{"A.B", "1:2:3", "TOOLONGANAME", "FE:FX", "F X", "5:6"}[r.Intn(6)]
}

var usages = [][]string{
	{"nosuchcommand"},
	{"ls"},
	{"rm", "--nosuchflag", "nak.do", "FOO"},
	{"put", "nak.do", "FOO"},
	{"rm", "--order=raw", "nak.do", "FOO"},
	{"nakedos", "mkhello", "--address=0x10000", "nak.do", "05"},
	{"put", "-", "FOO", "-"},
	{"reorder", "nak.do", "nak2.po", "extra"},
}

func (s *shop) run(g map[string]interface{}) {
	t, r := s.t, s.t.R
	cmd := str(g, "cmd")
	force, _ := g["force"].(bool)
	image, feed := "", ""
	if k := str(g, "image"); k != "" {
		image, feed = s.imageFor(k)
	}
	known := image
	if image == "-" {
		known = feed
	}
	order := s.orderFor(str(g, "order"), known)
	system := str(g, "system")
	if system == "" {
		system = "auto"
	}
	name := ""
	if k := str(g, "name"); k != "" {
		name = s.nameFor(k, known)
	}
	source, readable := "", true
	switch str(g, "source") {
	case "file", "text":
		source = "prog.bin"
	case "-":
		source = "-"
	case "missing":
		source, readable = "missing.bin", false
	case "emptyfile":
		source = "empty.bin"
	case "big":
		source = "big.bin"
	case "basic":
		source = "basic.bin"
	}
	target, told := "", ""
	if k, ok := g["target"].(string); ok {
		s.fresh++
		exts := []string{".po", ".dsk", ".do", ""}
		switch k {
		case "new":
			target = fmt.Sprintf("new%d%s", s.fresh, exts[r.Intn(4)])
		case "newpo":
			target = fmt.Sprintf("new%d.po", s.fresh)
		case "same":
			target = image
		case "exists":
			target = []string{"prog.bin", "prodos.po", "dos.dsk", "sub/x.po", "empty.dsk"}[r.Intn(5)]
		case "existsdir":
			target = "sub"
		case "nodir":
			target = "nosuch/new.po"
		case "-":
			target = "-"
		}
		told = target
		if target == "-" || target == "" {
			told = target
		} else if r.Intn(4) == 0 {
			told = "./" + target
		}
	}
	var stdin []byte
	data := s.files[source]
	if source == "-" && source != image {
		stdin = make([]byte, 1+r.Intn(900))
		r.Read(stdin)
		data = stdin
	} else if image == "-" {
		stdin = append([]byte{}, s.files[feed]...)
	}

	// The command line.
	args := []string{}
	if v := r.Intn(12); v == 0 {
		args = append(args, "-v")
	}
	opts := []string{}
	if order != "auto" || r.Intn(4) == 0 {
		if cmd != "mksd" && cmd != "decode" && cmd != "filetypes" && cmd != "usage" {
			opts = append(opts, "--order="+order)
		}
	}
	if system != "auto" {
		opts = append(opts, "--system="+system)
	}
	typeok, binary := true, true
	addr, start := 0x6000, 0xFFFF
	switch str(g, "address") {
	case "unaligned":
		addr = 0x6000 + 1 + r.Intn(255)
	case "before":
		addr, start = 0x6000, 0x5FFF-r.Intn(300)
	}
	if cmd == "mkhello" || cmd == "mksd" {
		if addr != 0x6000 {
			opts = append(opts, fmt.Sprintf("--address=%d", addr))
		}
		if start != 0xFFFF {
			opts = append(opts, fmt.Sprintf("--start=0x%X", start))
		}
	}
	unopenable := false
	switch s.kind[string(s.files[known])] {
	case "junk":
		unopenable = true
	}
	if _, ok := s.files[known]; !ok || s.files[known] == nil {
		unopenable = known != ""
	}
	switch cmd {
	case "ls":
		args = append(append(args, "ls"), append(opts, image)...)
	case "dump":
		args = append(append(args, "dump"), append(opts, image, name)...)
	case "rm":
		if force {
			opts = append(opts, "-f")
		}
		args = append(append(args, []string{"rm", "delete"}[r.Intn(2)]), append(opts, image, name)...)
	case "put":
		if force {
			opts = append(opts, []string{"-f", "--overwrite"}[r.Intn(2)])
		}
		switch {
		case str(g, "source") == "text":
			opts, binary = append(opts, "--filetype-name=T"), false
		case r.Intn(12) == 0:
			opts, typeok = append(opts, "--filetype-name=nosuch"), false
		case r.Intn(3) == 0:
			opts = append(opts, "--filetype-name="+[]string{"B", "BIN"}[r.Intn(2)])
		}
		args = append(append(args, "put"), append(opts, image, name, source)...)
	case "mkhello":
		args = append(append(args, "nakedos", "mkhello"), append(opts, image, name)...)
	case "reorder":
		if no := s.orderFor(str(g, "neworder"), known); no != "auto" {
			if no == "do" {
				opts = append(opts, "--new-order=po")
			} else {
				opts = append(opts, "--new-order=do")
			}
		}
		if force {
			opts = append(opts, []string{"-f", "--overwrite"}[r.Intn(2)])
		}
		args = append(append(args, "reorder"), append(opts, image)...)
		if told != "" {
			args = append(args, told)
		}
		unopenable = unopenable && s.kind[string(s.files[known])] == "" // any content can be reordered
		if b := s.files[known]; known != "" && len(b) != floppy {
			unopenable = true
		}
	case "mksd":
		args = append(append(args, "mksd"), append(opts, told, source)...)
		unopenable = !readable
	case "decode":
		if force {
			opts = append(opts, "--raw")
		}
		args = append(append(args, "applesoft", "decode"), append(opts, source)...)
		unopenable = !readable
	case "filetypes":
		if force {
			opts = append(opts, "--all")
		}
		args = append(append(args, "filetypes"), opts...)
	case "usage":
		var k int
		fmt.Sscan(str(g, "source"), &k)
		args = append(args, usages[k-1]...)
	}
	res := t.Run(s.dir, stdin, args...)
	in := "stdin"
	if image != "-" {
		in = image
	}
	o := kit.Obj{"ev": "cmd", "cmd": cmd, "args": strings.Join(args, " "), "image": image, "imagename": kit.Str(in), "stdin": feed, "target": target,
		"force": kit.B(force), "order": order, "system": system, "name": kit.Str(name), "rc": res.Rc, "how": res.How,
		"n": len(data), "data": t.Int.Padded(data), "binary": kit.B(binary), "typeok": kit.B(typeok), "readable": kit.B(readable),
		"addr": addr, "start": start, "code": []int{}, "outdisk": []interface{}{}, "unopenable": kit.B(unopenable)}
	if cmd == "dump" {
		o["data"] = t.Int.Sectors(res.Stdout)
	}
	s.update(o)
	d := s.naks[image]
	if image == "-" {
		d = s.naked(res.Stdout)
		if d != nil && (cmd == "put" || cmd == "rm" || cmd == "mkhello") {
			o["outdisk"] = []interface{}{d.obj("-")}
		}
	}
	if cmd == "mkhello" && d != nil {
		for _, i := range d.view.Sectors(1) {
			o["code"] = kit.Ints(d.phys[i*256 : i*256+256])
			break
		}
	}
	t.Emit(o)
}

func main() {
	kit.Main(func(c *kit.Ctx) {
		var cmds []map[string]interface{}
		for _, g := range c.GenLines() {
			if m, ok := g["cmd"].(map[string]interface{}); ok {
				cmds = append(cmds, m)
			}
		}
		for round := 0; round < c.N(1, 4); round++ {
			// The same shuffle in every process.
			perm := kit.Shuffle(c.Seed+int64(round), len(cmds))
			for i := 0; i < len(perm); i += 24 {
				i := i
				c.Case("history", func(t *kit.T) {
					s := open(t)
					defer os.RemoveAll(s.dir)
					for k := i; k < i+24 && k < len(perm); k++ {
						s.run(cmds[perm[k]])
					}
				})
			}
		}
	})
}
