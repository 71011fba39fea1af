// Command printing runs `ls` and `dump` of the real program and records what
// they print next to what the library says of the same image (C24).
package main

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zz_verif/kit"
	"github.com/zellyn/diskii/zz_verif/pics"
)

var factories = []types.OperatorFactory{dos3.OperatorFactory{}, supermon.OperatorFactory{}, prodos.OperatorFactory{}}

type line struct{ cmd, short, via, debug, order, system, what string }

// spoil makes an image that may not open or read well.
func spoil(t *kit.T, b []byte) []byte {
	r := t.R
	switch r.Intn(6) {
	case 0:
		return b[:r.Intn(len(b))]
	case 1:
		return append(b, make([]byte, 512)...)
	case 2:
		return make([]byte, len(b))
	case 3:
		return nil
	}
	for i := 1 + r.Intn(40); i > 0; i-- {
		b[r.Intn(len(b))] = byte(r.Intn(256))
	}
	for i := r.Intn(12); i > 0; i-- { // in the middle, where the catalogs are
		b[0x11000+r.Intn(0x1000)%(len(b)-0x11000+1)] = byte(r.Intn(256))
	}
	return b
}

func try(t *kit.T, l line, im pics.Image) {
	r := t.R
	b := append([]byte(nil), im.File...)
	if r.Intn(5) == 0 && len(b) > 0x12000 {
		b = spoil(t, b)
	}
	name := im.Name
	if r.Intn(4) == 0 {
		name = []string{"x.dsk", "x", "x.po", "x.DO", "x.hdv", "x.txt", "two words.dsk", "-x.do"}[r.Intn(8)]
	}
	asName := name
	if l.via == "stdin" {
		asName = "stdin"
	}
	order, system := types.DiskOrder("auto"), "auto"
	if l.order != "" {
		order = types.DiskOrder(l.order)
	}
	if l.system != "" {
		system = l.system
	}
	// What the library says.
	cmd := "ls"
	if l.cmd == "dump" {
		cmd = "dump"
	}
	o := kit.Obj{"ev": "cmd", "cmd": cmd, "short": kit.B(l.short != ""), "dir": 0, "opened": 0, "subdirs": 0, "ok": 0,
		"names": [][2][]int{}, "data": []int{}}
	target := "NOSUCHTHING"
	how := kit.Outcome(func() {
		op, _, err := disk.OpenImage(append([]byte(nil), b...), asName, order, system, factories, 0)
		if err != nil {
			return
		}
		o["opened"], o["subdirs"] = 1, kit.B(op.Name() == "prodos")
		root, _ := op.Catalog("")
		if l.what == "there" && len(root) > 0 {
			target = root[r.Intn(len(root))].Name
			if cmd == "ls" { // preferably something that can be listed
				for i := 0; i < 200; i++ {
					if _, err := op.Catalog(target); err == nil {
						break
					}
					target = root[r.Intn(len(root))].Name
				}
			} else {
				for i := 0; i < 20; i++ {
					if _, err := op.GetFile(target); err == nil {
						break
					}
					target = root[r.Intn(len(root))].Name
				}
			}
		}
		if target == "" || strings.HasPrefix(target, "-") || strings.ContainsRune(target, 0) {
			target = "OTHER"
		}
		dir := ""
		if cmd == "ls" && l.what != "none" {
			dir = target
		}
		if cmd == "ls" {
			ds, err := op.Catalog(dir)
			if err != nil {
				return
			}
			ns := [][2][]int{}
			for _, d := range ds {
				ns = append(ns, [2][]int{kit.Str(d.Name), kit.Str(d.Fullname)})
			}
			o["ok"], o["names"] = 1, ns
			return
		}
		fi, err := op.GetFile(target)
		if err != nil {
			return
		}
		o["ok"], o["data"] = 1, t.Int.Sectors(fi.Data)
	})
	if how != "ok" {
		return // not what is asked here
	}
	// What the command says.
	dir := t.Tmp()
	defer os.RemoveAll(dir)
	kit.WriteFile(filepath.Join(dir, name), b)
	var args []string
	opt := func(k, v string) {
		if v == "" {
			return
		}
		if r.Intn(2) == 0 {
			args = append(args, "--"+k+"="+v)
		} else {
			args = append(args, "--"+k, v)
		}
	}
	if l.debug != "" && r.Intn(2) == 0 {
		args = append(args, l.debug)
	}
	args = append(args, l.cmd)
	if l.debug != "" && len(args) == 1 {
		args = append(args, l.debug)
	}
	opts := []func(){func() { opt("order", l.order) }, func() { opt("system", l.system) }, func() {
		if l.short != "" {
			args = append(args, l.short)
		}
	}}
	for _, i := range r.Perm(3) {
		opts[i]()
	}
	var stdin []byte
	if l.via == "stdin" {
		args = append(args, "-")
		stdin = b
		if stdin == nil {
			stdin = []byte{}
		}
	} else if strings.HasPrefix(name, "-") {
		args = append(args, "./"+name)
	} else {
		args = append(args, name)
	}
	if cmd == "dump" || l.what != "none" {
		args = append(args, target)
		o["dir"] = kit.B(cmd == "ls")
	}
	res := t.Run(dir, stdin, args...)
	o["how"], o["rc"], o["said"] = res.How, res.Rc, kit.B(len(res.Stderr) > 0)
	if cmd == "ls" {
		o["out"] = kit.Ints(res.Stdout)
	} else {
		o["out"] = t.Int.Sectors(res.Stdout)
	}
	o["args"] = args
	t.Emit(o)
}

func main() {
	kit.Main(func(c *kit.Ctx) {
		var ls []line
		for _, g := range c.GenLines() {
			m := g["show"].(map[string]interface{})
			f := func(k string) string { return m[k].(string) }
			ls = append(ls, line{f("cmd"), f("short"), f("via"), f("debug"), f("order"), f("system"), f("what")})
		}
		// Every command line is tried on some images.
		perm := kit.Shuffle(c.Seed, len(ls))
		const batch = 20
		for i := 0; i < len(perm); i += batch {
			i := i
			c.Case("show", func(t *kit.T) {
				for k := i; k < i+batch && k < len(perm); k++ {
					l := ls[perm[k]]
					for n := c.N(1, 4); n > 0; n-- {
						im := pics.Pick(t)
						// An image that suits the options, mostly.
						for x := 0; x < 12 && t.R.Intn(6) > 0 && !suits(l, im); x++ {
							im = pics.Pick(t)
						}
						try(t, l, im)
					}
				}
			})
		}
	})
}

func suits(l line, im pics.Image) bool {
	if l.system != "" && l.system != "auto" && l.system != im.System {
		return false
	}
	if l.via == "stdin" && im.Name == "x.hdv" {
		return false
	}
	if l.order != "" && l.order != "auto" && l.order != string(im.Order) {
		return false
	}
	return l.what != "there" || l.cmd == "dump" || im.System == "prodos"
}
