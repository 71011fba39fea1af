// Package pics makes images of all systems.
package pics

import (
	"fmt"
	"math/rand"

	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zz_verif/dosfmt"
	"github.com/zellyn/diskii/zz_verif/kit"
	"github.com/zellyn/diskii/zz_verif/nakfmt"
	"github.com/zellyn/diskii/zz_verif/prodosfmt"
)

// Image is an image file and what it holds.
type Image struct {
	File   []byte // as stored
	Name   string
	Order  types.DiskOrder
	System string
	Auto   bool // let the program find out
}

func toOrder(r *rand.Rand, phys []byte) ([]byte, types.DiskOrder) {
	if r.Intn(2) == 0 {
		return nakfmt.PhysToDos(phys), "do"
	}
	return nakfmt.PhysToPo(phys), "po"
}

// dosName makes the name of a file: mostly plain, and different from others.
func dosName(r *rand.Rand, n int) string {
	const odd = "%%%\\\"'`$&*?,;:.=@#!~<>|(){}[]^_+- "
	name := fmt.Sprintf("FILE %d", n)
	switch r.Intn(4) {
	case 0: // with odd characters anywhere
		b := []byte(name)
		for i := 1 + r.Intn(3); i > 0; i-- {
			k := r.Intn(len(b) + 1)
			b = append(b[:k], append([]byte{odd[r.Intn(len(odd))]}, b[k:]...)...)
		}
		name = string(b)
	case 1:
		name = []string{" %s", "  %s", "%%d%s", "%s%%", "%%%%%s", "%s%%!s(", "%s\t\a", "100%% %s", "%s THIRTY LETTERS OF NAME AND MORE", "\\n%s"}[r.Intn(10)]
		name = fmt.Sprintf(name, fmt.Sprint(n, "X"))
	}
	return name
}

func dosImage(r *rand.Rand) []byte {
	d := dosfmt.New(r)
	cat := d.Catalog(1 + r.Intn(4))
	n := 0
	for _, c := range cat {
		for s := 0; s < 7; s++ {
			if r.Intn(3) > 0 || n == 0 {
				l := make([]byte, 1+r.Intn(3000))
				r.Read(l)
				typ := []byte{0, 1, 2, 4, 4}[r.Intn(5)]
				switch typ {
				case 1, 2:
					v := len(l) - 2 - r.Intn(2)
					if v >= 0 {
						l[0], l[1] = byte(v), byte(v>>8)
					}
				case 4:
					v := len(l) - 4 - r.Intn(2)
					if v >= 0 {
						l[2], l[3] = byte(v), byte(v>>8)
					}
				}
				first, cnt := d.Store(dosfmt.Split(l))
				d.Entry(c, s, first, typ, dosfmt.Name(dosName(r, n)), cnt)
				n++
			}
		}
	}
	return d.B
}

// Pick makes an image of any system.
func Pick(t *kit.T) Image {
	r := t.R
	var im Image
	switch r.Intn(8) {
	case 0, 1:
		im.System = "dos3"
		b := t.Disk("data/disks/dos33master.dsk")
		if r.Intn(4) > 0 {
			b = dosImage(r)
		}
		im.File, im.Order = toOrder(r, nakfmt.DosToPhys(b))
	case 2:
		im.System = "prodos"
		im.Order = "po"
		im.File = prodosfmt.Random(r, []int{60, 600, 1600}[r.Intn(3)], 1+r.Intn(12)).B
		im.Name = "x.hdv"
	case 3:
		im.System = "prodos"
		im.File, im.Order = toOrder(r, nakfmt.PoToPhys(prodosfmt.Random(r, 280, 1+r.Intn(8)).B))
	default:
		im.System = "nakedos"
		var phys []byte
		switch r.Intn(5) {
		case 0:
			phys = nakfmt.Real(t.Ctx, "Super-Mon-2.0.dsk")
		case 1:
			phys = nakfmt.Tight(r, r.Intn(2) == 0)
		default:
			phys = nakfmt.Blank(r, nakfmt.Opts{Symbols: r.Intn(5) > 0, FreeSectors: []int{0, 3, 12}[r.Intn(3)], Scatter: r.Intn(2) == 0,
				UsedFiles: r.Intn(12), LiveSyms: []int{0, 3, 40, 300}[r.Intn(4)], OneClass: r.Intn(4) == 0})
		}
		im.File, im.Order = toOrder(r, phys)
	}
	if im.Name == "" {
		im.Name = "x." + string(im.Order)
	}
	im.Auto = r.Intn(3) == 0
	return im
}
