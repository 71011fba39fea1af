// Command filetypes drives the file type tables (C20).
package main

import (
	"fmt"
	"strings"

	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zz_verif/kit"
)

func rows(all bool) []kit.Obj {
	r := []kit.Obj{}
	for _, i := range types.FiletypeInfos(all) {
		r = append(r, kit.Obj{"code": int(i.Type), "name": i.Name, "three": i.ThreeLetter, "one": i.OneLetter,
			"desc": i.Desc, "extra": kit.B(i.Extra), "names": strings.Split(i.NamesString, "|"),
			"text": i.Type.String(), "str": i.Desc + " (" + i.NamesString + ")"})
	}
	return r
}

func list(t *kit.T, all bool) {
	ev := "short"
	if all {
		ev = "full"
	}
	listAs(t, ev, all)
}

func listAs(t *kit.T, ev string, all bool) {
	o := kit.Obj{"ev": ev, "rows": []kit.Obj{}}
	o["how"] = kit.Outcome(func() { o["rows"] = rows(all) })
	t.Emit(o)
}

// columns splits a printed table at the places of its headings.
func columns(out string) [][]string {
	lines := strings.Split(strings.TrimRight(out, "\n"), "\n")
	r := [][]string{}
	if len(lines) < 2 {
		return r
	}
	h := lines[0]
	at := []int{strings.Index(h, "Description"), strings.Index(h, " Name") + 1, strings.Index(h, "Three-letter Name"), strings.Index(h, "One-letter Name")}
	if at[0] != 0 || at[1] == 0 || at[2] < 0 || at[3] < 0 {
		return r
	}
	for _, l := range lines[2:] {
		var row []string
		for k, a := range at {
			b := len(l)
			if k+1 < len(at) && at[k+1] < b {
				b = at[k+1]
			}
			if a > b {
				a = b
			}
			row = append(row, strings.TrimRight(l[a:b], " "))
		}
		r = append(r, row)
	}
	return r
}

func printed(t *kit.T, all bool) {
	args := []string{"filetypes"}
	if all {
		args = append(args, "--all")
	}
	r := t.Run(t.Tmp(), nil, args...)
	t.Emit(kit.Obj{"ev": "printed", "all": kit.B(all), "how": r.How, "rc": r.Rc, "texts": columns(string(r.Stdout))})
}

func lookup(t *kit.T, names []string) {
	for len(names) > 0 {
		n := len(names)
		if n > 4000 {
			n = 4000
		}
		codes := make([]int, n)
		o := kit.Obj{"ev": "lookup", "names": names[:n], "codes": codes}
		o["how"] = kit.Outcome(func() {
			for i, x := range names[:n] {
				c, err := types.FiletypeForName(x)
				codes[i] = int(c)
				if err != nil {
					codes[i] = -1
				}
			}
		})
		t.Emit(o)
		names = names[n:]
	}
}

func main() {
	kit.Main(func(c *kit.Ctx) {
		var known []string
		for _, g := range c.GenLines() {
			if s, ok := g["name"].(string); ok {
				known = append(known, s)
			}
		}
		c.Case("listing", func(t *kit.T) {
			list(t, true)
			list(t, false)
			list(t, true) // a listing must not spoil the next
			printed(t, false)
			printed(t, true)
		})
		c.Case("names", func(t *kit.T) {
			listAs(t, "base", true)
			lookup(t, append([]string{""}, known...))
			var near []string
			for _, k := range known {
				near = append(near, strings.ToLower(k), strings.ToUpper(k), k+" ", " "+k, k[:len(k)-1], k+k, k+"|", "Filetype"+k, "$"+k, k+"\x00")
			}
			for i, k := range known { // two names together
				near = append(near, k+"|"+known[(i*7+1)%len(known)])
			}
			for i := 0; i < 300; i++ {
				near = append(near, fmt.Sprint(i), fmt.Sprintf("%02X", i), fmt.Sprintf("$%02X", i), fmt.Sprintf("SOSReserved%02X", i), fmt.Sprintf("ProDOSReserved%02X", i), fmt.Sprintf("UserDefined%02X", i))
			}
			near = append(near, "é", "TXÉ", "\t", "\n", "a\u0301")
			lookup(t, near)
		})
		for a := 'A'; a <= 'Z'; a++ {
			a := a
			c.Case("three-letter", func(t *kit.T) {
				listAs(t, "base", true)
				var ns []string
				for b := 'A'; b <= 'Z'; b++ {
					ns = append(ns, string([]rune{a, b}))
					for d := 'A'; d <= 'Z'; d++ {
						ns = append(ns, string([]rune{a, b, d}))
					}
				}
				lookup(t, ns)
			})
		}
		c.Case("one-letter", func(t *kit.T) {
			listAs(t, "base", true)
			var ns []string
			for b := 0; b < 128; b++ {
				ns = append(ns, string(rune(b)))
			}
			lookup(t, ns)
		})
		for i := 0; i < c.N(8, 100); i++ {
			c.Case("random", func(t *kit.T) {
				listAs(t, "base", true)
				var ns []string
				for k := 0; k < 1500; k++ {
					x := known[t.R.Intn(len(known))]
					b := []byte(x)
					switch t.R.Intn(4) {
					case 0:
						b[t.R.Intn(len(b))] = byte(33 + t.R.Intn(94))
					case 1:
						p := t.R.Intn(len(b) + 1)
						b = append(b[:p:p], append([]byte{byte(33 + t.R.Intn(94))}, b[p:]...)...)
					case 2:
						y := known[t.R.Intn(len(known))]
						b = []byte(x[:t.R.Intn(len(x)+1)] + y[t.R.Intn(len(y)+1):])
					}
					ns = append(ns, string(b))
				}
				lookup(t, ns)
			})
		}
	})
}
