// Package fsimg records disk images for the byte-level specifications.
package fsimg

import (
	"github.com/zellyn/diskii/zz_verif/kit"
)

// Units describes an image as a table of its units (sectors or blocks):
// at[i] says which of secs is unit i (0: zeros). The table is trimmed after
// its last non-zero unit if trim is set.
func Units(b []byte, u int, trim bool) (at []int, secs [][]int) {
	at = []int{}
	secs = [][]int{}
	seen := map[string]int{}
	zero := string(make([]byte, u))
	last := 0
	for i := 0; i+u <= len(b); i += u {
		k := string(b[i : i+u])
		n := 0
		if k != zero {
			var ok bool
			if n, ok = seen[k]; !ok {
				secs = append(secs, kit.Ints(b[i:i+u]))
				n = len(secs)
				seen[k] = n
			}
		}
		at = append(at, n)
		if n != 0 {
			last = len(at)
		}
	}
	if trim {
		at = at[:last]
	}
	return at, secs
}

// Emit records a floppy image, in the system's own sector order.
func Emit(t *kit.T, b []byte) {
	at, secs := Units(b, 256, false)
	t.Emit(kit.Obj{"ev": "image", "n": len(b), "at": at, "secs": secs})
}

// Lines splits the output of a command in lines.
func Lines(b []byte) [][]int {
	r := [][]int{}
	start := 0
	for i, c := range b {
		if c == '\n' {
			r = append(r, kit.Ints(b[start:i]))
			start = i + 1
		}
	}
	if start < len(b) {
		r = append(r, kit.Ints(b[start:]))
	}
	return r
}

// Graph is a TLC-generated graph of pointers: Start, and Next[p-1] for the
// places 1..N; 0 ends the chain, N+1 leaves the disk.
type Graph struct {
	Start int
	Next  []int
}

// Graphs are the generated graphs.
func Graphs(c *kit.Ctx) []Graph {
	var r []Graph
	for _, m := range c.GenLines() {
		x, ok := m["graph"].([]interface{})
		if !ok {
			continue
		}
		g := Graph{Start: int(x[0].(float64))}
		for _, v := range x[1:] {
			g.Next = append(g.Next, int(v.(float64)))
		}
		r = append(r, g)
	}
	return r
}
