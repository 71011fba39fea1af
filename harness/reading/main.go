// Command reading drives sessions of questions and refused changes on images
// of all three systems (C23).
package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zz_verif/kit"
	"github.com/zellyn/diskii/zz_verif/nakfmt"
	"github.com/zellyn/diskii/zz_verif/pics"
)

var factories = []types.OperatorFactory{dos3.OperatorFactory{}, supermon.OperatorFactory{}, prodos.OperatorFactory{}}

func open(b []byte, im pics.Image) (types.Operator, error) {
	sys := im.System
	if im.Auto {
		sys = "auto"
	}
	op, _, err := disk.OpenImage(append([]byte(nil), b...), im.Name, im.Order, sys, factories, 0)
	return op, err
}

type session struct {
	t     *kit.T
	im    pics.Image
	op    types.Operator
	fresh types.Operator // opened on a copy of the image, until it changes
	dirs  []string
	names []string
	list  []types.Descriptor // last answers, to be overwritten
	file  *types.FileInfo
	prev  *types.FileInfo
	n     int
	dead  bool
}

func (s *session) img() int {
	h := sha256.Sum256(s.op.GetBytes())
	return s.t.Int.Tok(append([]byte("image"), h[:]...))
}

func (s *session) answer(v ...interface{}) int {
	b, err := json.Marshal(v)
	kit.Must(err)
	h := sha256.Sum256(b)
	return s.t.Int.Tok(append([]byte("answer"), h[:]...))
}

type descr struct {
	N, F    []byte
	S, B, L int
	K       bool
	T       int
}

func plain(d types.Descriptor) descr {
	return descr{[]byte(d.Name), []byte(d.Fullname), d.Sectors, d.Blocks, d.Length, d.Locked, int(d.Type)}
}

// ask puts one question: "l" and a directory, or "g" and a name.
func (s *session) ask(q string, fresh bool) {
	if s.dead {
		return
	}
	op := s.op
	if fresh {
		if s.fresh == nil {
			im := s.im
			how := kit.Outcome(func() {
				f, err := openLogical(s.op, im)
				if err == nil {
					s.fresh = f
				}
			})
			if how != "ok" || s.fresh == nil {
				s.t.Emit(kit.Obj{"ev": "died", "how": "could not be repeated: the image does not open again"})
				s.dead = true
				return
			}
		}
		op = s.fresh
	}
	o := kit.Obj{"ev": "ask", "q": fmt.Sprintf("%x", q), "fresh": kit.B(fresh), "a": 0}
	o["how"] = kit.Outcome(func() {
		switch q[0] {
		case 'l':
			ds, err := op.Catalog(q[1:])
			if err != nil {
				ds = nil
			}
			l := []descr{}
			for _, d := range ds {
				l = append(l, plain(d))
			}
			o["a"] = s.answer(err != nil, l)
			s.list = ds
		case 'g':
			fi, err := op.GetFile(q[1:])
			if err != nil {
				fi = types.FileInfo{}
			}
			o["a"] = s.answer(err != nil, plain(fi.Descriptor), fi.Data, int(fi.StartAddress))
			s.prev = s.file
			s.file = &fi
		}
	})
	s.emit(o)
}

// openLogical opens what the session holds once more.
func openLogical(op types.Operator, im pics.Image) (types.Operator, error) {
	b := append([]byte(nil), op.GetBytes()...)
	if len(b) != nakfmt.Size {
		return open(b, im)
	}
	for _, f := range factories {
		if f.Name() == im.System {
			return f.Operator(b, 0)
		}
	}
	return nil, fmt.Errorf("no such system")
}

func (s *session) emit(o kit.Obj) {
	o["img"] = s.img()
	if o["how"] != "ok" && o["how"] != nil {
		s.dead = true
	}
	s.t.Emit(o)
}

func (s *session) write(did func() (bool, error)) {
	o := kit.Obj{"ev": "write", "able": kit.B(s.im.System == "nakedos"), "err": 0}
	before := s.img()
	o["how"] = kit.Outcome(func() {
		_, err := did()
		o["err"] = kit.ErrFlag(err)
	})
	if s.img() != before {
		s.fresh = nil
	}
	s.emit(o)
}

func (s *session) put(name string, data []byte, typ types.Filetype, n int, ow bool) {
	s.write(func() (bool, error) {
		_, err := s.op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: name, Length: n, Type: typ}, Data: data, StartAddress: 0x2000}, ow)
		return err == nil, err
	})
}

func (s *session) pickName() string {
	if len(s.names) == 0 {
		return "X"
	}
	return s.names[s.t.R.Intn(len(s.names))]
}

func (s *session) missing() string {
	return []string{"NO SUCH FILE", "ZZZ9", "", "FD", "1:2:3", "FNOTTHERE", "Q", "DFFF"}[s.t.R.Intn(8)]
}

// target is a file that may be written.
func (s *session) target() string {
	r := s.t.R
	if s.im.System != "nakedos" {
		return s.pickName()
	}
	switch r.Intn(4) {
	case 0:
		return fmt.Sprintf("DF%02X", 5+r.Intn(8))
	case 1:
		return fmt.Sprintf("DF%02X:FNEW%d", 5+r.Intn(8), r.Intn(4))
	case 2:
		return fmt.Sprintf("FNEW%d", r.Intn(6))
	}
	for i := 0; i < 6; i++ {
		n := s.pickName()
		if f := nakfmt.Number(n); f > 4 {
			return n
		}
	}
	return "FNEW9"
}

func (s *session) step(k string) {
	if s.dead {
		return
	}
	r := s.t.R
	switch k {
	case "list":
		d := ""
		if len(s.dirs) > 0 && r.Intn(2) == 0 {
			d = s.dirs[r.Intn(len(s.dirs))]
		}
		s.ask("l"+d, false)
	case "get":
		s.ask("g"+s.pickName(), false)
	case "missing":
		if r.Intn(3) == 0 {
			s.ask("lNO/SUCH/DIR", false)
		} else {
			s.ask("g"+s.missing(), false)
		}
	case "fresh":
		if r.Intn(3) == 0 {
			s.ask("l", true)
		} else {
			s.ask("g"+s.pickName(), true)
		}
	case "put":
		b := make([]byte, 1+r.Intn(900))
		r.Read(b)
		n := s.target()
		s.put(n, b, types.FiletypeBinary, len(b), true)
		if s.im.System == "nakedos" {
			s.learn()
		}
	case "refused":
		b := make([]byte, 1+r.Intn(900))
		r.Read(b)
		switch r.Intn(6) {
		case 0:
			s.put(s.target(), b, types.FiletypeASCIIText, len(b), true)
		case 1:
			s.put(s.target(), b, types.FiletypeBinary, len(b)+1, true)
		case 2:
			s.put(s.target(), nil, types.FiletypeBinary, 0, true)
		case 3:
			s.put(s.target(), make([]byte, 140000), types.FiletypeBinary, 140000, true)
		case 4:
			s.put("1:2:3", b, types.FiletypeBinary, len(b), true)
		default:
			s.put(s.pickName(), b, types.FiletypeBinary, len(b), false)
		}
	case "del":
		n := s.target()
		s.write(func() (bool, error) { return s.op.Delete(n) })
	case "delmissing":
		n := s.missing()
		s.write(func() (bool, error) { return s.op.Delete(n) })
	case "scribble":
		for i := range s.list {
			s.list[i].Name += "?"
			s.list[i].Fullname = "?"
			s.list[i].Length--
			s.list[i].Type ^= 0x55
		}
		for _, f := range []*types.FileInfo{s.file, s.prev} {
			if f == nil {
				continue
			}
			d := f.Data[:cap(f.Data)]
			for i := range d {
				d[i] ^= byte(1 + r.Intn(255))
			}
		}
		s.emit(kit.Obj{"ev": "scribble"})
	}
}

// learn finds out what there is to ask for.
func (s *session) learn() {
	_ = kit.Outcome(func() {
		f, err := openLogical(s.op, s.im)
		if err != nil {
			return
		}
		ds, err := f.Catalog("")
		if err != nil {
			return
		}
		s.names = nil
		for _, d := range ds {
			s.names = append(s.names, d.Name)
		}
	})
}

func begin(t *kit.T) *session {
	for try := 0; ; try++ {
		s := &session{t: t, im: pics.Pick(t)}
		var op types.Operator
		var err error
		if kit.Outcome(func() { op, err = open(s.im.File, s.im) }) != "ok" || err != nil || op == nil || op.Name() != s.im.System {
			if try > 50 {
				return nil
			}
			continue
		}
		s.op = op
		s.learn()
		if s.im.System == "prodos" {
			s.dirs = subdirs(s.op, s.names)
		}
		t.Emit(kit.Obj{"ev": "open", "img": s.img()})
		return s
	}
}

func subdirs(op types.Operator, names []string) []string {
	var r []string
	_ = kit.Outcome(func() {
		for _, n := range names {
			ds, err := op.Catalog(n)
			if err != nil {
				continue
			}
			r = append(r, n)
			for _, d := range ds {
				if _, err := op.Catalog(n + "/" + d.Name); err == nil {
					r = append(r, n+"/"+d.Name)
				}
			}
		}
	})
	return r
}

// all asks everything, live and afresh, in changing order.
func (s *session) all(max int) {
	var qs []string
	qs = append(qs, "l", "lNO/SUCH/DIR", "gNO SUCH FILE")
	for _, d := range s.dirs {
		qs = append(qs, "l"+d)
	}
	for _, n := range s.names {
		qs = append(qs, "g"+n)
	}
	s.t.R.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
	if len(qs) > max {
		qs = qs[:max]
	}
	for _, q := range qs {
		s.ask(q, s.t.R.Intn(2) == 0)
		s.ask(q, s.t.R.Intn(2) == 0)
	}
}

func main() {
	kit.Main(func(c *kit.Ctx) {
		for _, g := range c.GenLines() {
			var ks []string
			for _, k := range g["session"].([]interface{}) {
				ks = append(ks, k.(string))
			}
			c.Case("session", func(t *kit.T) {
				s := begin(t)
				if s == nil {
					return
				}
				if t.R.Intn(2) == 0 {
					s.all(6)
				}
				for _, k := range ks {
					s.step(k)
				}
				s.all(8)
			})
		}
		kinds := []string{"list", "get", "get", "missing", "put", "refused", "del", "delmissing", "scribble", "fresh", "fresh"}
		for i := 0; i < c.N(120, 1500); i++ {
			c.Case("long", func(t *kit.T) {
				s := begin(t)
				if s == nil {
					return
				}
				s.all(100)
				for k := 20 + t.R.Intn(40); k > 0; k-- {
					s.step(kinds[t.R.Intn(len(kinds))])
				}
				s.all(100)
			})
		}
	})
}
