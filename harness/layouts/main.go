// Command layouts drives the parsing and serialising of on-disk structures (C14).
package main

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/zz_verif/kit"
)

type structure struct {
	name string
	size int
	make func() interface{}
}

var structures = []structure{
	{"VTOC", 256, func() interface{} { return &dos3.VTOC{} }},
	{"CatalogSector", 256, func() interface{} { return &dos3.CatalogSector{} }},
	{"TrackSectorList", 256, func() interface{} { return &dos3.TrackSectorList{} }},
	{"VolumeDirectoryKeyBlock", 512, func() interface{} { return &prodos.VolumeDirectoryKeyBlock{} }},
	{"VolumeDirectoryBlock", 512, func() interface{} { return &prodos.VolumeDirectoryBlock{} }},
	{"SubdirectoryKeyBlock", 512, func() interface{} { return &prodos.SubdirectoryKeyBlock{} }},
	{"SubdirectoryBlock", 512, func() interface{} { return &prodos.SubdirectoryBlock{} }},
}

func parse(x interface{}, data []byte) error {
	if s, ok := x.(disk.SectorSink); ok {
		return s.FromSector(data)
	}
	var b disk.Block
	copy(b[:], data)
	return x.(disk.BlockSink).FromBlock(b)
}

func serialise(x interface{}) ([]byte, error) {
	if s, ok := x.(disk.SectorSource); ok {
		return s.ToSector()
	}
	b, err := x.(disk.BlockSource).ToBlock()
	return b[:], err
}

// walk visits the exported leaf fields of a structure by reflection.
func walk(path string, v reflect.Value, f func(name string, v reflect.Value)) {
	join := func(s string) string {
		if path == "" {
			return s
		}
		return path + "." + s
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			sf := v.Type().Field(i)
			if sf.Anonymous || sf.PkgPath != "" {
				continue
			}
			walk(join(sf.Name), v.Field(i), f)
		}
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			f(path, v)
			return
		}
		for i := 0; i < v.Len(); i++ {
			walk(join(fmt.Sprint(i)), v.Index(i), f)
		}
	case reflect.Uint8, reflect.Uint16, reflect.Int8:
		f(path, v)
	}
}

func value(v reflect.Value) []int {
	switch v.Kind() {
	case reflect.Array:
		r := make([]int, v.Len())
		for i := range r {
			r[i] = int(v.Index(i).Uint())
		}
		return r
	case reflect.Int8:
		return []int{int(v.Int())}
	}
	return []int{int(v.Uint())}
}

// change sets a leaf to a value different in every byte.
func change(t *kit.T, v reflect.Value) {
	x := func() uint64 { return uint64(1 + t.R.Intn(255)) }
	switch v.Kind() {
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).SetUint(v.Index(i).Uint() ^ x())
		}
	case reflect.Int8:
		v.SetInt(int64(int8(byte(v.Int()) ^ byte(x()))))
	case reflect.Uint16:
		v.SetUint(v.Uint() ^ x() ^ x()<<8)
	default:
		v.SetUint(v.Uint() ^ x())
	}
}

func parseCase(t *kit.T, s structure, data []byte) {
	o := kit.Obj{"ev": "parse", "st": s.name, "data": kit.Ints(data), "err": 0}
	fields := kit.Obj{}
	var out []byte
	o["how"] = kit.Outcome(func() {
		x := s.make()
		if t.R.Intn(2) == 0 { // the structure may have held something else
			junk := make([]byte, s.size)
			t.R.Read(junk)
			_ = parse(x, junk)
		}
		in := append([]byte(nil), data...)
		if err := parse(x, in); err != nil {
			o["err"] = 1
			return
		}
		for i := range in { // the structure must not share the input's memory
			in[i] ^= 0xff
		}
		walk("", reflect.ValueOf(x).Elem(), func(n string, v reflect.Value) { fields[n] = value(v) })
		var err error
		if out, err = serialise(x); err != nil {
			o["err"] = 1
		}
	})
	fields["zz"] = []int{}
	o["fields"], o["out"] = fields, kit.Ints(out)
	t.Emit(o)
}

func setCase(t *kit.T, s structure, data []byte) {
	var names []string
	walk("", reflect.ValueOf(s.make()).Elem(), func(n string, v reflect.Value) { names = append(names, n) })
	sort.Strings(names)
	o := kit.Obj{"ev": "set", "st": s.name}
	sets := []kit.Obj{}
	o["how"] = kit.Outcome(func() {
		for _, n := range names {
			x := s.make()
			kit.Must(parse(x, data))
			before, err := serialise(x)
			kit.Must(err)
			var val []int
			walk("", reflect.ValueOf(x).Elem(), func(m string, v reflect.Value) {
				if m == n {
					change(t, v)
					val = value(v)
				}
			})
			after, err := serialise(x)
			kit.Must(err)
			diff := [][2]int{}
			for i := range before {
				if i >= len(after) || before[i] != after[i] {
					diff = append(diff, [2]int{i, int(append(after, make([]byte, 512)...)[i])})
				}
			}
			sets = append(sets, kit.Obj{"name": n, "v": val, "diff": diff})
		}
	})
	o["sets"] = sets
	t.Emit(o)
}

func load(dev []byte, x interface{}, unit int) error {
	if s, ok := x.(disk.SectorSink); ok {
		return disk.UnmarshalLogicalSector(dev, s, byte(unit/16), byte(unit%16))
	}
	return disk.UnmarshalBlock(dev, x.(disk.BlockSink), uint16(unit))
}

func store(dev []byte, x interface{}) error {
	if s, ok := x.(disk.SectorSource); ok {
		return disk.MarshalLogicalSector(dev, s)
	}
	return disk.MarshalBlock(dev, x.(disk.BlockSource))
}

// placeCase loads from, and stores at, some units of a device.
func placeCase(t *kit.T, s structure, units int, at []int) {
	orig := make([]byte, units*s.size)
	t.R.Read(orig)
	dev := append([]byte(nil), orig...)
	delta := func() [][3]int {
		r := [][3]int{}
		for i := range dev {
			if dev[i] != orig[i] {
				if len(r) < 600 {
					r = append(r, [3]int{i / s.size, i % s.size, int(dev[i])})
				}
				dev[i] = orig[i]
			}
		}
		return r
	}
	var names []string
	walk("", reflect.ValueOf(s.make()).Elem(), func(n string, v reflect.Value) { names = append(names, n) })
	for _, u := range at {
		o := kit.Obj{"ev": "place", "st": s.name, "units": units, "unit": u, "err": 0, "name": "zz", "v": []int{},
			"diff0": [][3]int{}, "diff1": [][3]int{}}
		o["how"] = kit.Outcome(func() {
			x := s.make()
			if load(dev, x, u) != nil {
				o["err"] = 1
				return
			}
			err := store(dev, x)
			o["diff0"] = delta()
			n := names[t.R.Intn(len(names))]
			walk("", reflect.ValueOf(x).Elem(), func(m string, v reflect.Value) {
				if m == n {
					change(t, v)
					o["name"], o["v"] = n, value(v)
				}
			})
			err1 := store(dev, x)
			o["diff1"] = delta()
			if err != nil || err1 != nil {
				o["err"] = 1
			}
		})
		t.Emit(o)
	}
}

func main() {
	kit.Main(func(c *kit.Ctx) {
		for _, s := range structures {
			s := s
			// Every value at every offset, 16 rounds at a time.
			for k := 0; k < 256; k += 16 {
				k := k
				c.Case("every-value", func(t *kit.T) {
					m := 2*t.R.Intn(128) + 1
					for j := k; j < k+16; j++ {
						data := make([]byte, s.size)
						for i := range data {
							data[i] = byte(i*m + j + i>>8)
						}
						parseCase(t, s, data)
					}
				})
			}
			for i := 0; i < c.N(4, 60); i++ {
				c.Case("random", func(t *kit.T) {
					data := make([]byte, s.size)
					for k := 0; k < 12; k++ {
						t.R.Read(data)
						if t.R.Intn(2) == 0 { // sparse
							for i := range data {
								if t.R.Intn(8) != 0 {
									data[i] = byte(255 * t.R.Intn(2) * t.R.Intn(2))
								}
							}
						}
						parseCase(t, s, data)
					}
				})
			}
			for i := 0; i < c.N(3, 40); i++ {
				c.Case("set", func(t *kit.T) {
					data := make([]byte, s.size)
					t.R.Read(data)
					setCase(t, s, data)
				})
			}
			c.Case("place", func(t *kit.T) {
				n := 560 * 256 / s.size
				at := t.R.Perm(n)
				at = append(at, n, n+1, n+16)
				placeCase(t, s, n, at)
			})
			if s.size == 512 {
				for _, n := range []int{1, 800, 65536} {
					n := n
					c.Case("large", func(t *kit.T) {
						at := []int{0, n - 1, n / 2}
						for i := 0; i < c.N(5, 30); i++ {
							at = append(at, t.R.Intn(n))
						}
						if n < 65536 {
							at = append(at, n, 65535)
						}
						placeCase(t, s, n, at)
					})
				}
			} else {
				for _, n := range []int{560 + 80, 40 * 16, 256 * 16} {
					n := n
					c.Case("large", func(t *kit.T) {
						at := []int{0, n - 1}
						for i := 0; i < c.N(5, 30); i++ {
							at = append(at, t.R.Intn(n))
						}
						placeCase(t, s, n, at)
					})
				}
			}
		}
	})
}
