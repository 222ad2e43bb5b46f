package main

import (
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// found is what a search prints for one entity.
type found struct {
	kind     int
	id       int64
	tags     string
	lat, lon int64
	refs     []int64
	types    []int64
	roles    string
}

func lit(s string) { v.Assert(v.OutLit(s), "the entity is printed: "+s) }

func num(want int64) {
	n, ok := v.OutNum()
	v.Assert(ok && n == want, "the entity is printed with its values")
}

func hex(want int64) {
	lit("0x")
	n, ok := v.OutHex()
	v.Assert(ok && n == uint64(want), "the entity is printed with its values")
}

var heads = []string{"&t.HLNode{Id:0x", "&t.HLWay{Id:", "&t.HLRelation{Id:"}

// head reads the start of what is printed for an entity.
func head() (kind int, id int64) {
	for i, h := range heads {
		if !v.OutLit(h) {
			continue
		}
		if i == 0 {
			n, ok := v.OutHex()
			v.Assert(ok, "the entity is printed with its id")
			return 2, int64(n)
		}
		n, ok := v.OutNum()
		v.Assert(ok, "the entity is printed with its id")
		return 2 + i, n
	}
	v.Assert(false, "an entity is printed")
	return 0, 0
}

// rest reads what is printed after the id.
func (f found) rest() {
	lit(", Tags:map[string]string{" + f.tags + "}, ")
	switch f.kind {
	case 2:
		lit("Lat:")
		num(f.lat)
		lit(", Lon:")
		num(f.lon)
	case 3:
		lit("Nodes:[]t.NodeId{")
		for i, r := range f.refs {
			if i > 0 {
				lit(", ")
			}
			hex(r)
		}
		lit("}")
	case 4:
		lit("Roles:[]string{" + f.roles + "}, Members:[]int64{")
		for i, r := range f.refs {
			if i > 0 {
				lit(", ")
			}
			num(r)
		}
		lit("}, MemberType:[]int{")
		for i, r := range f.types {
			if i > 0 {
				lit(", ")
			}
			num(r)
		}
		lit("}")
	}
	lit("}\n")
}

// entity makes a group with an entity of any id, and says how it is printed.
func entity() ([]byte, found) { return entityOf(2+v.Choose("kind", 3), someID()) }

func entityOf(kind int, id int64) ([]byte, found) {
	f := found{kind: kind, id: id}
	switch f.kind {
	case 2:
		zl, zo := v.U64("lat"), v.U64("lon")
		f.lat, f.lon = hw.Unzig(zl)*1000+7, hw.Unzig(zo)*1000-9
		f.tags = `"k":"v", "w":"k"`
		b := hw.Field(nil, 1, hw.Packed([]uint64{uint64(f.id) << 1}, 10))
		b = hw.Field(b, 8, hw.Packed([]uint64{zl}, 10))
		b = hw.Field(b, 9, hw.Packed([]uint64{zo}, 10))
		return hw.Group(2, hw.Field(b, 10, []byte{3, 1, 1, 2, 0})), f
	case 3:
		r := v.I64("ref")
		f.tags, f.refs = `"v":"w"`, []int64{r, r + 5}
		b := hw.Num(nil, 1, uint64(f.id), 10)
		b = hw.Field(b, 2, []byte{2})
		b = hw.Field(b, 3, []byte{3})
		return hw.Group(3, hw.Field(b, 8, hw.Packed([]uint64{hw.Zig(r), 10}, 10))), f
	default:
		m := v.U64("member")
		f.refs, f.types, f.roles = []int64{hw.Unzig(m), 0}, []int64{1, 2}, `"", "w"`
		b := hw.Num(nil, 1, uint64(f.id), 10)
		b = hw.Field(b, 8, []byte{0, 3})
		b = hw.Field(b, 9, hw.Packed([]uint64{m, hw.Zig(-f.refs[0])}, 10))
		return hw.Group(4, hw.Field(b, 10, []byte{1, 2})), f
	}
}

// H_find: a few entities of any kind, each with any small id, against one or two ids searched for.
func H_find() {
	w := "1"
	if v.Choose("workers", 2) == 1 {
		w = "2"
	}
	p := hw.Cat(hw.Num(nil, 17, 1000, 2), hw.Num(nil, 19, 7, 1), hw.Num(nil, 20, uint64(1<<64-9), 10))
	st := hw.Strings("", "k", "v", "w")
	file := hw.Frame("OSMHeader", hw.Raw([]byte{0x22, 1, 'x'}))
	shape := v.Choose("shape", 3)
	var fs []found
	one := func() []byte {
		g, f := entity()
		fs = append(fs, f)
		return g
	}
	switch shape {
	case 0: // two blocks
		file = append(file, hw.Frame("OSMData", hw.Raw(hw.Block(st, p, one())))...)
		file = append(file, hw.Frame("OSMData", hw.Comp(hw.Block(st, p, one())))...)
	case 1: // two groups
		file = append(file, hw.Frame("OSMData", hw.Raw(hw.Block(st, p, one(), one())))...)
	case 2: // one group, and an empty block
		file = append(file, hw.Frame("OSMData", hw.Raw(hw.Block(st, p)))...)
		file = append(file, hw.Frame("OSMData", hw.Raw(hw.Block(st, p, one())))...)
	}
	v.WriteFile("in.pbf", file)
	ids := []int64{77, 200}
	args := []string{"-i", "in.pbf", "-w", w, "-e", "77"}
	switch v.Choose("ids", 3) {
	case 0:
		ids = ids[:1]
	case 1:
		args = append(args, "-e", "200")
	case 2: // in no order, one of them twice
		ids = []int64{77, 200, 8}
		args = append(args, "-e", "200", "-e", "77", "-e", "8")
	}
	v.Assert(v.Run("entityfind", args...) == 0, "entityfind ends well")
	if len(fs) == 2 && fs[0].kind == fs[1].kind {
		v.Assume(fs[0].id != fs[1].id)
	}
	left := 0
	for _, f := range fs {
		for _, id := range ids {
			if f.id == id {
				left++
			}
		}
	}
	for ; left > 0; left-- {
		kind, id := head()
		at := -1
		for i, f := range fs {
			if f.kind == kind && f.id == id {
				at = i
			}
		}
		v.Assert(at >= 0, "what is printed is in the file, and printed once")
		wanted := false
		for _, x := range ids {
			wanted = wanted || x == id
		}
		v.Assert(wanted, "what is printed was asked for")
		fs[at].rest()
		fs = append(append([]found(nil), fs[:at]...), fs[at+1:]...)
		v.Reach("found")
	}
	v.Assert(v.OutEOF(), "nothing else is printed")
	v.Reach("done")
}

// H_find_schedules: blocks shared by workers in every order.
func H_find_schedules() {
	v.SchedAll()
	p := hw.Cat(hw.Num(nil, 17, 1000, 2), hw.Num(nil, 19, 7, 1), hw.Num(nil, 20, uint64(1<<64-9), 10))
	var file []byte
	args := []string{"-i", "in.pbf", "-w", "2"}
	var fs []found
	for i := 0; i < v.Param("blocks", 3); i++ {
		g, f := entityOf(2+(i+1)%3, int64(71+i))
		file = append(file, hw.Frame("OSMData", hw.Comp(hw.Block(hw.Strings("", "k", "v", "w"), p, g)))...)
		fs = append(fs, f)
		args = append(args, "-e", v.Itoa(uint64(71+i)))
	}
	v.WriteFile("in.pbf", file)
	v.Assert(v.Run("entityfind", args...) == 0, "entityfind ends well")
	for len(fs) > 0 {
		kind, id := head()
		at := -1
		for i, f := range fs {
			if f.kind == kind && f.id == id {
				at = i
			}
		}
		v.Assert(at >= 0, "what is printed is in the file, and printed once")
		fs[at].rest()
		fs = append(append([]found(nil), fs[:at]...), fs[at+1:]...)
	}
	v.Assert(v.OutEOF(), "nothing else is printed")
	v.Reach("done")
}
