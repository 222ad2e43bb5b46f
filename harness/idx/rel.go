package main

import (
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// wayIndexFile is a way index of the harness's making.
func wayIndexFile(ids []uint64, lists [][]int64) []byte {
	var index, locs []byte
	for i, id := range ids {
		index = append(index, le(id<<33|uint64(len(locs))>>3)...)
		last := int64(0)
		for _, r := range lists[i] {
			locs = hw.VarW(locs, hw.Zig(r-last), 10)
			last = r
		}
		for locs = append(locs, 0); len(locs)%8 != 0; {
			locs = append(locs, 0)
		}
	}
	return hw.Cat(le(uint64(len(ids))), le(3), index, locs)
}

func geti64(b []byte, at int) int64 {
	x := uint64(0)
	for i := 7; i >= 0; i-- {
		x = x<<8 | uint64(b[at+i])
	}
	return int64(x)
}

// H_relindex: relations with members of any kind and id, against an index of up to two
// ways, with up to three passes.
func H_relindex() {
	workers := v.Choose("workers", 3) // one, two, two and the other schedule
	if workers == 2 {
		v.SchedReverse()
		workers = 1
	}
	nways := v.Choose("indexed ways", 3)
	var ids []uint64
	var lists [][]int64
	for i := 0; i < nways; i++ {
		id := uint64(v.Byte("indexed"))
		v.Assume(i == 0 || id > ids[i-1])
		ids = append(ids, id)
		if i == 0 {
			lists = append(lists, []int64{-1<<63 + 5, -1<<63 + 9, v.I64("loc")})
			v.Assume(lists[0][2] != 0 && lists[0][2] != lists[0][1]) // no difference would be the end
		} else {
			lists = append(lists, []int64{7})
		}
	}
	v.WriteFile("w.idx", wayIndexFile(ids, lists))

	n := v.Param("members", 2)
	var want []int64
	rel := func(rid int64, k int) []byte {
		var roles, types []uint64
		var mem []int64
		var codes []uint64
		last := int64(0)
		for i := 0; i < k; i++ {
			m := v.I64("member")
			codes = append(codes, hw.Zig(m-last))
			last = m
			t := uint64(v.Choose("type", 3)) // node, way, relation
			mem, types, roles = append(mem, m), append(types, t), append(roles, 0)
		}
		ways := int64(0)
		for _, t := range types {
			if t == 1 {
				ways++
			}
		}
		want = append(want, rid, ways)
		for i, m := range mem {
			if types[i] != 1 {
				continue
			}
			want = append(want, m)
			at := -1
			for j, id := range ids {
				if m == int64(id) {
					at = j
				}
			}
			if at < 0 {
				want = append(want, 0)
			} else {
				want = append(want, int64(len(lists[at])))
				want = append(want, lists[at]...)
			}
		}
		var b []byte
		b = hw.Num(b, 1, uint64(rid), 10)
		b = hw.Field(b, 8, hw.Packed(roles, 1))
		b = hw.Field(b, 9, hw.Packed(codes, 10))
		b = hw.Field(b, 10, hw.Packed(types, 1))
		return b
	}
	st := hw.Strings("", "r")
	file := [][]byte{header()}
	shape := v.Choose("shape", v.Param("shapes", 5))
	add := func(gs ...[]byte) { file = append(file, hw.Frame("OSMData", hw.Raw(hw.Block(st, nil, gs...)))) }
	rid := v.I64("rid")
	switch shape {
	case 0:
		add(hw.Group(2, smallDense()))
		add(hw.Group(4, rel(rid, n)))
	case 1:
		add(hw.Group(4, rel(rid, 1), rel(rid+5, n-1)), wayGroup())
	case 2:
		add(hw.Group(4, rel(rid, n-1)), hw.Group(4, rel(3, 0)))
		add(wayGroup())
		add(hw.Group(4, rel(rid+1, 1)))
	case 3:
		add(wayGroup())
	case 4:
		add()
		add(wayGroup(), nil, hw.Group(4, rel(rid, n)))
		add()
		add(hw.Group(2, smallDense()), hw.Group(4, rel(rid+7, 0)))
		add()
	}
	v.WriteFile("in.pbf", hw.Cat(file...))
	passes := 1 + v.Choose("passes", 3)
	if workers > 0 && passes != 2 {
		return
	}
	code := v.Run("relindex", "-i", "in.pbf", "-x", "w.idx", "-o", "out.idx", "-w", v.Itoa(uint64(1+workers)), "-p", v.Itoa(uint64(passes)), "-r", "0")
	v.Assert(code == 0, "relindex ends well")
	v.Assert(v.FileList() == "in.pbf out.idx w.idx", "no temporary file is left")
	out := v.ReadFile("out.idx")
	v.Assert(len(out) == 8*len(want), "the index has the expected length")
	for i, x := range want {
		v.Assert(geti64(out, 8*i) == x, "the index lists the way members with their locations")
	}
	v.Reach("done")
}
