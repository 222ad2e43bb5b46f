package main

import (
	"github.com/squizzling/osmindex/internal/wayindex"
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// collapse is what the index keeps of a way's references.
func collapse(refs []int64) []int64 {
	var out []int64
	last := int64(0)
	for _, r := range refs {
		if r != last {
			out = append(out, r)
		}
		last = r
	}
	return out
}

// refCodes makes n references: any differences, as zigzag codes, and the values they amount to.
func refCodes(n int, wide bool) (codes []uint64, refs []int64) {
	last := int64(0)
	for i := 0; i < n; i++ {
		var z uint64
		if wide {
			z = v.U64("ref")
		} else {
			z = uint64(v.U16("ref"))
		}
		last += hw.Unzig(z)
		codes, refs = append(codes, z), append(refs, last)
	}
	return codes, refs
}

func wayMsg(id uint64, codes []uint64, w int) []byte {
	var b []byte
	b = hw.Num(b, 1, id, 5)
	b = hw.Field(b, 8, hw.Packed(codes, w))
	return b
}

func sameRefs(got, want []int64) bool {
	if len(got) != len(want) {
		return false
	}
	same := true
	for i := range got {
		same = same && got[i] == want[i]
	}
	return same
}

// H_way_lookup: ways of up to maxr references each, split into groups and blocks at every place.
func H_way_lookup() {
	n, maxr := v.Param("ways", 2), v.Param("refs", 2)
	var ids []uint64
	var lists [][]int64
	var group, groups [][]byte
	file := [][]byte{header()}
	workers := 1 + v.Choose("workers", 2)
	others := workers == 2 // groups without ways, and blocks without groups, between them
	if others {
		file = append(file, hw.Frame("OSMData", hw.Raw(hw.Block(hw.Strings(""), nil))))
		groups = append(groups, relGroup(), nil)
	}
	prev := uint64(0)
	big := v.Choose("wide", 2) == 1 // one way of any references, or several of small ones
	if big {
		n = 1
	}
	for i := 1; i <= n; i++ {
		id := v.U64("id")
		v.Assume(id < 1<<31 && (i == 1 || id > prev))
		prev = id
		k := v.Choose("refs", maxr+1)
		w := 3
		if big {
			w = 10
		}
		codes, refs := refCodes(k, big)
		ids, lists = append(ids, id), append(lists, collapse(refs))
		group = append(group, wayMsg(id, codes, w))
		cut := 2
		if i < n {
			cut = v.Choose("cut", 3) // none, group, block
		}
		if cut == 0 {
			continue
		}
		groups = append(groups, hw.Group(3, group...))
		group = nil
		if others {
			groups = append(groups, hw.Group(2, hw.DenseZ([]uint64{10}, []uint64{2}, []uint64{4}, nil, 1)))
		}
		if cut == 2 {
			file = append(file, hw.Frame("OSMData", hw.Raw(hw.Block(hw.Strings(""), nil, groups...))))
			groups = nil
			if others {
				file = append(file, hw.Frame("OSMData", hw.Raw(hw.Block(nil, nil))))
			}
		}
	}
	v.WriteFile("in.pbf", hw.Cat(file...))
	align := []uint64{3, 0, 6}[v.Choose("align", v.Param("aligns", 2))]
	st := v.Run("wayindex", "-i", "in.pbf", "-o", "out.idx", "-w", v.Itoa(uint64(workers)), "-a", v.Itoa(align), "-r", "0")
	v.Assert(st == 0, "wayindex ends well")
	v.Assert(v.FileList() == "in.pbf out.idx", "only the output is left")
	si := wayindex.NewWayIndex("out.idx", nil).SubIndexWithScaledPass(0, 1)
	hint := v.Choose("hint", n+1)
	if v.Choose("ask", 2) == 0 {
		i := v.Choose("which", n)
		got, h, ok := si.FindLocations(int64(ids[i]), hint)
		si.FindLocations(int64(ids[(i+1)%n]), h) // what was found before stays what it is
		v.Assert(ok, "way is found")
		v.Assert(sameRefs(got, lists[i]), "way has its references")
		v.Reach("found")
	} else {
		id := v.I64("other")
		for _, x := range ids {
			v.Assume(id != int64(x))
		}
		_, _, ok := si.FindLocations(id, hint)
		v.Assert(!ok, "other id is not found")
		v.Reach("not found")
	}
}

// H_way_passes: an index file of a few ways with reference lists of different sizes, split into
// any number of passes.
func H_way_passes() {
	maxE, maxP := v.Param("ways", 3), v.Param("passes", 5)
	shift := uint64(3)
	if v.Choose("shift", 2) == 1 {
		shift = 0
	}
	var index, locs []byte
	var ids []uint64
	var lists [][]int64
	ne := v.Choose("ways", maxE+1)
	prev := uint64(0)
	for e := 0; e < ne; e++ {
		id := v.U64("id")
		v.Assume(id < 1<<31 && (e == 0 || id > prev))
		prev = id
		k := []int{0, 1, 3, 10}[v.Choose("refs", v.Param("sizes", 3))]
		index = append(index, le(id<<33|uint64(len(locs))>>shift)...)
		ids = append(ids, id)
		var refs []int64
		last := int64(0)
		for i := 0; i < k; i++ {
			last += int64(i%3) + 1
			refs = append(refs, last)
			locs = hw.Var(locs, hw.Zig(int64(i%3)+1))
		}
		lists = append(lists, refs)
		locs = append(locs, 0)
		for locs = append(locs, 0); len(locs)%(1<<shift) != 0; {
			locs = append(locs, 0)
		}
	}
	v.WriteFile("x.idx", hw.Cat(le(uint64(ne)), le(shift), index, locs))
	ix := wayindex.NewWayIndex("x.idx", nil)
	passes := 1 + v.Choose("passes", maxP)
	hint := v.Choose("hint", 2)
	var id int64
	at := -1
	if v.Choose("ask", 2) == 0 {
		if ne == 0 {
			return
		}
		at = v.Choose("which", ne)
		id = int64(ids[at])
	} else {
		id = v.I64("other")
		for _, x := range ids {
			v.Assume(id != int64(x))
		}
	}
	found := false
	for p := 0; p < passes; p++ {
		got, _, ok := ix.SubIndexWithScaledPass(p, passes).FindLocations(id, hint)
		if ok {
			found = true
			v.Assert(at >= 0, "an id that is not indexed is found in no pass")
			v.Assert(sameRefs(got, lists[at]), "the references found are those of the id")
		}
	}
	if at >= 0 {
		v.Assert(found, "every indexed id is found in some pass")
		v.Reach("found")
	} else {
		v.Assert(!found, "an id that is not indexed is found in no pass")
		v.Reach("not found")
	}
}

// H_way_search: an index of many ways asked for any id with any hint, in one pass or several,
// timed or not.
func H_way_search() {
	n := v.Param("ways", 11)
	var index, locs []byte
	var ids []int64
	var lists [][]int64
	for e := 0; e < n; e++ {
		id := uint64(5 + 3*e*e)
		if e%4 == 2 {
			id = uint64(ids[e-1] + 1)
		}
		index = append(index, le(id<<33|uint64(len(locs))>>3)...)
		ids = append(ids, int64(id))
		var refs []int64
		last := int64(0)
		for i := 0; i < (e*5)%7; i++ {
			last += int64(e + 1)
			refs = append(refs, last)
			locs = hw.Var(locs, hw.Zig(int64(e+1)))
		}
		lists = append(lists, refs)
		for locs = append(locs, 0); len(locs)%8 != 0; {
			locs = append(locs, 0)
		}
	}
	v.WriteFile("x.idx", hw.Cat(le(uint64(n)), le(3), index, locs))
	var timing *float64
	if v.Choose("timed", 2) == 1 {
		f := []float64{2, 1.5, 1.05, 1, 0, -3}[v.Choose("factor", 6)]
		timing = &f
		v.AnyClock()
	}
	ix := wayindex.NewWayIndex("x.idx", timing)
	passes := 1
	if timing == nil {
		passes = []int{1, 2, 5}[v.Choose("passes", 3)]
	}
	id := v.I64("id")
	hint := 0
	if timing == nil {
		hint = v.Choose("hint", n+2)
	}
	found := false
	var got []int64
	for p := 0; p < passes; p++ {
		si := ix.SubIndexWithScaledPass(p, passes)
		refs, h, ok := si.FindLocations(id, hint)
		if ok {
			v.Assert(!found || sameRefs(refs, got), "the references found are those of the id")
			found, got = true, refs
			again, _, ok := si.FindLocations(id, h)
			si.FindLocations(ids[1], h) // what was found before stays what it is
			v.Assert(ok && sameRefs(again, refs), "asking again with the hint returned gives the same")
		}
	}
	at := -1
	for k := range ids {
		if ids[k] == id {
			at = k
		}
	}
	v.Assert(found == (at >= 0), "exactly the indexed ids are found")
	if at >= 0 {
		v.Assert(sameRefs(got, lists[at]), "the references found are those of the id")
		v.Reach("found")
	} else {
		v.Reach("not found")
	}
}
