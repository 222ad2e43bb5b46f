// The figures about lookups.
package main

import (
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/wayindex"
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// counted: one lookup, of an id which is in the part of a pass or not.
func counted(before, after [4]uint64, in, hinted, beyond bool) {
	what := 2
	switch {
	case beyond:
		what = 3
	case in && hinted:
		what = 0
	case in:
		what = 1
	}
	for i := range before {
		want := before[i]
		if i == what {
			want++
		}
		v.Assert(after[i] == want, "a lookup is counted once, as what it is")
	}
	v.Reach([]string{"by the hint", "hit", "missed", "deferred"}[what])
}

// H_stats_node: two lookups of any ids with any hints in any pass over an index with gaps.
func H_stats_node() {
	n := v.Param("ranges", 4)
	var ix index
	var firsts, lasts []uint64
	for e := 0; e < n; e++ {
		first := uint64(10*e + e%2)
		codes := []uint64{1<<63 | 5, 0, 1<<63 | 9, 1<<63 | 1}[:1+e%4]
		ix.add(first, codes...)
		firsts, lasts = append(firsts, first), append(lasts, first+uint64(len(codes))-1)
	}
	v.WriteFile("x.idx", ix.file())
	idx := nodeindex.NewNodeIndex("x.idx", nil)
	passes := 1 + v.Choose("passes", 3)
	si := idx.SubIndex(uint64(v.Choose("pass", passes)), uint64(passes))
	count := si.ElementCount()
	from := 0
	for count > 0 && firsts[from] != si.Element(0).FirstID() {
		from++
	}
	for k := 0; k < 2; k++ {
		before := [4]uint64{idx.HitHint, idx.HitDefault, idx.MissDefault, idx.MissDeferred}
		id, hint := v.U64("id"), v.Choose("hint", count+1)
		si.FindNode(id, hint)
		in, hinted, top := false, false, uint64(0)
		for e := from; e < from+count; e++ {
			if firsts[e] <= id && id <= lasts[e] {
				in, hinted = true, e == from+hint
			}
			top = lasts[e]
		}
		counted(before, [4]uint64{idx.HitHint, idx.HitDefault, idx.MissDefault, idx.MissDeferred}, in, hinted, id > top)
	}
}

// H_stats_way: so for ways.
func H_stats_way() {
	var ids []uint64
	var lists [][]int64
	for e := 0; e < v.Param("ways", 5); e++ {
		ids, lists = append(ids, uint64(3*e+e%2+1)), append(lists, []int64{int64(e), 8})
	}
	v.WriteFile("x.idx", wayIndexFile(ids, lists))
	idx := wayindex.NewWayIndex("x.idx", nil)
	passes := 1 + v.Choose("passes", 3)
	si := idx.SubIndexWithScaledPass(v.Choose("pass", passes), passes)
	for k := 0; k < 2; k++ {
		before := [4]uint64{idx.HitHint, idx.HitDefault, idx.MissDefault, idx.MissDeferred}
		id, hint := v.I64("id"), v.Choose("hint", len(si.Ids)+1)
		si.FindLocations(id, hint)
		in, hinted, top := false, false, int64(0)
		for e := range si.Ids {
			if x := si.Ids[e].WayID(); x == id {
				in, hinted = true, e == hint
			}
			top = si.Ids[e].WayID()
		}
		counted(before, [4]uint64{idx.HitHint, idx.HitDefault, idx.MissDefault, idx.MissDeferred}, in, hinted, id > top)
	}
}

// figures reads what a command prints about its lookups.
func figures() [4]int64 {
	var f [4]int64
	for i, s := range []string{"hitHint:      ", "hitDefault:   ", "missDefault:  ", "missDeferred: "} {
		v.Assert(v.OutLit(s), "the figures are printed")
		n, ok := v.OutNum()
		v.Assert(ok && v.OutLit("\n"), "the figures are printed")
		f[i] = n
	}
	return f
}

// H_stats_rewrite: a file of two blocks of ways with any reference among them, two workers, every
// interleaving.
func H_stats_rewrite() {
	var ix index
	ix.add(5, 1<<63|5, 0)
	ix.add(100, 1<<63|5, 0, 1<<63|1<<40)
	v.WriteFile("n.idx", ix.file())
	x := int64(v.U16("ref"))
	v.WriteFile("in.pbf", pbf(2, func(i int) [][]byte {
		if i == 0 {
			return [][]byte{hw.Group(3, wayOf(10, 5, 50, 1<<41))}
		}
		return [][]byte{hw.Group(3, wayOf(20, 102, 60, 1<<40|x))}
	}))
	v.VisibleAtomics()
	v.SchedAll()
	st := v.Run("rewritenodes", "-i", "in.pbf", "-x", "n.idx", "-o", "out", "-w", "2", "-r", "0")
	v.Assert(st == 0, "rewritenodes ends well")
	f := figures()
	v.Assert(f[0]+f[1] == 2, "every hit is counted")
	v.Assert(f[2] == 2, "every miss is counted")
	v.Assert(f[3] == 2, "every id beyond the index is counted")
	v.Reach("done")
}

// H_stats_refs: a way with references of any kind.
func H_stats_refs() {
	var ix index
	ix.add(5, 1<<63|5, 0)
	ix.add(100, 1<<63|5, 0, 1<<63|1<<40)
	v.WriteFile("n.idx", ix.file())
	var refs []int64
	var hits, misses, beyond int64
	for k := 0; k < v.Param("refs", 2); k++ {
		r := v.I64("ref")
		v.Assume(r>>62 == 0 || r>>62 == -1)
		refs = append(refs, r)
		switch {
		case r < 0:
		case r >= 5 && r <= 6 || r >= 100 && r <= 102:
			hits++
		case r > 102:
			beyond++
		default:
			misses++
		}
	}
	v.WriteFile("in.pbf", pbf(1, func(int) [][]byte { return [][]byte{hw.Group(3, wayOf(10, refs...))} }))
	st := v.Run("rewritenodes", "-i", "in.pbf", "-x", "n.idx", "-o", "out", "-w", "1", "-r", "0")
	v.Assert(st == 0, "rewritenodes ends well")
	f := figures()
	v.Assert(f[0]+f[1] == hits && f[2] == misses && f[3] == beyond, "the figures are those of the references")
	v.Reach("done")
}

// H_stats_rel: a relation of any two ways, in one pass or two.
func H_stats_rel() {
	v.WriteFile("w.idx", wayIndexFile([]uint64{5, 9}, [][]int64{{7, 8}, {3, 4}}))
	a, b := int64(v.U16("first")), int64(v.U16("second"))
	v.WriteFile("in.pbf", pbf(1, func(int) [][]byte {
		return [][]byte{hw.Group(4, hw.Relation(7, nil, nil, []uint64{0, 0}, []int64{a, b}, []uint64{1, 1}, 5))}
	}))
	passes := 1 + v.Choose("passes", 2)
	st := v.Run("relindex", "-i", "in.pbf", "-x", "w.idx", "-o", "out", "-w", "1", "-r", "0", "-p", v.Itoa(uint64(passes)))
	v.Assert(st == 0, "relindex ends well")
	for p := 0; p < passes; p++ {
		v.OutSkipLine()
	}
	f := figures()
	var hits, misses, beyond int64
	for _, x := range []int64{a, b} {
		switch {
		case x == 5 || x == 9:
			hits++
		case x > 9:
			beyond++
		default:
			misses++
		}
	}
	v.Assert(f[0]+f[1] == hits, "every hit is counted")
	if passes == 1 {
		v.Assert(f[2] == misses && f[3] == beyond, "every miss is counted")
	} else {
		all := f[2] + f[3]
		v.Assert(all >= 2*(misses+beyond) && all <= 2*(misses+beyond)+hits, "every miss is counted in each pass")
	}
	v.Reach("done")
}
