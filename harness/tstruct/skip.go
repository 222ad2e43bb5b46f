package main

import (
	"github.com/squizzling/osmindex/internal/t"
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// H_skip: a block as another program might write it (with fields the repository does not keep,
// longer varints than needed, unusual order), under every combination of the skip options.
func H_skip() {
	mask := v.Choose("skip", 16)
	rd := &t.PBReader{SkipStringTable: mask&1 != 0, SkipDenseNodes: mask&2 != 0, SkipWays: mask&4 != 0, SkipRelations: mask&8 != 0}
	st := hw.Strings("", string(v.Bytes("s", 1)), "xy")
	if v.Choose("strings", 2) == 1 {
		st = []byte{} // an empty table, which is not the same as none
	}
	sm := func(n string) int64 { return small(n) }
	kinds := v.Choose("layout", v.Param("layouts", 6))
	info := hw.Field(nil, 5, v.Bytes("denseinfo", 2))
	dense := func() []byte {
		d := hw.Dense([]int64{sm("id"), sm("id")}, []int64{sm("lat"), -sm("lat")}, []int64{sm("lon"), sm("lon")}, []uint64{1, 2, 0, 0}, 3)
		return append(d, info...)
	}
	way := func() []byte {
		w := hw.Way(sm("way"), []uint64{1}, []uint64{2}, []int64{sm("ref"), sm("ref")}, 2)
		return append(hw.Field(nil, 4, v.Bytes("wayinfo", 1)), w...)
	}
	rel := func() []byte {
		r := hw.Relation(sm("rel"), []uint64{1}, []uint64{2}, []uint64{0}, []int64{sm("mem")}, []uint64{uint64(v.Int("type", 0, 2))}, 2)
		return append(r, hw.Field(nil, 4, v.Bytes("relinfo", 1))...)
	}
	var gs [][]byte
	switch kinds {
	case 0:
		gs = [][]byte{hw.Group(2, dense())}
	case 1:
		gs = [][]byte{hw.Group(3, way(), way()), hw.Group(2, dense())}
	case 2:
		gs = [][]byte{hw.Group(4, rel(), rel()), hw.Group(3, way())}
	case 3:
		gs = [][]byte{hw.Cat(hw.Group(4, rel()), hw.Group(3, way()), hw.Group(2, dense()))}
	case 4:
		gs = [][]byte{hw.Group(2, dense()), hw.Group(2, dense()), {}}
	case 5:
		gs = [][]byte{hw.Group(3, way(), way(), []byte{}), hw.Group(4, []byte{}), hw.Group(2, []byte{})}
	}
	gran := uint64(v.Int("gran", 1, 300))
	rest := hw.Num(nil, 17, gran, 2)
	if v.Choose("offsets", 2) == 1 {
		rest = hw.Num(rest, 18, 7, 1)
		rest = hw.Num(rest, 20, uint64(small("lonoff")), 1)
		rest = hw.Num(rest, 19, uint64(small("latoff")), 1)
	}
	in := hw.Block(st, rest, gs...)
	check(in, rd)
	v.Reach("done")
}

// check reads and writes a block, skipping parts or not.
func check(in []byte, rd *t.PBReader) {
	orig := append([]byte(nil), in...)

	all := read(in, &t.PBReader{})
	raw := read(in, &t.PBReader{SkipStringTable: true, SkipDenseNodes: true, SkipWays: true, SkipRelations: true})
	a := read(in, rd)
	// what is decoded does not depend on what is skipped, and what is skipped is the input's bytes
	v.Assert(agree(a, all, raw, rd), "read: decoded parts as without skipping, skipped parts as in the input")
	out := a.Write(nil)
	v.Assert(hw.EqBytes(in, orig), "the input is not modified")
	all2 := read(out, &t.PBReader{})
	raw2 := read(out, &t.PBReader{SkipStringTable: true, SkipDenseNodes: true, SkipWays: true, SkipRelations: true})
	v.Assert(hw.EqBlock(all, all2), "written again: every section's content")
	v.Assert(all2.StringTable != nil && raw2.StringTableRaw != nil, "written again: the string table, if empty too")
	v.Assert(agree(a, all2, raw2, rd), "written again: skipped sections byte for byte")
}

// H_skip_large: sections of more entities, and of entities that are longer, than a byte can count.
func H_skip_large() {
	mask := v.Choose("skip", 16)
	rd := &t.PBReader{SkipStringTable: mask&1 != 0, SkipDenseNodes: mask&2 != 0, SkipWays: mask&4 != 0, SkipRelations: mask&8 != 0}
	n := v.Param("n", 270)
	ss := []string{"", string(v.Bytes("s", 1))}
	var ids, lat, lon, refs []int64
	var kv []uint64
	for i := 0; i < n; i++ {
		ss = append(ss, "s"+v.Itoa(uint64(i)))
		ids, lat, lon, refs = append(ids, int64(3*i+1)), append(lat, int64(i*i)), append(lon, -int64(i)), append(refs, int64(i*7%100)*1000)
		kv = append(kv, uint64(1+i%50), 2, 0)
	}
	lat[n-1] = 1<<20 | small("lat")
	refs[n-1] = 1<<20 | small("ref")
	ss = append(ss, string(make([]byte, 20000)))
	dense := hw.Dense(ids, lat, lon, kv, 4)
	var ws, rs [][]byte
	for i := 0; i < n; i++ {
		ws = append(ws, hw.Way(int64(i+1), []uint64{1}, []uint64{2}, refs[:i%5], 4))
		rs = append(rs, hw.Relation(int64(i+1), []uint64{1}, []uint64{2}, []uint64{0}, refs[i:i+1], []uint64{1}, 4))
	}
	types, roles := make([]uint64, n), make([]uint64, n)
	for i := range types {
		types[i] = uint64(i % 3)
		roles[i] = uint64(i)
	}
	ws[n-2] = hw.Way(int64(n-1), []uint64{3}, []uint64{4}, refs, 4)
	rs[n-2] = hw.Relation(int64(n-1), []uint64{3}, []uint64{4}, roles, refs, types, 4)
	// entities with a long part of no interest here
	info := hw.Field(nil, 4, make([]byte, 70000))
	ws[3], rs[3], dense = hw.Cat(ws[3], info), hw.Cat(rs[3], info), hw.Cat(dense, hw.Field(nil, 5, make([]byte, 70000)))
	var gs [][]byte
	if v.Choose("layout", 2) == 0 {
		gs = [][]byte{hw.Group(2, dense), hw.Group(3, ws...), hw.Group(4, rs...)}
	} else {
		for i := 0; i < n/2; i++ { // many groups
			gs = append(gs, hw.Group(3, ws[i]), hw.Group(4, rs[n-1-i]))
		}
		gs = append(gs, hw.Cat(hw.Group(2, dense), hw.Group(3, ws[n/2:]...)))
	}
	check(hw.Block(hw.Strings(ss...), nil, gs...), rd)
	v.Reach("done")
}

// agree checks that a, read with rd's skips, holds exactly the decoded parts of all and the raw
// parts of raw.
func agree(a, all, raw *t.PrimitiveBlock, rd *t.PBReader) bool {
	if rd.SkipStringTable {
		if a.StringTable != nil || !hw.EqBytes(a.StringTableRaw, raw.StringTableRaw) || (a.StringTableRaw == nil) != (raw.StringTableRaw == nil) {
			return false
		}
	} else if a.StringTableRaw != nil || !hw.EqStringTable(a.StringTable, all.StringTable) {
		return false
	}
	if a.Granularity != all.Granularity || a.DateGranularity != all.DateGranularity || a.LatOffset != all.LatOffset || a.LonOffset != all.LonOffset {
		return false
	}
	if len(a.PrimitiveGroup) != len(all.PrimitiveGroup) || len(a.PrimitiveGroup) != len(raw.PrimitiveGroup) {
		return false
	}
	for i, g := range a.PrimitiveGroup {
		w := &t.PrimitiveGroup{}
		ga, gr := all.PrimitiveGroup[i], raw.PrimitiveGroup[i]
		if rd.SkipDenseNodes {
			w.RawDense = gr.RawDense
		} else {
			w.Dense = ga.Dense
		}
		if rd.SkipWays {
			w.RawWays = gr.RawWays
		} else {
			w.Ways = ga.Ways
		}
		if rd.SkipRelations {
			w.RawRelations = gr.RawRelations
		} else {
			w.Relations = ga.Relations
		}
		if !hw.EqGroup(g, w) || (g.RawDense == nil) != (w.RawDense == nil) {
			return false
		}
	}
	return true
}
