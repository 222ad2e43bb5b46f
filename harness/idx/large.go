// Outputs larger than one copy buffer (1 MiB) or than what fits before a flush.
package main

import (
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/wayindex"
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// H_node_large: every other id from 1 on, so many that the locations fill the copy buffer more
// than once; around the place where the buffer ends, the positions are symbolic.
func H_node_large() {
	const buf = 131072 // locations of one copy buffer
	total := v.Param("nodes", 66000)
	around := v.Param("around", 4)
	first := buf/2 - around/2 // the first symbolic node
	lats, lons := []int64{5, -9, 30, 0, 17}, []int64{1, 2, -3, 60, 8}
	p := pos{gran: 100}
	var codes []int64
	for i := range lats {
		codes = append(codes, p.code(lats[i], lons[i]))
	}
	group := func(at, n int) []byte {
		ids, la, lo := make([]byte, 0, n+4), make([]byte, 0, n+4), make([]byte, 0, n+4)
		lastLat, lastLon := int64(0), int64(0)
		id := int64(2*at + 1)
		ids = hw.Var(ids, hw.Zig(id))
		for i := 0; i < n; i++ {
			if i > 0 {
				ids = append(ids, 4)
			}
			k := (at + i) % len(lats)
			la = append(la, byte(hw.Zig(lats[k]-lastLat)))
			lo = append(lo, byte(hw.Zig(lons[k]-lastLon)))
			lastLat, lastLon = lats[k], lons[k]
		}
		d := hw.Field(nil, 1, ids)
		d = hw.Field(d, 8, la)
		d = hw.Field(d, 9, lo)
		return hw.Group(2, d)
	}
	// a group of symbolic positions
	var want []int64
	var ids, la, lo []uint64
	lastLat, lastLon := int64(0), int64(0)
	for i := 0; i < around; i++ {
		d := uint64(4)
		if i == 0 {
			d = hw.Zig(int64(2*first + 1))
		}
		zla, zlo := uint64(v.Byte("lat")), uint64(v.Byte("lon"))
		v.Assume(zla < 128 && zlo < 128)
		lastLat += hw.Unzig(zla)
		lastLon += hw.Unzig(zlo)
		ids, la, lo = append(ids, d), append(la, zla), append(lo, zlo)
		want = append(want, p.code(lastLat, lastLon))
	}
	mid := hw.Group(2, hw.DenseZ(ids, la, lo, nil, 3))
	cut := v.Choose("cut", 2) == 1 // a block ends within the buffer, or one group fills it
	var file [][]byte
	file = append(file, header())
	blk := func(g ...[]byte) {
		file = append(file, hw.Frame("OSMData", hw.Raw(hw.Block(hw.Strings(""), nil, g...))))
	}
	far := total + 500 // a node after a gap
	if cut {
		blk(group(0, 20000))
		blk(group(20000, first-20000), mid)
		blk(group(first+around, total-first-around), group(far, 1))
	} else {
		blk(group(0, first), mid, group(first+around, total-first-around), group(far, 1))
	}
	v.WriteFile("in.pbf", hw.Cat(file...))
	st := v.Run("nodeindex", "-i", "in.pbf", "-o", "out.idx", "-w", "2", "-r", "0")
	v.Assert(st == 0, "nodeindex ends well")
	ix := nodeindex.NewNodeIndex("out.idx", nil)
	si := ix.SubIndex(0, 1)
	hint := 0
	for i := 0; i < total; i++ {
		id := uint64(2*i + 1)
		if i > 2000 && i < total-2000 && (i < buf/2-300 || i > buf/2+300) && i%97 != 0 {
			continue
		}
		loc, h, ok := si.FindNode(id, hint)
		hint = h
		v.Assert(ok, "every node is found")
		if i >= first && i < first+around {
			v.Assert(loc == want[i-first], "the node's location")
		} else {
			v.Assert(loc == codes[i%len(codes)], "the node's location")
		}
		if i%50 == 0 {
			_, _, ok := si.FindNode(id+1, hint)
			v.Assert(!ok, "no other id is found")
		}
	}
	loc, _, ok := si.FindNode(uint64(2*far+1), hint)
	v.Assert(ok && loc == codes[far%len(codes)], "a node after a gap is found")
	_, _, ok = si.FindNode(uint64(2*total+1), hint)
	v.Assert(!ok, "no other id is found")
	v.Reach("done")
}

// H_way_large: the same for the locations of ways.
func H_way_large() {
	const buf = 1048576
	refs := v.Param("refs", 1500)
	// references as far apart as they can be, so that few of them fill the buffer
	big := int64(1) << 62
	wayBytes := (refs+1)*9 + 8
	n := buf/wayBytes + 6
	special := buf / wayBytes // near the end of the buffer
	var file [][]byte
	file = append(file, header())
	plain := func(i int) []int64 {
		s := make([]int64, refs)
		for j := range s {
			if j%2 == 0 {
				s[j] = int64(i + 1)
			} else {
				s[j] = big - int64(i) - 5
			}
		}
		return s
	}
	enc := func(s []int64) []byte {
		b := make([]byte, 0, 10*len(s))
		last := int64(0)
		for _, x := range s {
			b = hw.Var(b, hw.Zig(x-last))
			last = x
		}
		return b
	}
	way := func(id int64, packed []byte) []byte {
		return hw.Field(hw.Num(nil, 1, uint64(id), 3), 8, packed)
	}
	var ways [][]byte
	var sym [][]int64
	for i := 0; i < n; i++ {
		if i < special-1 || i > special+1 {
			ways = append(ways, way(int64(10+i), enc(plain(i))))
			continue
		}
		// symbolic references at both ends
		s := plain(i)
		a, b := v.Byte("first"), v.Byte("last")
		v.Assume(a > 1 && a < 128 && b > 1 && b < 128 && a != 2*uint8(i+1) && b&1 == 0)
		s[0] = hw.Unzig(uint64(a))
		v.Assume(s[0] != s[1])
		packed := []byte{a}
		last := s[0]
		for _, x := range s[1:2] {
			packed = append(packed, hw.VarW(nil, hw.Zig(x-last), 9)...)
			last = x
		}
		for _, x := range s[2:] {
			packed = hw.Var(packed, hw.Zig(x-last))
			last = x
		}
		s = append(s, last+hw.Unzig(uint64(b)))
		packed = append(packed, b)
		sym = append(sym, s)
		ways = append(ways, way(int64(10+i), packed))
	}
	h := n / 2
	if v.Choose("cut", 2) == 0 {
		h = special
	}
	file = append(file, hw.Frame("OSMData", hw.Raw(hw.Block(hw.Strings(""), nil, hw.Group(3, ways[:h]...)))))
	file = append(file, hw.Frame("OSMData", hw.Raw(hw.Block(hw.Strings(""), nil, hw.Group(3, ways[h:]...)))))
	v.WriteFile("in.pbf", hw.Cat(file...))
	st := v.Run("wayindex", "-i", "in.pbf", "-o", "out.idx", "-w", "2", "-r", "0")
	v.Assert(st == 0, "wayindex ends well")
	ix := wayindex.NewWayIndex("out.idx", nil)
	si := ix.SubIndexWithScaledPass(0, 1)
	hint := 0
	for i := 0; i < n; i++ {
		if i > 3 && i < special-3 && i%16 != 0 {
			continue
		}
		got, nh, ok := si.FindLocations(int64(10+i), hint)
		hint = nh
		v.Assert(ok, "every way is found")
		if i >= special-1 && i <= special+1 {
			v.Assert(sameRefs(got, sym[i-special+1]), "the way's references")
		} else {
			v.Assert(sameRefs(got, plain(i)), "the way's references")
		}
	}
	v.Reach("done")
}

// H_rel_large: a relation whose locations exceed what is held before a flush, between others.
func H_rel_large() {
	nlocs := v.Param("locs", 4000)
	members := v.Param("members", 300)
	var locs []int64
	for i := 0; i < nlocs; i++ {
		locs = append(locs, int64(i+1)*3)
	}
	x := v.I64("loc")
	v.Assume(x != 0 && x != 12)
	var index, data []byte
	ids := []uint64{20, 30}
	lists := [][]int64{locs, {x, 12}}
	for i, id := range ids {
		index = append(index, le(id<<33|uint64(len(data))>>3)...)
		last := int64(0)
		for _, r := range lists[i] {
			if i == 0 {
				data = hw.Var(data, hw.Zig(r-last))
			} else {
				data = hw.VarW(data, hw.Zig(r-last), 10)
			}
			last = r
		}
		for data = append(data, 0); len(data)%8 != 0; {
			data = append(data, 0)
		}
	}
	v.WriteFile("w.idx", hw.Cat(le(2), le(3), index, data))
	rel := func(id int64, mem ...int64) []byte {
		var codes, zero, one []uint64
		last := int64(0)
		for _, m := range mem {
			codes, zero, one = append(codes, hw.Zig(m-last)), append(zero, 0), append(one, 1)
			last = m
		}
		var b []byte
		b = hw.Num(b, 1, uint64(id), 2)
		b = hw.Field(b, 8, hw.Packed(zero, 1))
		b = hw.Field(b, 9, hw.Packed(codes, 1))
		return hw.Field(b, 10, hw.Packed(one, 1))
	}
	many := make([]int64, members)
	for i := range many {
		many[i] = 20
	}
	many[members-1] = 30
	rels := [][]int64{{30, 25}, many, {25, 30}, {30}}
	var rs [][]byte
	for i, m := range rels {
		rs = append(rs, rel(int64(7+i), m...))
	}
	v.WriteFile("in.pbf", hw.Cat(header(), hw.Frame("OSMData", hw.Raw(hw.Block(hw.Strings("", "r"), nil, hw.Group(4, rs...))))))
	passes := 1 + v.Choose("passes", 2)
	code := v.Run("relindex", "-i", "in.pbf", "-x", "w.idx", "-o", "out.idx", "-w", "1", "-p", v.Itoa(uint64(passes)), "-r", "0")
	v.Assert(code == 0, "relindex ends well")
	out := v.ReadFile("out.idx")
	at := 0
	next := func() int64 { at += 8; return geti64(out, at-8) }
	for i, mem := range rels {
		v.Assert(next() == int64(7+i) && next() == int64(len(mem)), "relations and their number of ways")
		for _, m := range mem {
			v.Assert(next() == m, "way members")
			switch m {
			case 20:
				v.Assert(next() == int64(nlocs), "number of locations")
				for j := 0; j < nlocs; j += 37 {
					v.Assert(geti64(out, at+8*j) == locs[j], "the way's locations")
				}
				at += 8 * nlocs
			case 30:
				v.Assert(next() == 2 && next() == x && next() == 12, "the way's locations")
			default:
				v.Assert(next() == 0, "unknown ways have none")
			}
		}
	}
	v.Assert(at == len(out), "nothing else")
	v.Reach("done")
}

// H_rel_members: a relation with more ways than two bytes can count, followed by others.
func H_rel_members() {
	passes := 1 + v.Choose("passes", 2)
	n := v.Param("members", 66000)
	if passes == 2 {
		n = 300
	}
	x := v.I64("loc")
	v.Assume(x != 0)
	v.WriteFile("w.idx", hw.Cat(le(1), le(3), le(30<<33), hw.VarW(nil, hw.Zig(x), 10), make([]byte, 6)))
	id := int64(v.Byte("way"))
	many := func(n int, last int64) []byte {
		b := hw.Num(nil, 1, uint64(n), 3)
		deltas := make([]byte, 0, n+1)
		deltas = append(deltas, 2*30)
		for i := 1; i < n-1; i++ {
			deltas = append(deltas, byte(i%2)*9+byte(1-i%2)*10) // 25 and 30 in turn
		}
		at := int64(30 - 5*((n-2)%2))
		deltas = hw.VarW(deltas, hw.Zig(last-at), 2)
		b = hw.Field(b, 8, make([]byte, n))
		b = hw.Field(b, 9, deltas)
		ones := make([]byte, n)
		for i := range ones {
			ones[i] = 1
		}
		return hw.Field(b, 10, ones)
	}
	sizes := []int{2, n, 257, 2}
	var rs [][]byte
	for i, k := range sizes {
		last := int64(30)
		if i == 1 {
			last = id
		}
		rs = append(rs, many(k, last))
	}
	v.WriteFile("in.pbf", hw.Cat(header(), hw.Frame("OSMData", hw.Raw(hw.Block(hw.Strings("", "r"), nil, hw.Group(4, rs...))))))
	code := v.Run("relindex", "-i", "in.pbf", "-x", "w.idx", "-o", "out.idx", "-w", "1", "-p", v.Itoa(uint64(passes)), "-r", "0")
	v.Assert(code == 0, "relindex ends well")
	out := v.ReadFile("out.idx")
	at := 0
	next := func() int64 { at += 8; return geti64(out, at-8) }
	for i, k := range sizes {
		v.Assert(next() == int64(k) && next() == int64(k), "relations and their number of ways")
		for j := 0; j < k; j++ {
			m := int64(30 - 5*(j%2))
			if j == k-1 {
				m = 30
				if i == 1 {
					m = id
				}
			}
			v.Assert(next() == m, "way members")
			if m == 30 {
				v.Assert(next() == 1 && next() == x, "the way's locations")
			} else {
				v.Assert(next() == 0, "unknown ways have none")
			}
		}
	}
	v.Assert(at == len(out), "nothing else")
	v.Reach("done")
}
