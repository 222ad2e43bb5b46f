// Node index: the whole nodeindex command on symbolic files, then lookups in what it wrote.
package main

import (
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// code is the stored form of a position: latitude and longitude interleaved, longitude in the
// even bits, with the sign bit of the latitude as the marker.
func code(lat, lon int32) int64 {
	la, lo := uint64(uint32(lat)|1<<31), uint64(uint32(lon))
	c := uint64(0)
	for i := uint(0); i < 32; i++ {
		c |= (lo>>i&1)<<(2*i) | (la>>i&1)<<(2*i+1)
	}
	return int64(c)
}

// node is a node as the harness chooses it: the zigzag codes of its differences to the node
// before it, and what they amount to.
type node struct {
	zid, zlat, zlon uint64
	id, lat, lon    int64
	code            int64
}

// pos is one block's granularity and offsets.
type pos struct {
	set              bool
	gran, late, lone int64
}

func (p pos) rest() []byte {
	if !p.set {
		return nil
	}
	var b []byte
	b = hw.Num(b, 17, uint64(p.gran), 5)
	b = hw.Num(b, 19, uint64(p.late), 10)
	b = hw.Num(b, 20, uint64(p.lone), 10)
	return b
}

func (p pos) code(lat, lon int64) int64 {
	return code(int32((p.late+p.gran*lat)/100), int32((p.lone+p.gran*lon)/100))
}

// newNode makes the node after last (the zero node at the start of a group, whose ids continue
// after prev).
func newNode(last node, prev int64) node {
	var n node
	n.zlat, n.zlon = uint64(v.U32("lat")), uint64(v.U32("lon"))
	d := v.U64("delta") >> 3
	n.zid = d << 1
	n.id = last.id + int64(d)
	v.Assume(n.id > prev)
	n.lat = last.lat + hw.Unzig(n.zlat)
	n.lon = last.lon + hw.Unzig(n.zlon)
	return n
}

func dense(ns []node) []byte {
	var ids, lat, lon []uint64
	for _, n := range ns {
		ids, lat, lon = append(ids, n.zid), append(lat, n.zlat), append(lon, n.zlon)
	}
	return hw.DenseZ(ids, lat, lon, nil, 10)
}

func header() []byte { return hw.Frame("OSMHeader", hw.Raw([]byte{0x22, 1, 'x'})) }

// H_node_lookup: n nodes in a file split into blocks and groups at every place.
func H_node_lookup() {
	n := v.Param("n", 2)
	p := pos{gran: 100}
	file := [][]byte{header()}
	var ns, group []node
	var groups [][]byte
	prev := int64(-1)
	for i := 1; i <= n; i++ {
		last := node{}
		if len(group) > 0 {
			last = group[len(group)-1]
		}
		x := newNode(last, prev)
		prev = x.id
		x.code = p.code(x.lat, x.lon)
		ns, group = append(ns, x), append(group, x)
		cut := 2
		if i < n {
			cut = v.Choose("cut", 3) // none, group, block
		}
		if cut == 0 {
			continue
		}
		groups = append(groups, hw.Group(2, dense(group)))
		group = nil
		if cut == 2 {
			file = append(file, hw.Frame("OSMData", hw.Raw(hw.Block(hw.Strings(""), p.rest(), groups...))))
			groups = nil
		}
	}
	v.WriteFile("in.pbf", hw.Cat(file...))
	st := v.Run("nodeindex", "-i", "in.pbf", "-o", "out.idx", "-w", v.Itoa(uint64(1+v.Choose("workers", 2))), "-r", "0")
	v.Assert(st == 0, "nodeindex ends well")
	ix := nodeindex.NewNodeIndex("out.idx", nil)
	si := ix.SubIndex(0, 1)
	hint := v.Int("hint", 0, 3)
	if v.Choose("ask", 2) == 0 {
		i := v.Choose("which", n)
		loc, _, ok := si.FindNode(uint64(ns[i].id), hint)
		v.Assert(ok, "node is found")
		v.Assert(loc == ns[i].code, "node has its position")
		v.Reach("found")
	} else {
		id := v.U64("other")
		for _, x := range ns {
			v.Assume(id != uint64(x.id))
		}
		_, _, ok := si.FindNode(id, hint)
		v.Assert(!ok, "other id is not found")
		v.Reach("not found")
	}
}

func wayGroup() []byte {
	return hw.Group(3, hw.Way(int64(v.U32("wid")), []uint64{0}, []uint64{0}, []int64{5, 7}, 5))
}
func relGroup() []byte {
	return hw.Group(4, hw.Relation(9, nil, nil, []uint64{0}, []int64{3}, []uint64{1}, 5))
}

// H_node_geometry: two blocks of one node each with any granularity and offsets, compressed or
// not, among other kinds of groups and blocks, on several workers under different schedules.
func H_node_geometry() {
	if v.Choose("reverse", 2) == 1 {
		v.SchedReverse()
	}
	file := [][]byte{header()}
	var ns []node
	prev := int64(-1)
	noise := v.Choose("noise", 4)
	for i := 0; i < 2; i++ {
		p := pos{gran: 100}
		if i == 0 || noise == 0 {
			g, lat, lon := uint64(v.U32("gran")), v.I64("lato"), v.I64("lono")
			v.Assume(g > 0 && g < 1<<31)
			p = pos{set: true, gran: int64(g), late: lat, lone: lon}
		}
		x := newNode(node{}, prev)
		prev = x.id
		x.code = p.code(x.lat, x.lon)
		ns = append(ns, x)
		groups := [][]byte{hw.Group(2, dense(ns[i:]))}
		blob := hw.Raw
		switch noise {
		case 1:
			groups = [][]byte{wayGroup(), groups[0], relGroup()}
			blob = hw.Comp
		case 2:
			if i == 1 {
				file = append(file, hw.Frame("OSMData", hw.Raw(hw.Block(hw.Strings("", "a"), nil, wayGroup()))))
			}
			groups = [][]byte{relGroup(), groups[0]}
		case 3:
			file = append(file, hw.Frame("OSMData", hw.Comp(hw.Block(hw.Strings("", "a"), nil))))
			groups = [][]byte{hw.Group(2), groups[0], hw.Group(2)}
		}
		file = append(file, hw.Frame("OSMData", blob(hw.Block(hw.Strings("", "x"), p.rest(), groups...))))
	}
	v.WriteFile("in.pbf", hw.Cat(file...))
	st := v.Run("nodeindex", "-i", "in.pbf", "-o", "out.idx", "-w", v.Itoa(uint64(1+v.Choose("workers", 3))), "-r", "0")
	v.Assert(st == 0, "nodeindex ends well")
	v.Assert(v.FileList() == "in.pbf out.idx", "only the output is left")
	ix := nodeindex.NewNodeIndex("out.idx", nil)
	si := ix.SubIndex(0, 1)
	hint := 0
	for _, x := range ns {
		loc, h, ok := si.FindNode(uint64(x.id), hint)
		hint = h
		v.Assert(ok, "node is found")
		v.Assert(loc == x.code, "node has its position")
	}
	v.Reach("done")
}

func le(x uint64) []byte {
	return []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24), byte(x >> 32), byte(x >> 40), byte(x >> 48), byte(x >> 56)}
}

// H_node_passes: an index file of a few ranges with any ids, sizes and stored locations, split into
// any number of passes.
func H_node_passes() {
	maxE, maxC, maxP := v.Param("ranges", 3), v.Param("size", 3), v.Param("passes", 5)
	var elems, locs []byte
	var first []uint64
	var size []int
	var stored []int64
	next := uint64(0)
	total := 0
	ne := v.Choose("ranges", maxE+1)
	for e := 0; e < ne; e++ {
		f := v.U64("first")
		v.Assume(f < 1<<40)
		if e > 0 {
			v.Assume(f >= next+2) // a smaller gap would have been one range
		}
		c := 1 + v.Choose("size", maxC)
		elems = append(elems, le(f)...)
		elems = append(elems, le(uint64(total)<<24|uint64(c))...)
		first, size = append(first, f), append(size, c)
		for i := 0; i < c; i++ {
			l := v.U64("loc")
			v.Assume(l == 0 && 0 < i && i < c-1 || l>>63 == 1)
			stored = append(stored, int64(l))
			locs = append(locs, le(l)...)
		}
		next = f + uint64(c)
		total += c
	}
	v.WriteFile("x.idx", hw.Cat(le(1), le(uint64(ne)), elems, locs))
	ix := nodeindex.NewNodeIndex("x.idx", nil)
	v.Assert(ix.LocationCount() == uint64(total), "location count")
	passes := 1 + v.Choose("passes", maxP)
	hint := v.Choose("hint", 2)
	want, in := int64(0), false
	var id uint64
	if v.Choose("ask", 2) == 0 {
		if ne == 0 {
			return
		}
		e := v.Choose("range", ne)
		i := v.Choose("at", size[e])
		at := i
		for k := 0; k < e; k++ {
			at += size[k]
		}
		id, want = first[e]+uint64(i), stored[at]
		in = want != 0
	} else {
		id = v.U64("other")
		for e := range first {
			v.Assume(id < first[e] || id >= first[e]+uint64(size[e]))
		}
	}
	found := false
	for p := 0; p < passes; p++ {
		loc, _, ok := ix.SubIndex(uint64(p), uint64(passes)).FindNode(id, hint)
		if ok {
			found = true
			v.Assert(in, "an id that is not indexed is found in no pass")
			v.Assert(loc == want, "the location found is that of the id")
		}
	}
	if in {
		v.Assert(found, "every indexed id is found in some pass")
		v.Reach("found")
	} else {
		v.Assert(!found, "an id that is not indexed is found in no pass")
		v.Reach("not found")
	}
}

// H_node_search: an index of many ranges, with and without gaps between them, asked for any id
// with any hint, in one pass or several, timed or not.
func H_node_search() {
	n := v.Param("ranges", 11)
	var elems, locs []byte
	where := map[uint64]int64{}
	total := uint64(0)
	start := uint64(7)
	for e := 0; e < n; e++ {
		c := uint64(1 + e%3)
		elems = append(elems, le(start)...)
		elems = append(elems, le(total<<24|c)...)
		for i := uint64(0); i < c; i++ {
			l := 1<<63 | (total+i)*977
			if i == 1 && c == 3 && e%2 == 0 {
				l = 0 // an id within the range that does not exist
			} else {
				where[start+i] = int64(l)
			}
			locs = append(locs, le(l)...)
		}
		total += c
		start += c
		if e%4 != 1 {
			start += 2 + uint64(e)
		}
	}
	v.WriteFile("x.idx", hw.Cat(le(1), le(uint64(n)), elems, locs))
	var timing *float64
	if v.Choose("timed", 2) == 1 {
		f := []float64{2, 1.5, 1.05, 1, 0, -3}[v.Choose("factor", 6)]
		timing = &f
		v.AnyClock()
	}
	ix := nodeindex.NewNodeIndex("x.idx", timing)
	passes := 1
	if timing == nil {
		passes = []int{1, 2, 5}[v.Choose("passes", 3)]
	}
	id := v.U64("id")
	hint := 0
	if timing == nil {
		hint = v.Choose("hint", n+2)
	}
	found := false
	got := int64(0)
	for p := 0; p < passes; p++ {
		si := ix.SubIndex(uint64(p), uint64(passes))
		loc, h, ok := si.FindNode(id, hint)
		if ok {
			v.Assert(!found || loc == got, "the location found is that of the id")
			found, got = true, loc
			again, _, ok := si.FindNode(id, h)
			v.Assert(ok && again == loc, "asking again with the hint returned gives the same")
		}
	}
	is, want := false, int64(0)
	for k := uint64(0); k < start; k++ {
		if l, ok := where[k]; ok && k == id {
			is, want = true, l
		}
	}
	v.Assert(found == is, "exactly the indexed ids are found")
	v.Assert(!found || got == want, "the location found is that of the id")
	if found {
		v.Reach("found")
	} else {
		v.Reach("not found")
	}
}
