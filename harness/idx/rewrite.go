package main

import (
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// index is a node index file of the harness's making.
type index struct {
	elems, locs []byte
	n, total    uint64
}

func (x *index) add(first uint64, codes ...uint64) {
	x.elems = append(x.elems, le(first)...)
	x.elems = append(x.elems, le(x.total<<24|uint64(len(codes)))...)
	for _, c := range codes {
		x.locs = append(x.locs, le(c)...)
	}
	x.n++
	x.total += uint64(len(codes))
}

// fill adds a range of many nodes, n a power of two.
func (x *index) fill(first, n uint64) {
	x.elems = append(x.elems, le(first)...)
	x.elems = append(x.elems, le(x.total<<24|n)...)
	b := le(1<<63 | 77)
	for uint64(len(b)) < 8*n {
		b = append(b, b...)
	}
	x.locs = append(x.locs, b...)
	x.n++
	x.total += n
}

func (x *index) file() []byte { return hw.Cat(le(1), le(x.n), x.elems, x.locs) }

// sameButRefs compares an output block to the input block, the references of its ways being
// what want says.
func sameButRefs(in, out []byte, want [][]int64) {
	a, ok := hw.ParseBlock(in)
	v.Assert(ok, "input is a block")
	b, ok := hw.ParseBlock(out)
	v.Assert(ok, "output is a block")
	v.Assert(hw.SameFrame(a, b), "string table, granularity and offsets are kept")
	v.Assert(len(a.Groups) == len(b.Groups), "groups are kept")
	k := 0
	for i := range a.Groups {
		v.Assert(len(a.Groups[i]) == len(b.Groups[i]), "members of a group are kept")
		for j, x := range a.Groups[i] {
			y := b.Groups[i][j]
			v.Assert(x.Kind == y.Kind, "kinds are kept")
			if x.Kind != 3 {
				v.Assert(hw.EqBytes(x.B, y.B), "nodes and relations are kept")
				continue
			}
			p, ok := hw.ParseWay(x.B)
			v.Assert(ok, "input way")
			q, ok := hw.ParseWay(y.B)
			v.Assert(ok, "output way")
			v.Assert(p.ID == q.ID && hw.EqU64s(p.Keys, q.Keys) && hw.EqU64s(p.Vals, q.Vals), "way id and tags are kept")
			v.Assert(sameRefs(q.Refs, want[k]), "references are replaced exactly when indexed")
			k++
		}
	}
	v.Assert(k == len(want), "every way is kept")
}

func smallDense() []byte {
	return hw.DenseZ([]uint64{uint64(v.U16("nid")) << 1, 2}, []uint64{1, 4}, []uint64{8, 5}, []uint64{1, 2, 0, 0}, 3)
}

// H_rewrite: ways of any small references, against an index of two ranges anywhere.
func H_rewrite() {
	workers := v.Choose("workers", 3) // one, two, two and the other schedule
	if workers == 2 {
		v.SchedReverse()
		workers = 1
	}
	var ix index
	a, b := uint64(v.Byte("a")), uint64(v.Byte("b"))
	v.Assume(b >= a+4)
	locs := []uint64{1<<63 | 5, 0, 1<<63 | 1<<40, 1<<63 | 900}
	big := 0
	if v.Param("multi", 0) == 1 {
		big = 1 + v.Choose("passes", 2) // 2 or 3 passes of at most one MiB each
	}
	ix.add(a, locs[:3]...)
	filler := uint64(1 << 30)
	if big > 0 {
		// the filler's ids lie beyond b, so b comes first
		ix.add(b, locs[3])
		ix.fill(filler, 1<<16<<uint(big))
		ix.add(filler+1<<20, 1<<63|3)
	} else {
		ix.add(b, locs[3])
	}
	v.WriteFile("n.idx", ix.file())

	lookup := func(r int64) int64 {
		switch {
		case r == int64(a):
			return int64(locs[0])
		case r == int64(a)+2:
			return int64(locs[2])
		case r == int64(b):
			return int64(locs[3])
		case big > 0 && r == int64(filler+1<<20):
			return -1<<63 + 3
		}
		return r
	}

	n := v.Param("refs", 2)
	var codes []uint64
	var want []int64
	last := int64(0)
	for i := 0; i < n; i++ {
		var r int64
		switch v.Choose("ref kind", 4) {
		case 0:
			r = int64(v.U16("ref") & 0x3ff)
		case 1:
			r = -5 - int64(i) // coded already
		case 2:
			r = int64(filler + 1<<20)
		case 3: // not a small one
			r = 1<<(32+12*uint(i%2)) | int64(v.U16("ref")&0x3ff)
		}
		codes = append(codes, hw.Zig(r-last))
		last = r
		want = append(want, lookup(r))
	}
	var way []byte
	way = hw.Num(way, 1, 1<<50+uint64(v.U16("wid")), 8)
	way = hw.Field(way, 2, []byte{1, 2})
	way = hw.Field(way, 3, []byte{2, 1})
	way = hw.Field(way, 8, hw.Packed(codes, 10))
	empty := hw.Num(nil, 1, 7, 1)

	var in [][]byte
	var wants [][][]int64
	in, wants = append(in, hw.Block(hw.Strings("", "a", "b"), nil, hw.Group(2, smallDense()))), append(wants, nil)
	p := pos{set: true, gran: 1000, late: 1<<40 + int64(v.U16("lato")), lone: 3}
	in, wants = append(in, hw.Block(hw.Strings("", "x", "y"), p.rest(), hw.Group(3, empty, way), relGroup(), hw.Group(2, smallDense()))), append(wants, [][]int64{nil, want})
	in, wants = append(in, hw.Block(hw.Strings("a"), nil)), append(wants, nil)
	in, wants = append(in, hw.Block(hw.Strings(""), nil, relGroup(), nil, hw.Group(3, way))), append(wants, [][]int64{want})
	file := [][]byte{header()}
	blobs := [][]byte{hw.Raw([]byte{0x22, 1, 'x'})}
	for i, b := range in {
		blob := hw.Raw(b)
		if i == v.Param("comp", 3) {
			blob = hw.Comp(b)
		}
		blobs = append(blobs, blob)
		file = append(file, hw.Frame("OSMData", blob))
	}
	v.WriteFile("in.pbf", hw.Cat(file...))
	args := []string{"-i", "in.pbf", "-x", "n.idx", "-o", "out.pbf", "-w", v.Itoa(uint64(1 + workers)), "-r", "0"}
	if big > 0 || workers == 0 {
		args = append(args, "-m", "1")
	}
	st := v.Run("rewritenodes", args...)
	v.Assert(st == 0, "rewritenodes ends well")
	v.Assert(v.FileList() == "in.pbf n.idx out.pbf", "no temporary file is left")
	fr, ok := hw.Frames(v.ReadFile("out.pbf"))
	v.Assert(ok, "output is a PBF file")
	v.Assert(len(fr) == len(blobs), "blocks are kept")
	v.Assert(fr[0].Typ == "OSMHeader" && hw.EqBytes(fr[0].Blob, blobs[0]), "non-data blocks are kept")
	for i := range in {
		f := fr[i+1]
		v.Assert(f.Typ == "OSMData", "type is kept")
		if wants[i] == nil && hw.EqBytes(f.Blob, blobs[i+1]) {
			continue // passed through
		}
		data, ok := hw.RawData(f.Blob)
		v.Assert(ok, "output blob holds raw data")
		sameButRefs(in[i], data, wants[i])
	}
	v.Reach("done")
}

// H_rewrite_empty: an index of no node at all, with or without a memory limit.
func H_rewrite_empty() {
	var ix index
	v.WriteFile("n.idx", ix.file())
	r := v.I64("ref")
	way := hw.Num(nil, 1, 7, 1)
	way = hw.Field(way, 8, hw.Packed([]uint64{hw.Zig(r), 2}, 10))
	in := hw.Block(hw.Strings(""), nil, hw.Group(3, way))
	v.WriteFile("in.pbf", hw.Cat(header(), hw.Frame("OSMData", hw.Raw(in)), hw.Frame("OSMData", hw.Comp(in))))
	args := []string{"-i", "in.pbf", "-x", "n.idx", "-o", "out.pbf", "-w", "1", "-r", "0"}
	switch v.Choose("memory", 3) {
	case 1:
		args = append(args, "-m", "1")
	case 2:
		args = append(args, "-m", "70")
	}
	v.Assert(v.Run("rewritenodes", args...) == 0, "rewritenodes ends well")
	v.Assert(v.FileList() == "in.pbf n.idx out.pbf", "no temporary file is left")
	fr, ok := hw.Frames(v.ReadFile("out.pbf"))
	v.Assert(ok && len(fr) == 3, "blocks are kept")
	for _, f := range fr[1:] {
		data, ok := hw.RawData(f.Blob)
		v.Assert(ok, "output blob holds raw data")
		sameButRefs(in, data, [][]int64{{r, r + 1}})
	}
	v.Reach("done")
}
