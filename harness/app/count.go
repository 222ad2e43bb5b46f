package main

import (
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

type counts struct {
	blocks, nodes, ways, refs, rels  int64
	maxNode, maxWay, maxRel, maxRefs int64
}

func up(m *int64, x int64) {
	if x > *m {
		*m = x
	}
}

// someID is any id of zero or more.
func someID() int64 { return int64(v.U64("id") >> 1) }

// counted makes a data block of this kind and counts what is in it.
func (c *counts) counted(kind int) []byte {
	st := hw.Strings("", "a")
	switch kind {
	case 0: // two nodes, the second with any id below or above
		id1, id2 := someID(), someID()
		ids := hw.VarW(hw.VarW(nil, hw.Zig(id1), 10), hw.Zig(id2-id1), 10)
		b := hw.Field(nil, 1, ids)
		b = hw.Field(b, 8, []byte{1, 2})
		b = hw.Field(b, 9, []byte{3, 4})
		c.nodes += 2
		up(&c.maxNode, id1)
		up(&c.maxNode, id2)
		return hw.Block(st, nil, hw.Group(2, b))
	case 1: // two ways, with any references
		n := v.Choose("refs", 3)
		w1, w2 := someID(), someID()
		a := hw.Num(nil, 1, uint64(w1), 10)
		a = hw.Field(a, 8, hw.Packed([]uint64{2, v.U64("ref"), 4}[:n], 10))
		b := hw.Num(nil, 1, uint64(w2), 10)
		b = hw.Field(b, 8, []byte{6})
		c.ways += 2
		c.refs += int64(n) + 1
		up(&c.maxRefs, int64(n))
		up(&c.maxRefs, 1)
		up(&c.maxWay, w1)
		up(&c.maxWay, w2)
		return hw.Block(st, nil, hw.Group(3, a, b))
	case 2: // all kinds, in several groups
		r, w := someID(), someID()
		rel := hw.Num(nil, 1, uint64(r), 10)
		rel = hw.Field(rel, 8, []byte{0, 1})
		rel = hw.Field(rel, 9, []byte{8, 20})
		rel = hw.Field(rel, 10, []byte{1, 0})
		node := hw.DenseZ([]uint64{10}, []uint64{1}, []uint64{1}, []uint64{1, 1, 0}, 1)
		way := hw.Num(nil, 1, uint64(w), 10)
		c.nodes, c.ways, c.rels = c.nodes+2, c.ways+1, c.rels+2
		up(&c.maxNode, 5)
		up(&c.maxWay, w)
		up(&c.maxRel, r)
		up(&c.maxRel, 9)
		return hw.Block(st, nil, hw.Group(4, rel, hw.Num(nil, 1, 9, 1)), hw.Group(2, node), hw.Group(3, way), hw.Group(2, node))
	case 4:
		w := someID()
		c.ways, c.refs, c.rels = c.ways+1, c.refs+2, c.rels+1
		up(&c.maxWay, w)
		up(&c.maxRefs, 2)
		up(&c.maxRel, 9)
		return hw.Block(st, nil, hw.Group(3, hw.Field(hw.Num(nil, 1, uint64(w), 10), 8, []byte{2, 4})), hw.Group(4, hw.Num(nil, 1, 9, 1)))
	}
	return hw.Block(hw.Strings(""), nil) // nothing at all
}

func (c *counts) file(n int, kind func() int) {
	file := hw.Frame("OSMHeader", hw.Raw([]byte{0x22, 1, 'x'}))
	for i := 0; i < n; i++ {
		d := c.counted(kind())
		b := hw.Raw(d)
		if i == 1 {
			b = hw.Comp(d)
		}
		file = append(file, hw.Frame("OSMData", b)...)
	}
	c.blocks = int64(n) + 1
	v.WriteFile("in.pbf", file)
}

func outNum(lit string, want int64) {
	v.Assert(v.OutLit(lit), "the report has the expected form")
	n, ok := v.OutNum()
	v.Assert(ok, "the report has a number")
	v.Assert(n == want, "the report has the right number for:"+lit)
}

func (c *counts) report() {
	outNum("Counted ", c.blocks)
	outNum(" blocks\nCounted ", c.nodes)
	outNum(" nodes, ", c.maxNode)
	outNum(" max\nCounted ", c.ways)
	outNum(" ways, ", c.maxWay)
	outNum(" max\nCounted ", c.refs)
	outNum(" ways refs, ", c.maxRefs)
	outNum(" maximum length\nCounted ", c.rels)
	outNum(" relations, ", c.maxRel)
	v.Assert(v.OutLit(" max\n") && v.OutEOF(), "nothing else is reported")
}

// H_count: files of up to some blocks of any kinds.
func H_count() {
	w := pickWorkers()
	var c counts
	c.file(v.Choose("blocks", 1+v.Param("blocks", 2)), func() int { return v.Choose("kind", 4) })
	v.Assert(v.Run("entitycount", "-i", "in.pbf", "-w", w) == 0, "entitycount ends well")
	c.report()
	v.Reach("done")
}

// H_count_schedules: the totals of two workers meet in every order.
func H_count_schedules() {
	var c counts
	c.file(v.Param("blocks", 2), func() int { return v.Param("kind", 4) })
	v.SchedAll()
	v.VisibleAtomics()
	v.QuietAtomics("internal/pbf") // progress only
	v.Assert(v.Run("entitycount", "-i", "in.pbf", "-w", "2") == 0, "entitycount ends well")
	c.report()
	v.Reach("done")
}

// H_blocks counts blocks only.
func H_blocks() {
	w := pickWorkers()
	n := v.Choose("blocks", 5)
	file := []byte{}
	for i := 0; i < n; i++ {
		t := "OSMData"
		if v.Choose("type", 2) == 0 {
			t = "OSMHeader"
		}
		file = append(file, hw.Frame(t, v.Bytes("data", i%3))...)
	}
	if n == 0 {
		v.Reach("none")
		return // an empty file cannot be mapped
	}
	v.WriteFile("in.pbf", file)
	v.Assert(v.Run("blockcount", "-i", "in.pbf", "-w", w) == 0, "blockcount ends well")
	outNum("Counted ", int64(n))
	v.Assert(v.OutLit(" blocks\n"), "the report has the expected form")
	v.Reach("done")
}
