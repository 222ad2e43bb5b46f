// Files of many blocks, and the commands one after another: what is kept between blocks, on
// purpose or by accident. Most values are fixed; a few are symbolic.
package main

import (
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/wayindex"
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

type rnd uint32

func (r *rnd) n(k int) int {
	*r = *r*1664525 + 1013904223
	return int(*r>>16) % k
}

func (r *rnd) amount() int { return [6]int{1, 2, 0, 40, 6, 3}[r.n(6)] }

// member is a member of a relation.
type member struct {
	id  int64
	typ uint64
}

// world is what a file of many blocks holds.
type world struct {
	r     rnd
	nodes map[int64]int64 // the stored form of a node's position
	nid   int64
	ways  map[int64][]int64
	wids  []int64
	rels  map[int64][]member
	rids  []int64
	data  [][]byte // the contents of the blocks, nil for those that are not data
	blobs [][]byte // the blobs of the file
}

func (g *world) add(gran int64, groups ...[]byte) {
	var rest []byte
	if gran != 100 {
		rest = hw.Num(nil, 17, uint64(gran), 2)
	}
	b := hw.Block(hw.Strings("", "a"), rest, groups...)
	blob := hw.Raw(b)
	if g.r.n(5) == 0 {
		blob = hw.Comp(b)
	}
	g.data, g.blobs = append(g.data, b), append(g.blobs, blob)
	switch g.r.n(12) {
	case 0:
		g.header()
	case 1: // a block without groups
		g.data, g.blobs = append(g.data, hw.Block(hw.Strings(""), nil)), append(g.blobs, hw.Raw(hw.Block(hw.Strings(""), nil)))
	}
}

// header adds a block that is not data; its blob need not be one that can be read as data.
func (g *world) header() {
	g.data, g.blobs = append(g.data, nil), append(g.blobs, hw.Raw([]byte{0x22, 1, byte(g.r.n(256))}))
}

// dense makes dense nodes, of which the last has a symbolic position if asked for.
func (g *world) dense(k int, gran int64, symbolic bool) []byte {
	var ids, lat, lon []int64
	p := pos{gran: gran}
	for i := 0; i < k; i++ {
		g.nid += int64([8]int{1, 1, 1, 1, 2, 3, 50, 7}[g.r.n(8)])
		la, lo := int64(g.r.n(60000)-30000), int64(g.r.n(60000)-30000)
		if symbolic && i == k-1 {
			la = 1<<22 | int64(v.U16("lat"))
			if i > 0 {
				la += lat[i-1]
			}
		}
		g.nodes[g.nid] = p.code(la, lo)
		ids, lat, lon = append(ids, g.nid), append(lat, la), append(lon, lo)
	}
	d := hw.Field(nil, 1, hw.PackedDelta(ids, 4))
	d = hw.Field(d, 8, hw.PackedDelta(lat, 4))
	return hw.Group(2, hw.Field(d, 9, hw.PackedDelta(lon, 4)))
}

func (g *world) wayGroup(k int) []byte {
	var ms [][]byte
	id := int64(0)
	if len(g.wids) > 0 {
		id = g.wids[len(g.wids)-1]
	}
	for ; k > 0; k-- {
		id += int64(1 + g.r.n(3))
		var refs []int64
		for n := g.r.amount(); n > 0; n-- {
			refs = append(refs, int64(1+g.r.n(int(g.nid)+50)))
		}
		if n := len(refs); n > 2 {
			refs[n-1] = refs[0] // closed
			refs[1] = refs[0]   // twice the same
		}
		b := hw.Num(nil, 1, uint64(id), 5)
		if g.r.n(2) == 0 {
			b = hw.Field(b, 2, []byte{1})
			b = hw.Field(b, 3, []byte{1})
		}
		if len(refs) > 0 {
			b = hw.Field(b, 8, hw.PackedDelta(refs, 3))
		}
		ms = append(ms, b)
		g.ways[id], g.wids = refs, append(g.wids, id)
	}
	return hw.Group(3, ms...)
}

func (g *world) relGroup(k int) []byte {
	var ms [][]byte
	id := int64(0)
	if len(g.rids) > 0 {
		id = g.rids[len(g.rids)-1]
	}
	for ; k > 0; k-- {
		id += int64(1 + g.r.n(3))
		var mem []member
		var ids []int64
		var types, roles []uint64
		most := int64(9)
		if len(g.wids) > 0 {
			most += g.wids[len(g.wids)-1]
		}
		for n := g.r.amount(); n > 0; n-- {
			m := member{int64(1 + g.r.n(int(most))), uint64(g.r.n(4))}
			if m.typ == 3 {
				m.typ = 1
			}
			mem, ids, types, roles = append(mem, m), append(ids, m.id), append(types, m.typ), append(roles, 1)
		}
		b := hw.Num(nil, 1, uint64(id), 5)
		if len(ids) > 0 {
			b = hw.Field(b, 8, hw.Packed(roles, 1))
			b = hw.Field(b, 9, hw.PackedDelta(ids, 3))
			b = hw.Field(b, 10, hw.Packed(types, 1))
		}
		ms = append(ms, b)
		g.rels[id], g.rids = mem, append(g.rids, id)
	}
	return hw.Group(4, ms...)
}

// newWorld makes a file in.pbf of n data blocks of each kind, and others.
func newWorld(n int) *world {
	g := &world{nodes: map[int64]int64{}, ways: map[int64][]int64{}, rels: map[int64][]member{}}
	g.r = rnd(1 + v.Choose("contents", v.Param("contents", 2)))
	if g.r.n(2) == 0 {
		g.header()
	}
	for i := 0; i < n; i++ {
		sym := i%10 == 7
		gran := int64(100)
		if !sym && g.r.n(4) == 0 {
			gran = 1000
		}
		k := g.r.amount()
		switch g.r.n(4) {
		case 0:
			g.add(gran, g.dense(k, gran, false), g.dense(g.r.amount(), gran, sym))
		default:
			g.add(gran, g.dense(k, gran, sym))
		}
	}
	for i := 0; i < n; i++ {
		switch g.r.n(4) {
		case 0:
			g.add(100, g.wayGroup(g.r.amount()), g.dense(g.r.n(3), 100, false), g.wayGroup(g.r.amount()))
		case 1:
			g.add(100, g.relGroup(g.r.n(3)), nil, g.wayGroup(g.r.amount()), g.relGroup(g.r.n(2)))
		default:
			g.add(100, g.wayGroup(g.r.amount()))
		}
	}
	for i := 0; i < n; i++ {
		g.add(100, g.relGroup(g.r.amount()))
	}
	var file []byte
	for i, b := range g.blobs {
		t := "OSMData"
		if g.data[i] == nil {
			t = "OSMHeader"
		}
		file = append(file, hw.Frame(t, b)...)
	}
	v.WriteFile("in.pbf", file)
	return g
}

// several is one worker or several, of which the last starts first.
func several() string {
	if v.Choose("workers", 2) == 0 {
		return "1"
	}
	v.SchedReverse()
	return "3"
}

func (g *world) checkNodes(file string) {
	passes := 1 + 2*v.Choose("passes", 2)
	ix := nodeindex.NewNodeIndex(file, nil)
	var sis []*nodeindex.NodeSubIndex
	for p := 0; p < passes; p++ {
		sis = append(sis, ix.SubIndex(uint64(p), uint64(passes)))
	}
	hints := make([]int, passes)
	for i := int64(0); i < g.nid+5; i++ {
		id := i
		if i%4 == 3 { // somewhere else
			id = i * 7919 % (g.nid + 5)
		}
		want, is := g.nodes[id]
		found := false
		for p, si := range sis {
			loc, h, ok := si.FindNode(uint64(id), hints[p])
			hints[p] = h
			if ok {
				found = true
				v.Assert(is && loc == want, "only nodes of the file are found, at their positions")
			}
		}
		v.Assert(found == is, "every node of the file is found")
	}
}

// H_node_many: lookups of every id in the index of a file of many blocks.
func H_node_many() {
	w := several()
	g := newWorld(v.Param("blocks", 50))
	v.Assert(v.Run("nodeindex", "-i", "in.pbf", "-o", "out.idx", "-w", w, "-r", "0") == 0, "nodeindex ends well")
	g.checkNodes("out.idx")
	v.Reach("done")
}

func (g *world) checkWays(file string, lists map[int64][]int64) {
	passes := 1 + 2*v.Choose("passes", 2)
	ix := wayindex.NewWayIndex(file, nil)
	var sis []*wayindex.SubWayIndex
	for p := 0; p < passes; p++ {
		sis = append(sis, ix.SubIndexWithScaledPass(p, passes))
	}
	hints := make([]int, passes)
	most := g.wids[len(g.wids)-1] + 5
	for i := int64(0); i < most; i++ {
		id := i
		if i%4 == 3 {
			id = i * 7919 % most
		}
		want, is := lists[id]
		found := false
		for p, si := range sis {
			got, h, ok := si.FindLocations(id, hints[p])
			hints[p] = h
			if ok {
				found = true
				v.Assert(is && sameRefs(got, collapse(want)), "only ways of the file are found, with their references")
			}
		}
		v.Assert(found == is, "every way of the file is found")
	}
}

// H_way_many: lookups of every id in the index of a file of many blocks.
func H_way_many() {
	w := several()
	g := newWorld(v.Param("blocks", 50))
	v.Assert(v.Run("wayindex", "-i", "in.pbf", "-o", "out.idx", "-w", w, "-r", "0") == 0, "wayindex ends well")
	g.checkWays("out.idx", g.ways)
	v.Reach("done")
}

// nodeIndexFile makes a node index of the world's nodes.
func (g *world) nodeIndexFile() []byte {
	var x index
	for id := int64(1); id <= g.nid; {
		if _, ok := g.nodes[id]; !ok {
			id++
			continue
		}
		var codes []uint64
		first := id
		for len(codes) < 1+int(first%9) {
			c, ok := g.nodes[id]
			if !ok {
				break
			}
			codes = append(codes, uint64(c))
			id++
		}
		x.add(uint64(first), codes...)
	}
	return x.file()
}

// rewritten is the list with the positions of the nodes there are.
func (g *world) rewritten(refs []int64) (out []int64) {
	for _, r := range refs {
		if c, ok := g.nodes[r]; ok {
			r = c
		}
		out = append(out, r)
	}
	return out
}

func (g *world) checkRewritten(file string) {
	fr, ok := hw.Frames(v.ReadFile(file))
	v.Assert(ok && len(fr) == len(g.blobs), "output is a PBF file with all blocks")
	for i := range fr {
		if g.data[i] == nil {
			v.Assert(fr[i].Typ == "OSMHeader" && hw.EqBytes(fr[i].Blob, g.blobs[i]), "non-data blocks are kept")
			continue
		}
		v.Assert(fr[i].Typ == "OSMData", "type is kept")
		var want [][]int64
		b, ok := hw.ParseBlock(g.data[i])
		v.Assert(ok, "input is a block")
		for _, gr := range b.Groups {
			for _, m := range gr {
				if m.Kind == 3 {
					w, ok := hw.ParseWay(m.B)
					v.Assert(ok, "input way")
					want = append(want, g.rewritten(g.ways[w.ID]))
				}
			}
		}
		if want == nil && hw.EqBytes(fr[i].Blob, g.blobs[i]) {
			continue // passed through
		}
		data, ok := hw.RawData(fr[i].Blob)
		v.Assert(ok, "output blob holds raw data")
		sameButRefs(g.data[i], data, want)
	}
}

// H_rewrite_many: the references of a file of many blocks.
func H_rewrite_many() {
	w := several()
	g := newWorld(v.Param("blocks", 40))
	v.WriteFile("n.idx", g.nodeIndexFile())
	v.Assert(v.Run("rewritenodes", "-i", "in.pbf", "-x", "n.idx", "-o", "out.pbf", "-w", w, "-r", "0") == 0, "rewritenodes ends well")
	g.checkRewritten("out.pbf")
	v.Reach("done")
}

func (g *world) checkRelations(file string, lists map[int64][]int64) {
	out := v.ReadFile(file)
	at := 0
	next := func() int64 {
		v.Assert(at+8 <= len(out), "the index is complete")
		at += 8
		return geti64(out, at-8)
	}
	for _, id := range g.rids {
		n := int64(0)
		for _, m := range g.rels[id] {
			if m.typ == 1 {
				n++
			}
		}
		v.Assert(next() == id && next() == n, "relations and their number of ways")
		for _, m := range g.rels[id] {
			if m.typ != 1 {
				continue
			}
			want := collapse(lists[m.id])
			v.Assert(next() == m.id && next() == int64(len(want)), "way members and their number of locations")
			for _, x := range want {
				v.Assert(next() == x, "the way's locations")
			}
		}
	}
	v.Assert(at == len(out), "nothing else")
}

// H_rel_many: the relations of a file of many blocks.
func H_rel_many() {
	w := several()
	g := newWorld(v.Param("blocks", 40))
	var ids []uint64
	var lists [][]int64
	for _, id := range g.wids {
		ids, lists = append(ids, uint64(id)), append(lists, collapse(g.ways[id]))
	}
	v.WriteFile("w.idx", wayIndexFile(ids, lists))
	p := v.Itoa(uint64(1 + 2*v.Choose("passes", 2)))
	v.Assert(v.Run("relindex", "-i", "in.pbf", "-x", "w.idx", "-o", "out.idx", "-w", w, "-p", p, "-r", "0") == 0, "relindex ends well")
	g.checkRelations("out.idx", g.ways)
	v.Reach("done")
}

// H_chain: the four commands one after another, from a file to the positions of the nodes of the
// ways of its relations.
func H_chain() {
	w := several()
	g := newWorld(v.Param("blocks", 40))
	v.Assert(v.Run("nodeindex", "-i", "in.pbf", "-o", "n.idx", "-w", w, "-r", "0") == 0, "nodeindex ends well")
	v.Assert(v.Run("rewritenodes", "-i", "in.pbf", "-x", "n.idx", "-o", "out.pbf", "-w", w, "-r", "0") == 0, "rewritenodes ends well")
	v.Assert(v.Run("wayindex", "-i", "out.pbf", "-o", "w.idx", "-a", v.Itoa(uint64(4*v.Choose("alignment", 2))), "-w", w, "-r", "0") == 0, "wayindex ends well")
	p := v.Itoa(uint64(1 + v.Choose("relation passes", 2)))
	v.Assert(v.Run("relindex", "-i", "out.pbf", "-x", "w.idx", "-o", "r.idx", "-w", w, "-p", p, "-r", "0") == 0, "relindex ends well")
	lists := map[int64][]int64{}
	for id, refs := range g.ways {
		lists[id] = g.rewritten(refs)
	}
	g.checkRelations("r.idx", lists)
	v.Assert(v.FileList() == "in.pbf n.idx out.pbf r.idx w.idx", "no temporary file is left")
	v.Reach("done")
}
