// Files of many blocks, of contents that grow and shrink from one block to the next: what is kept
// between blocks, on purpose or by accident. Most values are fixed; a few are symbolic.
package main

import (
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// world makes contents of all kinds.
type world struct {
	r                rnd
	nid, wid, rid    int64
	symbolic, tagged bool
}

type rnd uint32

func (r *rnd) n(k int) int {
	*r = *r*1664525 + 1013904223
	return int(*r>>16) % k
}

func (g *world) tags() (ts []tag) {
	n := [7]int{0, 0, 1, 1, 2, 3, 9}[g.r.n(7)]
	first := g.r.n(60)
	for i := 0; i < n; i++ {
		var k []byte
		j := first + i
		switch {
		case j%4 != 0:
			k = []byte("k" + v.Itoa(uint64(j)))
		case j%8 == 0:
			k = []byte(dropExact[j%len(dropExact)])
		default:
			k = []byte(dropPrefix[j%len(dropPrefix)] + v.Itoa(uint64(j)))
		}
		val := []byte("v" + v.Itoa(uint64(g.r.n(300))))
		if j%7 == 3 {
			val = nil
		}
		if j%11 == 5 {
			k = nil
		}
		ts = append(ts, tag{k, val})
	}
	return ts
}

func (g *world) amount() int { return [6]int{1, 2, 0, 30, 5, 3}[g.r.n(6)] }

func (g *world) refs() (l []int64) {
	for n := g.amount(); n > 0; n-- {
		l = append(l, int64(1+g.r.n(5000)))
	}
	if g.symbolic && len(l) > 0 {
		i, last := len(l)-1, int64(0)
		if i > 0 {
			last = l[i-1]
		}
		l[i] = last + (1<<22 | int64(v.U16("ref"))) // a difference of four bytes
	}
	return l
}

// one makes a block: what is in it, and its encoding.
func (g *world) one() (stuff, []byte) {
	var s stuff
	gran, la, lo := int64(100), int64(0), int64(0)
	var rest []byte
	if g.r.n(3) == 0 {
		gran, la, lo = 1000, int64(g.r.n(5000)), -int64(g.r.n(5000))
		rest = hw.Cat(hw.Num(nil, 17, 1000, 2), hw.Num(nil, 19, uint64(la), 10), hw.Num(nil, 20, uint64(lo), 10))
	}
	index := map[string]uint64{"": 0}
	strs := []string{"", ""} // one more, for empty keys
	str := func(b []byte) uint64 {
		i, ok := index[string(b)]
		if !ok {
			i = uint64(len(strs))
			index[string(b)] = i
			strs = append(strs, string(b))
		}
		return i
	}
	for n := g.r.n(4); n > 0; n-- {
		str([]byte("unused" + v.Itoa(uint64(g.r.n(9)))))
	}
	pairs := func(ts []tag) (ks, vs []uint64) {
		for _, t := range ts {
			k := str(t.k)
			if k == 0 {
				k = 1
			}
			ks, vs = append(ks, k), append(vs, str(t.v))
		}
		return
	}
	var groups [][]byte
	used := false // the last node so far has a symbolic position; no node follows it
	for n := 1 + g.r.n(2); n > 0; n-- {
		switch k := g.amount(); g.r.n(4) {
		case 0, 1:
			var ids, lat, lon []int64
			var kv []uint64
			any := false
			for i := 0; i < k && !used; i++ {
				g.nid += int64(1 + g.r.n(3))
				x := node{id: g.nid, lat: int64(g.r.n(30000) - 15000), lon: int64(g.r.n(30000) - 15000), tags: g.tags()}
				if g.symbolic && gran == 100 && i == k-1 {
					used = true
					x.lat = 1<<22 | int64(v.U16("lat"))
					if i > 0 {
						x.lat += lat[i-1]
					}
				}
				ks, vs := pairs(x.tags)
				for j := range ks {
					any = true
					kv = append(kv, ks[j], vs[j])
				}
				kv = append(kv, 0)
				ids, lat, lon = append(ids, x.id), append(lat, x.lat), append(lon, x.lon)
				x.lat, x.lon = la+gran*x.lat, lo+gran*x.lon
				s.nodes = append(s.nodes, x)
			}
			d := hw.Field(nil, 1, hw.PackedDelta(ids, 4))
			d = hw.Field(d, 8, hw.PackedDelta(lat, 4))
			d = hw.Field(d, 9, hw.PackedDelta(lon, 4))
			if any {
				d = hw.Field(d, 10, hw.Packed(kv, 2))
			}
			groups = append(groups, hw.Group(2, d))
		case 2:
			var ms [][]byte
			for ; k > 0; k-- {
				g.wid += int64(1 + g.r.n(3))
				w := way{g.wid, g.tags(), g.refs()}
				ks, vs := pairs(w.tags)
				b := hw.Num(nil, 1, uint64(w.id), 5)
				if len(ks) > 0 {
					b = hw.Field(b, 2, hw.Packed(ks, 2))
					b = hw.Field(b, 3, hw.Packed(vs, 2))
				}
				if len(w.refs) > 0 {
					b = hw.Field(b, 8, hw.PackedDelta(w.refs, 4))
				}
				ms = append(ms, b)
				s.ways = append(s.ways, w)
			}
			groups = append(groups, hw.Group(3, ms...))
		case 3:
			var ms [][]byte
			for ; k > 0; k-- {
				g.rid += int64(1 + g.r.n(3))
				r := relation{id: g.rid, tags: g.tags(), mem: g.refs()}
				ks, vs := pairs(r.tags)
				var roles []uint64
				for i := range r.mem {
					role := []byte{}
					if i%3 != 0 {
						role = []byte("role" + v.Itoa(uint64(g.r.n(5))))
					}
					r.roles, roles = append(r.roles, role), append(roles, str(role))
					r.types = append(r.types, uint64(g.r.n(3)))
				}
				b := hw.Num(nil, 1, uint64(r.id), 5)
				if len(ks) > 0 {
					b = hw.Field(b, 2, hw.Packed(ks, 2))
					b = hw.Field(b, 3, hw.Packed(vs, 2))
				}
				if len(r.mem) > 0 {
					b = hw.Field(b, 8, hw.Packed(roles, 2))
					b = hw.Field(b, 9, hw.PackedDelta(r.mem, 4))
					b = hw.Field(b, 10, hw.Packed(r.types, 1))
				}
				ms = append(ms, b)
				s.rels = append(s.rels, r)
			}
			groups = append(groups, hw.Group(4, ms...))
		}
	}
	return s, hw.Block(hw.Strings(strs...), rest, groups...)
}

// notData is the blob of a block that is not data.
var notData = hw.Raw([]byte{0x22, 1, 'x'})

// file makes a file of n data blocks and some others (nil); every tenth block has symbolic values.
func (g *world) file(n int) (ss []*stuff, file []byte) {
	g.r = rnd(1 + v.Choose("contents", v.Param("contents", 2)))
	for i := 0; i < n; i++ {
		if g.r.n(12) == 0 || i == 0 && g.r.n(2) == 0 {
			ss = append(ss, nil)
			file = append(file, hw.Frame("OSMHeader", notData)...)
		}
		g.symbolic = i%10 == 7
		s, b := g.one()
		ss = append(ss, &s)
		blob := hw.Raw(b)
		if g.r.n(4) == 0 && !g.symbolic {
			blob = hw.Comp(b)
		}
		file = append(file, hw.Frame("OSMData", blob)...)
	}
	return
}

// workers is one worker or several, of which the last starts first.
func workers() string {
	if v.Choose("workers", 2) == 0 {
		return "1"
	}
	v.SchedReverse()
	return "3"
}

// H_filter_many: what tag filtering leaves of a file of many blocks.
func H_filter_many() {
	w := workers()
	var g world
	ins, file := g.file(v.Param("blocks", 60))
	v.WriteFile("in.pbf", file)
	v.Assert(v.Run("tagfilter", "-i", "in.pbf", "-o", "out.pbf", "-w", w, "-r", "0") == 0, "tagfilter ends well")
	fr, ok := hw.Frames(v.ReadFile("out.pbf"))
	v.Assert(ok, "the output is a PBF file")
	for _, p := range ins {
		if p == nil {
			v.Assert(len(fr) > 0 && fr[0].Typ == "OSMHeader" && hw.EqBytes(fr[0].Blob, notData), "non-data blocks are kept")
			fr = fr[1:]
			continue
		}
		in := *p
		in.nodes = dropTags(in.nodes)
		if in.empty() && (len(fr) == 0 || fr[0].Typ != "OSMData") {
			continue
		}
		v.Assert(len(fr) > 0, "every block with something left is kept")
		data, ok := hw.RawData(fr[0].Blob)
		v.Assert(ok && fr[0].Typ == "OSMData", "the output block holds raw data")
		out := read(data)
		if in.empty() && !out.empty() {
			continue // left out
		}
		filtered(in, out)
		fr = fr[1:]
	}
	v.Assert(len(fr) == 0, "no further blocks")
	v.Reach("done")
}

// H_count_many: the totals of a file of many blocks.
func H_count_many() {
	w := workers()
	var g world
	ins, file := g.file(v.Param("blocks", 120))
	v.WriteFile("in.pbf", file)
	c := counts{blocks: int64(len(ins))}
	for _, s := range ins {
		if s == nil {
			continue
		}
		for _, n := range s.nodes {
			c.nodes++
			up(&c.maxNode, n.id)
		}
		for _, x := range s.ways {
			c.ways++
			c.refs += int64(len(x.refs))
			up(&c.maxWay, x.id)
			up(&c.maxRefs, int64(len(x.refs)))
		}
		for _, x := range s.rels {
			c.rels++
			up(&c.maxRel, x.id)
		}
	}
	v.Assert(v.Run("entitycount", "-i", "in.pbf", "-w", w) == 0, "entitycount ends well")
	c.report()
	v.Reach("done")
}

// H_find_many: a few ids in a file of many blocks.
func H_find_many() {
	w := workers()
	var g world
	ins, file := g.file(v.Param("blocks", 60))
	v.WriteFile("in.pbf", file)
	asked := map[int64]bool{}
	args := []string{"-i", "in.pbf", "-w", w}
	for _, id := range []int64{g.wid, 1, g.rid / 2, 40, 3, g.nid - 1, 2, 100000} {
		if !asked[id] {
			args = append(args, "-e", v.Itoa(uint64(id)))
		}
		asked[id] = true
	}
	left := map[int64]found{}
	text := func(ts []tag) (out string) {
		done := make([]bool, len(ts))
		for n := 0; n < len(ts); n++ {
			at := -1
			for i := range ts {
				if !done[i] && (at < 0 || string(ts[i].k) < string(ts[at].k)) {
					at = i
				}
			}
			if n > 0 {
				out += ", "
			}
			out += `"` + string(ts[at].k) + `":"` + string(ts[at].v) + `"`
			done[at] = true
		}
		return
	}
	for _, s := range ins {
		if s == nil {
			continue
		}
		for _, n := range s.nodes {
			if asked[n.id] {
				left[10*n.id+2] = found{kind: 2, id: n.id, lat: n.lat, lon: n.lon, tags: text(n.tags)}
			}
		}
		for _, x := range s.ways {
			if asked[x.id] {
				left[10*x.id+3] = found{kind: 3, id: x.id, refs: x.refs, tags: text(x.tags)}
			}
		}
		for _, x := range s.rels {
			if asked[x.id] {
				f := found{kind: 4, id: x.id, refs: x.mem, tags: text(x.tags)}
				for i, r := range x.roles {
					if i > 0 {
						f.roles += ", "
					}
					f.roles += `"` + string(r) + `"`
					f.types = append(f.types, int64(x.types[i]))
				}
				left[10*x.id+4] = f
			}
		}
	}
	v.Assert(v.Run("entityfind", args...) == 0, "entityfind ends well")
	for n := len(left); n > 0; n-- {
		kind, id := head()
		f, ok := left[10*id+int64(kind)]
		v.Assert(ok, "what is printed is in the file, was asked for, and is printed once")
		f.rest()
		delete(left, 10*id+int64(kind))
	}
	v.Assert(v.OutEOF(), "nothing else is printed")
	v.Reach("done")
}

// H_decompress_many: a file of many blocks of all sizes.
func H_decompress_many() {
	w := workers()
	r := rnd(1 + v.Choose("contents", v.Param("contents", 2)))
	var in []frame
	var file []byte
	for i := 0; i < v.Param("blocks", 150); i++ {
		f := frame{"OSMData", make([]byte, [5]int{0, 3, 200, 17000, 40}[r.n(5)])}
		if len(f.data) == 17000 && r.n(4) > 0 {
			f.data = f.data[:500]
		}
		if r.n(5) == 0 {
			f.typ = "OSMHeader"
		}
		for j := range f.data {
			f.data[j] = byte(i + j)
		}
		size := hw.Num(nil, 2, uint64(len(f.data)), 5)
		var b []byte
		form := r.n(4)
		if i%10 == 7 && len(f.data) < 1000 {
			f.data = append(f.data, v.Bytes("data", 2)...)
			size = hw.Num(nil, 2, uint64(len(f.data)), 5)
		}
		switch form {
		case 0:
			b = hw.Raw(f.data)
		case 1:
			b = hw.Cat(hw.Field(nil, 3, hw.Zlib(f.data, 2+len(f.data)/2)), size)
		default:
			b = hw.Comp(f.data)
		}
		in = append(in, f)
		file = append(file, hw.Frame(f.typ, b)...)
	}
	v.WriteFile("in.pbf", file)
	v.Assert(v.Run("decompress", "-i", "in.pbf", "-o", "out.pbf", "-w", w, "-r", "0") == 0, "decompress ends well")
	sameContent(in, v.ReadFile("out.pbf"))
	v.Reach("done")
}
