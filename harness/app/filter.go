package main

import (
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// The tags that are discarded: these, and those with these prefixes.
var dropExact = []string{
	"note", "source", "source_ref", "attribution", "comment", "fixme", "created_by", "odbl", "odbl:note",
	"project:eurosha_2012", "ref:UrbIS", "accuracy:meters", "sub_sea:type", "waterway:type", "statscan:rbuid",
	"ref:ruian:addr", "ref:ruian", "building:ruian:type", "dibavod:id", "uir_adr:ADRESA_KOD", "gst:feat_id",
	"maaamet:ETAK", "ref:FR:FANTOIR", "3dshapes:ggmodelk", "AND_nosr_r", "OPPDATERIN", "addr:city:simc",
	"addr:street:sym_ul", "building:usage:pl", "building:use:pl", "teryt:simc", "raba:id", "dcgis:gis_id",
	"nycdoitt:bin", "chicago:building_id", "lojic:bgnum", "massgis:way_id", "import", "import_uuid", "OBJTYPE",
	"SK53_bulk:load",
}

var dropPrefix = []string{
	"note:", "source:", "CLC:", "geobase:", "canvec:", "osak:", "kms:", "ngbe:", "it:fvg:", "KSJ2:", "yh:",
	"LINZ2OSM:", "linz2osm:", "LINZ:", "WroclawGIS:", "naptan:", "tiger:", "gnis:", "NHD:", "nhd:", "mvdgis:",
}

func eq(a []byte, s string) bool { return hw.EqBytes(a, []byte(s)) }

func kept(key []byte) bool {
	drop := false
	for _, s := range dropExact {
		if len(s) == len(key) {
			drop = drop || eq(key, s)
		}
	}
	for _, s := range dropPrefix {
		if len(s) <= len(key) {
			drop = drop || eq(key[:len(s)], s)
		}
	}
	return !drop
}

// tag is a key and its value.
type tag struct{ k, v []byte }

type node struct {
	id       int64
	lat, lon int64 // in nanodegrees
	tags     []tag
}

type way struct {
	id   int64
	tags []tag
	refs []int64
}

type relation struct {
	id    int64
	tags  []tag
	roles [][]byte
	mem   []int64
	types []uint64
}

// stuff is what a block holds.
type stuff struct {
	nodes []node
	ways  []way
	rels  []relation
}

func (s stuff) empty() bool { return len(s.nodes)+len(s.ways)+len(s.rels) == 0 }

// read takes the contents of a block apart.
func read(b []byte) (s stuff) {
	k, ok := hw.ParseBlock(b)
	v.Assert(ok, "the output block can be read")
	v.Assert(len(k.ST) > 0 && len(k.ST[0]) == 0, "the string table begins with an empty string")
	str := func(i uint64) []byte {
		v.Assert(i < uint64(len(k.ST)), "indexes are in the string table")
		return k.ST[i]
	}
	pairs := func(ks, vs []uint64) (ts []tag) {
		v.Assert(len(ks) == len(vs), "keys have values")
		for i := range ks {
			ts = append(ts, tag{str(ks[i]), str(vs[i])})
		}
		return
	}
	for _, g := range k.Groups {
		for _, m := range g {
			switch m.Kind {
			case 2:
				d, ok := hw.ParseDense(m.B)
				v.Assert(ok && len(d.Lat) == len(d.IDs) && len(d.Lon) == len(d.IDs), "dense nodes can be read")
				kv := d.KV
				for i, id := range d.IDs {
					n := node{id: id, lat: k.LatOff + k.Gran*d.Lat[i], lon: k.LonOff + k.Gran*d.Lon[i]}
					for len(kv) >= 2 && kv[0] != 0 {
						n.tags = append(n.tags, tag{str(kv[0]), str(kv[1])})
						kv = kv[2:]
					}
					if d.KV != nil {
						v.Assert(len(kv) > 0 && kv[0] == 0, "tags of dense nodes end")
						kv = kv[1:]
					}
					s.nodes = append(s.nodes, n)
				}
				v.Assert(len(kv) == 0, "no tags are left over")
			case 3:
				w, ok := hw.ParseWay(m.B)
				v.Assert(ok, "ways can be read")
				s.ways = append(s.ways, way{w.ID, pairs(w.Keys, w.Vals), w.Refs})
			case 4:
				r, ok := hw.ParseRelation(m.B)
				v.Assert(ok && len(r.Mem) == len(r.Types) && len(r.Roles) == len(r.Mem), "relations can be read")
				x := relation{id: r.ID, tags: pairs(r.Keys, r.Vals), mem: r.Mem, types: r.Types}
				for _, i := range r.Roles {
					x.roles = append(x.roles, str(i))
				}
				s.rels = append(s.rels, x)
			default:
				v.Assert(false, "a known kind of entity")
			}
		}
	}
	return s
}

// sameTags compares tags in any order; keys are unique.
func sameTags(a, b []tag) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		found := false
		for _, y := range b {
			found = found || (hw.EqBytes(x.k, y.k) && hw.EqBytes(x.v, y.v))
		}
		if !found {
			return false
		}
	}
	return true
}

func near(a, b int64) bool { return a-b < 100 && b-a < 100 }

// filtered compares the contents of a block to what is to be left of them.
func filtered(in, out stuff) {
	v.Assert(len(in.nodes) == len(out.nodes), "exactly the nodes with tags are kept")
	for i, a := range in.nodes {
		b := out.nodes[i]
		v.Assert(a.id == b.id, "nodes keep their ids, in order")
		v.Assert(near(a.lat, b.lat) && near(a.lon, b.lon), "nodes keep their positions")
		v.Assert(sameTags(a.tags, b.tags), "nodes keep the tags that are not discarded")
	}
	v.Assert(len(in.ways) == len(out.ways), "all ways are kept")
	for i, a := range in.ways {
		b := out.ways[i]
		v.Assert(a.id == b.id && hw.EqI64s(a.refs, b.refs), "ways keep their ids and references")
		v.Assert(sameTags(a.tags, b.tags), "ways keep their tags")
	}
	v.Assert(len(in.rels) == len(out.rels), "all relations are kept")
	for i, a := range in.rels {
		b := out.rels[i]
		v.Assert(a.id == b.id && hw.EqI64s(a.mem, b.mem) && hw.EqU64s(a.types, b.types), "relations keep their ids, members and types")
		v.Assert(hw.EqByteLists(a.roles, b.roles), "relations keep their roles")
		v.Assert(sameTags(a.tags, b.tags), "relations keep their tags")
	}
}

func dropTags(ns []node) (out []node) {
	for _, n := range ns {
		var ts []tag
		for _, t := range n.tags {
			if kept(t.k) {
				ts = append(ts, t)
			}
		}
		if len(ts) > 0 {
			n.tags = ts
			out = append(out, n)
		}
	}
	return
}

// key is any key of a few bytes, or one near to a discarded one.
func key() []byte {
	switch v.Choose("key", 4) {
	case 0:
		return v.Bytes("key", v.Choose("key length", v.Param("len", 6)+1))
	case 1: // a discarded name or prefix, and maybe more
		i := v.Choose("name", len(dropExact)+len(dropPrefix))
		var k []byte
		if i < len(dropExact) {
			k = []byte(dropExact[i])
		} else {
			k = []byte(dropPrefix[i-len(dropExact)])
		}
		return append(k, v.Bytes("more", v.Choose("more", 3))...)
	case 2: // one byte of it changed
		i := v.Choose("name", len(dropExact)+len(dropPrefix))
		var k []byte
		if i < len(dropExact) {
			k = []byte(dropExact[i])
		} else {
			k = append([]byte(dropPrefix[i-len(dropExact)]), 'x')
		}
		k[v.Choose("place", 2)*(len(k)-2)] = v.Byte("other")
		return k
	default: // one byte missing in front, or more in front
		i := v.Choose("name", len(dropPrefix))
		if v.Choose("front", 2) == 0 {
			return append([]byte(dropPrefix[i][1:]), 'x')
		}
		return append(v.Bytes("front", 1), dropPrefix[i]...)
	}
}

// H_keys: a node with a tag of any key, alone or beside another tag.
func H_keys() {
	k := key()
	val := v.Bytes("val", 1-v.Choose("empty value", 2))
	v.Assume(len(val) == 0 || val[0] >= 'a' && val[0] < 'e')
	n := node{id: 5, lat: 100, lon: -200, tags: []tag{{k, val}}}
	st := hw.Cat(hw.Field(nil, 1, nil), hw.Field(nil, 1, k), hw.Field(nil, 1, val), hw.Field(nil, 1, []byte("zzz")))
	kv := []uint64{1, 2, 0}
	if v.Choose("other tag", 2) == 1 {
		v.Assume(len(k) != 3 || !eq(k, "zzz"))
		n.tags = append(n.tags, tag{[]byte("zzz"), val})
		kv = []uint64{1, 2, 3, 2, 0}
	}
	b := hw.Block(st, nil, hw.Group(2, hw.DenseZ([]uint64{10}, []uint64{2}, []uint64{3}, kv, 1)))
	v.WriteFile("in.pbf", hw.Frame("OSMData", hw.Raw(b)))
	v.Assert(v.Run("tagfilter", "-i", "in.pbf", "-o", "out.pbf", "-w", "1", "-r", "0") == 0, "tagfilter ends well")
	fr, ok := hw.Frames(v.ReadFile("out.pbf"))
	v.Assert(ok && len(fr) <= 1, "the output is a PBF file")
	var out stuff
	if len(fr) == 1 {
		data, ok := hw.RawData(fr[0].Blob)
		v.Assert(ok && fr[0].Typ == "OSMData", "the output block holds raw data")
		out = read(data)
	}
	filtered(stuff{nodes: dropTags([]node{n})}, out)
	if len(out.nodes) > 0 {
		v.Reach("kept")
	} else {
		v.Reach("dropped")
	}
}

// maker builds a block and keeps what is in it.
type maker struct {
	s      stuff
	gran   int64
	lo, la int64
	groups [][]byte
}

// The last one is there for nodes with an empty key: in dense nodes, 0 is not a key.
var strs = []string{"", "name", "note", "source:x", "r", "highway", "v", ""}

func someTags(ks []uint64) (ts []tag, vs []uint64) {
	for i, k := range ks {
		val := [3]uint64{6, 4, 0}[i%3]
		vs = append(vs, val)
		ts = append(ts, tag{[]byte(strs[k]), []byte(strs[val])})
	}
	return
}

// position is a symbolic coordinate: its zigzag code and its value.
func (m *maker) position() (uint64, int64) {
	var z uint64
	switch {
	case m.gran != 100: // divisions are hard
		z = uint64(v.Byte("coordinate"))&3 | 1<<28
	case len(m.s.nodes) == 0:
		z = uint64(v.Byte("coordinate"))&0x7f | 1<<30
	default:
		z = uint64(v.Byte("coordinate"))&0x3d | 1<<10
	}
	return z, hw.Unzig(z)
}

func (m *maker) nodes(kinds ...int) {
	var ids, lat, lon, kv []uint64
	id, y, x := int64(0), int64(0), int64(0)
	for _, k := range kinds {
		d := uint64(v.U16("node id"))&0xfffe | 1<<50
		if len(ids) > 0 {
			d = uint64(v.Byte("node id"))&0x1e | 1<<14
		}
		id += hw.Unzig(d)
		zy, dy := m.position()
		y += dy
		zx := uint64(9)
		x += hw.Unzig(zx)
		ids, lat, lon = append(ids, d), append(lat, zy), append(lon, zx)
		ks := [][]uint64{nil, {1}, {2}, {2, 1, 3}, {3, 2}, {5, 1, 7}}[k]
		ts, vs := someTags(ks)
		for i := range ks {
			kv = append(kv, ks[i], vs[i])
		}
		kv = append(kv, 0)
		m.s.nodes = append(m.s.nodes, node{id, m.la + m.gran*y, m.lo + m.gran*x, ts})
	}
	if len(kv) == len(ids) {
		kv = nil
	}
	m.groups = append(m.groups, hw.Group(2, hw.DenseZ(ids, lat, lon, kv, 8)))
}

func (m *maker) way(ks ...uint64) []byte {
	id := uint64(v.U16("way id")) | 1<<50
	ts, vs := someTags(ks)
	w := way{id: int64(id), tags: ts}
	var ds []uint64
	last := int64(0)
	for k := v.Choose("refs", v.Param("refs", 2)); k > 0; k-- {
		d := uint64(v.U16("ref")) | 1<<14 | uint64(1-len(ds)&1)<<50
		last += hw.Unzig(d)
		w.refs, ds = append(w.refs, last), append(ds, d)
	}
	m.s.ways = append(m.s.ways, w)
	b := hw.Num(nil, 1, id, 8)
	b = hw.Field(b, 2, hw.Packed(ks, 1))
	b = hw.Field(b, 3, hw.Packed(vs, 1))
	return hw.Field(b, 8, hw.Packed(ds, 8))
}

func (m *maker) relation(ks ...uint64) []byte {
	id := uint64(v.U16("relation id")) | 1<<50
	ts, vs := someTags(ks)
	r := relation{id: int64(id), tags: ts}
	var ds, roles []uint64
	last := int64(0)
	for k := 1 + v.Choose("members", 2); k > 0; k-- {
		d := uint64(v.U16("member")) | 1<<14 | uint64(1-len(ds)&1)<<50
		last += hw.Unzig(d)
		role := []uint64{4, 0, 2}[v.Choose("role", v.Param("roles", 2))]
		r.mem, ds = append(r.mem, last), append(ds, d)
		t := uint64(v.Byte("type"))
		v.Assume(t < 3)
		r.types = append(r.types, t)
		r.roles, roles = append(r.roles, []byte(strs[role])), append(roles, role)
	}
	m.s.rels = append(m.s.rels, r)
	b := hw.Num(nil, 1, id, 8)
	b = hw.Field(b, 2, hw.Packed(ks, 1))
	b = hw.Field(b, 3, hw.Packed(vs, 1))
	b = hw.Field(b, 8, hw.Packed(roles, 1))
	b = hw.Field(b, 9, hw.Packed(ds, 8))
	return hw.Field(b, 10, hw.Packed(r.types, 1))
}

// block makes a block of some shape.
func (m *maker) block(shape int) []byte {
	m.gran = 100
	var rest []byte
	if shape >= 4 {
		m.gran, m.la, m.lo = 1000, 1<<32+77, -1<<31-5
		rest = hw.Num(nil, 17, 1000, 2)
		rest = hw.Num(rest, 19, uint64(m.la), 10)
		rest = hw.Num(rest, 20, uint64(m.lo), 10)
	}
	switch shape {
	case 0:
		m.nodes(v.Choose("tags", 6), v.Choose("tags", 6))
	case 1:
		m.groups = append(m.groups, hw.Group(3, m.way(), m.way(2, 1)))
	case 2:
		m.groups = append(m.groups, hw.Group(4, m.relation(1, 2)))
	case 3: // nodes without tags only
		m.nodes(0, 0)
	case 4: // groups of several kinds
		m.groups = append(m.groups, hw.Group(3, m.way(3)))
		m.nodes(1+v.Choose("tags", 4), 0)
		m.groups = append(m.groups, hw.Group(4, m.relation()))
		m.nodes(4)
		m.groups = append(m.groups, hw.Group(3, m.way(5, 2, 0)))
	case 5: // everything dropped but a way
		m.nodes(4, 2)
		m.groups = append(m.groups, hw.Group(3, m.way(2)))
	case 6: // no groups
		return hw.Block(hw.Strings(""), nil)
	case 7: // groups of nothing, or of nodes without nodes
		m.groups = append(m.groups, hw.Group(2), hw.Group(2, nil))
	}
	return hw.Block(hw.Strings(strs...), rest, m.groups...)
}

// H_filter: files of blocks of several shapes.
func H_filter() {
	n := 1 + v.Choose("blocks", v.Param("blocks", 2))
	w := "1"
	if n > 1 {
		w = pickWorkers()
	}
	header := hw.Raw(v.Bytes("header", 3))
	file := hw.Frame("OSMHeader", header)
	var ins []stuff
	for i := 0; i < n; i++ {
		m := maker{}
		shape := 0
		if i == 0 {
			shape = v.Choose("shape", 8)
		} else {
			shape = []int{3, 2, 5, 6}[v.Choose("shape", 4)]
		}
		b := m.block(shape)
		ins = append(ins, m.s)
		blob := hw.Raw(b)
		if i == 1 {
			blob = hw.Comp(b)
		}
		file = append(file, hw.Frame("OSMData", blob)...)
	}
	v.WriteFile("in.pbf", file)
	v.Assert(v.Run("tagfilter", "-i", "in.pbf", "-o", "out.pbf", "-w", w, "-r", "0") == 0, "tagfilter ends well")
	v.Assert(v.FileList() == "in.pbf out.pbf", "no other file is left")
	fr, ok := hw.Frames(v.ReadFile("out.pbf"))
	v.Assert(ok && len(fr) > 0, "the output is a PBF file")
	v.Assert(fr[0].Typ == "OSMHeader" && hw.EqBytes(fr[0].Blob, header), "non-data blocks are kept")
	fr = fr[1:]
	for _, in := range ins {
		in.nodes = dropTags(in.nodes)
		if in.empty() {
			v.Reach("nothing left")
			if len(fr) == 0 {
				continue
			}
		} else {
			v.Assert(len(fr) > 0, "every block with something left is kept")
		}
		data, ok := hw.RawData(fr[0].Blob)
		v.Assert(ok && fr[0].Typ == "OSMData", "the output block holds raw data")
		out := read(data)
		if in.empty() && !out.empty() {
			continue // left out
		}
		filtered(in, out)
		fr = fr[1:]
	}
	v.Assert(len(fr) == 0, "no further blocks")
	v.Reach("done")
}

// H_filter_schedules: every schedule of a few blocks of nodes, ways and relations, against what a
// single worker writes.
func H_filter_schedules() {
	file := hw.Frame("OSMHeader", hw.Raw([]byte{0x22, 1, 'x'}))
	var ins []stuff
	for i := 0; i < v.Param("blocks", 3); i++ {
		m := maker{gran: 100}
		switch i {
		case 0:
			m.nodes(3, 0, 5)
		case 1:
			m.nodes(4)
			m.groups = append(m.groups, hw.Group(3, m.way(2, 1)))
		default:
			m.nodes(5, 1)
		}
		b := hw.Block(hw.Strings(strs...), nil, m.groups...)
		ins = append(ins, m.s)
		blob := hw.Raw(b)
		if i == 2 {
			blob = hw.Comp(b)
		}
		file = append(file, hw.Frame("OSMData", blob)...)
	}
	v.WriteFile("in.pbf", file)
	v.SchedAll()
	v.Assert(v.Run("tagfilter", "-i", "in.pbf", "-o", "out.pbf", "-w", "2", "-r", "0") == 0, "tagfilter ends well")
	fr, ok := hw.Frames(v.ReadFile("out.pbf"))
	v.Assert(ok && len(fr) == 1+len(ins), "the output is a PBF file of as many blocks")
	for i, in := range ins {
		in.nodes = dropTags(in.nodes)
		data, ok := hw.RawData(fr[1+i].Blob)
		v.Assert(ok && fr[1+i].Typ == "OSMData", "the output block holds raw data")
		filtered(in, read(data))
	}
	v.Reach("done")
}
