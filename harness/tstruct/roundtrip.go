package main

import (
	"github.com/squizzling/osmindex/internal/pb"
	"github.com/squizzling/osmindex/internal/t"
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// small is a value of one encoded byte, whatever the coding.
func small(name string) int64 { return int64(v.Int(name, 0, 63)) }

func write(pblk *t.PrimitiveBlock) []byte {
	pre := []byte{0xAA}
	b := pblk.Write(pre)
	v.Assert(len(b) > 0 && b[0] == 0xAA, "what the buffer held stays")
	return b[1:]
}

func read(b []byte, rd *t.PBReader) *t.PrimitiveBlock {
	pblk := &t.PrimitiveBlock{}
	rd.ReadPrimitiveBlock(b, pblk)
	return pblk
}

// H_block_scalars: two of the four scalars over their whole range, the others at their default
// or at another value.
func H_block_scalars() {
	a := &t.PrimitiveBlock{Granularity: 100, DateGranularity: 1000}
	full := v.Choose("pair", 6)
	pairs := [6][2]int{{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}
	for i := 0; i < 4; i++ {
		sym := pairs[full][0] == i || pairs[full][1] == i
		switch {
		case sym && i == 0:
			a.Granularity = v.I32("gran")
		case sym && i == 1:
			a.DateGranularity = v.I32("dategran")
		case sym && i == 2:
			a.LatOffset = v.I64("latoff")
		case sym && i == 3:
			a.LonOffset = v.I64("lonoff")
		}
	}
	b := read(write(a), &t.PBReader{})
	v.Assert(b.Granularity == a.Granularity, "granularity")
	v.Assert(b.DateGranularity == a.DateGranularity, "date granularity")
	v.Assert(b.LatOffset == a.LatOffset, "latitude offset")
	v.Assert(b.LonOffset == a.LonOffset, "longitude offset")
	v.Assert(hw.EqBlock(a, b), "the rest of the block")
	v.Reach("done")
}

// H_defaults: a block that holds none of the scalars, written independently.
func H_defaults() {
	st := hw.Strings("", "k")
	b := read(hw.Block(st, nil), &t.PBReader{})
	v.Assert(b.Granularity == 100 && b.DateGranularity == 1000 && b.LatOffset == 0 && b.LonOffset == 0, "defaults")
	// every scalar present, in any order, as another program would write it
	g, d := v.I32("gran"), v.I32("dategran")
	la, lo := v.I64("lat"), v.I64("lon")
	fs := [4][]byte{}
	num := func(id uint64, x uint64) []byte {
		f := hw.VarW(hw.Tag(nil, id, 0), x, 10)
		f[len(f)-1] = byte(x >> 63)
		return f
	}
	fs[0], fs[1] = num(17, uint64(int64(g))), num(18, uint64(int64(d)))
	fs[2], fs[3] = num(19, uint64(la)), num(20, uint64(lo))
	r := v.Choose("rotation", 4)
	var rest []byte
	for i := range fs {
		rest = append(rest, fs[(i+r)%4]...)
	}
	b = read(hw.Block(st, rest), &t.PBReader{})
	v.Assert(b.Granularity == g && b.DateGranularity == d && b.LatOffset == la && b.LonOffset == lo, "scalars as written")
	v.Reach("done")
}

func list64(name string, n int, full bool) []int64 {
	s := make([]int64, n)
	for i := range s {
		if full {
			s[i] = v.I64(name)
		} else {
			s[i] = small(name)
		}
	}
	return s
}

func list32(name string, n int, full bool) []uint32 {
	s := make([]uint32, n)
	for i := range s {
		if full {
			s[i] = v.U32(name)
		} else {
			s[i] = uint32(small(name))
		}
	}
	return s
}

// H_dense: dense nodes, one list at a time over the whole range.
func H_dense() {
	full := v.Choose("full", 5)
	n := v.Choose("n", v.Param("n", 2)+1)
	dn := &t.DenseNodes{Id: list64("id", n, full == 1), Lat: list64("lat", n, full == 2), Lon: list64("lon", n, full == 3)}
	kv := v.Choose("kv", 3)
	for i := 0; i < kv; i++ {
		if full == 4 {
			dn.KeyVals = append(dn.KeyVals, v.I32("kv"))
		} else {
			dn.KeyVals = append(dn.KeyVals, int32(small("kv")))
		}
	}
	got := &t.DenseNodes{}
	t.ReadDenseNodes(dn.Write(nil), got)
	v.Assert(hw.EqI64s(dn.Id, got.Id), "ids")
	v.Assert(hw.EqI64s(dn.Lat, got.Lat), "latitudes")
	v.Assert(hw.EqI64s(dn.Lon, got.Lon), "longitudes")
	v.Assert(hw.EqI32s(dn.KeyVals, got.KeyVals), "keys and values")
	v.Reach("done")
}

// H_keyvals: the keys and values of each node of a dense section.
func H_keyvals() {
	n := 1 + v.Choose("nodes", 3)
	dn := &t.DenseNodes{Id: make([]int64, n)}
	var ks, vs [3][]uint32
	any := false
	for i := 0; i < n; i++ {
		m := v.Choose("tags", 3)
		for j := 0; j < m; j++ {
			any = true
			k, w := v.I32("k"), v.I32("v")
			v.Assume(k != 0)
			ks[i], vs[i] = append(ks[i], uint32(k)), append(vs[i], uint32(w))
			dn.KeyVals = append(dn.KeyVals, k, w)
		}
		dn.KeyVals = append(dn.KeyVals, 0)
	}
	if !any && v.Choose("omit", 2) == 1 {
		dn.KeyVals = nil
	}
	order := v.Choose("first", n) // nodes may be asked for in any order
	for j := 0; j < n; j++ {
		i := (order + j) % n
		gk, gv := dn.GetKeyVals(i)
		v.Assert(hw.EqU32s(gk, ks[i]), "keys of the node")
		v.Assert(hw.EqU32s(gv, vs[i]), "values of the node")
	}
	v.Reach("done")
}

// H_way and H_relation: one list at a time over the whole range.
func H_way() {
	full := v.Choose("full", 5)
	w := &t.Way{}
	if full == 0 {
		w.ID = t.WayId(v.I64("id"))
	} else {
		w.ID = t.WayId(small("id"))
	}
	n := v.Choose("tags", 3)
	w.Keys, w.Vals = list32("k", n, full == 1), list32("v", n, full == 2)
	w.Refs = list64("ref", v.Choose("refs", v.Param("refs", 2)+1), full >= 3)
	got := &t.Way{}
	(&t.PBReader{}).ReadWay(w.Write(nil), got)
	v.Assert(hw.EqWay(w, got), "the way")
	v.Reach("done")
}

func H_relation() {
	full := v.Choose("full", 6)
	r := &t.Relation{}
	if full == 0 {
		r.ID = t.RelId(v.I64("id"))
	} else {
		r.ID = t.RelId(small("id"))
	}
	nt := v.Choose("tags", 2)
	r.Keys, r.Vals = list32("k", nt, full == 1), list32("v", nt, full == 2)
	n := v.Choose("members", v.Param("members", 2)+1)
	for i := 0; i < n; i++ {
		if full == 3 {
			r.RolesSID = append(r.RolesSID, v.I32("role"))
		} else {
			r.RolesSID = append(r.RolesSID, int32(small("role")))
		}
		if full == 5 {
			r.MemberType = append(r.MemberType, v.U64("type"))
		} else {
			r.MemberType = append(r.MemberType, uint64(small("type")))
		}
	}
	r.MemIDs = list64("mem", n, full == 4)
	got := &t.Relation{}
	t.ReadRelation(r.Write(nil), got)
	v.Assert(hw.EqRelation(r, got), "the relation")
	v.Reach("done")
}

// H_strings: string tables of arbitrary bytes.
func H_strings() {
	st := &t.StringTable{}
	n := v.Choose("n", 4)
	for i := 0; i < n; i++ {
		st.S = append(st.S, string(v.Bytes("s", v.Choose("len", 3))))
	}
	got := &t.StringTable{}
	t.ReadStringTable(st.Write(nil), got)
	v.Assert(hw.EqStrs(st.S, got.S), "the strings")
	v.Reach("done")
}

// H_string_long: one string around the lengths where the prefix grows.
func H_string_long() {
	n := []int{126, 127, 128, 129, 16383, 16384}[v.Choose("len", 4+2*v.Param("long", 0))]
	b := make([]byte, n)
	x := v.Byte("b")
	b[0], b[n-1] = x, ^x
	st := &t.StringTable{S: []string{"", string(b), "z"}}
	got := &t.StringTable{}
	t.ReadStringTable(st.Write(nil), got)
	v.Assert(len(got.S) == 3 && got.S[0] == "" && got.S[2] == "z", "the other strings")
	v.Assert(len(got.S[1]) == n && got.S[1] == st.S[1], "the long string")
	v.Reach("done")
}

// H_blob: blobs and blob headers.
func H_blob() {
	b := &t.Blob{}
	content := v.Bytes("data", v.Choose("len", 4))
	switch v.Choose("kind", 3) {
	case 0:
		b.Raw = content
	case 1:
		b.ZLibData = content
		v.Assume(len(content) > 0)
	case 2:
		b.RawFunc = func(buf []byte) []byte { return append(buf, content...) }
	}
	if v.Choose("size", 2) == 1 {
		n := v.I32("rawsize")
		b.RawSize = &n
	}
	got := &t.Blob{}
	(&t.PBReader{}).ReadBlob(b.Write(nil), got)
	if b.RawFunc != nil {
		v.Assert(got.Raw != nil && hw.EqBytes(got.Raw, content) && got.ZLibData == nil, "the function's bytes")
		v.Assert((got.RawSize == nil) == (b.RawSize == nil) && (b.RawSize == nil || *b.RawSize == *got.RawSize), "raw size")
	} else {
		v.Assert(hw.EqBlob(b, got), "the blob")
		v.Assert((b.Raw == nil) == (got.Raw == nil), "raw data is present when it was, even if empty")
	}
	v.Reach("done")
}

func H_blob_header() {
	h := t.BlobHeader{Type: string(v.Bytes("type", v.Choose("len", 4))), DataSize: v.I32("size")}
	got := (&t.PBReader{}).ReadBlobHeader(h.Write(nil))
	v.Assert(got.Type == h.Type && got.DataSize == h.DataSize, "the header")
	v.Reach("done")
}

// H_whole: a block with several groups of every kind.
func H_whole() {
	a := &t.PrimitiveBlock{Granularity: int32(small("gran")), DateGranularity: 1000, LatOffset: -small("lat"), LonOffset: small("lon")}
	a.StringTable = &t.StringTable{S: []string{"", string(v.Bytes("s", 2)), "b"}}
	ng := v.Choose("groups", v.Param("groups", 2)+1)
	for g := 0; g < ng; g++ {
		pg := &t.PrimitiveGroup{}
		switch v.Choose("kind", 4) {
		case 0:
			pg.Dense = &t.DenseNodes{Id: list64("id", 2, false), Lat: list64("lat", 2, false), Lon: list64("lon", 2, false), KeyVals: []int32{1, 2, 0, 0}}
		case 1:
			for i := 0; i < 2; i++ {
				pg.Ways = append(pg.Ways, &t.Way{ID: t.WayId(small("way")), Keys: list32("k", 1, false), Vals: list32("v", 1, false), Refs: list64("ref", 2, false)})
			}
		case 2:
			for i := 0; i < 2; i++ {
				pg.Relations = append(pg.Relations, &t.Relation{ID: t.RelId(small("rel")), Keys: []uint32{1}, Vals: []uint32{2},
					RolesSID: []int32{int32(small("role"))}, MemIDs: list64("mem", 1, false), MemberType: []uint64{uint64(small("type"))}})
			}
		case 3: // everything in one group, or nothing
			if v.Choose("mixed", 2) == 1 {
				pg.Dense = &t.DenseNodes{Id: list64("id", 1, false), Lat: list64("lat", 1, false), Lon: list64("lon", 1, false)}
				pg.Ways = []*t.Way{{ID: t.WayId(small("way")), Refs: list64("ref", 1, false)}}
				pg.Relations = []*t.Relation{{ID: t.RelId(small("rel")), MemIDs: list64("mem", 1, false), RolesSID: []int32{0}, MemberType: []uint64{1}}}
			}
		}
		a.PrimitiveGroup = append(a.PrimitiveGroup, pg)
	}
	b := read(write(a), &t.PBReader{})
	v.Assert(hw.EqBlock(a, b), "the block")
	v.Reach("done")
}

// H_reuse: one reader reads one structure after another; nothing of one is left in the next.
func H_reuse() {
	rd := &t.PBReader{}
	switch v.Choose("what", 4) {
	case 0:
		w1 := &t.Way{ID: t.WayId(small("w")), Refs: list64("r", 2, false), Keys: list32("k", 1, false), Vals: list32("v", 1, false)}
		w2 := &t.Way{ID: t.WayId(small("w")), Refs: list64("r", 1, false), Keys: list32("k", 1, false), Vals: list32("v", 1, false)}
		buf := w1.Write(make([]byte, 0, 64))
		n := len(buf)
		buf = w2.Write(buf)
		g1, g2, g3 := &t.Way{}, &t.Way{}, &t.Way{}
		rd.ReadWay(buf[:n], g1)
		rd.ReadWay(buf[n:], g2)
		rd.ReadWay(nil, g3)
		v.Assert(hw.EqWay(w1, g1) && hw.EqWay(w2, g2) && hw.EqWay(&t.Way{}, g3), "the ways")
	case 1:
		a := &t.PrimitiveBlock{Granularity: 7, DateGranularity: 8, LatOffset: 1 + small("lat"), LonOffset: 1 + small("lon"), StringTable: &t.StringTable{S: []string{"a", "b"}}}
		a.PrimitiveGroup = []*t.PrimitiveGroup{{
			Dense:     &t.DenseNodes{Id: list64("id", 1, false), Lat: list64("lat", 1, false), Lon: list64("lon", 1, false), KeyVals: []int32{1, 1, 0}},
			Ways:      []*t.Way{{ID: 5, Refs: list64("ref", 1, false)}},
			Relations: []*t.Relation{{ID: 6, MemIDs: list64("mem", 1, false), RolesSID: []int32{0}, MemberType: []uint64{1}}},
		}}
		b := &t.PrimitiveBlock{Granularity: 100, DateGranularity: 1000, StringTable: &t.StringTable{S: []string{""}}}
		b.PrimitiveGroup = []*t.PrimitiveGroup{{Ways: []*t.Way{{}}}, {Relations: []*t.Relation{{}}}, {}}
		ba, bb := write(a), write(b)
		g1, g2, g3 := read(ba, rd), read(bb, rd), read(ba, rd)
		v.Assert(hw.EqBlock(a, g1) && hw.EqBlock(b, g2) && hw.EqBlock(a, g3), "the blocks")
	case 2: // headers as another program may write them: a field may be missing or in another place
		size := v.I32("size")
		v.Assume(size >= 0)
		full := hw.Cat(hw.Num(nil, 3, uint64(size), 5), hw.Field(nil, 1, []byte("OSMData")))
		h1 := rd.ReadBlobHeader(full)
		h2 := rd.ReadBlobHeader(hw.Field(nil, 1, []byte("x")))
		h3 := rd.ReadBlobHeader(hw.Num(nil, 3, 9, 1))
		v.Assert(h1.Type == "OSMData" && h1.DataSize == size, "the first header")
		v.Assert(h2.Type == "x" && h2.DataSize == 0, "a header without a size")
		v.Assert(h3.Type == "" && h3.DataSize == 9, "a header without a type")
	case 3:
		n := int32(5)
		x := v.Bytes("x", 2)
		b1, b2, b3 := &t.Blob{RawSize: &n, ZLibData: x}, &t.Blob{Raw: x[:1]}, &t.Blob{RawSize: &n, Raw: x[1:]}
		g1, g2, g3 := &t.Blob{}, &t.Blob{}, &t.Blob{}
		rd.ReadBlob(b1.Write(nil), g1)
		rd.ReadBlob(b2.Write(nil), g2)
		rd.ReadBlob(b3.Write(nil), g3)
		v.Assert(hw.EqBlob(b1, g1) && hw.EqBlob(b2, g2) && hw.EqBlob(b3, g3), "the blobs")
	}
	v.Reach("done")
}

var _ = pb.PbVarInt

// H_large: lists around and beyond the sizes where a length needs a third byte, with a few
// arbitrary values in them.
func H_large() {
	sizes := [6]int{63, 64, 8191, 8192, 17000, 40000}
	n := sizes[v.Choose("size", 5+v.Param("huge", 0))]
	at := [3]int{0, n / 2, n - 1}
	big := func(name string) []int64 {
		l := make([]int64, n)
		for i := range l {
			l[i] = int64(i%3) * 50 // differences of one and two bytes
		}
		for _, i := range at {
			l[i] = small(name)
			for _, j := range [2]int{i - 1, i + 1} {
				if j >= 0 && j < n {
					l[j] = 1000 // the difference takes two bytes whatever the value is
				}
			}
		}
		return l
	}
	big32 := func(name string) []uint32 {
		l := make([]uint32, n)
		for i := range l {
			l[i] = uint32(i%3) * 300
		}
		for _, i := range at {
			l[i] = uint32(small(name))
		}
		return l
	}
	a := &t.PrimitiveBlock{Granularity: 100, DateGranularity: 1000}
	a.StringTable = &t.StringTable{S: []string{"", "k"}}
	pg := &t.PrimitiveGroup{}
	switch v.Choose("what", 8) {
	case 0:
		pg.Dense = &t.DenseNodes{Id: big("id"), Lat: make([]int64, n), Lon: make([]int64, n)}
	case 1:
		pg.Dense = &t.DenseNodes{Id: make([]int64, n), Lat: big("lat"), Lon: big("lon")}
	case 2:
		kv := make([]int32, 0, 3*n)
		for i := 0; i < n; i++ {
			if i%5 == 0 {
				kv = append(kv, 200, 300)
			}
			kv = append(kv, 0)
		}
		kv[0], kv[1] = int32(1+small("k")), int32(small("v"))
		pg.Dense = &t.DenseNodes{Id: make([]int64, n), Lat: make([]int64, n), Lon: make([]int64, n), KeyVals: kv}
	case 3:
		pg.Ways = []*t.Way{
			{ID: t.WayId(small("before")), Refs: []int64{small("ref")}},
			{ID: t.WayId(small("id")), Refs: big("ref"), Keys: []uint32{1}, Vals: []uint32{1}},
			{ID: t.WayId(small("after")), Refs: []int64{small("ref")}},
		}
	case 4:
		pg.Ways = []*t.Way{{ID: t.WayId(small("id")), Keys: big32("k"), Vals: big32("v")}, {ID: t.WayId(small("after"))}}
	case 5:
		r := &t.Relation{ID: t.RelId(small("id")), MemIDs: big("mem"), RolesSID: make([]int32, n), MemberType: make([]uint64, n)}
		for i := 0; i < n; i++ {
			r.RolesSID[i] = int32(i % 2 * 200)
			r.MemberType[i] = uint64(i % 3)
		}
		r.RolesSID[at[1]] = int32(small("role"))
		r.MemberType[at[2]] = uint64(small("type"))
		pg.Relations = []*t.Relation{r, {ID: t.RelId(small("after"))}}
	case 6: // many ways
		for i := 0; i < n; i++ {
			pg.Ways = append(pg.Ways, &t.Way{ID: t.WayId(i), Refs: []int64{1}})
		}
		for _, i := range at {
			pg.Ways[i].Refs[0] = small("ref")
		}
	case 7: // many strings
		for i := 2; i < n; i++ {
			a.StringTable.S = append(a.StringTable.S, "s")
		}
		a.StringTable.S[n-1] = string(v.Bytes("s", 2))
	}
	a.PrimitiveGroup = append(a.PrimitiveGroup, pg)
	var out []byte
	if v.Panics(func() { out = write(a) }) {
		// The space for the length of a way, and of each of its lists, is two bytes.
		v.Assert(len(pg.Ways) == 1 && n > 8192 || len(pg.Ways) == 2 && n >= 8191 || len(pg.Ways) == 3 && n > 8192, "a list that fits is written")
		v.Reach("too long")
		return
	}
	b := read(out, &t.PBReader{})
	v.Assert(hw.EqBlock(a, b), "the block")
	v.Reach("done")
}
