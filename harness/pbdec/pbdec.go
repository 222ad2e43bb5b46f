package main

import (
	"github.com/squizzling/osmindex/internal/pb"
	"github.com/squizzling/osmindex/internal/t"
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

const nDecoders = 8

// decode runs one of the message decoders and returns its result, or nil if it panicked.
func decode(which int, buf []byte, skip int) (r interface{}) {
	rd := &t.PBReader{SkipStringTable: skip&1 != 0, SkipDenseNodes: skip&2 != 0, SkipWays: skip&4 != 0, SkipRelations: skip&8 != 0}
	v.Panics(func() {
		switch which {
		case 0:
			x := rd.ReadBlobHeader(buf)
			r = &x
		case 1:
			x := &t.Blob{}
			rd.ReadBlob(buf, x)
			r = x
		case 2:
			x := &t.PrimitiveBlock{}
			rd.ReadPrimitiveBlock(buf, x)
			r = x
		case 3:
			x := &t.PrimitiveGroup{}
			rd.ReadPrimitiveGroup(buf, x)
			r = x
		case 4:
			x := &t.DenseNodes{}
			t.ReadDenseNodes(buf, x)
			r = x
		case 5:
			x := &t.Way{}
			rd.ReadWay(buf, x)
			r = x
		case 6:
			x := &t.Relation{}
			t.ReadRelation(buf, x)
			r = x
		case 7:
			x := &t.StringTable{}
			t.ReadStringTable(buf, x)
			r = x
		}
	})
	return r
}

func same(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case *t.BlobHeader:
		return *x == *b.(*t.BlobHeader)
	case *t.Blob:
		return hw.EqBlob(x, b.(*t.Blob))
	case *t.PrimitiveBlock:
		return hw.EqBlock(x, b.(*t.PrimitiveBlock))
	case *t.PrimitiveGroup:
		return hw.EqGroup(x, b.(*t.PrimitiveGroup))
	case *t.DenseNodes:
		return hw.EqDense(x, b.(*t.DenseNodes))
	case *t.Way:
		return hw.EqWay(x, b.(*t.Way))
	case *t.Relation:
		return hw.EqRelation(x, b.(*t.Relation))
	case *t.StringTable:
		return hw.EqStringTable(x, b.(*t.StringTable))
	}
	return false
}

// outcome decodes data as it is and as the front part of a larger buffer: the result must not
// depend on what lies behind, and every decode must end.
func outcome(which int, data []byte, skip int) interface{} {
	v.HangIsViolation(20000)
	v.ForkIndex()
	tail := v.Bytes("behind", 3)
	big := make([]byte, 0, len(data)+3)
	big = append(big, data...)
	big = append(big, tail...)
	r1 := decode(which, data[:len(data):len(data)], skip)
	r2 := decode(which, big[:len(data)], skip)
	v.Assert(same(r1, r2), "what lies behind the buffer does not matter")
	ok := true
	for i, c := range data {
		ok = ok && big[i] == c
	}
	v.Assert(ok, "the buffer is not modified")
	if r1 != nil {
		v.Reach("value")
	} else {
		v.Reach("panic")
	}
	return r1
}

// H_any: any bytes at all.
func H_any() {
	which := v.Choose("decoder", nDecoders)
	max := v.Param("n", 3)
	n := v.Choose("n", max+1)
	skip := 0
	if which == 2 || which == 3 {
		skip = 15 * v.Choose("skip", 2)
	}
	outcome(which, v.Bytes("b", n), skip)
}

// H_any_long: one known field with a length of any of 64 bits in the longest form, between
// arbitrary bytes.
func H_any_length() {
	which := v.Choose("decoder", nDecoders)
	skip := 0
	if which == 2 || which == 3 {
		skip = 15 * v.Choose("skip", 2)
	}
	var b []byte
	b = append(b, v.Byte("tag"))
	b = hw.VarW(b, v.U64("len"), 10)
	b[10] = v.Byte("last") // any tenth byte
	after := v.Choose("after", v.Param("after", 2)+1)
	b = append(b, v.Bytes("b", after)...)
	outcome(which, b, skip)
}

// field is a length-delimited field of a message.
type field struct {
	which int // decoder
	id    uint64
}

var fields = []field{
	{0, 1},         // header type
	{1, 1}, {1, 3}, // blob raw, zlib
	{2, 1}, {2, 2}, // block
	{3, 2}, {3, 3}, {3, 4}, {3, 5}, // group
	{4, 1}, {4, 5}, {4, 8}, {4, 9}, {4, 10}, // dense
	{5, 2}, {5, 3}, {5, 4}, {5, 8}, // way
	{6, 2}, {6, 3}, {6, 4}, {6, 8}, {6, 9}, {6, 10}, // relation
	{7, 1}, // string table
}

// H_overrun: a length-delimited field of every kind, of which fewer bytes remain than it
// declares.
func H_overrun() {
	f := fields[v.Choose("field", len(fields))]
	skip := 0
	if f.which == 2 || f.which == 3 {
		skip = 15 * v.Choose("skip", 2)
	}
	v.HangIsViolation(20000)
	v.ForkIndex()
	w := []int{1, 2, 5, 9, 10}[v.Choose("width", 5)]
	remain := v.Choose("remain", v.Param("remain", 2)+1)
	room := v.Choose("room", 2) * 4
	declared := v.U64("declared")
	if w < 10 {
		v.Assume(declared < 1<<(7*uint(w)))
	}
	v.Assume(declared > uint64(remain))
	var b []byte
	b = hw.Tag(b, f.id, 2)
	b = hw.VarW(b, declared, w)
	if w == 10 {
		b[len(b)-1] = byte(declared >> 63)
	}
	b = append(b, v.Bytes("content", remain)...)
	n := len(b)
	b = append(b, v.Bytes("behind", room)...)
	r := decode(f.which, b[:n:n+room], skip)
	v.Assert(r == nil, "an overlong field is refused")
	v.Reach("done")
}

// H_overrun_nested: the same one and two levels down, where what follows belongs to the
// surrounding message.
func H_overrun_nested() {
	v.HangIsViolation(20000)
	v.ForkIndex()
	f := fields[3+v.Choose("field", len(fields)-3)]
	w := []int{1, 2, 10}[v.Choose("width", 3)]
	remain := v.Choose("remain", 2)
	declared := v.U64("declared")
	if w < 10 {
		v.Assume(declared < 1<<(7*uint(w)))
	}
	v.Assume(declared > uint64(remain))
	var b []byte
	b = hw.Tag(b, f.id, 2)
	b = hw.VarW(b, declared, w)
	if w == 10 {
		b[len(b)-1] = byte(declared >> 63)
	}
	b = append(b, v.Bytes("content", remain)...)
	var m []byte // a block
	pre := v.Choose("before", 2)
	var g []byte
	if pre == 1 {
		g = hw.Field(g, 3, hw.Num(nil, 1, 5, 1))
	}
	switch f.which {
	case 2:
		m = b
	case 3:
		m = hw.Field(nil, 2, append(g, b...))
	case 4:
		g = hw.Field(g, 2, b)
	case 5:
		g = hw.Field(g, 3, b)
	case 6:
		g = hw.Field(g, 4, b)
	case 7:
		m = hw.Field(nil, 1, b)
	}
	if m == nil {
		g = hw.Field(g, 3, hw.Num(nil, 1, uint64(v.Int("follow", 0, 127)), 1))
		m = hw.Field(nil, 2, g)
	}
	if f.which != 2 {
		m = hw.Num(m, 17, uint64(v.Int("gran", 0, 127)), 1)
		m = hw.Num(m, 19, uint64(v.Int("latoff", 0, 127)), 1)
	}
	v.Assert(decode(2, m, 0) == nil, "an overlong nested field is refused")
	v.Reach("done")
}

// H_list_cut: a list whose last value goes on beyond the end of the list, whatever follows.
func H_list_cut() {
	v.HangIsViolation(20000)
	v.ForkIndex()
	lists := []struct {
		which int
		id    uint64
	}{{4, 1}, {4, 8}, {4, 9}, {4, 10}, {5, 2}, {5, 3}, {5, 8}, {6, 2}, {6, 3}, {6, 8}, {6, 9}, {6, 10}}
	l := lists[v.Choose("list", len(lists))]
	whole := v.Choose("whole", 2)
	part := []int{1, 2, 4, 9}[v.Choose("part", 4)]
	content := make([]byte, whole+part)
	for i := range content {
		content[i] = v.Byte("content")
		v.Assume(content[i] >= 0x80 == (i >= whole))
	}
	var b []byte
	b = hw.Field(b, l.id, content)
	n := len(b)
	next := l.id
	if v.Choose("next", 2) == 1 { // something to go on with, of the same message or behind it
		b = hw.Field(b, next, []byte{v.Byte("follow") & 0x7f})
		n = len(b)
	}
	b = append(b, v.Bytes("behind", 2)...)
	v.Assert(decode(l.which, b[:n], 0) == nil, "a list that is cut off is refused")
	if l.which == 4 {
		b = hw.Field(nil, 2, b[:n])
	} else {
		b = hw.Field(nil, uint64(l.which-2), b[:n])
	}
	v.Assert(decode(2, hw.Num(hw.Field(nil, 2, b), 17, uint64(v.Int("gran", 0, 127)), 1), 0) == nil, "within a block, too")
	v.Reach("done")
}

// H_exact: a field that ends exactly where its message ends is accepted, with its exact bytes.
func H_exact() {
	n := v.Choose("n", 4)
	content := v.Bytes("content", n)
	room := v.Choose("room", 2) * 3
	b := hw.VarW(nil, uint64(n), 1+v.Choose("width", 10))
	b = append(b, content...)
	end := len(b)
	b = append(b, v.Bytes("behind", room)...)
	next := 0
	got := pb.ReadBytes(b[:end], &next)
	v.Assert(hw.EqBytes(got, content) && next == end, "the exact content")
	next = 0
	pb.SkipBytes(b[:end], &next)
	v.Assert(next == end, "skipped to the end")
	v.Reach("done")
}
