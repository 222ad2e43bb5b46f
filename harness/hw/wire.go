// Package hw is shared by the harnesses: a protobuf and PBF writer that is independent of the
// repository's, and comparisons of the repository's structures.
package hw

import "hash/adler32"

// Var appends the minimal varint of a number that is concrete.
func Var(b []byte, x uint64) []byte {
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(b, byte(x))
}

// VarW appends a varint of exactly w bytes; the value is only kept if it fits 7w bits.
func VarW(b []byte, x uint64, w int) []byte {
	for i := 0; i < w-1; i++ {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(b, byte(x)&0x7f)
}

// Zig is the zigzag code.
func Zig(n int64) uint64 { return uint64(n<<1) ^ uint64(n>>63) }

// Tag appends a field tag: typ 0 varint, 2 bytes.
func Tag(b []byte, id, typ uint64) []byte { return Var(b, id<<3|typ) }

// Field appends a length-delimited field.
func Field(b []byte, id uint64, payload []byte) []byte {
	b = Tag(b, id, 2)
	b = Var(b, uint64(len(payload)))
	return append(b, payload...)
}

// Num appends a varint field of w bytes.
func Num(b []byte, id uint64, x uint64, w int) []byte {
	return VarW(Tag(b, id, 0), x, w)
}

// Packed is a packed list of w-byte varints.
func Packed(xs []uint64, w int) []byte {
	var b []byte
	for _, x := range xs {
		b = VarW(b, x, w)
	}
	return b
}

// PackedDelta is a packed list of w-byte zigzag deltas.
func PackedDelta(xs []int64, w int) []byte {
	var b []byte
	last := int64(0)
	for _, x := range xs {
		b = VarW(b, Zig(x-last), w)
		last = x
	}
	return b
}

// Strings is a string table message.
func Strings(ss ...string) []byte {
	b := []byte{}
	for _, s := range ss {
		b = Field(b, 1, []byte(s))
	}
	return b
}

// Dense is a dense nodes message; kv may be nil.
func Dense(ids, lat, lon []int64, kv []uint64, w int) []byte {
	var b []byte
	b = Field(b, 1, PackedDelta(ids, w))
	b = Field(b, 8, PackedDelta(lat, w))
	b = Field(b, 9, PackedDelta(lon, w))
	if kv != nil {
		b = Field(b, 10, Packed(kv, 1))
	}
	return b
}

// DenseZ is Dense with the zigzag codes of the deltas given.
func DenseZ(ids, lat, lon, kv []uint64, w int) []byte {
	var b []byte
	b = Field(b, 1, Packed(ids, w))
	b = Field(b, 8, Packed(lat, w))
	b = Field(b, 9, Packed(lon, w))
	if kv != nil {
		b = Field(b, 10, Packed(kv, 1))
	}
	return b
}

// Unzig decodes the zigzag code.
func Unzig(z uint64) int64 { return int64(z>>1) ^ -int64(z&1) }

// Way is a way message.
func Way(id int64, keys, vals []uint64, refs []int64, w int) []byte {
	var b []byte
	b = Num(b, 1, uint64(id), w)
	b = Field(b, 2, Packed(keys, 1))
	b = Field(b, 3, Packed(vals, 1))
	b = Field(b, 8, PackedDelta(refs, w))
	return b
}

// Relation is a relation message.
func Relation(id int64, keys, vals, roles []uint64, mem []int64, typ []uint64, w int) []byte {
	var b []byte
	b = Num(b, 1, uint64(id), w)
	b = Field(b, 2, Packed(keys, 1))
	b = Field(b, 3, Packed(vals, 1))
	b = Field(b, 8, Packed(roles, 1))
	b = Field(b, 9, PackedDelta(mem, w))
	b = Field(b, 10, Packed(typ, 1))
	return b
}

// Group holds messages of one kind; kind is 2 dense, 3 ways, 4 relations.
func Group(kind uint64, ms ...[]byte) []byte {
	b := []byte{}
	for _, m := range ms {
		b = Field(b, kind, m)
	}
	return b
}

// Block is a primitive block: a string table, groups, and fields already encoded.
func Block(st []byte, rest []byte, groups ...[]byte) []byte {
	b := []byte{}
	b = Field(b, 1, st)
	for _, g := range groups {
		b = Field(b, 2, g)
	}
	return append(b, rest...)
}

// Zlib wraps data in a zlib stream of stored blocks of at most chunk bytes.
func Zlib(data []byte, chunk int) []byte {
	b := []byte{0x78, 0x01}
	for at := 0; ; {
		n := len(data) - at
		last := byte(1)
		if n > chunk {
			n, last = chunk, 0
		}
		b = append(b, last, byte(n), byte(n>>8), ^byte(n), ^byte(n>>8))
		b = append(b, data[at:at+n]...)
		at += n
		if last == 1 {
			break
		}
	}
	s := adler32.Checksum(data)
	return append(b, byte(s>>24), byte(s>>16), byte(s>>8), byte(s))
}

// Raw is an uncompressed blob.
func Raw(data []byte) []byte { return Field(nil, 1, data) }

// Comp is a compressed blob.
func Comp(data []byte) []byte {
	return Field(Num(nil, 2, uint64(len(data)), 5), 3, Zlib(data, 65535))
}

// Frame is one block of a PBF file.
func Frame(typ string, blob []byte) []byte {
	h := Field(nil, 1, []byte(typ))
	h = Num(h, 3, uint64(len(blob)), 5)
	b := []byte{0, 0, 0, byte(len(h))}
	b = append(b, h...)
	return append(b, blob...)
}

// Cat joins the pieces of a file.
func Cat(ps ...[]byte) []byte {
	b := []byte{}
	for _, p := range ps {
		b = append(b, p...)
	}
	return b
}
