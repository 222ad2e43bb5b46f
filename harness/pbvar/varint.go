// Package main: harnesses over internal/pb's integer coding.
package main

import (
	"github.com/squizzling/osmindex/internal/pb"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// uvarintLen is the number of base-128 digits of x.
func uvarintLen(x uint64) int {
	n := 1
	for k := uint(7); k < 64; k += 7 {
		if x>>k != 0 {
			n++
		}
	}
	return n
}

func H_varint_roundtrip() {
	pre := v.Choose("prefix", 3)
	suf := v.Choose("suffix", 2)
	buf := v.Bytes("pre", pre)
	orig := append([]byte(nil), buf...)
	x := v.U64("x")
	out := pb.EncodeVarInt(buf, x)
	n := len(out) - pre
	v.ObserveU64("len", uint64(n))
	v.ObserveBytes("out", out)
	v.Assert(n == uvarintLen(x), "shortest form")
	for i := 0; i < pre; i++ {
		v.Assert(out[i] == orig[i], "earlier bytes kept")
	}
	for i := 0; i < n; i++ {
		digit := byte(x>>(7*uint(i))) & 0x7f
		if i+1 < n {
			digit |= 0x80
		}
		v.Assert(out[pre+i] == digit, "base-128 digit")
	}
	out = append(out, v.Bytes("suf", suf)...)
	at := pre
	got := pb.DecodeVarInt(out, &at)
	v.Assert(got == x, "decodes to the same value")
	v.Assert(at == pre+n, "advances past exactly its bytes")
	v.Reach("done")
}

func H_zigzag() {
	s := v.I64("s")
	u := pb.EncodeZigZag(s)
	if s >= 0 {
		v.Assert(u == 2*uint64(s), "non-negative n becomes 2n")
	} else {
		v.Assert(u == 2*uint64(-(s+1))+1, "negative n becomes -2n-1")
	}
	v.Assert(pb.DecodeZigZag(u) == s, "decode undoes encode")
	w := v.U64("w")
	v.Assert(uint64(pb.EncodeZigZag(pb.DecodeZigZag(w))) == w, "encode undoes decode")
	v.ObserveU64("u", uint64(u))
	v.Reach("done")
}

// refDecode is the base-128 definition. ok is false when the buffer ends first or the value
// does not fit in 64 bits.
func refDecode(b []byte, at int) (x uint64, n int, ok bool) {
	for i := 0; i < 10; i++ {
		if at+i >= len(b) {
			return 0, 0, false
		}
		c := b[at+i]
		d := uint64(c & 0x7f)
		if i == 9 && d > 1 {
			return 0, 0, false
		}
		x |= d << (7 * uint(i))
		if c < 0x80 {
			return x, i + 1, true
		}
	}
	return 0, 0, false
}

func H_varint_decode_any() {
	n := v.Choose("len", v.Param("maxlen", 12))
	b := v.Bytes("b", n)
	orig := append([]byte(nil), b...)
	at0 := v.Choose("at", 3)
	v.Assume(at0 <= n)
	want, wn, ok := refDecode(b, at0)
	at := at0
	var got uint64
	p := v.Panics(func() { got = pb.DecodeVarInt(b, &at) })
	v.ObserveU64("got", got)
	v.Assert(p == !ok, "panics exactly when the varint is truncated or does not fit in 64 bits")
	if !p && ok {
		v.Assert(got == want, "standard base-128 value")
		v.Assert(at == at0+wn, "advances to just after the last byte")
		v.Reach("value")
	} else {
		v.Reach("panic")
	}
	for i := range b {
		v.Assert(b[i] == orig[i], "buffer unchanged")
	}
}

// The bytes after the slice belong to someone else: a truncated varint must not run into them.
func H_varint_decode_cap() {
	n := v.Choose("len", 10)
	b := v.Bytes("b", 12)
	want, wn, ok := refDecode(b[:n], 0)
	at := 0
	var got uint64
	p := v.Panics(func() { got = pb.DecodeVarInt(b[:n], &at) })
	v.Assert(p == !ok, "does not read past the end of its slice")
	if !p && ok {
		v.Assert(got == want && at == wn, "same value")
	}
	v.Reach("done")
}

func sameI64(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// surround puts buf after junk bytes and before others, as it would sit in a message.
func surround(enc func(buf []byte) []byte) (b []byte, at, end int) {
	b = v.Bytes("pre", v.Choose("pre", 2))
	at = len(b)
	b = enc(b)
	end = len(b)
	return append(b, v.Bytes("post", 1)...), at, end
}

func list64() []int64 {
	n := v.Choose("n", v.Param("n", 3)+1)
	xs := make([]int64, n)
	for i := range xs {
		xs[i] = v.I64("x")
	}
	return xs
}

func list32() []int32 {
	n := v.Choose("n", v.Param("n", 3)+1)
	xs := make([]int32, n)
	for i := range xs {
		xs[i] = v.I32("x")
	}
	return xs
}

func H_list_s64_delta() {
	xs := list64()
	var b []byte
	var at, end int
	if v.Choose("form", 2) == 0 {
		b, at, end = surround(func(buf []byte) []byte { return pb.EncodeS64PackedDelta(buf, xs) })
	} else {
		b, at, end = surround(func(buf []byte) []byte {
			return pb.Embed128(1, pb.EncodeS64PackedDeltaFunc(xs), buf)
		})
		at++ // field tag
	}
	got := pb.DecodeS64PackedDelta(b, &at)
	pb.DecodeS64PackedDelta([]byte{2, 4, 6}, new(int)) // a list stays what it is
	v.ObserveI64s("got", got)
	v.Assert(sameI64(got, xs), "same list")
	v.Assert(at == end, "consumes exactly its bytes")
	v.Reach("done")
}

func H_list_s64_delta_zero() {
	xs := list64()
	last := int64(0)
	for _, x := range xs {
		v.Assume(x != last)
		last = x
	}
	b, at, _ := surround(func(buf []byte) []byte { return pb.EncodeS64PackedDeltaZero(buf, xs) })
	got := pb.DecodeS64PackedDeltaZero(b[at:])
	pb.DecodeS64PackedDeltaZero([]byte{4, 6, 0}) // a list stays what it is
	v.ObserveI64s("got", got)
	v.Assert(sameI64(got, xs), "same list")
	v.Reach("done")
}

func H_list_zero_unterminated() {
	// without its terminating zero the list is refused
	xs := list64()
	last := int64(0)
	for _, x := range xs {
		v.Assume(x != last)
		last = x
	}
	b := pb.EncodeS64PackedDeltaZero(nil, xs)
	v.Assert(v.Panics(func() { pb.DecodeS64PackedDeltaZero(b[:len(b)-1]) }), "a list without end is refused")
	v.Reach("done")
}

func H_list_u64() {
	us := list64()
	xs := make([]uint64, len(us))
	for i := range us {
		xs[i] = uint64(us[i])
	}
	b, at, end := surround(func(buf []byte) []byte { return pb.Embed128(1, pb.EncodeU64Packed(xs), buf) })
	at++
	got := pb.DecodeU64Packed(b, &at)
	pb.DecodeU64Packed([]byte{2, 4, 6}, new(int)) // a list stays what it is
	v.Assert(len(got) == len(xs), "same length")
	for i := range xs {
		if i < len(got) {
			v.Assert(got[i] == xs[i], "same value")
		}
	}
	v.Assert(at == end, "consumes exactly its bytes")
	v.Reach("done")
}

func H_list_s64() {
	// there is no encoder for this form: the reference encoding is packed zigzag varints
	xs := list64()
	b, at, end := surround(func(buf []byte) []byte {
		return pb.Embed128(1, func(buf []byte) []byte {
			for _, x := range xs {
				buf = pb.EncodeVarInt(buf, pb.EncodeZigZag(x))
			}
			return buf
		}, buf)
	})
	at++
	got := pb.DecodeS64Packed(b, &at)
	pb.DecodeS64Packed([]byte{2, 4, 6}, new(int)) // a list stays what it is
	v.Assert(sameI64(got, xs), "same list")
	v.Assert(at == end, "consumes exactly its bytes")
	v.Reach("done")
}

func same32(got, xs []int32) {
	v.Assert(len(got) == len(xs), "same length")
	for i := range xs {
		if i < len(got) {
			v.Assert(got[i] == xs[i], "same value")
		}
	}
}

func H_list_s32() {
	xs := list32()
	b, at, end := surround(func(buf []byte) []byte { return pb.EncodeS32Packed(buf, xs) })
	got := pb.DecodeS32Packed(b, &at)
	pb.DecodeS32Packed([]byte{2, 4, 6}, new(int)) // a list stays what it is
	same32(got, xs)
	v.Assert(at == end, "consumes exactly its bytes")
	v.Reach("done")
}

func H_list_s32_delta() {
	xs := list32()
	b, at, end := surround(func(buf []byte) []byte { return pb.EncodeS32PackedDelta(buf, xs) })
	ds := pb.DecodeS32Packed(b, &at)
	v.Assert(at == end, "consumes exactly its bytes")
	v.Assert(len(ds) == len(xs), "same length")
	last := int32(0)
	for i := range xs {
		if i < len(ds) {
			last += ds[i]
			v.Assert(last == xs[i], "differences add up to the value")
		}
	}
	v.Reach("done")
}

func H_list_i32() {
	xs := list32()
	var b []byte
	var at, end int
	if v.Choose("form", 2) == 0 {
		b, at, end = surround(func(buf []byte) []byte { return pb.EncodeI32Packed(buf, xs) })
	} else {
		b, at, end = surround(func(buf []byte) []byte { return pb.Embed128(1, pb.EncodeI32PackedFunc(xs), buf) })
		at++
	}
	got := pb.DecodeI32Packed(b, &at)
	pb.DecodeI32Packed([]byte{2, 4, 6}, new(int)) // a list stays what it is
	same32(got, xs)
	v.Assert(at == end, "consumes exactly its bytes")
	v.Reach("done")
}

func H_list_u32() {
	is := list32()
	xs := make([]uint32, len(is))
	for i := range is {
		xs[i] = uint32(is[i])
	}
	b, at, end := surround(func(buf []byte) []byte { return pb.Embed128(1, pb.EncodeU32PackedFunc(xs), buf) })
	at++
	got := pb.DecodeU32Packed(b, &at)
	pb.DecodeU32Packed([]byte{2, 4, 6}, new(int)) // a list stays what it is
	v.Assert(len(got) == len(xs), "same length")
	for i := range xs {
		if i < len(got) {
			v.Assert(got[i] == xs[i], "same value")
		}
	}
	v.Assert(at == end, "consumes exactly its bytes")
	v.Reach("done")
}

// Long lists: many elements with few distinct shapes, so that growth and indexing are exercised.
func H_list_long() {
	n := v.Param("long", 40)
	xs := make([]int64, n)
	is := make([]int32, n)
	for i := range xs {
		xs[i] = int64(i) * 100
		is[i] = int32(i) * 100
		if i%13 == 5 {
			d := v.Int("d", 1, 60)
			xs[i] += int64(d)
			is[i] += int32(d)
		}
	}
	b, at, end := surround(func(buf []byte) []byte { return pb.EncodeS64PackedDelta(buf, xs) })
	v.Assert(sameI64(pb.DecodeS64PackedDelta(b, &at), xs) && at == end, "long delta list")
	xs[0] = 1
	b, at, end = surround(func(buf []byte) []byte { return pb.EncodeS64PackedDeltaZero(buf, xs) })
	v.Assert(sameI64(pb.DecodeS64PackedDeltaZero(b[at:]), xs), "long zero-terminated list")
	b, at, end = surround(func(buf []byte) []byte { return pb.EncodeS32Packed(buf, is) })
	same32(pb.DecodeS32Packed(b, &at), is)
	b, at, end = surround(func(buf []byte) []byte { return pb.EncodeI32Packed(buf, is) })
	same32(pb.DecodeI32Packed(b, &at), is)
	v.Reach("done")
}

// Single values, as used for scalar fields.
func H_scalars() {
	x := v.I64("x")
	i := v.I32("i")
	at := 0
	switch v.Choose("kind", 6) {
	case 0:
		b := pb.EncodeVarInt(nil, pb.EncodeZigZag(x))
		v.Assert(pb.DecodeS64(b, &at) == x && at == len(b), "S64")
		at = 0
		v.Assert(*pb.DecodeS64Opt(b, &at) == x && at == len(b), "S64Opt")
	case 1:
		b := pb.EncodeVarInt(nil, uint64(x))
		v.Assert(pb.DecodeI64(b, &at) == x && at == len(b), "I64")
		at = 0
		v.Assert(*pb.DecodeI64Opt(b, &at) == x && at == len(b), "I64Opt")
	case 2:
		b := pb.EncodeVarInt(nil, uint64(x))
		v.Assert(pb.DecodeU64(b, &at) == uint64(x) && at == len(b), "U64")
		at = 0
		v.Assert(*pb.DecodeU64Opt(b, &at) == uint64(x) && at == len(b), "U64Opt")
	case 3:
		b := pb.EncodeVarInt(nil, pb.EncodeZigZag(int64(i)))
		v.Assert(pb.DecodeS32(b, &at) == i && at == len(b), "S32")
		at = 0
		v.Assert(*pb.DecodeS32Opt(b, &at) == i && at == len(b), "S32Opt")
	case 4:
		b := pb.EncodeVarInt(nil, uint64(i))
		v.Assert(pb.DecodeI32(b, &at) == i && at == len(b), "I32")
		at = 0
		v.Assert(*pb.DecodeI32Opt(b, &at) == i && at == len(b), "I32Opt")
	case 5:
		b := pb.EncodeVarInt(nil, uint64(uint32(i)))
		v.Assert(pb.DecodeU32(b, &at) == uint32(i) && at == len(b), "U32")
		at = 0
		v.Assert(*pb.DecodeU32Opt(b, &at) == uint32(i) && at == len(b), "U32Opt")
	}
	v.Reach("done")
}
