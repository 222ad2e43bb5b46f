package main

import (
	"github.com/squizzling/osmindex/internal/iunsafe"
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

func le(b []byte, at, n int) uint64 {
	x := uint64(0)
	for i := 0; i < n; i++ {
		x |= uint64(b[at+i]) << (8 * uint(i))
	}
	return x
}

// memory is an array of arbitrary bytes, of which the middle part is the input.
func memory(max int) (arr, in, tail []byte) {
	n := v.Choose("n", max+1)
	off := 8 * v.Choose("off", 2) // as mapped files are sliced
	room := v.Choose("room", 2) * 8
	arr = v.Bytes("b", off+n+room)
	return arr, arr[off : off+n], append([]byte(nil), arr[off+n:]...)
}

// H_bytes_as_int64: reading and writing through the view of bytes as 64-bit integers.
func H_bytes_as_int64() {
	_, in, tail := memory(v.Param("n", 26))
	was := append([]byte(nil), in...)
	s := iunsafe.ByteSliceAsInt64Slice(in)
	v.Assert(len(s) == len(in)/8, "number of whole elements")
	v.Assert(8*cap(s) <= cap(in), "the view does not reach beyond the input's memory")
	for i := range s {
		v.Assert(uint64(s[i]) == le(was, 8*i, 8), "element is the little-endian content")
	}
	if len(s) > 0 {
		i := v.Choose("i", len(s))
		x := v.I64("x")
		s[i] = x
		for k := range was {
			if k/8 == i {
				v.Assert(in[k] == byte(x>>(8*uint(k%8))), "written through the view")
			} else {
				v.Assert(in[k] == was[k], "nothing else is written")
			}
		}
		// and back: a byte written shows in the element
		y := v.Byte("y")
		j := v.Choose("j", 8)
		in[8*i+j] = y
		v.Assert(uint64(s[i]) == le(in, 8*i, 8), "a byte written shows in the view")
		v.Assert(byte(s[i]>>(8*uint(j))) == y, "at its place")
		v.Reach("written")
	}
	v.Assert(hw.EqBytes(in[len(in):len(in)+len(tail)], tail), "memory behind stays")
	v.Reach("done")
}

// H_int64_as_bytes and H_uint64_as_bytes: the reverse views.
func H_int64_as_bytes() {
	n := v.Choose("n", v.Param("k", 3)+1)
	room := v.Choose("room", 2)
	s := make([]int64, n, n+room)
	for i := range s {
		s[i] = v.I64("x")
	}
	b := iunsafe.Int64SliceAsByteSlice(s)
	v.Assert(len(b) == 8*n && cap(b) >= len(b), "eight bytes per element")
	v.Assert(cap(b) <= 8*cap(s), "the view does not reach beyond the input's memory")
	for i := range s {
		v.Assert(le(b, 8*i, 8) == uint64(s[i]), "bytes are the little-endian content")
	}
	if n > 0 {
		i, j := v.Choose("i", n), v.Choose("j", 8)
		was := append([]int64(nil), s...)
		y := v.Byte("y")
		b[8*i+j] = y
		for k := range s {
			if k != i {
				v.Assert(s[k] == was[k], "nothing else is written")
			}
		}
		m := uint64(0xff) << (8 * uint(j))
		v.Assert(uint64(s[i]) == uint64(was[i])&^m|uint64(y)<<(8*uint(j)), "written through the view")
		back := iunsafe.ByteSliceAsInt64Slice(b)
		v.Assert(hw.EqI64s(back, s), "there and back")
	}
	v.Reach("done")
}

func H_uint64_as_bytes() {
	n := v.Choose("n", v.Param("k", 3)+1)
	room := v.Choose("room", 2)
	s := make([]uint64, n, n+room)
	for i := range s {
		s[i] = v.U64("x")
	}
	b := iunsafe.Uint64SliceAsByteSlice(s)
	v.Assert(len(b) == 8*n && cap(b) >= len(b), "eight bytes per element")
	v.Assert(cap(b) <= 8*cap(s), "the view does not reach beyond the input's memory")
	for i := range s {
		v.Assert(le(b, 8*i, 8) == s[i], "bytes are the little-endian content")
	}
	if n > 0 {
		i := v.Choose("i", n)
		s[i] = v.U64("y")
		v.Assert(le(b, 8*i, 8) == s[i], "an element written shows in the view")
	}
	v.Reach("done")
}

type rec16 struct{ A, B uint64 }
type rec8 struct {
	A uint32
	B uint16
	C uint8
	D int8
}

// H_arb: views as slices of elements of several sizes.
func H_arb() {
	_, in, tail := memory(v.Param("n", 26))
	was := append([]byte(nil), in...)
	switch v.Choose("type", 5) {
	case 0:
		var s []rec16
		iunsafe.ByteSliceAsArbSlice(in, &s)
		v.Assert(len(s) == len(in)/16, "number of whole elements")
		for i := range s {
			v.Assert(s[i].A == le(was, 16*i, 8) && s[i].B == le(was, 16*i+8, 8), "element content")
		}
		if len(s) > 0 {
			i := v.Choose("i", len(s))
			s[i].B = v.U64("x")
			v.Assert(le(in, 16*i+8, 8) == s[i].B && le(in, 16*i, 8) == le(was, 16*i, 8), "written through the view")
		}
		was = append(was[:0], in...)
		s = append(s, rec16{v.U64("y"), v.U64("z")})
		v.Assert(len(s) == len(in)/16+1, "appended")
	case 1:
		var s []rec8
		iunsafe.ByteSliceAsArbSlice(in, &s)
		v.Assert(len(s) == len(in)/8, "number of whole elements")
		v.Assert(8*cap(s) <= cap(in), "the view does not reach beyond the input's memory")
		for i := range s {
			v.Assert(uint64(s[i].A) == le(was, 8*i, 4) && uint64(s[i].B) == le(was, 8*i+4, 2) && s[i].C == was[8*i+6] && byte(s[i].D) == was[8*i+7], "element content")
		}
		s = append(s, rec8{A: v.U32("y")})
	case 2:
		var s []uint64
		iunsafe.ByteSliceAsArbSlice(in, &s)
		v.Assert(len(s) == len(in)/8, "number of whole elements")
		v.Assert(8*cap(s) <= cap(in), "the view does not reach beyond the input's memory")
		for i := range s {
			v.Assert(s[i] == le(was, 8*i, 8), "element content")
		}
		s = append(s, v.U64("y"))
	case 3:
		var s []uint16
		iunsafe.ByteSliceAsArbSlice(in, &s)
		v.Assert(len(s) == len(in)/2, "number of whole elements")
		for i := range s {
			v.Assert(uint64(s[i]) == le(was, 2*i, 2), "element content")
		}
		s = append(s, v.U16("y"))
	case 4:
		var s []int64
		iunsafe.ByteSliceAsArbSlice(in, &s)
		v.Assert(len(s) == len(in)/8, "number of whole elements")
		v.Assert(8*cap(s) <= cap(in), "the view does not reach beyond the input's memory")
		if len(s) > 1 {
			x := v.I64("x")
			s[1] = x
			v.Assert(le(in, 8, 8) == uint64(x), "written through the view")
			was = append(was[:0], in...)
		}
		s = append(s, v.I64("y"))
	}
	v.Assert(hw.EqBytes(in, was), "appending leaves the input alone")
	v.Assert(hw.EqBytes(in[len(in):len(in)+len(tail)], tail), "appending leaves what lies behind alone")
	v.Reach("done")
}
