package main

import (
	"github.com/squizzling/osmindex/internal/morton"
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/wayindex"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

func H_morton_bits() {
	a, b := v.I32("even"), v.I32("odd")
	c := morton.Encode(a, b)
	v.ObserveU64("code", c)
	for i := uint(0); i < 32; i++ {
		v.Assert(c>>(2*i)&1 == uint64(uint32(a)>>i&1), "bit of the first value at its even position")
		v.Assert(c>>(2*i+1)&1 == uint64(uint32(b)>>i&1), "bit of the second value at its odd position")
	}
	e, o := morton.Decode(c)
	v.Assert(e == uint32(a) && o == uint32(b), "decoding inverts coding")
	v.Reach("done")
}

func H_morton_decode() {
	c := v.U64("code")
	e, o := morton.Decode(c)
	v.ObserveU64("e", uint64(e))
	v.Assert(morton.Encode(int32(e), int32(o)) == c, "coding inverts decoding")
	v.Reach("done")
}

func H_morton_location() {
	lat := int32(v.Int("lat", -900000000, 900000000))
	lon := int32(v.Int("lon", -1800000000, 1800000000))
	// what the node index stores
	c := int64(morton.Encode(lon, lat) | 1<<63)
	v.Assert(c < 0, "negative as a signed number")
	v.Assert(c != 0, "never zero")
	gl, gt := morton.DecodeLocation(uint64(c))
	v.ObserveU64("gl", uint64(gl))
	v.Assert(gt == lat, "latitude")
	v.Assert(gl == lon, "longitude")
	v.Reach("done")
}

func H_count_offset() {
	c, o := v.U64("count"), v.U64("offset")
	var w nodeindex.CountOffset
	if v.Panics(func() { w = nodeindex.NewCountOffset(c, o) }) {
		v.Assert(c >= 1<<24 || o >= 1<<40, "what fits is accepted")
		v.Reach("refused")
		return
	}
	v.Assert(w.Count() == c, "count is read back")
	v.Assert(w.Offset() == o, "offset is read back")
	v.Reach("accepted")
}

func H_way_index_data() {
	id, o := v.I64("way"), v.I64("offset")
	var w wayindex.WayIndexData
	if v.Panics(func() { w = wayindex.MakeIndexData(id, o) }) {
		v.Assert(id < 0 || id >= 1<<31 || o < 0 || o >= 1<<33, "what fits is accepted")
		v.Reach("refused")
		return
	}
	v.Assert(w.WayID() == id, "way id is read back")
	v.Assert(w.Offset() == o, "offset is read back")
	v.Reach("accepted")
}
