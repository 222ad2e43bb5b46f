package main

import (
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

func le(x uint64) []byte {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(x >> uint(8*i))
	}
	return b
}

// place is a location: its code and its coordinates.
type place struct {
	code     uint64
	lng, lat int32
}

// somePlace is no location at all, or any.
func somePlace() place {
	if v.Choose("gap", 2) == 1 {
		return place{}
	}
	p := place{lng: int32(v.U32("lng")), lat: int32(v.U32("lat")) << 1 >> 1}
	for k := uint(0); k < 32; k++ {
		p.code |= uint64(uint32(p.lng)>>k&1) << (2 * k)
		p.code |= uint64(uint32(p.lat)>>k&1) << (2*k + 1)
	}
	p.code |= 1 << 63
	return p
}

type element struct {
	first  uint64
	places []place
}

func (p place) coords() {
	lit(" (")
	v.Assert(v.OutF(float64(p.lng)/10000000), "the longitude is printed")
	lit(", ")
	v.Assert(v.OutF(float64(p.lat)/10000000), "the latitude is printed")
	lit(")")
}

func code(want uint64) {
	n, ok := v.OutHex()
	v.Assert(ok && n == want, "the location is printed")
}

// dumped reads the dump of one element.
func (e element) dumped(extract, search bool) {
	for i, p := range e.places {
		if extract && p.code == 0 {
			lit("Extract: skip\n")
		} else if extract {
			lit("Extract: ")
			code(p.code)
			p.coords()
			lit(" [")
			num(int64(e.first))
			lit("+")
			num(int64(i))
			lit("=")
			num(int64(e.first) + int64(i))
			lit("]\n")
		}
		if search && p.code == 0 {
			lit(" Search: skip\n")
		} else if search {
			lit(" Search: ")
			code(p.code)
			p.coords()
			lit("\n")
		}
	}
}

func options() (extract, search bool, args []string) {
	o := 1 + v.Choose("options", 3)
	if extract = o&1 != 0; extract {
		args = append(args, "-p")
	}
	if search = o&2 != 0; search {
		args = append(args, "-s")
	}
	return
}

// H_dump_nodes: the dump of an index of a few ranges, whole, by element range, or by sub-index.
func H_dump_nodes() {
	var es []element
	var elems, locs []byte
	n := v.Choose("elements", 1+v.Param("elements", 2))
	total := uint64(0)
	low := uint64(0)
	for i := 0; i < n; i++ {
		e := element{first: v.U64("first") >> 1}
		v.Assume(e.first >= low)
		for k := 1 + v.Choose("count", v.Param("counts", 2)); k > 0; k-- {
			p := somePlace()
			e.places = append(e.places, p)
			locs = append(locs, le(p.code)...)
		}
		c := uint64(len(e.places))
		low = e.first + c
		elems = append(elems, hw.Cat(le(e.first), le(total<<24|c))...)
		total += c
		es = append(es, e)
	}
	v.WriteFile("n.idx", hw.Cat(le(1), le(uint64(n)), elems, locs))
	extract, search, args := options()
	args = append([]string{"-i", "n.idx"}, args...)
	run := func(more ...string) {
		v.Assert(v.Run("dumpnodeindex", append(append([]string(nil), args...), more...)...) == 0, "dumpnodeindex ends well")
	}
	switch v.Choose("selection", 4) {
	case 0:
		run()
		for _, e := range es {
			e.dumped(extract, search)
		}
		v.Assert(v.OutEOF(), "nothing else is printed")
	case 1: // by elements
		from, to := v.Choose("from", 3), v.Choose("to", 4)
		var more []string
		if from > 0 {
			more = append(more, "--start-element", v.Itoa(uint64(from)))
		}
		if to < 3 {
			more = append(more, "--end-element", v.Itoa(uint64(to)))
		}
		run(more...)
		for i := from; i < to && i < n; i++ {
			es[i].dumped(extract, search)
		}
		v.Assert(v.OutEOF(), "nothing else is printed")
	case 3: // by elements of the only sub-index
		from, to := v.Choose("from", 2), v.Choose("to", 3)
		run("--start-element", v.Itoa(uint64(from)), "--sub-index-index", "0", "--end-element", v.Itoa(uint64(to)), "--sub-index-count", "1")
		for i := from; i < to && i < n; i++ {
			es[i].dumped(extract, search)
		}
		v.Assert(v.OutEOF(), "nothing else is printed")
	case 2: // the sub-indexes together are the whole
		count := 1 + v.Choose("sub-indexes", 3)
		at := 0
		for i := 0; i < count; i++ {
			run("--sub-index-index", v.Itoa(uint64(i)), "--sub-index-count", v.Itoa(uint64(count)))
			for !v.OutEOF() {
				v.Assert(at < n, "nothing else is printed")
				es[at].dumped(extract, search)
				at++
			}
		}
		v.Assert(at == n, "every element is in a sub-index")
	}
	v.Reach("done")
}

// H_dump_ways: the dump of an index of a few ways, whole or by sub-index.
func H_dump_ways() {
	n := v.Choose("ways", 1+v.Param("ways", 2))
	var ids []int64
	var lists [][]int64
	var index, locs []byte
	shift := []uint{3, 0, 17}[v.Choose("shift", 3)]
	for i := 0; i < n; i++ {
		id := int64(v.U32("id")) & 0x7fffffff
		if n > 1 { // of as many digits
			id = id&0xffff | 1<<30
		}
		v.Assume(i == 0 || id > ids[i-1])
		var l []int64
		last := int64(0)
		index = append(index, le(uint64(id)<<33|uint64(len(locs))>>shift)...)
		for k := v.Choose("refs", 3); k > 0; k-- {
			d, w := uint64(v.U16("ref"))|1<<50, 8
			if len(l) > 0 { // the sum has as many digits
				d, w = d&0xffff|1<<40, 6
			}
			last += hw.Unzig(d)
			l = append(l, last)
			locs = hw.VarW(locs, d, w)
		}
		locs = append(locs, 0)
		if pad := -len(locs) & (1<<shift - 1); i < n-1 || shift < 17 {
			locs = append(locs, make([]byte, pad)...)
		}
		ids, lists = append(ids, id), append(lists, l)
	}
	v.WriteFile("w.idx", hw.Cat(le(uint64(n)), le(uint64(shift)), index, locs))
	extract, search, args := options()
	args = append([]string{"-i", "w.idx"}, args...)
	run := func(more ...string) {
		v.Assert(v.Run("dumpwayindex", append(append([]string(nil), args...), more...)...) == 0, "dumpwayindex ends well")
	}
	line := func(i int) {
		num(ids[i])
		lit(" [")
		for k, r := range lists[i] {
			if k > 0 {
				lit(" ")
			}
			num(r)
		}
		lit("]\n")
	}
	at := 0
	one := func() {
		v.Assert(at < n, "nothing else is printed")
		if extract {
			line(at)
		}
		if search {
			line(at)
		}
		at++
	}
	if v.Choose("selection", 2) == 0 {
		run()
		for !v.OutEOF() {
			one()
		}
	} else {
		count := 1 + v.Choose("sub-indexes", 3)
		for i := 0; i < count; i++ {
			run("--sub-index-index", v.Itoa(uint64(i)), "--sub-index-count", v.Itoa(uint64(count)))
			for !v.OutEOF() {
				one()
			}
		}
	}
	v.Assert(at == n, "every way is printed")
	v.Reach("done")
}
