// Commands whose file operations fail.
package main

import (
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

func data(comp bool, gs ...[]byte) []byte {
	b := hw.Block(hw.Strings("", "a", "b"), nil, gs...)
	if comp {
		return hw.Frame("OSMData", hw.Comp(b))
	}
	return hw.Frame("OSMData", hw.Raw(b))
}

func dense(id, pos uint64) []byte {
	return hw.Group(2, hw.DenseZ([]uint64{id << 1, 2}, []uint64{pos, 2}, []uint64{5, 8}, []uint64{1, 2, 0, 0}, 5))
}

func way(id, ref int64) []byte {
	return hw.Group(3, hw.Way(id, []uint64{1}, []uint64{2}, []int64{ref, 2}, 5))
}

func rel(id, member int64) []byte {
	return hw.Group(4, hw.Relation(id, nil, nil, []uint64{0}, []int64{member}, []uint64{1}, 5))
}

func le(xs ...uint64) []byte {
	var b []byte
	for _, x := range xs {
		for i := uint(0); i < 64; i += 8 {
			b = append(b, byte(x>>i))
		}
	}
	return b
}

// once checks a command: with any one of its file operations failing, or transferring only some
// of the bytes, it fails or its output is what it is without the fault.
func once(cmd string, args ...string) {
	args = append(args, "-r", "0")
	v.Assert(v.Run(cmd, append(args, "-o", "want")...) == 0, "the command succeeds without faults")
	want := v.ReadFile("want")
	if v.Choose("an older output", 2) == 1 {
		v.WriteFile("out", make([]byte, len(want)+20))
	}
	v.Faults(1)
	status := v.Run(cmd, append(args, "-o", "out")...)
	v.ObserveU64("status", uint64(status))
	if status != 0 {
		v.Reach("failed")
		return
	}
	v.Assert(v.Exists("out"), "a command that reports success has written its output")
	got := v.ReadFile("out")
	v.Assert(len(got) == len(want), "a command that reports success has written the whole output")
	v.Assert(hw.EqBytes(got, want), "a command that reports success has written the intended output")
	v.Reach("succeeded")
}

func value() uint64 {
	x := v.U64("value")
	v.Assume(x >= 1<<7 && x < 1<<14)
	return x
}

func pbf(blocks ...[]byte) {
	header := hw.Frame("OSMHeader", hw.Raw([]byte{0x22, 1, 'x'}))
	v.WriteFile("in.pbf", append(append([]byte(nil), header...), hw.Cat(blocks...)...))
}

func H_fault_decompress() {
	pbf(data(true, dense(5, value())), data(false, way(9, 3)))
	once("decompress", "-i", "in.pbf", "-w", "1")
}

func H_fault_tagfilter() {
	pbf(data(true, dense(5, value())), data(false, way(9, 3)))
	once("tagfilter", "-i", "in.pbf", "-w", "1")
}

func H_fault_nodeindex() {
	pbf(data(true, dense(5, value())), data(false, dense(80, 3)))
	once("nodeindex", "-i", "in.pbf", "-w", "1")
}

func H_fault_wayindex() {
	pbf(data(true, way(5, 1<<40|int64(value()))), data(false, way(900, 3)))
	once("wayindex", "-i", "in.pbf", "-w", "1", "-a", "3")
}

// H_fault_rewritenodes: in one pass, and in two over an index of more than a MiB.
func H_fault_rewritenodes() {
	args := []string{"-i", "in.pbf", "-x", "n.idx", "-w", "1"}
	if v.Choose("passes", 2) == 0 {
		v.WriteFile("n.idx", le(1, 2, 2, 2, 1<<20, 2<<24|1, 1<<63|5, 1<<63|value(), 1<<63|6))
	} else {
		args = append(args, "-m", "1")
		locs := le(1<<63 | 77)
		for len(locs) < 1<<20 {
			locs = append(locs, locs...)
		}
		v.WriteFile("n.idx", hw.Cat(le(1, 2, 2, 2, 1<<30, 2<<24|1<<17, 1<<63|5, 1<<63|value()), locs))
	}
	pbf(data(true, way(5, 2)), data(false, way(900, 3)))
	once("rewritenodes", args...)
}

// H_fault_relindex: in one pass and in two.
func H_fault_relindex() {
	x := value()
	// ways 5 and 9, each with one location
	v.WriteFile("w.idx", hw.Cat(le(2, 3, 5<<33, 9<<33|2), hw.VarW(nil, hw.Zig(-1<<63+int64(x)), 10), make([]byte, 6), hw.VarW(nil, hw.Zig(-1<<63+77), 10), make([]byte, 6)))
	pbf(data(true, rel(100, 5)), data(false, rel(200, 9), rel(300, 8)))
	once("relindex", "-i", "in.pbf", "-x", "w.idx", "-w", "1", "-p", v.Itoa(uint64(1+v.Choose("passes", 2))))
}
