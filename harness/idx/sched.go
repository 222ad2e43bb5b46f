package main

import (
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// The same command on the same file, once with one worker and then with several under every
// schedule: the output must be the same bytes.
func everySchedule(out2 string, out1 string, name string, args ...string) {
	one := append([]string{"-o", out1, "-w", "1", "-r", "0"}, args...)
	v.Assert(v.Run(name, one...) == 0, name+" with one worker ends well")
	want := v.ReadFile(out1)
	v.SchedAll()
	many := append([]string{"-o", out2, "-w", v.Itoa(uint64(v.Param("workers", 2))), "-r", "0"}, args...)
	v.Assert(v.Run(name, many...) == 0, name+" with several workers ends well")
	got := v.ReadFile(out2)
	v.Assert(hw.EqBytes(got, want), "the output does not depend on the schedule")
	v.Reach("done")
}

// pbf is a file of one header and n data blocks, each of what f makes; most of them compressed.
func pbf(n int, f func(i int) [][]byte) []byte {
	file := header()
	for i := 0; i < n; i++ {
		b := hw.Block(hw.Strings("", "a", "b"), nil, f(i)...)
		blob := hw.Raw(b)
		if i%4 != 3 {
			blob = hw.Comp(b)
		}
		file = append(file, hw.Frame("OSMData", blob)...)
	}
	return file
}

func wayOf(id uint64, refs ...int64) []byte {
	var codes []uint64
	last := int64(0)
	for _, r := range refs {
		codes = append(codes, hw.Zig(r-last))
		last = r
	}
	return wayMsg(id, codes, 10)
}

// H_nodeindex_schedules: blocks of nodes whose ids follow each other or leave gaps.
func H_nodeindex_schedules() {
	x := uint64(v.U16("lat"))
	v.WriteFile("in.pbf", pbf(v.Param("blocks", 3), func(i int) [][]byte {
		first := []uint64{10, 12, 40, 1000}[i]
		return [][]byte{hw.Group(2, hw.DenseZ([]uint64{first << 1, 2}, []uint64{x, 2}, []uint64{uint64(i), 8}, nil, 5))}
	}))
	everySchedule("b.idx", "a.idx", "nodeindex", "-i", "in.pbf")
}

// H_wayindex_schedules: blocks of ways of one and several references.
func H_wayindex_schedules() {
	x := int64(v.U16("ref"))
	v.WriteFile("in.pbf", pbf(v.Param("blocks", 3), func(i int) [][]byte {
		id := uint64(10 * (i + 1))
		return [][]byte{hw.Group(3, wayOf(id, 1<<40|x, 7), wayOf(id+1), wayOf(id+2, 5, 5, 5+int64(i)))}
	}))
	everySchedule("b.idx", "a.idx", "wayindex", "-i", "in.pbf")
}

// H_rewrite_schedules: blocks of ways whose references are indexed or not.
func H_rewrite_schedules() {
	var ix index
	ix.add(100, 1<<63|5, 0, 1<<63|1<<40)
	v.WriteFile("n.idx", ix.file())
	x := int64(v.Byte("ref"))
	v.WriteFile("in.pbf", pbf(v.Param("blocks", 3), func(i int) [][]byte {
		if i == 2 {
			return [][]byte{hw.Group(2, hw.DenseZ([]uint64{7}, []uint64{1}, []uint64{1}, nil, 1)), hw.Group(3, wayOf(99, 102, 1<<41))}
		}
		return [][]byte{hw.Group(3, wayOf(10+uint64(i), 1<<40|x, 100, 101), wayOf(20+uint64(i), 102))}
	}))
	everySchedule("b.pbf", "a.pbf", "rewritenodes", "-i", "in.pbf", "-x", "n.idx", "-m", "1")
}

// H_relindex_schedules: blocks of relations of indexed and other members, in two passes.
func H_relindex_schedules() {
	v.WriteFile("w.idx", wayIndexFile([]uint64{5, 9}, [][]int64{{7, 8}, {-1<<63 + 1}}))
	x := uint64(v.U16("rid"))
	v.WriteFile("in.pbf", pbf(v.Param("blocks", 3), func(i int) [][]byte {
		if i == 1 {
			return [][]byte{hw.Group(4, hw.Relation(int64(100+x), nil, nil, []uint64{0}, []int64{9}, []uint64{1}, 5))}
		}
		return [][]byte{hw.Group(4, hw.Relation(int64(i)+7, nil, nil, []uint64{0, 0, 0}, []int64{5, 9, 77}, []uint64{1, 1, 1}, 5))}
	}))
	everySchedule("b.idx", "a.idx", "relindex", "-i", "in.pbf", "-x", "w.idx", "-p", "2")
}
