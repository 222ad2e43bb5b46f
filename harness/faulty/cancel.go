// Commands that are cancelled.
package main

import (
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// stop runs a command that may be cancelled at any of its file operations.
func stop(files string, cmd string, args ...string) {
	v.Cancel(1)
	status := v.Run(cmd, append(args, "-o", "out", "-r", "0")...)
	v.Cancel(0)
	v.Assert(status == 0, "the command ends well, cancelled or not")
	without := ""
	for i := 0; i+3 <= len(files); i++ {
		if files[i:i+3] == "out" {
			without = files[:i] + files[i+4:]
		}
	}
	l := v.FileList()
	v.Assert(l == files || l == without, "the command leaves no temporary file, cancelled or not")
}

// firstBlocks says that the output, if there is one, holds the first blocks of the complete one.
func firstBlocks(want []byte) {
	if !v.Exists("out") {
		v.Reach("none")
		return
	}
	got := v.ReadFile("out")
	frames, ok := hw.Frames(want)
	v.Assert(ok, "the complete output is well-formed")
	n := 0
	for i := 0; i < len(frames) && n < len(got); i++ {
		n += 4 + int(want[n])<<24 + int(want[n+1])<<16 + int(want[n+2])<<8 + int(want[n+3]) + len(frames[i].Blob)
	}
	v.Assert(n == len(got), "a cancelled command has written whole blocks")
	v.Assert(hw.EqBytes(got, want[:n]), "a cancelled command has written the first blocks of the complete output")
	if n < len(want) {
		v.Reach("some")
	} else {
		v.Reach("all")
	}
}

func H_cancel_decompress() {
	pbf(data(true, dense(5, value())), data(false, way(9, 3)))
	args := []string{"-i", "in.pbf", "-w", "1"}
	want := complete("decompress", args...)
	stop("in.pbf out want", "decompress", args...)
	firstBlocks(want)
}

func H_cancel_tagfilter() {
	pbf(data(true, dense(5, value())), data(false, way(9, 3)))
	args := []string{"-i", "in.pbf", "-w", "1"}
	want := complete("tagfilter", args...)
	stop("in.pbf out want", "tagfilter", args...)
	firstBlocks(want)
}

// H_cancel_rewritenodes: in one pass, and in two or three.
func H_cancel_rewritenodes() {
	args := []string{"-i", "in.pbf", "-x", "n.idx", "-w", "1"}
	if passes := v.Choose("passes", 3); passes == 0 {
		v.WriteFile("n.idx", le(1, 2, 2, 2, 1<<20, 2<<24|1, 1<<63|5, 1<<63|value(), 1<<63|6))
	} else {
		args = append(args, "-m", "1")
		locs := le(1<<63 | 77)
		for len(locs) < passes<<20 {
			locs = append(locs, locs...)
		}
		v.WriteFile("n.idx", hw.Cat(le(1, 2, 2, 2, 1<<30, 2<<24|uint64(passes)<<17, 1<<63|5, 1<<63|value()), locs))
	}
	pbf(data(true, way(5, 2)), data(false, way(900, 3)))
	want := complete("rewritenodes", args...)
	stop("in.pbf n.idx out want", "rewritenodes", args...)
	firstBlocks(want)
}

// H_cancel_relindex: the relations of whole blocks.
func H_cancel_relindex() {
	x := value()
	v.WriteFile("w.idx", hw.Cat(le(2, 3, 5<<33, 9<<33|2), hw.VarW(nil, hw.Zig(-1<<63+int64(x)), 10), make([]byte, 6), hw.VarW(nil, hw.Zig(-1<<63+77), 10), make([]byte, 6)))
	pbf(data(true, rel(100, 5)), data(false, rel(200, 9), rel(300, 8)))
	args := []string{"-i", "in.pbf", "-x", "w.idx", "-w", "1", "-p", v.Itoa(uint64(1 + v.Choose("passes", 3)))}
	want := complete("relindex", args...)
	stop("in.pbf out w.idx want", "relindex", args...)
	if !v.Exists("out") {
		v.Reach("none")
		return
	}
	got := v.ReadFile("out")
	v.Assert(len(got) == 0 || len(got) == 8*5 || len(got) == len(want), "a cancelled command has written the relations of whole blocks")
	v.Assert(hw.EqBytes(got, want[:len(got)]), "a cancelled command has written the first relations of the complete output")
	if len(got) < len(want) {
		v.Reach("some")
	} else {
		v.Reach("all")
	}
}

// H_cancel_nodeindex: whatever is left of it is used.
func H_cancel_nodeindex() {
	nodes()
	args := []string{"-i", "in.pbf", "-w", "1"}
	want := complete("nodeindex", args...)
	v.WriteFile("out", want)
	v.Assert(v.Run("rewritenodes", append(nodeUser, "-o", "used", "-r", "0")...) == 0, "the complete index can be used")
	answers := v.ReadFile("used")
	stop("in.pbf out used want", "nodeindex", args...)
	if v.Exists("out") {
		use(answers, "rewritenodes", nodeUser...)
	}
}

// H_cancel_wayindex: whatever is left of it is used.
func H_cancel_wayindex() {
	ways()
	args := []string{"-i", "in.pbf", "-w", "1", "-a", v.Itoa(uint64(3 * v.Choose("alignment", 2)))}
	want := complete("wayindex", args...)
	v.WriteFile("out", want)
	v.Assert(v.Run("relindex", append(wayUser, "-o", "used", "-r", "0")...) == 0, "the complete index can be used")
	answers := v.ReadFile("used")
	stop("in.pbf out used want", "wayindex", args...)
	if v.Exists("out") {
		use(answers, "relindex", append(wayUser, "-p", v.Itoa(uint64(1+v.Choose("passes", 2))))...)
	}
}
