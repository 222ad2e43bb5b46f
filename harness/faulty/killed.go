// Commands that are killed, and index files that are cut short.
package main

import (
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// killed runs a command that may be killed at any of its file operations, again if it was, and
// says whether it was killed each time. An earlier run may have left an output, and temporary
// files, that are shorter or longer than those of this run.
func killed(temp []string, cmd string, args ...string) bool {
	switch v.Choose("an older output", 4) {
	case 1:
		v.WriteFile("out", make([]byte, 3))
	case 2:
		v.WriteFile("out", junk())
	case 3:
		for _, fn := range temp {
			v.WriteFile(fn, junk())
		}
	}
	for n := v.Param("kills", 1); n > 0; n-- {
		v.Kill(1)
		status := v.Run(cmd, append(args, "-o", "out", "-r", "0")...)
		v.Kill(0)
		v.ObserveU64("status", uint64(status))
		v.Assert(status == 0 || status == v.Killed, "the command ends well unless it is killed")
		if status == 0 {
			v.Reach("finished")
			return false
		}
	}
	v.Reach("killed")
	return true
}

func junk() []byte {
	b := make([]byte, 1000)
	for i := range b {
		b[i] = 'x'
	}
	return b
}

// again runs the command once more, over whatever is left of the first run.
func again(want []byte, files string, cmd string, args ...string) {
	v.Assert(v.Run(cmd, append(args, "-o", "out", "-r", "0")...) == 0, "the command ends well after an interrupted run")
	v.Assert(hw.EqBytes(v.ReadFile("out"), want), "a run after an interrupted one writes the complete output")
	v.Assert(v.FileList() == files, "a run after an interrupted one leaves no temporary file")
	v.Reach("repeated")
}

// complete gives the output of a run that is not interrupted.
func complete(cmd string, args ...string) []byte {
	v.Assert(v.Run(cmd, append(args, "-o", "want", "-r", "0")...) == 0, "the command succeeds")
	return v.ReadFile("want")
}

func H_kill_decompress() {
	pbf(data(true, dense(5, value())), data(false, way(9, 3)))
	args := []string{"-i", "in.pbf", "-w", "1"}
	want := complete("decompress", args...)
	killed(nil, "decompress", args...)
	again(want, "in.pbf out want", "decompress", args...)
}

func H_kill_tagfilter() {
	pbf(data(true, dense(5, value())), data(false, way(9, 3)))
	args := []string{"-i", "in.pbf", "-w", "1"}
	want := complete("tagfilter", args...)
	killed(nil, "tagfilter", args...)
	again(want, "in.pbf out want", "tagfilter", args...)
}

func H_kill_rewritenodes() {
	args := []string{"-i", "in.pbf", "-x", "n.idx", "-w", "1"}
	var temp []string
	if v.Choose("passes", 2) == 0 {
		v.WriteFile("n.idx", le(1, 2, 2, 2, 1<<20, 2<<24|1, 1<<63|5, 1<<63|value(), 1<<63|6))
	} else {
		args = append(args, "-m", "1")
		temp = []string{"out.pass_001_002"}
		locs := le(1<<63 | 77)
		for len(locs) < 1<<20 {
			locs = append(locs, locs...)
		}
		v.WriteFile("n.idx", hw.Cat(le(1, 2, 2, 2, 1<<30, 2<<24|1<<17, 1<<63|5, 1<<63|value()), locs))
	}
	pbf(data(true, way(5, 2)), data(false, way(900, 3)))
	want := complete("rewritenodes", args...)
	killed(temp, "rewritenodes", args...)
	again(want, "in.pbf n.idx out want", "rewritenodes", args...)
}

func H_kill_relindex() {
	x := value()
	v.WriteFile("w.idx", hw.Cat(le(2, 3, 5<<33, 9<<33|2), hw.VarW(nil, hw.Zig(-1<<63+int64(x)), 10), make([]byte, 6), hw.VarW(nil, hw.Zig(-1<<63+77), 10), make([]byte, 6)))
	pbf(data(true, rel(100, 5)), data(false, rel(200, 9), rel(300, 8)))
	passes := 1 + v.Choose("passes", 3)
	args := []string{"-i", "in.pbf", "-x", "w.idx", "-w", "1", "-p", v.Itoa(uint64(passes))}
	var temp []string
	for i := 0; i < passes; i++ {
		temp = append(temp, "out.pass_00"+v.Itoa(uint64(i))+"_00"+v.Itoa(uint64(passes)))
	}
	want := complete("relindex", args...)
	killed(temp, "relindex", args...)
	again(want, "in.pbf out w.idx want", "relindex", args...)
}

// use runs a command on an index that may be unfinished: it fails, or gives what it gives with
// the complete index.
func use(want []byte, cmd string, args ...string) {
	status := v.Run(cmd, append(args, "-o", "used", "-r", "0")...)
	v.ObserveU64("status of the user", uint64(status))
	if status != 0 {
		v.Reach("refused")
		return
	}
	v.Assert(hw.EqBytes(v.ReadFile("used"), want), "an unfinished index is refused or gives the answers of the complete one")
	v.Reach("used")
}

// nodes are two blocks of nodes and two of ways which refer to these.
func nodes() {
	pbf(data(true, dense(5, value())), data(false, dense(80, 3)), data(true, way(5, 6)), data(false, way(900, 80)), data(false, way(901, 5)))
}

var nodeUser = []string{"-i", "in.pbf", "-x", "out", "-w", "1"}

// H_kill_nodeindex: whatever is left of it is used, and then it is run again.
func H_kill_nodeindex() {
	nodes()
	args := []string{"-i", "in.pbf", "-w", "1"}
	want := complete("nodeindex", args...)
	v.WriteFile("out", want)
	v.Assert(v.Run("rewritenodes", append(nodeUser, "-o", "used", "-r", "0")...) == 0, "the complete index can be used")
	answers := v.ReadFile("used")
	if killed([]string{"out.loc.tmp"}, "nodeindex", args...) && v.Exists("out") && v.Choose("use it", 2) == 1 {
		use(answers, "rewritenodes", nodeUser...)
		return
	}
	again(want, "in.pbf out used want", "nodeindex", args...)
}

func ways() {
	pbf(data(true, way(5, 1<<40|int64(value()))), data(false, way(900, 3)), data(false, rel(1, 5)), data(true, rel(2, 900), rel(3, 7)))
}

var wayUser = []string{"-i", "in.pbf", "-x", "out", "-w", "1"}

// H_kill_wayindex: whatever is left of it is used, and then it is run again.
func H_kill_wayindex() {
	ways()
	args := []string{"-i", "in.pbf", "-w", "1", "-a", v.Itoa(uint64(3 * v.Choose("alignment", 2)))}
	want := complete("wayindex", args...)
	v.WriteFile("out", want)
	v.Assert(v.Run("relindex", append(wayUser, "-o", "used", "-r", "0")...) == 0, "the complete index can be used")
	answers := v.ReadFile("used")
	if killed([]string{"out.loc.tmp"}, "wayindex", args...) && v.Exists("out") && v.Choose("use it", 2) == 1 {
		use(answers, "relindex", append(wayUser, "-p", v.Itoa(uint64(1+v.Choose("passes", 2))))...)
		return
	}
	again(want, "in.pbf out used want", "wayindex", args...)
}

// H_cut_nodeindex: a node index of which any part is missing at the end.
func H_cut_nodeindex() {
	nodes()
	v.Assert(v.Run("nodeindex", "-i", "in.pbf", "-w", "1", "-o", "out", "-r", "0") == 0, "the command succeeds")
	v.Assert(v.Run("rewritenodes", append(nodeUser, "-o", "want", "-r", "0")...) == 0, "the complete index can be used")
	answers := v.ReadFile("want")
	b := v.ReadFile("out")
	v.WriteFile("out", b[:v.Choose("length", len(b))])
	use(answers, "rewritenodes", nodeUser...)
}

// H_cut_wayindex: a way index of which any part is missing at the end.
func H_cut_wayindex() {
	ways()
	v.Assert(v.Run("wayindex", "-i", "in.pbf", "-w", "1", "-a", v.Itoa(uint64(3*v.Choose("alignment", 2))), "-o", "out", "-r", "0") == 0, "the command succeeds")
	v.Assert(v.Run("relindex", append(wayUser, "-o", "want", "-r", "0")...) == 0, "the complete index can be used")
	answers := v.ReadFile("want")
	b := v.ReadFile("out")
	v.WriteFile("out", b[:v.Choose("length", len(b))])
	use(answers, "relindex", append(wayUser, "-p", v.Itoa(uint64(1+v.Choose("passes", 2))))...)
}
