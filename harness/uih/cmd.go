// Commands with their user interface.
package main

import (
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

func le(x uint64) []byte {
	var b []byte
	for i := uint(0); i < 64; i += 8 {
		b = append(b, byte(x>>i))
	}
	return b
}

// input writes what the commands need: a file of two blocks with nodes, a way and a relation, a
// node index and a way index.
func input() {
	block := func(id uint64) []byte {
		dense := hw.DenseZ([]uint64{2 * id, 2}, []uint64{uint64(v.U16("lat")), 4}, []uint64{2, 4}, []uint64{1, 2, 0, 0}, 3)
		way := hw.Field([]byte{8, byte(id)}, 8, []byte{byte(2 * id), 2})
		rel := hw.Field(hw.Field(hw.Field([]byte{8, byte(id)}, 8, []byte{0}), 9, []byte{byte(2 * id)}), 10, []byte{1})
		return hw.Frame("OSMData", hw.Raw(hw.Block(hw.Strings("", "k", "v"), nil, hw.Group(2, dense), hw.Group(3, way), hw.Group(4, rel))))
	}
	v.WriteFile("in.pbf", hw.Cat(hw.Frame("OSMHeader", hw.Raw([]byte{0x22, 1, 'x'})), block(5), block(9)))
	loc := uint64(v.U32("location")) | 1<<63
	v.WriteFile("n.idx", hw.Cat(le(1), le(2), le(5), le(2), le(9), le(2<<24|2), le(loc), le(loc+1), le(loc+2), le(loc+3)))
	v.WriteFile("w.idx", hw.Cat(le(2), le(3), le(5<<33), le(9<<33|1), []byte{10, 2, 0, 0, 0, 0, 0, 0}, []byte{18, 2, 0, 0, 0, 0, 0, 0}))
}

var commands = [][]string{
	{"decompress"},
	{"tagfilter"},
	{"nodeindex"},
	{"wayindex"},
	{"rewritenodes", "-x", "n.idx"},
	{"relindex", "-x", "w.idx", "-p", "2"},
}

// H_cmd_cancel: Ctrl-C cancels what the command does.
func H_cmd_cancel() {
	if v.Choose("reverse", 2) == 1 {
		v.SchedReverse()
	}
	input()
	v.WriteFile("ctrl-c", nil)
	c := commands[v.Choose("command", len(commands))]
	st := v.Run(c[0], append([]string{"-i", "in.pbf", "-o", "out", "-w", v.Itoa(uint64(1 + v.Choose("workers", 2)))}, c[1:]...)...)
	v.Assert(v.Exists("cancelled"), "Ctrl-C cancels the command")
	v.Assert(st == 0, "and it ends well")
	v.Assert(v.Exists("given-back"), "the terminal is given back")
	v.Reach("ended")
}

// H_cmd_shown: with or without the display, a command does the same.
func H_cmd_shown() {
	if v.Choose("reverse", 2) == 1 {
		v.SchedReverse()
	}
	input()
	c := commands[v.Choose("command", len(commands))]
	args := append([]string{"-i", "in.pbf", "-w", v.Itoa(uint64(1 + v.Choose("workers", 2)))}, c[1:]...)
	v.Assert(v.Run(c[0], append(args, "-o", "want", "-r", "0")...) == 0, "the command succeeds")
	v.Assert(v.Run(c[0], append(args, "-o", "out", "-r", "1ms")...) == 0, "the command succeeds with its display")
	v.Assert(v.Exists("given-back"), "the terminal is given back")
	v.Assert(hw.EqBytes(v.ReadFile("out"), v.ReadFile("want")), "the display changes nothing")
	v.Reach("done")
}

// H_shown_schedules: so it does in whatever order things happen.
func H_shown_schedules() {
	input()
	c := commands[v.Choose("command", len(commands))]
	args := append([]string{"-i", "in.pbf", "-w", "1"}, c[1:]...)
	v.Assert(v.Run(c[0], append(args, "-o", "want", "-r", "0")...) == 0, "the command succeeds")
	v.SchedAll()
	v.Assert(v.Run(c[0], append(args, "-o", "out", "-r", "1ms")...) == 0, "the command succeeds with its display")
	v.Assert(v.Exists("given-back"), "the terminal is given back")
	v.Assert(hw.EqBytes(v.ReadFile("out"), v.ReadFile("want")), "the display changes nothing")
	v.Reach("done")
}

// H_cancel_schedules: neither does it matter when the key is handled.
func H_cancel_schedules() {
	input()
	v.WriteFile("ctrl-c", nil)
	c := commands[v.Choose("command", len(commands))]
	v.SchedAll()
	st := v.Run(c[0], append([]string{"-i", "in.pbf", "-o", "out", "-w", "1", "-r", "1ms"}, c[1:]...)...)
	v.Assert(v.Exists("cancelled"), "Ctrl-C cancels the command")
	v.Assert(st == 0, "and it ends well")
	v.Assert(v.Exists("given-back"), "the terminal is given back")
	v.Reach("ended")
}
