package main

import (
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// opt is an option in both spellings.
type opt struct {
	short, long, val string
	number           bool // its value is a number
	flag             bool // it has no value
	need             bool // it can't be left out
}

// command is a command and the options it is called with.
type command struct {
	name string
	opts []opt
	out  bool // it writes a file
}

func commands() []command {
	in := opt{short: "i", long: "input-file", val: "in.pbf", need: true}
	out := opt{short: "o", long: "output-file", val: "out", need: true}
	w := opt{short: "w", long: "workers", val: "1", number: true}
	r := opt{short: "r", long: "refresh", val: "0", number: true}
	nix := opt{short: "i", long: "input-file", val: "n.idx", need: true}
	wix := opt{short: "i", long: "input-file", val: "w.idx", need: true}
	locs := opt{short: "p", long: "print-locations", flag: true}
	search := opt{short: "s", long: "search-index", flag: true}
	at := opt{long: "sub-index-index", val: "0", number: true}
	count := opt{long: "sub-index-count", val: "1", number: true}
	return []command{
		{"nodeindex", []opt{in, out, w, r}, true},
		{"wayindex", []opt{in, out, w, {short: "a", long: "alignment", val: "4", number: true}, r}, true},
		{"rewritenodes", []opt{in, {short: "x", long: "index-file", val: "n.idx", need: true}, out, w, {short: "m", long: "memory", val: "3", number: true}, {short: "t", long: "timing", val: "2.5", number: true}, r}, true},
		{"relindex", []opt{in, {short: "x", long: "way-index", val: "w.idx", need: true}, out, w, {short: "p", long: "passes", val: "2", number: true}, r}, true},
		{"tagfilter", []opt{in, out, w, r}, true},
		{"decompress", []opt{in, out, w, r}, true},
		{"blockcount", []opt{in, w}, false},
		{"entitycount", []opt{in, w}, false},
		{"entityfind", []opt{in, w, {short: "e", long: "entity-id", val: "3", number: true, need: true}}, false},
		{"dumpnodeindex", []opt{nix, locs, search, at, count, {long: "start-element", val: "0", number: true}, {long: "end-element", val: "1", number: true}}, false},
		{"dumpwayindex", []opt{wix, locs, search, at, count}, false},
	}
}

func le(x uint64) []byte {
	return []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24), byte(x >> 32), byte(x >> 40), byte(x >> 48), byte(x >> 56)}
}

var (
	inFile, nIndex, wIndex []byte
	former                 = []byte("a former output")
)

// files makes the files that the commands read and one they are to write.
func files() {
	st := hw.Strings("", "k", "v")
	nodes := hw.Group(2, hw.DenseZ([]uint64{10}, []uint64{2}, []uint64{4}, []uint64{1, 2, 0}, 1))
	way := hw.Group(3, hw.Way(3, []uint64{1}, []uint64{2}, []int64{5, 6}, 1))
	rel := hw.Group(4, hw.Relation(9, nil, nil, []uint64{0}, []int64{3}, []uint64{1}, 1))
	inFile = hw.Cat(hw.Frame("OSMHeader", hw.Raw([]byte{0x22, 1, 'x'})), hw.Frame("OSMData", hw.Raw(hw.Block(st, nil, nodes))), hw.Frame("OSMData", hw.Raw(hw.Block(st, nil, way, rel))))
	nIndex = hw.Cat(le(1), le(1), le(5), le(1), le(1<<63|77))
	wIndex = hw.Cat(le(1), le(3), le(3<<33), []byte{10, 2, 0, 0, 0, 0, 0, 0})
	v.WriteFile("in.pbf", inFile)
	v.WriteFile("n.idx", nIndex)
	v.WriteFile("w.idx", wIndex)
	v.WriteFile("out", former)
}

// untouched says that all files are as they were before.
func untouched() {
	v.Assert(v.FileList() == "in.pbf n.idx out w.idx", "no file is created or removed")
	v.Assert(hw.EqBytes(v.ReadFile("out"), former), "the output file is not touched")
	v.Assert(hw.EqBytes(v.ReadFile("in.pbf"), inFile) && hw.EqBytes(v.ReadFile("n.idx"), nIndex) && hw.EqBytes(v.ReadFile("w.idx"), wIndex), "the input files are not touched")
}

// spell gives an option in one of its spellings.
func (o opt) spell(how int) []string {
	if o.short == "" && how < 3 {
		how = 3 + how%2
	}
	if o.flag {
		if how < 3 {
			return []string{"-" + o.short}
		}
		return []string{"--" + o.long}
	}
	switch how {
	case 0:
		return []string{"-" + o.short, o.val}
	case 1:
		return []string{"-" + o.short + o.val}
	case 2:
		return []string{"-" + o.short + "=" + o.val}
	case 3:
		return []string{"--" + o.long, o.val}
	}
	return []string{"--" + o.long + "=" + o.val}
}

func (c *command) line(how int) (args []string) {
	for _, o := range c.opts {
		args = append(args, o.spell(how)...)
	}
	return args
}

// set gives an option another value.
func (c *command) set(long, val string) bool {
	for i := range c.opts {
		if c.opts[i].long == long {
			c.opts[i].val = val
			return true
		}
	}
	return false
}

func (c *command) drop(i int) {
	c.opts = append(append([]opt(nil), c.opts[:i]...), c.opts[i+1:]...)
}

// below is any number below a limit.
func below(limit int64) string {
	n := v.I64("number")
	v.Assume(n < limit)
	return v.Dec(n)
}

// H_refused: command lines that can't be carried out.
func H_refused() {
	files()
	all := commands()
	c := all[v.Choose("command", len(all))]
	how := v.Choose("spelling", 5)
	var args []string
	ok := true
	what := v.Choose("what", 12)
	switch what {
	case 0: // an unknown option
		args = c.line(how)
		x := [][]string{{"-z"}, {"-z", "1"}, {"--nope"}, {"--nope=1"}, {"--input"}, {"--WORKERS=1"}, {"-"}, {"---workers=1"}}[v.Choose("unknown", 8)]
		if v.Choose("first", 2) == 1 {
			args = append(append([]string(nil), x...), args...)
		} else {
			args = append(args, x...)
		}
	case 1: // a missing option
		i := v.Choose("option", 7)
		ok = i < len(c.opts) && c.opts[i].need
		if ok {
			c.drop(i)
		}
		args = c.line(how)
	case 2: // no value
		i := v.Choose("option", 7)
		ok = i < len(c.opts) && !c.opts[i].flag
		if ok {
			o := c.opts[i].spell(3 * (how & 1))[0]
			if v.Choose("last", 2) == 1 {
				args = append(c.line(how), o)
			} else {
				args = append([]string{o}, c.line(how)...)
			}
		}
	case 3: // an argument that's no option
		args = c.line(how)
		x := []string{"more", "in.pbf", "", "-1"}[v.Choose("argument", 4)]
		switch v.Choose("where", 3) {
		case 0:
			if x == "-1" { // an unknown option
				x = "-"
			}
			args = append([]string{x}, args...)
		case 1:
			args = append(args, "--", x)
		case 2:
			args = append(append([]string(nil), args...), x)
		}
	case 4: // no number
		i := v.Choose("option", 7)
		ok = i < len(c.opts) && c.opts[i].number
		if ok {
			c.opts[i].val = []string{"x", "1x", "0x1", "99999999999999999999999999x", "1 2", "1,5"}[v.Choose("value", 6)]
		}
		args = c.line(how)
	case 5: // no workers
		ok = c.set("workers", below(1))
		args = c.line(how)
	case 6: // no passes
		ok = c.set("passes", below(1))
		args = c.line(how)
	case 7:
		ok = c.set("alignment", below(0))
		args = c.line(how)
	case 8:
		ok = c.set("refresh", []string{"-1s", "-1ns", "-2h3m", "5", "1", "s"}[v.Choose("interval", 6)])
		args = c.line(how)
		if how == 0 || how == 3 { // looks like an option; refused too
			v.Reach("interval")
		}
	case 9: // memory for no locations
		ok = c.set("memory", []string{"0", "-1", "1.5"}[v.Choose("memory", 3)])
		args = c.line(how)
	case 10: // sub-indexes that do not exist
		_, count, at := c.set("sub-index-count", "0"), int64(v.Choose("count", 4)), v.I64("at")
		ok = c.name == "dumpnodeindex" || c.name == "dumpwayindex"
		if !ok {
			return
		}
		switch v.Choose("which", 3) {
		case 0:
			v.Assume(at >= count)
			if c.name == "dumpnodeindex" {
				c.set("sub-index-index", v.Itoa(uint64(at)))
			} else {
				c.set("sub-index-index", v.Dec(at))
			}
			c.set("sub-index-count", v.Itoa(uint64(count)))
		case 1:
			if c.name == "dumpnodeindex" {
				c.set("sub-index-index", "-1")
			} else {
				v.Assume(at < 0)
				c.set("sub-index-index", v.Dec(at))
			}
			c.set("sub-index-count", v.Itoa(uint64(count)))
		case 2: // one without the other
			for i := range c.opts {
				if c.opts[i].long == []string{"sub-index-count", "sub-index-index"}[count&1] {
					c.drop(i)
					break
				}
			}
			c.set("sub-index-count", "1")
		}
		args = c.line(how)
	case 11:
		switch v.Choose("system", 4) {
		case 0:
			args = append(c.line(how), "--mem-profile-rate", "5")
		case 1:
			args = append(c.line(how), "--max-threads=x")
		case 2:
			args = append(c.line(how), "--max-threads")
		case 3:
			ok = false
			for i, o := range c.opts {
				if o.flag {
					args = append(c.line(how), [][]string{{"-" + o.short + "=1"}, {"--" + o.long + "=1"}, {"--" + o.long + "="}}[i%3]...)
					ok = true
				}
			}
		}
	}
	if !ok {
		return
	}
	st := v.Run(c.name, args...)
	v.Assert(st != 0, "the command line is refused")
	v.Assert(v.OutEOF(), "nothing is printed as a result")
	untouched()
	v.Reach("refused")
}

// H_help: a request for help.
func H_help() {
	files()
	all := commands()
	c := all[v.Choose("command", len(all))]
	args := []string{[]string{"-h", "--help"}[v.Choose("spelling", 2)]}
	switch v.Choose("where", 4) {
	case 1:
		args = append(c.line(0), args...)
	case 2:
		args = append(args, c.line(4)...)
	case 3:
		args = append(args, "more", "--nope")
	}
	v.Assert(v.Run(c.name, args...) == 0, "help ends well")
	untouched()
	v.Reach("done")
}

// result is what the last command is to have done.
func (c *command) result(st int, a, w string) {
	v.Assert(st == 0, "the command ends well")
	want := "in.pbf n.idx out w.idx"
	v.Assert(v.FileList() == want, "the output file is the one named")
	out := v.ReadFile("out")
	switch c.name {
	case "nodeindex":
		v.Assert(len(out) == 40 && hw.EqBytes(out[:32], nIndex[:32]), "the node is indexed")
	case "wayindex":
		shift, ok := map[string]uint64{"": 3, "0": 0, "4": 4}[a]
		v.Assert(ok && hw.EqBytes(out[:24], hw.Cat(le(1), le(shift), le(3<<33))), "the way is indexed with the alignment given")
	case "rewritenodes", "decompress", "tagfilter":
		fr, ok := hw.Frames(out)
		v.Assert(ok && len(fr) == 3 && fr[0].Typ == "OSMHeader", "the blocks are written")
	case "relindex":
		v.Assert(hw.EqBytes(out, hw.Cat(le(9), le(1), le(3), le(2), le(5), le(6))), "the relation is indexed")
	case "blockcount":
		v.Assert(v.OutLit("Counted 3 blocks\n"), "the blocks are counted")
	case "entitycount":
		v.Assert(v.OutLit("Counted 3 blocks\nCounted 1 nodes, 5 max\nCounted 1 ways, 3 max\nCounted 2 ways refs, 2 maximum length\nCounted 1 relations, 9 max\n") && v.OutEOF(), "the entities are counted")
	case "entityfind":
		v.Assert(v.OutLit("&t.HLWay{Id:3, ") && !v.OutEOF(), "the way is found")
	case "dumpnodeindex":
		v.Assert(v.OutLit("Extract: ") && !v.OutEOF(), "the index is printed")
	case "dumpwayindex":
		v.Assert(v.OutLit("3 [5 6]\n3 [5 6]\n") && v.OutEOF(), "the index is printed")
	}
	if !c.out {
		untouched()
	}
}

// H_accepted: the options of a command in any spelling, from any one on, with some left out.
func H_accepted() {
	files()
	all := commands()
	c := all[v.Choose("command", len(all))]
	n := len(c.opts)
	start := v.Choose("start", 7)
	if start >= n {
		return
	}
	a, w := "4", ""
	switch v.Choose("values", 5) {
	case 1:
		w = v.Itoa(uint64(v.Int("workers", 1, 3)))
		c.set("workers", w)
	case 2:
		c.set("alignment", "0")
		a = "0"
	case 3: // left out
		for i := len(c.opts) - 1; i >= 0; i-- {
			if !c.opts[i].need && !c.opts[i].flag && c.opts[i].long != "refresh" {
				c.drop(i)
			}
		}
		a = ""
		n = len(c.opts)
		start %= n
	case 4: // with others
		c.opts = append(c.opts, opt{long: "max-threads", val: "2"})
		n++
	}
	how := v.Choose("spelling", 5)
	var args []string
	for i := 0; i < n; i++ {
		args = append(args, c.opts[(start+i)%n].spell((how+i)%5)...)
	}
	if v.Choose("end", 2) == 1 {
		args = append(args, "--")
	}
	c.result(v.Run(c.name, args...), a, w)
	v.Reach("done")
}
