// The commands that read a PBF file: decompress, counts, searches, tag filtering, index dumps.
package main

import (
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// pickWorkers is one worker, two, or two scheduled the other way round.
func pickWorkers() string {
	w := v.Choose("workers", 3)
	if w == 2 {
		v.SchedReverse()
		w = 1
	}
	return v.Itoa(uint64(1 + w))
}

// content is the data of a block.
func content(sizes int) []byte {
	switch k := v.Choose("size", sizes); k {
	case 0:
		return v.Bytes("data", 3)
	case 1:
		return []byte{}
	case 2:
		return v.Bytes("data", 1)
	case 3: // two-byte lengths
		b := make([]byte, 125)
		for i := range b {
			b[i] = byte(i)
		}
		return append(b, v.Bytes("data", 2+v.Choose("more", 3))...)
	default: // more than one stored block of a zlib stream, three-byte lengths
		b := make([]byte, 66000)
		for i := range b {
			b[i] = byte(i * 7)
		}
		return b
	}
}

// blob is a blob of this content in one of the forms a file may hold it.
func blob(data []byte) []byte {
	size := hw.Num(nil, 2, uint64(len(data)), 5)
	switch v.Choose("form", 4) {
	case 0:
		return hw.Raw(data)
	case 1:
		return hw.Comp(data)
	case 2: // another field order, stored in several chunks
		return hw.Cat(hw.Field(nil, 3, hw.Zlib(data, 2+len(data)/2)), size)
	default:
		return hw.Cat(size, hw.Raw(data))
	}
}

type frame struct {
	typ  string
	data []byte
}

func sameContent(in []frame, out []byte) {
	fr, ok := hw.Frames(out)
	v.Assert(ok, "the output is a PBF file")
	v.Assert(len(fr) == len(in), "the output has every block")
	for i, f := range fr {
		v.Assert(f.Typ == in[i].typ, "types are kept, in order")
		raw, ok := hw.RawData(f.Blob)
		v.Assert(ok, "the blob holds its data uncompressed, and nothing else")
		v.Assert(hw.EqBytes(raw, in[i].data), "content is kept")
	}
}

// H_decompress: files of any blocks; one of them takes any form.
func H_decompress() {
	w := pickWorkers()
	n := 1 + v.Choose("blocks", v.Param("blocks", 3))
	any := v.Choose("the block of any form", n)
	var in []frame
	var file []byte
	for i := 0; i < n; i++ {
		f := frame{"OSMData", nil}
		var b []byte
		switch {
		case i == any:
			if v.Choose("type", 2) == 0 {
				f.typ = "OSMHeader"
			}
			f.data = content(v.Param("sizes", 5))
			b = blob(f.data)
		case v.Choose("compressed", 2) == 1:
			f.data = v.Bytes("data", 4)
			b = hw.Comp(f.data)
		default:
			f.data = v.Bytes("data", 2)
			b = hw.Raw(f.data)
		}
		in = append(in, f)
		file = append(file, hw.Frame(f.typ, b)...)
	}
	v.WriteFile("in.pbf", file)
	st := v.Run("decompress", "-i", "in.pbf", "-o", "out.pbf", "-w", w, "-r", "0")
	v.Assert(st == 0, "decompress ends well")
	v.Assert(v.FileList() == "in.pbf out.pbf", "no other file is left")
	v.Assert(hw.EqBytes(v.ReadFile("in.pbf"), file), "the input is left alone")
	sameContent(in, v.ReadFile("out.pbf"))
	v.Reach("done")
}

// H_decompress_schedules: every schedule of a few blocks.
func H_decompress_schedules() {
	var in []frame
	var file []byte
	for i := 0; i < v.Param("blocks", 3); i++ {
		f := frame{"OSMData", v.Bytes("data", 1+i%2)}
		in = append(in, f)
		b := hw.Raw(f.data)
		if i != 1 {
			b = hw.Comp(f.data)
		}
		file = append(file, hw.Frame(f.typ, b)...)
	}
	v.WriteFile("in.pbf", file)
	v.SchedAll()
	st := v.Run("decompress", "-i", "in.pbf", "-o", "out.pbf", "-w", "2", "-r", "0")
	v.Assert(st == 0, "decompress ends well")
	sameContent(in, v.ReadFile("out.pbf"))
	v.Reach("done")
}
