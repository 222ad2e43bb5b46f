// The block pipeline: file, workers, reordering, writer.
package main

import (
	"context"
	"sync"

	"github.com/edsrzf/mmap-go"

	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

type seen struct {
	index uint64
	data  []byte
	typ   string
}

// log is what the workers and the writer of a run saw.
type log struct {
	mu      sync.Mutex
	worked  []seen
	written []seen
	done    bool
}

func (l *log) work(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
	for b := range in {
		s := seen{b.Index, append([]byte(nil), b.Data.(mmap.MMap)...), b.BlobType}
		l.mu.Lock()
		l.worked = append(l.worked, s)
		l.mu.Unlock()
		if out != nil {
			out <- pbf.Block{Index: b.Index, Data: s, BlobType: b.BlobType}
		}
	}
}

func (l *log) write(ctx context.Context, in <-chan pbf.Block) {
	for b := range in {
		l.written = append(l.written, b.Data.(seen))
	}
	v.Yield()
	l.done = true
}

type blk struct {
	typ  string
	blob []byte
}

// input writes a file of n blocks with arbitrary bytes of different lengths.
func input(n int) []blk {
	var bs []blk
	var file [][]byte
	for i := 0; i < n; i++ {
		t := "OSMData"
		if i == 0 {
			t = "OSMHeader"
		}
		b := blk{t, v.Bytes("data", (i+1)%3)}
		bs = append(bs, b)
		file = append(file, hw.Frame(b.typ, b.blob))
	}
	v.WriteFile("in.pbf", hw.Cat(file...))
	return bs
}

func (l *log) isBlock(s seen, bs []blk) bool {
	if s.index >= uint64(len(bs)) {
		return false
	}
	b := bs[s.index]
	return s.typ == b.typ && hw.EqBytes(s.data, b.blob)
}

// H_pipe: every schedule of n blocks on w workers, with and without a writer.
func H_pipe() {
	n, w := v.Choose("blocks", v.Param("blocks", 3)), 1+v.Choose("workers", v.Param("workers", 2))
	if n == 0 {
		n = v.Param("blocks", 3)
	}
	bs := input(n)
	writer := v.Choose("writer", 2) == 1
	v.SchedAll()
	var l log
	var wr pbf.WriteFunc
	if writer {
		wr = l.write
	}
	pbf.ProcessFileAsync(context.Background(), "in.pbf", l.work, wr, w).Wait()
	v.Assert(len(l.worked) == n, "every block reaches exactly one worker")
	got := make([]int, n)
	for _, s := range l.worked {
		v.Assert(l.isBlock(s, bs), "a worker gets the exact block")
		got[s.index]++
	}
	for i := range got {
		v.Assert(got[i] == 1, "every block reaches exactly one worker")
	}
	if writer {
		v.Assert(l.done, "waiting ends after the writer")
		v.Assert(len(l.written) == n, "the writer gets every result once")
		for i, s := range l.written {
			v.Assert(s.index == uint64(i) && l.isBlock(s, bs), "the writer gets the results in file order")
		}
		v.Reach("written")
	}
	v.Reach("done")
}

// H_pipe_window: many blocks, of which one or two are held back until some number of the others
// has been through, or all of them.
func H_pipe_window() {
	n, w := v.Param("blocks", 300), 3
	var bs []blk
	var file [][]byte
	first := v.Choose("held", 3)
	if first == 2 {
		first = 5
	}
	second := first
	if v.Choose("two", 2) == 1 {
		second += 2
	}
	ahead := []int{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, n}[v.Choose("ahead", 21)]
	if v.Choose("reverse", 2) == 1 {
		v.SchedReverse()
	}
	for i := 0; i < n; i++ {
		b := blk{"OSMData", []byte{byte(i)}}
		if i == first || i == first+ahead || i == second {
			b.blob = v.Bytes("data", 2)
		}
		bs = append(bs, b)
		file = append(file, hw.Frame(b.typ, b.blob))
	}
	v.WriteFile("in.pbf", hw.Cat(file...))
	gate := make(chan bool)
	var once sync.Once
	open := func() { once.Do(func() { close(gate) }) }
	go func() {
		v.Idle()
		open()
	}()
	var l log
	work := func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		for b := range in {
			s := seen{b.Index, append([]byte(nil), b.Data.(mmap.MMap)...), b.BlobType}
			if int(b.Index) == first || int(b.Index) == second {
				<-gate
			}
			l.mu.Lock()
			l.worked = append(l.worked, s)
			l.mu.Unlock()
			out <- pbf.Block{Index: b.Index, Data: s, BlobType: b.BlobType}
			if int(b.Index) == first+ahead {
				open()
			}
		}
	}
	pbf.ProcessFileAsync(context.Background(), "in.pbf", work, l.write, w).Wait()
	v.Assert(l.done && len(l.worked) == n && len(l.written) == n, "every block is processed and written once")
	for i, s := range l.written {
		v.Assert(s.index == uint64(i) && l.isBlock(s, bs), "the writer gets the results in file order")
	}
	v.Reach("done")
}

// H_pipe_long: more blocks than two bytes can count, one of them arbitrary.
func H_pipe_long() {
	n, w := v.Param("blocks", 66000), 1+v.Choose("workers", 2)
	at := []int{255, 65535, 65536, n - 1}[v.Choose("at", 4)]
	data := v.Bytes("data", 2)
	var file []byte
	frame := hw.Frame("OSMData", []byte{0, 0})
	for i := 0; i < n; i++ {
		f := frame
		if i == at {
			f = hw.Frame("OSMData", data)
		}
		file = append(file, f...)
		file[len(file)-1] ^= byte(i)
	}
	v.WriteFile("in.pbf", file)
	var mu sync.Mutex
	next, worked := uint64(0), 0
	ok := true
	work := func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		for b := range in {
			d := b.Data.(mmap.MMap)
			x, y := d[0], d[1]^byte(b.Index)
			mu.Lock()
			worked++
			if int(b.Index) == at {
				ok = ok && len(d) == 2 && x == data[0] && y == data[1]
			} else {
				ok = ok && len(d) == 2 && x|y == 0
			}
			mu.Unlock()
			out <- pbf.Block{Index: b.Index, BlobType: b.BlobType}
		}
	}
	write := func(ctx context.Context, in <-chan pbf.Block) {
		for b := range in {
			ok = ok && b.Index == next
			next++
		}
	}
	pbf.ProcessFileAsync(context.Background(), "in.pbf", work, write, w).Wait()
	v.Assert(worked == n && next == uint64(n), "every block is processed and written once")
	v.Assert(ok, "workers get the blocks, and the writer gets the results in file order")
	v.Reach("done")
}

// H_cancel: every schedule, and every moment of cancelling.
func H_cancel() {
	n, w := v.Param("blocks", 2), 1+v.Choose("workers", v.Param("workers", 2))
	bs := input(n)
	writer := v.Choose("writer", 2) == 1
	v.SchedAll()
	var l log
	var wr pbf.WriteFunc
	if writer {
		wr = l.write
	}
	ctx, cancel := context.WithCancel(context.Background())
	go func() {
		v.Yield()
		cancel()
	}()
	pbf.ProcessFileAsync(ctx, "in.pbf", l.work, wr, w).Wait()
	got := make([]int, n)
	for _, s := range l.worked {
		v.Assert(l.isBlock(s, bs), "a worker gets the exact block")
		got[s.index]++
		v.Assert(got[s.index] == 1, "no block reaches two workers")
	}
	if writer {
		v.Assert(l.done, "waiting ends after the writer")
		for i, s := range l.written {
			v.Assert(s.index == uint64(i) && l.isBlock(s, bs), "the writer gets a gapless prefix in file order")
		}
		v.Assert(len(l.written) == len(l.worked), "every block handed to a worker is written")
		if len(l.written) < n {
			v.Reach("cut short")
		} else {
			v.Reach("complete")
		}
	}
}

// frame is a block whose header the harness lays out itself.
func hdr(order int, typ []byte, size []byte) []byte {
	t := append([]byte{0x0a, byte(len(typ))}, typ...)
	s := append([]byte{0x18}, size...)
	switch order {
	case 0:
		return hw.Cat(t, s)
	case 1:
		return hw.Cat(s, t)
	case 2: // the last of repeated fields counts
		return hw.Cat([]byte{0x18, 1}, t, s)
	}
	return hw.Cat([]byte{0x0a, 1, 'x'}, s, t)
}

// valid takes a file apart on its own: nil if the framing is bad.
func valid(file []byte) []blk {
	fr, ok := hw.Frames(file)
	if !ok {
		return nil
	}
	bs := []blk{}
	for _, f := range fr {
		if f.Typ != "OSMHeader" && f.Typ != "OSMData" {
			return nil
		}
		bs = append(bs, blk{f.Typ, f.Blob})
	}
	return bs
}

// strange is true if some header is whole but is not a header.
func strange(file []byte) bool {
	for len(file) > 4 {
		n := int(file[0])<<24 | int(file[1])<<16 | int(file[2])<<8 | int(file[3])
		file = file[4:]
		if n > len(file) {
			return false
		}
		fs, ok := hw.Parse(file[:n])
		if !ok {
			return true
		}
		file = file[n:]
		size := uint64(0)
		for _, f := range fs {
			switch {
			case f.ID == 1 && f.Typ == 2:
			case f.ID == 3 && f.Typ == 0:
				size = f.Num
			default:
				return true
			}
		}
		if size > uint64(len(file)) {
			return false
		}
		file = file[size:]
	}
	return false
}

// follow checks what the run makes of a file.
func follow(file []byte) {
	v.WriteFile("in.pbf", file)
	bs := valid(file)
	if strange(file) {
		return // what a header with other fields means is not the framing's business
	}
	if bs == nil {
		v.Assert(v.Run("blockcount", "-i", "in.pbf", "-w", "1") != 0, "bad framing stops the run")
		v.Reach("refused")
		return
	}
	var l log
	pbf.ProcessFileAsync(context.Background(), "in.pbf", l.work, l.write, 1).Wait()
	v.Assert(len(l.worked) == len(bs) && len(l.written) == len(bs), "every block is seen once")
	for i := range bs {
		v.Assert(l.worked[i].index == uint64(i) && l.isBlock(l.worked[i], bs), "a worker gets the exact block")
		v.Assert(l.written[i].index == uint64(i) && l.isBlock(l.written[i], bs), "the writer gets the exact block")
	}
	v.Reach("followed")
}

// H_framing: two blocks with headers of any field order and any data size, and possibly some of
// the file missing.
func H_framing() {
	first := hdr(v.Choose("order", 4), []byte("OSMHeader"), []byte{3})
	size := v.Bytes("size", 1+v.Choose("size bytes", v.Param("sizes", 2)))
	size[len(size)-1] &= 0x7f
	for i := range size[:len(size)-1] {
		size[i] |= 0x80
	}
	second := hdr(v.Choose("order", 2), []byte("OSMData"), size)
	file := hw.Cat([]byte{0, 0, 0, byte(len(first))}, first, v.Bytes("blob", 3),
		[]byte{0, 0, 0, byte(len(second))}, second, v.Bytes("blob", 2))
	if v.Choose("third", 2) == 1 {
		third := hdr(0, []byte("OSMData"), []byte{0})
		file = hw.Cat(file, []byte{0, 0, 0, byte(len(third))}, third)
	}
	follow(file[:len(file)-v.Choose("missing", v.Param("missing", 4))])
}

// H_header_length: any four bytes as the length of the header.
func H_header_length() {
	h := hdr(0, []byte("OSMData"), []byte{2})
	file := hw.Cat(v.Bytes("length", 4), h, v.Bytes("blob", 2))
	if v.Choose("more", 2) == 1 {
		file = hw.Cat(hw.Frame("OSMHeader", []byte{1}), file)
	}
	follow(file)
}

// H_type: any block type of the length of a known one, and some others.
func H_type() {
	var typ []byte
	switch v.Choose("type", 4) {
	case 0:
		typ = v.Bytes("type", 7)
	case 1:
		typ = v.Bytes("type", 9)
	case 2:
		typ = v.Bytes("type", v.Choose("length", 7))
	case 3:
		typ = append([]byte("OSMData"), v.Byte("type"))
	}
	file := hw.Cat(hw.Frame("OSMHeader", []byte{1}), hw.Frame(string(typ), v.Bytes("blob", 1)))
	if v.Choose("more", 2) == 1 {
		file = hw.Cat(file, hw.Frame("OSMData", []byte{1, 2}))
	}
	follow(file)
}

// H_negative_size: negative data sizes.
func H_negative_size() {
	x := v.U64("size")
	v.Assume(int32(x) < 0)
	h := hdr(v.Choose("order", 2), []byte("OSMData"), hw.VarW(nil, x, 10))
	file := hw.Cat(hw.Frame("OSMHeader", []byte{1}), []byte{0, 0, 0, byte(len(h))}, h, []byte{1, 2, 3})
	v.WriteFile("in.pbf", file)
	v.Assert(v.Run("blockcount", "-i", "in.pbf", "-w", "1") != 0, "bad framing stops the run")
	v.Reach("refused")
}
