// What a blob holds, however the decompressor delivers it.
package main

import (
	"bytes"
	"compress/zlib"
	"errors"
	"io"

	"github.com/squizzling/osmindex/internal/pool"
	"github.com/squizzling/osmindex/internal/t"
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// dirty leaves a used buffer of about that size in the pool.
func dirty(n int) {
	bb := pool.ByteSlice.Get(uint64(n))
	for i := range bb.Buffer {
		bb.Buffer[i] = 0xEE
	}
	pool.ByteSlice.Put(bb)
}

// delivery is a reader of the harness's making, in the place of the decompressor.
type delivery struct {
	content []byte // what it delivers
	fail    bool   // ends in an error other than io.EOF
	at      int
	reads   int
	idle    int
	ended   bool
}

var errStream = errors.New("broken stream")

func (d *delivery) read(p []byte) (int, error) {
	d.reads++
	if d.ended && d.reads > 100 {
		panic("reading on after the end")
	}
	end := io.EOF
	if d.fail {
		end = errStream
	}
	left := len(d.content) - d.at
	if left == 0 {
		d.ended = true
		return 0, end
	}
	if len(p) == 0 {
		return 0, nil
	}
	if d.idle == 0 {
		switch v.Choose("nothing yet", 3) {
		case 1:
			d.idle = 1
		case 2: // for long
			d.idle = 30
		}
	}
	if d.idle > 1 {
		d.idle--
		return 0, nil
	}
	if d.idle == 1 {
		d.idle = -1
		return 0, nil
	}
	n := left
	if n > len(p) {
		n = len(p)
	}
	n -= v.Choose("less", n)
	copy(p, d.content[d.at:d.at+n])
	// the rest of the buffer is the reader's to use meanwhile
	for i := n; i < len(p) && i < n+8; i++ {
		p[i] = 0xDD
	}
	d.at += n
	if d.at == len(d.content) && v.Choose("end with the data", 2) == 1 {
		d.ended = true
		return n, end
	}
	return n, nil
}

// extract gets the blob's content; ok is false if that panics.
func extract(b *t.Blob) (bb pool.BorrowedBuffer, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return b.GetRawData(), true
}

// H_delivery: any content in any sequence of reads, ending early, in time, late or in an error.
func H_delivery() {
	max := v.Param("n", 4)
	want := v.Choose("declared", max+1)
	have := v.Choose("delivered", max+2)
	d := &delivery{content: v.Bytes("content", have), fail: v.Choose("fail", 2) == 1}
	if v.Choose("used buffer", 2) == 1 {
		dirty(want + v.Choose("larger", 2))
	}
	zlib.ZZRead = func(real func([]byte) (int, error), p []byte) (int, error) { return d.read(p) }
	size := int32(want)
	b := t.Blob{RawSize: &size, ZLibData: hw.Zlib(make([]byte, want), 65535)}
	bb, ok := extract(&b)
	zlib.ZZRead = nil
	if d.reads == 0 && want > 0 {
		return // it is not read through the standard decompressor
	}
	if have < want {
		v.Assert(!ok, "a stream that ends before the declared size stops the extraction")
		v.Reach("refused")
		return
	}
	if !ok {
		v.Assert(have > want || d.fail, "a complete stream is extracted")
		return
	}
	v.Assert(len(bb.Buffer) == want, "exactly the declared number of bytes")
	v.Assert(hw.EqBytes(bb.Buffer, d.content[:want]), "the bytes are those of the stream")
	v.Reach("extracted")
}

// pieces delivers large content in pieces of a few sizes, in turn.
type pieces struct {
	content []byte
	sizes   []int
	at, k   int
}

func (d *pieces) read(p []byte) (int, error) {
	if d.at == len(d.content) {
		return 0, io.EOF
	}
	n := len(d.content) - d.at
	if s := d.sizes[d.k%len(d.sizes)]; s < n {
		n = s
	}
	d.k++
	if len(p) < n {
		n = len(p)
	}
	copy(p, d.content[d.at:d.at+n])
	d.at += n
	return n, nil
}

// H_large: contents beyond the decompressor's window, in pieces of even and odd sizes, with
// arbitrary bytes where pieces meet.
func H_large() {
	lengths := []int{32768, 65536, 65537, 131075, 200001}
	sizes := []int{1021, 4096, 32767, 32768, 65535, 65536, 1 << 20}
	n := lengths[v.Choose("length", len(lengths))]
	a := sizes[v.Choose("size", len(sizes))]
	b := sizes[v.Choose("next size", len(sizes))]
	c := make([]byte, n)
	for i := 0; i < 251; i++ {
		c[i] = byte(i)
	}
	for i := 251; i < n; i *= 2 {
		copy(c[i:], c[:i]) // of period 251
	}
	for _, k := range []int{0, a - 1, a, a + b, 65535, 65536, n - 2, n - 1} {
		if k < n {
			c[k] = v.Byte("content")
		}
	}
	d := &pieces{content: c, sizes: []int{a, b}}
	zlib.ZZRead = func(real func([]byte) (int, error), p []byte) (int, error) { return d.read(p) }
	size := int32(n)
	bl := t.Blob{RawSize: &size, ZLibData: hw.Zlib([]byte{1}, 65535)}
	dirty(n)
	bb, ok := extract(&bl)
	zlib.ZZRead = nil
	if d.k == 0 {
		return
	}
	v.Assert(ok, "a complete stream is extracted")
	v.Assert(len(bb.Buffer) == n, "exactly the declared number of bytes")
	v.Assert(bytes.Equal(bb.Buffer, c), "the bytes are those of the stream")
	v.Reach("extracted")
}

// H_second: two blobs one after the other, the second into the first's buffer.
func H_second() {
	var sizes [2]int
	var bufs [2]pool.BorrowedBuffer
	var content [2][]byte
	keep := v.Choose("keep", 2) == 1
	for i := range sizes {
		n := 1 + v.Choose("size", v.Param("n", 3))
		c := v.Bytes("content", n)
		d := &delivery{content: c}
		zlib.ZZRead = func(real func([]byte) (int, error), p []byte) (int, error) { return d.read(p) }
		size := int32(n)
		b := t.Blob{RawSize: &size, ZLibData: hw.Zlib(make([]byte, n), 65535)}
		bb, ok := extract(&b)
		zlib.ZZRead = nil
		if d.reads == 0 {
			return
		}
		v.Assert(ok, "a complete stream is extracted")
		v.Assert(len(bb.Buffer) == n && hw.EqBytes(bb.Buffer, c), "the bytes are those of the stream")
		sizes[i], bufs[i], content[i] = n, bb, c
		if !keep {
			pool.ByteSlice.Put(bb)
		}
	}
	if keep {
		v.Assert(hw.EqBytes(bufs[0].Buffer, content[0]), "what was extracted first stays")
	}
	v.Reach("done")
}

// H_stream: real compressed data of any content, cut short anywhere, followed by anything, with
// a declared size that is right, too small or too large.
func H_stream() {
	n := v.Choose("length", v.Param("n", 4)+1)
	c := v.Bytes("content", n)
	z := hw.Zlib(c, 1+v.Choose("chunk", 3))
	full := len(z)
	cut := full
	switch v.Choose("stream", 3) {
	case 1:
		cut = v.Choose("cut", full)
		z = z[:cut]
	case 2:
		z = append(z, v.Bytes("more", 2)...)
	}
	declared := n - 1 + v.Choose("declared", 3)
	if declared < 0 {
		return
	}
	dirty(declared)
	size := int32(declared)
	b := t.Blob{RawSize: &size, ZLibData: z}
	bb, ok := extract(&b)
	switch {
	case declared > n:
		v.Assert(!ok, "a stream that ends before the declared size stops the extraction")
		v.Reach("refused")
	case ok:
		v.Assert(len(bb.Buffer) == declared && hw.EqBytes(bb.Buffer, c[:declared]), "the bytes are those of the stream")
		v.Reach("extracted")
	default:
		v.Assert(cut < full || declared < n, "a complete stream is extracted")
	}
}

// H_damaged: a small compressed stream with any one of its bytes (or several, at a greater depth)
// replaced.
func H_damaged() {
	c := []byte{1, 2, 3}
	z := hw.Zlib(c, 2)
	m := v.Param("m", 1)
	k := v.Choose("where", len(z)+1-m)
	for i := 0; i < m; i++ {
		z[k+i] = v.Byte("damage")
	}
	size := int32(3)
	dirty(3)
	b := t.Blob{RawSize: &size, ZLibData: z}
	bb, ok := extract(&b)
	if !ok {
		v.Reach("refused")
		return
	}
	v.Assert(len(bb.Buffer) == 3, "exactly the declared number of bytes")
	// what the stream says, by its own reader
	want := make([]byte, 3)
	r, err := zlib.NewReader(&source{z, 0})
	v.Assert(err == nil, "a stream that fails before the declared size stops the extraction")
	got := 0
	for got < 3 && err == nil {
		var m int
		m, err = r.Read(want[got:])
		got += m
	}
	v.Assert(got == 3, "a stream that ends before the declared size stops the extraction")
	v.Assert(hw.EqBytes(bb.Buffer, want), "the bytes are those of the stream")
	v.Reach("extracted")
}

type source struct {
	b  []byte
	at int
}

func (s *source) Read(p []byte) (int, error) {
	if s.at == len(s.b) {
		return 0, io.EOF
	}
	n := copy(p, s.b[s.at:])
	s.at += n
	return n, nil
}

func (s *source) ReadByte() (byte, error) {
	if s.at == len(s.b) {
		return 0, io.EOF
	}
	s.at++
	return s.b[s.at-1], nil
}

// H_plain: an uncompressed blob is its bytes, in place; a blob without content is refused.
func H_plain() {
	n := v.Choose("length", v.Param("n", 3)+1)
	c := v.Bytes("content", n)
	b := t.Blob{Raw: c}
	if v.Choose("declared too", 2) == 1 {
		size := int32(v.U32("size"))
		b.RawSize = &size
	}
	if v.Choose("compressed too", 2) == 1 {
		b.ZLibData = hw.Zlib([]byte{9}, 5)
	}
	bb, ok := extract(&b)
	v.Assert(ok, "an uncompressed blob is extracted")
	v.Assert(len(bb.Buffer) == n && hw.EqBytes(bb.Buffer, c), "an uncompressed blob returns its bytes as they are")
	pool.ByteSlice.Put(bb)
	if n > 0 {
		c2 := append([]byte(nil), c...)
		other := pool.ByteSlice.Get(uint64(n))
		other.Buffer[0]++
		v.Assert(hw.EqBytes(c, c2), "the bytes of an uncompressed blob are not handed out")
	}
	none := t.Blob{}
	_, ok = extract(&none)
	v.Assert(!ok, "a blob that holds nothing is refused")
	v.Reach("done")
}
