// Cancelling the commands' own workers and writers.
package main

import (
	"context"
	"sync"

	"github.com/squizzling/osmindex/cmd/decompress/decompressor"
	"github.com/squizzling/osmindex/cmd/nodeindex/indexer"
	"github.com/squizzling/osmindex/cmd/relindex/relindexerinit"
	"github.com/squizzling/osmindex/cmd/rewritenodes/rewriter"
	"github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer"
	"github.com/squizzling/osmindex/cmd/wayindex/wayindexer"
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

type steps func(out string) (pbf.WorkFunc, pbf.WriteFunc)

// taken counts the blocks the workers were handed.
type taken struct {
	mu sync.Mutex
	n  int
}

func (t *taken) wrap(w pbf.WorkFunc) pbf.WorkFunc {
	return func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		mid := make(chan pbf.Block)
		go func() {
			for b := range in {
				t.mu.Lock()
				t.n++
				t.mu.Unlock()
				mid <- b
			}
			close(mid)
		}()
		w(ctx, mid, out)
	}
}

func run(file string, s steps, out string) {
	work, write := s(out)
	pbf.ProcessFileAsync(context.Background(), file, work, write, 1).Wait()
}

// cancelled: whenever the run over the blocks is cancelled, the output is that of a run over the
// blocks handed to workers, the first k of them.
func cancelled(blocks [][]byte, s steps, same func(got, want []byte) bool) {
	n := len(blocks)
	want := make([][]byte, n+1)
	for k := 1; k <= n; k++ {
		v.WriteFile("part.pbf", hw.Cat(blocks[:k]...))
		run("part.pbf", s, "want")
		want[k] = v.ReadFile("want")
	}
	v.SchedAll()
	ctx, cancel := context.WithCancel(context.Background())
	go func() {
		v.Yield()
		cancel()
	}()
	var t taken
	work, write := s("got")
	if v.Param("count", 1) == 1 {
		work = t.wrap(work)
	}
	pbf.ProcessFileAsync(ctx, "part.pbf", work, write, v.Param("workers", 1)).Wait()
	got := v.ReadFile("got")
	if v.Param("count", 1) == 1 {
		if t.n > 0 {
			v.Assert(same(got, want[t.n]), "the output is that of the blocks handed to workers")
		}
	} else {
		some := false
		for k := 1; k <= n; k++ {
			some = some || same(got, want[k])
			t.n = k
		}
		if !some {
			// nothing was handed over: no block's content may be there
			v.Assert(len(got) < len(want[1]), "the output is that of the first blocks of the file")
			t.n = 0
		}
	}
	if t.n < n {
		v.Reach("cut short")
	} else {
		v.Reach("complete")
	}
}

// indexed is true if got holds all of the index entries in want; a cancelled run may leave the
// copying of what they refer to unfinished, or the header.
func indexed(got, want []byte, at int, size int) bool {
	n := 0
	for i := 7; i >= 0; i-- {
		n = n<<8 | int(want[at+i])
	}
	n = 16 + n*size
	if len(got) < n || len(got) > len(want) {
		return false
	}
	return hw.EqBytes(got[16:], want[16:len(got)])
}

func data(comp bool, gs ...[]byte) []byte {
	b := hw.Block(hw.Strings("", "a", "b"), nil, gs...)
	if comp {
		return hw.Frame("OSMData", hw.Comp(b))
	}
	return hw.Frame("OSMData", hw.Raw(b))
}

func dense(id, pos uint64) []byte {
	return hw.Group(2, hw.DenseZ([]uint64{id << 1, 2}, []uint64{pos, 2}, []uint64{5, 8}, []uint64{1, 2, 0, 0}, 5))
}

func ways(id, ref int64) []byte {
	return hw.Group(3, hw.Way(id, []uint64{1}, []uint64{2}, []int64{ref, 7}, 5))
}

// H_cancel_work: every schedule and every moment of cancelling, for the steps of each command
// that writes a file.
func H_cancel_work() {
	x := uint64(v.U16("value"))
	header := hw.Frame("OSMHeader", hw.Raw([]byte{0x22, 1, 'x'}))
	var blocks [][]byte
	var s steps
	same := hw.EqBytes
	switch v.Choose("command", 6) {
	case 0:
		blocks = [][]byte{header, data(true, dense(5, x)), data(false, ways(9, int64(x)))}
		s = func(out string) (pbf.WorkFunc, pbf.WriteFunc) {
			var d decompressor.Decompressor
			return d.Worker, d.Output(out)
		}
	case 1:
		blocks = [][]byte{header, data(true, dense(5, x)), data(false, ways(9, int64(x)), dense(80, 3))}
		s = func(out string) (pbf.WorkFunc, pbf.WriteFunc) {
			f := tagfilterer.TagFilterer{}
			return f.Worker(), f.Writer(out)
		}
	case 2:
		same = func(got, want []byte) bool { return indexed(got, want, 8, 16) }
		blocks = [][]byte{header, data(false, dense(5, x)), data(false, dense(80, 3))}
		s = func(out string) (pbf.WorkFunc, pbf.WriteFunc) {
			var ni indexer.NodeIndexer
			return ni.Worker, ni.Output(out)
		}
	case 3:
		same = func(got, want []byte) bool { return indexed(got, want, 0, 8) }
		blocks = [][]byte{header, data(false, ways(5, int64(x))), data(false, ways(9, 12))}
		s = func(out string) (pbf.WorkFunc, pbf.WriteFunc) {
			var wi wayindexer.WayIndexer
			return wi.Worker(3), wi.Output(out, 3)
		}
	case 4:
		rel := func(id int64) []byte {
			return hw.Group(4, hw.Relation(id, nil, nil, []uint64{0}, []int64{3}, []uint64{1}, 5))
		}
		blocks = [][]byte{header, data(false, rel(int64(x))), data(false, rel(9))}
		s = func(out string) (pbf.WorkFunc, pbf.WriteFunc) {
			ri := &relindexerinit.RelIndexerInitializer{}
			return ri.Worker(), ri.Output(out)
		}
	case 5:
		le := func(x uint64) []byte {
			var b []byte
			for i := uint(0); i < 64; i += 8 {
				b = append(b, byte(x>>i))
			}
			return b
		}
		v.WriteFile("n.idx", hw.Cat(le(1), le(1), le(7), le(1), le(1<<63|5)))
		ix := nodeindex.NewNodeIndex("n.idx", nil)
		blocks = [][]byte{header, data(false, ways(5, 1<<40+int64(x))), data(true, ways(9, 12))}
		s = func(out string) (pbf.WorkFunc, pbf.WriteFunc) {
			nr := &rewriter.NodeRewriter{}
			return nr.Worker(ix.SubIndex(0, 1), true), nr.Writer(out)
		}
	}
	cancelled(blocks, s, same)
}
