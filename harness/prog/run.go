package main

import (
	"context"

	"github.com/edsrzf/mmap-go"
	"github.com/gdamore/tcell/views"

	dc "github.com/squizzling/osmindex/cmd/decompress/decompressor"
	dcw "github.com/squizzling/osmindex/cmd/decompress/decompressor/widget"
	ni "github.com/squizzling/osmindex/cmd/nodeindex/indexer"
	nis "github.com/squizzling/osmindex/cmd/nodeindex/indexer/state"
	niw "github.com/squizzling/osmindex/cmd/nodeindex/indexer/widget"
	ri "github.com/squizzling/osmindex/cmd/relindex/relindexerinit"
	riw "github.com/squizzling/osmindex/cmd/relindex/relindexerinit/widget"
	rw "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter"
	rww "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter/widget"
	tf "github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer"
	tfw "github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer/widget"
	wi "github.com/squizzling/osmindex/cmd/wayindex/wayindexer"
	wis "github.com/squizzling/osmindex/cmd/wayindex/wayindexer/state"
	wiw "github.com/squizzling/osmindex/cmd/wayindex/wayindexer/widget"
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/tracker"
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// content is a block of three nodes, of which one has a tag, two ways and a relation.
func content() []byte {
	dense := hw.DenseZ([]uint64{2, 2, 4}, []uint64{2, 4, 6}, []uint64{2, 4, 6}, []uint64{0, 1, 2, 0, 0}, 1)
	way := hw.Field([]byte{8, 5}, 8, []byte{2, 2})
	way2 := hw.Field([]byte{8, 6}, 8, []byte{2, 2, 2})
	rel := hw.Field(hw.Field(hw.Field([]byte{8, 7}, 8, []byte{0}), 9, []byte{10}), 10, []byte{1})
	return hw.Block(hw.Strings("", "k", "v"), nil, hw.Group(2, dense), hw.Group(3, way, way2), hw.Group(4, rel))
}

func nodeIndex() *nodeindex.NodeSubIndex {
	v.WriteFile("n.idx", append(append([]byte{1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0},
		1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0), 5, 0, 0, 0, 0, 0, 0, 128))
	return nodeindex.NewNodeIndex("n.idx", nil).SubIndex(0, 1)
}

// H_line_run: the line of a worker which has got one block after another, any of the file.
func H_line_run() {
	var work pbf.WorkFunc
	var tr *tracker.WorkerTracker
	var line tracker.NewWidgetFunc
	counts := []string{"", ""}
	switch v.Choose("command", 6) {
	case 0:
		x := &dc.Decompressor{}
		work, tr, line = x.Worker, &x.WorkerTracker, dcw.NewWidgetStateWorker
	case 1:
		x := &ni.NodeIndexer{}
		work, tr, line = x.Worker, &x.WorkerTracker, niw.NewWidgetStateWorker
	case 2:
		x := &wi.WayIndexer{}
		work, tr, line = x.Worker(3), &x.WorkerTracker, wiw.NewWidgetStateWorker
	case 3:
		x := &ri.RelIndexerInitializer{}
		work, tr, line = x.Worker(), &x.WorkerTracker, riw.NewWidgetStateWorker
	case 4:
		x := &rw.NodeRewriter{}
		work, tr, line = x.Worker(nodeIndex(), v.Choose("last", 2) == 1), &x.WorkerTracker, rww.NewWidgetStateWorker
	case 5:
		x := &tf.TagFilterer{}
		work, tr, line = x.Worker(), &x.WorkerTracker, tfw.NewWidgetStateWorker
		counts = []string{", 1 kept, 2 dropped", ", 2 kept, 4 dropped"}
	}
	blob := hw.Raw(content())
	if v.Choose("compressed", 2) == 1 {
		blob = hw.Comp(content())
	}
	in, out := make(chan pbf.Block), make(chan pbf.Block)
	done := make(chan struct{})
	go func() {
		work(context.Background(), in, out)
		close(done)
	}()
	show := func(want string) {
		v.Idle()
		ws := tr.WorkerStates()
		v.Assert(len(ws) == 1, "the worker is listed")
		shows(line(ws[0]), 150, want, plain)
	}
	show("Worker: waiting for block")
	if v.Choose("header", 2) == 1 {
		in <- pbf.Block{Data: mmap.MMap(hw.Raw([]byte{0x22, 1, 'x'})), BlobType: "OSMHeader"}
		<-out
		show("Worker: waiting for block")
	}
	for i := 0; i < 2; i++ {
		at := uint64(v.Byte("small index"))
		if i == 0 {
			at = v.U64("index")
		} else if v.Choose("nodes only", 2) == 1 {
			nodes := hw.DenseZ([]uint64{20}, []uint64{2}, []uint64{2}, []uint64{0}, 1)
			blob = hw.Raw(hw.Block(hw.Strings(""), nil, hw.Group(2, nodes)))
			if counts[1] != "" {
				counts[1] = ", 1 kept, 3 dropped"
			}
		}
		in <- pbf.Block{Index: at, Data: mmap.MMap(blob), BlobType: "OSMData"}
		show(text("Worker: sending block %d", at) + counts[i])
		b := <-out
		v.Assert(b.Index == at, "the result is that of the block")
		show("Worker: waiting for block")
	}
	close(in)
	<-done
	v.Assert(len(tr.WorkerStates()) == 0, "a worker that has ended is not listed")
	v.Reach("ran")
}

// H_line_end: the figures at the end of the run of a whole file.
func H_line_end() {
	var file []byte
	n := 1 + v.Choose("blocks", 2)
	only := v.Choose("only", 2) // only nodes without tags
	for i := 0; i < n; i++ {
		file = append(file, hw.Frame("OSMData", hw.Raw(content()))...)
	}
	if only == 1 {
		nodes := hw.DenseZ([]uint64{20}, []uint64{2}, []uint64{2}, []uint64{0}, 1)
		file = append(file, hw.Frame("OSMData", hw.Raw(hw.Block(hw.Strings(""), nil, hw.Group(2, nodes))))...)
	}
	v.WriteFile("in.pbf", file)
	run := func(work pbf.WorkFunc, write pbf.WriteFunc) {
		pbf.ProcessFileAsync(context.Background(), "in.pbf", work, write, 1).Wait()
	}
	var w views.Widget
	want := "Writer: waiting for block"
	switch v.Choose("command", 6) {
	case 0:
		x := &dc.Decompressor{}
		run(x.Worker, x.Output("out"))
		w = dcw.NewWidgetStateWriter(x.WriterState())
	case 1:
		x := &ni.NodeIndexer{}
		run(x.Worker, x.Output("out"))
		s := x.WriterState().(*nis.Writer)
		v.Assert(s.CopyAmount() == s.CopyTotal() && s.CopyTotal() > 0, "all locations count as copied")
		w, want = niw.NewWidgetStateWriter(s), "Writer: finalizing index"
	case 2:
		x := &wi.WayIndexer{}
		run(x.Worker(3), x.Output("out", 3))
		s := x.WriterState().(*wis.Writer)
		v.Assert(s.CopyAmount() == s.CopyTotal() && s.CopyTotal() > 0, "all locations count as copied")
		w, want = wiw.NewWidgetStateWriter(s), "Writer: finalizing index"
	case 3:
		x := &ri.RelIndexerInitializer{}
		run(x.Worker(), x.Output("out"))
		w = riw.NewWidgetStateWriter(x.WriterState())
	case 4:
		x := &rw.NodeRewriter{}
		run(x.Worker(nodeIndex(), true), x.Writer("out"))
		w = rww.NewWidgetStateWriter(x.WriterState())
	case 5:
		x := &tf.TagFilterer{}
		run(x.Worker(), x.Writer("out"))
		w = tfw.NewWidgetStateWriter(x.WriterState())
		want += text(", dropped %d/%d blocks", only, n-1)
	}
	shows(w, 150, want, plain)
	v.Reach("ran")
}
