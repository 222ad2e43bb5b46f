// The status lines of workers, writers and the file being processed.
package main

import (
	"fmt"

	"github.com/gdamore/tcell"
	"github.com/gdamore/tcell/views"

	dcs "github.com/squizzling/osmindex/cmd/decompress/decompressor/state"
	dcw "github.com/squizzling/osmindex/cmd/decompress/decompressor/widget"
	nis "github.com/squizzling/osmindex/cmd/nodeindex/indexer/state"
	niw "github.com/squizzling/osmindex/cmd/nodeindex/indexer/widget"
	ris "github.com/squizzling/osmindex/cmd/relindex/relindexerinit/state"
	riw "github.com/squizzling/osmindex/cmd/relindex/relindexerinit/widget"
	rws "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter/state"
	rww "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter/widget"
	tfs "github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer/state"
	tfw "github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer/widget"
	wis "github.com/squizzling/osmindex/cmd/wayindex/wayindexer/state"
	wiw "github.com/squizzling/osmindex/cmd/wayindex/wayindexer/widget"
	"github.com/squizzling/osmindex/internal/ui"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// view is a screen of some width.
type view struct {
	w     int
	chars []rune
	high  []bool
}

func (s *view) SetContent(x int, y int, ch rune, comb []rune, style tcell.Style) {
	if x < 0 || x >= s.w || y != 0 {
		return
	}
	for len(s.chars) <= x {
		s.chars, s.high = append(s.chars, ' '), append(s.high, false)
	}
	s.chars[x], s.high[x] = ch, style == tcell.StyleDefault.Reverse(true)
	v.Assert(s.high[x] || style == tcell.StyleDefault, "a line is plain or highlighted")
}
func (s *view) Size() (int, int)                { return s.w, 1 }
func (*view) Resize(x, y, width, height int)    {}
func (s *view) Fill(ch rune, style tcell.Style) { s.chars, s.high = nil, nil }
func (s *view) Clear()                          { s.chars, s.high = nil, nil }

// shows says that a line given an update shows a text: as progress at a fraction if it has one, with
// that much of it highlighted.
func shows(w views.Widget, width int, want string, frac float64) {
	screen := &view{w: width}
	if width >= 0 {
		w.SetView(&view{w: 7}) // another size first
		w.SetView(screen)
	}
	w.HandleEvent(ui.NewEventUpdate())
	high := make([]bool, len(want))
	if frac != plain && width >= 0 {
		want, high = interpret(ui.MarkupAsProgress(want, width, frac))
	}
	screen.w = 200
	w.SetView(screen)
	w.Draw()
	n := len(screen.chars)
	for ; n > len(want) && screen.chars[n-1] == ' ' && !screen.high[n-1]; n-- {
	}
	v.Assert(n == len(want), "the line shows the state and its figures")
	for i := range want {
		v.Assert(screen.chars[i] == rune(want[i]), "the line shows the state and its figures")
		v.Assert(screen.high[i] == high[i], "the line is highlighted up to its progress")
	}
	v.Reach("done")
}

// interpret reads markup.
func interpret(m string) (string, []bool) {
	var text []byte
	var high []bool
	style := false
	for i := 0; i < len(m); i++ {
		if m[i] == '%' {
			i++
			if m[i] != '%' {
				style = m[i] == 'S'
				continue
			}
		}
		text, high = append(text, m[i]), append(high, style)
	}
	return string(text), high
}

// width is that of a screen, or negative if there is none yet.
func width() int { return v.Choose("width", 4)*23 - 1 }

const plain = -1000.0

func text(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }

type worker interface {
	SetCurrentState(uint64)
}

// H_line_worker: every state of every kind of worker, for any block.
func H_line_worker() {
	b := v.U64("block")
	s := uint64(v.Choose("state", 5))
	var w views.Widget
	var is worker
	names := []string{"", "decoding", "processing", "sending"}
	unit := "block"
	extra := ""
	switch v.Choose("command", 6) {
	case 0:
		x := &dcs.Worker{}
		x.SetDecodingBlob(b)
		v.Assert(x.CurrentState() == dcs.WorkerDecodingBlob, "a block to decode sets the state")
		w, is = dcw.NewWidgetStateWorker(x), x
		names = []string{"", "decoding", "decompressing", "encoding", "sending"}
		if s < 4 {
			unit = "blob"
		}
	case 1:
		x := &nis.Worker{}
		x.SetStateDecodeBlock(b)
		v.Assert(x.CurrentState() == nis.WorkerDecoding, "a block to decode sets the state")
		w, is = niw.NewWidgetStateWorker(x), x
	case 2:
		x := &wis.Worker{}
		x.SetStateDecodeBlock(b)
		v.Assert(x.CurrentState() == wis.WorkerDecoding, "a block to decode sets the state")
		w, is = wiw.NewWidgetStateWorker(x), x
	case 3:
		x := &ris.Worker{}
		x.SetStateDecodeBlock(b)
		v.Assert(x.CurrentState() == ris.WorkerDecoding, "a block to decode sets the state")
		w, is = riw.NewWidgetStateWorker(x), x
	case 4:
		x := &rws.Worker{}
		x.SetStateDecoding(b)
		v.Assert(x.CurrentState() == rws.WorkerDecoding, "a block to decode sets the state")
		v.Assume(s != rws.WorkerWorking)
		w, is = rww.NewWidgetStateWorker(x), x
		names[2] = "working on"
	case 5:
		x := &tfs.Worker{}
		x.SetStateDecoding(b)
		v.Assert(x.CurrentState() == tfs.WorkerDecoding, "a block to decode sets the state")
		k, d := v.U16("kept"), v.Byte("dropped")
		x.AddKept(uint64(k))
		x.AddDropped(uint64(d))
		x.AddKept(1)
		x.AddDropped(2)
		w, is = tfw.NewWidgetStateWorker(x), x
		extra = text(", %d kept, %d dropped", uint64(k)+1, uint64(d)+2)
		names = []string{"", "decoding", "processing", "encoding", "sending"}
	}
	v.Assume(s < uint64(len(names)))
	is.SetCurrentState(s)
	if s == 0 {
		shows(w, width(), "Worker: waiting for block", plain)
	} else {
		shows(w, width(), text("Worker: %s %s %d", names[s], unit, b)+extra, plain)
	}
}

// H_line_rewriting: a worker at any way of a block, or just given another one.
func H_line_rewriting() {
	b, n := v.U64("block"), []int{0, 1, 2, 3, 7, 1000}[v.Choose("ways", 6)]
	x := &rws.Worker{}
	if v.Choose("before", 2) == 1 {
		x.SetStateWorking(2)
		x.NextWay()
	}
	x.SetStateDecoding(b)
	x.SetStateWorking(n)
	at := v.Choose("at", 4)
	for i := 0; i < at; i++ {
		x.NextWay()
	}
	v.Assume(at <= n)
	want := text("Worker: working on block %d, way %d/%d", b, at, n)
	shows(rww.NewWidgetStateWorker(x), width(), want, float64(at)/float64(n))
}

// H_line_writer: every state of every kind of writer, for any block.
func H_line_writer() {
	b := v.U64("block")
	s := uint64(v.Choose("state", 5))
	switch v.Choose("command", 6) {
	case 0:
		x := &dcs.Writer{}
		x.SetWritingBlock(b)
		v.Assert(x.CurrentState() == dcs.WriterWritingData, "a block to write sets the state")
		writer(dcw.NewWidgetStateWriter(x), x, s, text("writing block %d", b))
	case 1:
		x := &nis.Writer{}
		x.SetStateWritingIndex(b)
		v.Assert(x.CurrentState() == nis.WriterWritingIndex, "a block to write sets the state")
		v.Assume(s != nis.WriterCopyingLocations)
		writer(niw.NewWidgetStateWriter(x), x, s, text("writing index block %d", b), "writing locations", "", "finalizing index")
	case 2:
		x := &wis.Writer{}
		x.SetStateWritingIndex(b)
		v.Assert(x.CurrentState() == wis.WriterWritingIndex, "a block to write sets the state")
		v.Assume(s != wis.WriterCopyingLocations)
		writer(wiw.NewWidgetStateWriter(x), x, s, text("writing index block %d", b), "writing locations", "", "finalizing index")
	case 3:
		x := &ris.Writer{}
		x.SetStateWriting(b)
		v.Assert(x.CurrentState() == ris.WriterWriting, "a block to write sets the state")
		writer(riw.NewWidgetStateWriter(x), x, s, text("writing index block %d", b))
	case 4:
		x := &rws.Writer{}
		x.SetStateWriting(b)
		v.Assert(x.CurrentState() == rws.WriterWriting, "a block to write sets the state")
		writer(rww.NewWidgetStateWriter(x), x, s, text("writing block %d", b))
	case 5:
		x := &tfs.Writer{}
		x.SetStateWriting(b)
		v.Assert(x.CurrentState() == tfs.WriterWriting, "a block to write sets the state")
		n := v.Choose("filler", 3)
		for i := 0; i < n; i++ {
			x.AddFiller()
		}
		v.Assume(s < 2)
		x.SetCurrentState(s)
		shows(tfw.NewWidgetStateWriter(x), width(), text("Writer: %s block, dropped %d/%d blocks", []string{"waiting for", "writing"}[s], n, b), plain)
	}
}

func writer(w views.Widget, is worker, s uint64, names ...string) {
	v.Assume(s <= uint64(len(names)))
	is.SetCurrentState(s)
	if s == 0 {
		shows(w, width(), "Writer: waiting for block", plain)
	} else {
		shows(w, width(), "Writer: "+names[s-1], plain)
	}
}

// H_line_copy: the copy of the locations, by any two amounts.
func H_line_copy() {
	total := []uint64{0, 8, 300, 1 << 40, 1<<64 - 16}[v.Choose("total", 5)]
	a := []uint64{0, 1, 100, 1 << 20}[v.Choose("a", 4)]
	b := []uint64{0, 7, 200, 1<<40 - 1<<20}[v.Choose("b", 4)]
	frac := float64(a+b) / float64(total)
	want := text("Writer: copying locations (%d/%d) %2.01f%%", a+b, total, 100*frac)
	wide := 23 * v.Choose("width", 3)
	if v.Choose("command", 2) == 0 {
		x := &nis.Writer{}
		x.SetStateCopyLocations(total)
		x.AdvanceCopy(a)
		x.AdvanceCopy(b)
		v.Assert(x.CurrentState() == nis.WriterCopyingLocations, "a copy sets the state")
		shows(niw.NewWidgetStateWriter(x), wide, want, frac)
	} else {
		v.Assume(total < 1<<63)
		x := &wis.Writer{}
		x.SetStateCopyLocations(int64(total))
		x.AdvanceCopy(a)
		x.AdvanceCopy(b)
		v.Assert(x.CurrentState() == wis.WriterCopyingLocations, "a copy sets the state")
		shows(wiw.NewWidgetStateWriter(x), wide, want, frac)
	}
}
