package main

import (
	"context"

	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/ui/widget"
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

func file(n int) (size uint64, starts []uint64) {
	var all []byte
	for i := 0; i < n; i++ {
		blob := v.Bytes("data", 3*i+1)
		all = append(all, hw.Frame("OSMData", blob)...)
		starts = append(starts, uint64(len(all)-len(blob)))
	}
	v.WriteFile("in.pbf", all)
	return uint64(len(all)), starts
}

// H_progress: what an observer sees while blocks are processed, at any moment.
func H_progress() {
	v.SchedAll()
	v.VisibleAtomics()
	n := v.Choose("blocks", v.Param("blocks", 2))
	if n == 0 {
		n = v.Param("blocks", 2)
	}
	size, starts := file(n)
	var pfs *pbf.ProcessFileState
	ready := make(chan struct{})
	work := func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		<-ready
		for b := range in {
			at := pfs.At()
			v.Assert(at >= starts[b.Index] && at <= size, "a block that is worked on counts as reached")
			v.Assert(pfs.Max() == size, "the whole is the size of the file")
			v.Assert(pfs.At() >= at, "progress does not go back")
			v.Assert(pfs.CurrentState() != pbf.ProcessFileStateInitializing, "the state is that of a run")
		}
	}
	pfs = pbf.ProcessFileAsync(context.Background(), "in.pbf", work, nil, 1+v.Choose("workers", v.Param("workers", 1)))
	v.Assert(pfs.Filename() == "in.pbf", "the file is the one processed")
	close(ready)
	a := pfs.At()
	b := pfs.At()
	v.Assert(a <= b && b <= size, "progress does not go back")
	pfs.Wait()
	v.Assert(pfs.At() == size && pfs.Max() == size, "all of the file counts as processed")
	v.Assert(pfs.CurrentState() == pbf.ProcessFileStateShuttingDown, "the end of a run is a state")
	v.Reach("done")
}

// H_line_file: the lines of a file while its n-th block is waiting for the worker.
func H_line_file() {
	n := 3
	size, starts := file(n)
	k := uint64(v.Choose("block", n))
	pass := v.Choose("pass", 3)
	count := pass + 1 + v.Choose("more", 2)
	wide := width()
	state := v.Choose("state", 4)
	var pfs *pbf.ProcessFileState
	ready := make(chan struct{})
	work := func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		<-ready
		for b := range in {
			if b.Index != k {
				continue
			}
			v.Idle()
			at := pfs.At()
			v.Assert(at >= starts[k] && at <= size, "a block that is worked on counts as reached")
			if k+1 < uint64(n) {
				v.Assert(pfs.CurrentState() == pbf.ProcessFileStateSendingBlock, "a block that waits is being sent")
			}
			frac := float64(at) / float64(size)
			pfs.SetState(uint64(state))
			part := plain
			want := "[What] Processing PBF in.pbf: "
			switch state {
			case pbf.ProcessFileStateInitializing:
				want += "initializing"
			case pbf.ProcessFileStateShuttingDown:
				want += "shutting down"
			default:
				what := "loading"
				if state == pbf.ProcessFileStateSendingBlock {
					what = "sending"
				}
				want += text("%s block %d/%d %2.01f%%", what, at, size, 100*frac)
				part = frac
			}
			shows(widget.NewProcessFileStateWidget("What", pfs), wide, want, part)
			shows(widget.NewPassProgress(uint64(pass), uint64(count), pfs), wide, text("Pass %d/%d", pass+1, count),
				float64(pass)/float64(count)+frac/float64(count))
			v.Reach("shown")
		}
	}
	pfs = pbf.ProcessFileAsync(context.Background(), "in.pbf", work, nil, 1)
	close(ready)
	pfs.Wait()
	v.Reach("done")
}

// H_line_unread: the lines of a file whose size is not known yet.
func H_line_unread() {
	pfs := &pbf.ProcessFileState{}
	pfs.SetState(pbf.ProcessFileStateLoadingBlock)
	wide := width()
	pass := v.Choose("pass", 3)
	frac := float64(pfs.At()) / float64(pfs.Max())
	shows(widget.NewProcessFileStateWidget("What", pfs), wide, text("[What] Processing PBF : loading block 0/0 %2.01f%%", frac), frac)
	shows(widget.NewPassProgress(uint64(pass), 3, pfs), wide, text("Pass %d/3", pass+1), float64(pass)/3)
}
