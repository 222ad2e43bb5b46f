package main

import (
	"sync"

	"github.com/gdamore/tcell"
	"github.com/gdamore/tcell/views"

	"github.com/squizzling/osmindex/internal/tracker"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// shown is the widget of a worker.
type shown struct {
	of interface{}
	views.WidgetWatchers
}

func (s *shown) Draw()                        {}
func (s *shown) Resize()                      {}
func (s *shown) HandleEvent(tcell.Event) bool { return false }
func (s *shown) SetView(views.View)           {}
func (s *shown) Size() (int, int)             { return 1, 1 }

type provider struct{ *tracker.WorkerTracker }

func (provider) WriterState() interface{} { return nil }

func newShown(s interface{}) views.Widget { return &shown{of: s} }

// shows says whether the widgets are those of these workers, in this order.
func shows(w *tracker.WidgetWorkers, want []*worker) bool {
	got := w.WorkerBox.Widgets()
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i].(*shown).of != want[i] {
			return false
		}
	}
	return true
}

// H_widgets: the widgets after every history of registrations, removals and refreshes.
func H_widgets() {
	wt := &tracker.WorkerTracker{}
	w := tracker.NewWidgetWorkers(provider{wt}, newShown)
	var live []*worker
	for i := 0; i < v.Param("steps", 7); i++ {
		switch v.Choose("op", 3) {
		case 0:
			x := &worker{i}
			wt.TrackWorker(x)
			live = append(live, x)
			continue
		case 1:
			v.Assume(len(live) > 0)
			j := v.Choose("which", len(live))
			wt.UntrackWorker(live[j])
			live = append(append([]*worker{}, live[:j]...), live[j+1:]...)
			continue
		}
		w.RefreshStates()
		v.Assert(shows(w, live), "after a refresh, the workers registered are shown, in order")
	}
	v.Reach("done")
}

// H_widgets_concurrent: refreshes while workers come and go; the refresh after the last change
// shows what is there.
func H_widgets_concurrent() {
	v.SchedAll()
	v.VisibleAtomics()
	wt := &tracker.WorkerTracker{}
	a, b, c := &worker{1}, &worker{2}, &worker{3}
	wt.TrackWorker(a)
	w := tracker.NewWidgetWorkers(provider{wt}, newShown)
	w.RefreshStates()
	v.Assert(shows(w, []*worker{a}), "the workers registered are shown")
	var wg sync.WaitGroup
	wg.Add(1)
	other := v.Choose("other", 2) == 1
	go func() {
		defer wg.Done()
		wt.TrackWorker(b)
		wt.UntrackWorker(a)
		if other {
			wt.TrackWorker(c)
		}
	}()
	w.RefreshStates()
	w.RefreshStates()
	wg.Wait()
	w.RefreshStates()
	if other {
		v.Assert(shows(w, []*worker{b, c}), "the workers registered are shown")
	} else {
		v.Assert(shows(w, []*worker{b}), "the workers registered are shown")
	}
	v.Reach("done")
}
