package main

import (
	"sync"

	"github.com/squizzling/osmindex/internal/tracker"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

type worker struct{ n int }

func eqList(a []interface{}, b []*worker) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// H_tracker: every history of registrations and removals by one goroutine.
func H_tracker() {
	wt := &tracker.WorkerTracker{}
	var live []*worker
	type snap struct {
		got  []interface{}
		want []*worker
	}
	var snaps []snap
	steps := v.Param("steps", 6)
	for i := 0; i < steps; i++ {
		ver := wt.Version()
		op := v.Choose("op", 2)
		if op == 0 {
			w := &worker{i}
			wt.TrackWorker(w)
			live = append(live[:len(live):len(live)], w)
		} else {
			v.Assume(len(live) > 0)
			j := v.Choose("which", len(live))
			wt.UntrackWorker(live[j])
			live = append(append([]*worker{}, live[:j]...), live[j+1:]...)
		}
		v.Assert(wt.Version() != ver, "the version changes with the list")
		snaps = append(snaps, snap{wt.WorkerStates(), live})
		for _, s := range snaps {
			v.Assert(eqList(s.got, s.want), "the list, when handed out and ever after")
		}
	}
	v.Reach("done")
}

// H_tracker_concurrent: two goroutines register and unregister while a third reads.
func H_tracker_concurrent() {
	v.SchedAll()
	v.VisibleAtomics()
	wt := &tracker.WorkerTracker{}
	base := &worker{0}
	wt.TrackWorker(base)
	v0 := wt.Version()
	a1, a2, b1 := &worker{1}, &worker{2}, &worker{3}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		wt.TrackWorker(a1)
		wt.TrackWorker(a2)
		wt.UntrackWorker(a1)
	}()
	keep := v.Choose("keep", 2) == 1
	go func() {
		defer wg.Done()
		wt.TrackWorker(b1)
		if !keep {
			wt.UntrackWorker(b1)
		}
	}()
	s := wt.WorkerStates()
	at := map[interface{}]int{}
	for i, w := range s {
		_, dup := at[w]
		v.Assert(!dup && (w == base || w == a1 || w == a2 || w == b1), "a list read meanwhile holds only registered workers, once each")
		at[w] = i
	}
	v.Assert(len(s) > 0 && s[0] == base, "an untouched worker stays in its place")
	if i, ok := at[a1]; ok {
		if j, ok := at[a2]; ok {
			v.Assert(i < j, "in order of registration")
		}
	}
	was := append([]interface{}{}, s...)
	wg.Wait()
	for i := range was {
		v.Assert(s[i] == was[i], "a list handed out never changes")
	}
	f := wt.WorkerStates()
	if keep {
		v.Assert(len(f) == 3 && f[0] == base && (f[1] == a2 && f[2] == b1 || f[1] == b1 && f[2] == a2), "exactly the tracked workers")
	} else {
		v.Assert(len(f) == 2 && f[0] == base && f[1] == a2, "exactly the tracked workers")
	}
	v.Assert(wt.Version() != v0, "the version changed")
	v.Reach("done")
}

// H_tracker_version: concurrent changes never leave the version where it was.
func H_tracker_version() {
	v.SchedAll()
	v.VisibleAtomics()
	wt := &tracker.WorkerTracker{}
	v0 := wt.Version()
	var wg sync.WaitGroup
	n := v.Param("gor", 2)
	var vers [4]uint64
	for g := 0; g < n; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &worker{g}
			before := wt.Version()
			wt.TrackWorker(w)
			after := wt.Version()
			vers[g] = after - before
		}()
	}
	wg.Wait()
	for g := 0; g < n; g++ {
		v.Assert(vers[g] != 0, "the version changes with every change")
	}
	v.Assert(wt.Version() != v0, "the version changed")
	v.Assert(len(wt.WorkerStates()) == n, "every worker")
	v.Reach("done")
}

// H_tracker_watch: who reads the version, then the list, and takes the list again only when the
// version is another one, ends up with the list as it is.
func H_tracker_watch() {
	v.SchedAll()
	v.VisibleAtomics()
	wt := &tracker.WorkerTracker{}
	a, b := &worker{0}, &worker{1}
	wt.TrackWorker(a)
	remove := v.Choose("op", 2) == 1
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		if remove {
			wt.UntrackWorker(a)
		} else {
			wt.TrackWorker(b)
		}
	}()
	ver := wt.Version()
	list := wt.WorkerStates()
	wg.Wait()
	if wt.Version() != ver {
		list = wt.WorkerStates()
	}
	if remove {
		v.Assert(len(list) == 0, "a list is current as long as the version stays")
	} else {
		v.Assert(len(list) == 2 && list[0] == a && list[1] == b, "a list is current as long as the version stays")
	}
	v.Reach("done")
}
