// Package vsync stands in for sync where a counterexample's schedule is followed.
package vsync

import (
	"sync"

	"github.com/squizzling/osmindex/internal/zzverif/vg"
)

type (
	Once   = sync.Once
	Map    = sync.Map
	Cond   = sync.Cond
	Locker = sync.Locker
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()         { vg.GateAt("lock"); m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock()         { vg.GateAt("lock"); m.m.Lock() }
func (m *RWMutex) Unlock()       { m.m.Unlock() }
func (m *RWMutex) RLock()        { vg.GateAt("lock"); m.m.RLock() }
func (m *RWMutex) RUnlock()      { m.m.RUnlock() }
func (m *RWMutex) TryLock() bool { return m.m.TryLock() }
func (m *RWMutex) RLocker() Locker {
	return m.m.RLocker()
}

type WaitGroup struct{ w sync.WaitGroup }

func (w *WaitGroup) Add(n int) { w.w.Add(n) }
func (w *WaitGroup) Done()     { w.w.Done() }
func (w *WaitGroup) Wait()     { vg.GateAt("wait"); w.w.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.w.Add(1)
	n := vg.Spawn()
	go func() {
		vg.Enter(n)
		defer vg.Leave()
		defer w.w.Done()
		f()
	}()
}

// Pool hands out what was put earlier or something new, as the schedule says; what it held may
// have been overwritten by other users meanwhile.
type Pool struct {
	New   func() interface{}
	mu    sync.Mutex
	items []interface{}
}

func (p *Pool) Get() interface{} {
	k := vg.PoolChoice()
	p.mu.Lock()
	n := len(p.items)
	if k >= 0 && k < n {
		i := n - 1 - k
		v := p.items[i]
		p.items = append(append([]interface{}(nil), p.items[:i]...), p.items[i+1:]...)
		p.mu.Unlock()
		return v
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	if b, ok := x.([]byte); ok {
		b = b[:cap(b)]
		for i := range b {
			if i >= 4096 {
				break
			}
			b[i] = vg.Scribble(i)
		}
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}
