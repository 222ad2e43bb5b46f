package main

import (
	"sync"

	"github.com/squizzling/osmindex/internal/pool"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

type held struct {
	bb  pool.BorrowedBuffer
	sz  int
	tag byte
}

func fill(b []byte, tag byte) {
	for i := range b {
		b[i] = tag
	}
}

func is(b []byte, tag byte) bool {
	for i := range b {
		if b[i] != tag {
			return false
		}
	}
	return true
}

// H_pool: any sequence of gets, puts and wraps; the pool may hand out any buffer it holds, or a
// new one.
func H_pool() {
	v.PoolChoice()
	p := pool.NewByteSlicePool(uint64(v.Choose("default", 2) * 3))
	var hs []held
	wrapped := make([]byte, 5)
	fill(wrapped, 200)
	steps := v.Param("steps", 4)
	for i := 0; i < steps; i++ {
		tag := byte(i + 1)
		switch op := v.Choose("op", 3); {
		case op == 0: // borrow
			sz := []int{0, 2, 4}[v.Choose("size", 3)]
			bb := p.Get(uint64(sz))
			v.Assert(len(bb.Buffer) == sz, "exactly the requested length")
			fill(bb.Buffer, tag)
			hs = append(hs, held{bb, sz, tag})
		case op == 1 && len(hs) > 0: // give one back
			j := v.Choose("which", len(hs))
			p.Put(hs[j].bb)
			hs = append(hs[:j:j], hs[j+1:]...)
		case op == 2: // give back what was only wrapped
			w := pool.NonBorrowedBuffer(wrapped[1:4])
			v.Assert(len(w.Buffer) == 3 && is(w.Buffer, 200), "the wrapped bytes")
			p.Put(w)
		default:
			v.Assume(false)
		}
		for _, h := range hs {
			v.Assert(len(h.bb.Buffer) == h.sz && is(h.bb.Buffer, h.tag), "held buffers do not overlap")
		}
		v.Assert(is(wrapped, 200), "a wrapped buffer is never handed out")
	}
	v.Reach("done")
}

// H_pool_size: any requested and default sizes.
func H_pool_size() {
	v.PoolChoice()
	max := v.Param("max", 9)
	d, a, b, c := v.Int("def", 0, max), v.Int("a", 0, max), v.Int("b", 0, max), v.Int("c", 0, max)
	p := pool.NewByteSlicePool(uint64(d))
	x := p.Get(uint64(a))
	v.Assert(len(x.Buffer) == a, "exactly the requested length")
	p.Put(x)
	y := p.Get(uint64(b))
	v.Assert(len(y.Buffer) == b, "exactly the requested length")
	z := p.Get(uint64(c))
	v.Assert(len(z.Buffer) == c, "exactly the requested length")
	fill(y.Buffer, 7)
	fill(z.Buffer, 9)
	v.Assert(is(y.Buffer, 7), "no overlap")
	v.Reach("done")
}

// H_pool_concurrent: two goroutines use one pool.
func H_pool_concurrent() {
	v.SchedAll()
	v.VisibleAtomics()
	v.PoolChoice()
	p := pool.NewByteSlicePool(1)
	sizes := [2]int{[]int{2, 4}[v.Choose("s0", 2)], []int{1, 3}[v.Choose("s1", 2)]}
	again := [2]int{3, 4}
	var wg sync.WaitGroup
	var last [2]pool.BorrowedBuffer
	bad := false
	for g := 0; g < 2; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := p.Get(uint64(sizes[g]))
			if len(x.Buffer) != sizes[g] {
				bad = true
			}
			fill(x.Buffer, byte(10+g))
			p.Put(x)
			last[g] = p.Get(uint64(again[g]))
			if len(last[g].Buffer) != again[g] {
				bad = true
			}
			fill(last[g].Buffer, byte(20+g))
		}()
	}
	wg.Wait()
	v.Assert(!bad, "exactly the requested length")
	v.Assert(is(last[0].Buffer, 20) && is(last[1].Buffer, 21), "held buffers do not overlap")
	v.Reach("done")
}
