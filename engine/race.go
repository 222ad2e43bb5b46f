package engine

import (
	"fmt"
	"go/types"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Unsynchronised accesses to the same memory are found with vector clocks while schedules are
// explored.  The exploration treats what a goroutine does between two channel operations as one
// step, which is only right where there are none; so when some are found the search is repeated
// with the instructions that perform them as scheduling points of their own.

type vclock []uint32

func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) join(w vclock) {
	for len(*v) < len(w) {
		*v = append(*v, 0)
	}
	for i, n := range w {
		if n > (*v)[i] {
			(*v)[i] = n
		}
	}
}

type hbAccess struct {
	g      int
	clk    uint32
	site   ssa.Instruction
	atomic bool
}

type hbCell struct {
	w  hbAccess
	rs []hbAccess
}

// hbShadow is what is known about the accesses to an object.
type hbShadow struct {
	gen   int
	cells map[int]*hbCell
}

// hbState belongs to one path.
type hbState struct {
	gen   int
	gs    map[int]*vclock // by goroutine id
	objs  map[interface{}]*vclock
	msgs  map[*ChanObj][]vclock
	frees map[*ChanObj][]vclock
	sent  map[*ChanObj]int
	live  int
}

func newHB() *hbState {
	return &hbState{gs: map[int]*vclock{}, objs: map[interface{}]*vclock{}, msgs: map[*ChanObj][]vclock{}, frees: map[*ChanObj][]vclock{}, sent: map[*ChanObj]int{}}
}

func (h *hbState) of(g *Gor) *vclock {
	v := h.gs[g.id]
	if v == nil {
		v = &vclock{}
		h.gs[g.id] = v
		h.tick(g)
	}
	return v
}

func (h *hbState) tick(g *Gor) {
	v := h.gs[g.id]
	for len(*v) <= g.id {
		*v = append(*v, 0)
	}
	(*v)[g.id]++
}

func (h *hbState) copyOf(g *Gor) vclock { return append(vclock(nil), *h.of(g)...) }

// hbOn returns the tracker if what g does is to be tracked.
func (in *Interp) hbOn(g *Gor) *hbState {
	if in.hb == nil || in.ex == nil || in.initing > 0 || g == nil || g.sync || in.ex.opt.sched != schedAll {
		return nil
	}
	return in.hb
}

// release and acquire order what went before the one with what comes after the other.
func (in *Interp) hbRelease(g *Gor, k interface{}) {
	h := in.hbOn(g)
	if h == nil {
		return
	}
	v := h.objs[k]
	if v == nil {
		v = &vclock{}
		h.objs[k] = v
	}
	v.join(*h.of(g))
	h.tick(g)
}

func (in *Interp) hbAcquire(g *Gor, k interface{}) {
	if h := in.hbOn(g); h != nil {
		if v := h.objs[k]; v != nil {
			h.of(g).join(*v)
		}
	}
}

func (in *Interp) hbSpawn(g, ng *Gor) {
	if h := in.hbOn(g); h != nil {
		v := h.copyOf(g)
		h.of(ng).join(v)
		h.tick(g)
	}
}

func (in *Interp) hbSend(g *Gor, ch *ChanObj) {
	h := in.hbOn(g)
	if h == nil {
		return
	}
	if n := h.sent[ch] - ch.cap; n >= 0 && n < len(h.frees[ch]) {
		h.of(g).join(h.frees[ch][n])
	}
	h.sent[ch]++
	h.msgs[ch] = append(h.msgs[ch], h.copyOf(g))
	h.tick(g)
}

func (in *Interp) hbRecv(g *Gor, ch *ChanObj) {
	h := in.hbOn(g)
	if h == nil {
		return
	}
	if q := h.msgs[ch]; len(q) > 0 {
		h.of(g).join(q[0])
		h.msgs[ch] = q[1:]
	}
	h.frees[ch] = append(h.frees[ch], h.copyOf(g))
	h.tick(g)
}

func (in *Interp) hbRendezvous(a, b *Gor) {
	if h := in.hbOn(a); h != nil {
		v := h.copyOf(a)
		h.of(a).join(h.copyOf(b))
		h.of(b).join(v)
		h.tick(a)
		h.tick(b)
	}
}

// hbClear forgets all accesses: what follows is ordered after them.
func (in *Interp) hbClear() {
	if in.hb != nil {
		in.hbGen++
		in.hb.gen = in.hbGen
	}
}

// site is the instruction of the module's code that g is executing.
func (in *Interp) site(g *Gor) ssa.Instruction {
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i]
		if f.fi.module && f.pc > 0 && f.pc <= len(f.fi.blocks[f.blk]) {
			return f.fi.blocks[f.blk][f.pc-1].op
		}
	}
	return nil
}

// access records that the current goroutine reads or writes a cell.
func (in *Interp) access(sh **hbShadow, cell int, write bool, what func() string) {
	g := in.cur
	h := in.hbOn(g)
	if h == nil || g.proc == nil || g.proc.gors < 2 {
		return
	}
	if *sh == nil || (*sh).gen != h.gen {
		*sh = &hbShadow{gen: h.gen, cells: map[int]*hbCell{}}
	}
	c := (*sh).cells[cell]
	if c == nil {
		c = &hbCell{}
		(*sh).cells[cell] = c
	}
	v := h.of(g)
	me := hbAccess{g: g.id, clk: (*v)[g.id], atomic: in.atomic}
	if write && c.w.clk == me.clk && c.w.g == g.id && len(c.rs) == 0 && c.w.atomic == me.atomic {
		return // written in this step already
	}
	me.site = in.site(g)
	if me.site == nil {
		return
	}
	racing := func(o hbAccess) bool {
		return o.clk > 0 && o.g != g.id && o.clk > v.at(o.g) && !(o.atomic && me.atomic)
	}
	if racing(c.w) {
		in.ex.sh.noteRace(in, c.w.site, me.site, what)
	}
	if write {
		for _, r := range c.rs {
			if racing(r) {
				in.ex.sh.noteRace(in, r.site, me.site, what)
			}
		}
		c.rs = c.rs[:0]
		c.w = me
		return
	}
	for i := range c.rs {
		if c.rs[i].g == g.id && c.rs[i].site == me.site && c.rs[i].atomic == me.atomic {
			c.rs[i] = me
			return
		}
	}
	c.rs = append(c.rs, me)
}

func (in *Interp) accessObj(o *Obj, i int, write bool) {
	in.access(&o.shadow, i, write, func() string { return "memory" })
}

func (in *Interp) accessMap(m *MapObj, write bool) {
	if in.hb != nil && m != nil {
		in.access(&m.shadow, 0, write, func() string { return "map" })
	}
}

func (sh *Search) noteRace(in *Interp, a, b ssa.Instruction, what func() string) {
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if sh.Races == nil {
		sh.Races = map[ssa.Instruction]bool{}
	}
	if sh.RaceText == nil {
		sh.RaceText = map[string]bool{}
	}
	if sh.Races[a] && sh.Races[b] {
		return
	}
	sh.Races[a], sh.Races[b] = true, true
	if sh.raceAt.IsZero() && sh.newRaces() {
		sh.raceAt = time.Now()
	}
	s := []string{in.prog.sitePos(a), in.prog.sitePos(b)}
	sort.Strings(s)
	sh.RaceText[fmt.Sprintf("%s and %s (%s)", s[0], s[1], what())] = true
}

// sitePos is the position of an instruction, or of one near it.
func (p *Program) sitePos(i ssa.Instruction) string {
	f, l := p.siteLine(i)
	return fmt.Sprintf("%s:%d", shortFile(f), l)
}

func (p *Program) siteLine(i ssa.Instruction) (string, int) {
	pos := i.Pos()
	if !pos.IsValid() {
		for _, a := range i.Operands(nil) {
			if *a != nil && (*a).Pos().IsValid() {
				if _, ok := (*a).(*ssa.Global); ok {
					continue
				}
				if d, ok := (*a).(ssa.Instruction); ok && d.Parent() == i.Parent() && d.Pos().IsValid() {
					pos = d.Pos()
					break
				}
			}
		}
	}
	if !pos.IsValid() {
		// the nearest instruction of its block that has one
		is := i.Block().Instrs
		at := -1
		for k := range is {
			if is[k] == i {
				at = k
			}
		}
		for d := 1; d < len(is) && !pos.IsValid(); d++ {
			for _, k := range []int{at + d, at - d} {
				if k >= 0 && k < len(is) && is[k].Pos().IsValid() && !pos.IsValid() {
					pos = is[k].Pos()
				}
			}
		}
	}
	ps := p.fset.Position(pos)
	return ps.Filename, ps.Line
}

const memOccurrences = 6

// memPoint parks g before an instruction that races with another goroutine's.
func (in *Interp) memPoint(g *Gor, f *Frame, c *cin) bool {
	if g.memPass {
		g.memPass = false
		return false
	}
	if g.sync || in.initing > 0 || in.ex.opt.sched != schedAll || g.proc == nil || g.proc.gors < 2 {
		return false
	}
	if g.memSeen == nil {
		g.memSeen = map[ssa.Instruction]int{}
	}
	if g.memSeen[c.op]++; g.memSeen[c.op] > memOccurrences {
		return false
	}
	objs := []int{memAny}
	switch ins := c.op.(type) {
	case *ssa.UnOp:
		if p, ok := f.get(c.args[0]).(Ptr); ok && p.o != nil && !isAggregate(ins.Type()) {
			objs = []int{p.o.id<<12 + p.i}
		}
	case *ssa.Store:
		if p, ok := f.get(c.args[0]).(Ptr); ok && p.o != nil && !isAggregate(ins.Val.Type()) {
			objs = []int{p.o.id<<12 + p.i}
		}
	}
	g.op = &pendOp{enabled: func() bool { return true }, fire: func() { g.memPass = true }, objs: objs, desc: "mem"}
	return true
}

const memAny = -2

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}
