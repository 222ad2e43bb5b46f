package engine

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Path merging: a branch on a symbolic condition whose arms only compute values and join again is
// executed as one path, the joined values becoming if-then-else terms.

type mergeRegion struct {
	blocks []*ssa.BasicBlock // topological order, without the entry and the join
	join   *ssa.BasicBlock
}

const maxRegion = 24

func (in *Interp) mergeRegionOf(fi *fnInfo, b *ssa.BasicBlock) *mergeRegion {
	if r, ok := fi.merge[b.Index]; ok {
		return r
	}
	if fi.merge == nil {
		fi.merge = map[int]*mergeRegion{}
	}
	r := in.findRegion(fi, b)
	fi.merge[b.Index] = r
	return r
}

func (in *Interp) findRegion(fi *fnInfo, b *ssa.BasicBlock) *mergeRegion {
	if b.Succs[0] == b.Succs[1] {
		return nil
	}
	var cands []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{b: true}
	q := []*ssa.BasicBlock{b.Succs[0], b.Succs[1]}
	for len(q) > 0 && len(cands) < maxRegion {
		x := q[0]
		q = q[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		cands = append(cands, x)
		q = append(q, x.Succs...)
	}
	var best *mergeRegion
	for _, j := range cands {
		if len(j.Preds) < 2 {
			continue
		}
		if r := in.regionTo(fi, b, j); r != nil && (best == nil || len(r.blocks) < len(best.blocks)) {
			best = r
		}
	}
	return best
}

func (in *Interp) regionTo(fi *fnInfo, b, j *ssa.BasicBlock) *mergeRegion {
	state := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		if x == j {
			return true
		}
		if x == b {
			return false
		}
		switch state[x] {
		case 1:
			return false // a cycle
		case 2:
			return true
		}
		if len(state) >= maxRegion || !in.pureBlock(x) {
			return false
		}
		state[x] = 1
		for _, s := range x.Succs {
			if !visit(s) {
				return false
			}
		}
		state[x] = 2
		post = append(post, x)
		return true
	}
	for _, s := range b.Succs {
		if !visit(s) {
			return nil
		}
	}
	r := &mergeRegion{join: j}
	for i := len(post) - 1; i >= 0; i-- {
		r.blocks = append(r.blocks, post[i])
	}
	for _, x := range r.blocks {
		for _, p := range x.Preds {
			if p != b && state[p] == 0 {
				return nil
			}
		}
	}
	// the values joining must be integers or booleans
	for _, i := range j.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if !scalarType(ph.Type()) {
			same := true
			var v ssa.Value
			for k, p := range j.Preds {
				if p == b || state[p] == 2 {
					if v != nil && ph.Edges[k] != v {
						same = false
					}
					v = ph.Edges[k]
				}
			}
			if !same {
				return nil
			}
		}
	}
	return r
}

func scalarType(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&(types.IsInteger|types.IsBoolean) != 0 && bt.Kind() != types.UnsafePointer
}

func (in *Interp) pureBlock(b *ssa.BasicBlock) bool {
	if len(b.Succs) == 0 {
		return false
	}
	for _, i := range b.Instrs {
		switch i := i.(type) {
		case *ssa.BinOp:
			if !scalarType(i.X.Type()) || !scalarType(i.Y.Type()) {
				return false
			}
			switch i.Op {
			case token.QUO, token.REM:
				return false
			case token.SHL, token.SHR:
				if _, ok := i.Y.(*ssa.Const); !ok && i.Y.Type().Underlying().(*types.Basic).Info()&types.IsUnsigned == 0 {
					return false
				}
			}
		case *ssa.UnOp:
			switch i.Op {
			case token.MUL, token.SUB, token.XOR, token.NOT:
				if !scalarType(i.Type()) {
					return false
				}
			default:
				return false
			}
		case *ssa.Convert:
			if !scalarType(i.X.Type()) || !scalarType(i.Type()) {
				return false
			}
		case *ssa.ChangeType:
		case *ssa.Phi:
			if !scalarType(i.Type()) {
				return false
			}
		case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Jump, *ssa.If, *ssa.DebugRef:
		case *ssa.Call:
			bi, ok := i.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return false
			}
			if _, ok := i.Call.Args[0].Type().Underlying().(*types.Slice); !ok {
				return false
			}
		default:
			return false
		}
	}
	return true
}

type edge struct {
	pred int
	g    *Term
}

// tryMerge executes the region of the If that ends block b of frame f, if it can be merged.
func (in *Interp) tryMerge(f *Frame, b *ssa.BasicBlock, cond *Term) bool {
	if in.ex == nil || in.racy != nil {
		return false
	}
	if _, ok := in.ex.known[cond]; ok {
		return false
	}
	r := in.mergeRegionOf(f.fi, b)
	if r == nil {
		return false
	}
	x := in.x
	arr := map[int][]edge{}
	add := func(from, to *ssa.BasicBlock, g *Term) {
		if !g.IsFalse() {
			arr[to.Index] = append(arr[to.Index], edge{from.Index, g})
		}
	}
	add(b, b.Succs[0], cond)
	add(b, b.Succs[1], x.Not(cond))
	for _, blk := range r.blocks {
		es := arr[blk.Index]
		if len(es) == 0 {
			continue
		}
		g := x.False
		for _, e := range es {
			g = x.Or(g, e.g)
		}
		cs := f.fi.blocks[blk.Index]
		n := f.fi.nphi[blk.Index]
		if !in.mergePhis(f, blk, cs[:n], es) {
			return false
		}
		for k := n; k < len(cs); k++ {
			c := &cs[k]
			in.steps++
			switch ins := c.op.(type) {
			case *ssa.Jump:
				add(blk, blk.Succs[0], g)
			case *ssa.If:
				t, ok := f.get(c.args[0]).(*Term)
				if !ok {
					return false
				}
				add(blk, blk.Succs[0], x.And(g, t))
				add(blk, blk.Succs[1], x.And(g, x.Not(t)))
			default:
				if !in.pureExec(f, c, ins) {
					return false
				}
			}
		}
	}
	es := arr[r.join.Index]
	if len(es) == 0 {
		return false
	}
	cs := f.fi.blocks[r.join.Index]
	n := f.fi.nphi[r.join.Index]
	if !in.mergePhis(f, r.join, cs[:n], es) {
		return false
	}
	f.prev = es[0].pred
	f.blk = r.join.Index
	f.pc = n
	in.ex.merges++
	return true
}

func (in *Interp) mergePhis(f *Frame, b *ssa.BasicBlock, phis []cin, es []edge) bool {
	if len(phis) == 0 {
		return true
	}
	vals := make([]Value, len(phis))
	for k := range phis {
		var acc Value
		for i := len(es) - 1; i >= 0; i-- {
			idx := -1
			for j, p := range b.Preds {
				if p.Index == es[i].pred {
					idx = j
					break
				}
			}
			o := phis[k].args[idx]
			v := f.get(o)
			if acc == nil {
				acc = v
				continue
			}
			t1, ok1 := v.(*Term)
			t2, ok2 := acc.(*Term)
			if ok1 && ok2 {
				if t1.w == WFloat || t2.w == WFloat || t1.w != t2.w {
					return false
				}
				acc = in.x.Ite(es[i].g, t1, t2)
				continue
			}
			if ok1 || ok2 {
				return false
			}
			// statically the same value (checked when the region was found)
		}
		if acc == nil {
			return false
		}
		vals[k] = acc
	}
	for k := range phis {
		f.regs[phis[k].dst] = vals[k]
	}
	return true
}

// pureExec executes an instruction that has no effect other than its result, or reports false.
func (in *Interp) pureExec(f *Frame, c *cin, ins ssa.Instruction) bool {
	term := func(i int) (*Term, bool) {
		t, ok := f.get(c.args[i]).(*Term)
		return t, ok && t.w != WFloat
	}
	switch ins := ins.(type) {
	case *ssa.BinOp:
		a, ok1 := term(0)
		b, ok2 := term(1)
		if !ok1 || !ok2 {
			return false
		}
		f.regs[c.dst] = in.binop(ins.Op, a, b, ins.X.Type(), ins.Y.Type())
	case *ssa.UnOp:
		if ins.Op == token.MUL {
			p, ok := f.get(c.args[0]).(Ptr)
			if !ok || p.o == nil || p.o.base != nil || p.o.dead != "" || p.o.mp != nil || p.i < 0 || p.i >= p.o.n {
				return false
			}
			t, ok := p.o.raw(p.i).(*Term)
			if !ok {
				return false
			}
			f.regs[c.dst] = t
			return true
		}
		t, ok := term(0)
		if !ok {
			return false
		}
		switch ins.Op {
		case token.NOT:
			f.regs[c.dst] = in.x.Not(t)
		case token.SUB:
			f.regs[c.dst] = in.x.Neg(t)
		case token.XOR:
			f.regs[c.dst] = in.x.BVNot(t)
		default:
			return false
		}
	case *ssa.Convert:
		t, ok := term(0)
		if !ok {
			return false
		}
		f.regs[c.dst] = in.convert(t, ins.X.Type(), ins.Type())
	case *ssa.ChangeType:
		f.regs[c.dst] = f.get(c.args[0])
	case *ssa.IndexAddr:
		i, ok := term(1)
		if !ok || !i.IsConst() {
			return false
		}
		s, ok := f.get(c.args[0]).(Slice)
		k := sext64(i.c, i.w)
		if bt, ok := ins.Index.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
			k = int64(i.c)
		}
		if !ok || k < 0 || k >= int64(s.len) {
			return false
		}
		f.regs[c.dst] = Ptr{s.o, s.off + int(k)*s.es}
	case *ssa.FieldAddr:
		p, ok := f.get(c.args[0]).(Ptr)
		if !ok || p.o == nil {
			return false
		}
		st := in.ti(ins.X.Type().Underlying().(*types.Pointer).Elem())
		f.regs[c.dst] = Ptr{p.o, p.i + st.fields[ins.Field]}
	case *ssa.Call:
		s, ok := f.get(c.args[1]).(Slice)
		if !ok {
			return false
		}
		f.regs[c.dst] = in.x.Const(64, uint64(s.len))
	case *ssa.DebugRef:
	default:
		return false
	}
	return true
}
