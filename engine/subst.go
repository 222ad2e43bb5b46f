package engine

// Equalities with constants that the path condition implies are propagated into later
// conditions, so that a value which has been decided once is not asked for again.

type substState struct {
	val  map[*Term]*Term     // term -> constant
	bits map[*Term][2]uint64 // variable -> known mask, value
	vids map[int32]bool
	memo map[*Term]*Term
}

func newSubst() *substState {
	return &substState{val: map[*Term]*Term{}, bits: map[*Term][2]uint64{}, vids: map[int32]bool{}, memo: map[*Term]*Term{}}
}

// record notes t == c.
func (ex *Explorer) record(t, c *Term) {
	if t.IsConst() || t.w == WFloat {
		return
	}
	x := ex.x
	s := ex.subst
	switch t.op {
	case OAdd:
		if t.args[1].IsConst() {
			ex.record(t.args[0], x.Const(t.w, c.c-t.args[1].c))
			return
		}
		if t.args[0].IsConst() {
			ex.record(t.args[1], x.Const(t.w, c.c-t.args[0].c))
			return
		}
	case OConcat:
		sh := t.w
		for _, a := range t.args {
			sh -= a.w
			ex.record(a, x.Const(a.w, c.c>>sh))
		}
		return
	case OSext:
		ex.record(t.args[0], x.Const(t.args[0].w, c.c))
		return
	case OVar:
		ex.knowBits(t, mask(t.w), c.c)
	case OExtract:
		if v := t.args[0]; v.op == OVar {
			ex.knowBits(v, mask(t.w)<<t.c, c.c<<t.c)
		}
	}
	s.val[t] = c
	for _, v := range t.vars {
		s.vids[v] = true
	}
	if len(s.memo) > 0 {
		s.memo = map[*Term]*Term{}
	}
}

func (ex *Explorer) knowBits(v *Term, m, val uint64) {
	b := ex.subst.bits[v]
	ex.subst.bits[v] = [2]uint64{b[0] | m, b[1]&^m | val&m}
}

// sub rewrites t with what is recorded.
func (ex *Explorer) sub(t *Term) *Term {
	s := ex.subst
	if len(s.val) == 0 || t.IsConst() {
		return t
	}
	hit := false
	for _, v := range t.vars {
		if s.vids[v] {
			hit = true
			break
		}
	}
	if !hit {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	r := ex.subst1(t)
	s.memo[t] = r
	return r
}

func (ex *Explorer) subst1(t *Term) *Term {
	s := ex.subst
	if c, ok := s.val[t]; ok {
		return c
	}
	x := ex.x
	if t.op == OVar {
		return t
	}
	if t.op == OExtract && t.args[0].op == OVar {
		if b, ok := s.bits[t.args[0]]; ok {
			m := mask(t.w) << t.c
			if b[0]&m == m {
				return x.Const(t.w, b[1]>>t.c)
			}
		}
		return t
	}
	a := make([]*Term, len(t.args))
	ch := false
	for i, y := range t.args {
		a[i] = ex.sub(y)
		ch = ch || a[i] != y
	}
	if !ch {
		return t
	}
	return x.rebuild(t, a)
}

// rebuild makes the term with t's operator over other arguments.
func (x *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case ONot:
		return x.Not(a[0])
	case OAnd:
		return x.And(a[0], a[1])
	case OOr:
		return x.Or(a[0], a[1])
	case OIte:
		return x.Ite(a[0], a[1], a[2])
	case OEq:
		return x.Eq(a[0], a[1])
	case OUlt:
		return x.Ult(a[0], a[1])
	case OUle:
		return x.Ule(a[0], a[1])
	case OSlt:
		return x.Slt(a[0], a[1])
	case OSle:
		return x.Sle(a[0], a[1])
	case OBVNot:
		return x.BVNot(a[0])
	case OBVAnd:
		return x.BVAnd(a[0], a[1])
	case OBVOr:
		return x.BVOr(a[0], a[1])
	case OBVXor:
		return x.BVXor(a[0], a[1])
	case OAdd:
		return x.Add(a[0], a[1])
	case OSub:
		return x.Sub(a[0], a[1])
	case OMul:
		return x.Mul(a[0], a[1])
	case OUDiv:
		return x.UDiv(a[0], a[1])
	case OSDiv:
		return x.SDiv(a[0], a[1])
	case OURem:
		return x.URem(a[0], a[1])
	case OSRem:
		return x.SRem(a[0], a[1])
	case OShl:
		return x.Shl(a[0], a[1])
	case OLshr:
		return x.Lshr(a[0], a[1])
	case OAshr:
		return x.Ashr(a[0], a[1])
	case OConcat:
		r := a[0]
		for _, y := range a[1:] {
			r = x.Concat(r, y)
		}
		return r
	case OExtract:
		return x.Extract(a[0], uint8(t.c)+t.w-1, uint8(t.c))
	case OSext:
		return x.Sext(a[0], t.w)
	}
	return x.F(t.op, t.w, a...)
}
