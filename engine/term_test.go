package engine

import (
	"math/rand"
	"testing"
)

// TestTerms builds random expressions and compares what the simplifying constructors make of them
// to their values, operation by operation, under random assignments.
func TestTerms(t *testing.T) {
	for seed := int64(0); seed < 60000; seed++ {
		oneTerm(t, seed)
		if t.Failed() {
			return
		}
	}
}

func oneTerm(t *testing.T, seed int64) {
	r := rand.New(rand.NewSource(seed))
	x := NewCtx()
	const N = 6
	models := make([]map[string]uint64, N)
	pick := func() uint64 {
		switch r.Intn(5) {
		case 0:
			return 0
		case 1:
			return uint64(r.Intn(4))
		case 2:
			return ^uint64(r.Intn(4))
		case 3:
			return 1 << uint(r.Intn(64))
		}
		return r.Uint64()
	}
	widths := []uint8{8, 16, 32, 64, 64, 64}
	type tv struct {
		t *Term
		v [N]uint64
	}
	for i := range models {
		models[i] = map[string]uint64{}
	}
	var pool []tv
	var bools []tv
	konst := func(w uint8) tv {
		c := pick()
		if r.Intn(3) == 0 {
			c = []uint64{1, 2, 3, 7, 8, 100, 127, 128, 255, 1000}[r.Intn(10)]
		}
		c &= mask(w)
		e := tv{t: x.Const(w, c)}
		for i := range e.v {
			e.v[i] = c
		}
		return e
	}
	for i := 0; i < 3; i++ {
		w := widths[r.Intn(len(widths))]
		name := string(rune('a' + i))
		e := tv{t: x.Var(w, name)}
		for k := range models {
			models[k][name] = pick() & mask(w)
			e.v[k] = models[k][name]
		}
		pool = append(pool, e)
	}
	get := func(w uint8) tv {
		if r.Intn(3) == 0 {
			return konst(w)
		}
		e := pool[r.Intn(len(pool))]
		if r.Intn(2) == 0 {
			e = pool[len(pool)-1]
		}
		if e.t.w == w {
			return e
		}
		signed := r.Intn(2) == 0
		f := tv{t: x.Resize(e.t, w, signed)}
		for i := range f.v {
			f.v[i] = e.v[i]
			if signed {
				f.v[i] = uint64(sext64(e.v[i], e.t.w))
			}
			f.v[i] &= mask(w)
		}
		return f
	}
	check := func(e tv, what string) {
		for i := range models {
			if got := NewModel(models[i]).Eval(e.t); got != e.v[i] {
				t.Fatalf("seed %d: %s: %v under %v is %#x, not %#x", seed, what, e.t, models[i], got, e.v[i])
			}
		}
	}
	for n := 0; n < 14; n++ {
		w := widths[r.Intn(len(widths))]
		a, b := get(w), get(w)
		var e tv
		var op Op
		what := ""
		switch k := r.Intn(22); k {
		case 0:
			op, e.t = OAdd, x.Add(a.t, b.t)
		case 1:
			op, e.t = OSub, x.Sub(a.t, b.t)
		case 2:
			op, e.t = OMul, x.Mul(a.t, b.t)
		case 3:
			op, e.t = OBVAnd, x.BVAnd(a.t, b.t)
		case 4:
			op, e.t = OBVOr, x.BVOr(a.t, b.t)
		case 5:
			op, e.t = OBVXor, x.BVXor(a.t, b.t)
		case 6, 7, 8:
			if r.Intn(3) > 0 {
				c := uint64(r.Intn(int(w) + 2))
				b = tv{t: x.Const(w, c)}
				for i := range b.v {
					b.v[i] = c
				}
			}
			switch k {
			case 6:
				op, e.t = OShl, x.Shl(a.t, b.t)
			case 7:
				op, e.t = OLshr, x.Lshr(a.t, b.t)
			case 8:
				op, e.t = OAshr, x.Ashr(a.t, b.t)
			}
		case 9:
			op, e.t = OUDiv, x.UDiv(a.t, b.t)
		case 10:
			op, e.t = OSDiv, x.SDiv(a.t, b.t)
		case 11:
			op, e.t = OURem, x.URem(a.t, b.t)
		case 12:
			op, e.t = OSRem, x.SRem(a.t, b.t)
		case 13, 14, 15:
			var c tv
			switch r.Intn(5) {
			case 0:
				op, c.t = OEq, x.Eq(a.t, b.t)
			case 1:
				op, c.t = OUlt, x.Ult(a.t, b.t)
			case 2:
				op, c.t = OSlt, x.Slt(a.t, b.t)
			case 3:
				op, c.t = OUle, x.Ule(a.t, b.t)
			case 4:
				op, c.t = OSle, x.Sle(a.t, b.t)
			}
			for i := range c.v {
				c.v[i] = evalBin(op, a.v[i], b.v[i], w) & 1
			}
			check(c, opNames[op])
			if len(bools) > 0 && r.Intn(2) == 0 {
				d := bools[r.Intn(len(bools))]
				o := tv{}
				switch r.Intn(3) {
				case 0:
					o.t = x.And(c.t, d.t)
					for i := range o.v {
						o.v[i] = c.v[i] & d.v[i]
					}
				case 1:
					o.t = x.Or(c.t, d.t)
					for i := range o.v {
						o.v[i] = c.v[i] | d.v[i]
					}
				case 2:
					o.t = x.Not(d.t)
					for i := range o.v {
						o.v[i] = 1 - d.v[i]
					}
				}
				check(o, "bool")
				bools = append(bools, o)
			}
			bools = append(bools, c)
			continue
		case 16:
			if len(bools) == 0 {
				continue
			}
			c := bools[r.Intn(len(bools))]
			e.t = x.Ite(c.t, a.t, b.t)
			for i := range e.v {
				e.v[i] = b.v[i]
				if c.v[i] == 1 {
					e.v[i] = a.v[i]
				}
			}
			what = "ite"
		case 17:
			e.t = x.BVNot(a.t)
			for i := range e.v {
				e.v[i] = ^a.v[i] & mask(w)
			}
			what = "not"
		case 18:
			lo := r.Intn(int(w))
			hi := lo + r.Intn(int(w)-lo)
			e.t = x.Extract(a.t, uint8(hi), uint8(lo))
			for i := range e.v {
				e.v[i] = a.v[i] >> uint(lo) & mask(uint8(hi-lo+1))
			}
			check(e, "extract")
			nw := e.t.w
			f := tv{}
			if r.Intn(2) == 0 {
				f.t = x.Zext(e.t, w)
				f.v = e.v
			} else {
				f.t = x.Sext(e.t, w)
				for i := range f.v {
					f.v[i] = uint64(sext64(e.v[i], nw)) & mask(w)
				}
			}
			e, what = f, "extend"
		case 19:
			if w > 32 {
				continue
			}
			e.t = x.Concat(a.t, b.t)
			for i := range e.v {
				e.v[i] = a.v[i]<<w | b.v[i]
			}
			what = "concat"
		case 20: // undo zigzag coding
			one := x.Const(w, 1)
			e.t = x.BVXor(x.Lshr(a.t, one), x.Sub(x.Const(w, 0), x.BVAnd(a.t, one)))
			for i := range e.v {
				e.v[i] = (a.v[i]>>1 ^ -(a.v[i] & 1)) & mask(w)
			}
			what = "unzig"
		case 21: // zigzag coding
			e.t = x.BVXor(x.Shl(a.t, x.Const(w, 1)), x.Ashr(a.t, x.Const(w, uint64(w)-1)))
			for i := range e.v {
				s := sext64(a.v[i], w)
				e.v[i] = uint64(s<<1^s>>63) & mask(w)
			}
			what = "zig"
		}
		if what == "" {
			what = opNames[op]
			for i := range e.v {
				e.v[i] = evalBin(op, a.v[i], b.v[i], w) & mask(w)
			}
		}
		check(e, what)
		pool = append(pool, e)
	}
	// known bits and ranges hold
	for _, e := range pool {
		for i := range e.v {
			if e.v[i]&e.t.ko != e.t.ko || e.v[i]&e.t.kz != 0 {
				t.Fatalf("seed %d: known bits of %v", seed, e.t)
			}
			if s := sext64(e.v[i], e.t.w); e.t.w > 0 && e.t.w <= 64 && (s < e.t.smin || s > e.t.smax) {
				t.Fatalf("seed %d: %v = %d outside [%d,%d]", seed, e.t, s, e.t.smin, e.t.smax)
			}
			if e.v[i] < e.t.umin || e.v[i] > e.t.umax {
				t.Fatalf("seed %d: range of %v", seed, e.t)
			}
			lo, hi := srange(e.t)
			if s := sext64(e.v[i], e.t.w); s < lo || s > hi {
				t.Fatalf("seed %d: signed range of %v: %d not in %d..%d", seed, e.t, s, lo, hi)
			}
		}
	}
}
