package engine

import "math"

func (x *Ctx) foldF(op Op, w uint8, args ...*Term) *Term {
	for _, a := range args {
		if a.op != OConst {
			return x.mk(op, w, 0, args...)
		}
	}
	t := &Term{op: op, w: w, args: args}
	return x.Const(w, evalF(t, func(i int) uint64 { return args[i].c }))
}

func evalF(t *Term, arg func(int) uint64) uint64 {
	f := func(i int) float64 { return math.Float64frombits(arg(i)) }
	switch t.op {
	case OFAdd:
		return math.Float64bits(f(0) + f(1))
	case OFSub:
		return math.Float64bits(f(0) - f(1))
	case OFMul:
		return math.Float64bits(f(0) * f(1))
	case OFDiv:
		return math.Float64bits(f(0) / f(1))
	case OFNeg:
		return math.Float64bits(-f(0))
	case OFLt:
		return b2u(f(0) < f(1))
	case OFLe:
		return b2u(f(0) <= f(1))
	case OFEq:
		return b2u(f(0) == f(1))
	case OFIsNaN:
		return b2u(math.IsNaN(f(0)))
	case OFFromS:
		return math.Float64bits(float64(sext64(arg(0), t.args[0].w)))
	case OFFromU:
		return math.Float64bits(float64(arg(0)))
	case OFRound32:
		return math.Float64bits(float64(float32(f(0))))
	case OFToS:
		return uint64(int64(f(0))) & mask(t.w)
	}
	panic("evalF")
}
