// Package engine is a symbolic executor for Go programs in go/ssa form.
//
// term.go: hash-consed bit-vector terms with an eager simplifier.
package engine

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool
	OOr  // bool
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBVNot
	OBVAnd
	OBVOr
	OBVXor
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // c = lo
	OSext
	// Float64 terms (sort FP, w == WFloat)
	OFOfBits // fp from 64-bit pattern var (unused)
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFFromS // signed int -> fp
	OFFromU
	OFToS // fp -> signed int of width w (round toward zero)
	OFIsNaN
	OFNeg
	OFRound32 // to float32 and back
)

// WFloat is the width tag used for float64 terms.
const WFloat = 200

// Term is an immutable term. w is 0 for Bool, 1..64 for bit-vectors, WFloat for float64.
type Term struct {
	op         Op
	w          uint8
	c          uint64 // constant value / extract lo
	args       []*Term
	name       string
	id         uint32
	kz, ko     uint64 // known zero / known one bits
	umin, umax uint64
	smin, smax int64
	vars       []int32 // sorted variable ids
	vid        int32
}

type tkey struct {
	op         Op
	w          uint8
	c          uint64
	a0, a1, a2 uint32
}

// Ctx owns a term table.
type Ctx struct {
	tab    map[tkey]*Term
	ctab   map[string]*Term // concat
	consts map[tkey]*Term
	small  [4][1024]*Term
	nextID uint32
	vars   []*Term
	vtab   map[vkey]*Term
	True   *Term
	False  *Term
}

func NewCtx() *Ctx {
	x := &Ctx{tab: map[tkey]*Term{}, ctab: map[string]*Term{}, consts: map[tkey]*Term{}, vtab: map[vkey]*Term{}}
	x.True = x.Const(0, 1)
	x.False = x.Const(0, 0)
	return x
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func smallIdx(w uint8) int {
	switch w {
	case 8:
		return 0
	case 32:
		return 1
	case 64:
		return 2
	}
	return -1
}

// Const returns the constant v of width w (0: bool).
func (x *Ctx) Const(w uint8, v uint64) *Term {
	if w != WFloat {
		v &= mask(w)
	}
	si := smallIdx(w)
	if si >= 0 && v < 1024 {
		if t := x.small[si][v]; t != nil {
			return t
		}
	}
	k := tkey{op: OConst, w: w, c: v}
	if t, ok := x.consts[k]; ok {
		return t
	}
	x.nextID++
	t := &Term{op: OConst, w: w, c: v, id: x.nextID, ko: v, kz: ^v & mask(w), umin: v, umax: v}
	if w > 0 && w <= 64 {
		t.smin = sext64(v, w)
		t.smax = t.smin
	}
	x.consts[k] = t
	if si >= 0 && v < 1024 {
		x.small[si][v] = t
	}
	return t
}

func (x *Ctx) Bool(b bool) *Term {
	if b {
		return x.True
	}
	return x.False
}

// one name has one width on a path, but may have another on another path
type vkey struct {
	w    uint8
	name string
}

// Var returns the variable with the given name and width.
func (x *Ctx) Var(w uint8, name string) *Term {
	k := vkey{w, name}
	if t, ok := x.vtab[k]; ok {
		return t
	}
	x.nextID++
	t := &Term{op: OVar, w: w, name: name, id: x.nextID, vid: int32(len(x.vars))}
	t.umax = mask(w)
	if w > 0 && w <= 64 {
		t.signed()
	}
	t.vars = []int32{t.vid}
	x.vars = append(x.vars, t)
	x.vtab[k] = t
	return t
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t.op == OConst && t.w == 0 && t.c == 1 }
func (t *Term) IsFalse() bool { return t.op == OConst && t.w == 0 && t.c == 0 }
func (t *Term) W() uint8      { return t.w }

// SVal is the constant's value sign-extended.
func (t *Term) SVal() int64 { return sext64(t.c, t.w) }

func sext64(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func mergeVars(args []*Term) []int32 {
	var base []int32
	for _, a := range args {
		if len(a.vars) == 0 {
			continue
		}
		if base == nil {
			base = a.vars
			continue
		}
		if &base[0] == &a.vars[0] && len(base) == len(a.vars) {
			continue
		}
		// subset checks
		if subset(a.vars, base) {
			continue
		}
		if subset(base, a.vars) {
			base = a.vars
			continue
		}
		m := make([]int32, 0, len(base)+len(a.vars))
		i, j := 0, 0
		for i < len(base) && j < len(a.vars) {
			switch {
			case base[i] < a.vars[j]:
				m = append(m, base[i])
				i++
			case base[i] > a.vars[j]:
				m = append(m, a.vars[j])
				j++
			default:
				m = append(m, base[i])
				i++
				j++
			}
		}
		m = append(m, base[i:]...)
		m = append(m, a.vars[j:]...)
		base = m
	}
	return base
}

func subset(a, b []int32) bool {
	if len(a) > len(b) {
		return false
	}
	j := 0
	for _, v := range a {
		for j < len(b) && b[j] < v {
			j++
		}
		if j >= len(b) || b[j] != v {
			return false
		}
		j++
	}
	return true
}

func (x *Ctx) mk(op Op, w uint8, c uint64, args ...*Term) *Term {
	var t *Term
	var ck string
	k := tkey{op: op, w: w, c: c}
	if op == OConcat {
		var sb strings.Builder
		for _, a := range args {
			sb.WriteString(strconv.FormatUint(uint64(a.id), 36))
			sb.WriteByte(',')
		}
		ck = sb.String()
		if t = x.ctab[ck]; t != nil {
			return t
		}
	} else {
		if len(args) > 0 {
			k.a0 = args[0].id
		}
		if len(args) > 1 {
			k.a1 = args[1].id
		}
		if len(args) > 2 {
			k.a2 = args[2].id
		}
		if t = x.tab[k]; t != nil {
			return t
		}
	}
	x.nextID++
	t = &Term{op: op, w: w, c: c, args: append([]*Term(nil), args...), id: x.nextID}
	t.vars = mergeVars(args)
	x.analyse(t)
	if op == OConcat {
		x.ctab[ck] = t
	} else {
		x.tab[k] = t
	}
	return t
}

// analyse computes known bits and unsigned range.
func (x *Ctx) analyse(t *Term) {
	m := mask(t.w)
	t.umin, t.umax = 0, m
	if t.w == 0 || t.w == WFloat {
		return
	}
	a := t.args
	switch t.op {
	case OConcat:
		var kz, ko uint64
		for _, s := range a {
			kz = kz<<s.w | s.kz
			ko = ko<<s.w | s.ko
		}
		t.kz, t.ko = kz&m, ko&m
		if a[0].op == OConst && len(a) == 2 {
			t.umin = a[0].c<<a[1].w | a[1].umin
			t.umax = a[0].c<<a[1].w | a[1].umax
		}
	case OExtract:
		t.kz = (a[0].kz >> t.c) & m
		t.ko = (a[0].ko >> t.c) & m
		if t.c == 0 && a[0].umax <= m {
			t.umin, t.umax = a[0].umin, a[0].umax
		} else if t.c > 0 && uint8(t.c)+t.w == a[0].w {
			t.umin, t.umax = a[0].umin>>t.c, a[0].umax>>t.c
		}
	case OSext:
		s := a[0]
		hi := m &^ mask(s.w)
		t.kz, t.ko = s.kz, s.ko
		if s.kz>>(s.w-1)&1 == 1 {
			t.kz |= hi
			t.umin, t.umax = s.umin, s.umax
		} else if s.ko>>(s.w-1)&1 == 1 {
			t.ko |= hi
		}
	case OBVNot:
		t.kz, t.ko = a[0].ko, a[0].kz
	case OBVAnd:
		t.kz = a[0].kz | a[1].kz
		t.ko = a[0].ko & a[1].ko
		t.umax = min(a[0].umax, a[1].umax)
	case OBVOr:
		t.kz = a[0].kz & a[1].kz
		t.ko = a[0].ko | a[1].ko
		t.umin = max(a[0].umin, a[1].umin)
	case OBVXor:
		t.kz = (a[0].kz & a[1].kz) | (a[0].ko & a[1].ko)
		t.ko = (a[0].kz & a[1].ko) | (a[0].ko & a[1].kz)
	case OIte:
		t.kz = a[1].kz & a[2].kz
		t.ko = a[1].ko & a[2].ko
		t.umin = min(a[1].umin, a[2].umin)
		t.umax = max(a[1].umax, a[2].umax)
	case OAdd:
		lo, c1 := bits.Add64(a[0].umin, a[1].umin, 0)
		hi, c2 := bits.Add64(a[0].umax, a[1].umax, 0)
		if c1 == 0 && c2 == 0 && hi <= m {
			t.umin, t.umax = lo, hi
		} else if a[1].op == OConst {
			// x + c where c is "negative" and x always big enough: no underflow
			neg := (-a[1].c) & m
			if neg != 0 && a[0].umin >= neg {
				t.umin, t.umax = a[0].umin-neg, a[0].umax-neg
			}
		}
		tz := min(trailing(a[0].kz), trailing(a[1].kz))
		t.kz |= mask8(tz) & m
	case OSub:
		if a[0].umin >= a[1].umax {
			t.umin, t.umax = a[0].umin-a[1].umax, a[0].umax-a[1].umin
		}
	case OMul:
		hi, lo := bits.Mul64(a[0].umax, a[1].umax)
		if hi == 0 && lo <= m {
			t.umin, t.umax = a[0].umin*a[1].umin, lo
		}
		tz := trailing(a[0].kz) + trailing(a[1].kz)
		t.kz |= mask8(tz) & m
	case OUDiv:
		if a[1].op == OConst && a[1].c != 0 {
			t.umin, t.umax = a[0].umin/a[1].c, a[0].umax/a[1].c
		}
	case OURem:
		if a[1].op == OConst && a[1].c != 0 {
			t.umax = min(a[1].c-1, a[0].umax)
		}
	case OLshr:
		if a[1].op == OConst {
			t.umin, t.umax = a[0].umin>>a[1].c, a[0].umax>>a[1].c
		} else {
			t.umax = a[0].umax
		}
	}
	// exchange between range and known bits
	if t.umax < m {
		t.kz |= m &^ mask8(bits.Len64(t.umax))
	}
	t.umin = max(t.umin, t.ko)
	t.umax = min(t.umax, m&^t.kz)
	t.signed()
	if t.smin >= 0 { // the sign bit is known
		t.kz |= m &^ (m >> 1)
		t.umin, t.umax = max(t.umin, uint64(t.smin)), min(t.umax, uint64(t.smax))
		t.kz |= m &^ mask8(bits.Len64(t.umax))
	}
}

// signed computes the signed range, from the unsigned one and by structure.
func (t *Term) signed() {
	sb := uint64(1) << (t.w - 1)
	lo, hi := sext64(sb, t.w), int64(sb-1)
	switch {
	case t.umax < sb:
		lo, hi = int64(t.umin), int64(t.umax)
	case t.umin >= sb:
		lo, hi = sext64(t.umin, t.w), sext64(t.umax, t.w)
	}
	put := func(l, h int64) {
		if l <= h {
			lo, hi = max(lo, l), min(hi, h)
		}
	}
	a := t.args
	const lim = 1 << 62
	inside := func(l, h int64) bool { return l >= sext64(sb, t.w) && h <= int64(sb-1) }
	switch t.op {
	case OSext:
		put(srange(a[0]))
	case OIte:
		l1, h1 := srange(a[1])
		l2, h2 := srange(a[2])
		put(min(l1, l2), max(h1, h2))
	case OBVXor, OBVAnd, OBVOr:
		// both fit a signed number of some width, and so does the result
		n := max(sbits(srange(a[0])), sbits(srange(a[1])))
		if n < int(t.w) {
			put(-1<<(n-1), 1<<(n-1)-1)
		}
	case OAdd, OSub:
		l1, h1 := srange(a[0])
		l2, h2 := srange(a[1])
		if t.op == OSub {
			if l2 == -1<<63 {
				break
			}
			l2, h2 = -h2, -l2
		}
		if l1 > -lim && l2 > -lim && h1 < lim && h2 < lim && inside(l1+l2, h1+h2) {
			put(l1+l2, h1+h2)
		}
	case OMul:
		if a[1].op == OConst {
			c := a[1].SVal()
			l, h := srange(a[0])
			if c > 0 && l >= sext64(sb, t.w)/c && h <= int64(sb-1)/c {
				put(l*c, h*c)
			}
		}
	case OSDiv:
		if a[1].op == OConst && a[1].SVal() > 0 {
			l, h := srange(a[0])
			put(l/a[1].SVal(), h/a[1].SVal())
		}
	case OSRem:
		if a[1].op == OConst && a[1].SVal() > 0 {
			c := a[1].SVal()
			l, h := srange(a[0])
			put(max(-(c-1), min(l, 0)), min(c-1, max(h, 0)))
		}
	}
	t.smin, t.smax = lo, hi
}

// sbits is how many bits hold all of a signed range.
func sbits(lo, hi int64) int {
	if lo < 0 {
		lo = ^lo
	}
	if hi < 0 {
		hi = ^hi
	}
	return bits.Len64(uint64(max(lo, hi))) + 1
}

func trailing(kz uint64) int { return bits.TrailingZeros64(^kz) }
func mask8(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return uint64(1)<<uint(n) - 1
}

// ---- booleans

func (x *Ctx) Not(a *Term) *Term {
	if a.op == OConst {
		return x.Bool(a.c == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	// complement comparisons to keep a canonical form
	switch a.op {
	case OUlt:
		return x.mk(OUle, 0, 0, a.args[1], a.args[0])
	case OUle:
		return x.mk(OUlt, 0, 0, a.args[1], a.args[0])
	case OSlt:
		return x.mk(OSle, 0, 0, a.args[1], a.args[0])
	case OSle:
		return x.mk(OSlt, 0, 0, a.args[1], a.args[0])
	}
	return x.mk(ONot, 0, 0, a)
}

func (x *Ctx) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if x.Not(a) == b {
		return x.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OAnd, 0, 0, a, b)
}

func (x *Ctx) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.c == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.c == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if x.Not(a) == b {
		return x.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OOr, 0, 0, a, b)
}

func (x *Ctx) Implies(a, b *Term) *Term { return x.Or(x.Not(a), b) }

func (x *Ctx) Ite(c, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("ite width mismatch %d %d", a.w, b.w))
	}
	if c.op == OConst {
		if c.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return x.Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		return x.Or(x.And(c, a), x.And(x.Not(c), b))
	}
	if a.op == OIte && b == a.args[2] {
		return x.Ite(x.And(c, a.args[0]), a.args[1], b)
	}
	return x.mk(OIte, a.w, 0, c, a, b)
}

func (x *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return x.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return x.Bool(a.c == b.c)
	}
	if a.w == WFloat {
		return x.mk(OEq, 0, 0, a, b)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.c == 1 {
				return a
			}
			return x.Not(a)
		}
		return x.Or(x.And(a, b), x.And(x.Not(a), x.Not(b)))
	}
	if a.kz&b.ko != 0 || a.ko&b.kz != 0 || a.umax < b.umin || b.umax < a.umin {
		return x.False
	}
	if b.op == OConst {
		switch a.op {
		case OConcat:
			if len(a.args) <= 4 {
				r := x.True
				sh := a.w
				for _, s := range a.args {
					sh -= s.w
					r = x.And(r, x.Eq(s, x.Const(s.w, b.c>>sh)))
				}
				return r
			}
		case OIte:
			if a.args[1].op == OConst || a.args[2].op == OConst {
				return x.Ite(a.args[0], x.Eq(a.args[1], b), x.Eq(a.args[2], b))
			}
		case OAdd:
			if a.args[1].op == OConst {
				return x.Eq(a.args[0], x.Const(a.w, b.c-a.args[1].c))
			}
		case OBVXor:
			if a.args[1].op == OConst {
				return x.Eq(a.args[0], x.Const(a.w, b.c^a.args[1].c))
			}
		case OSub:
			if b.c == 0 {
				return x.Eq(a.args[0], a.args[1])
			}
		case OSext:
			s := a.args[0]
			if sext64(b.c, b.w) == sext64(b.c&mask(s.w), s.w) {
				return x.Eq(s, x.Const(s.w, b.c))
			}
			return x.False
		}
	} else {
		if a.op == OConcat && b.op == OConcat {
			sa, sb := segs(a), segs(b)
			if len(sa) == len(sb) && len(sa) <= 12 {
				same := true
				for i := range sa {
					if sa[i].w != sb[i].w {
						same = false
						break
					}
				}
				if same {
					r := x.True
					for i := range sa {
						r = x.And(r, x.Eq(x.segTerm(sa[i]), x.segTerm(sb[i])))
					}
					return r
				}
			}
		}
		// x + c1 == x + c2 / x == x + c
		ba, ca := addParts(a)
		bb, cb := addParts(b)
		if ba == bb {
			return x.Bool((ca-cb)&mask(a.w) == 0)
		}
		if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
			return x.Eq(a.args[0], b.args[0])
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return x.mk(OEq, 0, 0, a, b)
}

func addParts(a *Term) (*Term, uint64) {
	if a.op == OAdd && a.args[1].op == OConst {
		return a.args[0], a.args[1].c
	}
	return a, 0
}

// leadZero: number of structurally known leading zero bits.
func leadZero(a *Term) uint8 {
	n := uint8(0)
	for i := int(a.w) - 1; i >= 0 && a.kz>>uint(i)&1 == 1; i-- {
		n++
	}
	return n
}

func (x *Ctx) narrow(a, b *Term) (*Term, *Term) {
	n := min(leadZero(a), leadZero(b))
	if n == 0 || n >= a.w {
		return a, b
	}
	strip := func(t *Term) bool {
		return t.op == OConst || (t.op == OConcat && t.args[0].op == OConst && t.args[0].w >= 1 && t.args[0].c == 0)
	}
	if strip(a) && strip(b) {
		w := a.w - n
		return x.Extract(a, w-1, 0), x.Extract(b, w-1, 0)
	}
	return a, b
}

func (x *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return x.False
	}
	if a.umax < b.umin {
		return x.True
	}
	if a.umin >= b.umax {
		return x.False
	}
	a, b = x.narrow(a, b)
	if b.op == OConst && b.c == 1 {
		return x.Eq(a, x.Const(a.w, 0))
	}
	if a.op == OConst && a.c == 0 {
		return x.Not(x.Eq(b, a))
	}
	return x.mk(OUlt, 0, 0, a, b)
}

func (x *Ctx) Ule(a, b *Term) *Term { return x.Not(x.Ult(b, a)) }

// srange returns the signed range of a term.
func srange(a *Term) (int64, int64) {
	return a.smin, a.smax
}

func (x *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return x.False
	}
	if a.op == OConst && b.op == OConst {
		return x.Bool(a.SVal() < b.SVal())
	}
	amin, amax := srange(a)
	bmin, bmax := srange(b)
	if amax < bmin {
		return x.True
	}
	if amin >= bmax {
		return x.False
	}
	sb := uint64(1) << (a.w - 1)
	if a.kz&sb != 0 && b.kz&sb != 0 {
		return x.Ult(a, b)
	}
	return x.mk(OSlt, 0, 0, a, b)
}

func (x *Ctx) Sle(a, b *Term) *Term { return x.Not(x.Slt(b, a)) }

// ---- structure: segments

type seg struct {
	t  *Term
	lo uint8
	w  uint8
}

func segs(t *Term) []seg {
	switch t.op {
	case OConcat:
		out := make([]seg, 0, len(t.args))
		for _, a := range t.args {
			out = append(out, seg1(a))
		}
		return out
	}
	return []seg{seg1(t)}
}

func seg1(t *Term) seg {
	if t.op == OExtract {
		return seg{t.args[0], uint8(t.c), t.w}
	}
	return seg{t, 0, t.w}
}

func (x *Ctx) segTerm(s seg) *Term { return x.Extract(s.t, s.lo+s.w-1, s.lo) }

// fromSegs builds a normalised term out of segments, most significant first.
func (x *Ctx) fromSegs(in []seg) *Term {
	out := make([]seg, 0, len(in))
	for _, s := range in {
		if s.w == 0 {
			continue
		}
		if s.t.op == OConst {
			s = seg{x.Const(s.w, s.t.c>>s.lo), 0, s.w}
		}
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.t.op == OConst && s.t.op == OConst {
				out[n-1] = seg{x.Const(p.w+s.w, p.t.c<<s.w|s.t.c), 0, p.w + s.w}
				continue
			}
			if p.t == s.t && p.lo == s.lo+s.w {
				out[n-1] = seg{p.t, s.lo, p.w + s.w}
				continue
			}
		}
		out = append(out, s)
	}
	// The low part of a sum is a sum of low parts: fold it back into the whole.
	for i := 0; i+1 < len(out); i++ {
		p := out[i]
		if p.lo == 0 || p.t.op != OAdd && p.t.op != OSub {
			continue
		}
		low := segs(x.Extract(p.t, p.lo-1, 0))
		if len(low) > len(out)-i-1 {
			continue
		}
		same := true
		for j, s := range low {
			q := out[i+1+j]
			same = same && (q == s || q.w == s.w && x.segTerm(q) == x.segTerm(s))
		}
		if same {
			out[i] = seg{p.t, 0, p.lo + p.w}
			out = append(out[:i+1], out[i+1+len(low):]...)
			i--
		}
	}
	if len(out) == 1 {
		return x.segTerm(out[0])
	}
	args := make([]*Term, len(out))
	var w uint8
	for i, s := range out {
		args[i] = x.segTerm(s)
		w += s.w
	}
	return x.mk(OConcat, w, 0, args...)
}

// sliceSegs returns segments for bits [hi:lo].
func sliceSegs(ss []seg, total, hi, lo uint8) []seg {
	var out []seg
	top := int(total) // exclusive
	for _, s := range ss {
		bot := top - int(s.w)
		h := min(top-1, int(hi))
		l := max(bot, int(lo))
		if h >= l {
			out = append(out, seg{s.t, s.lo + uint8(l-bot), uint8(h - l + 1)})
		}
		top = bot
	}
	return out
}

func (x *Ctx) Extract(a *Term, hi, lo uint8) *Term {
	if lo == 0 && hi == a.w-1 {
		return a
	}
	if hi >= a.w || lo > hi {
		panic(fmt.Sprintf("bad extract [%d:%d] of width %d", hi, lo, a.w))
	}
	w := hi - lo + 1
	switch a.op {
	case OConst:
		return x.Const(w, a.c>>lo)
	case OExtract:
		return x.Extract(a.args[0], hi+uint8(a.c), lo+uint8(a.c))
	case OConcat:
		return x.fromSegs(sliceSegs(segs(a), a.w, hi, lo))
	case OSext:
		s := a.args[0]
		if hi < s.w {
			return x.Extract(s, hi, lo)
		}
		if lo < s.w {
			return x.Sext(x.Extract(s, s.w-1, lo), w)
		}
		return x.Sext(x.Extract(s, s.w-1, s.w-1), w)
	case OIte:
		if a.args[1].op == OConst || a.args[2].op == OConst {
			return x.Ite(a.args[0], x.Extract(a.args[1], hi, lo), x.Extract(a.args[2], hi, lo))
		}
	case OBVAnd, OBVOr, OBVXor:
		if a.args[0].op == OConst || a.args[1].op == OConst {
			p, q := x.Extract(a.args[0], hi, lo), x.Extract(a.args[1], hi, lo)
			switch a.op {
			case OBVAnd:
				return x.BVAnd(p, q)
			case OBVOr:
				return x.BVOr(p, q)
			default:
				return x.BVXor(p, q)
			}
		}
		if a.op == OBVXor {
			// where only one operand may have ones
			for i := 0; i < 2; i++ {
				p, q := a.args[i], a.args[1-i]
				if (p.kz>>lo)&mask(w) == mask(w) {
					return x.Extract(q, hi, lo)
				}
			}
			if a.args[0].op == OSext || a.args[1].op == OSext {
				return x.BVXor(x.Extract(a.args[0], hi, lo), x.Extract(a.args[1], hi, lo))
			}
		}
	case OBVNot:
		return x.BVNot(x.Extract(a.args[0], hi, lo))
	case OAdd, OSub:
		if lo == 0 {
			p, q := x.Extract(a.args[0], hi, lo), x.Extract(a.args[1], hi, lo)
			if a.op == OAdd {
				return x.Add(p, q)
			}
			return x.Sub(p, q)
		}
	}
	m := mask(w)
	if (a.kz>>lo)&m == m {
		return x.Const(w, 0)
	}
	if ((a.kz|a.ko)>>lo)&m == m {
		return x.Const(w, (a.ko>>lo)&m)
	}
	return x.mk(OExtract, w, uint64(lo), a)
}

func (x *Ctx) Concat(hi, lo *Term) *Term {
	return x.fromSegs(append(append([]seg{}, segs(hi)...), segs(lo)...))
}

func (x *Ctx) Zext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == OConst {
		return x.Const(w, a.c)
	}
	return x.Concat(x.Const(w-a.w, 0), a)
}

func (x *Ctx) Sext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == OConst {
		return x.Const(w, uint64(a.SVal()))
	}
	if a.kz>>(a.w-1)&1 == 1 {
		return x.Zext(a, w)
	}
	if a.op == OSext {
		return x.Sext(a.args[0], w)
	}
	if a.op == OIte && (a.args[1].op == OConst || a.args[2].op == OConst) {
		return x.Ite(a.args[0], x.Sext(a.args[1], w), x.Sext(a.args[2], w))
	}
	return x.mk(OSext, w, 0, a)
}

// Resize converts between widths the way Go integer conversions do.
func (x *Ctx) Resize(a *Term, w uint8, signed bool) *Term {
	switch {
	case w == a.w:
		return a
	case w < a.w:
		return x.Extract(a, w-1, 0)
	case signed:
		return x.Sext(a, w)
	default:
		return x.Zext(a, w)
	}
}

// ---- bitwise

type run struct {
	bit bool
	w   uint8
}

func constRuns(c uint64, w uint8) []run {
	var out []run
	for i := int(w) - 1; i >= 0; i-- {
		b := c>>uint(i)&1 == 1
		if n := len(out); n > 0 && out[n-1].bit == b {
			out[n-1].w++
		} else {
			out = append(out, run{b, 1})
		}
	}
	return out
}

func (x *Ctx) BVNot(a *Term) *Term {
	if a.op == OConst {
		return x.Const(a.w, ^a.c)
	}
	if a.op == OBVNot {
		return a.args[0]
	}
	return x.mk(OBVNot, a.w, 0, a)
}

func (x *Ctx) BVAnd(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.op == OConst {
		if a.op == OConst {
			return x.Const(a.w, a.c&b.c)
		}
		m := mask(a.w)
		if b.c == 0 {
			return b
		}
		if b.c|a.kz == m {
			return a
		}
		rs := constRuns(b.c, a.w)
		if len(rs) <= 9 {
			var out []seg
			ss := segs(a)
			top := a.w
			for _, r := range rs {
				if r.bit {
					out = append(out, sliceSegs(ss, a.w, top-1, top-r.w)...)
				} else {
					out = append(out, seg{x.Const(r.w, 0), 0, r.w})
				}
				top -= r.w
			}
			return x.fromSegs(out)
		}
		if a.op == OBVAnd && a.args[1].op == OConst {
			return x.BVAnd(a.args[0], x.Const(a.w, a.args[1].c&b.c))
		}
		return x.mk(OBVAnd, a.w, 0, a, b)
	}
	if a.kz|b.kz == mask(a.w) {
		return x.Const(a.w, 0)
	}
	if a.op == OBVNot && a.args[0] == b || b.op == OBVNot && b.args[0] == a {
		return x.Const(a.w, 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OBVAnd, a.w, 0, a, b)
}

// joinDisjoint merges two terms with no common possibly-one bits, when one of
// the two is structurally a zero constant in every piece.
func (x *Ctx) joinDisjoint(a, b *Term) *Term {
	sa, sb := segs(a), segs(b)
	if len(sa)+len(sb) > 40 {
		return nil
	}
	cuts := map[int]bool{0: true, int(a.w): true}
	for _, ss := range [][]seg{sa, sb} {
		top := int(a.w)
		for _, s := range ss {
			top -= int(s.w)
			cuts[top] = true
		}
	}
	var cs []int
	for c := range cuts {
		cs = append(cs, c)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cs)))
	var out []seg
	for i := 0; i+1 < len(cs); i++ {
		hi, lo := uint8(cs[i]-1), uint8(cs[i+1])
		pa := sliceSegs(sa, a.w, hi, lo)[0]
		pb := sliceSegs(sb, b.w, hi, lo)[0]
		za := pa.t.op == OConst && (pa.t.c>>pa.lo)&mask(pa.w) == 0
		zb := pb.t.op == OConst && (pb.t.c>>pb.lo)&mask(pb.w) == 0
		switch {
		case za:
			out = append(out, pb)
		case zb:
			out = append(out, pa)
		default:
			return nil
		}
	}
	return x.fromSegs(out)
}

func (x *Ctx) BVOr(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	m := mask(a.w)
	if b.op == OConst {
		if a.op == OConst {
			return x.Const(a.w, a.c|b.c)
		}
		if b.c == 0 {
			return a
		}
		if b.c == m {
			return b
		}
		rs := constRuns(b.c, a.w)
		if len(rs) <= 9 {
			var out []seg
			ss := segs(a)
			top := a.w
			for _, r := range rs {
				if !r.bit {
					out = append(out, sliceSegs(ss, a.w, top-1, top-r.w)...)
				} else {
					out = append(out, seg{x.Const(r.w, mask(r.w)), 0, r.w})
				}
				top -= r.w
			}
			return x.fromSegs(out)
		}
		return x.mk(OBVOr, a.w, 0, a, b)
	}
	if (a.kz | b.kz) == m {
		if r := x.joinDisjoint(a, b); r != nil {
			return r
		}
	}
	if n := 16; orHas(a, b, &n) {
		return a
	}
	if n := 16; orHas(b, a, &n) {
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OBVOr, a.w, 0, a, b)
}

// orHas says whether u is one of the operands of t, a disjunction, among the first few looked at.
func orHas(t, u *Term, n *int) bool {
	if t == u {
		return true
	}
	if t.op != OBVOr || *n <= 0 {
		return false
	}
	*n--
	return orHas(t.args[0], u, n) || orHas(t.args[1], u, n)
}

func (x *Ctx) BVXor(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if a == b {
		return x.Const(a.w, 0)
	}
	m := mask(a.w)
	if b.op == OConst {
		if a.op == OConst {
			return x.Const(a.w, a.c^b.c)
		}
		if b.c == 0 {
			return a
		}
		if b.c == m {
			return x.BVNot(a)
		}
		if a.op == OBVXor && a.args[1].op == OConst {
			return x.BVXor(a.args[0], x.Const(a.w, a.args[1].c^b.c))
		}
		return x.mk(OBVXor, a.w, 0, a, b)
	}
	if (a.kz | b.kz) == m {
		return x.BVOr(a, b)
	}
	if r := x.unsign(a, b); r != nil {
		return r
	}
	if r := x.unsign(b, a); r != nil {
		return r
	}
	// (a ^ b) ^ b
	if a.op == OBVXor {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	if b.op == OBVXor {
		if b.args[0] == a {
			return b.args[1]
		}
		if b.args[1] == a {
			return b.args[0]
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OBVXor, a.w, 0, a, b)
}

// unsign undoes an exclusive or with copies of a bit in some of the pieces of
// a, where s is copies of that bit: nil if there are no such pieces.
func (x *Ctx) unsign(a, s *Term) *Term {
	if s.op != OSext || s.args[0].w != 1 || a.op != OConcat {
		return nil
	}
	bit := s.args[0]
	found := false
	for _, p := range a.args {
		found = found || p.op == OBVXor && (isCopies(p.args[0], bit) || isCopies(p.args[1], bit))
	}
	if !found {
		return nil
	}
	var out []seg
	for _, p := range a.args {
		out = append(out, segs(x.BVXor(p, x.Sext(bit, p.w)))...)
	}
	return x.fromSegs(out)
}

func isCopies(t, bit *Term) bool { return t == bit || t.op == OSext && t.args[0] == bit }

// ---- arithmetic

func (x *Ctx) Add(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	m := mask(a.w)
	if b.op == OConst {
		if a.op == OConst {
			return x.Const(a.w, a.c+b.c)
		}
		if b.c == 0 {
			return a
		}
		if a.op == OAdd && a.args[1].op == OConst {
			return x.Add(a.args[0], x.Const(a.w, a.args[1].c+b.c))
		}
		// subtracting a constant whose bits are all known set
		neg := (-b.c) & m
		if a.ko&neg == neg {
			return x.BVAnd(a, x.Const(a.w, ^neg))
		}
		if a.kz|(^b.c&m) == m {
			return x.BVOr(a, b)
		}
		if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
			return x.Ite(a.args[0], x.Add(a.args[1], b), x.Add(a.args[2], b))
		}
		if a.op == OSub && a.args[0].op == OConst {
			return x.Sub(x.Const(a.w, a.args[0].c+b.c), a.args[1])
		}
		return x.mk(OAdd, a.w, 0, a, b)
	}
	if (a.kz | b.kz) == m {
		return x.BVOr(a, b)
	}
	// pull constants outwards
	if a.op == OAdd && a.args[1].op == OConst {
		return x.Add(x.Add(a.args[0], b), a.args[1])
	}
	if b.op == OAdd && b.args[1].op == OConst {
		return x.Add(x.Add(a, b.args[0]), b.args[1])
	}
	// a + (b - a) = b
	if b.op == OSub && b.args[1] == a {
		return b.args[0]
	}
	if a.op == OSub && a.args[1] == b {
		return a.args[0]
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OAdd, a.w, 0, a, b)
}

func (x *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return x.Const(a.w, 0)
	}
	if b.op == OConst {
		return x.Add(a, x.Const(a.w, -b.c))
	}
	ba, ca := addParts(a)
	bb, cb := addParts(b)
	if ca != 0 || cb != 0 {
		if ba == bb {
			return x.Const(a.w, ca-cb)
		}
		return x.Add(x.Sub(ba, bb), x.Const(a.w, ca-cb))
	}
	if a.op == OAdd {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	if a.op == OConst && a.c == 0 && a.w > 1 && b.kz == mask(a.w)&^1 {
		return x.Sext(x.Extract(b, 0, 0), a.w)
	}
	return x.mk(OSub, a.w, 0, a, b)
}

func (x *Ctx) Neg(a *Term) *Term { return x.Sub(x.Const(a.w, 0), a) }

func (x *Ctx) Mul(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return x.Const(a.w, a.c*b.c)
		}
		if b.c == 0 {
			return b
		}
		if b.c == 1 {
			return a
		}
		if bits.OnesCount64(b.c) == 1 {
			return x.Shl(a, x.Const(a.w, uint64(bits.TrailingZeros64(b.c))))
		}
		return x.mk(OMul, a.w, 0, a, b)
	}
	if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
		return x.Ite(a.args[0], x.Mul(a.args[1], b), x.Mul(a.args[2], b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OMul, a.w, 0, a, b)
}

func (x *Ctx) UDiv(a, b *Term) *Term {
	if b.op == OConst && b.c != 0 {
		if a.op == OConst {
			return x.Const(a.w, a.c/b.c)
		}
		if b.c&(b.c-1) == 0 {
			return x.Lshr(a, x.Const(a.w, uint64(bits.TrailingZeros64(b.c))))
		}
	}
	return x.mk(OUDiv, a.w, 0, a, b)
}

func (x *Ctx) URem(a, b *Term) *Term {
	if b.op == OConst && b.c != 0 {
		if a.op == OConst {
			return x.Const(a.w, a.c%b.c)
		}
		if b.c&(b.c-1) == 0 {
			return x.BVAnd(a, x.Const(a.w, b.c-1))
		}
	}
	return x.mk(OURem, a.w, 0, a, b)
}

func sdiv(a, b int64) int64 {
	if b == -1 {
		return -a
	}
	return a / b
}
func srem(a, b int64) int64 {
	if b == -1 {
		return 0
	}
	return a % b
}

func (x *Ctx) SDiv(a, b *Term) *Term {
	if b.op == OConst && b.c != 0 {
		if a.op == OConst {
			return x.Const(a.w, uint64(sdiv(a.SVal(), b.SVal())))
		}
		if b.c == 1 {
			return a
		}
		// (x * c) / c = x when x*c cannot overflow
		if a.op == OMul && a.args[1] == b && b.SVal() > 0 {
			lo, hi := srange(a.args[0])
			c := b.SVal()
			lim := int64(mask(a.w) >> 1)
			if hi <= lim/c && lo >= -(lim/c) {
				return a.args[0]
			}
		}
	}
	sb := uint64(1) << (a.w - 1)
	if a.kz&sb != 0 && b.kz&sb != 0 {
		return x.UDiv(a, b)
	}
	if b.op == OConst && b.c != 0 && b.SVal() != -1 {
		n := max(sbits(srange(a)), sbits(srange(b)))
		if n+1 < int(a.w) {
			w := uint8(n)
			return x.Sext(x.mk(OSDiv, w, 0, x.Extract(a, w-1, 0), x.Const(w, b.c)), a.w)
		}
	}
	return x.mk(OSDiv, a.w, 0, a, b)
}

func (x *Ctx) SRem(a, b *Term) *Term {
	if b.op == OConst && b.c != 0 {
		if a.op == OConst {
			return x.Const(a.w, uint64(srem(a.SVal(), b.SVal())))
		}
	}
	sb := uint64(1) << (a.w - 1)
	if a.kz&sb != 0 && b.kz&sb != 0 {
		return x.URem(a, b)
	}
	if b.op == OConst && b.c != 0 && b.SVal() != -1 {
		n := max(sbits(srange(a)), sbits(srange(b)))
		if n+1 < int(a.w) {
			w := uint8(n)
			return x.Sext(x.mk(OSRem, w, 0, x.Extract(a, w-1, 0), x.Const(w, b.c)), a.w)
		}
	}
	return x.mk(OSRem, a.w, 0, a, b)
}

// Shl shifts by an amount of the same width; amounts >= w give 0 (Go and SMT-LIB agree).
func (x *Ctx) Shl(a, b *Term) *Term {
	if b.op == OConst {
		if b.c >= uint64(a.w) {
			return x.Const(a.w, 0)
		}
		if b.c == 0 {
			return a
		}
		if a.op == OConst {
			return x.Const(a.w, a.c<<b.c)
		}
		k := uint8(b.c)
		return x.fromSegs(append(sliceSegs(segs(a), a.w, a.w-1-k, 0), seg{x.Const(k, 0), 0, k}))
	}
	if a.op == OConst && a.c == 0 {
		return a
	}
	return x.mk(OShl, a.w, 0, a, b)
}

func (x *Ctx) Lshr(a, b *Term) *Term {
	if b.op == OConst {
		if b.c >= uint64(a.w) {
			return x.Const(a.w, 0)
		}
		if b.c == 0 {
			return a
		}
		if a.op == OConst {
			return x.Const(a.w, a.c>>b.c)
		}
		k := uint8(b.c)
		return x.fromSegs(append([]seg{{x.Const(k, 0), 0, k}}, sliceSegs(segs(a), a.w, a.w-1, k)...))
	}
	if a.op == OConst && a.c == 0 {
		return a
	}
	return x.mk(OLshr, a.w, 0, a, b)
}

func (x *Ctx) Ashr(a, b *Term) *Term {
	if b.op == OConst {
		k := b.c
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if k == 0 {
			return a
		}
		if a.op == OConst {
			return x.Const(a.w, uint64(a.SVal()>>k))
		}
		return x.Sext(x.Extract(a, a.w-1, uint8(k)), a.w)
	}
	if a.kz>>(a.w-1)&1 == 1 {
		return x.Lshr(a, b)
	}
	return x.mk(OAshr, a.w, 0, a, b)
}

// ---- float64

func (x *Ctx) F(op Op, w uint8, args ...*Term) *Term { return x.foldF(op, w, args...) }

// ---- evaluation

// Model maps variable names to values.
type Model struct {
	v    map[string]uint64
	memo map[*Term]uint64
}

func NewModel(v map[string]uint64) *Model {
	if v == nil {
		v = map[string]uint64{}
	}
	return &Model{v: v, memo: map[*Term]uint64{}}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Eval evaluates t; unassigned variables are 0.
func (m *Model) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.c
	}
	if t.op == OVar {
		return m.v[t.name] & maskF(t.w)
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	a := t.args
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - m.Eval(a[0])
	case OAnd:
		r = m.Eval(a[0]) & m.Eval(a[1])
	case OOr:
		r = m.Eval(a[0]) | m.Eval(a[1])
	case OIte:
		if m.Eval(a[0]) == 1 {
			r = m.Eval(a[1])
		} else {
			r = m.Eval(a[2])
		}
	case OConcat:
		for _, s := range a {
			r = r<<s.w | m.Eval(s)
		}
	case OExtract:
		r = m.Eval(a[0]) >> t.c
	case OSext:
		r = uint64(sext64(m.Eval(a[0]), a[0].w))
	case OBVNot:
		r = ^m.Eval(a[0])
	default:
		if t.op >= OFOfBits {
			r = evalF(t, func(i int) uint64 { return m.Eval(a[i]) })
			break
		}
		p, q := m.Eval(a[0]), m.Eval(a[1])
		r = evalBin(t.op, p, q, a[0].w)
	}
	r &= maskF(t.w)
	m.memo[t] = r
	return r
}

func maskF(w uint8) uint64 {
	if w == WFloat {
		return ^uint64(0)
	}
	return mask(w)
}

func evalBin(op Op, p, q uint64, w uint8) uint64 {
	sp, sq := sext64(p, w), sext64(q, w)
	switch op {
	case OEq:
		return b2u(p == q)
	case OUlt:
		return b2u(p < q)
	case OUle:
		return b2u(p <= q)
	case OSlt:
		return b2u(sp < sq)
	case OSle:
		return b2u(sp <= sq)
	case OBVAnd:
		return p & q
	case OBVOr:
		return p | q
	case OBVXor:
		return p ^ q
	case OAdd:
		return p + q
	case OSub:
		return p - q
	case OMul:
		return p * q
	case OUDiv:
		if q == 0 {
			return ^uint64(0)
		}
		return p / q
	case OURem:
		if q == 0 {
			return p
		}
		return p % q
	case OSDiv:
		if q == 0 {
			if sp < 0 {
				return 1
			}
			return ^uint64(0)
		}
		return uint64(sdiv(sp, sq))
	case OSRem:
		if q == 0 {
			return p
		}
		return uint64(srem(sp, sq))
	case OShl:
		if q >= uint64(w) {
			return 0
		}
		return p << q
	case OLshr:
		if q >= uint64(w) {
			return 0
		}
		return p >> q
	case OAshr:
		if q >= uint64(w) {
			q = uint64(w) - 1
		}
		return uint64(sp >> q)
	}
	panic("evalBin")
}

func (t *Term) String() string {
	return termString(t, 6)
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OBVNot: "bvnot", OBVAnd: "bvand", OBVOr: "bvor", OBVXor: "bvxor", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OConcat: "concat", OExtract: "extract", OSext: "sext",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq",
	OFIsNaN: "fp.isNaN", OFNeg: "fp.neg",
}

func termString(t *Term, depth int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.c == 1)
		}
		return fmt.Sprintf("%#x:%d", t.c, t.w)
	case OVar:
		return t.name
	}
	if depth == 0 {
		return "..."
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.op])
	if t.op == OExtract {
		fmt.Fprintf(&sb, "[%d:%d]", uint64(t.w)+t.c-1, t.c)
	}
	for _, a := range t.args {
		sb.WriteString(" " + termString(a, depth-1))
	}
	return sb.String() + ")"
}
