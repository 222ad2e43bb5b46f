package engine

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// SelectTable returns ts[idx]; idx is known to be below len(ts).
func (x *Ctx) SelectTable(idx *Term, ts []*Term) *Term {
	n := len(ts)
	if idx.IsConst() {
		return ts[idx.c]
	}
	if n == 1 {
		return ts[0]
	}
	same := true
	allc := true
	for _, t := range ts {
		if t != ts[0] {
			same = false
		}
		if !t.IsConst() {
			allc = false
		}
	}
	if same {
		return ts[0]
	}
	w := ts[0].w
	if allc && w > 0 && w <= 64 && n&(n-1) == 0 {
		if r := x.affineTable(idx, ts); r != nil {
			return r
		}
	}
	bits := 0
	for 1<<uint(bits) < n {
		bits++
	}
	return x.selTree(idx, ts, bits)
}

// affineTable recognises tables that are GF(2)-affine in the index bits.
func (x *Ctx) affineTable(idx *Term, ts []*Term) *Term {
	n := len(ts)
	k := 0
	for 1<<uint(k) < n {
		k++
	}
	base := ts[0].c
	col := make([]uint64, k)
	for i := range col {
		col[i] = ts[1<<uint(i)].c ^ base
	}
	for i := range ts {
		v := base
		for b := 0; b < k; b++ {
			if i>>uint(b)&1 == 1 {
				v ^= col[b]
			}
		}
		if v != ts[i].c {
			return nil
		}
	}
	w := ts[0].w
	var r *Term
	for bit := int(w) - 1; bit >= 0; bit-- {
		t := x.Const(1, base>>uint(bit)&1)
		for b := 0; b < k; b++ {
			if col[b]>>uint(bit)&1 == 1 {
				t = x.BVXor(t, x.Extract(idx, uint8(b), uint8(b)))
			}
		}
		if r == nil {
			r = t
		} else {
			r = x.Concat(r, t)
		}
	}
	return r
}

func (x *Ctx) selTree(idx *Term, ts []*Term, bits int) *Term {
	if len(ts) == 1 {
		return ts[0]
	}
	same := true
	for _, t := range ts {
		if t != ts[0] {
			same = false
			break
		}
	}
	if same {
		return ts[0]
	}
	bits--
	h := 1 << uint(bits)
	if len(ts) <= h {
		return x.selTree(idx, ts, bits)
	}
	lo := x.selTree(idx, ts[:h], bits)
	hi := x.selTree(idx, ts[h:], bits)
	b := x.Eq(x.Extract(idx, uint8(bits), uint8(bits)), x.Const(1, 1))
	return x.Ite(b, hi, lo)
}

func (in *Interp) binop(op token.Token, a, b Value, xt, yt types.Type) Value {
	x := in.x
	switch op {
	case token.EQL:
		return in.eqTerm(a, b)
	case token.NEQ:
		return x.Not(in.eqTerm(a, b))
	}
	ti := in.ti(xt)
	switch ti.kind {
	case kString:
		s, t := a.(Str), b.(Str)
		switch op {
		case token.ADD:
			if s.o != nil || t.o != nil {
				return in.segStr(append(append([]seg2(nil), in.strSegs(s)...), in.strSegs(t)...))
			}
			if s.b == nil && t.b == nil {
				return Str{s: s.s + t.s}
			}
			return in.mkStr(append(append([]*Term(nil), in.strTerms(s)...), in.strTerms(t)...))
		case token.LSS:
			return in.strLess(s, t, false)
		case token.LEQ:
			return in.strLess(s, t, true)
		case token.GTR:
			return in.strLess(t, s, false)
		case token.GEQ:
			return in.strLess(t, s, true)
		}
	case kFloat:
		s, t := a.(*Term), b.(*Term)
		f32 := xt.Underlying().(*types.Basic).Kind() == types.Float32
		rd := func(r *Term) *Term {
			if f32 {
				return x.F(OFRound32, WFloat, r) // rounding twice is harmless: 53 >= 2*24+2
			}
			return r
		}
		switch op {
		case token.ADD:
			return rd(x.F(OFAdd, WFloat, s, t))
		case token.SUB:
			return rd(x.F(OFSub, WFloat, s, t))
		case token.MUL:
			return rd(x.F(OFMul, WFloat, s, t))
		case token.QUO:
			return rd(x.F(OFDiv, WFloat, s, t))
		case token.LSS:
			return x.F(OFLt, 0, s, t)
		case token.LEQ:
			return x.F(OFLe, 0, s, t)
		case token.GTR:
			return x.F(OFLt, 0, t, s)
		case token.GEQ:
			return x.F(OFLe, 0, t, s)
		}
	case kInt:
		s, t := a.(*Term), b.(*Term)
		switch op {
		case token.ADD:
			return x.Add(s, t)
		case token.SUB:
			return x.Sub(s, t)
		case token.MUL:
			return x.Mul(s, t)
		case token.QUO, token.REM:
			if !in.branch(x.Not(x.Eq(t, x.Const(t.w, 0)))) {
				panic(goPanic{in.rtErr("integer divide by zero")})
			}
			switch {
			case op == token.QUO && ti.signed:
				return x.SDiv(s, t)
			case op == token.QUO:
				return x.UDiv(s, t)
			case ti.signed:
				return x.SRem(s, t)
			}
			return x.URem(s, t)
		case token.AND:
			return x.BVAnd(s, t)
		case token.OR:
			return x.BVOr(s, t)
		case token.XOR:
			return x.BVXor(s, t)
		case token.AND_NOT:
			return x.BVAnd(s, x.BVNot(t))
		case token.SHL, token.SHR:
			if in.ti(yt).signed {
				if !in.branch(x.Not(x.Slt(t, x.Const(t.w, 0)))) {
					panic(goPanic{in.rtErr("negative shift amount")})
				}
			}
			var sh *Term
			big := x.False
			if t.w > s.w {
				big = x.Not(x.Ult(t, x.Const(t.w, uint64(s.w))))
				sh = x.Extract(t, s.w-1, 0)
			} else {
				sh = x.Zext(t, s.w)
			}
			var r, over *Term
			switch {
			case op == token.SHL:
				r, over = x.Shl(s, sh), x.Const(s.w, 0)
			case ti.signed:
				r, over = x.Ashr(s, sh), x.Ashr(s, x.Const(s.w, uint64(s.w-1)))
			default:
				r, over = x.Lshr(s, sh), x.Const(s.w, 0)
			}
			return x.Ite(big, over, r)
		case token.LSS:
			if ti.signed {
				return x.Slt(s, t)
			}
			return x.Ult(s, t)
		case token.LEQ:
			if ti.signed {
				return x.Sle(s, t)
			}
			return x.Ule(s, t)
		case token.GTR:
			if ti.signed {
				return x.Slt(t, s)
			}
			return x.Ult(t, s)
		case token.GEQ:
			if ti.signed {
				return x.Sle(t, s)
			}
			return x.Ule(t, s)
		}
	case kBool:
		s, t := a.(*Term), b.(*Term)
		switch op {
		case token.AND, token.LAND:
			return x.And(s, t)
		case token.OR, token.LOR:
			return x.Or(s, t)
		}
	}
	panic(unsup("binop %v on %v", op, xt))
}

func (in *Interp) strLess(a, b Str, orEq bool) *Term {
	x := in.x
	a, b = a.force(), b.force()
	if a.b == nil && b.b == nil {
		if orEq {
			return x.Bool(a.s <= b.s)
		}
		return x.Bool(a.s < b.s)
	}
	n := min(a.Len(), b.Len())
	var r *Term
	if orEq {
		r = x.Bool(a.Len() <= b.Len())
	} else {
		r = x.Bool(a.Len() < b.Len())
	}
	for i := n - 1; i >= 0; i-- {
		p, q := in.strAt(a, i), in.strAt(b, i)
		r = x.Or(x.Ult(p, q), x.And(x.Eq(p, q), r))
	}
	return r
}

// eqTerm is a == b for values of the same static type.
func (in *Interp) eqTerm(a, b Value) *Term {
	x := in.x
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			break
		}
		if p.w == WFloat {
			return x.F(OFEq, 0, p, q)
		}
		return x.Eq(p, q)
	case Str:
		q, ok := b.(Str)
		if !ok {
			break
		}
		p, q = p.force(), q.force()
		if p.Len() != q.Len() {
			return x.False
		}
		if p.b == nil && q.b == nil {
			return x.Bool(p.s == q.s)
		}
		r := x.True
		for i := 0; i < p.Len(); i++ {
			r = x.And(r, x.Eq(in.strAt(p, i), in.strAt(q, i)))
		}
		return r
	case Ptr:
		switch q := b.(type) {
		case Ptr:
			return x.Bool(in.samePtr(p, q))
		case HdrPtr:
			return x.False
		case nil:
			return x.Bool(p.o == nil)
		}
	case UPtr:
		q, ok := b.(UPtr)
		if !ok {
			break
		}
		if isNilVal(p) || isNilVal(q) {
			return x.Bool(isNilVal(p) && isNilVal(q))
		}
		return in.eqTerm(p.p, q.p)
	case HdrPtr:
		q, ok := b.(HdrPtr)
		return x.Bool(ok && in.samePtr(p.cell, q.cell) && p.field == q.field)
	case Slice:
		// only comparable with nil
		q, ok := b.(Slice)
		if ok {
			return x.Bool(p.o == nil && q.o == nil)
		}
	case Agg:
		q, ok := b.(Agg)
		if !ok {
			break
		}
		r := x.True
		for i := range p {
			r = x.And(r, in.eqTerm(p[i], q[i]))
		}
		return r
	case *Iface:
		q, ok := b.(*Iface)
		if !ok {
			break
		}
		if p == nil || q == nil {
			return x.Bool(p == nil && q == nil)
		}
		if !types.Identical(p.t, q.t) {
			return x.False
		}
		if !types.Comparable(p.t) {
			panic(goPanic{in.rtErr("comparing uncomparable type " + p.t.String())})
		}
		return in.eqTerm(p.v, q.v)
	case *Func:
		q, _ := b.(*Func)
		return x.Bool(p == nil && q == nil)
	case *MapObj:
		q, _ := b.(*MapObj)
		return x.Bool(p == q)
	case *ChanObj:
		q, _ := b.(*ChanObj)
		return x.Bool(p == q)
	case nil:
		return x.Bool(isNilVal(b))
	}
	panic(unsup("comparison of %T and %T", a, b))
}

func isHeaderStruct(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() < 2 || st.NumFields() > 3 {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		b, ok := st.Field(i).Type().Underlying().(*types.Basic)
		if !ok {
			return false
		}
		switch b.Kind() {
		case types.UnsafePointer, types.Uintptr, types.Int:
		default:
			return false
		}
	}
	return true
}

func (in *Interp) convert(v Value, from, to types.Type) Value {
	x := in.x
	ft, tt := in.ti(from), in.ti(to)
	switch {
	case ft.kind == kInt && tt.kind == kInt:
		t, ok := v.(*Term)
		if !ok {
			panic(unsup("conversion of %T to %v", v, to))
		}
		return x.Resize(t, tt.w, ft.signed)
	case ft.kind == kInt && tt.kind == kFloat:
		t := v.(*Term)
		var r *Term
		if ft.signed {
			r = x.F(OFFromS, WFloat, t)
		} else {
			r = x.F(OFFromU, WFloat, t)
		}
		if to.Underlying().(*types.Basic).Kind() == types.Float32 {
			if ft.signed && (t.smin < -1<<53 || t.smax > 1<<53) || !ft.signed && t.umax > 1<<53 {
				panic(unsup("float32 of a wide symbolic integer")) // would be rounded twice
			}
			return x.F(OFRound32, WFloat, r)
		}
		return r
	case ft.kind == kFloat && tt.kind == kFloat:
		t := v.(*Term)
		if to.Underlying().(*types.Basic).Kind() == types.Float32 {
			return x.F(OFRound32, WFloat, t)
		}
		return t
	case ft.kind == kFloat && tt.kind == kInt:
		t := v.(*Term)
		if t.IsConst() {
			f := math.Float64frombits(t.c)
			if tt.signed {
				return x.Const(tt.w, uint64(int64(f)))
			}
			return x.Const(tt.w, uint64(f))
		}
		return x.F(OFToS, tt.w, t)
	case tt.kind == kString:
		switch ft.kind {
		case kString:
			return v
		case kInt:
			r := in.conc(v.(*Term))
			return Str{s: string(rune(sext64(r, ft.w)))}
		case kSlice:
			s := v.(Slice)
			et := from.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic)
			if et.Kind() == types.Uint8 {
				return in.mkStr(in.sliceBytes(s))
			}
			var bs []*Term
			for i := 0; i < s.len; i++ {
				r := in.ld(s.o, s.off+i).(*Term)
				if !r.IsConst() && in.branch(x.Ult(r, x.Const(32, 0x80))) {
					bs = append(bs, x.Extract(r, 7, 0))
					continue
				}
				for _, c := range []byte(string(rune(sext64(in.conc(r), 32)))) {
					bs = append(bs, x.Const(8, uint64(c)))
				}
			}
			return in.mkStr(bs)
		}
	case ft.kind == kString && tt.kind == kSlice:
		s := v.(Str)
		st := to.Underlying().(*types.Slice).Elem()
		if st.Underlying().(*types.Basic).Kind() == types.Uint8 {
			r := in.bytesSlice(in.strTerms(s))
			r.o.typ = st
			return r
		}
		ascii := true
		for _, b := range in.strTerms(s) {
			ascii = ascii && in.branch(x.Ult(b, x.Const(8, 0x80)))
		}
		if ascii {
			bs := in.strTerms(s)
			o := in.newArr(st, len(bs))
			for i, b := range bs {
				o.rawSet(i, x.Zext(b, 32))
			}
			return Slice{o: o, len: len(bs), cap: len(bs), es: 1}
		}
		rs := []rune(in.concStr(s))
		o := in.newArr(st, len(rs))
		for i, r := range rs {
			o.rawSet(i, x.Const(32, uint64(r)))
		}
		return Slice{o: o, len: len(rs), cap: len(rs), es: 1}
	case ft.kind == kPtr && tt.kind == kUnsafe:
		return UPtr{p: v, elem: from.Underlying().(*types.Pointer).Elem()}
	case ft.kind == kUnsafe && tt.kind == kUnsafe:
		return v
	case ft.kind == kUnsafe && tt.kind == kPtr:
		u := v.(UPtr)
		if isNilVal(u) {
			return Ptr{}
		}
		el := to.Underlying().(*types.Pointer).Elem()
		if h, ok := u.p.(HdrPtr); ok {
			if isHeaderStruct(el) {
				return h
			}
			return h.cell
		}
		p := u.p.(Ptr)
		if u.elem != nil && (types.Identical(u.elem, el) || types.Identical(u.elem.Underlying(), el.Underlying())) {
			return p
		}
		if u.elem != nil && isHeaderStruct(el) {
			switch u.elem.Underlying().(type) {
			case *types.Slice, *types.Interface:
				return HdrPtr{cell: p, elem: u.elem, field: -1}
			case *types.Basic:
				if u.elem.Underlying().(*types.Basic).Kind() == types.String {
					return HdrPtr{cell: p, elem: u.elem, field: -1}
				}
			}
		}
		if u.elem != nil {
			// *(*[]T)(unsafe.Pointer(&s)): the header of s with another element type
			if _, ok := el.Underlying().(*types.Slice); ok {
				if _, ok := u.elem.Underlying().(*types.Slice); ok {
					return HdrPtr{cell: p, elem: u.elem, field: -1, to: el}
				}
			}
		}
		if p.o.typ == nil {
			p.o.typ = u.elem
		}
		// an array is seen as a sequence of its elements: it may be declared
		// larger than the memory it is laid over (the [1 << 30]T idiom)
		o, i := in.view(p.o, p.i, elemOf(el))
		return Ptr{o, i}
	case ft.kind == kPtr && tt.kind == kPtr:
		return v
	case tt.kind == kSlice && ft.kind == kSlice, tt.agg && ft.agg:
		return v
	case ft.kind == kUnsafe && tt.kind == kInt:
		if isNilVal(v) {
			return x.Const(64, 0)
		}
	case ft.kind == kInt && tt.kind == kUnsafe:
		if t, ok := v.(*Term); ok && t.IsConst() && t.c == 0 {
			return UPtr{}
		}
	}
	panic(unsup("conversion from %v to %v", from, to))
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundUpSize(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if n <= c {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func (in *Interp) growCap(old, need int, et types.Type) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	es := int(in.sizes.Sizeof(et))
	if es == 0 {
		return need
	}
	return roundUpSize(nc*es) / es
}

func (in *Interp) appendVals(s Slice, vals []Value, n int, et types.Type) Slice {
	es := in.ti(et).n
	s.es = es
	if n == 0 {
		return s
	}
	if s.len+n > s.cap {
		nc := in.growCap(s.cap, s.len+n, et)
		o := in.newArr(et, nc)
		for i := 0; i < s.len*es; i++ {
			o.rawSet(i, in.ld(s.o, s.off+i))
		}
		s = Slice{o: o, len: s.len, cap: nc, es: es}
	}
	base := s.off + s.len*es
	for i, v := range vals {
		in.st(s.o, base+i, v)
	}
	s.len += n
	return s
}

// cellsOf reads n elements of s as cells.
func (in *Interp) cellsOf(s Slice, n int) []Value {
	out := make([]Value, n*s.es)
	for i := range out {
		out[i] = in.ld(s.o, s.off+i)
	}
	return out
}

func (in *Interp) builtin(g *Gor, f *Frame, c *cin, name string, args []Value, cc *ssa.CallCommon) Value {
	x := in.x
	ci := func(n int) Value { return x.Const(64, uint64(n)) }
	switch name {
	case "len":
		switch v := args[0].(type) {
		case Slice:
			return ci(v.len)
		case Str:
			return ci(v.Len())
		case *MapObj:
			if v == nil {
				return ci(0)
			}
			return ci(v.live)
		case *ChanObj:
			if v == nil {
				return ci(0)
			}
			return ci(len(v.buf))
		case Agg, Ptr:
			t := cc.Args[0].Type().Underlying()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem().Underlying()
			}
			return ci(int(t.(*types.Array).Len()))
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return ci(v.cap)
		case *ChanObj:
			if v == nil {
				return ci(0)
			}
			return ci(v.cap)
		case Agg, Ptr:
			t := cc.Args[0].Type().Underlying()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem().Underlying()
			}
			return ci(int(t.(*types.Array).Len()))
		}
	case "append":
		s := args[0].(Slice)
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		switch t := args[1].(type) {
		case Slice:
			if t.len == 0 {
				return s
			}
			return in.appendVals(s, in.cellsOf(t, t.len), t.len, et)
		case Str:
			b := in.strTerms(t)
			vs := make([]Value, len(b))
			for i := range b {
				vs[i] = b[i]
			}
			return in.appendVals(s, vs, len(vs), et)
		}
	case "copy":
		d := args[0].(Slice)
		switch s := args[1].(type) {
		case Slice:
			n := min(d.len, s.len)
			for i, v := range in.cellsOf(s, n) {
				in.st(d.o, d.off+i, v)
			}
			return ci(n)
		case Str:
			n := min(d.len, s.Len())
			for i := 0; i < n; i++ {
				in.st(d.o, d.off+i, in.strAt(s, i))
			}
			return ci(n)
		}
	case "delete":
		in.mapDelete(args[0].(*MapObj), args[1])
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *MapObj:
			if v != nil {
				in.mapSave(v)
				v.ents, v.idx, v.sym, v.live = nil, map[string]int{}, nil, 0
			}
		case Slice:
			z := in.ti(cc.Args[0].Type().Underlying().(*types.Slice).Elem()).zeros
			for i := 0; i < v.len*v.es; i++ {
				in.st(v.o, v.off+i, z[i%len(z)])
			}
		}
		return nil
	case "close":
		in.chanClose(g, args[0].(*ChanObj))
		return nil
	case "panic":
		v := args[0].(*Iface)
		if v == nil {
			v = in.rtErr("panic called with nil argument")
		}
		panic(goPanic{v})
	case "recover":
		if f.deferPan != nil && !f.deferPan.recovered {
			f.deferPan.recovered = true
			return f.deferPan.v
		}
		return (*Iface)(nil)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			t := cc.Args[0].Type()
			if name == "max" {
				op = token.GTR
			}
			l := in.binop(op, a, r, t, t).(*Term)
			if in.ti(t).kind == kString {
				if in.branch(l) {
					r = a
				}
				continue
			}
			r = x.Ite(l, a.(*Term), r.(*Term))
		}
		return r
	case "ssa:wrapnilchk":
		if isNilVal(args[0]) {
			panic(goPanic{in.rtErr("value method called using nil pointer")})
		}
		return args[0]
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := in.concInt(in.idx64(args[1].(*Term), cc.Args[1].Type()))
		if n == 0 {
			return Str{}
		}
		b := make([]*Term, n)
		for i := range b {
			b[i] = in.ld(p.o, p.i+i).(*Term)
		}
		return in.mkStr(b)
	case "StringData":
		s := args[0].(Str)
		if s.Len() == 0 {
			return Ptr{}
		}
		return Ptr{in.bytesObj(in.strTerms(s)), 0}
	case "Slice": // unsafe.Slice
		p := args[0].(Ptr)
		n := in.concInt(in.idx64(args[1].(*Term), cc.Args[1].Type()))
		es := in.ti(cc.Args[0].Type().Underlying().(*types.Pointer).Elem()).n
		if p.o == nil {
			return Slice{es: es}
		}
		return Slice{o: p.o, off: p.i, len: n, cap: n, es: es}
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{s.o, s.off}
	}
	panic(unsup("builtin %s", name))
}

func (in *Interp) panicText(v *Iface) string {
	if v == nil {
		return "nil"
	}
	defer func() { recover() }()
	switch u := v.v.(type) {
	case Str:
		if u.o != nil {
			t, _ := segText(u.o.segs)
			return t + "(symbolic)"
		}
		if u.b == nil {
			return u.s
		}
		return "(symbolic string)"
	case *Term:
		return u.String()
	case Ptr:
		if u.o != nil {
			t := v.t.String()
			for i := 0; i < u.o.n && i < 8; i++ {
				if s, ok := u.o.raw(i).(Str); ok && s.b == nil {
					t += " " + strconv.Quote(s.s)
				}
			}
			return t
		}
	case Agg:
		t := v.t.String()
		for _, c := range u {
			if s, ok := c.(Str); ok && s.b == nil {
				t += " " + strconv.Quote(s.s)
			}
		}
		return t
	}
	return v.t.String()
}

func validUTF8(s string) bool { return utf8.ValidString(s) }

// ---- maps

// keyString gives a canonical text for a concrete map key.
func (in *Interp) keyString(sb *strings.Builder, k Value) bool {
	switch k := k.(type) {
	case *Term:
		if !k.IsConst() {
			return false
		}
		if k.w == WFloat {
			if f := math.Float64frombits(k.c); f != f {
				return false
			} else if f == 0 {
				sb.WriteString("f0")
				return true
			}
		}
		sb.WriteString(strconv.FormatUint(k.c, 36))
		sb.WriteByte(';')
	case Str:
		k = k.force()
		if k.b != nil {
			return false
		}
		sb.WriteString(strconv.Itoa(len(k.s)))
		sb.WriteByte(':')
		sb.WriteString(k.s)
	case Ptr:
		if k.o == nil {
			sb.WriteString("nil;")
			return true
		}
		fmt.Fprintf(sb, "p%d+%d;", k.o.id, k.i)
	case *Iface:
		if k == nil {
			sb.WriteString("nil;")
			return true
		}
		if !types.Comparable(k.t) {
			panic(goPanic{in.rtErr("hash of unhashable type " + k.t.String())})
		}
		sb.WriteString(types.TypeString(k.t, nil))
		sb.WriteByte('=')
		return in.keyString(sb, k.v)
	case Agg:
		for _, c := range k {
			if !in.keyString(sb, c) {
				return false
			}
		}
	case *ChanObj:
		if k == nil {
			sb.WriteString("nil;")
		} else {
			fmt.Fprintf(sb, "c%d;", k.id)
		}
	default:
		panic(unsup("map key %T", k))
	}
	return true
}

// mapFind returns the entry index of k, or -1.
func (in *Interp) mapFind(m *MapObj, k Value) (int, string, bool) {
	var sb strings.Builder
	conc := in.keyString(&sb, k)
	key := sb.String()
	if conc {
		if i, ok := m.idx[key]; ok {
			return i, key, true
		}
		for _, i := range m.sym { // other concrete keys differ
			if e := &m.ents[i]; !e.dead && in.branch(in.eqTerm(k, e.k)) {
				return i, key, true
			}
		}
		return -1, key, true
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.dead {
			continue
		}
		eq := in.eqTerm(k, e.k)
		if eq.IsFalse() {
			continue
		}
		if in.branch(eq) {
			return i, key, conc
		}
	}
	return -1, key, conc
}

func (in *Interp) mapGet(m *MapObj, k Value) (Value, bool) {
	if m == nil {
		var sb strings.Builder
		in.keyString(&sb, k)
		return nil, false
	}
	in.accessMap(m, false)
	i, _, _ := in.mapFind(m, k)
	if i < 0 {
		return nil, false
	}
	return m.ents[i].v, true
}

func (in *Interp) mapSave(m *MapObj) {
	if m.epoch == in.epoch || m.gen == in.jgen {
		return
	}
	c := &MapObj{}
	*c = *m
	c.ents = append([]mapEnt(nil), m.ents...)
	c.idx = make(map[string]int, len(m.idx))
	for k, v := range m.idx {
		c.idx[k] = v
	}
	in.journal = append(in.journal, journalEnt{m: m, ms: c})
	m.gen = in.jgen
}

func (in *Interp) mapSet(m *MapObj, k, v Value) {
	if m == nil {
		panic(goPanic{in.rtErr("assignment to entry in nil map")})
	}
	in.accessMap(m, true)
	i, key, conc := in.mapFind(m, k)
	in.mapSave(m)
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	m.ents = append(m.ents, mapEnt{k: k, v: v})
	m.live++
	if conc {
		m.idx[key] = len(m.ents) - 1
	} else {
		m.sym = append(m.sym[:len(m.sym):len(m.sym)], len(m.ents)-1)
	}
}

func (in *Interp) mapDelete(m *MapObj, k Value) {
	if m == nil {
		return
	}
	in.accessMap(m, true)
	i, _, _ := in.mapFind(m, k)
	if i < 0 {
		return
	}
	in.mapSave(m)
	m.ents[i].dead = true
	m.live--
	var sb strings.Builder
	if in.keyString(&sb, m.ents[i].k) {
		delete(m.idx, sb.String())
	}
}

// shuffle picks an iteration order when the harness asked for all of them.
func (in *Interp) shuffle(it *RangeIter) {
	if in.ex == nil || !in.ex.opt.shuffleMaps || in.initing > 0 {
		return
	}
	n := len(it.order)
	if n > in.ex.opt.shuffleMax {
		return
	}
	for i := 0; i < n-1; i++ {
		j := i + in.ex.choose(n-i, "maporder")
		it.order[i], it.order[j] = it.order[j], it.order[i]
	}
}
