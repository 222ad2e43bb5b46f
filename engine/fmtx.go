package engine

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

func float64bits(f float64) uint64 { return math.Float64bits(f) }

func litSeg(s string) seg2 {
	b := make([]*Term, len(s))
	for i := range b {
		b[i] = theByteConst(s[i])
	}
	return seg2{b: b}
}

// byte constants that are not tied to a context: segments are converted on use.
var byteConsts [256]*Term

func theByteConst(c byte) *Term { return byteConsts[c] }

func init() {
	for i := range byteConsts {
		v := uint64(i)
		byteConsts[i] = &Term{op: OConst, w: 8, c: v, ko: v, kz: ^v & 0xff, umin: v, umax: v, smin: sext64(v, 8), smax: sext64(v, 8)}
	}
}

func segText(ss []seg2) (string, bool) {
	var sb strings.Builder
	for _, s := range ss {
		if s.num != nil {
			return sb.String(), false
		}
		for _, t := range s.b {
			if !t.IsConst() {
				return sb.String(), false
			}
			sb.WriteByte(byte(t.c))
		}
	}
	return sb.String(), true
}

// segStr turns segments into a string value.
func (in *Interp) segStr(ss []seg2) Str {
	for _, s := range ss {
		if s.num != nil && !s.num.IsConst() {
			return Str{o: &opaque{in: in, segs: ss}}
		}
	}
	return in.segConc(ss)
}

// strSegs gives the segments of a string.
func (in *Interp) strSegs(s Str) []seg2 {
	if s.o != nil && s.o.res == nil {
		return s.o.segs
	}
	return []seg2{{b: in.strTerms(s)}}
}

// segConc makes symbolic numbers concrete.
func (in *Interp) segConc(ss []seg2) Str {
	var b []*Term
	for _, s := range ss {
		if s.num != nil {
			if s.form != 'f' && !s.num.IsConst() {
				base := uint64(10)
				if s.form == 'x' {
					base = 16
				}
				b = append(b, in.numText(s.num, base, s.signed && base == 10)...)
				continue
			}
			v := in.conc(s.num)
			txt := strconv.FormatUint(v, 10)
			if s.form == 'x' {
				txt = strconv.FormatUint(v, 16)
			} else if s.form == 'f' {
				txt = fmt.Sprintf("%f", math.Float64frombits(v))
			} else if s.signed {
				txt = strconv.FormatInt(sext64(v, s.num.w), 10)
			}
			for i := 0; i < len(txt); i++ {
				b = append(b, in.x.Const(8, uint64(txt[i])))
			}
			continue
		}
		for _, t := range s.b {
			if t.IsConst() {
				t = in.x.Const(8, t.c)
			}
			b = append(b, t)
		}
	}
	return in.mkStr(b)
}

// numText is the text of a number: its sign and its length are decided by case, its digits are not.
func (in *Interp) numText(num *Term, base uint64, signed bool) (b []*Term) {
	x := in.x
	if signed && in.branch(x.Slt(num, x.Const(num.w, 0))) {
		b = append(b, x.Const(8, '-'))
		num = x.Neg(num)
	}
	num = x.Resize(num, 64, false)
	n := 1
	for lim := base; in.branch(x.Ule(x.Const(64, lim), num)); n++ {
		if lim > math.MaxUint64/base {
			n++
			break
		}
		lim *= base
	}
	for k := n - 1; k >= 0; k-- {
		b = append(b, in.digit(num, base, k))
	}
	return b
}

type digitOf struct {
	num  *Term
	base uint64
	k    int
}

// digit is the digit of a number at place k, counted from its end.
func (in *Interp) digit(num *Term, base uint64, k int) *Term {
	x := in.x
	t := num
	if base == 16 {
		t = x.BVAnd(x.Lshr(t, x.Const(64, uint64(4*k))), x.Const(64, 15))
	} else {
		div := uint64(1)
		for i := 0; i < k; i++ {
			div *= 10
		}
		t = x.URem(x.UDiv(t, x.Const(64, div)), x.Const(64, 10))
	}
	d := x.Extract(t, 7, 0)
	if base == 16 {
		d = x.Ite(x.Ult(d, x.Const(8, 10)), x.Add(d, x.Const(8, '0')), x.Add(d, x.Const(8, 'a'-10)))
	} else {
		d = x.Add(d, x.Const(8, '0'))
	}
	if !d.IsConst() {
		if in.digits == nil {
			in.digits = map[*Term]digitOf{}
		}
		in.digits[d] = digitOf{num, base, k}
	}
	return d
}

func (in *Interp) isError(t types.Type) bool {
	return types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

// native converts a concrete value to a host value for fmt; ok is false when it is symbolic or composite.
func (in *Interp) hostVal(v Value, t types.Type) (interface{}, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch w := v.(type) {
		case *Term:
			if !w.IsConst() {
				return nil, false
			}
			info := u.Info()
			switch {
			case info&types.IsBoolean != 0:
				return w.c == 1, true
			case info&types.IsFloat != 0:
				f := math.Float64frombits(w.c)
				if u.Kind() == types.Float32 {
					return float32(f), true
				}
				return f, true
			}
			switch u.Kind() {
			case types.Int, types.UntypedInt:
				return int(w.SVal()), true
			case types.Int8:
				return int8(w.SVal()), true
			case types.Int16:
				return int16(w.SVal()), true
			case types.Int32, types.UntypedRune:
				return int32(w.SVal()), true
			case types.Int64:
				return w.SVal(), true
			case types.Uint:
				return uint(w.c), true
			case types.Uint8:
				return uint8(w.c), true
			case types.Uint16:
				return uint16(w.c), true
			case types.Uint32:
				return uint32(w.c), true
			case types.Uint64:
				return w.c, true
			case types.Uintptr:
				return uintptr(w.c), true
			}
		case Str:
			if w.o != nil && w.o.res == nil {
				return nil, false
			}
			w = w.force()
			if w.b != nil {
				return nil, false
			}
			return w.s, true
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			s := v.(Slice)
			out := make([]byte, s.len)
			for i := range out {
				t := in.ld(s.o, s.off+i).(*Term)
				if !t.IsConst() {
					return nil, false
				}
				out[i] = byte(t.c)
			}
			return out, true
		}
	}
	return nil, false
}

// fmtArg formats one operand under a directive such as %5d.
func (in *Interp) fmtArg(dir string, verb byte, a *Iface) []seg2 {
	if a == nil {
		return []seg2{litSeg(fmt.Sprintf(dir, nil))}
	}
	sharp := strings.Contains(dir, "#")
	if verb == 'T' {
		return []seg2{litSeg(a.t.String())}
	}
	if !sharp && (verb == 'v' || verb == 's' || verb == 'q') {
		for _, name := range []string{"Error", "String"} {
			if m := in.prog.methodNamed(a.t, name); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 && in.ti(m.Signature.Results().At(0).Type()).kind == kString {
				r := in.callSync(&Func{fn: m}, []Value{a.v}).(Str)
				if r.o != nil && (dir == "%s" || dir == "%v") {
					return in.strSegs(r)
				}
				r = r.force()
				if r.b != nil {
					return []seg2{{b: r.b}}
				}
				return []seg2{litSeg(fmt.Sprintf(dir, r.s))}
			}
		}
	}
	if h, ok := in.hostVal(a.v, a.t); ok {
		if sharp && verb == 'v' {
			return in.goSyntax(a.v, a.t, 0)
		}
		return []seg2{litSeg(fmt.Sprintf(dir, h))}
	}
	if sharp && verb == 'v' {
		return in.goSyntax(a.v, a.t, 0)
	}
	switch in.ti(a.t).kind {
	case kInt:
		if (verb == 'd' || verb == 'v') && dir == "%"+string(verb) {
			return []seg2{{num: a.v.(*Term), signed: in.ti(a.t).signed}}
		}
		if dir == "%x" && !in.ti(a.t).signed {
			return []seg2{{num: a.v.(*Term), form: 'x'}}
		}
		v := in.conc(a.v.(*Term))
		h, _ := in.hostVal(in.x.Const(in.ti(a.t).w, v), a.t)
		return []seg2{litSeg(fmt.Sprintf(dir, h))}
	case kFloat:
		if dir == "%f" {
			return []seg2{{num: a.v.(*Term), form: 'f'}}
		}
	case kString:
		if (verb == 's' || verb == 'v') && (dir == "%s" || dir == "%v") {
			return in.strSegs(a.v.(Str))
		}
		return []seg2{litSeg(fmt.Sprintf(dir, in.concStr(a.v)))}
	case kBool:
		if in.branch(a.v.(*Term)) {
			return []seg2{litSeg(fmt.Sprintf(dir, true))}
		}
		return []seg2{litSeg(fmt.Sprintf(dir, false))}
	case kSlice, kArray, kStruct, kMap, kPtr, kIface:
		if dir == "%v" || dir == "%d" || dir == "%+v" || dir == "%s" {
			return in.plainV(dir, verb, a.v, a.t, 0)
		}
	}
	panic(unsup("formatting %v with %s", a.t, dir))
}

func (in *Interp) elemAt(s Slice, i int, t types.Type) Value {
	ti := in.ti(t)
	if ti.agg {
		a := make(Agg, ti.n)
		for k := range a {
			a[k] = in.ld(s.o, s.off+i*s.es+k)
		}
		return a
	}
	return in.ld(s.o, s.off+i*s.es)
}

// plainV formats composite values as %v does.
func (in *Interp) plainV(dir string, verb byte, v Value, t types.Type, depth int) []seg2 {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := v.(Slice)
		out := []seg2{litSeg("[")}
		for i := 0; i < s.len; i++ {
			if i > 0 {
				out = append(out, litSeg(" "))
			}
			out = append(out, in.fmtArg(dir, verb, &Iface{u.Elem(), in.elemAt(s, i, u.Elem())})...)
		}
		return append(out, litSeg("]"))
	case *types.Array:
		a := v.(Agg)
		es := in.ti(u.Elem()).n
		out := []seg2{litSeg("[")}
		for i := 0; i < int(u.Len()); i++ {
			if i > 0 {
				out = append(out, litSeg(" "))
			}
			var e Value = a[i*es : (i+1)*es]
			if !in.ti(u.Elem()).agg {
				e = a[i]
			}
			out = append(out, in.fmtArg(dir, verb, &Iface{u.Elem(), e})...)
		}
		return append(out, litSeg("]"))
	case *types.Struct:
		a := v.(Agg)
		ti := in.ti(t)
		out := []seg2{litSeg("{")}
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				out = append(out, litSeg(" "))
			}
			if strings.Contains(dir, "+") {
				out = append(out, litSeg(u.Field(i).Name()+":"))
			}
			out = append(out, in.fmtArg(dir, verb, &Iface{u.Field(i).Type(), in.fieldOf(a, ti, i, u.Field(i).Type())})...)
		}
		return append(out, litSeg("}"))
	case *types.Map:
		m := v.(*MapObj)
		out := []seg2{litSeg("map[")}
		for i, e := range in.sortedEnts(m) {
			if i > 0 {
				out = append(out, litSeg(" "))
			}
			out = append(out, in.fmtArg(dir, verb, &Iface{u.Key(), e.k})...)
			out = append(out, litSeg(":"))
			out = append(out, in.fmtArg(dir, verb, &Iface{u.Elem(), e.v})...)
		}
		return append(out, litSeg("]"))
	case *types.Interface:
		i := v.(*Iface)
		return in.fmtArg(dir, verb, i)
	case *types.Pointer:
		p := v.(Ptr)
		if p.o == nil {
			return []seg2{litSeg("<nil>")}
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return append([]seg2{litSeg("&")}, in.plainV(dir, verb, in.loadT(p, u.Elem()), u.Elem(), 1)...)
			}
		}
		return []seg2{litSeg("0xc000012345")}
	}
	panic(unsup("%%v of %v", t))
}

func (in *Interp) fieldOf(a Agg, ti *typeInfo, i int, ft types.Type) Value {
	f := in.ti(ft)
	if f.agg {
		return a[ti.fields[i] : ti.fields[i]+f.n]
	}
	return a[ti.fields[i]]
}

func (in *Interp) sortedEnts(m *MapObj) []mapEnt {
	var es []mapEnt
	if m == nil {
		return nil
	}
	for _, e := range m.ents {
		if !e.dead {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		switch a := es[i].k.(type) {
		case Str:
			return in.branch(in.strLess(a, es[j].k.(Str), false))
		case *Term:
			return in.branch(in.x.Slt(a, es[j].k.(*Term)))
		}
		panic(unsup("sorting map keys of type %T", es[i].k))
	})
	return es
}

func (in *Interp) typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// goSyntax formats as %#v does.
func (in *Interp) goSyntax(v Value, t types.Type, depth int) []seg2 {
	tn := in.typeName(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if h, ok := in.hostVal(v, t); ok {
			return []seg2{litSeg(fmt.Sprintf("%#v", h))}
		}
		switch in.ti(t).kind {
		case kInt:
			if in.ti(t).signed {
				return []seg2{{num: v.(*Term), signed: true}}
			}
			return []seg2{litSeg("0x"), {num: v.(*Term), form: 'x'}}
		case kString:
			return []seg2{litSeg(strconv.Quote(in.concStr(v)))}
		case kBool:
			return []seg2{litSeg(fmt.Sprint(in.branch(v.(*Term))))}
		}
		w := in.conc(v.(*Term))
		h, _ := in.hostVal(in.x.Const(v.(*Term).w, w), t)
		return []seg2{litSeg(fmt.Sprintf("%#v", h))}
	case *types.Struct:
		a := v.(Agg)
		ti := in.ti(t)
		out := []seg2{litSeg(tn + "{")}
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				out = append(out, litSeg(", "))
			}
			out = append(out, litSeg(u.Field(i).Name()+":"))
			out = append(out, in.goSyntax(in.fieldOf(a, ti, i, u.Field(i).Type()), u.Field(i).Type(), depth+1)...)
		}
		return append(out, litSeg("}"))
	case *types.Slice:
		s := v.(Slice)
		if s.o == nil {
			return []seg2{litSeg(tn + "(nil)")}
		}
		out := []seg2{litSeg(tn + "{")}
		for i := 0; i < s.len; i++ {
			if i > 0 {
				out = append(out, litSeg(", "))
			}
			out = append(out, in.goSyntax(in.elemAt(s, i, u.Elem()), u.Elem(), depth+1)...)
		}
		return append(out, litSeg("}"))
	case *types.Map:
		m := v.(*MapObj)
		if m == nil {
			return []seg2{litSeg(tn + "(nil)")}
		}
		out := []seg2{litSeg(tn + "{")}
		for i, e := range in.sortedEnts(m) {
			if i > 0 {
				out = append(out, litSeg(", "))
			}
			out = append(out, in.goSyntax(e.k, u.Key(), depth+1)...)
			out = append(out, litSeg(":"))
			out = append(out, in.goSyntax(e.v, u.Elem(), depth+1)...)
		}
		return append(out, litSeg("}"))
	case *types.Pointer:
		p := v.(Ptr)
		if p.o == nil {
			return []seg2{litSeg("(" + tn + ")(nil)")}
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return append([]seg2{litSeg("&")}, in.goSyntax(in.loadT(p, u.Elem()), u.Elem(), 1)...)
			}
		}
		return []seg2{litSeg("(" + tn + ")(0xc000012345)")}
	case *types.Interface:
		i := v.(*Iface)
		if i == nil {
			return []seg2{litSeg(tn + "(nil)")}
		}
		return in.goSyntax(i.v, i.t, depth)
	}
	panic(unsup("%%#v of %v", t))
}

func (in *Interp) variadic(v Value) []*Iface {
	s := v.(Slice)
	out := make([]*Iface, s.len)
	for i := range out {
		out[i], _ = in.ld(s.o, s.off+i).(*Iface)
	}
	return out
}

func (in *Interp) sprintf(format string, args []*Iface) []seg2 {
	var out []seg2
	ai := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = append(out, litSeg(format[i:]))
			break
		}
		if j > 0 {
			out = append(out, litSeg(format[i:i+j]))
		}
		i += j
		k := i + 1
		for k < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			out = append(out, litSeg("%!(NOVERB)"))
			break
		}
		dir := format[i : k+1]
		verb := format[k]
		i = k + 1
		if verb == '%' {
			out = append(out, litSeg("%"))
			continue
		}
		if strings.ContainsAny(dir, "[]") {
			panic(unsup("format directive %s", dir))
		}
		for strings.Contains(dir, "*") {
			if ai >= len(args) {
				panic(unsup("format %s without argument", dir))
			}
			n := in.concInt(args[ai].v.(*Term))
			ai++
			dir = strings.Replace(dir, "*", strconv.Itoa(n), 1)
		}
		if ai >= len(args) {
			out = append(out, litSeg("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		out = append(out, in.fmtArg(dir, verb, a)...)
	}
	if ai < len(args) {
		out = append(out, litSeg("%!(EXTRA)"))
	}
	return out
}

func (in *Interp) sprint(args []*Iface, ln bool) []seg2 {
	var out []seg2
	prevStr := true
	for i, a := range args {
		isStr := a != nil && in.ti(a.t).kind == kString
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = append(out, litSeg(" "))
		}
		out = append(out, in.fmtArg("%v", 'v', a)...)
		prevStr = isStr
	}
	if ln {
		out = append(out, litSeg("\n"))
	}
	return out
}

func segLen(ss []seg2) int {
	n := 0
	for _, s := range ss {
		n += len(s.b)
		if s.num != nil {
			n++
		}
	}
	return n
}

// strconv's numbers of symbolic values.
func init() {
	format := func(num, base int, signed, app bool) intrinsic {
		return func(c *icall) {
			t, bs := c.args[num].(*Term), uint64(10)
			if base >= 0 {
				if b := c.args[base].(*Term); b.IsConst() {
					bs = b.c
				} else {
					bs = 0
				}
			}
			if t.IsConst() || bs != 10 && bs != 16 {
				c.callReal()
				return
			}
			if bs == 10 && !app {
				c.ret(c.in.segStr([]seg2{{num: t, signed: signed}}))
				return
			}
			b := c.in.numText(t, bs, signed)
			if !app {
				c.ret(c.in.mkStr(b))
				return
			}
			vs := make([]Value, len(b))
			for i := range b {
				vs[i] = b[i]
			}
			c.ret(c.in.appendVals(c.args[0].(Slice), vs, len(vs), types.Typ[types.Uint8]))
		}
	}
	reg(format(0, -1, true, false), "strconv.Itoa")
	reg(format(0, 1, true, false), "strconv.FormatInt")
	reg(format(0, 1, false, false), "strconv.FormatUint")
	reg(format(1, 2, true, true), "strconv.AppendInt")
	reg(format(1, 2, false, true), "strconv.AppendUint")
}

func init() {
	emit := func(c *icall, std int, ss []seg2) {
		c.in.emit(std, ss)
		c.ret(Tuple{c.int(segLen(ss)), (*Iface)(nil)})
	}
	reg(func(c *icall) { emit(c, 1, c.in.sprintf(c.str(0), c.in.variadic(c.args[1]))) }, "fmt.Printf")
	reg(func(c *icall) { emit(c, 1, c.in.sprint(c.in.variadic(c.args[0]), true)) }, "fmt.Println")
	reg(func(c *icall) { emit(c, 1, c.in.sprint(c.in.variadic(c.args[0]), false)) }, "fmt.Print")
	reg(func(c *icall) { c.ret(c.in.segStr(c.in.sprintf(c.str(0), c.in.variadic(c.args[1])))) }, "fmt.Sprintf")
	reg(func(c *icall) { c.ret(c.in.segStr(c.in.sprint(c.in.variadic(c.args[0]), true))) }, "fmt.Sprintln")
	reg(func(c *icall) { c.ret(c.in.segStr(c.in.sprint(c.in.variadic(c.args[0]), false))) }, "fmt.Sprint")
	reg(func(c *icall) {
		in := c.in
		format, args := c.str(0), in.variadic(c.args[1])
		var wrapped *Iface
		if n := strings.Count(strings.Replace(format, "%%", "", -1), "%w"); n == 1 {
			for _, a := range args {
				if a != nil && in.isError(a.t) {
					if wrapped != nil {
						panic(unsup("Errorf with several errors"))
					}
					wrapped = a
				}
			}
		} else if n > 1 {
			panic(unsup("Errorf with several errors"))
		}
		s := in.segStr(in.sprintf(strings.Replace(format, "%w", "%v", -1), args))
		if wrapped != nil {
			et := in.prog.typ("fmt", "wrapError")
			o := in.alloc(et)
			o.rawSet(0, s)
			o.rawSet(in.ti(et).fields[1], wrapped)
			c.ret(&Iface{types.NewPointer(et), Ptr{o, 0}})
			return
		}
		et := in.prog.typ("errors", "errorString")
		o := in.alloc(et)
		o.rawSet(0, s)
		c.ret(&Iface{types.NewPointer(et), Ptr{o, 0}})
	}, "fmt.Errorf")
	reg(func(c *icall) {
		c.ret(Str{s: syscall.Errno(c.in.conc(c.term(0))).Error()})
	}, "(syscall.Errno).Error")
	reg(func(c *icall) {
		err, _ := c.args[0].(*Iface)
		target, _ := c.args[1].(*Iface)
		if err == nil || target == nil {
			c.ret(c.in.x.Bool(err == nil && target == nil))
			return
		}
		is := c.in.prog.pkgs["errors"].Func("is")
		c.in.pushCall(c.g, &Func{fn: is}, []Value{err, target, c.in.x.Bool(types.Comparable(target.t))}, -1, c.ret)
	}, "errors.Is")
	reg(func(c *icall) {
		in := c.in
		target, _ := c.args[1].(*Iface)
		if target == nil {
			panic(unsup("errors.As of no target"))
		}
		want := target.t.Underlying().(*types.Pointer).Elem()
		it, isIface := want.Underlying().(*types.Interface)
		for err, _ := c.args[0].(*Iface); err != nil; {
			if isIface && in.implements(err.t, it) {
				in.storeT(target.v.(Ptr), err, want)
				c.ret(in.x.True)
				return
			}
			if !isIface && types.Identical(err.t, want) {
				in.storeT(target.v.(Ptr), err.v, want)
				c.ret(in.x.True)
				return
			}
			if in.prog.methodNamed(err.t, "As") != nil {
				panic(unsup("errors.As of an error with a method As"))
			}
			m := in.prog.methodNamed(err.t, "Unwrap")
			if m == nil {
				break
			}
			if _, ok := m.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
				panic(unsup("errors.As of several errors"))
			}
			err, _ = in.callSync(&Func{fn: m}, []Value{err.v}).(*Iface)
		}
		c.ret(in.x.False)
	}, "errors.As")
	for _, k := range []string{"", "f", "ln"} { // log writes to stderr
		k := k
		text := func(c *icall) []seg2 {
			if k == "f" {
				return c.in.sprintf(c.str(0), c.in.variadic(c.args[1]))
			}
			return c.in.sprint(c.in.variadic(c.args[0]), k == "ln")
		}
		reg(func(c *icall) { text(c); c.ret(nil) }, "log.Print"+k)
		reg(func(c *icall) {
			text(c)
			c.in.procExit(c.g.proc, 1, "exit 1")
			c.g.done = true
		}, "log.Fatal"+k)
		reg(func(c *icall) {
			panic(goPanic{&Iface{types.Typ[types.String], c.in.segStr(text(c))}})
		}, "log.Panic"+k)
	}
	reg(func(c *icall) { c.ret(nil) }, "log.SetFlags", "log.SetPrefix")
	fp := func(c *icall, ss []seg2) {
		in := c.in
		w := c.args[0].(*Iface)
		if w == nil {
			panic(goPanic{in.rtErr("invalid memory address or nil pointer dereference")})
		}
		if p, ok := w.v.(Ptr); ok {
			if i, ok := in.stdFiles[p.o]; ok {
				emit(c, i, ss)
				return
			}
		}
		m := in.prog.methodNamed(w.t, "Write")
		if m == nil {
			panic(unsup("Fprintf to %v", w.t))
		}
		b := in.bytesSlice(in.strTerms(in.segStr(ss)))
		in.pushCall(c.g, &Func{fn: m}, []Value{w.v, b}, -1, c.ret)
	}
	reg(func(c *icall) { fp(c, c.in.sprintf(c.str(1), c.in.variadic(c.args[2]))) }, "fmt.Fprintf")
	reg(func(c *icall) { fp(c, c.in.sprint(c.in.variadic(c.args[1]), true)) }, "fmt.Fprintln")
	reg(func(c *icall) { fp(c, c.in.sprint(c.in.variadic(c.args[1]), false)) }, "fmt.Fprint")
}

var _ = ssa.NaiveForm
