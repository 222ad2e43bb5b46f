package engine

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, Ptr, UPtr, Slice, Str, Agg, *Iface (nil *Iface is the nil interface),
// *Func (nil is the nil func), *MapObj, *ChanObj, Tuple, *RangeIter, HdrPtr.
type Value interface{}

// Agg is a flattened struct or array value.  Never mutated after creation.
type Agg []Value

// Tuple is a multi-value result.
type Tuple []Value

// Ptr points at cell i of o.
type Ptr struct {
	o *Obj
	i int
}

// UPtr is an unsafe.Pointer: a pointer plus the element type it was made from.
type UPtr struct {
	p    Value // Ptr or HdrPtr (Ptr{} for nil)
	elem types.Type
}

// HdrPtr points at the header (reflect.SliceHeader-like view) of a slice or interface cell, or at one word of it.
type HdrPtr struct {
	cell  Ptr
	elem  types.Type // type of the cell's variable: slice, string or interface
	field int        // -1: the whole header
	to    types.Type // the whole header seen as that of another slice type, or nil
}

// Slice of elements of es cells each; off is in cells, len and cap in elements.
type Slice struct {
	o             *Obj
	off, len, cap int
	es            int
}

// Str is a string: concrete (b == nil) or with symbolic bytes.
type Str struct {
	s string
	b []*Term
	o *opaque // text with symbolic numbers in it, not yet made concrete
}

// opaque is a formatted text whose symbolic numbers have not been needed digit by digit.
type opaque struct {
	in   *Interp
	segs []seg2
	res  *Str
}

// force makes the digits of an opaque text concrete.
func (s Str) force() Str {
	if s.o == nil {
		return s
	}
	if s.o.res == nil {
		r := s.o.in.segConc(s.o.segs)
		s.o.res = &r
	}
	return *s.o.res
}

func (s Str) Len() int {
	if s.o != nil {
		return s.force().Len()
	}
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

// Iface is a non-nil interface value.
type Iface struct {
	t types.Type
	v Value
}

// Func is a function value.
type Func struct {
	fn     *ssa.Function
	bind   []Value
	native func(in *Interp, g *Gor, args []Value) Value
	name   string
}

// Obj is a memory object made of cells.
type Obj struct {
	id    int
	n     int
	zeros []Value
	cells []Value
	pages []*[pageSize]Value
	epoch int
	ro    bool
	dead  string // non-empty: accesses fault (unmapped)
	lay   *layout
	// view objects
	base    *Obj
	baseOff int // byte offset into base
	typ     types.Type
	mp      *mapping
	bytes   bool // byte view of a byte object
	shadow  *hbShadow
}

// mapping is a memory mapping; views made from it share its state.
type mapping struct {
	ro   bool
	dead string
}

const pageSize = 256
const denseMax = 2048

// layout gives the byte position of each cell in an element.
type layout struct {
	off  []int // per cell in element
	size []int
	esz  int // element size in bytes
	ok   bool
}

// MapObj is a map.
type MapObj struct {
	id     int
	ents   []mapEnt
	idx    map[string]int
	sym    []int // the entries with symbolic keys
	live   int
	epoch  int
	kt     types.Type
	vt     types.Type
	gen    int
	shadow *hbShadow
}

type mapEnt struct {
	k, v Value
	dead bool
}

// ChanObj is a channel.
type ChanObj struct {
	id     int
	cap    int
	buf    []Value
	closed bool
	epoch  int
	et     types.Type
}

// RangeIter iterates over a map or string.
type RangeIter struct {
	m     *MapObj
	order []int
	pos   int
	s     Str
	isStr bool
}

func isNilVal(v Value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case Ptr:
		return v.o == nil
	case UPtr:
		p, ok := v.p.(Ptr)
		return v.p == nil || (ok && p.o == nil)
	case HdrPtr:
		return false
	case Slice:
		return v.o == nil
	case *Iface:
		return v == nil
	case *Func:
		return v == nil
	case *MapObj:
		return v == nil
	case *ChanObj:
		return v == nil
	}
	panic(unsup("isNil on %T", v))
}

// typeInfo caches layout facts about a type.
type typeInfo struct {
	n      int
	zeros  []Value
	agg    bool
	fields []int // struct: start cell of each field
	elemN  int   // array: cells per element
	kind   tkind
	w      uint8
	signed bool
}

type tkind uint8

const (
	kOther tkind = iota
	kBool
	kInt
	kFloat
	kString
	kPtr
	kUnsafe
	kSlice
	kIface
	kFunc
	kMap
	kChan
	kStruct
	kArray
	kTuple
)

type typeKeyer struct {
	m map[types.Type]*typeInfo
}

func (in *Interp) ti(t types.Type) *typeInfo {
	if ti, ok := in.tinfo[t]; ok {
		return ti
	}
	ti := in.mkTI(t)
	in.tinfo[t] = ti
	return ti
}

func (in *Interp) mkTI(t types.Type) *typeInfo {
	x := in.x
	one := func(k tkind, z Value) *typeInfo { return &typeInfo{n: 1, zeros: []Value{z}, kind: k} }
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case u.Kind() == types.UnsafePointer:
			return one(kUnsafe, UPtr{})
		case info&types.IsBoolean != 0:
			r := one(kBool, x.False)
			return r
		case info&types.IsInteger != 0:
			w := basicWidth(u.Kind())
			r := one(kInt, x.Const(w, 0))
			r.w = w
			r.signed = info&types.IsUnsigned == 0
			return r
		case info&types.IsFloat != 0:
			r := one(kFloat, x.Const(WFloat, 0))
			r.w = WFloat
			return r
		case info&types.IsString != 0:
			return one(kString, Str{})
		case u.Kind() == types.UntypedNil:
			return one(kOther, Ptr{})
		case info&types.IsComplex != 0:
			return one(kOther, nil)
		case u.Kind() == types.Invalid:
			return one(kOther, nil)
		}
		panic(unsup("basic type %v", t))
	case *types.Pointer:
		return one(kPtr, Ptr{})
	case *types.Slice:
		return one(kSlice, Slice{es: in.ti(u.Elem()).n})
	case *types.Interface:
		return one(kIface, (*Iface)(nil))
	case *types.Signature:
		return one(kFunc, (*Func)(nil))
	case *types.Map:
		return one(kMap, (*MapObj)(nil))
	case *types.Chan:
		return one(kChan, (*ChanObj)(nil))
	case *types.Struct:
		r := &typeInfo{kind: kStruct, agg: true}
		for i := 0; i < u.NumFields(); i++ {
			f := in.ti(u.Field(i).Type())
			r.fields = append(r.fields, r.n)
			r.n += f.n
			r.zeros = append(r.zeros, f.zeros...)
		}
		return r
	case *types.Array:
		e := in.ti(u.Elem())
		r := &typeInfo{kind: kArray, agg: true, elemN: e.n}
		n := int(u.Len())
		r.n = e.n * n
		if r.n > 1<<22 {
			panic(unsup("array type too large: %v", t))
		}
		r.zeros = make([]Value, 0, r.n)
		for i := 0; i < n; i++ {
			r.zeros = append(r.zeros, e.zeros...)
		}
		return r
	case *types.Tuple:
		return &typeInfo{kind: kTuple}
	}
	return &typeInfo{n: 1, zeros: []Value{nil}, kind: kOther}
}

func basicWidth(k types.BasicKind) uint8 {
	switch k {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

// zero returns the zero value of t.
func (in *Interp) zero(t types.Type) Value {
	ti := in.ti(t)
	if ti.agg {
		return Agg(ti.zeros)
	}
	if ti.n == 1 {
		return ti.zeros[0]
	}
	return nil
}

// ---- objects

func (in *Interp) newObj(n int, zeros []Value) *Obj {
	in.objSeq++
	o := &Obj{id: in.objSeq, n: n, zeros: zeros, epoch: in.epoch}
	if n <= denseMax {
		o.cells = make([]Value, n)
		nz := len(zeros)
		if nz == 1 {
			z := zeros[0]
			for i := range o.cells {
				o.cells[i] = z
			}
		} else {
			for i := range o.cells {
				o.cells[i] = zeros[i%nz]
			}
		}
	} else {
		o.pages = make([]*[pageSize]Value, (n+pageSize-1)/pageSize)
	}
	return o
}

// alloc makes an object holding one value of type t.
func (in *Interp) alloc(t types.Type) *Obj {
	ti := in.ti(t)
	o := in.newObj(ti.n, ti.zeros)
	o.typ = t
	return o
}

// newArr makes an object of n elements of type t.
func (in *Interp) newArr(t types.Type, n int) *Obj {
	ti := in.ti(t)
	if n*ti.n > 1<<28 {
		panic(unsup("allocation of %d cells", n*ti.n))
	}
	o := in.newObj(n*ti.n, ti.zeros)
	o.typ = t
	return o
}

func (o *Obj) raw(i int) Value {
	if o.cells != nil || o.n == 0 {
		return o.cells[i]
	}
	p := o.pages[i/pageSize]
	if p == nil {
		return o.zeros[i%len(o.zeros)]
	}
	return p[i%pageSize]
}

func (o *Obj) rawSet(i int, v Value) {
	if o.cells != nil {
		o.cells[i] = v
		return
	}
	p := o.pages[i/pageSize]
	if p == nil {
		p = new([pageSize]Value)
		base := i / pageSize * pageSize
		for j := range p {
			p[j] = o.zeros[(base+j)%len(o.zeros)]
		}
		o.pages[i/pageSize] = p
	}
	p[i%pageSize] = v
}

type journalEnt struct {
	o   *Obj
	i   int
	old Value
	m   *MapObj
	ms  *MapObj // saved copy
}

func (in *Interp) ld(o *Obj, i int) Value {
	if o == nil {
		panic(goPanic{in.rtErr("invalid memory address or nil pointer dereference")})
	}
	if o.base != nil {
		return in.viewLoad(o, i)
	}
	if o.dead != "" {
		o.unusable()
	}
	if i < 0 || i >= o.n {
		panic(unsup("engine: cell %d out of object of %d cells", i, o.n))
	}
	if in.hb != nil {
		in.accessObj(o, i, false)
	}
	return o.raw(i)
}

func (o *Obj) unusable() {
	if strings.HasPrefix(o.dead, notInit) {
		panic(unsup("the initial value of %s", o.dead[len(notInit):]))
	}
	panic(crash{"access to unmapped memory (" + o.dead + ")"})
}

// isZero tells if an object still holds zero values only.
func (in *Interp) isZero(o *Obj) bool {
	for i := 0; i < o.n; i++ {
		switch v := o.raw(i).(type) {
		case nil:
		case *Term:
			if !v.IsConst() || v.c != 0 {
				return false
			}
		case Str:
			if v.o != nil || v.b != nil || v.s != "" {
				return false
			}
		case Ptr:
			if v.o != nil {
				return false
			}
		case Slice:
			if v.o != nil {
				return false
			}
		case *Iface:
			if v != nil {
				return false
			}
		case *Func:
			if v != nil {
				return false
			}
		case *MapObj:
			if v != nil {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (in *Interp) st(o *Obj, i int, v Value) {
	if o == nil {
		panic(goPanic{in.rtErr("invalid memory address or nil pointer dereference")})
	}
	if o.base != nil {
		in.viewStore(o, i, v)
		return
	}
	if o.dead != "" {
		o.unusable()
	}
	if o.ro {
		panic(crash{"write to read-only memory"})
	}
	if i < 0 || i >= o.n {
		panic(unsup("engine: cell %d out of object of %d cells", i, o.n))
	}
	if in.hb != nil {
		in.accessObj(o, i, true)
	}
	if o.epoch != in.epoch {
		in.journal = append(in.journal, journalEnt{o: o, i: i, old: o.raw(i)})
	}
	o.rawSet(i, v)
}

func (in *Interp) rollback() { in.rollbackTo(0) }

func (in *Interp) rollbackTo(n int) {
	for k := len(in.journal) - 1; k >= n; k-- {
		e := in.journal[k]
		if e.m != nil {
			id := e.m.id
			*e.m = *e.ms
			e.m.id = id
			continue
		}
		e.o.rawSet(e.i, e.old)
	}
	in.journal = in.journal[:n]
}

// loadT loads a value of type t from a pointer.
func (in *Interp) loadT(p Value, t types.Type) Value {
	switch p := p.(type) {
	case Ptr:
		ti := in.ti(t)
		if !ti.agg {
			return in.ld(p.o, p.i)
		}
		if p.o == nil {
			panic(goPanic{in.rtErr("invalid memory address or nil pointer dereference")})
		}
		a := make(Agg, ti.n)
		for k := range a {
			a[k] = in.ld(p.o, p.i+k)
		}
		return a
	case HdrPtr:
		return in.hdrLoad(p)
	}
	panic(unsup("load through %T", p))
}

func (in *Interp) storeT(p Value, v Value, t types.Type) {
	switch p := p.(type) {
	case Ptr:
		if p.o == nil {
			panic(goPanic{in.rtErr("invalid memory address or nil pointer dereference")})
		}
		if a, ok := v.(Agg); ok {
			for k := range a {
				in.st(p.o, p.i+k, a[k])
			}
			return
		}
		in.st(p.o, p.i, v)
	case HdrPtr:
		in.hdrStore(p, v)
	default:
		panic(unsup("store through %T", p))
	}
}

// ---- byte views

// layoutOf computes the byte layout of a type made of fixed-size scalars.
func (in *Interp) layoutOf(t types.Type) *layout {
	if l, ok := in.layouts[t]; ok {
		return l
	}
	l := &layout{ok: true}
	var walk func(t types.Type, base int)
	walk = func(t types.Type, base int) {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&(types.IsInteger|types.IsBoolean|types.IsFloat) == 0 || u.Kind() == types.Float32 {
				l.ok = false
			}
			l.off = append(l.off, base)
			l.size = append(l.size, int(in.sizes.Sizeof(t)))
		case *types.Struct:
			var fs []*types.Var
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, u.Field(i))
			}
			offs := in.sizes.Offsetsof(fs)
			for i, f := range fs {
				walk(f.Type(), base+int(offs[i]))
			}
		case *types.Array:
			sz := int(in.sizes.Sizeof(u.Elem()))
			if u.Len() > 1<<24 {
				panic(unsup("layout of an array of %d elements", u.Len()))
			}
			for i := 0; i < int(u.Len()); i++ {
				walk(u.Elem(), base+i*sz)
			}
		default:
			l.ok = false
			l.off = append(l.off, base)
			l.size = append(l.size, int(in.sizes.Sizeof(t)))
		}
	}
	walk(t, 0)
	l.esz = int(in.sizes.Sizeof(t))
	in.layouts[t] = l
	return l
}

// byteOff is the byte offset of cell i of o (from the start of o's base).
func (in *Interp) byteOff(o *Obj, i int) int {
	l := in.objLayout(o)
	nc := len(l.off)
	r := o.baseOff + i/nc*l.esz
	return r + l.off[i%nc]
}

// elemOf is the type of which an object of type t is a sequence.
func elemOf(t types.Type) types.Type {
	for {
		a, ok := t.Underlying().(*types.Array)
		if !ok || a.Len() == 0 {
			return t
		}
		t = a.Elem()
	}
}

func (in *Interp) objLayout(o *Obj) *layout {
	if o.lay == nil {
		if o.typ == nil {
			panic(unsup("no layout for object"))
		}
		o.lay = in.layoutOf(elemOf(o.typ))
	}
	if len(o.lay.off) == 0 {
		panic(unsup("layout of zero-size type"))
	}
	return o.lay
}

// view returns an object viewing o from cell i as a sequence of elements of type t.
func (in *Interp) view(o *Obj, i int, t types.Type) (*Obj, int) {
	lt := in.layoutOf(t)
	lo := in.objLayout(o)
	if !lt.ok || !lo.ok {
		panic(unsup("reinterpretation of %v as %v", o.typ, t))
	}
	root := o
	if o.base != nil {
		root = o.base
	}
	bo := in.byteOff(o, i)
	// same layout as the root: no view needed
	lr := in.objLayout(root)
	if o.mp == nil && sameLayout(lr, lt) && bo%lr.esz == 0 {
		return root, bo / lr.esz * len(lr.off)
	}
	end := in.objBytes(root)
	if o.base != nil {
		end = o.baseOff + in.objBytes(o)
	}
	total := end - bo
	v := &Obj{base: root, baseOff: bo, typ: t, lay: lt, epoch: in.epoch, mp: o.mp}
	v.bytes = lt.esz == 1 && len(lt.off) == 1 && lr.esz == 1 && len(lr.off) == 1
	in.objSeq++
	v.id = in.objSeq
	v.n = total / lt.esz * len(lt.off)
	// a partial last element is reachable cell by cell
	rem := total % lt.esz
	for k := range lt.off {
		if lt.off[k]+lt.size[k] <= rem {
			v.n++
		}
	}
	return v, 0
}

func sameLayout(a, b *layout) bool {
	if a == b {
		return true
	}
	if a.esz != b.esz || len(a.off) != len(b.off) {
		return false
	}
	for i := range a.off {
		if a.off[i] != b.off[i] || a.size[i] != b.size[i] {
			return false
		}
	}
	return true
}

func (in *Interp) objBytes(o *Obj) int {
	l := in.objLayout(o)
	return o.n / len(l.off) * l.esz
}

// rootByte reads byte b of the root object.
func (in *Interp) rootByte(o *Obj, b int) *Term {
	l := in.objLayout(o)
	e, r := b/l.esz, b%l.esz
	for k := range l.off {
		if r >= l.off[k] && r < l.off[k]+l.size[k] {
			t := in.asBits(in.ld(o, e*len(l.off)+k), l.size[k])
			lo := uint8(r-l.off[k]) * 8
			return in.x.Extract(t, lo+7, lo)
		}
	}
	return in.x.Const(8, 0) // padding
}

func (in *Interp) asBits(v Value, size int) *Term {
	t, ok := v.(*Term)
	if !ok {
		panic(unsup("bits of %T", v))
	}
	if t.w == 0 {
		return in.x.Ite(t, in.x.Const(8, 1), in.x.Const(8, 0))
	}
	if t.w == WFloat {
		if t.IsConst() {
			return in.x.Const(64, t.c)
		}
		panic(unsup("bits of symbolic float"))
	}
	return t
}

func (in *Interp) viewLoad(o *Obj, i int) Value {
	if i < 0 || i >= o.n {
		panic(crash{"access outside the memory of a reinterpreted slice"})
	}
	if o.mp != nil && o.mp.dead != "" {
		panic(crash{"access to unmapped memory (" + o.mp.dead + ")"})
	}
	if o.bytes {
		return in.ld(o.base, o.baseOff+i)
	}
	l := o.lay
	bo := in.byteOff(o, i)
	sz := l.size[i%len(l.size)]
	root := o.base
	lr := in.objLayout(root)
	// fast path: one root cell covers it
	var t *Term
	if len(lr.off) == 1 && lr.size[0] == lr.esz && lr.esz >= sz && bo/lr.esz == (bo+sz-1)/lr.esz {
		c := in.asBits(in.ld(root, bo/lr.esz), lr.esz)
		lo := uint8(bo%lr.esz) * 8
		t = in.x.Extract(c, lo+uint8(sz)*8-1, lo)
	} else {
		for k := sz - 1; k >= 0; k-- {
			b := in.rootByte(root, bo+k)
			if t == nil {
				t = b
			} else {
				t = in.x.Concat(t, b)
			}
		}
	}
	if b, ok := in.cellType(o, i).Underlying().(*types.Basic); ok {
		if b.Info()&types.IsBoolean != 0 {
			return in.x.Not(in.x.Eq(t, in.x.Const(8, 0)))
		}
		if b.Info()&types.IsFloat != 0 {
			if t.IsConst() {
				return in.x.Const(WFloat, t.c)
			}
			panic(unsup("symbolic float from bits"))
		}
	}
	return t
}

func (in *Interp) cellType(o *Obj, i int) types.Type {
	k := i % len(in.layoutOf(elemOf(o.typ)).off)
	var res types.Type
	n := 0
	var walk func(t types.Type)
	walk = func(t types.Type) {
		if res != nil {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		case *types.Array:
			for i := 0; i < int(u.Len()); i++ {
				walk(u.Elem())
			}
		default:
			if n == k {
				res = t
			}
			n++
		}
	}
	walk(elemOf(o.typ))
	return res
}

func (in *Interp) viewStore(o *Obj, i int, v Value) {
	if i < 0 || i >= o.n {
		panic(crash{"access outside the memory of a reinterpreted slice"})
	}
	if o.mp != nil {
		if o.mp.dead != "" {
			panic(crash{"access to unmapped memory (" + o.mp.dead + ")"})
		}
		if o.mp.ro {
			panic(crash{"write to read-only memory"})
		}
	}
	l := o.lay
	bo := in.byteOff(o, i)
	sz := l.size[i%len(l.size)]
	root := o.base
	t := in.asBits(v, sz)
	lr := in.objLayout(root)
	for k := 0; k < sz; {
		b := bo + k
		e, r := b/lr.esz, b%lr.esz
		stored := false
		for c := range lr.off {
			if r < lr.off[c] || r >= lr.off[c]+lr.size[c] {
				continue
			}
			cell := e*len(lr.off) + c
			cs := lr.size[c]
			start := r - lr.off[c]
			n := min(cs-start, sz-k)
			part := in.x.Extract(t, uint8(k+n)*8-1, uint8(k)*8)
			if n != cs {
				old := in.asBits(in.ld(root, cell), cs)
				if start+n < cs {
					part = in.x.Concat(in.x.Extract(old, uint8(cs)*8-1, uint8(start+n)*8), part)
				}
				if start > 0 {
					part = in.x.Concat(part, in.x.Extract(old, uint8(start)*8-1, 0))
				}
			}
			in.st(root, cell, part)
			k += n
			stored = true
			break
		}
		if !stored {
			k++
		}
	}
}

// samePtr compares pointers for identity.
func (in *Interp) samePtr(a, b Ptr) bool {
	if a.o == nil || b.o == nil {
		return a.o == nil && b.o == nil
	}
	if a.o == b.o {
		return a.i == b.i
	}
	if a.o.base == nil && b.o.base == nil {
		return false
	}
	ra, rb := a.o, b.o
	if ra.base != nil {
		ra = ra.base
	}
	if rb.base != nil {
		rb = rb.base
	}
	if ra != rb {
		return false
	}
	return in.byteOff(a.o, a.i) == in.byteOff(b.o, b.i)
}

// ---- slice header views

func (in *Interp) hdrLoad(p HdrPtr) Value {
	x := in.x
	c := in.ld(p.cell.o, p.cell.i)
	if p.to != nil {
		s, ok := c.(Slice)
		if !ok {
			panic(unsup("%T seen as %v", c, p.to))
		}
		return in.retype(s, p.to.Underlying().(*types.Slice).Elem())
	}
	if p.field < 0 {
		s, ok := c.(Slice)
		if !ok {
			panic(unsup("whole header load of %T", c))
		}
		return Agg{UPtr{p: Ptr{s.o, s.off}, elem: p.elem.Underlying().(*types.Slice).Elem()}, x.Const(64, uint64(s.len)), x.Const(64, uint64(s.cap))}
	}
	switch c := c.(type) {
	case Slice:
		switch p.field {
		case 0:
			return UPtr{p: Ptr{c.o, c.off}, elem: p.elem.Underlying().(*types.Slice).Elem()}
		case 1:
			return x.Const(64, uint64(c.len))
		case 2:
			return x.Const(64, uint64(c.cap))
		}
	case *Iface:
		if p.field == 1 {
			if c == nil {
				return UPtr{}
			}
			if pt, ok := c.t.Underlying().(*types.Pointer); ok {
				return UPtr{p: c.v, elem: pt.Elem()}
			}
		}
	case Str:
		switch p.field {
		case 0:
			o := in.bytesObj(in.strTerms(c))
			o.ro = true
			return UPtr{p: Ptr{o, 0}, elem: types.Typ[types.Uint8]}
		case 1:
			return x.Const(64, uint64(c.Len()))
		}
	}
	panic(unsup("header word %d of %T", p.field, c))
}

// retype is the slice whose header is that of s and whose elements are of type et.
func (in *Interp) retype(s Slice, et types.Type) Slice {
	es := in.ti(et).n
	if s.o == nil {
		return Slice{es: es, len: s.len, cap: s.cap}
	}
	if s.o.typ == nil {
		panic(unsup("a slice of unknown elements seen as one of %v", et))
	}
	s.o, s.off = in.view(s.o, s.off, et)
	s.es = es
	return s
}

func (in *Interp) hdrStore(p HdrPtr, v Value) {
	c := in.ld(p.cell.o, p.cell.i)
	s, ok := c.(Slice)
	if !ok {
		panic(unsup("header store to %T", c))
	}
	et := p.elem.Underlying().(*types.Slice).Elem()
	if p.to != nil {
		in.st(p.cell.o, p.cell.i, in.retype(v.(Slice), et))
		return
	}
	if p.field < 0 {
		a, ok := v.(Agg)
		if !ok || len(a) != 3 {
			panic(unsup("header store of %T", v))
		}
		for k := range a {
			p.field = k
			in.hdrStore(p, a[k])
		}
		return
	}
	s.es = in.ti(et).n
	switch p.field {
	case 0:
		switch u := v.(type) {
		case UPtr:
			pp, ok := u.p.(Ptr)
			if !ok && u.p != nil {
				panic(unsup("header data from %T", u.p))
			}
			if pp.o == nil {
				s.o, s.off = nil, 0
				break
			}
			if pp.o.typ == nil {
				pp.o.typ = u.elem
			}
			s.o, s.off = in.view(pp.o, pp.i, et)
		default:
			panic(unsup("header data from %T", v))
		}
	case 1:
		s.len = in.concInt(v.(*Term))
	case 2:
		s.cap = in.concInt(v.(*Term))
	}
	in.st(p.cell.o, p.cell.i, s)
}

// ---- strings and bytes

func (in *Interp) strTerms(s Str) []*Term {
	s = s.force()
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = in.x.Const(8, uint64(s.s[i]))
	}
	return out
}

func (in *Interp) strAt(s Str, i int) *Term {
	s = s.force()
	if s.b != nil {
		return s.b[i]
	}
	return in.x.Const(8, uint64(s.s[i]))
}

// mkStr builds a string out of byte terms.
func (in *Interp) mkStr(b []*Term) Str {
	conc := true
	for _, t := range b {
		if !t.IsConst() {
			conc = false
			break
		}
	}
	if conc {
		var sb strings.Builder
		sb.Grow(len(b))
		for _, t := range b {
			sb.WriteByte(byte(t.c))
		}
		return Str{s: sb.String()}
	}
	return Str{b: append([]*Term(nil), b...)}
}

func (in *Interp) bytesObj(b []*Term) *Obj {
	o := in.newObj(len(b), in.ti(types.Typ[types.Uint8]).zeros)
	o.typ = types.Typ[types.Uint8]
	for i, t := range b {
		o.rawSet(i, t)
	}
	return o
}

func (in *Interp) bytesSlice(b []*Term) Slice {
	o := in.bytesObj(b)
	return Slice{o: o, len: len(b), cap: len(b), es: 1}
}

// sliceBytes reads all bytes of a []byte.
func (in *Interp) sliceBytes(s Slice) []*Term {
	out := make([]*Term, s.len)
	for i := range out {
		out[i] = in.ld(s.o, s.off+i).(*Term)
	}
	return out
}

func (in *Interp) concStr(v Value) string {
	s := v.(Str).force()
	if s.b == nil {
		return s.s
	}
	out := make([]byte, len(s.b))
	for i, t := range s.b {
		out[i] = byte(in.conc(t))
	}
	return string(out)
}

// ---- errors used for control flow inside the engine

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }

func unsup(f string, a ...interface{}) unsupported { return unsupported{fmt.Sprintf(f, a...)} }

// goPanic is a Go-level panic raised by an operation.
type goPanic struct{ v *Iface }

// crash kills the process (like a signal).
type crash struct{ msg string }

// pathEnd stops exploring the current path.
type pathEnd struct {
	why string // "assume", "limit", ...
	msg string
}
