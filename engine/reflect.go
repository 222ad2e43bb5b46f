package engine

import (
	"go/ast"
	"go/types"
	"strings"
)

// The part of reflect that encoding/binary needs.  A reflect.Value is {address, *Iface{type, value},
// 1 if it has an address (and no value then)}; everything else of reflect is refused.

func rvOf(v Value) (p UPtr, i *Iface, addr bool) {
	a := v.(Agg)
	p, _ = a[0].(UPtr)
	i, _ = a[1].(*Iface)
	f, _ := a[2].(*Term)
	return p, i, f != nil && f.IsConst() && f.c == 1
}

func (in *Interp) rvMake(p Ptr, t types.Type) Value {
	return Agg{UPtr{p, t}, &Iface{t, nil}, in.x.Const(64, 1)}
}

func (in *Interp) rvVal(v Value) Value {
	p, i, addr := rvOf(v)
	if i == nil {
		panic(unsup("reflect on an invalid value"))
	}
	if addr {
		return in.loadT(p.p, i.t)
	}
	return i.v
}

// dataSize is encoding/binary's size of a value of type t, or -1.
func (in *Interp) dataSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr, types.UnsafePointer, types.String:
			return -1
		}
		return int(in.sizes.Sizeof(u))
	case *types.Array:
		if n := in.dataSize(u.Elem()); n >= 0 {
			return n * int(u.Len())
		}
	case *types.Struct:
		sum := 0
		for k := 0; k < u.NumFields(); k++ {
			n := in.dataSize(u.Field(k).Type())
			if n < 0 {
				return -1
			}
			sum += n
		}
		return sum
	}
	return -1
}

func init() {
	reg(func(c *icall) {
		_, i, _ := rvOf(c.args[0])
		if i == nil {
			c.retInt(-1)
			return
		}
		if s, ok := i.t.Underlying().(*types.Slice); ok {
			n := c.in.dataSize(s.Elem())
			if n >= 0 {
				n *= c.in.rvVal(c.args[0]).(Slice).len
			}
			c.retInt(n)
			return
		}
		c.retInt(c.in.dataSize(i.t))
	}, "encoding/binary.dataSize")
	reg(func(c *icall) {
		k := 0
		if _, i, _ := rvOf(c.args[0]); i != nil {
			k = reflectKind(i.t)
		}
		c.retInt(k)
	}, "(reflect.Value).Kind")
	reg(func(c *icall) {
		_, i, _ := rvOf(c.args[0])
		c.ret(c.in.x.Bool(i != nil))
	}, "(reflect.Value).IsValid")
	reg(func(c *icall) {
		_, i, _ := rvOf(c.args[0])
		if i == nil {
			panic(unsup("reflect type of an invalid value"))
		}
		c.ret(c.in.rtypeOf(i.t))
	}, "(reflect.Value).Type")
	reg(func(c *icall) {
		_, i, _ := rvOf(c.args[0])
		v := c.in.rvVal(c.args[0])
		switch u := i.t.Underlying().(type) {
		case *types.Pointer:
			p, ok := v.(Ptr)
			if !ok {
				panic(unsup("reflect Elem of %T", v))
			}
			if p.o == nil {
				c.ret(Agg{UPtr{}, (*Iface)(nil), c.in.x.Const(64, 0)})
				return
			}
			c.ret(c.in.rvMake(p, u.Elem()))
		case *types.Interface:
			e, _ := v.(*Iface)
			c.ret(Agg{UPtr{}, e, c.in.x.Const(64, 0)})
		default:
			panic(unsup("reflect Elem of %v", i.t))
		}
	}, "(reflect.Value).Elem")
	reg(func(c *icall) {
		_, i, _ := rvOf(c.args[0])
		if i == nil {
			panic(unsup("reflect Len of an invalid value"))
		}
		switch u := i.t.Underlying().(type) {
		case *types.Array:
			c.retInt(int(u.Len()))
			return
		case *types.Slice:
			c.retInt(c.in.rvVal(c.args[0]).(Slice).len)
			return
		case *types.Basic:
			if s, ok := c.in.rvVal(c.args[0]).(Str); ok {
				c.retInt(s.Len())
				return
			}
		}
		panic(unsup("reflect Len of %v", i.t))
	}, "(reflect.Value).Len", "(internal/reflectlite.Value).Len")
	part := func(c *icall, et types.Type, cell int) {
		p, i, addr := rvOf(c.args[0])
		if addr {
			q, ok := p.p.(Ptr)
			if !ok {
				panic(unsup("reflect address %T", p.p))
			}
			c.ret(c.in.rvMake(Ptr{q.o, q.i + cell}, et))
			return
		}
		a, ok := i.v.(Agg)
		if !ok {
			panic(unsup("reflect part of %T", i.v))
		}
		ti := c.in.ti(et)
		var v Value
		if ti.agg {
			v = a[cell : cell+ti.n : cell+ti.n]
		} else {
			v = a[cell]
		}
		c.ret(Agg{UPtr{}, &Iface{et, v}, c.in.x.Const(64, 0)})
	}
	reg(func(c *icall) {
		_, i, _ := rvOf(c.args[0])
		n := c.in.concInt(c.term(1))
		switch u := i.t.Underlying().(type) {
		case *types.Slice:
			s := c.in.rvVal(c.args[0]).(Slice)
			if n < 0 || n >= s.len {
				panic(goPanic{c.in.strErr("reflect: slice index out of range")})
			}
			c.ret(c.in.rvMake(Ptr{s.o, s.off + n*s.es}, u.Elem()))
		case *types.Array:
			if n < 0 || n >= int(u.Len()) {
				panic(goPanic{c.in.strErr("reflect: array index out of range")})
			}
			part(c, u.Elem(), n*c.in.ti(u.Elem()).n)
		default:
			panic(unsup("reflect Index of %v", i.t))
		}
	}, "(reflect.Value).Index")
	structOf := func(t types.Type) *types.Struct {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(unsup("reflect fields of %v", t))
		}
		return s
	}
	reg(func(c *icall) {
		_, i, _ := rvOf(c.args[0])
		c.retInt(structOf(i.t).NumFields())
	}, "(reflect.Value).NumField")
	reg(func(c *icall) {
		_, i, _ := rvOf(c.args[0])
		n := c.in.concInt(c.term(1))
		s := structOf(i.t)
		if !ast.IsExported(s.Field(n).Name()) {
			panic(unsup("reflect on the unexported field %s", s.Field(n).Name()))
		}
		part(c, s.Field(n).Type(), c.in.ti(i.t).fields[n])
	}, "(reflect.Value).Field")
	reg(func(c *icall) {
		_, _, addr := rvOf(c.args[0])
		c.ret(c.in.x.Bool(addr))
	}, "(reflect.Value).CanSet", "(reflect.Value).CanAddr")
	reg(func(c *icall) { c.retInt(structOf(c.in.rtype(c.args[0])).NumFields()) }, "(*reflect.rtype).NumField")

	reg(func(c *icall) {
		t := structOf(c.in.rtype(c.args[0]))
		n := c.in.concInt(c.term(1))
		rt := c.fn.Signature.Results().At(0).Type()
		a := append(Agg(nil), c.in.zero(rt).(Agg)...)
		fs := rt.Underlying().(*types.Struct)
		for k := 0; k < fs.NumFields(); k++ {
			switch fs.Field(k).Name() {
			case "Name":
				a[c.in.ti(rt).fields[k]] = Str{s: t.Field(n).Name()}
			case "Type":
				a[c.in.ti(rt).fields[k]] = c.in.rtypeOf(t.Field(n).Type())
			}
		}
		c.ret(a)
	}, "(*reflect.rtype).Field")

	set := func(c *icall) {
		p, i, addr := rvOf(c.args[0])
		if !addr {
			panic(unsup("reflect: setting a value without an address"))
		}
		v := c.term(1)
		if b, ok := i.t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if n := 8 * int(c.in.sizes.Sizeof(b)); n < 64 {
				v = c.in.x.Extract(v, uint8(n-1), 0)
			}
		} else if !ok || b.Kind() != types.Bool && b.Kind() != types.Float64 {
			panic(unsup("reflect: setting a %v", i.t))
		}
		c.in.storeT(p.p, v, i.t)
		c.ret(nil)
	}
	reg(set, "(reflect.Value).SetInt", "(reflect.Value).SetUint", "(reflect.Value).SetBool", "(reflect.Value).SetFloat")
	get := func(c *icall) {
		_, i, _ := rvOf(c.args[0])
		v, ok := c.in.rvVal(c.args[0]).(*Term)
		if !ok {
			panic(unsup("reflect: number of a %v", i.t))
		}
		if b, ok := i.t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && v.w < 64 {
			if b.Info()&types.IsUnsigned != 0 {
				v = c.in.x.Zext(v, 64)
			} else {
				v = c.in.x.Sext(v, 64)
			}
		} else if !ok || b.Kind() == types.Float32 {
			panic(unsup("reflect: number of a %v", i.t))
		}
		c.ret(v)
	}
	reg(get, "(reflect.Value).Int", "(reflect.Value).Uint", "(reflect.Value).Bool", "(reflect.Value).Float")
}

// reflectRefused is the intrinsic of the functions of reflect that have no model.
func reflectRefused(name string) intrinsic {
	if !strings.HasPrefix(name, "(reflect.Value).") && !strings.HasPrefix(name, "(*reflect.rtype).") {
		return nil
	}
	return func(c *icall) { panic(unsup("%s is not modelled", name)) }
}
