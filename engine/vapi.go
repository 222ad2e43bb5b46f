package engine

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func newInterp(x *Ctx, p *Program) *Interp {
	return &Interp{
		x: x, prog: p, sizes: types.SizesFor("gc", "amd64"),
		tinfo: map[types.Type]*typeInfo{}, layouts: map[types.Type]*layout{},
		fns: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]*Obj{}, inited: map[*ssa.Package]int{},
		methods: map[methodKey]*ssa.Function{}, execd: map[*ssa.Function]bool{},
		side: map[interface{}]interface{}{}, rtypes: map[string]*Obj{}, rtypeBack: map[*Obj]types.Type{}, stdFiles: map[*Obj]int{},
		world: newWorld(),
	}
}

func (c *icall) ex() *Explorer {
	if c.in.ex == nil {
		panic(unsup("harness call during initialisation"))
	}
	return c.in.ex
}

func vreg(name string, f intrinsic) { intrinsics["v."+name] = f }

func init() {
	sym := func(w uint8) intrinsic {
		return func(c *icall) { c.ret(c.ex().fresh(w, c.str(0))) }
	}
	vreg("U64", sym(64))
	vreg("I64", sym(64))
	vreg("U32", sym(32))
	vreg("I32", sym(32))
	vreg("U16", sym(16))
	vreg("Byte", sym(8))
	vreg("Bool", func(c *icall) {
		t := c.ex().fresh(8, c.str(0))
		c.ret(c.in.x.Eq(c.in.x.Extract(t, 0, 0), c.in.x.Const(1, 1)))
	})
	vreg("F64", func(c *icall) { c.ret(c.ex().fresh(WFloat, c.str(0))) })
	vreg("Int", func(c *icall) { // Int(name, lo, hi)
		ex, x := c.ex(), c.in.x
		t := ex.fresh(64, c.str(0))
		ex.assume(x.Sle(c.term(1), t))
		ex.assume(x.Sle(t, c.term(2)))
		c.ret(t)
	})
	vreg("Bytes", func(c *icall) {
		n := c.in.concInt(c.term(1))
		b := make([]*Term, n)
		for i := range b {
			b[i] = c.ex().fresh(8, c.str(0))
		}
		c.ret(c.in.bytesSlice(b))
	})
	vreg("Choose", func(c *icall) {
		ex := c.ex()
		n := c.in.concInt(c.term(1))
		if n <= 0 {
			panic(pathEnd{"assume", ""})
		}
		name := ex.uname("choose " + c.str(0))
		k := ex.choose(n, "")
		ex.choices[name] = k
		c.retInt(k)
	})
	vreg("Concrete", func(c *icall) { // fork over the values of an int
		c.ret(c.in.x.Const(64, c.in.conc(c.term(0))))
	})
	vreg("Assume", func(c *icall) { c.ex().assume(c.term(0)); c.ret(nil) })
	vreg("Assert", func(c *icall) { c.ex().assert(c.term(0), c.str(1)); c.ret(nil) })
	vreg("Reach", func(c *icall) { c.ex().reached = append(c.ex().reached, c.str(0)); c.ret(nil) })
	vreg("Symbolic", func(c *icall) { c.ret(c.in.x.True) })
	vreg("Param", func(c *icall) {
		if v, ok := c.ex().sh.params[c.str(0)]; ok {
			c.retInt(int(v))
			return
		}
		c.ret(c.args[1])
	})
	vreg("ObserveU64", func(c *icall) {
		c.ex().obs = append(c.ex().obs, obsTerm{label: c.str(0), v: []*Term{c.term(1)}})
		c.ret(nil)
	})
	vreg("ObserveBytes", func(c *icall) {
		c.ex().obs = append(c.ex().obs, obsTerm{label: c.str(0), v: c.in.sliceBytes(c.args[1].(Slice))})
		c.ret(nil)
	})
	vreg("ObserveI64s", func(c *icall) {
		s := c.args[1].(Slice)
		var ts []*Term
		for i := 0; i < s.len; i++ {
			ts = append(ts, c.in.ld(s.o, s.off+i).(*Term))
		}
		c.ex().obs = append(c.ex().obs, obsTerm{label: c.str(0), v: ts})
		c.ret(nil)
	})
	vreg("ObserveStr", func(c *icall) {
		c.ex().obs = append(c.ex().obs, obsTerm{label: c.str(0), s: c.str(1), isStr: true})
		c.ret(nil)
	})
	// ---- options
	vreg("SchedAll", func(c *icall) { c.ex().opt.sched = schedAll; c.ret(nil) })
	vreg("SchedReverse", func(c *icall) { c.ex().opt.schedRev = true; c.ret(nil) })
	vreg("AnyClock", func(c *icall) { c.ex().opt.anyClock = true; c.ret(nil) })
	vreg("ShuffleMaps", func(c *icall) {
		c.ex().opt.shuffleMaps = true
		c.ex().opt.shuffleMax = c.in.concInt(c.term(0))
		c.ret(nil)
	})
	vreg("VisibleAtomics", func(c *icall) { c.ex().opt.visAtomics = true; c.ret(nil) })
	vreg("QuietAtomics", func(c *icall) {
		c.ex().opt.quietPkgs = append([]string{c.str(0)}, c.ex().opt.quietPkgs...)
		c.ret(nil)
	})
	vreg("ForkIndex", func(c *icall) { c.ex().opt.forkIndex = true; c.ret(nil) })
	vreg("PoolChoice", func(c *icall) { c.ex().opt.poolChoice = true; c.ret(nil) })
	vreg("HangIsViolation", func(c *icall) {
		c.ex().opt.hangViol = true
		c.in.maxStepPath = c.in.steps + int64(c.in.concInt(c.term(0)))
		c.ret(nil)
	})
	vreg("Faults", func(c *icall) { c.ex().opt.faults = c.in.concInt(c.term(0)); c.ret(nil) })
	vreg("Cancel", func(c *icall) { c.ex().opt.cancels = c.in.concInt(c.term(0)); c.ret(nil) })
	vreg("Kill", func(c *icall) { c.ex().opt.kills = c.in.concInt(c.term(0)); c.ret(nil) })
	vreg("Point", func(c *icall) {
		lbl := c.str(0)
		in := c.in
		in.ex.points = append(in.ex.points, lbl)
		c.ret(nil)
	})
	vreg("Yield", func(c *icall) {
		c.g.op = &pendOp{enabled: func() bool { return true }, fire: func() { c.ret(nil) }, desc: "yield", objs: []int{-1}}
	})
	vreg("Idle", func(c *icall) {
		c.g.op = &pendOp{enabled: func() bool { return true }, fire: func() { c.ret(nil) }, desc: "v.Idle", objs: []int{-1}, idle: true}
	})
	// ---- files and processes
	vreg("WriteFile", func(c *icall) {
		f := c.in.newFile()
		c.in.fileWrite(f, 0, c.in.sliceBytes(c.args[1].(Slice)))
		c.in.world.files[cleanName(c.str(0))] = f
		c.ret(nil)
	})
	vreg("ReadFile", func(c *icall) {
		f := c.in.world.files[cleanName(c.str(0))]
		if f == nil {
			c.ret(Slice{es: 1})
			return
		}
		c.ret(c.in.bytesSlice(c.in.fileBytes(f)))
	})
	vreg("Exists", func(c *icall) { c.ret(c.in.x.Bool(c.in.world.files[cleanName(c.str(0))] != nil)) })
	vreg("FileCount", func(c *icall) { c.retInt(len(c.in.world.files)) })
	vreg("FileList", func(c *icall) {
		var ns []string
		for n := range c.in.world.files {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		c.ret(Str{s: strings.Join(ns, " ")})
	})
	vreg("Itoa", func(c *icall) {
		t := c.term(0)
		if t.IsConst() {
			c.ret(Str{s: strconv.FormatUint(t.c, 10)})
			return
		}
		ex := c.ex()
		tok := fmt.Sprintf("\x00num%d", len(ex.tokens))
		ex.tokens[tok] = t
		c.ret(Str{s: tok})
	})
	vreg("Dec", func(c *icall) { // a signed number
		t := c.term(0)
		if t.IsConst() {
			c.ret(Str{s: strconv.FormatInt(int64(t.c), 10)})
			return
		}
		ex := c.ex()
		tok := fmt.Sprintf("\x00int%d", len(ex.tokens))
		ex.tokens[tok] = t
		c.ret(Str{s: tok})
	})
	vreg("Run", func(c *icall) {
		in := c.in
		name := c.str(0)
		s := c.args[1].(Slice)
		var args []string
		for i := 0; i < s.len; i++ {
			args = append(args, in.concStr(in.ld(s.o, s.off+i)))
		}
		fn := in.prog.Func(ModPath+"/cmd/"+name, "main")
		if fn == nil {
			panic(unsup("command %s not loaded", name))
		}
		in.startProc(c.g, name, args, fn, func(p *Proc) {
			in.world.outAt, in.world.outI = 0, 0
			if p.status != 0 {
				in.lastFail = p.reason
			}
			c.retInt(p.status)
		})
	})
	vreg("FailText", func(c *icall) { c.ret(Str{s: c.in.lastFail}) })
	vreg("Debug", func(c *icall) {
		if c.in.ex.sh.debug {
			for _, a := range c.in.variadic(c.args[0]) {
				fmt.Print(c.in.panicText(a), " ")
			}
			fmt.Println()
		}
		c.ret(nil)
	})
	// ---- reading the standard output of the last command
	vreg("OutLit", func(c *icall) {
		w := c.in.world
		at, i := w.outAt, w.outI
		s := c.str(0)
		cond := c.in.x.True
		for k := 0; k < len(s); k++ {
			for at < len(w.out) && w.out[at].num == nil && i >= len(w.out[at].b) {
				at, i = at+1, 0
			}
			if at >= len(w.out) || w.out[at].num != nil {
				c.ret(c.in.x.False)
				return
			}
			t := w.out[at].b[i]
			if t.IsConst() {
				t = c.in.x.Const(8, t.c)
			}
			cond = c.in.x.And(cond, c.in.x.Eq(t, c.in.x.Const(8, uint64(s[k]))))
			i++
		}
		if c.in.branch(cond) {
			w.outAt, w.outI = at, i
			c.ret(c.in.x.True)
			return
		}
		c.ret(c.in.x.False)
	})
	outNum := func(c *icall, base int, digits string) {
		w := c.in.world
		for w.outAt < len(w.out) && w.out[w.outAt].num == nil && w.outI >= len(w.out[w.outAt].b) {
			w.outAt, w.outI = w.outAt+1, 0
		}
		bad := Tuple{c.in.x.Const(64, 0), c.in.x.False}
		if w.outAt >= len(w.out) {
			c.ret(bad)
			return
		}
		if s := w.out[w.outAt]; s.num != nil {
			if (s.form == 'x') != (base == 16) || s.form == 'f' {
				c.ret(bad)
				return
			}
			w.outAt, w.outI = w.outAt+1, 0
			c.ret(Tuple{c.in.x.Resize(s.num, 64, s.signed), c.in.x.True})
			return
		}
		if num, at, i := c.in.digitsAt(w, uint64(base)); num != nil {
			w.outAt, w.outI = at, i
			c.ret(Tuple{num, c.in.x.True})
			return
		}
		txt := ""
		at, i := w.outAt, w.outI
		for {
			for at < len(w.out) && w.out[at].num == nil && i >= len(w.out[at].b) {
				at, i = at+1, 0
			}
			if at >= len(w.out) || w.out[at].num != nil || !w.out[at].b[i].IsConst() {
				break
			}
			ch := byte(w.out[at].b[i].c)
			if strings.IndexByte(digits, ch) < 0 && !(ch == '-' && txt == "" && base == 10) {
				break
			}
			txt += string(ch)
			i++
		}
		n, err := strconv.ParseInt(txt, base, 64)
		if err != nil {
			u, err2 := strconv.ParseUint(txt, base, 64)
			if err2 != nil {
				c.ret(bad)
				return
			}
			n = int64(u)
		}
		w.outAt, w.outI = at, i
		c.ret(Tuple{c.in.x.Const(64, uint64(n)), c.in.x.True})
	}
	vreg("OutNum", func(c *icall) { outNum(c, 10, "0123456789") })
	vreg("OutHex", func(c *icall) { outNum(c, 16, "0123456789abcdef") })
	vreg("OutF", func(c *icall) {
		w, x := c.in.world, c.in.x
		at, i := w.outAt, w.outI
		want := c.args[0].(*Term)
		for at < len(w.out) && w.out[at].num == nil && i >= len(w.out[at].b) {
			at, i = at+1, 0
		}
		// floats further apart than the last printed digit print differently
		apart := func(a, b *Term) {
			lim := x.Const(WFloat, math.Float64bits(1.1e-6))
			d, e := x.F(OFSub, WFloat, a, b), x.F(OFSub, WFloat, b, a)
			if !c.in.branch(x.Or(x.F(OFLt, 0, lim, d), x.F(OFLt, 0, lim, e))) {
				panic(unsup("comparison of printed floats that differ by less than a digit"))
			}
			c.ret(x.False)
		}
		if at < len(w.out) && w.out[at].form == 'f' {
			if c.in.branch(x.feq(w.out[at].num, want)) || c.in.branch(x.Eq(w.out[at].num, want)) {
				w.outAt, w.outI = at+1, 0
				c.ret(x.True)
				return
			}
			apart(w.out[at].num, want)
			return
		}
		if !want.IsConst() { // what is printed is not what is printed of every value
			txt := ""
			for k := i; at < len(w.out) && w.out[at].num == nil && k < len(w.out[at].b) && w.out[at].b[k].IsConst(); k++ {
				ch := byte(w.out[at].b[k].c)
				if strings.IndexByte("-.0123456789", ch) < 0 {
					break
				}
				txt += string(ch)
			}
			f, err := strconv.ParseFloat(txt, 64)
			if err != nil {
				c.ret(x.False)
				return
			}
			apart(x.Const(WFloat, math.Float64bits(f)), want)
			return
		}
		txt := fmt.Sprintf("%f", math.Float64frombits(c.in.conc(want)))
		for k := 0; k < len(txt); k++ {
			for at < len(w.out) && w.out[at].num == nil && i >= len(w.out[at].b) {
				at, i = at+1, 0
			}
			if at >= len(w.out) || w.out[at].num != nil || !w.out[at].b[i].IsConst() || byte(w.out[at].b[i].c) != txt[k] {
				c.ret(x.False)
				return
			}
			i++
		}
		w.outAt, w.outI = at, i
		c.ret(x.True)
	})
	vreg("OutSkipLine", func(c *icall) {
		w := c.in.world
		for w.outAt < len(w.out) {
			s := w.out[w.outAt]
			if s.num != nil {
				w.outAt, w.outI = w.outAt+1, 0
				continue
			}
			for w.outI < len(s.b) {
				t := s.b[w.outI]
				w.outI++
				if t.IsConst() && t.c == '\n' {
					c.ret(nil)
					return
				}
			}
			w.outAt, w.outI = w.outAt+1, 0
		}
		c.ret(nil)
	})
	vreg("OutEOF", func(c *icall) {
		w := c.in.world
		at, i := w.outAt, w.outI
		for at < len(w.out) && w.out[at].num == nil && i >= len(w.out[at].b) {
			at, i = at+1, 0
		}
		c.ret(c.in.x.Bool(at >= len(w.out)))
	})
}

// feq is a sufficient condition for the equality of two floating-point terms.
func (x *Ctx) feq(a, b *Term) *Term {
	if a.op == b.op && len(a.args) == len(b.args) {
		switch a.op {
		case OFAdd, OFSub, OFMul, OFDiv, OFNeg, OFFromS, OFFromU:
			r := x.True
			for i := range a.args {
				if a.args[i].w != b.args[i].w {
					return x.Eq(a, b)
				}
				r = x.And(r, x.feq(a.args[i], b.args[i]))
			}
			return r
		}
	}
	return x.Eq(a, b)
}

// digitsAt reads the digits of a symbolic number.
func (in *Interp) digitsAt(w *World, base uint64) (*Term, int, int) {
	at, i := w.outAt, w.outI
	peek := func() *Term {
		for at < len(w.out) && w.out[at].num == nil && i >= len(w.out[at].b) {
			at, i = at+1, 0
		}
		if at >= len(w.out) || w.out[at].num != nil {
			return nil
		}
		return w.out[at].b[i]
	}
	neg := false
	if t := peek(); t != nil && t.IsConst() && t.c == '-' {
		neg = true
		i++
	}
	// the first digits may be known
	at0, i0, known := at, i, 0
	t := peek()
	for ; t != nil && t.IsConst() && t.c >= '0' && t.c <= 'f'; t = peek() {
		known++
		i++
	}
	if t == nil || t.IsConst() {
		return nil, 0, 0
	}
	d, ok := in.digits[t]
	if !ok || d.base != base {
		return nil, 0, 0
	}
	at, i = at0, i0
	for k := d.k + known; k >= 0; k-- {
		t := peek()
		if e := in.digit(d.num, base, k); t == nil || t != e && !(t.IsConst() && e.IsConst() && t.c == e.c) {
			return nil, 0, 0
		}
		i++
	}
	if neg {
		return in.x.Neg(d.num), at, i
	}
	return d.num, at, i
}
