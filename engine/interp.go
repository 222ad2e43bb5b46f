package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Interp executes SSA code symbolically.  One Interp belongs to one worker.
type Interp struct {
	x       *Ctx
	prog    *Program
	sizes   types.Sizes
	tinfo   map[types.Type]*typeInfo
	layouts map[types.Type]*layout
	fns     map[*ssa.Function]*fnInfo
	globals map[*ssa.Global]*Obj
	inited  map[*ssa.Package]int // 1 running, 2 done
	methods map[methodKey]*ssa.Function

	objSeq  int
	epoch   int
	journal []journalEnt
	hb      *hbState // tracks which accesses are ordered by synchronisation
	hbGen   int
	atomic  bool                     // the access is part of an atomic operation
	racy    map[ssa.Instruction]bool // instructions that are scheduling points

	ex *Explorer // per-path exploration state; nil during package initialisation

	gors    []*Gor
	gorSeq  int
	cur     *Gor
	steps   int64
	maxStep int64
	tick    int
	initing int

	side        map[interface{}]interface{} // per-path side tables of intrinsics
	world       *World
	execd       map[*ssa.Function]bool // module functions executed
	rtypes      map[string]*Obj
	rtypeBack   map[*Obj]types.Type
	stdFiles    map[*Obj]int
	digits      map[*Term]digitOf
	sleep       []trans
	preempt     int
	lastG       int
	procs       []*Proc
	jgen        int
	lastFail    string
	maxStepPath int64
	ntrans      int // scheduler transitions of this path
}

type methodKey struct {
	t    types.Type
	name string
}

// operand is a register slot (>= 0) or an immediate.
type operand struct {
	slot int
	v    Value
}

type cin struct {
	op   ssa.Instruction
	args []operand
	dst  int
	// for calls
	callee *ssa.Function
	intr   intrinsic
	bi     string
	symOK  bool // IndexAddr whose uses are all loads
}

type fnInfo struct {
	fn     *ssa.Function
	blocks [][]cin
	nphi   []int
	nslot  int
	slots  map[ssa.Value]int
	module bool
	merge  map[int]*mergeRegion
}

type deferred struct {
	fn   Value // *Func, or nil when builtin/intrinsic
	args []Value
	c    *cin
}

// Frame is an activation record.
type Frame struct {
	fi       *fnInfo
	regs     []Value
	blk      int
	prev     int
	pc       int
	defers   []deferred
	dst      int // caller slot
	onRet    func(v Value)
	deferPan *panicState
	recov    bool
}

type panicState struct {
	v         *Iface
	recovered bool
}

// Gor is a goroutine.
type Gor struct {
	id     int
	proc   *Proc
	frames []*Frame
	op     *pendOp
	done   bool
	pan    *panicState
	nvis   int
	last   int
	sync   bool // temporary goroutine of callSync
	result Value
	path   string // spawn path through the module's go statements; "" if started by library code
	nkids  int
	// scheduling points at racing instructions
	memPass bool
	memSeen map[ssa.Instruction]int
}

// Proc is a simulated process (the harness itself is process 0).
type Proc struct {
	id     int
	main   *Gor
	name   string
	exited bool
	status int
	reason string
	cwd    string
	args   []string
	onExit func()
	gors   int   // goroutines running
	cancel *Func // ends the first context that the command made
}

func (in *Interp) top(g *Gor) *Frame { return g.frames[len(g.frames)-1] }

func (in *Interp) compile(fn *ssa.Function) *fnInfo {
	if fi, ok := in.fns[fn]; ok {
		return fi
	}
	if fn.Blocks == nil {
		in.prog.ensureBuilt(fn)
	}
	fi := &fnInfo{fn: fn, slots: map[ssa.Value]int{}}
	in.fns[fn] = fi
	fi.module = in.prog.isModule(fn)
	n := 0
	add := func(v ssa.Value) {
		fi.slots[v] = n
		n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nslot = n
	for _, b := range fn.Blocks {
		var cs []cin
		nphi := 0
		for _, i := range b.Instrs {
			c := cin{op: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				c.dst = fi.slots[v]
				if call, ok := i.(*ssa.Call); ok && len(*call.Referrers()) == 0 {
					if _, ok := call.Call.Value.(*ssa.Builtin); !ok {
						c.dst = -1
					}
				}
			}
			if _, ok := i.(*ssa.Phi); ok {
				nphi++
			}
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			for _, o := range i.Operands(nil) {
				if *o == nil {
					c.args = append(c.args, operand{slot: -1})
					continue
				}
				c.args = append(c.args, in.operandOf(fi, *o))
			}
			if _, ok := i.(*ssa.Defer); ok {
				c.args = c.args[:len(c.args)-1] // the defer stack
			}
			if ci, ok := i.(ssa.CallInstruction); ok {
				cc := ci.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
					c.bi = b.Name()
				} else if f := cc.StaticCallee(); f != nil {
					if _, isClo := cc.Value.(*ssa.MakeClosure); !isClo {
						c.callee = f
						c.intr = in.intrinsicFor(f)
					}
				}
			}
			if ia, ok := i.(*ssa.IndexAddr); ok {
				c.symOK = true
				for _, r := range *ia.Referrers() {
					if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
						if _, ok := r.(*ssa.DebugRef); !ok {
							c.symOK = false
						}
					}
				}
			}
			cs = append(cs, c)
		}
		fi.blocks = append(fi.blocks, cs)
		fi.nphi = append(fi.nphi, nphi)
	}
	return fi
}

func (in *Interp) operandOf(fi *fnInfo, v ssa.Value) operand {
	switch v := v.(type) {
	case *ssa.Const:
		return operand{-1, in.constVal(v)}
	case *ssa.Global:
		in.needInit(v.Pkg)
		o, known := in.globals[v]
		if !known {
			if o = in.globalObj(v); in.inited[v.Pkg] == 2 && !in.prog.wantInit(v.Pkg) && v.Pkg.Pkg.Path() != HarnessPrefix+"v" && in.prog.initSets(v) {
				o.dead = notInit + v.String()
			}
		}
		return operand{-1, Ptr{o, 0}}
	case *ssa.Function:
		return operand{-1, &Func{fn: v}}
	case *ssa.Builtin:
		return operand{-1, nil}
	}
	s, ok := fi.slots[v]
	if !ok {
		panic(unsup("no slot for %v in %v", v, fi.fn))
	}
	return operand{slot: s}
}

// notInit marks package variables whose initial values are not known, in Obj.dead.
const notInit = "\x00"

func (in *Interp) globalObj(v *ssa.Global) *Obj {
	o := in.globals[v]
	if o == nil {
		save := in.epoch
		in.epoch = 0
		o = in.alloc(v.Type().(*types.Pointer).Elem())
		in.epoch = save
		in.globals[v] = o
	}
	return o
}

func (in *Interp) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return in.zero(t)
	}
	ti := in.ti(t)
	switch ti.kind {
	case kBool:
		return in.x.Bool(constant.BoolVal(c.Value))
	case kInt:
		if ti.signed {
			return in.x.Const(ti.w, uint64(c.Int64()))
		}
		return in.x.Const(ti.w, c.Uint64())
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if t.Underlying().(*types.Basic).Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return in.x.Const(WFloat, math.Float64bits(f))
	case kString:
		if c.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(c.Value)}
		}
		return Str{s: string(rune(c.Int64()))}
	case kUnsafe:
		return UPtr{}
	}
	if ti.kind == kIface { // untyped const converted? not expected
		panic(unsup("constant of interface type %v", c))
	}
	panic(unsup("constant %v of type %v", c, t))
}

func (f *Frame) get(o operand) Value {
	if o.slot >= 0 {
		return f.regs[o.slot]
	}
	return o.v
}

// needInit runs the package initialiser of p (once per worker).
func (in *Interp) needInit(p *ssa.Package) {
	if p == nil || in.inited[p] != 0 {
		return
	}
	in.inited[p] = 1
	if !in.prog.wantInit(p) {
		in.inited[p] = 2
		in.specialGlobals(p)
		return
	}
	in.prog.buildPkg(p)
	f := p.Func("init")
	if f != nil {
		saveE, saveEp, saveCur := in.ex, in.epoch, in.cur
		saveSteps, saveMax := in.steps, in.maxStep
		in.ex, in.epoch = nil, 0
		in.maxStep = 1 << 40
		in.initing++
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupported); ok {
						in.prog.noteInitFail(p.Pkg.Path(), u.msg)
						for _, m := range p.Members {
							if v, ok := m.(*ssa.Global); ok && in.prog.initSets(v) {
								if o := in.globalObj(v); in.isZero(o) {
									o.dead = notInit + v.String()
								}
							}
						}
						return
					}
					panic(r)
				}
			}()
			in.callSyncBy(in.pushBody, &Func{fn: f}, nil)
		}()
		in.initing--
		in.ex, in.epoch, in.cur = saveE, saveEp, saveCur
		in.steps, in.maxStep = saveSteps, saveMax
	}
	in.specialGlobals(p)
	in.inited[p] = 2
}

// callSync runs fn to completion on a temporary goroutine (no blocking allowed).
func (in *Interp) callSync(fn *Func, args []Value) Value {
	return in.callSyncBy(in.pushCall, fn, args)
}

func (in *Interp) callSyncBy(push func(*Gor, *Func, []Value, int, func(Value)), fn *Func, args []Value) Value {
	g := &Gor{id: -1, sync: true}
	if in.cur != nil {
		g.proc = in.cur.proc
	}
	saved := in.cur
	in.cur = g
	defer func() { in.cur = saved }()
	push(g, fn, args, -1, func(v Value) { g.result = v })
	for len(g.frames) > 0 && !g.done {
		in.step(g)
		if g.op != nil {
			panic(unsup("blocking operation in synchronous call of %v", fn.fn))
		}
	}
	if g.pan != nil {
		panic(goPanic{g.pan.v})
	}
	return g.result
}

// pushCall starts a call of f on g.
func (in *Interp) pushCall(g *Gor, f *Func, args []Value, dst int, onRet func(Value)) {
	if f == nil {
		panic(goPanic{in.rtErr("invalid memory address or nil pointer dereference")})
	}
	if f.native != nil {
		r := f.native(in, g, args)
		if onRet != nil {
			onRet(r)
		} else if dst >= 0 {
			in.top(g).regs[dst] = r
		}
		return
	}
	if intr := in.intrinsicFor(f.fn); intr != nil {
		in.callIntrinsic(g, f.fn, intr, args, dst, onRet)
		return
	}
	in.pushBody(g, f, args, dst, onRet)
}

func (in *Interp) pushBody(g *Gor, f *Func, args []Value, dst int, onRet func(Value)) {
	fi := in.compile(f.fn)
	if len(fi.blocks) == 0 {
		panic(unsup("function without body: %s", f.fn.String()))
	}
	if fi.module && in.ex != nil && !in.execd[f.fn] {
		in.execd[f.fn] = true
	}
	if len(g.frames) > 4000 {
		panic(unsup("call depth exceeded in %s", f.fn))
	}
	fr := &Frame{fi: fi, regs: make([]Value, fi.nslot), dst: dst, onRet: onRet, prev: -1}
	n := copy(fr.regs, args)
	if n != len(f.fn.Params) {
		panic(unsup("call of %s with %d args, want %d", f.fn, n, len(f.fn.Params)))
	}
	copy(fr.regs[n:], f.bind)
	g.frames = append(g.frames, fr)
}

// ret pops the top frame of g with result v.
func (in *Interp) ret(g *Gor, v Value) {
	f := in.top(g)
	g.frames[len(g.frames)-1] = nil
	g.frames = g.frames[:len(g.frames)-1]
	if f.onRet != nil {
		f.onRet(v)
	} else if f.dst >= 0 && len(g.frames) > 0 {
		in.top(g).regs[f.dst] = v
	}
	if len(g.frames) == 0 {
		in.gorDone(g)
	}
}

func (in *Interp) gorDone(g *Gor) {
	g.done = true
	if g.sync || g.proc == nil {
		return
	}
	g.proc.gors--
	if g.proc.main == g {
		in.procExit(g.proc, 0, "")
	}
}

// rtErr makes a runtime error value.
func (in *Interp) rtErr(msg string) *Iface {
	return &Iface{in.prog.rtErrType, Str{s: msg}}
}

// raise starts a Go panic on g.
func (in *Interp) raise(g *Gor, v *Iface) {
	g.pan = &panicState{v: v}
	in.unwind(g, g.pan)
}

func (in *Interp) unwind(g *Gor, ps *panicState) {
	for {
		if len(g.frames) == 0 {
			g.done = true
			if g.sync {
				return
			}
			in.procExit(g.proc, 2, "panic: "+in.panicText(ps.v))
			return
		}
		f := in.top(g)
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			in.callDeferred(g, d, ps, func(Value) {
				if ps.recovered {
					g.pan = nil
					in.resumeRecovered(g, f)
					return
				}
				in.unwind(g, ps)
			})
			return
		}
		g.frames = g.frames[:len(g.frames)-1]
	}
}

func (in *Interp) resumeRecovered(g *Gor, f *Frame) {
	if rb := f.fi.fn.Recover; rb != nil {
		f.prev = f.blk
		f.blk = rb.Index
		f.pc = 0
		return
	}
	// no named results: return zero values; remaining defers first
	f.recov = true
	in.finishRecovered(g, f)
}

func (in *Interp) finishRecovered(g *Gor, f *Frame) {
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		in.callDeferred(g, d, nil, func(Value) { in.finishRecovered(g, f) })
		return
	}
	res := f.fi.fn.Signature.Results()
	switch res.Len() {
	case 0:
		in.ret(g, nil)
	case 1:
		in.ret(g, in.zero(res.At(0).Type()))
	default:
		t := make(Tuple, res.Len())
		for i := range t {
			t[i] = in.zero(res.At(i).Type())
		}
		in.ret(g, t)
	}
}

func (in *Interp) callDeferred(g *Gor, d deferred, ps *panicState, onRet func(Value)) {
	if d.c != nil && d.c.bi != "" {
		in.builtin(g, in.top(g), d.c, d.c.bi, d.args, d.c.op.(ssa.CallInstruction).Common())
		onRet(nil)
		return
	}
	n := len(g.frames)
	in.pushCall(g, d.fn.(*Func), d.args, -1, onRet)
	if len(g.frames) > n {
		in.top(g).deferPan = ps
	}
}

// step runs one instruction of g.
func (in *Interp) step(g *Gor) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case goPanic:
				in.raise(g, r.v)
			case killed:
				in.procExit(g.proc, killStatus, "killed")
				g.done = true
			default:
				panic(r)
			}
		}
	}()
	for len(g.frames) > 0 && g.op == nil && !g.done {
		f := in.top(g)
		c := &f.fi.blocks[f.blk][f.pc]
		if in.racy != nil && in.racy[c.op] && in.memPoint(g, f, c) {
			return
		}
		f.pc++
		in.steps++
		if in.steps&0xfffff == 0 && in.ex != nil {
			in.ex.checkTime()
		}
		if in.steps > in.maxStep || (in.maxStepPath > 0 && in.steps > in.maxStepPath && in.initing == 0) {
			panic(pathEnd{"limit", fmt.Sprintf("step limit reached in %s", f.fi.fn)})
		}
		in.exec(g, f, c)
		if g.proc != nil && g.proc.exited {
			return
		}
	}
}

func (in *Interp) jump(g *Gor, f *Frame, to int) {
	f.prev = f.blk
	f.blk = to
	f.pc = 0
	n := f.fi.nphi[to]
	if n == 0 {
		return
	}
	b := f.fi.fn.Blocks[to]
	edge := -1
	for i, p := range b.Preds {
		if p.Index == f.prev {
			edge = i
			break
		}
	}
	cs := f.fi.blocks[to]
	if n == 1 {
		f.regs[cs[0].dst] = f.get(cs[0].args[edge])
	} else {
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = f.get(cs[i].args[edge])
		}
		for i := 0; i < n; i++ {
			f.regs[cs[i].dst] = tmp[i]
		}
	}
	f.pc = n
}

func (in *Interp) exec(g *Gor, f *Frame, c *cin) {
	x := in.x
	switch ins := c.op.(type) {
	case *ssa.Alloc:
		f.regs[c.dst] = Ptr{in.alloc(ins.Type().(*types.Pointer).Elem()), 0}
	case *ssa.BinOp:
		f.regs[c.dst] = in.binop(ins.Op, f.get(c.args[0]), f.get(c.args[1]), ins.X.Type(), ins.Y.Type())
	case *ssa.UnOp:
		v := f.get(c.args[0])
		switch ins.Op {
		case token.MUL:
			if sp, ok := v.(symPtr); ok {
				f.regs[c.dst] = in.symRead(sp)
				return
			}
			f.regs[c.dst] = in.loadT(v, ins.Type())
		case token.ARROW:
			in.chanRecv(g, f, c, v.(*ChanObj), ins)
		case token.NOT:
			f.regs[c.dst] = x.Not(v.(*Term))
		case token.SUB:
			t := v.(*Term)
			if t.w == WFloat {
				f.regs[c.dst] = x.F(OFNeg, WFloat, t)
			} else {
				f.regs[c.dst] = x.Neg(t)
			}
		case token.XOR:
			f.regs[c.dst] = x.BVNot(v.(*Term))
		default:
			panic(unsup("unop %v", ins.Op))
		}
	case *ssa.Call:
		in.doCall(g, f, c, &ins.Call)
	case *ssa.ChangeInterface:
		f.regs[c.dst] = f.get(c.args[0])
	case *ssa.ChangeType:
		f.regs[c.dst] = f.get(c.args[0])
	case *ssa.Convert:
		f.regs[c.dst] = in.convert(f.get(c.args[0]), ins.X.Type(), ins.Type())
	case *ssa.MultiConvert:
		f.regs[c.dst] = in.convert(f.get(c.args[0]), ins.X.Type(), ins.Type())
	case *ssa.DebugRef:
	case *ssa.Defer:
		d := deferred{c: c}
		cc := &ins.Call
		if c.bi != "" {
			for i := 1; i < len(c.args); i++ {
				d.args = append(d.args, f.get(c.args[i]))
			}
		} else {
			d.fn, d.args = in.callTarget(f, c, cc)
		}
		if ins.DeferStack != nil {
			panic(unsup("defer stack"))
		}
		f.defers = append(f.defers, d)
	case *ssa.Extract:
		f.regs[c.dst] = f.get(c.args[0]).(Tuple)[ins.Index]
	case *ssa.Field:
		a := f.get(c.args[0]).(Agg)
		st := in.ti(ins.X.Type())
		ft := in.ti(ins.Type())
		o := st.fields[ins.Field]
		if ft.agg {
			f.regs[c.dst] = a[o : o+ft.n : o+ft.n]
		} else {
			f.regs[c.dst] = a[o]
		}
	case *ssa.FieldAddr:
		switch p := f.get(c.args[0]).(type) {
		case Ptr:
			if p.o == nil {
				panic(goPanic{in.rtErr("invalid memory address or nil pointer dereference")})
			}
			st := in.ti(ins.X.Type().Underlying().(*types.Pointer).Elem())
			f.regs[c.dst] = Ptr{p.o, p.i + st.fields[ins.Field]}
		case HdrPtr:
			f.regs[c.dst] = HdrPtr{cell: p.cell, elem: p.elem, field: ins.Field}
		default:
			panic(unsup("field address of %T", p))
		}
	case *ssa.Go:
		in.doGo(g, f, c, &ins.Call)
	case *ssa.If:
		cond := f.get(c.args[0]).(*Term)
		b := f.fi.fn.Blocks[f.blk]
		if !cond.IsConst() && in.tryMerge(f, b, cond) {
			return
		}
		if in.branch(cond) {
			in.jump(g, f, b.Succs[0].Index)
		} else {
			in.jump(g, f, b.Succs[1].Index)
		}
	case *ssa.Index:
		v := f.get(c.args[0])
		idx := in.idx64(f.get(c.args[1]).(*Term), ins.Index.Type())
		switch v := v.(type) {
		case Str:
			i := in.boundsIdx(idx, v.Len())
			f.regs[c.dst] = in.strSel(v, i)
		case Agg:
			et := in.ti(ins.Type())
			n := len(v) / max(et.n, 1)
			it := in.boundsIdx(idx, n)
			i := in.concInt(it)
			if et.agg {
				f.regs[c.dst] = v[i*et.n : (i+1)*et.n : (i+1)*et.n]
			} else {
				f.regs[c.dst] = v[i]
			}
		default:
			panic(unsup("index of %T", v))
		}
	case *ssa.IndexAddr:
		f.regs[c.dst] = in.indexAddr(f.get(c.args[0]), in.idx64(f.get(c.args[1]).(*Term), ins.Index.Type()), ins, c.symOK)
	case *ssa.Jump:
		in.jump(g, f, f.fi.fn.Blocks[f.blk].Succs[0].Index)
	case *ssa.Lookup:
		m := f.get(c.args[0]).(*MapObj)
		v, ok := in.mapGet(m, f.get(c.args[1]))
		if !ok {
			v = in.zero(ins.X.Type().Underlying().(*types.Map).Elem())
		}
		if ins.CommaOk {
			f.regs[c.dst] = Tuple{v, x.Bool(ok)}
		} else {
			f.regs[c.dst] = v
		}
	case *ssa.MakeChan:
		n := in.concInt(in.idx64(f.get(c.args[0]).(*Term), ins.Size.Type()))
		if n < 0 {
			panic(goPanic{in.rtErr("makechan: size out of range")})
		}
		in.objSeq++
		f.regs[c.dst] = &ChanObj{id: in.objSeq, epoch: in.epoch, cap: n, et: ins.Type().Underlying().(*types.Chan).Elem()}
	case *ssa.MakeClosure:
		fn := c.args[0].v.(*Func).fn
		b := make([]Value, len(c.args)-1)
		for i := range b {
			b[i] = f.get(c.args[i+1])
		}
		f.regs[c.dst] = &Func{fn: fn, bind: b}
	case *ssa.MakeInterface:
		f.regs[c.dst] = &Iface{ins.X.Type(), f.get(c.args[0])}
	case *ssa.MakeMap:
		in.objSeq++
		mt := ins.Type().Underlying().(*types.Map)
		f.regs[c.dst] = &MapObj{id: in.objSeq, epoch: in.epoch, idx: map[string]int{}, kt: mt.Key(), vt: mt.Elem()}
	case *ssa.MakeSlice:
		et := ins.Type().Underlying().(*types.Slice).Elem()
		lt := in.idx64(f.get(c.args[0]).(*Term), ins.Len.Type())
		ct := in.idx64(f.get(c.args[1]).(*Term), ins.Cap.Type())
		lim := x.Const(64, 1<<40)
		if !in.branch(x.Ult(lt, lim)) {
			panic(goPanic{in.rtErr("makeslice: len out of range")})
		}
		if !in.branch(x.And(x.Ult(ct, lim), x.Ule(lt, ct))) {
			panic(goPanic{in.rtErr("makeslice: cap out of range")})
		}
		n := in.concInt(lt)
		m := in.concInt(ct)
		f.regs[c.dst] = Slice{o: in.newArr(et, m), len: n, cap: m, es: in.ti(et).n}
	case *ssa.MapUpdate:
		in.mapSet(f.get(c.args[0]).(*MapObj), f.get(c.args[1]), f.get(c.args[2]))
	case *ssa.Next:
		in.doNext(f, c, ins)
	case *ssa.Panic:
		v := f.get(c.args[0]).(*Iface)
		if v == nil {
			v = in.rtErr("panic called with nil argument")
		}
		panic(goPanic{v})
	case *ssa.Phi:
		panic(unsup("phi reached"))
	case *ssa.Range:
		switch v := f.get(c.args[0]).(type) {
		case *MapObj:
			it := &RangeIter{m: v}
			if v != nil {
				for i, e := range v.ents {
					if !e.dead {
						it.order = append(it.order, i)
					}
				}
				in.shuffle(it)
			}
			f.regs[c.dst] = it
		case Str:
			f.regs[c.dst] = &RangeIter{s: v.force(), isStr: true}
		default:
			panic(unsup("range over %T", v))
		}
	case *ssa.Return:
		switch len(c.args) {
		case 0:
			in.ret(g, nil)
		case 1:
			in.ret(g, f.get(c.args[0]))
		default:
			t := make(Tuple, len(c.args))
			for i := range t {
				t[i] = f.get(c.args[i])
			}
			in.ret(g, t)
		}
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.pc--
			in.callDeferred(g, d, nil, func(Value) {})
		}
	case *ssa.Select:
		in.doSelect(g, f, c, ins)
	case *ssa.Send:
		in.chanSend(g, f.get(c.args[0]).(*ChanObj), f.get(c.args[1]))
	case *ssa.Slice:
		f.regs[c.dst] = in.doSlice(f, c, ins)
	case *ssa.SliceToArrayPointer:
		s := f.get(c.args[0]).(Slice)
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			panic(goPanic{in.rtErr("slice to array conversion out of range")})
		}
		f.regs[c.dst] = Ptr{s.o, s.off}
	case *ssa.Store:
		in.storeT(f.get(c.args[0]), f.get(c.args[1]), ins.Val.Type())
	case *ssa.TypeAssert:
		f.regs[c.dst] = in.typeAssert(f.get(c.args[0]).(*Iface), ins)
	default:
		panic(unsup("instruction %T", ins))
	}
}

// idx64 widens an index to 64 bits.
func (in *Interp) idx64(t *Term, ty types.Type) *Term {
	return in.x.Resize(t, 64, in.ti(ty).signed)
}

func (in *Interp) boundsIdx(idx *Term, n int) *Term {
	if !in.branch(in.x.Ult(idx, in.x.Const(64, uint64(n)))) {
		v := "?"
		if idx.IsConst() {
			v = fmt.Sprint(idx.SVal())
		}
		panic(goPanic{in.rtErr(fmt.Sprintf("index out of range [%s] with length %d", v, n))})
	}
	return idx
}

// symPtr is the address of a symbolically indexed element, only ever loaded from.
type symPtr struct {
	o    *Obj
	off  int
	es   int
	idx  *Term
	n    int
	elem types.Type
}

func (in *Interp) indexAddr(v Value, idx *Term, ins *ssa.IndexAddr, symOK bool) Value {
	var o *Obj
	var off, n, es int
	var et types.Type
	switch v := v.(type) {
	case Slice:
		o, off, n, es = v.o, v.off, v.len, v.es
		et = ins.X.Type().Underlying().(*types.Slice).Elem()
	case Ptr:
		at := ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if v.o == nil {
			panic(goPanic{in.rtErr("invalid memory address or nil pointer dereference")})
		}
		et = at.Elem()
		o, off, n, es = v.o, v.i, int(at.Len()), in.ti(et).n
	default:
		panic(unsup("index address of %T", v))
	}
	if idx.IsConst() {
		if idx.c >= uint64(n) {
			panic(goPanic{in.rtErr(fmt.Sprintf("index out of range [%d] with length %d", idx.SVal(), n))})
		}
		return Ptr{o, off + int(idx.c)*es}
	}
	idx = in.boundsIdx(idx, n)
	if symOK && es == 1 && n <= 1024 && (in.ex == nil || !in.ex.opt.forkIndex) {
		return symPtr{o: o, off: off, es: es, idx: idx, n: n, elem: et}
	}
	return Ptr{o, off + in.concInt(idx)*es}
}

func (in *Interp) symRead(p symPtr) Value {
	ts := make([]*Term, p.n)
	for i := range ts {
		t, ok := in.ld(p.o, p.off+i).(*Term)
		if !ok {
			return in.ld(p.o, p.off+in.concInt(p.idx))
		}
		ts[i] = t
	}
	return in.x.SelectTable(p.idx, ts)
}

func (in *Interp) strSel(s Str, idx *Term) *Term {
	if idx.IsConst() {
		return in.strAt(s, int(idx.c))
	}
	return in.x.SelectTable(idx, in.strTerms(s))
}

func (in *Interp) doSlice(f *Frame, c *cin, ins *ssa.Slice) Value {
	x := in.x
	// operands: X, Low, High, Max (absent ones are nil operands)
	get := func(v ssa.Value, i int) *Term {
		if v == nil {
			return nil
		}
		return in.idx64(f.get(c.args[i]).(*Term), v.Type())
	}
	v := f.get(c.args[0])
	lo, hi, mx := get(ins.Low, 1), get(ins.High, 2), get(ins.Max, 3)
	oob := func() { panic(goPanic{in.rtErr("slice bounds out of range")}) }
	if s, ok := v.(Str); ok {
		s = s.force()
		n := s.Len()
		if hi == nil {
			hi = x.Const(64, uint64(n))
		}
		if lo == nil {
			lo = x.Const(64, 0)
		}
		if !in.branch(x.And(x.Ule(hi, x.Const(64, uint64(n))), x.Ule(lo, hi))) {
			oob()
		}
		h := in.concInt(hi)
		l := in.concInt(lo)
		if s.b != nil {
			return in.mkStr(s.b[l:h])
		}
		return Str{s: s.s[l:h]}
	}
	var s Slice
	switch v := v.(type) {
	case Slice:
		s = v
	case Ptr:
		if v.o == nil {
			panic(goPanic{in.rtErr("invalid memory address or nil pointer dereference")})
		}
		at := ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := int(at.Len())
		es := in.ti(at.Elem()).n
		s = Slice{o: v.o, off: v.i, len: n, cap: n, es: es}
	default:
		panic(unsup("slice of %T", v))
	}
	if lo == nil {
		lo = x.Const(64, 0)
	}
	if hi == nil {
		hi = x.Const(64, uint64(s.len))
	}
	capT := x.Const(64, uint64(s.cap))
	if mx == nil {
		if !in.branch(x.And(x.Ule(hi, capT), x.Ule(lo, hi))) {
			oob()
		}
		h := in.concInt(hi)
		l := in.concInt(lo)
		r := Slice{o: s.o, off: s.off + l*s.es, len: h - l, cap: s.cap - l, es: s.es}
		return r
	}
	if !in.branch(x.And(x.Ule(mx, capT), x.And(x.Ule(hi, mx), x.Ule(lo, hi)))) {
		oob()
	}
	m := in.concInt(mx)
	h := in.concInt(hi)
	l := in.concInt(lo)
	return Slice{o: s.o, off: s.off + l*s.es, len: h - l, cap: m - l, es: s.es}
}

func (in *Interp) typeAssert(v *Iface, ins *ssa.TypeAssert) Value {
	at := ins.AssertedType
	ok := false
	if v != nil {
		if it, isI := at.Underlying().(*types.Interface); isI {
			ok = in.implements(v.t, it)
		} else {
			ok = types.Identical(v.t, at)
		}
	}
	if ok {
		var r Value = v
		if _, isI := at.Underlying().(*types.Interface); !isI {
			r = v.v
		}
		if ins.CommaOk {
			return Tuple{r, in.x.True}
		}
		return r
	}
	if ins.CommaOk {
		return Tuple{in.zero(at), in.x.False}
	}
	d := "nil"
	if v != nil {
		d = v.t.String()
	}
	panic(goPanic{in.rtErr(fmt.Sprintf("interface conversion: interface is %s, not %s", d, at))})
}

func (in *Interp) implements(t types.Type, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	return types.Implements(t, it)
}

// callTarget evaluates the callee and arguments of a call.
func (in *Interp) callTarget(f *Frame, c *cin, cc *ssa.CallCommon) (*Func, []Value) {
	if cc.IsInvoke() {
		recv := f.get(c.args[0]).(*Iface)
		args := make([]Value, len(c.args))
		for i := 1; i < len(c.args); i++ {
			args[i] = f.get(c.args[i])
		}
		if recv == nil {
			panic(goPanic{in.rtErr("invalid memory address or nil pointer dereference")})
		}
		args[0] = recv.v
		return &Func{fn: in.lookupMethod(recv.t, cc.Method)}, args
	}
	args := make([]Value, len(c.args)-1)
	for i := range args {
		args[i] = f.get(c.args[i+1])
	}
	fv, _ := f.get(c.args[0]).(*Func)
	return fv, args
}

func (in *Interp) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m.Id()}
	if fn, ok := in.methods[k]; ok {
		return fn
	}
	fn := in.prog.lookupMethod(t, m)
	if fn == nil {
		panic(unsup("no method %s on %s", m.Name(), t))
	}
	in.methods[k] = fn
	return fn
}

func (in *Interp) doCall(g *Gor, f *Frame, c *cin, cc *ssa.CallCommon) {
	if c.bi != "" {
		args := make([]Value, len(c.args)-1)
		for i := range args {
			args[i] = f.get(c.args[i+1])
		}
		r := in.builtin(g, f, c, c.bi, args, cc)
		if g.op == nil && c.dst >= 0 {
			f.regs[c.dst] = r
		}
		return
	}
	if c.callee != nil {
		args := make([]Value, len(c.args)-1)
		for i := range args {
			args[i] = f.get(c.args[i+1])
		}
		if c.intr != nil {
			in.callIntrinsic(g, c.callee, c.intr, args, c.dst, nil)
			return
		}
		in.pushCall(g, &Func{fn: c.callee}, args, c.dst, nil)
		return
	}
	fv, args := in.callTarget(f, c, cc)
	in.pushCall(g, fv, args, c.dst, nil)
}

func (in *Interp) doGo(g *Gor, f *Frame, c *cin, cc *ssa.CallCommon) {
	fv, args := in.callTarget(f, c, cc)
	in.spawn(g.proc, fv, args)
}

func (in *Interp) spawn(p *Proc, fv *Func, args []Value) *Gor {
	in.gorSeq++
	ng := &Gor{id: in.gorSeq, proc: p}
	if in.cur != nil && in.cur.proc == p {
		ng.path = in.kidPath(in.cur)
	} else {
		ng.path = "0"
	}
	in.gors = append(in.gors, ng)
	p.gors++
	if in.cur != nil && in.cur.proc == p {
		in.hbSpawn(in.cur, ng)
	}
	in.pushCall(ng, fv, args, -1, func(Value) {})
	if len(ng.frames) == 0 && ng.op == nil {
		in.gorDone(ng)
	}
	return ng
}

func (in *Interp) doNext(f *Frame, c *cin, ins *ssa.Next) {
	it := f.get(c.args[0]).(*RangeIter)
	x := in.x
	if it.isStr {
		n := it.s.Len()
		if it.pos >= n {
			f.regs[c.dst] = Tuple{x.False, x.Const(64, 0), x.Const(32, 0)}
			return
		}
		b := in.strAt(it.s, it.pos)
		p := it.pos
		if in.branch(x.Ult(b, x.Const(8, 0x80))) {
			it.pos++
			f.regs[c.dst] = Tuple{x.True, x.Const(64, uint64(p)), x.Zext(b, 32)}
			return
		}
		rest := Str{}
		if it.s.b != nil {
			rest = in.mkStr(it.s.b[p:min(n, p+4)])
		} else {
			rest = Str{s: it.s.s[p:min(n, p+4)]}
		}
		rs := []rune(in.concStr(rest))
		r := rs[0]
		w := len(string(r))
		if r == 0xfffd {
			raw := in.concStr(rest)
			if len(raw) >= 3 && raw[0] == 0xef && raw[1] == 0xbf && raw[2] == 0xbd {
				w = 3
			} else {
				w = 1
			}
		}
		it.pos += w
		f.regs[c.dst] = Tuple{x.True, x.Const(64, uint64(p)), x.Const(32, uint64(r))}
		return
	}
	mt := ins.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	for it.m != nil && it.pos < len(it.order) {
		e := it.m.ents[it.order[it.pos]]
		it.pos++
		if e.dead {
			continue
		}
		f.regs[c.dst] = Tuple{x.True, e.k, e.v}
		return
	}
	f.regs[c.dst] = Tuple{x.False, in.zero(mt.Key()), in.zero(mt.Elem())}
}
