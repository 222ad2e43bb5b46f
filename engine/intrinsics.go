package engine

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(c *icall)

// icall is one call of an intrinsic.
type icall struct {
	in   *Interp
	g    *Gor
	fn   *ssa.Function
	args []Value
	ret  func(Value)

	unused bool // nobody reads the result
}

func (c *icall) term(i int) *Term { return c.args[i].(*Term) }
func (c *icall) str(i int) string { return c.in.concStr(c.args[i]) }
func (c *icall) int(n int) Value  { return c.in.x.Const(64, uint64(int64(n))) }
func (c *icall) retInt(n int)     { c.ret(c.int(n)) }
func (c *icall) retNil()          { c.ret(nil) }
func (c *icall) retZero() {
	res := c.fn.Signature.Results()
	switch res.Len() {
	case 0:
		c.ret(nil)
	case 1:
		c.ret(c.in.zero(res.At(0).Type()))
	default:
		t := make(Tuple, res.Len())
		for i := range t {
			t[i] = c.in.zero(res.At(i).Type())
		}
		c.ret(t)
	}
}

var intrinsics = map[string]intrinsic{}

// stubbed lists the intrinsics that stand for behaviour outside the encoded code (reported as trusted).
func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func (in *Interp) intrinsicFor(fn *ssa.Function) intrinsic {
	if v, ok := in.prog.intr.Load(fn); ok {
		return v.(intrinsic)
	}
	name := fn.String()
	f := intrinsics[name]
	if f == nil && fn.Origin() != nil {
		f = intrinsics[fn.Origin().String()]
	}
	if f == nil {
		path := fnPkgPath(fn)
		switch {
		case path == HarnessPrefix+"v":
			f = intrinsics["v."+fn.Name()]
		case path == "sync/atomic" && fn.Signature.Recv() == nil && fn.Parent() == nil && fn.Synthetic == "":
			f = atomicIntr(fn.Name())
		case path == "internal/runtime/atomic" && fn.Signature.Recv() == nil:
			f = atomicIntr(fn.Name())
		case fn.Synthetic == "package initializer":
			// imported packages are initialised when one of their variables is first used
			f = func(c *icall) { c.ret(nil) }
		case path == "reflect":
			f = reflectRefused(name)
		}
	}
	in.prog.intr.Store(fn, f)
	return f
}

func (in *Interp) callIntrinsic(g *Gor, fn *ssa.Function, intr intrinsic, args []Value, dst int, onRet func(Value)) {
	var fr *Frame
	if len(g.frames) > 0 {
		fr = in.top(g)
	}
	c := &icall{in: in, g: g, fn: fn, args: args, unused: onRet == nil && dst < 0 && fr != nil}
	c.ret = func(v Value) {
		if onRet != nil {
			onRet(v)
		} else if dst >= 0 && fr != nil {
			fr.regs[dst] = v
		}
		if fr == nil && len(g.frames) == 0 && !g.done {
			in.gorDone(g)
		}
	}
	intr(c)
}

func (c *icall) visible() bool {
	in := c.in
	return in.ex != nil && in.ex.opt.visAtomics && !c.g.sync && in.initing == 0 && !in.quietCaller(c.g)
}

// atomic is vis for an atomic memory operation.
func (c *icall) atomic(comm string, acquire, release bool, do func()) {
	in, k := c.in, c.args[0]
	if p, ok := k.(Ptr); !ok || p.o == nil {
		acquire, release = false, false
	}
	c.vis(c.args[0], comm, func() {
		if acquire {
			in.hbAcquire(c.g, k)
		}
		in.atomic = true
		defer func() { in.atomic = false }()
		do()
		if release {
			in.hbRelease(c.g, k)
		}
	})
}

func (c *icall) atomicValue(do func(p Ptr)) {
	p := c.args[0].(Ptr)
	if p.o == nil {
		panic(goPanic{c.in.rtErr("invalid memory address or nil pointer dereference")})
	}
	c.in.hbAcquire(c.g, p)
	c.in.atomic = true
	defer func() { c.in.atomic = false }()
	do(p)
	c.in.hbRelease(c.g, p)
}

// vis performs do as a visible operation when the harness asked for atomics and locks to be visible.
func (c *icall) vis(obj Value, comm string, do func()) {
	if !c.visible() {
		do()
		return
	}
	var objs []int
	if p, ok := obj.(Ptr); ok && p.o != nil {
		objs = []int{p.o.id<<12 + p.i}
	}
	c.g.op = &pendOp{enabled: func() bool { return true }, fire: do, objs: objs, comm: comm, desc: c.fn.Name()}
}

func (in *Interp) quietCaller(g *Gor) bool {
	if len(g.frames) == 0 {
		return false
	}
	p := fnPkgPath(in.top(g).fi.fn)
	for _, q := range in.ex.opt.quietPkgs {
		if p == ModPath+"/"+q {
			return true
		}
	}
	return !strings.HasPrefix(p, ModPath)
}

func atomicIntr(name string) intrinsic {
	pick := func(pre string) bool { return strings.HasPrefix(name, pre) }
	switch {
	case pick("Load"):
		return func(c *icall) {
			c.atomic("load", true, false, func() {
				c.ret(c.in.loadT(c.args[0], c.fn.Signature.Results().At(0).Type()))
			})
		}
	case pick("Store"):
		return func(c *icall) {
			c.atomic("", true, true, func() {
				c.in.storeT(c.args[0], c.args[1], c.fn.Signature.Params().At(1).Type())
				c.ret(nil)
			})
		}
	case pick("Add"), pick("Xadd"):
		return func(c *icall) {
			comm := ""
			if c.unused { // blind additions commute
				comm = "add"
			}
			c.atomic(comm, c.visible(), c.visible(), func() {
				t := c.fn.Signature.Params().At(1).Type()
				v := c.in.loadT(c.args[0], t).(*Term)
				r := c.in.x.Add(v, c.term(1))
				c.in.storeT(c.args[0], r, t)
				c.ret(r)
			})
		}
	case pick("CompareAndSwap"), pick("Cas"):
		return func(c *icall) {
			c.atomic("", true, true, func() {
				t := c.fn.Signature.Params().At(1).Type()
				v := c.in.loadT(c.args[0], t)
				if c.in.branch(c.in.eqTerm(v, c.args[1])) {
					c.in.storeT(c.args[0], c.args[2], t)
					c.ret(c.in.x.True)
				} else {
					c.ret(c.in.x.False)
				}
			})
		}
	case pick("Swap"), pick("Xchg"):
		return func(c *icall) {
			c.atomic("", true, true, func() {
				t := c.fn.Signature.Params().At(1).Type()
				v := c.in.loadT(c.args[0], t)
				c.in.storeT(c.args[0], c.args[1], t)
				c.ret(v)
			})
		}
	case pick("Or"), pick("And"):
		return func(c *icall) {
			c.in.atomic = true
			defer func() { c.in.atomic = false }()
			t := c.fn.Signature.Params().At(1).Type()
			v := c.in.loadT(c.args[0], t).(*Term)
			var r *Term
			if pick("Or") {
				r = c.in.x.BVOr(v, c.term(1))
			} else {
				r = c.in.x.BVAnd(v, c.term(1))
			}
			c.in.storeT(c.args[0], r, t)
			if c.fn.Signature.Results().Len() > 0 {
				c.ret(v)
			} else {
				c.ret(nil)
			}
		}
	}
	return nil
}

// ---- sync

type mutexState struct {
	locked  bool
	readers int
}

type wgState struct{ n *Term }

// poolItem is a value in a pool: who gets it comes after who put it there, and not after others.
type poolItem struct{ v Value }

type poolState struct {
	items []*poolItem
}

type sideKey struct {
	kind string
	p    Ptr
}

func (in *Interp) mutex(p Value) *mutexState {
	k := sideKey{"mutex", p.(Ptr)}
	if k.p.o == nil {
		panic(goPanic{in.rtErr("invalid memory address or nil pointer dereference")})
	}
	if s, ok := in.side[k]; ok {
		return s.(*mutexState)
	}
	s := &mutexState{}
	in.side[k] = s
	return s
}

func (c *icall) lock(ready func(*mutexState) bool, take func(*mutexState)) {
	m := c.in.mutex(c.args[0])
	vis := c.in.ex != nil && c.in.ex.opt.visAtomics && !c.g.sync && !c.in.quietCaller(c.g)
	p := c.args[0].(Ptr)
	key := sideKey{"mutex", p}
	if !vis && ready(m) {
		take(m)
		c.in.hbAcquire(c.g, key)
		c.ret(nil)
		return
	}
	c.g.op = &pendOp{enabled: func() bool { return ready(m) }, fire: func() { take(m); c.in.hbAcquire(c.g, key); c.ret(nil) }, objs: []int{p.o.id<<12 + p.i}, desc: c.fn.Name()}
}

func init() {
	reg(func(c *icall) {
		c.lock(func(m *mutexState) bool { return !m.locked && m.readers == 0 }, func(m *mutexState) { m.locked = true })
	}, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(func(c *icall) {
		c.lock(func(m *mutexState) bool { return !m.locked }, func(m *mutexState) { m.readers++ })
	}, "(*sync.RWMutex).RLock")
	reg(func(c *icall) {
		m := c.in.mutex(c.args[0])
		if m.locked || m.readers > 0 {
			c.ret(c.in.x.False)
			return
		}
		m.locked = true
		c.in.hbAcquire(c.g, sideKey{"mutex", c.args[0].(Ptr)})
		c.ret(c.in.x.True)
	}, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	reg(func(c *icall) {
		m := c.in.mutex(c.args[0])
		if !m.locked {
			panic(crash{"fatal error: sync: unlock of unlocked mutex"})
		}
		m.locked = false
		c.in.hbRelease(c.g, sideKey{"mutex", c.args[0].(Ptr)})
		c.ret(nil)
	}, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(func(c *icall) {
		m := c.in.mutex(c.args[0])
		if m.readers == 0 {
			panic(crash{"fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		m.readers--
		c.in.hbRelease(c.g, sideKey{"mutex", c.args[0].(Ptr)})
		c.ret(nil)
	}, "(*sync.RWMutex).RUnlock")

	wg := func(c *icall) *wgState {
		k := sideKey{"wg", c.args[0].(Ptr)}
		if k.p.o == nil {
			panic(goPanic{c.in.rtErr("invalid memory address or nil pointer dereference")})
		}
		if s, ok := c.in.side[k]; ok {
			return s.(*wgState)
		}
		s := &wgState{c.in.x.Const(64, 0)}
		c.in.side[k] = s
		return s
	}
	wgAdd := func(c *icall, d *Term) {
		s := wg(c)
		c.in.hbRelease(c.g, s)
		s.n = c.in.x.Add(s.n, d)
		if !c.in.branch(c.in.x.Sle(c.in.x.Const(64, 0), s.n)) {
			panic(goPanic{c.in.strErr("sync: negative WaitGroup counter")})
		}
		c.ret(nil)
	}
	reg(func(c *icall) { wgAdd(c, c.term(1)) }, "(*sync.WaitGroup).Add")
	reg(func(c *icall) { wgAdd(c, c.in.x.Const(64, ^uint64(0))) }, "(*sync.WaitGroup).Done")
	reg(func(c *icall) {
		s := wg(c)
		zero := func() bool { return s.n.IsConst() && s.n.c == 0 }
		if !s.n.IsConst() {
			s.n = c.in.x.Const(64, c.in.conc(s.n))
		}
		if zero() {
			c.in.hbAcquire(c.g, s)
			c.ret(nil)
			return
		}
		p := c.args[0].(Ptr)
		c.g.op = &pendOp{enabled: zero, fire: func() { c.in.hbAcquire(c.g, s); c.ret(nil) }, objs: []int{p.o.id<<12 + p.i}, comm: "wg", desc: "WaitGroup.Wait"}
	}, "(*sync.WaitGroup).Wait")
	reg(func(c *icall) {
		in := c.in
		s := wg(c)
		s.n = in.x.Add(s.n, in.x.Const(64, 1))
		f := c.args[1].(*Func)
		done := &Func{name: "wg.Done", native: func(in *Interp, g *Gor, _ []Value) Value {
			in.hbRelease(g, s)
			s.n = in.x.Sub(s.n, in.x.Const(64, 1))
			return nil
		}}
		in.gorSeq++
		ng := &Gor{id: in.gorSeq, proc: c.g.proc, path: in.kidPath(c.g)}
		in.gors = append(in.gors, ng)
		ng.proc.gors++
		in.hbSpawn(c.g, ng)
		in.pushCall(ng, f, nil, -1, func(Value) { done.native(in, ng, nil) })
		c.ret(nil)
	}, "(*sync.WaitGroup).Go")

	// sync.Pool: Get returns something put earlier (its content scribbled over, as any
	// other user may have written to it) or calls New.
	reg(func(c *icall) {
		in := c.in
		ps := in.pool(c.args[0].(Ptr))
		n := len(ps.items)
		k := 0 // 0: most recent; n: New
		if n > 0 && in.ex != nil && in.ex.opt.sched == schedAll {
			// the oldest: two users of one buffer put back twice then seem
			// as concurrent as they can be
			k = n - 1
		}
		if n > 0 && in.ex != nil && in.ex.opt.poolChoice {
			k = in.ex.choose(n+1, "pool")
		}
		if in.ex != nil && c.g.path != "" {
			if _, ok := in.modSite(c.g); ok {
				e := Event{Run: c.g.proc.id, G: c.g.path, Kind: "pool", Case: k}
				if k >= n {
					e.Case = -1
				}
				in.ex.events = append(in.ex.events, e)
			}
		}
		if n > k {
			i := n - 1 - k
			v := ps.items[i]
			ps.items = append(append([]*poolItem(nil), ps.items[:i]...), ps.items[i+1:]...)
			in.hbAcquire(c.g, v)
			c.ret(v.v)
			return
		}
		p := c.args[0].(Ptr)
		st := in.prog.typ("sync", "Pool")
		ti := in.ti(st)
		u := st.Underlying().(*types.Struct)
		fi := -1
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "New" {
				fi = ti.fields[i]
			}
		}
		f, _ := in.ld(p.o, p.i+fi).(*Func)
		if f == nil {
			c.ret((*Iface)(nil))
			return
		}
		in.pushCall(c.g, f, nil, -1, c.ret)
	}, "(*sync.Pool).Get")
	reg(func(c *icall) {
		in := c.in
		v, _ := c.args[1].(*Iface)
		if v == nil {
			c.ret(nil)
			return
		}
		if s, ok := v.v.(Slice); ok && s.o != nil && in.ex != nil && in.isBytes(v.t) {
			// whoever gets it next may have overwritten it
			lim := min(s.cap, 4096)
			for i := 0; i < lim; i++ {
				in.st(s.o, s.off+i, in.scribble(i))
			}
		}
		ps := in.pool(c.args[0].(Ptr))
		item := &poolItem{v}
		ps.items = append(append([]*poolItem(nil), ps.items...), item)
		in.hbRelease(c.g, item)
		c.ret(nil)
	}, "(*sync.Pool).Put")

	reg(func(c *icall) { // atomic.Value
		c.atomicValue(func(p Ptr) { c.ret(c.in.ld(p.o, p.i)) })
	}, "(*sync/atomic.Value).Load")
	reg(func(c *icall) {
		c.atomicValue(func(p Ptr) {
			c.in.st(p.o, p.i, c.args[1])
			c.ret(nil)
		})
	}, "(*sync/atomic.Value).Store")
	reg(func(c *icall) {
		c.atomicValue(func(p Ptr) {
			if c.in.branch(c.in.eqTerm(c.in.ld(p.o, p.i), c.args[1])) {
				c.in.st(p.o, p.i, c.args[2])
				c.ret(c.in.x.True)
			} else {
				c.ret(c.in.x.False)
			}
		})
	}, "(*sync/atomic.Value).CompareAndSwap")

	// ---- runtime and time
	reg(func(c *icall) { c.retInt(2) }, "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.NumGoroutine")
	reg(func(c *icall) { c.retZero() }, "runtime.Gosched", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer",
		"runtime.Caller", "runtime.Callers", "runtime.Stack", "runtime.ReadMemStats", "time.Now", "time.Since", "time.Sleep", "time.Until",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable",
		"internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors",
		"runtime/pprof.StartCPUProfile", "runtime/pprof.Lookup", "(*runtime/pprof.Profile).WriteTo", "runtime/pprof.StopCPUProfile", "runtime/pprof.WriteHeapProfile",
		"github.com/dterei/gotsc.BenchStart", "github.com/dterei/gotsc.TSCOverhead",
		"internal/runtime/sys.GetCallerPC", "internal/runtime/sys.GetCallerSP",
		"runtime.registerUnstableMetrics", "internal/godebug.registerMetric", "context.runtime_reflect",
		"sync.runtime_registerPoolCleanup", "sync.throw", "sync.fatal", "internal/asan.Read", "internal/asan.Write", "internal/msan.Read", "internal/msan.Write")
	reg(func(c *icall) { // how long it took since the start
		t := uint64(0)
		if c.in.ex != nil && c.in.ex.opt.anyClock {
			ts := []uint64{0, 1, 2, 90, 4096, 5000000000, 6600000000, 1 << 50, 1<<64 - 90}
			t = ts[c.in.ex.choose(len(ts), "clock")]
		}
		c.ret(c.in.x.Const(64, t))
	}, "github.com/dterei/gotsc.BenchEnd")
	reg(func(c *icall) { c.ret(c.in.x.Const(64, 4096)) }, "os.Getpagesize", "syscall.Getpagesize")
	reg(func(c *icall) { c.ret(c.args[0]) }, "internal/abi.NoEscape", "internal/abi.Escape", "runtime.noescape")
	reg(func(c *icall) {
		t := c.term(0)
		if t.IsConst() {
			c.ret(c.in.x.Const(64, t.c))
			return
		}
		panic(unsup("math.Float64bits of a symbolic float"))
	}, "math.Float64bits")
	reg(func(c *icall) {
		t := c.term(0)
		if t.IsConst() {
			c.ret(c.in.x.Const(WFloat, t.c))
			return
		}
		panic(unsup("math.Float64frombits of a symbolic value"))
	}, "math.Float64frombits")
	fl := func(f func(a []float64) float64) intrinsic {
		return func(c *icall) {
			var a []float64
			for i := range c.args {
				t := c.term(i)
				if !t.IsConst() {
					panic(unsup("%s of a symbolic float", c.fn.Name()))
				}
				a = append(a, math.Float64frombits(t.c))
			}
			c.ret(c.in.x.Const(WFloat, math.Float64bits(f(a))))
		}
	}
	reg(fl(func(a []float64) float64 { return math.Pow(a[0], a[1]) }), "math.Pow")
	reg(fl(func(a []float64) float64 { return math.Floor(a[0]) }), "math.Floor")
	reg(fl(func(a []float64) float64 { return math.Ceil(a[0]) }), "math.Ceil")
	reg(fl(func(a []float64) float64 { return math.Trunc(a[0]) }), "math.Trunc")
	reg(fl(func(a []float64) float64 { return math.Round(a[0]) }), "math.Round")
	reg(fl(func(a []float64) float64 { return math.Log(a[0]) }), "math.Log")
	reg(fl(func(a []float64) float64 { return math.Sqrt(a[0]) }), "math.Sqrt")
	reg(fl(func(a []float64) float64 { return math.Max(a[0], a[1]) }), "math.Max")
	reg(fl(func(a []float64) float64 { return math.Min(a[0], a[1]) }), "math.Min")
	reg(func(c *icall) {
		t := c.term(0)
		x := c.in.x
		if t.IsConst() {
			c.ret(x.Const(WFloat, math.Float64bits(math.Abs(math.Float64frombits(t.c)))))
			return
		}
		neg := x.F(OFLt, 0, t, x.Const(WFloat, 0))
		if c.in.branch(neg) {
			c.ret(x.F(OFNeg, WFloat, t))
		} else {
			c.ret(t)
		}
	}, "math.Abs")

	// ---- bits with symbolic operands
	reg(func(c *icall) {
		t := c.term(0)
		if t.IsConst() {
			c.retInt(bits.Len64(t.c))
			return
		}
		x := c.in.x
		r := x.Const(64, 0)
		for i := 0; i < int(t.w); i++ {
			r = x.Ite(x.Eq(x.Extract(t, uint8(i), uint8(i)), x.Const(1, 1)), x.Const(64, uint64(i+1)), r)
		}
		c.ret(r)
	}, "math/bits.Len64", "math/bits.Len32", "math/bits.Len", "math/bits.Len8", "math/bits.Len16")
	reg(func(c *icall) {
		t := c.term(0)
		if t.IsConst() {
			n := bits.TrailingZeros64(t.c)
			if n > int(t.w) {
				n = int(t.w)
			}
			c.retInt(n)
			return
		}
		x := c.in.x
		r := x.Const(64, uint64(t.w))
		for i := int(t.w) - 1; i >= 0; i-- {
			r = x.Ite(x.Eq(x.Extract(t, uint8(i), uint8(i)), x.Const(1, 1)), x.Const(64, uint64(i)), r)
		}
		c.ret(r)
	}, "math/bits.TrailingZeros64", "math/bits.TrailingZeros32", "math/bits.TrailingZeros")
	reg(func(c *icall) {
		t := c.term(0)
		x := c.in.x
		r := x.Const(64, 0)
		for i := 0; i < int(t.w); i++ {
			r = x.Add(r, x.Zext(x.Extract(t, uint8(i), uint8(i)), 64))
		}
		c.ret(r)
	}, "math/bits.OnesCount64", "math/bits.OnesCount32", "math/bits.OnesCount")
	reg(func(c *icall) {
		t := c.term(0)
		x := c.in.x
		r := x.Extract(t, 7, 0)
		for lo := uint8(8); lo < t.w; lo += 8 {
			r = x.Concat(r, x.Extract(t, lo+7, lo))
		}
		c.ret(r)
	}, "math/bits.ReverseBytes64", "math/bits.ReverseBytes32", "math/bits.ReverseBytes16")

	// ---- bytealg
	seq := func(in *Interp, v Value) []*Term {
		switch v := v.(type) {
		case Slice:
			return in.sliceBytes(v)
		case Str:
			return in.strTerms(v)
		}
		panic(unsup("bytes of %T", v))
	}
	reg(func(c *icall) {
		b := seq(c.in, c.args[0])
		for i, t := range b {
			if c.in.branch(c.in.x.Eq(t, c.term(1))) {
				c.retInt(i)
				return
			}
		}
		c.retInt(-1)
	}, "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString")
	reg(func(c *icall) {
		b := seq(c.in, c.args[0])
		for i := len(b) - 1; i >= 0; i-- {
			if c.in.branch(c.in.x.Eq(b[i], c.term(1))) {
				c.retInt(i)
				return
			}
		}
		c.retInt(-1)
	}, "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString")
	reg(func(c *icall) {
		b := seq(c.in, c.args[0])
		n := 0
		for _, t := range b {
			if c.in.branch(c.in.x.Eq(t, c.term(1))) {
				n++
			}
		}
		c.retInt(n)
	}, "internal/bytealg.Count", "internal/bytealg.CountString")
	reg(func(c *icall) {
		in := c.in
		a, b := seq(in, c.args[0]), seq(in, c.args[1])
		c.ret(in.cmpBytes(a, b))
	}, "internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare", "runtime.cmpstring")
	reg(func(c *icall) {
		in := c.in
		a, b := seq(in, c.args[0]), seq(in, c.args[1])
		c.ret(in.eqTerm(in.mkStr(a), in.mkStr(b)))
	}, "internal/bytealg.Equal", "bytes.Equal")
	idx := func(c *icall) {
		in := c.in
		a, b := seq(in, c.args[0]), seq(in, c.args[1])
		for i := 0; i+len(b) <= len(a); i++ {
			if in.branch(in.eqTerm(in.mkStr(a[i:i+len(b)]), in.mkStr(b))) {
				c.retInt(i)
				return
			}
		}
		c.retInt(-1)
	}
	reg(idx, "internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index")
	// letter case, for texts that are ASCII; the real code runs otherwise
	ascii := func(in *Interp, b ...*Term) bool {
		r := in.x.True
		for _, t := range b {
			r = in.x.And(r, in.x.Ult(t, in.x.Const(8, 0x80)))
		}
		return in.branch(r)
	}
	toCase := func(in *Interp, t *Term, lo, hi byte) *Term {
		x := in.x
		return x.Ite(x.And(x.Ule(x.Const(8, uint64(lo)), t), x.Ule(t, x.Const(8, uint64(hi)))), x.BVXor(t, x.Const(8, 0x20)), t)
	}
	reg(func(c *icall) {
		in := c.in
		a, b := seq(in, c.args[0]), seq(in, c.args[1])
		if !ascii(in, append(append([]*Term{}, a...), b...)...) {
			c.callReal()
			return
		}
		if len(a) != len(b) {
			c.ret(in.x.False)
			return
		}
		r := in.x.True
		for i := range a {
			r = in.x.And(r, in.x.Eq(toCase(in, a[i], 'A', 'Z'), toCase(in, b[i], 'A', 'Z')))
		}
		c.ret(r)
	}, "strings.EqualFold", "bytes.EqualFold")
	mapCase := func(lo, hi byte) intrinsic {
		return func(c *icall) {
			in := c.in
			s := c.args[0].(Str)
			a := seq(in, s)
			if !ascii(in, a...) {
				c.callReal()
				return
			}
			r := make([]*Term, len(a))
			for i := range a {
				r[i] = toCase(in, a[i], lo, hi)
			}
			c.ret(in.mkStr(r))
		}
	}
	reg(mapCase('A', 'Z'), "strings.ToLower")
	reg(mapCase('a', 'z'), "strings.ToUpper")
	reg(func(c *icall) {
		n := c.in.concInt(c.term(0))
		c.ret(Slice{o: c.in.newArr(types.Typ[types.Uint8], n), len: n, cap: n, es: 1})
	}, "internal/bytealg.MakeNoZero", "strings.bytealg_MakeNoZero")

	// ---- reflect (only what iunsafe needs) and reflectlite (for sort.Slice)
	reg(func(c *icall) {
		v := c.args[0].(*Iface)
		if v == nil {
			c.ret((*Iface)(nil))
			return
		}
		c.ret(c.in.rtypeOf(v.t))
	}, "reflect.TypeOf")
	reg(func(c *icall) { c.ret(c.in.x.Const(64, uint64(reflectKind(c.in.rtype(c.args[0]))))) }, "(*reflect.rtype).Kind")
	reg(func(c *icall) { c.ret(c.in.x.Const(64, uint64(c.in.sizes.Sizeof(c.in.rtype(c.args[0]))))) }, "(*reflect.rtype).Size")
	reg(func(c *icall) {
		switch t := c.in.rtype(c.args[0]).Underlying().(type) {
		case *types.Pointer:
			c.ret(c.in.rtypeOf(t.Elem()))
		case *types.Slice:
			c.ret(c.in.rtypeOf(t.Elem()))
		case *types.Array:
			c.ret(c.in.rtypeOf(t.Elem()))
		case *types.Map:
			c.ret(c.in.rtypeOf(t.Elem()))
		case *types.Chan:
			c.ret(c.in.rtypeOf(t.Elem()))
		default:
			panic(goPanic{c.in.strErr("reflect: Elem of invalid type")})
		}
	}, "(*reflect.rtype).Elem")
	reg(func(c *icall) { c.ret(Str{s: c.in.rtype(c.args[0]).String()}) }, "(*reflect.rtype).String")
	reg(func(c *icall) {
		v := c.args[0].(*Iface)
		c.ret(Agg{UPtr{}, v, c.in.x.Const(64, 0)})
	}, "internal/reflectlite.ValueOf", "reflect.ValueOf")
	reg(func(c *icall) {
		v := c.args[0].(*Iface)
		s := v.v.(Slice)
		c.ret(&Func{name: "swapper", native: func(in *Interp, g *Gor, a []Value) Value {
			i, j := in.concInt(a[0].(*Term)), in.concInt(a[1].(*Term))
			if i < 0 || j < 0 || i >= s.len || j >= s.len {
				panic(goPanic{in.strErr("reflect: slice index out of range")})
			}
			for k := 0; k < s.es; k++ {
				p, q := s.off+i*s.es+k, s.off+j*s.es+k
				vi, vj := in.ld(s.o, p), in.ld(s.o, q)
				in.st(s.o, p, vj)
				in.st(s.o, q, vi)
			}
			return nil
		}})
	}, "internal/reflectlite.Swapper", "reflect.Swapper")
	reg(func(c *icall) { c.ret(Str{s: "context"}) }, "context.contextName", "context.stringify")

	// mutexes, pools etc. of packages that are visible only through their own state
	reg(func(c *icall) { c.yieldThen(func() { c.callReal() }) }, "(*context.cancelCtx).Err")
	reg(func(c *icall) {
		// a command's first cancel function is the one that its user can call
		if p, ret := c.g.proc, c.ret; p != nil && p.cancel == nil {
			c.ret = func(v Value) {
				p.cancel = v.(Tuple)[1].(*Func)
				ret(v)
			}
		}
		c.callReal()
	}, "context.WithCancel")
}

// callReal runs the function's own body instead of the intrinsic.
func (c *icall) callReal() {
	in := c.in
	fi := in.compile(c.fn)
	fr := &Frame{fi: fi, regs: make([]Value, fi.nslot), dst: -1, onRet: c.ret, prev: -1}
	copy(fr.regs, c.args)
	c.g.frames = append(c.g.frames, fr)
}

// yieldThen makes a scheduling point before do.
func (c *icall) yieldThen(do func()) {
	if c.in.ex == nil || c.in.ex.opt.sched != schedAll || c.g.sync {
		do()
		return
	}
	c.g.op = &pendOp{enabled: func() bool { return true }, fire: do, desc: c.fn.Name(), objs: []int{-1}}
}

func (in *Interp) strErr(s string) *Iface {
	return &Iface{types.Typ[types.String], Str{s: s}}
}

func (in *Interp) pool(p Ptr) *poolState {
	k := sideKey{"pool", p}
	if s, ok := in.side[k]; ok {
		return s.(*poolState)
	}
	s := &poolState{}
	in.side[k] = s
	return s
}

func (in *Interp) isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// scribble returns an arbitrary byte value, shared between buffers to limit the number of variables.
func (in *Interp) scribble(i int) *Term {
	if i >= 64 {
		return in.x.Const(8, uint64(0xA5^byte(i*7)))
	}
	return in.x.Var(8, fmt.Sprintf("pool-scribble-%d", i))
}

func (in *Interp) cmpBytes(a, b []*Term) *Term {
	x := in.x
	n := min(len(a), len(b))
	var r *Term
	switch {
	case len(a) < len(b):
		r = x.Const(64, ^uint64(0))
	case len(a) > len(b):
		r = x.Const(64, 1)
	default:
		r = x.Const(64, 0)
	}
	for i := n - 1; i >= 0; i-- {
		r = x.Ite(x.Eq(a[i], b[i]), r, x.Ite(x.Ult(a[i], b[i]), x.Const(64, ^uint64(0)), x.Const(64, 1)))
	}
	return r
}

type rtypeKey struct{ t string }

// rtypeOf makes a reflect.Type for t.
func (in *Interp) rtypeOf(t types.Type) *Iface {
	k := types.TypeString(t, nil)
	rt := in.prog.typ("reflect", "rtype")
	o, ok := in.rtypes[k]
	if !ok {
		save := in.epoch
		in.epoch = 0
		o = in.alloc(rt)
		in.epoch = save
		in.rtypes[k] = o
		in.rtypeBack[o] = t
	}
	return &Iface{types.NewPointer(rt), Ptr{o, 0}}
}

func (in *Interp) rtype(v Value) types.Type {
	p, ok := v.(Ptr)
	if !ok {
		panic(unsup("reflect type %T", v))
	}
	t, ok := in.rtypeBack[p.o]
	if !ok {
		panic(unsup("unknown reflect type"))
	}
	return t
}

func reflectKind(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// setArgs sets os.Args.
func (in *Interp) setArgs(args []string) {
	sp := in.prog.pkgs["os"]
	g := sp.Var("Args")
	o := in.globalObj(g)
	st := types.Typ[types.String]
	a := in.newArr(st, len(args))
	for i, s := range args {
		a.rawSet(i, Str{s: s})
	}
	in.st(o, 0, Slice{o: a, len: len(args), cap: len(args), es: 1})
}

// specialGlobals sets up globals of packages whose initialisers are not run.
func (in *Interp) specialGlobals(p *ssa.Package) {
	save := in.epoch
	in.epoch = 0
	defer func() { in.epoch = save }()
	switch p.Pkg.Path() {
	case "os":
		for i, n := range []string{"Stdin", "Stdout", "Stderr"} {
			o := in.globalObj(p.Var(n))
			f := in.alloc(in.prog.typ("os", "File"))
			in.stdFiles[f] = i
			o.rawSet(0, Ptr{f, 0})
		}
		fs := in.prog.pkgs["io/fs"]
		if fs != nil {
			in.needInit(fs)
			for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
				if a, b := p.Var(n), fs.Var(n); a != nil && b != nil {
					in.globalObj(a).rawSet(0, in.globalObj(b).raw(0))
				}
			}
		}
	}
}
