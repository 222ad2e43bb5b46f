package engine

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pendOp is the visible operation a goroutine is parked at.
type pendOp struct {
	cases   []selCase
	hasDef  bool
	done    func(i int, v Value, ok bool)
	enabled func() bool // custom operations
	fire    func()
	objs    []int
	comm    string // operations of the same non-empty class commute
	desc    string
	idle    bool // enabled when nothing else is
}

type selCase struct {
	ch   *ChanObj
	send bool
	v    Value
}

type trans struct {
	g, g2   *Gor
	ci, ci2 int // case index; -1 default
	gids    []int
	objs    []int
	comm    string
	key     string
	desc    string
}

func (in *Interp) chanSend(g *Gor, ch *ChanObj, v Value) {
	g.op = &pendOp{cases: []selCase{{ch, true, v}}, done: func(int, Value, bool) {}, desc: "send"}
}

func (in *Interp) chanRecv(g *Gor, f *Frame, c *cin, ch *ChanObj, ins *ssa.UnOp) {
	g.op = &pendOp{cases: []selCase{{ch, false, nil}}, desc: "receive", done: func(_ int, v Value, ok bool) {
		if ins.CommaOk {
			f.regs[c.dst] = Tuple{v, in.x.Bool(ok)}
		} else {
			f.regs[c.dst] = v
		}
	}}
}

func (in *Interp) doSelect(g *Gor, f *Frame, c *cin, ins *ssa.Select) {
	op := &pendOp{hasDef: !ins.Blocking, desc: "select"}
	k := 0
	var rtypes []types.Type
	for _, s := range ins.States {
		ch := f.get(c.args[k]).(*ChanObj)
		k++
		sc := selCase{ch: ch, send: s.Dir == types.SendOnly}
		if sc.send {
			sc.v = f.get(c.args[k])
		} else {
			rtypes = append(rtypes, s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
		k++
		op.cases = append(op.cases, sc)
	}
	op.done = func(i int, v Value, ok bool) {
		t := Tuple{in.x.Const(64, uint64(int64(i))), in.x.Bool(ok)}
		ri := 0
		for j, s := range op.cases {
			if s.send {
				continue
			}
			if j == i {
				t = append(t, v)
			} else {
				t = append(t, in.zero(rtypes[ri]))
			}
			ri++
		}
		f.regs[c.dst] = t
	}
	g.op = op
}

func (in *Interp) chanClose(g *Gor, ch *ChanObj) {
	do := func() {
		if ch.closed {
			in.raise(g, in.plainErr("close of closed channel"))
			return
		}
		in.chanMut(ch)
		ch.closed = true
		in.hbRelease(g, ch)
	}
	if ch == nil {
		panic(goPanic{in.plainErr("close of nil channel")})
	}
	if in.inContextPkg(g) || g.sync {
		if ch.closed {
			panic(goPanic{in.plainErr("close of closed channel")})
		}
		in.chanMut(ch)
		ch.closed = true
		in.hbRelease(g, ch)
		return
	}
	g.op = &pendOp{enabled: func() bool { return true }, fire: do, objs: []int{ch.id}, desc: "close"}
}

func (in *Interp) plainErr(msg string) *Iface {
	if in.prog.plainErrType != nil {
		return &Iface{in.prog.plainErrType, Str{s: msg}}
	}
	return in.rtErr(msg)
}

func (in *Interp) inContextPkg(g *Gor) bool {
	f := in.top(g)
	return f.fi.fn.Pkg != nil && f.fi.fn.Pkg.Pkg.Path() == "context"
}

func (in *Interp) chanMut(ch *ChanObj) {
	if ch.epoch != in.epoch && in.ex != nil {
		panic(unsup("operation on a channel made during package initialisation"))
	}
}

// transitions lists the enabled operations.
func (in *Interp) transitions() []trans {
	var out []trans
	add := func(t trans) {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d.%d.%d", t.g.id, t.g.nvis, t.ci)
		t.gids = []int{t.g.id}
		if t.g2 != nil {
			fmt.Fprintf(&sb, "/%d.%d.%d", t.g2.id, t.g2.nvis, t.ci2)
			t.gids = append(t.gids, t.g2.id)
		}
		t.key = sb.String()
		out = append(out, t)
	}
	for _, g := range in.gors {
		op := g.op
		if g.done || op == nil || g.proc.exited {
			continue
		}
		if op.idle {
			continue
		}
		if op.enabled != nil {
			if op.enabled() {
				add(trans{g: g, objs: op.objs, comm: op.comm, desc: op.desc})
			}
			continue
		}
		any := false
		for i, c := range op.cases {
			if c.ch == nil {
				continue
			}
			objs := []int{c.ch.id}
			if c.send {
				if c.ch.closed || len(c.ch.buf) < c.ch.cap {
					add(trans{g: g, ci: i, objs: objs, desc: op.desc})
					any = true
					continue
				}
				if c.ch.cap > 0 {
					continue
				}
				for _, h := range in.gors {
					if h == g || h.done || h.op == nil || h.op.enabled != nil {
						continue
					}
					for j, d := range h.op.cases {
						if d.ch == c.ch && !d.send {
							add(trans{g: g, ci: i, g2: h, ci2: j, objs: objs, desc: "rendezvous"})
							any = true
						}
					}
				}
			} else {
				if len(c.ch.buf) > 0 || c.ch.closed {
					add(trans{g: g, ci: i, objs: objs, desc: op.desc})
					any = true
					continue
				}
				if c.ch.cap == 0 {
					for _, h := range in.gors {
						if h == g || h.done || h.op == nil || h.op.enabled != nil {
							continue
						}
						for _, d := range h.op.cases {
							if d.ch == c.ch && d.send {
								any = true
							}
						}
					}
				}
			}
		}
		if op.hasDef && !any {
			var objs []int
			for _, c := range op.cases {
				if c.ch != nil {
					objs = append(objs, c.ch.id)
				}
			}
			add(trans{g: g, ci: -1, objs: objs, desc: "default"})
		}
	}
	for _, g := range in.gors {
		if len(out) == 0 && g.op != nil && g.op.idle && !g.done && !g.proc.exited {
			add(trans{g: g, objs: g.op.objs, desc: g.op.desc})
		}
	}
	return out
}

func (in *Interp) fireTrans(t trans) {
	in.tick++
	g := t.g
	in.cur = g
	in.logEvent(&t)
	op := g.op
	g.op = nil
	g.nvis++
	g.last = in.tick
	if op.enabled != nil {
		op.fire()
		return
	}
	if t.ci < 0 {
		op.done(-1, nil, false)
		return
	}
	c := op.cases[t.ci]
	if t.g2 != nil {
		h := t.g2
		hop := h.op
		h.op = nil
		h.nvis++
		h.last = in.tick
		in.hbRendezvous(g, h)
		hop.done(t.ci2, c.v, true)
		op.done(t.ci, nil, false)
		return
	}
	if c.send {
		if c.ch.closed {
			in.raise(g, in.plainErr("send on closed channel"))
			return
		}
		in.chanMut(c.ch)
		in.hbSend(g, c.ch)
		c.ch.buf = append(append([]Value(nil), c.ch.buf...), c.v)
		op.done(t.ci, nil, false)
		return
	}
	if len(c.ch.buf) > 0 {
		in.chanMut(c.ch)
		in.hbRecv(g, c.ch)
		v := c.ch.buf[0]
		c.ch.buf = c.ch.buf[1:]
		op.done(t.ci, v, true)
		return
	}
	in.hbAcquire(g, c.ch)
	op.done(t.ci, in.zero(c.ch.et), false)
}

func dependent(a, b *trans) bool {
	for _, p := range a.gids {
		for _, q := range b.gids {
			if p == q {
				return true
			}
		}
	}
	if a.comm != "" && a.comm == b.comm {
		return false
	}
	if a.desc == "mem" && b.desc == "mem" && (a.objs[0] == memAny || b.objs[0] == memAny) {
		return true
	}
	for _, p := range a.objs {
		for _, q := range b.objs {
			if p == q {
				return true
			}
		}
	}
	return false
}

const (
	schedDet = iota
	schedAll
)

// runPath executes main as the harness process and returns how the path ended.
func (in *Interp) runPath(main *ssa.Function) (end pathEnd) {
	in.gors = nil
	in.gorSeq = 0
	in.steps = 0
	in.ntrans = 0
	in.tick = 0
	in.cur = nil
	in.side = map[interface{}]interface{}{}
	in.world = newWorld()
	in.sleep = nil
	in.preempt = 0
	in.lastG = 0
	in.maxStepPath = 0
	in.lastFail = ""
	in.hb = newHB()
	in.hbGen++
	in.hb.gen = in.hbGen
	in.racy = in.ex.sh.RacyAt
	p := &Proc{id: 0, name: "harness"}
	in.procs = []*Proc{p}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				end = r
			case unsupported:
				end = pathEnd{"unsupported", r.msg + in.where()}
			case crash:
				end = pathEnd{"unsupported", "crash outside a goroutine: " + r.msg}
			case goPanic:
				end = pathEnd{"unsupported", "panic outside a goroutine: " + in.panicText(r.v) + in.where()}
			default:
				if in.ex.sh.debug {
					panic(r)
				}
				end = pathEnd{"unsupported", fmt.Sprintf("engine failure: %v%s", r, in.where())}
			}
		}
	}()
	p.main = in.spawn(p, &Func{fn: main}, nil)
	for {
		// run everything up to its next visible operation
		for progress := true; progress; {
			progress = false
			for i := 0; i < len(in.gors); i++ {
				g := in.gors[i]
				for !g.done && g.op == nil && !g.proc.exited {
					progress = true
					in.runGor(g)
				}
			}
		}
		if p.exited {
			if p.status != 0 {
				return pathEnd{"violation", p.reason}
			}
			return pathEnd{"done", ""}
		}
		live := in.gors[:0]
		for _, g := range in.gors {
			if !g.done && !g.proc.exited {
				live = append(live, g)
			}
		}
		in.gors = live
		ts := in.transitions()
		if len(ts) == 0 {
			// deadlock: of the innermost process still running
			q := in.procs[len(in.procs)-1]
			if q.exited || q == p {
				return pathEnd{"violation", "deadlock: " + in.blockedText()}
			}
			in.procExit(q, 2, "all goroutines are asleep - deadlock")
			continue
		}
		in.ntrans++
		if in.ntrans > maxTrans && (in.ex.opt.sched == schedAll || in.ntrans > 20*maxTrans && int64(in.ntrans) > in.maxStep/400) {
			panic(pathEnd{"limit", "step limit reached: no end after many context switches" + in.where()})
		}
		in.ex.sh.addTrans(1)
		in.fireTrans(in.pick(ts))
	}
}

// maxTrans bounds the context switches of one path in which every schedule is explored; there are
// 20 times as many in others, or more where a path may be long.
const maxTrans = 3000

func (in *Interp) where() string {
	if in.cur == nil || len(in.cur.frames) == 0 {
		return ""
	}
	var fs []string
	for i := len(in.cur.frames) - 1; i >= 0 && len(fs) < 6; i-- {
		f := in.cur.frames[i]
		pos := ""
		if f.pc > 0 && f.pc <= len(f.fi.blocks[f.blk]) {
			ps := in.prog.fset.Position(f.fi.blocks[f.blk][f.pc-1].op.Pos())
			if ps.IsValid() {
				pos = fmt.Sprintf("@%s:%d", shortFile(ps.Filename), ps.Line)
			}
		}
		fs = append(fs, f.fi.fn.String()+pos)
	}
	return " [in " + strings.Join(fs, " < ") + "]"
}

func shortFile(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (in *Interp) blockedText() string {
	var s []string
	for _, g := range in.gors {
		if g.op != nil {
			in.cur = g
			s = append(s, fmt.Sprintf("goroutine %d at %s%s", g.id, g.op.desc, in.where()))
		}
	}
	sort.Strings(s)
	if len(s) > 6 {
		s = s[:6]
	}
	return strings.Join(s, "; ")
}

func (in *Interp) runGor(g *Gor) {
	in.cur = g
	defer func() {
		if r := recover(); r != nil {
			if c, ok := r.(crash); ok {
				in.procExit(g.proc, 2, "crash: "+c.msg+in.where())
				return
			}
			if gp, ok := r.(goPanic); ok {
				in.raise(g, gp.v)
				return
			}
			panic(r)
		}
	}()
	in.step(g)
}

func (in *Interp) procExit(p *Proc, status int, reason string) {
	if p.exited {
		return
	}
	p.exited = true
	p.status = status
	p.reason = reason
	if status != 0 && p.id == 0 {
		p.reason += in.where()
	}
}

// pick chooses the next transition.
func (in *Interp) pick(ts []trans) trans {
	if in.ex.opt.sched == schedDet || len(ts) == 1 && len(in.sleep) == 0 {
		if in.ex.opt.sched == schedAll {
			return ts[0]
		}
		best := 0
		for i := range ts {
			if ts[i].last() < ts[best].last() {
				best = i
			}
		}
		if in.ex.opt.schedRev {
			for i := range ts {
				if ts[i].last() >= ts[best].last() {
					best = i
				}
			}
		}
		return ts[best]
	}
	var cand []trans
	for _, t := range ts {
		if !in.asleep(t.key) {
			cand = append(cand, t)
		}
	}
	if len(cand) == 0 {
		panic(pathEnd{"sleep", ""})
	}
	// bounded preemption (0: unlimited): switching away from an enabled goroutine costs one
	k := 0
	if len(cand) > 1 {
		k = in.ex.choose(len(cand), "sched")
	}
	t := cand[k]
	// transitions already explored elsewhere go to sleep as long as they are independent
	var ns []trans
	for _, s := range append(append([]trans(nil), in.sleep...), cand[:k]...) {
		if !dependent(&s, &t) {
			ns = append(ns, s)
		}
	}
	in.sleep = ns
	return t
}

func (t *trans) last() int {
	l := t.g.last
	if t.g2 != nil && t.g2.last > l {
		l = t.g2.last
	}
	return l
}

func (in *Interp) asleep(key string) bool {
	for i := range in.sleep {
		if in.sleep[i].key == key {
			return true
		}
	}
	return false
}

// kidPath names the next goroutine g starts.
func (in *Interp) kidPath(g *Gor) string {
	if g.path == "" || len(g.frames) == 0 || !strings.HasPrefix(fnPkgPath(in.top(g).fi.fn), ModPath) {
		return ""
	}
	g.nkids++
	return fmt.Sprintf("%s.%d", g.path, g.nkids)
}

// opEvent describes the operation g is at, if the module's own code performs it.
func (in *Interp) opEvent(g *Gor) (Event, bool) {
	e := Event{Run: g.proc.id, G: g.path}
	if g.path == "" || g.op == nil || g.sync {
		return e, false
	}
	op := g.op
	switch {
	case op.cases != nil || op.enabled == nil:
		e.Kind = "chan"
	case op.desc == "mem":
		f := in.top(g)
		e.Kind, e.Site, e.Case = "mem", in.prog.sitePos(f.fi.blocks[f.blk][f.pc].op), f.blk*1000+f.pc
		return e, true
	case op.desc == "close" || op.desc == "yield" || op.desc == "point":
		e.Kind = op.desc
	case op.desc == "Err":
		e.Kind = "ctxerr"
	case op.desc == "WaitGroup.Wait":
		e.Kind = "wait"
	case op.desc == "Lock" || op.desc == "RLock":
		e.Kind = "lock"
	case strings.HasPrefix(op.desc, "v."):
		return e, false
	default:
		e.Kind = "atomic"
	}
	var ok bool
	e.Site, ok = in.modSite(g)
	return e, ok
}

// modSite is the position of the call in the module's code that g is in.
func (in *Interp) modSite(g *Gor) (string, bool) {
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i]
		p := fnPkgPath(f.fi.fn)
		if p == "sync" || p == "sync/atomic" {
			continue
		}
		if !strings.HasPrefix(p, ModPath) {
			return "", false
		}
		if f.pc > 0 && f.pc <= len(f.fi.blocks[f.blk]) {
			ps := in.prog.fset.Position(f.fi.blocks[f.blk][f.pc-1].op.Pos())
			if ps.IsValid() {
				return fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line), true
			}
		}
		return "", true
	}
	return "", false
}

func (in *Interp) logEvent(t *trans) {
	if in.ex == nil {
		return
	}
	e, ok := in.opEvent(t.g)
	if !ok {
		if t.g2 != nil {
			if e, ok := in.opEvent(t.g2); ok {
				e.Case = t.ci2
				in.ex.events = append(in.ex.events, e)
			}
		}
		return
	}
	if e.Kind != "mem" {
		e.Case = t.ci
	}
	if t.g2 != nil {
		if e2, ok := in.opEvent(t.g2); ok {
			e.G2, e.C2 = e2.G, t.ci2
		}
	}
	in.ex.events = append(in.ex.events, e)
}

// parked lists the operations goroutines are waiting at.
func (in *Interp) parked() []Event {
	var r []Event
	for _, g := range in.gors {
		if g.done || g.proc.exited {
			continue
		}
		if e, ok := in.opEvent(g); ok {
			e.Park = true
			r = append(r, e)
		}
	}
	return r
}

// startProc runs fn as the main function of a fresh process; then is called when it has exited.
func (in *Interp) startProc(g *Gor, name string, args []string, fn *ssa.Function, dst func(p *Proc)) {
	// globals go back to their initial state for the new process
	type redo struct {
		e journalEnt
		v Value
	}
	var rs []redo
	seenO := map[[2]int]bool{}
	seenM := map[*MapObj]bool{}
	for _, e := range in.journal {
		if e.m != nil {
			if !seenM[e.m] {
				seenM[e.m] = true
				c := &MapObj{}
				*c = *e.m
				rs = append(rs, redo{journalEnt{m: e.m, ms: c}, nil})
			}
			continue
		}
		k := [2]int{e.o.id, e.i}
		if !seenO[k] {
			seenO[k] = true
			rs = append(rs, redo{e, e.o.raw(e.i)})
		}
	}
	in.rollback()
	in.jgen++
	saveSide := in.side
	in.side = map[interface{}]interface{}{}
	p := &Proc{id: len(in.procs), name: name, args: args}
	in.procs = append(in.procs, p)
	in.world.beginProc(p)
	in.setArgs(append([]string{name}, args...))
	cur := in.cur
	p.main = in.spawn(p, &Func{fn: fn}, nil)
	in.cur = cur
	in.hbClear()
	g.op = &pendOp{desc: "v.Run " + name, enabled: func() bool { return p.exited }, fire: func() {
		in.rollback()
		in.jgen++
		for _, r := range rs {
			if r.e.m != nil {
				in.mapSave(r.e.m)
				id, gen := r.e.m.id, r.e.m.gen
				*r.e.m = *r.e.ms
				r.e.m.id, r.e.m.gen = id, gen
				continue
			}
			in.journal = append(in.journal, journalEnt{o: r.e.o, i: r.e.i, old: r.e.o.raw(r.e.i)})
			r.e.o.rawSet(r.e.i, r.v)
		}
		in.side = saveSide
		in.hbClear()
		in.world.endProc(p)
		dst(p)
	}}
}
