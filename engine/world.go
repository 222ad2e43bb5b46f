package engine

import (
	"fmt"
	"go/types"
	"path"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// World is the simulated operating system of a path: files and standard output.
type World struct {
	files map[string]*vfile
	out   []seg2 // stdout of the last process
	outAt int    // cursor
	outI  int
	fds   map[*Obj]*vfd
	occ   map[string]int // per process: operations by kind and file
	nruns int
	fault int // remaining injected faults; only inside processes started by v.Run
	inRun bool
}

type vfile struct {
	o    *Obj
	size int
}

type vfd struct {
	name   string
	f      *vfile
	pos    int
	closed bool
	write  bool
	read   bool
	std    int
	app    bool
}

// seg2 is a piece of output: literal bytes, or a symbolic number in decimal, hexadecimal ('x') or
// %f form ('f').
type seg2 struct {
	form   byte
	b      []*Term
	num    *Term
	signed bool
}

func newWorld() *World {
	return &World{files: map[string]*vfile{}, fds: map[*Obj]*vfd{}}
}

func (w *World) beginProc(p *Proc) {
	w.out, w.outAt, w.outI = nil, 0, 0
	w.inRun = true
	w.nruns++
	w.occ = map[string]int{}
}

func (w *World) endProc(p *Proc) { w.inRun = false }

func (in *Interp) newFile() *vfile {
	o := in.newObj(0, in.ti(types.Typ[types.Uint8]).zeros)
	o.typ = types.Typ[types.Uint8]
	return &vfile{o: o}
}

func (in *Interp) fileEnsure(f *vfile, n int) {
	if n <= f.o.n {
		return
	}
	c := max(n, 2*f.o.n, 64)
	if c > 1<<30 {
		panic(unsup("file of %d bytes", n))
	}
	o := in.newObj(c, f.o.zeros)
	o.typ = f.o.typ
	for i := 0; i < f.size; i++ {
		o.rawSet(i, f.o.raw(i))
	}
	f.o = o
}

func (in *Interp) fileWrite(f *vfile, pos int, b []*Term) {
	in.fileEnsure(f, pos+len(b))
	for i, t := range b {
		f.o.rawSet(pos+i, t)
	}
	if pos+len(b) > f.size {
		f.size = pos + len(b)
	}
}

func (in *Interp) fileBytes(f *vfile) []*Term {
	b := make([]*Term, f.size)
	for i := range b {
		b[i] = f.o.raw(i).(*Term)
	}
	return b
}

func writePos(d *vfd) int {
	if d.app {
		return d.f.size
	}
	return d.pos
}

// emit appends to standard output.
func (in *Interp) emit(std int, ss []seg2) {
	if std != 1 || in.world == nil {
		return
	}
	in.world.out = append(in.world.out, ss...)
}

func cleanName(s string) string {
	s = strings.TrimPrefix(s, "./")
	return s
}

// osErr makes an error value.
func (in *Interp) osErr(op, name string, errno int) *Iface {
	pt := in.prog.typ("io/fs", "PathError")
	o := in.alloc(pt)
	ti := in.ti(pt)
	o.rawSet(ti.fields[0], Str{s: op})
	o.rawSet(ti.fields[1], Str{s: name})
	en := in.prog.typ("syscall", "Errno")
	o.rawSet(ti.fields[2], &Iface{en, in.x.Const(64, uint64(errno))})
	return &Iface{types.NewPointer(pt), Ptr{o, 0}}
}

func (in *Interp) openFile(name string, f *vfile, rd, wr bool) Value {
	ft := in.prog.typ("os", "File")
	o := in.alloc(ft)
	in.world.fds[o] = &vfd{name: name, f: f, read: rd, write: wr, std: -1}
	return Ptr{o, 0}
}

func (in *Interp) fd(v Value) *vfd {
	p, ok := v.(Ptr)
	if !ok || p.o == nil {
		panic(goPanic{in.rtErr("invalid memory address or nil pointer dereference")})
	}
	if i, ok := in.stdFiles[p.o]; ok {
		return &vfd{name: "std", std: i, write: true, read: true}
	}
	d := in.world.fds[p.o]
	if d == nil {
		panic(unsup("os.File without a simulated descriptor"))
	}
	return d
}

// killed ends the process where it is raised, as if it were killed.
type killed struct{}

const (
	killStatus = 137
	killedHalf = 100 // the process is killed after half of the transfer
)

// faultAt decides whether the current file operation of a command fails, and how. It returns 0
// for success or the index+1 of the kind of fault.
func (in *Interp) faultAt(op, name string, kinds ...string) int {
	return in.faultAtN(op, name, 0, kinds...)
}

// faultAtN is for a transfer of n bytes; 16 bytes or fewer are not torn apart by a kill.
func (in *Interp) faultAtN(op, name string, size int, kinds ...string) int {
	w := in.world
	if in.ex == nil || in.ex.opt.faults <= 0 && in.ex.opt.kills <= 0 && in.ex.opt.cancels <= 0 || !w.inRun {
		return 0
	}
	key := op + ":" + path.Base(name)
	w.occ[key]++
	rec := FaultRec{Run: w.nruns, Op: fmt.Sprintf("%s:%d", key, w.occ[key])}
	if in.ex.opt.cancels > 0 {
		if p := in.cur.proc; p != nil && p.cancel != nil && in.ex.choose(2, "cancel") == 1 {
			in.ex.opt.cancels--
			rec.Kind = "cancel"
			in.ex.faults = append(in.ex.faults, rec)
			in.callSync(p.cancel, nil)
		}
		return 0
	}
	if in.ex.opt.kills > 0 {
		n := 2
		if op == "write" && size > 16 {
			n = 3
		}
		k := in.ex.choose(n, "kill")
		if k == 0 {
			return 0
		}
		in.ex.opt.kills--
		rec.Kind = [2]string{"kill", "half"}[k-1]
		in.ex.faults = append(in.ex.faults, rec)
		if k == 1 {
			panic(killed{})
		}
		return killedHalf
	}
	k := in.ex.choose(len(kinds)+1, "fault")
	if k > 0 {
		in.ex.opt.faults--
		rec.Kind = kinds[k-1]
		in.ex.faults = append(in.ex.faults, rec)
	}
	return k
}

const (
	eIO     = 5
	eBADF   = 9
	eINVAL  = 22
	eNOENT  = 2
	eNOSPC  = 28
	eACCESS = 13
)

func init() {
	open := func(c *icall, name string, rd, wr, create, trunc, app, excl bool, op string) {
		in := c.in
		if in.faultAt("open", name, "fail") == 1 {
			c.ret(Tuple{Ptr{}, in.osErr(op, name, eACCESS)})
			return
		}
		n := cleanName(name)
		f := in.world.files[n]
		if f == nil {
			if !create {
				c.ret(Tuple{Ptr{}, in.osErr(op, name, eNOENT)})
				return
			}
			f = in.newFile()
			in.world.files[n] = f
		} else if excl {
			c.ret(Tuple{Ptr{}, in.osErr(op, name, 17)})
			return
		}
		if trunc {
			f.o = in.newFile().o
			f.size = 0
		}
		p := in.openFile(name, f, rd, wr)
		in.world.fds[p.(Ptr).o].app = app
		c.ret(Tuple{p, (*Iface)(nil)})
	}
	reg(func(c *icall) { open(c, c.str(0), true, false, false, false, false, false, "open") }, "os.Open")
	reg(func(c *icall) { open(c, c.str(0), true, true, true, true, false, false, "open") }, "os.Create")
	reg(func(c *icall) {
		fl := int(c.in.conc(c.term(1)))
		acc := fl & 3
		open(c, c.str(0), acc != 1, acc != 0, fl&0x40 != 0, fl&0x200 != 0, fl&0x400 != 0, fl&0x80 != 0 && fl&0x40 != 0, "open")
	}, "os.OpenFile")
	reg(func(c *icall) {
		in := c.in
		n := cleanName(c.str(0))
		if in.faultAt("remove", n, "fail") == 1 {
			c.ret(in.osErr("remove", n, eIO))
			return
		}
		if in.world.files[n] == nil {
			c.ret(in.osErr("remove", n, eNOENT))
			return
		}
		delete(in.world.files, n)
		c.ret((*Iface)(nil))
	}, "os.Remove")
	reg(func(c *icall) {
		in := c.in
		a, b := cleanName(c.str(0)), cleanName(c.str(1))
		if in.faultAt("rename", a, "fail") == 1 {
			c.ret(in.osErr("rename", a, eIO))
			return
		}
		f := in.world.files[a]
		if f == nil {
			c.ret(in.osErr("rename", a, eNOENT))
			return
		}
		delete(in.world.files, a)
		in.world.files[b] = f
		c.ret((*Iface)(nil))
	}, "os.Rename")
	reg(func(c *icall) {
		panicOn := c.in.concInt(c.term(0))
		c.in.procExit(c.g.proc, panicOn, fmt.Sprintf("exit %d", panicOn))
		c.g.done = true
	}, "os.Exit")
	write := func(c *icall, d *vfd, b []*Term) {
		in := c.in
		n := len(b)
		if d.closed || !d.write {
			c.ret(Tuple{c.int(0), in.osErr("write", d.name, eBADF)})
			return
		}
		var err *Iface
		if n > 0 {
			// a failing write may have transferred any part of the data
			switch in.faultAtN("write", d.name, n, "fail", "part") {
			case 1:
				c.ret(Tuple{c.int(0), in.osErr("write", d.name, eIO)})
				return
			case 2:
				n = n / 2
				err = in.osErr("write", d.name, eNOSPC)
			case killedHalf:
				n = n / 2
				in.fileWrite(d.f, writePos(d), b[:n])
				panic(killed{})
			}
		}
		pos := writePos(d)
		in.fileWrite(d.f, pos, b[:n])
		d.pos = pos + n
		c.ret(Tuple{c.int(n), err})
	}
	reg(func(c *icall) {
		in := c.in
		d := in.fd(c.args[0])
		s := c.args[1].(Slice)
		if d.std >= 0 {
			in.emit(d.std, []seg2{{b: in.sliceBytes(s)}})
			c.ret(Tuple{c.int(s.len), (*Iface)(nil)})
			return
		}
		write(c, d, in.sliceBytes(s))
	}, "(*os.File).Write")
	reg(func(c *icall) {
		in := c.in
		d := in.fd(c.args[0])
		if d.std >= 0 {
			ss := in.strSegs(c.args[1].(Str))
			in.emit(d.std, ss)
			c.ret(Tuple{c.int(segLen(ss)), (*Iface)(nil)})
			return
		}
		write(c, d, in.strTerms(c.args[1].(Str)))
	}, "(*os.File).WriteString")
	reg(func(c *icall) {
		in := c.in
		d := in.fd(c.args[0])
		s := c.args[1].(Slice)
		pos := in.concInt(c.term(2))
		if d.closed || !d.write {
			c.ret(Tuple{c.int(0), in.osErr("write", d.name, eBADF)})
			return
		}
		switch in.faultAtN("write", d.name, s.len, "fail") {
		case 1:
			c.ret(Tuple{c.int(0), in.osErr("write", d.name, eIO)})
			return
		case killedHalf:
			in.fileWrite(d.f, pos, in.sliceBytes(s)[:s.len/2])
			panic(killed{})
		}
		in.fileWrite(d.f, pos, in.sliceBytes(s))
		c.ret(Tuple{c.int(s.len), (*Iface)(nil)})
	}, "(*os.File).WriteAt")
	read := func(c *icall, at int) {
		in := c.in
		d := in.fd(c.args[0])
		s := c.args[1].(Slice)
		pos := d.pos
		if at >= 0 {
			pos = at
		}
		if d.std >= 0 {
			c.ret(Tuple{c.int(0), in.ioEOF()})
			return
		}
		if d.closed || !d.read {
			c.ret(Tuple{c.int(0), in.osErr("read", d.name, eBADF)})
			return
		}
		n := min(s.len, max(0, d.f.size-pos))
		if n > 0 {
			switch in.faultAt("read", d.name, "fail", "part") {
			case 1:
				c.ret(Tuple{c.int(0), in.osErr("read", d.name, eIO)})
				return
			case 2:
				n = (n + 1) / 2
			}
		}
		for i := 0; i < n; i++ {
			in.st(s.o, s.off+i, d.f.o.raw(pos+i))
		}
		if at < 0 {
			d.pos += n
		}
		if (n == 0 && s.len > 0) || (at >= 0 && n < s.len) {
			c.ret(Tuple{c.int(n), in.ioEOF()})
			return
		}
		c.ret(Tuple{c.int(n), (*Iface)(nil)})
	}
	reg(func(c *icall) { read(c, -1) }, "(*os.File).Read")
	reg(func(c *icall) { read(c, c.in.concInt(c.term(2))) }, "(*os.File).ReadAt")
	reg(func(c *icall) {
		in := c.in
		d := in.fd(c.args[0])
		o := in.concInt(c.term(1))
		switch in.concInt(c.term(2)) {
		case 1:
			o += d.pos
		case 2:
			o += d.f.size
		}
		if in.faultAt("seek", d.name, "fail") == 1 {
			c.ret(Tuple{c.int(0), in.osErr("seek", d.name, eIO)})
			return
		}
		if o < 0 {
			c.ret(Tuple{c.int(0), in.osErr("seek", d.name, eINVAL)})
			return
		}
		if d.closed {
			c.ret(Tuple{c.int(0), in.osErr("seek", d.name, eBADF)})
			return
		}
		d.pos = o
		c.ret(Tuple{c.int(o), (*Iface)(nil)})
	}, "(*os.File).Seek")
	reg(func(c *icall) {
		in := c.in
		d := in.fd(c.args[0])
		if d.closed {
			c.ret(in.osErr("close", d.name, eBADF))
			return
		}
		d.closed = true
		if in.faultAt("close", d.name, "fail") == 1 {
			if d.write { // what had been accepted could not be written back
				d.f.size /= 2
			}
			c.ret(in.osErr("close", d.name, eIO))
			return
		}
		c.ret((*Iface)(nil))
	}, "(*os.File).Close")
	reg(func(c *icall) {
		if c.in.faultAt("sync", c.in.fd(c.args[0]).name, "fail") == 1 {
			c.ret(c.in.osErr("sync", "file", eIO))
			return
		}
		c.ret((*Iface)(nil))
	}, "(*os.File).Sync")
	reg(func(c *icall) {
		d := c.in.fd(c.args[0])
		n := c.in.concInt(c.term(1))
		if c.in.faultAt("truncate", d.name, "fail") == 1 {
			c.ret(c.in.osErr("truncate", d.name, eIO))
			return
		}
		c.in.fileEnsure(d.f, n)
		for i := n; i < d.f.size; i++ {
			d.f.o.rawSet(i, c.in.x.Const(8, 0))
		}
		d.f.size = n
		c.ret((*Iface)(nil))
	}, "(*os.File).Truncate")
	reg(func(c *icall) { c.ret(Str{s: c.in.fd(c.args[0]).name}) }, "(*os.File).Name")
	// copying between files takes the ordinary way, by reading and writing
	reg(func(c *icall) { c.retZero() }, "(*os.File).readFrom", "(*os.File).writeTo")
	stat := func(c *icall, name string, f *vfile) {
		in := c.in
		if f == nil {
			c.ret(Tuple{(*Iface)(nil), in.osErr("stat", name, eNOENT)})
			return
		}
		ft := in.prog.typ("os", "fileStat")
		o := in.alloc(ft)
		ti := in.ti(ft)
		o.rawSet(ti.fields[0], Str{s: path.Base(name)})
		o.rawSet(ti.fields[1], c.int(f.size))
		o.rawSet(ti.fields[2], in.x.Const(32, 0644))
		c.ret(Tuple{&Iface{types.NewPointer(ft), Ptr{o, 0}}, (*Iface)(nil)})
	}
	reg(func(c *icall) {
		n := c.str(0)
		stat(c, n, c.in.world.files[cleanName(n)])
	}, "os.Stat", "os.Lstat")
	reg(func(c *icall) {
		d := c.in.fd(c.args[0])
		if d.std >= 0 || d.closed {
			c.ret(Tuple{(*Iface)(nil), c.in.osErr("stat", d.name, eBADF)})
			return
		}
		stat(c, d.name, d.f)
	}, "(*os.File).Stat")

	mapRegion := func(c *icall, f Value, length int, prot int, off int) {
		in := c.in
		mt := in.prog.typ("github.com/edsrzf/mmap-go", "MMap")
		_ = mt
		fail := func(errno int) {
			en := in.prog.typ("syscall", "Errno")
			c.ret(Tuple{in.zero(mt), &Iface{en, in.x.Const(64, uint64(errno))}})
		}
		d := in.fd(f)
		if off%4096 != 0 {
			c.ret(Tuple{in.zero(mt), in.osErr("mmap", "offset parameter must be a multiple of the system's page size", eINVAL)})
			return
		}
		if length < 0 {
			length = d.f.size
		}
		if length == 0 || d.closed {
			fail(eINVAL)
			return
		}
		if in.faultAt("mmap", d.name, "fail") == 1 {
			fail(12)
			return
		}
		end := (d.f.size + 4095) / 4096 * 4096
		in.fileEnsure(d.f, end)
		b := types.Typ[types.Uint8]
		in.objSeq++
		mp := &mapping{ro: prot&1 == 0}
		v := &Obj{id: in.objSeq, base: d.f.o, baseOff: off, typ: b, lay: in.layoutOf(b), epoch: in.epoch, mp: mp, bytes: true}
		v.n = min(length, end-off)
		if v.n < 0 {
			v.n = 0
		}
		c.ret(Tuple{Slice{o: v, len: length, cap: length, es: 1}, (*Iface)(nil)})
	}
	reg(func(c *icall) { mapRegion(c, c.args[0], -1, c.in.concInt(c.term(1)), 0) }, "github.com/edsrzf/mmap-go.Map")
	reg(func(c *icall) {
		mapRegion(c, c.args[0], c.in.concInt(c.term(1)), c.in.concInt(c.term(2)), c.in.concInt(c.term(4)))
	}, "github.com/edsrzf/mmap-go.MapRegion")
	reg(func(c *icall) {
		in := c.in
		p := c.args[0].(Ptr)
		s := in.ld(p.o, p.i).(Slice)
		bad := func(errno int) {
			c.ret(&Iface{in.prog.typ("syscall", "Errno"), in.x.Const(64, uint64(errno))})
		}
		if s.o == nil || s.o.mp == nil || s.o.mp.dead != "" {
			bad(eINVAL)
			return
		}
		if in.faultAt("unmap", "", "fail") == 1 {
			bad(eINVAL)
			return
		}
		s.o.mp.dead = "memory map"
		in.st(p.o, p.i, Slice{es: 1})
		c.ret((*Iface)(nil))
	}, "(*github.com/edsrzf/mmap-go.MMap).Unmap")
	reg(func(c *icall) { c.ret((*Iface)(nil)) }, "(github.com/edsrzf/mmap-go.MMap).Flush", "(github.com/edsrzf/mmap-go.MMap).Lock", "(github.com/edsrzf/mmap-go.MMap).Unlock")

	// ---- go-flags
	reg(func(c *icall) {
		in := c.in
		pt := in.prog.typ("github.com/jessevdk/go-flags", "Parser")
		o := in.allocDeep(pt, 3)
		in.side[sideKey{"flags", Ptr{o, 0}}] = []*Iface{c.args[0].(*Iface)}
		c.ret(Ptr{o, 0})
	}, "github.com/jessevdk/go-flags.NewParser")
	reg(func(c *icall) {
		o := c.in.allocDeep(c.in.prog.typ("github.com/jessevdk/go-flags", "Parser"), 3)
		c.in.side[sideKey{"flags", Ptr{o, 0}}] = []*Iface(nil)
		c.ret(Ptr{o, 0})
	}, "github.com/jessevdk/go-flags.NewNamedParser")
	reg(func(c *icall) {
		in := c.in
		p, ok := c.args[0].(Ptr)
		if !ok || p.o == nil {
			panic(unsup("AddGroup of a nil command"))
		}
		for key, v := range in.side { // the command is within a parser
			k, ok := key.(sideKey)
			if ok && k.kind == "flags" && (k.p == p || in.within(k.p.o, p.o, 3)) {
				in.side[k] = append(v.([]*Iface), c.args[3].(*Iface))
				g := in.allocDeep(in.prog.typ("github.com/jessevdk/go-flags", "Group"), 1)
				c.ret(Tuple{Ptr{g, 0}, (*Iface)(nil)})
				return
			}
		}
		panic(unsup("AddGroup of an unknown parser"))
	}, "(*github.com/jessevdk/go-flags.Group).AddGroup", "(*github.com/jessevdk/go-flags.Command).AddGroup")
	reg(func(c *icall) { c.ret(nil) }, "(*github.com/jessevdk/go-flags.Parser).WriteHelp")
	reg(func(c *icall) {
		in := c.in
		data, ok := in.side[sideKey{"flags", c.args[0].(Ptr)}].([]*Iface)
		if !ok {
			panic(unsup("ParseArgs of an unknown parser"))
		}
		var args []Str
		s := c.args[1].(Slice)
		for i := 0; i < s.len; i++ {
			args = append(args, in.ld(s.o, s.off+i).(Str))
		}
		rest, err := in.parseFlags(data, args)
		if err != "" {
			et := in.prog.typ("github.com/jessevdk/go-flags", "Error")
			o := in.alloc(et)
			o.rawSet(1, Str{s: err})
			if err == helpRequest {
				k := in.prog.pkgs["github.com/jessevdk/go-flags"].Const("ErrHelp")
				o.rawSet(0, in.x.Const(64, k.Value.Uint64()))
			}
			c.ret(Tuple{Slice{es: 1}, &Iface{types.NewPointer(et), Ptr{o, 0}}})
			return
		}
		st := types.Typ[types.String]
		o := in.newArr(st, len(rest))
		for i, r := range rest {
			o.rawSet(i, r)
		}
		c.ret(Tuple{Slice{o: o, len: len(rest), cap: len(rest), es: 1}, (*Iface)(nil)})
	}, "(*github.com/jessevdk/go-flags.Parser).ParseArgs")
	reg(func(c *icall) { c.retZero() }, "github.com/squizzling/osmindex/internal/system.Setup$1")
}

// allocDeep allocates a struct and, recursively, what its pointer fields to structs of the same package point at.
func (in *Interp) allocDeep(t types.Type, depth int) *Obj {
	o := in.alloc(t)
	st := t.Underlying().(*types.Struct)
	ti := in.ti(t)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if p, ok := f.Type().Underlying().(*types.Pointer); ok && f.Embedded() && depth > 0 {
			if _, ok := p.Elem().Underlying().(*types.Struct); ok {
				o.rawSet(ti.fields[i], Ptr{in.allocDeep(p.Elem(), depth-1), 0})
			}
		}
	}
	return o
}

// within tells if o is a part of a structure made by allocDeep.
func (in *Interp) within(s, o *Obj, depth int) bool {
	for i := 0; i < s.n && depth > 0; i++ {
		if p, ok := s.raw(i).(Ptr); ok && p.o != nil && p.i == 0 && (p.o == o || in.within(p.o, o, depth-1)) {
			return true
		}
	}
	return false
}

func (in *Interp) ioEOF() *Iface {
	p := in.prog.pkgs["io"]
	in.needInit(p)
	return in.globalObj(p.Var("EOF")).raw(0).(*Iface)
}

type flagOpt struct {
	short, long string
	t           types.Type
	p           Ptr
	required    bool
	def         string
	hasDef      bool
	set         bool
}

const helpRequest = "help"

// parseFlags models go-flags for the option structs of the commands.
func (in *Interp) parseFlags(data []*Iface, args []Str) (rest []Str, err string) {
	var opts []*flagOpt
	var walk func(t types.Type, p Ptr)
	walk = func(t types.Type, p Ptr) {
		st := t.Underlying().(*types.Struct)
		ti := in.ti(t)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i))
			fp := Ptr{p.o, p.i + ti.fields[i]}
			long, short := tag.Get("long"), tag.Get("short")
			if long == "" && short == "" {
				if _, ok := f.Type().Underlying().(*types.Struct); ok {
					walk(f.Type(), fp)
				}
				continue
			}
			d, has := tag.Lookup("default")
			req := tag.Get("required")
			opts = append(opts, &flagOpt{short: short, long: long, t: f.Type(), p: fp, required: req != "" && req != "false" && req != "no", def: d, hasDef: has})
		}
	}
	for _, d := range data {
		walk(d.t.Underlying().(*types.Pointer).Elem(), d.v.(Ptr))
	}
	var set func(o *flagOpt, v Str) string
	setTo := func(t types.Type, v Str) (Value, string) {
		if t.String() == "time.Duration" {
			d, e := time.ParseDuration(in.concStr(v))
			if e != nil {
				return nil, e.Error()
			}
			return in.x.Const(64, uint64(d)), ""
		}
		ti := in.ti(t)
		switch ti.kind {
		case kString:
			return v, ""
		case kBool:
			return in.x.True, ""
		case kInt:
			s := in.concStr(v)
			if in.ex != nil {
				if tok, ok := in.ex.tokens[s]; ok { // a symbolic decimal number
					if !ti.signed && strings.HasPrefix(s, "\x00int") {
						panic(unsup("symbolic signed number for an unsigned option"))
					}
					return in.x.Extract(tok, ti.w-1, 0), ""
				}
			}
			if ti.signed {
				n, e := strconv.ParseInt(s, 10, int(ti.w))
				if e != nil {
					return nil, e.Error()
				}
				return in.x.Const(ti.w, uint64(n)), ""
			}
			n, e := strconv.ParseUint(s, 10, int(ti.w))
			if e != nil {
				return nil, e.Error()
			}
			return in.x.Const(ti.w, n), ""
		case kFloat:
			f, e := strconv.ParseFloat(in.concStr(v), 64)
			if e != nil {
				return nil, e.Error()
			}
			return in.x.Const(WFloat, float64bits(f)), ""
		}
		panic(unsup("option of type %v", t))
	}
	set = func(o *flagOpt, v Str) string {
		first := !o.set
		o.set = true
		switch u := o.t.Underlying().(type) {
		case *types.Pointer:
			val, e := setTo(u.Elem(), v)
			if e != "" {
				return e
			}
			n := in.alloc(u.Elem())
			n.rawSet(0, val)
			in.st(o.p.o, o.p.i, Ptr{n, 0})
			return ""
		case *types.Slice:
			val, e := setTo(u.Elem(), v)
			if e != "" {
				return e
			}
			s := in.ld(o.p.o, o.p.i).(Slice)
			if first {
				s = Slice{es: 1}
			}
			in.st(o.p.o, o.p.i, in.appendVals(s, []Value{val}, 1, u.Elem()))
			return ""
		}
		val, e := setTo(o.t, v)
		if e != "" {
			return e
		}
		in.st(o.p.o, o.p.i, val)
		return ""
	}
	find := func(s string, long bool) *flagOpt {
		for _, o := range opts {
			if (long && o.long == s) || (!long && o.short == s) {
				return o
			}
		}
		return nil
	}
	isOption := func(a string) bool {
		return len(a) > 1 && a[0] == '-' && a[1] != '-' || len(a) > 2 && a[0] == '-' && a[1] == '-' && a[2] != '-'
	}
	signed := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		k := in.ti(t)
		return k.kind == kInt && k.signed || k.kind == kFloat
	}
	i := 0
	// parse handles an option; canArg says that the next argument may be its value.
	parse := func(o *flagOpt, a string, canArg, has bool, val Str) string {
		if in.ti(o.t).kind == kBool {
			if has {
				return "bool flag cannot have an argument: " + a
			}
			return set(o, Str{})
		}
		if !has {
			if !canArg || i+1 >= len(args) {
				return "expected argument for flag " + a
			}
			i++
			val = args[i]
			s := in.concStr(val)
			if s == "--" || isOption(s) && !(signed(o.t) && s[1] >= '0' && s[1] <= '9') {
				return "expected argument for flag " + a
			}
		}
		if e := set(o, val); e != "" {
			return "invalid argument for flag " + a + ": " + e
		}
		return ""
	}
	for ; i < len(args); i++ {
		a := in.concStr(args[i])
		if a == "--" {
			rest = append(rest, args[i+1:]...)
			break
		}
		if !isOption(a) {
			rest = append(rest, args[i])
			continue
		}
		if strings.HasPrefix(a, "--") {
			n := a[2:]
			var val Str
			k := strings.IndexByte(n, '=')
			if k >= 0 {
				n, val = n[:k], Str{s: n[k+1:]}
			}
			o := find(n, true)
			if o == nil && n == "help" && k < 0 {
				return nil, helpRequest
			}
			if o == nil {
				return nil, "unknown flag " + a
			}
			if e := parse(o, a, true, k >= 0, val); e != "" {
				return nil, e
			}
			continue
		}
		names := a[1:]
		var val Str
		has := false
		if len(names) > 1 && names[1] == '=' {
			names, val, has = names[:1], Str{s: names[2:]}, true
		} else if o := find(names[:1], false); len(names) > 1 && o != nil && in.ti(o.t).kind != kBool {
			names, val, has = names[:1], Str{s: names[1:]}, true
		}
		for k := range names {
			o := find(names[k:k+1], false)
			if o == nil && names[k] == 'h' && !has {
				return nil, helpRequest
			}
			if o == nil {
				return nil, "unknown flag " + a
			}
			if e := parse(o, a, k+1 == len(names), has, val); e != "" {
				return nil, e
			}
			has = false
		}
	}
	var missing []string
	for _, o := range opts {
		if o.set {
			continue
		}
		if o.hasDef {
			if e := set(o, Str{s: o.def}); e != "" {
				return nil, e
			}
		} else if o.required {
			missing = append(missing, o.long)
		}
	}
	if len(missing) > 0 {
		sort.Strings(missing)
		return nil, "required flags not specified: " + strings.Join(missing, ", ")
	}
	return rest, ""
}

var _ = ssa.NaiveForm
