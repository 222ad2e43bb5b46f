package engine

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one nondeterministic choice of a path.
type Decision struct {
	kind byte // 'b' branch, 'v' value, 'x' choice
	val  uint64
	// forced: the other side is infeasible
	forced bool
}

type item struct {
	prefix  []Decision
	model   map[string]uint64
	nomodel bool // the solver could not say whether the prefix is feasible
}

// Options a harness can set for the rest of the path.
type pathOpts struct {
	shuffleMaps bool
	shuffleMax  int
	sched       int
	schedRev    bool
	visAtomics  bool
	quietPkgs   []string
	poolChoice  bool
	hangViol    bool
	faults      int
	kills       int // at how many more of its file operations a command may be killed
	cancels     int // at how many more of its file operations a command may be cancelled
	mallocFresh bool
	forkIndex   bool
	anyClock    bool
}

// Limits bounds one exploration.
type Limits struct {
	Time     time.Duration
	Paths    int
	Steps    int64 // per path
	SolverMS int
	Workers  int
	Samples  int
}

// Case is a concrete run that can be replayed natively.
type Case struct {
	Harness string            `json:"harness"`
	Params  map[string]int64  `json:"params,omitempty"`
	Vars    map[string]uint64 `json:"vars"`
	Choices map[string]int    `json:"choices"`
	Points  []string          `json:"points,omitempty"`
	Faults  []FaultRec        `json:"faults,omitempty"`
	Tokens  map[string]string `json:"tokens,omitempty"`
	Zlib    []ZlibRec         `json:"zlib,omitempty"`
	Obs     []Obs             `json:"obs,omitempty"`
	Expect  string            `json:"expect"` // "ok" or "violation"
	Msg     string            `json:"msg,omitempty"`
	Engine  []string          `json:"engine_choices,omitempty"`
	Hang    bool              `json:"hang,omitempty"`
	Events  []Event           `json:"schedule,omitempty"`
}

// Event is one scheduled operation of the code under test: who did what, where. Goroutines are
// named by the path of go statements that leads to them from the process's main goroutine.
type Event struct {
	Run  int    `json:"r"` // 0: the harness; n: the n-th command it ran
	G    string `json:"g"`
	Kind string `json:"k"` // chan, close, wait, lock, atomic, yield, pool; with P: parked there at the end
	Site string `json:"s,omitempty"`
	Case int    `json:"c"`
	G2   string `json:"g2,omitempty"`
	C2   int    `json:"c2,omitempty"`
	Park bool   `json:"p,omitempty"`
}

type FaultRec struct {
	Run  int    `json:"run"`
	Op   string `json:"op"` // operation:file:occurrence
	Kind string `json:"kind"`
}

type ZlibRec struct {
	Chunks []int `json:"chunks"`
	EOF    bool  `json:"eof_with_data"`
	Fail   int   `json:"fail"`
}

type Obs struct {
	Label string `json:"label"`
	Val   string `json:"val"`
}

type obsTerm struct {
	label string
	v     []*Term
	s     string
	isStr bool
}

// Violation found by the exploration.
type Violation struct {
	Case Case
	Msg  string
	Path int
}

// Search is the exploration shared by all workers.
type Search struct {
	mu    sync.Mutex
	cond  *sync.Cond
	stack []item
	busy  int
	stop  bool
	debug bool

	prog    *Program
	main    *ssa.Function
	name    string
	params  map[string]int64
	lim     Limits
	started time.Time

	// statistics
	Paths       int
	Ends        map[string]int
	EndMsgs     map[string]int
	Asserts     map[string]*AssertStat
	Reached     map[string]int
	Steps       int64
	Trans       int64
	Decisions   int64
	Merges      int64
	Queries     int
	CacheHits   int
	SolverTime  time.Duration
	Unknown     int
	SolverErrs  []string
	CrossChecks int
	CrossBad    []string
	Funcs       map[string]bool
	Stubs       map[string]int
	Violations  []Violation
	Hangs       []Violation // paths that did not end within the limits
	nlimit      int
	MaxTrans    int
	firstViol   time.Time
	violKeys    map[string]bool
	Samples     []Case
	Incomplete  string
	Wall        time.Duration
	ModelBad    []string

	// instructions found to access memory that another goroutine accesses too, without synchronisation
	Races    map[ssa.Instruction]bool
	RaceText map[string]bool
	RacyAt   map[ssa.Instruction]bool // those that are scheduling points
	Round    int
	raceAt   time.Time
	rnd      uint64
}

// AssertStat counts how the checks at one assertion were decided.
type AssertStat struct {
	Checked   int // times reached
	ByTerm    int // decided by simplification to true
	ByQuery   int // discharged by an unsat answer
	Failed    int
	Undecided int
}

func (sh *Search) addTrans(n int64) {
	sh.mu.Lock()
	sh.Trans += n
	sh.mu.Unlock()
}

// Explorer is the per-worker, per-path exploration state.
type Explorer struct {
	sh     *Search
	in     *Interp
	x      *Ctx
	solver *Solver
	cross  *Solver
	alt    *Solver // tried on queries the first one does not decide
	cache  map[string]cacheEnt
	opt    pathOpts

	prefix  []Decision
	pos     int
	taken   []Decision
	pc      []*Term
	known   map[*Term]bool
	subst   *substState
	model   *Model
	nomodel bool // model need not satisfy the path condition

	names    map[string]int
	vars     []*Term
	choices  map[string]int
	engCh    []string
	events   []Event
	points   []string
	obs      []obsTerm
	faults   []FaultRec
	zlib     []ZlibRec
	tokens   map[string]*Term
	trivial  int
	nq       int
	nhit     int
	crossN   int
	unknown  int
	reached  []string
	ndec     int64
	stubs    map[string]int
	asserts  map[string]*AssertStat
	hadLimit bool
	merges   int64
}

type cacheEnt struct {
	res Sat
	m   map[string]uint64
}

func (in *Interp) branch(c *Term) bool {
	if c.IsConst() {
		return c.c == 1
	}
	if in.ex == nil {
		panic(unsup("symbolic branch during initialisation"))
	}
	return in.ex.branch(c)
}

func (in *Interp) conc(t *Term) uint64 {
	if t.IsConst() {
		return t.c
	}
	if in.ex == nil {
		panic(unsup("symbolic value during initialisation"))
	}
	return in.ex.conc(t)
}

func (in *Interp) concInt(t *Term) int {
	return int(sext64(in.conc(t), t.w))
}

// query decides pc ∧ q.
func (ex *Explorer) query(q ...*Term) (Sat, map[string]uint64) {
	cs := slice(ex.pc, q)
	for _, c := range cs {
		if c.IsFalse() {
			return Unsat, nil
		}
	}
	k := cacheKey(cs)
	if e, ok := ex.cache[k]; ok {
		ex.nhit++
		return e.res, e.m
	}
	ex.checkTime()
	ex.nq++
	if m := ex.guess(cs, q); m != nil {
		ex.cache[k] = cacheEnt{SatYes, m}
		return SatYes, m
	}
	t := time.Duration(ex.sh.lim.SolverMS) * time.Millisecond
	r, m := ex.solver.Check(cs, min(t, 5*time.Second))
	if r == SatUnknown {
		// the hard ones: another version of the solver, and another solver, side by side
		r, m = ex.race(cs, t)
	} else if ex.nq%101 == 7 {
		// cross-check a sample of the verdicts with the second solver
		r2, _ := ex.cross.Check(cs, min(t, 3*time.Second))
		ex.crossN++
		if r2 != SatUnknown && r2 != r {
			ex.sh.mu.Lock()
			ex.sh.CrossBad = append(ex.sh.CrossBad, fmt.Sprintf("%s says %v, %s says %v", ex.solver.name, r, ex.cross.name, r2))
			ex.sh.mu.Unlock()
		}
	}
	if r == SatYes {
		// the model must satisfy what it was asked for
		mm := NewModel(m)
		for _, c := range cs {
			if mm.Eval(c) != 1 {
				ex.sh.mu.Lock()
				if len(ex.sh.ModelBad) < 5 {
					ex.sh.ModelBad = append(ex.sh.ModelBad, "model does not satisfy "+c.String())
				}
				ex.sh.mu.Unlock()
				break
			}
		}
	}
	ex.cache[k] = cacheEnt{r, m}
	return r, m
}

// guess tries some values before asking the solvers, where they are slow: on floating point.
func (ex *Explorer) guess(cs, q []*Term) map[string]uint64 {
	fp := false
	seen := map[*Term]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		if fp || seen[t] {
			return
		}
		seen[t] = true
		if t.w == WFloat {
			fp = true
			return
		}
		for _, a := range t.args {
			scan(a)
		}
	}
	for _, t := range q {
		scan(t)
	}
	if !fp {
		return nil
	}
	vs := map[int32]bool{}
	for _, c := range cs {
		for _, v := range c.vars {
			vs[v] = true
		}
	}
	var vars []*Term
	for v := range vs {
		vars = append(vars, ex.x.vars[v])
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
	rng := uint64(0x9E3779B97F4A7C15)
	next := func() uint64 {
		rng ^= rng << 13
		rng ^= rng >> 7
		rng ^= rng << 17
		return rng
	}
	for n := 0; n < 300; n++ {
		m := map[string]uint64{}
		for _, v := range vars {
			var x uint64
			switch next() % 5 {
			case 0:
				x = next() & mask2(v.w) >> (next() % 64)
			case 1:
				x = ^(next() & mask2(v.w) >> (next() % 64))
			case 2:
				x = uint64(1)<<(next()%64) - next()%3
			case 3:
				if ex.model != nil {
					x = ex.model.v[v.name]
				}
			default:
				x = next()
			}
			m[v.name] = x & mask2(v.w)
		}
		mm := NewModel(m)
		ok := true
		for _, c := range cs {
			if ok = mm.Eval(c) == 1; !ok {
				break
			}
		}
		if ok {
			return m
		}
	}
	return nil
}

func mask2(w uint8) uint64 {
	if w == WFloat {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (ex *Explorer) race(cs []*Term, t time.Duration) (Sat, map[string]uint64) {
	type ans struct {
		r Sat
		m map[string]uint64
		s *Solver
	}
	ch := make(chan ans, 2)
	for _, s := range []*Solver{ex.alt, ex.cross} {
		go func(s *Solver) {
			r, m := s.Check(cs, t)
			ch <- ans{r, m, s}
		}(s)
	}
	a := <-ch
	if a.r != SatUnknown {
		if a.s == ex.alt {
			ex.cross.Interrupt()
		} else {
			ex.alt.Interrupt()
		}
		<-ch
		return a.r, a.m
	}
	a = <-ch
	if a.r == SatUnknown {
		ex.unknown++
	}
	return a.r, a.m
}

// checkTime ends the path when the exploration's time is used up.
func (ex *Explorer) checkTime() {
	if l := ex.sh.lim.Time; l > 0 && time.Since(ex.sh.started) > l+l/4 {
		panic(pathEnd{"timeout", ""})
	}
}

func (ex *Explorer) overlay(m map[string]uint64) map[string]uint64 {
	r := make(map[string]uint64, len(ex.model.v)+len(m))
	for k, v := range ex.model.v {
		r[k] = v
	}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (ex *Explorer) setModel(m map[string]uint64) {
	ex.model = NewModel(ex.overlay(m))
}

// needModel makes sure that the model satisfies the path condition.
func (ex *Explorer) needModel() {
	if !ex.nomodel {
		return
	}
	ex.nomodel = false
	r, m := ex.query(ex.pc...)
	switch r {
	case Unsat:
		panic(pathEnd{"infeasible", ""})
	case SatUnknown:
		panic(pathEnd{"undecided", ""})
	}
	ex.setModel(m)
}

// learn adds c to the path condition.
func (ex *Explorer) learn(c *Term) {
	if c.IsConst() {
		return
	}
	if c.op == OAnd {
		ex.learn(c.args[0])
		ex.learn(c.args[1])
		return
	}
	if v, ok := ex.known[c]; ok && v {
		return
	}
	ex.pc = append(ex.pc, c)
	ex.note(c, true)
}

func (ex *Explorer) note(c *Term, v bool) {
	ex.known[c] = v
	ex.known[ex.x.Not(c)] = !v
	if c.op == ONot {
		c, v = c.args[0], !v
	}
	if c.op == OEq {
		a, b := c.args[0], c.args[1]
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if v {
				ex.record(a, b)
			} else if a.w == 1 {
				ex.record(a, ex.x.Const(1, 1-b.c))
			}
		}
	}
}

func (ex *Explorer) push(d Decision, m map[string]uint64, nomodel bool) {
	p := make([]Decision, len(ex.taken)+1)
	copy(p, ex.taken)
	p[len(ex.taken)] = d
	ex.sh.mu.Lock()
	ex.sh.stack = append(ex.sh.stack, item{p, m, nomodel})
	ex.sh.cond.Signal()
	ex.sh.mu.Unlock()
}

func (ex *Explorer) next(kind byte) (Decision, bool) {
	if ex.pos >= len(ex.prefix) {
		return Decision{}, false
	}
	d := ex.prefix[ex.pos]
	if d.kind != kind {
		panic(unsup("engine: replay mismatch (%c for %c)", d.kind, kind))
	}
	ex.pos++
	ex.taken = append(ex.taken, d)
	return d, true
}

func (ex *Explorer) branch(c *Term) bool {
	if v, ok := ex.known[c]; ok {
		return v
	}
	c = ex.sub(c)
	if c.IsConst() {
		return c.c == 1
	}
	if v, ok := ex.known[c]; ok {
		return v
	}
	x := ex.x
	if d, ok := ex.next('b'); ok {
		v := d.val == 1
		if !d.forced {
			ex.learn(ite(v, c, x.Not(c)))
		}
		ex.note(c, v)
		return v
	}
	ex.needModel()
	ex.ndec++
	v := ex.model.Eval(c) == 1
	here, other := c, x.Not(c)
	if !v {
		here, other = other, here
	}
	r, m := ex.query(other)
	if r == Unsat {
		ex.taken = append(ex.taken, Decision{'b', b2u(v), true})
		ex.note(c, v)
		return v
	}
	if r == SatUnknown {
		m = nil
	}
	ex.push(Decision{'b', b2u(!v), false}, ex.overlay(m), r == SatUnknown)
	ex.taken = append(ex.taken, Decision{'b', b2u(v), false})
	ex.learn(here)
	ex.note(c, v)
	return v
}

func ite(c bool, a, b *Term) *Term {
	if c {
		return a
	}
	return b
}

const maxConc = 600

func (ex *Explorer) conc(t *Term) uint64 {
	x := ex.x
	if t = ex.sub(t); t.IsConst() {
		return t.c
	}
	if d, ok := ex.next('v'); ok {
		eq := ex.x.Eq(t, x.Const(t.w, d.val))
		if !d.forced {
			ex.learn(eq)
		}
		ex.note(eq, true)
		return d.val
	}
	if t.w == WFloat {
		panic(unsup("concretisation of a float"))
	}
	ex.needModel()
	ex.ndec++
	v := ex.model.Eval(t)
	vals := []uint64{v}
	excl := []*Term{x.Not(x.Eq(t, x.Const(t.w, v)))}
	forced := true
	for {
		r, m := ex.query(excl...)
		if r == Unsat {
			break
		}
		if r == SatUnknown {
			panic(unsup("solver could not enumerate the values of an index"))
		}
		forced = false
		mm := ex.overlay(m)
		w := NewModel(mm).Eval(t)
		ex.push(Decision{'v', w, false}, mm, false)
		vals = append(vals, w)
		excl = append(excl, x.Not(x.Eq(t, x.Const(t.w, w))))
		if len(vals) > maxConc {
			panic(unsup("more than %d values for an index or length%s", maxConc, ex.in.where()))
		}
	}
	ex.taken = append(ex.taken, Decision{'v', v, forced})
	eq := x.Eq(t, x.Const(t.w, v))
	if !forced {
		ex.learn(eq)
	}
	ex.note(eq, true)
	return v
}

// choose picks one of n alternatives, all feasible.
func (ex *Explorer) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	if d, ok := ex.next('x'); ok {
		if label != "" {
			ex.engCh = append(ex.engCh, fmt.Sprintf("%s=%d/%d", label, d.val, n))
		}
		return int(d.val)
	}
	ex.ndec++
	for i := n - 1; i >= 1; i-- {
		ex.push(Decision{'x', uint64(i), false}, ex.model.v, ex.nomodel)
	}
	ex.taken = append(ex.taken, Decision{'x', 0, false})
	if label != "" {
		ex.engCh = append(ex.engCh, fmt.Sprintf("%s=0/%d", label, n))
	}
	return 0
}

func (ex *Explorer) uname(name string) string {
	n := ex.names[name]
	ex.names[name] = n + 1
	return fmt.Sprintf("%s#%d", name, n)
}

// fresh makes a new symbolic input.
func (ex *Explorer) fresh(w uint8, name string) *Term {
	t := ex.x.Var(w, ex.uname(name))
	ex.vars = append(ex.vars, t)
	return t
}

func (ex *Explorer) assume(c *Term) {
	c = ex.sub(c)
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		panic(pathEnd{"assume", ""})
	}
	if v, ok := ex.known[c]; ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if ex.pos < len(ex.prefix) {
		// known feasible from the run that made the prefix
		ex.learn(c)
		return
	}
	if !ex.nomodel && ex.model.Eval(c) != 1 {
		r, m := ex.query(c)
		if r == Unsat {
			panic(pathEnd{"assume", ""})
		}
		ex.setModel(m)
		ex.nomodel = r == SatUnknown
	}
	ex.learn(c)
}

func (ex *Explorer) stat(id string) *AssertStat {
	s := ex.asserts[id]
	if s == nil {
		s = &AssertStat{}
		ex.asserts[id] = s
	}
	return s
}

// assert checks c in the current state; a counterexample is recorded.
func (ex *Explorer) assert(c *Term, id string) {
	s := ex.stat(id)
	replaying := ex.pos < len(ex.prefix)
	if !replaying {
		s.Checked++
	}
	if c.IsTrue() {
		if !replaying {
			s.ByTerm++
		}
		return
	}
	if v, ok := ex.known[c]; ok && v {
		if !replaying {
			s.ByTerm++
		}
		return
	}
	if c = ex.sub(c); c.IsTrue() || ex.known[c] {
		if !replaying {
			s.ByTerm++
		}
		return
	}
	if replaying {
		// decided when the prefix was first run; the path continues where c holds
		if c.IsFalse() {
			panic(pathEnd{"violation", id})
		}
		ex.learn(c)
		return
	}
	ex.needModel()
	var r Sat
	var m map[string]uint64
	if ex.model.Eval(c) != 1 {
		r, m = SatYes, ex.model.v
	} else {
		r, m = ex.query(ex.x.Not(c))
	}
	switch r {
	case Unsat:
		s.ByQuery++
		ex.learn(c)
		return
	case SatUnknown:
		s.Undecided++
		ex.learn(c) // as when the path is replayed; the assertion is reported as undecided
		return
	}
	s.Failed++
	ex.violation(ex.overlay(m), id)
	// go on where the assertion holds, if anywhere
	if ex.model.Eval(c) != 1 {
		r, m := ex.query(c)
		if r != SatYes {
			panic(pathEnd{"violated", id})
		}
		ex.setModel(m)
	}
	ex.learn(c)
}

func (ex *Explorer) mkCase(m map[string]uint64, expect, msg string) Case {
	mod := NewModel(m)
	c := Case{Harness: ex.sh.name, Params: ex.sh.params, Vars: map[string]uint64{}, Choices: map[string]int{}, Expect: expect, Msg: msg}
	for _, v := range ex.vars {
		c.Vars[v.name] = mod.Eval(v)
	}
	for k, v := range ex.choices {
		c.Choices[k] = v
	}
	c.Points = append([]string(nil), ex.points...)
	c.Faults = append([]FaultRec(nil), ex.faults...)
	c.Zlib = append([]ZlibRec(nil), ex.zlib...)
	c.Engine = append([]string(nil), ex.engCh...)
	if expect == "violation" {
		c.Events = append(append([]Event(nil), ex.events...), ex.in.parked()...)
	}
	for _, o := range ex.obs {
		if o.isStr {
			c.Obs = append(c.Obs, Obs{o.label, o.s})
			continue
		}
		var parts []string
		for _, t := range o.v {
			parts = append(parts, fmt.Sprint(mod.Eval(t)))
		}
		c.Obs = append(c.Obs, Obs{o.label, strings.Join(parts, ",")})
	}
	return c
}

func (ex *Explorer) violation(m map[string]uint64, msg string) {
	c := ex.mkCase(m, "violation", msg)
	ex.sh.mu.Lock()
	defer ex.sh.mu.Unlock()
	// at most a few witnesses per message
	key := msg
	n := 0
	for _, v := range ex.sh.Violations {
		if v.Msg == key {
			n++
		}
	}
	if n < 4 && len(ex.sh.Violations) < 40 {
		if len(ex.sh.Violations) == 0 {
			ex.sh.firstViol = time.Now()
		}
		ex.sh.Violations = append(ex.sh.Violations, Violation{Case: c, Msg: msg, Path: ex.sh.Paths})
	}
}

// NewSearch prepares an exploration of one harness function.
func NewSearch(prog *Program, fn *ssa.Function, name string, params map[string]int64, lim Limits) *Search {
	sh := &Search{prog: prog, main: fn, name: name, params: params, lim: lim,
		Ends: map[string]int{}, EndMsgs: map[string]int{}, Asserts: map[string]*AssertStat{},
		Reached: map[string]int{}, Funcs: map[string]bool{}, Stubs: map[string]int{}, violKeys: map[string]bool{}}
	sh.cond = sync.NewCond(&sh.mu)
	return sh
}

// Debug makes engine failures panic.
func (sh *Search) Debug() { sh.debug = true }

// Again returns a search in which the races found are scheduling points, or nil if all are already.
func (sh *Search) Again() *Search {
	if len(sh.Races) == 0 || len(sh.Violations) > 0 || sh.Round >= 3 {
		return nil
	}
	n := NewSearch(sh.prog, sh.main, sh.name, sh.params, sh.lim)
	n.debug = sh.debug
	n.Round = sh.Round + 1
	n.RacyAt = map[ssa.Instruction]bool{}
	for i := range sh.RacyAt {
		n.RacyAt[i] = true
	}
	fresh := false
	for i := range sh.Races {
		if !n.RacyAt[i] {
			fresh = true
		}
		n.RacyAt[i] = true
	}
	if !fresh {
		return nil
	}
	n.RaceText = sh.RaceText
	return n
}

// newRaces reports whether there are races that are not scheduling points yet.
func (sh *Search) newRaces() bool {
	for i := range sh.Races {
		if !sh.RacyAt[i] {
			return true
		}
	}
	return false
}

// Run explores until done or out of budget.
func (sh *Search) Run() {
	sh.started = time.Now()
	sh.stack = []item{{}}
	var wg sync.WaitGroup
	for i := 0; i < max(1, sh.lim.Workers); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sh.worker()
		}()
	}
	wg.Wait()
	sh.Wall = time.Since(sh.started)
	sort.Strings(sh.SolverErrs)
}

func (sh *Search) outOfBudget() string {
	if sh.lim.Time > 0 && time.Since(sh.started) > sh.lim.Time {
		return "time"
	}
	if len(sh.Violations) > 0 && time.Since(sh.firstViol) > 8*time.Second {
		return "violation"
	}
	if !sh.raceAt.IsZero() && sh.Round < 3 && time.Since(sh.raceAt) > 3*time.Second && sh.newRaces() {
		return "races"
	}
	if sh.nlimit >= 12 {
		return "limit"
	}
	if sh.lim.Paths > 0 && sh.Paths >= sh.lim.Paths {
		return "paths"
	}
	return ""
}

func (sh *Search) take() (item, bool) {
	sh.mu.Lock()
	defer sh.mu.Unlock()
	for {
		if sh.stop {
			return item{}, false
		}
		if w := sh.outOfBudget(); w != "" && (len(sh.stack) > 0 || sh.busy > 0) {
			sh.Incomplete = fmt.Sprintf("%s budget used up with at least %d path prefixes open", w, len(sh.stack)+sh.busy)
			sh.stop = true
			sh.cond.Broadcast()
			return item{}, false
		}
		if n := len(sh.stack); n > 0 {
			k := n - 1
			if sh.RacyAt != nil {
				// many orders are alike: look at different ones first
				sh.rnd = sh.rnd*6364136223846793005 + 1442695040888963407
				k = int(sh.rnd>>33) % n
			}
			it := sh.stack[k]
			sh.stack[k] = sh.stack[n-1]
			sh.stack = sh.stack[:n-1]
			sh.busy++
			return it, true
		}
		if sh.busy == 0 {
			sh.stop = true
			sh.cond.Broadcast()
			return item{}, false
		}
		sh.cond.Wait()
	}
}

func (sh *Search) worker() {
	var in *Interp
	var ex *Explorer
	newWorker := func() {
		var s1, s2, s3 *Solver
		if ex != nil {
			s1, s2, s3 = ex.solver, ex.cross, ex.alt
			sh.flush(ex)
		} else {
			s1, s2, s3 = NewSolver("z3"), NewSolver("cvc5"), NewSolver("z3-new")
		}
		x := NewCtx()
		in = newInterp(x, sh.prog)
		in.maxStep = sh.lim.Steps
		if in.maxStep == 0 {
			in.maxStep = 20_000_000
		}
		ex = &Explorer{sh: sh, in: in, x: x, solver: s1, cross: s2, alt: s3, cache: map[string]cacheEnt{}, stubs: map[string]int{}, asserts: map[string]*AssertStat{}}
	}
	defer func() {
		if ex != nil {
			sh.flush(ex)
			sh.mu.Lock()
			sh.Queries += ex.solver.Queries
			sh.CrossChecks += ex.crossN
			sh.SolverTime += ex.solver.Time + ex.cross.Time + ex.alt.Time
			sh.Unknown += ex.unknown
			sh.SolverErrs = append(sh.SolverErrs, ex.solver.Errors...)
			sh.SolverErrs = append(sh.SolverErrs, ex.cross.Errors...)
			sh.mu.Unlock()
			ex.solver.Close()
			ex.cross.Close()
			ex.alt.Close()
		}
	}()
	for {
		it, ok := sh.take()
		if !ok {
			return
		}
		if in == nil || int(in.x.nextID) > 4_000_000 {
			if in != nil {
				in = nil
				runtime.GC()
			}
			newWorker()
		}
		sh.runItem(in, ex, it)
		sh.mu.Lock()
		sh.busy--
		if sh.busy == 0 && len(sh.stack) == 0 {
			sh.cond.Broadcast()
		}
		sh.mu.Unlock()
	}
}

func (sh *Search) flush(ex *Explorer) {
	sh.mu.Lock()
	defer sh.mu.Unlock()
	for fn := range ex.in.execd {
		sh.Funcs[fn.String()] = true
	}
	for k, n := range ex.stubs {
		sh.Stubs[k] += n
	}
	for k, s := range ex.asserts {
		t := sh.Asserts[k]
		if t == nil {
			t = &AssertStat{}
			sh.Asserts[k] = t
		}
		t.Checked += s.Checked
		t.ByTerm += s.ByTerm
		t.ByQuery += s.ByQuery
		t.Failed += s.Failed
		t.Undecided += s.Undecided
	}
	ex.asserts = map[string]*AssertStat{}
	sh.CacheHits += ex.nhit
	ex.nhit = 0
	sh.Decisions += ex.ndec
	ex.ndec = 0
	sh.Merges += ex.merges
	ex.merges = 0
}

func (sh *Search) runItem(in *Interp, ex *Explorer, it item) {
	ex.prefix = it.prefix
	ex.pos = 0
	ex.taken = nil
	ex.pc = nil
	ex.known = map[*Term]bool{}
	ex.subst = newSubst()
	ex.model = NewModel(it.model)
	ex.names = map[string]int{}
	ex.vars = nil
	ex.choices = map[string]int{}
	ex.engCh, ex.points, ex.obs, ex.faults, ex.zlib, ex.events = nil, nil, nil, nil, nil, nil
	ex.tokens = map[string]*Term{}
	ex.reached = nil
	ex.opt = pathOpts{}
	in.epoch++
	in.jgen++
	in.ex = ex
	ex.nomodel = it.nomodel
	end := in.runPath(sh.main)
	if ex.nomodel {
		end = func() (e pathEnd) {
			defer func() {
				if p, ok := recover().(pathEnd); ok {
					e = p
				}
			}()
			ex.needModel()
			return end
		}()
	}
	in.ex = nil
	in.rollback()
	in.jgen++
	switch end.why {
	case "violation":
		// an unexpected panic, crash or deadlock of the harness itself
		ex.violation(ex.model.v, end.msg)
	case "limit":
		// perhaps it never ends; only the real build can tell
		c := ex.mkCase(ex.model.v, "violation", "does not end ("+end.msg+")")
		c.Hang = true
		c.Events = nil
		sh.mu.Lock()
		sh.nlimit++
		if len(sh.Hangs) < 1 {
			sh.Hangs = append(sh.Hangs, Violation{Msg: c.Msg, Case: c})
		}
		sh.mu.Unlock()
	}
	sh.mu.Lock()
	defer sh.mu.Unlock()
	sh.Paths++
	sh.Steps += in.steps
	if in.ntrans > sh.MaxTrans {
		sh.MaxTrans = in.ntrans
	}
	sh.Ends[end.why]++
	if end.why == "timeout" && sh.Incomplete == "" {
		sh.Incomplete = "time budget used up within a path"
	}
	if end.why == "undecided" && sh.Incomplete == "" {
		sh.Incomplete = "the solver could not decide whether some paths are feasible"
	}
	if end.why == "unsupported" || end.why == "limit" {
		sh.EndMsgs[end.why+": "+end.msg]++
	}
	for _, r := range ex.reached {
		sh.Reached[r]++
	}
	if end.why == "done" && sh.lim.Samples > 0 {
		// keep a deterministic spread of completed paths for replay on the real build
		if len(sh.Samples) < sh.lim.Samples {
			sh.Samples = append(sh.Samples, ex.mkCase(ex.model.v, "ok", ""))
		} else if h := pathHash(ex.taken); h%uint64(sh.Paths) < uint64(sh.lim.Samples) {
			sh.Samples[h%uint64(sh.lim.Samples)] = ex.mkCase(ex.model.v, "ok", "")
		}
	}
}

func pathHash(ds []Decision) uint64 {
	h := uint64(14695981039346656037)
	for _, d := range ds {
		h = (h ^ d.val) * 1099511628211
		h = (h ^ uint64(d.kind)) * 1099511628211
	}
	return h ^ h>>29
}
