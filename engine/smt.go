package engine

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Result of a satisfiability query.
type Sat int

const (
	Unsat Sat = iota
	SatYes
	SatUnknown
)

func (s Sat) String() string { return [...]string{"unsat", "sat", "unknown"}[s] }

// Solver drives one SMT solver process over stdin/stdout.
type Solver struct {
	name string
	argv []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	// statistics
	Queries int
	Time    time.Duration
	Unknown int
	Errors  []string

	proc        atomic.Pointer[os.Process]
	interrupted atomic.Bool
}

// Interrupt ends the query that is running; the process is started again by the next one.
func (s *Solver) Interrupt() {
	s.interrupted.Store(true)
	if p := s.proc.Load(); p != nil {
		p.Kill()
	}
}

func NewSolver(name string) *Solver {
	s := &Solver{name: name}
	switch name {
	case "z3":
		s.argv = []string{"z3", "-in"}
	case "z3-new":
		s.argv = []string{"z3-new", "-in"}
	case "cvc5":
		s.argv = []string{"cvc5", "--lang=smt2", "--produce-models", "--incremental", "--quiet"}
	default:
		panic("unknown solver " + name)
	}
	return s
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.proc.Store(s.cmd.Process)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func smtSort(w uint8) string {
	switch w {
	case 0:
		return "Bool"
	case WFloat:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// printer emits terms as a sequence of define-funs.
type printer struct {
	sb     strings.Builder
	names  map[*Term]string
	vars   map[*Term]bool
	hasFP  bool
	varSeq []*Term
	refs   map[*Term]int
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
}

func quote(name string) string { return "|" + name + "|" }

func constSMT(w uint8, v uint64) string {
	switch w {
	case 0:
		if v == 1 {
			return "true"
		}
		return "false"
	case WFloat:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", v)
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

// ref returns an expression for t, emitting definitions for shared subterms.
func (p *printer) ref(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	switch t.op {
	case OConst:
		if t.w == WFloat {
			p.hasFP = true
		}
		return constSMT(t.w, t.c)
	case OVar:
		if t.w == WFloat {
			p.hasFP = true
		}
		n := quote(t.name)
		p.names[t] = n
		p.varSeq = append(p.varSeq, t)
		return n
	}
	e := p.expr(t)
	if p.refs[t] > 1 || len(e) > 400 {
		n := "t" + strconv.Itoa(int(t.id))
		fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, smtSort(t.w), e)
		p.names[t] = n
		return n
	}
	return e
}

func (p *printer) expr(t *Term) string {
	a := make([]string, len(t.args))
	for i, x := range t.args {
		a[i] = p.ref(x)
	}
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.c)+int(t.w)-1, t.c, a[0])
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, a[0])
	case OFFromS:
		p.hasFP = true
		return fmt.Sprintf("((_ to_fp 11 53) RNE %s)", a[0])
	case OFFromU:
		p.hasFP = true
		return fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", a[0])
	case OFRound32:
		p.hasFP = true
		return fmt.Sprintf("((_ to_fp 11 53) RNE ((_ to_fp 8 24) RNE %s))", a[0])
	case OFToS:
		p.hasFP = true
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, a[0])
	case OFLt, OFLe, OFEq, OFIsNaN, OFAdd, OFSub, OFMul, OFDiv, OFNeg:
		p.hasFP = true
	}
	return "(" + opNames[t.op] + " " + strings.Join(a, " ") + ")"
}

// Check decides the conjunction of cs; on sat it returns a model of the variables occurring in cs.
func (s *Solver) Check(cs []*Term, timeout time.Duration) (Sat, map[string]uint64) {
	p := &printer{names: map[*Term]string{}, refs: map[*Term]int{}}
	for _, c := range cs {
		p.count(c)
	}
	var asserts strings.Builder
	for _, c := range cs {
		e := p.ref(c)
		fmt.Fprintf(&asserts, "(assert %s)\n", e)
	}
	var q strings.Builder
	q.WriteString("(reset)\n")
	if s.name != "cvc5" {
		fmt.Fprintf(&q, "(set-option :timeout %d)\n", timeout.Milliseconds())
		if !p.hasFP {
			q.WriteString("(set-logic QF_BV)\n")
		}
	} else {
		fmt.Fprintf(&q, "(set-option :tlimit-per %d)\n", timeout.Milliseconds())
		q.WriteString("(set-option :produce-models true)\n")
		if p.hasFP {
			q.WriteString("(set-logic QF_BVFP)\n")
		} else {
			q.WriteString("(set-logic QF_BV)\n")
		}
	}
	for _, v := range p.varSeq {
		fmt.Fprintf(&q, "(declare-const %s %s)\n", quote(v.name), smtSort(v.w))
	}
	q.WriteString(p.sb.String())
	q.WriteString(asserts.String())
	q.WriteString("(check-sat)\n(echo \"=done=\")\n")
	start := time.Now()
	s.Queries++
	defer func() { s.Time += time.Since(start) }()
	lines, err := s.roundtrip(q.String(), timeout+5*time.Second)
	if d := os.Getenv("GOSYM_SLOW"); d != "" && time.Since(start) > 20*time.Millisecond {
		os.WriteFile(fmt.Sprintf("%s/%d-%d.smt2", d, time.Since(start).Milliseconds(), s.Queries), []byte(q.String()), 0644)
	}
	if err != nil {
		if !s.interrupted.Swap(false) {
			s.Errors = append(s.Errors, err.Error())
		}
		s.Unknown++
		return SatUnknown, nil
	}
	s.interrupted.Store(false)
	res := SatUnknown
	for _, l := range lines {
		switch {
		case strings.HasPrefix(l, "(error"):
			if len(s.Errors) < 20 {
				s.Errors = append(s.Errors, l)
			}
			s.Unknown++
			return SatUnknown, nil
		case l == "sat":
			res = SatYes
		case l == "unsat":
			res = Unsat
		}
	}
	if res == SatUnknown {
		s.Unknown++
	}
	if res != SatYes || len(p.varSeq) == 0 {
		return res, map[string]uint64{}
	}
	var g strings.Builder
	g.WriteString("(get-value (")
	for _, v := range p.varSeq {
		g.WriteString(quote(v.name) + " ")
	}
	g.WriteString("))\n(echo \"=done=\")\n")
	lines, err = s.roundtrip(g.String(), timeout+5*time.Second)
	if err != nil {
		s.Errors = append(s.Errors, err.Error())
		return SatUnknown, nil
	}
	m, err := parseValues(strings.Join(lines, "\n"))
	if err != nil {
		s.Errors = append(s.Errors, err.Error())
		return SatUnknown, nil
	}
	return SatYes, m
}

func (s *Solver) roundtrip(text string, limit time.Duration) ([]string, error) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return nil, err
		}
	}
	type res struct {
		lines []string
		err   error
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := io.WriteString(s.in, text); err != nil {
			ch <- res{nil, err}
			return
		}
		var lines []string
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				ch <- res{nil, err}
				return
			}
			l = strings.TrimSpace(l)
			if l == "=done=" || l == "\"=done=\"" {
				ch <- res{lines, nil}
				return
			}
			if l != "" {
				lines = append(lines, l)
			}
		}
	}()
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case r := <-ch:
		if r.err != nil {
			s.Close()
		}
		return r.lines, r.err
	case <-t.C:
		s.Close()
		return nil, fmt.Errorf("%s: no answer within %v", s.name, limit)
	}
}

func parseValues(s string) (map[string]uint64, error) {
	m := map[string]uint64{}
	i := 0
	n := len(s)
	skip := func() {
		for i < n && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t') {
			i++
		}
	}
	var sexp func() string
	sexp = func() string {
		skip()
		st := i
		if i < n && s[i] == '(' {
			i++
			for {
				skip()
				if i >= n {
					return s[st:]
				}
				if s[i] == ')' {
					i++
					return s[st:i]
				}
				sexp()
			}
		}
		if i < n && s[i] == '|' {
			i++
			for i < n && s[i] != '|' {
				i++
			}
			i++
			return s[st:min(i, n)]
		}
		for i < n && !strings.ContainsRune(" \n\t()", rune(s[i])) {
			i++
		}
		return s[st:i]
	}
	skip()
	if i >= n || s[i] != '(' {
		return nil, fmt.Errorf("bad get-value answer %.100q", s)
	}
	i++
	for {
		skip()
		if i >= n || s[i] == ')' {
			return m, nil
		}
		if s[i] != '(' {
			return nil, fmt.Errorf("bad get-value answer %.100q", s)
		}
		i++
		name := strings.Trim(sexp(), "|")
		val := sexp()
		v, err := parseVal(val)
		if err != nil {
			return nil, err
		}
		m[name] = v
		skip()
		if i < n && s[i] == ')' {
			i++
		}
	}
}

func parseVal(v string) (uint64, error) {
	switch {
	case v == "true":
		return 1, nil
	case v == "false":
		return 0, nil
	case strings.HasPrefix(v, "#x"):
		return strconv.ParseUint(v[2:], 16, 64)
	case strings.HasPrefix(v, "#b"):
		return strconv.ParseUint(v[2:], 2, 64)
	case strings.HasPrefix(v, "(fp "):
		f := strings.Fields(strings.Trim(v, "()"))
		if len(f) != 4 {
			return 0, fmt.Errorf("bad fp %q", v)
		}
		sg, e1 := parseVal(f[1])
		ex, e2 := parseVal(f[2])
		ma, e3 := parseVal(f[3])
		if e1 != nil || e2 != nil || e3 != nil {
			return 0, fmt.Errorf("bad fp %q", v)
		}
		return sg<<63 | ex<<52 | ma, nil
	case strings.HasPrefix(v, "(_ +zero"):
		return 0, nil
	case strings.HasPrefix(v, "(_ -zero"):
		return 1 << 63, nil
	case strings.HasPrefix(v, "(_ +oo"):
		return 0x7ff << 52, nil
	case strings.HasPrefix(v, "(_ -oo"):
		return 0xfff << 52, nil
	case strings.HasPrefix(v, "(_ NaN"):
		return 0x7ff8 << 48, nil
	case strings.HasPrefix(v, "(_ bv"):
		f := strings.Fields(v)
		return strconv.ParseUint(f[1][2:], 10, 64)
	}
	return 0, fmt.Errorf("bad value %q", v)
}

// slice returns the constraints of pc connected (through shared variables) to the query q.
func slice(pc []*Term, q []*Term) []*Term {
	in := map[int32]bool{}
	for _, t := range q {
		for _, v := range t.vars {
			in[v] = true
		}
	}
	used := make([]bool, len(pc))
	out := append([]*Term(nil), q...)
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, c)
				for _, v := range c.vars {
					in[v] = true
				}
			}
		}
	}
	return out
}

func cacheKey(cs []*Term) string {
	ids := make([]int, len(cs))
	for i, c := range cs {
		ids[i] = int(c.id)
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, i := range ids {
		sb.WriteString(strconv.FormatInt(int64(i), 36))
		sb.WriteByte(',')
	}
	return sb.String()
}
