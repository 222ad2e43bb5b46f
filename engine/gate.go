package engine

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// GatedSources returns the module's source files changed so that a native run can be made to follow
// a schedule (package vg): a gate before every channel operation, sync and sync/atomic replaced.
// mem is the lines ("file:line") with memory accesses that are scheduling points too.
// Lines stay where they are.
func (p *Program) GatedSources(overlay map[string][]byte, mem map[string]bool) (map[string][]byte, error) {
	out := map[string][]byte{}
	for _, pk := range p.mod {
		if n := strings.TrimPrefix(pk.PkgPath, HarnessPrefix); n == "v" || n == "vg" || n == "vsync" || n == "vatomic" {
			continue
		}
		for i, f := range pk.Syntax {
			name := pk.CompiledGoFiles[i]
			src, ok := overlay[name]
			if !ok {
				b, err := os.ReadFile(name)
				if err != nil {
					return nil, err
				}
				src = b
			}
			g := &gater{p: p, pk: pk, src: src, file: f}
			for s := range mem {
				if n := shortFile(name); strings.HasPrefix(s, n+":") {
					if l, err := strconv.Atoi(s[len(n)+1:]); err == nil {
						g.memLine(l, s)
					}
				}
			}
			if b := g.rewrite(); b != nil {
				out[name] = b
			}
		}
	}
	return out, nil
}

type edit struct {
	from, to int
	text     string
	seq      int
}

type gater struct {
	p     *Program
	pk    *packages.Package
	src   []byte
	file  *ast.File
	edits []edit
	n     int
	used  bool
}

func (g *gater) off(p token.Pos) int { return g.p.fset.Position(p).Offset }
func (g *gater) text(n ast.Node) string {
	return string(g.src[g.off(n.Pos()):g.off(n.End())])
}
func (g *gater) repl(from, to token.Pos, s string) {
	g.edits = append(g.edits, edit{g.off(from), g.off(to), s, len(g.edits)})
}
func (g *gater) ins(at token.Pos, s string) { g.repl(at, at, s); g.used = true }

func (g *gater) rewrite() []byte {
	for _, im := range g.file.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		to := map[string]string{"sync": "vsync", "sync/atomic": "vatomic"}[path]
		if to == "" {
			continue
		}
		name := ""
		if im.Name == nil {
			name = path[strings.LastIndexByte(path, '/')+1:] + " "
		}
		g.repl(im.Path.Pos(), im.Path.End(), name+strconv.Quote(HarnessPrefix+to))
	}
	ast.Inspect(g.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			for _, s := range n.List {
				g.stmt(s)
			}
		case *ast.CaseClause:
			for _, s := range n.Body {
				g.stmt(s)
			}
		case *ast.CommClause:
			for _, s := range n.Body {
				g.stmt(s)
			}
		}
		return true
	})
	if g.used {
		g.repl(g.file.Name.End(), g.file.Name.End(), "; import zzvg "+strconv.Quote(HarnessPrefix+"vg"))
	}
	if len(g.edits) == 0 {
		return nil
	}
	sort.SliceStable(g.edits, func(i, j int) bool {
		a, b := g.edits[i], g.edits[j]
		if a.from != b.from {
			return a.from < b.from
		}
		if (a.from == a.to) != (b.from == b.to) {
			return a.from == a.to
		}
		return a.seq < b.seq
	})
	var sb strings.Builder
	at := 0
	for _, e := range g.edits {
		if e.from < at {
			continue // inside something already replaced
		}
		sb.Write(g.src[at:e.from])
		sb.WriteString(e.text)
		at = e.to
	}
	sb.Write(g.src[at:])
	return []byte(sb.String())
}

// memLine puts a gate before the statement that has a line in it.
func (g *gater) memLine(line int, site string) {
	at := func(p token.Pos) int { return g.p.fset.Position(p).Line }
	within := func(n ast.Node) bool { return at(n.Pos()) <= line && line <= at(n.End()) }
	gate := fmt.Sprintf("zzvg.Mem(%s); ", strconv.Quote(site))
	cond := func(e ast.Expr) {
		g.ins(e.Pos(), fmt.Sprintf("zzvg.MemTrue(%s) && (", strconv.Quote(site)))
		g.ins(e.End(), ")")
	}
	var best ast.Stmt
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if within(s) {
				best = s
				return
			}
		}
	}
	ast.Inspect(g.file, func(n ast.Node) bool {
		if n == nil || !within(n) {
			return n == nil || !within(n) && n == ast.Node(g.file)
		}
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.ForStmt:
			if n.Cond != nil && within(n.Cond) {
				cond(n.Cond)
			}
		case *ast.IfStmt:
			if within(n.Cond) {
				cond(n.Cond)
			}
		}
		return true
	})
	if best == nil {
		return
	}
	g.ins(best.Pos(), gate)
	n := g.id()
	split := func(lhs, val string) {
		g.repl(best.Pos(), best.End(), fmt.Sprintf("zzm%d := %s; %s%s = zzm%d", n, val, strings.Replace(gate, "Mem", "Mid", 1), lhs, n))
	}
	switch s := best.(type) {
	case *ast.IncDecStmt:
		if !hasCall(s.X) {
			split(g.text(s.X), g.text(s.X)+" "+s.Tok.String()[:1]+" 1")
		}
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || s.Tok == token.DEFINE || hasCall(s.Lhs[0]) || strings.Contains(g.text(s), "\n") {
			return
		}
		if id, ok := s.Lhs[0].(*ast.Ident); ok && id.Name == "_" {
			return
		}
		if s.Tok == token.ASSIGN {
			if !g.fixed(s.Rhs[0]) {
				split(g.text(s.Lhs[0]), g.text(s.Rhs[0]))
			}
			return
		}
		split(g.text(s.Lhs[0]), g.text(s.Lhs[0])+" "+strings.TrimSuffix(s.Tok.String(), "=")+" ("+g.text(s.Rhs[0])+")")
	}
}

func hasCall(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			found = true
		}
		return !found
	})
	return found
}

func (g *gater) typeOf(e ast.Expr) types.Type { return g.pk.TypesInfo.TypeOf(e) }

func (g *gater) fixed(e ast.Expr) bool {
	tv := g.pk.TypesInfo.Types[e]
	if tv.Value != nil || tv.IsNil() {
		return true
	}
	_, lit := e.(*ast.FuncLit)
	return lit
}

func (g *gater) id() int { g.n++; return g.n }

func (g *gater) stmt(s ast.Stmt) {
	at := s.Pos()
	for {
		l, ok := s.(*ast.LabeledStmt)
		if !ok {
			break
		}
		s = l.Stmt
	}
	switch s := s.(type) {
	case *ast.SelectStmt:
		g.sel(at, s)
	case *ast.RangeStmt:
		if t := g.typeOf(s.X); t != nil {
			if _, ok := t.Underlying().(*types.Chan); ok {
				g.rangeChan(at, s)
				return
			}
		}
		g.header(at, s.X)
	case *ast.GoStmt:
		g.goStmt(at, s)
	case *ast.DeferStmt:
		if g.isClose(s.Call) {
			g.repl(s.Call.Pos(), s.Call.Pos(), "func() { zzvg.Gate(`close`); ")
			g.repl(s.Call.End(), s.Call.End(), " }()")
			g.used = true
		}
	case *ast.SendStmt:
		if hasCall(s.Value) && !g.fixed(s.Value) {
			n := g.id()
			g.ins(at, fmt.Sprintf("zzv%d := %s; zzvg.Gate(`chan`); ", n, g.text(s.Value)))
			g.repl(s.Value.Pos(), s.Value.End(), fmt.Sprintf("zzv%d", n))
			return
		}
		g.ins(at, "zzvg.Gate(`chan`); ")
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok && g.isClose(c) {
			g.ins(at, "zzvg.Gate(`close`); ")
			return
		}
		g.header(at, s)
	case *ast.IfStmt:
		g.header(at, s.Init, s.Cond)
	case *ast.ForStmt:
		g.header(at, s.Init)
		if s.Cond != nil && g.count(s.Cond) > 0 {
			g.ins(s.Body.Lbrace+1, "")
		}
	case *ast.SwitchStmt:
		g.header(at, s.Init, s.Tag)
	case *ast.TypeSwitchStmt:
		g.header(at, s.Init, s.Assign)
	case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
	default:
		g.header(at, s)
	}
}

func (g *gater) isClose(c *ast.CallExpr) bool {
	id, ok := c.Fun.(*ast.Ident)
	if !ok || id.Name != "close" {
		return false
	}
	_, ok = g.pk.TypesInfo.Uses[id].(*types.Builtin)
	return ok
}

// count is the number of receives and Context.Err calls in n.
func (g *gater) count(n ast.Node) int { return len(g.kinds(n)) }

func (g *gater) kinds(n ast.Node) []string {
	var r []string
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				r = append(r, "zzvg.Gate(`chan`); ")
			}
		case *ast.CallExpr:
			if se, ok := n.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "Err" && len(n.Args) == 0 {
				if t := g.typeOf(se.X); t != nil && t.String() == "context.Context" {
					r = append(r, "zzvg.GateHere(`ctxerr`); ")
				}
			}
		}
		return true
	})
	return r
}

// header puts gates before a statement for the operations in the parts of it evaluated first.
func (g *gater) header(at token.Pos, ns ...ast.Node) {
	for _, n := range ns {
		switch x := n.(type) {
		case nil:
			continue
		case ast.Stmt:
			if x == nil {
				continue
			}
		}
		for _, k := range g.kinds(n) {
			g.ins(at, k)
		}
	}
}

func (g *gater) rangeChan(at token.Pos, s *ast.RangeStmt) {
	x := g.text(s.X)
	if hasCall(s.X) {
		n := g.id()
		g.ins(at, fmt.Sprintf("zzc%d := %s; ", n, x))
		x = fmt.Sprintf("zzc%d", n)
	}
	n := g.id()
	recv := fmt.Sprintf("_, zzok%d := <-%s", n, x)
	if s.Key != nil {
		recv = fmt.Sprintf("%s, zzok%d := <-%s", g.text(s.Key), n, x)
		if s.Tok == token.ASSIGN {
			recv = fmt.Sprintf("var zzok%d bool; %s, zzok%d = <-%s", n, g.text(s.Key), n, x)
		}
	}
	g.repl(s.For, s.Body.Lbrace+1, fmt.Sprintf("for { zzvg.Gate(`chan`); %s; if !zzok%d { break }; ", recv, n))
	g.used = true
}

func (g *gater) sel(at token.Pos, s *ast.SelectStmt) {
	n := g.id()
	pre, post := "", ""
	i := 0
	for _, cl := range s.Body.List {
		c := cl.(*ast.CommClause)
		if c.Comm == nil {
			g.ins(at, fmt.Sprintf("zzL%d: ", n)) // goes last, see below
			g.edits = g.edits[:len(g.edits)-1]
			g.repl(c.Colon+1, c.Colon+1, fmt.Sprintf(" if zzvg.Retry(zzs%d) { goto zzL%d }; ", n, n))
			post = fmt.Sprintf("zzL%d: ", n)
			continue
		}
		var ch ast.Expr
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			ch = m.Chan
			if hasCall(m.Value) && !g.fixed(m.Value) {
				pre += fmt.Sprintf("zzsv%d_%d := %s; ", n, i, g.text(m.Value))
				g.repl(m.Value.Pos(), m.Value.End(), fmt.Sprintf("zzsv%d_%d", n, i))
			}
		default:
			ast.Inspect(c.Comm, func(x ast.Node) bool {
				if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.ARROW && ch == nil {
					ch = u.X
				}
				return ch == nil
			})
		}
		if ch == nil {
			i++
			continue
		}
		if g.pk.TypesInfo.Types[ch].IsNil() {
			i++
			continue
		}
		pre += fmt.Sprintf("zzc%d_%d := %s; ", n, i, g.text(ch))
		post = fmt.Sprintf("if zzvg.Off(zzs%d, %d) { zzc%d_%d = nil }; ", n, i, n, i) + post
		g.repl(ch.Pos(), ch.End(), fmt.Sprintf("zzc%d_%d", n, i))
		i++
	}
	g.ins(at, pre+fmt.Sprintf("zzs%d := zzvg.Select(); _ = zzs%d; ", n, n)+post)
}

func (g *gater) goStmt(at token.Pos, s *ast.GoStmt) {
	n := g.id()
	pre := ""
	hoist := func(e ast.Expr, v string) {
		pre += fmt.Sprintf("%s := %s; ", v, g.text(e))
		g.repl(e.Pos(), e.End(), v)
	}
	switch f := s.Call.Fun.(type) {
	case *ast.SelectorExpr:
		if _, ok := g.pk.TypesInfo.Selections[f]; ok {
			hoist(f, fmt.Sprintf("zzf%d", n))
		}
	case *ast.Ident:
		if _, ok := g.pk.TypesInfo.Uses[f].(*types.Var); ok {
			hoist(f, fmt.Sprintf("zzf%d", n))
		}
	}
	for i, a := range s.Call.Args {
		if !g.fixed(a) {
			hoist(a, fmt.Sprintf("zza%d_%d", n, i))
		}
	}
	g.ins(at, pre+fmt.Sprintf("zzg%d := zzvg.Spawn(); ", n))
	g.repl(s.Go, s.Go+2, fmt.Sprintf("go func() { zzvg.Enter(zzg%d); defer zzvg.Leave();", n))
	g.repl(s.End(), s.End(), " }()")
}
