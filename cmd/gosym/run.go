package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/engine"
)

type options struct {
	tier     string
	seed     int
	only     string
	time     time.Duration
	debug    bool
	verbose  bool
	nonative bool
	workers  int
	params   map[string]int64
}

type replayDoc struct {
	Property string      `json:"property"`
	Pkg      string      `json:"pkg"`
	Cmds     []string    `json:"cmds,omitempty"`
	Sched    bool        `json:"schedule_dependent,omitempty"`
	Gated    bool        `json:"follow_schedule,omitempty"`
	Case     engine.Case `json:"case"`
	Native   string      `json:"native_result"`
	Text     string      `json:"native_output,omitempty"`
}

func uniq(ss []string) []string {
	m := map[string]bool{}
	var r []string
	for _, s := range ss {
		if !m[s] {
			m[s] = true
			r = append(r, s)
		}
	}
	return r
}

func runCheck(c *check, o options) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	var hs []harness
	for _, h := range c.hs {
		if (o.only != "" && h.fn != o.only) || (h.thOnly && o.tier != "thorough" && o.only == "") {
			continue
		}
		hs = append(hs, h)
	}
	var pkgs, cmds []string
	for _, h := range hs {
		pkgs = append(pkgs, h.pkg)
		cmds = append(cmds, h.cmds...)
	}
	pkgs, cmds = uniq(pkgs), uniq(cmds)

	// the real build, for replays, while the code is loaded for symbolic execution
	var nerr error
	ndone := make(chan bool)
	go func() {
		defer close(ndone)
		if !o.nonative {
			nerr = nativeBuild(dir, pkgs, cmds, nil, nil)
		}
	}()
	prog, err := loadProg(pkgs, cmds)
	<-ndone
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	if nerr != nil {
		fmt.Fprintln(os.Stderr, nerr)
		return 2
	}
	gateDir := filepath.Join(dir, "gated")
	var gateErr error
	gateBuilt := "none"
	loadT := time.Since(start)
	if o.verbose {
		fmt.Printf("loaded in %.1fs\n", loadT.Seconds())
	}

	known, err := readKnown()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	var (
		reports   []map[string]interface{}
		samples   []interface{}
		problems  []string
		notes     []string
		funcs     = map[string]bool{}
		stubs     = map[string]int{}
		paths     int
		steps     int64
		decisions int64
		trans     int64
		queries   int
		hits      int
		cross     int
		solverT   time.Duration
		validated int
		obs       int
		decided   int
		unknowns  int
		nviol     int
		violLines []string
		knownHit  = map[string]bool{}
		incompl   []string
	)
	workers := o.workers
	if workers == 0 {
		workers = min(8, max(2, runtime.NumCPU()))
	}
	for hi := range hs {
		h := &hs[hi]
		fn := prog.Func(engine.HarnessPrefix+h.pkg, h.fn)
		if fn == nil {
			fmt.Fprintf(os.Stderr, "no harness %s.%s\n", h.pkg, h.fn)
			return 2
		}
		params := map[string]int64{}
		for k, v := range h.quick {
			params[k] = v
		}
		tl := h.timeQ
		if tl == 0 {
			tl = 60
		}
		if o.tier == "thorough" {
			for k, v := range h.thorough {
				params[k] = v
			}
			if tl = h.timeT; tl == 0 {
				tl = 300
			}
		}
		for k, v := range o.params {
			params[k] = v
		}
		lim := engine.Limits{Time: time.Duration(tl) * time.Second, Steps: h.steps, SolverMS: 20000, Workers: workers, Samples: 6}
		if h.samples > 0 {
			lim.Samples = h.samples
		}
		if o.time > 0 {
			lim.Time = o.time
		}
		s := engine.NewSearch(prog, fn, h.fn, params, lim)
		if o.debug {
			s.Debug()
		}
		s.Run()
		for n := s.Again(); n != nil; n = s.Again() {
			if o.verbose {
				fmt.Printf("  races, round %d: %v\n", n.Round, keys(s.RaceText))
			}
			s = n
			s.Run()
		}

		// replays on the real build
		nv, mism := 0, []string{}
		var sampleViol []replayDoc
		if !h.noNative && !o.nonative {
			type rr struct {
				c engine.Case
				r nativeResult
			}
			rs := make([]rr, len(s.Samples))
			var wg sync.WaitGroup
			sem := make(chan bool, workers)
			for i, sc := range s.Samples {
				wg.Add(1)
				sem <- true
				go func(i int, sc engine.Case) {
					defer wg.Done()
					defer func() { <-sem }()
					var r nativeResult
					for k := 0; k < 3; k++ {
						r = nativeRun(dir, h.pkg, sc, 60*time.Second, false)
						if r.Status == "done" && obsDiff(sc, r) == "" {
							break
						}
					}
					rs[i] = rr{sc, r}
				}(i, sc)
			}
			wg.Wait()
			for _, x := range rs {
				switch {
				case x.r.Status == "done" && obsDiff(x.c, x.r) == "":
					nv++
				case x.r.Status == "violation" || x.r.Status == "crash":
					// the real build fails on an input the exploration passed
					x.c.Expect, x.c.Msg = "violation", "only on the real build: "+x.r.Msg
					sampleViol = append(sampleViol, replayDoc{c.id, h.pkg, h.cmds, h.sched, false, x.c, x.r.Status + ": " + x.r.Msg, x.r.text})
				default:
					mism = append(mism, fmt.Sprintf("%s: sample not confirmed natively: %s %s %s", h.fn, x.r.Status, x.r.Msg, obsDiff(x.c, x.r)))
				}
				if o.verbose && (x.r.Status != "done" || obsDiff(x.c, x.r) != "") {
					b, _ := json.Marshal(x.c)
					fmt.Printf("  sample mismatch: %s %s %s\n%s\n  case %s\n", x.r.Status, x.r.Msg, obsDiff(x.c, x.r), x.r.text, b)
				}
			}
		}
		validated += nv
		problems = append(problems, mism...)

		// violations must show on the real build
		var confirmed []replayDoc
		unconf := 0
		for _, v := range append(append([]engine.Violation(nil), s.Violations...), s.Hangs...) {
			if o.verbose {
				b, _ := json.Marshal(v.Case)
				fmt.Printf("  engine violation: %s\n    case %s\n", v.Msg, head(b, 3000))
			}
			if v.Case.Hang && (h.noNative || o.nonative) {
				continue
			}
			if h.noNative || o.nonative {
				confirmed = append(confirmed, replayDoc{c.id, h.pkg, h.cmds, h.sched, false, v.Case, "not replayed: " + v.Msg, ""})
				continue
			}
			tries := 2
			if v.Case.Hang {
				tries = 1
			}
			tmo := 60 * time.Second
			if v.Case.Hang || strings.Contains(v.Msg, "asleep") {
				tmo = 20 * time.Second
			}
			var r nativeResult
			ok := false
			began := time.Now()
			for k := 0; k < tries && !ok && time.Since(began) < 90*time.Second; k++ {
				r = nativeRun(dir, h.pkg, v.Case, tmo, false)
				ok = reproduces(v.Case, r)
			}
			gated := false
			if !ok && len(v.Case.Events) > 0 {
				// on the real code with gates that make it follow the schedule found
				mem := memSites(v.Case)
				if sites := fmt.Sprint(keys(mem)); gateErr == nil && gateBuilt != sites {
					gateBuilt = sites
					gateErr = nativeBuild(gateDir, pkgs, cmds, prog, mem)
					if gateErr != nil {
						fmt.Fprintln(os.Stderr, "gated build:", gateErr)
					}
				}
				if gateErr == nil {
					for k := 0; k < 3 && !ok; k++ {
						g := nativeRun(gateDir, h.pkg, v.Case, tmo, true)
						if ok = reproduces(v.Case, g); ok {
							r, gated = g, true
							r.Msg += " (following the counterexample's schedule)"
						} else if o.verbose {
							fmt.Printf("    gated: %s %s %s\n", g.Status, g.Msg, g.text)
						}
					}
				}
			}
			if !ok && h.sched {
				for k := 0; k < 20 && !ok && time.Since(began) < 60*time.Second; k++ {
					r = nativeRun(dir, h.pkg, v.Case, tmo, false)
					ok = reproduces(v.Case, r)
				}
			}
			if o.verbose {
				fmt.Printf("    native: %s %s\n", r.Status, r.Msg)
			}
			if ok {
				confirmed = append(confirmed, replayDoc{c.id, h.pkg, h.cmds, h.sched, gated, v.Case, r.Status + ": " + r.Msg, r.text})
				if len(confirmed) >= 3 {
					break
				}
			} else if v.Case.Hang {
				// the bounds were too small: nothing decided about this path
				if len(notes) < 20 {
					notes = append(notes, fmt.Sprintf("%s: %s; the real build ends on this input", h.fn, v.Msg))
				}
			} else {
				unconf++
				if o.verbose {
					fmt.Println(r.text)
				}
				if len(notes) < 20 {
					b, _ := json.Marshal(v.Case)
					notes = append(notes, fmt.Sprintf("%s: %s not reproduced natively (%s %s): %s", h.fn, v.Msg, r.Status, r.Msg, head(b, 3000)))
				}
			}
			if unconf > 6 {
				break
			}
		}
		if unconf > 0 && len(confirmed) == 0 {
			problems = append(problems, fmt.Sprintf("%s: %d counterexamples did not reproduce on the real build", h.fn, unconf))
		}
		confirmed = append(confirmed, sampleViol...)
		for _, d := range confirmed {
			if k := known.match(d); k != "" {
				if !knownHit[k] {
					knownHit[k] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k)
				}
				continue
			}
			nviol++
			f := writeReplay(d, nviol)
			violLines = append(violLines, fmt.Sprintf("VIOLATION property=%s replay=%s", c.id, f))
			fmt.Printf("%s: %s (%s)\n", h.fn, d.Case.Msg, d.Native)
		}

		// bookkeeping
		for f := range s.Funcs {
			funcs[f] = true
		}
		for k, n := range s.Stubs {
			stubs[k] += n
		}
		paths += s.Paths
		steps += s.Steps
		decisions += s.Decisions
		trans += s.Trans
		queries += s.Queries
		hits += s.CacheHits
		cross += s.CrossChecks
		solverT += s.SolverTime
		unknowns += s.Unknown
		for _, a := range s.Asserts {
			decided += a.ByTerm + a.ByQuery + a.Failed
			obs += a.Checked
		}
		for _, r := range h.reach {
			if s.Reached[r] == 0 {
				if s.Incomplete == "" && s.Ends["unsupported"] == 0 && s.Ends["limit"] == 0 && len(s.Violations) == 0 {
					problems = append(problems, fmt.Sprintf("%s: no path reached %q", h.fn, r))
				} else {
					notes = append(notes, fmt.Sprintf("%s: no explored path reached %q", h.fn, r))
				}
			}
		}
		if s.Incomplete != "" {
			incompl = append(incompl, h.fn+": "+s.Incomplete)
		}
		for m, n := range s.EndMsgs {
			incompl = append(incompl, fmt.Sprintf("%s: %d paths ended: %s", h.fn, n, m))
		}
		und := 0
		for _, a := range s.Asserts {
			und += a.Undecided
		}
		if und > 0 {
			incompl = append(incompl, fmt.Sprintf("%s: %d assertions undecided by the solvers", h.fn, und))
		}
		if len(s.CrossBad) > 0 {
			problems = append(problems, h.fn+": solvers disagree: "+s.CrossBad[0])
		}
		if len(s.ModelBad) > 0 {
			problems = append(problems, h.fn+": "+s.ModelBad[0])
		}
		if len(s.SolverErrs) > 0 {
			notes = append(notes, h.fn+": solver: "+s.SolverErrs[0])
		}
		rep := map[string]interface{}{
			"harness": h.pkg + "." + h.fn, "bounds": h.bounds, "params": params, "paths": s.Paths, "path_ends": s.Ends,
			"assertions": assertSummary(s), "solver_queries": s.Queries, "solver_s": round(s.SolverTime.Seconds()),
			"query_cache_hits": s.CacheHits, "branch_decisions": s.Decisions, "branches_merged": s.Merges, "ssa_instructions": s.Steps,
			"schedule_transitions": s.Trans, "most_transitions_in_a_path": s.MaxTrans, "wall_s": round(s.Wall.Seconds()), "complete_within_bounds": s.Incomplete == "" && len(s.EndMsgs) == 0 && und == 0,
			"native_replays_agreeing": nv,
		}
		if s.Incomplete != "" {
			rep["incomplete"] = s.Incomplete
		}
		if len(s.EndMsgs) > 0 {
			rep["paths_not_decided"] = s.EndMsgs
		}
		reports = append(reports, rep)
		for i, sc := range s.Samples {
			if i < 2 {
				samples = append(samples, sc)
			}
		}
		if o.verbose {
			fmt.Printf("%-34s paths=%d ends=%v steps=%d trans=%d dec=%d merged=%d q=%d hits=%d solver=%.1fs wall=%.1fs unk=%d viol=%d native=%d reached=%v\n", h.fn, s.Paths, s.Ends, s.Steps, s.Trans, s.Decisions, s.Merges, s.Queries, s.CacheHits, s.SolverTime.Seconds(), s.Wall.Seconds(), s.Unknown, len(s.Violations), nv, s.Reached)
			for m, n := range s.EndMsgs {
				fmt.Printf("    %d × %s\n", n, m)
			}
			if s.Incomplete != "" {
				fmt.Println("    incomplete:", s.Incomplete)
			}
			var ids []string
			for id := range s.Asserts {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			for _, id := range ids {
				a := s.Asserts[id]
				fmt.Printf("    assert %-40s checked=%d simp=%d unsat=%d failed=%d unk=%d\n", id, a.Checked, a.ByTerm, a.ByQuery, a.Failed, a.Undecided)
			}
		}
	}

	modFuncs := []string{}
	otherFuncs := 0
	for f := range funcs {
		if strings.Contains(f, "/internal/zzverif/") {
			continue
		}
		if strings.Contains(f, engine.ModPath) {
			modFuncs = append(modFuncs, strings.ReplaceAll(f, engine.ModPath+"/", ""))
		} else {
			otherFuncs++
		}
	}
	sort.Strings(modFuncs)
	cov := map[string]interface{}{
		"states": int(decisions) + paths, "transitions": int(steps), "traces_validated_against_impl": validated,
		"samples": samples, "exhaustive": len(incompl) == 0,
		"functions_encoded": modFuncs, "library_functions_encoded": otherFuncs, "stubs_used": stubs,
		"harnesses": reports, "paths": paths, "assertions_reached": obs, "assertions_decided": decided,
		"schedule_transitions": trans,
		"solver_queries":       queries, "query_cache_hits": hits, "solver_time_s": round(solverT.Seconds()), "second_solver_cross_checks": cross, "solver_unknown": unknowns,
		"solvers": "z3 (z3-new), cvc5 for cross-checks and unknowns", "outside_the_bounds": c.outside,
		"encoding": "go/ssa of /repo's working tree, rebuilt on this run; states = symbolic decision points + path ends, transitions = SSA instructions executed",
	}
	if len(incompl) > 0 {
		cov["not_decided"] = incompl
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	if f := prog.InitFailures(); len(f) > 0 {
		cov["package_initialisers_cut_short"] = f
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": o.tier, "seed": o.seed, "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{"the Go compiler and runtime implement the SSA semantics of golang.org/x/tools/go/ssa that the engine executes; the models listed in DESIGN.md (files, mmap, sync, fmt, flags) behave as the real ones"}, c.assume...),
		"wall_s":      round(time.Since(start).Seconds()), "violations": nviol,
	}
	if o.only == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
		if err := os.WriteFile(filepath.Join(verifDir, "evidence", c.id+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for _, l := range violLines {
		fmt.Println(l)
	}
	for _, l := range problems {
		fmt.Fprintln(os.Stderr, "PROBLEM:", l)
	}
	if o.verbose {
		for _, n := range notes {
			fmt.Println("note:", n)
		}
	}
	fmt.Printf("%s %s: %d paths, %d assertions decided, %d queries (%.1fs solver), %d traces replayed on the real build, %.1fs\n", c.id, o.tier, paths, decided, queries, solverT.Seconds(), validated, time.Since(start).Seconds())
	for _, n := range incompl {
		fmt.Println("  not decided:", n)
	}
	if nviol > 0 {
		return 1
	}
	if decided == 0 {
		fmt.Fprintln(os.Stderr, "nothing was decided")
		return 2
	}
	if len(problems) > 0 {
		return 2
	}
	return 0
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func assertSummary(s *engine.Search) map[string]interface{} {
	m := map[string]interface{}{}
	for k, a := range s.Asserts {
		m[k] = map[string]int{"reached": a.Checked, "by_simplification": a.ByTerm, "by_unsat": a.ByQuery, "failed": a.Failed, "undecided": a.Undecided}
	}
	return m
}

func writeReplay(d replayDoc, n int) string {
	rd := filepath.Join(verifDir, "replay")
	os.MkdirAll(rd, 0755)
	f := filepath.Join(rd, fmt.Sprintf("%s-%d.json", d.Property, n))
	b, _ := json.MarshalIndent(d, "", " ")
	os.WriteFile(f, append(b, '\n'), 0644)
	return f
}

// replayFile runs a recorded counterexample on the real build again.
func replayFile(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var d replayDoc
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	var prog *engine.Program
	if d.Gated {
		if prog, err = loadProg([]string{d.Pkg}, d.Cmds); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if err := nativeBuild(dir, []string{d.Pkg}, d.Cmds, prog, memSites(d.Case)); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tries := 1
	if d.Sched {
		tries = 25
	}
	for i := 0; i < tries; i++ {
		r := nativeRun(dir, d.Pkg, d.Case, 60*time.Second, d.Gated)
		fmt.Printf("%s %s\n%s\n", r.Status, r.Msg, r.text)
		if reproduces(d.Case, r) {
			fmt.Printf("VIOLATION property=%s replay=%s\n", d.Property, f)
			return 1
		}
	}
	return 0
}

// known findings: lines "known: property=ID harness=FN assert=TEXT :: description".
type knownList []struct{ prop, harness, assert, desc string }

func readKnown() (knownList, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "KNOWN_FINDINGS.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var l knownList
	for _, ln := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(ln, "known: ") {
			continue
		}
		k := struct{ prop, harness, assert, desc string }{}
		hd, ds, _ := strings.Cut(strings.TrimPrefix(ln, "known: "), " :: ")
		k.desc = ds
		for _, f := range strings.Fields(hd) {
			a, b, _ := strings.Cut(f, "=")
			switch a {
			case "property":
				k.prop = b
			case "harness":
				k.harness = b
			case "assert":
				k.assert = b
			}
		}
		l = append(l, k)
	}
	return l, nil
}

func (l knownList) match(d replayDoc) string {
	for _, k := range l {
		if k.prop == d.Property && k.harness == d.Case.Harness && k.assert != "" && strings.HasPrefix(d.Case.Msg, k.assert) {
			return k.desc
		}
	}
	return ""
}

func loadProg(pkgs, cmds []string) (*engine.Program, error) {
	ov, err := overlayFor(pkgs, false)
	if err != nil {
		return nil, err
	}
	pats := []string{"runtime"}
	for _, pk := range pkgs {
		pats = append(pats, "./internal/zzverif/"+pk)
	}
	for _, cm := range cmds {
		pats = append(pats, "./cmd/"+cm)
	}
	return engine.Load(repoDir, ov, pats)
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// memSites is the lines with memory accesses that a case's schedule orders.
func memSites(c engine.Case) map[string]bool {
	m := map[string]bool{}
	for _, e := range c.Events {
		if e.Kind == "mem" {
			m[e.Site] = true
		}
	}
	return m
}
