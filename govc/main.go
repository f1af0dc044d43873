package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type FnResult struct {
	Name        string   `json:"name"`
	Status      string   `json:"status"` // verified, failed, unsupported, missing, vacuous
	Reason      string   `json:"reason,omitempty"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Invariants  int      `json:"invariant_checks"`
	Paths       int      `json:"paths"`
	Returns     int      `json:"returns"`
	Inlined     []string `json:"inlined,omitempty"`
	Used        []string `json:"used,omitempty"`
	Notes       []string `json:"notes,omitempty"`
	Failed      []Failed `json:"failed,omitempty"`
	Dropped     []string `json:"dropped_invariants,omitempty"`
	ExecS       float64  `json:"exec_s"`

	obls []*Obl
	c    *Contract
	log  []string
	used map[string]bool
}

type Failed struct {
	ID     string   `json:"id"`
	Kind   string   `json:"kind"`
	Desc   string   `json:"desc"`
	Pos    string   `json:"pos"`
	Trace  []string `json:"trace"`
	Status string   `json:"solver_status"`
	Solver string   `json:"solver"`
	Goal   string   `json:"goal"`
	Model  string   `json:"model,omitempty"`
	Query  string   `json:"query,omitempty"`
}

type Report struct {
	Prop        string             `json:"property"`
	Functions   []*FnResult        `json:"functions"`
	Lemmas      int                `json:"lemmas"`
	LemmaFail   []string           `json:"lemma_failed,omitempty"`
	Obligations int                `json:"obligations"`
	Discharged  int                `json:"discharged"`
	ByBackend   map[string]int     `json:"by_backend"`
	SolverS     map[string]float64 `json:"solver_s"`
	Trivial     int                `json:"closed_by_simplification"`
	Assumptions []string           `json:"assumptions"`
	WallS       float64            `json:"wall_s"`
	Theories    []string           `json:"theories"`
}

var (
	flagRepo  = flag.String("repo", "/repo", "repository")
	flagSpecs = flag.String("contracts", "/verif/contracts", "contract files")
	flagProp  = flag.String("prop", "", "property")
	flagFn    = flag.String("fn", "", "only this function")
	flagOut   = flag.String("out", "", "result file")
	flagV     = flag.Bool("v", false, "verbose")
	flagDump  = flag.String("dump", "", "write queries of failed obligations here")
	flagBud   = flag.Float64("budget", 20, "seconds per obligation")
	flagTotal = flag.Float64("total", 420, "seconds for everything")
	flagList  = flag.Bool("list", false, "list functions")
	flagAll   = flag.Bool("dumpall", false, "dump all queries")
)

func hasTag(tags []string, p string) bool {
	for _, t := range tags {
		if t == p {
			return true
		}
	}
	return false
}

func isRootFor(c *Contract, p string) bool {
	if c.Extern {
		return false
	}
	if hasTag(c.Props, p) || hasTag(c.Safety, p) || hasTag(c.Term, p) {
		return true
	}
	for _, e := range c.Ensures {
		if hasTag(e.Tags, p) {
			return true
		}
	}
	for _, h := range c.Hooks {
		for _, a := range h.Asserts {
			if hasTag(a.Tags, p) {
				return true
			}
		}
	}
	return false
}

var runIDs int

func (r *FnResult) fail(status, reason string) {
	r.Status, r.Reason = status, reason
}

func verifyFn(p *Program, sp *Specs, c *Contract, prop string, deadline time.Time) (res *FnResult) {
	t0 := time.Now()
	name := c.Name
	if c.Variant != "" {
		name += "@" + c.Variant
	}
	res = &FnResult{Name: name, c: c, used: map[string]bool{}}
	defer func() { res.ExecS = time.Since(t0).Seconds() }()
	fn := p.fns[c.Name]
	if fn == nil {
		res.fail("missing", "no such function: "+c.Name)
		if c.Flags["optional"] {
			res.Status = "verified"
		}
		return
	}
	runIDs++
	x := &Exec{prog: p, specs: sp, prop: prop, root: fn, c: c, q: NewQuick(), initHeap: map[string]*Term{}, runID: runIDs,
		names: map[string]Val{}, used: res.used, inlined: map[string]bool{}, notes: map[string]bool{}, deadline: deadline, invKept: map[*Clause]bool{}}
	defer x.q.Close()
	defer func() {
		res.Paths, res.Returns, res.Invariants = x.paths, x.returns, x.invOK
		for k := range x.inlined {
			res.Inlined = append(res.Inlined, k)
		}
		sort.Strings(res.Inlined)
		for k := range x.used {
			res.Used = append(res.Used, k)
		}
		sort.Strings(res.Used)
		for k := range x.notes {
			res.Notes = append(res.Notes, k)
		}
		sort.Strings(res.Notes)
		res.obls = x.obls
		res.log = x.loopLog
		if e := recover(); e != nil {
			switch e := e.(type) {
			case Unsupported:
				res.fail("unsupported", e.Msg)
			case specErr:
				res.fail("unsupported", "contract does not bind: "+e.msg)
			default:
				if os.Getenv("GOVC_DEBUG") != "" {
					debug.PrintStack()
				}
				res.fail("unsupported", fmt.Sprintf("internal: %v", e))
				if *flagV {
					debug.PrintStack()
				}
			}
			return
		}
	}()
	st := &State{Heap: map[string]*Term{}, Facts: map[*Term]bool{}}
	x.top0 = Fresh("top0", SInt)
	st.assume(Lt(Zero, x.top0))
	st.Top = x.top0
	var args []Val
	if len(c.Params) != len(fn.Params) {
		panic(specErr{fmt.Sprintf("contract of %s names %d parameters, the function has %d", c.Name, len(c.Params), len(fn.Params))})
	}
	for i, pr := range fn.Params {
		v := x.freshVal(st, c.Params[i], pr.Type())
		args = append(args, v)
		x.names[c.Params[i]] = v
	}
	var binds []Val
	for _, fv := range fn.FreeVars {
		v := x.freshVal(st, fv.Name(), fv.Type())
		if _, ok := fv.Type().Underlying().(interface{ Elem() interface{} }); ok {
			_ = ok
		}
		if len(v.L) == 1 && v.L[0].Sort == SInt {
			st.assume(Lt(Zero, v.L[0]))
		}
		x.names[fv.Name()] = v
		binds = append(binds, v)
	}
	x.old = st.snap()
	e := x.env(st, x.names, x.old)
	for _, g := range c.Ghosts {
		st.Heap["g:"+g.Name] = e.term(c.GhostIni[g.Name])
	}
	x.old = st.snap()
	e = x.env(st, x.names, x.old)
	for _, r := range c.Requires {
		if x.relevant(r.Tags) {
			st.assume(e.bool(r.E))
		}
	}
	var slMods []hloc
	for _, m := range c.Modifies {
		for _, l := range x.locsOf(e, m) {
			x.mods = append(x.mods, ModLoc{Key: l.key, Ref: l.ref})
			if l.sl != nil {
				slMods = append(slMods, l)
			}
		}
	}
	for _, g := range c.Ghosts {
		x.mods = append(x.mods, ModLoc{Key: "g:" + g.Name})
	}
	x.seq0 = constSeq
	x.runFunc(st, fn, args, binds, func(s *State, rv []Val) {
		x.returns++
		x.reach = append(x.reach, s.Asserts)
		names := map[string]Val{}
		for k, v := range x.names {
			names[k] = v
		}
		for i, r := range c.Results {
			if i < len(rv) {
				names[r] = rv[i]
			}
		}
		if h := c.OnReturn; h != nil {
			ee := x.env(s, names, x.old)
			seen := map[string]bool{}
			for _, a := range h.Asserts {
				if x.relevant(a.Tags) {
					x.oblige(s, "at return", a.E.String(), fn.Pos(), a.Tags, ee.bool(a.E))
				}
			}
			for _, g := range h.Sets {
				base := ee.eval(g.Loc.Args[0])
				if seen[g.Var] || len(base.L) != 1 {
					panic(specErr{"bad assignment on return: " + g.Var})
				}
				seen[g.Var] = true
				r := base.L[0]
				if r == Zero || x.quick(s, Eq(r, Zero)) {
					continue
				}
				l := ee.eval(g.Loc).t()
				if l.Op != "app" || !strings.HasPrefix(l.Name, "gc.") {
					panic(specErr{"not a constant ghost field: " + g.Var})
				}
				// only the function that made the object fixes the attribute
				if !r.alloc || r.seq <= x.seq0 {
					x.addObl(s, "ghost attribute", g.Var+" is set for an object made here", fn.Pos(), nil, False)
					continue
				}
				s.assume(Eq(l, ee.term(g.E)))
			}
		}
		for _, en := range c.Ensures {
			if !x.relevant(en.Tags) {
				continue
			}
			ee := x.env(s, names, x.old)
			x.oblige(s, "postcondition", en.Line, fn.Pos(), en.Tags, ee.bool(en.E))
		}
		for _, l := range slMods {
			// elements outside of the slices are unchanged
			now := Select(x.hget(s.Heap, l.key, ArrSort(SInt, l.sort)), l.ref)
			was := Select(x.hget(x.old.Heap, l.key, ArrSort(SInt, l.sort)), l.ref)
			if now == was {
				continue
			}
			b := BoundVar("i", SInt)
			out := []*Term{}
			for _, m := range slMods {
				if m.key == l.key {
					out = append(out, Or(Not(Eq(m.ref, l.ref)), Lt(b, m.sl.L[1]), Le(Add(m.sl.L[1], m.sl.L[2]), b)))
				}
			}
			x.oblige(s, "frame", "only the elements of the slice change: "+l.key, fn.Pos(), nil, Forall([]*Term{b}, Implies(And(out...), Eq2(Select(now, b), Select(was, b)))))
		}
		if len(s.Locks) > 0 {
			x.oblige(s, "lock", "every lock is released on return", fn.Pos(), lockTags, False)
		}
	})
	for i := range c.Loops {
		if cl := &c.Loops[i]; cl.Kind == "inv" && x.relevant(cl.Tags) && !x.invKept[cl] {
			res.Dropped = append(res.Dropped, cl.Line)
		}
	}
	// vacuity: some path has to be satisfiable as far as the solver can tell
	if x.returns == 0 && !c.Flags["noexit"] {
		if len(x.obls) == 0 {
			res.fail("vacuous", "no path reaches a return")
		}
	} else if x.returns > 0 {
		ok := false
		n := 0
		for i := 0; i < len(x.reach) && n < 12; i++ {
			n++
			r := runSolver(ctxBG, backends["z3"], script(x.reach[i].list(), nil), 1500*time.Millisecond, false)
			if r.Status != "unsat" {
				ok = true
				break
			}
		}
		if !ok {
			res.fail("vacuous", "the assumptions of every path are contradictory")
		}
	}
	return
}

func main() {
	flag.Parse()
	t0 := time.Now()
	sp := loadSpecs(*flagSpecs)
	p, err := loadProgram(*flagRepo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(3)
	}
	if *flagList {
		var ns []string
		for n := range p.fns {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		fmt.Println(strings.Join(ns, "\n"))
		return
	}
	total := time.Now().Add(time.Duration(*flagTotal * float64(time.Second)))
	prop := *flagProp
	rep := &Report{Prop: prop, ByBackend: map[string]int{}, SolverS: map[string]float64{}}
	done := map[*Contract]bool{}
	var work []*Contract
	for _, c := range sp.Order {
		if *flagFn != "" {
			n := c.Name
			if c.Variant != "" {
				n += "@" + c.Variant
			}
			if n == *flagFn && !c.Extern {
				work = append(work, c)
			}
			continue
		}
		if isRootFor(c, prop) || prop == "" && !c.Extern {
			work = append(work, c)
		}
	}
	sp.bindGuards(p)
	var touch []string
	var callers map[string][]string
	covered := map[string]bool{}
	if prop == lockTags[0] && *flagFn == "" {
		touch, callers = lockWork(p, sp)
		for _, n := range touch {
			work = append(work, contractsAbove(sp, callers, n)...)
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	failures := 0
	assume := map[string]bool{}
	auto := map[string]bool{}
	next := func() {
		// guarded state touched outside of what was verified so far
		for _, n := range touch {
			if !covered[n] && !auto[n] {
				auto[n] = true
				work = append(work, autoContract(p, n))
				return
			}
		}
	}
	for {
		if len(work) == 0 {
			next()
		}
		if len(work) == 0 {
			break
		}
		c := work[0]
		work = work[1:]
		if done[c] {
			continue
		}
		done[c] = true
		dl := time.Now().Add(150 * time.Second)
		if dl.After(total) {
			dl = total
		}
		r := verifyFn(p, sp, c, prop, dl)
		covered[c.Name] = true
		for _, n := range r.Inlined {
			covered[n] = true
		}
		if auto[c.Name] {
			r.Name += " (locks only)"
			var ls []*Obl
			bad := false
			for _, o := range r.obls {
				if o.Kind == "lock" {
					ls = append(ls, o)
					bad = bad || !o.Triv
				}
			}
			r.obls = ls
			if bad && !exportedName(c.Name) && len(callers[c.Name]) > 0 {
				// the lock may be the business of its callers
				wasBad := false
				for _, o := range ls {
					if !o.Triv && prove(script(o.Facts.list(), o.Goal), 5*time.Second).Status != "unsat" {
						wasBad = true
					}
				}
				if wasBad {
					for _, n := range callers[c.Name] {
						if !auto[n] {
							auto[n] = true
							if sp.find(n) == nil {
								work = append(work, autoContract(p, n))
							}
						}
					}
					continue
				}
			}
		}
		rep.Functions = append(rep.Functions, r)
		for u := range r.used {
			if strings.HasPrefix(u, "contract: ") {
				if *flagFn == "" {
					if d := sp.find(strings.TrimPrefix(u, "contract: ")); d != nil && !d.Extern {
						work = append(work, d)
					}
				}
			} else {
				assume[u] = true
			}
		}
		for _, n := range r.Notes {
			assume[n] = true
		}
		// discharge
		byQuery := map[string][]*Obl{}
		var order []string
		for _, o := range r.obls {
			if o.Triv {
				o.Res = Result{Status: "unsat", Solver: "simplifier"}
				continue
			}
			s := script(o.Facts.list(), o.Goal)
			if _, ok := byQuery[s]; !ok {
				order = append(order, s)
			}
			byQuery[s] = append(byQuery[s], o)
		}
		for _, s := range order {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mu.Lock()
				bud := *flagBud
				if failures > 4 {
					bud = 4
				}
				if time.Now().After(total) {
					bud = 1
				}
				mu.Unlock()
				res := prove(s, time.Duration(bud*float64(time.Second)))
				if os.Getenv("GOVC_SLOW") != "" && (res.Solver != "z3" || res.Time > 1500*time.Millisecond) {
					o := byQuery[s][0]
					fmt.Fprintf(os.Stderr, "SLOW %s %s %.1fs %.300s\n", res.Status, res.Solver, res.Time.Seconds(), o.Goal)
				}
				mu.Lock()
				defer mu.Unlock()
				if res.Status != "unsat" {
					failures++
				}
				for _, o := range byQuery[s] {
					o.Res = res
				}
			}()
		}
	}
	// lemmas
	for _, l := range sp.Lemmas {
		if *flagFn != "" || prop != "" && len(l.Tags) > 0 && !hasTag(l.Tags, prop) {
			continue
		}
		rep.Lemmas++
		x := &Exec{prog: p, specs: sp, initHeap: map[string]*Term{}, used: map[string]bool{}, notes: map[string]bool{}}
		st := &State{Heap: map[string]*Term{}, Facts: map[*Term]bool{}, Top: Zero}
		nm := map[string]Val{}
		for _, v := range l.Vars {
			nm[v.Name] = tv(Fresh(v.Name, fixSort(v.Sort)))
		}
		e := &SpecEnv{x: x, st: st, heap: st.Heap, top: Zero, names: nm, noFacts: true}
		for _, f := range l.Facts {
			st.assume(e.bool(f))
		}
		s := script(st.Asserts.list(), e.bool(l.Goal))
		rep.Obligations++
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := prove(s, time.Duration(*flagBud*float64(time.Second)))
			mu.Lock()
			defer mu.Unlock()
			rep.SolverS[r.Solver] += r.Time.Seconds()
			if r.Status == "unsat" {
				rep.Discharged++
				rep.ByBackend[r.Solver]++
			} else {
				rep.LemmaFail = append(rep.LemmaFail, l.Name)
				if *flagDump != "" {
					os.WriteFile(*flagDump+"/lemma_"+l.Name+".smt2", []byte(s), 0644)
				}
			}
		}()
	}
	wg.Wait()
	nq := 0
	for _, r := range rep.Functions {
		for _, o := range r.obls {
			r.Obligations++
			if o.Triv {
				rep.Trivial++
			} else {
				rep.SolverS[o.Res.Solver] += o.Res.Time.Seconds()
			}
			if o.Res.Status == "unsat" {
				r.Discharged++
				rep.ByBackend[o.Res.Solver]++
				if !*flagAll {
					continue
				}
			}
			f := Failed{ID: o.ID(), Kind: o.Kind, Desc: o.Desc, Pos: o.Pos, Trace: o.Trace, Status: o.Res.Status, Solver: o.Res.Solver, Goal: o.Goal.String()}
			if len(f.Goal) > 4000 {
				f.Goal = f.Goal[:4000] + "..."
			}
			if *flagDump != "" && (nq < 40 || *flagAll) {
				nq++
				os.MkdirAll(*flagDump, 0755)
				f.Query = filepath.Join(*flagDump, fmt.Sprintf("q%03d.smt2", nq))
				os.WriteFile(f.Query, []byte("; "+o.ID()+"\n; "+o.Pos+"\n; path: "+strings.Join(o.Trace, ", ")+"\n(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n"+script(o.Facts.list(), o.Goal)+"(check-sat)\n"), 0644)
			}
			if o.Res.Status != "unsat" {
				r.Failed = append(r.Failed, f)
			}
		}
		if r.Status == "" {
			r.Status = "verified"
			if len(r.Failed) > 0 {
				r.Status = "failed"
			}
		} else if r.Status == "unsupported" && len(r.Failed) > 0 {
			// obligations met before the unsupported construct failed
		}
		rep.Obligations += r.Obligations
		rep.Discharged += r.Discharged
		if *flagV || *flagOut == "" {
			fmt.Printf("%-50s %-11s %4d/%-4d inv %d paths %d returns %d %.1fs %s\n", r.Name, r.Status, r.Discharged, r.Obligations, r.Invariants, r.Paths, r.Returns, r.ExecS, r.Reason)
			if *flagV {
				for _, l := range r.log {
					fmt.Println("    ", l)
				}
				for _, d := range r.Dropped {
					fmt.Println("     dropped invariant:", d)
				}
				for _, u := range r.Used {
					fmt.Println("     uses", u)
				}
				fmt.Println("     inlined", r.Inlined)
			}
			for i, f := range r.Failed {
				if i >= 12 {
					fmt.Println("     ...")
					break
				}
				g := f.Goal
				if len(g) > 300 {
					g = g[:300] + "..."
				}
				fmt.Printf("   FAILED %s [%s] %s\n          at %s  path %v\n          goal %s  %s\n", f.Kind, f.Status, f.Desc, f.Pos, f.Trace, g, f.Query)
			}
		}
	}
	for a := range assume {
		rep.Assumptions = append(rep.Assumptions, a)
	}
	sort.Strings(rep.Assumptions)
	for _, th := range theories {
		if th.Assumed {
			rep.Theories = append(rep.Theories, th.Name+" (assumed)")
		} else {
			rep.Theories = append(rep.Theories, th.Name)
		}
	}
	rep.WallS = time.Since(t0).Seconds()
	if *flagOut != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*flagOut, b, 0644)
	}
	fmt.Printf("obligations %d discharged %d lemmas %d failed lemmas %v wall %.1fs backends %v\n", rep.Obligations, rep.Discharged, rep.Lemmas, rep.LemmaFail, rep.WallS, rep.ByBackend)
	bad := len(rep.LemmaFail) > 0
	for _, r := range rep.Functions {
		bad = bad || r.Status != "verified"
	}
	if bad {
		os.Exit(1)
	}
}
