package main

// Solver back ends: an incremental z3 for path feasibility (quantifier free
// facts only) and stand-alone scripts for obligations.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type Assert struct {
	T      *Term
	Parent *Assert
	Depth  int
}

func (a *Assert) list() []*Term {
	var out []*Term
	for x := a; x != nil; x = x.Parent {
		out = append(out, x.T)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---- declarations ----

// declsOf returns the declarations needed by the terms, given those done.
func declsOf(ts []*Term, done map[string]bool, out *[]string) (used map[string]bool) {
	seen := map[*Term]bool{}
	used = map[string]bool{}
	for _, t := range ts {
		collect(t, seen, func(x *Term) {
			switch x.Op {
			case "const":
				if !done[x.Name] {
					done[x.Name] = true
					*out = append(*out, fmt.Sprintf("(declare-fun %s () %s)", quoteSym(x.Name), x.Sort))
				}
			case "str":
				n := fmt.Sprintf("lit_%d", litIndex(x.Name))
				if !done[n] {
					done[n] = true
					*out = append(*out, fmt.Sprintf("(declare-fun %s () Str)", n))
				}
				used[n] = true
			case "app":
				used[x.Name] = true
				if x.Name == "to_real" || x.Name == "to_int" {
					return
				}
				if th := theoryOf[x.Name]; th == nil && !done["f:"+x.Name] {
					done["f:"+x.Name] = true
					var as []string
					for _, a := range x.Args {
						as = append(as, a.Sort)
					}
					*out = append(*out, fmt.Sprintf("(declare-fun %s (%s) %s)", quoteSym(x.Name), strings.Join(as, " "), x.Sort))
				}
			}
		})
	}
	return used
}

// ---- incremental quick solver ----

type Quick struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	row    int // unknown answers in a row
	stack  []*Assert
	done   map[string]bool
	levels []level
	N      int
	Time   time.Duration
}

var qdebug = os.Getenv("GOVC_Q") != ""

func NewQuick() *Quick {
	q := &Quick{done: map[string]bool{}}
	q.start()
	return q
}

func (q *Quick) start() {
	q.cmd = exec.Command("z3", "-in", "-smt2")
	in, err := q.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := q.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := q.cmd.Start(); err != nil {
		panic(err)
	}
	q.in, q.out = in, bufio.NewReader(o)
	q.done = map[string]bool{}
	q.stack = nil
	q.levels = nil
	fmt.Fprintln(q.in, "(set-option :global-declarations true)\n(set-option :timeout 400)\n(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)")
	fmt.Fprintln(q.in, "(declare-sort Str 0)")
	for _, th := range theories {
		for _, d := range th.Decls {
			fmt.Fprintln(q.in, d)
		}
	}
}

func (q *Quick) Close() {
	if q.cmd != nil {
		q.in.Close()
		q.cmd.Process.Kill()
		q.cmd.Wait()
	}
}

// sync brings the solver's facts in line with a. Facts that came together share
// one level.
func (q *Quick) sync(a *Assert) {
	var chain []*Assert
	for x := a; x != nil; x = x.Parent {
		chain = append(chain, x)
	}
	n := len(chain)
	i := 0
	for i < len(q.stack) && i < n && q.stack[i] == chain[n-1-i] {
		i++
	}
	// drop the levels with a fact that is gone
	pops := 0
	for len(q.levels) > 0 && q.levels[len(q.levels)-1].end > i {
		q.levels = q.levels[:len(q.levels)-1]
		pops++
	}
	if pops > 0 {
		fmt.Fprintf(q.in, "(pop %d)\n", pops)
	}
	i = 0
	if len(q.levels) > 0 {
		i = q.levels[len(q.levels)-1].end
	}
	q.stack = q.stack[:i]
	if i == n {
		return
	}
	fmt.Fprintln(q.in, "(push 1)")
	for ; i < n; i++ {
		x := chain[n-1-i]
		q.stack = append(q.stack, x)
		if !x.T.quant && !x.T.nl {
			q.assert(x.T)
		}
	}
	q.levels = append(q.levels, level{n})
}

type level struct{ end int }

func (q *Quick) declare(t *Term) {
	var ds []string
	declsOf([]*Term{t}, q.done, &ds)
	for _, d := range ds {
		fmt.Fprintln(q.in, d)
	}
}

func (q *Quick) assert(t *Term) {
	q.declare(t)
	fmt.Fprintf(q.in, "(assert %s)\n", printShared(t))
}

// check says whether the facts of a together with t are satisfiable:
// "sat", "unsat" or "unknown".
func (q *Quick) check(a *Assert, t *Term) string {
	if t == False {
		return "unsat"
	}
	t0 := time.Now()
	defer func() { q.Time += time.Since(t0) }()
	q.N++
	q.sync(a)
	fmt.Fprintln(q.in, "(push 1)")
	if !t.quant {
		q.assert(t)
	}
	fmt.Fprintln(q.in, "(check-sat)")
	fmt.Fprintln(q.in, "(pop 1)")
	// the solver does not always keep to its timeout
	proc := q.cmd.Process
	dog := time.AfterFunc(8*time.Second, func() { proc.Kill() })
	defer dog.Stop()
	for {
		line, err := q.out.ReadString('\n')
		if err != nil {
			q.Close()
			q.start()
			return "unknown"
		}
		line = strings.TrimSpace(line)
		switch line {
		case "sat", "unsat", "unknown", "timeout":
			if qdebug {
				fmt.Fprintf(os.Stderr, "Q %s %.0fms %.200s\n", line, time.Since(t0).Seconds()*1000, t)
			}
			// after a row of timeouts try less hard
			if line == "sat" || line == "unsat" {
				if q.row >= 12 {
					fmt.Fprintln(q.in, "(set-option :timeout 400)")
				}
				q.row = 0
			} else if q.row++; q.row == 12 {
				fmt.Fprintln(q.in, "(set-option :timeout 100)")
			}
			return line
		}
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "z3 quick:", line, "\n  ", t)
		}
	}
}

// printShared prints a term, sharing repeated subterms with let.
func printShared(t *Term) string {
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(*Term, bool)
	walk = func(x *Term, inq bool) {
		cnt[x]++
		if cnt[x] > 1 {
			return
		}
		if x.Op == "forall" || x.Op == "exists" {
			return // printed in place
		}
		for _, a := range x.Args {
			walk(a, inq)
		}
		order = append(order, x)
	}
	walk(t, false)
	names := map[*Term]string{}
	var lets []string
	size := map[*Term]int{}
	var sz func(*Term) int
	sz = func(x *Term) int {
		if s, ok := size[x]; ok {
			return s
		}
		s := 1
		for _, a := range x.Args {
			s += sz(a)
		}
		size[x] = s
		return s
	}
	var pr func(x *Term, sb *strings.Builder)
	pr = func(x *Term, sb *strings.Builder) {
		if n, ok := names[x]; ok {
			sb.WriteString(n)
			return
		}
		switch x.Op {
		case "forall", "exists", "int", "true", "false", "const", "bound", "str", "real":
			x.print(sb)
			return
		case "constarr":
			fmt.Fprintf(sb, "((as const %s) ", x.Sort)
			pr(x.Args[0], sb)
			sb.WriteByte(')')
			return
		}
		if len(x.Args) == 0 {
			x.print(sb)
			return
		}
		op := x.Op
		if op == "app" {
			op = quoteSym(x.Name)
		}
		switch op {
		case "r+", "r-", "r*", "r/":
			op = op[1:]
		}
		sb.WriteByte('(')
		sb.WriteString(op)
		for _, a := range x.Args {
			sb.WriteByte(' ')
			pr(a, sb)
		}
		sb.WriteByte(')')
	}
	for _, x := range order {
		if cnt[x] > 1 && sz(x) > 4 {
			var sb strings.Builder
			pr(x, &sb)
			n := fmt.Sprintf("$l%d", len(lets))
			lets = append(lets, fmt.Sprintf("(let ((%s %s)) ", n, sb.String()))
			names[x] = n
		}
	}
	var sb strings.Builder
	for _, l := range lets {
		sb.WriteString(l)
	}
	pr(t, &sb)
	sb.WriteString(strings.Repeat(")", len(lets)))
	return sb.String()
}

// ---- obligations ----

type Theory struct {
	Name    string
	Decls   []string
	Axioms  []string
	Syms    []string
	Uses    map[string]bool // all symbols mentioned
	Assumed bool
	When    []string
}

var (
	theories []*Theory
	theoryOf = map[string]*Theory{}
	funSort  = map[string][]string{} // argument sorts..., result sort
)

// script builds the query: facts and not goal.
func script(facts []*Term, goal *Term) string {
	done := map[string]bool{}
	var decls []string
	all := append([]*Term{}, facts...)
	if goal != nil {
		all = append(all, goal)
	}
	used := declsOf(all, done, &decls)
	// theories by closure
	inc := map[*Theory]bool{}
	for ch := true; ch; {
		ch = false
		for _, th := range theories {
			if inc[th] {
				continue
			}
			syms := th.Syms
			if len(th.When) > 0 {
				all := true
				for _, s := range th.When {
					all = all && used[s]
				}
				if !all {
					continue
				}
				syms = th.When[:1]
			}
			for _, s := range syms {
				if used[s] {
					inc[th] = true
					ch = true
					for u := range th.Uses {
						used[u] = true
					}
					break
				}
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("(declare-sort Str 0)\n")
	for _, th := range theories {
		if inc[th] {
			for _, d := range th.Decls {
				sb.WriteString(d)
				sb.WriteByte('\n')
			}
		}
	}
	for _, d := range decls {
		sb.WriteString(d)
		sb.WriteByte('\n')
	}
	// string literals
	var lits []string
	for u := range used {
		if strings.HasPrefix(u, "lit_") {
			lits = append(lits, u)
		}
	}
	sort.Strings(lits)
	for _, u := range lits {
		if !done[u] {
			fmt.Fprintf(&sb, "(declare-fun %s () Str)\n", u)
		}
	}
	for _, th := range theories {
		if inc[th] {
			for _, a := range th.Axioms {
				sb.WriteString(a)
				sb.WriteByte('\n')
			}
		}
	}
	for _, u := range lits {
		var i int
		fmt.Sscanf(u, "lit_%d", &i)
		s := litList[i]
		if inc[theoryOf["slen"]] {
			fmt.Fprintf(&sb, "(assert (= (slen %s) %d))\n", u, len(s))
			if len(s) <= 80 {
				for k := 0; k < len(s); k++ {
					fmt.Fprintf(&sb, "(assert (= (sat %s %d) %d))\n", u, k, s[k])
				}
			}
		}
	}
	for _, f := range facts {
		fmt.Fprintf(&sb, "(assert %s)\n", printShared(f))
	}
	if goal != nil {
		for _, h := range congruences(goal) {
			fmt.Fprintf(&sb, "(assert %s)\n", printShared(h))
		}
		fmt.Fprintf(&sb, "(assert (not %s))\n", printShared(goal))
	}
	return sb.String()
}

// congruences are instances of congruence for the strings compared in t: equal
// arguments give equal results. They hold in every model (streq is equality);
// said out loud they bring up the comparisons of the arguments, which only then
// are decided character by character.
func congruences(t *Term) (out []*Term) {
	seen := map[*Term]bool{}
	var pair func(a, b *Term, depth int)
	pair = func(a, b *Term, depth int) {
		if a == b || depth == 0 || a.Op != "app" || b.Op != "app" || a.Name != b.Name || len(a.Args) != len(b.Args) || a.Name == "mkstr" {
			return
		}
		cs := []*Term{}
		for i, x := range a.Args {
			y := b.Args[i]
			if x.Sort != y.Sort {
				return
			}
			if x != y {
				cs = append(cs, Eq(x, y))
			}
		}
		eq := mk(&Term{Op: "=", Sort: SBool, Args: []*Term{a, b}})
		out = append(out, Or(Not(And(cs...)), eq))
		for i, x := range a.Args {
			if x.Sort == SStr {
				pair(x, b.Args[i], depth-1)
			}
		}
	}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || len(out) > 20 {
			return
		}
		seen[x] = true
		if x.Op == "forall" || x.Op == "exists" {
			return
		}
		if x.Op == "app" && x.Name == "streq" {
			pair(x.Args[0], x.Args[1], 3)
		}
		for _, a := range x.Args {
			walk(a)
		}
	}
	walk(t)
	return
}

type Result struct {
	Status string // unsat, sat, unknown
	Solver string
	Time   time.Duration
	Model  string
}

type backend struct {
	name string
	args []string
	pre  string
}

var backends = map[string]backend{
	"z3":     {"z3", []string{"z3", "-smt2", "-in"}, "(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n"},
	"z3n":    {"z3-new", []string{"z3-new", "-smt2", "-in"}, "(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n"},
	"z3m":    {"z3-mbqi", []string{"z3-new", "-smt2", "-in"}, ""},
	"z3nl":   {"z3-new-nl6", []string{"z3-new", "-smt2", "-in"}, "(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n(set-option :smt.arith.solver 6)\n(set-option :smt.random_seed 7)\n"},
	"z3s":    {"z3-seed", []string{"z3", "-smt2", "-in"}, "(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n(set-option :smt.arith.solver 2)\n(set-option :smt.random_seed 3)\n"},
	"cvc5":   {"cvc5", []string{"cvc5", "--lang=smt2", "--incremental"}, "(set-logic ALL)\n"},
	"cvc5fs": {"cvc5", []string{"cvc5", "--lang=smt2", "--incremental", "--full-saturate-quant"}, "(set-logic ALL)\n"},
}

func runSolver(ctx context.Context, b backend, sc string, timeout time.Duration, model bool) Result {
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(ctx, timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, b.args[0], b.args[1:]...)
	q := b.pre + sc + "(check-sat)\n"
	if model {
		if strings.HasPrefix(b.name, "z3") {
			q = "(set-option :model.completion true)\n" + q
		} else {
			q = "(set-option :produce-models true)\n" + q
		}
		q += "(get-model)\n"
	}
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Run()
	r := Result{Status: "unknown", Solver: b.name, Time: time.Since(t0)}
	s := out.String()
	first, rest, _ := strings.Cut(s, "\n")
	switch strings.TrimSpace(first) {
	case "unsat":
		r.Status = "unsat"
	case "sat":
		r.Status = "sat"
		r.Model = rest
	case "unknown":
		r.Model = rest
	default:
		if strings.Contains(s, "error") {
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, b.name, "error:", first)
				os.WriteFile("/tmp/govc_err.smt2", []byte(q), 0644)
			}
			r.Model = s
		}
	}
	return r
}

var ctxBG = context.Background()

var solverSem = make(chan struct{}, 8)

var queryCache sync.Map

// prove tries the back ends in turn.
func prove(sc string, budget time.Duration) Result {
	if r, ok := queryCache.Load(sc); ok {
		return r.(Result)
	}
	solverSem <- struct{}{}
	r := runSolver(context.Background(), backends["z3"], sc, budget/4, false)
	<-solverSem
	if r.Status == "unsat" {
		queryCache.Store(sc, r)
		return r
	}
	// portfolio
	names := []string{"z3n", "cvc5", "z3nl", "z3s", "cvc5fs", "z3m"}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan Result, len(names))
	for _, n := range names {
		go func() {
			solverSem <- struct{}{}
			defer func() { <-solverSem }()
			if ctx.Err() != nil {
				ch <- Result{Status: "unknown"}
				return
			}
			ch <- runSolver(ctx, backends[n], sc, budget, false)
		}()
	}
	best := r
	for range names {
		x := <-ch
		if x.Status == "unsat" {
			queryCache.Store(sc, x)
			return x
		}
		if x.Status == "sat" && best.Status != "sat" {
			best = x
		}
	}
	queryCache.Store(sc, best)
	return best
}

// proveQuick is one short attempt with z3 (used for invariant inference).
func proveQuick(sc string, timeout time.Duration) bool {
	if r, ok := queryCache.Load(sc); ok && r.(Result).Status == "unsat" {
		return true
	}
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	r := runSolver(context.Background(), backends["z3"], sc, timeout, false)
	if r.Status == "unsat" {
		queryCache.Store(sc, r)
	} else if r.Time < timeout/2 {
		// nothing left to instantiate
		saturated.Store(sc, true)
	}
	return r.Status == "unsat"
}

var saturated sync.Map

// retryBudget is the time another attempt at sc is worth.
func retryBudget(sc string) time.Duration {
	if _, ok := saturated.Load(sc); ok {
		return 3 * time.Second
	}
	return 10 * time.Second
}
