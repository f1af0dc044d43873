package main

// Loops: the memory a loop changes is found by executing its body, invariants
// are the ones of the contract plus templates, kept only if inductive.

import (
	"fmt"
	"go/types"
	"os"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type LoopCtx struct {
	info   *LoopInfo
	onBack func(st *State, from *ssa.BasicBlock)
	onExit func(st *State) bool
}

type cand struct {
	desc string
	src  *Clause
	f    func(st *State) *Term
	dead bool
}

type modInfo struct {
	refs map[*Term]bool // loop-invariant references written
	gen  bool           // written through other references
	all  bool           // scalar
}

func (x *Exec) loop(st *State, from *ssa.BasicBlock, li *LoopInfo, k Cont) {
	x.phis(st, from, li.header)
	fr := st.frame()
	if x.c != nil && x.c.Unroll > 0 {
		x.unrollLoop(st, li, k, 0)
		return
	}
	var phis []*ssa.Phi
	for _, in := range li.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	entry := map[*ssa.Phi]Val{}
	for _, p := range phis {
		entry[p] = fr.Env[p]
	}
	topE := x.name(st, "topE", st.Top)
	seqE := constSeq
	entrySt := st.clone()
	entrySnap := st.snap()
	depth := len(st.Frames)

	mods := map[string]*modInfo{}
	lockChange := false

	// head builds the state at the loop head for an arbitrary iteration
	head := func() *State {
		s := entrySt.clone()
		f := s.frame()
		nt := Fresh("topL", SInt)
		s.assume(Le(topE, nt))
		s.Top = nt
		var keys []string
		for key := range mods {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		for _, key := range keys {
			m := mods[key]
			// the writes of the iterations so far count for the loops around
			if m.all {
				if old, ok := s.Heap[key]; ok {
					x.hset(s, key, nil, Fresh("L."+key, old.Sort))
				} else if old, ok := x.initHeap[key]; ok {
					x.hset(s, key, nil, Fresh("L."+key, old.Sort))
				}
				continue
			}
			var old *Term
			if t, ok := s.Heap[key]; ok {
				old = t
			} else if t, ok := x.initHeap[key]; ok {
				old = t
			} else {
				continue
			}
			el := arrayElem(old.Sort)
			if !m.gen {
				nv := old
				for _, r := range sortedTerms(m.refs) {
					hv := Fresh("hv", el)
					x.leafFacts(s, key, hv)
					nv = Store(nv, r, hv)
				}
				h := x.name(s, "L."+key, nv)
				for _, r := range sortedTerms(m.refs) {
					x.hset(s, key, r, h)
				}
				continue
			}
			h := Fresh("L."+key, old.Sort)
			for _, r := range sortedTerms(m.refs) {
				x.hset(s, key, r, h)
			}
			x.hset(s, key, Fresh("anyref", SInt), h)
		}
		for _, p := range phis {
			e := entry[p]
			if len(e.L) == 0 || e.Loc != nil {
				same := true
				for _, ed := range p.Edges {
					if v, ok := f.Env[ed]; !ok || v.Loc != e.Loc {
						if ed != ssa.Value(p) {
							same = false
						}
					}
				}
				if !same {
					unsupported("loop variable %s of type %v", p.Comment, p.Type())
				}
				continue
			}
			f.Env[p] = x.freshVal(s, "L."+p.Comment, p.Type())
		}
		return s
	}

	exec := func(s *State, onBack func(*State), exitk func(*State) bool, kk Cont) {
		f := s.frame()
		f.Loops = append(f.Loops, &LoopCtx{info: li, onBack: func(b *State, from *ssa.BasicBlock) {
			x.phis(b, from, li.header)
			onBack(b)
		}, onExit: exitk})
		x.instrs(s, li.header, 0, kk)
	}
	dryK := func(*State, []Val) {}
	dryExit := func(*State) bool { return false }

	// modified memory, to a fixpoint
	x.dry++
	for round := 0; ; round++ {
		if round > 8 {
			unsupported("loop footprint does not stabilise")
		}
		ch := false
		s := head()
		mark := s.Writes
		exec(s, func(b *State) {
			if len(b.Locks) != len(entrySt.Locks) {
				unsupported("lock held across loop iterations")
			}
			if b.NLocks != entrySt.NLocks || b.NAtomic != entrySt.NAtomic {
				lockChange = true
			}
			if len(b.frame().Defers) != len(entrySt.frame().Defers) {
				unsupported("defer in a loop")
			}
			for w := b.Writes; w != mark && w != nil; w = w.Parent {
				if strings.HasPrefix(w.Key, "it:") {
					if _, ok := entrySt.Heap[w.Key]; !ok {
						continue
					}
				}
				m := mods[w.Key]
				if m == nil {
					m = &modInfo{refs: map[*Term]bool{}}
					mods[w.Key] = m
					ch = true
				}
				switch {
				case w.Ref == nil:
					if !m.all {
						m.all = true
						ch = true
					}
				case w.Ref.seq <= seqE:
					if !m.refs[w.Ref] {
						m.refs[w.Ref] = true
						ch = true
					}
				default:
					if !m.gen {
						m.gen = true
						ch = true
					}
				}
			}
		}, dryExit, dryK)
		if !ch {
			break
		}
	}

	cands := x.loopCands(entrySt, entrySnap, li, phis, entry, mods, topE, topE)
	// on entry
	x.filter(cands, []*State{entrySt}, nil)
	cands = alive(cands)
	x.log("loop in %s (%s): %d candidates hold on entry", shortName(fr.Fn), x.pos(li), len(cands))
	for round := 0; ; round++ {
		if round > 12 {
			unsupported("loop invariants do not stabilise")
		}
		s := head()
		assumeCands(s, cands)
		var backs []*State
		exec(s, func(b *State) { backs = append(backs, b) }, dryExit, dryK)
		n := len(cands)
		x.log("  round %d: %d candidates, %d iterations", round, n, len(backs))
		x.filter(cands, backs, nil)
		cands = alive(cands)
		if len(cands) == n {
			break
		}
	}
	x.dry--
	var kept []string
	for _, c := range cands {
		kept = append(kept, c.desc)
	}
	x.log("  kept: %s", strings.Join(kept, " | "))
	if x.dry == 0 && x.c != nil {
		for i := range x.c.Loops {
			cl := &x.c.Loops[i]
			ok := false
			for _, c := range cands {
				if c.src == cl {
					ok = true
				}
			}
			if ok {
				x.invKept[cl] = true
			}
		}
	}

	// the real pass
	s := head()
	assumeCands(s, cands)
	if lockChange {
		s.NLocks += 1000
		s.NAtomic += 1000
		s.Acq, s.Rel = nil, nil
	}
	var meas []*measure
	if x.c != nil && hasTag(x.c.Term, x.prop) && x.dry == 0 {
		meas = x.measures(s, li, phis, entrySnap, entry)
	}
	nback := 0
	okMeas := map[*measure]bool{}
	for _, m := range meas {
		okMeas[m] = true
	}
	exec(s, func(b *State) {
		nback++
		if len(b.Frames) != depth {
			panic("loop frame mismatch")
		}
		for m := range okMeas {
			nv := m.f(b)
			if !x.quick(b, And(Lt(nv, m.at), Le(Zero, m.at))) && !proveQuick(script(b.Asserts.list(), And(Lt(nv, m.at), Le(Zero, m.at))), 3*time.Second) {
				delete(okMeas, m)
			}
		}
		if x.dry > 0 {
			return
		}
		for _, c := range cands {
			parts := []*Term{c.f(b)}
			if parts[0].Op == "and" {
				parts = parts[0].Args
			}
			for _, g := range parts {
				if x.quick(b, g) {
					x.invOK++
					continue
				}
				x.addObl(b, "loop invariant", c.desc, li.header.Instrs[0].Pos(), nil, g)
			}
		}
	}, func(*State) bool { return true }, k)
	if x.dry == 0 && x.c != nil && hasTag(x.c.Term, x.prop) && nback > 0 {
		if !isMapRange(li) && len(okMeas) == 0 {
			x.addObl(s, "termination", "loop has a decreasing measure", li.header.Instrs[0].Pos(), nil, False)
		} else {
			x.addObl(s, "termination", "loop has a decreasing measure", li.header.Instrs[0].Pos(), nil, True)
		}
	}
}

func isMapRange(li *LoopInfo) bool {
	for _, in := range li.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

func (x *Exec) pos(li *LoopInfo) string {
	for b := range li.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return x.prog.fset.Position(in.Pos()).String()
			}
		}
	}
	return "?"
}

var logT0 = time.Now()

func (x *Exec) log(f string, a ...any) {
	f = fmt.Sprintf("[%.1fs q=%d/%.1fs] ", time.Since(logT0).Seconds(), x.q.N, x.q.Time.Seconds()) + f
	if x.dry == 0 || debugLoops {
		x.loopLog = append(x.loopLog, fmt.Sprintf(f, a...))
	}
}

var debugLoops bool
var nCand int

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// leafFacts assumes the range of a havocked struct field.
func (x *Exec) leafFacts(st *State, key string, v *Term) {
	t := x.keyType(key)
	if t == nil || v.Sort != SInt {
		return
	}
	if lo, hi, _, _ := intRange(t); lo != nil {
		st.assume(Le(BigInt(lo), v))
		st.assume(Le(v, BigInt(hi)))
	}
}

func (x *Exec) keyType(key string) types.Type {
	if strings.HasPrefix(key, "C:") {
		if t, ok := types.Universe.Lookup(key[2:]).(*types.TypeName); ok {
			return t.Type()
		}
	}
	return nil
}

func alive(cs []*cand) []*cand {
	var out []*cand
	for _, c := range cs {
		if !c.dead {
			out = append(out, c)
		}
	}
	return out
}

func assumeCands(s *State, cs []*cand) {
	for _, c := range cs {
		s.assume(c.f(s))
	}
}

// filter drops the candidates that do not hold in one of the states.
func (x *Exec) filter(cs []*cand, sts []*State, _ any) {
	type job struct {
		c  *cand
		sc string
	}
	var jobs []job
	for _, s := range sts {
		for _, c := range cs {
			if c.dead {
				continue
			}
			g := x.tryCand(c, s)
			if g == nil {
				c.dead = true
				continue
			}
			if g == True || s.Facts[g] {
				continue
			}
			if g == False {
				c.dead = true
				continue
			}
			parts := []*Term{g}
			if g.Op == "and" {
				parts = g.Args
			}
			var left []*Term
			for _, p := range parts {
				if p == True || s.Facts[p] {
					continue
				}
				if !p.quant && x.q.check(s.Asserts, Not(p)) == "unsat" {
					continue
				}
				left = append(left, p)
			}
			if len(left) == 0 {
				continue
			}
			jobs = append(jobs, job{c, script(s.Asserts.list(), And(left...))})
		}
	}
	run := func(js []job, ok func(job) bool) {
		// the first job of every candidate, then the second, ...
		nth := map[*cand]int{}
		rank := make([]int, len(js))
		ord := make([]int, len(js))
		for i, j := range js {
			rank[i] = nth[j.c]
			nth[j.c]++
			ord[i] = i
		}
		sort.SliceStable(ord, func(a, b int) bool { return rank[ord[a]] < rank[ord[b]] })
		var wg sync.WaitGroup
		var mu sync.Mutex
		next := 0
		for range 8 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					for next < len(ord) && js[ord[next]].c.dead {
						next++
					}
					if next >= len(ord) {
						mu.Unlock()
						return
					}
					j := js[ord[next]]
					next++
					mu.Unlock()
					if !ok(j) {
						mu.Lock()
						j.c.dead = true
						mu.Unlock()
					}
				}
			}()
		}
		wg.Wait()
	}
	before := map[*cand]bool{}
	for _, c := range cs {
		if !c.dead {
			before[c] = true
		}
	}
	run(jobs, func(j job) bool {
		to := 1500 * time.Millisecond
		if j.c.src != nil {
			to = 4 * time.Second
		}
		r := proveQuick(j.sc, to)
		if d := os.Getenv("GOVC_CANDS"); d != "" && j.c.src != nil {
			nCand++
			os.WriteFile(fmt.Sprintf("%s/c%04d.smt2", d, nCand), []byte(fmt.Sprintf("; %v %s\n%s", r, j.c.desc, j.sc)), 0644)
		}
		return r
	})
	// an invariant of the contract none of whose instances is left gets more time
	left := map[*Clause]bool{}
	for _, c := range cs {
		if c.src != nil && !c.dead {
			left[c.src] = true
		}
	}
	var again []job
	for _, j := range jobs {
		if j.c.src != nil && !j.c.src.Weak && j.c.dead && before[j.c] && !left[j.c.src] {
			again = append(again, j)
		}
	}
	for _, j := range again {
		j.c.dead = false
	}
	run(again, func(j job) bool { return prove(j.sc, retryBudget(j.sc)).Status == "unsat" })
}

func (x *Exec) tryCand(c *cand, s *State) (g *Term) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				if os.Getenv("GOVC_CANDERR") != "" {
					fmt.Fprintln(os.Stderr, c.desc, ":", se.msg)
				}
				g = nil
				return
			}
			panic(r)
		}
	}()
	return c.f(s)
}

type measure struct {
	at *Term
	f  func(*State) *Term
}

func (x *Exec) measures(s *State, li *LoopInfo, phis []*ssa.Phi, entrySnap *Snap, entry map[*ssa.Phi]Val) []*measure {
	var fs []func(*State) *Term
	ints, lens := x.loopInts(s, li, phis)
	for _, p := range ints {
		fs = append(fs, func(b *State) *Term { return b.frame().Env[p].L[0] })
		for _, q := range lens {
			fs = append(fs, func(b *State) *Term { return Sub(q.f(b), b.frame().Env[p].L[0]) })
		}
	}
	for _, q := range lens {
		fs = append(fs, q.f)
	}
	var out []*measure
	for _, f := range fs {
		out = append(out, &measure{f(s), f})
	}
	for i := range x.c.Loops {
		cl := &x.c.Loops[i]
		if cl.Kind != "decreases" || !x.relevant(cl.Tags) {
			continue
		}
		x.instantiate(s, entrySnap, li, phis, entry, cl, func(c *cand) {
			at := x.tryCand(c, s)
			if at == nil {
				return
			}
			out = append(out, &measure{at, func(b *State) *Term {
				if t := x.tryCand(c, b); t != nil {
					return t
				}
				return at
			}})
		})
	}
	return out
}

type intVal struct {
	name string
	f    func(*State) *Term
}

// loopInts lists the integer loop variables and the integer values they may be
// compared with: lengths and loop-invariant integers used in the loop.
func (x *Exec) loopInts(st *State, li *LoopInfo, phis []*ssa.Phi) (ints []*ssa.Phi, bounds []intVal) {
	isPhi := map[ssa.Value]bool{}
	for _, p := range phis {
		isPhi[p] = true
	}
	seen := map[ssa.Value]bool{}
	add := func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		val, ok := st.frame().Env[v]
		if !ok || val.T == nil || len(val.L) == 0 {
			return
		}
		switch u := val.T.Underlying().(type) {
		case *types.Slice:
			bounds = append(bounds, intVal{"len(" + v.Name() + ")", func(b *State) *Term { return b.frame().Env[v].L[2] }})
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 && !isPhi[v] {
				bounds = append(bounds, intVal{v.Name(), func(b *State) *Term { return b.frame().Env[v].L[0] }})
			}
			if u.Info()&types.IsString != 0 {
				bounds = append(bounds, intVal{"len(" + v.Name() + ")", func(b *State) *Term { return slen(b.frame().Env[v].L[0]) }})
			}
		}
	}
	for _, p := range phis {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			ints = append(ints, p)
		}
		add(p)
	}
	for _, v := range x.loopOperands(li) {
		add(v)
	}
	return
}

// loopOperands lists values defined outside the loop and used in it.
func (x *Exec) loopOperands(li *LoopInfo) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var bs []*ssa.BasicBlock
	for b := range li.blocks {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				v := *o
				if v == nil || seen[v] {
					continue
				}
				seen[v] = true
				if i, ok := v.(ssa.Instruction); ok && li.blocks[i.Block()] {
					continue
				}
				switch v.(type) {
				case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
					continue
				}
				out = append(out, v)
			}
		}
	}
	return out
}

func (x *Exec) loopCands(st *State, entrySnap *Snap, li *LoopInfo, phis []*ssa.Phi, entry map[*ssa.Phi]Val, mods map[string]*modInfo, topE, _ *Term) []*cand {
	var cs []*cand
	add := func(desc string, f func(*State) *Term) { cs = append(cs, &cand{desc: desc, f: f}) }
	ev := func(b *State, v ssa.Value) Val { return b.frame().Env[v] }
	ints, bounds := x.loopInts(st, li, phis)
	pn := func(p *ssa.Phi) string {
		if p.Comment != "" {
			return p.Comment
		}
		return p.Name()
	}
	for _, p := range ints {
		e0 := entry[p].L[0]
		add(pn(p)+" >= initial", func(b *State) *Term { return Le(e0, ev(b, p).L[0]) })
		add(pn(p)+" <= initial", func(b *State) *Term { return Le(ev(b, p).L[0], e0) })
		for _, q := range bounds {
			add(pn(p)+" <= "+q.name, func(b *State) *Term { return Le(ev(b, p).L[0], q.f(b)) })
			add(pn(p)+" < "+q.name, func(b *State) *Term { return Lt(ev(b, p).L[0], q.f(b)) })
			add(pn(p)+" >= "+q.name, func(b *State) *Term { return Le(q.f(b), ev(b, p).L[0]) })
		}
		for _, q := range ints {
			if q == p {
				continue
			}
			f0 := entry[q].L[0]
			if p.Name() < q.Name() {
				add(pn(p)+" and "+pn(q)+" move together", func(b *State) *Term { return Eq(Sub(ev(b, p).L[0], e0), Sub(ev(b, q).L[0], f0)) })
			}
			add(pn(p)+" <= "+pn(q), func(b *State) *Term { return Le(ev(b, p).L[0], ev(b, q).L[0]) })
			add(pn(p)+" moves at most as "+pn(q), func(b *State) *Term { return Le(Sub(ev(b, p).L[0], e0), Sub(ev(b, q).L[0], f0)) })
		}
	}
	var sliceRefs []*Term
	for _, p := range phis {
		e := entry[p]
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			sliceRefs = append(sliceRefs, e.L[0])
			add(pn(p)+": same array", func(b *State) *Term { return Eq(ev(b, p).L[0], e.L[0]) })
			add(pn(p)+": same or new array", func(b *State) *Term { return Or(Eq(ev(b, p).L[0], e.L[0]), Le(topE, ev(b, p).L[0])) })
			add(pn(p)+": same offset", func(b *State) *Term { return Eq(ev(b, p).L[1], e.L[1]) })
			add(pn(p)+": offset 0", func(b *State) *Term { return Eq(ev(b, p).L[1], Zero) })
			add(pn(p)+": same end", func(b *State) *Term { return Eq(Add(ev(b, p).L[1], ev(b, p).L[2]), Add(e.L[1], e.L[2])) })
			add(pn(p)+": same capacity end", func(b *State) *Term { return Eq(Add(ev(b, p).L[1], ev(b, p).L[3]), Add(e.L[1], e.L[3])) })
			add(pn(p)+": len grows", func(b *State) *Term { return Le(e.L[2], ev(b, p).L[2]) })
			add(pn(p)+": len shrinks", func(b *State) *Term { return Le(ev(b, p).L[2], e.L[2]) })
			for _, q := range ints {
				f0 := entry[q].L[0]
				add("len("+pn(p)+") moves with "+pn(q), func(b *State) *Term { return Eq(Sub(ev(b, p).L[2], e.L[2]), Sub(ev(b, q).L[0], f0)) })
				add("len("+pn(p)+") moves at most as "+pn(q), func(b *State) *Term { return Le(Sub(ev(b, p).L[2], e.L[2]), Sub(ev(b, q).L[0], f0)) })
			}
		}
		if len(e.L) == 1 && e.Loc == nil && (e.L[0].Sort == SInt || e.L[0].Sort == SBool) {
			isI := false
			for _, q := range ints {
				isI = isI || q == p
			}
			if !isI {
				add(pn(p)+" unchanged", func(b *State) *Term { return Eq(ev(b, p).L[0], e.L[0]) })
			}
		}
		if isInterface(p.Type()) {
			add(pn(p)+" unchanged", func(b *State) *Term { return And(Eq(ev(b, p).L[0], e.L[0]), Eq(ev(b, p).L[1], e.L[1])) })
		}
	}
	// memory written through references made in the loop
	var keys []string
	for k := range mods {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, key := range keys {
		m := mods[key]
		old, ok := entrySnap.Heap[key]
		if !ok {
			old, ok = x.initHeap[key]
			if !ok {
				continue
			}
		}
		cur := func(b *State) *Term { return x.hget(b.Heap, key, old.Sort) }
		if m.all {
			if old.Sort == SInt || old.Sort == SBool {
				add(key+" unchanged", func(b *State) *Term { return Eq(cur(b), old) })
			}
			if old.Sort == SInt {
				add(key+" grows", func(b *State) *Term { return Le(old, cur(b)) })
			}
			continue
		}
		if m.gen {
			seqE := constSeq
			frame := func(desc string, top *Term, except []*Term) {
				r := BoundVar("r", SInt)
				add(desc, func(b *State) *Term {
					conds := []*Term{Lt(r, top)}
					for _, e := range except {
						if e != Zero {
							conds = append(conds, Not(mk(&Term{Op: "=", Sort: SBool, Args: []*Term{r, e}})))
						}
					}
					// writes to objects made in the loop do not matter
					h := cur(b)
					for {
						if d := resolve(h); d.Op == "store" && d.Args[1].alloc && d.Args[1].seq > seqE {
							h = d.Args[0]
							continue
						}
						break
					}
					if h == old {
						return True
					}
					return Forall([]*Term{r}, Implies(And(conds...), Eq2(mk(&Term{Op: "select", Sort: arrayElem(h.Sort), Args: []*Term{h, r}}), mk(&Term{Op: "select", Sort: arrayElem(h.Sort), Args: []*Term{old, r}}))), []*Term{mk(&Term{Op: "select", Sort: arrayElem(h.Sort), Args: []*Term{h, r}})})
				})
			}
			inv := sortedTerms(m.refs)
			frame(key+": memory from before the loop unchanged", topE, inv)
			if len(sliceRefs) > 0 {
				frame(key+": memory from before the loop unchanged but the slices", topE, append(append([]*Term{}, inv...), sliceRefs...))
			}
			frame(key+": memory from before the call unchanged", x.top0, inv)
			if len(sliceRefs) == 0 {
				continue
			}
			frame(key+": memory from before the call unchanged but the slices", x.top0, append(append([]*Term{}, inv...), sliceRefs...))
			continue
		}
		for _, r := range sortedTerms(m.refs) {
			el := arrayElem(old.Sort)
			if el == SInt {
				add(key+" grows", func(b *State) *Term { return Le(Select(old, r), Select(cur(b), r)) })
				add(key+" shrinks", func(b *State) *Term { return Le(Select(cur(b), r), Select(old, r)) })
			} else if el == SBool {
				add(key+" unchanged", func(b *State) *Term { return Eq(Select(old, r), Select(cur(b), r)) })
			}
		}
	}
	// contract invariants
	if x.c != nil {
		for i := range x.c.Loops {
			cl := &x.c.Loops[i]
			if cl.Kind != "inv" || !x.relevant(cl.Tags) {
				continue
			}
			x.instantiate(st, entrySnap, li, phis, entry, cl, func(c *cand) { cs = append(cs, c) })
		}
	}
	return cs
}

func isCell(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	switch a.Type().Underlying().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

func (x *Exec) instantiate(st *State, entrySnap *Snap, li *LoopInfo, phis []*ssa.Phi, entry map[*ssa.Phi]Val, cl *Clause, add func(*cand)) {
	isPhi := map[ssa.Value]*ssa.Phi{}
	var vals []ssa.Value
	for _, p := range phis {
		isPhi[p] = p
		vals = append(vals, p)
	}
	for _, v := range x.loopOperands(li) {
		if _, ok := st.frame().Env[v]; ok {
			vals = append(vals, v)
		}
	}
	// the counters of the loops around this one
	for d := li.header.Idom(); d != nil; d = d.Idom() {
		for _, in := range d.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if _, ok := st.frame().Env[p]; ok && !slices.Contains(vals, ssa.Value(p)) {
				vals = append(vals, p)
			}
		}
	}
	for _, f := range st.Frames[:len(st.Frames)-1] {
		for _, lc := range f.Loops {
			for _, in := range lc.info.header.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if _, ok := f.Env[p]; ok && !slices.Contains(vals, ssa.Value(p)) {
					vals = append(vals, p)
				}
			}
		}
	}
	valueOf := func(b *State, v ssa.Value) Val {
		for i := len(b.Frames) - 1; i >= 0; i-- {
			if w, ok := b.Frames[i].Env[v]; ok {
				return w
			}
		}
		return b.frame().Env[v]
	}
	match := func(v ssa.Value, s string, first bool) bool {
		t := v.Type()
		phiOnly := true
		if strings.HasPrefix(s, "any") {
			phiOnly = false
			s = strings.TrimPrefix(s, "any")
		}
		if isCell(v) {
			// a captured variable: its content
			t = t.Underlying().(*types.Pointer).Elem()
		} else if phiOnly && isPhi[v] == nil {
			return false
		}
		switch s {
		case "int":
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsInteger != 0
		case "bool":
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsBoolean != 0
		case "str":
			return isString(t)
		case "slice":
			_, ok := t.Underlying().(*types.Slice)
			return ok
		}
		return typeName(t) == s
	}
	// the index of a range loop counts from -1, others mostly from 0: both are
	// offered for the contract's counter
	shift := func(v ssa.Value) int64 {
		p := isPhi[v]
		if p == nil || cl.Kind != "inv" {
			return 0
		}
		if p.Comment == "rangeindex" {
			return 1
		}
		if e := entry[p]; len(e.L) == 1 && e.L[0] == Zero {
			return -1
		}
		return 0
	}
	var rec func(i int, bound map[string]ssa.Value, by map[string]int64)
	count := 0
	rec = func(i int, bound map[string]ssa.Value, by map[string]int64) {
		if count > 400 {
			return
		}
		if i == len(cl.Meta) {
			count++
			bd := map[string]ssa.Value{}
			bdBy := map[string]int64{}
			var d []string
			for _, m := range cl.Meta {
				bd[m.Name] = bound[m.Name]
				bdBy[m.Name] = by[m.Name]
				n := m.Name + "=" + bound[m.Name].Name()
				if k := by[m.Name]; k != 0 {
					n += fmt.Sprintf("%+d", k)
				}
				d = append(d, n)
			}
			desc := cl.Line
			if len(d) > 0 {
				desc += " with " + strings.Join(d, ",")
			}
			add(&cand{desc: desc, src: cl, f: func(b *State) *Term {
				nm := map[string]Val{}
				for n, v := range x.names {
					nm[n] = v
				}
				for n, v := range bd {
					if isCell(v) {
						l := x.ptrLoc(valueOf(b, v))
						nm[n] = x.read(b.Heap, l)
						nm[n+"_0"] = x.read(entrySnap.Heap, l)
						continue
					}
					nm[n] = valueOf(b, v)
					if p := isPhi[v]; p != nil {
						nm[n+"_0"] = entry[p]
					}
					if k := bdBy[n]; k != 0 {
						w := nm[n]
						nm[n] = Val{T: w.T, L: []*Term{Add(w.L[0], Int(k))}}
						w = nm[n+"_0"]
						nm[n+"_0"] = Val{T: w.T, L: []*Term{Add(w.L[0], Int(k))}}
					}
				}
				e := x.env(b, nm, x.old)
				e.pre = entrySnap
				if cl.Kind == "decreases" {
					return e.term(cl.E)
				}
				return e.bool(cl.E)
			}})
			return
		}
		for _, v := range vals {
			dup := false
			for _, w := range bound {
				if w == v {
					dup = true
				}
			}
			if dup || !match(v, cl.Meta[i].Sort, i == 0) {
				continue
			}
			bound[cl.Meta[i].Name] = v
			rec(i+1, bound, by)
			if k := shift(v); k != 0 && cl.Meta[i].Sort == "int" {
				by[cl.Meta[i].Name] = k
				rec(i+1, bound, by)
				delete(by, cl.Meta[i].Name)
			}
			delete(bound, cl.Meta[i].Name)
		}
	}
	rec(0, map[string]ssa.Value{}, map[string]int64{})
}

func (x *Exec) unrollLoop(st *State, li *LoopInfo, k Cont, n int) {
	if n > x.c.Unroll {
		unsupported("loop not unrolled within %d iterations", x.c.Unroll)
	}
	fr := st.frame()
	fr.Loops = append(fr.Loops, &LoopCtx{info: li, onBack: func(b *State, from *ssa.BasicBlock) {
		f := b.frame()
		f.Loops = f.Loops[:len(f.Loops)-1]
		x.phis(b, from, li.header)
		x.unrollLoop(b, li, k, n+1)
	}, onExit: func(*State) bool { return true }})
	x.instrs(st, li.header, 0, k)
}
