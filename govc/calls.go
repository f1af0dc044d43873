package main

// Calls: contracts, inlining, intrinsics, hooks, locks.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func shortName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if p := fn.Parent(); p != nil {
		n := fn.Name()
		if k := strings.LastIndexByte(n, '$'); k >= 0 {
			n = n[k:]
		}
		return shortName(p) + n
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			star = "*"
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Name() + "."
			}
			return fmt.Sprintf("%s(%s%s).%s", pk, star, n.Obj().Name(), fn.Name())
		}
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	if ob := fn.Object(); ob != nil && ob.Pkg() != nil {
		return ob.Pkg().Name() + "." + fn.Name()
	}
	return fn.Name()
}

func (x *Exec) call(st *State, in ssa.Instruction, c *ssa.CallCommon, k Cont) {
	fv := x.val(st, c.Value)
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	x.callVals(st, in, c, fv, args, k)
}

func (x *Exec) callVals(st *State, in ssa.Instruction, c *ssa.CallCommon, fv Val, args []Val, k Cont) {
	pos := in.Pos()
	if c.IsInvoke() {
		x.invoke(st, in, c, fv, args, k)
		return
	}
	if fv.Fn != nil && fv.Fn.Fn == nil && fv.Fn.Name != "" {
		x.builtin(st, in, fv.Fn.Name, args, c, k)
		return
	}
	if fv.Fn == nil {
		// unknown function value
		x.safety(st, "call of nil function", pos, Not(Eq(fv.L[0], Zero)))
		x.use("assumed: calling an unknown function value has no effect on the verified state")
		x.event(st, "func.value", pos, append([]Val{fv}, args...), x.freshResults(st, c.Signature()), k)
		return
	}
	x.callFn(st, pos, fv.Fn, args, c.Signature(), k)
}

func (x *Exec) freshResults(st *State, sig *types.Signature) []Val {
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, x.freshVal(st, "res", sig.Results().At(i).Type()))
	}
	return res
}

func (x *Exec) use(s string) {
	x.used[s] = true
}

func (x *Exec) invoke(st *State, in ssa.Instruction, c *ssa.CallCommon, recv Val, args []Val, k Cont) {
	pos := in.Pos()
	x.safety(st, "method call on nil interface", pos, Not(Eq(recv.L[0], Zero)))
	if !isInt(recv.L[0]) {
		// the path facts may fix the dynamic type
		x.sharpen(st, &recv)
		if it, ok := recv.T.Underlying().(*types.Interface); ok && !isInt(recv.L[0]) {
			var ids []int
			for id, t := range tagType {
				if n, ok := types.Unalias(deref(t)).(*types.Named); ok && inRepo(n.Obj().Pkg()) && types.Implements(t, it) {
					ids = append(ids, id)
				}
			}
			sort.Ints(ids)
			for _, id := range ids {
				if x.quick(st, Eq(recv.L[0], Int(int64(id)))) {
					recv.L = []*Term{Int(int64(id)), recv.L[1]}
					break
				}
			}
		}
	}
	if isInt(recv.L[0]) && recv.L[0] != Zero {
		t := tagType[int(recv.L[0].Val.Int64())]
		m := x.prog.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
		if m != nil {
			rv := x.unboxIn(st.Heap, recv, t)
			x.callFn(st, pos, &Closure{Fn: m}, append([]Val{rv}, args...), m.Signature, k)
			return
		}
	}
	name := typeName(recv.T) + "." + c.Method.Name()
	full := append([]Val{recv}, args...)
	x.withHooks(st, name, pos, full, k, func(st *State, k Cont) {
		if f, ok := intrinsics[name]; ok {
			f(x, st, pos, full, c.Signature(), k)
			return
		}
		if ct := x.specs.find(name); ct != nil {
			x.applyContract(st, pos, ct, name, full, c.Signature(), k)
			return
		}
		if x.specs.isPure(c.Method.Pkg(), name) {
			x.use("assumed: " + name + " has no effect on the verified state; any result")
			k(st, x.freshResults(st, c.Signature()))
			return
		}
		unsupported("no contract for interface method %s", name)
	})
}

func deref(t types.Type) types.Type {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (sp *Specs) find(name string) *Contract {
	for _, c := range sp.Contracts[name] {
		if c.Variant == "" {
			return c
		}
	}
	return nil
}

func (sp *Specs) isPure(p *types.Package, name string) bool {
	for _, s := range sp.Pure {
		if s == name {
			return true
		}
		if p != nil && strings.HasPrefix(s, "pkg:") {
			q := s[4:]
			if p.Path() == q || strings.HasSuffix(q, "/...") && strings.HasPrefix(p.Path()+"/", strings.TrimSuffix(q, "...")) {
				return true
			}
		}
	}
	return false
}

func fnPkg(fn *ssa.Function) *types.Package {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Pkg()
		}
	}
	return nil
}

func (x *Exec) callFn(st *State, pos token.Pos, cl *Closure, args []Val, sig *types.Signature, k Cont) {
	fn := cl.Fn
	name := shortName(fn)
	x.withHooks(st, name, pos, args, k, func(st *State, k Cont) {
		if f, ok := intrinsics[name]; ok {
			x.use("assumed model: " + name)
			f(x, st, pos, args, fn.Signature, k)
			return
		}
		if ct := x.specs.find(name); ct != nil && fn.Synthetic == "" && !(x.c != nil && x.c.Inline[name]) && !x.inlineAtomic(ct, fn) {
			x.applyContract(st, pos, ct, name, args, fn.Signature, k)
			return
		}
		if len(fn.Blocks) > 0 && (inRepo(fnPkg(fn)) || fn.Synthetic != "" || x.specs.inlineExt(name)) {
			if fn.Synthetic == "" {
				x.inlined[name] = true
			}
			x.runFunc(st, fn, args, cl.Bindings, k)
			return
		}
		if x.specs.Function[name] {
			x.use("assumed: " + name + " is a function of its arguments")
			var in []*Term
			for _, a := range args {
				in = append(in, x.argTerms(st.Heap, a)...)
			}
			var out []Val
			rs := fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				v := Val{T: rs.At(i).Type()}
				for j, lf := range leavesOf(v.T) {
					n := "fn." + name
					if i+j > 0 {
						n += fmt.Sprintf("#%d.%d", i, j)
					}
					v.L = append(v.L, App(n, lf.Sort, in...))
				}
				x.facts(st, v)
				out = append(out, v)
			}
			k(st, out)
			return
		}
		if x.specs.isPure(fnPkg(fn), name) {
			x.use("assumed: " + name + " has no effect on the verified state; any result")
			for _, a := range args {
				x.guardVal(st, a, false, pos)
			}
			k(st, x.freshResults(st, fn.Signature))
			return
		}
		unsupported("no contract for external function %s", name)
	})
}

// inlineAtomic: a caller whose own contract speaks of its atomic step (one
// critical section, one atomic operation) sees the body of callees that do too.
func (x *Exec) inlineAtomic(ct *Contract, fn *ssa.Function) bool {
	if x.c == nil || ct.Extern || len(fn.Blocks) == 0 || x.c == ct {
		return false
	}
	in := func(c *Contract) bool {
		for _, en := range c.Ensures {
			if x.relevant(en.Tags) && x.mentionsAtomic(en.E) {
				return true
			}
		}
		return false
	}
	return in(x.c) && in(ct)
}

// argTerms gives the value of an argument of a deterministic function.
func (x *Exec) argTerms(h map[string]*Term, a Val) []*Term {
	if isByteSlice(a.T) {
		return []*Term{x.bytesStr(h, a)}
	}
	return a.L
}

func (sp *Specs) inlineExt(name string) bool {
	for _, s := range sp.Pure {
		if s == "inline:"+name {
			return true
		}
	}
	return false
}

// ---- hooks ----

func (x *Exec) event(st *State, name string, pos token.Pos, args, res []Val, k Cont) {
	x.withHooks(st, name, pos, args, k, func(st *State, k Cont) {
		if f, ok := intrinsics[name]; ok {
			f(x, st, pos, args, nil, func(s *State, r []Val) {
				if res != nil {
					r = res
				}
				k(s, r)
			})
			return
		}
		k(st, res)
	})
}

func (x *Exec) withHooks(st *State, name string, pos token.Pos, args []Val, k Cont, do func(*State, Cont)) {
	var hs []*Hook
	if x.c != nil {
		for i := range x.c.Hooks {
			if x.c.Hooks[i].Callee == name {
				hs = append(hs, &x.c.Hooks[i])
			}
		}
	}
	if len(hs) == 0 {
		do(st, k)
		return
	}
	env := func(st *State, h *Hook, res []Val) *SpecEnv {
		names := map[string]Val{}
		for n, v := range x.names {
			names[n] = v
		}
		for i, p := range h.Params {
			if i < len(args) && p != "_" {
				names[p] = args[i]
			}
		}
		for i, p := range h.Results {
			if i < len(res) && p != "_" {
				names[p] = res[i]
			}
		}
		return x.env(st, names, x.old)
	}
	var snap *Snap
	for _, h := range hs {
		e := env(st, h, nil)
		for _, a := range h.Asserts {
			if !x.relevant(a.Tags) {
				continue
			}
			x.oblige(st, "at call of "+name, a.E.String(), pos, a.Tags, e.bool(a.E))
		}
		for _, s := range h.Sets {
			if s.Before {
				x.setGhost(st, s.Var, env(st, h, nil).term(s.E))
			}
		}
	}
	snap = st.snap()
	do(st, func(s *State, res []Val) {
		for _, h := range hs {
			// all right hand sides see the state after the call, before the sets
			var vals []*Term
			for _, c := range h.Sets {
				if c.Before {
					vals = append(vals, nil)
					continue
				}
				e := env(s, h, res)
				e.pre = snap
				if c.Var == "assume" {
					s.assume(e.bool(c.E))
					vals = append(vals, nil)
					continue
				}
				vals = append(vals, e.term(c.E))
			}
			for i, c := range h.Sets {
				if vals[i] != nil {
					x.setGhost(s, c.Var, vals[i])
				}
			}
		}
		k(s, res)
	})
}

func (x *Exec) setGhost(st *State, name string, v *Term) {
	x.hset(st, "g:"+name, nil, x.name(st, "g."+name, v))
}

// ---- contracts at call sites ----

func mentions(e *Expr, f string) bool {
	if e == nil {
		return false
	}
	if e.Op == "call" && e.S == f {
		return true
	}
	for _, a := range e.Args {
		if mentions(a, f) {
			return true
		}
	}
	return false
}

func (x *Exec) mentionsAtomic(e *Expr) bool {
	if e == nil {
		return false
	}
	if e.Op == "call" {
		switch e.S {
		case "acq", "rel", "nlocks", "natomic":
			return true
		}
		if m, ok := x.specs.Macros[e.S]; ok && x.mentionsAtomic(m.Body) {
			return true
		}
	}
	for _, a := range e.Args {
		if x.mentionsAtomic(a) {
			return true
		}
	}
	return false
}

// mentionsGhost says whether e uses a ghost variable local to contract c.
func (x *Exec) mentionsGhost(c *Contract, e *Expr) bool {
	if e == nil {
		return false
	}
	if e.Op == "ident" {
		for _, g := range c.Ghosts {
			if g.Name == e.S {
				return true
			}
		}
	}
	if e.Op == "call" {
		if m, ok := x.specs.Macros[e.S]; ok && x.mentionsGhost(c, m.Body) {
			return true
		}
	}
	for _, a := range e.Args {
		if x.mentionsGhost(c, a) {
			return true
		}
	}
	return false
}

func (x *Exec) applyContract(st *State, pos token.Pos, ct *Contract, name string, args []Val, sig *types.Signature, k Cont) {
	if ct.Extern {
		x.use("assumed contract: " + name)
	} else {
		x.use("contract: " + name)
	}
	if len(ct.Params) > len(args) {
		panic(specErr{fmt.Sprintf("contract of %s has %d parameters, function %d", name, len(ct.Params), len(args))})
	}
	names := map[string]Val{}
	for i, p := range ct.Params {
		names[p] = args[i]
	}
	for _, a := range args {
		x.guardVal(st, a, false, pos)
	}
	e := x.env(st, names, st.snap())
	for _, r := range ct.Requires {
		if !x.relevant(r.Tags) {
			continue
		}
		if x.dry == 0 && len(r.Tags) == 0 || len(r.Tags) > 0 {
			goal := e.bool(r.E)
			x.oblige(st, "precondition of "+name, r.E.String(), pos, r.Tags, goal)
		} else {
			st.assume(e.bool(r.E))
		}
	}
	if x.c != nil && !ct.Extern && x.dry == 0 && hasTag(x.c.Term, x.prop) && x.prog.reaches(name, x.c.Name) {
		g := False
		if ct.Measure != nil && x.c.Measure != nil {
			m0 := x.env(st, x.names, x.old)
			m0.heap = x.old.Heap
			was, now := m0.term(x.c.Measure), e.term(ct.Measure)
			g = And(Le(Zero, now), Lt(now, was))
		}
		x.oblige(st, "termination", "recursion decreases the measure: "+name, pos, nil, g)
	}
	old := st.snap()
	// effects
	e = x.env(st, names, old)
	seq := constSeq
	for _, m := range ct.Modifies {
		x.havocLoc(st, e, m)
	}
	nt := Fresh("top", SInt)
	st.assume(Le(st.Top, nt))
	st.Top = nt
	var res []Val
	if sig != nil {
		res = x.freshResults(st, sig)
	}
	for i, r := range ct.Results {
		if i < len(res) {
			names[r] = res[i]
		}
	}
	e = x.env(st, names, old)
	for _, en := range ct.Ensures {
		if !x.relevant(en.Tags) || x.mentionsAtomic(en.E) || x.mentionsGhost(ct, en.E) {
			continue
		}
		t := e.bool(en.E)
		st.assume(t)
		define(t, seq)
		x.strView(t, res)
	}
	if ct.Flags["noreturn"] {
		return
	}
	// constant interface tags
	for i := range res {
		x.sharpen(st, &res[i])
	}
	k(st, res)
}

// define makes the definition of a string constant made by this call (younger
// than seq) out of an equality just assumed.
func define(t *Term, seq int) {
	if t.Op == "and" {
		for _, a := range t.Args {
			define(a, seq)
		}
		return
	}
	if t.Op != "=" && !(t.Op == "app" && t.Name == "streq") {
		return
	}
	for i := 0; i < 2; i++ {
		c, s := t.Args[i], t.Args[1-i]
		if c.Op == "const" && c.Sort == SStr && c.Def == nil && c.seq > seq && s.seq < c.seq {
			c.Def = s
			return
		}
	}
}

// strView remembers that the bytes of a result of this call are a known string,
// so that specifications about them are stated about that string.
func (x *Exec) strView(t *Term, res []Val) {
	if t.Op == "and" {
		for _, a := range t.Args {
			x.strView(a, res)
		}
		return
	}
	if t.Op != "=" && !(t.Op == "app" && t.Name == "streq") {
		return
	}
	for i := 0; i < 2; i++ {
		m, s := t.Args[i], t.Args[1-i]
		if m.Op != "app" || m.Name != "mkstr" || s.Op == "app" && s.Name == "mkstr" {
			continue
		}
		for _, r := range res {
			if len(r.L) == 4 && r.L[2].Op == "const" && m.Args[1] == r.L[1] && m.Args[2] == r.L[2] {
				if x.views == nil {
					x.views = map[*Term]*Term{}
				}
				x.views[m] = s
			}
		}
	}
}

// sharpen replaces the tag of an interface result by a constant when the path
// facts fix it.
func (x *Exec) sharpen(st *State, v *Val) {
	if v.T == nil || !isInterface(v.T) || v.L[0].Op == "int" {
		return
	}
	for a := st.Asserts; a != nil; a = a.Parent {
		t := a.T
		if t.Op == "=" && t.Args[0].Sort == SInt {
			for i := range 2 {
				if t.Args[i] == v.L[0] && isInt(t.Args[1-i]) {
					v.L = []*Term{t.Args[1-i], v.L[1]}
					return
				}
			}
		}
		if a.T.seq < v.L[0].seq && a.Depth < st.Asserts.Depth-200 {
			return
		}
	}
}

// locsOf evaluates a modifies expression to heap keys.
type hloc struct {
	key  string
	sort string // sort of the stored value
	ref  *Term
	sl   *Val // slice whose elements are meant
	kind string
}

func (x *Exec) locsOf(e *SpecEnv, m *Expr) []hloc {
	obj := func(l *Loc) []hloc {
		var out []hloc
		for i := l.Lo; i < l.Hi; i++ {
			key, s := x.leafKeySort(l, i)
			out = append(out, hloc{key: key, sort: arrayElem(s), ref: l.Base})
		}
		return out
	}
	switch m.Op {
	case "ident":
		if s, ok := x.specs.GhostVar[m.S]; ok {
			return []hloc{{key: "g:" + m.S, sort: s}}
		}
	case "un":
		if m.S == "*" {
			v := e.eval(m.Args[0])
			return obj(x.ptrLoc(v))
		}
	case "call":
		switch m.S {
		case "allfields":
			v := e.eval(m.Args[0])
			return obj(x.ptrLoc(v))
		case "pointee":
			v := e.eval(m.Args[0])
			b, ok := v.Sp.(boxed)
			if !ok || b.v.T == nil {
				panic(Unsupported{"pointee of an interface with an unknown value"})
			}
			if _, ok := b.v.T.Underlying().(*types.Pointer); !ok {
				panic(Unsupported{"pointee of an interface that holds no pointer"})
			}
			return obj(x.ptrLoc(b.v))
		case "elems":
			v := e.eval(m.Args[0])
			el := elemOf(v.T)
			var out []hloc
			for _, l := range leavesOf(el) {
				vv := v
				out = append(out, hloc{key: elemKey(el) + l.Path, sort: ArrSort(SInt, l.Sort), ref: v.L[0], sl: &vv})
			}
			return out
		case "map":
			v := e.eval(m.Args[0])
			ks, vl := mapSorts(v.T)
			n := mapKeyName(v.T)
			out := []hloc{{key: n + ".dom", sort: ArrSort(ks, SBool), ref: v.t()}, {key: n + ".card", sort: SInt, ref: v.t()}}
			for _, l := range vl {
				out = append(out, hloc{key: n + ".val" + l.Path, sort: ArrSort(ks, l.Sort), ref: v.t()})
			}
			return out
		}
	case "sel":
		v := e.eval(m.Args[0])
		t := v.T
		var l *Loc
		if p, ok := t.Underlying().(*types.Pointer); ok {
			l = x.ptrLoc(v)
			t = p.Elem()
		}
		if s, ok := x.specs.GhostFld[typeName(t)+"."+m.S]; ok {
			base := v.L[0]
			if l != nil {
				base = l.Base
			} else if isInterface(t) {
				base = v.L[1]
			}
			return []hloc{{key: "GF:" + typeName(t) + "." + m.S, sort: s, ref: base}}
		}
		if l != nil {
			st := t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == m.S {
					lo, hi := fieldRange(t, i)
					n := *l
					n.Lo, n.Hi = l.Lo+lo, l.Lo+hi
					return obj(&n)
				}
			}
			// promoted
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); f.Embedded() {
					if _, ok := f.Type().Underlying().(*types.Struct); ok {
						return x.locsOf(e, &Expr{Op: "sel", S: m.S, Args: []*Expr{{Op: "sel", S: f.Name(), Args: m.Args}}})
					}
				}
			}
		} else if v.From != nil {
			st, ok := t.Underlying().(*types.Struct)
			if ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == m.S {
						lo, hi := fieldRange(t, i)
						n := *v.From
						n.Lo, n.Hi = v.From.Lo+lo, v.From.Lo+hi
						return obj(&n)
					}
				}
			}
		}
	}
	e.fail("bad location %s", m)
	return nil
}

func (x *Exec) havocLoc(st *State, e *SpecEnv, m *Expr) {
	for _, l := range x.locsOf(e, m) {
		x.checkFrame(st, l.key, l.ref)
		if l.ref == nil {
			x.hset(st, l.key, nil, Fresh(l.key, l.sort))
			continue
		}
		h := x.hget(st.Heap, l.key, ArrSort(SInt, l.sort))
		nv := Fresh("hv", l.sort)
		if l.sl != nil {
			// only the elements of the slice change
			oldc := Select(h, l.ref)
			b := BoundVar("i", SInt)
			out := Or(Lt(b, l.sl.L[1]), Le(Add(l.sl.L[1], l.sl.L[2]), b))
			st.assume(Forall([]*Term{b}, Implies(out, Eq2(Select(nv, b), Select(oldc, b))), []*Term{Select(nv, b)}))
		}
		x.hset(st, l.key, l.ref, x.name(st, l.key, Store(h, l.ref, nv)))
	}
}

// Eq2 is plain equality (no string extensionality).
func Eq2(a, b *Term) *Term {
	if a == b {
		return True
	}
	return mk(&Term{Op: "=", Sort: SBool, Args: []*Term{a, b}})
}

// ---- frame ----

func (x *Exec) checkFrameLoc(st *State, l *Loc) {
	for i := l.Lo; i < l.Hi; i++ {
		key, _ := x.leafKeySort(l, i)
		x.checkFrame(st, key, l.Base)
	}
}

func (x *Exec) checkFrame(st *State, key string, ref *Term) {
	if x.dry > 0 || x.c == nil || x.c.Flags["noframe"] {
		return
	}
	if ref == nil {
		for _, m := range x.mods {
			if m.Key == key {
				return
			}
		}
		x.addObl(st, "frame", "modifies "+key, token.NoPos, nil, False)
		return
	}
	if ref.alloc && ref.seq > x.seq0 {
		return
	}
	if x.guardedKeyHeld(st, key, ref) {
		return
	}
	alts := []*Term{Le(x.top0, ref)}
	for _, m := range x.mods {
		if m.Key == key || strings.HasPrefix(key, "M:") && strings.HasPrefix(m.Key, key+".") {
			if m.Ref == nil {
				return
			}
			alts = append(alts, Eq(ref, m.Ref))
		}
	}
	g := Or(alts...)
	if g == True || st.Facts[g] {
		return
	}
	x.addObl(st, "frame", "modifies only what the contract says: "+key, token.NoPos, nil, g)
}

// ---- guards and locks ----

type guardInfo struct {
	typ   string
	field string
	mutex string
	inv   *Expr
}

func (sp *Specs) guardsOf(typ string) []guardInfo {
	var out []guardInfo
	for _, g := range sp.Guards {
		k := strings.LastIndexByte(g.Field, '.')
		if g.Field[:k] == typ {
			out = append(out, guardInfo{typ, g.Field[k+1:], g.Mutex, g.Inv})
		}
	}
	return out
}

func locPath(l *Loc) string {
	// path of the location inside its root struct, without leading dot
	ls := leavesOf(l.Root)
	if l.Lo >= len(ls) {
		return ""
	}
	return strings.TrimPrefix(ls[l.Lo].Path, ".")
}

var lockTags = []string{"C24"}

func (x *Exec) guardCheck(st *State, l *Loc, write bool, pos token.Pos) {
	if l.Kind != "obj" || !strings.HasPrefix(l.Key, "F:") {
		return
	}
	typ := strings.TrimPrefix(l.Key, "F:")
	for _, g := range x.specs.guardsOf(typ) {
		hit := false
		for i := l.Lo; i < l.Hi; i++ {
			p := strings.TrimPrefix(leavesOf(l.Root)[i].Path, ".")
			if p == g.field || strings.HasPrefix(p, g.field+".") {
				hit = true
			}
		}
		if !hit {
			continue
		}
		if l.Base.alloc && l.Base.seq > x.seq0 {
			continue
		}
		what := "read"
		if write {
			what = "write"
		}
		if g.mutex == "atomic" {
			x.oblige(st, "lock", fmt.Sprintf("%s of %s.%s is atomic", what, typ, g.field), pos, lockTags, False)
			continue
		}
		x.oblige(st, "lock", fmt.Sprintf("%s of %s.%s with %s held", what, typ, g.field, g.mutex), pos, lockTags, x.heldTerm(st, typ, g.mutex, l.Base, write))
	}
}

// guardVal checks the use of memory reached through a guarded field.
func (x *Exec) guardVal(st *State, v Val, write bool, pos token.Pos) {
	if v.From == nil || v.T == nil {
		return
	}
	switch v.T.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		x.guardCheck(st, v.From, write, pos)
	}
}

func (x *Exec) heldTerm(st *State, typ, mutex string, base *Term, write bool) *Term {
	var alts []*Term
	for _, h := range st.Locks {
		if h.Path == typ+"."+mutex && !(write && h.RW) {
			alts = append(alts, Eq(h.Base, base))
		}
	}
	return Or(alts...)
}

// guardedKeyHeld: the key belongs to state guarded by a lock held now.
func (x *Exec) guardedKeyHeld(st *State, key string, ref *Term) bool {
	for _, h := range st.Locks {
		k := strings.LastIndexByte(h.Path, '.')
		typ, mu := h.Path[:k], h.Path[k+1:]
		for _, g := range x.specs.guardsOf(typ) {
			if g.mutex != mu {
				continue
			}
			fk := "F:" + typ + "." + g.field
			if (key == fk || strings.HasPrefix(key, fk+".")) && x.quick(st, Eq(ref, h.Base)) {
				return true
			}
			// content behind the field
			for _, c := range x.guardContent(st, typ, g.field, h.Base) {
				if (c.key == key || strings.HasPrefix(c.key, key+".")) && x.quick(st, Eq(ref, c.ref)) {
					return true
				}
			}
		}
	}
	return false
}

// guardContent lists the memory behind a guarded field.
func (x *Exec) guardContent(st *State, typ, field string, base *Term) []hloc {
	t := x.prog.typeByName(typ)
	e := &SpecEnv{x: x, st: st, heap: st.Heap, top: st.Top, names: map[string]Val{"self": {T: types.NewPointer(t), L: []*Term{base}}}, noFacts: true}
	v := e.eval(&Expr{Op: "sel", S: field, Args: []*Expr{{Op: "ident", S: "self"}}})
	switch u := v.T.Underlying().(type) {
	case *types.Pointer:
		tn := typeName(u.Elem())
		var out []hloc
		var ks []string
		for k := range x.specs.GhostFld {
			if strings.HasPrefix(k, tn+".") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			out = append(out, hloc{key: "GF:" + k, sort: x.specs.GhostFld[k], ref: v.t()})
		}
		return out
	case *types.Slice:
		var out []hloc
		for _, l := range leavesOf(u.Elem()) {
			out = append(out, hloc{key: elemKey(u.Elem()) + l.Path, sort: ArrSort(SInt, l.Sort), ref: v.L[0]})
		}
		return out
	case *types.Map:
		ks, vl := mapSorts(v.T)
		n := mapKeyName(v.T)
		out := []hloc{{key: n + ".dom", sort: ArrSort(ks, SBool), ref: v.t()}, {key: n + ".card", sort: SInt, ref: v.t()}}
		for _, l := range vl {
			out = append(out, hloc{key: n + ".val" + l.Path, sort: ArrSort(ks, l.Sort), ref: v.t()})
		}
		return out
	}
	return nil
}

// lockID identifies a mutex by the field it lives in, or by its reference.
func (x *Exec) lockOf(st *State, v Val) (path string, base *Term) {
	l := v.Loc
	if l == nil {
		l = v.From
	}
	if l != nil && l.Kind == "obj" && strings.HasPrefix(l.Key, "F:") {
		return strings.TrimPrefix(l.Key, "F:") + "." + locPath(l), l.Base
	}
	return "local.mutex", v.L[0]
}

func (x *Exec) isHeldSpec(e *SpecEnv, ex *Expr) bool {
	v := e.eval(ex)
	path, base := x.lockOf(e.st, v)
	for _, h := range e.st.Locks {
		if h.Path == path && x.quick(e.st, Eq(h.Base, base)) {
			return true
		}
	}
	return false
}

func (x *Exec) havocGuard(st *State, typ string, g guardInfo, base *Term) {
	t := x.prog.typeByName(typ)
	self := Val{T: types.NewPointer(t), L: []*Term{base}}
	// the field itself
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != g.field {
			continue
		}
		lo, hi := fieldRange(t, i)
		l := x.ptrLoc(self)
		n := *l
		n.Lo, n.Hi, n.T = lo, hi, s.Field(i).Type()
		nv := x.freshVal(st, g.field, n.T)
		for j := n.Lo; j < n.Hi; j++ {
			key, so := x.leafKeySort(&n, j)
			h := x.hget(st.Heap, key, so)
			x.hset(st, key, base, x.name(st, key, Store(h, base, nv.L[j-n.Lo])))
		}
	}
	for _, c := range x.guardContent(st, typ, g.field, base) {
		h := x.hget(st.Heap, c.key, ArrSort(SInt, c.sort))
		x.hset(st, c.key, c.ref, x.name(st, c.key, Store(h, c.ref, Fresh("hv", c.sort))))
	}
}

func (x *Exec) lockInv(st *State, typ, mutex string, base *Term, f func(*Term, *Expr)) {
	for _, g := range x.specs.guardsOf(typ) {
		if g.mutex == mutex && g.inv != nil {
			t := x.prog.typeByName(typ)
			e := x.env(st, map[string]Val{"self": {T: types.NewPointer(t), L: []*Term{base}}}, x.old)
			f(e.bool(g.inv), g.inv)
		}
	}
}

func (x *Exec) lock(st *State, pos token.Pos, v Val, rd bool) {
	path, base := x.lockOf(st, v)
	for _, h := range st.Locks {
		if h.Path == path {
			x.oblige(st, "lock", "lock "+path+" not already held", pos, lockTags, Not(Eq(h.Base, base)))
		}
	}
	k := strings.LastIndexByte(path, '.')
	typ, mu := path[:k], path[k+1:]
	fresh := base.alloc && base.seq > x.seq0
	if !fresh {
		for _, g := range x.specs.guardsOf(typ) {
			if g.mutex == mu {
				x.havocGuard(st, typ, g, base)
			}
		}
		x.lockInv(st, typ, mu, base, func(t *Term, _ *Expr) { st.assume(t) })
	}
	st.Locks = append(st.Locks, HeldLock{Path: path, Base: base, RW: rd})
	st.NLocks++
	st.Acq = st.snap()
}

func (x *Exec) unlock(st *State, pos token.Pos, v Val, rd bool) {
	path, base := x.lockOf(st, v)
	var alts []*Term
	for _, h := range st.Locks {
		if h.Path == path && h.RW == rd {
			alts = append(alts, Eq(h.Base, base))
		}
	}
	x.oblige(st, "lock", "unlocked mutex "+path+" is held", pos, lockTags, Or(alts...))
	k := strings.LastIndexByte(path, '.')
	typ, mu := path[:k], path[k+1:]
	x.lockInv(st, typ, mu, base, func(t *Term, ex *Expr) {
		x.oblige(st, "lock invariant", ex.String(), pos, nil, t)
	})
	for i := len(st.Locks) - 1; i >= 0; i-- {
		if st.Locks[i].Path == path && x.quick(st, Eq(st.Locks[i].Base, base)) {
			st.Locks = append(st.Locks[:i], st.Locks[i+1:]...)
			break
		}
	}
	st.Rel = st.snap()
}

// ---- builtins ----

func (x *Exec) builtin(st *State, in ssa.Instruction, name string, args []Val, c *ssa.CallCommon, k Cont) {
	pos := in.Pos()
	one := func(t *Term, ty types.Type) { k(st, []Val{{T: ty, L: []*Term{t}}}) }
	switch name {
	case "len":
		v := args[0]
		x.guardVal(st, v, false, pos)
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			one(v.L[2], types.Typ[types.Int])
		case *types.Basic:
			n := slen(v.t())
			st.assume(Le(Zero, n))
			one(n, types.Typ[types.Int])
		case *types.Map:
			one(x.mapLen(st, v), types.Typ[types.Int])
		case *types.Array:
			one(Int(u.Len()), types.Typ[types.Int])
		case *types.Pointer:
			one(Int(u.Elem().Underlying().(*types.Array).Len()), types.Typ[types.Int])
		case *types.Chan:
			k(st, []Val{x.freshVal(st, "len", types.Typ[types.Int])})
		default:
			unsupported("len of %v", v.T)
		}
	case "cap":
		if _, ok := args[0].T.Underlying().(*types.Slice); ok {
			one(args[0].L[3], types.Typ[types.Int])
			return
		}
		unsupported("cap of %v", args[0].T)
	case "append":
		x.guardVal(st, args[0], true, pos)
		x.appendBuiltin(st, args, c, k)
	case "copy":
		x.copyBuiltin(st, args, k)
	case "min", "max":
		r := args[0]
		for _, b := range args[1:] {
			l, y := r.t(), b.t()
			if l.Sort != SInt && l.Sort != SReal {
				unsupported("%s of %v", name, r.T)
			}
			cond := Le(l, y)
			if name == "max" {
				cond = Le(y, l)
			}
			r = Val{T: r.T, L: []*Term{x.name(st, name, Ite(cond, l, y))}}
		}
		k(st, []Val{r})
	case "delete":
		x.guardVal(st, args[0], true, pos)
		x.mapDelete(st, args[0], args[1].t())
		k(st, nil)
	case "close":
		x.event(st, "chan.close", pos, args, nil, k)
	case "print", "println":
		k(st, nil)
	case "ssa:wrapnilchk":
		k(st, args[:1])
	case "recover":
		k(st, []Val{x.zeroVal(c.Signature().Results().At(0).Type())})
	case "clear":
		if _, ok := args[0].T.Underlying().(*types.Map); ok {
			x.checkFrame(st, mapKeyName(args[0].T), args[0].t())
			x.initMap(st, args[0].T, args[0].t())
			k(st, nil)
			return
		}
		unsupported("clear")
	default:
		unsupported("builtin %s", name)
	}
}

func (x *Exec) appendBuiltin(st *State, args []Val, c *ssa.CallCommon, k Cont) {
	s := args[0]
	el := elemOf(s.T)
	var n *Term
	var src Val
	isStr := false
	if len(args) < 2 {
		k(st, args)
		return
	}
	src = args[1]
	if isString(src.T) {
		isStr = true
		n = slen(src.t())
	} else {
		n = src.L[2]
	}
	if n == Zero {
		// append(s) with nothing
		k(st, []Val{{T: s.T, L: s.L}})
		return
	}
	srcAt := func(st *State, i int, idx *Term) *Term { // idx: index into src
		if isStr {
			return sat(src.t(), idx)
		}
		return Select(x.content(st.Heap, el, i, src.L[0]), Add(src.L[1], idx))
	}
	newLen := Add(s.L[2], n)
	fits := Le(newLen, s.L[3])
	// how the new content relates to the old: the elements of s, then src
	fill := func(st *State, i int, base *Term, off *Term, lf Leaf) *Term {
		// content array with src written from off+len on
		if isInt(n) && n.Val.IsInt64() && n.Val.Int64() <= 32 {
			a := base
			for j := int64(0); j < n.Val.Int64(); j++ {
				a = Store(a, Add(off, s.L[2], Int(j)), srcAt(st, i, Int(j)))
			}
			return a
		}
		a := Fresh("app", ArrSort(SInt, lf.Sort))
		b := BoundVar("i", SInt)
		lo := Add(off, s.L[2])
		in := And(Le(lo, b), Lt(b, Add(lo, n)))
		var sv *Term
		if isStr {
			sv = sat(src.t(), Sub(b, lo))
		} else {
			sv = Select(x.content(st.Heap, el, i, src.L[0]), Add(src.L[1], Sub(b, lo)))
		}
		st.assume(Forall([]*Term{b}, Eq2(Select(a, b), Ite(in, sv, Select(base, b))), []*Term{Select(a, b)}))
		return a
	}
	x.branch(st, fits, token.NoPos, func(st *State) {
		// in place
		var cs []*Term
		for i, lf := range leavesOf(el) {
			x.checkFrame(st, elemKey(el)+lf.Path, s.L[0])
			cs = append(cs, fill(st, i, x.content(st.Heap, el, i, s.L[0]), s.L[1], lf))
		}
		for i := range leavesOf(el) {
			x.setContent(st, el, i, s.L[0], cs[i])
		}
		k(st, []Val{{T: s.T, L: []*Term{s.L[0], s.L[1], newLen, s.L[3]}, From: nil}})
	}, func(st *State) {
		r := x.allocRef(st, "arr")
		nc := Fresh("cap", SInt)
		st.assume(And(Le(newLen, nc), Le(nc, Int(1<<62))))
		var cs []*Term
		for i, lf := range leavesOf(el) {
			// the old elements move to the start of the new array
			oldc := x.content(st.Heap, el, i, s.L[0])
			base := oldc
			if s.L[1] != Zero {
				base = Fresh("mv", ArrSort(SInt, lf.Sort))
				b := BoundVar("i", SInt)
				st.assume(Forall([]*Term{b}, Implies(And(Le(Zero, b), Lt(b, s.L[2])), Eq2(Select(base, b), Select(oldc, Add(s.L[1], b)))), []*Term{Select(base, b)}))
			}
			cs = append(cs, fill(st, i, base, Zero, lf))
		}
		for i := range leavesOf(el) {
			x.setContent(st, el, i, r, cs[i])
		}
		k(st, []Val{{T: s.T, L: []*Term{r, Zero, newLen, nc}}})
	})
}

func (x *Exec) copyBuiltin(st *State, args []Val, k Cont) {
	d, s := args[0], args[1]
	el := elemOf(d.T)
	var n *Term
	isStr := isString(s.T)
	if isStr {
		n = slen(s.t())
	} else {
		n = s.L[2]
	}
	cnt := x.name(st, "n", Ite(Le(d.L[2], n), d.L[2], n))
	var cs []*Term
	for i, lf := range leavesOf(el) {
		x.checkFrame(st, elemKey(el)+lf.Path, d.L[0])
		oldc := x.content(st.Heap, el, i, d.L[0])
		if isInt(cnt) && cnt.Val.IsInt64() && cnt.Val.Int64() <= 32 {
			a := oldc
			for j := int64(0); j < cnt.Val.Int64(); j++ {
				var v *Term
				if isStr {
					v = sat(s.t(), Int(j))
				} else {
					v = Select(x.content(st.Heap, el, i, s.L[0]), Add(s.L[1], Int(j)))
				}
				a = Store(a, Add(d.L[1], Int(j)), v)
			}
			cs = append(cs, a)
			continue
		}
		a := Fresh("cp", ArrSort(SInt, lf.Sort))
		b := BoundVar("i", SInt)
		in := And(Le(d.L[1], b), Lt(b, Add(d.L[1], cnt)))
		var sv *Term
		if isStr {
			sv = sat(s.t(), Sub(b, d.L[1]))
		} else {
			sv = Select(x.content(st.Heap, el, i, s.L[0]), Add(s.L[1], Sub(b, d.L[1])))
		}
		st.assume(Forall([]*Term{b}, Eq2(Select(a, b), Ite(in, sv, Select(oldc, b))), []*Term{Select(a, b)}))
		cs = append(cs, a)
	}
	for i := range leavesOf(el) {
		x.setContent(st, el, i, d.L[0], cs[i])
	}
	k(st, []Val{{T: types.Typ[types.Int], L: []*Term{cnt}}})
}

// ---- go statements ----

func (x *Exec) goStmt(st *State, in *ssa.Go, k func(*State)) {
	c := &in.Call
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	if c.IsInvoke() {
		unsupported("go with interface method")
	}
	fv := x.val(st, c.Value)
	x.use("a goroutine is checked on its own; its effects on captured local variables are not modelled")
	x.withHooks(st, "go", in.Pos(), append([]Val{fv}, args...), func(s *State, _ []Val) { k(s) }, func(st *State, k2 Cont) {
		// the body of the goroutine, as a thread of its own
		if fv.Fn != nil && fv.Fn.Fn != nil && inRepo(fnPkg(fv.Fn.Fn)) && x.c != nil && (x.c.Flags["goroutines"] || x.prop == lockTags[0]) {
			own := x.hget(st.Heap, "g:own", SInt)
			x.thread(st, in.Pos(), fv.Fn, args, c.Signature(), Ite(Lt(Zero, own), One, Zero), Zero)
			x.hset(st, "g:own", nil, x.name(st, "own", Ite(Lt(Zero, own), Sub(own, One), Zero)))
		}
		k2(st, nil)
	})
}

// thread runs the body of a goroutine that starts with tok tokens of the
// WaitGroup and has to end with left.
func (x *Exec) thread(st *State, pos token.Pos, fn *Closure, args []Val, sig *types.Signature, tok, left *Term) {
	s2 := st.clone()
	s2.Locks = nil
	s2.Frames = append([]*Frame{}, s2.Frames[:1]...)
	x.hset(s2, "g:tok", nil, tok)
	x.hset(s2, "g:own", nil, Zero)
	x.hset(s2, "g:owner", nil, Zero)
	x.hset(s2, "g:waited", nil, Zero)
	x.callFn(s2, pos, fn, args, sig, func(s3 *State, _ []Val) {
		if len(s3.Locks) > 0 {
			x.oblige(s3, "lock", "every lock is released when a goroutine ends", pos, lockTags, False)
		}
		x.oblige(s3, "goroutine end", "every WaitGroup token is given back", pos, []string{"C25"}, Eq(x.hget(s3.Heap, "g:tok", SInt), left))
	})
}

// ---- intrinsics ----

type intrinsic func(x *Exec, st *State, pos token.Pos, args []Val, sig *types.Signature, k Cont)

var intrinsics map[string]intrinsic

func init() {
	intrinsics = map[string]intrinsic{
		"sync.(*Mutex).Lock": func(x *Exec, st *State, pos token.Pos, a []Val, _ *types.Signature, k Cont) {
			x.lock(st, pos, a[0], false)
			k(st, nil)
		},
		"sync.(*Mutex).Unlock": func(x *Exec, st *State, pos token.Pos, a []Val, _ *types.Signature, k Cont) {
			x.unlock(st, pos, a[0], false)
			k(st, nil)
		},
		"sync.(*RWMutex).Lock": func(x *Exec, st *State, pos token.Pos, a []Val, _ *types.Signature, k Cont) {
			x.lock(st, pos, a[0], false)
			k(st, nil)
		},
		"sync.(*RWMutex).Unlock": func(x *Exec, st *State, pos token.Pos, a []Val, _ *types.Signature, k Cont) {
			x.unlock(st, pos, a[0], false)
			k(st, nil)
		},
		"sync.(*RWMutex).RLock": func(x *Exec, st *State, pos token.Pos, a []Val, _ *types.Signature, k Cont) {
			x.lock(st, pos, a[0], true)
			k(st, nil)
		},
		"sync.(*RWMutex).RUnlock": func(x *Exec, st *State, pos token.Pos, a []Val, _ *types.Signature, k Cont) {
			x.unlock(st, pos, a[0], true)
			k(st, nil)
		},
		"atomic.AddUint64":          atomicAdd,
		"atomic.AddInt64":           atomicAdd,
		"atomic.AddUint32":          atomicAdd,
		"atomic.AddInt32":           atomicAdd,
		"atomic.LoadUint64":         atomicLoad,
		"atomic.LoadInt64":          atomicLoad,
		"atomic.LoadUint32":         atomicLoad,
		"atomic.LoadInt32":          atomicLoad,
		"atomic.(*Uint64).Add":      atomicAdd,
		"atomic.(*Int64).Add":       atomicAdd,
		"atomic.(*Uint64).Load":     atomicLoad,
		"atomic.(*Int64).Load":      atomicLoad,
		"binary.Write":              binaryWrite,
		"binary.(bigEndian).Uint16": beGet(2), "binary.(bigEndian).Uint32": beGet(4), "binary.(bigEndian).Uint64": beGet(8),
		"binary.(bigEndian).PutUint16": bePut(2), "binary.(bigEndian).PutUint32": bePut(4), "binary.(bigEndian).PutUint64": bePut(8),
		"binary.(bigEndian).AppendUint16": beApp(2), "binary.(bigEndian).AppendUint32": beApp(4), "binary.(bigEndian).AppendUint64": beApp(8),
		"sync.(*WaitGroup).Add":  wgAdd,
		"sync.(*WaitGroup).Done": wgDone,
		"sync.(*WaitGroup).Go": func(x *Exec, st *State, pos token.Pos, a []Val, sig *types.Signature, k Cont) {
			if x.c == nil || !x.c.Flags["goroutines"] {
				k(st, nil)
				return
			}
			if a[1].Fn == nil || a[1].Fn.Fn == nil {
				unsupported("WaitGroup.Go of unknown function")
			}
			wgAdd(x, st, pos, []Val{a[0], {T: types.Typ[types.Int], L: []*Term{One}}}, sig, func(st *State, _ []Val) {
				x.thread(st, pos, a[1].Fn, nil, a[1].Fn.Fn.Signature, One, One)
				x.hset(st, "g:own", nil, x.name(st, "own", Sub(x.gget(st, "own"), One)))
				k(st, nil)
			})
		},
		"sync.(*WaitGroup).Wait": wgWait,
		"retry.Do":               retryDo,
		"maps.Keys":              mapsKeys,
		"slices.Sorted":          slicesSorted,
		"slices.Collect":         slicesCollect,
		"filepath.Join":          filepathJoin,
		"math.Min": func(x *Exec, st *State, pos token.Pos, a []Val, _ *types.Signature, k Cont) {
			k(st, []Val{{T: a[0].T, L: []*Term{x.name(st, "min", Ite(Le(a[0].t(), a[1].t()), a[0].t(), a[1].t()))}}})
		},
		"math.Max": func(x *Exec, st *State, pos token.Pos, a []Val, _ *types.Signature, k Cont) {
			k(st, []Val{{T: a[0].T, L: []*Term{x.name(st, "max", Ite(Le(a[1].t(), a[0].t()), a[0].t(), a[1].t()))}}})
		},
		"math.Floor": func(x *Exec, st *State, pos token.Pos, a []Val, _ *types.Signature, k Cont) {
			k(st, []Val{{T: a[0].T, L: []*Term{x.name(st, "floor", App("to_real", SReal, App("to_int", SInt, a[0].t())))}}})
		},
		"math.Round": func(x *Exec, st *State, pos token.Pos, a []Val, _ *types.Signature, k Cont) {
			r := a[0].t()
			half := mk(&Term{Op: "real", Name: "0.5", Sort: SReal})
			zero := mk(&Term{Op: "real", Name: "0.0", Sort: SReal})
			up := App("to_real", SReal, App("to_int", SInt, Add(r, half)))
			dn := Sub(zero, App("to_real", SReal, App("to_int", SInt, Sub(half, r))))
			k(st, []Val{{T: a[0].T, L: []*Term{x.name(st, "round", Ite(Le(zero, r), up, dn))}}})
		},
	}
}

func atomicLoc(x *Exec, st *State, p Val) *Loc {
	l := x.ptrLoc(p)
	return l
}

func atomicHavoc(x *Exec, st *State, l *Loc, t types.Type) *Term {
	key, s := x.leafKeySort(l, l.Lo)
	h := x.hget(st.Heap, key, s)
	if l.Base.alloc && l.Base.seq > x.seq0 {
		return Select(h, l.Base)
	}
	v := Fresh("atomic", SInt)
	if lo, hi, _, _ := intRange(t); lo != nil {
		st.assume(And(Le(BigInt(lo), v), Le(v, BigInt(hi))))
	}
	x.hset(st, key, l.Base, x.name(st, key, Store(h, l.Base, v)))
	return v
}

func atomicAdd(x *Exec, st *State, pos token.Pos, a []Val, sig *types.Signature, k Cont) {
	l := atomicLoc(x, st, a[0])
	x.nilCheck(st, a[0], l, pos)
	t := sig.Results().At(0).Type()
	v := atomicHavoc(x, st, l, t)
	st.Acq = st.snap()
	nv := x.wrap(st, Add(v, a[1].t()), t, true)
	key, s := x.leafKeySort(l, l.Lo)
	x.hset(st, key, l.Base, x.name(st, key, Store(x.hget(st.Heap, key, s), l.Base, nv)))
	st.NAtomic++
	st.Rel = st.snap()
	k(st, []Val{{T: t, L: []*Term{nv}}})
}

func atomicLoad(x *Exec, st *State, pos token.Pos, a []Val, sig *types.Signature, k Cont) {
	l := atomicLoc(x, st, a[0])
	x.nilCheck(st, a[0], l, pos)
	t := sig.Results().At(0).Type()
	v := atomicHavoc(x, st, l, t)
	st.NAtomic++
	st.Acq = st.snap()
	st.Rel = st.Acq
	k(st, []Val{{T: t, L: []*Term{v}}})
}

// beBytes gives the big-endian bytes of an n-byte value.
func beBytes(v *Term, n int) []*Term {
	var out []*Term
	for i := 0; i < n; i++ {
		sh := uint(8 * (n - 1 - i))
		out = append(out, Mod(Div(v, BigInt(new(big.Int).Lsh(one, sh))), Int(256)))
	}
	return out
}

func beVal(bs []*Term) *Term {
	v := Zero
	for i, b := range bs {
		v = Add(v, Mul(b, BigInt(new(big.Int).Lsh(one, uint(8*(len(bs)-1-i))))))
	}
	return v
}

func byteAt(x *Exec, st *State, s Val, i *Term) *Term {
	t := Select(x.content(st.Heap, elemOf(s.T), 0, s.L[0]), Add(s.L[1], i))
	x.facts(st, Val{T: types.Typ[types.Uint8], L: []*Term{t}})
	return t
}

func beGet(n int) intrinsic {
	return func(x *Exec, st *State, pos token.Pos, a []Val, sig *types.Signature, k Cont) {
		s := a[len(a)-1]
		x.safety(st, fmt.Sprintf("%d bytes to decode", n), pos, Le(Int(int64(n)), s.L[2]))
		var bs []*Term
		for i := 0; i < n; i++ {
			bs = append(bs, byteAt(x, st, s, Int(int64(i))))
		}
		v := x.name(st, "be", beVal(bs))
		r := Val{T: sig.Results().At(0).Type(), L: []*Term{v}}
		x.facts(st, r)
		k(st, []Val{r})
	}
}

func bePut(n int) intrinsic {
	return func(x *Exec, st *State, pos token.Pos, a []Val, sig *types.Signature, k Cont) {
		s := a[len(a)-2]
		x.safety(st, fmt.Sprintf("room for %d bytes", n), pos, Le(Int(int64(n)), s.L[2]))
		el := elemOf(s.T)
		x.checkFrame(st, elemKey(el), s.L[0])
		c := x.content(st.Heap, el, 0, s.L[0])
		for i, b := range beBytes(a[len(a)-1].t(), n) {
			c = Store(c, Add(s.L[1], Int(int64(i))), x.name(st, "b", b))
		}
		x.setContent(st, el, 0, s.L[0], c)
		k(st, nil)
	}
}

func beApp(n int) intrinsic {
	return func(x *Exec, st *State, pos token.Pos, a []Val, sig *types.Signature, k Cont) {
		s := a[len(a)-2]
		el := elemOf(s.T)
		r := x.allocRef(st, "bytes")
		c := Fresh("c", ArrSort(SInt, SInt))
		for i, b := range beBytes(a[len(a)-1].t(), n) {
			c = Store(c, Int(int64(i)), x.name(st, "b", b))
		}
		x.setContent(st, el, 0, r, c)
		src := Val{T: s.T, L: []*Term{r, Zero, Int(int64(n)), Int(int64(n))}}
		x.appendBuiltin(st, []Val{s, src}, nil, k)
	}
}

// binaryWrite models binary.Write for values of known static type.
func binaryWrite(x *Exec, st *State, pos token.Pos, a []Val, sig *types.Signature, k Cont) {
	bx, ok := a[2].Sp.(boxed)
	if !ok {
		unsupported("binary.Write of unknown type")
	}
	d := bx.v
	ord, ok := a[1].Sp.(boxed)
	big := true
	if ok && strings.Contains(typeName(ord.v.T), "littleEndian") {
		big = false
	} else if ok && !strings.Contains(typeName(ord.v.T), "bigEndian") {
		unsupported("byte order %v", ord.v.T)
	} else if !ok {
		unsupported("byte order unknown")
	}
	var s *Term
	switch u := d.T.Underlying().(type) {
	case *types.Basic:
		_, _, bits, uns := intRange(d.T)
		if bits == 0 || u.Kind() == types.Int || u.Kind() == types.Uint {
			unsupported("binary.Write of %v", d.T)
		}
		v := d.t()
		if !uns {
			m := BigInt(new_lsh(bits))
			v = x.name(st, "u", Ite(Lt(v, Zero), Add(v, m), v))
		}
		f := fmt.Sprintf("be%d", bits/8)
		if !big && bits > 8 {
			f = fmt.Sprintf("le%d", bits/8)
		}
		s = App(f, SStr, v)
	case *types.Array:
		if len(d.L) != 1 || d.L[0].Sort != ArrSort(SInt, SInt) || leavesOf(u.Elem())[0].Sort != SInt {
			unsupported("binary.Write of %v", d.T)
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
			unsupported("binary.Write of %v", d.T)
		}
		s = mkstr(d.L[0], Zero, Int(u.Len()))
	case *types.Slice:
		if !isByteSlice(d.T) {
			unsupported("binary.Write of %v", d.T)
		}
		s = x.bytesStr(st.Heap, d)
	default:
		unsupported("binary.Write of %v", d.T)
	}
	w := a[0]
	if b, ok := w.Sp.(boxed); ok && typeName(b.v.T) == "*bytes.Buffer" {
		ref := b.v.t()
		key := "GF:bytes.Buffer.content"
		h := x.hget(st.Heap, key, ArrSort(SInt, SStr))
		x.checkFrame(st, key, ref)
		x.hset(st, key, ref, x.name(st, key, Store(h, ref, cat(Select(h, ref), s))))
		k(st, []Val{x.zeroVal(sig.Results().At(0).Type())})
		return
	}
	unsupported("binary.Write to %v", w.T)
}

func new_lsh(bits int) *big.Int { return new(big.Int).Lsh(one, uint(bits)) }

// WaitGroup tokens: "g:own" counts tokens this goroutine added and has not
// handed over, "g:tok" is the token it holds itself, "g:waited" says it waited.
func (x *Exec) gget(st *State, n string) *Term { return x.hget(st.Heap, "g:"+n, SInt) }

func wgAdd(x *Exec, st *State, pos token.Pos, a []Val, sig *types.Signature, k Cont) {
	tag := []string{"C25"}
	if x.c == nil || !x.c.Flags["goroutines"] {
		k(st, nil)
		return
	}
	x.oblige(st, "WaitGroup", "Add only before Wait or while holding a token", pos, tag, Or(Eq(x.gget(st, "owner"), One), Lt(Zero, x.gget(st, "tok"))))
	x.oblige(st, "WaitGroup", "Add a positive number", pos, tag, Lt(Zero, a[1].t()))
	x.hset(st, "g:own", nil, x.name(st, "own", Add(x.gget(st, "own"), a[1].t())))
	k(st, nil)
}

func wgDone(x *Exec, st *State, pos token.Pos, a []Val, sig *types.Signature, k Cont) {
	if x.c == nil || !x.c.Flags["goroutines"] {
		k(st, nil)
		return
	}
	x.oblige(st, "WaitGroup", "Done gives back a token held", pos, []string{"C25"}, Lt(Zero, x.gget(st, "tok")))
	x.hset(st, "g:tok", nil, x.name(st, "tok", Sub(x.gget(st, "tok"), One)))
	k(st, nil)
}

func wgWait(x *Exec, st *State, pos token.Pos, a []Val, sig *types.Signature, k Cont) {
	if x.c == nil || !x.c.Flags["goroutines"] {
		k(st, nil)
		return
	}
	x.oblige(st, "WaitGroup", "no token of its own while waiting", pos, []string{"C25"}, And(Eq(x.gget(st, "tok"), Zero), Eq(x.gget(st, "own"), Zero)))
	x.hset(st, "g:owner", nil, Zero)
	x.hset(st, "g:waited", nil, One)
	k(st, nil)
}

// retryDo models retry.Do(f, opts...): f runs at least once unless the context
// is done; the last run decides the result. All earlier runs failed.
func retryDo(x *Exec, st *State, pos token.Pos, a []Val, sig *types.Signature, k Cont) {
	f := a[0]
	if f.Fn == nil || f.Fn.Fn == nil {
		unsupported("retry.Do of unknown function")
	}
	et := sig.Results().At(0).Type()
	x.use("assumed model: retry.Do runs the function up to 5 times until it returns nil, and returns nil exactly if the last run did")
	// not run at all (context done)
	s2 := st.clone()
	e := x.freshVal(s2, "ctxerr", et)
	s2.assume(Not(Eq(e.L[0], Zero)))
	k(s2, []Val{e})
	var run func(st *State, n int)
	run = func(st *State, n int) {
		x.callFn(st, pos, f.Fn, nil, f.Fn.Fn.Signature, func(s *State, res []Val) {
			x.branch(s, Eq(res[0].L[0], Zero), pos, func(s *State) {
				k(s, []Val{x.zeroVal(et)})
			}, func(s *State) {
				if n < 5 {
					s3 := s.clone()
					run(s3, n+1)
				}
				r := x.freshVal(s, "retryerr", et)
				s.assume(Not(Eq(r.L[0], Zero)))
				k(s, []Val{r})
			})
		})
	}
	run(st, 1)
}

type keysSeq struct{ m Val }

func mapsKeys(x *Exec, st *State, pos token.Pos, a []Val, sig *types.Signature, k Cont) {
	k(st, []Val{{T: types.Typ[types.Int], L: []*Term{Fresh("seq", SInt)}, Sp: keysSeq{a[0]}}})
}

// slicesSorted models slices.Sorted(maps.Keys(m)).
func slicesSorted(x *Exec, st *State, pos token.Pos, a []Val, sig *types.Signature, k Cont) {
	keysToSlice(x, st, a[0], true, k)
}
func slicesCollect(x *Exec, st *State, pos token.Pos, a []Val, sig *types.Signature, k Cont) {
	keysToSlice(x, st, a[0], false, k)
}

func keysToSlice(x *Exec, st *State, seq Val, sorted bool, k Cont) {
	ks, ok := seq.Sp.(keysSeq)
	if !ok {
		unsupported("slices.Sorted of unknown sequence")
	}
	m := ks.m
	mt := m.T.Underlying().(*types.Map)
	if !isString(mt.Key()) {
		unsupported("sorted keys of %v", m.T)
	}
	x.guardVal(st, m, false, token.NoPos)
	t := types.NewSlice(mt.Key())
	r := x.allocRef(st, "keys")
	n := x.mapLen(st, m)
	n = x.name(st, "nkeys", Ite(Eq(m.t(), Zero), Zero, n))
	st.assume(Le(Zero, n))
	dom := x.mapDom(st.Heap, m.T, m.t())
	var c *Term
	if sorted {
		c = App("sortedkeys", ArrSort(SInt, SStr), dom)
	} else {
		c = Fresh("keys", ArrSort(SInt, SStr))
	}
	if !sorted {
		// a permutation of the keys
		i, j := BoundVar("i", SInt), BoundVar("j", SInt)
		st.assume(Forall([]*Term{i}, Implies(And(Le(Zero, i), Lt(i, n)), Select(dom, Select(c, i))), []*Term{Select(c, i)}))
		st.assume(Forall([]*Term{i, j}, Implies(And(Le(Zero, i), Lt(i, j), Lt(j, n)), Not(mk(&Term{Op: "=", Sort: SBool, Args: []*Term{Select(c, i), Select(c, j)}}))), []*Term{Select(c, i), Select(c, j)}))
	} else {
		st.assume(App("keyspec", SBool, dom, n))
	}
	x.setContent(st, mt.Key(), 0, r, c)
	k(st, []Val{{T: t, L: []*Term{r, Zero, n, n}}})
}

// filepathJoin models filepath.Join: an uninterpreted function of the parts.
func filepathJoin(x *Exec, st *State, pos token.Pos, a []Val, sig *types.Signature, k Cont) {
	s := a[0] // []string
	el := elemOf(s.T)
	c := x.content(st.Heap, el, 0, s.L[0])
	var r *Term
	if isInt(s.L[2]) && s.L[2].Val.Int64() == 2 {
		p := Select(c, s.L[1])
		q := Select(c, Add(s.L[1], One))
		r = App("pjoin", SStr, p, q)
	} else {
		r = App("pjoinall", SStr, c, s.L[1], s.L[2])
	}
	r = x.name(st, "path", r)
	v := Val{T: types.Typ[types.String], L: []*Term{r}}
	x.facts(st, v)
	k(st, []Val{v})
}
