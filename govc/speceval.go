package main

// Evaluation of contract expressions in a symbolic state.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SpecEnv struct {
	x       *Exec
	st      *State
	heap    map[string]*Term
	top     *Term
	old     *Snap
	acq     *Snap
	rel     *Snap
	pre     *Snap // loop entry
	names   map[string]Val
	noFacts bool
	qd      int // nesting depth of quantifiers
}

type specErr struct{ msg string }

func (e *SpecEnv) fail(f string, a ...any) {
	panic(specErr{fmt.Sprintf(f, a...)})
}

func (e *SpecEnv) with(s *Snap) *SpecEnv {
	if s == nil {
		e.fail("no such state")
	}
	n := *e
	n.heap, n.top = s.Heap, s.Top
	return &n
}

func (x *Exec) env(st *State, names map[string]Val, old *Snap) *SpecEnv {
	return &SpecEnv{x: x, st: st, heap: st.Heap, top: st.Top, old: old, acq: st.Acq, rel: st.Rel, names: names}
}

func (e *SpecEnv) bool(ex *Expr) *Term {
	v := e.eval(ex)
	if len(v.L) != 1 || v.L[0].Sort != SBool {
		e.fail("not a bool: %s", ex)
	}
	return v.L[0]
}

func (e *SpecEnv) term(ex *Expr) *Term {
	v := e.eval(ex)
	if len(v.L) != 1 {
		e.fail("not a single term: %s", ex)
	}
	return v.L[0]
}

func tv(t *Term) Val { return Val{L: []*Term{t}} }

func (e *SpecEnv) fact(v Val) Val {
	// values read by the specification satisfy the facts of their type
	if e.st == nil || e.noFacts || v.T == nil {
		return v
	}
	for _, t := range v.L {
		if hasBound(t) {
			return v
		}
	}
	e.x.facts(e.st, v)
	return v
}

func (e *SpecEnv) eval(ex *Expr) Val {
	x := e.x
	switch ex.Op {
	case "int":
		b, ok := new(big.Int).SetString(ex.S, 0)
		if !ok {
			e.fail("bad number %s", ex.S)
		}
		return tv(BigInt(b))
	case "str":
		return tv(StrLit(ex.S))
	case "ident":
		if v, ok := e.names[ex.S]; ok {
			return v
		}
		switch ex.S {
		case "true":
			return tv(True)
		case "false":
			return tv(False)
		case "nil":
			return Val{L: []*Term{Zero}, Sp: "nil"}
		}
		if s, ok := x.specs.GhostVar[ex.S]; ok {
			return tv(x.hget(e.heap, "g:"+ex.S, s))
		}
		if x.c != nil {
			for _, g := range x.c.Ghosts {
				if g.Name == ex.S {
					return tv(x.hget(e.heap, "g:"+ex.S, g.Sort))
				}
			}
		}
		if m, ok := x.specs.Macros[ex.S]; ok && len(m.Params) == 0 {
			return e.eval(m.Body)
		}
		if fs, ok := funSort[ex.S]; ok && len(fs) == 1 {
			return tv(App(ex.S, fs[0]))
		}
		e.fail("unknown name %s", ex.S)
	case "un":
		switch ex.S {
		case "!":
			return tv(Not(e.bool(ex.Args[0])))
		case "-":
			return tv(Neg(e.term(ex.Args[0])))
		case "*":
			v := e.eval(ex.Args[0])
			return e.fact(x.read(e.heap, x.ptrLoc(v)))
		}
	case "bin":
		return e.binary(ex)
	case "quant":
		n := *e
		n.names = map[string]Val{}
		for k, v := range e.names {
			n.names[k] = v
		}
		var vs []*Term
		for _, q := range ex.Vars {
			// the same formula gets the same variables
			b := mk(&Term{Op: "bound", Name: fmt.Sprintf("%s?q%d", sanitize(q.Name), n.qd), Sort: q.Sort})
			n.qd++
			vs = append(vs, b)
			n.names[q.Name] = tv(b)
		}
		body := n.bool(ex.Args[0])
		var pats [][]*Term
		for _, p := range ex.Pats {
			var ts []*Term
			for _, y := range p {
				ts = append(ts, n.term(y))
			}
			pats = append(pats, ts)
		}
		if ex.S == "forall" {
			return tv(Forall(vs, body, pats...))
		}
		return tv(Exists(vs, body))
	case "sel":
		return e.sel(ex)
	case "index":
		return e.index(ex)
	case "slice":
		v := e.eval(ex.Args[0])
		lo := e.term(ex.Args[1])
		if len(v.L) == 1 && v.L[0].Sort == SStr {
			hi := slen(v.L[0])
			if ex.Args[2] != nil {
				hi = e.term(ex.Args[2])
			}
			return tv(substr(v.L[0], lo, hi))
		}
		if len(v.L) == 4 {
			hi := v.L[2]
			if ex.Args[2] != nil {
				hi = e.term(ex.Args[2])
			}
			return Val{T: v.T, L: []*Term{v.L[0], Add(v.L[1], lo), Sub(hi, lo), Sub(v.L[3], lo)}}
		}
		e.fail("cannot slice %s", ex.Args[0])
	case "call":
		return e.call(ex)
	}
	e.fail("cannot evaluate %s", ex)
	return Val{}
}

func (e *SpecEnv) binary(ex *Expr) Val {
	a := ex.Args[0]
	b := ex.Args[1]
	switch ex.S {
	case "==>":
		l := e.bool(a)
		if l == False {
			return tv(True)
		}
		return tv(Implies(l, e.bool(b)))
	case "<==>":
		return tv(Eq(e.bool(a), e.bool(b)))
	case "&&":
		l := e.bool(a)
		if l == False {
			return tv(False)
		}
		return tv(And(l, e.bool(b)))
	case "||":
		l := e.bool(a)
		if l == True {
			return tv(True)
		}
		return tv(Or(l, e.bool(b)))
	case "in":
		k := e.eval(a)
		m := e.eval(b)
		if len(m.L) == 1 && strings.HasPrefix(m.L[0].Sort, "(Array") {
			return tv(Select(m.L[0], k.L[0]))
		}
		return tv(And(Not(Eq(m.t(), Zero)), Select(e.x.mapDom(e.heap, m.T, m.t()), k.L[0])))
	}
	l, r := e.eval(a), e.eval(b)
	switch ex.S {
	case "==":
		return tv(e.eq(l, r, ex))
	case "!=":
		return tv(Not(e.eq(l, r, ex)))
	}
	if len(l.L) != 1 || len(r.L) != 1 {
		e.fail("operands of %s", ex)
	}
	x, y := l.L[0], r.L[0]
	switch ex.S {
	case "<":
		return tv(Lt(x, y))
	case "<=":
		return tv(Le(x, y))
	case ">":
		return tv(Lt(y, x))
	case ">=":
		return tv(Le(y, x))
	case "+":
		if x.Sort == SStr {
			return tv(cat(x, y))
		}
		return tv(Add(x, y))
	case "-":
		return tv(Sub(x, y))
	case "*":
		return tv(Mul(x, y))
	case "/":
		if x.Sort == SReal {
			return tv(mk(&Term{Op: "r/", Sort: SReal, Args: []*Term{x, y}}))
		}
		return tv(Div(x, y))
	case "%":
		return tv(Mod(x, y))
	}
	e.fail("operator %s", ex.S)
	return Val{}
}

func (e *SpecEnv) eq(l, r Val, ex *Expr) *Term {
	isNil := func(v Val) bool { s, ok := v.Sp.(string); return ok && s == "nil" }
	if isNil(r) {
		return Eq(l.L[0], Zero)
	}
	if isNil(l) {
		return Eq(r.L[0], Zero)
	}
	if len(l.L) != len(r.L) {
		e.fail("comparison of different types: %s", ex)
	}
	var ts []*Term
	for i := range l.L {
		if l.L[i].Sort != r.L[i].Sort {
			e.fail("comparison of sorts %s and %s: %s", l.L[i].Sort, r.L[i].Sort, ex)
		}
		ts = append(ts, Eq(l.L[i], r.L[i]))
	}
	return And(ts...)
}

// structOf finds the struct type behind a value, its location if it is a
// pointer.
func (e *SpecEnv) sel(ex *Expr) Val {
	x := e.x
	if a := ex.Args[0]; a.Op == "ident" {
		if _, ok := e.names[a.S]; !ok {
			if v, ok := e.pkgMember(a.S, ex.S); ok {
				return v
			}
		}
	}
	v := e.eval(ex.Args[0])
	if v.T == nil {
		e.fail("field of untyped %s", ex)
	}
	t := v.T
	var l *Loc
	if p, ok := t.Underlying().(*types.Pointer); ok {
		l = x.ptrLoc(v)
		t = p.Elem()
	}
	// ghost field
	if s, ok := x.specs.GhostFld[typeName(t)+"."+ex.S]; ok {
		base := v.L[0]
		if l != nil {
			if l.Lo != 0 {
				e.fail("ghost field of interior object %s", ex)
			}
			base = l.Base
		} else if isInterface(t) {
			base = v.L[1]
		}
		return tv(Select(x.hget(e.heap, "GF:"+typeName(t)+"."+ex.S, ArrSort(SInt, s)), base))
	}
	if s, ok := x.specs.GhostConst[typeName(t)+"."+ex.S]; ok {
		if l == nil || l.Lo != 0 {
			e.fail("constant ghost field of no object %s", ex)
		}
		return tv(App("gc."+typeName(t)+"."+ex.S, s, l.Base))
	}
	if isInterface(t) {
		switch ex.S {
		case "$tag":
			return tv(v.L[0])
		case "$val":
			return tv(v.L[1])
		}
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		e.fail("%s is no struct (%v)", ex.Args[0], t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == ex.S {
			lo, hi := fieldRange(t, i)
			if l != nil {
				n := *l
				n.Lo, n.Hi, n.T = l.Lo+lo, l.Lo+hi, st.Field(i).Type()
				return e.fact(x.read(e.heap, &n))
			}
			return Val{T: st.Field(i).Type(), L: v.L[lo:hi]}
		}
	}
	// promoted field
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Embedded() {
			if es, ok := f.Type().Underlying().(*types.Struct); ok {
				for j := 0; j < es.NumFields(); j++ {
					if es.Field(j).Name() == ex.S {
						return e.sel(&Expr{Op: "sel", S: ex.S, Args: []*Expr{{Op: "sel", S: f.Name(), Args: ex.Args}}})
					}
				}
			}
		}
	}
	e.fail("no field %s in %v", ex.S, t)
	return Val{}
}

func (e *SpecEnv) pkgMember(pkg, name string) (Val, bool) {
	p := e.x.prog.byName[pkg]
	if p == nil {
		return Val{}, false
	}
	switch m := p.Members[name].(type) {
	case *ssa.NamedConst:
		return constTerm(m.Type(), m.Value.Value), true
	case *ssa.Global:
		gv := Val{T: m.Type(), L: []*Term{e.x.prog.globalRef(m)}}
		v := e.x.read(e.heap, e.x.ptrLoc(gv))
		return e.fact(v), true
	}
	return Val{}, false
}

func (e *SpecEnv) index(ex *Expr) Val {
	x := e.x
	v := e.eval(ex.Args[0])
	i := e.eval(ex.Args[1])
	if len(v.L) == 1 && v.L[0].Sort == SStr {
		return tv(x.strAt(v.L[0], i.L[0]))
	}
	if v.T == nil {
		if len(v.L) == 1 && strings.HasPrefix(v.L[0].Sort, "(Array") {
			return tv(Select(v.L[0], i.L[0]))
		}
		e.fail("index of untyped %s", ex)
	}
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		el := u.Elem()
		l := &Loc{Kind: "elem", Key: elemKey(el), Base: v.L[0], Idx: Add(v.L[1], i.t()), Root: el, Lo: 0, Hi: len(leavesOf(el)), T: el}
		return e.fact(x.read(e.heap, l))
	case *types.Array:
		var ts []*Term
		for _, a := range v.L {
			ts = append(ts, Select(a, i.t()))
		}
		return Val{T: u.Elem(), L: ts}
	case *types.Map:
		var ts []*Term
		for j := range leavesOf(u.Elem()) {
			ts = append(ts, Select(x.mapVal(e.heap, v.T, v.t(), j), i.t()))
		}
		return e.fact(Val{T: u.Elem(), L: ts})
	}
	e.fail("index of %v", v.T)
	return Val{}
}

func (e *SpecEnv) strOf(ex *Expr) *Term {
	v := e.eval(ex)
	return e.strOfVal(v, ex)
}

func (e *SpecEnv) strOfVal(v Val, ex *Expr) *Term {
	if len(v.L) == 1 && v.L[0].Sort == SStr {
		return v.L[0]
	}
	if v.T != nil && isByteSlice(v.T) {
		return e.x.bytesStr(e.heap, v)
	}
	if v.T != nil {
		if a, ok := v.T.Underlying().(*types.Array); ok {
			return mkstr(v.L[0], Zero, Int(a.Len()))
		}
	}
	e.fail("not bytes: %s", ex)
	return nil
}

func (e *SpecEnv) call(ex *Expr) Val {
	x := e.x
	arg := func(i int) *Expr {
		if i >= len(ex.Args) {
			e.fail("too few arguments: %s", ex)
		}
		return ex.Args[i]
	}
	switch ex.S {
	case "old":
		return e.with(e.old).eval(arg(0))
	case "acq":
		if e.acq == nil {
			// no atomic step on this path
			return e.eval(arg(0))
		}
		return e.with(e.acq).eval(arg(0))
	case "rel":
		if e.rel == nil {
			// no atomic step on this path
			return e.eval(arg(0))
		}
		return e.with(e.rel).eval(arg(0))
	case "pre":
		return e.with(e.pre).eval(arg(0))
	case "len":
		v := e.eval(arg(0))
		if len(v.L) == 4 {
			return tv(v.L[2])
		}
		if len(v.L) == 1 && v.L[0].Sort == SStr {
			return tv(slen(v.L[0]))
		}
		if v.T != nil {
			switch u := v.T.Underlying().(type) {
			case *types.Map:
				return tv(Ite(Eq(v.t(), Zero), Zero, x.mapCard(e.heap, v.T, v.t())))
			case *types.Array:
				return tv(Int(u.Len()))
			}
		}
		e.fail("len of %s", arg(0))
	case "cap":
		return tv(e.eval(arg(0)).L[3])
	case "arr":
		return tv(e.eval(arg(0)).L[0])
	case "off":
		return tv(e.eval(arg(0)).L[1])
	case "bytes":
		return tv(e.strOf(arg(0)))
	case "elems":
		// elems(slice) or elems(slice, "leaf"): content array
		v := e.eval(arg(0))
		el := elemOf(v.T)
		idx := 0
		if len(ex.Args) > 1 {
			idx = -1
			for i, l := range leavesOf(el) {
				if strings.TrimPrefix(l.Path, ".") == ex.Args[1].S {
					idx = i
				}
			}
			if idx < 0 {
				e.fail("no leaf %s", ex.Args[1].S)
			}
		}
		return tv(x.content(e.heap, el, idx, v.L[0]))
	case "leafarr":
		// leafarr("torrent.Torrent.Length"): a whole heap array
		e.fail("leafarr")
	case "fresh":
		v := e.eval(arg(0))
		b := v.L[0]
		if v.T != nil && isInterface(v.T) {
			b = v.L[1]
		}
		return tv(And(Le(e.old.Top, b), Lt(b, e.top)))
	case "existing":
		v := e.eval(arg(0))
		return tv(Lt(v.L[0], e.old.Top))
	case "dom":
		v := e.eval(arg(0))
		return tv(x.mapDom(e.heap, v.T, v.t()))
	case "vals":
		v := e.eval(arg(0))
		i := 0
		if len(ex.Args) > 1 {
			for j, l := range leavesOf(elemOf(v.T)) {
				if strings.TrimPrefix(l.Path, ".") == ex.Args[1].S {
					i = j
				}
			}
		}
		return tv(x.mapVal(e.heap, v.T, v.t(), i))
	case "visited":
		fr := e.st.frame()
		var key string
		for _, v := range fr.Env {
			if it, ok := v.Sp.(*mapIter); ok && it.key > key {
				key = it.key
			}
		}
		if key == "" {
			e.fail("no map iteration")
		}
		return tv(e.heap[key])
	case "is":
		v := e.eval(arg(0))
		return tv(Eq(v.L[0], tagOf(x.prog.typeByName(arg(1).S))))
	case "unbox":
		v := e.eval(arg(0))
		t := x.prog.typeByName(arg(1).S)
		return e.fact(x.unboxIn(e.heap, v, t))
	case "asptr":
		// asptr(ref, "T"): the reference as a pointer to T
		r := e.term(arg(0))
		t := x.prog.typeByName(arg(1).S)
		return Val{T: types.NewPointer(t), L: []*Term{r}}
	case "asval":
		t := x.prog.typeByName(arg(1).S)
		return Val{T: t, L: e.eval(arg(0)).L}
	case "iface":
		t := x.prog.typeByName(arg(2).S)
		return Val{T: t, L: []*Term{e.term(arg(0)), e.term(arg(1))}}
	case "tagof":
		return tv(tagOf(x.prog.typeByName(arg(0).S)))
	case "tag":
		return tv(e.eval(arg(0)).L[0])
	case "ival":
		return tv(e.eval(arg(0)).L[1])
	case "ref":
		return tv(e.eval(arg(0)).L[0])
	case "ite":
		c := e.bool(arg(0))
		a, b := e.eval(arg(1)), e.eval(arg(2))
		r := Val{T: a.T}
		for i := range a.L {
			r.L = append(r.L, Ite(c, a.L[i], b.L[i]))
		}
		return r
	case "min":
		a, b := e.term(arg(0)), e.term(arg(1))
		return tv(Ite(Le(a, b), a, b))
	case "max":
		a, b := e.term(arg(0)), e.term(arg(1))
		return tv(Ite(Le(b, a), a, b))
	case "store":
		return tv(Store(e.term(arg(0)), e.term(arg(1)), e.term(arg(2))))
	case "sel":
		return tv(Select(e.term(arg(0)), e.term(arg(1))))
	case "cat":
		s := e.strOf(arg(0))
		for _, a := range ex.Args[1:] {
			s = cat(s, e.strOf(a))
		}
		return tv(s)
	case "held":
		// held(t.mutex): the lock is held
		return tv(Bool(x.isHeldSpec(e, arg(0))))
	case "top":
		return tv(e.top)
	case "nlocks":
		return tv(Int(int64(e.st.NLocks)))
	case "natomic":
		return tv(Int(int64(e.st.NAtomic)))
	case "fstr", "fint", "fbool":
		// the value of a deterministic library function
		var in []*Term
		for _, a := range ex.Args[1:] {
			in = append(in, x.argTerms(e.heap, e.eval(a))...)
		}
		return tv(App("fn."+arg(0).S, map[string]string{"fstr": SStr, "fint": SInt, "fbool": SBool}[ex.S], in...))
	case "lit":
		return tv(StrLit(arg(0).S))
	case "real":
		return tv(App("to_real", SReal, e.term(arg(0))))
	}
	if m, ok := x.specs.Macros[ex.S]; ok {
		if len(m.Params) != len(ex.Args) {
			e.fail("arguments of %s", ex.S)
		}
		n := *e
		n.names = map[string]Val{}
		for k, v := range e.names {
			n.names[k] = v
		}
		for i, p := range m.Params {
			n.names[p] = e.eval(ex.Args[i])
		}
		return n.eval(m.Body)
	}
	if fs, ok := funSort[ex.S]; ok {
		var ts []*Term
		for i, a := range ex.Args {
			if i >= len(fs)-1 {
				e.fail("too many arguments: %s", ex)
			}
			var t *Term
			if fs[i] == SStr {
				t = e.strOf(a)
			} else {
				v := e.eval(a)
				if len(v.L) != 1 {
					e.fail("argument %d of %s", i, ex)
				}
				t = v.L[0]
			}
			if t.Sort != fs[i] {
				e.fail("argument %d of %s has sort %s, not %s", i, ex, t.Sort, fs[i])
			}
			ts = append(ts, t)
		}
		if len(ts) != len(fs)-1 {
			e.fail("arguments of %s", ex)
		}
		return tv(App(ex.S, fs[len(fs)-1], ts...))
	}
	e.fail("unknown function %s", ex.S)
	return Val{}
}
