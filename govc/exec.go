package main

// Symbolic execution of go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Fn    string
	Kind  string
	Desc  string
	Pos   string
	Tags  []string
	Facts *Assert
	Goal  *Term
	Triv  bool
	Res   Result
	Trace []string
	Extra []*Term
}

func (o *Obl) ID() string { return o.Fn + "/" + o.Kind + "/" + o.Desc }

type Exec struct {
	idxNames map[*Term]*Term
	prog  *Program
	specs *Specs
	prop  string
	root  *ssa.Function
	c     *Contract
	q     *Quick

	obls      []*Obl
	dry       int
	initHeap  map[string]*Term
	runID     int
	paths     int
	returns   int
	old       *Snap
	top0      *Term
	seq0      int
	names     map[string]Val
	mods      []ModLoc
	used      map[string]bool // contracts and assumptions used
	inlined   map[string]bool
	deadline  time.Time
	loopLog   []string
	steps     int
	reach     []*Assert
	itN       int
	inSpec    int
	notes     map[string]bool
	callDepth int
	invOK     int
	invKept   map[*Clause]bool
	rets      []*State
	views     map[*Term]*Term
}

type ModLoc struct {
	Key string
	Ref *Term // nil: scalar or everything
	All bool
}

type Cont func(st *State, res []Val)

func (x *Exec) relevant(tags []string) bool {
	if len(tags) == 0 || x.prop == "" {
		return true
	}
	for _, t := range tags {
		if t == x.prop {
			return true
		}
	}
	return false
}

func (x *Exec) oblige(st *State, kind, desc string, pos token.Pos, tags []string, goal *Term) {
	if x.dry == 0 && x.relevant(tags) {
		// a conjunction is proved conjunct by conjunct
		if goal.Op == "and" {
			for _, g := range goal.Args {
				x.addObl(st, kind, desc, pos, tags, g)
				st.assume(g)
			}
			return
		}
		x.addObl(st, kind, desc, pos, tags, goal)
	}
	st.assume(goal)
}

func (x *Exec) addObl(st *State, kind, desc string, pos token.Pos, tags []string, goal *Term) {
	o := &Obl{Fn: shortName(x.root), Kind: kind, Desc: desc, Tags: tags, Facts: st.Asserts, Goal: goal, Trace: append([]string(nil), st.Trace...)}
	if x.c != nil && x.c.Variant != "" {
		o.Fn += "@" + x.c.Variant
	}
	if pos.IsValid() {
		p := x.prog.fset.Position(pos)
		o.Pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, x.prog.dir+"/"), p.Line)
	}
	if goal == True || st.Facts[goal] {
		o.Triv = true
	}
	x.obls = append(x.obls, o)
}

// safety emits a panic-freedom obligation.
func (x *Exec) safety(st *State, desc string, pos token.Pos, goal *Term) {
	if goal == True {
		if x.dry == 0 && x.safetyOn() {
			x.addObl(st, "safety", desc, pos, nil, True)
		}
		return
	}
	if x.dry == 0 && x.safetyOn() {
		x.oblige(st, "safety", desc, pos, nil, goal)
		return
	}
	st.assume(goal)
}

func (x *Exec) safetyOn() bool {
	if x.c == nil {
		return false
	}
	for _, s := range x.c.Safety {
		if s == x.prop || x.prop == "" {
			return true
		}
	}
	return false
}

func (x *Exec) feasible(st *State, t *Term) bool {
	if t == True {
		return true
	}
	if t == False {
		return false
	}
	if st.Facts[Not(t)] {
		return false
	}
	return x.q.check(st.Asserts, t) != "unsat"
}

// quick says whether t certainly holds.
func (x *Exec) quick(st *State, t *Term) bool {
	if t == True {
		return true
	}
	if t == False {
		return false
	}
	if st.Facts[t] {
		return true
	}
	if t.quant {
		return false
	}
	return x.q.check(st.Asserts, Not(t)) == "unsat"
}

func (x *Exec) tick() {
	x.steps++
	if x.steps > 2000000 {
		unsupported("too many steps")
	}
	if x.steps%64 == 0 && !x.deadline.IsZero() && time.Now().After(x.deadline) {
		unsupported("symbolic execution took too long")
	}
}

// ---- running functions ----

func (x *Exec) runFunc(st *State, fn *ssa.Function, args []Val, bindings []Val, k Cont) {
	if len(fn.Blocks) == 0 {
		unsupported("no body: %s", fn)
	}
	if len(st.Frames) > 40 {
		unsupported("inlining too deep: %s", fn)
	}
	n := 0
	for _, f := range st.Frames {
		if f.Fn == fn {
			n++
		}
	}
	if n > 0 && !(x.c != nil && x.c.Unroll > 0 && n <= x.c.Unroll) {
		unsupported("recursive function without contract: %s", shortName(fn))
	}
	fr := &Frame{Fn: fn, Env: map[ssa.Value]Val{}, Visits: map[*ssa.BasicBlock]int{}, Params: args}
	for i, p := range fn.Params {
		if i >= len(args) {
			unsupported("arity of %s", fn)
		}
		v := args[i]
		if v.T == nil {
			v.T = p.Type()
		}
		fr.Env[p] = retype(v, p.Type())
	}
	for i, fv := range fn.FreeVars {
		if i < len(bindings) {
			fr.Env[fv] = bindings[i]
		}
	}
	st.Frames = append(st.Frames, fr)
	x.block(st, nil, fn.Blocks[0], k)
}

func retype(v Val, t types.Type) Val {
	v.T = t
	return v
}

func (x *Exec) jump(st *State, from, to *ssa.BasicBlock, k Cont) {
	fr := st.frame()
	for len(fr.Loops) > 0 {
		lc := fr.Loops[len(fr.Loops)-1]
		if lc.info.blocks[to] {
			break
		}
		fr.Loops = fr.Loops[:len(fr.Loops)-1]
		if lc.onExit != nil && !lc.onExit(st) {
			return
		}
	}
	if len(fr.Loops) > 0 {
		lc := fr.Loops[len(fr.Loops)-1]
		if lc.info.header == to {
			lc.onBack(st, from)
			return
		}
	}
	if li := x.prog.loopAt(fr.Fn, to); li != nil {
		x.loop(st, from, li, k)
		return
	}
	x.block(st, from, to, k)
}

func (x *Exec) phis(st *State, from, b *ssa.BasicBlock) {
	fr := st.frame()
	idx := -1
	for i, p := range b.Preds {
		if p == from {
			idx = i
		}
	}
	vals := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = retype(x.val(st, p.Edges[idx]), p.Type())
	}
	for p, v := range vals {
		fr.Env[p] = v
	}
}

func (x *Exec) block(st *State, from, b *ssa.BasicBlock, k Cont) {
	if from != nil {
		x.phis(st, from, b)
	}
	x.instrs(st, b, 0, k)
}

func (x *Exec) instrs(st *State, b *ssa.BasicBlock, i int, k Cont) {
	for ; i < len(b.Instrs); i++ {
		x.tick()
		in := b.Instrs[i]
		fr := st.frame()
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.val(st, in.Cond).t()
			x.branch(st, c, in.Cond.Pos(), func(s *State) { x.jump(s, b, b.Succs[0], k) }, func(s *State) { x.jump(s, b, b.Succs[1], k) })
			return
		case *ssa.Jump:
			x.jump(st, b, b.Succs[0], k)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, x.val(st, r))
			}
			// typed results
			sig := fr.Fn.Signature.Results()
			for j := range res {
				res[j] = retype(res[j], sig.At(j).Type())
			}
			st.Frames = st.Frames[:len(st.Frames)-1]
			k(st, res)
			return
		case *ssa.Panic:
			x.safety(st, "panic is unreachable", in.Pos(), False)
			return
		case *ssa.RunDefers:
			x.runDefers(st, func(s *State) { x.instrs(s, b, i+1, k) })
			return
		case *ssa.Call:
			next := i + 1
			x.call(st, in, &in.Call, func(s *State, res []Val) {
				x.bind(s, in, res)
				x.instrs(s, b, next, k)
			})
			return
		case *ssa.Select:
			next := i + 1
			x.selectInstr(st, in, func(s *State) { x.instrs(s, b, next, k) })
			return
		case *ssa.TypeAssert:
			next := i + 1
			x.typeAssert(st, in, func(s *State, v Val) {
				s.frame().Env[in] = v
				x.instrs(s, b, next, k)
			})
			return
		case *ssa.Go:
			next := i + 1
			x.goStmt(st, in, func(s *State) { x.instrs(s, b, next, k) })
			return
		case *ssa.Send:
			next := i + 1
			ch := x.val(st, in.Chan)
			v := x.val(st, in.X)
			x.event(st, "chan.send", in.Pos(), []Val{ch, v}, nil, func(s *State, _ []Val) { x.instrs(s, b, next, k) })
			return
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				next := i + 1
				ch := x.val(st, in.X)
				el := elemOf(in.X.Type())
				v := x.freshVal(st, "recv", el)
				ok := Val{T: types.Typ[types.Bool], L: []*Term{True}}
				if in.CommaOk {
					ok.L[0] = Fresh("recvok", SBool)
				}
				x.event(st, "chan.recv", in.Pos(), []Val{ch}, []Val{v, ok}, func(s *State, res []Val) {
					if in.CommaOk {
						s.frame().Env[in] = Val{T: in.Type(), L: append(append([]*Term{}, res[0].L...), res[1].L...)}
					} else {
						s.frame().Env[in] = res[0]
					}
					x.instrs(s, b, next, k)
				})
				return
			}
			fr.Env[in] = x.unop(st, in)
		default:
			x.instr(st, in)
		}
	}
	panic("block without terminator")
}

func (x *Exec) bind(st *State, in *ssa.Call, res []Val) {
	fr := st.frame()
	switch {
	case len(res) == 1 && !isTuple(in.Type()):
		fr.Env[in] = retype(res[0], in.Type())
	default:
		tv := Val{T: in.Type()}
		for _, r := range res {
			tv.L = append(tv.L, r.L...)
		}
		tv.Sp = tupleVals(res)
		fr.Env[in] = tv
	}
}

type tupleVals []Val

func isTuple(t types.Type) bool { _, ok := t.(*types.Tuple); return ok }

func (x *Exec) branch(st *State, c *Term, pos token.Pos, a, b func(*State)) {
	if c == True {
		a(st)
		return
	}
	if c == False {
		b(st)
		return
	}
	x.paths++
	if x.paths > 60000 {
		unsupported("too many paths")
	}
	n := Not(c)
	fa := x.feasible(st, c)
	fb := !fa || x.feasible(st, n)
	switch {
	case fa && fb:
		s2 := st.clone()
		st.assume(c)
		x.trace(st, pos, "true")
		a(st)
		s2.assume(n)
		x.trace(s2, pos, "false")
		b(s2)
	case fa:
		st.assume(c)
		a(st)
	default:
		st.assume(n)
		b(st)
	}
}

func (x *Exec) trace(st *State, pos token.Pos, s string) {
	if pos.IsValid() {
		p := x.prog.fset.Position(pos)
		st.Trace = append(st.Trace, fmt.Sprintf("%s:%d %s", p.Filename[strings.LastIndexByte(p.Filename, '/')+1:], p.Line, s))
	}
}

func (x *Exec) runDefers(st *State, k func(*State)) {
	fr := st.frame()
	if len(fr.Defers) == 0 {
		k(st)
		return
	}
	d := fr.Defers[len(fr.Defers)-1]
	fr.Defers = fr.Defers[:len(fr.Defers)-1]
	x.callVals(st, d.instr, d.common, d.fn, d.args, func(s *State, _ []Val) { x.runDefers(s, k) })
}

// ---- values of operands ----

func (x *Exec) val(st *State, v ssa.Value) Val {
	fr := st.frame()
	if r, ok := fr.Env[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return Val{T: v.Type(), L: []*Term{x.prog.globalRef(v)}}
	case *ssa.Function:
		return Val{T: v.Type(), L: []*Term{x.prog.funcID(v)}, Fn: &Closure{Fn: v}}
	case *ssa.Builtin:
		return Val{T: v.Type(), Fn: &Closure{Name: v.Name()}}
	}
	unsupported("value %s = %s in %s", v.Name(), v, fr.Fn)
	return Val{}
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zeroVal(t)
	}
	return constTerm(t, c.Value)
}

func constTerm(t types.Type, cv constant.Value) Val {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsupported("constant of type %v", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Val{T: t, L: []*Term{Bool(constant.BoolVal(cv))}}
	case b.Info()&types.IsInteger != 0:
		i, _ := new(big.Int).SetString(constant.ToInt(cv).ExactString(), 10)
		return Val{T: t, L: []*Term{BigInt(i)}}
	case b.Info()&types.IsString != 0:
		return Val{T: t, L: []*Term{StrLit(constant.StringVal(cv))}}
	case b.Info()&types.IsFloat != 0:
		return Val{T: t, L: []*Term{realConst(cv)}}
	}
	unsupported("constant of type %v", t)
	return Val{}
}

func realConst(cv constant.Value) *Term {
	f := constant.ToFloat(cv)
	num := constant.Num(f).ExactString()
	den := constant.Denom(f).ExactString()
	neg := strings.HasPrefix(num, "-")
	num = strings.TrimPrefix(num, "-")
	s := fmt.Sprintf("(/ %s.0 %s.0)", num, den)
	if neg {
		s = "(- " + s + ")"
	}
	return mk(&Term{Op: "real", Name: s, Sort: SReal})
}

// ---- instructions without control flow ----

func (x *Exec) instr(st *State, in ssa.Instruction) {
	fr := st.frame()
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		fr.Env[in] = x.allocObj(st, t, "new_"+in.Comment)
	case *ssa.BinOp:
		fr.Env[in] = x.binop(st, in)
	case *ssa.Store:
		p := x.val(st, in.Addr)
		l := x.ptrLoc(p)
		x.nilCheck(st, p, l, in.Pos())
		x.guardCheck(st, l, true, in.Pos())
		v := x.val(st, in.Val)
		if v.Fn != nil && len(v.L) == 0 {
			v.L = []*Term{x.prog.closureID(v.Fn)}
		}
		if v.Fn != nil {
			x.prog.closures[v.L[0]] = v.Fn
		}
		x.write(st, l, v)
	case *ssa.FieldAddr:
		p := x.val(st, in.X)
		l := x.ptrLoc(p)
		x.nilCheck(st, p, l, in.Pos())
		fr.Env[in] = x.fieldAddr(l, in.Field, in.Type())
	case *ssa.Field:
		v := x.val(st, in.X)
		lo, hi := fieldRange(v.T, in.Field)
		fv := Val{T: in.Type(), L: v.L[lo:hi]}
		if v.From != nil {
			f := *v.From
			f.Lo, f.Hi, f.T = v.From.Lo+lo, v.From.Lo+hi, in.Type()
			fv.From = &f
		}
		fr.Env[in] = fv
	case *ssa.IndexAddr:
		fr.Env[in] = x.indexAddr(st, in)
	case *ssa.Index:
		v := x.val(st, in.X)
		i := x.val(st, in.Index).t()
		switch u := v.T.Underlying().(type) {
		case *types.Array:
			x.safety(st, "array index in range", in.Pos(), And(Le(Zero, i), Lt(i, Int(u.Len()))))
			var ts []*Term
			for _, a := range v.L {
				ts = append(ts, Select(a, i))
			}
			r := Val{T: in.Type(), L: ts}
			x.facts(st, r)
			fr.Env[in] = r
		case *types.Basic: // string
			s := v.t()
			x.safety(st, "string index in range", in.Pos(), And(Le(Zero, i), Lt(i, slen(s))))
			r := Val{T: in.Type(), L: []*Term{x.strAt(s, i)}}
			x.facts(st, r)
			fr.Env[in] = r
		default:
			unsupported("index of %v", v.T)
		}
	case *ssa.Lookup:
		x.lookup(st, in)
	case *ssa.Extract:
		v := x.val(st, in.Tuple)
		if tv, ok := v.Sp.(tupleVals); ok {
			fr.Env[in] = retype(tv[in.Index], in.Type())
			break
		}
		lo, hi := tupleRange(v.T.(*types.Tuple), in.Index)
		fr.Env[in] = Val{T: in.Type(), L: v.L[lo:hi]}
	case *ssa.ChangeType:
		fr.Env[in] = retype(x.val(st, in.X), in.Type())
	case *ssa.ChangeInterface:
		fr.Env[in] = retype(x.val(st, in.X), in.Type())
	case *ssa.MakeInterface:
		fr.Env[in] = x.box(st, x.val(st, in.X), in.Type())
	case *ssa.Convert:
		fr.Env[in] = x.convert(st, x.val(st, in.X), in.Type(), in.Pos())
	case *ssa.MakeSlice:
		n := x.val(st, in.Len).t()
		c := x.val(st, in.Cap).t()
		x.safety(st, "make: length and capacity in range", in.Pos(), And(Le(Zero, n), Le(n, c)))
		x.withHooks(st, "make.slice", in.Pos(), []Val{x.val(st, in.Len), x.val(st, in.Cap)}, func(*State, []Val) {}, func(s *State, k Cont) { k(s, nil) })
		fr.Env[in] = x.makeSlice(st, in.Type(), n, c)
	case *ssa.MakeMap:
		r := x.allocRef(st, "map")
		x.initMap(st, in.Type(), r)
		fr.Env[in] = Val{T: in.Type(), L: []*Term{r}}
	case *ssa.MakeChan:
		r := x.allocRef(st, "chan")
		fr.Env[in] = Val{T: in.Type(), L: []*Term{r}}
	case *ssa.MakeClosure:
		cl := &Closure{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			cl.Bindings = append(cl.Bindings, x.val(st, b))
		}
		id := x.prog.closureID(cl)
		fr.Env[in] = Val{T: in.Type(), L: []*Term{id}, Fn: cl}
	case *ssa.Slice:
		fr.Env[in] = x.slice(st, in)
	case *ssa.MapUpdate:
		m := x.val(st, in.Map)
		x.guardVal(st, m, true, in.Pos())
		x.safety(st, "assignment to entry in nil map", in.Pos(), Not(Eq(m.t(), Zero)))
		x.mapSet(st, m, x.val(st, in.Key).t(), x.val(st, in.Value))
	case *ssa.Range:
		v := x.val(st, in.X)
		x.guardVal(st, v, false, in.Pos())
		if _, ok := v.T.Underlying().(*types.Map); !ok {
			unsupported("range over %v", v.T)
		}
		ks, _ := mapSorts(v.T)
		x.itN++
		key := fmt.Sprintf("it:%d", x.itN)
		st.Heap[key] = ConstArr(ArrSort(ks, SBool), False)
		fr.Env[in] = Val{T: in.Type(), Sp: &mapIter{key: key, m: v, dom: x.mapDom(st.Heap, v.T, v.t())}}
	case *ssa.Next:
		x.next(st, in)
	case *ssa.Defer:
		d := deferred{common: &in.Call, instr: in}
		if !in.Call.IsInvoke() {
			d.fn = x.val(st, in.Call.Value)
		} else {
			d.fn = x.val(st, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.val(st, a))
		}
		fr.Defers = append(fr.Defers, d)
	default:
		unsupported("instruction %T %s", in, in)
	}
}

type mapIter struct {
	key string
	m   Val
	dom *Term
}

func (x *Exec) strAt(s, i *Term) *Term {
	r := resolve(s)
	if r.Op == "app" && r.Name == "mkstr" {
		return Select(r.Args[0], Add(r.Args[1], i))
	}
	return sat(s, i)
}

func (x *Exec) fieldAddr(l *Loc, f int, t types.Type) Val {
	lo, hi := fieldRange(l.T, f)
	el := t.Underlying().(*types.Pointer).Elem()
	n := *l
	n.Lo, n.Hi, n.T = l.Lo+lo, l.Lo+hi, el
	return Val{T: t, L: []*Term{Fresh("addr", SInt)}, Loc: &n}
}

func (x *Exec) nilCheck(st *State, p Val, l *Loc, pos token.Pos) {
	if p.Loc != nil {
		return
	}
	if l.Base.alloc || l.Base.Op == "int" && l.Base.Val.Sign() < 0 {
		return
	}
	x.safety(st, "nil dereference of "+typeName(p.T), pos, Not(Eq(l.Base, Zero)))
}

func (x *Exec) indexAddr(st *State, in *ssa.IndexAddr) Val {
	v := x.val(st, in.X)
	i := x.val(st, in.Index).t()
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		x.guardVal(st, v, false, in.Pos())
		x.safety(st, "slice index in range", in.Pos(), And(Le(Zero, i), Lt(i, v.L[2])))
		el := u.Elem()
		i = x.idxName(st, i)
		return Val{T: in.Type(), L: []*Term{Fresh("addr", SInt)}, Loc: &Loc{Kind: "elem", Key: elemKey(el), Base: v.L[0], Idx: Add(v.L[1], i), Root: el, Lo: 0, Hi: len(leavesOf(el)), T: el}}
	case *types.Pointer:
		l := x.ptrLoc(v)
		x.nilCheck(st, v, l, in.Pos())
		a := u.Elem().Underlying().(*types.Array)
		if l.Kind != "arrobj" {
			unsupported("array inside another object")
		}
		x.safety(st, "array index in range", in.Pos(), And(Le(Zero, i), Lt(i, Int(a.Len()))))
		el := a.Elem()
		return Val{T: in.Type(), L: []*Term{Fresh("addr", SInt)}, Loc: &Loc{Kind: "elem", Key: elemKey(el), Base: l.Base, Idx: i, Root: el, Lo: 0, Hi: len(leavesOf(el)), T: el}}
	}
	unsupported("index address of %v", v.T)
	return Val{}
}

// idxName gives an index expression a name (flag nameidx), so that the offset
// of the slice plus the index has the form it has in quantified facts.
func (x *Exec) idxName(st *State, i *Term) *Term {
	if x.c == nil || !x.c.Flags["nameidx"] || i.Op != "+" {
		return i
	}
	if x.idxNames == nil {
		x.idxNames = map[*Term]*Term{}
	}
	c := x.idxNames[i]
	if c == nil {
		c = Fresh("ix", SInt)
		x.idxNames[i] = c
	}
	st.assume(Eq(c, i))
	return c
}

func (x *Exec) unop(st *State, in *ssa.UnOp) Val {
	v := x.val(st, in.X)
	switch in.Op {
	case token.MUL:
		return x.load(st, v, in.Pos())
	case token.NOT:
		return Val{T: in.Type(), L: []*Term{Not(v.t())}}
	case token.SUB:
		if v.t().Sort == SReal {
			return Val{T: in.Type(), L: []*Term{Sub(mk(&Term{Op: "real", Name: "0.0", Sort: SReal}), v.t())}}
		}
		return Val{T: in.Type(), L: []*Term{x.wrap(st, Neg(v.t()), in.Type(), false)}}
	case token.XOR:
		lo, hi, _, uns := intRange(in.Type())
		_ = lo
		if uns {
			return Val{T: in.Type(), L: []*Term{Sub(BigInt(hi), v.t())}}
		}
		return Val{T: in.Type(), L: []*Term{Sub(Int(-1), v.t())}}
	}
	unsupported("unary %s", in)
	return Val{}
}

func (x *Exec) load(st *State, p Val, pos token.Pos) Val {
	l := x.ptrLoc(p)
	x.nilCheck(st, p, l, pos)
	x.guardCheck(st, l, false, pos)
	if l.Cast != nil {
		// *(*string)(unsafe.Pointer(&b)): the bytes of b as a string
		if isString(l.Cast) && isByteSlice(l.T) {
			v := x.read(st.Heap, l)
			x.note("b2s: the bytes behind a string made with unsafe are not modified afterwards")
			return Val{T: l.Cast, L: []*Term{x.name(st, "s", x.bytesStr(st.Heap, v))}}
		}
		unsupported("load through unsafe pointer")
	}
	v := x.read(st.Heap, l)
	x.facts(st, v)
	if len(v.L) == 1 {
		if cl, ok := x.prog.closures[v.L[0]]; ok {
			v.Fn = cl
		}
	}
	if g := x.prog.globalOf(l.Base); g != nil {
		x.globalFacts(st, g, v)
	}
	return v
}

func (x *Exec) note(s string) {
	if x.notes != nil {
		x.notes[s] = true
	}
}

// wrap brings a mathematical result into the range of t. small says the value
// is at most one wrap away.
func (x *Exec) wrap(st *State, v *Term, t types.Type, small bool) *Term {
	lo, hi, bits, uns := intRange(t)
	if lo == nil {
		return v
	}
	if isInt(v) {
		if v.Val.Cmp(lo) >= 0 && v.Val.Cmp(hi) <= 0 {
			return v
		}
		m := new(big.Int).Lsh(one, uint(bits))
		r := new(big.Int).Mod(v.Val, m)
		if !uns && r.Cmp(hi) > 0 {
			r.Sub(r, m)
		}
		return BigInt(r)
	}
	if x.quick(st, And(Le(BigInt(lo), v), Le(v, BigInt(hi)))) {
		return v
	}
	m := BigInt(new(big.Int).Lsh(one, uint(bits)))
	if small {
		return x.name(st, "w", Ite(Lt(BigInt(hi), v), Sub(v, m), Ite(Lt(v, BigInt(lo)), Add(v, m), v)))
	}
	r := Mod(v, m)
	if uns {
		return x.name(st, "w", r)
	}
	r = x.name(st, "w", r)
	return x.name(st, "w", Ite(Lt(BigInt(hi), r), Sub(r, m), r))
}

// bitSpan gives the range [lo,hi) of bits that can be set in t, or ok=false.
func bitSpan(st *State, t *Term, depth int) (lo, hi int, ok bool) {
	t0 := t
	t = resolve(t)
	if depth > 6 {
		return
	}
	if isInt(t) {
		if t.Val.Sign() == 0 {
			return 0, 0, true
		}
		if t.Val.Sign() < 0 {
			return
		}
		return int(t.Val.TrailingZeroBits()), t.Val.BitLen(), true
	}
	if t.Op == "*" && isInt(t.Args[0]) && t.Args[0].Val.Sign() > 0 {
		k := t.Args[0].Val
		tz := int(k.TrailingZeroBits())
		if k.BitLen() == tz+1 {
			l, h, ok := bitSpan(st, t.Args[1], depth+1)
			return l + tz, h + tz, ok
		}
		return
	}
	if t.Op == "+" {
		lo, hi = 1<<30, 0
		spans := [][2]int{}
		for _, a := range t.Args {
			l, h, ok := bitSpan(st, a, depth+1)
			if !ok {
				return 0, 0, false
			}
			spans = append(spans, [2]int{l, h})
			lo, hi = min(lo, l), max(hi, h)
		}
		for i := range spans {
			for j := range spans[:i] {
				if spans[i][0] < spans[j][1] && spans[j][0] < spans[i][1] {
					return 0, 0, false
				}
			}
		}
		return lo, hi, true
	}
	if t.Op == "mod" && isInt(t.Args[1]) {
		k := t.Args[1].Val
		if k.BitLen() == int(k.TrailingZeroBits())+1 {
			return 0, k.BitLen() - 1, true
		}
	}
	for _, b := range []int{1, 8, 16, 32} {
		m := new(big.Int).Sub(new(big.Int).Lsh(one, uint(b)), one)
		for _, y := range []*Term{t, t0} {
			if st.Facts[Le(y, BigInt(m))] && st.Facts[Le(Zero, y)] {
				return 0, b, true
			}
		}
	}
	return
}

func (x *Exec) binop(st *State, in *ssa.BinOp) Val {
	a, b := x.val(st, in.X), x.val(st, in.Y)
	return x.binopVals(st, in.Op, a, b, in.Type(), in.Pos())
}

func (x *Exec) binopVals(st *State, op token.Token, a, b Val, rt types.Type, pos token.Pos) Val {
	bl := func(t *Term) Val { return Val{T: rt, L: []*Term{t}} }
	switch op {
	case token.EQL, token.NEQ:
		t := x.eqVals(st, a, b)
		if op == token.NEQ {
			t = Not(t)
		}
		return bl(t)
	}
	l, r := a.t(), b.t()
	if l.Sort == SStr {
		switch op {
		case token.ADD:
			s := cat(l, r)
			if s.Op == "app" {
				s = x.name(st, "s", s)
				s0 := slen(s)
				st.assume(Eq(s0, Add(slen(l), slen(r))))
			}
			return bl(s)
		case token.LSS:
			return bl(App("strlt", SBool, l, r))
		case token.GTR:
			return bl(App("strlt", SBool, r, l))
		case token.LEQ:
			return bl(Not(App("strlt", SBool, r, l)))
		case token.GEQ:
			return bl(Not(App("strlt", SBool, l, r)))
		}
		unsupported("string operator %s", op)
	}
	switch op {
	case token.LSS:
		return bl(Lt(l, r))
	case token.LEQ:
		return bl(Le(l, r))
	case token.GTR:
		return bl(Lt(r, l))
	case token.GEQ:
		return bl(Le(r, l))
	}
	if l.Sort == SReal {
		x.note("floating point arithmetic is treated as real arithmetic")
		switch op {
		case token.ADD:
			return bl(Add(l, r))
		case token.SUB:
			return bl(Sub(l, r))
		case token.MUL:
			return bl(Mul(l, r))
		case token.QUO:
			return bl(mk(&Term{Op: "r/", Sort: SReal, Args: []*Term{l, r}}))
		}
		unsupported("float operator %s", op)
	}
	if l.Sort == SBool {
		switch op {
		case token.AND:
			return bl(And(l, r))
		case token.OR:
			return bl(Or(l, r))
		}
		unsupported("bool operator %s", op)
	}
	switch op {
	case token.ADD:
		return bl(x.wrap(st, Add(l, r), rt, true))
	case token.SUB:
		return bl(x.wrap(st, Sub(l, r), rt, true))
	case token.MUL:
		return bl(x.wrap(st, Mul(l, r), rt, false))
	case token.QUO, token.REM:
		x.safety(st, "division by zero", pos, Not(Eq(r, Zero)))
		q, m := x.divmod(st, l, r)
		if op == token.QUO {
			return bl(x.wrap(st, q, rt, true))
		}
		return bl(m)
	case token.SHL:
		if isInt(r) && r.Val.IsInt64() {
			if r.Val.Int64() > 128 {
				return bl(Zero)
			}
			return bl(x.wrap(st, Mul(l, BigInt(new(big.Int).Lsh(one, uint(r.Val.Int64())))), rt, false))
		}
	case token.SHR:
		if isInt(r) && r.Val.IsInt64() && r.Val.Int64() <= 128 {
			return bl(Div(l, BigInt(new(big.Int).Lsh(one, uint(r.Val.Int64())))))
		}
	case token.AND:
		for _, p := range [][2]*Term{{l, r}, {r, l}} {
			if isInt(p[1]) {
				k := new(big.Int).Add(p[1].Val, one)
				if k.Sign() > 0 && k.BitLen() == int(k.TrailingZeroBits())+1 {
					return bl(Mod(p[0], BigInt(k)))
				}
			}
		}
	case token.OR, token.XOR:
		la, ha, ok1 := bitSpan(st, l, 0)
		lb, hb, ok2 := bitSpan(st, r, 0)
		if ok1 && ok2 && (ha <= lb || hb <= la) {
			return bl(Add(l, r))
		}
		if l == Zero {
			return bl(r)
		}
		if r == Zero {
			return bl(l)
		}
	}
	v := bl(App("bit_"+sanitize(opName(op)), SInt, l, r))
	v.T = rt
	x.facts(st, v)
	return v
}

func opName(op token.Token) string {
	switch op {
	case token.SHL:
		return "shl"
	case token.SHR:
		return "shr"
	case token.AND:
		return "and"
	case token.OR:
		return "or"
	case token.XOR:
		return "xor"
	case token.AND_NOT:
		return "andnot"
	}
	return op.String()
}

// divmod is Go's truncated division.
func (x *Exec) divmod(st *State, a, b *Term) (q, r *Term) {
	if isInt(b) && b.Val.Sign() > 0 {
		if x.quick(st, Le(Zero, a)) {
			return Div(a, b), Mod(a, b)
		}
		q = x.name(st, "q", Ite(Le(Zero, a), Div(a, b), Neg(Div(Neg(a), b))))
		return q, x.name(st, "r", Sub(a, Mul(b, q)))
	}
	q, r = Fresh("q", SInt), Fresh("r", SInt)
	st.assume(Implies(Not(Eq(b, Zero)), Eq(a, Add(Mul(b, q), r))))
	if x.quick(st, And(Le(Zero, a), Lt(Zero, b))) {
		st.assume(And(Le(Zero, r), Lt(r, b), Le(Zero, q)))
		return
	}
	absb := Ite(Lt(b, Zero), Neg(b), b)
	st.assume(Implies(Not(Eq(b, Zero)), And(
		Implies(Le(Zero, a), And(Le(Zero, r), Lt(r, absb))),
		Implies(Lt(a, Zero), And(Le(r, Zero), Lt(Neg(r), absb))))))
	return
}

func (x *Exec) eqVals(st *State, a, b Val) *Term {
	if len(a.L) != len(b.L) {
		// comparison of an interface with a concrete value does not occur in ssa
		unsupported("comparison of %v and %v", a.T, b.T)
	}
	if a.T != nil && isInterface(a.T) || b.T != nil && isInterface(b.T) {
		if a.L[0] == Zero {
			return Eq(b.L[0], Zero)
		}
		if b.L[0] == Zero {
			return Eq(a.L[0], Zero)
		}
		return And(Eq(a.L[0], b.L[0]), Eq(a.L[1], b.L[1]))
	}
	if _, ok := a.T.Underlying().(*types.Slice); ok {
		if b.L[0] == Zero {
			return Eq(a.L[0], Zero)
		}
		if a.L[0] == Zero {
			return Eq(b.L[0], Zero)
		}
	}
	if p, ok := a.T.Underlying().(*types.Pointer); ok && a.Loc != nil {
		_ = p
		if b.L[0] == Zero {
			return False
		}
		unsupported("comparison of interior pointers")
	}
	var ts []*Term
	for i := range a.L {
		if strings.HasPrefix(a.L[i].Sort, "(Array") {
			n := Int(a.T.Underlying().(*types.Array).Len())
			if arrayElem(a.L[i].Sort) == SInt {
				ts = append(ts, Eq(mkstr(a.L[i], Zero, n), mkstr(b.L[i], Zero, n)))
				continue
			}
			unsupported("comparison of arrays")
		}
		ts = append(ts, Eq(a.L[i], b.L[i]))
	}
	return And(ts...)
}

// ---- interfaces ----

func (x *Exec) box(st *State, v Val, it types.Type) Val {
	if isInterface(v.T) {
		return retype(v, it)
	}
	ct := v.T
	tag := tagOf(ct)
	r := Val{T: it}
	switch u := ct.Underlying().(type) {
	case *types.Basic:
		switch v.t().Sort {
		case SInt:
			r.L = []*Term{tag, App("box_int", SInt, v.t())}
		case SStr:
			r.L = []*Term{tag, App("box_str", SInt, v.t())}
		default:
			r.L = []*Term{tag, Fresh("box", SInt)}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		_ = u
		if len(v.L) != 1 {
			r.L = []*Term{tag, Fresh("box", SInt)}
		} else {
			r.L = []*Term{tag, v.t()}
		}
	default:
		if len(leavesOf(ct)) == 1 && leavesOf(ct)[0].Sort == SInt {
			r.L = []*Term{tag, App("box_int", SInt, v.t())}
			break
		}
		// a struct or slice: a copy in a box of its own
		ref := x.allocRef(st, "box")
		l := &Loc{Kind: "obj", Key: objKey(ct), Base: ref, Root: ct, Lo: 0, Hi: len(leavesOf(ct)), T: ct}
		for i := l.Lo; i < l.Hi; i++ {
			key, s := x.leafKeySort(l, i)
			h := x.hget(st.Heap, key, s)
			x.hset(st, key, ref, x.name(st, key, Store(h, ref, v.L[i])))
		}
		r.L = []*Term{tag, ref}
	}
	r.Sp = boxed{v}
	return r
}

type boxed struct{ v Val }

// unbox gives the value of dynamic type t in an interface value.
func (x *Exec) unboxIn(h map[string]*Term, v Val, t types.Type) Val {
	if b, ok := v.Sp.(boxed); ok && types.Identical(b.v.T, t) {
		return retype(b.v, t)
	}
	iv := v.L[1]
	switch t.Underlying().(type) {
	case *types.Basic:
		switch leavesOf(t)[0].Sort {
		case SInt:
			if iv.Op == "app" && iv.Name == "box_int" {
				return Val{T: t, L: iv.Args}
			}
			return Val{T: t, L: []*Term{App("unbox_int", SInt, iv)}}
		case SStr:
			if iv.Op == "app" && iv.Name == "box_str" {
				return Val{T: t, L: iv.Args}
			}
			return Val{T: t, L: []*Term{App("unbox_str", SStr, iv)}}
		}
		unsupported("type assertion to %v", t)
	case *types.Pointer, *types.Map, *types.Chan:
		return Val{T: t, L: []*Term{iv}}
	}
	if len(leavesOf(t)) == 1 && leavesOf(t)[0].Sort == SInt {
		return Val{T: t, L: []*Term{App("unbox_int", SInt, iv)}}
	}
	l := &Loc{Kind: "obj", Key: objKey(t), Base: iv, Root: t, Lo: 0, Hi: len(leavesOf(t)), T: t}
	v2 := x.read(h, l)
	v2.From = nil
	return v2
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert, k func(*State, Val)) {
	v := x.val(st, in.X)
	tt := in.AssertedType
	tuple := func(s *State, ok *Term, r Val) Val {
		return Val{T: in.Type(), L: append(append([]*Term{}, r.L...), ok), Sp: tupleVals{r, Val{T: types.Typ[types.Bool], L: []*Term{ok}}}}
	}
	if isInterface(tt) {
		// to another interface: implemented by every non-nil value we know, or not
		var ok *Term
		if isInt(v.L[0]) {
			id := int(v.L[0].Val.Int64())
			if id == 0 {
				ok = False
			} else {
				ok = Bool(types.Implements(tagType[id], tt.Underlying().(*types.Interface)))
			}
		} else {
			ok = Fresh("implements", SBool)
			st.assume(Implies(ok, Not(Eq(v.L[0], Zero))))
			if types.Implements(v.T, tt.Underlying().(*types.Interface)) {
				st.assume(Eq(ok, Not(Eq(v.L[0], Zero))))
			}
		}
		if in.CommaOk {
			r := Val{T: tt, L: []*Term{Ite(ok, v.L[0], Zero), Ite(ok, v.L[1], Zero)}}
			k(st, tuple(st, ok, r))
			return
		}
		x.safety(st, "type assertion", in.Pos(), ok)
		k(st, retype(v, tt))
		return
	}
	ok := Eq(v.L[0], tagOf(tt))
	if !in.CommaOk {
		x.safety(st, "type assertion to "+typeName(tt), in.Pos(), ok)
		r := x.unboxIn(st.Heap, v, tt)
		x.facts(st, r)
		k(st, r)
		return
	}
	x.branch(st, ok, in.Pos(), func(s *State) {
		r := x.unboxIn(s.Heap, v, tt)
		x.facts(s, r)
		k(s, tuple(s, True, r))
	}, func(s *State) {
		k(s, tuple(s, False, x.zeroVal(tt)))
	})
}

// ---- conversions ----

func (x *Exec) convert(st *State, v Val, t types.Type, pos token.Pos) Val {
	from := v.T.Underlying()
	to := t.Underlying()
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		flo, fhi, _, _ := intRange(v.T)
		tlo, thi, _, _ := intRange(t)
		if tlo.Cmp(flo) <= 0 && fhi.Cmp(thi) <= 0 {
			return Val{T: t, L: v.L}
		}
		_, fb2, _, _ := intRange(v.T)
		_ = fb2
		return Val{T: t, L: []*Term{x.wrap(st, v.t(), t, false)}}
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		x.note("floating point arithmetic is treated as real arithmetic")
		return Val{T: t, L: []*Term{App("to_real", SReal, v.t())}}
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		return Val{T: t, L: v.L}
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		r := v.t()
		zero := mk(&Term{Op: "real", Name: "0.0", Sort: SReal})
		tr := Ite(Le(zero, r), App("to_int", SInt, r), Neg(App("to_int", SInt, Sub(zero, r))))
		// out of range conversions are implementation defined
		lo, hi, _, _ := intRange(t)
		w := Fresh("conv", SInt)
		tr = x.name(st, "tr", tr)
		st.assume(Implies(And(Le(BigInt(lo), tr), Le(tr, BigInt(hi))), Eq(w, tr)))
		r2 := Val{T: t, L: []*Term{w}}
		x.facts(st, r2)
		return r2
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return Val{T: t, L: v.L}
	case isByteSlice(v.T) && tok && tb.Info()&types.IsString != 0:
		return Val{T: t, L: []*Term{x.name(st, "s", x.bytesStr(st.Heap, v))}}
	case fok && fb.Info()&types.IsString != 0 && isByteSlice(t):
		return x.strToBytes(st, v.t(), t)
	case tok && tb.Kind() == types.UnsafePointer:
		return Val{T: t, L: v.L, Loc: x.ptrLocOrNil(v)}
	case fok && fb.Kind() == types.UnsafePointer:
		if v.Loc == nil {
			unsupported("conversion of unsafe pointer")
		}
		l := *v.Loc
		l.Cast = to.(*types.Pointer).Elem()
		return Val{T: t, L: v.L, Loc: &l}
	case fok && tok && tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0:
		return x.freshVal(st, "runestr", t)
	}
	if types.Identical(from, to) {
		return retype(v, t)
	}
	unsupported("conversion %v to %v", v.T, t)
	return Val{}
}

func (x *Exec) ptrLocOrNil(v Val) *Loc {
	if _, ok := v.T.Underlying().(*types.Pointer); ok {
		return x.ptrLoc(v)
	}
	return v.Loc
}

func (x *Exec) strToBytes(st *State, s *Term, t types.Type) Val {
	r := x.allocRef(st, "bytes")
	n := slen(s)
	x.setContent(st, elemOf(t), 0, r, App("strbytes", ArrSort(SInt, SInt), s))
	st.assume(Le(Zero, n))
	return Val{T: t, L: []*Term{r, Zero, n, n}}
}

func (x *Exec) makeSlice(st *State, t types.Type, n, c *Term) Val {
	r := x.allocRef(st, "arr")
	el := elemOf(t)
	for i, l := range leavesOf(el) {
		x.setContent(st, el, i, r, ConstArr(ArrSort(SInt, l.Sort), zeroOf(l.Sort, l)))
	}
	return Val{T: t, L: []*Term{r, Zero, n, c}}
}

func (x *Exec) slice(st *State, in *ssa.Slice) Val {
	v := x.val(st, in.X)
	var lo, hi, mx *Term
	lo = Zero
	if in.Low != nil {
		lo = x.val(st, in.Low).t()
	}
	if in.High != nil {
		hi = x.val(st, in.High).t()
	}
	if in.Max != nil {
		mx = x.val(st, in.Max).t()
	}
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		x.guardVal(st, v, false, in.Pos())
		if hi == nil {
			hi = v.L[2]
		}
		c := v.L[3]
		if mx != nil {
			x.safety(st, "slice bounds in range", in.Pos(), And(Le(hi, mx), Le(mx, c)))
			c = mx
		}
		x.safety(st, "slice bounds in range", in.Pos(), And(Le(Zero, lo), Le(lo, hi), Le(hi, v.L[3])))
		r := Val{T: in.Type(), L: []*Term{v.L[0], Add(v.L[1], lo), Sub(hi, lo), Sub(c, lo)}, From: v.From}
		return r
	case *types.Basic:
		s := v.t()
		if hi == nil {
			hi = slen(s)
		}
		x.safety(st, "string slice bounds in range", in.Pos(), And(Le(Zero, lo), Le(lo, hi), Le(hi, slen(s))))
		return Val{T: in.Type(), L: []*Term{x.name(st, "s", substr(s, lo, hi))}}
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		l := x.ptrLoc(v)
		x.nilCheck(st, v, l, in.Pos())
		if l.Kind != "arrobj" {
			unsupported("slicing an array inside another object")
		}
		if g, ok := in.X.(*ssa.Global); ok && len(leavesOf(a.Elem())) == 1 {
			x.globalArrayFacts(st, g, x.content(st.Heap, a.Elem(), 0, l.Base))
		}
		n := Int(a.Len())
		if hi == nil {
			hi = n
		}
		c := n
		if mx != nil {
			c = mx
		}
		x.safety(st, "slice bounds in range", in.Pos(), And(Le(Zero, lo), Le(lo, hi), Le(hi, c), Le(c, n)))
		return Val{T: in.Type(), L: []*Term{l.Base, lo, Sub(hi, lo), Sub(c, lo)}}
	}
	unsupported("slice of %v", v.T)
	return Val{}
}

func substr(s, lo, hi *Term) *Term {
	if lo == Zero && Eq(hi, slen(s)) == True {
		return s
	}
	r := resolve(s)
	if r.Op == "app" && r.Name == "mkstr" {
		return mkstr(r.Args[0], Add(r.Args[1], lo), Sub(hi, lo))
	}
	if r.Op == "str" && isInt(lo) && isInt(hi) {
		l, h := lo.Val.Int64(), hi.Val.Int64()
		if 0 <= l && l <= h && h <= int64(len(r.Name)) {
			return StrLit(r.Name[l:h])
		}
	}
	return App("sub", SStr, s, lo, hi)
}

// ---- maps ----

func (x *Exec) initMap(st *State, t types.Type, r *Term) {
	ks, vl := mapSorts(t)
	set := func(suffix, s string, v *Term) {
		key := mapKeyName(t) + suffix
		h := x.hget(st.Heap, key, ArrSort(SInt, s))
		x.hset(st, key, r, x.name(st, key, Store(h, r, v)))
	}
	set(".dom", ArrSort(ks, SBool), ConstArr(ArrSort(ks, SBool), False))
	set(".card", SInt, Zero)
	for _, l := range vl {
		set(".val"+l.Path, ArrSort(ks, l.Sort), ConstArr(ArrSort(ks, l.Sort), zeroOf(l.Sort, l)))
	}
}

func (x *Exec) mapHas(st *State, m Val, k *Term) *Term {
	return And(Not(Eq(m.t(), Zero)), Select(x.mapDom(st.Heap, m.T, m.t()), k))
}

func (x *Exec) lookup(st *State, in *ssa.Lookup) {
	fr := st.frame()
	m := x.val(st, in.X)
	if isString(m.T) {
		s, i := m.t(), x.val(st, in.Index).t()
		x.safety(st, "string index in range", in.Pos(), And(Le(Zero, i), Lt(i, slen(s))))
		r := Val{T: in.Type(), L: []*Term{x.strAt(s, i)}}
		x.facts(st, r)
		fr.Env[in] = r
		return
	}
	x.guardVal(st, m, false, in.Pos())
	k := x.val(st, in.Index).t()
	has := x.name(st, "has", x.mapHas(st, m, k))
	vt := elemOf(m.T)
	var ts []*Term
	for i, l := range leavesOf(vt) {
		ts = append(ts, x.name(st, "mv", Ite(has, Select(x.mapVal(st.Heap, m.T, m.t(), i), k), zeroOf(l.Sort, l))))
	}
	v := Val{T: vt, L: ts}
	x.facts(st, v)
	if in.CommaOk {
		fr.Env[in] = Val{T: in.Type(), L: append(append([]*Term{}, ts...), has), Sp: tupleVals{v, Val{T: types.Typ[types.Bool], L: []*Term{has}}}}
		return
	}
	fr.Env[in] = v
}

func (x *Exec) mapSet(st *State, m Val, k *Term, v Val) {
	ref := m.t()
	x.checkFrame(st, mapKeyName(m.T), ref)
	ks, vl := mapSorts(m.T)
	dom := x.mapDom(st.Heap, m.T, ref)
	has := Select(dom, k)
	card := x.mapCard(st.Heap, m.T, ref)
	st.assume(Le(Zero, card))
	st.assume(Implies(has, Lt(Zero, card)))
	set := func(suffix, s string, v *Term) {
		key := mapKeyName(m.T) + suffix
		h := x.hget(st.Heap, key, ArrSort(SInt, s))
		x.hset(st, key, ref, x.name(st, key, Store(h, ref, x.name(st, "c", v))))
	}
	set(".card", SInt, Ite(has, card, Add(card, One)))
	set(".dom", ArrSort(ks, SBool), Store(dom, k, True))
	for i, l := range vl {
		set(".val"+l.Path, ArrSort(ks, l.Sort), Store(x.mapVal(st.Heap, m.T, ref, i), k, v.L[i]))
	}
}

func (x *Exec) mapDelete(st *State, m Val, k *Term) {
	ref := m.t()
	// deleting from a nil map does nothing
	x.checkFrame(st, mapKeyName(m.T), ref)
	ks, _ := mapSorts(m.T)
	dom := x.mapDom(st.Heap, m.T, ref)
	has := And(Not(Eq(ref, Zero)), Select(dom, k))
	card := x.mapCard(st.Heap, m.T, ref)
	st.assume(Implies(has, Lt(Zero, card)))
	set := func(suffix, s string, v *Term) {
		key := mapKeyName(m.T) + suffix
		h := x.hget(st.Heap, key, ArrSort(SInt, s))
		x.hset(st, key, ref, x.name(st, key, Store(h, ref, x.name(st, "c", v))))
	}
	set(".card", SInt, Ite(has, Sub(card, One), card))
	set(".dom", ArrSort(ks, SBool), Store(dom, k, False))
}

func (x *Exec) mapLen(st *State, m Val) *Term {
	if m.t() == Zero {
		return Zero
	}
	c := x.mapCard(st.Heap, m.T, m.t())
	st.assume(Le(Zero, c))
	st.assume(Le(c, Int(1<<62)))
	st.assume(Implies(Eq(m.t(), Zero), Eq(c, Zero)))
	return c
}

func (x *Exec) next(st *State, in *ssa.Next) {
	fr := st.frame()
	it, ok := x.val(st, in.Iter).Sp.(*mapIter)
	if !ok {
		unsupported("range over string")
	}
	m := it.m
	mt := m.T.Underlying().(*types.Map)
	vis := st.Heap[it.key]
	dom := x.mapDom(st.Heap, m.T, m.t())
	k := x.freshVal(st, "key", mt.Key())
	more := Fresh("more", SBool)
	st.assume(Implies(more, And(Not(Eq(m.t(), Zero)), Select(dom, k.t()), Not(Select(vis, k.t())))))
	if dom == it.dom {
		b := BoundVar("k", k.t().Sort)
		st.assume(Or(more, Eq(m.t(), Zero), Forall([]*Term{b}, Implies(Select(dom, b), Select(vis, b)), []*Term{Select(dom, b)}, []*Term{Select(vis, b)})))
	}
	var vts []*Term
	for i := range leavesOf(mt.Elem()) {
		vts = append(vts, Select(x.mapVal(st.Heap, m.T, m.t(), i), k.t()))
	}
	v := Val{T: mt.Elem(), L: vts}
	x.facts(st, v)
	x.hset(st, it.key, nil, x.name(st, "vis", Ite(more, Store(vis, k.t(), True), vis)))
	fr.Env[in] = Val{T: in.Type(), Sp: tupleVals{{T: types.Typ[types.Bool], L: []*Term{more}}, k, v}}
}

// selectInstr goes on once for all receiving cases and once for each sending case.
func (x *Exec) selectInstr(st *State, in *ssa.Select, k func(*State)) {
	lo := int64(0)
	if !in.Blocking {
		lo = -1
	}
	idx := Fresh("sel", SInt)
	st.assume(And(Le(Int(lo), idx), Lt(idx, Int(int64(len(in.States))))))
	tuple := func(st *State, idx *Term) Val {
		tv := tupleVals{{T: types.Typ[types.Int], L: []*Term{idx}}, {T: types.Typ[types.Bool], L: []*Term{Fresh("recvok", SBool)}}}
		for _, s := range in.States {
			if s.Dir == types.RecvOnly {
				tv = append(tv, x.freshVal(st, "recv", elemOf(s.Chan.Type())))
			}
		}
		return Val{T: in.Type(), Sp: tv}
	}
	recv := !in.Blocking
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			recv = true
			continue
		}
		st.assume(Not(Eq(idx, Int(int64(i)))))
		s2 := st.clone()
		ch, v := x.val(s2, s.Chan), x.val(s2, s.Send)
		x.event(s2, "chan.send", s.Pos, []Val{ch, v}, nil, func(s3 *State, _ []Val) {
			s3.frame().Env[in] = tuple(s3, Int(int64(i)))
			k(s3)
		})
	}
	if recv {
		st.frame().Env[in] = tuple(st, idx)
		k(st)
	}
}
