package main

// Symbolic state: heap, path facts, frames.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loc struct {
	Kind string // obj, elem, arrobj
	Key  string // heap key prefix
	Base *Term
	Idx  *Term
	Root types.Type
	Lo   int
	Hi   int
	T    types.Type
	Cast types.Type // reinterpreted through unsafe.Pointer
}

type Closure struct {
	Fn       *ssa.Function
	Bindings []Val
	Bound    []Val // receiver bound by intrinsic closures
	Name     string
}

type Val struct {
	T    types.Type
	L    []*Term
	Loc  *Loc
	Fn   *Closure
	Sp   any
	From *Loc // the location a single value was loaded from
}

func (v Val) t() *Term {
	if len(v.L) != 1 {
		panic(Unsupported{fmt.Sprintf("value of type %v used as single term", v.T)})
	}
	return v.L[0]
}

type Frame struct {
	Fn     *ssa.Function
	Env    map[ssa.Value]Val
	Defers []deferred
	Loops  []*LoopCtx
	Visits map[*ssa.BasicBlock]int
	Params []Val
	Call   string
}

type deferred struct {
	common *ssa.CallCommon
	fn     Val
	args   []Val
	instr  ssa.Instruction
}

type Write struct {
	Key    string
	Ref    *Term // nil for scalars
	Parent *Write
	N      int
}

type HeldLock struct {
	ID    string
	Owner *Loc
	Path  string
	Base  *Term
	RW    bool
}

type Snap struct {
	Heap map[string]*Term
	Top  *Term
}

type State struct {
	Heap    map[string]*Term
	Asserts *Assert
	Facts   map[*Term]bool
	Frames  []*Frame
	Top     *Term
	Writes  *Write
	Locks   []HeldLock
	Acq     *Snap
	Rel     *Snap
	NLocks  int
	NAtomic int
	Trace   []string
}

func (s *State) clone() *State {
	n := *s
	n.Heap = make(map[string]*Term, len(s.Heap))
	for k, v := range s.Heap {
		n.Heap[k] = v
	}
	n.Facts = make(map[*Term]bool, len(s.Facts))
	for k := range s.Facts {
		n.Facts[k] = true
	}
	n.Frames = make([]*Frame, len(s.Frames))
	for i, f := range s.Frames {
		g := *f
		g.Env = make(map[ssa.Value]Val, len(f.Env))
		for k, v := range f.Env {
			g.Env[k] = v
		}
		g.Defers = append([]deferred(nil), f.Defers...)
		g.Loops = append([]*LoopCtx(nil), f.Loops...)
		g.Visits = map[*ssa.BasicBlock]int{}
		for k, v := range f.Visits {
			g.Visits[k] = v
		}
		n.Frames[i] = &g
	}
	n.Locks = append([]HeldLock(nil), s.Locks...)
	n.Trace = append([]string(nil), s.Trace...)
	return &n
}

func (s *State) snap() *Snap {
	h := make(map[string]*Term, len(s.Heap))
	for k, v := range s.Heap {
		h[k] = v
	}
	return &Snap{h, s.Top}
}

func (s *State) frame() *Frame { return s.Frames[len(s.Frames)-1] }

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	if s.Facts[t] {
		return
	}
	s.Facts[t] = true
	d := 0
	if s.Asserts != nil {
		d = s.Asserts.Depth + 1
	}
	s.Asserts = &Assert{t, s.Asserts, d}
}

// ---- heap ----

func (x *Exec) initTerm(key, sortName string) *Term {
	if t, ok := x.initHeap[key]; ok {
		return t
	}
	t := mk(&Term{Op: "const", Name: "H." + sanitize(key) + fmt.Sprintf(".%d", x.runID), Sort: sortName})
	t.init = true
	x.initHeap[key] = t
	return t
}

func (x *Exec) hget(h map[string]*Term, key, sortName string) *Term {
	if t, ok := h[key]; ok {
		return t
	}
	return x.initTerm(key, sortName)
}

func (x *Exec) hset(st *State, key string, ref, v *Term) {
	st.Heap[key] = v
	n := 0
	if st.Writes != nil {
		n = st.Writes.N + 1
	}
	st.Writes = &Write{key, ref, st.Writes, n}
}

// name gives a term a constant name, so later terms stay small.
func (x *Exec) name(st *State, base string, t *Term) *Term {
	if t.Op == "const" || t.Op == "int" || t.Op == "bound" || t.Op == "true" || t.Op == "false" || t.Op == "str" {
		return t
	}
	c := Fresh(base, t.Sort)
	c.Def = t
	st.assume(mk(&Term{Op: "=", Sort: SBool, Args: []*Term{c, t}}))
	return c
}

func objKey(t types.Type) string {
	if _, ok := t.Underlying().(*types.Struct); ok && !isOpaqueStruct(t) {
		return "F:" + typeName(t)
	}
	return "C:" + typeName(t)
}

func elemKey(t types.Type) string {
	// element arrays are shared between types with the same underlying type
	// only if convertible; named element types get their own arrays
	if b, ok := t.Underlying().(*types.Basic); ok {
		return "E:" + b.Name()
	}
	return "E:" + typeName(t)
}

// ptrLoc is the location a pointer value points to.
func (x *Exec) ptrLoc(v Val) *Loc {
	if v.Loc != nil {
		return v.Loc
	}
	p, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		unsupported("dereference of %v", v.T)
	}
	t := p.Elem()
	if a, ok := t.Underlying().(*types.Array); ok {
		return &Loc{Kind: "arrobj", Key: elemKey(a.Elem()), Base: v.t(), Root: t, Lo: 0, Hi: len(leavesOf(t)), T: t}
	}
	return &Loc{Kind: "obj", Key: objKey(t), Base: v.t(), Root: t, Lo: 0, Hi: len(leavesOf(t)), T: t}
}

func (x *Exec) leafKeySort(l *Loc, i int) (string, string) {
	switch l.Kind {
	case "obj":
		lf := leavesOf(l.Root)[i]
		return l.Key + lf.Path, ArrSort(SInt, lf.Sort)
	case "elem":
		lf := leavesOf(l.Root)[i]
		return l.Key + lf.Path, ArrSort(SInt, ArrSort(SInt, lf.Sort))
	case "arrobj":
		el := l.Root.Underlying().(*types.Array).Elem()
		lf := leavesOf(el)[i]
		return l.Key + lf.Path, ArrSort(SInt, ArrSort(SInt, lf.Sort))
	}
	panic("leafKeySort " + l.Kind)
}

func (x *Exec) readLeaf(h map[string]*Term, l *Loc, i int) *Term {
	key, s := x.leafKeySort(l, i)
	t := Select(x.hget(h, key, s), l.Base)
	if l.Kind == "elem" {
		t = Select(t, l.Idx)
	}
	return t
}

func (x *Exec) read(h map[string]*Term, l *Loc) Val {
	var ts []*Term
	for i := l.Lo; i < l.Hi; i++ {
		ts = append(ts, x.readLeaf(h, l, i))
	}
	return Val{T: l.T, L: ts, From: l}
}

func (x *Exec) write(st *State, l *Loc, v Val) {
	if l.Cast != nil {
		unsupported("store through unsafe pointer")
	}
	if v.Loc != nil && v.Loc.Kind != "obj" && v.Loc.Kind != "arrobj" || v.Loc != nil && (v.Loc.Lo != 0 || v.Loc.Hi != len(leavesOf(v.Loc.Root))) {
		unsupported("interior pointer stored in memory")
	}
	if len(v.L) != l.Hi-l.Lo {
		unsupported("store of %v into %v", v.T, l.T)
	}
	x.checkFrameLoc(st, l)
	for i := l.Lo; i < l.Hi; i++ {
		key, s := x.leafKeySort(l, i)
		h := x.hget(st.Heap, key, s)
		nv := v.L[i-l.Lo]
		if l.Kind == "elem" {
			nv = Store(Select(h, l.Base), l.Idx, nv)
			nv = x.name(st, "c", nv)
		}
		x.hset(st, key, l.Base, x.name(st, key, Store(h, l.Base, nv)))
	}
}

// ---- values ----

func (x *Exec) freshVal(st *State, name string, t types.Type) Val {
	var ts []*Term
	ls := leavesOf(t)
	for _, l := range ls {
		ts = append(ts, Fresh(name+l.Path, l.Sort))
	}
	v := Val{T: t, L: ts}
	x.facts(st, v)
	return v
}

// facts assumes what every value of its type satisfies.
func (x *Exec) facts(st *State, v Val) {
	ls := leavesOf(v.T)
	for i, l := range ls {
		t := v.L[i]
		if t.Op == "int" || t.Op == "str" || t == True || t == False {
			continue
		}
		switch l.Kind {
		case "int":
			lo, hi, _, _ := intRange(l.T)
			if lo != nil {
				st.assume(Le(BigInt(lo), t))
				st.assume(Le(t, BigInt(hi)))
			}
		case "str":
			st.assume(Le(Zero, slen(t)))
			st.assume(Le(slen(t), Int(1<<62)))
		case "ref":
			if !t.alloc {
				st.assume(Lt(t, st.Top))
				x.oldRef(st, t)
			}
		case "arr":
			off, ln, cp := v.L[i+1], v.L[i+2], v.L[i+3]
			if !t.alloc {
				st.assume(Lt(t, st.Top))
				x.oldRef(st, t)
			}
			st.assume(Le(Zero, off))
			st.assume(Le(Zero, ln))
			st.assume(Le(ln, cp))
			st.assume(Le(Add(off, cp), Int(1<<62)))
			if t != Zero && !t.alloc {
				st.assume(Implies(Eq(t, Zero), Eq(cp, Zero)))
			}
		case "tag":
			st.assume(Le(Zero, t))
			if val := v.L[i+1]; t.Op != "int" && val.Op != "int" {
				st.assume(Implies(Eq(t, Zero), Eq(val, Zero)))
			}
		}
	}
}

// oldRef: what memory from before the call held then is from before the call.
func (x *Exec) oldRef(st *State, t *Term) {
	if x.top0 == nil || t.Op != "select" {
		return
	}
	h, base := t.Args[0], t.Args[1]
	if h.Op == "select" {
		h, base = h.Args[0], h.Args[1]
	}
	if h.init {
		st.assume(Implies(Lt(base, x.top0), Lt(t, x.top0)))
	}
}

func (x *Exec) zeroVal(t types.Type) Val {
	var ts []*Term
	for _, l := range leavesOf(t) {
		ts = append(ts, zeroOf(l.Sort, l))
	}
	return Val{T: t, L: ts}
}

func zeroOf(s string, l Leaf) *Term {
	switch s {
	case SInt:
		return Zero
	case SBool:
		return False
	case SStr:
		return StrLit("")
	case SReal:
		return mk(&Term{Op: "real", Name: "0.0", Sort: SReal})
	}
	if strings.HasPrefix(s, "(Array") {
		return ConstArr(s, zeroOf(arrayElem(s), l))
	}
	panic("zero of " + s)
}

// alloc makes a new object of type t, zeroed, and returns its reference.
func (x *Exec) allocRef(st *State, name string) *Term {
	r := FreshAlloc(name)
	st.assume(Le(st.Top, r))
	st.assume(Lt(Zero, r))
	st.Top = Add(r, One)
	return r
}

func (x *Exec) allocObj(st *State, t types.Type, name string) Val {
	r := x.allocRef(st, name)
	v := Val{T: types.NewPointer(t), L: []*Term{r}}
	l := x.ptrLoc(v)
	z := x.zeroVal(t)
	for i := l.Lo; i < l.Hi; i++ {
		key, s := x.leafKeySort(l, i)
		h := x.hget(st.Heap, key, s)
		var zv *Term
		if l.Kind == "arrobj" {
			zv = z.L[i]
		} else {
			zv = z.L[i]
		}
		x.hset(st, key, r, x.name(st, key, Store(h, r, zv)))
	}
	x.zeroGhost(st, t, r)
	return v
}

// zeroGhost gives the ghost fields of a zero value their initial value.
func (x *Exec) zeroGhost(st *State, t types.Type, r *Term) {
	tn := typeName(t)
	var ks []string
	for k := range x.specs.GhostFld {
		if strings.HasPrefix(k, tn+".") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		s := x.specs.GhostFld[k]
		key := "GF:" + k
		h := x.hget(st.Heap, key, ArrSort(SInt, s))
		x.hset(st, key, r, x.name(st, key, Store(h, r, zeroOf(s, Leaf{}))))
	}
}

// content is the content array of leaf i of the elements of slice v.
func (x *Exec) content(h map[string]*Term, elem types.Type, i int, arr *Term) *Term {
	lf := leavesOf(elem)[i]
	return Select(x.hget(h, elemKey(elem)+lf.Path, ArrSort(SInt, ArrSort(SInt, lf.Sort))), arr)
}

func (x *Exec) setContent(st *State, elem types.Type, i int, arr, c *Term) {
	lf := leavesOf(elem)[i]
	key := elemKey(elem) + lf.Path
	h := x.hget(st.Heap, key, ArrSort(SInt, ArrSort(SInt, lf.Sort)))
	x.hset(st, key, arr, x.name(st, key, Store(h, arr, x.name(st, "c", c))))
}

// bytesStr is the content of a byte slice as a string term.
func (x *Exec) bytesStr(h map[string]*Term, v Val) *Term {
	c := x.content(h, elemOf(v.T), 0, v.L[0])
	t := mkstr2(c, v.L[1], v.L[2])
	if s, ok := x.views[t]; ok {
		return s
	}
	return t
}

// mkstr2 simplifies the string of a content array made from a string.
func mkstr2(c, off, n *Term) *Term {
	r := resolve(c)
	if r.Op == "app" && r.Name == "strbytes" && off == Zero && Eq(n, slen(r.Args[0])) == True {
		return r.Args[0]
	}
	return mkstr(c, off, n)
}

func mapKeyName(t types.Type) string { return "M:" + typeName(t.Underlying()) }

func mapSorts(t types.Type) (ks string, vl []Leaf) {
	m := t.Underlying().(*types.Map)
	kl := leavesOf(m.Key())
	if len(kl) != 1 {
		unsupported("map key type %v", m.Key())
	}
	return kl[0].Sort, leavesOf(m.Elem())
}

func (x *Exec) mapDom(h map[string]*Term, t types.Type, ref *Term) *Term {
	ks, _ := mapSorts(t)
	return Select(x.hget(h, mapKeyName(t)+".dom", ArrSort(SInt, ArrSort(ks, SBool))), ref)
}

func (x *Exec) mapVal(h map[string]*Term, t types.Type, ref *Term, i int) *Term {
	ks, vl := mapSorts(t)
	return Select(x.hget(h, mapKeyName(t)+".val"+vl[i].Path, ArrSort(SInt, ArrSort(ks, vl[i].Sort))), ref)
}

func (x *Exec) mapCard(h map[string]*Term, t types.Type, ref *Term) *Term {
	return Select(x.hget(h, mapKeyName(t)+".card", ArrSort(SInt, SInt)), ref)
}
