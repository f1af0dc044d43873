package main

// Loading the program under verification and facts about it.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog     *ssa.Program
	fset     *token.FileSet
	dir      string
	byName   map[string]*ssa.Package
	repo     []*ssa.Package
	fns      map[string]*ssa.Function
	closures map[*Term]*Closure

	globals map[*ssa.Global]*Term
	gByRef  map[*Term]*ssa.Global
	fnIDs   map[*ssa.Function]*Term
	nFn     int64
	loops   map[*ssa.Function]map[*ssa.BasicBlock]*LoopInfo
	ginfo   map[*ssa.Global]*globalInfo
	types   map[string]types.Type
}

type LoopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Tests: false, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Module != nil && !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading %s: %s", dir, strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	p := &Program{prog: prog, fset: prog.Fset, dir: dir, byName: map[string]*ssa.Package{}, fns: map[string]*ssa.Function{}, closures: map[*Term]*Closure{},
		globals: map[*ssa.Global]*Term{}, gByRef: map[*Term]*ssa.Global{}, fnIDs: map[*ssa.Function]*Term{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*LoopInfo{}, ginfo: map[*ssa.Global]*globalInfo{}, types: map[string]types.Type{}}
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, q := range all {
		n := q.Pkg.Name()
		if strings.Contains(q.Pkg.Path(), "internal/") {
			if _, ok := p.byName[n]; ok {
				continue
			}
		}
		if old, ok := p.byName[n]; ok && (inRepo(old.Pkg) || len(old.Pkg.Path()) <= len(q.Pkg.Path()) && !inRepo(q.Pkg)) {
			continue
		}
		p.byName[n] = q
	}
	for _, q := range spkgs {
		if q != nil && inRepo(q.Pkg) {
			p.repo = append(p.repo, q)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Synthetic != "" || len(fn.Blocks) == 0 || !inRepo(fnPkg(fn)) {
			continue
		}
		if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue
		}
		n := shortName(fn)
		if old := p.fns[n]; old != nil && old.String() <= fn.String() {
			continue
		}
		p.fns[n] = fn
	}
	// methods of repository types that nothing reaches
	for _, q := range p.repo {
		for _, m := range q.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if len(m.Blocks) > 0 && m.Synthetic == "" && m.TypeParams().Len() == 0 {
					p.addFn(m)
				}
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" && len(f.Blocks) > 0 {
							p.addFn(f)
						}
					}
				}
			}
		}
	}
	return p, nil
}

func (p *Program) addFn(fn *ssa.Function) {
	if !inRepo(fnPkg(fn)) {
		return
	}
	if _, ok := p.fns[shortName(fn)]; !ok {
		p.fns[shortName(fn)] = fn
	}
	for _, a := range fn.AnonFuncs {
		p.addFn(a)
	}
}

// ---- natural loops ----

func (p *Program) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *LoopInfo {
	m, ok := p.loops[fn]
	if !ok {
		m = map[*ssa.BasicBlock]*LoopInfo{}
		for _, u := range fn.Blocks {
			for _, h := range u.Succs {
				if !h.Dominates(u) {
					continue
				}
				li := m[h]
				if li == nil {
					li = &LoopInfo{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					m[h] = li
				}
				var walk func(*ssa.BasicBlock)
				walk = func(x *ssa.BasicBlock) {
					if li.blocks[x] {
						return
					}
					li.blocks[x] = true
					for _, q := range x.Preds {
						walk(q)
					}
				}
				walk(u)
			}
		}
		p.loops[fn] = m
	}
	return m[b]
}

// ---- globals and functions as terms ----

func (p *Program) globalRef(g *ssa.Global) *Term {
	if t, ok := p.globals[g]; ok {
		return t
	}
	t := Int(-int64(len(p.globals)) - 1)
	p.globals[g] = t
	p.gByRef[t] = g
	return t
}

func (p *Program) globalOf(t *Term) *ssa.Global { return p.gByRef[t] }

func (p *Program) funcID(f *ssa.Function) *Term {
	if t, ok := p.fnIDs[f]; ok {
		return t
	}
	p.nFn++
	t := Int(-1000000 - p.nFn)
	p.fnIDs[f] = t
	p.closures[t] = &Closure{Fn: f}
	return t
}

func (p *Program) closureID(c *Closure) *Term {
	if c.Fn != nil && len(c.Bindings) == 0 {
		return p.funcID(c.Fn)
	}
	p.nFn++
	t := Int(-1000000 - p.nFn)
	p.closures[t] = c
	return t
}

// ---- types by name ----

func (p *Program) typeByName(n string) types.Type {
	if t, ok := p.types[n]; ok {
		return t
	}
	t := p.typeByName1(n)
	p.types[n] = t
	return t
}

func (p *Program) typeByName1(n string) types.Type {
	switch {
	case strings.HasPrefix(n, "*"):
		return types.NewPointer(p.typeByName(n[1:]))
	case strings.HasPrefix(n, "[]"):
		return types.NewSlice(p.typeByName(n[2:]))
	case strings.HasPrefix(n, "map["):
		k := strings.IndexByte(n, ']')
		return types.NewMap(p.typeByName(n[4:k]), p.typeByName(n[k+1:]))
	}
	if k := strings.IndexByte(n, '.'); k >= 0 {
		q := p.byName[n[:k]]
		if q == nil {
			panic(specErr{"unknown package in type " + n})
		}
		o := q.Pkg.Scope().Lookup(n[k+1:])
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
		panic(specErr{"unknown type " + n})
	}
	if o, ok := types.Universe.Lookup(n).(*types.TypeName); ok {
		return o.Type()
	}
	panic(specErr{"unknown type " + n})
}

// ---- package variables ----

type globalInfo struct {
	stable bool // assigned only by the package initialiser
	nonNil bool // initialised by errors.New, fmt.Errorf, &T{} or the like
	bytes  map[int64]int64
	cval   constant.Value
	elems  []string
	init   ssa.Value
}

func (p *Program) globalInfo(g *ssa.Global) *globalInfo {
	if gi, ok := p.ginfo[g]; ok {
		return gi
	}
	gi := &globalInfo{stable: true, bytes: map[int64]int64{}}
	p.ginfo[g] = gi
	if g.Pkg == nil || !inRepo(g.Pkg.Pkg) {
		// exported error variables of libraries (io.EOF, ...)
		gi.stable = true
		if types.Identical(elemOf(g.Type()), types.Universe.Lookup("error").Type()) {
			gi.nonNil = true
		}
		return gi
	}
	bad := func(in ssa.Instruction) {
		f := in.Parent()
		if f.Name() == "init" && f.Synthetic != "" {
			return
		}
		gi.stable = false
	}
	for _, f := range p.fns {
		p.scanGlobal(g, f, gi, bad)
	}
	for _, q := range p.repo {
		if f := q.Func("init"); f != nil {
			p.scanGlobal(g, f, gi, bad)
		}
	}
	return gi
}

// arrayLiteral collects the constant elements of an array literal stored in a
// package variable; bytes[-1] marks an unknown content.
func arrayLiteral(v ssa.Value, gi *globalInfo) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		gi.bytes[-1] = 0
		return
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		gi.bytes[-1] = 0
		return
	}
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.IndexAddr:
			ic, ok := r.Index.(*ssa.Const)
			if !ok {
				gi.bytes[-1] = 0
				return
			}
			for _, rr := range *r.Referrers() {
				switch rr := rr.(type) {
				case *ssa.DebugRef:
				case *ssa.Store:
					vc, ok := rr.Val.(*ssa.Const)
					if !ok || vc.Value == nil || vc.Value.Kind() != constant.Int {
						gi.bytes[-1] = 0
						return
					}
					gi.bytes[ic.Int64()] = vc.Int64()
				default:
					gi.bytes[-1] = 0
					return
				}
			}
		default:
			gi.bytes[-1] = 0
			return
		}
	}
}

func (p *Program) scanGlobal(g *ssa.Global, f *ssa.Function, gi *globalInfo, bad func(ssa.Instruction)) {
	isInit := f.Name() == "init" && f.Synthetic != ""
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var ops []*ssa.Value
			ops = in.Operands(ops)
			for _, o := range ops {
				if *o != ssa.Value(g) {
					continue
				}
				switch in := in.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if in.Addr == ssa.Value(g) {
						bad(in)
						if isInit {
							gi.init = in.Val
							if _, ok := in.Val.Type().Underlying().(*types.Array); ok {
								arrayLiteral(in.Val, gi)
							}
							switch v := in.Val.(type) {
							case *ssa.Call:
								if c := v.Call.StaticCallee(); c != nil {
									switch shortName(c) {
									case "errors.New", "fmt.Errorf":
										gi.nonNil = true
									}
								}
							case *ssa.Alloc, *ssa.MakeMap:
								gi.nonNil = true
							case *ssa.Const:
								gi.cval = v.Value
							}
						}
					} else {
						bad(in) // address stored somewhere
					}
				case *ssa.IndexAddr:
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							bad(r)
							if isInit {
								if ic, ok := in.Index.(*ssa.Const); ok {
									if vc, ok := r.Val.(*ssa.Const); ok && vc.Value != nil && vc.Value.Kind() == constant.Int {
										gi.bytes[ic.Int64()] = vc.Int64()
									} else {
										gi.bytes[-1] = 0
									}
								}
							}
						default:
							gi.stable = false
						}
					}
				case *ssa.Slice:
					// slices of the array are only read when copied from; be safe
					for _, r := range *in.Referrers() {
						if c, ok := r.(*ssa.Call); ok {
							if bi, ok := c.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "copy" && c.Call.Args[1] == ssa.Value(in) && c.Call.Args[0] != ssa.Value(in) || bi.Name() == "append" && c.Call.Args[0] != ssa.Value(in) || bi.Name() == "len") {
								continue
							}
							if sc := c.Call.StaticCallee(); sc != nil {
								switch shortName(sc) {
								case "bytes.Equal", "bytes.Compare", "bytes.HasPrefix", "bytes.(*Buffer).Write":
									continue
								}
							}
						}
						if _, ok := r.(*ssa.DebugRef); ok {
							continue
						}
						if cv, ok := r.(*ssa.Convert); ok && isString(cv.Type()) {
							continue
						}
						gi.stable = false
					}
				case *ssa.FieldAddr:
					gi.stable = false
				default:
					gi.stable = false
				}
			}
		}
	}
}

// globalArrayFacts assumes the content of a constant package array that is sliced.
func (x *Exec) globalArrayFacts(st *State, g *ssa.Global, content *Term) {
	gi := x.prog.globalInfo(g)
	a, ok := elemOf(g.Type()).Underlying().(*types.Array)
	if !ok || !gi.stable || content.Sort != ArrSort(SInt, SInt) {
		return
	}
	if _, bad := gi.bytes[-1]; bad {
		return
	}
	for i := int64(0); i < a.Len(); i++ {
		st.assume(Eq(Select(content, Int(i)), BigInt(big.NewInt(gi.bytes[i]))))
	}
}

// globalFacts assumes what is known about a package variable just loaded.
func (x *Exec) globalFacts(st *State, g *ssa.Global, v Val) {
	gi := x.prog.globalInfo(g)
	if !gi.stable {
		return
	}
	t := elemOf(g.Type())
	if gi.nonNil && (isInterface(t) || len(v.L) == 1 && v.L[0].Sort == SInt) {
		st.assume(Not(Eq(v.L[0], Zero)))
	}
	if gi.cval != nil {
		c := constTerm(t, gi.cval)
		for i := range c.L {
			st.assume(Eq(v.L[i], c.L[i]))
		}
	}
	if a, ok := t.Underlying().(*types.Array); ok && len(v.L) == 1 && v.L[0].Sort == ArrSort(SInt, SInt) {
		if _, bad := gi.bytes[-1]; !bad {
			for i := int64(0); i < a.Len(); i++ {
				st.assume(Eq(Select(v.L[0], Int(i)), BigInt(big.NewInt(gi.bytes[i]))))
			}
		}
	}
	if al, ok := gi.init.(*ssa.Alloc); ok && gi.nonNil {
		// a pointer to a struct made by the initialiser and never changed
		if vals := x.prog.initObject(al); vals != nil {
			ot := elemOf(al.Type())
			l := x.ptrLoc(v)
			for i, lf := range leavesOf(ot) {
				if vals[i] == nil {
					continue
				}
				_ = lf
				st.assume(Eq(x.readLeaf(st.Heap, l, i), vals[i]))
			}
		}
	}
	if e, ok := x.specs.Globals[g.Pkg.Pkg.Name()+"."+g.Name()]; ok {
		en := x.env(st, map[string]Val{"self": v}, x.old)
		x.use("assumed: package variable " + g.Pkg.Pkg.Name() + "." + g.Name() + ": " + e.String())
		st.assume(en.bool(e))
	}
}

// initObject gives the leaf values of a struct built by a package initialiser
// with constant fields, provided no repository code stores to a field of that
// struct type except in an object it just allocated.
func (p *Program) initObject(al *ssa.Alloc) []*Term {
	t := elemOf(al.Type())
	st, ok := t.Underlying().(*types.Struct)
	if !ok || !p.immutableType(t) {
		return nil
	}
	var z Exec
	vals := z.zeroVal(t).L
	_ = st
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		lo, hi := fieldRange(t, fa.Field)
		for _, rr := range *fa.Referrers() {
			s, ok := rr.(*ssa.Store)
			if !ok {
				for i := lo; i < hi; i++ {
					vals[i] = nil
				}
				continue
			}
			c, ok := s.Val.(*ssa.Const)
			if !ok || c.Value == nil || hi-lo != 1 {
				for i := lo; i < hi; i++ {
					vals[i] = nil
				}
				continue
			}
			vals[lo] = constTerm(c.Type(), c.Value).L[0]
		}
	}
	return vals
}

// madeHere says whether a pointer can only lead to an object that a function
// of the repository has just made: an allocation, or the result of a function
// that returns nothing but such pointers.
func madeHere(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Const:
		return v.IsNil()
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !madeHere(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || !inRepo(fnPkg(f)) || len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 {
			return false
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !madeHere(r.Results[0], depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func (p *Program) immutableType(t types.Type) bool {
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					if !types.Identical(elemOf(in.X.Type()), t) {
						continue
					}
					if madeHere(in.X, 0) {
						continue
					}
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							_ = r
							return false
						default:
							return false
						}
					}
				case *ssa.Store:
					if types.Identical(elemOf(in.Addr.Type()), t) {
						if !madeHere(in.Addr, 0) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// reaches says whether static calls lead from one function to another.
func (p *Program) reaches(from, to string) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if shortName(f) == to {
			return true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && inRepo(fnPkg(g)) && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(p.fns[from])
}
