package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The lock property is decided for every function of the repository that
// touches guarded state, under contract or not.

// guardedIn lists the guarded fields a function (with its closures) reaches
// for, and whether it may hand one out.
func guardedIn(sp *Specs, fn *ssa.Function) (hits []string, leaks bool) {
	seen := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var t types.Type
				var idx int
				switch in := in.(type) {
				case *ssa.FieldAddr:
					t, idx = deref(in.X.Type()), in.Field
				case *ssa.Field:
					t, idx = in.X.Type(), in.Field
				default:
					continue
				}
				s, ok := t.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				for _, g := range sp.guardsOf(typeName(t)) {
					if g.field == s.Field(idx).Name() {
						seen[g.typ+"."+g.field] = true
						rs := f.Signature.Results()
						for i := 0; i < rs.Len(); i++ {
							if types.Identical(rs.At(i).Type(), s.Field(idx).Type()) {
								leaks = true
							}
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	for k := range seen {
		hits = append(hits, k)
	}
	sort.Strings(hits)
	return
}

// lockWork returns the functions that touch guarded state and, per function,
// its static callers in the repository.
func lockWork(p *Program, sp *Specs) (touch []string, callers map[string][]string) {
	callers = map[string][]string{}
	set := map[string]bool{}
	leaky := map[string]bool{}
	var names []string
	for n, f := range p.fns {
		if f.Parent() == nil && inRepo(fnPkg(f)) && len(f.Blocks) > 0 && f.Synthetic == "" {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		hits, leaks := guardedIn(sp, p.fns[n])
		if len(hits) > 0 {
			set[n] = true
			leaky[n] = leaks
		}
		done := map[string]bool{}
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if c := ci.Common().StaticCallee(); c != nil && c.Parent() == nil {
						cn := shortName(c)
						if !done[cn] {
							done[cn] = true
							callers[cn] = append(callers[cn], n)
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				visit(a)
			}
		}
		visit(p.fns[n])
	}
	// who calls a function that hands out guarded memory touches it too
	for n := range leaky {
		if leaky[n] {
			for _, c := range callers[n] {
				set[c] = true
			}
		}
	}
	for n := range set {
		touch = append(touch, n)
	}
	sort.Strings(touch)
	return
}

// contractsAbove: the contracts through which a function is verified.
func contractsAbove(sp *Specs, callers map[string][]string, n string) []*Contract {
	var out []*Contract
	seen := map[string]bool{}
	var up func(n string)
	up = func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		if c := sp.find(n); c != nil && !c.Extern {
			out = append(out, c)
			return
		}
		for _, c := range callers[n] {
			up(c)
		}
	}
	up(n)
	return out
}

// autoContract: the contract of a function nobody wrote one for, as far as
// locks are concerned.
func autoContract(p *Program, n string) *Contract {
	fn := p.fns[n]
	c := &Contract{Name: n, Flags: map[string]bool{"noframe": true, "goroutines": true, "noexit": true}, GhostIni: map[string]*Expr{}, Inline: map[string]bool{}}
	for _, pr := range fn.Params {
		nm := pr.Name()
		if nm == "" || nm == "_" {
			nm = "arg"
		}
		c.Params = append(c.Params, nm)
		if _, ok := pr.Type().Underlying().(*types.Pointer); ok {
			c.Requires = append(c.Requires, Clause{E: parseExpr(nm + " != nil"), Line: nm + " != nil"})
		}
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		c.Results = append(c.Results, "res"+strings.Repeat("_", i))
	}
	return c
}

func exportedName(n string) bool {
	k := strings.LastIndexByte(n, '.')
	return k+1 < len(n) && n[k+1] >= 'A' && n[k+1] <= 'Z'
}

// bindGuards: a mutex that was renamed is the only mutex of its struct that
// guards nothing else.
func (sp *Specs) bindGuards(p *Program) {
	for i := range sp.Guards {
		g := &sp.Guards[i]
		if g.Mutex == "atomic" {
			continue
		}
		k := strings.LastIndexByte(g.Field, '.')
		t := p.typeByName(g.Field[:k])
		if t == nil {
			continue
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var ms []string
		found := false
		for j := 0; j < s.NumFields(); j++ {
			f := s.Field(j)
			if f.Name() == g.Mutex {
				found = true
			}
			if n := typeName(deref(f.Type())); n == "sync.Mutex" || n == "sync.RWMutex" {
				ms = append(ms, f.Name())
			}
		}
		if !found && len(ms) == 1 {
			g.Mutex = ms[0]
		}
	}
}
