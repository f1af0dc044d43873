package main

// Mapping of Go types to SMT leaves.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

type Leaf struct {
	Path string // "" for single-leaf types
	Sort string
	T    types.Type // Go type of the leaf when it is a basic or reference leaf
	Kind string     // int, bool, str, real, ref, arr, off, len, cap, tag, val, opaque, array
}

const modPath = "github.com/anivanovic/gotit"

// Unsupported is thrown (panic) for code outside the verifier's subset.
type Unsupported struct{ Msg string }

func unsupported(f string, a ...any) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func inRepo(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

var leafCache = map[types.Type][]Leaf{}

func leavesOf(t types.Type) []Leaf {
	if l, ok := leafCache[t]; ok {
		return l
	}
	l := leavesOf1(t)
	leafCache[t] = l
	return l
}

// transparent library structs: their fields are part of the verified state
var transparent = map[string]bool{}

func isOpaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	return n.Obj().Pkg() != nil && !inRepo(n.Obj().Pkg()) && !transparent[typeName(t)]
}

func leavesOf1(t types.Type) []Leaf {
	if isOpaqueStruct(t) {
		return []Leaf{{"", SInt, t, "opaque"}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, t, "bool"}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", SInt, t, "int"}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SStr, t, "str"}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", SReal, t, "real"}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{"", SInt, t, "opaque"}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", SInt, t, "ref"}}
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return []Leaf{{"", SInt, t, "ref"}}
	case *types.Signature:
		return []Leaf{{"", SInt, t, "func"}}
	case *types.Slice:
		return []Leaf{{".arr", SInt, t, "arr"}, {".off", SInt, t, "off"}, {".len", SInt, t, "len"}, {".cap", SInt, t, "cap"}}
	case *types.Interface:
		return []Leaf{{".tag", SInt, t, "tag"}, {".val", SInt, t, "val"}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leavesOf(f.Type()) {
				out = append(out, Leaf{"." + f.Name() + l.Path, l.Sort, l.T, l.Kind})
			}
		}
		return out
	case *types.Array:
		els := leavesOf(u.Elem())
		var out []Leaf
		for _, l := range els {
			out = append(out, Leaf{"[]" + l.Path, ArrSort(SInt, l.Sort), t, "array"})
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leavesOf(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf("#%d", i) + l.Path, l.Sort, l.T, l.Kind})
			}
		}
		return out
	}
	unsupported("type %s", t)
	return nil
}

// fieldRange gives the leaf range [lo,hi) of field i of struct type t.
func fieldRange(t types.Type, i int) (int, int) {
	st := t.Underlying().(*types.Struct)
	lo := 0
	for j := 0; j < i; j++ {
		lo += len(leavesOf(st.Field(j).Type()))
	}
	return lo, lo + len(leavesOf(st.Field(i).Type()))
}

func tupleRange(t *types.Tuple, i int) (int, int) {
	lo := 0
	for j := 0; j < i; j++ {
		lo += len(leavesOf(t.At(j).Type()))
	}
	return lo, lo + len(leavesOf(t.At(i).Type()))
}

// typeName is a short, stable name of a type: the last element of the package
// path and the type name.
func typeName(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
}

// intRange gives the range of an integer type.
func intRange(t types.Type) (lo, hi *big.Int, bits int, unsigned bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil, 0, false
	}
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Int, types.Int64, types.UntypedInt:
		bits = 64
	case types.Uint8:
		bits, unsigned = 8, true
	case types.Uint16:
		bits, unsigned = 16, true
	case types.Uint32:
		bits, unsigned = 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		bits, unsigned = 64, true
	default:
		return nil, nil, 0, false
	}
	two := big.NewInt(2)
	if unsigned {
		lo = big.NewInt(0)
		hi = new(big.Int).Exp(two, big.NewInt(int64(bits)), nil)
		hi.Sub(hi, one)
	} else {
		h := new(big.Int).Exp(two, big.NewInt(int64(bits-1)), nil)
		lo = new(big.Int).Neg(h)
		hi = new(big.Int).Sub(h, one)
	}
	return
}

// typeTags gives each dynamic type its interface tag.
var (
	tagByName = map[string]int{}
	tagType   = map[int]types.Type{}
)

func tagOf(t types.Type) *Term {
	n := typeName(t)
	id, ok := tagByName[n]
	if !ok {
		id = len(tagByName) + 1
		tagByName[n] = id
		tagType[id] = t
	}
	return Int(int64(id))
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInterface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}
