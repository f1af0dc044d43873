package main

// SMT terms with light simplification. Terms are hash-consed, so syntactic
// equality is pointer equality.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Term struct {
	Op   string
	Args []*Term
	Sort string
	Name string   // variables and applications
	Val  *big.Int // integer literals
	// quantifiers
	Vars []*Term
	Pats [][]*Term

	id    int
	seq   int  // creation sequence of the youngest constant in the term
	quant bool // contains a quantifier
	nl    bool // has a product of variables
	alloc bool // constant made by an allocation
	init bool // memory as it was when the function was called
	Def   *Term
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SStr  = "Str"
	SReal = "Real"
)

var (
	termTab  = map[string]*Term{}
	termID   int
	constSeq int
)

func mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	sb.WriteString(t.Sort)
	if t.Val != nil {
		sb.WriteByte('#')
		sb.WriteString(t.Val.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	for _, a := range t.Vars {
		fmt.Fprintf(&sb, ";%d", a.id)
	}
	for _, p := range t.Pats {
		sb.WriteByte('{')
		for _, a := range p {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
	}
	k := sb.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	termID++
	t.id = termID
	for _, a := range t.Args {
		if a.seq > t.seq {
			t.seq = a.seq
		}
		if a.quant {
			t.quant = true
		}
		if a.nl {
			t.nl = true
		}
	}
	if t.Op == "forall" || t.Op == "exists" {
		t.quant = true
	}
	if (t.Op == "*" || t.Op == "div" || t.Op == "mod") && len(t.Args) == 2 && t.Args[1].Op != "int" && t.Args[0].Op != "int" {
		t.nl = true
	}
	termTab[k] = t
	return t
}

var True = mk(&Term{Op: "true", Sort: SBool})
var False = mk(&Term{Op: "false", Sort: SBool})

func Int(i int64) *Term       { return BigInt(big.NewInt(i)) }
func BigInt(b *big.Int) *Term { return mk(&Term{Op: "int", Sort: SInt, Val: new(big.Int).Set(b)}) }
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

var Zero = Int(0)
var One = Int(1)

// Fresh makes a new constant.
func Fresh(name, sortName string) *Term {
	constSeq++
	n := fmt.Sprintf("%s!%d", sanitize(name), constSeq)
	return mk(&Term{Op: "const", Name: n, Sort: sortName, seq: constSeq})
}

func FreshAlloc(name string) *Term {
	constSeq++
	n := fmt.Sprintf("%s!%d", sanitize(name), constSeq)
	t := mk(&Term{Op: "const", Name: n, Sort: SInt, seq: constSeq})
	t.alloc = true
	return t
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			return r
		}
		return '_'
	}, s)
}

var boundN int

func BoundVar(name, sortName string) *Term {
	boundN++
	return mk(&Term{Op: "bound", Name: fmt.Sprintf("%s?%d", sanitize(name), boundN), Sort: sortName})
}

func App(name, sortName string, args ...*Term) *Term {
	return mk(&Term{Op: "app", Name: name, Sort: sortName, Args: args})
}

func isInt(t *Term) bool { return t.Op == "int" }

// ---- linear arithmetic normal form ----

type lin struct {
	c  *big.Int
	ts map[*Term]*big.Int
}

func newLin() *lin { return &lin{c: new(big.Int), ts: map[*Term]*big.Int{}} }

func (l *lin) add(t *Term, k *big.Int) {
	switch {
	case t.Op == "int":
		l.c.Add(l.c, new(big.Int).Mul(t.Val, k))
	case t.Op == "+":
		for _, a := range t.Args {
			l.add(a, k)
		}
	case t.Op == "*" && isInt(t.Args[0]):
		l.add(t.Args[1], new(big.Int).Mul(k, t.Args[0].Val))
	default:
		x := l.ts[t]
		if x == nil {
			x = new(big.Int)
			l.ts[t] = x
		}
		x.Add(x, k)
		if x.Sign() == 0 {
			delete(l.ts, t)
		}
	}
}

func (l *lin) keys() []*Term {
	var ks []*Term
	for k := range l.ts {
		ks = append(ks, k)
	}
	// indices after offsets: the same order in quantified and in ground terms
	class := func(t *Term) int {
		switch {
		case t.Op == "bound":
			return 3
		case t.Op == "const" && strings.HasPrefix(t.Name, "ix!"):
			return 2
		case t.Op == "const":
			return 1
		}
		return 0
	}
	sort.Slice(ks, func(i, j int) bool {
		if a, b := class(ks[i]), class(ks[j]); a != b {
			return a < b
		}
		return ks[i].id < ks[j].id
	})
	return ks
}

func (l *lin) term() *Term {
	var args []*Term
	for _, k := range l.keys() {
		c := l.ts[k]
		if c.Cmp(big.NewInt(1)) == 0 {
			args = append(args, k)
		} else {
			args = append(args, mk(&Term{Op: "*", Sort: SInt, Args: []*Term{BigInt(c), k}}))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, BigInt(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk(&Term{Op: "+", Sort: SInt, Args: args})
}

var one = big.NewInt(1)
var mone = big.NewInt(-1)

func Add(ts ...*Term) *Term {
	if len(ts) > 0 && ts[0].Sort == SReal {
		return mk(&Term{Op: "r+", Sort: SReal, Args: ts})
	}
	l := newLin()
	for _, t := range ts {
		l.add(t, one)
	}
	return l.term()
}

func Sub(a, b *Term) *Term {
	if a.Sort == SReal {
		return mk(&Term{Op: "r-", Sort: SReal, Args: []*Term{a, b}})
	}
	l := newLin()
	l.add(a, one)
	l.add(b, mone)
	return l.term()
}

func Neg(a *Term) *Term { return Sub(Zero, a) }

func Mul(a, b *Term) *Term {
	if a.Sort == SReal {
		return mk(&Term{Op: "r*", Sort: SReal, Args: []*Term{a, b}})
	}
	if isInt(b) {
		a, b = b, a
	}
	if isInt(a) {
		l := newLin()
		l.add(b, a.Val)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{Op: "*", Sort: SInt, Args: []*Term{a, b}})
}

// Div and Mod are SMT-LIB's (Euclidean) division.
func Div(a, b *Term) *Term {
	if isInt(b) && b.Val.Sign() != 0 {
		if b.Val.Cmp(one) == 0 {
			return a
		}
		if isInt(a) {
			q, _ := new(big.Int).DivMod(a.Val, b.Val, new(big.Int))
			return BigInt(q)
		}
	}
	return mk(&Term{Op: "div", Sort: SInt, Args: []*Term{a, b}})
}

func Mod(a, b *Term) *Term {
	if isInt(b) && b.Val.Sign() > 0 {
		if b.Val.Cmp(one) == 0 {
			return Zero
		}
		if isInt(a) {
			_, r := new(big.Int).DivMod(a.Val, b.Val, new(big.Int))
			return BigInt(r)
		}
	}
	return mk(&Term{Op: "mod", Sort: SInt, Args: []*Term{a, b}})
}

// resolve follows definitions of named constants.
func resolve(t *Term) *Term {
	for t.Def != nil {
		t = t.Def
	}
	return t
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq of sorts %s and %s: %s  %s", a.Sort, b.Sort, a, b))
	}
	switch a.Sort {
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	case SInt:
		l := newLin()
		l.add(a, one)
		l.add(b, mone)
		if len(l.ts) == 0 {
			return Bool(l.c.Sign() == 0)
		}
		if ra, rb := refDistinct(a, b), refDistinct(b, a); ra || rb {
			return False
		}
		// (= (ite c k1 k2) k)
		if isInt(b) && a.Op == "ite" {
			if isInt(a.Args[1]) || isInt(a.Args[2]) {
				return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
			}
		}
		if isInt(a) && b.Op == "ite" {
			return Eq(b, a)
		}
	case SStr:
		if a.Op == "str" && b.Op == "str" {
			return Bool(a.Name == b.Name)
		}
		return mk(&Term{Op: "app", Name: "streq", Sort: SBool, Args: []*Term{a, b}})
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{Op: "=", Sort: SBool, Args: []*Term{a, b}})
}

// refDistinct says whether a is an allocation made after everything in b
// existed, hence a different reference (b has to be a reference or null).
func refDistinct(a, b *Term) bool {
	if !a.alloc {
		return false
	}
	if b.Op == "int" {
		return b.Val.Sign() == 0
	}
	if b.alloc {
		return a != b
	}
	if b.Op == "select" || b.Op == "const" {
		return b.seq < a.seq && !hasBound(b)
	}
	return false
}

func occursAny(t *Term, vs map[*Term]bool) bool {
	if vs[t] {
		return true
	}
	for _, a := range t.Args {
		if occursAny(a, vs) {
			return true
		}
	}
	return false
}

func hasBound(t *Term) bool {
	if t.Op == "bound" {
		return true
	}
	for _, a := range t.Args {
		if hasBound(a) {
			return true
		}
	}
	return false
}

func Le(a, b *Term) *Term {
	if a.Sort == SReal {
		return mk(&Term{Op: "<=", Sort: SBool, Args: []*Term{a, b}})
	}
	l := newLin()
	l.add(a, one)
	l.add(b, mone)
	if len(l.ts) == 0 {
		return Bool(l.c.Sign() <= 0)
	}
	return mk(&Term{Op: "<=", Sort: SBool, Args: []*Term{a, b}})
}

func Lt(a, b *Term) *Term {
	if a.Sort == SReal {
		return mk(&Term{Op: "<", Sort: SBool, Args: []*Term{a, b}})
	}
	l := newLin()
	l.add(a, one)
	l.add(b, mone)
	if len(l.ts) == 0 {
		return Bool(l.c.Sign() < 0)
	}
	return mk(&Term{Op: "<", Sort: SBool, Args: []*Term{a, b}})
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	case "<=":
		return Lt(a.Args[1], a.Args[0])
	case "<":
		return Le(a.Args[1], a.Args[0])
	}
	return mk(&Term{Op: "not", Sort: SBool, Args: []*Term{a}})
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t.Op == "and" {
			for _, x := range t.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		if t == True || seen[t] {
			continue
		}
		if t == False {
			return False
		}
		seen[t] = true
		out = append(out, t)
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{Op: "and", Sort: SBool, Args: out})
}

func Or(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.Op == "or" {
			out = append(out, t.Args...)
			continue
		}
		if t == False {
			continue
		}
		if t == True {
			return True
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{Op: "or", Sort: SBool, Args: out})
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk(&Term{Op: "=>", Sort: SBool, Args: []*Term{a, b}})
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a == True && b == False {
		return c
	}
	if a == False && b == True {
		return Not(c)
	}
	if a.Sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	return mk(&Term{Op: "ite", Sort: a.Sort, Args: []*Term{c, a, b}})
}

func arrayElem(s string) string {
	// "(Array Int X)" or "(Array Str X)"
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	rest := s[len("(Array ") : len(s)-1]
	_, el := splitSort(rest)
	return el
}
func arrayIdx(s string) string {
	rest := s[len("(Array ") : len(s)-1]
	k, _ := splitSort(rest)
	return k
}

func splitSort(s string) (string, string) {
	if s[0] != '(' {
		i := strings.IndexByte(s, ' ')
		return s[:i], s[i+1:]
	}
	d := 0
	for i, r := range s {
		if r == '(' {
			d++
		}
		if r == ')' {
			d--
			if d == 0 {
				return s[:i+1], s[i+2:]
			}
		}
	}
	panic("bad sort " + s)
}

func ArrSort(idx, el string) string { return "(Array " + idx + " " + el + ")" }

func Select(a, i *Term) *Term {
	for {
		r := a
		if r.Op == "const" && r.Def != nil {
			r = r.Def
			if r.Op == "const" {
				a = r
				continue
			}
		}
		if r.Op == "store" {
			if r.Args[1] == i {
				return r.Args[2]
			}
			if Eq(r.Args[1], i) == False {
				a = r.Args[0]
				continue
			}
			break
		}
		if r.Op == "constarr" {
			return r.Args[0]
		}
		break
	}
	return mk(&Term{Op: "select", Sort: arrayElem(a.Sort), Args: []*Term{a, i}})
}

func Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	return mk(&Term{Op: "store", Sort: a.Sort, Args: []*Term{a, i, v}})
}

func ConstArr(sortName string, v *Term) *Term {
	return mk(&Term{Op: "constarr", Sort: sortName, Args: []*Term{v}})
}

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || len(vars) == 0 {
		return body
	}
	body, pats = shiftBound(vars, body, pats)
	return mk(&Term{Op: "forall", Sort: SBool, Vars: vars, Args: []*Term{body}, Pats: pats})
}

// shiftBound renames bound indices: where a variable v occurs as the index
// off + v only, it stands for that sum from now on (v becomes v - off), so that
// the index can be matched: solvers do not match sums.
func shiftBound(vars []*Term, body *Term, pats [][]*Term) (*Term, [][]*Term) {
	for _, v := range vars {
		if v.Sort != SInt {
			continue
		}
		count := map[*Term]int{}
		var order []*Term
		plain := false
		seen := map[*Term]bool{}
		// variables of the quantifiers inside
		inner := map[*Term]bool{v: true}
		var coll func(t *Term)
		cseen := map[*Term]bool{}
		coll = func(t *Term) {
			if cseen[t] {
				return
			}
			cseen[t] = true
			for _, b := range t.Vars {
				inner[b] = true
			}
			for _, a := range t.Args {
				coll(a)
			}
		}
		coll(body)
		var rec func(t *Term)
		idx := func(i *Term) {
			if i == v {
				plain = true
				return
			}
			if i.Op != "+" {
				return
			}
			l := newLin()
			l.add(i, one)
			c, ok := l.ts[v]
			if !ok || c.Cmp(one) != 0 {
				return
			}
			g := Sub(i, v)
			if occursAny(g, inner) {
				return
			}
			if count[g] == 0 {
				order = append(order, g)
			}
			count[g]++
		}
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			switch t.Op {
			case "select":
				idx(t.Args[1])
			case "app":
				for _, a := range t.Args {
					idx(a)
				}
			}
			for _, a := range t.Args {
				rec(a)
			}
		}
		rec(body)
		if plain || len(order) == 0 {
			continue
		}
		best := order[0]
		for _, g := range order {
			if count[g] > count[best] {
				best = g
			}
		}
		m := map[*Term]*Term{v: Sub(v, best)}
		body = subst(body, m)
		for i, p := range pats {
			q := make([]*Term, len(p))
			for j, t := range p {
				q[j] = subst(t, m)
			}
			np := append([][]*Term{}, pats...)
			np[i] = q
			pats = np
		}
	}
	return body, pats
}

func Exists(vars []*Term, body *Term) *Term {
	if body == False || body == True || len(vars) == 0 {
		return body
	}
	body, _ = shiftBound(vars, body, nil)
	return mk(&Term{Op: "exists", Sort: SBool, Vars: vars, Args: []*Term{body}})
}

// subst replaces bound variables (and constants) by terms.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if x, ok := m[t]; ok {
			return x
		}
		if len(t.Args) == 0 {
			return t
		}
		if x, ok := memo[t]; ok {
			return x
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
			if len(t.Pats) > 0 {
				var ps [][]*Term
				for _, p := range t.Pats {
					var q []*Term
					for _, x := range p {
						q = append(q, rec(x))
					}
					ps = append(ps, q)
				}
				r = mk(&Term{Op: t.Op, Sort: t.Sort, Name: t.Name, Args: args, Vars: t.Vars, Pats: ps})
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	}
	return mk(&Term{Op: t.Op, Name: t.Name, Sort: t.Sort, Val: t.Val, Args: a, Vars: t.Vars, Pats: t.Pats})
}

// ---- printing ----

func (t *Term) String() string {
	var sb strings.Builder
	t.print(&sb)
	return sb.String()
}

func quoteSym(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!?-+*/<>=@$%&^~", r)) {
			return "|" + s + "|"
		}
	}
	return s
}

func (t *Term) print(sb *strings.Builder) {
	switch t.Op {
	case "int":
		if t.Val.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.Val).String())
		} else {
			sb.WriteString(t.Val.String())
		}
	case "true", "false":
		sb.WriteString(t.Op)
	case "real":
		sb.WriteString(t.Name)
	case "const", "bound":
		sb.WriteString(quoteSym(t.Name))
	case "str":
		fmt.Fprintf(sb, "lit_%d", litIndex(t.Name))
	case "app":
		if len(t.Args) == 0 {
			sb.WriteString(quoteSym(t.Name))
			return
		}
		sb.WriteByte('(')
		sb.WriteString(quoteSym(t.Name))
		for _, a := range t.Args {
			sb.WriteByte(' ')
			a.print(sb)
		}
		sb.WriteByte(')')
	case "constarr":
		fmt.Fprintf(sb, "((as const %s) ", t.Sort)
		t.Args[0].print(sb)
		sb.WriteByte(')')
	case "forall", "exists":
		sb.WriteByte('(')
		sb.WriteString(t.Op)
		sb.WriteString(" (")
		for _, v := range t.Vars {
			fmt.Fprintf(sb, "(%s %s)", quoteSym(v.Name), v.Sort)
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		t.Args[0].print(sb)
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					x.print(sb)
				}
				sb.WriteByte(')')
			}
			sb.WriteByte(')')
		}
		sb.WriteByte(')')
	default:
		op := t.Op
		switch op {
		case "r+", "r-", "r*", "r/":
			op = op[1:]
		}
		sb.WriteByte('(')
		sb.WriteString(op)
		for _, a := range t.Args {
			sb.WriteByte(' ')
			a.print(sb)
		}
		sb.WriteByte(')')
	}
}

// string literals

var (
	litTab  = map[string]int{}
	litList []string
)

func litIndex(s string) int {
	if i, ok := litTab[s]; ok {
		return i
	}
	i := len(litList)
	litTab[s] = i
	litList = append(litList, s)
	return i
}

func StrLit(s string) *Term {
	litIndex(s)
	return mk(&Term{Op: "str", Name: s, Sort: SStr})
}

func slen(s *Term) *Term {
	switch {
	case s.Op == "str":
		return Int(int64(len(s.Name)))
	case s.Op == "app" && s.Name == "cat":
		return Add(slen(s.Args[0]), slen(s.Args[1]))
	}
	return App("slen", SInt, s)
}

func sat(s, i *Term) *Term {
	if s.Op == "str" && isInt(i) && i.Val.IsInt64() {
		k := i.Val.Int64()
		if k >= 0 && k < int64(len(s.Name)) {
			return Int(int64(s.Name[k]))
		}
	}
	if s.Op == "app" && s.Name == "cat" && isInt(i) {
		if n := knownLen(s.Args[0]); n >= 0 && i.Val.IsInt64() {
			if i.Val.Int64() < n {
				return sat(s.Args[0], i)
			}
			return sat(s.Args[1], Sub(i, Int(n)))
		}
	}
	return App("sat", SInt, s, i)
}

// knownLen is the length of a string term of fixed size, or -1.
func knownLen(s *Term) int64 {
	if s.Op == "str" {
		return int64(len(s.Name))
	}
	if s.Op == "app" {
		switch s.Name {
		case "be1":
			return 1
		case "be2", "le2":
			return 2
		case "be4", "le4":
			return 4
		case "be8", "le8":
			return 8
		}
	}
	return -1
}

func cat(a, b *Term) *Term {
	if r := resolve(a); r.Op == "str" || r.Op == "app" && r.Name == "cat" {
		a = r
	}
	if r := resolve(b); r.Op == "str" || r.Op == "app" && r.Name == "cat" {
		b = r
	}
	if a.Op == "str" && b.Op == "str" {
		return StrLit(a.Name + b.Name)
	}
	if a.Op == "str" && a.Name == "" {
		return b
	}
	if b.Op == "str" && b.Name == "" {
		return a
	}
	// right-associate
	if a.Op == "app" && a.Name == "cat" {
		return cat(a.Args[0], cat(a.Args[1], b))
	}
	if a.Op == "str" && b.Op == "app" && b.Name == "cat" && b.Args[0].Op == "str" {
		return cat(StrLit(a.Name+b.Args[0].Name), b.Args[1])
	}
	return App("cat", SStr, a, b)
}

// mkstr is the string of n bytes of content array a from off.
func mkstr(a, off, n *Term) *Term {
	if n == Zero {
		return StrLit("")
	}
	return App("mkstr", SStr, a, off, n)
}

// consts collects the constants and function symbols of t.
func collect(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.Args {
		collect(a, seen, f)
	}
	for _, p := range t.Pats {
		for _, a := range p {
			collect(a, seen, f)
		}
	}
}
