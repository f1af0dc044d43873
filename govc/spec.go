package main

// The contract language: parser of contract files and of expressions.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---- expressions ----

type Expr struct {
	Op   string // ident int str call sel index slice un bin quant
	S    string
	Args []*Expr
	Vars []QVar
	Pats [][]*Expr
	Src  string
}

type QVar struct{ Name, Sort string }

type tok struct{ k, s string } // k: id int str chr op eof

func lex(src string) []tok {
	var out []tok
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic("bad string in spec: " + src)
			}
			out = append(out, tok{"str", s})
			i = j + 1
		case c == '\'':
			j := i + 1
			for src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				panic("bad char in spec: " + src)
			}
			out = append(out, tok{"int", strconv.Itoa(int(s))})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f' && strings.HasPrefix(src[i:], "0x")) {
				j++
			}
			out = append(out, tok{"int", src[i:j]})
			i = j
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || src[j] >= '0' && src[j] <= '9' || src[j] == '_' || src[j] == '$') {
				j++
			}
			out = append(out, tok{"id", src[i:j]})
			i = j
		default:
			ok := false
			for _, op := range []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ":="} {
				if strings.HasPrefix(src[i:], op) {
					out = append(out, tok{"op", op})
					i += len(op)
					ok = true
					break
				}
			}
			if !ok {
				out = append(out, tok{"op", string(c)})
				i++
			}
		}
	}
	return append(out, tok{"eof", ""})
}

type parser struct {
	ts  []tok
	p   int
	src string
}

func (p *parser) peek() tok { return p.ts[p.p] }
func (p *parser) next() tok { t := p.ts[p.p]; p.p++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("spec: expected %q, found %q in: %s", s, p.peek().s, p.src))
	}
}

func parseExpr(src string) *Expr {
	p := &parser{ts: lex(src), src: src}
	e := p.expr()
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("spec: unexpected %q in: %s", p.peek().s, src))
	}
	e.Src = src
	return e
}

func (p *parser) sortName() string {
	if p.accept("(") {
		s := "("
		d := 1
		for d > 0 {
			t := p.next()
			if t.s == "(" {
				d++
			}
			if t.s == ")" {
				d--
			}
			if s != "(" && t.s != ")" && !strings.HasSuffix(s, "(") {
				s += " "
			}
			s += t.s
		}
		return s
	}
	t := p.next()
	s := t.s
	for p.is(".") || p.is("*") {
		s += p.next().s
		s += p.next().s
	}
	switch s {
	case "int":
		return SInt
	case "bool":
		return SBool
	case "str", "string":
		return SStr
	}
	return s
}

func (p *parser) expr() *Expr {
	if p.is("forall") || p.is("exists") {
		q := p.next().s
		var vs []QVar
		for {
			n := p.next().s
			vs = append(vs, QVar{n, p.sortName()})
			if !p.accept(",") {
				break
			}
		}
		var pats [][]*Expr
		for p.accept("{") {
			var pat []*Expr
			for {
				pat = append(pat, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			pats = append(pats, pat)
		}
		p.expect("::")
		return &Expr{Op: "quant", S: q, Vars: vs, Pats: pats, Args: []*Expr{p.expr()}}
	}
	return p.bin(0)
}

var levels = [][]string{{"<==>"}, {"==>"}, {"||"}, {"&&"}, {"==", "!=", "<", "<=", ">", ">=", "in"}, {"+", "-"}, {"*", "/", "%"}}

func (p *parser) bin(l int) *Expr {
	if l == len(levels) {
		return p.unary()
	}
	if p.is("forall") || p.is("exists") {
		return p.expr()
	}
	a := p.bin(l + 1)
	for {
		op := ""
		for _, o := range levels[l] {
			if p.is(o) {
				op = o
			}
		}
		if op == "" {
			return a
		}
		p.next()
		if op == "==>" {
			b := p.bin(l)
			return &Expr{Op: "bin", S: op, Args: []*Expr{a, b}}
		}
		b := p.bin(l + 1)
		e := &Expr{Op: "bin", S: op, Args: []*Expr{a, b}}
		// chained comparison a <= b < c
		for l == 4 && (op == "<" || op == "<=") && (p.is("<") || p.is("<=")) {
			o2 := p.next().s
			c := p.bin(l + 1)
			e = &Expr{Op: "bin", S: "&&", Args: []*Expr{e, {Op: "bin", S: o2, Args: []*Expr{b, c}}}}
			b = c
		}
		a = e
	}
}

func (p *parser) unary() *Expr {
	if p.is("!") || p.is("-") || p.is("*") {
		o := p.next().s
		return &Expr{Op: "un", S: o, Args: []*Expr{p.unary()}}
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	var e *Expr
	t := p.next()
	switch t.k {
	case "int":
		e = &Expr{Op: "int", S: t.s}
	case "str":
		e = &Expr{Op: "str", S: t.s}
	case "id":
		e = &Expr{Op: "ident", S: t.s}
	default:
		if t.s == "(" {
			e = p.expr()
			p.expect(")")
		} else {
			panic(fmt.Sprintf("spec: unexpected %q in: %s", t.s, p.src))
		}
	}
	for {
		switch {
		case p.accept("."):
			e = &Expr{Op: "sel", S: p.next().s, Args: []*Expr{e}}
		case p.is("("):
			p.next()
			var as []*Expr
			for !p.is(")") {
				as = append(as, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			name := e.S
			if e.Op == "sel" && e.Args[0].Op == "ident" {
				name = e.Args[0].S + "." + e.S
			}
			e = &Expr{Op: "call", S: name, Args: as}
		case p.accept("["):
			var lo, hi *Expr
			if p.accept(":") {
				lo = &Expr{Op: "int", S: "0"}
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, lo, hi}}
				continue
			}
			lo = p.expr()
			if p.accept(":") {
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, lo, hi}}
				continue
			}
			p.expect("]")
			e = &Expr{Op: "index", Args: []*Expr{e, lo}}
		default:
			return e
		}
	}
}

func (e *Expr) String() string {
	if e == nil {
		return ""
	}
	if e.Src != "" {
		return strings.Join(strings.Fields(e.Src), " ")
	}
	switch e.Op {
	case "ident", "int":
		return e.S
	case "str":
		return strconv.Quote(e.S)
	case "sel":
		return e.Args[0].String() + "." + e.S
	case "index":
		return e.Args[0].String() + "[" + e.Args[1].String() + "]"
	case "call":
		var as []string
		for _, a := range e.Args {
			as = append(as, a.String())
		}
		return e.S + "(" + strings.Join(as, ", ") + ")"
	case "un":
		return e.S + e.Args[0].String()
	case "bin":
		return "(" + e.Args[0].String() + " " + e.S + " " + e.Args[1].String() + ")"
	case "quant":
		return e.S + " ... :: " + e.Args[0].String()
	}
	return e.Op
}

// ---- contract files ----

type Clause struct {
	Kind string // requires ensures inv decreases assume ...
	Tags []string
	E    *Expr
	Meta []QVar // loop metavariables
	Line string
	Name string
	Weak bool // one of several alternatives: no second try
}

// Hook is an event of a verified function: what has to hold before, and what
// changes in the ghost state after, a call.
type Hook struct {
	Callee  string
	Params  []string
	Results []string
	Asserts []Clause
	Sets    []HookSet
}

type HookSet struct {
	Before bool
	Var    string
	Loc    *Expr
	E      *Expr
}

type Contract struct {
	Name     string
	Params   []string
	Results  []string
	Extern   bool
	Iface    bool
	Requires []Clause
	Ensures  []Clause
	Modifies []*Expr
	Loops    []Clause
	Hooks    []Hook
	Safety   []string
	Props    []string // properties this function is a root for even without tagged clauses
	Flags    map[string]bool
	Ghosts   []QVar // ghost variables of this function
	GhostIni map[string]*Expr
	Inline   map[string]bool // callees inlined in spite of their contracts
	Unroll   int
	File     string
	Note     string
	Variant  string
	Atomic   string
	Targets  []string
	Splits   []Clause
	OnReturn *Hook
	Measure  *Expr    // decreases along recursive calls
	Term     []string // properties that need termination
}

type Macro struct {
	Params []string
	Body   *Expr
}

type Guard struct {
	Field string // torrent.Torrent.requested
	Mutex string // requestedMu
	Inv   *Expr
	Deref bool
}

type Specs struct {
	Contracts map[string][]*Contract
	Order     []*Contract
	Macros    map[string]*Macro
	GhostConst map[string]string // rigid ghost fields
	GhostFld  map[string]string // "bitset.BitSet.bits" -> sort
	GhostVar  map[string]string
	Guards    []Guard
	Pure      []string        // package patterns without effect
	Function  map[string]bool // deterministic functions of their arguments' values
	Globals   map[string]*Expr
	Harness   map[string]string
	Lemmas    []Lemma
	blocks    map[string][]string
}

type Lemma struct {
	Name  string
	Vars  []QVar
	Facts []*Expr
	Goal  *Expr
	Tags  []string
}

var tagRe = regexp.MustCompile(`^(\w+)(?:\[([^\]]*)\])?\s*`)

func splitTags(s string) []string {
	var out []string
	for _, t := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' }) {
		out = append(out, t)
	}
	return out
}

func loadSpecs(dir string) *Specs {
	sp := &Specs{GhostConst: map[string]string{}, Contracts: map[string][]*Contract{}, Macros: map[string]*Macro{}, GhostFld: map[string]string{}, GhostVar: map[string]string{}, blocks: map[string][]string{}, Globals: map[string]*Expr{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		sp.parseFile(filepath.Base(f), string(data))
	}
	return sp
}

var headRe = regexp.MustCompile(`^(func|extern)\s+(\S.*?)\(([^()]*)\)\s*(?:\(([^()]*)\))?\s*$`)

func names(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

// expandBlocks replaces "use NAME" in a contract by the lines of "block NAME".
func (sp *Specs) expandBlocks(in []string) []string {
	var out []string
	cur := ""
	for _, l := range in {
		if strings.HasPrefix(l, "block ") {
			cur = strings.TrimSpace(l[6:])
			sp.blocks[cur] = nil
			continue
		}
		if cur != "" {
			if l == "" || l[0] == ' ' {
				if t := strings.TrimSpace(l); strings.HasPrefix(t, "use ") && sp.blocks[t[4:]] != nil {
					sp.blocks[cur] = append(sp.blocks[cur], sp.blocks[t[4:]]...)
					continue
				}
				sp.blocks[cur] = append(sp.blocks[cur], l)
				continue
			}
			cur = ""
		}
		if strings.HasPrefix(strings.TrimSpace(l), "use ") && strings.HasPrefix(l, "  ") {
			b, ok := sp.blocks[strings.TrimSpace(l)[4:]]
			if !ok {
				panic("unknown block: " + l)
			}
			out = append(out, b...)
			continue
		}
		out = append(out, l)
	}
	return out
}

func (sp *Specs) parseFile(file, src string) {
	lines := sp.expandBlocks(strings.Split(src, "\n"))
	var cur *Contract
	var hook *Hook
	i := 0
	clean := func(l string) string {
		if k := strings.Index(l, "//"); k >= 0 && (k == 0 || l[k-1] == ' ' || l[k-1] == '\t') {
			l = l[:k]
		}
		return strings.TrimRight(l, " \t")
	}
	for i < len(lines) {
		l := clean(lines[i])
		if strings.TrimSpace(l) == "" {
			i++
			continue
		}
		indent := len(l) - len(strings.TrimLeft(l, " "))
		body := strings.TrimSpace(l)
		i++
		if indent == 0 && (strings.HasPrefix(body, "theory ") || strings.HasPrefix(body, "assumed theory ")) {
			assumed := strings.HasPrefix(body, "assumed ")
			th := &Theory{Name: strings.Fields(body)[len(strings.Fields(body))-1], Uses: map[string]bool{}, Assumed: assumed}
			if k := strings.Index(body, " when "); k >= 0 {
				// included only when all of these symbols occur
				th.When = strings.Fields(body[k+6:])
				f := strings.Fields(body[:k])
				th.Name = f[len(f)-1]
			}
			var sb strings.Builder
			for i < len(lines) && strings.TrimSpace(lines[i]) != "end" {
				s := lines[i]
				if k := strings.Index(s, ";"); k >= 0 {
					s = s[:k]
				}
				sb.WriteString(s + "\n")
				i++
			}
			i++
			addTheory(th, sb.String())
			continue
		}
		// continuation lines
		for i < len(lines) {
			n := clean(lines[i])
			if strings.TrimSpace(n) == "" {
				i++
				continue
			}
			ni := len(n) - len(strings.TrimLeft(n, " "))
			if ni < 6 || ni <= indent {
				break
			}
			body += " " + strings.TrimSpace(n)
			i++
		}
		if indent == 0 {
			hook = nil
			f := strings.Fields(body)
			kw0 := f[0]
			if k := strings.IndexByte(kw0, '['); k > 0 {
				kw0 = kw0[:k]
			}
			switch kw0 {
			case "ghost":
				if f[1] == "const" {
					// a ghost attribute fixed when the object is made
					sp.GhostConst[f[2]] = fixSort(strings.Join(f[3:], " "))
				} else if f[1] == "field" {
					sp.GhostFld[f[2]] = fixSort(strings.Join(f[3:], " "))
				} else {
					sp.GhostVar[f[2]] = fixSort(strings.Join(f[3:], " "))
				}
			case "def":
				k := strings.Index(body, "=")
				head := strings.TrimSpace(body[4:k])
				o := strings.Index(head, "(")
				sp.Macros[head[:o]] = &Macro{Params: names(strings.TrimSuffix(head[o+1:], ")")), Body: parseExpr(body[k+1:])}
			case "guarded":
				// guarded torrent.Torrent.requested by requestedMu [inv expr(self)]
				sp.Guards = append(sp.Guards, Guard{Field: f[1], Mutex: f[3]})
				if k := strings.Index(body, " inv "); k >= 0 {
					sp.Guards[len(sp.Guards)-1].Inv = parseExpr(body[k+5:])
				}
			case "pure":
				sp.Pure = append(sp.Pure, f[1:]...)
			case "function":
				if sp.Function == nil {
					sp.Function = map[string]bool{}
				}
				for _, n := range f[1:] {
					sp.Function[n] = true
				}
			case "transparent":
				for _, n := range f[1:] {
					transparent[n] = true
				}
			case "global":
				k := strings.Index(body, ":")
				sp.Globals[strings.TrimSpace(body[7:k])] = parseExpr(body[k+1:])
			case "lemma":
				// lemma[C08] NAME(vars) : facts ; goal
				m := tagRe.FindStringSubmatch(body)
				rest := strings.TrimSpace(body[len(m[0]):])
				o := strings.Index(rest, "(")
				lm := Lemma{Name: rest[:o], Tags: splitTags(m[2])}
				rest = rest[o+1:]
				c := 0
				for d := 0; ; c++ {
					if rest[c] == '(' {
						d++
					} else if rest[c] == ')' {
						if d == 0 {
							break
						}
						d--
					}
				}
				p := &parser{ts: lex(rest[:c]), src: rest[:c]}
				for p.peek().k != "eof" {
					n := p.next().s
					lm.Vars = append(lm.Vars, QVar{n, p.sortName()})
					p.accept(",")
				}
				rest = strings.TrimPrefix(strings.TrimSpace(rest[c+1:]), ":")
				parts := strings.Split(rest, ";")
				for j, x := range parts {
					if j == len(parts)-1 {
						lm.Goal = parseExpr(x)
					} else {
						lm.Facts = append(lm.Facts, parseExpr(x))
					}
				}
				sp.Lemmas = append(sp.Lemmas, lm)
			case "func", "extern":
				m := headRe.FindStringSubmatch(body)
				if m == nil {
					panic(file + ": bad header: " + body)
				}
				cur = &Contract{Name: strings.TrimSpace(m[2]), Params: names(m[3]), Results: names(m[4]), Extern: m[1] == "extern", Flags: map[string]bool{}, GhostIni: map[string]*Expr{}, Inline: map[string]bool{}, File: file}
				if k := strings.Index(cur.Name, "@"); k >= 0 {
					cur.Variant = cur.Name[k+1:]
					cur.Name = cur.Name[:k]
				}
				sp.Contracts[cur.Name] = append(sp.Contracts[cur.Name], cur)
				sp.Order = append(sp.Order, cur)
			default:
				panic(file + ": bad line: " + body)
			}
			continue
		}
		if cur == nil {
			panic(file + ": clause outside contract: " + body)
		}
		m := tagRe.FindStringSubmatch(body)
		kw, tags, rest := m[1], splitTags(m[2]), strings.TrimSpace(body[len(m[0]):])
		if indent >= 4 && hook != nil {
			switch kw {
			case "assert":
				hook.Asserts = append(hook.Asserts, Clause{Kind: "assert", Tags: tags, E: parseExpr(rest), Line: rest})
			case "set", "before":
				k := strings.Index(rest, ":=")
				hook.Sets = append(hook.Sets, HookSet{Before: kw == "before", Var: strings.TrimSpace(rest[:k]), Loc: parseExpr(rest[:k]), E: parseExpr(rest[k+2:])})
			default:
				panic(file + ": bad hook clause: " + body)
			}
			continue
		}
		hook = nil
		switch kw {
		case "requires":
			cur.Requires = append(cur.Requires, Clause{Kind: kw, Tags: tags, E: parseExpr(rest), Line: rest})
		case "ensures":
			cur.Ensures = append(cur.Ensures, Clause{Kind: kw, Tags: tags, E: parseExpr(rest), Line: rest})
		case "split":
			cur.Splits = append(cur.Splits, Clause{Kind: kw, Tags: tags, E: parseExpr(rest), Line: rest})
		case "modifies":
			d := 0
			st := 0
			for k := 0; k <= len(rest); k++ {
				if k == len(rest) || rest[k] == ',' && d == 0 {
					if x := strings.TrimSpace(rest[st:k]); x != "" {
						cur.Modifies = append(cur.Modifies, parseLoc(x))
					}
					st = k + 1
					continue
				}
				if rest[k] == '(' {
					d++
				}
				if rest[k] == ')' {
					d--
				}
			}
		case "safety":
			cur.Safety = append(cur.Safety, splitTags(rest)...)
		case "terminates":
			cur.Term = append(cur.Term, splitTags(rest)...)
		case "measure":
			cur.Measure = parseExpr(rest)
		case "props":
			cur.Props = append(cur.Props, splitTags(rest)...)
		case "inv", "maybe", "decreases", "lemma":
			c := Clause{Kind: kw, Tags: tags, Line: rest}
			if kw == "maybe" {
				c.Kind, c.Weak = "inv", true
			}
			if strings.HasPrefix(rest, "(") && strings.Contains(rest, ")") && isMeta(rest) {
				k := strings.Index(rest, ")")
				p := &parser{ts: lex(rest[1:k]), src: rest}
				for p.peek().k != "eof" {
					n := p.next().s
					c.Meta = append(c.Meta, QVar{n, p.metaSort()})
					p.accept(",")
				}
				rest = rest[k+1:]
			}
			c.E = parseExpr(rest)
			cur.Loops = append(cur.Loops, c)
		case "on":
			// on CALLEE(params)(results)
			if strings.TrimSpace(rest) == "return" {
				hook = &Hook{Callee: "return"}
				cur.OnReturn = hook
				break
			}
			o := strings.LastIndex(strings.TrimSpace(rest), "(")
			res := rest[o+1 : strings.LastIndex(rest, ")")]
			r2 := strings.TrimSpace(rest[:o])
			o2 := strings.LastIndex(r2, "(")
			par := r2[o2+1 : strings.LastIndex(r2, ")")]
			cur.Hooks = append(cur.Hooks, Hook{Callee: strings.TrimSpace(r2[:o2]), Params: names(par), Results: names(res)})
			hook = &cur.Hooks[len(cur.Hooks)-1]
		case "ghost":
			// ghost NAME SORT = expr
			k := strings.Index(rest, "=")
			f := strings.Fields(rest[:k])
			cur.Ghosts = append(cur.Ghosts, QVar{f[0], fixSort(strings.Join(f[1:], " "))})
			cur.GhostIni[f[0]] = parseExpr(rest[k+1:])
		case "inline":
			for _, n := range strings.Fields(rest) {
				cur.Inline[n] = true
			}
		case "unroll":
			cur.Unroll, _ = strconv.Atoi(rest)
		case "flag":
			for _, n := range strings.Fields(rest) {
				cur.Flags[n] = true
			}
		case "note":
			cur.Note = rest
		case "target":
			cur.Targets = append(cur.Targets, strings.Fields(rest)...)
		default:
			panic(file + ": unknown clause: " + body)
		}
	}
}

func fixSort(s string) string {
	switch s {
	case "int", "ref":
		return SInt
	case "bool":
		return SBool
	case "str":
		return SStr
	}
	return s
}

// isMeta says whether "(x int, y ref) expr" starts with a metavariable list.
var metaRe = regexp.MustCompile(`^\((\s*\w+\s+[\w.*\[\]]+\s*,?)*\)\s*\S`)

func isMeta(s string) bool { return metaRe.MatchString(s) }

func (p *parser) metaSort() string {
	s := ""
	for !(p.is(",") || p.peek().k == "eof") {
		s += p.next().s
	}
	return s
}

// parseLoc parses a location of a modifies clause.
func parseLoc(s string) *Expr {
	if strings.HasSuffix(s, ".*") {
		return &Expr{Op: "call", S: "allfields", Args: []*Expr{parseExpr(strings.TrimSuffix(s, ".*"))}, Src: s}
	}
	return parseExpr(s)
}

// ---- theories (raw SMT-LIB) ----

func sexprs(src string) []string {
	var out []string
	d, st := 0, -1
	for i := 0; i < len(src); i++ {
		switch src[i] {
		case '(':
			if d == 0 {
				st = i
			}
			d++
		case ')':
			d--
			if d == 0 {
				out = append(out, src[st:i+1])
			}
		}
	}
	if d != 0 {
		panic("unbalanced theory:\n" + src)
	}
	return out
}

var symRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_.!]*`)
var strLitRe = regexp.MustCompile(`"([^"]*)"`)

func addTheory(th *Theory, src string) {
	// "text" stands for a string literal
	src = strLitRe.ReplaceAllStringFunc(src, func(s string) string {
		u, err := strconv.Unquote(s)
		if err != nil {
			panic(err)
		}
		return fmt.Sprintf("lit_%d", litIndex(u))
	})
	for _, s := range sexprs(src) {
		for _, y := range symRe.FindAllString(s, -1) {
			th.Uses[y] = true
		}
		if strings.HasPrefix(s, "(declare-fun") || strings.HasPrefix(s, "(define-fun") || strings.HasPrefix(s, "(declare-datatypes") || strings.HasPrefix(s, "(declare-sort") {
			th.Decls = append(th.Decls, s)
			if strings.HasPrefix(s, "(declare-fun") || strings.HasPrefix(s, "(define-fun") {
				name, args, res := parseSig(s)
				th.Syms = append(th.Syms, name)
				funSort[name] = append(args, res)
				theoryOf[name] = th
			}
		} else {
			th.Axioms = append(th.Axioms, s)
		}
	}
	if len(th.Syms) == 0 && len(th.When) == 0 {
		panic("theory " + th.Name + " is never used")
	}
	theories = append(theories, th)
}

func parseSig(s string) (name string, args []string, res string) {
	define := strings.HasPrefix(s, "(define-fun")
	body := strings.TrimSpace(s[strings.IndexAny(s, " \n"):])
	k := strings.IndexAny(body, " \n")
	name = body[:k]
	body = strings.TrimSpace(body[k:])
	// argument list
	d := 0
	end := 0
	for i, r := range body {
		if r == '(' {
			d++
		}
		if r == ')' {
			d--
			if d == 0 {
				end = i
				break
			}
		}
	}
	al := strings.TrimSpace(body[1:end])
	for al != "" {
		var x string
		if al[0] == '(' {
			d := 0
			for i, r := range al {
				if r == '(' {
					d++
				}
				if r == ')' {
					d--
					if d == 0 {
						x = al[:i+1]
						break
					}
				}
			}
		} else {
			x = strings.Fields(al)[0]
		}
		al = strings.TrimSpace(al[len(x):])
		if define {
			inner := strings.TrimSpace(x[1 : len(x)-1])
			k := strings.IndexAny(inner, " ")
			x = strings.TrimSpace(inner[k:])
		}
		args = append(args, strings.Join(strings.Fields(x), " "))
	}
	rest := strings.TrimSpace(body[end+1:])
	if rest[0] == '(' {
		d := 0
		for i, r := range rest {
			if r == '(' {
				d++
			}
			if r == ')' {
				d--
				if d == 0 {
					res = rest[:i+1]
					break
				}
			}
		}
	} else {
		res = strings.TrimRight(strings.Fields(rest)[0], ")")
	}
	res = strings.Join(strings.Fields(res), " ")
	return
}
