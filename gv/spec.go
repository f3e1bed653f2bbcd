package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---- expressions ----

type Expr struct {
	K    string // int str id call field index slice unary binary quant hole
	Op   string // operator, name or field
	Args []*Expr
	I    *big.Int
	Bind []Binder
	Trig [][]*Expr
	Pos  string
}

type Binder struct {
	Name string
	Type string
	Kind string // cur, outer: which loop's variables may fill the hole
}

type Clause struct {
	Level int    // template invariants: 1 only outermost loops, 2 only nested loops
	Kind  string // requires ensures invariant axiom lemma
	Tags  []string
	Label string
	E     *Expr
	Holes []Binder
	Pos   string
	Src   string
	Loop  int // -1: any loop
}

type Contract struct {
	Pkg      string
	Key      string // ssa name relative to package, or full for extern/iface
	Extern   bool
	Local    bool // external contract that holds only for calls from Pkg
	Iface    bool
	Params   []string
	Results  []string
	Requires []*Clause
	Ensures  []*Clause
	Modifies []*Expr
	ModAll   bool
	Invs     []*Clause
	Sets     []*Clause // ghost assignments performed when the function returns
	Flags    map[string]string
	NoPanic  []string // property tags of the crash-freedom obligations
	FrameTags []string
	Pos      string
	File     string
	Locks    []*Clause
}

type Def struct {
	Pkg    string
	Name   string
	Params []Binder
	Ret    string
	E      *Expr
	Fn     bool // uninterpreted function with defining axiom
}

type Spec struct {
	Contracts map[string]*Contract // full key
	Defs      map[string]*Def
	Funs      map[string]*FuncDecl
	Ghosts    map[string]string // ghost field name -> sort
	GhostVars map[string]string
	Axioms    []*Clause
	Lemmas    []*Clause
	Guards    []*Guard
	Opaque    map[string]bool // types treated as opaque values
	PropTags  map[string][]string
	LockRank  map[string]int
	Consts    map[string]*Expr
	GlobalInvs []*Clause
	clauseSeq []*Clause // axioms and lemmas in order
}

type Guard struct {
	Type   string // struct type full name
	Mu     string // mutex field
	Fields []string
	Inv    []*Clause
}

// ---- lexer ----

type tok struct {
	k string // id int str op eof
	s string
}

func lex(src string) ([]tok, error) {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "::", "<=", ">=", "==", "!=", "&&", "||", "++", "..", "(", ")", "[", "]", "{", "}", ",", ":", ".", "<", ">", "+", "-", "*", "/", "%", "!", "=", "&", "@"}
outer:
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
			continue
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("unterminated string")
			}
			sv, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				return nil, fmt.Errorf("bad string %s", src[i:j+1])
			}
			out = append(out, tok{"str", sv})
			i = j + 1
			continue
		case c == '\'' && i+2 < len(src) && src[i+2] == '\'':
			out = append(out, tok{"int", fmt.Sprint(src[i+1])})
			i += 3
			continue
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || unicode.IsLetter(rune(src[j]))) {
				j++
			}
			out = append(out, tok{"int", src[i:j]})
			i = j
			continue
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$' || c == '#':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$' || src[j] == '#') {
				j++
			}
			out = append(out, tok{"id", src[i:j]})
			i = j
			continue
		}
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				out = append(out, tok{"op", o})
				i += len(o)
				continue outer
			}
		}
		return nil, fmt.Errorf("bad character %q", c)
	}
	out = append(out, tok{"eof", ""})
	return out, nil
}

type parser struct {
	t   []tok
	p   int
	pos string
}

func (p *parser) peek() tok { return p.t[p.p] }
func (p *parser) next() tok { t := p.t[p.p]; p.p++; return t }
func (p *parser) isOp(s string) bool {
	return p.peek().k == "op" && p.peek().s == s
}
func (p *parser) accept(s string) bool {
	if p.isOp(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q, got %q", s, p.peek().s)
	}
}
func (p *parser) fail(f string, a ...any) {
	panic(fmt.Errorf("%s: %s", p.pos, fmt.Sprintf(f, a...)))
}

func parseExpr(src, pos string) *Expr {
	ts, err := lex(src)
	if err != nil {
		panic(fmt.Errorf("%s: %v in %q", pos, err, src))
	}
	p := &parser{t: ts, pos: pos}
	e := p.expr(0)
	if p.peek().k != "eof" {
		p.fail("trailing %q in %q", p.peek().s, src)
	}
	return e
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "++": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (p *parser) expr(min int) *Expr {
	lhs := p.unary()
	for {
		t := p.peek()
		op := t.s
		if t.k == "id" && op != "in" || t.k == "int" || t.k == "str" || t.k == "eof" {
			return lhs
		}
		pr, ok := binPrec[op]
		if !ok || pr < min {
			return lhs
		}
		p.next()
		switch {
		case op == "==>":
			rhs := p.expr(pr)
			lhs = &Expr{K: "binary", Op: op, Args: []*Expr{lhs, rhs}, Pos: p.pos}
		case pr == 5:
			rhs := p.expr(pr + 1)
			res := &Expr{K: "binary", Op: op, Args: []*Expr{lhs, rhs}, Pos: p.pos}
			prev := rhs
			for p.peek().k == "op" && (p.peek().s == "<" || p.peek().s == "<=" || p.peek().s == ">" || p.peek().s == ">=" || p.peek().s == "==") {
				op2 := p.next().s
				r2 := p.expr(pr + 1)
				c := &Expr{K: "binary", Op: op2, Args: []*Expr{prev, r2}, Pos: p.pos}
				res = &Expr{K: "binary", Op: "&&", Args: []*Expr{res, c}, Pos: p.pos}
				prev = r2
			}
			lhs = res
		default:
			rhs := p.expr(pr + 1)
			lhs = &Expr{K: "binary", Op: op, Args: []*Expr{lhs, rhs}, Pos: p.pos}
		}
	}
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "*" || t.s == "&") {
		p.next()
		return &Expr{K: "unary", Op: t.s, Args: []*Expr{p.unary()}, Pos: p.pos}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		e := &Expr{K: "quant", Op: t.s, Pos: p.pos}
		for {
			name := p.next().s
			typ := p.typ()
			e.Bind = append(e.Bind, Binder{name, typ, ""})
			if !p.accept(",") {
				break
			}
		}
		for p.accept("{") {
			var tr []*Expr
			for {
				tr = append(tr, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.Trig = append(e.Trig, tr)
		}
		p.expect("::")
		e.Args = []*Expr{p.expr(0)}
		return e
	}
	return p.postfix(p.primary())
}

// typ parses a type as raw text.
func (p *parser) typ() string {
	var sb strings.Builder
	if p.accept("*") {
		return "*" + p.typ()
	}
	if p.accept("[") {
		sb.WriteString("[")
		for !p.isOp("]") {
			sb.WriteString(p.next().s)
		}
		p.expect("]")
		sb.WriteString("]")
		sb.WriteString(p.typ())
		return sb.String()
	}
	t := p.next()
	if t.k != "id" {
		p.fail("type expected, got %q", t.s)
	}
	sb.WriteString(t.s)
	if t.s == "map" && p.accept("[") {
		k := p.typ()
		p.expect("]")
		return "map[" + k + "]" + p.typ()
	}
	for p.isOp(".") || p.isOp("/") {
		sb.WriteString(p.next().s)
		sb.WriteString(p.next().s)
	}
	return sb.String()
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "int":
		i, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			p.fail("bad int %q", t.s)
		}
		return &Expr{K: "int", I: i, Pos: p.pos}
	case "str":
		return &Expr{K: "str", Op: t.s, Pos: p.pos}
	case "id":
		return &Expr{K: "id", Op: t.s, Pos: p.pos}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			return e
		}
	}
	p.fail("unexpected %q", t.s)
	return nil
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.accept("."):
			f := p.next().s
			e = &Expr{K: "field", Op: f, Args: []*Expr{e}, Pos: p.pos}
		case p.accept("("):
			c := &Expr{K: "call", Pos: p.pos}
			if e.K == "id" {
				c.Op = e.Op
			} else if e.K == "field" && e.Args[0].K == "id" {
				c.Op = e.Args[0].Op + "." + e.Op
			} else {
				p.fail("bad call")
			}
			for !p.isOp(")") {
				c.Args = append(c.Args, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		case p.accept("["):
			var lo, hi *Expr
			if !p.isOp(":") {
				lo = p.expr(0)
			}
			if p.accept(":") {
				if !p.isOp("]") {
					hi = p.expr(0)
				}
				p.expect("]")
				e = &Expr{K: "slice", Args: []*Expr{e, lo, hi}, Pos: p.pos}
			} else {
				p.expect("]")
				e = &Expr{K: "index", Args: []*Expr{e, lo}, Pos: p.pos}
			}
		default:
			return e
		}
	}
}

// ---- contract files ----

func parseSpecs(dir string) (*Spec, error) {
	sp := &Spec{Contracts: map[string]*Contract{}, Defs: map[string]*Def{}, Funs: map[string]*FuncDecl{}, Ghosts: map[string]string{}, GhostVars: map[string]string{}, Opaque: map[string]bool{}, LockRank: map[string]int{}, Consts: map[string]*Expr{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gv"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.parseFile(f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

func sortOf(t string) Sort {
	t = strings.TrimSpace(t)
	switch t {
	case "int", "ref":
		return SInt
	case "bool":
		return SBool
	case "seq", "string":
		return SSeq
	}
	if strings.HasPrefix(t, "[") {
		d := 0
		for i, c := range t {
			if c == '[' {
				d++
			}
			if c == ']' {
				d--
				if d == 0 {
					return SArr(sortOf(t[1:i]), sortOf(t[i+1:]))
				}
			}
		}
	}
	if strings.HasPrefix(t, "$") {
		return t[1:]
	}
	return "?" + t
}

func (sp *Spec) parseFile(file string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	base := filepath.Base(file)
	// join continuation lines: a line indented deeper than its clause start by using trailing backslash or leading "|"
	type line struct {
		s   string
		n   int
		ind bool
	}
	var lines []line
	for i, raw := range strings.Split(string(data), "\n") {
		if j := strings.Index(raw, "//"); j >= 0 {
			if j == 0 || raw[j-1] == ' ' || raw[j-1] == '\t' {
				raw = raw[:j]
			}
		}
		if strings.TrimSpace(raw) == "" {
			continue
		}
		s := strings.TrimSpace(raw)
		if strings.HasPrefix(s, "| ") && len(lines) > 0 {
			lines[len(lines)-1].s += " " + s[2:]
			continue
		}
		lines = append(lines, line{s, i + 1, raw[0] == ' ' || raw[0] == '\t'})
	}
	pkg := ""
	var cur *Contract
	var guard *Guard
	for _, l := range lines {
		pos := fmt.Sprintf("%s:%d", base, l.n)
		word, rest, _ := strings.Cut(l.s, " ")
		rest = strings.TrimSpace(rest)
		if !l.ind {
			cur = nil
			guard = nil
			switch word {
			case "package":
				pkg = rest
			case "func", "extern", "iface":
				c := &Contract{Pkg: pkg, Flags: map[string]string{}, Pos: pos, File: base}
				if word == "extern" {
					c.Extern = true
					if strings.HasPrefix(rest, "local ") {
						rest = rest[6:]
						c.Local = true
					}
					if strings.HasPrefix(rest, "func ") {
						rest = rest[5:]
					}
				}
				if word == "iface" {
					c.Iface = true
				}
				// NAME (params) (results)
				name, tail, ok := strings.Cut(rest, " (")
				if !ok {
					return fmt.Errorf("%s: bad header", pos)
				}
				c.Key = strings.TrimSpace(name)
				ps, tail2, ok := strings.Cut(tail, ")")
				if !ok {
					return fmt.Errorf("%s: bad header", pos)
				}
				c.Params = splitNames(ps)
				tail2 = strings.TrimSpace(tail2)
				if strings.HasPrefix(tail2, "(") {
					rs, _, _ := strings.Cut(tail2[1:], ")")
					c.Results = splitNames(rs)
				}
				key := c.Key
				switch {
				case c.Iface:
					key = "iface " + key
				case c.Local:
					key = pkg + "|" + key
				case c.Extern:
				default:
					key = pkg + "#" + key
				}
				if sp.Contracts[key] != nil {
					return fmt.Errorf("%s: duplicate contract %s", pos, key)
				}
				sp.Contracts[key] = c
				cur = c
			case "ghost":
				w, r2, _ := strings.Cut(rest, " ")
				n, t, _ := strings.Cut(strings.TrimSpace(r2), " ")
				if w == "field" {
					sp.Ghosts[n] = sortOf(t)
				} else {
					sp.GhostVars[n] = sortOf(t)
				}
			case "fun":
				// fun name(sorts) sort
				n, r2, _ := strings.Cut(rest, "(")
				args, ret, _ := strings.Cut(r2, ")")
				d := &FuncDecl{Name: strings.TrimSpace(n), Ret: sortOf(ret)}
				for _, a := range splitNames(args) {
					d.Args = append(d.Args, sortOf(a))
				}
				sp.Funs[d.Name] = d
				reg.Func(d.Name, d.Ret, d.Args...)
			case "def":
				n, r2, _ := strings.Cut(rest, "(")
				i := matchParen(r2)
				args := r2[:i]
				body := strings.TrimSpace(r2[i+1:])
				body = strings.TrimSpace(strings.TrimPrefix(body, "="))
				d := &Def{Pkg: pkg, Name: strings.TrimSpace(n)}
				for _, a := range splitNames(args) {
					nm, ty, _ := strings.Cut(a, " ")
					d.Params = append(d.Params, Binder{nm, strings.TrimSpace(ty), ""})
				}
				d.E = parseExpr(body, pos)
				sp.Defs[d.Name] = d
			case "axiom", "lemma", "theorem":
				c := sp.clause(word, rest, pos)
				c.Src = pkg
				if word == "axiom" {
					sp.Axioms = append(sp.Axioms, c)
				} else {
					sp.Lemmas = append(sp.Lemmas, c)
				}
				sp.clauseSeq = append(sp.clauseSeq, c)
			case "opaque":
				for _, n := range strings.Fields(rest) {
					sp.Opaque[n] = true
				}
			case "lockorder":
				for i, n := range strings.Fields(rest) {
					sp.LockRank[n] = i + 1
				}
			case "globalinv":
				c := sp.clause("invariant", rest, pos)
				sp.GlobalInvs = append(sp.GlobalInvs, c)
			case "guard":
				// guard TYPE MU: f1 f2 f3
				h, fs, _ := strings.Cut(rest, ":")
				ty, mu, _ := strings.Cut(strings.TrimSpace(h), " ")
				guard = &Guard{Type: ty, Mu: strings.TrimSpace(mu), Fields: strings.Fields(fs)}
				sp.Guards = append(sp.Guards, guard)
			default:
				return fmt.Errorf("%s: unknown directive %q", pos, word)
			}
			continue
		}
		if guard != nil {
			if word == "invariant" {
				guard.Inv = append(guard.Inv, sp.clause(word, rest, pos))
				continue
			}
			return fmt.Errorf("%s: bad guard clause", pos)
		}
		if cur == nil {
			return fmt.Errorf("%s: clause outside contract: %s", pos, l.s)
		}
		switch word {
		case "requires":
			cur.Requires = append(cur.Requires, sp.clause(word, rest, pos))
		case "ensures":
			cur.Ensures = append(cur.Ensures, sp.clause(word, rest, pos))
		case "inv", "inv@top", "inv@nested":
			c := &Clause{Kind: "invariant", Pos: pos, Src: rest, Loop: -1}
			switch word {
			case "inv@top":
				c.Level = 1
			case "inv@nested":
				c.Level = 2
			}
			if strings.HasPrefix(rest, "(") {
				i := matchParen(rest[1:]) + 1
				hs := rest[1:i]
				after := strings.TrimSpace(rest[i+1:])
				if strings.HasPrefix(after, ":") && !strings.HasPrefix(after, "::") {
					for _, h := range splitTop(hs) {
						nm, ty, _ := strings.Cut(h, " ")
						ty = strings.TrimSpace(ty)
						b := Binder{Name: nm, Type: ty}
						for _, k := range []string{"cur", "outer"} {
							if r, ok := strings.CutPrefix(ty, k+" "); ok {
								b.Kind, b.Type = k, strings.TrimSpace(r)
							}
						}
						c.Holes = append(c.Holes, b)
					}
					rest = strings.TrimSpace(after[1:])
				}
			}
			c.E = parseExpr(rest, pos)
			cur.Invs = append(cur.Invs, c)
		case "modifies":
			if rest == "everything" {
				cur.ModAll = true
				continue
			}
			if rest == "nothing" {
				continue
			}
			for _, m := range splitTop(rest) {
				cur.Modifies = append(cur.Modifies, parseExpr(m, pos))
			}
		case "nopanic":
			cur.NoPanic = append(cur.NoPanic, strings.Fields(strings.Trim(rest, "[]"))...)
			cur.Flags["nopanic"] = "1"
		case "sets":
			// ghost code at the end of the function: TARGET == VALUE
			c := sp.clause(word, rest, pos)
			if len(c.E.Args) != 2 || c.E.Op != "==" {
				return fmt.Errorf("%s: sets TARGET == VALUE", pos)
			}
			cur.Sets = append(cur.Sets, c)
			cur.Modifies = append(cur.Modifies, c.E.Args[0])
			cur.Ensures = append(cur.Ensures, c)
		case "frame":
			cur.FrameTags = append(cur.FrameTags, strings.Fields(strings.Trim(rest, "[]"))...)
		case "locked", "rlocked":
			for _, m := range splitTop(rest) {
				cur.Locks = append(cur.Locks, &Clause{Kind: word, Pos: pos, Src: m, Loop: -1, E: parseExpr(m, pos)})
			}
			cur.Flags["locked"] = "1"
		case "flag":
			k, v, _ := strings.Cut(rest, " ")
			if v == "" {
				v = "1"
			}
			cur.Flags[k] = v
		default:
			return fmt.Errorf("%s: unknown clause %q", pos, word)
		}
	}
	return nil
}

func (sp *Spec) clause(kind, rest, pos string) *Clause {
	c := &Clause{Kind: kind, Pos: pos, Loop: -1}
	if strings.HasPrefix(rest, "[") {
		t, r, _ := strings.Cut(rest[1:], "]")
		c.Tags = strings.Fields(t)
		rest = strings.TrimSpace(r)
	}
	if strings.HasPrefix(rest, "\"") {
		j := strings.IndexByte(rest[1:], '"') + 1
		after := strings.TrimSpace(rest[j+1:])
		if strings.HasPrefix(after, ":") && !strings.HasPrefix(after, "::") {
			c.Label = rest[1:j]
			rest = strings.TrimSpace(after[1:])
		}
	}
	c.Src = rest
	c.E = parseExpr(rest, pos)
	if c.Label == "" {
		c.Label = pos
	}
	return c
}

func splitNames(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

// splitTop splits on commas outside brackets.
func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if x := strings.TrimSpace(s[st:]); x != "" {
		out = append(out, x)
	}
	return out
}

func matchParen(s string) int {
	d := 1
	for i, c := range s {
		if c == '(' {
			d++
		}
		if c == ')' {
			d--
			if d == 0 {
				return i
			}
		}
	}
	panic(fmt.Errorf("unbalanced parens in %q", s))
}
