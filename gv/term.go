package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sorts are SMT-LIB sort strings.
type Sort = string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SSeq  Sort = "BSeq"
)

func SArr(a, b Sort) Sort { return "(Array " + a + " " + b + ")" }

// arrRange returns the element sort of an array sort.
func arrParts(s Sort) (Sort, Sort) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	body := s[len("(Array ") : len(s)-1]
	// split at top-level space
	d := 0
	for i, c := range body {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

// Term is an immutable SMT term.
type Term struct {
	Op   string // operator or symbol; for constants the literal
	Args []*Term
	S    Sort
	I    *big.Int // integer literal
	Q    []*Term  // quantifier bound variables
	Trig [][]*Term
	str  string
}

func (t *Term) String() string {
	if t.str == "" {
		var sb strings.Builder
		t.write(&sb)
		t.str = sb.String()
	}
	return t.str
}

func (t *Term) write(sb *strings.Builder) {
	if t.str != "" {
		sb.WriteString(t.str)
		return
	}
	if t.I != nil {
		if t.I.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.I).String())
		} else {
			sb.WriteString(t.I.String())
		}
		return
	}
	if t.Op == "forall" || t.Op == "exists" {
		sb.WriteString("(" + t.Op + " (")
		for i, q := range t.Q {
			if i > 0 {
				sb.WriteByte(' ')
			}
			fmt.Fprintf(sb, "(%s %s)", q.Op, q.S)
		}
		sb.WriteString(") ")
		trigs := goodTrigs(t)
		if len(trigs) > 0 {
			sb.WriteString("(! ")
			sb.WriteString(t.Args[0].String())
			for _, tr := range trigs {
				sb.WriteString(" :pattern (")
				for i, x := range tr {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(x.String())
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		} else {
			sb.WriteString(t.Args[0].String())
		}
		sb.WriteString(")")
		return
	}
	if len(t.Args) == 0 {
		sb.WriteString(t.Op)
		return
	}
	if zseq(t) {
		sb.WriteString("zseq!")
		return
	}
	if t.Op == "constarr" {
		fmt.Fprintf(sb, "((as const %s) %s)", t.S, t.Args[0].String())
		return
	}
	sb.WriteByte('(')
	sb.WriteString(t.Op)
	for _, a := range t.Args {
		sb.WriteByte(' ')
		a.write(sb)
	}
	sb.WriteByte(')')
}

func same(a, b *Term) bool { return a == b || a.String() == b.String() }

var (
	tTrue  = &Term{Op: "true", S: SBool}
	tFalse = &Term{Op: "false", S: SBool}
)

func mkInt(i int64) *Term         { return &Term{I: big.NewInt(i), S: SInt} }
func mkBig(i *big.Int) *Term      { return &Term{I: i, S: SInt} }
func mkConst(n string, s Sort) *Term { return &Term{Op: n, S: s} }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func isTrue(t *Term) bool  { return t.Op == "true" && len(t.Args) == 0 }
func isFalse(t *Term) bool { return t.Op == "false" && len(t.Args) == 0 }

func mkApp(op string, s Sort, args ...*Term) *Term {
	return &Term{Op: op, S: s, Args: args}
}

func mkNot(a *Term) *Term {
	switch {
	case isTrue(a):
		return tFalse
	case isFalse(a):
		return tTrue
	case a.Op == "not":
		return a.Args[0]
	}
	return mkApp("not", SBool, a)
}

func mkAnd(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a == nil || isTrue(a) {
			continue
		}
		if isFalse(a) {
			return tFalse
		}
		if a.Op == "and" {
			out = append(out, a.Args...)
			continue
		}
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mkApp("and", SBool, out...)
}

func mkOr(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if isFalse(a) {
			continue
		}
		if isTrue(a) {
			return tTrue
		}
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mkApp("or", SBool, out...)
}

func mkImp(a, b *Term) *Term {
	if isTrue(a) {
		return b
	}
	if isFalse(a) || isTrue(b) {
		return tTrue
	}
	if isFalse(b) {
		return mkNot(a)
	}
	return mkApp("=>", SBool, a, b)
}

func mkIte(c, a, b *Term) *Term {
	if isTrue(c) {
		return a
	}
	if isFalse(c) {
		return b
	}
	if same(a, b) {
		return a
	}
	if a.S == SBool {
		if isTrue(a) && isFalse(b) {
			return c
		}
		if isFalse(a) && isTrue(b) {
			return mkNot(c)
		}
	}
	return mkApp("ite", a.S, c, a, b)
}

func mkEq(a, b *Term) *Term {
	if same(a, b) {
		return tTrue
	}
	if a.I != nil && b.I != nil {
		return mkBool(a.I.Cmp(b.I) == 0)
	}
	if a.S == SBool {
		if isTrue(a) {
			return b
		}
		if isTrue(b) {
			return a
		}
		if isFalse(a) {
			return mkNot(b)
		}
		if isFalse(b) {
			return mkNot(a)
		}
	}
	if a.S == SSeq {
		if isLit(a) && isLit(b) {
			return mkBool(a.Op == b.Op)
		}
		return mkApp("seqeq", SBool, a, b)
	}
	return mkApp("=", SBool, a, b)
}

func isLit(t *Term) bool { return t.S == SSeq && len(t.Args) == 0 && strings.HasPrefix(t.Op, "lit!") }

func linear(op string, s Sort, a, b *Term) *Term { return mkApp(op, s, a, b) }

func mkAdd(a, b *Term) *Term {
	if a.I != nil && b.I != nil {
		return mkBig(new(big.Int).Add(a.I, b.I))
	}
	if a.I != nil && a.I.Sign() == 0 {
		return b
	}
	if b.I != nil && b.I.Sign() == 0 {
		return a
	}
	// (x + c1) + c2
	if b.I != nil && a.Op == "+" && len(a.Args) == 2 && a.Args[1].I != nil {
		return mkAdd(a.Args[0], mkBig(new(big.Int).Add(a.Args[1].I, b.I)))
	}
	if a.I != nil {
		return mkAdd(b, a)
	}
	return mkApp("+", SInt, a, b)
}

func mkSub(a, b *Term) *Term {
	if a.I != nil && b.I != nil {
		return mkBig(new(big.Int).Sub(a.I, b.I))
	}
	if b.I != nil {
		return mkAdd(a, mkBig(new(big.Int).Neg(b.I)))
	}
	if same(a, b) {
		return mkInt(0)
	}
	return mkApp("-", SInt, a, b)
}

func mkNeg(a *Term) *Term { return mkSub(mkInt(0), a) }

func mkMul(a, b *Term) *Term {
	if a.I != nil && b.I != nil {
		return mkBig(new(big.Int).Mul(a.I, b.I))
	}
	if a.I != nil {
		a, b = b, a
	}
	if b.I != nil {
		if b.I.Sign() == 0 {
			return mkInt(0)
		}
		if b.I.IsInt64() && b.I.Int64() == 1 {
			return a
		}
	}
	return mkApp("*", SInt, a, b)
}

// Euclidean (SMT) division.
func mkDiv(a, b *Term) *Term {
	if a.I != nil && b.I != nil && b.I.Sign() > 0 {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.I, b.I, m)
		return mkBig(q)
	}
	if b.I != nil && b.I.IsInt64() && b.I.Int64() == 1 {
		return a
	}
	return mkApp("div", SInt, a, b)
}
func mkMod(a, b *Term) *Term {
	if a.I != nil && b.I != nil && b.I.Sign() > 0 {
		m := new(big.Int)
		new(big.Int).DivMod(a.I, b.I, m)
		return mkBig(m)
	}
	if a.Op == "mod" && b.I != nil && same(a.Args[1], b) {
		return a
	}
	return mkApp("mod", SInt, a, b)
}

// Go truncated division.
func mkTDiv(a, b *Term) *Term {
	if a.I != nil && b.I != nil && b.I.Sign() != 0 {
		return mkBig(new(big.Int).Quo(a.I, b.I))
	}
	if b.I != nil && b.I.Sign() > 0 {
		return mkIte(mkLe(mkInt(0), a), mkDiv(a, b), mkNeg(mkDiv(mkNeg(a), b)))
	}
	return mkApp("tdiv", SInt, a, b)
}
func mkTMod(a, b *Term) *Term {
	if a.I != nil && b.I != nil && b.I.Sign() != 0 {
		return mkBig(new(big.Int).Rem(a.I, b.I))
	}
	if b.I != nil && b.I.Sign() > 0 {
		return mkIte(mkLe(mkInt(0), a), mkMod(a, b), mkNeg(mkMod(mkNeg(a), b)))
	}
	return mkApp("tmod", SInt, a, b)
}

func mkLe(a, b *Term) *Term {
	if a.I != nil && b.I != nil {
		return mkBool(a.I.Cmp(b.I) <= 0)
	}
	if same(a, b) {
		return tTrue
	}
	return mkApp("<=", SBool, a, b)
}
func mkLt(a, b *Term) *Term {
	if a.I != nil && b.I != nil {
		return mkBool(a.I.Cmp(b.I) < 0)
	}
	if same(a, b) {
		return tFalse
	}
	return mkApp("<", SBool, a, b)
}

func mkSelect(a, i *Term) *Term {
	_, r := arrParts(a.S)
	for a.Op == "store" {
		if same(a.Args[1], i) {
			return a.Args[2]
		}
		if a.Args[1].I != nil && i.I != nil { // distinct literals
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	return mkApp("select", r, a, i)
}
func mkStore(a, i, v *Term) *Term {
	if v.Op == "select" && same(v.Args[0], a) && same(v.Args[1], i) {
		return a
	}
	return mkApp("store", a.S, a, i, v)
}
// zseq: the array of empty strings, printed as a constant (cvc5 only takes values in as-const).
func zseq(t *Term) bool {
	return t.Op == "constarr" && t.S == SArr(SInt, SSeq) && t.Args[0].Op == "lit!"
}

func mkConstArr(s Sort, v *Term) *Term { return &Term{Op: "constarr", S: s, Args: []*Term{v}} }

func mkForall(q []*Term, trig [][]*Term, body *Term) *Term {
	if isTrue(body) || len(q) == 0 {
		return body
	}
	return &Term{Op: "forall", S: SBool, Q: q, Trig: trig, Args: []*Term{body}}
}
func mkExists(q []*Term, trig [][]*Term, body *Term) *Term {
	if isFalse(body) || len(q) == 0 {
		return body
	}
	return &Term{Op: "exists", S: SBool, Q: q, Trig: trig, Args: []*Term{body}}
}

// walk visits every subterm once.
func (t *Term) walk(seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.Args {
		a.walk(seen, f)
	}
	for _, tr := range t.Trig {
		for _, x := range tr {
			x.walk(seen, f)
		}
	}
}

func occurs(t *Term, name string) bool {
	found := false
	t.walk(map[*Term]bool{}, func(x *Term) {
		if len(x.Args) == 0 && x.Op == name {
			found = true
		}
	})
	return found
}

// subst replaces constant symbols.
func (t *Term) subst(m map[string]*Term) *Term {
	if t.I != nil {
		return t
	}
	if len(t.Args) == 0 {
		if r, ok := m[t.Op]; ok {
			return r
		}
		return t
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = a.subst(m)
		if args[i] != a {
			changed = true
		}
	}
	var trig [][]*Term
	for _, tr := range t.Trig {
		var x []*Term
		for _, a := range tr {
			b := a.subst(m)
			if b != a {
				changed = true
			}
			x = append(x, b)
		}
		trig = append(trig, x)
	}
	if !changed {
		return t
	}
	return &Term{Op: t.Op, S: t.S, Args: args, Q: t.Q, Trig: trig}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// goodTrigs drops the triggers that simplified to something a solver cannot match on.
func goodTrigs(t *Term) [][]*Term {
	var out [][]*Term
	for _, tr := range t.Trig {
		seen := map[string]bool{}
		ok := true
		for _, x := range tr {
			if len(x.Args) == 0 || x.Op == "ite" || x.S == SBool && (x.Op == "=" || x.Op == "not" || x.Op == "and" || x.Op == "or") {
				ok = false
			}
			x.walk(map[*Term]bool{}, func(y *Term) {
				if len(y.Args) == 0 {
					seen[y.Op] = true
				}
			})
		}
		for _, q := range t.Q {
			if !seen[q.Op] {
				ok = false
			}
		}
		if ok {
			out = append(out, tr)
		}
	}
	return out
}
