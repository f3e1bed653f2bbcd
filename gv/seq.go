package main

import "strings"

// Byte-sequence equalities. seqGoals replaces a goal h => a == b by goals that
// together imply it: known definitions are inlined, conditionals decided by the
// path are resolved, both sides are cut into known bytes and opaque pieces, and
// matching ends are compared piece by piece.

const seqMaxBytes = 80

type seqAtom struct {
	b *Term // one byte
	s *Term // an opaque piece
}

func (ex *Exec) seqGoals(st *State, g *Term) []*Term {
	var hyp []*Term
	x := g
	for x.Op == "=>" {
		hyp = append(hyp, x.Args[0])
		x = x.Args[1]
	}
	if x.Op == "and" {
		var out []*Term
		for _, a := range x.Args {
			for i := len(hyp) - 1; i >= 0; i-- {
				a = mkImp(hyp[i], a)
			}
			out = append(out, ex.seqGoals(st, a)...)
		}
		return out
	}
	if x.Op != "seqeq" {
		return []*Term{g}
	}
	s := st.clone()
	for _, h := range hyp {
		s.assume(h)
	}
	h := mkAnd(hyp...)
	if !ex.feasible(s, tTrue) {
		return []*Term{g}
	}
	n := &seqNorm{ex: ex, st: s, defs: map[string]*Term{}}
	for _, a := range s.asserts() {
		if a.Op != "seqeq" {
			continue
		}
		for i := 0; i < 2; i++ {
			l, r := a.Args[i], a.Args[1-i]
			if len(l.Args) == 0 && !isLit(l) && !occurs(r, l.Op) && n.defs[l.Op] == nil && strings.HasPrefix(l.Op, "hv") {
				n.defs[l.Op] = r
				break
			}
		}
	}
	as, bs := n.atoms(x.Args[0], 0), n.atoms(x.Args[1], 0)
	var goals []*Term
	byteEq := func(p, q *Term) {
		if !same(p, q) {
			goals = append(goals, mkImp(h, mkApp("=", SBool, p, q)))
		}
	}
	match := func(p, q seqAtom) bool {
		if p.b != nil && q.b != nil {
			byteEq(p.b, q.b)
			return true
		}
		return p.s != nil && q.s != nil && (same(p.s, q.s) || ex.holds(s, mkEq(p.s, q.s), 1000))
	}
	for len(as) > 0 && len(bs) > 0 && match(as[0], bs[0]) {
		as, bs = as[1:], bs[1:]
	}
	for len(as) > 0 && len(bs) > 0 && match(as[len(as)-1], bs[len(bs)-1]) {
		as, bs = as[:len(as)-1], bs[:len(bs)-1]
	}
	if len(as) > 0 || len(bs) > 0 {
		goals = append(goals, mkImp(h, mkEq(joinAtoms(as), joinAtoms(bs))))
	}
	if len(goals) == 1 && same(goals[0], g) {
		return []*Term{g}
	}
	if len(goals) == 0 {
		return []*Term{tTrue}
	}
	var bytes []*Term
	var rest []*Term
	for _, y := range goals {
		if y.Op == "=>" && y.Args[1].Op == "=" {
			bytes = append(bytes, y.Args[1])
		} else if y.Op == "=" {
			bytes = append(bytes, y)
		} else {
			rest = append(rest, y)
		}
	}
	if len(bytes) > 0 {
		rest = append([]*Term{mkImp(h, mkAnd(bytes...))}, rest...)
	}
	return rest
}

func joinAtoms(as []seqAtom) *Term {
	r := mkLit("")
	for _, a := range as {
		x := a.s
		if a.b != nil {
			x = mkApp("single", SSeq, a.b)
		}
		r = mkCat(r, x)
	}
	return r
}

type seqNorm struct {
	ex   *Exec
	st   *State
	defs map[string]*Term
}

func (n *seqNorm) atoms(t *Term, depth int) []seqAtom {
	if depth > 60 {
		return []seqAtom{{s: t}}
	}
	switch {
	case isLit(t):
		v := reg.LitVal(t.Op)
		if len(v) > 64 { // longer literals are only known by their first bytes
			return []seqAtom{{s: t}}
		}
		var out []seqAtom
		for i := 0; i < len(v); i++ {
			out = append(out, seqAtom{b: mkInt(int64(v[i]))})
		}
		return out
	case len(t.Args) == 0:
		if d := n.defs[t.Op]; d != nil {
			return n.atoms(d, depth+1)
		}
	case t.Op == "cat":
		return append(n.atoms(t.Args[0], depth+1), n.atoms(t.Args[1], depth+1)...)
	case t.Op == "single":
		return []seqAtom{{b: t.Args[0]}}
	case t.Op == "be4":
		x := mkMod(t.Args[0], mkInt(1<<32))
		m := mkInt(256)
		return []seqAtom{{b: mkMod(mkDiv(x, mkInt(1<<24)), m)}, {b: mkMod(mkDiv(x, mkInt(1<<16)), m)}, {b: mkMod(mkDiv(x, m), m)}, {b: mkMod(x, m)}}
	case t.Op == "ite":
		if v, ok := n.ex.decide(n.st, t.Args[0], 1500); ok && v {
			return n.atoms(t.Args[1], depth+1)
		} else if ok {
			return n.atoms(t.Args[2], depth+1)
		}
	case t.Op == "mk":
		if l := t.Args[2]; l.I != nil && l.I.IsInt64() && l.I.Int64() >= 0 && l.I.Int64() <= seqMaxBytes {
			var out []seqAtom
			for i := int64(0); i < l.I.Int64(); i++ {
				out = append(out, seqAtom{b: n.st.sel(t.Args[0], mkAdd(t.Args[1], mkInt(i)))})
			}
			return out
		}
		for i := int64(0); i <= 1; i++ {
			if n.ex.holdsQF(n.st, mkEq(t.Args[2], mkInt(i))) {
				return n.atoms(mkApp("mk", SSeq, t.Args[0], t.Args[1], mkInt(i)), depth+1)
			}
		}
	case t.Op == "sub":
		if z := t.Args[1]; z.I != nil && z.I.Sign() == 0 && n.ex.holds(n.st, mkEq(t.Args[2], mkApp("len", SInt, t.Args[0])), 1500) {
			return n.atoms(t.Args[0], depth+1)
		}
	}
	return []seqAtom{{s: t}}
}

// rowFact: for a known equality between a slice's bytes and a sequence, the
// same fact about the cells of the backing row.
func rowFact(t *Term) *Term {
	var hyp []*Term
	for t.Op == "=>" {
		hyp = append(hyp, t.Args[0])
		t = t.Args[1]
	}
	if t.Op == "and" {
		var fs []*Term
		for _, a := range t.Args {
			if f := rowFact(a); f != nil {
				fs = append(fs, f)
			}
		}
		if fs == nil {
			return nil
		}
		return mkImp(mkAnd(hyp...), mkAnd(fs...))
	}
	if t.Op != "seqeq" {
		return nil
	}
	var fs []*Term
	for i := 0; i < 2; i++ {
		l, r := t.Args[i], t.Args[1-i]
		lo, n := mkInt(0), (*Term)(nil)
		var guard []*Term
		m := l
		if l.Op == "sub" && l.Args[0].Op == "mk" {
			m = l.Args[0]
			lo, n = l.Args[1], mkSub(l.Args[2], l.Args[1])
			guard = append(guard, mkLe(mkInt(0), lo), mkLe(lo, l.Args[2]), mkLe(l.Args[2], m.Args[2]))
		}
		if m.Op != "mk" || r.Op == "mk" {
			continue
		}
		if n == nil {
			n = m.Args[2]
		}
		lo = mkAdd(m.Args[1], lo)
		j := mkConst("j!row", SInt)
		sj := mkApp("select", SInt, m.Args[0], j)
		body := mkImp(mkAnd(mkLe(lo, j), mkLt(j, mkAdd(lo, n))), mkApp("=", SBool, sj, mkApp("at", SInt, r, mkSub(j, lo))))
		fs = append(fs, mkImp(mkAnd(guard...), mkForall([]*Term{j}, [][]*Term{{sj}}, body)))
	}
	if fs == nil {
		return nil
	}
	return mkImp(mkAnd(hyp...), mkAnd(fs...))
}

