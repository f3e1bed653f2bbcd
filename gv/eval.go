package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is the value of a specification expression: a Go value (T set) or a
// logical value of sort S (T nil, V a Scalar). Addr is set for struct and
// array values that live in memory.
type SV struct {
	V    Val
	T    types.Type
	S    Sort
	Addr *Term
	Nil  bool
}

type Env struct {
	ex    *Exec
	st    *State
	old   *State
	pre   *State
	names map[string]SV
	pkg   *types.Package
	bound map[string]SV
	pol   bool
	iter  string // the map iteration of the loop
}

type specErr struct{ msg string }

func (env *Env) fail(e *Expr, f string, a ...any) {
	panic(specErr{fmt.Sprintf("%s: %s", e.Pos, fmt.Sprintf(f, a...))})
}

func (env *Env) with(st *State) *Env {
	n := *env
	n.st = st
	return &n
}

func (env *Env) bind(m map[string]SV) *Env {
	n := *env
	n.bound = map[string]SV{}
	for k, v := range env.bound {
		n.bound[k] = v
	}
	for k, v := range m {
		n.bound[k] = v
	}
	return &n
}

func logic(t *Term) SV { return SV{V: Scalar{t}, S: t.S} }

// Bool evaluates a formula.
func (env *Env) Bool(e *Expr) *Term {
	v := env.Eval(e)
	t := env.term(e, v)
	if t.S != SBool {
		env.fail(e, "boolean expected, got %s", t.S)
	}
	return t
}

// term turns a one-leaf value into a term.
func (env *Env) term(e *Expr, v SV) *Term {
	switch x := env.rv(v).V.(type) {
	case Scalar:
		return x.T
	case PtrV:
		return env.ex.reify(env.st, x)
	case ClosureV:
		return x.Ref
	case IfaceV:
		return x.Data
	case ArrayV:
		return env.bytes(e, v)
	case StructV:
		return env.ex.box(env.st, v.T, env.ex.toLeaves(env.st, x, v.T))
	}
	env.fail(e, "scalar expected, got %T (%v)", v.V, v.T)
	return nil
}

// rv loads an in-memory aggregate.
func (env *Env) rv(v SV) SV {
	if v.Addr != nil && v.V == nil {
		return SV{V: env.ex.load(env.st, Scalar{v.Addr}, v.T), T: v.T}
	}
	return v
}

func (env *Env) Int(e *Expr) *Term {
	t := env.term(e, env.Eval(e))
	if t.S != SInt {
		env.fail(e, "integer expected, got %s", t.S)
	}
	return t
}

func (env *Env) Seq(e *Expr) *Term {
	v := env.Eval(e)
	return env.bytes(e, v)
}

func (env *Env) bytes(e *Expr, v SV) *Term {
	if v.T == nil {
		t := env.term(e, v)
		if t.S != SSeq {
			env.fail(e, "sequence expected, got %s", t.S)
		}
		return t
	}
	switch u := under(v.T).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return v.V.(Scalar).T
		}
	case *types.Slice:
		return env.ex.bytesOf(env.st, v.V.(SliceV))
	case *types.Array:
		if v.Addr != nil {
			return mkMk(env.ex.row(env.st, u.Elem(), 0, v.Addr), mkInt(0), mkInt(u.Len()))
		}
		return mkMk(v.V.(ArrayV).L[0], mkInt(0), mkInt(u.Len()))
	case *types.Pointer:
		if a, ok := under(u.Elem()).(*types.Array); ok {
			return mkMk(env.ex.row(env.st, a.Elem(), 0, v.V.(Scalar).T), mkInt(0), mkInt(a.Len()))
		}
	}
	env.fail(e, "bytes() of %v", v.T)
	return nil
}

func (env *Env) resolveType(e *Expr, s string) types.Type {
	t := env.ex.V.parseType(s, env.pkg)
	if t == nil {
		env.fail(e, "unknown type %q", s)
	}
	return t
}

func (env *Env) Eval(e *Expr) SV {
	ex := env.ex
	switch e.K {
	case "int":
		return logic(mkBig(e.I))
	case "str":
		return SV{V: Scalar{mkLit(e.Op)}, T: types.Typ[types.String]}
	case "id":
		return env.ident(e)
	case "quant":
		m := map[string]SV{}
		var qs []*Term
		var typ []*Term
		for _, b := range e.Bind {
			s := sortOf(b.Type)
			ex.V.qctr()
			if !strings.HasPrefix(s, "?") {
				c := mkConst(ex.V.qname(b.Name), s)
				qs = append(qs, c)
				m[b.Name] = logic(c)
				continue
			}
			t := env.resolveType(e, b.Type)
			var ls []*Term
			for _, l := range ex.leaves(t) {
				c := mkConst(ex.V.qname(b.Name+san(l.Suffix)), l.S)
				qs = append(qs, c)
				ls = append(ls, c)
			}
			v := ex.fromLeaves(t, ls)
			if sc, ok := v.(Scalar); ok {
				if lo, hi, ok := intRange(t); ok {
					typ = append(typ, mkLe(mkBig(lo), sc.T), mkLe(sc.T, mkBig(hi)))
				}
			}
			m[b.Name] = SV{V: v, T: t}
		}
		ne := env.bind(m)
		body := ne.Bool(e.Args[0])
		var trigs [][]*Term
		for _, tr := range e.Trig {
			var ts []*Term
			for _, x := range tr {
				ts = append(ts, ne.term(x, ne.Eval(x)))
			}
			trigs = append(trigs, ts)
		}
		if e.Op == "forall" {
			return logic(mkForall(qs, trigs, mkImp(mkAnd(typ...), body)))
		}
		return logic(mkExists(qs, trigs, mkAnd(append(typ, body)...)))
	case "unary":
		switch e.Op {
		case "!":
			return logic(mkNot(env.Bool(e.Args[0])))
		case "-":
			return logic(mkNeg(env.Int(e.Args[0])))
		case "*":
			v := env.Eval(e.Args[0])
			if v.T == nil {
				env.fail(e, "dereference of logical value")
			}
			p, ok := under(v.T).(*types.Pointer)
			if !ok {
				env.fail(e, "dereference of %v", v.T)
			}
			if pv, ok := v.V.(PtrV); ok {
				return SV{V: ex.loadLoc(env.st, pv.Loc), T: p.Elem()}
			}
			return SV{Addr: v.V.(Scalar).T, T: p.Elem()}
		case "&":
			v := env.Eval(e.Args[0])
			if v.Addr != nil {
				return SV{V: Scalar{v.Addr}, T: types.NewPointer(v.T)}
			}
			env.fail(e, "cannot take address")
		}
	case "binary":
		return env.binary(e)
	case "field":
		if a := e.Args[0]; a.K == "id" {
			_, b1 := env.bound[a.Op]
			_, b2 := env.names[a.Op]
			if !b1 && !b2 {
				if p := ex.V.ByName[a.Op]; p != nil && (env.pkg == nil || env.pkg.Scope().Lookup(a.Op) == nil) {
					if o := p.Scope().Lookup(e.Op); o != nil {
						return env.object(e, o)
					}
				}
			}
		}
		return env.field(e, env.Eval(e.Args[0]), e.Op)
	case "index":
		return env.index(e)
	case "slice":
		return env.slice(e)
	case "call":
		return env.call(e)
	}
	env.fail(e, "cannot evaluate %s", e.K)
	return SV{}
}

func (env *Env) ident(e *Expr) SV {
	if v, ok := env.bound[e.Op]; ok {
		return v
	}
	if v, ok := env.names[e.Op]; ok {
		return v
	}
	switch e.Op {
	case "true":
		return logic(tTrue)
	case "false":
		return logic(tFalse)
	case "nil":
		return SV{Nil: true, V: Scalar{mkInt(0)}, S: SInt}
	}
	if s, ok := env.ex.V.Spec.GhostVars[e.Op]; ok {
		return logic(env.st.get("V!"+e.Op, s))
	}
	if d, ok := env.ex.V.Spec.Defs[e.Op]; ok && len(d.Params) == 0 {
		n := *env
		n.bound = nil
		n.names = nil
		if p := env.ex.V.pkgTypes(d.Pkg); p != nil {
			n.pkg = p
		}
		return n.Eval(d.E)
	}
	if f := reg.Fn(e.Op); f != nil && len(f.Args) == 0 {
		return logic(mkConst(e.Op, f.Ret))
	}
	if env.pkg != nil {
		if o := env.pkg.Scope().Lookup(e.Op); o != nil {
			return env.object(e, o)
		}
	}
	env.fail(e, "unknown name %q", e.Op)
	return SV{}
}

func (env *Env) object(e *Expr, o types.Object) SV {
	switch o := o.(type) {
	case *types.Const:
		return SV{V: constVal(env.ex, o.Val(), o.Type()), T: o.Type()}
	case *types.Var:
		return env.global(o)
	}
	env.fail(e, "%s is not a constant or variable", o.Name())
	return SV{}
}

func (env *Env) global(o *types.Var) SV {
	ex := env.ex
	name := "G!" + san(o.Pkg().Path()+"."+o.Name())
	if isStruct(o.Type()) || isArray(o.Type()) {
		return SV{Addr: ex.globalRef(name), T: o.Type()}
	}
	return SV{V: ex.loadLoc(env.st, Loc{Kind: "global", Map: name, T: o.Type()}), T: o.Type()}
}

func constVal(ex *Exec, v constant.Value, t types.Type) Val {
	if v == nil {
		return ex.zeroVal(t)
	}
	switch v.Kind() {
	case constant.Bool:
		return Scalar{mkBool(constant.BoolVal(v))}
	case constant.String:
		return Scalar{mkLit(constant.StringVal(v))}
	case constant.Int:
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Scalar{mkConst("float!"+san(v.ExactString()), SInt)}
		}
		i, _ := new(big.Int).SetString(v.ExactString(), 10)
		return Scalar{mkBig(i)}
	}
	return Scalar{mkConst("const!"+san(v.ExactString()), SInt)}
}

func (env *Env) field(e *Expr, v SV, name string) SV {
	ex := env.ex
	if v.T == nil {
		env.fail(e, "field %s of logical value", name)
	}
	t := v.T
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	obj, path, _ := types.LookupFieldOrMethod(t, true, env.pkg, name)
	fv, ok := obj.(*types.Var)
	if !ok {
		// fields unexported in another package
		if n, isn := types.Unalias(t).(*types.Named); isn && n.Obj().Pkg() != nil {
			obj, path, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), name)
			fv, ok = obj.(*types.Var)
		}
		if !ok {
			env.fail(e, "no field %s in %v", name, t)
		}
	}
	_ = fv
	cur := v
	for _, i := range path {
		ct := cur.T
		if p, ok := under(ct).(*types.Pointer); ok {
			base := env.term(e, cur)
			cur = env.fieldAt(base, p.Elem(), i)
			continue
		}
		if cur.Addr != nil {
			cur = env.fieldAt(cur.Addr, ct, i)
			continue
		}
		st, ok := under(ct).(*types.Struct)
		if !ok {
			env.fail(e, "field of %v", ct)
		}
		cur = SV{V: cur.V.(StructV).F[i], T: st.Field(i).Type()}
	}
	_ = ex
	return cur
}

func (env *Env) fieldAt(base *Term, structT types.Type, i int) SV {
	ex := env.ex
	ft := under(structT).(*types.Struct).Field(i).Type()
	switch l := ex.fieldLoc(env.st, base, structT, i).(type) {
	case Scalar:
		if ex.opaque(ft) {
			return SV{V: ex.load(env.st, l, ft), T: ft, Addr: l.T}
		}
		return SV{Addr: l.T, T: ft}
	case PtrV:
		return SV{V: ex.loadLoc(env.st, l.Loc), T: ft}
	}
	return SV{}
}

func (env *Env) index(e *Expr) SV {
	ex := env.ex
	v := env.Eval(e.Args[0])
	if v.T == nil {
		t := env.term(e, v)
		if t.S == SSeq {
			return logic(mkApp("at", SInt, t, env.Int(e.Args[1])))
		}
		if strings.HasPrefix(t.S, "(Array ") {
			k := env.Eval(e.Args[1])
			return logic(mkSelect(t, env.keyTerm(e, k)))
		}
		env.fail(e, "index of %s", t.S)
	}
	switch u := under(v.T).(type) {
	case *types.Basic:
		return logic(mkApp("at", SInt, v.V.(Scalar).T, env.Int(e.Args[1])))
	case *types.Slice:
		s := v.V.(SliceV)
		return env.elemAt(u.Elem(), s.Arr, mkIdx(u.Elem(), s.Off, env.Int(e.Args[1])), &s, env.Int(e.Args[1]))
	case *types.Array:
		if v.Addr != nil {
			return env.elemAt(u.Elem(), v.Addr, env.Int(e.Args[1]), nil, nil)
		}
		if len(v.V.(ArrayV).L) == 1 {
			return SV{V: ex.fromLeaves(u.Elem(), []*Term{mkSelect(v.V.(ArrayV).L[0], env.Int(e.Args[1]))}), T: u.Elem()}
		}
	case *types.Pointer:
		if a, ok := under(u.Elem()).(*types.Array); ok {
			return env.elemAt(a.Elem(), env.term(e, v), env.Int(e.Args[1]), nil, nil)
		}
	case *types.Map:
		k := env.keyTerm(e, env.Eval(e.Args[1]))
		return SV{V: ex.mapValue(env.st, u, env.term(e, v), k), T: u.Elem()}
	}
	env.fail(e, "index of %v", v.T)
	return SV{}
}

func (env *Env) keyTerm(e *Expr, v SV) *Term {
	if v.T == nil {
		return env.term(e, v)
	}
	return env.ex.keyTerm(env.st, env.rv(v).V, v.T)
}

func (env *Env) elemAt(et types.Type, arr, idx *Term, s *SliceV, sidx *Term) SV {
	ex := env.ex
	if isStruct(et) || isArray(et) {
		if ex.opaque(et) {
			r := elemRef(elemName(et), arr, idx)
			return SV{V: ex.load(env.st, Scalar{r}, et), T: et, Addr: r}
		}
		return SV{Addr: elemRef(elemName(et), arr, idx), T: et}
	}
	l := Loc{Kind: "elem", Map: "E!" + elemName(et), T: et, Ref: arr, Idx: idx}
	// no type assumptions inside quantifiers: load leaves directly
	var ts []*Term
	for _, lf := range ex.leaves(et) {
		row := env.st.sel(env.st.get(l.Map+lf.Suffix, SArr(SInt, SArr(SInt, lf.S))), arr)
		ts = append(ts, env.st.sel(row, idx))
	}
	return SV{V: ex.fromLeaves(et, ts), T: et}
}

func (env *Env) slice(e *Expr) SV {
	v := env.Eval(e.Args[0])
	if v.T != nil {
		if _, ok := under(v.T).(*types.Slice); ok {
			s := v.V.(SliceV)
			lo, hi := mkInt(0), s.Len
			if e.Args[1] != nil {
				lo = env.Int(e.Args[1])
			}
			if e.Args[2] != nil {
				hi = env.Int(e.Args[2])
			}
			return SV{V: SliceV{s.Arr, mkAdd(s.Off, lo), mkSub(hi, lo), mkSub(s.Cap, lo)}, T: v.T}
		}
	}
	s := env.bytes(e, v)
	lo, hi := mkInt(0), mkApp("len", SInt, s)
	if e.Args[1] != nil {
		lo = env.Int(e.Args[1])
	}
	if e.Args[2] != nil {
		hi = env.Int(e.Args[2])
	}
	return logic(mkApp("sub", SSeq, s, lo, hi))
}

func (env *Env) eq(e *Expr, a, b SV) *Term {
	if a.Nil && b.Nil {
		return tTrue
	}
	if b.Nil {
		a, b = b, a
	}
	if a.Nil {
		switch x := env.rv(b).V.(type) {
		case IfaceV:
			return mkEq(x.Tag, mkInt(0))
		case SliceV:
			return mkEq(x.Arr, mkInt(0))
		}
		return mkEq(env.term(e, b), mkInt(0))
	}
	if a.T != nil && b.T != nil {
		ia := isIface(a.T)
		ib := isIface(b.T)
		if ia && ib {
			x, y := a.V.(IfaceV), b.V.(IfaceV)
			return mkAnd(mkEq(x.Tag, y.Tag), mkEq(x.Data, y.Data))
		}
		if !ia && !ib {
			if isArray(a.T) || isArray(b.T) {
				if ar, ok := under(a.T).(*types.Array); ok {
					if bt, ok := under(ar.Elem()).(*types.Basic); ok && bt.Kind() == types.Uint8 {
						return mkEq(env.bytes(e, a), env.bytes(e, b))
					}
				}
			}
			la := env.ex.toLeaves(env.st, env.rv(a).V, a.T)
			lb := env.ex.toLeaves(env.st, env.rv(b).V, b.T)
			if len(la) == len(lb) {
				var cs []*Term
				for i := range la {
					if la[i].S != lb[i].S {
						env.fail(e, "comparing %s with %s", la[i].S, lb[i].S)
					}
					cs = append(cs, mkEq(la[i], lb[i]))
				}
				return mkAnd(cs...)
			}
			env.fail(e, "comparing %v with %v", a.T, b.T)
		}
	}
	ta, tb := env.term(e, a), env.term(e, b)
	if ta.S != tb.S {
		// a byte-array or slice compared with a sequence
		if ta.S == SSeq || tb.S == SSeq {
			return mkEq(env.bytes(e, a), env.bytes(e, b))
		}
		env.fail(e, "comparing %s with %s", ta.S, tb.S)
	}
	return mkEq(ta, tb)
}

func isIface(t types.Type) bool { _, ok := under(t).(*types.Interface); return ok }

func (env *Env) binary(e *Expr) SV {
	a, b := e.Args[0], e.Args[1]
	switch e.Op {
	case "&&":
		return logic(mkAnd(env.Bool(a), env.Bool(b)))
	case "||":
		return logic(mkOr(env.Bool(a), env.Bool(b)))
	case "==>":
		l := env.Bool(a)
		if isFalse(l) {
			return logic(tTrue)
		}
		return logic(mkImp(l, env.Bool(b)))
	case "<==>":
		return logic(mkEq(env.Bool(a), env.Bool(b)))
	case "==":
		return logic(env.eq(e, env.Eval(a), env.Eval(b)))
	case "!=":
		return logic(mkNot(env.eq(e, env.Eval(a), env.Eval(b))))
	case "<", "<=", ">", ">=":
		x, y := env.Eval(a), env.Eval(b)
		tx, ty := env.term(a, x), env.term(b, y)
		if e.Op == ">" || e.Op == ">=" {
			tx, ty = ty, tx
		}
		if tx.S == SSeq {
			if e.Op == "<" || e.Op == ">" {
				return logic(mkApp("seqlt", SBool, tx, ty))
			}
			return logic(mkNot(mkApp("seqlt", SBool, ty, tx)))
		}
		if e.Op == "<" || e.Op == ">" {
			return logic(mkLt(tx, ty))
		}
		return logic(mkLe(tx, ty))
	case "+":
		x := env.Eval(a)
		if t := env.rv(x); t.T != nil {
			if bt, ok := under(t.T).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				return logic(mkCat(env.Seq(a), env.Seq(b)))
			}
		} else if x.S == SSeq {
			return logic(mkCat(env.Seq(a), env.Seq(b)))
		}
		return logic(mkAdd(env.term(a, x), env.Int(b)))
	case "-":
		return logic(mkSub(env.Int(a), env.Int(b)))
	case "*":
		return logic(mkMul(env.Int(a), env.Int(b)))
	case "/":
		return logic(mkDiv(env.Int(a), env.Int(b)))
	case "%":
		return logic(mkMod(env.Int(a), env.Int(b)))
	case "++":
		return logic(mkCat(env.Seq(a), env.Seq(b)))
	case "in":
		m := env.Eval(b)
		if m.T != nil {
			if mt, ok := under(m.T).(*types.Map); ok {
				return logic(env.ex.mapHas(env.st, mt, env.term(b, m), env.keyTerm(a, env.Eval(a))))
			}
		}
		return logic(mkSelect(env.term(b, m), env.keyTerm(a, env.Eval(a))))
	}
	env.fail(e, "operator %s", e.Op)
	return SV{}
}

func mkCat(a, b *Term) *Term {
	if isLit(a) && reg.LitVal(a.Op) == "" {
		return b
	}
	if isLit(b) && reg.LitVal(b.Op) == "" {
		return a
	}
	return mkApp("cat", SSeq, a, b)
}

func (env *Env) refOf(e *Expr, v SV) *Term {
	if v.Addr != nil {
		return v.Addr
	}
	switch x := v.V.(type) {
	case SliceV:
		return x.Arr
	case IfaceV:
		return x.Data
	}
	return env.term(e, v)
}

func (env *Env) call(e *Expr) SV {
	ex := env.ex
	arg := func(i int) *Expr {
		if i >= len(e.Args) {
			env.fail(e, "%s: missing argument", e.Op)
		}
		return e.Args[i]
	}
	switch e.Op {
	case "old":
		if env.old == nil {
			env.fail(e, "old() without an old state")
		}
		r := env.with(env.old).Eval(arg(0))
		return freeze(env.with(env.old), r)
	case "pre":
		if env.pre == nil {
			env.fail(e, "pre() outside a loop")
		}
		return freeze(env.with(env.pre), env.with(env.pre).Eval(arg(0)))
	case "len":
		v := env.Eval(arg(0))
		if v.T != nil {
			switch u := under(v.T).(type) {
			case *types.Slice:
				return logic(v.V.(SliceV).Len)
			case *types.Array:
				return logic(mkInt(u.Len()))
			case *types.Map:
				return logic(ex.mapLen(env.st, u, env.term(e, v)))
			}
		}
		return logic(mkApp("len", SInt, env.bytes(e, v)))
	case "cap":
		return logic(env.Eval(arg(0)).V.(SliceV).Cap)
	case "off":
		return logic(env.Eval(arg(0)).V.(SliceV).Off)
	case "bytes":
		return logic(env.Seq(arg(0)))
	case "row":
		v := env.Eval(arg(0))
		u := under(v.T).(*types.Slice)
		return logic(ex.row(env.st, u.Elem(), 0, v.V.(SliceV).Arr))
	case "mk":
		return logic(mkMk(env.term(e, env.Eval(arg(0))), env.Int(arg(1)), env.Int(arg(2))))
	case "ref":
		return logic(env.refOf(e, env.Eval(arg(0))))
	case "root":
		return logic(mkApp("root", SInt, env.refOf(e, env.Eval(arg(0)))))
	case "fresh":
		base := env.old
		if base == nil {
			base = env.st
		}
		r := env.refOf(e, env.Eval(arg(0)))
		return logic(mkAnd(mkLe(base.alloc, mkApp("root", SInt, r)), mkNot(mkEq(r, mkInt(0)))))
	case "alloced":
		r := env.refOf(e, env.Eval(arg(0)))
		return logic(mkLt(mkApp("root", SInt, r), env.st.alloc))
	case "ite":
		c := env.Bool(arg(0))
		if isTrue(c) {
			return env.Eval(arg(1))
		}
		if isFalse(c) {
			return env.Eval(arg(2))
		}
		a, b := env.Eval(arg(1)), env.Eval(arg(2))
		ta, tb := env.scalarOrSeq(arg(1), a), env.scalarOrSeq(arg(2), b)
		if ta.S != tb.S {
			env.fail(e, "ite branches differ")
		}
		return logic(mkIte(c, ta, tb))
	case "typeis":
		v := env.Eval(arg(0))
		t := env.resolveType(e, arg(1).Op)
		return logic(mkEq(v.V.(IfaceV).Tag, typeTag(t)))
	case "as":
		v := env.Eval(arg(0))
		t := env.resolveType(e, arg(1).Op)
		if iv, ok := v.V.(IfaceV); ok {
			return SV{V: ex.unbox(env.st, t, iv.Data), T: t}
		}
		// a raw reference viewed as a pointer type
		return SV{V: ex.fromLeaves(t, []*Term{env.term(e, v)}), T: t}
	case "typetag":
		return logic(typeTag(env.resolveType(e, arg(0).Op)))
	case "tag":
		return logic(env.Eval(arg(0)).V.(IfaceV).Tag)
	case "int":
		return logic(env.Int(arg(0)))
	case "str":
		return logic(env.Seq(arg(0)))
	case "single":
		return logic(mkApp("single", SSeq, env.Int(arg(0))))
	case "has":
		m := env.Eval(arg(0))
		mt := under(m.T).(*types.Map)
		return logic(ex.mapHas(env.st, mt, env.term(e, m), env.keyTerm(e, env.Eval(arg(1)))))
	case "visited":
		// visited(k): the map iteration of this loop has produced the key k
		vis, ok := env.st.heap[env.iter]
		if env.iter == "" || !ok {
			env.fail(e, "visited outside a map iteration")
		}
		return logic(mkSelect(vis, env.keyTerm(e, env.Eval(arg(0)))))
	case "dom":
		m := env.Eval(arg(0))
		mt := under(m.T).(*types.Map)
		return logic(ex.mapDom(env.st, mt, env.term(e, m)))
	case "tdiv":
		return logic(mkTDiv(env.Int(arg(0)), env.Int(arg(1))))
	case "tmod":
		return logic(mkTMod(env.Int(arg(0)), env.Int(arg(1))))
	case "min":
		a, b := env.Int(arg(0)), env.Int(arg(1))
		return logic(mkIte(mkLe(a, b), a, b))
	case "max":
		a, b := env.Int(arg(0)), env.Int(arg(1))
		return logic(mkIte(mkLe(a, b), b, a))
	case "store":
		return logic(mkStore(env.term(e, env.Eval(arg(0))), env.keyTerm(e, env.Eval(arg(1))), env.term(e, env.Eval(arg(2)))))
	case "sameseq": // raw equality, for axioms
		return logic(mkApp("=", SBool, env.Seq(arg(0)), env.Seq(arg(1))))
	case "held":
		return logic(mkBool(env.isHeld(e, false)))
	case "wheld":
		return logic(mkBool(env.isHeld(e, true)))
	case "nolocks":
		return logic(mkBool(len(env.st.held) == 0))
	case "global":
		// global("pkg.Name")
		v := ex.V.lookupGlobal(arg(0).Op)
		if v == nil {
			env.fail(e, "unknown global %s", arg(0).Op)
		}
		return env.global(v)
	case "unchanged":
		var cs []*Term
		for _, a := range e.Args {
			x := env.Eval(a)
			y := env.with(env.old).Eval(a)
			la := ex.toLeaves(env.st, env.rv(x).V, x.T)
			oe := env.with(env.old)
			lb := ex.toLeaves(env.old, oe.rv(y).V, y.T)
			for i := range la {
				cs = append(cs, mkEq(la[i], lb[i]))
			}
		}
		return logic(mkAnd(cs...))
	}
	// package constant or type conversion pkg.Name handled in field
	if d, ok := ex.V.Spec.Defs[e.Op]; ok {
		if len(d.Params) != len(e.Args) {
			env.fail(e, "%s: wrong number of arguments", e.Op)
		}
		m := map[string]SV{}
		for i, p := range d.Params {
			m[p.Name] = env.Eval(e.Args[i])
		}
		n := *env
		n.names = nil
		n.bound = m
		if p := ex.V.pkgTypes(d.Pkg); p != nil {
			n.pkg = p
		}
		return n.Eval(d.E)
	}
	if s, ok := ex.V.Spec.Ghosts[e.Op]; ok {
		r := env.refOf(e, env.Eval(arg(0)))
		return logic(env.st.sel(env.st.get("X!"+e.Op, SArr(SInt, s)), r))
	}
	if f := reg.Fn(e.Op); f != nil {
		if len(f.Args) != len(e.Args) {
			env.fail(e, "%s: %d arguments expected", e.Op, len(f.Args))
		}
		var ts []*Term
		for i, a := range e.Args {
			v := env.Eval(a)
			var t *Term
			if f.Args[i] == SSeq {
				t = env.bytes(a, v)
			} else if f.Args[i] == SInt && v.T != nil && (isIface(v.T)) {
				t = v.V.(IfaceV).Data
			} else if f.Args[i] == SInt && v.T != nil {
				if sl, ok := v.V.(SliceV); ok {
					t = sl.Arr
				}
			}
			if t == nil {
				t = env.term(a, v)
			}
			if t.S != f.Args[i] {
				env.fail(e, "%s: argument %d has sort %s, want %s", e.Op, i, t.S, f.Args[i])
			}
			ts = append(ts, t)
		}
		return logic(mkApp(e.Op, f.Ret, ts...))
	}
	env.fail(e, "unknown function %q", e.Op)
	return SV{}
}

func (env *Env) scalarOrSeq(e *Expr, v SV) *Term {
	if v.T != nil {
		switch under(v.T).(type) {
		case *types.Slice, *types.Array:
			return env.bytes(e, v)
		}
	}
	return env.term(e, v)
}

// freeze loads an in-memory value in the state it was evaluated in.
func freeze(env *Env, v SV) SV {
	if v.Addr != nil && v.V == nil {
		r := env.rv(v)
		return SV{V: r.V, T: v.T, Addr: nil}
	}
	return v
}

func (env *Env) isHeld(e *Expr, write bool) bool {
	x := e.Args[0]
	if x.K != "field" {
		env.fail(e, "held(x.mu) expected")
	}
	v := env.Eval(x)
	r := env.refOf(x, v)
	for _, h := range env.st.held {
		if same(h.Ref, r) && (!write || !h.Read) {
			return true
		}
	}
	return false
}

var _ = ssa.BareInits
var _ = token.NoPos
