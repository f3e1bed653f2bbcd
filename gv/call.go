package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxInline = 12

// callVals evaluates the operands of a call: the callee (or receiver) first.
func (ex *Exec) callVals(st *State, c *ssa.CallCommon) []Val {
	vals := []Val{ex.value(st, c.Value)}
	for _, a := range c.Args {
		vals = append(vals, ex.value(st, a))
	}
	return vals
}

func (ex *Exec) call(st *State, c *ssa.CallCommon, in ssa.Instruction, k Kont) {
	ex.callWith(st, c, in, ex.callVals(st, c), k)
}

func (ex *Exec) callWith(st *State, c *ssa.CallCommon, in ssa.Instruction, vals []Val, k Kont) {
	if c.IsInvoke() {
		ex.invoke(st, c, in, vals, k)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ex.builtin(st, b.Name(), c, in, vals[1:], k)
		return
	}
	if f := c.StaticCallee(); f != nil {
		var bind []Val
		if cl, ok := vals[0].(ClosureV); ok {
			bind = cl.Bind
		}
		ex.callFn(st, f, vals[1:], bind, in, k)
		return
	}
	switch v := vals[0].(type) {
	case ClosureV:
		ex.callFn(st, v.Fn, vals[1:], v.Bind, in, k)
		return
	case Scalar:
		if cl, ok := ex.closures[v.T.String()]; ok {
			ex.callFn(st, cl.Fn, vals[1:], cl.Bind, in, k)
			return
		}
		ex.nopanic(st, mkNot(mkEq(v.T, mkInt(0))), "call of a nil function: "+ex.srcText(in), in)
	}
	// a function value: contract by the field it was loaded from
	if u, ok := c.Value.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			owner := fieldOwner(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)
			if con := ex.V.Spec.Contracts["iface func "+owner]; con != nil {
				names := map[string]SV{}
				if len(con.Params) > 0 {
					if x, ok := st.top().locals[fa.X]; ok {
						names[con.Params[0]] = ex.asSV(x, fa.X.Type())
					}
				}
				for i := 0; i < c.Signature().Params().Len() && i+1 < len(con.Params); i++ {
					names[con.Params[i+1]] = ex.asSV(vals[1+i], c.Signature().Params().At(i).Type())
				}
				ex.apply(st, con, names, c.Signature(), "func "+owner, in, k)
				return
			}
		}
	}
	ex.V.assume("function value called in %s at %s: result arbitrary, repository memory unchanged", ex.fname(), ex.pos(in))
	ex.havocArgs(st, c.Signature(), vals[1:], false)
	st.bumpAlloc()
	k(st, ex.sigResult(st, "fnval", c.Signature()))
}

func (ex *Exec) sigResult(st *State, name string, sig *types.Signature) Val {
	rs := sig.Results()
	switch rs.Len() {
	case 0:
		return TupleV{}
	case 1:
		return ex.freshVal(st, name, rs.At(0).Type())
	}
	tv := TupleV{}
	for i := 0; i < rs.Len(); i++ {
		tv = append(tv, ex.freshVal(st, name, rs.At(i).Type()))
	}
	return tv
}

// havocArgs: an unknown callee may write through slices and cells it is given.
func (ex *Exec) havocArgs(st *State, sig *types.Signature, args []Val, recv bool) {
	for _, a := range args {
		switch v := a.(type) {
		case PtrV:
			if v.Loc.Kind == "cell" || v.Loc.Kind == "field" || v.Loc.Kind == "elem" {
				ex.storeLoc(st, v.Loc, ex.freshVal(st, "ext", v.Loc.T))
			}
		}
	}
	n := sig.Params().Len()
	for i := 0; i < n; i++ {
		j := i
		if recv {
			j++
		}
		if j >= len(args) {
			break
		}
		s, ok := args[j].(SliceV)
		if !ok {
			continue
		}
		sl, ok := under(sig.Params().At(i).Type()).(*types.Slice)
		if !ok {
			continue
		}
		et := sl.Elem()
		if sig.Variadic() && i == n-1 {
			continue // the argument list built by the caller
		}
		if isStruct(et) || isArray(et) || s.Arr.I != nil && s.Arr.I.Sign() == 0 {
			continue
		}
		for _, l := range ex.elemMaps(et) {
			ex.havocTarget(st, modTarget{name: l.Suffix, vs: SArr(SInt, l.S), key: s.Arr, lo: s.Off, hi: mkAdd(s.Off, s.Len)})
		}
	}
}

// ---- interface methods ----

func (ex *Exec) invoke(st *State, c *ssa.CallCommon, in ssa.Instruction, vals []Val, k Kont) {
	recv := vals[0].(IfaceV)
	ex.nopanic(st, mkNot(mkEq(recv.Tag, mkInt(0))), "method call on a nil interface: "+ex.srcText(in), in)
	if d := ex.dynType(recv); d != nil {
		if m := ex.V.Prog.LookupMethod(d, c.Method.Pkg(), c.Method.Name()); m != nil {
			var r Val
			if recv.DynVal != nil {
				r = recv.DynVal
			} else {
				r = ex.unbox(st, d, recv.Data)
				ex.assumeType(st, r, d)
			}
			ex.callFn(st, m, append([]Val{r}, vals[1:]...), nil, in, k)
			return
		}
	}
	key := ifaceKey(c)
	if con := ex.V.Spec.Contracts["iface "+key]; con != nil && !ex.V.DropCon[con] {
		names := map[string]SV{}
		if len(con.Params) > 0 {
			names[con.Params[0]] = ex.asSV(recv, c.Value.Type())
		}
		sig := c.Signature()
		for i := 0; i < sig.Params().Len() && i+1 < len(con.Params); i++ {
			names[con.Params[i+1]] = ex.asSV(vals[1+i], sig.Params().At(i).Type())
		}
		ex.apply(st, con, names, sig, key, in, k)
		return
	}
	ex.V.assume("interface method %s without a contract: result arbitrary, only the slices it is given change", key)
	ex.havocArgs(st, c.Signature(), vals[1:], false)
	st.bumpAlloc()
	k(st, ex.sigResult(st, "ifc."+c.Method.Name(), c.Signature()))
}

func ifaceKey(c *ssa.CallCommon) string {
	t := types.Unalias(c.Value.Type())
	tn := typeName(t)
	if n, ok := t.(*types.Named); ok {
		tn = n.Obj().Name()
		if n.Obj().Pkg() != nil {
			tn = n.Obj().Pkg().Name() + "." + tn
		}
	}
	return tn + "." + c.Method.Name()
}

// ---- static calls ----

func (ex *Exec) callFn(st *State, f *ssa.Function, args, bind []Val, in ssa.Instruction, k Kont) {
	if ex.native(st, f, args, in, k) {
		return
	}
	con := ex.V.contractFor(st.top().fn, f)
	if con != nil && con.Flags["inline"] == "" && !(f == ex.Fn && con.Flags["inlineself"] != "") {
		names := map[string]SV{}
		ts := paramTypes(f)
		if len(con.Params) == len(ts) {
			for i, t := range ts {
				if con.Params[i] != "_" {
					names[con.Params[i]] = ex.asSV(args[i], t)
				}
			}
			for i, fv := range f.FreeVars {
				if i < len(bind) {
					names[fv.Name()] = ex.asSV(bind[i], fv.Type())
				}
			}
			if p := con.Flags["runs"]; p != "" {
				// the callee runs the closure it is given: so does the analysis, here and now
				for i := range ts {
					cl, ok := args[i].(ClosureV)
					if con.Params[i] != p || !ok || len(cl.Fn.Params) != 0 {
						continue
					}
					ex.callFn(st, cl.Fn, nil, cl.Bind, in, func(st *State, res Val) {
						if cl.Fn.Signature.Results().Len() == 1 {
							names["ran"] = ex.asSV(res, cl.Fn.Signature.Results().At(0).Type())
						}
						ex.apply(st, con, names, f.Signature, ex.fshort(f), in, k)
					})
					return
				}
			}
			ex.apply(st, con, names, f.Signature, ex.fshort(f), in, k)
			return
		}
	}
	if f.Blocks != nil && (ex.V.inRepo(f) || f.Synthetic != "") {
		depth := 0
		rec := false
		for _, fr := range st.frames {
			depth++
			if fr.fn == f {
				rec = true
			}
		}
		if !rec && depth < maxInline {
			ex.inl[f] = true
			nf := &Frame{fn: f, locals: map[ssa.Value]Val{}, call: in}
			ex.frameID++
			nf.id = ex.frameID
			for i, p := range f.Params {
				nf.locals[p] = args[i]
			}
			for i, fv := range f.FreeVars {
				if i < len(bind) {
					nf.locals[fv] = bind[i]
				} else {
					nf.locals[fv] = ex.freshVal(st, "free."+fv.Name(), fv.Type())
				}
			}
			st.frames = append(st.frames, nf)
			d := len(st.frames)
			ex.run(st, f.Blocks[0], nil, func(st *State, res Val) {
				rp := st.retPos
				st.frames = st.frames[: d-1 : d-1]
				k(st, res)
				_ = rp
			})
			return
		}
		ex.unsupported(st, "recursive call of "+ex.fshort(f)+" without a contract")
		ex.havocAll(st)
		k(st, ex.sigResult(st, "rec", f.Signature))
		return
	}
	ex.V.assume("external %s without a contract: result arbitrary, only the slices and cells it is given change", f.String())
	ex.havocArgs(st, f.Signature, args, f.Signature.Recv() != nil)
	st.bumpAlloc()
	k(st, ex.sigResult(st, "ext."+f.Name(), f.Signature))
}

func paramTypes(f *ssa.Function) []types.Type {
	var ts []types.Type
	if len(f.Params) > 0 {
		for _, p := range f.Params {
			ts = append(ts, p.Type())
		}
		return ts
	}
	if r := f.Signature.Recv(); r != nil {
		ts = append(ts, r.Type())
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		ts = append(ts, f.Signature.Params().At(i).Type())
	}
	return ts
}

func (ex *Exec) fshort(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name() + "." + f.RelString(f.Pkg.Pkg)
	}
	return f.String()
}

// apply replaces a call by the callee's contract.
func (ex *Exec) apply(st *State, c *Contract, names map[string]SV, sig *types.Signature, what string, in ssa.Instruction, k Kont) {
	if ex.aborted != "" {
		return
	}
	if ex.quiet == 0 || true {
		ex.V.mu.Lock()
		ex.used[c] = true
		ex.V.mu.Unlock()
	}
	var pkg *types.Package
	if c.Pkg != "" {
		pkg = ex.V.Types[c.Pkg]
	}
	env := &Env{ex: ex, st: st, names: names, pkg: pkg}
	for _, r := range c.Requires {
		r := r
		if ex.V.dropped(r) {
			continue
		}
		ok := ex.evalErr("requires of "+what+": "+r.Label, ex.tagsForRequires(r), ex.pos(in), r, func() {
			g := env.Bool(r.E)
			for _, gg := range ex.goals(st, g) {
				ex.oblige(st, "requires", what+" requires "+r.Label, ex.tagsForRequires(r), gg, ex.pos(in), r, c)
			}
			st.assume(g)
		})
		if !ok {
			continue
		}
	}
	for _, l := range c.Locks {
		l := l
		ex.evalErr("locked of "+what, []string{"L01"}, ex.pos(in), l, func() {
			r := env.refOf(l.E, env.Eval(l.E))
			if !ex.heldRef(st, r, l.Kind == "locked") {
				ex.lockObl(st, what+" is called with "+l.Src+" held", tFalse, ex.pos(in))
			}
		})
	}
	for _, cl := range strings.Fields(c.Flags["acquires"]) {
		ex.orderCheck(st, cl, what+" acquires ", ex.pos(in))
		ex.mayAcquire(st, cl, ex.pos(in))
	}
	if c.Flags["blocks"] != "" {
		ex.blockCheck(st, in, what)
	}
	pre := st.clone()
	env.st = pre
	ok := true
	if c.ModAll {
		ex.havocAll(st)
	} else {
		ok = ex.evalErr("modifies of "+what, nil, ex.pos(in), nil, func() {
			for _, t := range ex.modTargets(env, c) {
				ex.havocTarget(st, t)
			}
		})
	}
	if !ok {
		ex.havocAll(st)
	}
	if c.Flags["pure"] == "" {
		st.bumpAlloc()
	}
	if c.Flags["noreturn"] != "" {
		return
	}
	res := ex.sigResult(st, "res."+san(what), sig)
	rn := resultNames(c, sig)
	post := &Env{ex: ex, st: st, old: pre, names: map[string]SV{}, pkg: pkg}
	for n, v := range names {
		post.names[n] = v
	}
	switch sig.Results().Len() {
	case 0:
	case 1:
		post.names[rn[0]] = ex.asSV(res, sig.Results().At(0).Type())
		post.names["result"] = post.names[rn[0]]
	default:
		for i, v := range res.(TupleV) {
			post.names[rn[i]] = ex.asSV(v, sig.Results().At(i).Type())
		}
	}
	for _, e := range c.Ensures {
		e := e
		if ex.V.dropped(e) {
			continue
		}
		ex.evalErr("ensures of "+what+": "+e.Label, e.Tags, ex.pos(in), e, func() { st.assume(post.Bool(e.E)) })
	}
	k(st, res)
}

// tagsForRequires: an unmet precondition undermines whatever the caller promises.
func (ex *Exec) tagsForRequires(r *Clause) []string {
	if len(r.Tags) > 0 {
		return r.Tags
	}
	if ex.Con == nil {
		return nil
	}
	return allTags(ex.Con)
}

func allTags(c *Contract) []string {
	m := map[string]bool{}
	for _, e := range c.Ensures {
		for _, t := range e.Tags {
			m[t] = true
		}
	}
	for _, t := range c.NoPanic {
		m[t] = true
	}
	for _, t := range c.FrameTags {
		m[t] = true
	}
	if c.Flags["locks"] != "" {
		m["L01"] = true
	}
	return sortedKeys(m)
}

// doGo starts a goroutine: its body is verified on its own.
func (ex *Exec) doGo(st *State, in *ssa.Go) {
	vals := ex.callVals(st, &in.Call)
	var f *ssa.Function
	var bind []Val
	if cl, ok := vals[0].(ClosureV); ok && !in.Call.IsInvoke() {
		f, bind = cl.Fn, cl.Bind
	} else if g := in.Call.StaticCallee(); g != nil {
		f = g
	}
	for _, b := range bind {
		if pv, ok := b.(PtrV); ok && pv.Loc.Kind == "cell" {
			if st.volatile == nil {
				st.volatile = map[string]bool{}
			}
			nv := map[string]bool{pv.Loc.Ref.String(): true}
			for k := range st.volatile {
				nv[k] = true
			}
			st.volatile = nv
		}
	}
	if f == nil {
		return
	}
	if c := ex.V.contractOf(f); c != nil {
		ts := paramTypes(f)
		if len(ts) != len(c.Params) {
			return
		}
		names := map[string]SV{}
		for i, t := range ts {
			names[c.Params[i]] = ex.asSV(vals[1+i], t)
		}
		for i, fv := range f.FreeVars {
			if i < len(bind) {
				names[fv.Name()] = ex.asSV(bind[i], fv.Type())
			}
		}
		env := &Env{ex: ex, st: st, names: names, pkg: ex.V.Types[c.Pkg]}
		for _, r := range c.Requires {
			r := r
			ex.evalErr("requires of "+ex.fshort(f), ex.tagsForRequires(r), ex.pos(in), r, func() {
				ex.oblige(st, "requires", "go "+ex.fshort(f)+" requires "+r.Label, ex.tagsForRequires(r), env.Bool(r.E), ex.pos(in), r, c)
			})
		}
		if len(c.Locks) > 0 {
			ex.lockObl(st, "a goroutine does not inherit its creator's locks", tFalse, ex.pos(in))
		}
		ex.used[c] = true
		return
	}
	if f.Blocks == nil || !ex.V.inRepo(f) || ex.dry > 0 || len(st.frames) >= maxInline {
		return
	}
	for _, fr := range st.frames {
		if fr.fn == f {
			return
		}
	}
	// the body runs at some later time, without locks
	s2 := st.clone()
	s2.held = nil
	s2.frames = append(s2.frames[:len(s2.frames):len(s2.frames)], nil)
	nf := &Frame{fn: f, locals: map[ssa.Value]Val{}, call: in}
	ex.frameID++
	nf.id = ex.frameID
	for i, p := range f.Params {
		nf.locals[p] = vals[1+i]
	}
	for i, fv := range f.FreeVars {
		if i < len(bind) {
			nf.locals[fv] = bind[i]
		} else {
			nf.locals[fv] = ex.freshVal(s2, "free."+fv.Name(), fv.Type())
		}
	}
	s2.frames[len(s2.frames)-1] = nf
	ex.inl[f] = true
	ex.interfere(s2, "go")
	ex.run(s2, f.Blocks[0], nil, func(s *State, _ Val) {
		if ex.quiet == 0 && ex.Con != nil && ex.Con.Flags["locks"] != "" {
			ex.oblige(s, "lock", "a goroutine releases every lock it takes", []string{"L01"}, mkBool(len(s.held) == 0), s.retPos, nil, nil)
		}
	})
}

// ---- builtins ----

func (ex *Exec) builtin(st *State, name string, c *ssa.CallCommon, in ssa.Instruction, args []Val, k Kont) {
	at := func(i int) types.Type { return c.Args[i].Type() }
	switch name {
	case "len":
		k(st, Scalar{ex.lenOf(st, args[0], at(0))})
	case "cap":
		switch v := args[0].(type) {
		case SliceV:
			k(st, Scalar{v.Cap})
		default:
			k(st, ex.freshVal(st, "cap", types.Typ[types.Int]))
		}
	case "append":
		k(st, ex.appendTo(st, args[0].(SliceV), args[1], at(0), at(1), in))
	case "copy":
		k(st, Scalar{ex.copyTo(st, args[0].(SliceV), args[1], at(0), at(1), in)})
	case "delete":
		mt := under(at(0)).(*types.Map)
		ex.mapDelete(st, mt, args[0].(Scalar).T, ex.keyTerm(st, args[1], mt.Key()))
		k(st, TupleV{})
	case "close":
		ch := args[0].(Scalar).T
		cl := st.sel(st.get("X!closed", SArr(SInt, SBool)), ch)
		ex.nopanic(st, mkNot(mkEq(ch, mkInt(0))), "close of a nil channel: "+ex.srcText(in), in)
		ex.nopanic(st, mkNot(cl), "close of a closed channel: "+ex.srcText(in), in)
		st.setKey("X!closed", SArr(SInt, SBool), ch, tTrue)
		k(st, TupleV{})
	case "min", "max":
		x := args[0].(Scalar).T
		for _, a := range args[1:] {
			y := a.(Scalar).T
			if name == "min" {
				x = mkIte(mkLe(x, y), x, y)
			} else {
				x = mkIte(mkLe(x, y), y, x)
			}
		}
		if len(x.Args) > 0 {
			r := ex.fresh(name, SInt)
			st.assume(mkEq(r, x))
			x = r
		}
		k(st, Scalar{x})
	case "clear":
		switch u := under(at(0)).(type) {
		case *types.Map:
			ex.mapClear(st, u, args[0].(Scalar).T)
		case *types.Slice:
			s := args[0].(SliceV)
			if !isStruct(u.Elem()) && !isArray(u.Elem()) {
				for _, l := range ex.elemMaps(u.Elem()) {
					ex.rangeWrite(st, l.Suffix, l.S, s.Arr, s.Off, s.Len, func(*Term) *Term { return zeroTerm(l.S) })
				}
			} else {
				ex.unsupported(st, "clear of aggregates")
			}
		}
		k(st, TupleV{})
	case "print", "println":
		k(st, TupleV{})
	case "recover":
		k(st, ex.freshVal(st, "recovered", in.(ssa.Value).Type()))
	case "ssa:wrapnilchk":
		if s, ok := args[0].(Scalar); ok {
			ex.nilRef(st, s.T, in)
		}
		k(st, args[0])
	default:
		ex.unsupported(st, "builtin "+name)
		k(st, ex.sigResult(st, name, c.Signature()))
	}
}

func (ex *Exec) lenOf(st *State, v Val, t types.Type) *Term {
	switch v := v.(type) {
	case SliceV:
		return v.Len
	case Scalar:
		switch u := under(t).(type) {
		case *types.Basic:
			if isLit(v.T) {
				return mkInt(int64(len(reg.LitVal(v.T.Op))))
			}
			return mkApp("len", SInt, v.T)
		case *types.Map:
			return ex.mapLen(st, u, v.T)
		case *types.Pointer:
			return mkInt(under(u.Elem()).(*types.Array).Len())
		case *types.Chan:
			l := ex.fresh("chanlen", SInt)
			st.assume(mkLe(mkInt(0), l))
			return l
		}
	case ArrayV:
		return mkInt(under(t).(*types.Array).Len())
	}
	l := ex.fresh("len", SInt)
	st.assume(mkAnd(mkLe(mkInt(0), l), mkLe(l, mkInt(maxLen))))
	return l
}

// rangeWrite updates row[lo..lo+n) of array arr: element i of the range becomes f(i).
func (ex *Exec) rangeWrite(st *State, name string, es Sort, arr, lo, n *Term, f func(i *Term) *Term) *Term {
	ms := SArr(SInt, SArr(SInt, es))
	old := st.sel(st.get(name, ms), arr)
	if n.I != nil && n.I.IsInt64() && n.I.Int64() <= 16 {
		row := old
		for i := int64(0); i < n.I.Int64(); i++ {
			row = mkStore(row, mkAdd(lo, mkInt(i)), f(mkInt(i)))
		}
		row = ex.nameRow(st, row)
		st.setKey(name, ms, arr, row)
		return row
	}
	row := ex.fresh("row."+name, SArr(SInt, es))
	i := mkConst(ex.V.qname("i"), SInt)
	sel := mkApp("select", es, row, i)
	st.assume(mkForall([]*Term{i}, [][]*Term{{sel}}, mkIff3(mkAnd(mkLe(lo, i), mkLt(i, mkAdd(lo, n))),
		mkApp("=", SBool, sel, f(mkSub(i, lo))), mkApp("=", SBool, sel, mkApp("select", es, old, i)))))
	st.setKey(name, ms, arr, row)
	return row
}

func mkIff3(c, a, b *Term) *Term { return mkAnd(mkImp(c, a), mkImp(mkNot(c), b)) }

// source of appended or copied elements
type src struct {
	n    *Term
	row  func(leaf int) *Term
	off  *Term
	str  *Term
	arr  *Term
}

func (ex *Exec) source(st *State, v Val, t types.Type, et types.Type) src {
	switch v := v.(type) {
	case SliceV:
		agg := isStruct(et) || isArray(et)
		s := src{n: v.Len, off: v.Off, arr: v.Arr}
		if !agg {
			maps := ex.elemMaps(et)
			rows := make([]*Term, len(maps))
			for i, l := range maps {
				rows[i] = st.sel(st.get(l.Suffix, SArr(SInt, SArr(SInt, l.S))), v.Arr)
			}
			s.row = func(i int) *Term { return rows[i] }
		}
		return s
	case Scalar:
		if v.T.S == SSeq {
			n := mkApp("len", SInt, v.T)
			if isLit(v.T) {
				n = mkInt(int64(len(reg.LitVal(v.T.Op))))
			}
			return src{n: n, off: mkInt(0), str: v.T}
		}
		if v.T.I != nil { // nil
			return src{n: mkInt(0), off: mkInt(0)}
		}
	}
	ex.unsupported(st, fmt.Sprintf("source of append/copy: %T", v))
	return src{n: mkInt(0), off: mkInt(0)}
}

func (s src) at(st *State, leaf int, es Sort, i *Term) *Term {
	if s.str != nil {
		if isLit(s.str) && i.I != nil {
			return mkInt(int64(reg.LitVal(s.str.Op)[i.I.Int64()]))
		}
		return mkApp("at", SInt, s.str, i)
	}
	return st.sel(s.row(leaf), mkAdd(s.off, i))
}

// bytes is the source as a sequence (byte elements only).
func (s src) bytes() *Term {
	if s.str != nil {
		return s.str
	}
	return mkMk(s.row(0), s.off, s.n)
}

func (ex *Exec) appendTo(st *State, s SliceV, more Val, t, mt types.Type, in ssa.Instruction) Val {
	et := under(t).(*types.Slice).Elem()
	sr := ex.source(st, more, mt, et)
	if sr.n.I != nil && sr.n.I.Sign() == 0 {
		return s
	}
	newLen := mkAdd(s.Len, sr.n)
	// memory is finite: the result's length stays below the model's bound
	st.assume(mkLe(newLen, mkInt(maxLen)))
	fits := mkLe(newLen, s.Cap)
	decided, inplace := false, false
	if s.Cap.I != nil && newLen.I != nil {
		decided, inplace = true, newLen.I.Cmp(s.Cap.I) <= 0
	} else if s.Arr.I != nil && s.Arr.I.Sign() == 0 {
		decided, inplace = sr.n.I != nil, false
	} else if same(s.Cap, s.Len) && sr.n.I != nil {
		decided, inplace = true, false
	} else if isFalse(fits) || isTrue(fits) {
		decided, inplace = true, isTrue(fits)
	}
	agg := isStruct(et) || isArray(et)
	r := st.newRef()
	arr, off := r, mkInt(0)
	cp := ex.fresh("cap", SInt)
	st.assume(mkAnd(mkLe(newLen, cp), mkLe(cp, mkInt(2*maxLen))))
	if decided && inplace {
		arr, off, cp = s.Arr, s.Off, s.Cap
	} else if !decided {
		arr, off = ex.fresh("apparr", SInt), ex.fresh("appoff", SInt)
		ex.symN[arr.Op] = ex.n
		st.assume(mkImp(fits, mkAnd(mkEq(arr, s.Arr), mkEq(off, s.Off), mkEq(cp, s.Cap))))
		st.assume(mkImp(mkNot(fits), mkAnd(mkEq(arr, r), mkEq(off, mkInt(0)))))
		st.assume(mkOr(mkEq(mkApp("root", SInt, arr), r), mkEq(arr, s.Arr)))
	}
	res := SliceV{arr, off, newLen, cp}
	if agg {
		ex.appendAgg(st, et, s, sr, res, decided, inplace)
		return res
	}
	for li, l := range ex.elemMaps(et) {
		ms := SArr(SInt, SArr(SInt, l.S))
		m := st.get(l.Suffix, ms)
		old := st.sel(m, s.Arr)
		start := mkAdd(off, s.Len)
		small := sr.n.I != nil && sr.n.I.Int64() <= 16
		var row *Term
		isByte := isUint8(et)
		if decided && inplace {
			row = old
		} else {
			row = ex.fresh("approw."+l.Suffix, SArr(SInt, l.S))
			i := mkConst(ex.V.qname("i"), SInt)
			sel := mkApp("select", l.S, row, i)
			if decided {
				if s.Len.I == nil || s.Len.I.Sign() > 0 {
					if s.Len.I != nil && s.Len.I.Int64() <= 16 {
						for j := int64(0); j < s.Len.I.Int64(); j++ {
							st.assume(mkEq(mkSelect(row, mkInt(j)), st.sel(old, mkIdx(et, s.Off, mkInt(j)))))
						}
					} else {
						st.assume(mkForall([]*Term{i}, [][]*Term{{sel}}, mkImp(mkAnd(mkLe(mkInt(0), i), mkLt(i, s.Len)), mkApp("=", SBool, sel, mkApp("select", l.S, old, mkIdx(et, s.Off, i))))))
					}
				}
			} else {
				// kept elements, and in place everything else too
				if s.Len.I != nil && s.Len.I.Int64() <= 16 {
					for j := int64(0); j < s.Len.I.Int64(); j++ {
						st.assume(mkEq(mkSelect(row, mkIdx(et, off, mkInt(j))), st.sel(old, mkIdx(et, s.Off, mkInt(j)))))
					}
				}
				jsel := mkApp("select", l.S, row, mkIdx(et, off, i))
				st.assume(mkForall([]*Term{i}, [][]*Term{{jsel}}, mkImp(mkAnd(mkLe(mkInt(0), i), mkLt(i, s.Len)), mkApp("=", SBool, jsel, mkApp("select", l.S, old, mkIdx(et, s.Off, i))))))
				st.assume(mkImp(fits, mkForall([]*Term{i}, [][]*Term{{sel}}, mkOr(mkAnd(mkLe(start, i), mkLt(i, mkAdd(start, sr.n))), mkApp("=", SBool, sel, mkApp("select", l.S, old, i))))))
			}
		}
		if small {
			for j := int64(0); j < sr.n.I.Int64(); j++ {
				v := sr.at(st, li, l.S, mkInt(j))
				if decided && !inplace {
					st.assume(mkApp("=", SBool, mkSelect(row, mkIdx(et, off, mkAdd(s.Len, mkInt(j)))), v))
				} else if decided {
					row = mkStore(row, mkIdx(et, off, mkAdd(s.Len, mkInt(j))), v)
				} else {
					st.assume(mkApp("=", SBool, mkSelect(row, mkIdx(et, off, mkAdd(s.Len, mkInt(j)))), v))
				}
			}
			if decided && inplace {
				row = ex.nameRow(st, row)
			}
			st.setKey(l.Suffix, ms, arr, row)
		} else if decided && inplace {
			row = ex.rangeWrite(st, l.Suffix, l.S, arr, start, sr.n, func(i *Term) *Term { return sr.at(st, li, l.S, i) })
		} else {
			i := mkConst(ex.V.qname("i"), SInt)
			sel := mkApp("select", l.S, row, i)
			st.assume(mkForall([]*Term{i}, [][]*Term{{sel}}, mkImp(mkAnd(mkLe(start, i), mkLt(i, mkAdd(start, sr.n))), mkApp("=", SBool, sel, sr.at(st, li, l.S, mkSub(i, start))))))
			st.setKey(l.Suffix, ms, arr, row)
		}
		if isByte {
			var tail *Term
			if sr.n.I != nil && sr.n.I.Int64() == 1 && sr.str == nil {
				tail = mkApp("single", SSeq, sr.at(st, 0, SInt, mkInt(0)))
			} else {
				tail = sr.bytes()
			}
			st.assume(mkApp("=", SBool, mkMk(row, off, newLen), mkCat(mkMk(old, s.Off, s.Len), tail)))
		}
	}
	return res
}

// appendAgg appends elements that are structs or arrays.
func (ex *Exec) appendAgg(st *State, et types.Type, s SliceV, sr src, res SliceV, decided, inplace bool) {
	en := elemName(et)
	// source values are read before anything is written
	var rd []func(i *Term) *Term
	ls := ex.aggLeaves(st, et)
	olds := map[string]*Term{}
	for _, l := range ls {
		olds[l.name] = st.get(l.name, SArr(SInt, l.s))
	}
	if sr.arr == nil {
		return
	}
	for _, l := range ls {
		l := l
		o := olds[l.name]
		rd = append(rd, func(i *Term) *Term {
			return st.sel(o, l.addr(elemRef(en, sr.arr, mkAdd(sr.off, i))))
		})
	}
	if decided && inplace && sr.n.I != nil && sr.n.I.Int64() <= 8 {
		for j := int64(0); j < sr.n.I.Int64(); j++ {
			for i, l := range ls {
				st.setKey(l.name, SArr(SInt, l.s), l.addr(elemRef(en, res.Arr, mkIdx(et, res.Off, mkAdd(s.Len, mkInt(j))))), rd[i](mkInt(j)))
			}
		}
		return
	}
	byName := map[string][]int{}
	var order []string
	for i, l := range ls {
		if byName[l.name] == nil {
			order = append(order, l.name)
		}
		byName[l.name] = append(byName[l.name], i)
	}
	for _, name := range order {
		old := olds[name]
		l0 := ls[byName[name][0]]
		nw := ex.fresh(name, old.S)
		r := mkConst(ex.V.qname("r"), SInt)
		sel := mkApp("select", l0.s, nw, r)
		st.assume(mkForall([]*Term{r}, [][]*Term{{sel}}, mkOr(mkEq(mkApp("root", SInt, r), mkApp("root", SInt, res.Arr)), mkApp("=", SBool, sel, mkApp("select", l0.s, old, r)))))
		for _, li := range byName[name] {
			l := ls[li]
			i := mkConst(ex.V.qname("i"), SInt)
			// i counts from the start of the slice
			e := elemRef(en, res.Arr, mkIdx(et, res.Off, i))
			lhs := mkApp("select", l.s, nw, l.addr(e))
			oldE := mkApp("select", l.s, old, l.addr(elemRef(en, s.Arr, mkIdx(et, s.Off, i))))
			trig := [][]*Term{{e}}
			st.assume(mkForall([]*Term{i}, trig, mkImp(mkAnd(mkLe(mkInt(0), i), mkLt(i, s.Len)), mkApp("=", SBool, lhs, oldE))))
			start := s.Len
			if sr.n.I != nil && sr.n.I.Int64() <= 8 {
				for j := int64(0); j < sr.n.I.Int64(); j++ {
					st.assume(mkApp("=", SBool, mkApp("select", l.s, nw, l.addr(elemRef(en, res.Arr, mkIdx(et, res.Off, mkAdd(start, mkInt(j)))))), rd[li](mkInt(j))))
				}
			} else {
				st.assume(mkForall([]*Term{i}, trig, mkImp(mkAnd(mkLe(start, i), mkLt(i, mkAdd(start, sr.n))), mkApp("=", SBool, lhs, rd[li](mkSub(i, start))))))
			}
			// in place: other elements stay
			if !decided || inplace {
				fits := tTrue
				if !decided {
					fits = mkEq(res.Arr, s.Arr)
				}
				st.assume(mkForall([]*Term{i}, trig, mkImp(mkAnd(fits, mkOr(mkLt(i, start), mkLe(mkAdd(start, sr.n), i))), mkApp("=", SBool, lhs, mkApp("select", l.s, old, l.addr(e))))))
			}
		}
		if res.Arr.I == nil && isFreshTerm(res.Arr, ex.entryOr(st)) {
			st.logWrite(name, res.Arr)
		} else {
			st.logWrite(name, nil)
		}
		st.put(name, nw)
	}
}

func (ex *Exec) entryOr(st *State) *State {
	if ex.entry != nil {
		return ex.entry
	}
	return st
}

func (ex *Exec) copyTo(st *State, d SliceV, more Val, t, mt types.Type, in ssa.Instruction) *Term {
	et := under(t).(*types.Slice).Elem()
	sr := ex.source(st, more, mt, et)
	var n *Term
	switch {
	case d.Len.I != nil && sr.n.I != nil:
		n = d.Len
		if sr.n.I.Cmp(n.I) < 0 {
			n = sr.n
		}
	case same(d.Len, sr.n):
		n = d.Len
	case ex.holds(st, mkLe(sr.n, d.Len), fastMS):
		n = sr.n
	case ex.holds(st, mkLe(d.Len, sr.n), fastMS):
		n = d.Len
	default:
		n = ex.fresh("copied", SInt)
		st.assume(mkEq(n, mkIte(mkLe(d.Len, sr.n), d.Len, sr.n)))
		st.assume(mkLe(mkInt(0), n))
	}
	if n.I != nil && n.I.Sign() == 0 {
		return n
	}
	if isStruct(et) || isArray(et) {
		ex.unsupported(st, "copy of aggregate elements")
		for _, l := range ex.aggLeaves(st, et) {
			st.setAll(l.name, ex.fresh(l.name, SArr(SInt, l.s)))
		}
		return n
	}
	for li, l := range ex.elemMaps(et) {
		li, l := li, l
		row := ex.rangeWrite(st, l.Suffix, l.S, d.Arr, d.Off, n, func(i *Term) *Term { return sr.at(st, li, l.S, i) })
		if isUint8(et) {
			var s *Term
			if sr.str != nil {
				if same(n, sr.n) {
					s = sr.str
				} else {
					s = mkApp("sub", SSeq, sr.str, mkInt(0), n)
				}
			} else {
				s = mkMk(sr.row(0), sr.off, n)
			}
			st.assume(mkApp("=", SBool, mkMk(row, d.Off, n), s))
		}
	}
	return n
}

// ---- locks and other native operations ----

func lockClass(r *Term) string {
	if strings.HasPrefix(r.Op, "emb!") {
		return strings.TrimPrefix(r.Op, "emb!")
	}
	return "?"
}

func (ex *Exec) heldRef(st *State, r *Term, write bool) bool {
	if ex.Con != nil && ex.Con.Flags["exclusive"] != "" {
		// the caller has not shared the structure yet
		return true
	}
	for _, h := range st.held {
		if (!write || !h.Read) && (same(h.Ref, r) || len(h.Ref.Args) == 1 && h.Ref.Op == r.Op && ex.holds(st, mkEq(h.Ref, r), 1000)) {
			return true
		}
	}
	return false
}

func (ex *Exec) orderCheck(st *State, class, what, pos string) {
	r, ok := ex.V.Spec.LockRank[class]
	for _, h := range st.held {
		hr, hok := ex.V.Spec.LockRank[h.Class]
		if h.Class == class {
			ex.lockObl(st, what+class+" while "+h.Class+" is held", tFalse, pos)
			continue
		}
		if ok && hok && hr >= r {
			ex.lockObl(st, "lock order: "+what+class+" while "+h.Class+" is held", tFalse, pos)
		}
		if !ok || !hok {
			ex.lockObl(st, "lock order: "+what+class+" while "+h.Class+" is held (no order declared)", tFalse, pos)
		}
	}
}

// mayAcquire: the function under check must declare what it locks, so that callers can check the order.
func (ex *Exec) mayAcquire(st *State, class, pos string) {
	if ex.Con == nil {
		return
	}
	for _, c := range strings.Fields(ex.Con.Flags["acquires"]) {
		if c == class {
			return
		}
	}
	ex.lockObl(st, "acquires "+class+" without declaring it", tFalse, pos)
}

func (ex *Exec) native(st *State, f *ssa.Function, args []Val, in ssa.Instruction, k Kont) bool {
	if f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" {
		return false
	}
	switch f.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		r := args[0].(Scalar).T
		cl := lockClass(r)
		read := f.Name() == "RLock"
		ex.orderCheck(st, cl, "acquires ", ex.pos(in))
		ex.mayAcquire(st, cl, ex.pos(in))
		st.held = append(append([]Held(nil), st.held...), Held{Ref: r, Class: cl, Read: read})
		ex.acquired(st, r, cl)
		k(st, TupleV{})
		return true
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		ex.unsupported(st, "TryLock")
		k(st, ex.sigResult(st, "try", f.Signature))
		return true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		r := args[0].(Scalar).T
		read := f.Name() == "RUnlock"
		for i := len(st.held) - 1; i >= 0; i-- {
			h := st.held[i]
			if h.Read == read && (same(h.Ref, r) || h.Ref.Op == r.Op && len(r.Args) == 1 && ex.holds(st, mkEq(h.Ref, r), 1000)) {
				ex.releasing(st, h)
				st.held = append(append([]Held(nil), st.held[:i]...), st.held[i+1:]...)
				k(st, TupleV{})
				return true
			}
		}
		if ex.Con != nil && ex.Con.Flags["nopanic"] != "" {
			ex.oblige(st, "nopanic", "unlock of a mutex that is not held: "+ex.srcText(in), ex.Con.NoPanic, tFalse, ex.pos(in), nil, nil)
		}
		ex.lockObl(st, "unlock of a mutex that is not held: "+ex.srcText(in), tFalse, ex.pos(in))
		return true
	}
	return false
}

// acquired: state guarded by a mutex that was released before may have changed since.
func (ex *Exec) acquired(st *State, r *Term, class string) {
	g := ex.V.mutexGuard[class]
	if g == nil || len(r.Args) != 1 {
		return
	}
	base := r.Args[0]
	if st.released[r.String()] {
		t := ex.V.parseType(g.Type, nil)
		if t != nil {
			s := under(t).(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				for _, fn := range g.Fields {
					if s.Field(i).Name() != fn {
						continue
					}
					ft := s.Field(i).Type()
					switch l := ex.fieldLoc(st, base, t, i).(type) {
					case PtrV:
						ex.storeLoc(st, l.Loc, ex.freshVal(st, "relock."+fn, ft))
					case Scalar:
						for _, al := range ex.aggLeaves(st, ft) {
							st.setKey(al.name, SArr(SInt, al.s), al.addr(l.T), ex.fresh("relock."+al.name, al.s))
						}
					}
				}
			}
		}
	}
	env := &Env{ex: ex, st: st, names: map[string]SV{"self": {V: Scalar{base}, T: types.NewPointer(ex.V.parseType(g.Type, nil))}}, pkg: ex.guardPkg(g)}
	for _, c := range g.Inv {
		c := c
		if ex.V.dropped(c) {
			continue
		}
		ex.evalErr("guard invariant", c.Tags, c.Pos, c, func() { st.assume(env.Bool(c.E)) })
	}
}

func (ex *Exec) guardPkg(g *Guard) *types.Package {
	if i := strings.LastIndex(g.Type, "."); i >= 0 {
		if p := ex.V.ByName[g.Type[:i]]; p != nil {
			return p
		}
	}
	return nil
}

func (ex *Exec) releasing(st *State, h Held) {
	if !h.Read {
		if g := ex.V.mutexGuard[h.Class]; g != nil && len(h.Ref.Args) == 1 {
			env := &Env{ex: ex, st: st, names: map[string]SV{"self": {V: Scalar{h.Ref.Args[0]}, T: types.NewPointer(ex.V.parseType(g.Type, nil))}}, pkg: ex.guardPkg(g)}
			for _, c := range g.Inv {
				c := c
				ex.evalErr("guard invariant", c.Tags, c.Pos, c, func() {
					for _, gg := range splitGoal(env.Bool(c.E)) {
						ex.oblige(st, "invariant", "monitor invariant at release: "+c.Label, c.Tags, gg, st.retPos, c, nil)
					}
				})
			}
		}
	}
	nr := map[string]bool{h.Ref.String(): true}
	for k := range st.released {
		nr[k] = true
	}
	st.released = nr
}

func (ex *Exec) lockObl(st *State, label string, goal *Term, pos string) {
	if ex.Con == nil || ex.Con.Flags["locks"] == "" {
		return
	}
	ex.oblige(st, "lock", label, []string{"L01"}, goal, pos, nil, nil)
}

// lockBalance: a function returns with the locks it was entered with.
func (ex *Exec) lockBalance(st *State) {
	if ex.Con == nil || ex.Con.Flags["locks"] == "" {
		return
	}
	goal := tTrue
	if len(st.held) != len(ex.entry.held) {
		goal = tFalse
	} else {
		for i := range st.held {
			if !same(st.held[i].Ref, ex.entry.held[i].Ref) || st.held[i].Read != ex.entry.held[i].Read {
				goal = tFalse
			}
		}
	}
	ex.oblige(st, "lock", "every lock taken is released on return", []string{"L01"}, goal, st.retPos, nil, nil)
}

// assumeLocked records the locks the caller holds.
func (ex *Exec) assumeLocked(st *State, env *Env, c *Contract) {
	for _, l := range c.Locks {
		l := l
		ex.evalErr("locked", []string{"L01"}, l.Pos, l, func() {
			r := env.refOf(l.E, env.Eval(l.E))
			st.held = append(st.held, Held{Ref: r, Class: lockClass(r), Read: l.Kind == "rlocked"})
			ex.acquired(st, r, lockClass(r))
		})
	}
}

// guardCheck: guarded fields are touched only with their mutex held.
func (ex *Exec) guardCheck(st *State, addr Val, write bool, in ssa.Instruction) {
	if ex.Con == nil || ex.Con.Flags["locks"] == "" || ex.quiet > 0 {
		return
	}
	owner, base := "", (*Term)(nil)
	switch p := addr.(type) {
	case PtrV:
		owner = p.Loc.Owner
		base = p.Loc.Ref
		if p.Loc.Kind == "cell" && base != nil && len(base.Args) == 1 {
			base = base.Args[0]
		}
	case Scalar:
		if strings.HasPrefix(p.T.Op, "emb!") {
			owner = strings.TrimPrefix(p.T.Op, "emb!")
			base = p.T.Args[0]
		}
	}
	g := ex.V.guardOf[owner]
	if g == nil || base == nil {
		return
	}
	if isFreshTerm(base, ex.entry) {
		return
	}
	r := embRef(san(g.Type)+"."+san(g.Mu), base)
	if ex.heldRef(st, r, write) {
		return
	}
	if ex.holds(st, mkLe(ex.entry.alloc, mkApp("root", SInt, base)), 500) {
		return
	}
	verb := "read"
	if write {
		verb = "written"
	}
	ex.lockObl(st, fmt.Sprintf("%s is %s only with %s held: %s", owner, verb, g.Mu, ex.srcText(in)), tFalse, ex.pos(in))
}

func (ex *Exec) blockCheck(st *State, in ssa.Instruction, what string) {
	for _, h := range st.held {
		ex.lockObl(st, what+" while "+h.Class+" is held: "+ex.srcText(in), tFalse, ex.pos(in))
	}
}

func (ex *Exec) interfere(st *State, why string) {}

// makeCheck bounds allocations whose size a peer controls.
func (ex *Exec) makeCheck(st *State, n *Term, et types.Type, in ssa.Instruction) {
	if ex.Con == nil || ex.Con.Flags["allocbound"] == "" {
		return
	}
	b, _ := new(big.Int).SetString(ex.Con.Flags["allocbound"], 0)
	if b == nil {
		return
	}
	ex.oblige(st, "nopanic", "allocation is bounded: "+ex.srcText(in), ex.Con.NoPanic, mkLe(n, mkBig(b)), ex.pos(in), nil, nil)
}
