package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- symbolic values ----

type Val interface{}

type Scalar struct{ T *Term }
type SliceV struct{ Arr, Off, Len, Cap *Term }
type IfaceV struct {
	Tag, Data *Term
	Dyn       types.Type // statically known dynamic type
	DynVal    Val
}
type StructV struct{ F []Val }
type ArrayV struct{ L []*Term }
type TupleV []Val
type ClosureV struct {
	Fn   *ssa.Function
	Bind []Val
	Ref  *Term
}
type PtrV struct{ Loc Loc }
type IterV struct {
	Dom0 *Term
	Map  *Term
	T    *types.Map
	Name string
	Str  *Term
}

// Loc is the location of a non-struct, non-array value.
type Loc struct {
	Kind string // field cell elem global
	Map  string // heap map prefix
	T    types.Type
	Ref  *Term
	Idx  *Term
	// for elem: the slice it came from (hint only)
	SOff, SLen, SIdx *Term
	Owner            string // struct type . field, for field locs
}

type Leaf struct {
	Suffix string
	S      Sort
	T      types.Type // basic or reference type for range assumptions; nil if none
}

func qual(p *types.Package) string { return p.Name() }

func typeName(t types.Type) string {
	return san(normType(types.TypeString(types.Unalias(t), qual)))
}

var byteRe = regexp.MustCompile(`(^|[^A-Za-z0-9_.])(byte|rune|any)\b`)

// normType spells predeclared aliases the same way everywhere.
func normType(s string) string {
	return byteRe.ReplaceAllStringFunc(s, func(m string) string {
		for _, p := range [][2]string{{"byte", "uint8"}, {"rune", "int32"}, {"any", "interface{}"}} {
			if strings.HasSuffix(m, p[0]) {
				return strings.TrimSuffix(m, p[0]) + p[1]
			}
		}
		return m
	})
}

var sanCache sync.Map

func san(s string) string {
	if v, ok := sanCache.Load(s); ok {
		return v.(string)
	}
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!':
			sb.WriteRune(c)
		case c == '*':
			sb.WriteString("$p")
		case c == '[':
			sb.WriteString("$l")
		case c == ']':
			sb.WriteString("$r")
		case c == ' ':
			sb.WriteString("_")
		default:
			fmt.Fprintf(&sb, "$%x", c)
		}
	}
	r := sb.String()
	sanCache.Store(s, r)
	return r
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isStruct(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }
func isArray(t types.Type) bool  { _, ok := under(t).(*types.Array); return ok }

// opaque struct types: values without accessible fields are one Int.
func (ex *Exec) opaque(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	if ex.V.Spec.Opaque[n.Obj().Pkg().Path()+"."+n.Obj().Name()] {
		return true
	}
	return false
}

func (ex *Exec) leaves(t types.Type) []Leaf {
	t = types.Unalias(t)
	if ex.opaque(t) {
		return []Leaf{{"", SInt, nil}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", SInt, u}}
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, nil}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SSeq, nil}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", SInt, nil}}
		}
		return []Leaf{{"", SInt, nil}} // floats etc: opaque
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{"", SInt, t}}
	case *types.Slice:
		return []Leaf{{".a", SInt, nil}, {".o", SInt, nil}, {".l", SInt, nil}, {".c", SInt, nil}}
	case *types.Interface:
		return []Leaf{{".t", SInt, nil}, {".d", SInt, nil}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range ex.leaves(u.Field(i).Type()) {
				l.Suffix = "." + san(u.Field(i).Name()) + l.Suffix
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for _, l := range ex.leaves(u.Elem()) {
			out = append(out, Leaf{l.Suffix + "[]", SArr(SInt, l.S), nil})
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, ex.leaves(u.At(i).Type())...)
		}
		return out
	}
	return []Leaf{{"", SInt, nil}}
}

func (ex *Exec) fromLeaves(t types.Type, ls []*Term) Val {
	v, rest := ex.fromLeaves1(t, ls)
	if len(rest) != 0 {
		panic(fmt.Sprintf("fromLeaves: %d left for %v", len(rest), t))
	}
	return v
}

func (ex *Exec) fromLeaves1(t types.Type, ls []*Term) (Val, []*Term) {
	t = types.Unalias(t)
	if ex.opaque(t) {
		return Scalar{ls[0]}, ls[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return SliceV{ls[0], ls[1], ls[2], ls[3]}, ls[4:]
	case *types.Interface:
		return IfaceV{Tag: ls[0], Data: ls[1]}, ls[2:]
	case *types.Struct:
		sv := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ls = ex.fromLeaves1(u.Field(i).Type(), ls)
			sv.F = append(sv.F, v)
		}
		return sv, ls
	case *types.Array:
		n := len(ex.leaves(u.Elem()))
		return ArrayV{ls[:n:n]}, ls[n:]
	case *types.Pointer:
		if ex.ptrScalar(u) {
			return Scalar{ls[0]}, ls[1:]
		}
		return PtrV{Loc{Kind: "cell", Map: "C!" + typeName(u.Elem()), T: u.Elem(), Ref: ls[0]}}, ls[1:]
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			var v Val
			v, ls = ex.fromLeaves1(u.At(i).Type(), ls)
			tv = append(tv, v)
		}
		return tv, ls
	}
	return Scalar{ls[0]}, ls[1:]
}

// ptrScalar: pointers to structs and arrays (and opaque types) are plain refs.
func (ex *Exec) ptrScalar(p *types.Pointer) bool {
	return isStruct(p.Elem()) || isArray(p.Elem())
}

func (ex *Exec) toLeaves(st *State, v Val, t types.Type) []*Term {
	switch v := v.(type) {
	case Scalar:
		return []*Term{v.T}
	case SliceV:
		return []*Term{v.Arr, v.Off, v.Len, v.Cap}
	case IfaceV:
		return []*Term{v.Tag, v.Data}
	case StructV:
		u := under(t).(*types.Struct)
		var out []*Term
		for i := range v.F {
			out = append(out, ex.toLeaves(st, v.F[i], u.Field(i).Type())...)
		}
		return out
	case ArrayV:
		return v.L
	case TupleV:
		u := t.(*types.Tuple)
		var out []*Term
		for i := range v {
			out = append(out, ex.toLeaves(st, v[i], u.At(i).Type())...)
		}
		return out
	case PtrV:
		return []*Term{ex.reify(st, v)}
	case ClosureV:
		return []*Term{v.Ref}
	case IterV:
		return []*Term{v.Map}
	case nil:
		panic("toLeaves(nil) for " + fmt.Sprint(t))
	}
	panic(fmt.Sprintf("toLeaves: %T", v))
}

func (ex *Exec) reify(st *State, p PtrV) *Term {
	switch p.Loc.Kind {
	case "cell":
		return p.Loc.Ref
	case "field":
		// not expected: escaping fields are cells
		ex.unsupported(st, "address of field "+p.Loc.Map+" escapes")
		return ex.fresh("addr", SInt)
	}
	// element or global address escaping: only identity is kept
	ex.unsupported(st, "address of "+p.Loc.Kind+" escapes")
	return ex.fresh("addr", SInt)
}

func zeroTerm(s Sort) *Term {
	switch s {
	case SInt:
		return mkInt(0)
	case SBool:
		return tFalse
	case SSeq:
		return mkLit("")
	}
	if strings.HasPrefix(s, "(Array ") {
		_, r := arrParts(s)
		return mkConstArr(s, zeroTerm(r))
	}
	return mkConst("zero!"+s, s)
}

func (ex *Exec) zeroVal(t types.Type) Val {
	var ls []*Term
	for _, l := range ex.leaves(t) {
		ls = append(ls, zeroTerm(l.S))
	}
	return ex.fromLeaves(t, ls)
}

func (ex *Exec) freshVal(st *State, name string, t types.Type) Val {
	var ls []*Term
	if a, ok := under(t).(*types.Array); ok && isUint8(a.Elem()) {
		name += ".E!uint8"
	}
	for _, l := range ex.leaves(t) {
		ls = append(ls, ex.fresh(name+san(l.Suffix), l.S))
	}
	v := ex.fromLeaves(t, ls)
	ex.assumeType(st, v, t)
	return v
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := uint(64)
	signed := true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32:
		bits = 32
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		signed = false
	}
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, bits-1), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, bits-1))
	} else {
		lo = big.NewInt(0)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
	}
	return lo, hi, true
}

const maxLen = 1 << 47

// initial: t was reached from the arguments through memory as it was at entry, so it was allocated then.
func initial(t *Term) bool {
	if len(t.Args) == 0 {
		return strings.HasPrefix(t.Op, "arg.")
	}
	if t.Op != "select" || len(t.Args) != 2 {
		return false
	}
	h, x := t.Args[0], t.Args[1]
	if len(h.Args) == 0 {
		return strings.HasSuffix(h.Op, "@0") && initial(x)
	}
	return h.Op == "select" && len(h.Args) == 2 && len(h.Args[0].Args) == 0 && strings.HasSuffix(h.Args[0].Op, "@0") && initial(h.Args[1])
}

// bound: the allocation counter that reference r lies below.
func (ex *Exec) bound(st *State, r *Term) *Term {
	if ex.entry != nil && initial(r) {
		return ex.entry.alloc
	}
	return st.alloc
}

// assumeType adds the facts every value of the type satisfies.
func (ex *Exec) assumeType(st *State, v Val, t types.Type) {
	t = types.Unalias(t)
	switch v := v.(type) {
	case Scalar:
		if ex.opaque(t) {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if lo, hi, ok := intRange(t); ok && v.T.I == nil {
				st.assume(mkAnd(mkLe(mkBig(lo), v.T), mkLe(v.T, mkBig(hi))))
			}
			if u.Info()&types.IsString != 0 && !isLit(v.T) {
				st.assume(mkLe(mkApp("len", SInt, v.T), mkInt(maxLen)))
			}
		case *types.Pointer, *types.Map, *types.Chan:
			if v.T.I == nil {
				st.assume(mkAnd(mkLt(mkApp("root", SInt, v.T), ex.bound(st, v.T)), mkLe(mkInt(0), mkApp("root", SInt, v.T))))
				st.assume(mkImp(mkEq(mkApp("root", SInt, v.T), mkInt(0)), mkEq(v.T, mkInt(0))))
			}
		}
	case PtrV:
		if v.Loc.Kind == "cell" && v.Loc.Ref.I == nil {
			r := v.Loc.Ref
			st.assume(mkAnd(mkLt(mkApp("root", SInt, r), ex.bound(st, r)), mkLe(mkInt(0), mkApp("root", SInt, r))))
		}
	case SliceV:
		if v.Len.I != nil && v.Cap.I != nil {
			return
		}
		st.assume(mkAnd(mkLe(mkInt(0), v.Off), mkLe(mkInt(0), v.Len), mkLe(v.Len, v.Cap), mkLe(v.Cap, mkInt(maxLen)), mkLe(v.Off, mkInt(maxLen)),
			mkLt(mkApp("root", SInt, v.Arr), ex.bound(st, v.Arr)), mkLe(mkInt(0), mkApp("root", SInt, v.Arr)),
			mkImp(mkEq(v.Arr, mkInt(0)), mkEq(v.Cap, mkInt(0)))))
	case IfaceV:
		if v.Tag.I == nil {
			st.assume(mkAnd(mkLe(mkInt(0), v.Tag), mkImp(mkEq(v.Tag, mkInt(0)), mkEq(v.Data, mkInt(0)))))
			st.assume(mkLt(mkApp("root", SInt, v.Data), ex.bound(st, v.Data)))
		}
	case StructV:
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := range v.F {
			ex.assumeType(st, v.F[i], u.Field(i).Type())
		}
	case TupleV:
		u := t.(*types.Tuple)
		for i := range v {
			ex.assumeType(st, v[i], u.At(i).Type())
		}
	}
}

// ---- path condition and state ----

type PC struct {
	t      *Term
	parent *PC
	n      int
	src    string // the candidate invariant this fact comes from, if it is a template instance
}

type Held struct {
	Ref   *Term
	Class string
	Read  bool
}

type Frame struct {
	fn     *ssa.Function
	locals map[ssa.Value]Val
	defers []*ssa.Defer
	dvals  [][]Val
	id     int
	loops  []*loopCtx
	call   ssa.Instruction
}

type loopCtx struct {
	count  int
	li     *LoopInfo
	mode   string // infer final
	frame  int
	onBack func(st *State, from *ssa.BasicBlock)
}

type State struct {
	ex     *Exec
	heap   map[string]*Term
	base   string
	assuming string
	pc     *PC
	frames []*Frame
	alloc  *Term
	held   []Held
	facts  map[string]bool
	wlog   *wnode
	tr     *trnode
	retPos string
	iters  []string
	allWrites bool
	volatile map[string]bool
	released map[string]bool
}

func (st *State) clone() *State {
	n := &State{ex: st.ex, base: st.base, pc: st.pc, alloc: st.alloc, wlog: st.wlog, tr: st.tr, retPos: st.retPos, iters: st.iters, allWrites: st.allWrites, volatile: st.volatile, released: st.released}
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.facts = make(map[string]bool, len(st.facts))
	for k := range st.facts {
		n.facts[k] = true
	}
	n.held = append([]Held(nil), st.held...)
	for _, f := range st.frames {
		nf := &Frame{fn: f.fn, id: f.id, call: f.call}
		nf.locals = make(map[ssa.Value]Val, len(f.locals))
		for k, v := range f.locals {
			nf.locals[k] = v
		}
		nf.defers = append([]*ssa.Defer(nil), f.defers...)
		nf.dvals = append([][]Val(nil), f.dvals...)
		nf.loops = append([]*loopCtx(nil), f.loops...)
		n.frames = append(n.frames, nf)
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(t *Term) {
	if t == nil || isTrue(t) {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	k := t.String()
	if st.facts[k] {
		return
	}
	st.facts[k] = true
	n := 0
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &PC{t, st.pc, n, st.assuming}
	if f := rowFact(t); f != nil {
		st.assume(f)
	}
}

// lightAsserts leaves out the quantified template invariants other than those of keep.
func (st *State) lightAsserts(keep string) ([]*Term, bool) {
	var out []*Term
	less := false
	for p := st.pc; p != nil; p = p.parent {
		if p.src != "" && p.src != keep && quantified(p.t) {
			less = true
			continue
		}
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out, less
}

func (st *State) asserts() []*Term {
	var out []*Term
	for p := st.pc; p != nil; p = p.parent {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// get returns the current term of a heap map.
func (st *State) get(name string, s Sort) *Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	t := mkConst(name+"@"+st.base, s)
	st.heap[name] = t
	st.ex.sorts[name] = s
	return t
}

// sel reads through known store definitions where that is syntactically decided.
func (st *State) sel(a, i *Term) *Term {
	for n := 0; n < 50; n++ {
		d := a
		if len(a.Args) == 0 {
			if x, ok := st.ex.defs[a.Op]; ok {
				d = x
			}
		}
		if d.Op != "store" {
			break
		}
		if same(d.Args[1], i) {
			return d.Args[2]
		}
		if distinctRefs(d.Args[1], i) {
			a = d.Args[0]
			continue
		}
		break
	}
	return mkSelect(a, i)
}

// distinctRefs: syntactically different allocations or literals.
func distinctRefs(a, b *Term) bool {
	if a.I != nil && b.I != nil {
		return a.I.Cmp(b.I) != 0
	}
	ba, oa, ka := baseOff(a)
	bb, ob, kb := baseOff(b)
	return ka && kb && ba == bb && oa.Cmp(ob) != 0
}

func baseOff(t *Term) (string, *big.Int, bool) {
	if t.I != nil {
		return "", t.I, true
	}
	if len(t.Args) == 0 {
		return t.Op, big.NewInt(0), true
	}
	if t.Op == "+" && len(t.Args) == 2 && len(t.Args[0].Args) == 0 && t.Args[0].I == nil && t.Args[1].I != nil {
		return t.Args[0].Op, t.Args[1].I, true
	}
	return "", nil, false
}

func (st *State) newRef() *Term {
	r := st.alloc
	st.alloc = mkAdd(st.alloc, mkInt(1))
	st.assume(mkEq(mkApp("root", SInt, r), r))
	st.assume(mkEq(mkApp("refkind", SInt, r), mkInt(0)))
	st.logWrite("alloc", nil)
	return r
}

// ---- derived references ----

var refKinds = struct {
	sync.Mutex
	m map[string]int
}{m: map[string]int{}}

func embRef(owner string, base *Term) *Term {
	fn := "emb!" + owner
	refKinds.Lock()
	id, ok := refKinds.m[fn]
	if !ok {
		id = len(refKinds.m) + 1
		refKinds.m[fn] = id
		reg.Func(fn, SInt, SInt)
		reg.Axiom("memory model", fmt.Sprintf("(assert (forall ((x Int)) (! (and (= (root (%[1]s x)) (root x)) (= (refbase (%[1]s x)) x) (= (refkind (%[1]s x)) %[2]d) (not (= (%[1]s x) 0))) :pattern ((%[1]s x)))))", fn, id), fn)
	}
	refKinds.Unlock()
	return mkApp(fn, SInt, base)
}

func elemRef(etype string, arr, idx *Term) *Term {
	fn := "elt!" + etype
	refKinds.Lock()
	id, ok := refKinds.m[fn]
	if !ok {
		id = len(refKinds.m) + 1
		refKinds.m[fn] = id
		reg.Func(fn, SInt, SInt, SInt)
		reg.Func("refidx", SInt, SInt)
		reg.Axiom("memory model", fmt.Sprintf("(assert (forall ((x Int) (i Int)) (! (and (= (root (%[1]s x i)) (root x)) (= (refbase (%[1]s x i)) x) (= (refidx (%[1]s x i)) i) (= (refkind (%[1]s x i)) %[2]d) (not (= (%[1]s x i) 0))) :pattern ((%[1]s x i)))))", fn, id), fn)
	}
	refKinds.Unlock()
	return mkApp(fn, SInt, arr, idx)
}

var typeTags = struct {
	sync.Mutex
	m map[string]int
	t map[int]types.Type
}{m: map[string]int{}, t: map[int]types.Type{}}

func typeTag(t types.Type) *Term {
	k := normType(types.TypeString(types.Unalias(t), nil))
	typeTags.Lock()
	defer typeTags.Unlock()
	id, ok := typeTags.m[k]
	if !ok {
		id = len(typeTags.m) + 1
		typeTags.m[k] = id
		typeTags.t[id] = t
	}
	return mkInt(int64(id))
}

// box encodes a multi-leaf value as one Int.
func (ex *Exec) box(st *State, t types.Type, ls []*Term) *Term {
	if len(ls) == 1 && ls[0].S == SInt {
		if _, ok := under(t).(*types.Pointer); ok {
			return ls[0]
		}
	}
	name := "box!" + typeName(t)
	var sorts []Sort
	for _, l := range ls {
		sorts = append(sorts, l.S)
	}
	if reg.Fn(name) == nil {
		boxMu.Lock()
		if reg.Fn(name) == nil {
			var qs, args []string
			for i, s := range sorts {
				qs = append(qs, fmt.Sprintf("(x%d %s)", i, s))
				args = append(args, fmt.Sprintf("x%d", i))
			}
			app := "(" + name + " " + strings.Join(args, " ") + ")"
			if len(sorts) == 0 {
				app = name
			}
			body := "(and"
			for i, s := range sorts {
				un := fmt.Sprintf("un%s!%d", name, i)
				reg.Func(un, s, SInt)
				body += fmt.Sprintf(" (= (%s %s) x%d)", un, app, i)
			}
			body += fmt.Sprintf(" (= (root %s) 0))", app)
			if len(sorts) > 0 {
				reg.Axiom("boxing", fmt.Sprintf("(assert (forall (%s) (! %s :pattern (%s))))", strings.Join(qs, " "), body, app), name)
			}
			reg.Func(name, SInt, sorts...)
		}
		boxMu.Unlock()
	}
	return mkApp(name, SInt, ls...)
}

var boxMu sync.Mutex

func (ex *Exec) unbox(st *State, t types.Type, d *Term) Val {
	ls := ex.leaves(t)
	if len(ls) == 1 && ls[0].S == SInt {
		if _, ok := under(t).(*types.Pointer); ok {
			return ex.fromLeaves(t, []*Term{d})
		}
	}
	// make sure the box functions exist
	var dummy []*Term
	for _, l := range ls {
		dummy = append(dummy, mkConst("dummy", l.S))
	}
	ex.box(st, t, dummy)
	var out []*Term
	for i, l := range ls {
		out = append(out, mkApp(fmt.Sprintf("unbox!%s!%d", typeName(t), i), l.S, d))
	}
	return ex.fromLeaves(t, out)
}

// ---- loads and stores ----

func fieldOwner(t types.Type, i int) string {
	st := under(t).(*types.Struct)
	return typeName(t) + "." + san(st.Field(i).Name())
}

func (ex *Exec) fieldLoc(st *State, base *Term, structT types.Type, i int) Val {
	stt := under(structT).(*types.Struct)
	ft := stt.Field(i).Type()
	owner := fieldOwner(structT, i)
	if (isStruct(ft) && !ex.opaque(ft)) || isArray(ft) || ex.opaque(ft) && isStruct(ft) {
		return Scalar{embRef(owner, base)}
	}
	if ex.V.Escaping[owner] {
		return PtrV{Loc{Kind: "cell", Map: "C!" + typeName(ft), T: ft, Ref: embRef(owner, base), Owner: owner}}
	}
	return PtrV{Loc{Kind: "field", Map: "F!" + owner, T: ft, Ref: base, Owner: owner}}
}

// load reads the value of type t at pointer p.
func (ex *Exec) load(st *State, p Val, t types.Type) Val {
	switch p := p.(type) {
	case Scalar:
		if ex.opaque(t) {
			return Scalar{st.sel(st.get("C!"+typeName(t), SArr(SInt, SInt)), p.T)}
		}
		switch u := under(t).(type) {
		case *types.Struct:
			sv := StructV{}
			for i := 0; i < u.NumFields(); i++ {
				sv.F = append(sv.F, ex.load(st, ex.fieldLoc(st, p.T, t, i), u.Field(i).Type()))
			}
			return sv
		case *types.Array:
			var ls []*Term
			for _, l := range ex.elemMaps(u.Elem()) {
				ls = append(ls, st.sel(st.get(l.Suffix, SArr(SInt, SArr(SInt, l.S))), p.T))
			}
			if isStruct(u.Elem()) || isArray(u.Elem()) {
				// nested aggregates: value read is opaque
				ls = nil
				for _, l := range ex.leaves(t) {
					ls = append(ls, ex.fresh("aggr", l.S))
				}
			}
			return ArrayV{ls}
		}
	case PtrV:
		return ex.loadLoc(st, p.Loc)
	}
	panic(fmt.Sprintf("load: %T of %v", p, t))
}

// elemMaps lists the element memory maps for an element type: Suffix is the heap map name.
func (ex *Exec) elemMaps(et types.Type) []Leaf {
	var out []Leaf
	for _, l := range ex.leaves(et) {
		out = append(out, Leaf{"E!" + elemName(et) + l.Suffix, l.S, l.T})
	}
	return out
}

func elemName(et types.Type) string {
	if b, ok := under(et).(*types.Basic); ok {
		return san(types.Typ[b.Kind()].Name())
	}
	return typeName(et)
}

func (ex *Exec) loadLoc(st *State, l Loc) Val {
	if l.Kind == "cell" && st.volatile[l.Ref.String()] {
		return ex.freshVal(st, "shared", l.T)
	}
	var ts []*Term
	for _, lf := range ex.leaves(l.T) {
		var t *Term
		switch l.Kind {
		case "field", "cell":
			t = st.sel(st.get(l.Map+lf.Suffix, SArr(SInt, lf.S)), l.Ref)
		case "elem":
			row := st.sel(st.get(l.Map+lf.Suffix, SArr(SInt, SArr(SInt, lf.S))), l.Ref)
			t = st.sel(row, l.Idx)
			if lf.S == SInt && l.SLen != nil && row.S == SArr(SInt, SInt) && l.T != nil {
				if b, ok := under(l.T).(*types.Basic); ok && b.Kind() == types.Uint8 {
					st.assume(mkEq(mkApp("at", SInt, mkMk(row, l.SOff, l.SLen), l.SIdx), t))
				}
			}
		case "global":
			t = st.get(l.Map+lf.Suffix, lf.S)
		}
		ts = append(ts, t)
	}
	v := ex.fromLeaves(l.T, ts)
	ex.assumeType(st, v, l.T)
	return v
}

func (ex *Exec) store(st *State, p Val, t types.Type, v Val) {
	switch p := p.(type) {
	case Scalar:
		if ex.opaque(t) {
			st.setKey("C!"+typeName(t), SArr(SInt, SInt), p.T, v.(Scalar).T)
			return
		}
		switch u := under(t).(type) {
		case *types.Struct:
			sv := v.(StructV)
			for i := 0; i < u.NumFields(); i++ {
				if isBlankNoCopy(u.Field(i)) {
					continue
				}
				ex.store(st, ex.fieldLoc(st, p.T, t, i), u.Field(i).Type(), sv.F[i])
			}
			return
		case *types.Array:
			if isStruct(u.Elem()) || isArray(u.Elem()) {
				av := v.(ArrayV)
				zero := true
				for _, l := range av.L {
					if l.Op != "constarr" {
						zero = false
					}
				}
				if zero && u.Len() <= 64 {
					for i := int64(0); i < u.Len(); i++ {
						ex.store(st, Scalar{elemRef(elemName(u.Elem()), p.T, mkInt(i))}, u.Elem(), ex.zeroVal(u.Elem()))
					}
					return
				}
				ex.unsupported(st, "store of nested aggregate array")
				return
			}
			av := v.(ArrayV)
			for i, l := range ex.elemMaps(u.Elem()) {
				st.setKey(l.Suffix, SArr(SInt, SArr(SInt, l.S)), p.T, av.L[i])
			}
			return
		}
	case PtrV:
		ex.storeLoc(st, p.Loc, v)
		return
	}
	panic(fmt.Sprintf("store: %T of %v", p, t))
}

func isBlankNoCopy(f *types.Var) bool { return false }

func (ex *Exec) storeLoc(st *State, l Loc, v Val) {
	ts := ex.toLeaves(st, v, l.T)
	for i, lf := range ex.leaves(l.T) {
		name := l.Map + lf.Suffix
		switch l.Kind {
		case "field", "cell":
			st.setKey(name, SArr(SInt, lf.S), l.Ref, ts[i])
		case "elem":
			m := st.get(name, SArr(SInt, SArr(SInt, lf.S)))
			row := st.sel(m, l.Ref)
			st.setKey(name, m.S, l.Ref, ex.nameRow(st, mkStore(row, l.Idx, ts[i])))
		case "global":
			st.setAll(name, ts[i])
		}
	}
}

// nameRow names a row term so that later terms stay small.
func (ex *Exec) nameRow(st *State, t *Term) *Term {
	if len(t.Args) == 0 {
		return t
	}
	c := ex.fresh("row", t.S)
	st.assume(mkApp("=", SBool, c, t))
	if t.Op == "store" {
		ex.defs[c.Op] = t
	}
	return c
}

func mkMk(row, off, n *Term) *Term {
	if n.I != nil && n.I.Sign() == 0 {
		return mkLit("")
	}
	return mkApp("mk", SSeq, row, off, n)
}

// row returns the current backing row of a slice of simple elements.
func (ex *Exec) row(st *State, et types.Type, leaf int, arr *Term) *Term {
	l := ex.elemMaps(et)[leaf]
	return st.sel(st.get(l.Suffix, SArr(SInt, SArr(SInt, l.S))), arr)
}

func (ex *Exec) bytesOf(st *State, s SliceV) *Term {
	return mkMk(ex.row(st, types.Typ[types.Uint8], 0, s.Arr), s.Off, s.Len)
}

// mkIdx is off+i as an index of a slice with elements of type et. A symbolic
// offset stays apart from the index, so that quantified facts over the elements
// have a pattern to match; bytes are viewed as sequences instead.
func mkIdx(et types.Type, off, i *Term) *Term {
	if b, ok := under(et).(*types.Basic); ok && b.Kind() == types.Uint8 || off.I != nil {
		return mkAdd(off, i)
	}
	if off.Op == "+" && len(off.Args) == 2 && off.Args[1].I != nil {
		return mkIdx(et, off.Args[0], mkAdd(i, off.Args[1]))
	}
	return mkApp("add!", SInt, off, i)
}
