package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Kont continues after a call returns.
type Kont func(st *State, res Val)

type Obligation struct {
	Func   string
	Kind   string // ensures nopanic requires frame lock invariant vacuity
	Label  string
	Tags   []string
	Pos    string
	Q      *Query
	V      Verdict
	Clause *Clause
	Con    *Contract // contract whose requires is checked
	Err    string
	Trace  []string
	wg     *sync.WaitGroup
	Nanos  int64
	pkg    string
}

type Exec struct {
	V          *Verifier
	Fn         *ssa.Function
	Con        *Contract
	sorts      map[string]Sort
	defs       map[string]*Term
	n          int
	symN       map[string]int
	Obls       []*Obligation
	quiet      int
	dry        int
	seen       map[string]bool
	entry      *State
	args       []Val
	wg         sync.WaitGroup
	paths      int
	unsup      map[string]bool
	used       map[*Contract]bool // contracts assumed at calls
	inl        map[*ssa.Function]bool
	deadline   time.Time
	aborted    string
	feasCache  map[string]bool
	lostCands  map[string]map[string]bool
	returns    int
	liveReturn bool
	canaries   atomic.Int64
	frameID    int
	loopInfo   map[*ssa.Function]map[*ssa.BasicBlock]*LoopInfo
	steps      int
	invCache   map[string]map[string]bool
	droppedInv map[string]bool
	root       *Kont
	hints      []hint
	entryNames map[string]SV
	vis        []string
	closures   map[string]ClosureV
}

type hint struct {
	name string
	term *Term
}

var fastMS = 150

func newExec(v *Verifier, fn *ssa.Function, c *Contract) *Exec {
	return &Exec{V: v, Fn: fn, Con: c, sorts: map[string]Sort{}, defs: map[string]*Term{}, symN: map[string]int{}, seen: map[string]bool{}, unsup: map[string]bool{},
		used: map[*Contract]bool{}, inl: map[*ssa.Function]bool{}, feasCache: map[string]bool{}, lostCands: map[string]map[string]bool{}, loopInfo: map[*ssa.Function]map[*ssa.BasicBlock]*LoopInfo{}, droppedInv: map[string]bool{}}
}

func (ex *Exec) fresh(name string, s Sort) *Term {
	ex.n++
	c := mkConst(fmt.Sprintf("%s!%d", san(name), ex.n), s)
	ex.symN[c.Op] = ex.n
	return c
}

func (ex *Exec) unsupported(st *State, msg string) {
	if ex.quiet == 0 {
		ex.unsup[msg] = true
	}
}

func (ex *Exec) globalRef(name string) *Term {
	ex.V.mu.Lock()
	defer ex.V.mu.Unlock()
	id, ok := ex.V.globalsRef[name]
	if !ok {
		id = len(ex.V.globalsRef) + 1
		ex.V.globalsRef[name] = id
	}
	return mkInt(int64(-id))
}

// ---- write log ----

type wnode struct {
	name string
	key  *Term // nil: whole map
	prev *wnode
}

func (st *State) logWrite(name string, key *Term) {
	st.wlog = &wnode{name, key, st.wlog}
}

func (st *State) writesSince(mark *wnode) map[string]*WS {
	out := map[string]*WS{}
	for n := st.wlog; n != nil && n != mark; n = n.prev {
		w := out[n.name]
		if w == nil {
			w = &WS{keys: map[string]*Term{}}
			out[n.name] = w
		}
		if n.key == nil {
			w.full = true
		} else {
			w.keys[n.key.String()] = n.key
		}
	}
	return out
}

type WS struct {
	full bool
	keys map[string]*Term
}

// setKey updates one entry of a heap map.
func (st *State) setKey(name string, s Sort, key, val *Term) {
	m := st.get(name, s)
	st.logWrite(name, key)
	st.put(name, mkStore(m, key, val))
}

func (st *State) setAll(name string, t *Term) {
	st.logWrite(name, nil)
	st.put(name, t)
}

func (st *State) put(name string, t *Term) {
	st.ex.sorts[name] = t.S
	if len(t.Args) > 0 && t.Op != "constarr" {
		c := st.ex.fresh(name, t.S)
		st.assume(mkApp("=", SBool, c, t))
		if t.Op == "store" {
			st.ex.defs[c.Op] = t
		}
		t = c
	}
	st.heap[name] = t
}

// ---- positions ----

func (ex *Exec) pos(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		if v, ok := in.(*ssa.If); ok {
			p = v.Cond.Pos()
		}
	}
	if !p.IsValid() {
		return in.Parent().Name()
	}
	x := ex.V.Fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(x.Filename), x.Line)
}

func (ex *Exec) srcText(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		return ""
	}
	x := ex.V.Fset.Position(p)
	return srcLine(x.Filename, x.Line)
}

var srcCache sync.Map

func srcLine(file string, line int) string {
	var ls []string
	if v, ok := srcCache.Load(file); ok {
		ls = v.([]string)
	} else {
		d, _ := os.ReadFile(file)
		ls = strings.Split(string(d), "\n")
		srcCache.Store(file, ls)
	}
	if line > 0 && line <= len(ls) {
		return strings.TrimSpace(ls[line-1])
	}
	return ""
}

// ---- obligations ----

func (ex *Exec) oblige(st *State, kind, label string, tags []string, goal *Term, pos string, cl *Clause, con *Contract) {
	if ex.quiet > 0 || ex.aborted != "" {
		return
	}
	o := &Obligation{Func: ex.fname(), Kind: kind, Label: label, Tags: tags, Pos: pos, Clause: cl, Con: con}
	ex.Obls = append(ex.Obls, o)
	if isTrue(goal) {
		o.V = Verdict{Proved: true, By: "simplifier"}
		return
	}
	q := &Query{Asserts: st.asserts(), Goal: goal}
	o.Q = q
	text := q.Build()
	o.Trace = st.trace()
	light := ""
	if las, less := st.lightAsserts(""); less && kind != "ensures" {
		light = (&Query{Asserts: las, Goal: goal}).Build()
	}
	ex.wg.Add(1)
	go func() {
		defer ex.wg.Done()
		t0 := time.Now()
		if light != "" && quickProve(light, 1000) {
			o.V = Verdict{Proved: true, By: "z3"}
			o.Nanos = int64(time.Since(t0))
			o.Q = nil
			return
		}
		o.V = proveText(text)
		o.Nanos = int64(time.Since(t0))
		if o.V.Proved {
			o.Q = nil
		} else if f := ex.V.OnFail; f != nil {
			f(o)
		}
	}()
}

var proofCache sync.Map

func proveText(text string) Verdict {
	if v, ok := proofCache.Load(text); ok {
		return v.(Verdict)
	}
	v := ProveText(text, true)
	if v.Proved {
		proofCache.Store(text, v)
	}
	return v
}

func (ex *Exec) fname() string {
	f := ex.Fn
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name() + "." + f.RelString(f.Pkg.Pkg)
	}
	return f.String()
}

func (st *State) trace() []string {
	var out []string
	for n := st.tr; n != nil; n = n.prev {
		out = append(out, n.s)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type trnode struct {
	s    string
	prev *trnode
}

// panics: the condition ok must hold for the instruction not to panic.
func (ex *Exec) nopanic(st *State, ok *Term, what string, in ssa.Instruction) {
	if isTrue(ok) {
		return
	}
	if ex.Con != nil && ex.Con.Flags["nopanic"] != "" {
		ex.oblige(st, "nopanic", what, ex.Con.NoPanic, ok, ex.pos(in), nil, nil)
	}
	st.assume(ok)
}

// feasible asks whether the path can continue under c.
func (ex *Exec) feasible(st *State, c *Term) bool {
	if isTrue(c) {
		return true
	}
	if isFalse(c) {
		return false
	}
	if st.facts[mkNot(c).String()] {
		return false
	}
	if st.facts[c.String()] {
		return true
	}
	q := &Query{Asserts: append(st.asserts(), c)}
	text := q.Build()
	if v, ok := ex.feasCache[text]; ok {
		return v
	}
	r := ask(text, fastMS, false) != "unsat"
	if !r && os.Getenv("GV_INFEAS") != "" {
		os.WriteFile(fmt.Sprintf("%s/inf_%d.smt2", os.Getenv("GV_INFEAS"), len(ex.feasCache)), []byte(text), 0o644)
	}
	ex.feasCache[text] = r
	return r
}

// holds is a quick, incomplete entailment check.
func (ex *Exec) holds(st *State, c *Term, ms int) bool {
	if isTrue(c) {
		return true
	}
	if isFalse(c) {
		return false
	}
	if st.facts[c.String()] {
		return true
	}
	q := &Query{Asserts: st.asserts(), Goal: c}
	text := q.Build()
	if v, ok := ex.feasCache[text]; ok {
		return v
	}
	t0 := time.Now()
	r := ask(text, ms, false) == "unsat"
	if d := time.Since(t0); d > 300*time.Millisecond && os.Getenv("GV_SLOW") != "" {
		fmt.Fprintln(os.Stderr, "holds", d, r, clip(c.String()))
	}
	ex.feasCache[text] = r
	return r
}

// holdsQF is holds without quantified facts and axioms: fast and decided.
func (ex *Exec) holdsQF(st *State, c *Term) bool {
	if isTrue(c) || st.facts[c.String()] {
		return true
	}
	if isFalse(c) {
		return false
	}
	q := &Query{Asserts: st.asserts(), Goal: c, NoAx: true}
	text := q.Build()
	if v, ok := ex.feasCache[text]; ok {
		return v
	}
	r := ask(text, fastMS, false) == "unsat"
	ex.feasCache[text] = r
	return r
}

// decide finds out whether the path settles c.
func (ex *Exec) decide(st *State, c *Term, ms int) (val, known bool) {
	switch {
	case ex.holdsQF(st, c):
		return true, true
	case ex.holdsQF(st, mkNot(c)):
		return false, true
	case ex.holds(st, c, ms):
		return true, true
	case ex.holds(st, mkNot(c), ms):
		return false, true
	}
	return false, false
}

// ---- running ----

func (ex *Exec) abort(msg string) {
	if ex.aborted == "" {
		ex.aborted = msg
	}
}

func (ex *Exec) run(st *State, b, prev *ssa.BasicBlock, k Kont) {
	if ex.aborted != "" {
		return
	}
	f := st.top()
	// leave loops
	for len(f.loops) > 0 {
		lc := f.loops[len(f.loops)-1]
		if lc.li.Body[b] {
			break
		}
		if lc.mode != "final" && lc.mode != "unroll" {
			return // only the loop body is of interest
		}
		f.loops = f.loops[:len(f.loops)-1]
	}
	li := ex.loopsOf(f.fn)[b]
	if li != nil {
		if len(f.loops) > 0 && f.loops[len(f.loops)-1].li == li {
			lc := f.loops[len(f.loops)-1]
			if lc.mode == "unroll" {
				lc2 := *lc
				lc2.count++
				f.loops[len(f.loops)-1] = &lc2
				if lc2.count > 40 {
					f.loops = f.loops[:len(f.loops)-1]
					ex.enterLoop(st, li, prev, k)
					return
				}
				ex.phis(st, b, prev)
				ex.steps1(st, b, ex.firstNonPhi(b), k)
				return
			}
			lc.onBack(st, prev)
			return
		}
		ex.enterLoop(st, li, prev, k)
		return
	}
	ex.phis(st, b, prev)
	ex.steps1(st, b, ex.firstNonPhi(b), k)
}

func (ex *Exec) firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

func (ex *Exec) phiVals(st *State, b, prev *ssa.BasicBlock) map[*ssa.Phi]Val {
	out := map[*ssa.Phi]Val{}
	i := predIndex(b, prev)
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out[p] = ex.value(st, p.Edges[i])
	}
	return out
}

func (ex *Exec) phis(st *State, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	vals := ex.phiVals(st, b, prev)
	for p, v := range vals {
		st.top().locals[p] = v
	}
}

// value evaluates an SSA operand.
func (ex *Exec) value(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return ex.zeroVal(v.Type())
		}
		return constVal(ex, v.Value, v.Type())
	case *ssa.Global:
		t := v.Type().(*types.Pointer).Elem()
		name := "G!" + san(v.Pkg.Pkg.Path()+"."+v.Name())
		if isStruct(t) || isArray(t) {
			return Scalar{ex.globalRef(name)}
		}
		return PtrV{Loc{Kind: "global", Map: name, T: t}}
	case *ssa.Function:
		return ClosureV{Fn: v, Ref: mkConst("fn!"+san(v.String()), SInt)}
	case *ssa.Builtin:
		return Scalar{mkInt(0)}
	}
	f := st.top()
	if x, ok := f.locals[v]; ok {
		return x
	}
	panic(fmt.Sprintf("no value for %s in %s", v.Name(), f.fn))
}

func (ex *Exec) steps1(st *State, b *ssa.BasicBlock, i int, k Kont) {
	for ; i < len(b.Instrs); i++ {
		ex.steps++
		if ex.steps > 400000 {
			ex.abort("step limit exceeded")
		}
		if !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
			ex.abort("time limit exceeded")
		}
		if ex.aborted != "" {
			return
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.If:
			ex.doIf(st, b, in, k)
			return
		case *ssa.Jump:
			ex.run(st, b.Succs[0], b, k)
			return
		case *ssa.Return:
			var res Val
			switch len(in.Results) {
			case 0:
				res = TupleV{}
			case 1:
				res = ex.value(st, in.Results[0])
			default:
				tv := TupleV{}
				for _, r := range in.Results {
					tv = append(tv, ex.value(st, r))
				}
				res = tv
			}
			st.retPos = ex.pos(in)
			k(st, res)
			return
		case *ssa.Panic:
			ex.nopanic(st, tFalse, "panic is unreachable: "+ex.srcText(in), in)
			return
		case *ssa.Call:
			next := i + 1
			ex.call(st, &in.Call, in, func(st *State, res Val) {
				st.top().locals[in] = res
				ex.steps1(st, b, next, k)
			})
			return
		case *ssa.Defer:
			f := st.top()
			vals := ex.callVals(st, &in.Call)
			f.defers = append(f.defers, in)
			f.dvals = append(f.dvals, vals)
		case *ssa.RunDefers:
			next := i + 1
			ex.runDefers(st, func(st *State, _ Val) { ex.steps1(st, b, next, k) })
			return
		case *ssa.Go:
			ex.doGo(st, in)
		case *ssa.Select:
			next := i + 1
			ex.doSelect(st, in, func(st *State) { ex.steps1(st, b, next, k) })
			return
		case *ssa.TypeAssert:
			next := i + 1
			ex.doTypeAssert(st, in, func(st *State, v Val) {
				st.top().locals[in] = v
				ex.steps1(st, b, next, k)
			})
			return
		case *ssa.Next:
			next := i + 1
			ex.doNext(st, in, func(st *State, v Val) {
				st.top().locals[in] = v
				ex.steps1(st, b, next, k)
			})
			return
		default:
			if !ex.simple(st, in) {
				return
			}
		}
	}
}

func (ex *Exec) runDefers(st *State, k Kont) {
	f := st.top()
	n := len(f.defers)
	if n == 0 {
		k(st, nil)
		return
	}
	d, vals := f.defers[n-1], f.dvals[n-1]
	f.defers = f.defers[:n-1]
	f.dvals = f.dvals[:n-1]
	ex.callWith(st, &d.Call, d, vals, func(st *State, _ Val) { ex.runDefers(st, k) })
}

func (ex *Exec) doIf(st *State, b *ssa.BasicBlock, in *ssa.If, k Kont) {
	c := ex.value(st, in.Cond).(Scalar).T
	if isTrue(c) || st.facts[c.String()] {
		ex.run(st, b.Succs[0], b, k)
		return
	}
	nc := mkNot(c)
	if isFalse(c) || st.facts[nc.String()] {
		ex.run(st, b.Succs[1], b, k)
		return
	}
	ft := ex.feasible(st, c)
	ff := true
	if ft {
		ff = ex.feasible(st, nc)
	}
	if ft && ff {
		ex.paths++
		if ex.paths > 6000 {
			ex.abort("path limit exceeded")
			return
		}
		s2 := st.clone()
		st.assume(c)
		st.tr = &trnode{ex.pos(in) + " taken: " + clip(ex.srcAt(in)), st.tr}
		ex.run(st, b.Succs[0], b, k)
		s2.assume(nc)
		s2.tr = &trnode{ex.pos(in) + " not taken: " + clip(ex.srcAt(in)), s2.tr}
		ex.run(s2, b.Succs[1], b, k)
		return
	}
	if ft {
		st.assume(c)
		ex.run(st, b.Succs[0], b, k)
		return
	}
	st.assume(nc)
	ex.run(st, b.Succs[1], b, k)
}

func clip(s string) string {
	if len(s) > 90 {
		return s[:90] + "..."
	}
	return s
}

func (ex *Exec) srcAt(in *ssa.If) string {
	p := in.Cond.Pos()
	if !p.IsValid() {
		return ""
	}
	x := ex.V.Fset.Position(p)
	return srcLine(x.Filename, x.Line)
}

// simple executes an instruction that neither branches nor calls. It returns false if the path ends.
func (ex *Exec) simple(st *State, in ssa.Instruction) bool {
	f := st.top()
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		f.locals[in] = ex.alloc(st, t)
	case *ssa.Phi:
		panic("phi in the middle of a block")
	case *ssa.Store:
		addr := ex.value(st, in.Addr)
		v := ex.value(st, in.Val)
		ex.nilCheck(st, addr, in)
		ex.guardCheck(st, addr, true, in)
		ex.store(st, addr, in.Addr.Type().Underlying().(*types.Pointer).Elem(), v)
	case *ssa.UnOp:
		return ex.unop(st, in)
	case *ssa.BinOp:
		f.locals[in] = ex.binop(st, in)
	case *ssa.FieldAddr:
		base := ex.value(st, in.X).(Scalar).T
		ex.nilRef(st, base, in)
		f.locals[in] = ex.fieldLoc(st, base, in.X.Type().Underlying().(*types.Pointer).Elem(), in.Field)
	case *ssa.Field:
		x := ex.value(st, in.X)
		sv, ok := x.(StructV)
		if !ok { // opaque
			f.locals[in] = ex.freshVal(st, "opaquefield", in.Type())
			break
		}
		f.locals[in] = sv.F[in.Field]
	case *ssa.IndexAddr:
		f.locals[in] = ex.indexAddr(st, in)
	case *ssa.Index:
		x := ex.value(st, in.X)
		i := ex.value(st, in.Index).(Scalar).T
		switch u := under(in.X.Type()).(type) {
		case *types.Array:
			ex.nopanic(st, mkAnd(mkLe(mkInt(0), i), mkLt(i, mkInt(u.Len()))), "array index in range: "+ex.srcText(in), in)
			var ls []*Term
			for _, l := range x.(ArrayV).L {
				ls = append(ls, st.sel(l, i))
			}
			v := ex.fromLeaves(u.Elem(), ls)
			ex.assumeType(st, v, u.Elem())
			f.locals[in] = v
		default: // string
			f.locals[in] = ex.strIndex(st, x.(Scalar).T, i, in)
		}
	case *ssa.Lookup:
		f.locals[in] = ex.lookup(st, in)
	case *ssa.Slice:
		f.locals[in] = ex.slice(st, in)
	case *ssa.MakeSlice:
		n := ex.value(st, in.Len).(Scalar).T
		c := ex.value(st, in.Cap).(Scalar).T
		ex.nopanic(st, mkAnd(mkLe(mkInt(0), n), mkLe(n, c), mkLe(c, mkInt(maxLen))), "make: length in range: "+ex.srcText(in), in)
		et := under(in.Type()).(*types.Slice).Elem()
		ex.makeCheck(st, n, et, in)
		f.locals[in] = ex.makeSlice(st, et, n, c)
	case *ssa.MakeMap:
		r := st.newRef()
		mt := under(in.Type()).(*types.Map)
		ex.mapInit(st, mt, r)
		f.locals[in] = Scalar{r}
	case *ssa.MakeChan:
		r := st.newRef()
		st.setKey("X!closed", SArr(SInt, SBool), r, tFalse)
		f.locals[in] = Scalar{r}
	case *ssa.MakeInterface:
		f.locals[in] = ex.makeInterface(st, in.X.Type(), ex.value(st, in.X))
	case *ssa.ChangeInterface:
		f.locals[in] = ex.value(st, in.X)
	case *ssa.ChangeType:
		v := ex.value(st, in.X)
		f.locals[in] = ex.retype(st, v, in.X.Type(), in.Type())
	case *ssa.Convert:
		f.locals[in] = ex.convert(st, in)
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, ex.value(st, b))
		}
		r := st.newRef()
		f.locals[in] = ClosureV{Fn: in.Fn.(*ssa.Function), Bind: bs, Ref: r}
		ex.closures[r.String()] = f.locals[in].(ClosureV)
	case *ssa.Extract:
		f.locals[in] = ex.value(st, in.Tuple).(TupleV)[in.Index]
	case *ssa.MapUpdate:
		mt := under(in.Map.Type()).(*types.Map)
		m := ex.value(st, in.Map).(Scalar).T
		ex.nopanic(st, mkNot(mkEq(m, mkInt(0))), "write to a nil map: "+ex.srcText(in), in)
		k := ex.keyTerm(st, ex.value(st, in.Key), mt.Key())
		ex.mapSet(st, mt, m, k, ex.value(st, in.Value))
	case *ssa.Range:
		if mt, ok := under(in.X.Type()).(*types.Map); ok {
			m := ex.value(st, in.X).(Scalar).T
			ks := ex.keySort(mt.Key())
			ex.frameID++
			name := fmt.Sprintf("IT!%d", ex.frameID)
			st.heap[name] = mkConstArr(SArr(ks, SBool), tFalse)
			ex.sorts[name] = SArr(ks, SBool)
			st.heap[name+".n"] = mkInt(0)
			ex.sorts[name+".n"] = SInt
			d0 := ex.mapDom(st, mt, m)
			f.locals[in] = IterV{Map: m, T: mt, Name: name, Dom0: d0}
			st.iters = append(append([]string(nil), st.iters...), name)
		} else {
			f.locals[in] = IterV{Str: ex.value(st, in.X).(Scalar).T}
		}
	case *ssa.Send:
		ch := ex.value(st, in.Chan).(Scalar).T
		ex.nopanic(st, mkNot(st.sel(st.get("X!closed", SArr(SInt, SBool)), ch)), "send on closed channel: "+ex.srcText(in), in)
		ex.blockCheck(st, in, "channel send")
	case *ssa.SliceToArrayPointer:
		s := ex.value(st, in.X).(SliceV)
		n := under(in.Type().(*types.Pointer).Elem()).(*types.Array).Len()
		ex.nopanic(st, mkLe(mkInt(n), s.Len), "slice to array conversion: "+ex.srcText(in), in)
		ex.unsupported(st, "slice to array pointer")
		f.locals[in] = ex.freshVal(st, "arrp", in.Type())
	default:
		ex.unsupported(st, fmt.Sprintf("instruction %T", in))
		if v, ok := in.(ssa.Value); ok {
			f.locals[v] = ex.freshVal(st, "unk", v.Type())
		}
	}
	return true
}

func (ex *Exec) retype(st *State, v Val, from, to types.Type) Val {
	switch v.(type) {
	case PtrV, ClosureV:
		return v
	}
	return v
}

func (ex *Exec) alloc(st *State, t types.Type) Val {
	r := st.newRef()
	if isStruct(t) || isArray(t) {
		ex.initZero(st, r, t)
		return Scalar{r}
	}
	l := Loc{Kind: "cell", Map: "C!" + typeName(t), T: t, Ref: r}
	ex.storeLoc(st, l, ex.zeroVal(t))
	return PtrV{l}
}

// initZero zeroes a new object; large aggregate arrays are initialised by a quantified fact.
func (ex *Exec) initZero(st *State, r *Term, t types.Type) {
	if ex.opaque(t) {
		ex.store(st, Scalar{r}, t, Scalar{mkInt(0)})
		// an empty buffer has nothing written to it
		if n, ok := types.Unalias(t).(*types.Named); ok && ex.V.Spec.Ghosts["out"] == SSeq {
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "bytes.Buffer", "strings.Builder":
				st.setKey("X!out", SArr(SInt, SSeq), r, mkLit(""))
			}
		}
		return
	}
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			switch l := ex.fieldLoc(st, r, t, i).(type) {
			case Scalar:
				ex.initZero(st, l.T, ft)
			case PtrV:
				ex.storeLoc(st, l.Loc, ex.zeroVal(ft))
			}
		}
	case *types.Array:
		if isStruct(u.Elem()) || isArray(u.Elem()) {
			if u.Len() <= 64 {
				for i := int64(0); i < u.Len(); i++ {
					ex.initZero(st, elemRef(elemName(u.Elem()), r, mkInt(i)), u.Elem())
				}
				return
			}
			ex.unsupported(st, "large array of aggregates")
			return
		}
		for _, l := range ex.elemMaps(u.Elem()) {
			st.setKey(l.Suffix, SArr(SInt, SArr(SInt, l.S)), r, mkConstArr(SArr(SInt, l.S), zeroTerm(l.S)))
		}
	}
}

func (ex *Exec) nilRef(st *State, r *Term, in ssa.Instruction) {
	if r.I != nil {
		if r.I.Sign() == 0 {
			ex.nopanic(st, tFalse, "nil pointer: "+ex.srcText(in), in)
		}
		return
	}
	if strings.HasPrefix(r.Op, "emb!") || strings.HasPrefix(r.Op, "elt!") {
		return
	}
	c := mkNot(mkEq(r, mkInt(0)))
	if st.facts[c.String()] || st.facts["nn:"+r.String()] {
		return
	}
	if isAllocTerm(r) {
		return
	}
	ex.nopanic(st, c, "nil pointer: "+ex.srcText(in), in)
}

func isAllocTerm(r *Term) bool {
	b, _, ok := baseOff(r)
	return ok && (strings.HasPrefix(b, "alloc!"))
}

func (ex *Exec) nilCheck(st *State, p Val, in ssa.Instruction) {
	switch p := p.(type) {
	case Scalar:
		ex.nilRef(st, p.T, in)
	case PtrV:
		if p.Loc.Kind == "cell" {
			ex.nilRef(st, p.Loc.Ref, in)
		}
	}
}

func (ex *Exec) unop(st *State, in *ssa.UnOp) bool {
	f := st.top()
	x := ex.value(st, in.X)
	switch in.Op {
	case token.MUL:
		ex.nilCheck(st, x, in)
		ex.guardCheck(st, x, false, in)
		f.locals[in] = ex.load(st, x, in.Type())
	case token.NOT:
		f.locals[in] = Scalar{mkNot(x.(Scalar).T)}
	case token.SUB:
		f.locals[in] = Scalar{ex.wrap(st, mkNeg(x.(Scalar).T), in.Type())}
	case token.XOR:
		lo, hi, _ := intRange(in.Type())
		if lo.Sign() == 0 {
			f.locals[in] = Scalar{mkSub(mkBig(hi), x.(Scalar).T)}
		} else {
			f.locals[in] = Scalar{mkSub(mkInt(-1), x.(Scalar).T)}
		}
	case token.ARROW:
		ex.blockCheck(st, in, "channel receive")
		if in.CommaOk {
			tv := ex.freshVal(st, "recv", in.Type())
			f.locals[in] = tv
		} else {
			f.locals[in] = ex.freshVal(st, "recv", in.Type())
		}
		ex.interfere(st, "recv")
	default:
		ex.unsupported(st, "unop "+in.Op.String())
		f.locals[in] = ex.freshVal(st, "unop", in.Type())
	}
	return true
}

func pow2big(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func typeBits(t types.Type) (uint, bool) {
	lo, hi, ok := intRange(t)
	if !ok {
		return 64, true
	}
	w := uint(new(big.Int).Sub(hi, lo).BitLen())
	return w, lo.Sign() < 0
}

// wrap reduces a mathematical integer into the machine type.
func (ex *Exec) wrap(st *State, x *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return x
	}
	if x.I != nil {
		m := pow2big(uint(new(big.Int).Sub(hi, lo).BitLen()))
		r := new(big.Int).Sub(x.I, lo)
		r.Mod(r, m)
		return mkBig(r.Add(r, lo))
	}
	inr := mkAnd(mkLe(mkBig(lo), x), mkLe(x, mkBig(hi)))
	if ex.holds(st, inr, fastMS) {
		return x
	}
	w, signed := typeBits(t)
	if !signed {
		return mkMod(x, mkBig(pow2big(w)))
	}
	// r = x - 2^w*k
	r := ex.fresh("wrap", SInt)
	k := ex.fresh("wrapk", SInt)
	st.assume(mkEq(r, mkSub(x, mkMul(k, mkBig(pow2big(w))))))
	st.assume(mkAnd(mkLe(mkBig(lo), r), mkLe(r, mkBig(hi))))
	st.assume(mkImp(inr, mkEq(r, x)))
	return r
}

func isUint8(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (ex *Exec) binop(st *State, in *ssa.BinOp) Val {
	xv, yv := ex.value(st, in.X), ex.value(st, in.Y)
	switch in.Op {
	case token.EQL:
		return Scalar{ex.equal(st, xv, in.X.Type(), yv, in.Y.Type(), in)}
	case token.NEQ:
		return Scalar{mkNot(ex.equal(st, xv, in.X.Type(), yv, in.Y.Type(), in))}
	}
	xs, ok1 := xv.(Scalar)
	ys, ok2 := yv.(Scalar)
	if !ok1 || !ok2 {
		ex.unsupported(st, "binop on aggregates")
		return ex.freshVal(st, "binop", in.Type())
	}
	x, y := xs.T, ys.T
	xt := in.X.Type()
	if b, ok := under(xt).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		switch in.Op {
		case token.ADD:
			return Scalar{mkCat(x, y)}
		case token.LSS:
			return Scalar{seqLt(x, y)}
		case token.GTR:
			return Scalar{seqLt(y, x)}
		case token.LEQ:
			return Scalar{mkNot(seqLt(y, x))}
		case token.GEQ:
			return Scalar{mkNot(seqLt(x, y))}
		}
	}
	if b, ok := under(xt).(*types.Basic); ok && b.Info()&(types.IsFloat|types.IsComplex) != 0 {
		return ex.freshVal(st, "float", in.Type())
	}
	switch in.Op {
	case token.LSS:
		return Scalar{mkLt(x, y)}
	case token.LEQ:
		return Scalar{mkLe(x, y)}
	case token.GTR:
		return Scalar{mkLt(y, x)}
	case token.GEQ:
		return Scalar{mkLe(y, x)}
	case token.ADD:
		return Scalar{ex.wrap(st, mkAdd(x, y), in.Type())}
	case token.SUB:
		return Scalar{ex.wrap(st, mkSub(x, y), in.Type())}
	case token.MUL:
		return Scalar{ex.wrap(st, mkMul(x, y), in.Type())}
	case token.QUO:
		ex.nopanic(st, mkNot(mkEq(y, mkInt(0))), "division by zero: "+ex.srcText(in), in)
		if y.I != nil && y.I.Sign() > 0 && ex.holds(st, mkLe(mkInt(0), x), fastMS) {
			return Scalar{mkDiv(x, y)}
		}
		return Scalar{ex.wrap(st, mkTDiv(x, y), in.Type())}
	case token.REM:
		ex.nopanic(st, mkNot(mkEq(y, mkInt(0))), "division by zero: "+ex.srcText(in), in)
		if y.I != nil && y.I.Sign() > 0 && ex.holds(st, mkLe(mkInt(0), x), fastMS) {
			return Scalar{mkMod(x, y)}
		}
		return Scalar{mkTMod(x, y)}
	case token.SHL:
		ex.nopanic(st, mkLe(mkInt(0), y), "negative shift: "+ex.srcText(in), in)
		if y.I != nil && y.I.IsInt64() && y.I.Int64() < 128 {
			return Scalar{ex.wrap(st, mkMul(x, mkBig(pow2big(uint(y.I.Int64())))), in.Type())}
		}
		if isUint8(in.Type()) {
			return Scalar{mkApp("shl8", SInt, x, y)}
		}
		w, _ := typeBits(in.Type())
		p := mkIte(mkLt(y, mkInt(int64(w))), mkApp("pow2", SInt, y), mkInt(0))
		return Scalar{ex.wrap(st, mkMul(x, p), in.Type())}
	case token.SHR:
		ex.nopanic(st, mkLe(mkInt(0), y), "negative shift: "+ex.srcText(in), in)
		if y.I != nil && y.I.IsInt64() && y.I.Int64() < 128 {
			return Scalar{mkDiv(x, mkBig(pow2big(uint(y.I.Int64()))))}
		}
		if isUint8(in.Type()) {
			return Scalar{mkApp("shr8", SInt, x, y)}
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if isUint8(in.Type()) {
			n := map[token.Token]string{token.AND: "and8", token.OR: "or8", token.XOR: "xor8", token.AND_NOT: "andnot8"}[in.Op]
			return Scalar{mkApp(n, SInt, x, y)}
		}
		if in.Op == token.AND {
			if x.I != nil {
				x, y = y, x
			}
			if y.I != nil && y.I.Sign() >= 0 {
				m := new(big.Int).Add(y.I, big.NewInt(1))
				if m.TrailingZeroBits() == uint(m.BitLen()-1) {
					return Scalar{mkMod(x, mkBig(m))}
				}
			}
		}
	}
	ex.unsupported(st, "operator "+in.Op.String()+" on "+in.Type().String())
	return ex.freshVal(st, "binop", in.Type())
}

func seqLt(x, y *Term) *Term {
	if isLit(x) && isLit(y) {
		return mkBool(reg.LitVal(x.Op) < reg.LitVal(y.Op))
	}
	return mkApp("seqlt", SBool, x, y)
}

func (ex *Exec) equal(st *State, x Val, xt types.Type, y Val, yt types.Type, in ssa.Instruction) *Term {
	if isIface(xt) && !isIface(yt) {
		y = ex.makeInterface(st, yt, y)
		yt = xt
	}
	if isIface(yt) && !isIface(xt) {
		x = ex.makeInterface(st, xt, x)
		xt = yt
	}
	switch a := x.(type) {
	case IfaceV:
		b := y.(IfaceV)
		if b.Tag.I != nil && b.Tag.I.Sign() == 0 {
			return mkEq(a.Tag, mkInt(0))
		}
		if a.Tag.I != nil && a.Tag.I.Sign() == 0 {
			return mkEq(b.Tag, mkInt(0))
		}
		return mkAnd(mkEq(a.Tag, b.Tag), mkEq(a.Data, b.Data))
	case SliceV:
		b := y.(SliceV)
		return mkEq(a.Arr, b.Arr) // only comparison with nil is legal
	case StructV:
		b := y.(StructV)
		u := under(xt).(*types.Struct)
		var cs []*Term
		for i := range a.F {
			ft := u.Field(i).Type()
			cs = append(cs, ex.equal(st, a.F[i], ft, b.F[i], ft, in))
		}
		return mkAnd(cs...)
	case ArrayV:
		b := y.(ArrayV)
		u := under(xt).(*types.Array)
		if len(a.L) == 1 && a.L[0].S == SArr(SInt, SInt) && isUint8(u.Elem()) {
			return mkEq(mkMk(a.L[0], mkInt(0), mkInt(u.Len())), mkMk(b.L[0], mkInt(0), mkInt(u.Len())))
		}
		ex.unsupported(st, "array comparison")
		return ex.fresh("arreq", SBool)
	case PtrV:
		if b, ok := y.(PtrV); ok && a.Loc.Kind == "cell" && b.Loc.Kind == "cell" {
			return mkEq(a.Loc.Ref, b.Loc.Ref)
		}
		if a.Loc.Kind != "cell" {
			if c, ok := in.(*ssa.BinOp); ok && (isNilConst(c.X) || isNilConst(c.Y)) {
				return tFalse
			}
		}
	case ClosureV:
		if b, ok := y.(Scalar); ok && b.T.I != nil {
			return tFalse
		}
	case Scalar:
		if b, ok := y.(Scalar); ok {
			return mkEq(a.T, b.T)
		}
		if _, ok := y.(ClosureV); ok && a.T.I != nil {
			return tFalse
		}
	}
	lx, ly := ex.toLeaves(st, x, xt), ex.toLeaves(st, y, yt)
	var cs []*Term
	for i := range lx {
		cs = append(cs, mkEq(lx[i], ly[i]))
	}
	return mkAnd(cs...)
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (ex *Exec) indexAddr(st *State, in *ssa.IndexAddr) Val {
	i := ex.value(st, in.Index).(Scalar).T
	x := ex.value(st, in.X)
	switch u := under(in.X.Type()).(type) {
	case *types.Slice:
		s := x.(SliceV)
		ex.nopanic(st, mkAnd(mkLe(mkInt(0), i), mkLt(i, s.Len)), "slice index in range: "+ex.srcText(in), in)
		return ex.elemLoc(st, u.Elem(), s.Arr, mkIdx(u.Elem(), s.Off, i), &s, i)
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		r := x.(Scalar).T
		ex.nilRef(st, r, in)
		ex.nopanic(st, mkAnd(mkLe(mkInt(0), i), mkLt(i, mkInt(a.Len()))), "array index in range: "+ex.srcText(in), in)
		return ex.elemLoc(st, a.Elem(), r, i, nil, nil)
	}
	panic("indexAddr")
}

func (ex *Exec) elemLoc(st *State, et types.Type, arr, idx *Term, s *SliceV, sidx *Term) Val {
	if isStruct(et) || isArray(et) {
		return Scalar{elemRef(elemName(et), arr, idx)}
	}
	l := Loc{Kind: "elem", Map: "E!" + elemName(et), T: et, Ref: arr, Idx: idx}
	if s != nil {
		l.SOff, l.SLen, l.SIdx = s.Off, s.Len, sidx
	}
	return PtrV{l}
}

func (ex *Exec) strIndex(st *State, s, i *Term, in ssa.Instruction) Val {
	ex.nopanic(st, mkAnd(mkLe(mkInt(0), i), mkLt(i, mkApp("len", SInt, s))), "string index in range: "+ex.srcText(in), in)
	if isLit(s) && i.I != nil && i.I.IsInt64() && i.I.Int64() >= 0 && i.I.Int64() < int64(len(reg.LitVal(s.Op))) {
		return Scalar{mkInt(int64(reg.LitVal(s.Op)[i.I.Int64()]))}
	}
	t := mkApp("at", SInt, s, i)
	st.assume(mkAnd(mkLe(mkInt(0), t), mkLe(t, mkInt(255))))
	return Scalar{t}
}

func (ex *Exec) lookup(st *State, in *ssa.Lookup) Val {
	x := ex.value(st, in.X)
	mt, ok := under(in.X.Type()).(*types.Map)
	if !ok {
		return ex.strIndex(st, x.(Scalar).T, ex.value(st, in.Index).(Scalar).T, in)
	}
	m := x.(Scalar).T
	k := ex.keyTerm(st, ex.value(st, in.Index), mt.Key())
	has := ex.mapHas(st, mt, m, k)
	v := ex.mapValue(st, mt, m, k)
	ex.assumeType(st, v, mt.Elem())
	// a missing key yields the zero value
	var res Val
	if isTrue(has) {
		res = v
	} else {
		zl := ex.toLeaves(st, ex.zeroVal(mt.Elem()), mt.Elem())
		vl := ex.toLeaves(st, v, mt.Elem())
		var ls []*Term
		for i := range vl {
			ls = append(ls, mkIte(has, vl[i], zl[i]))
		}
		for i := range ls {
			if len(ls[i].Args) > 0 && ls[i].Op == "ite" {
				c := ex.fresh("mapval", ls[i].S)
				st.assume(mkImp(has, mkApp("=", SBool, c, vl[i])))
				st.assume(mkImp(mkNot(has), mkApp("=", SBool, c, zl[i])))
				ls[i] = c
			}
		}
		res = ex.fromLeaves(mt.Elem(), ls)
		ex.assumeType(st, res, mt.Elem())
	}
	if in.CommaOk {
		return TupleV{res, Scalar{has}}
	}
	return res
}

func (ex *Exec) slice(st *State, in *ssa.Slice) Val {
	x := ex.value(st, in.X)
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return ex.value(st, v).(Scalar).T
	}
	switch u := under(in.X.Type()).(type) {
	case *types.Basic:
		s := x.(Scalar).T
		n := mkApp("len", SInt, s)
		if isLit(s) {
			n = mkInt(int64(len(reg.LitVal(s.Op))))
		}
		lo, hi := opt(in.Low, mkInt(0)), opt(in.High, n)
		ex.nopanic(st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)), "string slice bounds: "+ex.srcText(in), in)
		if lo.I != nil && lo.I.Sign() == 0 && same(hi, n) {
			return Scalar{s}
		}
		return Scalar{mkApp("sub", SSeq, s, lo, hi)}
	case *types.Slice:
		s := x.(SliceV)
		lo, hi := opt(in.Low, mkInt(0)), opt(in.High, s.Len)
		mx := opt(in.Max, s.Cap)
		ex.nopanic(st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mx), mkLe(mx, s.Cap)), "slice bounds: "+ex.srcText(in), in)
		return SliceV{s.Arr, mkAdd(s.Off, lo), mkSub(hi, lo), mkSub(mx, lo)}
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		r := x.(Scalar).T
		ex.nilRef(st, r, in)
		n := mkInt(a.Len())
		lo, hi := opt(in.Low, mkInt(0)), opt(in.High, n)
		mx := opt(in.Max, n)
		ex.nopanic(st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mx), mkLe(mx, n)), "slice bounds: "+ex.srcText(in), in)
		return SliceV{r, lo, mkSub(hi, lo), mkSub(mx, lo)}
	}
	panic("slice")
}

func (ex *Exec) makeSlice(st *State, et types.Type, n, c *Term) SliceV {
	r := st.newRef()
	if isStruct(et) || isArray(et) {
		ex.zeroElems(st, et, r)
	} else {
		for _, l := range ex.elemMaps(et) {
			st.setKey(l.Suffix, SArr(SInt, SArr(SInt, l.S)), r, mkConstArr(SArr(SInt, l.S), zeroTerm(l.S)))
		}
	}
	return SliceV{r, mkInt(0), n, c}
}

// aggLeaves lists heap maps (and their value sorts) reached below an aggregate element, with the address path.
type aggLeaf struct {
	name string
	s    Sort
	addr func(base *Term) *Term
}

func (ex *Exec) aggLeaves(st *State, t types.Type) []aggLeaf {
	id := func(b *Term) *Term { return b }
	var out []aggLeaf
	var walk func(t types.Type, addr func(*Term) *Term)
	walk = func(t types.Type, addr func(*Term) *Term) {
		if ex.opaque(t) {
			out = append(out, aggLeaf{"C!" + typeName(t), SInt, addr})
			return
		}
		switch u := under(t).(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				i := i
				dummy := mkConst("x!agg", SInt)
				switch l := ex.fieldLoc(st, dummy, t, i).(type) {
				case Scalar:
					walk(u.Field(i).Type(), func(b *Term) *Term {
						return ex.fieldLoc(st, addr(b), t, i).(Scalar).T
					})
				case PtrV:
					for _, lf := range ex.leaves(l.Loc.T) {
						out = append(out, aggLeaf{l.Loc.Map + lf.Suffix, lf.S, func(b *Term) *Term {
							return ex.fieldLoc(st, addr(b), t, i).(PtrV).Loc.Ref
						}})
					}
				}
			}
		case *types.Array:
			if isStruct(u.Elem()) || isArray(u.Elem()) {
				ex.unsupported(st, "array of aggregates inside an element")
				return
			}
			for _, lf := range ex.elemMaps(u.Elem()) {
				out = append(out, aggLeaf{lf.Suffix, SArr(SInt, lf.S), addr})
			}
		}
	}
	walk(t, id)
	return out
}

// rawMap updates a whole heap map to a fresh value equal to the old one except where cond(r) holds.
func (ex *Exec) havocWhere(st *State, name string, vs Sort, except func(r *Term) *Term) (old, new *Term) {
	old = st.get(name, SArr(SInt, vs))
	nw := ex.fresh(name, SArr(SInt, vs))
	r := mkConst(ex.V.qname("r"), SInt)
	st.assume(mkForall([]*Term{r}, [][]*Term{{mkApp("select", vs, nw, r)}}, mkOr(except(r), mkApp("=", SBool, mkApp("select", vs, nw, r), mkApp("select", vs, old, r)))))
	st.setAll(name, nw)
	return old, nw
}

func (ex *Exec) zeroElems(st *State, et types.Type, arr *Term) {
	for _, l := range ex.aggLeaves(st, et) {
		// elements of a new array are at fresh addresses: the old map value there is unconstrained, so assume it zero
		m := st.get(l.name, SArr(SInt, l.s))
		i := mkConst(ex.V.qname("i"), SInt)
		e := elemRef(elemName(et), arr, i)
		a := l.addr(e)
		nw := ex.fresh(l.name, SArr(SInt, l.s))
		r := mkConst(ex.V.qname("r"), SInt)
		st.assume(mkForall([]*Term{r}, [][]*Term{{mkApp("select", l.s, nw, r)}}, mkOr(mkEq(mkApp("root", SInt, r), arr), mkApp("=", SBool, mkApp("select", l.s, nw, r), mkApp("select", l.s, m, r)))))
		st.assume(mkForall([]*Term{i}, [][]*Term{{e}}, mkApp("=", SBool, mkApp("select", l.s, nw, a), zeroTerm(l.s))))
		st.logWrite(l.name, arr)
		st.put(l.name, nw)
	}
}

func (ex *Exec) makeInterface(st *State, t types.Type, v Val) Val {
	if isIface(t) {
		return v
	}
	if p, ok := v.(PtrV); ok && p.Loc.Kind != "cell" {
		// pointer to a variable whose address is not a cell
		return IfaceV{Tag: typeTag(t), Data: ex.fresh("ifaceptr", SInt), Dyn: t, DynVal: v}
	}
	ls := ex.toLeaves(st, v, t)
	d := ex.box(st, t, ls)
	return IfaceV{Tag: typeTag(t), Data: d, Dyn: t, DynVal: v}
}

func (ex *Exec) convert(st *State, in *ssa.Convert) Val {
	x := ex.value(st, in.X)
	from, to := under(in.X.Type()), under(in.Type())
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			return Scalar{ex.wrap(st, x.(Scalar).T, in.Type())}
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return x
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			return ex.freshVal(st, "runestr", in.Type())
		}
		return ex.freshVal(st, "conv", in.Type())
	}
	if tok && tb.Info()&types.IsString != 0 {
		if s, ok := x.(SliceV); ok {
			if sl := from.(*types.Slice); isUint8(sl.Elem()) {
				return Scalar{ex.bytesOf(st, s)}
			}
		}
		return ex.freshVal(st, "conv", in.Type())
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := to.(*types.Slice); ok && isUint8(sl.Elem()) {
			s := x.(Scalar).T
			r := st.newRef()
			row := ex.fresh("strrow.E!uint8", SArr(SInt, SInt))
			n := mkApp("len", SInt, s)
			if isLit(s) {
				n = mkInt(int64(len(reg.LitVal(s.Op))))
			}
			st.setKey("E!uint8", SArr(SInt, SArr(SInt, SInt)), r, row)
			st.assume(mkEq(mkMk(row, mkInt(0), n), s))
			return SliceV{r, mkInt(0), n, n}
		}
	}
	if _, ok := to.(*types.Pointer); ok {
		return x
	}
	ex.unsupported(st, fmt.Sprintf("conversion %v to %v", in.X.Type(), in.Type()))
	return ex.freshVal(st, "conv", in.Type())
}

func (ex *Exec) doTypeAssert(st *State, in *ssa.TypeAssert, k Kont) {
	v := ex.value(st, in.X).(IfaceV)
	if isIface(in.AssertedType) {
		var ok *Term
		dyn := ex.dynType(v)
		if dyn != nil {
			ok = mkBool(types.Implements(dyn, under(in.AssertedType).(*types.Interface)))
		} else if under(in.AssertedType).(*types.Interface).NumMethods() == 0 {
			ok = mkNot(mkEq(v.Tag, mkInt(0)))
		} else {
			fn := "impl!" + typeName(in.AssertedType)
			reg.Func(fn, SBool, SInt)
			ok = mkAnd(mkNot(mkEq(v.Tag, mkInt(0))), mkApp(fn, SBool, v.Tag))
		}
		if in.CommaOk {
			z := mkInt(0)
			k(st, TupleV{IfaceV{Tag: mkIte(ok, v.Tag, z), Data: mkIte(ok, v.Data, z), Dyn: v.Dyn, DynVal: v.DynVal}, Scalar{ok}})
			return
		}
		ex.nopanic(st, ok, "type assertion: "+ex.srcText(in), in)
		k(st, v)
		return
	}
	tag := typeTag(in.AssertedType)
	ok := mkEq(v.Tag, tag)
	get := func(st *State) Val {
		if v.DynVal != nil && v.Dyn != nil && types.Identical(v.Dyn, in.AssertedType) {
			return v.DynVal
		}
		r := ex.unbox(st, in.AssertedType, v.Data)
		ex.assumeType(st, r, in.AssertedType)
		return r
	}
	if !in.CommaOk {
		ex.nopanic(st, ok, "type assertion: "+ex.srcText(in), in)
		k(st, get(st))
		return
	}
	zero := func() Val { return TupleV{ex.zeroVal(in.AssertedType), Scalar{tFalse}} }
	if isTrue(ok) {
		k(st, TupleV{get(st), Scalar{tTrue}})
		return
	}
	if isFalse(ok) {
		k(st, zero())
		return
	}
	ft, ff := ex.feasible(st, ok), ex.feasible(st, mkNot(ok))
	if ft && ff {
		s2 := st.clone()
		st.assume(ok)
		k(st, TupleV{get(st), Scalar{tTrue}})
		s2.assume(mkNot(ok))
		k(s2, zero())
		return
	}
	if ft {
		st.assume(ok)
		k(st, TupleV{get(st), Scalar{tTrue}})
		return
	}
	st.assume(mkNot(ok))
	k(st, zero())
}

// dynType is the statically decided dynamic type of an interface value.
func (ex *Exec) dynType(v IfaceV) types.Type {
	if v.Dyn != nil {
		return v.Dyn
	}
	if v.Tag.I != nil && v.Tag.I.Sign() > 0 {
		typeTags.Lock()
		defer typeTags.Unlock()
		return typeTags.t[int(v.Tag.I.Int64())]
	}
	return nil
}

func (ex *Exec) doNext(st *State, in *ssa.Next, k Kont) {
	it := ex.value(st, in.Iter).(IterV)
	if it.Map == nil {
		ex.unsupported(st, "range over string")
		v := ex.freshVal(st, "next", in.Type())
		k(st, v)
		return
	}
	vis := st.heap[it.Name]
	n := st.heap[it.Name+".n"]
	ks := ex.keySort(it.T.Key())
	tt := in.Type().(*types.Tuple)
	dom := ex.mapDom(st, it.T, it.Map)
	// exhausted
	s2 := st.clone()
	{
		q := mkConst(ex.V.qname("k"), ks)
		s2.assume(mkForall([]*Term{q}, [][]*Term{{mkApp("select", SBool, dom, q)}, {mkApp("select", SBool, vis, q)}}, mkImp(mkAnd(mkApp("select", SBool, dom, q), mkApp("select", SBool, it.Dom0, q)), mkApp("select", SBool, vis, q))))
		if same(dom, it.Dom0) {
			s2.assume(mkEq(n, ex.mapLen(s2, it.T, it.Map)))
		}
		tv := TupleV{Scalar{tFalse}}
		for i := 1; i < tt.Len(); i++ {
			tv = append(tv, ex.zeroOrNil(tt.At(i).Type()))
		}
		if ex.feasible(s2, tTrue) {
			k(s2, tv)
		}
	}
	// one more key
	var key Val
	kt := it.T.Key()
	if tt.At(1).Type() != types.Typ[types.Invalid] {
		key = ex.freshVal(st, "key", tt.At(1).Type())
	} else {
		key = ex.freshVal(st, "key", kt)
	}
	kterm := ex.keyTerm(st, key, kt)
	st.assume(mkSelect(dom, kterm))
	st.assume(mkNot(mkSelect(vis, kterm)))
	if same(dom, it.Dom0) {
		st.assume(mkLt(n, ex.mapLen(st, it.T, it.Map)))
	}
	st.heap[it.Name+".cur"] = vis
	st.logWrite(it.Name, nil)
	st.logWrite(it.Name+".n", nil)
	st.put(it.Name, mkStore(vis, kterm, tTrue))
	st.put(it.Name+".n", mkAdd(n, mkInt(1)))
	tv := TupleV{Scalar{tTrue}, key}
	if tt.Len() > 2 {
		if tt.At(2).Type() != types.Typ[types.Invalid] {
			v := ex.mapValue(st, it.T, it.Map, kterm)
			ex.assumeType(st, v, it.T.Elem())
			tv = append(tv, v)
		} else {
			tv = append(tv, Scalar{mkInt(0)})
		}
	}
	k(st, tv)
}

func (ex *Exec) zeroOrNil(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Scalar{mkInt(0)}
	}
	return ex.zeroVal(t)
}

func (ex *Exec) doSelect(st *State, in *ssa.Select, k func(*State)) {
	tt := in.Type().(*types.Tuple)
	n := len(in.States)
	try := func(st *State, idx int64) {
		tv := TupleV{Scalar{mkInt(idx)}, Scalar{ex.fresh("recvok", SBool)}}
		for i := 2; i < tt.Len(); i++ {
			tv = append(tv, ex.freshVal(st, "recv", tt.At(i).Type()))
		}
		if idx >= 0 {
			s := in.States[idx]
			if s.Dir == types.RecvOnly {
				ch := ex.value(st, s.Chan)
				_ = ch
				if in.Blocking {
					ex.interfere(st, "select")
				}
			}
		}
		st.top().locals[in] = tv
		k(st)
	}
	if in.Blocking {
		ex.blockCheck(st, in, "select")
	}
	for i := 0; i < n; i++ {
		try(st.clone(), int64(i))
	}
	if !in.Blocking {
		try(st.clone(), -1)
	}
}

// ---- maps ----

func (ex *Exec) keySort(t types.Type) Sort {
	if a, ok := under(t).(*types.Array); ok && isUint8(a.Elem()) {
		return SSeq
	}
	if isIface(t) || isStruct(t) && !ex.opaque(t) {
		return SInt
	}
	return ex.leaves(t)[0].S
}

func (ex *Exec) keyTerm(st *State, v Val, t types.Type) *Term {
	if a, ok := under(t).(*types.Array); ok && isUint8(a.Elem()) {
		return mkMk(v.(ArrayV).L[0], mkInt(0), mkInt(a.Len()))
	}
	if iv, ok := v.(IfaceV); ok {
		return iv.Data
	}
	if isStruct(t) && !ex.opaque(t) {
		return ex.boxKey(st, t, ex.toLeaves(st, v, t))
	}
	return ex.toLeaves(st, v, t)[0]
}

func (ex *Exec) boxKey(st *State, t types.Type, ls []*Term) *Term {
	return ex.box(st, t, ls)
}

func mapName(mt *types.Map) string {
	return "M!" + typeName(mt)
}

func (ex *Exec) mapDom(st *State, mt *types.Map, m *Term) *Term {
	ks := ex.keySort(mt.Key())
	if m.I != nil && m.I.Sign() == 0 {
		return mkConstArr(SArr(ks, SBool), tFalse)
	}
	name := mapName(mt) + ".dom"
	st.nilMap(name, SArr(ks, SBool))
	return st.sel(st.get(name, SArr(SInt, SArr(ks, SBool))), m)
}

// nilMap records that the nil map is empty.
func (st *State) nilMap(name string, s Sort) {
	m := st.get(name, SArr(SInt, s))
	st.assume(mkApp("=", SBool, mkApp("select", s, m, mkInt(0)), mkConstArr(s, tFalse)))
}

func (ex *Exec) mapHas(st *State, mt *types.Map, m, k *Term) *Term {
	return st.sel(ex.mapDom(st, mt, m), k)
}

func (ex *Exec) mapValue(st *State, mt *types.Map, m, k *Term) Val {
	ks := ex.keySort(mt.Key())
	var ls []*Term
	for _, l := range ex.leaves(mt.Elem()) {
		row := st.sel(st.get(mapName(mt)+".val"+l.Suffix, SArr(SInt, SArr(ks, l.S))), m)
		ls = append(ls, st.sel(row, k))
	}
	return ex.fromLeaves(mt.Elem(), ls)
}

func (ex *Exec) mapLen(st *State, mt *types.Map, m *Term) *Term {
	if m.I != nil && m.I.Sign() == 0 {
		return mkInt(0)
	}
	t := st.sel(st.get(mapName(mt)+".len", SArr(SInt, SInt)), m)
	st.assume(mkLe(mkInt(0), t))
	// empty exactly when the domain is empty
	ks := ex.keySort(mt.Key())
	dom := ex.mapDom(st, mt, m)
	if len(dom.Args) > 0 || true {
		q := mkConst("q!mapkey", ks)
		st.assume(mkImp(mkEq(t, mkInt(0)), mkForall([]*Term{q}, [][]*Term{{mkApp("select", SBool, dom, q)}}, mkNot(mkApp("select", SBool, dom, q)))))
	}
	return t
}

func (ex *Exec) mapInit(st *State, mt *types.Map, r *Term) {
	ks := ex.keySort(mt.Key())
	st.setKey(mapName(mt)+".dom", SArr(SInt, SArr(ks, SBool)), r, mkConstArr(SArr(ks, SBool), tFalse))
	st.setKey(mapName(mt)+".len", SArr(SInt, SInt), r, mkInt(0))
	for _, l := range ex.leaves(mt.Elem()) {
		st.get(mapName(mt)+".val"+l.Suffix, SArr(SInt, SArr(ks, l.S)))
	}
}

func (ex *Exec) mapSet(st *State, mt *types.Map, m, k *Term, v Val) {
	ks := ex.keySort(mt.Key())
	has := ex.mapHas(st, mt, m, k)
	ln := ex.mapLen(st, mt, m)
	dom := ex.mapDom(st, mt, m)
	st.setKey(mapName(mt)+".len", SArr(SInt, SInt), m, mkIte(has, ln, mkAdd(ln, mkInt(1))))
	st.setKey(mapName(mt)+".dom", SArr(SInt, SArr(ks, SBool)), m, ex.nameRow(st, mkStore(dom, k, tTrue)))
	ls := ex.toLeaves(st, v, mt.Elem())
	for i, l := range ex.leaves(mt.Elem()) {
		name := mapName(mt) + ".val" + l.Suffix
		row := st.sel(st.get(name, SArr(SInt, SArr(ks, l.S))), m)
		st.setKey(name, SArr(SInt, SArr(ks, l.S)), m, ex.nameRow(st, mkStore(row, k, ls[i])))
	}
}

func (ex *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	ks := ex.keySort(mt.Key())
	has := ex.mapHas(st, mt, m, k)
	ln := ex.mapLen(st, mt, m)
	dom := ex.mapDom(st, mt, m)
	if m.I != nil && m.I.Sign() == 0 {
		return
	}
	st.setKey(mapName(mt)+".len", SArr(SInt, SInt), m, mkIte(has, mkSub(ln, mkInt(1)), ln))
	st.setKey(mapName(mt)+".dom", SArr(SInt, SArr(ks, SBool)), m, ex.nameRow(st, mkStore(dom, k, tFalse)))
}

func (ex *Exec) mapClear(st *State, mt *types.Map, m *Term) {
	ks := ex.keySort(mt.Key())
	st.setKey(mapName(mt)+".len", SArr(SInt, SInt), m, mkInt(0))
	st.setKey(mapName(mt)+".dom", SArr(SInt, SArr(ks, SBool)), m, mkConstArr(SArr(ks, SBool), tFalse))
}

// ---- verification of one function ----

func (ex *Exec) namesFor(params []string, fn *ssa.Function, vals []Val) map[string]SV {
	m := map[string]SV{}
	for i, p := range fn.Params {
		if i < len(params) && params[i] != "_" {
			m[params[i]] = ex.asSV(vals[i], p.Type())
		}
	}
	return m
}

func (ex *Exec) asSV(v Val, t types.Type) SV { return SV{V: v, T: t} }

func resultNames(c *Contract, sig *types.Signature) []string {
	var out []string
	for i := 0; i < sig.Results().Len(); i++ {
		if i < len(c.Results) {
			out = append(out, c.Results[i])
		} else {
			out = append(out, "_")
		}
	}
	return out
}

func (ex *Exec) newState() *State {
	st := &State{ex: ex, heap: map[string]*Term{}, base: "0", facts: map[string]bool{}}
	st.alloc = ex.fresh("alloc", SInt)
	st.assume(mkLt(mkInt(0), st.alloc))
	return st
}

func (ex *Exec) evalErr(what string, tags []string, pos string, cl *Clause, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			if e, isSpec := r.(specErr); isSpec {
				msg = e.msg
			} else {
				msg = fmt.Sprint(r)
				if os.Getenv("GV_DEBUG") != "" {
					debug.PrintStack()
				}
			}
			if ex.quiet == 0 {
				ex.Obls = append(ex.Obls, &Obligation{Func: ex.fname(), Kind: "contract", Label: what, Tags: tags, Pos: pos, Clause: cl, Err: msg, V: Verdict{Status: "contract does not apply to this code: " + msg}})
			}
			ok = false
		}
	}()
	f()
	return true
}

// Verify runs the function against its contract.
func (ex *Exec) Verify() {
	defer func() {
		if r := recover(); r != nil {
			ex.abort(fmt.Sprintf("internal: %v", r))
			if os.Getenv("GV_DEBUG") != "" {
				debug.PrintStack()
			}
		}
		ex.wg.Wait()
	}()
	ex.closures = map[string]ClosureV{}
	fn := ex.Fn
	c := ex.Con
	st := ex.newState()
	fr := &Frame{fn: fn, locals: map[ssa.Value]Val{}}
	for _, p := range fn.Params {
		v := ex.freshVal(st, "arg."+p.Name(), p.Type())
		fr.locals[p] = v
		ex.args = append(ex.args, v)
		for i, t := range ex.toLeaves(st, v, p.Type()) {
			ex.hints = append(ex.hints, hint{p.Name() + ex.leaves(p.Type())[i].Suffix, t})
		}
	}
	if len(fn.FreeVars) > 0 {
		for _, p := range fn.FreeVars {
			v := ex.freshVal(st, "free."+p.Name(), p.Type())
			if pv, ok := v.(PtrV); ok {
				st.assume(mkNot(mkEq(pv.Loc.Ref, mkInt(0))))
			}
			fr.locals[p] = v
		}
	}
	st.frames = []*Frame{fr}
	if len(c.Params) != len(fn.Params) {
		ex.Obls = append(ex.Obls, &Obligation{Func: ex.fname(), Kind: "contract", Label: "signature", Pos: c.Pos, Err: "parameter count changed", V: Verdict{Status: "contract does not match the signature"}})
		return
	}
	// receivers are assumed non-nil: calling a method on a nil receiver is the caller's obligation
	names := ex.namesFor(c.Params, fn, ex.args)
	ex.entryNames = names
	env := &Env{ex: ex, st: st, names: names, pkg: ex.pkgOf(fn)}
	for _, g := range ex.V.Spec.GlobalInvs {
		g := g
		if ex.V.dropped(g) {
			continue
		}
		ex.evalErr("global invariant", nil, g.Pos, g, func() { st.assume(env.Bool(g.E)) })
	}
	for _, r := range c.Requires {
		r := r
		ex.evalErr("requires "+r.Label, r.Tags, r.Pos, r, func() { st.assume(env.Bool(r.E)) })
	}
	if c.Flags["locked"] != "" {
		ex.assumeLocked(st, env, c)
	}
	ex.entry = st.clone()
	k := func(st *State, res Val) { ex.atReturn(st, res) }
	ex.run(st, fn.Blocks[0], nil, k)
	ex.wg.Wait()
	if ex.aborted == "" && ex.returns > 0 && !ex.liveReturn {
		ex.Obls = append(ex.Obls, &Obligation{Func: ex.fname(), Kind: "vacuity", Label: "some return is reachable under the contract", Pos: c.Pos, V: Verdict{Status: "every return is unreachable: the contract is contradictory"}})
	}
}

var maxCanaries int64 = 6

// canary tries to prove that a point of the program is unreachable; a contradiction among the
// assumptions would show as code that can never run.
func (ex *Exec) canary(st *State, what string, ret bool) {
	text := (&Query{Asserts: st.asserts()}).Build()
	trace := strings.Join(st.trace(), "; ")
	ex.wg.Add(1)
	go func() {
		defer ex.wg.Done()
		if ask(text, canaryMS, false) != "unsat" {
			if ret {
				ex.V.mu.Lock()
				ex.liveReturn = true
				ex.V.mu.Unlock()
			}
			return
		}
		if os.Getenv("GV_CANARY") != "" {
			fmt.Fprintf(os.Stderr, "canary: %s: %s cannot be reached (%s)\n", ex.fname(), what, clip(trace))
		}
	}()
}

var canaryMS = 1500

func (ex *Exec) pkgOf(fn *ssa.Function) *types.Package {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	return nil
}

func (ex *Exec) atReturn(st *State, res Val) {
	c := ex.Con
	fn := ex.Fn
	ex.returns++
	if ex.quiet > 0 {
		return
	}
	if n := ex.canaries.Add(1); n <= maxCanaries {
		ex.canary(st, "return at "+st.retPos, true)
	}
	names := map[string]SV{}
	for k, v := range ex.entryNames {
		names[k] = v
	}
	rn := resultNames(c, fn.Signature)
	rt := fn.Signature.Results()
	switch rt.Len() {
	case 0:
	case 1:
		names[rn[0]] = ex.asSV(res, rt.At(0).Type())
		names["result"] = names[rn[0]]
	default:
		tv := res.(TupleV)
		for i := range tv {
			names[rn[i]] = ex.asSV(tv[i], rt.At(i).Type())
		}
	}
	env := &Env{ex: ex, st: st, old: ex.entry, names: names, pkg: ex.pkgOf(fn)}
	for _, e := range c.Sets {
		e := e
		ex.evalErr("sets "+e.Src, nil, e.Pos, e, func() {
			v := env.term(e.E, env.Eval(e.E.Args[1]))
			ts := ex.modTarget(env, e.E.Args[0])
			if len(ts) != 1 {
				env.fail(e.E, "sets needs one ghost target")
			}
			t := ts[0]
			if t.key == nil {
				st.logWrite(t.name, nil)
				st.put(t.name, v)
			} else {
				st.setKey(t.name, SArr(SInt, t.vs), t.key, v)
			}
		})
	}
	for _, e := range c.Ensures {
		e := e
		if ex.V.dropped(e) {
			continue
		}
		ex.evalErr("ensures "+e.Label, e.Tags, e.Pos, e, func() {
			g := env.Bool(e.E)
			for _, gg := range ex.goals(st, g) {
				ex.oblige(st, "ensures", e.Label, e.Tags, gg, st.retPos, e, nil)
			}
		})
	}
	ex.lockBalance(st)
	ex.frameCheck(st, env)
}

// goals splits a goal into goals that are easier to prove.
func (ex *Exec) goals(st *State, g *Term) []*Term {
	var out []*Term
	for _, x := range splitGoal(g) {
		out = append(out, ex.seqGoals(st, x)...)
	}
	return out
}

// splitGoal turns a conjunction (possibly under implications) into separate goals.
func splitGoal(g *Term) []*Term {
	switch {
	case g.Op == "and":
		var out []*Term
		for _, a := range g.Args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case g.Op == "=>" && g.Args[1].Op == "and":
		var out []*Term
		for _, a := range splitGoal(g.Args[1]) {
			out = append(out, mkImp(g.Args[0], a))
		}
		return out
	}
	return []*Term{g}
}

// frameCheck shows that everything written is allowed by the modifies clauses.
func (ex *Exec) frameCheck(st *State, env *Env) {
	c := ex.Con
	if c.ModAll || c.Flags["noframe"] != "" {
		return
	}
	var targets []modTarget
	ok := ex.evalErr("modifies", c.FrameTags, c.Pos, nil, func() {
		oe := env.with(ex.entry)
		oe.old = ex.entry
		targets = ex.modTargets(oe, c)
	})
	if !ok {
		return
	}
	alloc0 := ex.entry.alloc
	ws := st.writesSince(nil)
	for _, name := range sortedKeys(ws) {
		if strings.HasPrefix(name, "IT!") || name == "alloc" {
			continue
		}
		w := ws[name]
		cur, has := st.heap[name]
		if !has {
			continue
		}
		oldv := ex.entry.get(name, cur.S)
		if same(cur, oldv) {
			continue
		}
		var keys []modTarget
		full := false
		for _, t := range targets {
			if t.name == name {
				if t.key == nil {
					full = true
				}
				keys = append(keys, t)
			}
		}
		if full {
			continue
		}
		label := "modifies only what it declares: " + name
		if !strings.HasPrefix(cur.S, "(Array ") || strings.HasPrefix(name, "G!") || strings.HasPrefix(name, "V!") {
			ex.oblige(st, "frame", label, c.FrameTags, mkApp("=", SBool, cur, oldv), st.retPos, nil, nil)
			continue
		}
		inKeys := func(r *Term) *Term {
			var cs []*Term
			for _, t := range keys {
				if t.lo == nil {
					cs = append(cs, mkEq(r, t.key))
				}
			}
			return mkOr(cs...)
		}
		if w.full || len(w.keys) > 8 {
			_, vs := arrParts(cur.S)
			r := ex.fresh("fr", SInt)
			goal := mkOr(inKeys(r), mkLe(alloc0, mkApp("root", SInt, r)), mkApp("=", SBool, mkApp("select", vs, cur, r), mkApp("select", vs, oldv, r)))
			ranged := false
			for _, t := range keys {
				if t.lo != nil {
					ranged = true
					goal = mkOr(goal, mkEq(r, t.key))
				}
			}
			ex.oblige(st, "frame", label, c.FrameTags, goal, st.retPos, nil, nil)
			if !ranged {
				continue
			}
		} else {
			for _, ks := range sortedKeys(w.keys) {
				k := w.keys[ks]
				if isFreshTerm(k, ex.entry) {
					continue
				}
				goal := mkOr(inKeys(k), mkLe(alloc0, mkApp("root", SInt, k)))
				if strings.HasPrefix(name, "X!") {
					goal = mkOr(goal, mkEq(k, mkInt(0))) // ghost state of nil means nothing
				}
				for _, t := range keys {
					if t.lo != nil {
						goal = mkOr(goal, mkEq(k, t.key))
					}
				}
				if isTrue(goal) {
					continue
				}
				_, vs := arrParts(cur.S)
				goal = mkOr(goal, mkApp("=", SBool, mkApp("select", vs, cur, k), mkApp("select", vs, oldv, k)))
				ex.oblige(st, "frame", label, c.FrameTags, goal, st.retPos, nil, nil)
			}
		}
		// element ranges
		for _, t := range keys {
			if t.lo == nil {
				continue
			}
			_, vs := arrParts(cur.S)
			_, es := arrParts(vs)
			i := ex.fresh("fi", SInt)
			var in []*Term
			for _, u := range keys {
				if u.lo == nil {
					in = append(in, mkEq(u.key, t.key))
				} else {
					in = append(in, mkAnd(mkEq(u.key, t.key), mkLe(u.lo, i), mkLt(i, u.hi)))
				}
			}
			goal := mkOr(append(in, mkApp("=", SBool, mkApp("select", es, st.sel(cur, t.key), i), mkApp("select", es, ex.entry.sel(oldv, t.key), i)))...)
			ex.oblige(st, "frame", label+" (range)", c.FrameTags, goal, st.retPos, nil, nil)
		}
	}
}

// isFreshTerm: syntactically an allocation made after the state e.
func isFreshTerm(k *Term, e *State) bool {
	for strings.HasPrefix(k.Op, "emb!") || strings.HasPrefix(k.Op, "elt!") {
		k = k.Args[0]
	}
	b, _, ok := baseOff(k)
	eb, _, _ := baseOff(e.alloc)
	return ok && b == eb
}

type modTarget struct {
	name   string
	s      Sort // sort of the map (only when known)
	vs     Sort
	key    *Term
	lo, hi *Term
}

// modTargets evaluates modifies clauses.
func (ex *Exec) modTargets(env *Env, c *Contract) []modTarget {
	var out []modTarget
	for _, m := range c.Modifies {
		out = append(out, ex.modTarget(env, m)...)
	}
	return out
}

func (ex *Exec) aggTargets(st *State, addr *Term, t types.Type) []modTarget {
	var out []modTarget
	for _, l := range ex.aggLeaves(st, t) {
		out = append(out, modTarget{name: l.name, vs: l.s, key: l.addr(addr)})
	}
	return out
}

func (ex *Exec) modTarget(env *Env, m *Expr) []modTarget {
	sp := ex.V.Spec
	switch m.K {
	case "id":
		if s, ok := sp.GhostVars[m.Op]; ok {
			return []modTarget{{name: "V!" + m.Op, s: s}}
		}
		if v := ex.V.lookupGlobalIn(m.Op, env.pkg); v != nil {
			var out []modTarget
			for _, l := range ex.leaves(v.Type()) {
				out = append(out, modTarget{name: "G!" + san(v.Pkg().Path()+"."+v.Name()) + l.Suffix, s: l.S})
			}
			return out
		}
	case "unary":
		if m.Op == "*" {
			v := env.Eval(m.Args[0])
			if pv, ok := v.V.(PtrV); ok {
				return ex.locTargets(pv.Loc)
			}
			p := under(v.T).(*types.Pointer)
			return ex.aggTargets(env.st, v.V.(Scalar).T, p.Elem())
		}
	case "field":
		// lvalue x.f
		base := env.Eval(m.Args[0])
		loc := env.lvalue(m, base, m.Op)
		switch l := loc.(type) {
		case PtrV:
			return ex.locTargets(l.Loc)
		case lvAgg:
			return ex.aggTargets(env.st, l.addr, l.t)
		}
	case "slice":
		v := env.Eval(m.Args[0])
		s := v.V.(SliceV)
		lo, hi := s.Off, mkAdd(s.Off, s.Len)
		if m.Args[1] != nil {
			lo = mkAdd(s.Off, env.Int(m.Args[1]))
		}
		if m.Args[2] != nil {
			hi = mkAdd(s.Off, env.Int(m.Args[2]))
		}
		et := under(v.T).(*types.Slice).Elem()
		var out []modTarget
		for _, l := range ex.elemMaps(et) {
			out = append(out, modTarget{name: l.Suffix, vs: SArr(SInt, l.S), key: s.Arr, lo: lo, hi: hi})
		}
		return out
	case "call":
		switch m.Op {
		case "all":
			v := env.Eval(m.Args[0])
			if v.Addr != nil {
				return ex.aggTargets(env.st, v.Addr, v.T)
			}
			if iv, ok := v.V.(IfaceV); ok {
				// what an interface value points to, when its dynamic type is known
				if iv.Tag.I == nil {
					ex.unsupported(env.st, "modifies all(x) of an interface with unknown dynamic type")
					return nil
				}
				typeTags.Lock()
				dt := typeTags.t[int(iv.Tag.I.Int64())]
				typeTags.Unlock()
				p, ok := under(dt).(*types.Pointer)
				if !ok {
					return nil
				}
				return ex.aggTargets(env.st, ex.toLeaves(env.st, ex.unbox(env.st, dt, iv.Data), dt)[0], p.Elem())
			}
			p := under(v.T).(*types.Pointer)
			return ex.aggTargets(env.st, env.term(m, v), p.Elem())
		case "elems":
			v := env.Eval(m.Args[0])
			if v.Addr != nil { // array
				et := under(v.T).(*types.Array).Elem()
				var out []modTarget
				for _, l := range ex.elemMaps(et) {
					out = append(out, modTarget{name: l.Suffix, vs: SArr(SInt, l.S), key: v.Addr})
				}
				return out
			}
			et := under(v.T).(*types.Slice).Elem()
			var out []modTarget
			for _, l := range ex.elemMaps(et) {
				out = append(out, modTarget{name: l.Suffix, vs: SArr(SInt, l.S), key: v.V.(SliceV).Arr})
			}
			return out
		case "mapof":
			v := env.Eval(m.Args[0])
			mt := under(v.T).(*types.Map)
			r := env.term(m, v)
			return ex.mapTargets(mt, r)
		case "anymap": // every map of a type
			t := env.resolveType(m, m.Args[0].Op)
			ts := ex.mapTargets(under(t).(*types.Map), nil)
			for i := range ts {
				ts[i].s = SArr(SInt, ts[i].vs)
			}
			return ts
		case "any": // any("pkg.T", f) : the field of every object
			t := env.resolveType(m, m.Args[0].Op)
			st := under(t).(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == m.Args[1].Op {
					var out []modTarget
					ft := st.Field(i).Type()
					switch l := ex.fieldLoc(env.st, mkInt(0), t, i).(type) {
					case PtrV:
						for _, lf := range ex.leaves(ft) {
							out = append(out, modTarget{name: l.Loc.Map + lf.Suffix, s: SArr(SInt, lf.S)})
						}
					case Scalar:
						for _, al := range ex.aggLeaves(env.st, ft) {
							out = append(out, modTarget{name: al.name, s: SArr(SInt, al.s)})
						}
					}
					return out
				}
			}
		case "anyghost":
			n := m.Args[0].Op
			return []modTarget{{name: "X!" + n, s: SArr(SInt, sp.Ghosts[n])}}
		case "anyelems":
			t := env.resolveType(m, m.Args[0].Op)
			var out []modTarget
			if isStruct(t) || isArray(t) {
				for _, al := range ex.aggLeaves(env.st, t) {
					out = append(out, modTarget{name: al.name, s: SArr(SInt, al.s)})
				}
				return out
			}
			for _, l := range ex.elemMaps(t) {
				out = append(out, modTarget{name: l.Suffix, s: SArr(SInt, SArr(SInt, l.S))})
			}
			return out
		case "global":
			v := ex.V.lookupGlobal(m.Args[0].Op)
			var out []modTarget
			for _, l := range ex.leaves(v.Type()) {
				out = append(out, modTarget{name: "G!" + san(v.Pkg().Path()+"."+v.Name()) + l.Suffix, s: l.S})
			}
			return out
		}
		if s, ok := sp.Ghosts[m.Op]; ok {
			r := env.refOf(m, env.Eval(m.Args[0]))
			return []modTarget{{name: "X!" + m.Op, vs: s, key: r}}
		}
	}
	env.fail(m, "cannot interpret modifies target")
	return nil
}

func (ex *Exec) mapTargets(mt *types.Map, r *Term) []modTarget {
	ks := ex.keySort(mt.Key())
	out := []modTarget{{name: mapName(mt) + ".dom", vs: SArr(ks, SBool), key: r}, {name: mapName(mt) + ".len", vs: SInt, key: r}}
	for _, l := range ex.leaves(mt.Elem()) {
		out = append(out, modTarget{name: mapName(mt) + ".val" + l.Suffix, vs: SArr(ks, l.S), key: r})
	}
	return out
}

func (ex *Exec) locTargets(l Loc) []modTarget {
	var out []modTarget
	for _, lf := range ex.leaves(l.T) {
		switch l.Kind {
		case "field", "cell":
			out = append(out, modTarget{name: l.Map + lf.Suffix, vs: lf.S, key: l.Ref})
		case "elem":
			out = append(out, modTarget{name: l.Map + lf.Suffix, vs: SArr(SInt, lf.S), key: l.Ref, lo: l.Idx, hi: mkAdd(l.Idx, mkInt(1))})
		case "global":
			out = append(out, modTarget{name: l.Map + lf.Suffix, s: lf.S})
		}
	}
	return out
}

type lvAgg struct {
	addr *Term
	t    types.Type
}

// lvalue resolves x.f to a location.
func (env *Env) lvalue(e *Expr, v SV, name string) Val {
	t := v.T
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	obj, path, _ := types.LookupFieldOrMethod(t, true, env.pkg, name)
	if _, ok := obj.(*types.Var); !ok {
		if n, isn := types.Unalias(t).(*types.Named); isn && n.Obj().Pkg() != nil {
			obj, path, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), name)
		}
	}
	if _, ok := obj.(*types.Var); !ok {
		env.fail(e, "no field %s in %v", name, t)
	}
	cur := v
	for j, i := range path {
		var base *Term
		ct := cur.T
		if p, ok := under(ct).(*types.Pointer); ok {
			base = env.term(e, cur)
			ct = p.Elem()
		} else if cur.Addr != nil {
			base = cur.Addr
		} else {
			env.fail(e, "not an lvalue")
		}
		if j == len(path)-1 {
			switch l := env.ex.fieldLoc(env.st, base, ct, i).(type) {
			case Scalar:
				return lvAgg{l.T, under(ct).(*types.Struct).Field(i).Type()}
			case PtrV:
				return l
			}
		}
		cur = env.fieldAt(base, ct, i)
	}
	return nil
}

func (v *Verifier) lookupGlobalIn(s string, pkg *types.Package) *types.Var {
	if pkg == nil {
		return nil
	}
	o, _ := pkg.Scope().Lookup(s).(*types.Var)
	return o
}

// havocTarget gives a modified location an arbitrary value.
func (ex *Exec) havocTarget(st *State, t modTarget) {
	if t.key == nil {
		st.setAll(t.name, ex.fresh(t.name, t.s))
		return
	}
	ms := SArr(SInt, t.vs)
	if t.lo == nil {
		st.setKey(t.name, ms, t.key, ex.fresh("hv."+t.name, t.vs))
		return
	}
	_, es := arrParts(t.vs)
	old := st.sel(st.get(t.name, ms), t.key)
	d := mkSub(t.hi, t.lo)
	if b1, o1, k1 := baseOff(t.lo); k1 {
		if b2, o2, k2 := baseOff(t.hi); k2 && b1 == b2 {
			d = mkBig(new(big.Int).Sub(o2, o1))
		}
	}
	if d.I != nil && d.I.IsInt64() && d.I.Int64() <= 32 {
		row := old
		for i := int64(0); i < d.I.Int64(); i++ {
			v := ex.fresh("hv", es)
			if strings.HasSuffix(t.name, "E!uint8") {
				st.assume(mkAnd(mkLe(mkInt(0), v), mkLe(v, mkInt(255))))
			}
			row = mkStore(row, mkAdd(t.lo, mkInt(i)), v)
		}
		st.setKey(t.name, ms, t.key, ex.nameRow(st, row))
		return
	}
	row := ex.fresh("hvrow."+t.name, t.vs)
	i := mkConst(ex.V.qname("i"), SInt)
	st.assume(mkForall([]*Term{i}, [][]*Term{{mkApp("select", es, row, i)}}, mkOr(mkAnd(mkLe(t.lo, i), mkLt(i, t.hi)), mkApp("=", SBool, mkApp("select", es, row, i), mkApp("select", es, old, i)))))
	st.setKey(t.name, ms, t.key, row)
}

func (ex *Exec) havocAll(st *State) {
	// everything reachable may have changed
	for _, name := range sortedKeys(st.heap) {
		if strings.HasPrefix(name, "IT!") {
			continue
		}
		st.logWrite(name, nil)
		delete(st.heap, name)
	}
	ex.n++
	st.base = fmt.Sprintf("%d", ex.n)
	st.allWrites = true
	st.bumpAlloc()
}

func (st *State) bumpAlloc() {
	a := st.ex.fresh("alloc", SInt)
	st.assume(mkLe(st.alloc, a))
	st.alloc = a
}

var _ = constant.MakeBool
var _ = sort.Strings
