package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type LoopInfo struct {
	Header *ssa.BasicBlock
	Body   map[*ssa.BasicBlock]bool
}

func (ex *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*LoopInfo {
	if m, ok := ex.loopInfo[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*LoopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				li := m[s]
				if li == nil {
					li = &LoopInfo{Header: s, Body: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = li
				}
				var stack []*ssa.BasicBlock
				if !li.Body[b] {
					li.Body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !li.Body[p] {
							li.Body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	ex.loopInfo[fn] = m
	return m
}

type modset struct {
	full map[string]bool
	keys map[string]map[string]*Term
}

type cand struct {
	key  string
	user bool
	cl   *Clause
	f    func(st *State) *Term // nil: does not apply
}

// enterLoop cuts a loop: infers an inductive invariant, then continues from an arbitrary iteration.
func (ex *Exec) enterLoop(st *State, li *LoopInfo, prev *ssa.BasicBlock, k Kont) {
	f := st.top()
	h := li.Header
	init := ex.phiVals(st, h, prev)
	for p, v := range init {
		f.locals[p] = v
	}
	// constant trip count: execute iteration by iteration
	if ex.constCond(st, h, li) {
		f.loops = append(f.loops, &loopCtx{li: li, mode: "unroll"})
		ex.steps1(st, h, ex.firstNonPhi(h), k)
		return
	}
	depth := len(st.frames)
	pre := st.clone()
	mark := ex.n
	mod := &modset{full: map[string]bool{}, keys: map[string]map[string]*Term{}}
	mod.full["alloc"] = false
	allocs := false

	header := func() (*State, *State) {
		s := pre.clone()
		hf := s.top()
		for _, in := range h.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			hf.locals[p] = ex.havocPhi(s, p, init[p])
		}
		if allocs {
			s.bumpAlloc()
			s.logWrite("alloc", nil)
		}
		for _, name := range sortedKeys(mod.full) {
			if name == "alloc" {
				continue
			}
			so, ok := ex.sorts[name]
			if !ok {
				continue
			}
			s.setAll(name, ex.fresh(name, so))
		}
		for _, name := range sortedKeys(mod.keys) {
			if mod.full[name] {
				continue
			}
			so := ex.sorts[name]
			_, vs := arrParts(so)
			for _, ks := range sortedKeys(mod.keys[name]) {
				s.setKey(name, so, mod.keys[name][ks], ex.fresh("hv."+name, vs))
			}
		}
		return s, s.clone()
	}
	runBody := func(s *State, mode string, onBack func(*State, *ssa.BasicBlock)) {
		fr := s.top()
		fr.loops = append(fr.loops, &loopCtx{li: li, mode: mode, onBack: onBack})
		ex.steps1(s, h, ex.firstNonPhi(h), func(*State, Val) {})
	}
	// 1. what does the body write?
	ex.quiet++
	ex.dry++
	for round := 0; round < 6; round++ {
		grew := false
		s, _ := header()
		m := s.wlog
		n0 := ex.n
		_ = n0
		runBody(s, "dry", func(b *State, from *ssa.BasicBlock) {
			if len(b.frames) != depth {
				return
			}
			if b.allWrites && !pre.allWrites {
				// everything may change
			}
			for name, w := range b.writesSince(m) {
				if name == "alloc" {
					if !allocs {
						allocs = true
						grew = true
					}
					continue
				}
				if mod.full[name] {
					continue
				}
				full := w.full
				if _, isArr := ex.sorts[name]; !isArr {
					full = true
				}
				for ks, kt := range w.keys {
					if ex.stable(kt, mark) && !allocatedSince(kt, pre) {
						if mod.keys[name] == nil {
							mod.keys[name] = map[string]*Term{}
						}
						if _, ok := mod.keys[name][ks]; !ok {
							mod.keys[name][ks] = kt
							grew = true
						}
					} else {
						full = true
					}
				}
				if full {
					mod.full[name] = true
					grew = true
				}
			}
			if b.alloc.String() != pre.alloc.String() && !allocs {
				allocs = true
				grew = true
			}
		})
		if !grew {
			break
		}
	}
	ex.quiet--
	ex.dry--
	if ex.aborted != "" {
		return
	}
	// 2. candidate invariants
	if ex.dry > 0 && pre.top() != nil {
		s, _ := header()
		fr := s.top()
		fr.loops = append(fr.loops, &loopCtx{li: li, mode: "final", onBack: func(*State, *ssa.BasicBlock) {}})
		ex.steps1(s, h, ex.firstNonPhi(h), k)
		return
	}
	// The candidates lost when this loop was analysed before on the same path stay lost: the
	// enclosing loops' invariants only get weaker from round to round.
	ck := fmt.Sprintf("%p %d %s", h, depth, strings.Join(pre.trace(), "|"))
	lost := ex.lostCands[ck]
	if lost == nil {
		lost = map[string]bool{}
		ex.lostCands[ck] = lost
	}
	var cands []*cand
	for _, c := range ex.candidates(pre, li, init, mod) {
		if !lost[c.key] {
			cands = append(cands, c)
		}
	}
	ex.quiet++
	var active []*cand
	{
		// base case
		res := make([]bool, len(cands))
		var wg sync.WaitGroup
		for i, c := range cands {
			t := ex.evalCand(c, pre)
			if t == nil {
				continue
			}
			i := i
			text := (&Query{Asserts: pre.asserts(), Goal: t}).Build()
			if isTrue(t) {
				res[i] = true
				continue
			}
			ms := 500
			if c.user {
				ms = 3000
			}
			wg.Add(1)
			go func() { defer wg.Done(); res[i] = quickProve(text, ms) }()
		}
		wg.Wait()
		for i, c := range cands {
			if res[i] {
				active = append(active, c)
				continue
			}
			lost[c.key] = true
			if os.Getenv("GV_INV") != "" && c.user {
				fmt.Fprintf(os.Stderr, "%.1f %s: entry drops %s\n", time.Since(startTime).Seconds(), ex.fname(), c.key)
			}
		}
	}
	for round := 0; round < 12 && len(active) > 0; round++ {
		drop := map[*cand]bool{}
		failed := map[*cand][]string{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		s, _ := header()
		ex.assumeCands(s, active)
		runBody(s, "infer", func(b *State, from *ssa.BasicBlock) {
			if len(b.frames) != depth {
				return
			}
			vals := ex.phiVals(b, h, from)
			for p, v := range vals {
				b.top().locals[p] = v
			}
			as := b.asserts()
			las, less := b.lightAsserts("")
			for _, c := range active {
				mu.Lock()
				d := drop[c]
				mu.Unlock()
				if d {
					continue
				}
				t := ex.evalCand(c, b)
				if t == nil {
					mu.Lock()
					drop[c] = true
					failed[c] = nil
					mu.Unlock()
					continue
				}
				if isTrue(t) || b.facts[t.String()] {
					continue
				}
				for _, g := range splitGoal(t) {
					text := (&Query{Asserts: as, Goal: g}).Build()
					light := ""
					if c.user {
						if ka, l := b.lightAsserts(c.key); l {
							light = (&Query{Asserts: ka, Goal: g}).Build()
						}
					} else if less {
						light = (&Query{Asserts: las, Goal: g}).Build()
					}
					wg.Add(1)
					c := c
					go func() {
						defer wg.Done()
						ms := 400
						if c.user {
							ms = 4000
						}
						mu.Lock()
						d := drop[c] && len(failed[c]) == 0
						mu.Unlock()
						if d {
							return
						}
						if light != "" && quickProve(light, ms/4) {
							return
						}
						if !quickProve(text, ms) {
							mu.Lock()
							drop[c] = true
							failed[c] = append(failed[c], text)
							mu.Unlock()
							if os.Getenv("GV_INV") == "2" && (c.user || strings.HasPrefix(c.key, "frame")) {
								os.WriteFile("/tmp/inv_"+san(clip(c.key))+".smt2", []byte(text+"(check-sat)\n"), 0o644)
							}
						}
					}()
				}
			}
		})
		wg.Wait()
		if ex.aborted != "" {
			ex.quiet--
			return
		}
		// a template that would be lost altogether gets the slow solvers before it is given up
		alive := map[*Clause]bool{}
		for _, c := range active {
			if c.user && !drop[c] {
				alive[c.cl] = true
			}
		}
		tried := map[*Clause]int{}
		for _, c := range active {
			if !c.user || !drop[c] || alive[c.cl] || tried[c.cl] >= 2 || len(failed[c]) == 0 {
				continue
			}
			tried[c.cl]++
			all := true
			for _, text := range failed[c] {
				if !hardInv(text) {
					all = false
					break
				}
			}
			if all {
				delete(drop, c)
				alive[c.cl] = true
			}
		}
		if os.Getenv("GV_INV") == "2" {
			for c, ts := range failed {
				if c.user && drop[c] {
					for i, t := range ts {
						os.WriteFile(fmt.Sprintf("/tmp/inv_%s_%d.smt2", san(clip(c.key)), i), []byte(t+"(check-sat)\n"), 0o644)
					}
				}
			}
		}
		if len(drop) == 0 {
			break
		}
		var na []*cand
		for _, c := range active {
			if !drop[c] {
				na = append(na, c)
				continue
			}
			lost[c.key] = true
			if os.Getenv("GV_INV") != "" && (c.user || os.Getenv("GV_INV") == "3") {
				fmt.Fprintf(os.Stderr, "%.1f %s: loop %s drops %s\n", time.Since(startTime).Seconds(), ex.fname(), h.Comment, c.key)
			}
		}
		active = na
		if round == 11 {
			active = nil
		}
	}
	ex.quiet--
	if os.Getenv("GV_INV") != "" {
		for _, c := range active {
			fmt.Fprintf(os.Stderr, "%.1f %s: loop %s keeps %s\n", time.Since(startTime).Seconds(), ex.fname(), h.Comment, c.key)
		}
	}
	// 3. the verified pass
	s, _ := header()
	ex.assumeCands(s, active)
	fr := s.top()
	heldAtHead := len(s.held)
	fr.loops = append(fr.loops, &loopCtx{li: li, mode: "final", onBack: func(b *State, from *ssa.BasicBlock) {
		if os.Getenv("GV_CANARY") != "" && ex.quiet == 0 {
			ex.canary(b, "end of the loop body "+ex.posOfBlock(from), false)
		}
		if len(b.frames) == depth && len(b.held) != heldAtHead && ex.quiet == 0 {
			ex.lockObl(b, "locks held at the end of an iteration are those held at its start", tFalse, ex.posOfBlock(from))
		}
	}})
	ex.steps1(s, h, ex.firstNonPhi(h), k)
}

// allocatedSince: syntactically an object allocated after the state e.
func allocatedSince(k *Term, e *State) bool {
	for strings.HasPrefix(k.Op, "emb!") || strings.HasPrefix(k.Op, "elt!") {
		k = k.Args[0]
	}
	b, o, ok := baseOff(k)
	eb, eo, ok2 := baseOff(e.alloc)
	return ok && ok2 && b == eb && o.Cmp(eo) >= 0
}

var startTime = time.Now()

func (ex *Exec) posOfBlock(b *ssa.BasicBlock) string {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return ex.pos(b.Instrs[i])
		}
	}
	return b.Parent().Name()
}

func quickProve(text string, ms int) bool {
	if v, ok := proofCache.Load(text); ok {
		return v.(Verdict).Proved
	}
	if ask(text, ms, false) == "unsat" {
		proofCache.Store(text, Verdict{Proved: true, By: "z3"})
		return true
	}
	return false
}

// hardInv retries an invariant step with the second solver.
func hardInv(text string) bool {
	v := ProveText(text, true)
	if v.Proved {
		proofCache.Store(text, v)
	}
	return v.Proved
}

// stable: the term mentions no symbol created after the loop was entered.
func (ex *Exec) stable(t *Term, mark int) bool {
	ok := true
	t.walk(map[*Term]bool{}, func(x *Term) {
		if len(x.Args) == 0 && x.I == nil {
			if n, has := ex.symN[x.Op]; has && n > mark {
				ok = false
			}
		}
	})
	return ok
}

func (ex *Exec) havocPhi(st *State, p *ssa.Phi, init Val) Val {
	switch v := init.(type) {
	case PtrV:
		if v.Loc.Kind != "cell" {
			ex.unsupported(st, "loop-carried interior pointer")
		}
	case ClosureV:
		return v
	case IterV:
		return v
	}
	return ex.freshVal(st, "phi."+p.Comment, p.Type())
}

// constCond: the header's exit test is decided by constants on entry.
func (ex *Exec) constCond(st *State, h *ssa.BasicBlock, li *LoopInfo) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if li.Body[h.Succs[0]] == li.Body[h.Succs[1]] {
		return false
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	// a body that branches would multiply the paths: cut it like any other loop
	if ex.Con == nil || ex.Con.Flags["unroll"] == "" {
		for bb := range li.Body {
			if bb == h {
				continue
			}
			if _, ok := bb.Instrs[len(bb.Instrs)-1].(*ssa.If); ok {
				return false
			}
		}
	}
	// all instructions in the header must be arithmetic
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.DebugRef:
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	var cv func(v ssa.Value) bool
	cv = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Const:
			return v.Value != nil
		case *ssa.BinOp:
			if v.Block() == h {
				return cv(v.X) && cv(v.Y)
			}
		case *ssa.Call:
			if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && v.Block() == h {
				if s, ok := st.top().locals[v.Call.Args[0]].(SliceV); ok {
					return s.Len.I != nil
				}
				return false
			}
		}
		if x, ok := st.top().locals[v].(Scalar); ok {
			return x.T.I != nil
		}
		return false
	}
	return cv(b.X) && cv(b.Y)
}

func (ex *Exec) evalCand(c *cand, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("GV_INV") != "" && c.user {
				fmt.Fprintf(os.Stderr, "candidate %s: %v\n", c.key, r)
			}
			t = nil
		}
	}()
	return c.f(st)
}

func (ex *Exec) assumeCands(st *State, cs []*cand) {
	for _, c := range cs {
		if t := ex.evalCand(c, st); t != nil {
			if c.user {
				st.assuming = c.key
			}
			st.assume(t)
			st.assuming = ""
		}
	}
}

type holeVal struct {
	name string
	t    types.Type
	get  func(st *State) Val
}

func (ex *Exec) candidates(pre *State, li *LoopInfo, init map[*ssa.Phi]Val, mod *modset) []*cand {
	var out []*cand
	h := li.Header
	f := pre.top()
	add := func(key string, fn func(st *State) *Term) {
		out = append(out, &cand{key: key, f: fn})
	}
	scal := func(st *State, v ssa.Value) *Term {
		if c, ok := v.(*ssa.Const); ok {
			return ex.value(st, c).(Scalar).T
		}
		s, ok := st.top().locals[v].(Scalar)
		if !ok {
			return nil
		}
		return s.T
	}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	isInt := func(t types.Type) bool {
		b, ok := under(t).(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	for _, p := range phis {
		p := p
		switch v := init[p].(type) {
		case Scalar:
			if isInt(p.Type()) {
				i0 := v.T
				add(p.Name()+">=init", func(st *State) *Term { return mkLe(i0, scal(st, p)) })
				add(p.Name()+"<=init", func(st *State) *Term { return mkLe(scal(st, p), i0) })
			} else {
				i0 := v.T
				add(p.Name()+"==init", func(st *State) *Term { return mkEq(i0, scal(st, p)) })
				if _, ok := under(p.Type()).(*types.Pointer); ok {
					add(p.Name()+"!=nil", func(st *State) *Term { return mkNot(mkEq(scal(st, p), mkInt(0))) })
					a0 := pre.alloc
					add(p.Name()+" fresh or nil", func(st *State) *Term {
						return mkOr(mkEq(scal(st, p), mkInt(0)), mkLe(a0, mkApp("root", SInt, scal(st, p))))
					})
				}
			}
		case SliceV:
			a0 := pre.alloc
			i0 := v
			sl := func(st *State) SliceV { return st.top().locals[p].(SliceV) }
			add(p.Name()+" fresh or empty", func(st *State) *Term {
				return mkOr(mkEq(sl(st).Arr, mkInt(0)), mkLe(a0, mkApp("root", SInt, sl(st).Arr)))
			})
			add(p.Name()+" same array", func(st *State) *Term { return mkEq(sl(st).Arr, i0.Arr) })
			add(p.Name()+" off 0", func(st *State) *Term { return mkEq(sl(st).Off, mkInt(0)) })
			add(p.Name()+" not shorter", func(st *State) *Term { return mkLe(i0.Len, sl(st).Len) })
			for _, q := range phis {
				q := q
				if qi, ok := init[q].(Scalar); ok && isInt(q.Type()) {
					add(p.Name()+" len tracks "+q.Name(), func(st *State) *Term {
						return mkEq(mkSub(sl(st).Len, i0.Len), mkSub(scal(st, q), qi.T))
					})
				}
			}
		case IfaceV:
			i0 := v
			add(p.Name()+"==init", func(st *State) *Term {
				x := st.top().locals[p].(IfaceV)
				return mkAnd(mkEq(x.Tag, i0.Tag), mkEq(x.Data, i0.Data))
			})
			add(p.Name()+"!=nil", func(st *State) *Term {
				x := st.top().locals[p].(IfaceV)
				return mkNot(mkEq(x.Tag, mkInt(0)))
			})
		}
	}
	// linear relations between counters with constant steps
	step := func(p *ssa.Phi) *Term {
		var c *Term
		for i, e := range p.Edges {
			if !li.Body[h.Preds[i]] {
				continue
			}
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != ssa.Value(p) {
				return nil
			}
			k, ok := b.Y.(*ssa.Const)
			if !ok {
				return nil
			}
			t := constVal(ex, k.Value, k.Type()).(Scalar).T
			if c != nil && !same(c, t) {
				return nil
			}
			c = t
		}
		return c
	}
	for i, p := range phis {
		p := p
		if !isInt(p.Type()) || step(p) == nil {
			continue
		}
		cp := step(p)
		p0, ok := init[p].(Scalar)
		if !ok {
			continue
		}
		if cp.I.CmpAbs(mkInt(1).I) > 0 {
			add(p.Name()+" stride", func(st *State) *Term {
				return mkEq(mkMod(mkSub(scal(st, p), p0.T), cp), mkInt(0))
			})
		}
		for _, q := range phis[i+1:] {
			q := q
			if !isInt(q.Type()) || step(q) == nil {
				continue
			}
			cq := step(q)
			q0 := init[q].(Scalar)
			add(p.Name()+"~"+q.Name(), func(st *State) *Term {
				return mkEq(mkMul(mkSub(scal(st, p), p0.T), cq), mkMul(mkSub(scal(st, q), q0.T), cp))
			})
		}
	}
	// bounds from comparisons
	seenCmp := map[string]bool{}
	for b := range li.Body {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch c.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			if !isInt(c.X.Type()) {
				continue
			}
			for _, pr := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
				var phi *ssa.Phi
				x := pr[0]
				if bo, ok := x.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
					x = bo.X
				}
				if p, ok := x.(*ssa.Phi); ok && p.Block() == h {
					phi = p
				}
				if phi == nil {
					continue
				}
				n := pr[1]
				if _, isC := n.(*ssa.Const); !isC {
					in2, isI := n.(ssa.Instruction)
					if isI && li.Body[in2.Block()] {
						// len(x) of a loop-invariant x, computed in the loop
						if call, ok := n.(*ssa.Call); ok {
							if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
								arg := call.Call.Args[0]
								if _, has := f.locals[arg]; has {
									key := phi.Name() + "<=len" + arg.Name()
									if !seenCmp[key] {
										seenCmp[key] = true
										ln := func(st *State) *Term {
											switch v := st.top().locals[arg].(type) {
											case SliceV:
												return v.Len
											case Scalar:
												if v.T.S == SSeq {
													return mkApp("len", SInt, v.T)
												}
											}
											return nil
										}
										add(key, func(st *State) *Term { return mkLe(scal(st, phi), ln(st)) })
										add(key+"<", func(st *State) *Term { return mkLt(scal(st, phi), ln(st)) })
									}
								}
							}
						}
						continue
					}
					if _, has := f.locals[n]; !has {
						continue
					}
				}
				key := phi.Name() + "~" + n.Name()
				if seenCmp[key] {
					continue
				}
				seenCmp[key] = true
				add(phi.Name()+"<="+n.Name(), func(st *State) *Term { return mkLe(scal(st, phi), scal(st, n)) })
				add(phi.Name()+"<"+n.Name(), func(st *State) *Term { return mkLt(scal(st, phi), scal(st, n)) })
				add(phi.Name()+">="+n.Name(), func(st *State) *Term { return mkLe(scal(st, n), scal(st, phi)) })
				add(phi.Name()+"+1>="+n.Name(), func(st *State) *Term { return mkLe(scal(st, n), mkAdd(scal(st, phi), mkInt(1))) })
				p0 := init[phi]
				if p0s, ok := p0.(Scalar); ok {
					add("max "+phi.Name()+n.Name(), func(st *State) *Term {
						return mkOr(mkLe(scal(st, phi), scal(st, n)), mkEq(scal(st, phi), p0s.T))
					})
				}
			}
		}
	}
	// frames of wholly havocked maps
	a0 := pre.alloc
	for _, name := range sortedKeys(mod.full) {
		name := name
		so, ok := ex.sorts[name]
		if !ok || name == "alloc" || strings.HasPrefix(name, "IT!") || strings.HasPrefix(name, "V!") || strings.HasPrefix(name, "G!") || !strings.HasPrefix(so, "(Array Int ") {
			continue
		}
		old := pre.get(name, so)
		keys := mod.keys[name]
		_, vs := arrParts(so)
		mk := func(st *State, freshOK bool) *Term {
			cur := st.get(name, so)
			r := mkConst("q!fr", SInt)
			var alts []*Term
			if freshOK {
				alts = append(alts, mkLe(a0, mkApp("root", SInt, r)))
			}
			for _, ks := range sortedKeys(keys) {
				hit := mkEq(r, keys[ks])
				if strings.HasPrefix(name, "E!") { // nothing is ever written through a nil slice
					hit = mkAnd(hit, mkNot(mkEq(keys[ks], mkInt(0))))
				}
				alts = append(alts, hit)
			}
			alts = append(alts, mkApp("=", SBool, mkApp("select", vs, cur, r), mkApp("select", vs, old, r)))
			return mkForall([]*Term{r}, [][]*Term{{mkApp("select", vs, cur, r)}}, mkOr(alts...))
		}
		add("frame "+name, func(st *State) *Term { return mk(st, true) })
		// everything reached through freshly allocated or non-nil objects excluded: writes below one parameter
		for _, par := range f.fn.Params {
			pv, ok := f.locals[par].(Scalar)
			if !ok {
				continue
			}
			if _, isP := under(par.Type()).(*types.Pointer); !isP {
				continue
			}
			rt := mkApp("root", SInt, pv.T)
			add("frame "+name+" outside "+par.Name(), func(st *State) *Term {
				cur := st.get(name, so)
				r := mkConst("q!fr", SInt)
				return mkForall([]*Term{r}, [][]*Term{{mkApp("select", vs, cur, r)}}, mkOr(mkEq(mkApp("root", SInt, r), rt), mkLe(a0, mkApp("root", SInt, r)), mkApp("=", SBool, mkApp("select", vs, cur, r), mkApp("select", vs, old, r))))
			})
		}
	}
	// contract-supplied templates
	var contracts []*Contract
	if c := ex.Con; c != nil {
		contracts = append(contracts, c)
	}
	if c := ex.V.cof[originOf(f.fn)]; c != nil && c != ex.Con {
		contracts = append(contracts, c)
	}
	// values a hole can take
	var hv []holeVal
	for _, p := range phis {
		p := p
		// the index of a range loop is the loop variable plus one
		if !isInt(p.Type()) || p.Comment != "rangeindex" {
			hv = append(hv, holeVal{p.Name(), p.Type(), func(st *State) Val { return st.top().locals[p] }})
		} else {
			hv = append(hv, holeVal{p.Name() + "+1", p.Type(), func(st *State) Val {
				return Scalar{mkAdd(st.top().locals[p].(Scalar).T, mkInt(1))}
			}})
		}
	}
	nphi := len(hv)
	// loop counters of the enclosing loops in this frame
	outerPhi := map[ssa.Value]bool{}
	skipPhi := map[ssa.Value]bool{}
	for _, lc := range f.loops {
		if lc.li == nil || lc.li == li || !lc.li.Body[h] {
			continue
		}
		for _, in := range lc.li.Header.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			outerPhi[p] = true
			if isInt(p.Type()) && p.Comment == "rangeindex" {
				skipPhi[p] = true
				hv = append(hv, holeVal{p.Name() + "+1", p.Type(), func(st *State) Val {
					return Scalar{mkAdd(st.top().locals[p].(Scalar).T, mkInt(1))}
				}})
			}
		}
	}
	for _, v := range sortedLocals(f) {
		v := v
		if skipPhi[v] {
			continue
		}
		if isInt(v.Type()) && !outerPhi[v] {
			if _, isPar := v.(*ssa.Parameter); !isPar {
				continue
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			if in.Block() != nil && (li.Body[in.Block()] || !in.Block().Dominates(h)) {
				continue
			}
		}
		switch f.locals[v].(type) {
		case Scalar, SliceV, IfaceV, PtrV:
		default:
			continue
		}
		if _, isPar := v.(*ssa.Parameter); isPar && len(pre.frames) == 1 {
			continue // named in the contract
		}
		hv = append(hv, holeVal{v.Name(), v.Type(), func(st *State) Val { return st.top().locals[v] }})
		// the variable held in a local cell
		if pv, ok := f.locals[v].(PtrV); ok && pv.Loc.Kind == "cell" {
			hv = append(hv, holeVal{"*" + v.Name(), pv.Loc.T, func(st *State) Val { return ex.loadLoc(st, st.top().locals[v].(PtrV).Loc) }})
		}
	}
	_ = nphi
	nested := false
	for _, fr := range pre.frames {
		for _, lc := range fr.loops {
			if lc.li != nil && (fr != f || lc.li != li && lc.li.Body[h]) {
				nested = true
			}
		}
	}
	// the map iteration this loop performs (or the innermost one around it)
	iterName := ""
	if n := len(pre.iters); n > 0 {
		iterName = pre.iters[n-1]
	}
	for _, in := range h.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it, ok := f.locals[nx.Iter].(IterV); ok && it.Map != nil {
				iterName = it.Name
			}
		}
	}
	for _, c := range contracts {
		for _, cl := range c.Invs {
			if cl.Level == 1 && nested || cl.Level == 2 && !nested {
				continue
			}
			cl := cl
			pkg := ex.pkgOf(f.fn)
			var inst func(i int, names map[string]holeVal, desc string)
			count := 0
			inst = func(i int, names map[string]holeVal, desc string) {
				if i == len(cl.Holes) {
					own := len(cl.Holes) == 0 || len(phis) == 0
					for _, v := range names {
						for _, p := range phis {
							if v.name == p.Name() || v.name == p.Name()+"+1" {
								own = true
							}
						}
						if strings.HasPrefix(v.name, "*") {
							own = true
						}
					}
					if !own {
						return
					}
					if count > 60 {
						return
					}
					count++
					nm := map[string]holeVal{}
					for k, v := range names {
						nm[k] = v
					}
					key := cl.Pos + desc + " " + clip(cl.Src)
					out = append(out, &cand{key: key, user: true, cl: cl, f: func(st *State) *Term {
						m := map[string]SV{}
						for k, v := range ex.entryNames {
							m[k] = v
						}
						for k, v := range nm {
							m[k] = SV{V: v.get(st), T: v.t}
						}
						env := &Env{ex: ex, st: st, old: ex.entry, pre: pre, names: m, pkg: pkg, iter: iterName}
						return env.Bool(cl.E)
					}})
					return
				}
				ht := cl.Holes[i].Type
				var want types.Type
				if !strings.HasPrefix(ht, "?") {
					want = ex.V.parseType(ht, pkg)
					if want == nil {
						return
					}
				}
				kind := cl.Holes[i].Kind
				for _, v := range hv {
					if kind != "" {
						base := strings.TrimSuffix(v.name, "+1")
						isCur, isOut := strings.HasPrefix(base, "*"), strings.HasPrefix(base, "*")
						for _, p := range phis {
							isCur = isCur || p.Name() == base
						}
						for p := range outerPhi {
							isOut = isOut || p.Name() == base
						}
						if kind == "cur" && !isCur || kind == "outer" && !isOut {
							continue
						}
					}
					if want != nil && !types.Identical(types.Unalias(v.t), types.Unalias(want)) {
						continue
					}
					dup := false
					for _, o := range names {
						if o.name == v.name {
							dup = true
						}
					}
					if dup {
						continue
					}
					names[cl.Holes[i].Name] = v
					inst(i+1, names, desc+" "+cl.Holes[i].Name+"="+v.name)
					delete(names, cl.Holes[i].Name)
				}
			}
			inst(0, map[string]holeVal{}, "")
		}
	}
	return out
}

func originOf(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

func sortedLocals(f *Frame) []ssa.Value {
	var out []ssa.Value
	for _, p := range f.fn.Params {
		if _, ok := f.locals[p]; ok {
			out = append(out, p)
		}
	}
	for _, p := range f.fn.FreeVars {
		if _, ok := f.locals[p]; ok {
			out = append(out, p)
		}
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, has := f.locals[v]; has {
					out = append(out, v)
				}
			}
		}
	}
	return out
}
