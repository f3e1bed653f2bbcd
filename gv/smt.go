package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---- function and axiom registry (global, append-only during setup) ----

type FuncDecl struct {
	Name string
	Args []Sort
	Ret  Sort
}

type Axiom struct {
	Text string
	// each alternative is a set of symbols that must all be present
	Need [][]string
	Uses []string
	Src  string
}

type Registry struct {
	mu     sync.Mutex
	funcs  sync.Map // name -> *FuncDecl
	Axioms []*Axiom
	Lits   map[string]string // string value -> lit name
	litVal sync.Map // lit name -> string
}

func (r *Registry) Fn(name string) *FuncDecl {
	if f, ok := r.funcs.Load(name); ok {
		return f.(*FuncDecl)
	}
	return nil
}

func (r *Registry) LitVal(name string) string {
	if s, ok := r.litVal.Load(name); ok {
		return s.(string)
	}
	return ""
}

var reg = &Registry{Lits: map[string]string{}}

func (r *Registry) Func(name string, ret Sort, args ...Sort) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.funcs.LoadOrStore(name, &FuncDecl{name, args, ret})
}

var symRe = regexp.MustCompile(`\|[^|]*\||[A-Za-z_!.$][A-Za-z0-9_!.$@#%&*/<>=?^~+-]*`)

func (r *Registry) Axiom(src, text string, need ...string) {
	var alts [][]string
	for _, n := range need {
		alts = append(alts, strings.Fields(n))
	}
	uses := map[string]bool{}
	for _, m := range symRe.FindAllString(text, -1) {
		uses[m] = true
	}
	r.mu.Lock()
	r.Axioms = append(r.Axioms, &Axiom{Text: text, Need: alts, Uses: sortedKeys(uses), Src: src})
	r.mu.Unlock()
}

func (r *Registry) AxiomTerm(src string, t *Term) {
	var need []string
	if t.Op == "forall" && len(t.Trig) > 0 {
		for _, tr := range t.Trig {
			syms := map[string]bool{}
			for _, x := range tr {
				x.walk(map[*Term]bool{}, func(y *Term) {
					if len(y.Args) > 0 {
						if reg.Fn(y.Op) != nil {
							syms[y.Op] = true
						}
					}
				})
			}
			need = append(need, strings.Join(sortedKeys(syms), " "))
		}
	} else {
		t.walk(map[*Term]bool{}, func(y *Term) {
			if reg.Fn(y.Op) != nil && y.I == nil {
				need = append(need, y.Op)
			}
		})
	}
	r.Axiom(src, "(assert "+t.String()+")", need...)
}

func mkLit(s string) *Term {
	reg.mu.Lock()
	defer reg.mu.Unlock()
	n, ok := reg.Lits[s]
	if !ok {
		n = "lit!" + litName(s)
		for reg.LitVal(n) != "" {
			n += "x"
		}
		if s == "" {
			n = "lit!"
		}
		reg.Lits[s] = n
		reg.litVal.Store(n, s)
	}
	return mkConst(n, SSeq)
}

func litName(s string) string {
	var sb strings.Builder
	for _, c := range []byte(s) {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			sb.WriteByte(c)
		} else {
			fmt.Fprintf(&sb, "_%02x", c)
		}
		if sb.Len() > 60 {
			fmt.Fprintf(&sb, "_n%d_%x", len(s), hashStr(s))
			break
		}
	}
	return sb.String()
}

func hashStr(s string) uint32 {
	h := uint32(2166136261)
	for _, c := range []byte(s) {
		h = (h ^ uint32(c)) * 16777619
	}
	return h
}

func init() {
	f := reg.Func
	f("len", SInt, SSeq)
	f("at", SInt, SSeq, SInt)
	f("cat", SSeq, SSeq, SSeq)
	f("sub", SSeq, SSeq, SInt, SInt)
	f("mk", SSeq, SArr(SInt, SInt), SInt, SInt)
	f("single", SSeq, SInt)
	f("seqeq", SBool, SSeq, SSeq)
	f("seqdiff", SInt, SSeq, SSeq)
	f("seqlt", SBool, SSeq, SSeq)
	f("seqhas", SBool, SSeq, SInt)
	f("root", SInt, SInt)
	f("refkind", SInt, SInt)
	f("refbase", SInt, SInt)
	f("sadd", SInt, SInt, SInt)
	f("tdiv", SInt, SInt, SInt)
	f("tmod", SInt, SInt, SInt)
	a := func(text string, need ...string) { reg.Axiom("prelude", text, need...) }
	a("(assert (forall ((s BSeq)) (! (<= 0 (len s)) :pattern ((len s)))))", "len")
	// sequences are over the integers; those that come from the program hold bytes (see Build)
	a("(assert (forall ((s BSeq) (t BSeq)) (! (= (len (cat s t)) (+ (len s) (len t))) :pattern ((cat s t)))))", "cat")
	a("(assert (forall ((s BSeq) (t BSeq) (i Int)) (! (=> (and (<= 0 i) (< i (len s))) (= (at (cat s t) i) (at s i))) :pattern ((at (cat s t) i)))))", "cat at")
	a("(assert (forall ((s BSeq) (t BSeq) (i Int)) (! (=> (and (<= (len s) i) (< i (+ (len s) (len t)))) (= (at (cat s t) i) (at t (- i (len s))))) :pattern ((at (cat s t) i)))))", "cat at")
	a("(assert (forall ((s BSeq) (t BSeq)) (! (=> (= (len t) 0) (= (cat s t) s)) :pattern ((cat s t)))))", "cat")
	a("(assert (forall ((s BSeq) (t BSeq)) (! (=> (= (len s) 0) (= (cat s t) t)) :pattern ((cat s t)))))", "cat")
	a("(assert (forall ((s BSeq) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (len s))) (= (len (sub s a b)) (- b a))) :pattern ((sub s a b)))))", "sub")
	a("(assert (forall ((s BSeq) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (len s)) (<= 0 i) (< i (- b a))) (= (at (sub s a b) i) (at s (+ a i)))) :pattern ((at (sub s a b) i)))))", "sub at")
	a("(assert (forall ((s BSeq) (b Int)) (! (=> (= b (len s)) (= (sub s 0 b) s)) :pattern ((sub s 0 b)))))", "sub")
	a("(assert (forall ((m (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (len (mk m o n)) n)) :pattern ((mk m o n)))))", "mk")
	a("(assert (forall ((m (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (at (mk m o n) i) (select m (+ o i)))) :pattern ((at (mk m o n) i)))))", "mk at")
	a("(assert (forall ((c Int)) (! (and (= (len (single c)) 1) (= (at (single c) 0) c)) :pattern ((single c)))))", "single")
	a("(assert (forall ((s BSeq) (t BSeq)) (! (=> (seqeq s t) (= s t)) :pattern ((seqeq s t)))))", "seqeq")
	a("(assert (forall ((s BSeq) (t BSeq)) (! (=> (and (= (len s) (len t)) (=> (and (<= 0 (seqdiff s t)) (< (seqdiff s t) (len s))) (= (at s (seqdiff s t)) (at t (seqdiff s t))))) (seqeq s t)) :pattern ((seqeq s t)))))", "seqeq")
	a("(assert (forall ((s BSeq) (t BSeq)) (! (=> (= s t) (seqeq s t)) :pattern ((seqeq s t)))))", "seqeq")
	// strict total order on strings (byte-lexicographic in Go; only the order laws and the minimum are used)
	a("(assert (forall ((s BSeq)) (! (not (seqlt s s)) :pattern ((seqlt s s)))))", "seqlt")
	a("(assert (forall ((s BSeq) (t BSeq)) (! (and (=> (seqlt s t) (not (= s t))) (=> (seqlt s t) (not (seqlt t s)))) :pattern ((seqlt s t)))))", "seqlt")
	a("(assert (forall ((s BSeq) (t BSeq)) (! (or (seqlt s t) (seqlt t s) (seqeq s t)) :pattern ((seqlt s t)))))", "seqlt")
	a("(assert (forall ((s BSeq) (t BSeq) (u BSeq)) (! (=> (and (seqlt s t) (seqlt t u)) (seqlt s u)) :pattern ((seqlt s t) (seqlt t u)))))", "seqlt")
	a("(assert (forall ((s BSeq) (t BSeq)) (! (=> (= (len s) 0) (not (seqlt t s))) :pattern ((seqlt t s)))))", "seqlt")
	a("(assert (forall ((s BSeq) (t BSeq)) (! (=> (and (= (len s) 0) (< 0 (len t))) (seqlt s t)) :pattern ((seqlt s t)))))", "seqlt")
	a("(assert (forall ((o Int) (i Int)) (! (= (sadd o i) (+ o i)) :pattern ((sadd o i)))))", "sadd")
	a("(assert (= (root 0) 0))", "root")
	a("(assert (forall ((x Int) (y Int)) (! (= (tdiv x y) (ite (= y 0) 0 (ite (<= 0 x) (ite (< 0 y) (div x y) (- (div x (- y)))) (ite (< 0 y) (- (div (- x) y)) (div (- x) (- y)))))) :pattern ((tdiv x y)))))", "tdiv")
	a("(assert (forall ((x Int) (y Int)) (! (= (tmod x y) (ite (= y 0) 0 (ite (<= 0 x) (mod x (ite (< 0 y) y (- y))) (- (mod (- x) (ite (< 0 y) y (- y))))))) :pattern ((tmod x y)))))", "tmod")
	// bits of bytes: B!j(x) are the binary digits of x for 0<=x<256
	for j := 0; j < 8; j++ {
		f(fmt.Sprintf("B!%d", j), SBool, SInt)
	}
	f("add!", SInt, SInt, SInt)
	a("(assert (forall ((x Int) (y Int)) (! (= (add! x y) (+ x y)) :pattern ((add! x y)))))", "add!")
	f("zseq!", SArr(SInt, SSeq))
	a("(assert (forall ((i Int)) (! (= (select zseq! i) lit!) :pattern ((select zseq! i)))))", "zseq!")
	f("bits8", SBool, SInt)
	f("bit8", SBool, SInt, SInt)
	sum := "(+"
	for j := 0; j < 8; j++ {
		sum += fmt.Sprintf(" (ite (B!%d x) %d 0)", j, 1<<j)
	}
	sum += ")"
	a("(assert (forall ((x Int)) (! (and (bits8 x) (=> (and (<= 0 x) (<= x 255)) (= x "+sum+"))) :pattern ((bits8 x)))))", "bits8")
	bd := "false"
	for j := 7; j >= 0; j-- {
		bd = fmt.Sprintf("(ite (= j %d) (B!%d x) %s)", j, j, bd)
	}
	a("(assert (forall ((x Int) (j Int)) (! (and (bits8 x) (= (bit8 x j) "+bd+")) :pattern ((bit8 x j)))))", "bit8")
	for _, op := range []struct{ n, e string }{
		{"and8", "(and %[1]s %[2]s)"}, {"or8", "(or %[1]s %[2]s)"}, {"xor8", "(xor %[1]s %[2]s)"}, {"andnot8", "(and %[1]s (not %[2]s))"},
	} {
		f(op.n, SInt, SInt, SInt)
		body := "(and (bits8 x) (bits8 y) (bits8 (" + op.n + " x y)) (<= 0 (" + op.n + " x y)) (<= (" + op.n + " x y) 255)"
		for j := 0; j < 8; j++ {
			e := fmt.Sprintf(op.e, fmt.Sprintf("(B!%d x)", j), fmt.Sprintf("(B!%d y)", j))
			body += fmt.Sprintf(" (= (B!%d (%s x y)) %s)", j, op.n, e)
		}
		body += ")"
		a("(assert (forall ((x Int) (y Int)) (! "+body+" :pattern (("+op.n+" x y)))))", op.n)
	}
	// pow2 for shifts by a variable amount
	f("pow2", SInt, SInt)
	p := "0"
	for j := 63; j >= 0; j-- {
		p = fmt.Sprintf("(ite (= s %d) %d %s)", j, uint64(1)<<uint(j), p)
	}
	a("(assert (forall ((s Int)) (! (= (pow2 s) "+p+") :pattern ((pow2 s)))))", "pow2")
	f("shl8", SInt, SInt, SInt)
	p = "0"
	for j := 7; j >= 0; j-- {
		p = fmt.Sprintf("(ite (= s %d) (mod (* %d x) 256) %s)", j, 1<<j, p)
	}
	a("(assert (forall ((x Int) (s Int)) (! (and (bits8 (shl8 x s)) (= (shl8 x s) "+p+")) :pattern ((shl8 x s)))))", "shl8")
	f("shr8", SInt, SInt, SInt)
	p = "0"
	for j := 7; j >= 0; j-- {
		p = fmt.Sprintf("(ite (= s %d) (div x %d) %s)", j, 1<<j, p)
	}
	a("(assert (forall ((x Int) (s Int)) (! (and (bits8 (shr8 x s)) (= (shr8 x s) "+p+")) :pattern ((shr8 x s)))))", "shr8")
	f("bitop", SInt, SInt, SInt, SInt)
}

// ---- query construction ----

type Query struct {
	Asserts []*Term
	Goal    *Term // nil: check satisfiability of Asserts
	NoAx    bool  // leave the axioms and quantified facts out
}

func (q *Query) Build() string {
	seen := map[*Term]bool{}
	consts := map[string]Sort{}
	fns := map[string]bool{}
	lits := map[string]bool{}
	var sums []*Term
	var visit func(t *Term, bound map[string]bool)
	visit = func(t *Term, bound map[string]bool) {
		if t.I != nil {
			return
		}
		if len(bound) == 0 {
			if seen[t] {
				return
			}
			seen[t] = true
		}
		if t.Op == "forall" || t.Op == "exists" {
			nb := map[string]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, b := range t.Q {
				nb[b.Op] = true
			}
			visit(t.Args[0], nb)
			for _, tr := range t.Trig {
				for _, x := range tr {
					visit(x, nb)
				}
			}
			return
		}
		if len(t.Args) == 0 {
			if bound[t.Op] || t.Op == "true" || t.Op == "false" {
				return
			}
			if strings.HasPrefix(t.Op, "lit!") {
				lits[t.Op] = true
				return
			}
			if reg.Fn(t.Op) != nil {
				fns[t.Op] = true
				return
			}
			consts[t.Op] = t.S
			return
		}
		if reg.Fn(t.Op) != nil {
			fns[t.Op] = true
		}
		if zseq(t) {
			fns["zseq!"] = true
		}
		if t.Op == "add!" && len(bound) == 0 {
			sums = append(sums, t)
		}
		for _, a := range t.Args {
			visit(a, bound)
		}
	}
	if q.NoAx {
		var as []*Term
		for _, t := range q.Asserts {
			if !quantified(t) {
				as = append(as, t)
			}
		}
		q = &Query{Asserts: as, Goal: q.Goal, NoAx: true}
	}
	for _, t := range q.Asserts {
		visit(t, nil)
	}
	if q.Goal != nil {
		visit(q.Goal, nil)
	}
	reg.mu.Lock()
	defer reg.mu.Unlock()
	// axiom closure
	incl := make([]bool, len(reg.Axioms))
	if len(lits) > 0 {
		fns["len"] = true
		fns["at"] = true
	}
	for changed := !q.NoAx; changed; {
		changed = false
		for i, ax := range reg.Axioms {
			if incl[i] {
				continue
			}
			ok := false
			for _, alt := range ax.Need {
				all := true
				for _, s := range alt {
					if !fns[s] && !lits[s] {
						all = false
						break
					}
				}
				if all {
					ok = true
					break
				}
			}
			if ok {
				incl[i] = true
				changed = true
				for _, u := range ax.Uses {
					if reg.Fn(u) != nil {
						fns[u] = true
					}
					if strings.HasPrefix(u, "lit!") {
						lits[u] = true
						fns["len"] = true
						fns["at"] = true
					}
				}
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("(declare-sort BSeq 0)\n")
	// sorts
	sorts := map[string]bool{}
	addSort := func(s Sort) {
		for _, tok := range strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '(' || r == ')' }) {
			switch tok {
			case "Array", "Int", "Bool", "BSeq", "Real":
			default:
				sorts[tok] = true
			}
		}
	}
	for _, s := range consts {
		addSort(s)
	}
	for n := range fns {
		d := reg.Fn(n)
		addSort(d.Ret)
		for _, s := range d.Args {
			addSort(s)
		}
	}
	for _, s := range sortedKeys(sorts) {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
	}
	for _, n := range sortedKeys(fns) {
		d := reg.Fn(n)
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", n, strings.Join(d.Args, " "), d.Ret)
	}
	for _, n := range sortedKeys(lits) {
		v := reg.LitVal(n)
		fmt.Fprintf(&sb, "(declare-fun %s () BSeq)\n(assert (= (len %s) %d))\n", n, n, len(v))
		for i := 0; i < len(v) && i < 64; i++ {
			fmt.Fprintf(&sb, "(assert (= (at %s %d) %d))\n", n, i, v[i])
		}
	}
	if fns["seqlt"] {
		ls := sortedKeys(lits)
		for i := range ls {
			for j := i + 1; j < len(ls); j++ {
				a, b := ls[i], ls[j]
				if reg.LitVal(a) > reg.LitVal(b) {
					a, b = b, a
				}
				fmt.Fprintf(&sb, "(assert (seqlt %s %s))\n", a, b)
			}
		}
	}
	for _, n := range sortedKeys(consts) {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", n, consts[n])
		// strings and byte streams of the program hold bytes
		if c := consts[n]; strings.HasSuffix(strings.TrimRight(c, ")"), SSeq) && !strings.HasPrefix(n, "sk.") && !q.NoAx && fns["at"] {
			vars, t := "", n
			for k := 0; c != SSeq; k++ {
				var ks Sort
				ks, c = arrParts(c)
				vars += fmt.Sprintf("(k%d %s) ", k, ks)
				t = fmt.Sprintf("(select %s k%d)", t, k)
			}
			fmt.Fprintf(&sb, "(assert (forall (%[1]s(i Int)) (! (and (<= 0 (at %[2]s i)) (<= (at %[2]s i) 255)) :pattern ((at %[2]s i)))))\n", vars, t)
		}
		// cells of byte arrays hold bytes
		if strings.Contains(n, "E!uint8") && !q.NoAx {
			switch consts[n] {
			case SArr(SInt, SInt):
				fmt.Fprintf(&sb, "(assert (forall ((i Int)) (! (and (<= 0 (select %[1]s i)) (<= (select %[1]s i) 255)) :pattern ((select %[1]s i)))))\n", n)
			case SArr(SInt, SArr(SInt, SInt)):
				fmt.Fprintf(&sb, "(assert (forall ((a Int) (i Int)) (! (and (<= 0 (select (select %[1]s a) i)) (<= (select (select %[1]s a) i) 255)) :pattern ((select (select %[1]s a) i)))))\n", n)
			}
		}
	}
	for i, ax := range reg.Axioms {
		if incl[i] {
			sb.WriteString(ax.Text)
			sb.WriteByte('\n')
		}
	}
	if q.NoAx {
		for _, t := range sums {
			fmt.Fprintf(&sb, "(assert (= %s (+ %s %s)))\n", t, t.Args[0], t.Args[1])
		}
	}
	for _, t := range q.Asserts {
		sb.WriteString("(assert ")
		sb.WriteString(t.String())
		sb.WriteString(")\n")
	}
	if q.Goal != nil {
		sb.WriteString("(assert (not ")
		sb.WriteString(q.Goal.String())
		sb.WriteString("))\n")
	}
	return sb.String()
}

func quantified(t *Term) bool {
	found := false
	t.walk(map[*Term]bool{}, func(x *Term) {
		if x.Op == "forall" || x.Op == "exists" {
			found = true
		}
	})
	return found
}

// ---- solver processes ----

type Solver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	dead bool
}

func startZ3(bin string) (*Solver, error) {
	cmd := exec.Command(bin, "-in")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = io.Discard
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &Solver{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}, nil
}

var z3Path = "z3-new"

func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

type SolverPool struct {
	ch chan *Solver
}

var pool, poolOld *SolverPool

func newPool(n int) *SolverPool {
	p := &SolverPool{ch: make(chan *Solver, n)}
	for i := 0; i < n; i++ {
		p.ch <- nil
	}
	return p
}

var stats struct {
	queries, proved, unknown, sat int64
	nanos                         int64
	feas                          int64
	z3Proved, cvc5Proved, z3oldProved int64
}

const z3opts = "(set-option :smt.mbqi %s)\n(set-option :timeout %d)\n(set-option :smt.case_split 3)\n(set-option :smt.qi.eager_threshold 100)\n"
const z3opts0 = "(set-option :auto_config false)\n(set-option :smt.mbqi %s)\n(set-option :timeout %d)\n(set-option :smt.case_split 3)\n(set-option :smt.qi.eager_threshold 100)\n"

// ask tries both z3 releases, kept running between queries.
func ask(text string, ms int, mbqi bool) string {
	r := askOn(pool, z3Path, z3opts, text, ms, mbqi)
	if r == "unsat" || r == "sat" || ms <= fastMS {
		return r
	}
	if r2 := askOn(poolOld, "z3", z3opts0, text, ms, mbqi); r2 == "unsat" {
		return r2
	}
	return r
}

// askOn runs one query on a persistent z3.
func askOn(pool *SolverPool, bin, opts, text string, ms int, mbqi bool) string {
	s := <-pool.ch
	defer func() { pool.ch <- s }()
	for try := 0; try < 2; try++ {
		if s == nil {
			var err error
			s, err = startZ3(bin)
			if err != nil {
				fmt.Fprintln(os.Stderr, "cannot start z3:", err)
				os.Exit(3)
			}
		}
		t0 := time.Now()
		var sb strings.Builder
		sb.WriteString("(reset)\n")
		fmt.Fprintf(&sb, opts, fmt.Sprint(mbqi), ms)
		sb.WriteString(text)
		sb.WriteString("(check-sat)\n(echo \"@@done\")\n")
		cur := s
		timer := time.AfterFunc(time.Duration(ms)*time.Millisecond*2+5*time.Second, func() { cur.cmd.Process.Kill() })
		io.WriteString(s.in, sb.String())
		res := ""
		var rerr error
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				rerr = err
				break
			}
			line = strings.TrimSpace(line)
			if line == "@@done" {
				break
			}
			if strings.HasPrefix(line, "(error") {
				if !strings.Contains(line, "canceled") {
					fmt.Fprintln(os.Stderr, "z3:", line)
					if os.Getenv("GV_DUMPERR") != "" {
						os.WriteFile("/tmp/gv_err.smt2", []byte(sb.String()), 0o644)
					}
				}
				if res == "" {
					res = "error"
				}
				continue
			}
			if res == "" || res == "error" {
				res = line
			}
		}
		timer.Stop()
		atomic.AddInt64(&stats.nanos, int64(time.Since(t0)))
		atomic.AddInt64(&stats.queries, 1)
		if rerr != nil {
			s.Close()
			s = nil
			if time.Since(t0) > time.Duration(ms)*time.Millisecond {
				return "unknown"
			}
			continue
		}
		return res
	}
	return "unknown"
}

func runExternal(ctx context.Context, bin string, args []string, text string, d time.Duration) string {
	ctx, cancel := context.WithTimeout(ctx, d)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(text)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, _ := cmd.Output()
	s := strings.TrimSpace(string(out))
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

type Verdict struct {
	Proved bool
	By     string
	Status string // sat/unknown/timeout
	Model  string
	Text   string
}

var (
	quickMS = 4000
	slowMS  = 12000
)

// Prove discharges an obligation with the portfolio.
func Prove(q *Query, hard bool) Verdict {
	if q.Goal != nil && isTrue(q.Goal) {
		return Verdict{Proved: true, By: "simplifier"}
	}
	return ProveText(q.Build(), hard)
}

func ProveText(text string, hard bool) Verdict {
	r := ask(text, quickMS, false)
	if r == "unsat" {
		atomic.AddInt64(&stats.z3Proved, 1)
		return Verdict{Proved: true, By: "z3"}
	}
	if !hard {
		return Verdict{Status: r}
	}
	type res struct {
		by, r string
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan res, 4)
	d := time.Duration(slowMS) * time.Millisecond
	full := text + "(check-sat)\n"
	go func() {
		ch <- res{"cvc5", runExternal(ctx, "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", slowMS), "-"}, "(set-logic ALL)\n"+full, d)}
	}()
	go func() {
		ch <- res{"z3-mbqi", runExternal(ctx, z3Path, []string{"-in", fmt.Sprintf("-T:%d", slowMS/1000)}, full, d)}
	}()
	go func() {
		ch <- res{"z3-seed", runExternal(ctx, z3Path, []string{"-in", fmt.Sprintf("-T:%d", slowMS/1000)}, fmt.Sprintf(z3opts, "false", slowMS)+"(set-option :smt.random_seed 7)\n(set-option :smt.relevancy 0)\n"+full, d)}
	}()
	go func() {
		ch <- res{"z3-4.8", runExternal(ctx, "z3", []string{"-in", fmt.Sprintf("-T:%d", slowMS/1000)}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"+full, d)}
	}()
	status := r
	for i := 0; i < 4; i++ {
		x := <-ch
		if x.r == "unsat" {
			switch x.by {
			case "cvc5":
				atomic.AddInt64(&stats.cvc5Proved, 1)
			case "z3-4.8":
				atomic.AddInt64(&stats.z3oldProved, 1)
			default:
				atomic.AddInt64(&stats.z3Proved, 1)
			}
			return Verdict{Proved: true, By: x.by}
		}
		if x.r == "sat" {
			status = "sat"
		}
	}
	return Verdict{Status: status, Text: text}
}

// GetModel asks for a (candidate) model of a failed obligation.
func GetModel(text string, terms []string) map[string]string {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n")
	sb.WriteString(text)
	sb.WriteString("(check-sat)\n")
	for _, t := range terms {
		fmt.Fprintf(&sb, "(echo \"@@%s\")\n(get-value (%s))\n", t, t)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 12*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, z3Path, "-in", "-t:8000")
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.Output()
	m := map[string]string{}
	cur := ""
	for _, line := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(line, "@@") {
			cur = line[2:]
			continue
		}
		if cur != "" {
			m[cur] += strings.TrimSpace(line) + " "
		}
	}
	for k, v := range m {
		v = strings.TrimSpace(v)
		if strings.HasPrefix(v, "((") && strings.HasSuffix(v, "))") {
			v = strings.TrimSpace(strings.TrimPrefix(v[2:len(v)-2], k))
		}
		if strings.Contains(v, "error") {
			delete(m, k)
			continue
		}
		m[k] = v
	}
	return m
}

var _ = sort.Strings
