package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	repoDir  = flag.String("repo", "/repo", "repository under check")
	verifDir = flag.String("verif", "/verif", "directory of the contracts")
	tier     = flag.String("tier", "quick", "quick or thorough")
	budget   = flag.Int("budget", 780, "seconds")
	verbose  = flag.Bool("v", false, "list obligations")
	keep     = flag.String("dump", "", "directory for failed queries")
)

type FuncResult struct {
	Con     *Contract
	Name    string
	Obls    []*Obligation
	Used    []*Contract
	Inlined []string
	Aborted string
	Unsup   []string
	Secs    float64
	Returns int
	Execs   []*Exec
	snap    map[any]bool // what was not relied upon when this was verified
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: gv [flags] check ID | verify PATTERN | lemmas | list")
	os.Exit(3)
}

func main() {
	flag.Parse()
	args := flag.Args()
	if len(args) == 0 {
		usage()
	}
	if *tier == "thorough" {
		quickMS, slowMS = 10000, 60000
	}
	pool, poolOld = newPool(runtime.NumCPU()), newPool(runtime.NumCPU())
	switch args[0] {
	case "check":
		if len(args) != 2 {
			usage()
		}
		os.Exit(check(args[1]))
	case "verify":
		pat := ""
		if len(args) > 1 {
			pat = args[1]
		}
		os.Exit(devVerify(pat))
	case "lemmas":
		v := setup()
		_ = v
		fmt.Println("lemmas ok")
	case "list":
		v := setup()
		for _, k := range sortedKeys(v.Spec.Contracts) {
			c := v.Spec.Contracts[k]
			fmt.Println(k, allTags(c))
		}
	default:
		usage()
	}
}

type lemmaResult struct {
	Name string
	V    Verdict
	Ms   int64
}

var lemmaResults []lemmaResult
var axiomList []string
var missingContracts []string

func setup() *Verifier {
	v, err := loadRepo(*repoDir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gv:", err)
		os.Exit(4)
	}
	sp, err := parseSpecs(filepath.Join(*verifDir, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "gv: contracts:", err)
		os.Exit(3)
	}
	missingContracts = v.bindSpec(sp)
	if err := v.theory(); err != nil {
		fmt.Fprintln(os.Stderr, "gv: theory:", err)
		os.Exit(3)
	}
	return v
}

// theory adds axioms and proves lemmas, in order.
func (v *Verifier) theory() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	ex := newExec(v, nil, nil)
	ex.closures = map[string]ClosureV{}
	for _, c := range v.Spec.clauseSeq {
		st := ex.newState()
		env := &Env{ex: ex, st: st, names: map[string]SV{}, pkg: v.Types[c.Src]}
		induct := ""
		if strings.HasPrefix(c.Label, "induction ") {
			induct = strings.Fields(c.Label)[1]
		}
		t := env.Bool(c.E)
		if c.Kind != "axiom" {
			t0 := time.Now()
			var vd Verdict
			if induct != "" {
				vd = ex.induction(env, c, induct)
			} else {
				vd = Prove(&Query{Goal: skolem(ex, t)}, true)
			}
			lemmaResults = append(lemmaResults, lemmaResult{c.Label + " (" + c.Pos + ")", vd, time.Since(t0).Milliseconds()})
			if !vd.Proved {
				if *keep != "" {
					os.MkdirAll(*keep, 0o755)
					os.WriteFile(filepath.Join(*keep, "lemma_"+san(c.Pos)+".smt2"), []byte(vd.Text), 0o644)
				}
				return fmt.Errorf("lemma %s at %s is not proved: %s", c.Label, c.Pos, vd.Status)
			}
		} else {
			axiomList = append(axiomList, c.Label)
		}
		if c.Kind != "theorem" { // a theorem only stands for itself
			reg.AxiomTerm(c.Pos, t)
		}
	}
	return nil
}

// skolem replaces outer universal quantifiers of a goal by constants.
func skolem(ex *Exec, t *Term) *Term {
	for t.Op == "forall" {
		m := map[string]*Term{}
		for _, q := range t.Q {
			m[q.Op] = ex.fresh("sk."+q.Op, q.S)
		}
		t = t.Args[0].subst(m)
	}
	return t
}

// induction proves forall n .. P(n) for n>=0 and any other variables, from P(0) and P(n) => P(n+1)
// (variables after the induction variable stay universally quantified in the hypothesis).
func (ex *Exec) induction(env *Env, c *Clause, name string) Verdict {
	e := c.E
	if e.K != "quant" || e.Op != "forall" {
		return Verdict{Status: "induction needs a universal formula"}
	}
	var rest []Binder
	var iv Binder
	for _, b := range e.Bind {
		if b.Name == name {
			iv = b
		} else {
			rest = append(rest, b)
		}
	}
	if iv.Name == "" {
		return Verdict{Status: "no induction variable"}
	}
	at := func(n *Term) *Term {
		env2 := env.bind(map[string]SV{name: logic(n)})
		if len(rest) == 0 {
			return env2.Bool(e.Args[0])
		}
		return env2.Bool(&Expr{K: "quant", Op: "forall", Bind: rest, Trig: e.Trig, Args: e.Args, Pos: e.Pos})
	}
	n := ex.fresh("ind", SInt)
	base := Prove(&Query{Goal: skolem(ex, at(mkInt(0)))}, true)
	if !base.Proved {
		base.Status = "base: " + base.Status
		return base
	}
	neg := Prove(&Query{Asserts: []*Term{mkLt(n, mkInt(0))}, Goal: skolem(ex, at(n))}, true)
	if !neg.Proved {
		neg.Status = "negative: " + neg.Status
		return neg
	}
	// the hypothesis, also at the very values the step is about
	asserts := []*Term{mkLe(mkInt(0), n), at(n)}
	goal := at(mkAdd(n, mkInt(1)))
	if len(rest) > 0 && goal.Op == "forall" {
		m := map[string]*Term{}
		for _, q := range goal.Q {
			m[q.Op] = ex.fresh("sk."+q.Op, q.S)
		}
		hyp := at(n)
		if hyp.Op == "forall" && len(hyp.Q) == len(goal.Q) {
			h := map[string]*Term{}
			for i, q := range hyp.Q {
				h[q.Op] = m[goal.Q[i].Op]
			}
			asserts = append(asserts, hyp.Args[0].subst(h))
		}
		goal = goal.Args[0].subst(m)
	}
	step := Prove(&Query{Asserts: asserts, Goal: skolem(ex, goal)}, true)
	if !step.Proved {
		step.Status = "step: " + step.Status
	}
	return step
}

// instances lists the functions to verify for a contract: generic functions through their instances.
func (v *Verifier) instances(c *Contract) []*ssa.Function {
	f := v.Funcs[c.Pkg+"#"+c.Key]
	if f == nil {
		return nil
	}
	if f.TypeParams().Len() == 0 && f.Signature.RecvTypeParams().Len() == 0 {
		return []*ssa.Function{f}
	}
	var out []*ssa.Function
	for _, k := range sortedKeys(v.Funcs) {
		g := v.Funcs[k]
		if g.Origin() == f && g != f {
			out = append(out, g)
		}
	}
	return out
}

func (v *Verifier) verify(c *Contract, deadline time.Time) *FuncResult {
	t0 := time.Now()
	r := &FuncResult{Con: c, Name: c.Pkg[strings.LastIndex(c.Pkg, "/")+1:] + "." + c.Key}
	r.snap = map[any]bool{}
	v.mu.Lock()
	for x := range v.DropClause {
		r.snap[x] = true
	}
	for x := range v.DropCon {
		r.snap[x] = true
	}
	v.mu.Unlock()
	fs := v.instances(c)
	if len(fs) == 0 {
		r.Aborted = "the function does not exist in this tree"
		return r
	}
	used := map[*Contract]bool{}
	for _, f := range fs {
		ex := newExec(v, f, c)
		ex.deadline = deadline
		ex.Verify()
		r.Execs = append(r.Execs, ex)
		r.Obls = append(r.Obls, ex.Obls...)
		for u := range ex.used {
			used[u] = true
		}
		for g := range ex.inl {
			r.Inlined = append(r.Inlined, ex.fshort(g))
		}
		if ex.aborted != "" {
			r.Aborted = ex.aborted
		}
		r.Unsup = append(r.Unsup, sortedKeys(ex.unsup)...)
		r.Returns += ex.returns
	}
	for u := range used {
		r.Used = append(r.Used, u)
	}
	sort.Slice(r.Used, func(i, j int) bool { return r.Used[i].Pos < r.Used[j].Pos })
	sort.Strings(r.Inlined)
	r.Secs = time.Since(t0).Seconds()
	return r
}

// retry gives undischarged obligations more solver time.
func retry(obls []*Obligation, ms int) {
	var wg sync.WaitGroup
	sem := make(chan bool, 3)
	for _, o := range obls {
		if o.V.Proved || o.Q == nil || o.Err != "" || isFalse(o.Q.Goal) && false {
			continue
		}
		if o.V.Status == "sat" {
			continue
		}
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			text := o.Q.Build()
			save := slowMS
			_ = save
			v := proveLong(text, ms)
			if v.Proved {
				o.V = v
			}
		}()
	}
	wg.Wait()
}

func failed(r *FuncResult) []*Obligation {
	var out []*Obligation
	for _, o := range r.Obls {
		if !o.V.Proved {
			out = append(out, o)
		}
	}
	return out
}

func devVerify(pat string) int {
	v := setup()
	for _, m := range missingContracts {
		fmt.Println("contract without a function:", m)
	}
	var cs []*Contract
	for _, k := range sortedKeys(v.Spec.Contracts) {
		c := v.Spec.Contracts[k]
		if c.Extern || c.Iface || !strings.Contains(k, pat) {
			continue
		}
		cs = append(cs, c)
	}
	rc := 0
	for _, c := range cs {
		r := v.verify(c, time.Now().Add(time.Duration(*budget)*time.Second))
		f := failed(r)
		status := "ok"
		if len(f) > 0 || r.Aborted != "" {
			status = "FAILED"
			rc = 1
		}
		fmt.Printf("%s %s: %d obligations, %d failed, %d returns, %.1fs %s\n", status, r.Name, len(r.Obls), len(f), r.Returns, r.Secs, r.Aborted)
		if len(r.Inlined) > 0 && *verbose {
			fmt.Println("   inlined:", strings.Join(r.Inlined, " "))
		}
		for _, u := range r.Unsup {
			fmt.Println("   unsupported:", u)
		}
		for i, o := range r.Obls {
			if *verbose && o.V.Proved {
				fmt.Printf("   proved %s %s [%s] %dms %s\n", o.Kind, o.Label, o.Pos, o.Nanos/1e6, o.V.By)
			}
			if !o.V.Proved {
				fmt.Printf("   FAIL %s %s [%s] tags=%v %s %s\n", o.Kind, o.Label, o.Pos, o.Tags, o.V.Status, o.Err)
				for _, t := range o.Trace {
					fmt.Println("        ", t)
				}
				if *keep != "" && o.Q != nil {
					os.MkdirAll(*keep, 0o755)
					fn := filepath.Join(*keep, fmt.Sprintf("%s_%d.smt2", san(r.Name), i))
					os.WriteFile(fn, []byte(o.Q.Build()+"(check-sat)\n"), 0o644)
					fmt.Println("        ->", fn)
				}
			}
		}
	}
	if *verbose {
		for _, a := range sortedKeys(v.Assumed) {
			fmt.Println("assumed:", a)
		}
	}
	fmt.Printf("queries=%d solver=%.1fs\n", atomic.LoadInt64(&stats.queries), float64(atomic.LoadInt64(&stats.nanos))/1e9)
	return rc
}

// ---- property checks ----

func hasTag(ts []string, id string) bool {
	for _, t := range ts {
		if t == id {
			return true
		}
	}
	return false
}

type failure struct {
	Func   string   `json:"function"`
	Kind   string   `json:"kind"`
	Label  string   `json:"obligation"`
	Pos    string   `json:"at"`
	Clause string   `json:"clause,omitempty"`
	Status string   `json:"solver"`
	Path   []string `json:"path,omitempty"`
	Model  map[string]string `json:"candidate_counterexample,omitempty"`
	Query  string   `json:"query_file,omitempty"`
	o      *Obligation
}

type earlyReplay struct {
	done  chan bool
	found bool
	out   string
}

var early *earlyReplay

func check(id string) int {
	t0 := time.Now()
	deadline := t0.Add(time.Duration(*budget) * time.Second)
	v := setup()
	var roots []*Contract
	rootSet := map[*Contract]bool{}
	for _, k := range sortedKeys(v.Spec.Contracts) {
		c := v.Spec.Contracts[k]
		if c.Extern || c.Iface {
			continue
		}
		if hasTag(allTags(c), id) {
			roots = append(roots, c)
			rootSet[c] = true
		}
	}
	if len(roots) == 0 {
		fmt.Fprintln(os.Stderr, "no contract mentions", id)
		return 3
	}
	results := map[*Contract]*FuncResult{}
	var mu sync.Mutex
	rounds := 0
	// the replay driver starts with the first failed obligation; a failing input it finds settles the matter
	ks := loadKnown()
	isKnown := func(o *Obligation) bool {
		for _, k := range ks {
			if k.Fixed == "" && k.Property == id && k.Function == o.Func && strings.Contains(o.Label, k.Obligation) {
				return true
			}
		}
		return false
	}
	var once sync.Once
	failedAt := func(o *Obligation) {
		once.Do(func() {
			done := make(chan bool)
			mu.Lock()
			early = &earlyReplay{done: done}
			mu.Unlock()
			go func() {
				found, out := replay(id, "", t0)
				early.found, early.out = found, out
				if found {
					close(done)
					mu.Lock() // held to the end of the process
					f := failure{Func: o.Func, Kind: o.Kind, Label: o.Label, Pos: o.Pos, Status: o.V.Status, Path: o.Trace, o: o}
					if o.Clause != nil {
						f.Clause = o.Clause.Src
					}
					rs := map[*Contract]*FuncResult{}
					for c, r := range results {
						rs[c] = r
					}
					os.Exit(report(id, v, rs, roots, []failure{f}, t0, rounds))
				}
				close(done)
			}()
		})
	}
	v.OnFail = func(o *Obligation) {
		if !isKnown(o) {
			failedAt(o)
		}
	}
	// a tree on which the proofs do not get done in good time is looked at in the same way
	if *tier == "quick" {
		late := time.AfterFunc(300*time.Second, func() {
			failedAt(&Obligation{Func: id, Kind: "undecided", Label: "obligations not discharged within 300 s", V: Verdict{Status: "undecided"}})
		})
		defer late.Stop()
	}
	for rounds < 12 {
		rounds++
		// worklist of functions not yet verified
		for {
			var todo []*Contract
			want := map[*Contract]bool{}
			for _, c := range roots {
				want[c] = true
			}
			for _, r := range results {
				for _, u := range r.Used {
					if !u.Extern && !u.Iface {
						want[u] = true
					}
				}
			}
			for c := range want {
				if results[c] == nil {
					todo = append(todo, c)
				}
			}
			if len(todo) == 0 {
				break
			}
			sort.Slice(todo, func(i, j int) bool { return todo[i].Pos < todo[j].Pos })
			sem := make(chan bool, runtime.NumCPU())
			var wg sync.WaitGroup
			for _, c := range todo {
				c := c
				wg.Add(1)
				sem <- true
				go func() {
					defer wg.Done()
					defer func() { <-sem }()
					r := v.verify(c, deadline)
					if os.Getenv("GV_PROGRESS") != "" {
						fmt.Fprintf(os.Stderr, "%6.1fs verified %s: %d obligations, %d failed, %.1fs %s\n", time.Since(t0).Seconds(), r.Name, len(r.Obls), len(failed(r)), r.Secs, r.Aborted)
					}
					mu.Lock()
					results[c] = r
					mu.Unlock()
				}()
			}
			wg.Wait()
		}
		// obligations that only lack time
		var late []*Obligation
		for _, r := range results {
			late = append(late, failed(r)...)
		}
		if n := len(late); n > 0 && time.Now().Before(deadline) {
			ms := 40000
			if n > 6 {
				ms = 20000
			}
			if n > 20 {
				ms = 10000
			}
			if n <= 60 {
				retry(late, ms)
			}
		}
		// clauses and contracts that do not hold are not relied upon
		dropped := false
		for c, r := range results {
			fl := failed(r)
			if len(fl) == 0 && r.Aborted == "" {
				continue
			}
			whole := r.Aborted != ""
			for _, o := range fl {
				switch o.Kind {
				case "ensures":
					if o.Clause != nil && !v.DropClause[o.Clause] {
						v.DropClause[o.Clause] = true
						dropped = true
						if os.Getenv("GV_PROGRESS") != "" {
							fmt.Fprintf(os.Stderr, "drop clause %s of %s\n", o.Clause.Label, r.Name)
						}
					}
				case "requires":
					// the callee is inlined instead, where that is possible
					if o.Con != nil && !o.Con.Extern && !o.Con.Iface && !v.DropCon[o.Con] {
						v.DropCon[o.Con] = true
						dropped = true
						if os.Getenv("GV_PROGRESS") != "" {
							fmt.Fprintf(os.Stderr, "drop contract %s (requires at %s)\n", o.Con.Key, o.Pos)
						}
					}
				case "nopanic", "lock", "invariant":
				default:
					whole = true
				}
			}
			if whole && !v.DropCon[c] {
				v.DropCon[c] = true
				dropped = true
				if os.Getenv("GV_PROGRESS") != "" {
					fmt.Fprintf(os.Stderr, "drop contract %s (%s)\n", c.Key, r.Aborted)
				}
			}
		}
		if !dropped || time.Now().After(deadline) {
			break
		}
		// functions that relied on something dropped are verified again
		redo := 0
		for c, r := range results {
			hit := false
			for _, u := range r.Used {
				if v.DropCon[u] && !r.snap[u] {
					hit = true
				}
				for _, e := range u.Ensures {
					if v.DropClause[e] && !r.snap[e] {
						hit = true
					}
				}
			}
			if hit {
				delete(results, c)
				redo++
			}
		}
		if redo == 0 {
			break
		}
		// a failure in a function that is not verified again is final
		final := false
		for c, r := range results {
			if rootSet[c] {
				for _, o := range failed(r) {
					if hasTag(o.Tags, id) && !isKnown(o) {
						final = true
					}
				}
			}
		}
		if final {
			break
		}
	}
	if e := early; e != nil {
		<-e.done
		if e.found { // being reported
			select {}
		}
	}
	// what fails the property
	var fails []failure
	for _, c := range sortedResults(results) {
		r := results[c]
		if !rootSet[c] {
			continue
		}
		if r.Aborted != "" {
			if strings.HasPrefix(r.Aborted, "the function does not exist") && c.Flags["api"] == "" {
				continue
			}
			fails = append(fails, failure{Func: r.Name, Kind: "undecided", Label: r.Aborted, Pos: c.Pos, Status: "not verified"})
		}
		for _, o := range failed(r) {
			if o.Kind == "contract" && len(o.Tags) == 0 || hasTag(o.Tags, id) || o.Kind == "vacuity" {
				f := failure{Func: r.Name, Kind: o.Kind, Label: o.Label, Pos: o.Pos, Status: o.V.Status, Path: o.Trace, o: o}
				if o.Err != "" {
					f.Status = o.Err
				}
				if o.Clause != nil {
					f.Clause = o.Clause.Src
				}
				fails = append(fails, f)
			}
		}
	}
	return report(id, v, results, roots, fails, t0, rounds)
}

func sortedResults(m map[*Contract]*FuncResult) []*Contract {
	var out []*Contract
	for c := range m {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pkg != out[j].Pkg {
			return out[i].Pkg < out[j].Pkg
		}
		return out[i].Key < out[j].Key
	})
	return out
}

func jsonOut(path string, x any) {
	b, _ := json.MarshalIndent(x, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, append(b, '\n'), 0o644)
}
