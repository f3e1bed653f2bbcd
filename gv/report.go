package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// proveLong is the last resort: every solver, with a long limit.
func proveLong(text string, ms int) Verdict {
	d := time.Duration(ms) * time.Millisecond
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct{ by, r string }
	ch := make(chan res, 3)
	full := text + "(check-sat)\n"
	tl := fmt.Sprintf("-T:%d", ms/1000+1)
	go func() { ch <- res{"z3", runExternal(ctx, z3Path, []string{"-in", tl}, fmt.Sprintf(z3opts, "false", ms)+full, d)} }()
	go func() {
		ch <- res{"cvc5", runExternal(ctx, "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-"}, "(set-logic ALL)\n"+full, d)}
	}()
	go func() {
		ch <- res{"z3-seed", runExternal(ctx, z3Path, []string{"-in", tl}, fmt.Sprintf(z3opts, "true", ms)+"(set-option :smt.random_seed 11)\n"+full, d)}
	}()
	st := "unknown"
	for i := 0; i < 3; i++ {
		x := <-ch
		if x.r == "unsat" {
			return Verdict{Proved: true, By: x.by}
		}
		if x.r == "sat" {
			st = "sat"
		}
	}
	return Verdict{Status: st}
}

type known struct {
	Property   string `json:"property"`
	Function   string `json:"function"`
	Obligation string `json:"obligation"`
	What       string `json:"what"`
	Fixed      string `json:"fixed,omitempty"`
}

func loadKnown() []known {
	f, err := os.Open(filepath.Join(*verifDir, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || l[0] != '{' {
			continue
		}
		var k known
		if json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

func report(id string, v *Verifier, results map[*Contract]*FuncResult, roots []*Contract, fails []failure, t0 time.Time, rounds int) int {
	// known findings
	var left []failure
	printed := map[string]bool{}
	var knownHit []string
	ks := loadKnown()
next:
	for _, f := range fails {
		for _, k := range ks {
			if k.Fixed == "" && k.Property == id && k.Function == f.Func && strings.Contains(f.Label, k.Obligation) {
				if !printed[k.What] {
					printed[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
					knownHit = append(knownHit, k.What)
				}
				continue next
			}
		}
		left = append(left, f)
	}
	fails = left

	type fn struct {
		Name        string   `json:"function"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		Paths       int      `json:"returns_reached"`
		Secs        float64  `json:"seconds"`
		Inlined     []string `json:"bodies_inlined,omitempty"`
		Root        bool     `json:"states_property"`
		Note        string   `json:"note,omitempty"`
	}
	var fns []fn
	total, disch, rootTotal := 0, 0, 0
	by := map[string]int{}
	kinds := map[string]int{}
	externs := map[string]bool{}
	unsup := map[string]bool{}
	var samples []string
	rs := map[*Contract]bool{}
	for _, c := range roots {
		rs[c] = true
	}
	vac := 0
	for _, c := range sortedResults(results) {
		r := results[c]
		x := fn{Name: r.Name, Obligations: len(r.Obls), Paths: r.Returns, Secs: float64(int(r.Secs*10)) / 10, Inlined: r.Inlined, Root: rs[c], Note: r.Aborted}
		for _, o := range r.Obls {
			total++
			kinds[o.Kind]++
			if rs[c] && hasTag(o.Tags, id) {
				rootTotal++
				if len(samples) < 12 && o.V.Proved && o.V.By != "simplifier" {
					samples = append(samples, fmt.Sprintf("%s: %s %q at %s by %s in %d ms", r.Name, o.Kind, o.Label, o.Pos, o.V.By, o.Nanos/1e6))
				}
			}
			if o.V.Proved {
				disch++
				x.Discharged++
				by[o.V.By]++
			}
		}
		for _, u := range r.Used {
			if u.Extern {
				externs["assumed contract on external function "+u.Key+" ("+u.Pos+")"] = true
			}
			if u.Iface {
				externs["assumed contract on interface method "+u.Key+" ("+u.Pos+")"] = true
			}
		}
		for _, u := range r.Unsup {
			unsup[r.Name+": "+u] = true
		}
		for _, e := range r.Execs {
			if e.liveReturn {
				vac++
			}
		}
		fns = append(fns, x)
	}
	for _, l := range lemmaResults {
		total++
		kinds["lemma"]++
		if l.V.Proved {
			disch++
			by[l.V.By]++
		}
	}
	assumptions := sortedKeys(v.Assumed)
	assumptions = append(assumptions, sortedKeys(externs)...)
	for _, a := range axiomList {
		assumptions = append(assumptions, "axiom: "+a)
	}
	for _, a := range sortedKeys(unsup) {
		assumptions = append(assumptions, "approximated by an arbitrary value: "+a)
	}
	var dropped []string
	for c := range v.DropClause {
		dropped = append(dropped, "clause "+c.Label+" ("+c.Pos+")")
	}
	for c := range v.DropCon {
		dropped = append(dropped, "contract "+c.Key)
	}
	sort.Strings(dropped)
	cov := map[string]any{
		"obligations":           total,
		"discharged":            disch,
		"obligations_of_property": rootTotal,
		"by_back_end":           by,
		"by_kind":               kinds,
		"functions_under_contract": fns,
		"solver_queries":        atomic.LoadInt64(&stats.queries),
		"solver_seconds":        float64(atomic.LoadInt64(&stats.nanos)/1e8) / 10,
		"checker_cmd":           fmt.Sprintf("bin/gv -tier %s check %s", *tier, id),
		"trusted_base":          trustedBase(),
		"functions_with_reachable_return": vac,
		"samples":               samples,
		"rounds":                rounds,
	}
	if len(dropped) > 0 {
		cov["not_relied_upon"] = dropped
	}
	if len(missingContracts) > 0 {
		cov["contracts_without_function"] = missingContracts
	}
	if len(knownHit) > 0 {
		cov["known_findings"] = knownHit
	}
	ev := map[string]any{
		"property": id, "tier": *tier, "seed": seed(), "level": "proof", "assumptions": assumptions,
		"coverage": cov, "wall_s": float64(int(time.Since(t0).Seconds()*10)) / 10,
	}
	defer func() {
		ev["wall_s"] = float64(int(time.Since(t0).Seconds()*10)) / 10
		jsonOut(filepath.Join(*verifDir, "evidence", id+".json"), ev)
	}()
	if rootTotal == 0 && len(fails) == 0 {
		fails = append(fails, failure{Kind: "vacuity", Label: "no obligation was generated", Status: "vacuous"})
	}
	if len(fails) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d functions=%d wall=%.0fs\n", id, total, disch, len(fns), time.Since(t0).Seconds())
		return 0
	}
	dir := filepath.Join(*verifDir, "replay-out", id)
	os.MkdirAll(dir, 0o755)
	for i := range fails {
		f := &fails[i]
		fmt.Fprintf(os.Stderr, "failed obligation: %s: %s %q at %s (%s)\n", f.Func, f.Kind, f.Label, f.Pos, f.Status)
		if f.o == nil || f.o.Q == nil || i >= 8 {
			continue
		}
		text := f.o.Q.Build()
		q := filepath.Join(dir, fmt.Sprintf("query%d.smt2", i))
		os.WriteFile(q, []byte(text+"(check-sat)\n"), 0o644)
		f.Query = q
		if i < 3 {
			f.Model = modelOf(results, f.o, text)
		}
	}
	ev["violations"] = len(fails)
	cov["failed"] = fails
	path := filepath.Join(dir, "replay.json")
	rep := map[string]any{"property": id, "failed_obligations": fails}
	cands := map[string]any{"property": id, "models": fails}
	jsonOut(filepath.Join(dir, "candidates.json"), cands)
	var found bool
	var out string
	if early != nil {
		found, out = early.found, early.out
	} else {
		found, out = replay(id, filepath.Join(dir, "candidates.json"), t0)
	}
	rep["replay"] = out
	jsonOut(path, rep)
	if found {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, path)
	}
	return 1
}

func modelOf(results map[*Contract]*FuncResult, o *Obligation, text string) map[string]string {
	for _, r := range results {
		for _, ex := range r.Execs {
			for _, p := range ex.Obls {
				if p != o {
					continue
				}
				var ts []string
				names := map[string]string{}
				for _, h := range ex.hints {
					if h.term.S == SInt || h.term.S == SBool {
						ts = append(ts, h.term.String())
						names[h.term.String()] = h.name
					}
				}
				m := GetModel(text, ts)
				out := map[string]string{}
				for k, v := range m {
					out[names[k]] = v
				}
				return out
			}
		}
	}
	return nil
}

func seed() int {
	var n int
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

func trustedBase() []string {
	return []string{
		"gv (this verifier: go/ssa translation, weakest-precondition style path execution, invariant inference) and go/ssa of golang.org/x/tools v0.52.0",
		"the Go type checker and the semantics of SSA instructions as encoded in gv/exec.go",
		"z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (any one accepting an obligation discharges it)",
		"the prelude axioms on byte sequences, references and bytes-as-bits in gv/smt.go",
		"sequential reasoning between lock acquisitions; slices and strings shorter than 2^47; partial correctness (termination is not proved) unless a clause says otherwise",
	}
}

// replay runs the driver of a property against the real code; it is never what decides.
func replay(id, cands string, t0 time.Time) (bool, string) {
	drv := filepath.Join(*verifDir, "replay", id)
	if fs, _ := filepath.Glob(filepath.Join(drv, "*_test.go")); len(fs) == 0 {
		return false, "no replay driver for this property"
	}
	left := 870 - int(time.Since(t0).Seconds())
	if left > 240 {
		left = 240
	}
	if left < 20 {
		return false, "no time left for a replay"
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(left)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "bash", filepath.Join(*verifDir, "replay", "run.sh"), id, cands)
	cmd.Env = append(os.Environ(), "VERIF_REPO="+*repoDir, "VERIF_DIR="+*verifDir)
	cmd.WaitDelay = 3 * time.Second
	out, err := cmd.CombinedOutput()
	s := string(out)
	if len(s) > 6000 {
		s = s[:6000]
	}
	if strings.Contains(s, "FAILING-INPUT") {
		return true, s
	}
	if err != nil {
		s += "\n" + err.Error()
	}
	return false, s
}
