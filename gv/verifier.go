package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Verifier struct {
	OnFail     func(*Obligation) // told of every obligation the solvers did not discharge
	Prog     *ssa.Program
	Fset     *token.FileSet
	Pkgs     []*packages.Package
	SSA      map[string]*ssa.Package
	Types    map[string]*types.Package // by path
	ByName   map[string]*types.Package // by name
	Spec     *Spec
	Escaping map[string]bool
	Funcs    map[string]*ssa.Function // "pkgpath#key"
	cof      map[*ssa.Function]*Contract
	repoPkg  map[string]bool
	qn       int64

	mu         sync.Mutex
	DropClause map[*Clause]bool
	DropCon    map[*Contract]bool
	Assumed    map[string]bool
	guardOf    map[string]*Guard // field owner -> guard
	mutexGuard map[string]*Guard // mutex owner "T.mu"
	globalsRef map[string]int
}

func loadRepo(dir string) (*Verifier, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Tests: false}
	ps, err := packages.Load(cfg, "./...", "./bencode/...")
	if err != nil {
		return nil, err
	}
	bad := false
	for _, p := range ps {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", e)
			bad = true
		}
	}
	if bad {
		return nil, fmt.Errorf("the tree does not type-check")
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics|ssa.BareInits)
	prog.Build()
	v := &Verifier{Prog: prog, Fset: prog.Fset, Pkgs: ps, SSA: map[string]*ssa.Package{}, Types: map[string]*types.Package{}, ByName: map[string]*types.Package{},
		Escaping: map[string]bool{}, Funcs: map[string]*ssa.Function{}, cof: map[*ssa.Function]*Contract{}, repoPkg: map[string]bool{},
		DropClause: map[*Clause]bool{}, DropCon: map[*Contract]bool{}, Assumed: map[string]bool{}, guardOf: map[string]*Guard{}, mutexGuard: map[string]*Guard{}, globalsRef: map[string]int{}}
	var addT func(p *types.Package)
	addT = func(p *types.Package) {
		if v.Types[p.Path()] != nil {
			return
		}
		v.Types[p.Path()] = p
		if v.ByName[p.Name()] == nil || !strings.Contains(p.Path(), "internal") && len(p.Path()) < len(v.ByName[p.Name()].Path()) {
			v.ByName[p.Name()] = p
		}
		for _, i := range p.Imports() {
			addT(i)
		}
	}
	for i, p := range ps {
		addT(p.Types)
		v.SSA[p.PkgPath] = spkgs[i]
		v.repoPkg[p.PkgPath] = true
	}
	for _, p := range ps { // repo packages win name lookups
		v.ByName[p.Types.Name()] = p.Types
	}
	if p := v.Types["github.com/browles/drip/api/peer"]; p != nil {
		v.ByName["peerapi"] = p
	}
	if p := v.Types["github.com/browles/drip/api/tracker"]; p != nil {
		v.ByName["trackerapi"] = p
	}
	// index functions
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Pkg == nil || f.Blocks == nil || !v.repoPkg[f.Pkg.Pkg.Path()] {
			continue
		}
		v.Funcs[f.Pkg.Pkg.Path()+"#"+f.RelString(f.Pkg.Pkg)] = f
	}
	// fields whose address escapes (is used other than by load/store)
	for f := range all {
		if f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if addrEscapes(fa) {
					v.Escaping[fieldOwner(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)] = true
				}
			}
		}
	}
	return v, nil
}

func addrEscapes(a ssa.Value) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return true
			}
		case *ssa.Store:
			if r.Val == a {
				return true
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func (v *Verifier) qctr()                     {}
func (v *Verifier) qname(s string) string     { return "q!" + san(s) + "!" + strconv.FormatInt(atomic.AddInt64(&v.qn, 1), 10) }
func (v *Verifier) pkgTypes(p string) *types.Package { return v.Types[p] }

func (v *Verifier) assume(format string, a ...any) {
	v.mu.Lock()
	v.Assumed[fmt.Sprintf(format, a...)] = true
	v.mu.Unlock()
}

func (v *Verifier) lookupGlobal(s string) *types.Var {
	i := strings.LastIndex(s, ".")
	if i < 0 {
		return nil
	}
	p := v.ByName[s[:i]]
	if p == nil {
		p = v.Types[s[:i]]
	}
	if p == nil {
		return nil
	}
	o, _ := p.Scope().Lookup(s[i+1:]).(*types.Var)
	return o
}

// parseType resolves a type written in a contract.
func (v *Verifier) parseType(s string, pkg *types.Package) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		if t := v.parseType(s[1:], pkg); t != nil {
			return types.NewPointer(t)
		}
		return nil
	case strings.HasPrefix(s, "[]"):
		if t := v.parseType(s[2:], pkg); t != nil {
			return types.NewSlice(t)
		}
		return nil
	case strings.HasPrefix(s, "["):
		i := strings.Index(s, "]")
		n, err := strconv.Atoi(s[1:i])
		if err != nil {
			return nil
		}
		if t := v.parseType(s[i+1:], pkg); t != nil {
			return types.NewArray(t, int64(n))
		}
		return nil
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					k, e := v.parseType(s[4:i], pkg), v.parseType(s[i+1:], pkg)
					if k == nil || e == nil {
						return nil
					}
					return types.NewMap(k, e)
				}
			}
		}
		return nil
	case s == "struct{}":
		return types.NewStruct(nil, nil)
	}
	if i := strings.LastIndex(s, "."); i >= 0 {
		pn := s[:i]
		p := v.ByName[pn]
		if p == nil {
			p = v.Types[pn]
		}
		if p == nil {
			return nil
		}
		if o, ok := p.Scope().Lookup(s[i+1:]).(*types.TypeName); ok {
			return o.Type()
		}
		return nil
	}
	if pkg != nil {
		// generic instance Future[error]
		if i := strings.Index(s, "["); i > 0 {
			return nil
		}
		if o, ok := pkg.Scope().Lookup(s).(*types.TypeName); ok {
			return o.Type()
		}
	}
	if o, ok := types.Universe.Lookup(s).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

// bindSpec attaches contracts to functions.
func (v *Verifier) bindSpec(sp *Spec) []string {
	v.Spec = sp
	var missing []string
	for key, c := range sp.Contracts {
		if c.Extern || c.Iface {
			continue
		}
		f := v.Funcs[key]
		if f == nil {
			missing = append(missing, key)
			continue
		}
		v.cof[f] = c
	}
	for _, g := range sp.Guards {
		t := g.Type
		for _, f := range g.Fields {
			v.guardOf[san(t)+"."+san(f)] = g
		}
		v.mutexGuard[san(t)+"."+san(g.Mu)] = g
	}
	sort.Strings(missing)
	return missing
}

// contractOf returns the contract of a static callee, or nil.
// contractFor: a contract stated for calls from the caller's package comes first.
func (v *Verifier) contractFor(caller, f *ssa.Function) *Contract {
	if caller != nil && caller.Pkg != nil {
		if c := v.Spec.Contracts[caller.Pkg.Pkg.Path()+"|"+f.String()]; c != nil {
			v.mu.Lock()
			d := v.DropCon[c]
			v.mu.Unlock()
			if d {
				return nil
			}
			return c
		}
	}
	return v.contractOf(f)
}

func (v *Verifier) contractOf(f *ssa.Function) *Contract {
	if o := f.Origin(); o != nil {
		f = o
	}
	c := v.cof[f]
	if c == nil {
		c = v.Spec.Contracts[f.String()]
		if c != nil && !c.Extern {
			c = nil
		}
	}
	if c != nil {
		v.mu.Lock()
		d := v.DropCon[c]
		v.mu.Unlock()
		if d {
			return nil
		}
	}
	return c
}

func (v *Verifier) dropped(c *Clause) bool {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.DropClause[c]
}

func (v *Verifier) inRepo(f *ssa.Function) bool {
	if o := f.Origin(); o != nil {
		f = o
	}
	for f.Parent() != nil {
		f = f.Parent()
		if o := f.Origin(); o != nil {
			f = o
		}
	}
	if f.Pkg != nil {
		return v.repoPkg[f.Pkg.Pkg.Path()]
	}
	return false
}
