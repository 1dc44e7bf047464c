package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "fast-ksw"

// Prog is the loaded program under analysis.
type Prog struct {
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package // by path suffix: "ring", "rlwe", ...
	SSA   map[string]*ssa.Package
	Prog  *ssa.Program
	Funcs []*ssa.Function // every source function/method/closure of the repo, sorted
	impls map[string][]types.Type
	repo  string
	named []types.Type
	taken []*ssa.Function
	mu    sync.Mutex
}

func loadRepo(repo, verif string) (*Prog, error) {
	tmp, err := os.MkdirTemp("", "verifmod")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(verif, "checker", "repo.sum"))
	if err != nil {
		return nil, err
	}
	os.WriteFile(filepath.Join(tmp, "r.mod"), mod, 0644)
	os.WriteFile(filepath.Join(tmp, "r.sum"), sum, 0644)
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  repo,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "r.mod"), "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{Fset: prog.Fset, Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}, Prog: prog, repo: repo, impls: map[string][]types.Type{}}
	for _, p := range pkgs {
		short := strings.TrimPrefix(p.PkgPath, modPath+"/")
		P.Pkgs[short] = p
		P.SSA[short] = prog.Package(p.Types)
	}
	for f := range ssautil.AllFunctions(prog) {
		if inRepo(f) {
			P.Funcs = append(P.Funcs, f)
		}
	}
	sort.Slice(P.Funcs, func(i, j int) bool { return fname(P.Funcs[i]) < fname(P.Funcs[j]) })
	for _, p := range pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				P.named = append(P.named, tn.Type())
			}
		}
	}
	need := []string{"utils", "ring", "rlwe", "ckks", "frlwe", "fckks"}
	for _, n := range need {
		if P.SSA[n] == nil {
			return nil, fmt.Errorf("package %s not found", n)
		}
	}
	// fill the lazily computed tables before analyses run in parallel
	P.addrTaken()
	for _, f := range P.Funcs {
		isPureScalar(f)
	}
	return P, nil
}

// parallel runs f(i) for i in [0,n) on all cores.
func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	next := make(chan int, n)
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				f(i)
			}
		}()
	}
	wg.Wait()
}

func inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath+"/")
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), modPath+"/")
	}
	return false
}

// fname is the short stable name of a function: "ring.(*Ring).AddLvl".
func fname(f *ssa.Function) string {
	return strings.ReplaceAll(f.RelString(nil), modPath+"/", "")
}

func (P *Prog) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.Fset.Position(p)
	rel, err := filepath.Rel(P.repo, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// instrPos finds a position for an instruction, falling back to neighbours.
func (P *Prog) instrPos(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	if i.Pos().IsValid() {
		return P.pos(i.Pos())
	}
	var best token.Pos
	for _, op := range i.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			best = (*op).Pos()
		}
	}
	if best.IsValid() {
		return P.pos(best)
	}
	return P.pos(i.Parent().Pos())
}

// implementers lists the repo's concrete types implementing iface.
func (P *Prog) implementers(iface *types.Interface) []types.Type {
	key := iface.String()
	P.mu.Lock()
	defer P.mu.Unlock()
	if r, ok := P.impls[key]; ok {
		return r
	}
	var out []types.Type
	for _, t := range P.named {
		if types.IsInterface(t) {
			continue
		}
		if embedsIface(t, iface, 0) {
			continue // a wrapper around a value of the interface itself
		}
		if types.Implements(t, iface) {
			out = append(out, t)
		} else if types.Implements(types.NewPointer(t), iface) {
			out = append(out, types.NewPointer(t))
		}
	}
	P.impls[key] = out
	return out
}

// fn looks up a function or method by fname.
func (P *Prog) fn(name string) *ssa.Function {
	for _, f := range P.Funcs {
		if fname(f) == name {
			return f
		}
	}
	return nil
}

// embedsIface: t (a struct) gets the interface's methods from an embedded value of that interface.
func embedsIface(t types.Type, iface *types.Interface, depth int) bool {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok || depth > 4 {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Embedded() {
			continue
		}
		if fi, ok := f.Type().Underlying().(*types.Interface); ok {
			if types.Identical(fi, iface) || types.Implements(f.Type(), iface) {
				return true
			}
			continue
		}
		if embedsIface(f.Type(), iface, depth+1) {
			return true
		}
	}
	return false
}

// addrTaken lists functions used as values, with whether they are method values.
func (P *Prog) addrTaken() []*ssa.Function {
	if P.taken != nil {
		return P.taken
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var skip ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					skip = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if *op == nil || *op == skip {
						continue
					}
					if fn, ok := (*op).(*ssa.Function); ok && !seen[fn] {
						seen[fn] = true
						P.taken = append(P.taken, fn)
					}
				}
			}
		}
	}
	sort.Slice(P.taken, func(i, j int) bool { return fname(P.taken[i]) < fname(P.taken[j]) })
	return P.taken
}

// namedType looks up a named type of a package of the repository.
func (P *Prog) namedType(pkg, name string) types.Type {
	p := P.Pkgs[pkg]
	if p == nil || p.Types == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}
