package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- specification tables (spec/effects.json), reviewed by hand

type FnSpec struct {
	Writes  []string `json:"writes,omitempty"`  // parameter positions that may be written; "!" also through key/parameter/ring objects
	Shares  []string `json:"shares,omitempty"`  // permitted references: from>to>field
	Entropy bool     `json:"entropy,omitempty"` // may draw from the OS entropy source
	Rand    bool     `json:"rand,omitempty"`    // may draw from a pseudo-random generator
}

type EffSpec struct {
	Funcs  map[string]*FnSpec `json:"funcs"`
	Frozen []string           `json:"frozen"` // type.field: storage written by no operation once constructed
}

func loadEffSpec(verif string) (*EffSpec, error) {
	b, err := os.ReadFile(filepath.Join(verif, "spec", "effects.json"))
	if err != nil {
		return nil, err
	}
	s := &EffSpec{}
	return s, json.Unmarshal(b, s)
}

// paramIndex maps an access-path root to a stable position: "recv" is 0.
func rootIndex(f *ssa.Function, root string) string {
	for i := range f.Params {
		if paramName(f, i) == root {
			return fmt.Sprint(i)
		}
	}
	// interface parameters: root may carry a type suffix
	for i := range f.Params {
		if strings.HasPrefix(root, paramName(f, i)+".(") {
			return fmt.Sprint(i)
		}
	}
	return root
}

// fieldOf finds the innermost named struct field whose storage contains path p of object o.
func fieldOf(o *Obj, p string) string {
	for d := 0; o != nil && d < 20; d++ {
		if f := navField(o, p); f != "" {
			return f
		}
		if o.parent == nil {
			return ""
		}
		rel := strings.TrimPrefix(o.name, o.parent.name)
		if rel == o.name {
			return ""
		}
		o, p = o.parent, rel
	}
	return ""
}

func navField(o *Obj, p string) string {
	t := o.typ
	if t == nil {
		return ""
	}
	toks := splitTokens(p)
	if o.arr && len(toks) > 0 && toks[0][0] == '[' {
		toks = toks[1:]
	}
	last := ""
	for _, k := range toks {
		if k[0] == '[' {
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				return last
			}
			continue
		}
		s, ok := deref(t).Underlying().(*types.Struct)
		if !ok {
			return last
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if "."+s.Field(i).Name() == k {
				if n := typeName(deref(t)); n != "" && !isBig(t) {
					last = n + k
				}
				t = s.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			return last
		}
	}
	return last
}

// splitTokens splits ".a[0].(*x.T).b" into its elements.
func splitTokens(p string) []string {
	var r []string
	for i := 0; i < len(p); {
		j := i + 1
		switch {
		case p[i] == '[':
			for j <= len(p) && p[j-1] != ']' {
				j++
			}
		case p[i] == '.' && j < len(p) && p[j] == '(':
			for j < len(p) && p[j-1] != ')' {
				j++
			}
		default:
			for j < len(p) && p[j] != '.' && p[j] != '[' {
				j++
			}
		}
		r = append(r, p[i:j])
		i = j
	}
	return r
}

func inList(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// infra objects are immutable infrastructure every object may reference.
var infraTypes = map[string]bool{
	"ring.Ring": true, "ring.NumberTheoreticTransformerStandard": true, "ring.NumberTheoreticTransformerConjugateInvariant": true,
	"rlwe.Parameters": true, "ckks.Parameters": true, "frlwe.Parameters": true, "fckks.Parameters": true, "rlwe.RingQP": true, "ring.Decomposer": true,
}

func infraObj(o *Obj) bool {
	for x := o; x != nil; x = x.parent {
		if infraTypes[typeName(x.typ)] {
			return true
		}
	}
	return false
}

// ---- running

type effAll struct {
	P  *Prog
	fs []*ssa.Function
	rs []*EffectRun
}

func runAllEffects(P *Prog) *effAll {
	e := &effAll{P: P, fs: apiFuncs(P)}
	e.rs = make([]*EffectRun, len(e.fs))
	parallel(len(e.fs), func(i int) { e.rs[i] = runEffects(P, e.fs[i]) })
	return e
}

func writeClass(f *ssa.Function, w *Effect) (idx string, imm string) {
	idx = rootIndex(f, w.Root)
	imm = immutableObj(w.Obj)
	return
}

func shareKey(f *ssa.Function, s Share) string {
	to := rootIndex(f, s.To)
	from := s.From
	if from != "result" {
		from = rootIndex(f, from)
	}
	fld := ""
	if s.Obj.parent != nil {
		fld = fieldOf(s.Obj.parent, strings.TrimPrefix(s.Obj.name, s.Obj.parent.name))
	}
	if fld == "" {
		fld = shortType(s.Obj.typ)
	}
	return from + ">" + to + ">" + fld
}

func isCopyName(n string) bool {
	return strings.HasPrefix(n, "Copy") && !strings.Contains(n, "CopyTo")
}

// genEffSpec writes the table from the current tree; the result is reviewed by hand.
func genEffSpec(P *Prog, verif string) error {
	e := runAllEffects(P)
	S := &EffSpec{Funcs: map[string]*FnSpec{}}
	written := map[string]bool{}
	for i, f := range e.fs {
		R := e.rs[i]
		fs := &FnSpec{}
		set := map[string]bool{}
		for _, w := range R.Writes {
			idx, imm := writeClass(f, w)
			set[idx] = true
			if imm != "" {
				set[idx+"!"] = true
			}
			if fl := fieldOf(w.Obj, strings.TrimPrefix(w.Path, w.Obj.name)); fl != "" {
				written[fl] = true
			}
		}
		for k := range set {
			if strings.HasSuffix(k, "!") || !set[k+"!"] {
				fs.Writes = append(fs.Writes, k)
			}
		}
		sort.Strings(fs.Writes)
		sh := map[string]bool{}
		for _, s := range R.shares() {
			if infraObj(s.Obj) {
				continue
			}
			sh[shareKey(f, s)] = true
		}
		for k := range sh {
			fs.Shares = append(fs.Shares, k)
		}
		sort.Strings(fs.Shares)
		for x := range R.Externs {
			if isEntropy(x) {
				fs.Entropy = true
			}
		}
		fs.Rand = len(R.Rand) > 0
		S.Funcs[fname(f)] = fs
	}
	for _, t := range P.named {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || strings.HasPrefix(typeName(t), "profile") {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			k := typeName(t) + "." + s.Field(i).Name()
			if !written[k] && !s.Field(i).Embedded() && !mentionsMutable(s.Field(i).Type(), 0) {
				S.Frozen = append(S.Frozen, k)
			}
		}
	}
	sort.Strings(S.Frozen)
	// drop fields whose own storage is another named struct (judged there)
	os.MkdirAll(filepath.Join(verif, "spec"), 0755)
	b, _ := json.MarshalIndent(S, "", " ")
	return os.WriteFile(filepath.Join(verif, "spec", "effects.json"), b, 0644)
}

// mentionsMutable: the field leads to polynomials, samplers or other working objects.
func mentionsMutable(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	if n := typeName(t); n != "" {
		switch {
		case infraTypes[n]:
			return false
		case n == "ring.Poly" || n == "rlwe.PolyQP" || strings.HasSuffix(n, "Sampler") || strings.Contains(n, "Ciphertext") || strings.Contains(n, "Plaintext"):
			return true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return mentionsMutable(u.Elem(), d+1)
	case *types.Slice:
		return mentionsMutable(u.Elem(), d+1)
	case *types.Array:
		return mentionsMutable(u.Elem(), d+1)
	case *types.Map:
		return mentionsMutable(u.Elem(), d+1)
	case *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		if isBig(t) {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if mentionsMutable(u.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func undecided(r *Report, f *ssa.Function, R *EffectRun) {
	if R.Err != "" {
		r.bad("undecided|"+fname(f), "analysis did not complete: %s", R.Err)
	}
	for k := range R.Undec {
		r.bad("undecided|"+fname(f)+"|"+firstWord(k), "cannot decide: %s", k)
	}
}

func firstWord(s string) string {
	if i := strings.Index(s, " at "); i > 0 {
		return s[:i]
	}
	return s
}

func checkP01(P *Prog, r *Report, S *EffSpec) {
	r.Rule = "Each exported function is interpreted abstractly over go/ssa with its arguments as symbolic access paths (all callees inlined, dynamic calls resolved to every implementer, loops to a fixpoint). " +
		"Every store is attributed to the argument its cell was reached from. A store is a violation unless the argument position is a receiver position in spec/effects.json; stores into ring, parameter-set and key objects need an explicit permission, " +
		"stores into fields no operation writes after construction and into package variables are never permitted."
	r.Assume = []string{"arguments of one call do not alias each other (aliasing is P04)", "functions outside the module behave as modelled in extern.go"}
	e := runAllEffects(P)
	frozen := map[string]bool{}
	for _, k := range S.Frozen {
		frozen[k] = true
	}
	for i, f := range e.fs {
		R, n := e.rs[i], fname(f)
		undecided(r, f, R)
		sp := S.Funcs[n]
		if sp == nil {
			r.count("functions_not_in_table", 1)
		} else {
			r.count("functions", 1)
		}
		r.ok(len(f.Params))
		r.count("stores_attributed", len(R.Writes))
		for _, k := range sortedKeys(R.Writes) {
			w := R.Writes[k]
			idx, imm := writeClass(f, w)
			if strings.HasPrefix(w.Root, "global:") {
				r.bad("global-write|"+n+"|"+w.Root, "%s writes package variable %s: %s", n, w.Path, w.Stack)
				continue
			}
			if w.Root == "opaque" {
				r.bad("undecided|"+n+"|opaque", "%s writes memory of unknown origin %s: %s", n, w.Path, w.Stack)
				continue
			}
			fl := fieldOf(w.Obj, strings.TrimPrefix(w.Path, w.Obj.name))
			if frozen[fl] {
				r.bad("frozen-write|"+n+"|"+fl, "%s writes %s (%s), which no operation may write after construction: %s", n, w.Path, fl, w.Stack)
				continue
			}
			if sp == nil {
				continue
			}
			switch {
			case inList(sp.Writes, idx+"!"):
			case idx == "0" && imm == "" && isTool(f):
				// working memory of a tool object (not frozen, not a key, ring or parameter set)
			case !inList(sp.Writes, idx):
				r.bad("input-write|"+n+"|"+idx, "%s modifies its input argument %q (cell %s): %s", n, w.Root, w.Path, w.Stack)
			case imm != "":
				r.bad("immutable-write|"+n+"|"+idx+"|"+imm, "%s modifies a %s (cell %s): %s", n, imm, w.Path, w.Stack)
			}
		}
		if i%97 == 0 {
			r.sample(fmt.Sprintf("%s: %d cells written, permitted positions %v, instructions interpreted %d", n, len(R.Writes), spWrites(sp), R.Steps))
		}
		r.count("instructions_interpreted", R.Steps)
	}
	r.atLeast("functions", len(S.Funcs)*95/100)
}

// toolTypes own working memory; writing it is part of using them.
var toolTypes = map[string]bool{
	"ckks.evaluator": true, "ckks.decryptor": true, "ckks.encryptor": true, "ckks.encoder": true, "ckks.encoderComplex128": true, "ckks.encoderBigComplex": true, "ckks.keyGenerator": true,
	"fckks.Evaluator": true, "fckks.Decryptor": true, "fckks.Encryptor": true, "frlwe.KeyGenerator": true, "frlwe.KeySwitcher": true,
	"ring.BasisExtender": true, "ring.ComplexMultiplier": true, "ring.GaussianSampler": true, "ring.TernarySampler": true, "ring.UniformSampler": true, "ring.RNSScaler": true, "ring.SimpleScaler": true,
	"rlwe.KeySwitcher": true, "rlwe.UniformSamplerQP": true, "rlwe.decryptor": true, "rlwe.encryptor": true, "rlwe.keyGenerator": true, "rlwe.pkEncryptor": true, "rlwe.skEncryptor": true,
}

func isTool(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && toolTypes[typeName(deref(f.Signature.Recv().Type()))]
}

func spWrites(s *FnSpec) []string {
	if s == nil {
		return nil
	}
	return s.Writes
}

func checkP02(P *Prog, r *Report, S *EffSpec) {
	r.Rule = "Each exported function is interpreted abstractly over go/ssa; at every return, the references reachable from the results (and stored into any argument) are followed. A reference to storage of another argument or of a package variable is a violation " +
		"unless it leads to immutable infrastructure (rings, parameter sets), to a field no operation writes after construction, or is listed for this function in spec/effects.json (constructors that capture keys or random sources, accessors). Copy operations may only share immutable infrastructure."
	r.Assume = []string{"arguments of one call do not alias each other", "functions outside the module behave as modelled in extern.go"}
	e := runAllEffects(P)
	frozen := map[string]bool{}
	for _, k := range S.Frozen {
		frozen[k] = true
	}
	for i, f := range e.fs {
		R, n := e.rs[i], fname(f)
		undecided(r, f, R)
		sp := S.Funcs[n]
		if sp != nil {
			r.count("functions", 1)
		}
		r.ok(1)
		ss := R.shares()
		r.count("references_followed", len(ss))
		for _, s := range ss {
			if infraObj(s.Obj) {
				continue
			}
			k := shareKey(f, s)
			if sp != nil && inList(sp.Shares, k) {
				continue
			}
			if strings.HasPrefix(s.To, "global:") {
				r.bad("shares-global|"+n+"|"+k, "after %s, %s references package variable storage %s", n, s.Via, s.Path)
				continue
			}
			if !isCopyName(f.Name()) && frozen[k[strings.LastIndex(k, ">")+1:]] && isNumeric(s.Obj.typ) {
				continue
			}
			if sp == nil && s.From == "result" && !isCopyName(f.Name()) && !strings.HasSuffix(f.Name(), "New") {
				continue // a new accessor
			}
			r.bad("shares|"+n+"|"+k, "after %s, %s references storage of %q (%s, a %s): later changes to one show through the other", n, s.Via, s.To, s.Path, shortType(s.Obj.typ))
		}
		if len(ss) > 0 && i%41 == 0 {
			r.sample(fmt.Sprintf("%s: %d references from results into arguments, all permitted", n, len(ss)))
		}
	}
	r.atLeast("functions", len(S.Funcs)*95/100)
}

// normPath makes access paths comparable between an object and its copy.
func normPath(p string) string {
	var sb strings.Builder
	for _, k := range splitTokens(p) {
		if strings.HasPrefix(k, ".(") {
			continue
		}
		if k[0] == '[' {
			k = "[*]"
		}
		sb.WriteString(k)
	}
	return sb.String()
}

func pathUnder(w, base string) bool {
	return w == base || strings.HasPrefix(w, base+".") || strings.HasPrefix(w, base+"[")
}

func checkP03(P *Prog, r *Report, S *EffSpec) {
	r.Rule = "For every concurrent-use copy operation (ShallowCopy, WithKey, WithPRNG and the copy's own constructors) the storage its result shares with the original is computed by abstract interpretation over go/ssa; the storage every method of that type may write is computed the same way. " +
		"A shared access path that lies above a written one, seen from the original or from the copy, is a violation. Package variables may be stored to only by package initialisation."
	r.Assume = []string{"the user passes distinct receivers to concurrent calls", "functions outside the module behave as modelled in extern.go"}
	type job struct{ f *ssa.Function }
	var copies []*ssa.Function
	for _, f := range apiFuncs(P) {
		n := f.Name()
		if f.Signature.Recv() != nil && f.Signature.Results().Len() > 0 && (n == "ShallowCopy" || n == "WithKey" || n == "WithPRNG") {
			copies = append(copies, f)
		}
	}
	types_ := map[string]types.Type{}
	for _, f := range copies {
		types_[f.Signature.Recv().Type().String()] = f.Signature.Recv().Type()
	}
	type wr struct {
		path, m string
		e       *Effect
	}
	writes := map[string][]wr{}
	var names []string
	for k := range types_ {
		names = append(names, k)
	}
	sort.Strings(names)
	type mj struct {
		t string
		f *ssa.Function
		R *EffectRun
	}
	var ms []*mj
	for _, tn := range names {
		set := P.Prog.MethodSets.MethodSet(types_[tn])
		for i := 0; i < set.Len(); i++ {
			f := P.Prog.MethodValue(set.At(i))
			if f == nil || len(f.Blocks) == 0 || !set.At(i).Obj().Exported() || strings.HasPrefix(f.Name(), "Unmarshal") {
				continue
			}
			ms = append(ms, &mj{t: tn, f: f})
		}
	}
	crs := make([]*EffectRun, len(copies))
	parallel(len(ms)+len(copies), func(i int) {
		if i < len(ms) {
			ms[i].R = runEffects(P, ms[i].f)
		} else {
			crs[i-len(ms)] = runEffects(P, copies[i-len(ms)])
		}
	})
	for _, m := range ms {
		undecided(r, m.f, m.R)
		for _, k := range sortedKeys(m.R.Writes) {
			w := m.R.Writes[k]
			if strings.HasPrefix(w.Root, "global:") {
				r.bad("global-write|"+fname(m.f)+"|"+w.Root, "%s writes package variable %s: %s", fname(m.f), w.Path, w.Stack)
				continue
			}
			if w.Root != "recv" {
				continue
			}
			writes[m.t] = append(writes[m.t], wr{normPath(strings.TrimPrefix(w.Path, "recv")), fname(m.f), w})
		}
		r.count("methods", 1)
	}
	for i, f := range copies {
		R := crs[i]
		undecided(r, f, R)
		r.count("copy_operations", 1)
		// the types the copy may have
		tn := f.Signature.Recv().Type().String()
		ss := R.shares()
		for _, s := range ss {
			if s.From != "result" {
				r.bad("leak|"+fname(f)+"|"+s.From, "%s makes %s reference %s", fname(f), s.From, s.Path)
				continue
			}
			via := normPath(strings.TrimPrefix(s.Via, "result"))
			src := ""
			if s.To == "recv" {
				src = normPath(strings.TrimPrefix(s.Path, "recv"))
			}
			for _, w := range writes[tn] {
				r.ok(1)
				if pathUnder(w.path, via) || s.To == "recv" && pathUnder(w.path, src) {
					r.bad("shared-written|"+fname(f)+"|"+via, "%s shares %s with its origin (as %s), and %s writes %s: %s", fname(f), s.Path, s.Via, w.m, w.e.Path, w.e.Stack)
				}
			}
		}
		r.sample(fmt.Sprintf("%s: %d shared references against %d written cells of the type's methods", fname(f), len(ss), len(writes[tn])))
	}
	// package variables
	for _, f := range P.Funcs {
		if f.Synthetic != "" && strings.HasPrefix(f.Name(), "init") || strings.HasPrefix(f.Name(), "init#") || strings.HasPrefix(fname(f), "profile") {
			continue
		}
		if strings.HasSuffix(P.Fset.Position(f.Pos()).Filename, "_test.go") || f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					r.ok(1)
					if g := globalRoot(st.Addr); g != nil && inRepoPkg(g) {
						r.bad("global-write|"+fname(f)+"|"+g.Name(), "%s stores to package variable %s outside initialisation (%s)", fname(f), g.Name(), P.instrPos(in))
					}
				}
			}
		}
	}
	r.atLeast("copy_operations", 10)
	r.atLeast("methods", 60)
}

func inRepoPkg(g *ssa.Global) bool {
	return g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
}

func globalRoot(v ssa.Value) *ssa.Global {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// ---- P16

func isEntropy(x string) bool {
	return strings.HasPrefix(x, "crypto/rand.") || strings.HasPrefix(x, "math/rand") || strings.HasPrefix(x, "(*math/rand") || strings.HasPrefix(x, "(crypto/rand")
}

func isNondet(x string) bool {
	return strings.HasPrefix(x, "time.") || strings.HasPrefix(x, "(time.") || strings.HasPrefix(x, "os.") || strings.HasPrefix(x, "runtime.") || strings.HasPrefix(x, "math/rand") || strings.HasPrefix(x, "(*math/rand")
}

func checkP16(P *Prog, r *Report, S *EffSpec) {
	r.Rule = "For every exported function the calls that leave the module are collected by abstract interpretation over go/ssa (all callees inlined). Functions not listed as sampling in spec/effects.json must not reach the entropy source; no function may reach a clock, the environment, goroutines, select or pointer-to-integer conversions. " +
		"Every range over a map must be order-insensitive: a value carried from one iteration to the next may only be a sum not used inside the loop or a collection that is sorted afterwards, and no iteration may leave the loop with a value depending on the element."
	e := runAllEffects(P)
	for i, f := range e.fs {
		R, n := e.rs[i], fname(f)
		undecided(r, f, R)
		sp := S.Funcs[n]
		if sp != nil {
			r.count("functions", 1)
		}
		r.ok(1)
		for _, x := range sortedKeys(R.Rand) {
			r.count("generator_draws", 1)
			if sp != nil && !sp.Rand {
				r.bad("random|"+n+"|"+x, "%s is not a sampling operation but draws from a generator: %s", n, R.Rand[x])
			}
		}
		for _, x := range sortedKeys(R.Externs) {
			r.count("external_calls", 1)
			if isEntropy(x) && sp != nil && !sp.Entropy {
				r.bad("entropy|"+n+"|"+x, "%s is not a sampling operation but draws entropy: %s", n, R.Externs[x])
			}
			if isNondet(x) {
				r.bad("nondet|"+n+"|"+x, "%s depends on %s: %s", n, x, R.Externs[x])
			}
		}
	}
	for _, f := range P.Funcs {
		if isTestOrMain(P, f) {
			continue
		}
		r.count("functions_scanned", 1)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go, *ssa.Select:
					r.bad("concurrency|"+fname(f), "%s starts a goroutine or selects (%s): results may depend on scheduling", fname(f), P.instrPos(in))
				case *ssa.Convert:
					if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
						if bt2, ok := x.Type().Underlying().(*types.Basic); ok && bt2.Kind() == types.Uintptr {
							r.bad("address|"+fname(f), "%s turns an address into a number (%s)", fname(f), P.instrPos(in))
						}
					}
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						r.count("map_ranges", 1)
						r.ok(1)
						checkMapRange(P, r, f, x)
					}
				}
			}
		}
	}
	r.atLeast("functions", len(S.Funcs)*95/100)
	r.atLeast("external_calls", 20)
}

func isTestOrMain(P *Prog, f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
		return true
	}
	if strings.HasPrefix(fname(f), "profile") || strings.HasPrefix(fname(f), "(*profile") {
		return true
	}
	return strings.HasSuffix(P.Fset.Position(f.Pos()).Filename, "_test.go")
}

// checkMapRange decides order-insensitivity of one range over a map.
func checkMapRange(P *Prog, r *Report, f *ssa.Function, rg *ssa.Range) {
	// the loop: the header holding Next(rg)
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return
	}
	I := newInterp(P)
	L := I.info(f).loops[next.Block()]
	where := P.instrPos(rg)
	if L == nil {
		// body never loops back: the first element decides
		if len(next.Block().Succs) == 2 {
			r.bad("map-order|"+fname(f)+"|first", "%s takes an arbitrary element of a map (%s)", fname(f), where)
		}
		return
	}
	// values derived from the element
	elem := map[ssa.Value]bool{next: true}
	for ch := true; ch; {
		ch = false
		for b := range L.blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || elem[v] {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && elem[*op] {
						elem[v] = true
						ch = true
					}
				}
			}
		}
	}
	sorted := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && !L.blocks[b] && reaches(L.h, b) {
				if callee := c.Common().StaticCallee(); callee != nil && callee.Pkg != nil && (callee.Pkg.Pkg.Path() == "sort" || callee.Pkg.Pkg.Path() == "slices") {
					sorted = true
				}
			}
		}
	}
	for _, in := range L.h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		// commutative sum never used in the loop except in its own update
		okp := true
		for _, u := range *p.Referrers() {
			if !L.blocks[u.Block()] {
				continue
			}
			switch u := u.(type) {
			case *ssa.BinOp:
				if !sumChain(p, u, L, 0) {
					okp = false
				}
			case *ssa.Phi:
				for _, z := range *u.Referrers() {
					if b, ok := z.(*ssa.BinOp); z != p && (!ok || !sumChain(p, b, L, 0)) {
						okp = false
					}
				}
			case *ssa.IndexAddr:
				if !sorted {
					okp = false
				}
			case *ssa.Call:
				if b, isB := u.Call.Value.(*ssa.Builtin); !(isB && b.Name() == "append" && sorted) {
					okp = false
				}
			default:
				okp = false
			}
		}
		if !okp && !sorted {
			r.bad("map-order|"+fname(f)+"|"+shortType(p.Type()), "%s carries a value through a range over a map in iteration order (%s): equal inputs give different results", fname(f), where)
		}
	}
	// state carried from one element to the next through memory: maps and variables that outlive an iteration may be
	// read in the loop only at the current element's key if the loop writes them
	key := map[ssa.Value]bool{}
	for _, u := range *next.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == 1 {
			key[e] = true
		}
	}
	outer := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return !ok || !L.blocks[in.Block()]
	}
	cell := func(a ssa.Value) (base ssa.Value, keyed bool) { // the outer variable an address lies in
		for d := 0; d < 10; d++ {
			switch x := a.(type) {
			case *ssa.IndexAddr:
				keyed = keyed || key[x.Index]
				a = x.X
			case *ssa.FieldAddr:
				a = x.X
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return nil, false
				}
				if outer(x) {
					return x, keyed
				}
				a = x.X
			default:
				if outer(a) {
					return a, keyed
				}
				return nil, false
			}
		}
		return nil, false
	}
	type use struct {
		pos   string
		keyed bool
		konst bool
	}
	wr, rd := map[ssa.Value][]use{}, map[ssa.Value][]use{}
	for b := range L.blocks {
		for _, in := range b.Instrs {
			pos := P.instrPos(in)
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if outer(x.Map) {
					_, konst := x.Value.(*ssa.Const)
					wr[x.Map] = append(wr[x.Map], use{pos, key[x.Key], konst})
				}
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok && outer(x.X) {
					rd[x.X] = append(rd[x.X], use{pos, key[x.Index], false})
				}
			case *ssa.Store:
				if c, keyed := cell(x.Addr); c != nil {
					_, konst := x.Val.(*ssa.Const)
					wr[c] = append(wr[c], use{pos, keyed, konst})
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if c, keyed := cell(x.X); c != nil && !outer(x) {
						if _, isPtr := x.Type().Underlying().(*types.Pointer); !isPtr {
							rd[c] = append(rd[c], use{pos, keyed, false})
						}
					}
				}
			}
		}
	}
	for m, ws := range wr {
		for _, w := range ws {
			if w.keyed {
				continue
			}
			if !w.konst && !sorted {
				if _, isMap := m.Type().Underlying().(*types.Map); isMap {
					r.bad("map-order|"+fname(f)+"|update", "%s lets the last visited element decide an entry another element may also write, in a range over a map (%s at %s)", fname(f), where, w.pos)
				}
			}
			for _, q := range rd[m] {
				if sorted {
					break
				}
				r.bad("map-order|"+fname(f)+"|state", "%s reads at %s state that earlier elements of a range over a map (%s) may have written at %s: the result depends on iteration order", fname(f), q.pos, where, w.pos)
				break
			}
		}
	}
	// early exits with element-dependent values
	for b := range L.blocks {
		for _, s := range b.Succs {
			if L.blocks[s] || b == L.h {
				continue
			}
			for x := s; x != nil; {
				for _, in := range x.Instrs {
					if ret, ok := in.(*ssa.Return); ok {
						for _, v := range ret.Results {
							if elem[v] && !isErr(v.Type()) {
								r.bad("map-order|"+fname(f)+"|exit", "%s returns a value that depends on which map element is visited first (%s)", fname(f), where)
							}
						}
					}
				}
				if len(x.Succs) == 1 && len(x.Succs[0].Preds) == 1 {
					x = x.Succs[0]
				} else {
					x = nil
				}
			}
		}
	}
	r.sample(fmt.Sprintf("range over map in %s (%s)", fname(f), where))
}

// sumChain: u feeds only commutative updates that end in p.
func sumChain(p *ssa.Phi, u *ssa.BinOp, L *loop, d int) bool {
	if d > 8 || u.Op != token.ADD && u.Op != token.OR && u.Op != token.AND && u.Op != token.MUL && u.Op != token.XOR {
		return false
	}
	for _, x := range *u.Referrers() {
		switch y := x.(type) {
		case *ssa.Phi:
			if y == p {
				continue
			}
			// a merge inside the loop
			for _, z := range *y.Referrers() {
				b, ok := z.(*ssa.BinOp)
				if z == p {
					continue
				}
				if !ok || !sumChain(p, b, L, d+1) {
					return false
				}
			}
		case *ssa.BinOp:
			if !sumChain(p, y, L, d+1) {
				return false
			}
		default:
			if L.blocks[x.Block()] {
				return false
			}
		}
	}
	return true
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{a}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}
