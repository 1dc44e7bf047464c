package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P10 and P11: what randomness every published component contains (labels followed through the domain run), where
// the generators get their seeds, and that the samplers never hand out the same random bytes twice.

func labelsOf(ls []string, kinds ...string) []string {
	var out []string
	for _, l := range ls {
		for _, k := range kinds {
			if strings.HasPrefix(l, k+":") {
				out = append(out, l)
			}
		}
	}
	return out
}

func hasCRP(ls []string) bool {
	for _, l := range ls {
		if strings.HasPrefix(l, "op:") && strings.Contains(strings.ToLower(l), "crp") {
			return true
		}
	}
	return false
}

// published: a component other parties may see.
func published(p *OutPoly) bool {
	return p.Kind == "ct" || p.Kind == "pk" || p.Kind == "swk" || p.Kind == "fswk"
}

// copyOf: the labels say the component is taken over from an existing key.
func takenOver(p *OutPoly) bool {
	return hasPrefixS(p.A.may, "ek:") || p.Kind != "ct" && hasPrefixS(p.A.may, "pk:")
}

// compName strips the digit indices and the ring: result.Value[*][0].Q -> result.Value[*][0].
func compName(p *OutPoly) string {
	return strings.TrimSuffix(strings.TrimSuffix(p.Path, ".Q"), ".P")
}

func secretIn(p *OutPoly) bool {
	return hasPrefixS(p.A.may, "sk:") || p.Kind != "ct" && len(labelsOf(p.A.may, "T")) > 0
}

func checkP10(P *Prog, r *Report) {
	r.Rule = "Every draw of a sampler has a label of its own (call path, loop iteration) that follows the drawn values. On return every component of a ciphertext, public key or switching key that depends on key material must contain an error draw and a mask draw on every path; the error and mask draws of different components, digits and keys must be different draws. Generators are seeded from the operating system, error samplers are built with the parameters' deviation, and no sampler reads the same random bytes twice."
	checkDom(P, r, "P10", func(f *domFinder, ps []*OutPoly, os []*OutObj) {
		f.freshness(ps)
	})
	prngSources(P, r)
	randomBytes(P, r)
	drawLoops(P, r)
	r.atLeast("masks judged", 30)
	r.atLeast("operations", 150)
	r.atLeast("components with key material judged", 60)
	r.atLeast("draws compared between components", 60)
	r.atLeast("generators and samplers traced to their source", 8)
	r.atLeast("reads of random bytes followed", 5)
}

func (f *domFinder) freshness(ps []*OutPoly) {
	r := f.r
	type comp struct {
		p    *OutPoly
		errs []string
		mask []string
	}
	var cs []comp
	for _, p := range ps {
		if !published(p) || takenOver(p) {
			continue
		}
		a := p.A
		pk, sk := hasPrefixS(a.may, "pk:"), secretIn(p)
		c := comp{p: p, errs: labelsOf(a.may, "E"), mask: labelsOf(a.may, "U")}
		if p.Kind == "ct" && !sk {
			c.mask = labelsOf(a.may, "T", "U")
		}
		if pk || sk || len(c.mask) > 0 {
			cs = append(cs, c)
		}
		if !pk && !sk {
			continue
		}
		if !hasPrefixS(a.must, "pk:") && !hasPrefixS(a.must, "sk:") && len(labelsOf(a.must, "T")) == 0 {
			r.count("components not judged (several encryptors possible)", 1)
			continue
		}
		must := sureLabels(a)
		r.ok(2)
		r.count("components with key material judged", 1)
		if !hasS(must, "E") {
			f.bad("no-error", stripIdx(p.Path), "%s contains %s but not, on every path, an error drawn by this call", p.Path, keyWord(pk, sk))
		}
		masked := hasS(must, "T") || hasS(must, "U") || hasCRP(must)
		if sk {
			masked = hasS(must, "U") || hasCRP(must) || pk
		}
		if !masked {
			f.bad("no-mask", stripIdx(p.Path), "%s contains %s but not, on every path, a mask drawn by this call", p.Path, keyWord(pk, sk))
		}
		if p.Rest != nil && !isApprox(p.Rest.may) && (hasPrefixS(p.Rest.may, "pk:") || hasPrefixS(p.Rest.may, "sk:")) && !hasS(p.Rest.must, "E") {
			f.bad("no-error-rows", stripIdx(p.Path), "the rows above %s of %s contain %s but no error", a.lvl, p.Path, keyWord(pk, sk))
		}
		// one draw per element of a container
		n := strings.Count(compName(p), "[*]")
		if p.Kind == "fswk" {
			n--
		}
		for _, kind := range []string{"E", "U"} {
			ok := n == 0 || p.Kind == "ct"
			ls := labelsOf(a.must, kind)
			for _, l := range ls {
				if strings.Count(l, ";") >= n {
					ok = true
				}
			}
			if !ok && len(ls) > 0 {
				f.bad("draw-outside-loop", kind+stripIdx(p.Path), "all digits of %s contain the same draw %v", p.Path, ls)
			}
		}
	}
	// masks of elements of a container that carry nothing else
	for _, c := range cs {
		n := strings.Count(compName(c.p), "[*]")
		if n > 0 && c.p.Kind == "swk" && len(c.mask) > 0 && !hasPrefixS(c.p.A.may, "sk:") && !isApprox(c.p.A.may) {
			ok := false
			for _, l := range c.mask {
				ok = ok || strings.Count(l, ";") >= n
			}
			if !ok {
				f.bad("draw-outside-loop", "U"+stripIdx(c.p.Path), "all digits of %s are the same draw %v", c.p.Path, c.mask)
			}
		}
	}
	// the other component of an encryption under a secret key is the mask itself
	for _, x := range cs {
		if x.p.Kind == "fswk" || !secretIn(x.p) || !hasPrefixS(x.p.A.must, "sk:") && len(labelsOf(x.p.A.must, "T")) == 0 {
			continue
		}
		for _, q := range ps {
			if q == x.p || q.Kind != x.p.Kind || compName(q) == compName(x.p) || !sameObject(compName(q), compName(x.p)) || secretIn(q) || !strings.HasSuffix(compName(q), "[1]") {
				continue
			}
			r.ok(1)
			r.count("masks judged", 1)
			if m := sureLabels(q.A); !hasS(m, "U") && !hasCRP(m) {
				f.bad("no-mask", stripIdx(q.Path), "%s is not, on every path, a mask drawn by this call (contains %v)", q.Path, m)
			}
		}
	}
	for i, x := range cs {
		for _, y := range cs[:i] {
			nx, ny := compName(x.p), compName(y.p)
			if nx == ny {
				continue
			}
			f.r.count("draws compared between components", 1)
			f.r.ok(1)
			if l := common(x.errs, y.errs); l != "" && !isApprox(x.p.A.may) && !isApprox(y.p.A.may) {
				f.bad("error-reused", stripIdx(nx)+"|"+stripIdx(ny), "%s and %s contain the same error draw %s", x.p.Path, y.p.Path, l)
			}
			if sameObject(nx, ny) || isApprox(x.p.A.may) || isApprox(y.p.A.may) {
				continue
			}
			if l := common(x.mask, y.mask); l != "" {
				f.bad("mask-reused", stripIdx(nx)+"|"+stripIdx(ny), "%s and %s contain the same mask draw %s", x.p.Path, y.p.Path, l)
			}
		}
	}
}

// dispatched: a public-key and a secret-key encryptor may both be behind an interface, so no one draw is certain.
func dispatched(a *CA) bool {
	return hasPrefixS(a.may, "pk:") && hasPrefixS(a.may, "sk:") && !hasPrefixS(a.must, "pk:") && !hasPrefixS(a.must, "sk:")
}

// sureLabels: what a result contains on every path; where not all its rows were followed, everything it may contain
// gets the benefit of the doubt.
func sureLabels(a *CA) []string {
	if isApprox(a.may) {
		return a.may
	}
	return a.must
}

func keyWord(pk, sk bool) string {
	switch {
	case pk && sk:
		return "key material"
	case pk:
		return "public-key material"
	}
	return "secret-key material"
}

func common(a, b []string) string {
	for _, x := range a {
		if hasS(b, x) {
			return x
		}
	}
	return ""
}

// sameObject: the two components belong to one ciphertext or key (they differ in the last index only).
func sameObject(a, b string) bool {
	cut := func(s string) string {
		if i := strings.LastIndex(s, "["); i >= 0 {
			return s[:i]
		}
		return s
	}
	return cut(a) == cut(b)
}

func checkP11(P *Prog, r *Report) {
	r.Rule = "Every value read from a secret key (and every secret drawn by a key generator) carries a label through the run. On return, a component of a ciphertext, public key or switching key that may carry it must, on every path, also contain an error draw and a uniform mask (or the caller's common reference string) of the same call; other polynomials reachable from results must not carry it, except secret keys and plaintexts. No call that formats, prints or logs is given key material."
	checkDom(P, r, "P11", func(f *domFinder, ps []*OutPoly, os []*OutObj) {
		for _, p := range ps {
			if p.Kind == "sk" || p.Kind == "pt" {
				continue
			}
			a := p.A
			if !secretIn(p) || p.Kind == "" && !hasPrefixS(a.may, "sk:") {
				r.count("result polynomials without secret content", 1)
				r.ok(1)
				continue
			}
			if takenOver(p) {
				continue
			}
			if p.Kind == "" && (secretArg(f.R, p.Root) || !publicProducer(f.R)) {
				continue
			}
			r.ok(2)
			r.count("result polynomials with secret content judged", 1)
			if dispatched(a) {
				r.count("components not judged (several encryptors possible)", 1)
				continue
			}
			must := sureLabels(a)
			if !hasS(must, "E") || !hasS(must, "U") && !hasCRP(must) && !hasPrefixS(must, "pk:") {
				f.bad("unmasked-secret", stripIdx(p.Path), "%s carries secret-key material (%v) without an error and a uniform mask on every path (contains %v)", p.Path, append(labelsOf(a.may, "sk"), labelsOf(a.may, "T")...), drawKinds(must))
			}
			if p.Rest != nil && !isApprox(p.Rest.may) && hasPrefixS(p.Rest.may, "sk:") && (!hasS(p.Rest.must, "E") || !hasS(p.Rest.must, "U") && !hasCRP(p.Rest.must)) {
				f.bad("unmasked-secret-rows", stripIdx(p.Path), "the rows above %s of %s carry secret-key material without an error and a mask", a.lvl, p.Path)
			}
		}
	})
	printedKeys(P, r)
	r.atLeast("operations", 150)
	r.atLeast("result polynomials with secret content judged", 40)
	r.atLeast("result polynomials without secret content", 1000)
}

func drawKinds(ls []string) []string {
	var out []string
	for _, l := range ls {
		if !strings.Contains(l, ":") || strings.HasPrefix(l, "op:") {
			out = append(out, l)
		}
	}
	return out
}

// secretArg: the polynomial is the caller's own secret-level receiver.
func secretArg(R *DomRun, root string) bool {
	return strings.Contains(strings.ToLower(root), "sk")
}

// publicProducer: encryptors and key generators; decryption-side results are the owner's.
func publicProducer(R *DomRun) bool {
	rv := R.cfg.fn.Signature.Recv()
	if rv == nil {
		return false
	}
	n := strings.ToLower(typeName(deref(rv.Type())))
	return strings.Contains(n, "encryptor") || strings.Contains(n, "keygenerator") || strings.Contains(n, "evaluator") || strings.Contains(n, "keyswitcher")
}

// printedKeys: key material handed to formatting, printing or logging.
func printedKeys(P *Prog, r *Report) {
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Call:
					c := in.Call.StaticCallee()
					if c == nil || c.Pkg == nil {
						continue
					}
					switch c.Pkg.Pkg.Path() {
					case "fmt", "log", "errors", "os", "io", "log/slog":
					default:
						continue
					}
					r.count("formatting, printing and logging calls", 1)
					r.ok(1)
					for _, a := range in.Call.Args {
						for _, v := range formatted(a) {
							if t := v.Type(); hasPoly(t, 0) || fromSecret(v, 0) {
								r.bad("printed-key|"+fname(f)+"|"+typeName(deref(t)), "%s hands a %s with key material to %s at %s", fname(f), t, fname(c), P.instrPos(in))
							}
						}
					}
				case *ssa.Panic:
					for _, v := range formatted(in.X) {
						if t := v.Type(); hasPoly(t, 0) || fromSecret(v, 0) {
							r.bad("printed-key|"+fname(f)+"|panic", "%s panics with a %s with key material at %s", fname(f), t, P.instrPos(in))
						}
					}
				}
			}
		}
	}
}

// formatted: the operands of a variadic formatting call.
func formatted(v ssa.Value) []ssa.Value {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return []ssa.Value{v.X}
	case *ssa.Slice:
		var out []ssa.Value
		if a, ok := v.X.(*ssa.Alloc); ok {
			for _, u := range *a.Referrers() {
				ia, ok := u.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, w := range *ia.Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == ia {
						out = append(out, formatted(st.Val)...)
					}
				}
			}
		}
		return out
	}
	return nil
}

// fromSecret: the value is read from inside a secret key (not a length or a level of it).
func fromSecret(v ssa.Value, d int) bool {
	if d > 30 {
		return false
	}
	if typeIs(deref(v.Type()), "rlwe.SecretKey") {
		return true
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fromSecret(x.X, d+1)
	case *ssa.Field:
		return fromSecret(x.X, d+1)
	case *ssa.IndexAddr:
		return fromSecret(x.X, d+1)
	case *ssa.Index:
		return fromSecret(x.X, d+1)
	case *ssa.Slice:
		return fromSecret(x.X, d+1)
	case *ssa.UnOp:
		return fromSecret(x.X, d+1)
	case *ssa.Convert:
		return fromSecret(x.X, d+1)
	case *ssa.ChangeType:
		return fromSecret(x.X, d+1)
	case *ssa.BinOp:
		return fromSecret(x.X, d+1) || fromSecret(x.Y, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if fromSecret(e, d+8) {
				return true
			}
		}
	}
	return false
}

// ---- sources of seeds and of distribution parameters

type tracer struct {
	P      *Prog
	seen   map[ssa.Value]bool
	stores map[string][]ssa.Value
	calls  map[*ssa.Function][]ssa.CallInstruction
}

func newTracer(P *Prog) *tracer {
	t := &tracer{P: P, seen: map[ssa.Value]bool{}, stores: map[string][]ssa.Value{}, calls: map[*ssa.Function][]ssa.CallInstruction{}}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if k := fieldKey(in.Addr); k != "" {
						t.stores[k] = append(t.stores[k], in.Val)
					}
				case ssa.CallInstruction:
					fs, _ := P.callees(in.Common())
					for _, c := range fs {
						t.calls[c] = append(t.calls[c], in)
					}
				}
			}
		}
	}
	return t
}

// fieldKey names the struct field an address denotes.
func fieldKey(v ssa.Value) string {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	s, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return typeName(deref(fa.X.Type())) + "." + s.Field(fa.Field).Name()
}

// origins: where a value comes from. visit is called for every source: a call, a parameter of an exported function, a
// constant, a field without stores.
func (t *tracer) origins(v ssa.Value, visit func(v ssa.Value, what string)) {
	if v == nil || t.seen[v] {
		return
	}
	t.seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			t.origins(e, visit)
		}
	case *ssa.MakeInterface:
		t.origins(v.X, visit)
	case *ssa.ChangeInterface:
		t.origins(v.X, visit)
	case *ssa.ChangeType:
		t.origins(v.X, visit)
	case *ssa.Convert:
		t.origins(v.X, visit)
	case *ssa.TypeAssert:
		t.origins(v.X, visit)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			t.call(c, v.Index, visit)
			return
		}
		t.origins(v.Tuple, visit)
	case *ssa.Call:
		t.call(v, 0, visit)
	case *ssa.Parameter:
		f := v.Parent()
		if f.Object() != nil && f.Object().Exported() {
			visit(v, "argument "+v.Name()+" of "+fname(f))
		}
		for i, p := range f.Params {
			if p != v {
				continue
			}
			for _, c := range t.calls[f] {
				as := c.Common().Args
				j := i
				if c.Common().IsInvoke() {
					j--
				}
				if j >= 0 && j < len(as) && len(as) <= len(f.Params) {
					t.origins(as[j], visit)
				}
			}
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			visit(v, "expression")
			return
		}
		if k := fieldKey(v.X); k != "" {
			visit(v, "field "+k)
			for _, s := range t.stores[k] {
				t.origins(s, visit)
			}
			return
		}
		if a, ok := v.X.(*ssa.Alloc); ok {
			for _, u := range *a.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == a {
					t.origins(st.Val, visit)
				}
			}
			return
		}
		visit(v, "memory")
	case *ssa.Field:
		s := v.X.Type().Underlying().(*types.Struct)
		k := typeName(v.X.Type()) + "." + s.Field(v.Field).Name()
		visit(v, "field "+k)
		for _, x := range t.stores[k] {
			t.origins(x, visit)
		}
	case *ssa.Const:
		visit(v, "constant")
	default:
		visit(v, "expression")
	}
}

func (t *tracer) call(c *ssa.Call, i int, visit func(v ssa.Value, what string)) {
	f := c.Call.StaticCallee()
	if f == nil {
		visit(c, "call")
		return
	}
	visit(c, "call "+fname(f))
	if !inRepo(f) || f.Blocks == nil {
		return
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			t.origins(r.Results[i], visit)
		}
	}
}

func isPRNG(t types.Type) bool {
	return typeIs(t, "utils.PRNG") || typeIs(deref(t), "utils.KeyedPRNG")
}

// prngSources: generators handed to samplers come from the system's entropy or from the caller; error samplers use
// the parameters' deviation.
func prngSources(P *Prog, r *Report) {
	t := newTracer(P)
	for _, f := range P.Funcs {
		for _, im := range f.Blocks {
			for _, in := range im.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				callee := c.StaticCallee()
				if callee == nil {
					continue
				}
				if callee.Pkg != nil && strings.HasPrefix(callee.Pkg.Pkg.Path(), "math/rand") {
					r.bad("weak-source|"+fname(f), "%s uses %s at %s", fname(f), fname(callee), P.instrPos(in))
				}
				if !inRepo(callee) || inPkg(f, "utils") {
					continue
				}
				name := fname(callee)
				for i, p := range callee.Params {
					if i >= len(c.Args) || !isPRNG(p.Type()) || callee.Signature.Recv() != nil && i == 0 {
						continue
					}
					if !strings.HasPrefix(callee.Name(), "New") {
						continue
					}
					r.count("generators and samplers traced to their source", 1)
					r.ok(1)
					t.seen = map[ssa.Value]bool{}
					t.origins(c.Args[i], func(v ssa.Value, what string) {
						if what != "call utils.NewKeyedPRNG" {
							return
						}
						call, ok := v.(*ssa.Call)
						if !ok {
							return
						}
						user := false
						u := newSeen(t)
						u.origins(call.Call.Args[0], func(_ ssa.Value, w string) { user = user || strings.HasPrefix(w, "argument ") })
						if !user {
							r.bad("fixed-seed|"+fname(f)+"|"+name, "%s gives %s a generator keyed at %s with a key that is not the caller's", fname(f), name, P.instrPos(call))
						}
					})
				}
				if name == "ring.NewGaussianSampler" || strings.HasPrefix(name, "(*ring.GaussianSampler).ReadFromDist") || strings.HasPrefix(name, "(*ring.GaussianSampler).ReadAndAddFromDist") {
					for i, p := range callee.Params {
						b, ok := p.Type().Underlying().(*types.Basic)
						if !ok || b.Kind() != types.Float64 || i >= len(c.Args) {
							continue
						}
						r.count("generators and samplers traced to their source", 1)
						r.ok(1)
						u := newSeen(t)
						good, other := false, ""
						u.origins(c.Args[i], func(v ssa.Value, w string) {
							switch {
							case strings.HasPrefix(w, "call ") && strings.HasSuffix(w, ".Sigma"), strings.HasPrefix(w, "argument "), strings.HasPrefix(w, "field ") && strings.HasSuffix(strings.ToLower(w), "sigma"):
								good = true
							case w == "constant":
								other = v.String()
							case strings.HasPrefix(w, "field "), strings.HasPrefix(w, "call "):
							default:
								other = v.String()
							}
						})
						if !good && other != "" {
							r.bad("error-deviation|"+fname(f)+"|"+name, "%s draws errors with deviation %s, not with the parameters' deviation, at %s", fname(f), other, P.instrPos(in))
						}
					}
				}
			}
		}
	}
	// the entropy-keyed constructor itself
	f := P.fn("utils.NewPRNG")
	if f == nil {
		return
	}
	var xofs, reads []*ssa.Call
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if n := c.Call.StaticCallee(); n != nil && n.Pkg != nil {
				switch {
				case strings.HasSuffix(n.Pkg.Pkg.Path(), "x/crypto/blake2b") && strings.HasPrefix(n.Name(), "New"), fname(n) == "utils.NewKeyedPRNG":
					xofs = append(xofs, c)
				case n.Pkg.Pkg.Path() == "crypto/rand" && n.Name() == "Read", n.Pkg.Pkg.Path() == "io" && n.Name() == "ReadFull":
					reads = append(reads, c)
				}
			}
		}
	}
	for _, x := range xofs {
		key := x.Call.Args[len(x.Call.Args)-1]
		r.count("generators and samplers traced to their source", 1)
		r.ok(1)
		ok, n := false, int64(-1)
		for _, rd := range reads {
			buf := rd.Call.Args[len(rd.Call.Args)-1]
			if sameBuffer(buf, key) && (rd.Block() != x.Block() && rd.Block().Dominates(x.Block()) || rd.Block() == x.Block()) {
				ok = true
				n = makeLen(buf)
			}
		}
		if len(reads) > 0 && !ok {
			r.bad("seed-not-random|utils.NewPRNG", "the generator created at %s is keyed with bytes that are not the ones read from the system's entropy", P.instrPos(x))
		}
		if len(reads) == 0 {
			r.bad("seed-not-random|utils.NewPRNG", "the generator created at %s is keyed without reading the system's entropy", P.instrPos(x))
		}
		if n >= 0 && n < 16 {
			r.bad("seed-short|utils.NewPRNG", "the generator created at %s is keyed with %d bytes", P.instrPos(x), n)
		}
	}
}

func newSeen(t *tracer) *tracer {
	return &tracer{P: t.P, seen: map[ssa.Value]bool{}, stores: t.stores, calls: t.calls}
}

func inPkg(f *ssa.Function, n string) bool { return f.Pkg != nil && f.Pkg.Pkg.Name() == n }

func sameBuffer(a, b ssa.Value) bool {
	whole := func(v ssa.Value) ssa.Value {
		for {
			s, ok := v.(*ssa.Slice)
			if !ok || s.Low != nil || s.High != nil && !isAllocLen(s) {
				return v
			}
			if _, isA := s.X.(*ssa.Alloc); isA {
				return s.X
			}
			v = s.X
		}
	}
	return whole(a) == whole(b)
}

// isAllocLen: new [n]T sliced [:n], the form of make with a constant length.
func isAllocLen(s *ssa.Slice) bool {
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	arr, ok := deref(a.Type()).Underlying().(*types.Array)
	c, ok2 := s.High.(*ssa.Const)
	if !ok || !ok2 || c.Value == nil {
		return false
	}
	n, _ := constant.Int64Val(c.Value)
	return n == arr.Len()
}

func makeLen(v ssa.Value) int64 {
	switch v := v.(type) {
	case *ssa.Slice:
		if a, ok := v.X.(*ssa.Alloc); ok {
			if arr, ok := deref(a.Type()).Underlying().(*types.Array); ok {
				if v.High != nil {
					if c, ok := v.High.(*ssa.Const); ok && c.Value != nil {
						n, _ := constant.Int64Val(c.Value)
						return n
					}
					return -1
				}
				return arr.Len()
			}
		}
	case *ssa.MakeSlice:
		if c, ok := v.Len.(*ssa.Const); ok && c.Value != nil {
			n, _ := constant.Int64Val(c.Value)
			return n
		}
	}
	return -1
}

// drawLoops: a draw made inside a loop is made in every iteration: no path around the loop skips it on a condition that
// changes with the iteration.
func drawLoops(P *Prog, r *Report) {
	kind := func(f *ssa.Function) string {
		if f == nil || f.Signature.Recv() == nil {
			return ""
		}
		if !strings.HasPrefix(f.Name(), "Read") {
			return ""
		}
		switch typeName(deref(f.Signature.Recv().Type())) {
		case "ring.GaussianSampler":
			return "E"
		case "ring.TernarySampler":
			return "T"
		case "ring.UniformSampler", "rlwe.UniformSamplerQP":
			return "U"
		}
		return ""
	}
	// functions that may draw
	may := map[*ssa.Function]map[string]bool{}
	drawsIn := func(in ssa.Instruction, m map[*ssa.Function]map[string]bool, k string) bool {
		c, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		f := c.Call.StaticCallee()
		if f == nil {
			return false
		}
		return kind(f) == k || m[f][k]
	}
	for changed := true; changed; {
		changed = false
		for _, f := range P.Funcs {
			if len(f.Blocks) == 0 || inPkg(f, "ring") {
				continue
			}
			for _, k := range []string{"E", "T", "U"} {
				if !may[f][k] {
				find:
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if drawsIn(in, may, k) {
								if may[f] == nil {
									may[f] = map[string]bool{}
								}
								may[f][k] = true
								changed = true
								break find
							}
						}
					}
				}
			}
		}
	}
	for _, f := range P.Funcs {
		if inPkg(f, "ring") {
			continue
		}
		for _, h := range f.Blocks {
			body := natLoop(h)
			if body == nil {
				continue
			}
			for _, k := range []string{"E", "T", "U"} {
				has := false
				for b := range body {
					for _, in := range b.Instrs {
						has = has || drawsIn(in, may, k)
					}
				}
				if !has {
					continue
				}
				r.count("loops with draws", 1)
				r.ok(1)
				isDraw := func(in ssa.Instruction) bool { return drawsIn(in, may, k) }
				if !escapes(h, h, body, isDraw) {
					continue
				}
				// which branch lets an iteration go without
				for b := range body {
					ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
					if !ok || !varies(ifi.Cond, body, map[ssa.Value]bool{}) {
						continue
					}
					skip, hit := false, false
					for _, s := range b.Succs {
						if !body[s] {
							continue
						}
						// an inner loop that draws is entered or not by its own header
						if s != h && escapes(s, h, body, isDraw) && works(s, h, body, isDraw) {
							skip = true
						}
						if reachesDraw(s, h, body, func(in ssa.Instruction) bool { return drawsIn(in, may, k) }) {
							hit = true
						}
					}
					if skip && hit && natLoop(b) == nil {
						r.bad("draw-skipped|"+fname(f)+"|"+k, "%s: the branch at %s lets an iteration of the loop at %s go without a draw of its own", fname(f), P.instrPos(ifi), P.pos(h.Instrs[0].Pos()))
					}
				}
			}
		}
	}
	r.atLeast("loops with draws", 1)
}

// natLoop: the natural loop of a header, nil if b is not one.
func natLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	var body map[*ssa.BasicBlock]bool
	for _, p := range h.Preds {
		if !h.Dominates(p) {
			continue
		}
		if body == nil {
			body = map[*ssa.BasicBlock]bool{h: true}
		}
		st := []*ssa.BasicBlock{p}
		for len(st) > 0 {
			b := st[len(st)-1]
			st = st[:len(st)-1]
			if body[b] {
				continue
			}
			body[b] = true
			st = append(st, b.Preds...)
		}
	}
	return body
}

// escapes: a path from b to the end (or, inside a loop, back to its header) without an instruction of the given kind.
func escapes(b, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, is func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, first bool) bool
	walk = func(b *ssa.BasicBlock, first bool) bool {
		if !first && b == h {
			return true
		}
		if seen[b] || body != nil && !body[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if is(in) {
				return false
			}
			if _, ok := in.(*ssa.Return); ok && body == nil {
				return true
			}
		}
		for _, s := range b.Succs {
			if walk(s, false) {
				return true
			}
		}
		return false
	}
	return walk(b, true)
}

// works: an iteration that goes on from b to its end without a draw still does something.
func works(b, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, isDraw func(ssa.Instruction) bool) bool {
	free := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			if isDraw(in) {
				return false
			}
		}
		return body[b] && b != h
	}
	fwd := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if fwd[b] || !free(b) {
			return
		}
		fwd[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(b)
	back := map[*ssa.BasicBlock]bool{}
	var up func(b *ssa.BasicBlock)
	up = func(b *ssa.BasicBlock) {
		for _, p := range b.Preds {
			if fwd[p] && !back[p] {
				back[p] = true
				up(p)
			}
		}
	}
	up(h)
	for x := range back {
		for _, in := range x.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				return true
			case *ssa.Call:
				if f := in.Call.StaticCallee(); f != nil && inRepo(f) || in.Call.IsInvoke() {
					return true
				}
			}
		}
	}
	return false
}

func reachesDraw(b, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, is func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{h: true}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] || !body[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if is(in) {
				return true
			}
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(b)
}

// varies: the condition depends on something that changes from iteration to iteration.
func varies(v ssa.Value, body map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok || !body[in.Block()] {
		return false
	}
	switch v.(type) {
	case *ssa.Phi, *ssa.Next:
		return true
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && varies(*o, body, seen) {
			return true
		}
	}
	return false
}
