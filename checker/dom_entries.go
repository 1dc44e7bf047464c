package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// written parameters and scratch locations, from the effects of every exported operation.
type writtenInfo struct {
	roots   map[*ssa.Function]map[string]bool
	scratch map[string]bool
}

var wiOnce sync.Once
var wi *writtenInfo

func scratchKey(path string) string {
	fs := strings.FieldsFunc(path, func(r rune) bool { return r == '.' })
	for i := len(fs) - 1; i >= 0; i-- {
		f := fs[i]
		if j := strings.Index(f, "["); j >= 0 {
			f = f[:j]
		}
		switch f {
		case "Q", "P", "Coeffs", "Value", "IsNTT", "IsMForm", "":
			continue
		}
		return f
	}
	return ""
}

func getWritten(P *Prog) *writtenInfo {
	wiOnce.Do(func() {
		wi = &writtenInfo{roots: map[*ssa.Function]map[string]bool{}, scratch: map[string]bool{}}
		fns := apiFuncs(P)
		var mu sync.Mutex
		parallel(len(fns), func(i int) {
			f := fns[i]
			pk := f.Object().Pkg().Name()
			if len(f.Blocks) == 0 {
				return
			}
			R := runEffects(P, f)
			mu.Lock()
			defer mu.Unlock()
			m := map[string]bool{}
			for _, e := range R.Writes {
				m[e.Root] = true
				if e.Root == "recv" && pk != "utils" {
					wi.scratch[scratchKey(e.Path)] = true
				}
			}
			wi.roots[f] = m
		})
	})
	return wi
}

func (D *Dom) writtenScratch(o *Obj, p string) bool {
	return getWritten(D.P).scratch[scratchKey(o.name+p)]
}

func isCt(t types.Type) bool    { return typeIs(t, "rlwe.Ciphertext", "ckks.Ciphertext") }
func isPt(t types.Type) bool    { return typeIs(t, "rlwe.Plaintext", "ckks.Plaintext") }
func isPolyT(t types.Type) bool { return typeIs(t, "ring.Poly") }

// domEntries are the exported operations on ciphertexts, plaintexts, keys and polynomials.
func domEntries(P *Prog) []*ssa.Function { return entriesIn(P, "ckks", "fckks", "frlwe", "rlwe") }

// ringEntries are the exported operations of package ring on polynomials.
func ringEntries(P *Prog) []*ssa.Function { return entriesIn(P, "ring") }

func entriesIn(P *Prog, pkgs ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range apiFuncs(P) {
		pk := f.Object().Pkg().Name()
		if !hasS(pkgs, pk) {
			continue
		}
		if len(f.Blocks) == 0 {
			continue
		}
		switch n := f.Name(); {
		case strings.HasPrefix(n, "Marshal"), strings.HasPrefix(n, "Unmarshal"), strings.HasPrefix(n, "GetDataLen"), strings.HasPrefix(n, "Decode64"), strings.HasPrefix(n, "WriteTo"), strings.HasPrefix(n, "DecodePoly"):
			continue
		}
		rel := false
		chk := func(t types.Type) {
			switch u := t.(type) {
			case *types.Slice:
				t = u.Elem()
			}
			if isCt(t) || isPt(t) || isPolyT(t) || typeIs(t, "rlwe.PolyQP", "rlwe.SecretKey", "rlwe.PublicKey", "rlwe.SwitchingKey", "frlwe.SwitchingKey") || isOperand(t) {
				rel = true
			}
		}
		sig := f.Signature
		for i := 0; i < sig.Params().Len(); i++ {
			chk(sig.Params().At(i).Type())
		}
		for i := 0; i < sig.Results().Len(); i++ {
			chk(sig.Results().At(i).Type())
		}
		if sig.Recv() != nil && !rel {
			n := typeName(deref(sig.Recv().Type()))
			if strings.HasSuffix(strings.ToLower(n), "keygenerator") {
				rel = true
			}
		}
		if rel {
			out = append(out, f)
		}
	}
	return out
}

func isOperand(t types.Type) bool {
	return typeIs(t, "ckks.Operand")
}

func product(dst []*DomCfg, n int, f func(c *DomCfg, k int)) []*DomCfg {
	var out []*DomCfg
	for _, c := range dst {
		for k := 0; k < n; k++ {
			x := &DomCfg{fn: c.fn, typ: map[string]types.Type{}, deg: map[string]int{}, ntt: map[string]bool{}, recvs: c.recvs, noP: c.noP, ci: c.ci}
			for a, b := range c.typ {
				x.typ[a] = b
			}
			for a, b := range c.deg {
				x.deg[a] = b
			}
			for a, b := range c.ntt {
				x.ntt[a] = b
			}
			for a, b := range c.twin {
				if x.twin == nil {
					x.twin = map[string]string{}
				}
				x.twin[a] = b
			}
			if c.same != nil {
				x.same = map[string]string{}
				for a, b := range c.same {
					x.same[a] = b
				}
			}
			f(x, k)
			out = append(out, x)
		}
	}
	return out
}

func domConfigs(P *Prog, f *ssa.Function) []*DomCfg {
	w := getWritten(P)
	cs := []*DomCfg{{fn: f, typ: map[string]types.Type{}, deg: map[string]int{}, ntt: map[string]bool{}, recvs: w.roots[f]}}
	pk := f.Object().Pkg().Name()
	fixed := pk == "ckks" || pk == "fckks"
	if pk == "ring" { // the kernels do not look at the representation
		for i, p := range f.Params {
			if isPolyT(p.Type()) {
				cs[0].ntt[paramName(f, i)] = true
			}
		}
		return cs
	}
	for i, p := range f.Params {
		n := paramName(f, i)
		t := p.Type()
		switch {
		case isOperand(t):
			ct, pt := P.namedType("ckks", "Ciphertext"), P.namedType("ckks", "Plaintext")
			if ct == nil || pt == nil {
				continue
			}
			cs = product(cs, 3, func(c *DomCfg, k int) {
				c.ntt[n] = true
				if k == 2 {
					c.typ[n] = types.NewPointer(pt)
					c.deg[n] = 0
				} else {
					c.typ[n] = types.NewPointer(ct)
					c.deg[n] = k + 1
				}
			})
		case isCt(t):
			cs = product(cs, 2, func(c *DomCfg, k int) { c.deg[n] = k + 1; c.ntt[n] = true })
			if !fixed && !strings.HasSuffix(f.Name(), "NTT") { // documented: ...NTT operations take and return the evaluation domain
				cs = product(cs, 2, func(c *DomCfg, k int) { c.ntt[n] = k == 0 })
			}
		case isPt(t) || isPolyT(t):
			cs = product(cs, 1, func(c *DomCfg, k int) { c.ntt[n] = true })
			if strings.HasSuffix(n, "InvNTT") || strings.HasSuffix(n, "NTT") {
				inv := strings.HasSuffix(n, "InvNTT")
				cs = product(cs, 1, func(c *DomCfg, k int) { c.ntt[n] = !inv })
			} else if !fixed && !(isPolyT(t) && w.roots[f][n]) {
				cs = product(cs, 2, func(c *DomCfg, k int) { c.ntt[n] = k == 0 })
			}
		}
	}
	if r := f.Signature.Recv(); r != nil {
		switch n := strings.ToLower(typeName(deref(r.Type()))); {
		case strings.HasSuffix(n, "encryptor"), strings.HasSuffix(n, "keygenerator") && (f.Name() == "GenKeyPair" || f.Name() == "GenPublicKey" || strings.HasPrefix(f.Name(), "GenSecretKey")):
			cs = product(cs, 2, func(c *DomCfg, k int) { c.noP = k == 1 })
		}
	}
	return append(cs, sharedConfigs(f, cs)...)
}

// sharedConfigs: the configurations in which two ciphertext or plaintext arguments are the same object.
func sharedConfigs(f *ssa.Function, cs []*DomCfg) []*DomCfg {
	var out []*DomCfg
	typ := func(c *DomCfg, i int) types.Type {
		if t := c.typ[paramName(f, i)]; t != nil {
			return t
		}
		return f.Params[i].Type()
	}
	acc := strings.Contains(f.Name(), "AndAdd")
	for _, c := range cs {
		var rd, wr []string
		tp := map[string]types.Type{}
		for i := range f.Params {
			n, t := paramName(f, i), typ(c, i)
			if _, ptr := t.(*types.Pointer); !ptr || !isCt(t) && !isPt(t) {
				continue
			}
			tp[n] = t
			if c.recvs[n] {
				wr = append(wr, n)
			} else {
				rd = append(rd, n)
			}
		}
		fits := func(a, b string) bool {
			return types.Identical(tp[a], tp[b]) && c.deg[a] == c.deg[b] && c.ntt[a] == c.ntt[b]
		}
		with := func(m map[string]string) {
			out = append(out, product([]*DomCfg{c}, 1, func(x *DomCfg, _ int) { x.same = m })...)
		}
		if len(rd) == 2 && fits(rd[0], rd[1]) {
			with(map[string]string{rd[1]: rd[0]})
			if len(wr) == 1 && !acc && fits(wr[0], rd[0]) {
				with(map[string]string{rd[1]: rd[0], wr[0]: rd[0]})
			}
		}
		if len(wr) == 1 && !acc {
			for _, n := range rd {
				if fits(wr[0], n) {
					with(map[string]string{wr[0]: n})
				}
			}
		}
	}
	return out
}

func entryLevels(f *ssa.Function, cfg *DomCfg) *Facts {
	var fs *Facts
	var lv []*Term
	for i, p := range f.Params {
		n := paramName(f, i)
		t := p.Type()
		if ct, ok := cfg.typ[n]; ok {
			t = ct
		}
		if isCt(t) || isPt(t) || isPolyT(t) || typeIs(t, "rlwe.PolyQP") {
			l := tSym("lvl:" + cfg.sym(n))
			if isPolyT(t) && strings.HasSuffix(n, "P") {
				continue
			}
			lv = append(lv, l)
			fs = fs.addLin(tScale(l, -1))
			fs = fs.addLin(tSub(tAdd(l, tConst(1)), tSym("lenQ")))
		}
	}
	// documented preconditions on the operands' levels
	le := func(a, b string) { fs = fs.addLin(tSub(tSym("lvl:"+cfg.sym(a)), tSym("lvl:"+cfg.sym(b)))) }
	switch f.Name() {
	case "EncryptFromCRP":
		for i := range f.Params {
			if n := paramName(f, i); n != "recv" && n != "crp" {
				le(n, "crp")
			}
		}
	case "Rescale":
		le("ctIn", "ctOut")
	case "SwitchCiphertextRingDegree", "SwitchCiphertextRingDegreeNTT":
		le("ctIn", "ctOut")
		le("ctOut", "ctIn")
	}
	fs = fs.addLin(tSub(tConst(1), tSym("lenQ")))
	if !cfg.noP {
		fs = fs.addLin(tSub(tConst(1), tSym("lenP")))
	}
	fs = fs.addLin(tSub(tConst(8), tSym("N")))
	for i, p := range f.Params {
		n := paramName(f, i)
		if !isInteger(p.Type()) || !strings.HasPrefix(strings.ToLower(n), "l") || !strings.Contains(strings.ToLower(n), "lev") && !strings.Contains(strings.ToLower(n), "lvl") {
			continue
		}
		s := tSym(n)
		fs = fs.addLin(tScale(s, -1))
		if strings.HasSuffix(n, "P") {
			fs = fs.addLin(tSub(tAdd(s, tConst(1)), tSym("lenP")))
			continue
		}
		fs = fs.addLin(tSub(tAdd(s, tConst(1)), tSym("lenQ")))
		for _, l := range lv {
			fs = fs.addLin(tSub(s, l))
		}
	}
	return fs
}

func runDom(P *Prog, cfg *DomCfg) (R *DomRun) {
	D := &Dom{P: P, cfg: cfg, viol: map[string]*DViol{}, n: map[string]int{}, und: map[string]bool{}}
	I := newInterp(P)
	D.I = I
	D.init(I)
	args := map[string]Val{}
	for i := range cfg.fn.Params {
		n := paramName(cfg.fn, i)
		if t, ok := cfg.typ[n]; ok {
			v := I.symVal(n, t, nil, n)
			if isOperand(cfg.fn.Params[i].Type()) {
				args[n] = &Ifc{ts: []ITgt{{t, v}}, ityp: cfg.fn.Params[i].Type()}
			} else {
				args[n] = v
			}
		}
	}
	for a, b := range cfg.same {
		ia, ib := D.paramIdx(a), D.paramIdx(b)
		var v Val = args[b]
		if v == nil && ib >= 0 {
			v = I.symVal(b, cfg.fn.Params[ib].Type(), nil, b)
			args[b] = v
		}
		x, isI := v.(*Ifc)
		switch toI := types.IsInterface(cfg.fn.Params[ia].Type()); {
		case isI && !toI:
			if len(x.ts) == 1 {
				args[a] = x.ts[0].v
			}
		case !isI && toI:
			args[a] = &Ifc{ts: []ITgt{{cfg.fn.Params[ib].Type(), v}}, ityp: cfg.fn.Params[ia].Type()}
		default:
			args[a] = v
		}
	}
	fr, st := I.newEntry(cfg.fn, args)
	st.facts = entryLevels(cfg.fn, cfg)
	R = &DomRun{D: D, cfg: cfg, I: I, fr: fr}
	defer func() {
		if e := recover(); e != nil { // a construct the interpreter does not handle: the configuration is not judged
			I.overflow = fmt.Sprintf("not interpreted: %v", e)
			R.Out = nil
			if os.Getenv("DOM_PANIC") != "" {
				panic(e)
			}
		}
	}()
	R.Res, R.Out = I.runFn(fr, st)
	return R
}

// domDebug prints what a run concludes about its outputs.
func domDebug(P *Prog, filter string, verbose bool) {
	fns := domEntries(P)
	type res struct {
		s string
	}
	getWritten(P)
	out := make([]string, len(fns))
	var mu sync.Mutex
	viol := map[string]map[string]bool{}
	parallel(len(fns), func(i int) {
		f := fns[i]
		if filter != "" && !strings.Contains(fname(f), filter) {
			return
		}
		var sb strings.Builder
		cfgs := domConfigs(P, f)
		fmt.Fprintf(&sb, "== %s (%d configurations)\n", fname(f), len(cfgs))
		for _, c := range cfgs {
			R := runDom(P, c)
			fmt.Fprintf(&sb, " -- %s: steps %d", c, R.I.steps)
			if R.Out == nil {
				fmt.Fprintf(&sb, " (no normal exit)\n")
				continue
			}
			if R.I.overflow != "" {
				fmt.Fprintf(&sb, " OVERFLOW %s", R.I.overflow)
			}
			sb.WriteString("\n")
			for _, k := range sortedKeys(R.D.viol) {
				v := R.D.viol[k]
				mu.Lock()
				kk := v.Prop + " " + v.Key
				if viol[kk] == nil {
					viol[kk] = map[string]bool{}
				}
				viol[kk][v.Msg] = true
				mu.Unlock()
			}
			if verbose {
				for _, u := range sortedKeys(R.D.und) {
					fmt.Fprintf(&sb, "      U %s\n", u)
				}
				R.dump(&sb)
			}
		}
		out[i] = sb.String()
	})
	for _, s := range out {
		fmt.Print(s)
	}
	for _, k := range sortedKeys(viol) {
		ms := sortedKeys(viol[k])
		fmt.Printf("VIOL %s (%d)\n     %s\n", k, len(ms), ms[0])
	}
}

func (R *DomRun) dump(sb *strings.Builder) {
	I := R.I
	var ks []Key
	seen := map[Key]bool{}
	for h := R.Out.h; h != nil; h = h.up {
		for k := range h.m {
			if !seen[k] {
				seen[k] = true
				ks = append(ks, k)
			}
		}
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].o.name != ks[j].o.name {
			return ks[i].o.name < ks[j].o.name
		}
		return ks[i].p < ks[j].p
	})
	for _, k := range ks {
		v, _ := R.Out.h.get(k)
		n, ok := v.(*Num)
		if !ok {
			continue
		}
		if a, ok := n.A.(*CA); ok && strings.HasSuffix(k.p, "[*]") {
			fmt.Fprintf(sb, "      %s%s = %s\n", k.o.name, k.p, a.str())
		} else if k.o.kind != OAlloc {
			fmt.Fprintf(sb, "      %s%s = %s\n", k.o.name, k.p, valKey(v))
		}
	}
	fmt.Fprintf(sb, "      result %s\n", valKey(R.Res))
	_ = I
}

func (a *CA) str() string {
	s := fmt.Sprintf("%s m%d <%.2f", domName(a.dom), a.mont, a.bnd)
	if a.acc != nil {
		s += fmt.Sprintf(" acc %s step %g inc %g", a.acc, a.step, a.inc)
	}
	if a.grow {
		s += " grow"
	}
	s += " " + a.base + " must" + fmt.Sprint(a.must) + " may" + fmt.Sprint(a.may) + " vn" + vnS(a.vn)
	if a.kind != "" {
		s += " kind " + a.kind
	}
	if a.lvl != nil {
		s += " rows 0.." + a.lvl.String()
		if a.rest != nil {
			s += " rest(" + a.rest.str() + ")"
		}
	}
	if a.pend != nil {
		s += " PEND " + tkey(a.psel) + "(" + a.pend.str() + ")"
	}
	if a.half != nil {
		s += " HALF(" + a.half.str() + ")"
	}
	return s
}
