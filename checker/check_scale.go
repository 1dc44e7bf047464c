package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// scaleAtom: the factor  path.Scale  of a floating-point monomial, and its exponent.
func scaleExp(t *Term, name string) int64 {
	for _, p := range t.ts {
		if p.a.op == name && len(p.a.args) == 0 {
			return p.k
		}
	}
	return 0
}

func mentions(t *Term, name string, depth int) bool {
	if t == nil || depth > 12 {
		return false
	}
	for _, p := range t.ts {
		if len(p.a.args) == 0 && p.a.op == name {
			return true
		}
		for _, x := range p.a.args {
			if mentions(x, name, depth+1) {
				return true
			}
		}
	}
	return false
}

// scaledParams: the parameters that carry a scale, receivers last.
func scaledParams(R *DomRun) (src []string, rcv []string) {
	fn := R.cfg.fn
	for i, p := range fn.Params {
		n := paramName(fn, i)
		t := p.Type()
		if ct := R.cfg.typ[n]; ct != nil {
			t = ct
		}
		if !typeIs(deref(t), "ckks.Ciphertext", "ckks.Plaintext") {
			continue
		}
		if !R.cfg.recvs[n] {
			src = append(src, R.cfg.real(n))
		} else if R.cfg.real(n) == n {
			rcv = append(rcv, n)
		}
	}
	return
}

func opName(R *DomRun) string { return strings.TrimSuffix(R.cfg.fn.Name(), "New") }

// scaleKnown: the order of two scales on this run, from the comparisons it branched on.
func (D *Dom) scaleOrder(a, b *Term) int { // subset of {1:<, 2:=, 4:>}
	if a == b {
		return 2
	}
	k, sw := a.key+" ? "+b.key, false
	if a.key > b.key {
		k, sw = b.key+" ? "+a.key, true
	}
	pos, ok := D.order[k]
	if !ok {
		return 7
	}
	if sw {
		pos = pos&2 | pos&1<<2 | pos&4>>2
	}
	return pos
}

func checkP09(P *Prog, r *Report) {
	r.Rule = "Scales are symbolic monomials over the operands' scales, the moduli and the scalar arguments. On return of every operation, for every order of the operand scales it distinguishes, the scale recorded on each result is compared with the one the operation documents: sums the larger operand scale, products the product, linear unary operations, copies, encryption and decryption the scale of their source, scaling operations the requested one; rescaling divides by the moduli of the rows it drops, one by one from the top, and drops as many rows; the receiver's previous scale never survives."
	checkDom(P, r, "P09", func(f *domFinder, ps []*OutPoly, os []*OutObj) {
		for _, o := range os {
			if o.HasScale {
				f.scale(o)
			}
		}
	})
	r.atLeast("operations", 150)
	r.atLeast("recorded scales compared", 600)
	r.atLeast("factors of encoded constants compared", 10)
}

func (f *domFinder) scale(o *OutObj) {
	R := f.R
	fn := R.cfg.fn
	name := opName(R)
	t := numT(o.Scale)
	src, rcv := scaledParams(R)
	if t == nil || !t.isF {
		f.r.count("recorded scales not resolved", 1)
		return
	}
	S := func(n string) *Term { return fSym(n + ".Scale") }
	cmp := func(want *Term, what string) {
		f.r.ok(1)
		f.r.count("recorded scales compared", 1)
		if t != want {
			f.bad("scale", o.Path, "the scale recorded on %s is %s instead of %s (%s)", o.Path, showScale(t), showScale(want), what)
		}
	}
	hasRecv := fn.Signature.Recv() != nil
	recvScaled := hasRecv && typeIs(deref(fn.Signature.Recv().Type()), "ckks.Ciphertext", "ckks.Plaintext")
	inner := o.Root
	// the receiver's old scale, or that of scratch memory
	for _, n := range rcv {
		if n == inner && len(src) > 0 && !strings.Contains(name, "AndAdd") && scaleExp(t, n+".Scale") != 0 {
			f.bad("stale-scale", o.Path, "%s keeps the scale the receiver had before (%s)", o.Path, showScale(t))
			return
		}
	}
	switch {
	case strings.HasPrefix(name, "CtxPool"), strings.HasPrefix(name, "EncryptMsg"):
		return
	case strings.HasPrefix(name, "Rescale"):
		f.rescale(o, src, t)
		return
	case strings.HasPrefix(name, "Encode"):
		if n := scaleParam(fn); n != "" {
			cmp(fSym(n), "the requested scale")
		} else if len(src)+len(rcv) == 1 {
			cmp(S(append(src, rcv...)[0]), "the scale the plaintext was created with")
		}
		return
	case name == "ScaleUp" && len(src) == 1 && scaleParam(fn) != "":
		cmp(fMul(S(src[0]), fSym(scaleParam(fn)), 1), "the source's scale times the factor")
		return
	case name == "SetScale" && scaleParam(fn) != "":
		cmp(fSym(scaleParam(fn)), "the requested scale")
		return
	case !hasRecv && strings.HasPrefix(fn.Name(), "New"):
		if n := scaleParam(fn); n != "" {
			cmp(fSym(n), "the requested scale")
		}
		return
	case strings.HasPrefix(name, "MultByConst"):
		if len(src) == 1 && !strings.Contains(name, "AndAdd") {
			f.r.ok(1)
			f.r.count("recorded scales compared", 1)
			f.encoded(o, fMul(t, S(src[0]), -1), "the factor the recorded scale was multiplied by")
			if scaleExp(t, src[0]+".Scale") != 1 {
				f.bad("scale", o.Path, "the scale recorded on %s is %s, which is not the source's scale times the factor the constant was multiplied by", o.Path, showScale(t))
			}
		}
		return
	case strings.HasPrefix(name, "Mul") && len(src) == 2:
		prod := fMul(S(src[0]), S(src[1]), 1)
		if strings.Contains(name, "AndAdd") && len(rcv) == 1 {
			old := S(rcv[0])
			want := prod
			if t == old && R.D.scaleOrder(old, prod) != 1 {
				want = old
			}
			cmp(want, "the larger of the product's and the receiver's scale")
			return
		}
		cmp(prod, "the product of the operands' scales")
		return
	case (strings.HasPrefix(name, "Add") || strings.HasPrefix(name, "Sub")) && len(src) == 2:
		a, b := S(src[0]), S(src[1])
		switch ord := R.D.scaleOrder(a, b); {
		case ord&^(4|2) == 0: // a >= b
			if t == b && ord == 2 {
				a = b
			}
			cmp(a, "the larger of the operands' scales")
		case ord&^(1|2) == 0:
			cmp(b, "the larger of the operands' scales")
		case t == b:
			cmp(b, "one of the operands' scales")
		default:
			cmp(a, "one of the operands' scales")
		}
		return
	case strings.HasPrefix(name, "MultByGaussianIntegerAndAdd"):
		return
	}
	if strings.HasPrefix(name, "AddConst") {
		f.encoded(o, t, "the recorded scale")
	}
	all := src
	if len(all) == 0 && (recvScaled || len(rcv) == 1) {
		all = rcv
	}
	if recvScaled && o.Root == "result" {
		all = []string{"recv"}
	}
	if len(all) == 1 && scaleParam(fn) == "" {
		cmp(S(all[0]), "the scale of the source")
	}
}

// encoded: the factor constants are encoded with.
func (f *domFinder) encoded(o *OutObj, want *Term, what string) {
	for at, ns := range f.R.D.encs {
		for _, n := range ns {
			if n == nil || want == nil || !n.isF {
				f.r.count("factors of encoded constants not resolved", 1)
				continue
			}
			f.r.ok(1)
			f.r.count("factors of encoded constants compared", 1)
			if n != want {
				f.bad("constant-scale", f.P.instrPos(at), "the constant is encoded with the factor %s and not with %s, %s", showScale(n), what, showScale(want))
			}
		}
	}
}

func showScale(t *Term) string {
	s := t.key
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return strings.TrimPrefix(s, "f1*")
}

// scaleParam: the floating-point parameter, the requested scale or factor.
func scaleParam(fn *ssa.Function) string {
	for i, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Float64 {
			return paramName(fn, i)
		}
	}
	return ""
}

// rescale: the divisions of the scale name the row above all rows still in use, and as many rows are dropped.
func (f *domFinder) rescale(o *OutObj, src []string, t *Term) {
	R := f.R
	if len(src) != 1 {
		return
	}
	from := src[0]
	lvl := tSym("lvl:" + from)
	done := map[*Atom]bool{}
	for in, sel := range R.D.quos {
		d := tSub(lvl, sel)
		f.r.ok(1)
		if d != nil && !d.isF && !d.bigc && d.c == 0 && len(d.ts) == 1 && d.ts[0].k == 1 && strings.HasPrefix(d.ts[0].a.op, "i") {
			f.r.count("scale divisions compared", 1)
			done[d.ts[0].a] = true
			continue
		}
		vs := map[*Atom]bool{}
		if d == nil || !baseAtoms(d, vs) {
			continue
		}
		loop := false
		for a := range vs {
			loop = loop || strings.HasPrefix(a.op, "i")
		}
		if loop && len(sel.ts) == 1 && sel.c == 0 && strings.HasPrefix(sel.ts[0].a.op, "i") {
			continue // a loop variable that is not related to the source's level
		}
		f.bad("rescale-modulus", f.P.instrPos(in), "the scale is divided by the modulus of row %s; the row dropped next is %s minus the number of rows dropped so far%s", sel, lvl, map[bool]string{true: "", false: " (the row does not change from one division to the next)"}[loop])
	}
	if scaleExp(t, from+".Scale") == 1 && len(t.ts) == 1 { // not rescaled
		if len(R.D.quos) == 0 {
			return
		}
	}
	for _, p := range o.Polys {
		if p.Len == nil || len(done) == 0 {
			continue
		}
		lv := tSub(p.Len, tConst(1))
		d := tSub(lvl, lv)
		if d == nil || d.isF || d.bigc {
			continue
		}
		none := false // no division took place on this path
		for a := range done {
			none = none || leq(tSym(a.op), tConst(0), R.Out.facts)
		}
		if none {
			continue
		}
		f.r.count("rescaled levels compared", 1)
		if len(d.ts) == 1 && d.c == 0 && d.ts[0].k == 1 && done[d.ts[0].a] {
			if scaleExp(t, from+".Scale") == 1 && len(t.ts) == 1 {
				f.bad("rescale-scale", o.Path, "rows are dropped from %s but its scale stays that of the source", p.Path)
			}
			continue
		}
		vs := map[*Atom]bool{}
		dec := baseAtoms(d, vs)
		if scaleExp(t, from+".Scale") == 1 && len(t.ts) == 1 {
			for a := range done {
				dec = dec && vs[a]
			}
		}
		if dec {
			f.bad("rescale-level", p.Path, "%s is returned at level %s although its scale was divided by as many moduli as the loop counted", p.Path, lv)
		}
	}
}
