package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// In-place against out-of-place: every configuration in which two arguments are the same object is interpreted
// twice, once with one object and once with two objects of the same entry state; the contents, rows and scale the
// two leave behind must be the same expressions.

type aliasPair struct {
	same, twin *DomCfg
	a, b       []*DomRun
}

// twinOf: the same operand values in distinct objects.
func twinOf(c *DomCfg) *DomCfg {
	x := product([]*DomCfg{c}, 1, func(*DomCfg, int) {})[0]
	x.same, x.twin = nil, c.same
	return x
}

// polyShared: a written polynomial argument coincides with a read one.
func polyShared(f *ssa.Function, cs []*DomCfg) []*DomCfg {
	var out []*DomCfg
	isP := func(t types.Type) bool { return isPolyT(t) || typeIs(t, "rlwe.PolyQP") }
	for _, c := range cs {
		if c.same != nil {
			continue
		}
		for i := range f.Params {
			w := paramName(f, i)
			if !c.recvs[w] || !isP(f.Params[i].Type()) || strings.HasPrefix(strings.ToLower(w), "pool") {
				continue
			}
			for j := range f.Params {
				n := paramName(f, j)
				if c.recvs[n] || !types.Identical(f.Params[i].Type(), f.Params[j].Type()) || c.ntt[w] != c.ntt[n] {
					continue
				}
				out = append(out, product([]*DomCfg{c}, 1, func(x *DomCfg, _ int) { x.same = map[string]string{w: n} })...)
			}
		}
	}
	return out
}

func exactPoly(p *OutPoly) bool {
	return p.A != nil && p.A.vn != nil && !isApprox(p.A.may) && p.A.psel == nil && p.A.ones == nil
}

func checkP04(P *Prog, r *Report) {
	r.Rule = "Every operation with a receiver is interpreted twice for every way two of its arguments can be the same object: once with the shared object and once with distinct objects of equal entry state. The contents of every result component (normal-form expressions over the operands' entry contents), the rows covered and the recorded scale must be identical in both; an automorphism must never be computed onto its own input."
	getWritten(P)
	var ps []*aliasPair
	add := func(c *DomCfg) { ps = append(ps, &aliasPair{same: c, twin: twinOf(c)}) }
	for _, f := range append(domEntries(P), ringEntries(P)...) {
		cs := domConfigs(P, f)
		for _, c := range cs {
			if c.same != nil {
				add(c)
			}
		}
		for _, c := range polyShared(f, cs) {
			add(c)
		}
	}
	parallel(len(ps), func(i int) { ps[i].a, ps[i].b = runAll(P, ps[i].same), runAll(P, ps[i].twin) })
	ops := map[string]bool{}
	for _, p := range ps {
		for _, R := range p.a {
			r.count("shared-object configurations interpreted", 1)
			f := &domFinder{P: P, r: r, prop: "P04", R: R, fn: fname(p.same.fn)}
			if R.I.overflow != "" {
				r.count("configurations not judged (interpretation did not finish)", 1)
				continue
			}
			if !inPlaceRefused(p.same) {
				for _, k := range sortedKeys(R.D.viol) {
					if v := R.D.viol[k]; v.Prop == "P04" {
						r.bad(v.Key, "%s", v.Msg)
					}
				}
			}
			r.ok(R.D.n["P04"])
			if R.Out == nil {
				r.count("configurations that always stop (rejected by the operation)", 1)
				continue
			}
			if inPlaceRefused(p.same) {
				r.count("configurations documented as not allowed in place", 1)
				continue
			}
			n := 0
			for _, B := range p.b {
				if B.I.overflow == "" && B.Out != nil && compatible(R, B) {
					n++
					f.sameResults(B)
				}
			}
			if n == 0 {
				r.count("configurations without a counterpart", 1)
				if os.Getenv("ALIAS") != "" {
					fmt.Println("alone", R.cfg, chosenKey(R))
				}
				continue
			}
			ops[f.fn] = true
		}
	}
	r.count("operations", len(ops))
	r.Assume = append(r.Assume, domAssume...)
	r.atLeast("operations", 120)
	r.atLeast("contents compared", 1200)
}

// inPlaceRefused: operations documented as not usable in place.
func inPlaceRefused(c *DomCfg) bool {
	n := c.fn.Name()
	if r := c.fn.Signature.Recv(); r != nil && typeIs(r.Type(), "rlwe.KeySwitcher", "frlwe.KeySwitcher") && anyParam(c.fn, isPolyT) {
		return true // polynomial-level building blocks with separate outputs
	}
	return strings.Contains(n, "Permute") || strings.Contains(n, "Automorphism") || strings.Contains(n, "SwitchCiphertextRingDegree")
}

func anyParam(f *ssa.Function, is func(types.Type) bool) bool {
	for _, p := range f.Params {
		if is(p.Type()) {
			return true
		}
	}
	return false
}

// joined: the expression has a part that depends on a condition the run could not decide.
func (v *PV) joined() bool {
	t := v.show(4)
	return strings.Contains(t, "phi(") || strings.Contains(t, "phi#")
}

func chosenKey(R *DomRun) string {
	var sb strings.Builder
	for _, c := range R.D.chosen {
		fmt.Fprintf(&sb, "%v %s;", c.v, normKey(c.key))
	}
	return sb.String()
}

// compatible: the cases the two runs followed can occur together.
func compatible(a, b *DomRun) bool {
	m := map[string]bool{}
	for _, c := range a.D.chosen {
		m[normKey(c.key)] = c.v
	}
	for _, c := range b.D.chosen {
		if v, ok := m[normKey(c.key)]; ok && v != c.v {
			return false
		}
	}
	for k, x := range a.D.order {
		if y, ok := b.D.order[k]; ok && x&y == 0 {
			return false
		}
	}
	return true
}

func (f *domFinder) sameResults(B *DomRun) {
	A := f.R
	pa, oa := A.outputs()
	pb, ob := B.outputs()
	by := map[string]*OutPoly{}
	for _, p := range pb {
		by[p.Path] = p
	}
	for _, p := range pa {
		q := by[p.Path]
		if q == nil {
			continue
		}
		if !exactPoly(p) || !exactPoly(q) {
			f.r.count("contents not compared (not followed exactly)", 1)
			if os.Getenv("ALIAS") != "" {
				fmt.Println("inexact", f.R.cfg, p.Path, p.A.may, q.A.may, p.A.vn == nil, q.A.vn == nil)
			}
			continue
		}
		if p.A.vn != q.A.vn && f.fnPkg() == "ring" && (p.A.vn.joined() || q.A.vn.joined()) {
			f.r.count("contents not compared (not followed exactly)", 1)
			continue
		}
		f.r.ok(1)
		f.r.count("contents compared", 1)
		if p.A.vn != q.A.vn {
			f.bad("in-place", stripIdx(p.Path), "%s is left with %s; with a receiver of its own the operation computes %s", p.Path, cut(p.A.vn.show(2), 300), cut(q.A.vn.show(2), 300))
		}
	}
	bo := map[string]*OutObj{}
	for _, o := range ob {
		bo[o.Path] = o
	}
	for _, o := range oa {
		q := bo[o.Path]
		if q == nil || !o.HasScale || !q.HasScale {
			continue
		}
		x, y := numT(o.Scale), numT(q.Scale)
		if x == nil || y == nil {
			continue
		}
		f.r.ok(1)
		f.r.count("scales compared", 1)
		if strings.Contains(x.key, "w:") || strings.Contains(y.key, "w:") {
			continue
		}
		if equalTerms(x, y, nil) == 0 || x.isF && y.isF && x != y {
			f.bad("in-place-scale", o.Path, "%s is left with the scale %s; with a receiver of its own the operation records %s", o.Path, showScale(x), showScale(y))
		}
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (f *domFinder) fnPkg() string { return f.R.cfg.fn.Object().Pkg().Name() }
