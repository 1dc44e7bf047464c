package main

import (
	"go/types"
	"math"
	"strings"
	"sync"
)

var (
	rrOnce sync.Once
	rrAll  []*DomRun
)

// allRingRuns interprets every exported operation of package ring on polynomials, for symbolic levels of all of them.
func allRingRuns(P *Prog) []*DomRun {
	rrOnce.Do(func() {
		getWritten(P)
		var cfgs []*DomCfg
		for _, f := range ringEntries(P) {
			cfgs = append(cfgs, domConfigs(P, f)...)
		}
		res := make([][]*DomRun, len(cfgs))
		parallel(len(cfgs), func(i int) { res[i] = runAll(P, cfgs[i]) })
		for _, r := range res {
			rrAll = append(rrAll, r...)
		}
	})
	return rrAll
}

// ringLevel: the level the operation is asked to work up to, for the polynomial called name; nil when it takes none.
func ringLevel(R *DomRun, name string) *Term {
	var one *Term
	for i, p := range R.cfg.fn.Params {
		n := paramName(R.cfg.fn, i)
		b, ok := p.Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.Int {
			continue
		}
		switch n {
		case "level":
			return tSym(n)
		case "levelQ", "levelP":
			if strings.HasSuffix(name, n[5:]) {
				return tSym(n)
			}
			one = tSym("?")
		}
	}
	return one
}

// ringResults visits the result polynomials of the ring operations (scratch arguments excepted).
func ringResults(P *Prog, r *Report, prop string, each func(f *domFinder, p *OutPoly)) {
	ops := map[string]bool{}
	for _, R := range allRingRuns(P) {
		r.count("ring operations interpreted", 1)
		if R.I.overflow != "" {
			r.count("configurations not judged (interpretation did not finish)", 1)
			continue
		}
		if R.Out == nil {
			continue
		}
		f := &domFinder{P: P, r: r, prop: prop, R: R, fn: fname(R.cfg.fn)}
		ps, _ := R.outputs()
		for _, p := range ps {
			if p.Root == "pool" || p.Root == "recv" && !R.D.recvIsOperand() || p.A.dom == dUnknown && len(p.A.may) == 0 {
				continue
			}
			ops[f.fn] = true
			each(f, p)
		}
	}
	r.count("ring operations judged", len(ops))
}

// checkRingRows: a ring operation processes exactly the rows up to the level it is asked for, or every row of the
// ring that all its operands have.
func checkRingRows(P *Prog, r *Report) {
	for _, R := range allRingRuns(P) {
		for _, k := range sortedKeys(R.D.viol) {
			if v := R.D.viol[k]; v.Prop == "P05" {
				r.bad(v.Key, "%s", v.Msg)
			}
		}
		r.ok(R.D.n["P05"])
	}
	ringResults(P, r, "P05", func(f *domFinder, p *OutPoly) {
		n := f.R.cfg.fn.Name()
		if f.R.cfg.fn.Signature.Recv() == nil && !strings.HasSuffix(n, "Lvl") || strings.Contains(n, "Many") || isApprox(p.A.may) || p.Rest != nil && isApprox(p.Rest.may) {
			return
		}
		if p.A.dom == dUnknown && (p.A.mont < -1 || p.A.mont > 1) && math.IsInf(p.A.bnd, 1) && (len(p.A.may) == 0 || hasPrefixS(p.A.may, "op:"+p.Root)) {
			return // nothing known about the content
		}
		fs := f.R.Out.facts
		want := ringLevel(f.R, p.Root)
		if want != nil && want == tSym("?") {
			return
		}
		got := p.A.lvl
		if got == nil { // one description for all rows
			if want == nil || p.Len == nil || hasPrefixS(p.A.may, "old:") || hasPrefixS(p.A.may, "stale:") || p.A.base != "" && p.A.base == p.Root {
				return
			}
			if got = tSub(p.Len, tConst(1)); equalTerms(got, want, fs) != 0 {
				return
			}
		}
		if want != nil {
			if strings.Contains(n, "ByLastModulus") {
				want = tSub(want, tConst(1))
			}
			if p.Len != nil && equalTerms(tSub(p.Len, tConst(1)), want, fs) == 1 && equalTerms(got, want, fs) != 0 {
				want = got
			}
			r.count("row ranges compared", 1)
			if equalTerms(got, want, fs) == 0 {
				f.bad("row-range", p.Path, "the operation is asked for rows 0..%s and processes rows 0..%s of %s", want, got, p.Path)
			}
			return
		}
		if rv := f.R.cfg.fn.Signature.Recv(); p.Rest == nil || rv == nil || !typeIs(deref(rv.Type()), "ring.Ring") {
			return
		}
		for _, m := range p.Rest.may {
			if strings.HasPrefix(m, "old:") || strings.HasPrefix(m, "op:") || strings.HasPrefix(m, "stale:") {
				full := tSub(tSym("lenQ"), tConst(1))
				lvls := full
				for i, q := range f.R.cfg.fn.Params {
					if isPolyT(deref(q.Type())) {
						lvls = tMin(lvls, tSym("lvl:"+paramName(f.R.cfg.fn, i)))
					}
				}
				r.count("row ranges compared", 1)
				if satLess(fs, got, lvls) {
					f.bad("row-range", p.Path, "only rows 0..%s of %s are processed although every operand has rows up to %s", got, p.Path, lvls)
				}
				return
			}
		}
	})
	r.atLeast("row ranges compared", 60)
}

// satLess: some values allowed by the facts make a smaller than b.
func satLess(f *Facts, a, b *Term) bool {
	s, d := satisfiable(f, tAdd(tSub(a, b), tConst(1)))
	return d && s
}

// checkRingRanges: results of the ring operations that are not named as lazy are below their modulus.
func checkRingRanges(P *Prog, r *Report) {
	ringResults(P, r, "P07", func(f *domFinder, p *OutPoly) {
		n := f.R.cfg.fn.Name()
		if lazyName(n) || strings.HasPrefix(n, "ModUp") || strings.HasPrefix(n, "Decompose") || isApprox(p.A.may) {
			return
		}
		if math.IsInf(p.A.bnd, 1) {
			return
		}
		r.count("result ranges compared", 1)
		r.ok(1)
		if p.A.bnd > 1 {
			f.bad("result-range", p.Path, "the residues of %s are only bounded by %.2f times the modulus on return", p.Path, p.A.bnd)
		}
	})
}
