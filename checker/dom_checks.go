package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
	"sync"
)

// Checks over the domain run: every exported operation of the encryption, key-switching, evaluation and encoding
// layers, once per combination of operand degrees, representation flags, operand types, auxiliary-modulus presence
// and ring type.

var (
	drOnceAll sync.Once
	drAllRuns []*DomRun
)

func allDomRuns(P *Prog) []*DomRun {
	drOnceAll.Do(func() { drAllRuns = domRuns(P, "") })
	return drAllRuns
}

type domFinder struct {
	P    *Prog
	r    *Report
	prop string
	R    *DomRun
	fn   string
}

func (f *domFinder) bad(what, where, format string, a ...interface{}) {
	f.r.bad(what+"|"+f.fn+"|"+where, "%s; %s", fmt.Sprintf(format, a...), f.R.cfg)
}

// checkDom reports the conflicts the interpretation itself met, and what `each` finds in the results.
func checkDom(P *Prog, r *Report, prop string, each func(f *domFinder, ps []*OutPoly, os []*OutObj)) {
	runs := allDomRuns(P)
	entries := map[string]bool{}
	und := 0
	for _, R := range runs {
		r.count("configurations interpreted", 1)
		r.count("instructions interpreted", R.I.steps)
		r.count("obligations met while interpreting", R.D.n[prop])
		r.ok(R.D.n[prop])
		und += len(R.D.und)
		if R.I.overflow != "" {
			r.count("configurations not judged (interpretation did not finish)", 1)
			continue
		}
		for _, k := range sortedKeys(R.D.viol) {
			if v := R.D.viol[k]; v.Prop == prop {
				r.bad(v.Key, "%s", v.Msg)
			}
		}
		if R.Out == nil {
			r.count("configurations that always stop (rejected by the operation)", 1)
			continue
		}
		entries[fname(R.cfg.fn)] = true
		if each == nil {
			continue
		}
		ps, os := R.outputs()
		f := &domFinder{P: P, r: r, prop: prop, R: R, fn: fname(R.cfg.fn)}
		r.count("result polynomials", len(ps))
		each(f, ps, os)
	}
	r.count("operations", len(entries))
	var es []string
	for e := range entries {
		es = append(es, e)
	}
	sort.Strings(es)
	for i := 0; i < len(es); i += 1 + len(es)/10 {
		r.sample(es[i])
	}
	r.Assume = append(r.Assume, domAssume...)
}

var domAssume = []string{
	"operands satisfy their invariants on entry: residues below their modulus, data in the representation their flag names, keys in evaluation and Montgomery form, allocated components",
	"digit arrays and [*]-indexed containers are represented by one generic element that a loop over all of them writes as a whole",
	"a value the interpretation cannot resolve is unknown, and unknown never raises an alarm: only definite conflicts are reported",
	"stated preconditions hold: the receiver of Rescale has at least the level of its input, ring-degree switching is called with equal levels",
}

// explicitLevel: the operation takes the level as an argument, so rows above it are not part of the result.
func explicitLevel(R *DomRun) bool {
	for i, p := range R.cfg.fn.Params {
		n := paramName(R.cfg.fn, i)
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int && strings.HasPrefix(n, "level") {
			return true
		}
	}
	return false
}

func lazyName(n string) bool {
	return strings.Contains(n, "NoMod") || strings.Contains(n, "Lazy") || strings.Contains(n, "Constant")
}

func checkP06(P *Prog, r *Report) {
	r.Rule = "Every polynomial carries an abstract representation (coefficient / evaluation domain, number of Montgomery factors) through every call path of every exported operation of rlwe, ckks, frlwe and fckks; transforms, products, sums, automorphisms, decompositions and basis extensions are typed in it, a definite mismatch is a violation, and on return the IsNTT flag of every result ciphertext, plaintext and key agrees with the domain of its data, its Montgomery form with the form fixed for the kind of object."
	checkDom(P, r, "P06", func(f *domFinder, ps []*OutPoly, os []*OutObj) {
		for _, p := range ps {
			d := p.A.dom
			if d == dMixed {
				f.bad("mixed-rows", stripIdx(p.Path), "on return some rows of %s are in the coefficient domain and others in the evaluation domain", p.Path)
			}
			if p.Kind == "" {
				continue
			}
			r.ok(1)
			if c, ok := constOf(numT(p.NTT)); ok && (d == dN || d == dC) && (p.Kind == "ct" || p.Kind == "pt") {
				r.count("result flags compared", 1)
				if (c == 1) != (d == dN) {
					f.bad("flag", stripIdx(p.Path), "on return %s holds values in the %s domain but its representation flag says the opposite", p.Path, domName(d))
				}
			}
			if d == dAny || d == dUnknown || d == dMixed {
				continue
			}
			var want int8
			switch p.Kind {
			case "sk", "swk", "fswk":
				want = 1
			}
			if p.Kind == "sk" || p.Kind == "swk" || p.Kind == "pk" {
				r.count("key representations compared", 1)
				if d == dC {
					f.bad("key-domain", stripIdx(p.Path), "the key component %s is returned in the coefficient domain", p.Path)
				}
			}
			if (p.A.mont == 0 || p.A.mont == 1 || p.A.mont == -1) && p.A.mont != want {
				f.bad("montgomery", stripIdx(p.Path), "%s is returned with %d Montgomery factors instead of %d", p.Path, p.A.mont, want)
			}
		}
	})
	r.atLeast("operations", 150)
	r.atLeast("obligations met while interpreting", 20000)
	r.atLeast("result flags compared", 800)
}

func stripIdx(s string) string { return s }

func checkP07(P *Prog, r *Report) {
	r.Rule = "Every polynomial carries an upper bound of its residues in multiples of the modulus; kernels and transforms map input bounds to output bounds, products are checked against the 64-bit capacity left by the admissible modulus sizes (Q below 2^61, P below 2^62), deferred accumulations against the reduction period they are run with, and every result of an operation that is not explicitly lazy must be bounded by one modulus."
	checkDom(P, r, "P07", func(f *domFinder, ps []*OutPoly, os []*OutObj) {
		if lazyName(f.R.cfg.fn.Name()) {
			return
		}
		for _, p := range ps {
			if p.A.dom == dUnknown || p.Kind == "" && strings.HasPrefix(f.R.cfg.fn.Name(), "Decompose") { // digits are key-switching input, consumed with their range
				continue
			}
			r.ok(1)
			r.count("result ranges compared", 1)
			if p.A.bnd > 1 && !math.IsInf(p.A.bnd, 1) {
				f.bad("result-range", stripIdx(p.Path), "the residues of %s are only bounded by %.2f times the modulus on return", p.Path, p.A.bnd)
			}
		}
	})
	checkRingRanges(P, r)
	r.atLeast("operations", 150)
	r.atLeast("obligations met while interpreting", 20000)
	r.atLeast("result ranges compared", 1500)
}

func checkP08(P *Prog, r *Report) {
	r.Rule = "Levels are symbolic linear terms over the operands' levels. Every row access of every operation is compared with the number of rows of the polynomial it touches, for all levels; on return, every row up to the level of a result has been written and the level of an evaluation result is the minimum over its operands (and the receiver)."
	checkDom(P, r, "P08", func(f *domFinder, ps []*OutPoly, os []*OutObj) {
		checkLevels(f, ps)
	})
	r.atLeast("result levels compared", 500)
	r.atLeast("operations", 150)
	r.atLeast("obligations met while interpreting", 1000)
}

func checkP05(P *Prog, r *Report) {
	r.Rule = "Residue rows carry the modulus they belong to; every kernel call is checked to combine rows and constants of one modulus, on every call path of every exported operation. Unrolled kernel blocks: the value stored at each of the 4/8/16 positions is, up to the position, one expression (also for the mirrored and grouped patterns of the transforms), no position is left out, and the block loops of the vector kernels visit [0,len) exactly once."
	checkDom(P, r, "P05", nil)
	checkLanes(P, r)
	checkRingRows(P, r)
	r.atLeast("operations", 150)
	r.atLeast("obligations met while interpreting", 20000)
}

// operandLevels lists the level symbols of the ciphertext and plaintext operands (receivers included).
func operandLevels(R *DomRun) []*Term {
	var out []*Term
	fn := R.cfg.fn
	for i, p := range fn.Params {
		n := paramName(fn, i)
		t := p.Type()
		if ct := R.cfg.typ[n]; ct != nil {
			t = ct
		}
		if isCt(deref(t)) || isPt(deref(t)) {
			out = append(out, tSym("lvl:"+R.cfg.real(n)))
		}
	}
	return out
}

// resultLevel: the level every result of the operation has, nil where the operation documents another one.
func resultLevel(R *DomRun) *Term {
	switch n := R.cfg.fn.Name(); {
	case strings.HasPrefix(n, "Rescale"), n == "SetScale", n == "SetValue", n == "GetSmallestLargest":
		return nil
	}
	var m *Term
	for _, t := range operandLevels(R) {
		if m == nil {
			m = t
		} else {
			m = tMin(m, t)
		}
	}
	return m
}

func checkLevels(f *domFinder, ps []*OutPoly) {
	R := f.R
	name := R.cfg.fn.Name()
	if explicitLevel(R) || strings.HasPrefix(name, "Copy") || strings.HasPrefix(name, "DropLevel") {
		return
	}
	want := resultLevel(R)
	for _, p := range ps {
		if p.Kind != "ct" && p.Kind != "pt" {
			continue
		}
		f.r.ok(1)
		if want != nil && p.Len != nil {
			switch equalTerms(tSub(p.Len, tConst(1)), want, R.Out.facts) {
			case 1:
				f.r.count("result levels compared", 1)
			case 0:
				f.r.count("result levels compared", 1)
				f.bad("result-level", stripIdx(p.Path), "%s is returned at level %s although the operation is defined at level %s", p.Path, tSub(p.Len, tConst(1)), want)
			default:
				f.r.count("result levels not decided", 1)
			}
		}
		if p.Rest != nil && isApprox(p.Rest.may) {
			f.r.count("results not judged (rows not followed)", 1)
		} else if p.Rest != nil {
			for _, m := range p.Rest.may {
				if strings.HasPrefix(m, "old:") || strings.HasPrefix(m, "stale:") {
					f.bad("unwritten-row", stripIdx(p.Path), "rows above %s of %s keep their previous content although they belong to the result (%s rows)", p.A.lvl, p.Path, p.Len)
					break
				}
			}
		}
	}
}
