package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// DViol is a definite conflict found while interpreting an entry point.
type DViol struct {
	Prop, Key, Msg string
}

// Dom carries one domain run.
type Dom struct {
	P      *Prog
	I      *Interp
	cfg    *DomCfg
	viol   map[string]*DViol
	log    []string
	n      map[string]int // obligations examined per property
	kc     map[string]map[string]*CA
	und    map[string]bool
	lvls   map[string]bool
	chosen []choice
	order  map[string]int
	consts map[string][]constCmp
	encs   map[ssa.Instruction][]*Term // factors of the numbers encoded as residues
	quos   map[ssa.Instruction]*Term   // floating-point divisions by a modulus, and the number of the modulus
}

func (D *Dom) bad(prop, key, msg string) {
	k := prop + "|" + key
	if D.viol[k] == nil {
		D.viol[k] = &DViol{prop, key, msg}
		D.log = append(D.log, k)
	}
}

// where identifies the function and call path an operation happens in.
type where struct {
	D     *Dom
	fr    *Frame
	instr ssa.Instruction
	quiet bool
	tag   string
}

func (w *where) bad(prop, what, format string, a ...interface{}) {
	if w == nil || w.quiet || w.D.I != nil && w.D.I.quiet > 0 {
		return
	}
	fn := "?"
	if w.instr != nil && w.instr.Parent() != nil {
		fn = fname(w.instr.Parent())
	}
	key := what + "|" + fn
	if w.tag != "" {
		key += "|" + w.tag
	}
	st := ""
	if w.fr != nil && w.instr != nil {
		st = stackOf(w.D.P, w.fr, w.instr)
	}
	w.D.bad(prop, key, fmt.Sprintf(format, a...)+"; "+w.D.cfg.String()+": "+st)
}
func (w *where) n(prop string) {
	if w != nil && !w.quiet {
		w.D.n[prop]++
	}
}

func capOf(base string) float64 {
	if base == "P" {
		return 4
	}
	return 8
}
func minF(base string) float64 {
	if base == "P" {
		return 2
	}
	return 4
}

func mergeBase(a, b *CA) string {
	if a.base == "" || a.dom == dAny && a.kind == "" {
		return b.base
	}
	return a.base
}

func (w *where) comb(op string, x, y *CA) *CA {
	r := &CA{dom: dUnknown, mont: mUnknown, bnd: math.Inf(1)}
	r.may = unionS(x.may, y.may)
	r.must = unionS(x.must, y.must)
	r.base = mergeBase(x, y)
	if x.kind == "" || y.kind == "" {
		w.checkSel(x, y)
	}
	if x.kind == "" && x.sel != nil {
		r.sel = x.sel
	} else if y.kind == "" {
		r.sel = y.sel
	}
	if x.vn != nil && y.vn != nil {
		a, b := x.vn, y.vn
		switch op {
		case "+", "-":
			if x.kind == "mod" {
				a = pvInt(0)
			}
			if y.kind == "mod" {
				b = pvInt(0)
			}
			if op == "+" {
				r.vn = pvAdd(a, b, 1)
			} else {
				r.vn = pvAdd(a, b, -1)
			}
		case "*":
			r.vn = pvMul(a, b)
		default:
			r.vn = pvNode("op", op, a, b)
		}
	}
	return r
}

func (w *where) checkAcc(x *CA) {
	if x.acc == nil {
		return
	}
	w.n("P07")
	s := math.Max(x.step, x.inc)
	for _, F := range []float64{minF(x.base), 64} {
		tot := 1 + F*s
		if x.bnd > 1 {
			tot = math.Max(tot, x.bnd+(F-1)*s)
		}
		if tot > 2*F+1e-9 {
			w.bad("P07", "margin", "between two reductions the accumulator may reach %.2f times the modulus, more than the %.0f the overflow margin allows (period %s)", tot, 2*F, x.acc)
			return
		}
	}
	if b := marginBase(x.acc); b != "" && x.base != "" && b != x.base && (b == "Q" || b == "P") && (x.base == "Q" || x.base == "P") {
		w.bad("P07", "margin-base", "residues modulo %s are accumulated under the overflow margin of %s (period %s)", x.base, b, x.acc)
	}
}

func marginBase(F *Term) string {
	if F == nil {
		return ""
	}
	if i := strings.Index(F.key, "margin:"); i >= 0 && i+7 < len(F.key) {
		return F.key[i+7 : i+8]
	}
	return ""
}

func (w *where) sameDom(op string, x, y *CA) {
	w.n("P06")
	if (x.dom == dC && y.dom == dN) || (x.dom == dN && y.dom == dC) || x.dom == dMixed && y.dom != dAny || y.dom == dMixed && x.dom != dAny {
		w.bad("P06", "mixed-domains", "%s combines a polynomial in the %s domain with one in the %s domain", op, domName(x.dom), domName(y.dom))
	}
	if x.mont != y.mont && x.mont < 100 && y.mont < 100 && x.dom != dAny && y.dom != dAny {
		w.bad("P06", "mixed-montgomery", "%s combines values carrying %d and %d Montgomery factors", op, x.mont, y.mont)
	}
}

func (w *where) checkBase(x, y *CA) {
	w.n("P05")
	if (x.base == "R" || y.base == "R") && x.base != "T" && y.base != "T" { // R lists the moduli of P and Q
		return
	}
	if x.base != "" && y.base != "" && x.base != y.base && (x.dom != dAny || x.kind != "") && (y.dom != dAny || y.kind != "") {
		w.bad("P05", "moduli-mixed", "values modulo %s are combined with values or constants modulo %s", x.base, y.base)
	}
}

// checkSel: constants of one modulus are used with one modulus only.
func (w *where) checkSel(x, y *CA) {
	if w == nil || x.sel == nil || y.sel == nil || x.base != "" && y.base != "" && x.base != y.base {
		return
	}
	w.n("P05")
	if w.selDiffer(x.sel, y.sel) {
		w.bad("P05", "constant-modulus", "a constant of modulus number %s is combined with one of modulus number %s", x.sel, y.sel)
	}
}

// selDiffer: the two row numbers differ, always or for all iterations of an enclosing loop but one.
func (w *where) selDiffer(a, b *Term) bool {
	d := tSub(a, b)
	if c, ok := constOf(d); ok {
		return c != 0
	}
	return w.fr != nil && inLoop(w.fr, a) != inLoop(w.fr, b)
}

// add is the unreduced sum.
func (w *where) add(x, y *CA) *CA {
	if x.kind == "mod" && y.kind != "mod" {
		x, y = y, x
	}
	r := w.comb("+", x, y)
	w.checkBase(x, y)
	if y.kind == "mod" {
		if x.kind == "mod" {
			r = x.clone()
			r.bnd += y.bnd
			r.vn = nil
			return r
		}
		r.dom, r.mont = x.dom, x.mont
		r.bnd, r.le, r.acc, r.inc, r.step, r.grow = x.bnd+y.bnd, x.le, nil, 0, 0, x.grow
		if x.acc != nil {
			r.bnd = math.Inf(1)
		}
		r.modc = x.modc + y.bnd
		if r.bnd > capOf(r.base)+1e-9 && !math.IsInf(r.bnd, 1) {
			w.bad("P07", "overflow", "an unreduced sum may reach %.2f times the modulus, which does not fit a 64-bit word for the largest supported moduli", r.bnd)
		}
		return r
	}
	w.sameDom("a sum", x, y)
	r.dom, r.mont = joinDom(x.dom, y.dom), joinMont(x.mont, y.mont)
	if x.kind != "" || y.kind != "" {
		return r
	}
	if y.acc != nil && x.acc == nil {
		x, y = y, x
	}
	if x.acc != nil {
		if y.acc != nil || math.IsInf(y.bnd, 1) {
			return r
		}
		r.acc, r.bnd, r.step, r.inc, r.le = x.acc, x.bnd, x.step, x.inc+y.bnd, x.le
		w.checkAcc(r)
		return r
	}
	if (x.grow || y.grow) && !(x.grow && y.grow) {
		w.bad("P07", "unbounded", "residues are accumulated in a loop without any reduction: the sum can exceed 64 bits")
	}
	r.grow = x.grow || y.grow
	r.bnd = x.bnd + y.bnd
	r.le = x.le && y.le
	if x.bnd >= y.bnd {
		r.inc = x.inc + y.bnd
	} else {
		r.inc = y.inc + x.bnd
	}
	w.n("P07")
	if r.bnd > capOf(r.base)+1e-9 && !math.IsInf(r.bnd, 1) {
		w.bad("P07", "overflow", "an unreduced sum may reach %.2f times the modulus, which does not fit a 64-bit word for the largest supported moduli", r.bnd)
	}
	return r
}

// sub is the wrapping difference x-y.
func (w *where) sub(x, y *CA) *CA {
	r := w.comb("-", x, y)
	if x.kind == "mod" && y.kind == "" { // q - y
		r.base = x.base
		r.dom, r.mont = y.dom, y.mont
		w.n("P07")
		if !math.IsInf(y.bnd, 1) && y.acc == nil && y.bnd > x.bnd {
			w.bad("P07", "underflow", "a value up to %.2f times the modulus is subtracted from %.0f times the modulus", y.bnd, x.bnd)
		}
		r.bnd, r.le = x.bnd, true
		if y.isZero() {
			r.bnd, r.le = x.bnd, true
		}
		return r
	}
	w.checkBase(x, y)
	if x.kind == "mod" || y.kind == "mod" {
		if y.kind == "mod" && x.kind == "" {
			r.dom, r.mont = x.dom, x.mont
		}
		if x.kind == "mod" && y.kind == "mod" && x.bnd > y.bnd {
			r = x.clone()
			r.bnd -= y.bnd
			r.vn = nil
		}
		return r
	}
	w.sameDom("a difference", x, y)
	r.dom, r.mont = joinDom(x.dom, y.dom), joinMont(x.mont, y.mont)
	w.n("P07")
	if y.acc == nil && !math.IsInf(y.bnd, 1) && x.modc > 0 {
		if y.bnd > x.modc {
			w.bad("P07", "underflow", "a value up to %.2f times the modulus is subtracted after adding only %.0f times the modulus", y.bnd, x.modc)
		}
		r.bnd, r.le = x.bnd, x.le
		r.modc = 0
		return r
	}
	return r
}

func (w *where) reduced(op string, x *CA, b float64) *CA {
	r := x.plain().clone()
	r.bnd, r.le, r.modc, r.inc, r.step, r.acc, r.grow, r.kind = b, false, 0, 0, 0, nil, false, ""
	switch op {
	case "":
	case "MForm", "MFormConstant":
		r.vn = pvR(r.vn, 1)
	case "InvMForm", "InvMFormConstant":
		r.vn = pvR(r.vn, -1)
	default:
		r.vn = hv(op, r.vn)
	}
	return r
}

func isScalarLike(x *CA) bool { return x.dom == dAny }

func (w *where) mul(op string, x, y *CA, bound float64) *CA {
	r := w.comb("*", x, y)
	r.must = unionS(x.must, y.must)
	w.checkBase(x, y)
	w.n("P06")
	switch {
	case x.dom == dC && (y.dom == dC || y.dom == dN) || y.dom == dC && x.dom == dN, x.dom == dMixed && y.dom == dN, y.dom == dMixed && x.dom == dN:
		w.bad("P06", "product-domain", "a coefficient-wise product is taken of values in the %s and %s domains", domName(x.dom), domName(y.dom))
	case x.isZero() || y.isZero():
		r.dom, r.mont = dAny, mAny
	case isScalarLike(x):
		r.dom = y.dom
	case isScalarLike(y):
		r.dom = x.dom
	case x.dom == dN && (y.dom == dN || y.dom == dU), y.dom == dN && x.dom == dU:
		r.dom = dN
	case x.dom == dU && y.dom == dC || x.dom == dC && y.dom == dU:
		w.bad("P06", "product-domain", "a coefficient-wise product is taken of a drawn mask and a value in the coefficient domain")
	case x.dom == dU && y.dom == dU:
		r.dom = dU
	}
	d := int8(0)
	if strings.HasPrefix(op, "MRed") {
		d = -1
	}
	switch {
	case x.mont < 100 && y.mont < 100:
		r.mont = x.mont + y.mont + d
		if r.mont < 0 || r.mont > 1 {
			if x.dom == dN && y.dom == dN {
				w.bad("P06", "product-montgomery", "a %s product of values carrying %d and %d Montgomery factors leaves %d factors", op, x.mont, y.mont, r.mont)
			}
		}
	case x.mont == mAny && y.dom != dUnknown, y.mont == mAny && x.dom != dUnknown:
		// a uniform or zero factor absorbs any factor
		r.mont = mAny
	}
	r.bnd = bound
	w.n("P07")
	cp := capOf(r.base)
	ok := x.acc == nil && y.acc == nil && !math.IsInf(x.bnd, 1) && !math.IsInf(y.bnd, 1)
	if ok && x.bnd > 1 && y.bnd > 1 && x.bnd*y.bnd > cp+1e-9 {
		w.bad("P07", "product-range", "the factors of a product reduction may reach %.2f and %.2f times the modulus: the result is not reduced", x.bnd, y.bnd)
	}
	if bound > 1 && ok { // lazy variant
		r.bnd = 1 + math.Min(1, x.bnd*y.bnd/cp)
	}
	if d != 0 {
		r.vn = pvR(r.vn, -1)
	}
	return r
}

// scalarFn gives the transfer function of the modular-arithmetic primitives.
func (w *where) scalarFn(name string, a []*CA) (*CA, bool) {
	chk := func(x *CA, idx ...int) {
		for _, i := range idx {
			if i < len(a) {
				w.checkBase(x, a[i])
				w.checkSel(x, a[i])
				if a[i].kind == "" && a[i].dom == dUnknown {
					continue
				}
			}
		}
	}
	withBase := func(r *CA, i int) *CA {
		if r.base == "" && i < len(a) && a[i].base != "" {
			r = r.clone()
			r.base = a[i].base
		}
		return r
	}
	for i := range a {
		if a[i].kind == "mod" && i < 2 && len(a) >= 3 && (i == 0 || name == "MRed" || name == "MRedConstant" || name == "BRed" || name == "BRedConstant") {
			// a modulus used as an ordinary value
			x := a[i].clone()
			x.kind, x.sel, x.base = "", nil, ""
			a[i] = x
		}
	}
	switch name {
	case "CRed":
		if len(a) != 2 {
			return nil, false
		}
		x := a[0]
		chk(x, 1)
		if x.acc != nil {
			r := w.reduced("", x, math.Inf(1))
			return withBase(r, 1), true
		}
		w.n("P07")
		b := math.Max(1, x.bnd-1)
		r := w.reduced("", x, b)
		r.le = x.le && x.bnd >= 2
		if x.grow {
			r.grow = true
		}
		return withBase(r, 1), true
	case "BRedAdd", "BRedAddConstant":
		if len(a) != 3 {
			return nil, false
		}
		chk(a[0], 1, 2)
		w.checkAcc(a[0])
		if a[0].grow {
			w.bad("P07", "unbounded", "a sum accumulated in a loop without any reduction may have exceeded 64 bits before it is reduced")
		}
		b := 1.0
		if name == "BRedAddConstant" {
			b = 2
		}
		return withBase(w.reduced("", a[0], b), 1), true
	case "MRed", "MRedConstant":
		if len(a) != 4 {
			return nil, false
		}
		chk(a[0], 2, 3)
		chk(a[1], 2, 3)
		b := 1.0
		if name == "MRedConstant" {
			b = 2
		}
		return withBase(w.mul(name, a[0], a[1], b), 2), true
	case "BRed", "BRedConstant":
		if len(a) != 4 {
			return nil, false
		}
		chk(a[0], 2, 3)
		b := 1.0
		if name == "BRedConstant" {
			b = 2
		}
		return withBase(w.mul(name, a[0], a[1], b), 2), true
	case "MForm", "MFormConstant", "InvMForm", "InvMFormConstant":
		if len(a) != 3 {
			return nil, false
		}
		chk(a[0], 1, 2)
		b := 1.0
		if strings.HasSuffix(name, "Constant") {
			b = 2
		}
		r := w.reduced(name, a[0], b)
		if r.mont < 100 {
			if strings.HasPrefix(name, "Inv") {
				r.mont--
			} else {
				r.mont++
			}
			if a[0].dom == dN || a[0].dom == dC {
				w.n("P06")
				if r.mont < 0 || r.mont > 1 {
					w.bad("P06", "montgomery-form", "%s is applied to values carrying %d Montgomery factors", name, a[0].mont)
				}
			}
		}
		return withBase(r, 1), true
	case "PowerOf2":
		if len(a) == 4 {
			// x*2^n divided by the Montgomery factor
			r := w.reduced("", a[0], 1).clone()
			r.vn = pvR(pvMul(r.vn, hv("pow2", a[1].vn)), -1)
			if a[0].mont == 0 || a[0].mont == 1 {
				r.mont--
				w.n("P06")
				if r.mont < 0 && (a[0].dom == dN || a[0].dom == dC) {
					w.bad("P06", "montgomery-form", "PowerOf2 is applied to values that are not in Montgomery form")
				}
			}
			return withBase(r, 2), true
		}
	}
	return nil, false
}

func sortedU(in ...string) []string {
	m := map[string]bool{}
	for _, s := range in {
		m[s] = true
	}
	var r []string
	for s := range m {
		r = append(r, s)
	}
	sort.Strings(r)
	return r
}
