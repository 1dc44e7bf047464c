package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"
)

// The content domain: what is known about the residues held by a row (or a scalar).

const (
	dAny     = int8(0) // zero or otherwise domain-independent
	dC       = int8(1) // coefficient domain
	dN       = int8(2) // evaluation domain
	dU       = int8(3) // freshly drawn uniform values: compatible with either domain
	dMixed   = int8(4) // some rows in one domain, some in the other
	dUnknown = int8(9)

	mAny     = int8(100)
	mUnknown = int8(101)
)

func domName(d int8) string {
	switch d {
	case dAny:
		return "any"
	case dC:
		return "coefficient"
	case dN:
		return "evaluation"
	case dU:
		return "uniform"
	case dMixed:
		return "mixed (rows differ)"
	}
	return "unknown"
}

type oneRow struct {
	sel *Term
	v   *CA
}

// CA is the (immutable) attribute of residue contents and of scalars.
type CA struct {
	dom  int8
	mont int8
	bnd  float64 // values are < bnd*q (or <= when le); +Inf unknown
	le   bool
	modc float64 // number of added moduli not yet used by a subtraction
	inc  float64 // amount added without reduction since the last overflow check
	step float64 // largest amount added per overflow-check period (with acc)
	acc  *Term   // accumulates under a margin counter with period acc
	grow bool    // accumulated in a loop without any reduction
	wid  bool    // widened: an enclosing loop gave up following it
	may  []string
	must []string // kinds and labels present on every path
	vn   *PV      // nil: unknown
	base string   // modulus tag Q,P,T,R or ""
	// rows
	lvl  *Term // rows 0..lvl hold this (nil: all rows)
	rest *CA   // rows above
	pend *CA   // value written to row psel inside the current row loop
	psel *Term
	half *CA      // lower half already overwritten
	ones []oneRow // rows written on their own, by their (symbolic) number
	// scalars
	kind string // "mod","mred","bred", "" otherwise
	sel  *Term  // row index of a modulus-dependent constant
	key  string
}

func (a *CA) AKey() string {
	if a == nil {
		return ""
	}
	if a.key == "" {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d|%d|%g%v|%g|%g,%g|%s|%v|%s|%s|%s|%s|%s|%s", a.dom, a.mont, a.bnd, a.le, a.modc, a.inc, a.step, tkey(a.acc), a.grow,
			strings.Join(a.may, ","), strings.Join(a.must, ","), vnS(a.vn), a.base, tkey(a.lvl), a.kind)
		if a.wid {
			sb.WriteString("W")
		}
		if a.sel != nil {
			sb.WriteString("s" + a.sel.key)
		}
		if a.rest != nil {
			sb.WriteString("r(" + a.rest.AKey() + ")")
		}
		if a.pend != nil {
			sb.WriteString("p" + tkey(a.psel) + "(" + a.pend.AKey() + ")")
		}
		if a.half != nil {
			sb.WriteString("h(" + a.half.AKey() + ")")
		}
		for _, o := range a.ones {
			sb.WriteString("o" + tkey(o.sel) + "(" + o.v.AKey() + ")")
		}
		a.key = sb.String()
	}
	return a.key
}

func tkey(t *Term) string {
	if t == nil {
		return "-"
	}
	return t.key
}

func (a *CA) clone() *CA {
	b := *a
	b.key = ""
	return &b
}

// plain drops the row structure: the value of one row.
func (a *CA) plain() *CA {
	if a.lvl == nil && a.rest == nil && a.pend == nil && a.half == nil && a.ones == nil {
		return a
	}
	b := a.clone()
	b.lvl, b.rest, b.pend, b.psel, b.half, b.ones = nil, nil, nil, nil, nil, nil
	return b
}

func caUnknown() *CA {
	return &CA{dom: dUnknown, mont: mUnknown, bnd: math.Inf(1)}
}

// caPlain is an ordinary number: no content, no Montgomery factor.
func caPlain() *CA { return &CA{dom: dAny, mont: 0, bnd: math.Inf(1)} }
func caZero() *CA  { return &CA{dom: dAny, mont: mAny, bnd: 0, le: true, vn: pvInt(0)} }

func caOf(v Val) *CA {
	if n, ok := v.(*Num); ok {
		if a, ok := n.A.(*CA); ok && a != nil {
			return a
		}
		if n.T != nil {
			if c, ok := n.T.constVal(); ok {
				if c == 0 {
					return caZero()
				}
				if c > -1<<20 && c < 1<<20 {
					return &CA{dom: dAny, mont: 0, bnd: math.Inf(1), vn: pvInt(c)}
				}
				return &CA{dom: dAny, mont: 0, bnd: math.Inf(1), vn: pvAtom("c", n.T.key)}
			}
			return &CA{dom: dAny, mont: 0, bnd: math.Inf(1), vn: pvAtom("t", normKey(n.T.key))}
		}
		return &CA{dom: dAny, mont: 0, bnd: math.Inf(1)}
	}
	return caUnknown()
}

func joinDom(a, b int8) int8 {
	switch {
	case a == b:
		return a
	case a == dAny:
		return b
	case b == dAny:
		return a
	case a == dU && (b == dC || b == dN):
		return b
	case b == dU && (a == dC || a == dN):
		return a
	}
	return dUnknown
}
func joinMont(a, b int8) int8 {
	switch {
	case a == b:
		return a
	case a == mAny:
		return b
	case b == mAny:
		return a
	}
	return mUnknown
}

func unionS(a, b []string) []string {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if &a[0] == &b[0] && len(a) == len(b) {
		return a
	}
	r := make([]string, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i] < b[j]:
			r = append(r, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}
func interS(a, b []string) []string {
	var r []string
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			i++
		case b[j] < a[i]:
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}
func hasS(a []string, s string) bool {
	i := sort.SearchStrings(a, s)
	return i < len(a) && a[i] == s
}
func hasPrefixS(a []string, p string) bool {
	i := sort.SearchStrings(a, p)
	return i < len(a) && strings.HasPrefix(a[i], p)
}

func (a *CA) AJoin(o Attr) Attr { return caJoinAttr(a, o, nil, "") }

// AJoinC joins under a branch condition: a holds when cond is true.
func (a *CA) AJoinC(o Attr, cond *Term, name string) Attr { return caJoinAttr(a, o, cond, name) }

func caJoinAttr(a *CA, o Attr, cond *Term, name string) Attr {
	b, ok := o.(*CA)
	if a == nil {
		if !ok || b == nil {
			return nil
		}
		a = caPlain()
	}
	if !ok || b == nil {
		b = caPlain()
	}
	return caJoin(a, b, cond, name)
}

func caJoin(a, b *CA, cond *Term, name string) *CA {
	if a == b || a.AKey() == b.AKey() {
		return a
	}
	if a.wid && strings.HasPrefix(name, "L") {
		w := widenCA(&Num{A: b}, &Num{A: a})
		if w.AKey() == a.AKey() {
			return a
		}
		return w
	}
	if strings.HasPrefix(name, "L") {
		// rows a loop fills: those it has not reached yet hold nothing of interest
		if a.untouched() && !b.untouched() {
			return filled(b, a)
		}
		if b.untouched() && !a.untouched() {
			return filled(a, b)
		}
	}
	// rows
	if a.ones != nil || b.ones != nil {
		r := caJoin(a.noOnes(), b.noOnes(), cond, name)
		var ones []oneRow
		for _, o := range a.ones {
			ones = append(ones, oneRow{o.sel, caJoin(o.v, b.one(o.sel), cond, name)})
		}
		for _, o := range b.ones {
			if !a.hasOne(o.sel) {
				ones = append(ones, oneRow{o.sel, caJoin(a.one(o.sel), o.v, cond, name)})
			}
		}
		return r.withOnes(ones)
	}
	switch {
	case a.pend != nil || b.pend != nil:
		ap, bp := a.pend, b.pend
		ps := a.psel
		if ap == nil {
			ps = b.psel
		}
		if a.pend != nil && b.pend != nil && a.psel != b.psel {
			// different rows: fold both
			return caJoin(foldPend(a), foldPend(b), cond, name)
		}
		am, bm := a.clone(), b.clone()
		am.pend, am.psel, bm.pend, bm.psel = nil, nil, nil, nil
		if ap == nil {
			ap = am.plain()
		}
		if bp == nil {
			bp = bm.plain()
		}
		r := caJoin(am, bm, cond, name).clone()
		switch {
		case ap.untouched() && !bp.untouched():
			r.pend, r.psel = filled(bp, ap), ps
		case bp.untouched() && !ap.untouched():
			r.pend, r.psel = filled(ap, bp), ps
		default:
			r.pend, r.psel = caJoin(ap, bp, cond, name), ps
		}
		if a.pend != nil && b.pend != nil && (ap.dom == dC && bp.dom == dN || ap.dom == dN && bp.dom == dC) {
			r.pend = r.pend.clone()
			r.pend.dom = dMixed
		}
		return r
	case a.half != nil || b.half != nil:
		ah, bh := a.half, b.half
		am, bm := a.clone(), b.clone()
		am.half, bm.half = nil, nil
		if ah == nil {
			ah = am.plain()
		}
		if bh == nil {
			bh = bm.plain()
		}
		r := caJoin(am, bm, cond, name).clone()
		r.half = caJoin(ah, bh, cond, name)
		return r
	case a.lvl != b.lvl || a.rest != nil || b.rest != nil:
		if a.lvl == b.lvl {
			r := caJoin(a.plain(), b.plain(), cond, name).clone()
			r.lvl = a.lvl
			ar, br := a.rest, b.rest
			if ar == nil {
				ar = a.plain()
			}
			if br == nil {
				br = b.plain()
			}
			r.rest = caJoin(ar, br, cond, name)
			return r
		}
		// different extents: the common rows keep the joined main value
		var l *Term
		rests := []*CA{}
		add := func(x *CA, other *CA) {
			if x.rest != nil {
				rests = append(rests, x.rest)
			}
		}
		add(a, b)
		add(b, a)
		switch {
		case a.lvl == nil:
			l = b.lvl
			rests = append(rests, a.plain())
		case b.lvl == nil:
			l = a.lvl
			rests = append(rests, b.plain())
		default:
			l = tMin(a.lvl, b.lvl)
			rests = append(rests, a.plain(), b.plain())
		}
		r := caJoin(a.plain(), b.plain(), cond, name).clone()
		rr := rests[0]
		for _, x := range rests[1:] {
			rr = caJoin(rr, x.plain(), nil, name)
		}
		r.lvl, r.rest = l, rr.plain()
		if strings.HasPrefix(name, "L") {
			r.may = unionS(r.may, imprecise)
			r.rest = approx(r.rest)
		}
		return r
	}
	r := &CA{}
	r.dom, r.mont = joinDom(a.dom, b.dom), joinMont(a.mont, b.mont)
	r.may = unionS(a.may, b.may)
	switch {
	case a.isZero():
		r.must = b.must
	case b.isZero():
		r.must = a.must
	default:
		r.must = interS(a.must, b.must)
	}
	if a.base == b.base {
		r.base = a.base
	} else if a.base == "" || b.base == "" {
		r.base = a.base + b.base
		if a.dom != dAny && b.dom != dAny {
			r.base = ""
		}
	}
	if a.kind == b.kind {
		r.kind = a.kind
		if a.sel == b.sel {
			r.sel = a.sel
		}
	}
	r.modc = math.Min(a.modc, b.modc)
	r.grow = a.grow || b.grow
	joinBound(r, a, b, cond, name)
	r.vn = joinVN(a.vn, b.vn, cond, name)
	return r
}

func (a *CA) noOnes() *CA {
	if a.ones == nil {
		return a
	}
	b := a.clone()
	b.ones = nil
	return b
}

// withOnes attaches the separately known rows; when there are too many they become part of the others.
func (a *CA) withOnes(ones []oneRow) *CA {
	if len(ones) == 0 {
		return a.noOnes()
	}
	if len(ones) > 3 {
		r := a.noOnes()
		for _, o := range ones {
			r = caJoin(r, o.v, nil, "")
		}
		return approx(r)
	}
	b := a.clone()
	b.ones = append([]oneRow{}, ones...)
	sort.Slice(b.ones, func(i, j int) bool { return b.ones[i].sel.key < b.ones[j].sel.key })
	return b
}

func (a *CA) hasOne(sel *Term) bool {
	for _, o := range a.ones {
		if o.sel == sel {
			return true
		}
	}
	return false
}

// one is the content of row sel when nothing relates sel to the extents.
func (a *CA) one(sel *Term) *CA {
	for _, o := range a.ones {
		if o.sel == sel {
			return o.v
		}
	}
	r := a.plain()
	if a.rest != nil {
		r = caJoin(r, a.rest.plain(), nil, "")
	}
	if a.pend != nil {
		r = caJoin(r, a.pend.plain(), nil, "")
	}
	return r
}

// untouched: nothing has been written since the operation started.
func (a *CA) untouched() bool {
	if a.dom != dUnknown || len(a.must) > 0 || len(a.may) == 0 || a.pend != nil || a.half != nil || a.ones != nil || a.wid {
		return false
	}
	for _, m := range a.may {
		if !strings.HasPrefix(m, "stale:") && !strings.HasPrefix(m, "old:") {
			return false
		}
	}
	return a.rest == nil || a.rest.untouched()
}

// filled is n with the possibility that some rows still are as in old.
func filled(n, old *CA) *CA {
	r := n.clone()
	r.may = unionS(unionS(n.may, old.may), imprecise)
	if r.pend != nil {
		r.pend = filled(r.pend, old)
	}
	if r.rest != nil {
		r.rest = filled(r.rest, old)
	}
	return r
}

// apart: the two row numbers are certainly different.
func apart(x, y *Term, f *Facts) bool {
	return x != nil && y != nil && (leq(tAdd(x, tConst(1)), y, f) || leq(tAdd(y, tConst(1)), x, f))
}

// imprecise labels contents whose rows a loop wrote in a way that is not followed row by row: what
// may remain in them is not known, so nothing is concluded from the labels beside it.
var imprecise = []string{"~"}

func approx(a *CA) *CA {
	if a == nil {
		return nil
	}
	b := a.clone()
	b.may = unionS(b.may, imprecise)
	return b
}

func isApprox(may []string) bool { return len(may) > 0 && may[len(may)-1] == "~" }

func (a *CA) isZero() bool { return a.dom == dAny && a.mont == mAny && a.bnd == 0 }

func foldPend(a *CA) *CA {
	if a.pend == nil {
		return a
	}
	b := a.clone()
	b.pend, b.psel = nil, nil
	if b.untouched() {
		return filled(a.pend.plain(), b)
	}
	return approx(caJoin(b, a.pend, nil, ""))
}

// marginCond recognises  rem(c,F) == F-1  (kind 1) and  rem(c,F) == 0 (kind 2); neg tells that the
// condition is negated.
func marginCond(c *Term) (kind int, F *Term, neg bool) {
	if c == nil {
		return 0, nil, false
	}
	at, ok := soleAtom(c)
	if !ok {
		return 0, nil, false
	}
	if at.op == "not" {
		k, F, n := marginCond(at.args[0])
		return k, F, !n
	}
	if at.op != "eq" || len(at.args) != 2 {
		return 0, nil, false
	}
	x, y := at.args[0], at.args[1]
	for i := 0; i < 2; i++ {
		if ra, ok := soleAtom(x); ok && ra.op == "rem" && len(ra.args) == 2 && ra.args[1] != nil && !ra.args[1].isConst() {
			F := ra.args[1]
			if y == tAdd(F, tConst(-1)) {
				return 1, F, false
			}
			if c, ok := y.constVal(); ok && c == 0 {
				return 2, F, false
			}
		}
		x, y = y, x
	}
	// eq(F-1, 0) etc: rem of a constant counter
	return 0, nil, false
}

func joinBound(r, a, b *CA, cond *Term, name string) {
	max := func() {
		if a.bnd >= b.bnd {
			r.bnd, r.le = a.bnd, a.le || (b.bnd == a.bnd && b.le)
		} else {
			r.bnd, r.le = b.bnd, b.le
		}
		r.inc = math.Max(a.inc, b.inc)
		r.step = math.Max(a.step, b.step)
	}
	k, F, neg := marginCond(cond)
	if k != 0 {
		t, f := a, b
		if neg {
			t, f = b, a
		}
		switch k {
		case 1: // the true side has just been reduced
			if t.bnd <= 1 && f.bnd > 1 && !math.IsInf(f.bnd, 1) {
				r.acc = F
				r.step = math.Max(f.step, f.inc)
				if f.acc == F {
					r.bnd = f.bnd // bound of the accumulator at the start of a period
				} else {
					r.bnd = f.bnd - f.inc
				}
				return
			}
		case 2: // the true side (counter multiple of F) was reduced by the preceding iteration
			if t.acc == F && f.bnd <= 1 && f.acc == nil {
				r.bnd, r.le = 1, false
				return
			}
		}
	}
	switch {
	case a.acc != nil && b.acc == a.acc:
		r.acc = a.acc
		max()
	case a.acc != nil && !math.IsInf(b.bnd, 1):
		r.acc = a.acc
		max()
	case b.acc != nil && !math.IsInf(a.bnd, 1):
		r.acc = b.acc
		max()
	default:
		max()
		if strings.HasPrefix(name, "L") && a.bnd != b.bnd && !math.IsInf(r.bnd, 1) && b.bnd > a.bnd && b.inc > 0 {
			// grows around a loop without a reduction
			r.bnd, r.le, r.grow = math.Inf(1), false, true
		}
	}
}

var reCtx = regexp.MustCompile(`\b([ijmLp]|dyn|w:[a-zA-Z]*)\d+(\.\d+)*`)

func normKey(k string) string {
	if !strings.ContainsAny(k, "ijmLd") {
		return k
	}
	return reCtx.ReplaceAllString(k, "$1#")
}

// widenCA is the value of a cell a loop keeps changing: unknown, with everything either side may hold.
func widenCA(x, y *Num) *CA {
	if x == nil || x.A == nil {
		return nil
	}
	a, ok := x.A.(*CA)
	if !ok {
		return nil
	}
	w := caUnknown()
	w.wid = true
	w.may = a.may
	if a.rest != nil {
		w.may = unionS(w.may, a.rest.may)
	}
	for _, o := range a.ones {
		w.may = unionS(w.may, o.v.may)
	}
	if y != nil {
		if b, ok := y.A.(*CA); ok && b != nil {
			w.may = unionS(w.may, b.may)
			if b.rest != nil {
				w.may = unionS(w.may, b.rest.may)
			}
			for _, o := range b.ones {
				w.may = unionS(w.may, o.v.may)
			}
		}
	}
	return w
}
