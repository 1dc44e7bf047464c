package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Term is a hash-consed symbolic number: an integer linear form over atoms, or
// (isF) a floating monomial  fc * prod atom^k.
type Term struct {
	key  string
	isF  bool
	c    int64
	fc   float64
	ts   []termPart
	bigc bool // constant outside int64: key only
}

type termPart struct {
	a *Atom
	k int64
}

type Atom struct {
	key  string
	op   string
	args []*Term
	min  bool // value known to be >= lo
	lo   int64
}

var termTab, atomTab sync.Map

func mkAtom(op string, args ...*Term) *Atom {
	var sb strings.Builder
	sb.WriteString(op)
	if len(args) > 0 {
		sb.WriteByte('(')
		for i, a := range args {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(a.key)
		}
		sb.WriteByte(')')
	}
	k := sb.String()
	if len(k) > 400 {
		h := uint64(14695981039346656037)
		for i := 0; i < len(k); i++ {
			h = (h ^ uint64(k[i])) * 1099511628211
		}
		k = fmt.Sprintf("%s#%x", op, h)
	}
	if a, ok := atomTab.Load(k); ok {
		return a.(*Atom)
	}
	a := &Atom{key: k, op: op, args: args}
	if strings.HasPrefix(op, "len:") {
		a.min, a.lo = true, 0
	}
	x, _ := atomTab.LoadOrStore(k, a)
	return x.(*Atom)
}

func internInt(c int64, ts []termPart) *Term {
	sort.Slice(ts, func(i, j int) bool { return ts[i].a.key < ts[j].a.key })
	var sb strings.Builder
	for _, p := range ts {
		if p.k == 1 {
			sb.WriteString("+")
		} else {
			sb.WriteString(fmt.Sprintf("%+d*", p.k))
		}
		sb.WriteString(p.a.key)
	}
	if c != 0 || len(ts) == 0 {
		if len(ts) == 0 {
			sb.WriteString(strconv.FormatInt(c, 10))
		} else {
			sb.WriteString(fmt.Sprintf("%+d", c))
		}
	}
	k := sb.String()
	k = strings.TrimPrefix(k, "+")
	if t, ok := termTab.Load(k); ok {
		return t.(*Term)
	}
	t := &Term{key: k, c: c, ts: ts}
	x, _ := termTab.LoadOrStore(k, t)
	return x.(*Term)
}

func tConst(c int64) *Term { return internInt(c, nil) }
func tAtom(a *Atom) *Term  { return internInt(0, []termPart{{a, 1}}) }
func tSym(name string) *Term {
	return tAtom(mkAtom(name))
}
func tApp(op string, args ...*Term) *Term {
	for _, a := range args {
		if a == nil {
			return nil
		}
	}
	return tAtom(mkAtom(op, args...))
}

func (t *Term) isConst() bool { return t != nil && len(t.ts) == 0 && !t.isF && !t.bigc }
func (t *Term) isFConst() bool {
	return t != nil && len(t.ts) == 0 && t.isF
}
func (t *Term) constVal() (int64, bool) {
	if t.isConst() {
		return t.c, true
	}
	return 0, false
}

func (t *Term) String() string {
	if t == nil {
		return "?"
	}
	return t.key
}

func tAdd(a, b *Term) *Term { return tLin(a, 1, b) }
func tSub(a, b *Term) *Term { return tLin(a, -1, b) }
func tLin(a *Term, k int64, b *Term) *Term {
	if a == nil || b == nil || a.isF || b.isF || a.bigc || b.bigc {
		return nil
	}
	m := map[*Atom]int64{}
	for _, p := range a.ts {
		m[p.a] += p.k
	}
	for _, p := range b.ts {
		m[p.a] += k * p.k
	}
	var ts []termPart
	for at, kk := range m {
		if kk != 0 {
			ts = append(ts, termPart{at, kk})
		}
	}
	return internInt(a.c+k*b.c, ts)
}
func tScale(a *Term, k int64) *Term {
	if a == nil || a.isF || a.bigc {
		return nil
	}
	if k == 0 {
		return tConst(0)
	}
	var ts []termPart
	for _, p := range a.ts {
		ts = append(ts, termPart{p.a, p.k * k})
	}
	return internInt(a.c*k, ts)
}
func tMul(a, b *Term) *Term {
	if a == nil || b == nil || a.isF || b.isF || a.bigc || b.bigc {
		return nil
	}
	if a.isConst() {
		return tScale(b, a.c)
	}
	if b.isConst() {
		return tScale(a, b.c)
	}
	if a.key > b.key {
		a, b = b, a
	}
	return tApp("mul", a, b)
}
func tDiv(a, b *Term) *Term {
	if a == nil || b == nil || a.isF || b.isF || a.bigc || b.bigc {
		return nil
	}
	if b.isConst() && b.c == 1 {
		return a
	}
	if a.isConst() && b.isConst() && b.c != 0 {
		return tConst(a.c / b.c)
	}
	return tApp("div", a, b)
}
func tRem(a, b *Term) *Term {
	if a == nil || b == nil || a.isF || b.isF || a.bigc || b.bigc {
		return nil
	}
	if a.isConst() && b.isConst() && b.c != 0 {
		return tConst(a.c % b.c)
	}
	return tApp("rem", a, b)
}

func tMin(a, b *Term) *Term {
	if a == b {
		return a
	}
	if leq(a, b, nil) {
		return a
	}
	if leq(b, a, nil) {
		return b
	}
	// flatten nested min
	set := map[*Term]bool{}
	for _, x := range []*Term{a, b} {
		if at, ok := soleAtom(x); ok && at.op == "min" {
			for _, y := range at.args {
				set[y] = true
			}
		} else {
			set[x] = true
		}
	}
	return tApp("min", pruneExtreme(set, true)...)
}
func tMax(a, b *Term) *Term {
	if a == b {
		return a
	}
	if leq(a, b, nil) {
		return b
	}
	if leq(b, a, nil) {
		return a
	}
	set := map[*Term]bool{}
	for _, x := range []*Term{a, b} {
		if at, ok := soleAtom(x); ok && at.op == "max" {
			for _, y := range at.args {
				set[y] = true
			}
		} else {
			set[x] = true
		}
	}
	return tApp("max", pruneExtreme(set, false)...)
}

func pruneExtreme(set map[*Term]bool, isMin bool) []*Term {
	var all []*Term
	for t := range set {
		all = append(all, t)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].key < all[j].key })
	var out []*Term
	for i, t := range all {
		drop := false
		for j, u := range all {
			if i == j {
				continue
			}
			var dom bool
			if isMin {
				dom = leq(u, t, nil)
			} else {
				dom = leq(t, u, nil)
			}
			if dom && (!leqBoth(u, t) || j < i) {
				drop = true
				break
			}
		}
		if !drop {
			out = append(out, t)
		}
	}
	return out
}
func leqBoth(a, b *Term) bool { return leq(a, b, nil) && leq(b, a, nil) }

func soleAtom(t *Term) (*Atom, bool) {
	if t != nil && !t.isF && t.c == 0 && len(t.ts) == 1 && t.ts[0].k == 1 {
		return t.ts[0].a, true
	}
	return nil, false
}

// ---- floating monomials

func internF(fc float64, ts []termPart) *Term {
	sort.Slice(ts, func(i, j int) bool { return ts[i].a.key < ts[j].a.key })
	var sb strings.Builder
	sb.WriteString("f" + strconv.FormatFloat(fc, 'g', -1, 64))
	for _, p := range ts {
		sb.WriteString(fmt.Sprintf("*%s^%d", p.a.key, p.k))
	}
	k := sb.String()
	if t, ok := termTab.Load(k); ok {
		return t.(*Term)
	}
	t := &Term{key: k, isF: true, fc: fc, ts: ts}
	x, _ := termTab.LoadOrStore(k, t)
	return x.(*Term)
}
func fConst(v float64) *Term { return internF(v, nil) }
func fAtom(a *Atom) *Term    { return internF(1, []termPart{{a, 1}}) }
func fSym(name string) *Term { return fAtom(mkAtom(name)) }
func fMul(a, b *Term, sgn int64) *Term {
	if a == nil || b == nil || !a.isF || !b.isF {
		return nil
	}
	m := map[*Atom]int64{}
	for _, p := range a.ts {
		m[p.a] += p.k
	}
	for _, p := range b.ts {
		m[p.a] += sgn * p.k
	}
	var ts []termPart
	for at, kk := range m {
		if kk != 0 {
			ts = append(ts, termPart{at, kk})
		}
	}
	fc := a.fc * b.fc
	if sgn < 0 {
		if b.fc == 0 {
			return nil
		}
		fc = a.fc / b.fc
	}
	return internF(fc, ts)
}
func fAdd(a, b *Term, neg bool) *Term {
	if a == nil || b == nil || !a.isF || !b.isF {
		return nil
	}
	if a.isFConst() && b.isFConst() {
		if neg {
			return fConst(a.fc - b.fc)
		}
		return fConst(a.fc + b.fc)
	}
	if neg {
		return fAtom(mkAtom("fsub", a, b))
	}
	if a.key > b.key {
		a, b = b, a
	}
	return fAtom(mkAtom("fadd", a, b))
}
func fApp(op string, args ...*Term) *Term {
	for _, a := range args {
		if a == nil {
			return nil
		}
	}
	return fAtom(mkAtom(op, args...))
}

// ---- facts and ordering

// Fact is a linear fact  t <= 0.
type Facts struct {
	up  *Facts
	lin *Term  // lin <= 0
	key string // boolean term key
	val bool
	n   int
}

func (f *Facts) addLin(t *Term) *Facts {
	if t == nil || t.isConst() {
		return f
	}
	n := 0
	if f != nil {
		n = f.n
	}
	return &Facts{up: f, lin: t, n: n + 1}
}
func (f *Facts) addBool(key string, v bool) *Facts {
	n := 0
	if f != nil {
		n = f.n
	}
	return &Facts{up: f, key: key, val: v, n: n + 1}
}
func (f *Facts) lookup(key string) (bool, bool) {
	for ; f != nil; f = f.up {
		if f.key == key {
			return f.val, true
		}
	}
	return false, false
}
func commonFacts(a, b *Facts) *Facts {
	for a != b {
		if a == nil || b == nil {
			return nil
		}
		if a.n >= b.n {
			a = a.up
		} else {
			b = b.up
		}
	}
	return a
}

// leq proves a <= b (integers).
func leq(a, b *Term, f *Facts) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	return nonPos(tSub(a, b), f, 5)
}

func nonPos(d *Term, f *Facts, depth int) bool {
	if d == nil {
		return false
	}
	// all atoms with negative coefficients bounded below, none positive
	ub := d.c
	ok := true
	for _, p := range d.ts {
		if p.k < 0 && p.a.min {
			ub += p.k * p.a.lo
		} else {
			ok = false
			break
		}
	}
	if ok && ub <= 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, p := range d.ts {
		switch {
		case p.a.op == "min" && p.k > 0, p.a.op == "max" && p.k < 0:
			for _, x := range p.a.args {
				if nonPos(tLin(tLin(d, -p.k, tAtom(p.a)), p.k, x), f, depth-1) {
					return true
				}
			}
		case p.a.op == "min" && p.k < 0, p.a.op == "max" && p.k > 0:
			all := true
			for _, x := range p.a.args {
				if !nonPos(tLin(tLin(d, -p.k, tAtom(p.a)), p.k, x), f, depth-1) {
					all = false
					break
				}
			}
			if all {
				return true
			}
		}
	}
	if depth >= 3 {
		for g := f; g != nil; g = g.up {
			if g.lin == nil {
				continue
			}
			// d <= 0 follows from d - g.lin <= 0
			if sharesAtom(d, g.lin) && nonPos(tSub(d, g.lin), f, depth-2) {
				return true
			}
		}
	}
	return false
}

func sharesAtom(a, b *Term) bool {
	for _, p := range a.ts {
		for _, q := range b.ts {
			if p.a == q.a && (p.k > 0) == (q.k > 0) {
				return true
			}
		}
	}
	return false
}

func fIsInt(v float64) bool { return v == math.Trunc(v) && math.Abs(v) < 1e15 }
