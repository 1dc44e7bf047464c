package main

import "strings"

// Case split over comparisons of operand scales: every run follows one outcome of each comparison it meets,
// and further runs follow the other outcomes.

type choice struct {
	key string
	v   bool
}

const maxChoices = 4

// scaleOnly: the term is built from entry scales and constants.
func scaleOnly(t *Term, seen *bool) bool {
	if t == nil {
		return false
	}
	for _, p := range t.ts {
		if len(p.a.args) == 0 {
			if !strings.HasSuffix(p.a.op, ".Scale") {
				return false
			}
			*seen = true
			continue
		}
		for _, x := range p.a.args {
			if x != nil && !scaleOnly(x, seen) {
				return false
			}
		}
	}
	return true
}

// choose decides a branch condition by case split, when it is one the run is split over.
func (D *Dom) choose(fr *Frame, st *State, c *Term) (bool, bool) {
	if v, ok := D.chooseCounter(fr, st, c); ok {
		return v, ok
	}
	return D.chooseScale(c)
}

// chooseCounter splits over comparisons of a constant with the final value of a finished counting loop.
func (D *Dom) chooseCounter(fr *Frame, st *State, c *Term) (bool, bool) {
	if c == nil {
		return false, false
	}
	a, ok := soleAtom(c)
	if !ok {
		return false, false
	}
	if a.op == "not" && a.args[0] != nil {
		v, ok := D.chooseCounter(fr, st, a.args[0])
		return !v, ok
	}
	if a.op != "lt" && a.op != "le" && a.op != "eq" {
		return false, false
	}
	x, y := a.args[0], a.args[1]
	if x == nil || y == nil {
		return false, false
	}
	d := tSub(x, y)
	if len(d.ts) != 1 || len(d.ts[0].a.args) != 0 || len(d.ts[0].a.op) < 2 || d.ts[0].a.op[0] != 'i' || d.ts[0].a.op[1] < '0' || d.ts[0].a.op[1] > '9' {
		return false, false
	}
	sym := tSym(d.ts[0].a.op)
	for f := fr; f != nil; f = f.up {
		for _, l := range f.loops {
			for _, t := range l.ind {
				if t == sym {
					return false, false
				}
			}
		}
	}
	one := tConst(1)
	var yes, no bool // implied outcomes
	switch a.op {
	case "lt":
		yes, no = leq(tAdd(x, one), y, st.facts), leq(y, x, st.facts)
	case "le":
		yes, no = leq(x, y, st.facts), leq(tAdd(y, one), x, st.facts)
	case "eq":
		yes, no = leq(x, y, st.facts) && leq(y, x, st.facts), leq(tAdd(x, one), y, st.facts) || leq(tAdd(y, one), x, st.facts)
	}
	if yes != no {
		return yes, true
	}
	return D.pick(c.key)
}

func (D *Dom) chooseScale(c *Term) (bool, bool) {
	if c == nil {
		return false, false
	}
	a, ok := soleAtom(c)
	if !ok {
		return false, false
	}
	if a.op == "not" {
		v, ok := D.chooseScale(a.args[0])
		return !v, ok
	}
	if a.op != "flt" && a.op != "fle" && a.op != "feq" {
		return false, false
	}
	x, y := a.args[0], a.args[1]
	seen := false
	if !scaleOnly(x, &seen) || !scaleOnly(y, &seen) || !seen {
		return false, false
	}
	if y.isFConst() != x.isFConst() {
		return D.chooseConst(a.op, x, y)
	}
	// possible orders of (x,y) as a subset of {<,=,>}
	k, sw := x.key+" ? "+y.key, false
	if x.key > y.key {
		k, sw = y.key+" ? "+x.key, true
	}
	if D.order == nil {
		D.order = map[string]int{}
	}
	pos, ok := D.order[k]
	if !ok {
		pos = 7
	}
	const lt, eq, gt = 1, 2, 4
	want := 0
	switch a.op {
	case "flt":
		want = lt
		if sw {
			want = gt
		}
	case "fle":
		want = lt | eq
		if sw {
			want = gt | eq
		}
	case "feq":
		want = eq
	}
	if pos&want == 0 {
		return false, true
	}
	if pos&^want == 0 {
		return true, true
	}
	v, ok := D.pick(c.key)
	if !ok {
		return false, false
	}
	if v {
		D.order[k] = pos & want
	} else {
		D.order[k] = pos &^ want
	}
	return v, true
}

func (D *Dom) pick(key string) (v, ok bool) {
	n := len(D.chosen)
	if n >= maxChoices {
		return false, false
	}
	v = true
	if n < len(D.cfg.path) {
		v = D.cfg.path[n]
	}
	D.chosen = append(D.chosen, choice{key, v})
	return v, true
}

// constCmp is a comparison of a term with a constant and its outcome.
type constCmp struct {
	op string // flt, fle, feq
	sw bool   // constant on the left
	c  float64
	v  bool
}

func (k constCmp) holds(x float64) bool {
	a, b := x, k.c
	if k.sw {
		a, b = b, a
	}
	switch k.op {
	case "flt":
		return a < b
	case "fle":
		return a <= b
	}
	return a == b
}

// chooseConst decides comparisons of one term with constants consistently.
func (D *Dom) chooseConst(op string, x, y *Term) (bool, bool) {
	sw := x.isFConst()
	if sw {
		x, y = y, x
	}
	if op == "feq" && y.fc == 0 && (strings.Contains(x.key, "math.Round(") || strings.Contains(x.key, "math.Floor(")) {
		return false, true // the rounded ratio of a larger over a smaller scale
	}
	n := constCmp{op: op, sw: sw, c: y.fc}
	if D.consts == nil {
		D.consts = map[string][]constCmp{}
	}
	old := D.consts[x.key]
	var pts []float64
	for _, k := range append(append([]constCmp{}, old...), n) {
		pts = append(pts, k.c-0.25, k.c, k.c+0.25)
	}
	t, f := false, false
	for _, p := range pts {
		ok := true
		for _, k := range old {
			if k.holds(p) != k.v {
				ok = false
			}
		}
		if ok {
			if n.holds(p) {
				t = true
			} else {
				f = true
			}
		}
	}
	if t != f {
		return t, true
	}
	v, ok := D.pick(op + x.key + y.key)
	if !ok {
		return false, false
	}
	n.v = v
	D.consts[x.key] = append(old, n)
	return v, true
}

// runAll runs a configuration for every outcome of the scale comparisons it meets.
func runAll(P *Prog, cfg *DomCfg) []*DomRun {
	var out []*DomRun
	todo := [][]bool{nil}
	for len(todo) > 0 && len(out) < 1<<maxChoices {
		p := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		c := *cfg
		c.path = p
		R := runDom(P, &c)
		out = append(out, R)
		for i := len(p); i < len(R.D.chosen); i++ {
			np := make([]bool, i+1)
			for j := 0; j < i; j++ {
				np[j] = R.D.chosen[j].v
			}
			np[i] = !R.D.chosen[i].v
			todo = append(todo, np)
		}
	}
	return out
}
