package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// P20: the content of every result component is the documented expression of the operands, keys and draws.

// ---- canonical form of contents

type fmNorm struct {
	calls bool // keep scale adjustments as calls
	mu    sync.Mutex
	memo  map[*PV]*PV
}

var (
	fmAssert = regexp.MustCompile(`\.\(\*?[A-Za-z0-9_./]+\)`)
	fmMid    = regexp.MustCompile(`\.(Ciphertext|Plaintext|encryptor|decryptor|Element)\b`)
	fmComp   = regexp.MustCompile(`^(\w+)\.Value\[(\d+|\*)\]$`)
	fmOne    = regexp.MustCompile(`^(\w+)\.Value$`)
	fmSwk    = regexp.MustCompile(`^(.*)\.Value\[\*\]\[(\d)\]\.(Q|P)$`)
	fmFswk   = regexp.MustCompile(`^(.*?)(?:\.Value\[(\d)\])?\.Value\[\*\]\[\*\]$`)
	fmPk     = regexp.MustCompile(`^(?:.*\.)?(\w+)\.Value\[(\d)\]\.(Q|P)$`)
	fmSk     = regexp.MustCompile(`^(?:.*\.)?(\w+)\.Value\.(Q|P)$`)
	fmQP     = regexp.MustCompile(`^(\w+)(\[\*\])?\.(Q|P)$`)
	fmRoots  = regexp.MustCompile(`NttPsi(Inv)?\[[^\[]*\]\[[^\[]*\]$`)
	fmScales = regexp.MustCompile(`([A-Za-z0-9_]+)\.Scale\^(-?1)\b`)
)

// fmName is the canonical name of an initial content; "" when its role is not known.
func fmName(s string) string {
	s = strings.TrimSuffix(s, ".Coeffs[*][*]")
	s = fmAssert.ReplaceAllString(s, "")
	s = fmMid.ReplaceAllString(s, "")
	switch {
	case strings.HasSuffix(s, "modDownparamsPtoQ[*][*]"):
		return "invP"
	case strings.HasSuffix(s, "modDownparamsQtoP[*][*]"):
		return "invQ"
	case strings.HasSuffix(s, "halfTPolyT"), strings.HasSuffix(s, "halfTPolyQP.Q"), strings.HasSuffix(s, "halfTPolyQP.P"):
		return s[strings.LastIndex(s, "halfT"):]
	case strings.HasSuffix(s, "NttPsi[*][1]"), strings.HasSuffix(s, "NttPsi[*][*]"):
		return "psi"
	case fmRoots.MatchString(s):
		return s[strings.LastIndex(s, "NttPsi"):]
	case strings.HasSuffix(s, "RescaleParams[*][*]"):
		return "rescale"
	}
	last := func(p string) string {
		p = strings.TrimSuffix(p, "[*]")
		p = strings.TrimSuffix(p, ".Keys")
		return p[strings.LastIndex(p, ".")+1:]
	}
	if m := fmSwk.FindStringSubmatch(s); m != nil {
		return last(m[1]) + "[" + m[2] + "]." + m[3]
	}
	if m := fmFswk.FindStringSubmatch(s); m != nil {
		if m[2] == "" {
			return last(m[1])
		}
		return last(m[1]) + "[" + m[2] + "]"
	}
	if m := fmPk.FindStringSubmatch(s); m != nil {
		return m[1] + "[" + m[2] + "]." + m[3]
	}
	if m := fmSk.FindStringSubmatch(s); m != nil {
		return m[1] + "." + m[2]
	}
	if m := fmComp.FindStringSubmatch(s); m != nil {
		return m[1] + "[" + m[2] + "]"
	}
	if m := fmOne.FindStringSubmatch(s); m != nil {
		return m[1] + "[0]"
	}
	if m := fmQP.FindStringSubmatch(s); m != nil {
		return m[1] + "." + m[3]
	}
	if strings.IndexAny(s, ".[*(") < 0 {
		return s
	}
	return ""
}

func fmIn(n string) *PV    { return pvAtom("in", n) }
func fmDraw(k string) *PV  { return pvAtom("draw", k) }
func fmD(x *PV) *PV        { return pvNode("D", "", x) }
func fmUp(x *PV) *PV       { return pvNode("modup", "", x) }
func fmSum(x *PV) *PV      { return pvLinear("sum", x) }
func fmPerm(x *PV) *PV     { return pvLinear("perm", x) }
func fmScale(r string) *PV { return pvAtom("scale", r) }
func fmSums(xs ...*PV) *PV {
	r := pvInt(0)
	for _, x := range xs {
		r = pvAdd(r, x, 1)
	}
	return r
}
func fmProd(xs ...*PV) *PV {
	r := pvInt(1)
	for _, x := range xs {
		r = pvMul(r, x)
	}
	return r
}
func fmNeg(x *PV) *PV { return pvAdd(pvInt(0), x, -1) }

// soleInfo: the content is one atom.
func fmSole(v *PV) *pvInfo {
	if v != nil && len(v.ms) == 1 && v.ms[0].c == 1 && len(v.ms[0].fs) == 1 && v.ms[0].fs[0].k == 1 {
		return atomInfo(v.ms[0].fs[0].a)
	}
	return nil
}

func (n *fmNorm) val(v *PV) *PV {
	if v == nil {
		return nil
	}
	n.mu.Lock()
	x, ok := n.memo[v]
	n.mu.Unlock()
	if ok {
		return x
	}
	r := pvInt(0)
	for _, m := range v.ms {
		t := pvInt(m.c)
		for _, f := range m.fs {
			if f.k < 0 || atomInfo(f.a) == nil {
				t = pvMul(t, pvFactor(f.a, f.k))
				continue
			}
			y := n.atom(atomInfo(f.a))
			for i := 0; i < f.k; i++ {
				t = pvMul(t, y)
			}
		}
		r = pvAdd(r, t, 1)
	}
	n.mu.Lock()
	n.memo[v] = r
	n.mu.Unlock()
	return r
}

func (n *fmNorm) atom(d *pvInfo) *PV {
	args := make([]*PV, len(d.args))
	for i, a := range d.args {
		args[i] = n.val(a)
	}
	switch {
	case d.op == "init":
		if strings.HasSuffix(d.text, "Modulus[*]") {
			return pvAtom("mod", "")
		}
		if s := fmName(d.text); s != "" {
			return fmIn(s)
		}
		return pvAtom("unk", d.text)
	case d.op == "draw":
		k := d.text
		if k != "" {
			k = k[:1]
		}
		return fmDraw(k)
	case strings.HasPrefix(d.op, "decomp:") && len(args) == 1:
		return fmD(args[0])
	case strings.HasPrefix(d.op, "perm:") && len(args) == 1:
		return fmPerm(args[0])
	case d.op == "phi" && len(args) == 2:
		for i := 0; i < 2; i++ {
			if args[0] == args[1] {
				return args[0]
			}
			if x := fmSole(args[i]); x != nil && x.op == "D" && x.args[0] == args[1-i] {
				return args[i]
			}
		}
	case d.op == "ite" && len(args) == 2:
		if args[0] == args[1] {
			return args[0]
		}
		x, y := fmSole(args[0]), fmSole(args[1])
		if x != nil && y != nil && strings.HasPrefix(x.op, "row:") && y.op == "modup" && x.args[0] == y.args[0] {
			return pvNode("lift", "", x.args[0])
		}
	case d.op == "mu" && len(args) == 2:
		a, b := args[0], args[1]
		df := pvAdd(b, a, -1)
		if df != nil && len(df.ms) > 0 && !fmRowMix(df) {
			if rest := fmWithout(a, df); rest != nil {
				return pvAdd(rest, fmSum(df), 1)
			}
		}
	case d.op == "call":
		s := fmDeep(d, 6)
		if n.calls {
		} else if strings.Contains(d.text, "caleUp") || strings.Contains(s, "caleUp") {
			if r := fmRatio(s); r != "" {
				return fmScale(r)
			}
		}
		return pvAtom("called", s)
	case d.op == "halves":
		return pvNode("halves", "", args...)
	case d.op == "t" || d.op == "pow2" || d.op == "scalar" || d.op == "const" || d.op == "mod":
		return pvAtom(d.op, d.String())
	}
	return pvNode(d.op, d.text, args...)
}

// fmDeep spells an atom out completely.
func fmDeep(d *pvInfo, depth int) string {
	s := d.op + "(" + d.text
	for _, a := range d.args {
		s += "," + a.show(depth)
	}
	s += ")"
	for i := 0; i < depth; i++ {
		s = expandAtoms(s)
	}
	return s
}

// fmRatio: the quotient of scales a factor is computed from.
func fmRatio(s string) string {
	var up, dn []string
	for _, m := range fmScales.FindAllStringSubmatch(s, -1) {
		if m[2] == "1" {
			up = append(up, m[1])
		} else {
			dn = append(dn, m[1])
		}
	}
	if len(dn) == 1 && len(up) > 0 {
		return strings.Join(up, "*") + "/" + dn[0]
	}
	return ""
}

// fmWithout: a = rest + k·d or a = rest (nothing accumulated before the loop) for a rest with no monomial of d.
func fmWithout(a, d *PV) *PV {
	in := map[string]int64{}
	for _, m := range a.ms {
		in[m.key()] = m.c
	}
	all, none := true, true
	k := int64(0)
	for _, m := range d.ms {
		c, ok := in[m.key()]
		if !ok {
			all = false
			continue
		}
		none = false
		if c%m.c != 0 || k != 0 && c/m.c != k {
			all = false
		} else {
			k = c / m.c
		}
	}
	switch {
	case none:
		// the sum starts with what was there before
		for _, m := range a.ms {
			for _, f := range m.fs {
				if x := atomInfo(f.a); x != nil && (x.op == "mu" || x.op == "phi") {
					return nil
				}
			}
		}
		return a
	case all && k >= 1:
		return pvAdd(a, d, -k)
	}
	return nil
}

// fmAlts are the alternatives of a content that depends on the path taken; nil when there are too many.
func fmAlts(v *PV) []*PV {
	out := []*PV{v}
	for round := 0; round < 6; round++ {
		var next []*PV
		again := false
		for _, x := range out {
			i, j := fmFork(x)
			if i < 0 {
				next = append(next, x)
				continue
			}
			again = true
			d := atomInfo(x.ms[i].fs[j].a)
			for _, a := range d.args {
				next = append(next, fmSubst(x, x.ms[i].fs[j].a, a))
			}
		}
		out = next
		if !again {
			return out
		}
		if len(out) > 16 {
			return nil
		}
	}
	return nil
}

type fmCond struct {
	v     *PV
	taken map[string]int // conditions, and the alternative taken
	free  bool           // some choice has no known condition
}

// fmCases are the alternatives of a content, with each condition decided once; nil when there are too many.
func fmCases(v *PV, max int) []fmCond {
	var out []fmCond
	steps := 0
	var walk func(c fmCond) bool
	walk = func(c fmCond) bool {
		if steps++; steps > 20*max || c.v == nil {
			return false
		}
		i, j := fmFork(c.v)
		if i < 0 {
			out = append(out, c)
			return len(out) <= max
		}
		a := c.v.ms[i].fs[j].a
		d := atomInfo(a)
		key, inv := d.text, 0
		for strings.HasPrefix(key, "not(") && strings.HasSuffix(key, ")") && len(d.args) == 2 {
			key, inv = key[len("not("):len(key)-1], 1-inv
		}
		if k, ok := c.taken[key]; ok && d.op == "ite" && k < len(d.args) {
			return walk(fmCond{fmSubst(c.v, a, d.args[k^inv]), c.taken, c.free})
		}
		for k, x := range d.args {
			t := c.taken
			if d.op == "ite" {
				t = map[string]int{key: k ^ inv}
				for c, n := range c.taken {
					t[c] = n
				}
			}
			if !walk(fmCond{fmSubst(c.v, a, x), t, c.free || d.op != "ite"}) {
				return false
			}
		}
		return true
	}
	if !walk(fmCond{v: v}) {
		return nil
	}
	return out
}

// fmRows are the contents the rows of a polynomial can have: a copy of some rows, or a content chosen by the row index,
// leaves some rows with the one content and others with the other. nil: too many. The set is larger than the contents
// that occur, since choices made for different rows are combined freely.
func fmRows(v *PV) []*PV {
	// x − some(x) + some(y): the same rows are taken out and put in
	v0, v1, hit := v, v, false
	v.atoms(func(a string) {
		if d := atomInfo(a); d != nil && d.op == "some" && len(d.args) == 1 {
			v0, v1, hit = fmSubst(v0, a, pvInt(0)), fmSubst(v1, a, d.args[0]), true
		}
	})
	if hit {
		a, b := fmRows(v0), fmRows(v1)
		if a == nil || b == nil {
			return nil
		}
		return fmUnion(a, b)
	}
	out := []*PV{pvInt(0)}
	for _, m := range v.ms {
		t := []*PV{pvInt(m.c)}
		for _, f := range m.fs {
			c := []*PV{pvFactor(f.a, 1)}
			if d := atomInfo(f.a); d != nil && f.k > 0 {
				c = fmRowsAtom(d)
			} else if f.k < 0 {
				c = []*PV{pvFactor(f.a, f.k)}
			}
			if c == nil {
				return nil
			}
			for i := 0; i < f.k || i == 0; i++ {
				if t = fmCross(t, c, pvMul); t == nil {
					return nil
				}
			}
		}
		if out = fmCross(out, t, func(a, b *PV) *PV { return pvAdd(a, b, 1) }); out == nil {
			return nil
		}
	}
	return out
}

func fmUnion(sets ...[]*PV) []*PV {
	seen := map[*PV]bool{}
	var out []*PV
	for _, s := range sets {
		for _, x := range s {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	if len(out) > 256 {
		return nil
	}
	return out
}

func fmCross(a, b []*PV, op func(a, b *PV) *PV) []*PV {
	seen := map[*PV]bool{}
	var out []*PV
	for _, x := range a {
		for _, y := range b {
			z := op(x, y)
			if z == nil {
				return nil
			}
			if !seen[z] {
				seen[z] = true
				out = append(out, z)
			}
		}
	}
	if len(out) > 256 {
		return nil
	}
	return out
}

func fmRowsAtom(d *pvInfo) []*PV {
	if len(d.args) == 0 {
		return []*PV{pvNode(d.op, d.text)}
	}
	var sets [][]*PV
	for _, a := range d.args {
		s := fmRows(a)
		if s == nil {
			return nil
		}
		sets = append(sets, s)
	}
	switch {
	case d.op == "ite" && strings.Contains(d.text, "i#"), d.op == "mu", d.op == "phi":
		return fmUnion(sets...)
	case len(sets) == 1 && (d.op == "sum" || strings.HasPrefix(d.op, "perm")):
		return fmCross(sets[0], []*PV{pvInt(0)}, func(a, _ *PV) *PV { return pvLinear(d.op, a) })
	}
	out := [][]*PV{{}}
	for _, s := range sets {
		var next [][]*PV
		for _, p := range out {
			for _, x := range s {
				next = append(next, append(append([]*PV{}, p...), x))
			}
		}
		if len(next) > 256 {
			return nil
		}
		out = next
	}
	var r []*PV
	for _, as := range out {
		r = append(r, pvNode(d.op, d.text, as...))
	}
	return r
}

// fmRowMix: the content differs between rows.
func fmRowMix(v *PV) bool {
	mix := false
	v.atoms(func(a string) {
		if d := atomInfo(a); d != nil {
			if d.op == "some" || d.op == "ite" && strings.Contains(d.text, "i#") {
				mix = true
			}
			for _, x := range d.args {
				mix = mix || fmRowMix(x)
			}
		}
	})
	return mix
}

func fmFork(v *PV) (int, int) {
	for i, m := range v.ms {
		for j, f := range m.fs {
			if d := atomInfo(f.a); d != nil && f.k == 1 && (d.op == "phi" || d.op == "ite") {
				return i, j
			}
		}
	}
	return -1, -1
}

func fmSubst(v *PV, a string, by *PV) *PV {
	r := pvInt(0)
	for _, m := range v.ms {
		t := pvInt(m.c)
		for _, f := range m.fs {
			if f.a == a && f.k > 0 {
				for i := 0; i < f.k; i++ {
					t = pvMul(t, by)
				}
				continue
			}
			t = pvMul(t, pvFactor(f.a, f.k))
		}
		r = pvAdd(r, t, 1)
	}
	return r
}

// fmRename substitutes names of inputs.
func fmRename(v *PV, ren func(string) string) *PV {
	r := pvInt(0)
	for _, m := range v.ms {
		t := pvInt(m.c)
		for _, f := range m.fs {
			d := atomInfo(f.a)
			if d == nil || f.k < 0 {
				t = pvMul(t, pvFactor(f.a, f.k))
				continue
			}
			var x *PV
			if d.op == "in" {
				x = fmIn(ren(d.text))
			} else {
				args := make([]*PV, len(d.args))
				for i, y := range d.args {
					args[i] = fmRename(y, ren)
				}
				x = pvNode(d.op, d.text, args...)
			}
			for i := 0; i < f.k; i++ {
				t = pvMul(t, x)
			}
		}
		r = pvAdd(r, t, 1)
	}
	return r
}

var fmKnown = map[string]bool{"in": true, "draw": true, "D": true, "modup": true, "sum": true, "perm": true, "scale": true,
	"lift": true, "halves": true, "mod": true, "pow2": true, "scalar": true}

// fmDefinite: the content is made of known pieces only, so a difference from the documented formula is real.
func fmDefinite(v *PV) bool { return fmMadeOf(v, fmNamed) }

// fmNamed: a recognised operation. The value of a call and of a number built up in place is not known.
func fmNamed(d *pvInfo) bool {
	if d.op == "scalar" && strings.Contains(d.text, "new@") {
		return false
	}
	return fmKnown[d.op] || strings.HasPrefix(d.op, "row:")
}

// fmComparable: besides, the values of calls, which are the same when they are spelled the same.
func fmComparable(v *PV) bool {
	return fmMadeOf(v, func(d *pvInfo) bool { return d.op == "called" || d.op == "scalar" || fmNamed(d) })
}

func fmMadeOf(v *PV, known func(d *pvInfo) bool) bool {
	ok := true
	v.atoms(func(a string) {
		d := atomInfo(a)
		if d == nil {
			return
		}
		if !known(d) {
			ok = false
			return
		}
		for _, x := range d.args {
			if !fmMadeOf(x, known) {
				ok = false
			}
		}
	})
	return ok
}

// fmUnsum: on the rows it concerns, a sum over steps of which one writes the row is its term.
func fmUnsum(v *PV) *PV {
	return fmMap(v, func(d *pvInfo, args []*PV) *PV {
		if d.op == "sum" && len(args) == 1 {
			return args[0]
		}
		return nil
	})
}

// fmMap rebuilds v; f gives the replacement of an atom with rebuilt operands, or nil to keep it.
func fmMap(v *PV, f func(d *pvInfo, args []*PV) *PV) *PV {
	r := pvInt(0)
	for _, m := range v.ms {
		t := pvInt(m.c)
		for _, x := range m.fs {
			d := atomInfo(x.a)
			if d == nil || x.k < 0 {
				t = pvMul(t, pvFactor(x.a, x.k))
				continue
			}
			args := make([]*PV, len(d.args))
			for i, y := range d.args {
				args[i] = fmMap(y, f)
			}
			y := f(d, args)
			switch {
			case y != nil:
			case len(args) == 0:
				y = pvFactor(x.a, 1)
			case d.op == "perm" && len(args) == 1:
				y = pvLinear(d.op, args[0])
			default:
				y = pvNode(d.op, d.text, args...)
			}
			for i := 0; i < x.k; i++ {
				t = pvMul(t, y)
			}
		}
		r = pvAdd(r, t, 1)
	}
	return r
}

func fmShow(v *PV) string {
	var ps []string
	for _, m := range v.ms {
		var fs []string
		if m.c != 1 || len(m.fs) == 0 {
			fs = append(fs, strconv.FormatInt(m.c, 10))
		}
		for _, f := range m.fs {
			s := f.a
			if d := atomInfo(f.a); d != nil {
				switch d.op {
				case "in", "scale":
					s = d.text
				default:
					var as []string
					if d.text != "" {
						as = append(as, d.text)
					}
					for _, x := range d.args {
						as = append(as, fmShow(x))
					}
					s = d.op + "(" + strings.Join(as, ", ") + ")"
				}
			}
			if f.k != 1 {
				s += "^" + strconv.Itoa(f.k)
			}
			fs = append(fs, s)
		}
		ps = append(ps, strings.Join(fs, "·"))
	}
	if len(ps) == 0 {
		return "0"
	}
	return strings.Join(ps, " + ")
}

// ---- documented formulas

// fmCase is one result component of one run.
type fmCase struct {
	R    *DomRun
	p    *OutPoly
	base string   // operation without the New / NoMod / Lvl suffixes
	pkg  string   // package of the operation
	ops  []string // ciphertext and plaintext operands, in order
	deg  []int
	comp int  // component of the result, -1: not a ciphertext
	rows bool // every one of the stated contents occurs in some row
}

func (c *fmCase) op(k, i int) *PV {
	if i > c.deg[k] {
		return pvInt(0)
	}
	return fmIn(c.ops[k] + "[" + strconv.Itoa(i) + "]")
}

var fmLast = regexp.MustCompile(`\[(\d)\]$`)

func newCase(R *DomRun, p *OutPoly) *fmCase {
	f := R.cfg.fn
	c := &fmCase{R: R, p: p, pkg: f.Pkg.Pkg.Name(), comp: -1}
	c.base = strings.TrimSuffix(strings.TrimSuffix(strings.TrimSuffix(f.Name(), "New"), "NoMod"), "Lvl")
	if m := fmLast.FindStringSubmatch(p.Path); m != nil {
		c.comp, _ = strconv.Atoi(m[1])
	} else if strings.HasSuffix(p.Path, ".Value") {
		c.comp = 0
	}
	for i := range f.Params {
		n := paramName(f, i)
		d, ok := R.cfg.deg[n]
		if !ok || n == p.Root && strings.HasSuffix(n, "Out") {
			continue
		}
		c.ops = append(c.ops, n)
		c.deg = append(c.deg, d)
	}
	return c
}

// conv is component i of the product of two operands.
func (c *fmCase) conv(x, y, i int) *PV {
	r := pvInt(0)
	for j := 0; j <= i; j++ {
		if j <= c.deg[x] && i-j <= c.deg[y] {
			r = pvAdd(r, pvMul(c.op(x, j), c.op(y, i-j)), 1)
		}
	}
	return r
}

// ks is component k of the key switch of x.
func fmKs(key string, k int, x *PV) *PV {
	inner := func(b string) *PV {
		return fmSum(pvR(pvMul(fmD(x), fmIn(fmt.Sprintf("%s[%d].%s", key, k, b))), -1))
	}
	return fmSub(pvMul(fmIn("invP"), inner("Q")), pvMul(fmIn("invP"), fmUp(inner("P"))))
}

func fmSub(a, b *PV) *PV { return pvAdd(a, b, -1) }

// fks is component k of the key switch of x with a key over the third modulus.
func fmFks(key string, k int, x *PV) *PV {
	y := pvAdd(fmIn("halfTPolyT"), fmSum(pvR(pvMul(pvNode("lift", "", x), fmIn(key)), -1)), 1)
	q := fmSub(fmUp(y), fmIn("halfTPolyQP.Q"))
	p := fmSub(fmUp(y), fmIn("halfTPolyQP.P"))
	return fmSub(pvMul(fmIn("invP"), q), pvMul(fmIn("invP"), fmUp(p)))
}

// want is the documented content: one of the alternatives; nil when no formula is stated for it.
func (c *fmCase) want() []*PV {
	i := c.comp
	n := len(c.ops)
	switch c.pkg {
	case "ckks", "fckks":
		switch c.base {
		case "Add", "Sub":
			if n != 2 || i < 0 {
				return nil
			}
			s := int64(1)
			if c.base == "Sub" {
				s = -1
			}
			a, b := c.op(0, i), c.op(1, i)
			return []*PV{pvAdd(a, b, s),
				pvAdd(pvMul(a, fmScale(c.ops[1]+"/"+c.ops[0])), b, s),
				pvAdd(a, pvMul(b, fmScale(c.ops[0]+"/"+c.ops[1])), s)}
		case "Neg":
			if n == 1 && i >= 0 {
				return []*PV{fmNeg(c.op(0, i))}
			}
		case "Mul":
			if n == 2 && i >= 0 {
				return []*PV{c.conv(0, 1, i)}
			}
		case "MulRelin":
			if n == 2 && i >= 0 {
				r := c.conv(0, 1, i)
				if c.deg[0]+c.deg[1] < 2 {
					return []*PV{r}
				}
				if c.pkg == "fckks" {
					return []*PV{pvAdd(r, fmFks("rlk["+strconv.Itoa(i)+"]", i, c.conv(0, 1, 2)), 1)}
				}
				return []*PV{pvAdd(r, fmKs("rlk", i, c.conv(0, 1, 2)), 1)}
			}
		case "MulAndAdd", "MulRelinAndAdd":
			if n != 2 || i < 0 {
				return nil
			}
			r := c.conv(0, 1, i)
			if c.base == "MulRelinAndAdd" && c.deg[0]+c.deg[1] == 2 {
				if i == 2 {
					return nil
				}
				r = pvAdd(r, fmKs("rlk", i, c.conv(0, 1, 2)), 1)
			}
			if c.R.cfg.deg[c.p.Root] < i {
				return []*PV{r}
			}
			old := fmIn(c.p.Root + "[" + strconv.Itoa(i) + "]")
			f := fmScale(c.ops[0] + "*" + c.ops[1] + "/" + c.p.Root)
			f2 := fmScale(c.ops[1] + "*" + c.ops[0] + "/" + c.p.Root)
			return []*PV{pvAdd(old, r, 1), pvAdd(pvMul(old, f), r, 1), pvAdd(pvMul(old, f2), r, 1)}
		case "Relinearize":
			if n == 1 && c.deg[0] == 2 && i >= 0 {
				return []*PV{pvAdd(c.op(0, i), fmKs("rlk", i, c.op(0, 2)), 1)}
			}
		case "SwitchKeys":
			if n == 1 && c.deg[0] == 1 && i >= 0 && c.pkg == "fckks" {
				k := c.R.cfg.fn.Params[2].Name()
				r := fmFks(k+"["+strconv.Itoa(i)+"]", i, c.op(0, 1))
				if i == 0 {
					r = pvAdd(c.op(0, 0), r, 1)
				}
				return []*PV{r}
			}
			if n == 1 && c.deg[0] == 1 && i >= 0 && c.pkg == "ckks" {
				r := fmKs("switchingKey", i, c.op(0, 1))
				if i == 0 {
					r = pvAdd(c.op(0, 0), r, 1)
				}
				return []*PV{r}
			}
		case "Rotate", "Conjugate":
			if n == 1 && c.deg[0] == 1 && i >= 0 && i < 2 {
				var r *PV
				if c.pkg == "fckks" {
					r = fmFks("rtk["+strconv.Itoa(i)+"]", i, c.op(0, 1))
				} else {
					r = fmKs("rtks", i, c.op(0, 1))
				}
				if i == 0 {
					r = pvAdd(c.op(0, 0), r, 1)
				}
				l := []*PV{fmPerm(r)}
				if c.base == "Rotate" {
					l = append(l, c.op(0, i))
				}
				return l
			}
		case "PermuteNTTHoisted", "PermuteNTTHoistedNoModDown":
			return c.hoisted()
		case "MultByi", "DivByi":
			if n == 1 && i >= 0 {
				x := pvMul(fmIn("psi"), c.op(0, i))
				if c.base == "MultByi" {
					return []*PV{pvNode("halves", "", x, fmNeg(x))}
				}
				return []*PV{pvNode("halves", "", fmNeg(x), x)}
			}
		case "DropLevel", "Reduce", "Copy", "CopyNew":
			if n == 1 && i >= 0 {
				return []*PV{c.op(0, i)}
			}
		case "AddConst":
			if n == 1 && i > 0 {
				return []*PV{c.op(0, i)}
			}
		case "MulByPow2":
			if n == 1 && i >= 0 {
				return []*PV{pvMul(c.op(0, i), pvAtom("pow2", "*"))}
			}
		case "Decrypt":
			return c.decryption()
		case "Encrypt", "EncryptFromCRP":
			return c.encryption()
		}
	case "rlwe":
		return c.rlwe()
	case "frlwe":
		return c.frlwe()
	}
	return nil
}

var fmHoisted = regexp.MustCompile(`^c(?:t|Out)([01])(?:Out)?([QP]?)$`)

// hoisted: rotation from digits that are already decomposed.
func (c *fmCase) hoisted() []*PV {
	m := fmHoisted.FindStringSubmatch(c.p.Root)
	if m == nil {
		return nil
	}
	k, _ := strconv.Atoi(m[1])
	in := func(b string) *PV {
		return fmSum(pvR(pvMul(fmIn("c2DecompQP."+b), fmIn(fmt.Sprintf("rtks[%d].%s", k, b))), -1))
	}
	if c.base == "PermuteNTTHoisted" && m[2] == "" {
		r := fmSub(pvMul(fmIn("invP"), in("Q")), pvMul(fmIn("invP"), fmUp(in("P"))))
		if k == 0 {
			r = pvAdd(r, fmIn("c0"), 1)
		}
		return []*PV{fmPerm(r), fmIn("c" + m[1])}
	}
	if c.base == "PermuteNTTHoisted" || m[2] == "" {
		return nil
	}
	r := in(m[2])
	if k == 0 && m[2] == "Q" {
		r = pvAdd(r, pvMul(fmIn("c0"), fmModP()), 1)
	}
	return []*PV{fmPerm(r)}
}

// fmModP: the product of the auxiliary moduli.
func fmModP() *PV { return pvAtom("scalar", "scalar(§.ringP.ModulusBigint;)") }

// frlwe: key switching over the third modulus.
func (c *fmCase) frlwe() []*PV {
	f := c.R.cfg.fn
	if fname(f) == "(*frlwe.KeySwitcher).SwitchKey" {
		for i, p := range f.Params {
			if p.Name() == c.p.Root && i >= 2 && typeIs(deref(p.Type()), "ring.Poly") {
				return []*PV{fmFks(f.Params[i-2].Name(), 0, fmIn(f.Params[2].Name()))}
			}
		}
	}
	if !strings.Contains(c.p.Path, "].Value[*]") {
		return nil
	}
	// a key of the third modulus: the digits of the ordinary key, out of Montgomery
	// form, lifted block by block
	var in, out func(b string) *PV
	sk := func(b string) *PV { return fmIn("sk." + b) }
	switch f.Name() {
	case "GenRelinKey":
		in, out = func(b string) *PV { return pvR(pvMul(sk(b), sk(b)), -1) }, sk
	case "GenRotKey":
		in, out = sk, func(b string) *PV { return fmPerm(sk(b)) }
	default:
		return nil
	}
	block := func(x *PV) *PV { return pvR(fmUp(pvR(x, -1)), 1) }
	c.rows = true
	E, U := fmDraw("E"), fmDraw("U")
	if strings.HasPrefix(c.p.Path, "result.Value[1]") {
		return []*PV{block(U)}
	}
	one := func(b string) *PV { return pvAdd(pvR(E, 1), pvR(pvMul(U, out(b)), -1), -1) }
	return []*PV{block(one("P")), block(one("Q")), block(pvAdd(one("Q"), fmSum(pvMul(in("Q"), fmModP())), 1))}
}

// decryption: Σ c_i·s^i.
func (c *fmCase) decryption() []*PV {
	for k, n := range c.ops {
		if n == c.p.Root {
			continue
		}
		r := pvInt(0)
		s := pvInt(1)
		for j := 0; j <= c.deg[k]; j++ {
			r = pvAdd(r, pvMul(c.op(k, j), s), 1)
			s = pvMul(s, pvR(fmIn("sk.Q"), -1))
		}
		return []*PV{r}
	}
	return nil
}

// encryption: the formulas of all encryption algorithms; which one applies is decided by the dynamic type and the
// parameters, on every path to the result.
func (c *fmCase) encryption() []*PV {
	if c.comp != 0 && c.comp != 1 {
		return nil
	}
	E, U, T := fmDraw("E"), fmDraw("U"), fmDraw("T")
	var m *PV
	for _, p := range c.R.cfg.fn.Params[1:] {
		if t := typeName(deref(p.Type())); strings.HasSuffix(t, "Plaintext") {
			m = fmIn(p.Name() + "[0]")
		}
	}
	if m == nil {
		return nil
	}
	if c.comp == 1 {
		m = pvInt(0)
	}
	crp := c.base == "EncryptFromCRP"
	if crp {
		U = fmIn("crp")
	}
	k := strconv.Itoa(c.comp)
	var out []*PV
	if c.comp == 0 {
		out = append(out, fmSums(fmNeg(pvR(pvMul(U, fmIn("sk.Q")), -1)), E, m))
	} else {
		out = append(out, U)
	}
	if crp {
		return out
	}
	out = append(out, fmSums(pvMul(T, fmIn("pk["+k+"].Q")), E, m))
	in := func(b string) *PV { return pvAdd(E, pvMul(T, fmIn("pk["+k+"]."+b)), 1) }
	out = append(out, fmSums(fmSub(pvMul(fmIn("invP"), in("Q")), pvMul(fmIn("invP"), fmUp(in("P")))), m))
	return out
}

var fmBase = regexp.MustCompile(`\.(Q|P)$`)

func (c *fmCase) rlwe() []*PV {
	f := c.R.cfg.fn
	name := fname(f)
	b := ""
	if m := fmBase.FindStringSubmatch(c.p.Path); m != nil {
		b = m[1]
	}
	E, U, T := fmDraw("E"), fmDraw("U"), fmDraw("T")
	sole := func(x *PV) []*PV { return []*PV{x} }
	key := func(n string) func(string) *PV { return func(b string) *PV { return fmIn(n + "." + b) } }
	switch {
	case strings.Contains(name, "ecryptor"):
		return c.decryption()
	case strings.Contains(name, "ncryptor)"):
		return c.encryption()
	case strings.HasPrefix(name, "(*rlwe.keyGenerator)."):
		switch f.Name() {
		case "GenSecretKey", "GenSecretKeyWithDistrib", "GenSecretKeyWithHammingWeight":
			return sole(pvR(T, 1))
		case "GenSecretKeyGaussian":
			return sole(pvR(E, 1))
		case "GenPublicKey":
			if strings.HasSuffix(c.p.Path, "[1]."+b) {
				return sole(U)
			}
			return sole(pvAdd(E, pvR(pvMul(U, fmIn("sk."+b)), -1), -1))
		case "GenKeyPair":
			switch {
			case c.p.Kind == "sk":
				return sole(pvR(T, 1))
			case strings.HasSuffix(c.p.Path, "[1]."+b):
				return sole(U)
			}
			return sole(pvAdd(E, pvMul(U, T), -1))
		case "GenSwitchingKey":
			return c.swk(b, key("skInput"), key("skOutput"))
		case "GenRelinearizationKey":
			return c.swk(b, func(b string) *PV { return pvR(pvMul(fmIn("sk."+b), fmIn("sk."+b)), -1) }, key("sk"))
		case "GenRotationKeys", "GenRotationKeysForRotations", "GenRotationKeysForInnerSum",
			"GenSwitchingKeyForGalois", "GenSwitchingKeyForRotationBy", "GenSwitchingKeyForRowRotation":
			return c.swk(b, key("sk"), func(b string) *PV { return fmPerm(fmIn("sk." + b)) })
		}
	case strings.HasPrefix(name, "(*rlwe.KeySwitcher)."):
		k := -1
		pre := strings.TrimSuffix(strings.TrimSuffix(strings.TrimSuffix(c.p.Path, ".Coeffs"), "Q"), "P")
		switch pre {
		case "c0", "p0":
			k = 0
		case "c1", "p1":
			k = 1
		}
		q := strings.TrimPrefix(c.p.Path, pre)
		switch f.Name() {
		case "SwitchKeysInPlace":
			if k >= 0 {
				return sole(fmKs("evakey", k, fmIn("cx")))
			}
		case "SwitchKeysInPlaceNoModDown":
			if k >= 0 && q != "" {
				return sole(fmSum(pvR(pvMul(fmD(fmIn("cx")), fmIn(fmt.Sprintf("evakey[%d].%s", k, q))), -1)))
			}
		case "KeyswitchHoisted", "KeyswitchHoistedNoModDown":
			in := func(b string) *PV {
				return fmSum(pvR(pvMul(fmIn("PoolDecompQP."+b), fmIn(fmt.Sprintf("evakey[%d].%s", k, b))), -1))
			}
			if k >= 0 && q == "Q" && f.Name() == "KeyswitchHoisted" {
				return sole(fmSub(pvMul(fmIn("invP"), in("Q")), pvMul(fmIn("invP"), fmUp(in("P")))))
			}
			if k >= 0 && q != "" {
				return sole(in(q))
			}
		}
	case strings.HasPrefix(name, "(*rlwe.RingQP)."):
		return fmRing(f, c.p.Root, "."+b)
	case f.Name() == "Copy" || f.Name() == "CopyNew" || f.Name() == "CopyValues":
		return nil
	}
	return nil
}

// fmSwkWant: digit i of a switching key is (E·R − U·s', U), plus the part of the input key in its own rows.
func (c *fmCase) swk(b string, in, out func(b string) *PV) []*PV {
	E, U := fmDraw("E"), fmDraw("U")
	if strings.HasSuffix(c.p.Path, "[1]."+b) {
		return []*PV{U}
	}
	r := pvAdd(pvR(E, 1), pvR(pvMul(U, out(b)), -1), -1)
	if b == "Q" {
		c.rows = true
		return []*PV{r, pvAdd(r, fmSum(pvMul(in(b), fmModP())), 1)}
	}
	return []*PV{r}
}

// fmRing: operations of the rings, by name.
func fmRing(f *ssa.Function, root, suf string) []*PV {
	var in []string // polynomial operands
	for i, p := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			continue
		}
		if t := deref(p.Type()); isPolyT(t) || typeIs(t, "rlwe.PolyQP") {
			in = append(in, paramName(f, i))
		}
	}
	n := f.Name()
	for _, s := range []string{"New", "Lvl", "Lazy", "NoMod", "Constant"} {
		n = strings.TrimSuffix(n, s)
	}
	for _, s := range []string{"Constant", "NoMod"} {
		n = strings.TrimSuffix(n, s)
	}
	n = strings.ReplaceAll(strings.ReplaceAll(n, "Constant", ""), "NoMod", "")
	if len(in) == 0 {
		return nil
	}
	v := func(i int) *PV {
		if i >= len(in) {
			return nil
		}
		return fmIn(in[i] + suf)
	}
	if len(in) > 1 && root != "result" && root != in[len(in)-1] {
		return nil
	}
	sole := func(x *PV) []*PV {
		if x == nil {
			return nil
		}
		return []*PV{x}
	}
	two := len(in) == 3 || len(in) == 2 && root == "result"
	one := len(in) == 2 || len(in) == 1 && root == "result"
	switch n {
	case "Add":
		if two {
			return sole(pvAdd(v(0), v(1), 1))
		}
	case "Sub":
		if two {
			return sole(pvAdd(v(0), v(1), -1))
		}
	case "Neg":
		if one {
			return sole(fmNeg(v(0)))
		}
	case "Reduce", "ReduceConstant", "Mod", "NTT", "InvNTT", "BitReverse", "CopyValues", "Copy":
		if one {
			return sole(v(0))
		}
	case "MForm":
		if one {
			return sole(pvR(v(0), 1))
		}
	case "InvMForm":
		if one {
			return sole(pvR(v(0), -1))
		}
	case "MulCoeffs", "MulCoeffsMontgomery", "MulCoeffsMontgomeryAndNeg", "MulCoeffsMontgomeryAndAdd", "MulCoeffsMontgomeryAndSub", "MulCoeffsAndAdd", "MulCoeffsAndSub":
		if !two || v(1) == nil {
			return nil
		}
		x := pvMul(v(0), v(1))
		if strings.Contains(n, "Montgomery") {
			x = pvR(x, -1)
		}
		switch {
		case strings.HasSuffix(n, "AndNeg"):
			x = fmNeg(x)
		case strings.HasSuffix(n, "AndAdd"):
			x = pvAdd(v(2), x, 1)
		case strings.HasSuffix(n, "AndSub"):
			x = pvAdd(v(2), x, -1)
		}
		return sole(x)
	case "MulByPow2":
		if one {
			return sole(pvMul(v(0), pvAtom("pow2", "*")))
		}
	case "AddScalar":
		if one {
			return sole(pvAdd(v(0), pvAtom("t", "t(scalar)"), 1))
		}
	case "SubScalar":
		if one {
			return sole(pvAdd(v(0), pvAtom("t", "t(scalar)"), -1))
		}
	case "MulScalar":
		if one {
			return sole(pvMul(v(0), pvAtom("t", "t(scalar)")))
		}
	case "PermuteNTTWithIndex":
		if one {
			return sole(fmPerm(v(0)))
		}
	}
	return nil
}

// fmAnyPow2 hides which power of two is meant.
func fmBlur(v *PV) *PV {
	r := pvInt(0)
	for _, m := range v.ms {
		t := pvInt(m.c)
		for _, f := range m.fs {
			if d := atomInfo(f.a); d != nil && d.op == "pow2" {
				t = pvMul(t, pvAtom("pow2", "*"))
				continue
			}
			t = pvMul(t, pvFactor(f.a, f.k))
		}
		r = pvAdd(r, t, 1)
	}
	return r
}

// uniform scalar operations: component i is the same expression of component i of the operand as component 0 of 0.
var fmUniform = map[string]bool{"MultByConst": true, "MultByGaussianInteger": true, "ScaleUp": true, "SetScale": true, "Rescale": true,
	"MulByPow2": true, "MultByConstAndAdd": true, "MultByGaussianIntegerAndAdd": true}

func checkP20(P *Prog, r *Report) {
	r.Rule = "for every configuration of distinct operands, the symbolic content of each result component (a polynomial over operand components, keys, draws, digit decompositions, modulus switches and permutations) equals the documented formula of the operation"
	n, nc := &fmNorm{memo: map[*PV]*PV{}}, &fmNorm{memo: map[*PV]*PV{}, calls: true}
	seen := map[string]bool{}
	judgeRows := func(f *domFinder, p *OutPoly, v *PV, want []*PV, every bool) {
		rows := fmRows(v)
		if os.Getenv("FM") != "" {
			fmt.Fprintln(os.Stderr, "ROWS", f.fn, p.Path, len(rows))
			for _, x := range rows {
				fmt.Fprintln(os.Stderr, "  ROW", fmShow(x))
			}
		}
		if rows == nil {
			r.count("contents not judged (too many cases)", 1)
			return
		}
		definite := true
		has := map[*PV]bool{}
		for _, x := range rows {
			has[fmUnsum(x)] = true
			definite = definite && fmDefinite(x)
		}
		var miss *PV
		n := 0
		for _, w := range want {
			if has[fmUnsum(w)] {
				n++
			} else if miss == nil {
				miss = w
			}
		}
		switch {
		case n == len(want) || n > 0 && !every:
			r.count("contents equal to the formula on the rows an operation writes", 1)
			r.ok(1)
			seen[f.fn] = true
		case !definite || !fmCovers(want):
			r.count("contents not judged (unrecognised operations)", 1)
			if os.Getenv("FM") != "" {
				fmt.Fprintln(os.Stderr, "UN", f.fn, p.Path, cut(fmShow(v), 600))
			}
		default:
			f.bad("formula", p.Path, "no row of %s can be %s; the rows are %s", p.Path, cut(fmShow(miss), 400), cut(fmShow(rows[0]), 400))
		}
	}
	judge := func(f *domFinder, p *OutPoly, want []*PV, every bool) {
		r.count("results with a documented formula", 1)
		if os.Getenv("FM") != "" {
			fmt.Fprintln(os.Stderr, "FM", f.fn, p.Path, p.A.vn != nil)
		}
		if p.A.vn == nil {
			r.count("contents not judged (no normal form)", 1)
			return
		}
		v := n.val(p.A.vn)
		if fmRowMix(v) {
			judgeRows(f, p, v, want, every)
			return
		}
		alts := fmAlts(v)
		if alts == nil {
			r.count("contents not judged (too many cases)", 1)
			return
		}
		for _, a := range alts {
			a = fmBlur(a)
			found := false
			for _, w := range want {
				if a == w {
					found = true
				}
			}
			switch {
			case found:
				r.count("contents equal to the formula", 1)
				r.ok(1)
				seen[f.fn] = true
			case !fmDefinite(a) || !fmCovers(want):
				r.count("contents not judged (unrecognised operations)", 1)
				if os.Getenv("FM") != "" {
					fmt.Fprintln(os.Stderr, "UN", f.fn, p.Path, cut(fmShow(a), 300))
				}
			default:
				var ws []string
				for _, w := range want {
					ws = append(ws, fmShow(w))
				}
				f.bad("formula", p.Path, "%s is %s on some path instead of %s", p.Path, cut(fmShow(a), 400), cut(strings.Join(ws, "  or  "), 600))
			}
		}
	}
	checkDom(P, r, "P20", func(f *domFinder, ps []*OutPoly, _ []*OutObj) {
		if len(f.R.cfg.same) > 0 {
			return
		}
		var first *OutPoly
		for _, p := range ps {
			if p.Root == "recv" && !f.R.D.recvIsOperand() {
				continue
			}
			c := newCase(f.R, p)
			if w := c.want(); w != nil {
				judge(f, p, w, c.rows)
			}
			if c.pkg == "ckks" && fmConsts[c.base] && c.comp >= 0 && (c.comp == 0 || c.base != "AddConst") {
				if p.A.vn == nil {
					r.count("constants not judged", 1)
				} else {
					c.gauss(f, nc, nc.val(p.A.vn))
				}
			}
			if (c.pkg == "ckks" || c.pkg == "fckks") && fmUniform[c.base] && c.comp >= 0 {
				if c.comp == 0 {
					first = p
					if os.Getenv("FMN") != "" && p.A.vn != nil {
						fmt.Fprintln(os.Stderr, "FMN", f.fn, p.Path, fmShow(n.val(p.A.vn)))
					}
					continue
				}
				if first == nil || first.A.vn == nil || p.A.vn == nil {
					r.count("components not compared (no normal form)", 1)
					continue
				}
				r.count("components compared with component 0", 1)
				r.ok(1)
				x, y := n.val(first.A.vn), n.val(p.A.vn)
				k := "[" + strconv.Itoa(c.comp) + "]"
				x = fmRename(x, func(s string) string {
					if strings.HasSuffix(s, "[0]") {
						return strings.TrimSuffix(s, "[0]") + k
					}
					return s
				})
				if x != y && fmComparable(x) && fmComparable(y) {
					f.bad("component", p.Path, "%s is %s, while component 0 is %s", p.Path, fmShow(y), fmShow(n.val(first.A.vn)))
				}
			}
		}
	})
	ringResults(P, r, "P20", func(f *domFinder, p *OutPoly) {
		rv := f.R.cfg.fn.Signature.Recv()
		if rv == nil || !typeIs(deref(rv.Type()), "ring.Ring") || len(f.R.cfg.same) > 0 {
			return
		}
		if w := fmRing(f.R.cfg.fn, p.Root, ""); w != nil && !strings.HasPrefix(f.R.cfg.fn.Name(), "Permute") {
			judge(f, p, w, false)
		}
	})
	r.count("operations with a result equal to its formula", len(seen))
	r.atLeast("contents equal to the formula", 400)
	r.atLeast("constants judged", 40)
	r.atLeast("operations with a result equal to its formula", 80)
}

var fmConsts = map[string]bool{"AddConst": true, "MultByConst": true, "MultByConstAndAdd": true, "MultByGaussianInteger": true, "MultByGaussianIntegerAndAdd": true}

// fmGauss judges the number a component is multiplied by, or that is added to it: a + b·i is a + b·psi in the first half
// of the values and a - b·psi in the second, a the real and b the imaginary part of the constant.
func (c *fmCase) gauss(f *domFinder, n *fmNorm, v *PV) {
	r := f.r
	// the parts, by the parameters they come from
	fn := c.R.cfg.fn
	var ps []string
	for i, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Interface); ok && (i > 0 || fn.Signature.Recv() == nil) && strings.HasSuffix(p.Type().String(), "{}") {
			ps = append(ps, paramName(fn, i))
		}
	}
	if len(ps) < 1 || len(ps) > 2 || len(c.ops) != 1 {
		return
	}
	part := func(s string) int { // 1: real, 2: imaginary
		n := 0
		s = firstArg(s)
		word := func(w string) bool { return regexp.MustCompile(`(^|\W)` + w + `(\W|$)`).MatchString(s) }
		if len(ps) == 2 {
			if word(ps[0]) {
				n |= 1
			}
			if word(ps[1]) {
				n |= 2
			}
			return n
		}
		if strings.Contains(s, "imag("+ps[0]) {
			n |= 2
		}
		if strings.Contains(s, "real("+ps[0]) {
			n |= 1
		}
		return n
	}
	var parts func(v *PV) int
	parts = func(v *PV) int {
		m := 0
		v.atoms(func(a string) {
			if d := atomInfo(a); d != nil {
				if d.op == "called" {
					m |= part(d.text)
				}
				for _, x := range d.args {
					m |= parts(x)
				}
			}
		})
		return m
	}
	without := func(v *PV, zero int) *PV {
		r := pvInt(0)
		for _, m := range v.ms {
			t := pvInt(m.c)
			for _, g := range m.fs {
				t = pvMul(t, pvFactor(g.a, g.k))
			}
			if parts(t)&zero == 0 {
				r = pvAdd(r, t, 1)
			}
		}
		return r
	}
	x := fmSole(v)
	if x == nil || x.op != "halves" || len(x.args) != 2 {
		r.count("constants not judged", 1)
		return
	}
	ct := c.op(0, c.comp)
	cf := fmSole(ct)
	if cf == nil {
		return
	}
	cta := ct.ms[0].fs[0].a
	psi := fmIn("psi").ms[0].fs[0].a
	type num struct{ a, b *PV }
	type both struct {
		h [2]num
		c fmCond
	}
	var h [2]map[num]bool
	var pairs []both
	known, odd := true, ""
	joint := pvInt(0)
	side := [2]*PV{pvAtom("half", "0"), pvAtom("half", "1")}
	for k := range h {
		h[k] = map[num]bool{}
		y := x.args[k]
		if strings.HasSuffix(c.base, "AndAdd") { // without the receiver
			y = pvInt(0)
			for _, m := range x.args[k].ms {
				for _, g := range m.fs {
					if g.a == cta {
						t := pvInt(m.c)
						for _, g := range m.fs {
							t = pvMul(t, pvFactor(g.a, g.k))
						}
						y = pvAdd(y, t, 1)
						break
					}
				}
			}
		}
		if y = pvMul(y, side[k]); y != nil && joint != nil {
			joint = pvAdd(joint, y, 1)
		} else {
			joint = nil
		}
	}
	var alts []fmCond
	if joint != nil {
		alts = fmCases(joint, 256)
	}
	if alts == nil {
		r.count("constants not judged", 1)
		return
	}
	for _, y := range alts {
		bo := both{c: y}
		for k := range bo.h {
			bo.h[k] = num{pvInt(0), pvInt(0)}
		}
		for _, m := range y.v.ms {
			has, roots, k := 0, 0, -1
			t := pvInt(m.c)
			for _, g := range m.fs {
				d := atomInfo(g.a)
				switch {
				case g.a == side[0].ms[0].fs[0].a:
					k = 0
				case g.a == side[1].ms[0].fs[0].a:
					k = 1
				case g.a == cta:
					has = g.k
				case g.a == psi:
					roots = g.k
				case g.a == "R":
					t = pvMul(t, pvFactor(g.a, g.k))
				case d == nil:
					known = false
				case d.op == "called":
					if call := part(d.text); call == 3 || call == 0 {
						known = false
					}
					switch strings.Count(firstArg(d.text), "f-") {
					case 0:
					case 1: // the number is negated first
						t = fmNeg(t)
					default:
						known = false
					}
					t = pvMul(t, pvFactor(g.a, g.k))
				case d.op == "in" && strings.HasPrefix(d.text, "NttPsi"):
					odd = d.text
				default:
					known = false
				}
			}
			if k < 0 {
				known = false
				break
			}
			if strings.HasPrefix(c.base, "Add") {
				if has == 1 && len(m.fs) == 2 && m.c == 1 {
					continue
				}
				if has != 0 {
					known = false
				}
			} else if has != 1 {
				known = false
			}
			switch {
			case roots == 0:
				bo.h[k].a = pvAdd(bo.h[k].a, t, 1)
			case roots == 1:
				bo.h[k].b = pvAdd(bo.h[k].b, t, 1)
			default:
				known = false
			}
		}
		for k := range h {
			h[k][bo.h[k]] = true
		}
		pairs = append(pairs, bo)
	}
	if odd != "" && known {
		f.bad("constant-root", c.p.Path, "the imaginary part of the constant is multiplied by %s and not by the root of unity that stands for i", odd)
		return
	}
	if !known {
		r.count("constants not judged", 1)
		if os.Getenv("FMN") != "" {
			fmt.Fprintln(os.Stderr, "UNC", f.fn, c.p.Path, cut(fmShow(v), 800))
		}
		return
	}
	r.ok(1)
	r.count("constants judged", 1)
	is := func(v *PV, sign int64, want int) bool {
		if len(v.ms) != 1 || len(v.ms[0].fs) != 1 || v.ms[0].fs[0].k != 1 {
			return false
		}
		d := atomInfo(v.ms[0].fs[0].a)
		return d != nil && d.op == "called" && part(d.text) == want && v.ms[0].c == sign
	}
	var up *num
	for n := range h[0] {
		if n := n; is(n.a, 1, 1) && is(n.b, 1, 2) {
			up = &n
		}
	}
	if up == nil {
		f.bad("constant", c.p.Path, "the first half of %s never gets real + imaginary·psi; it is %s", c.p.Path, cut(fmShow(x.args[0]), 500))
		return
	}
	if !h[1][num{up.a, fmNeg(up.b)}] {
		f.bad("constant", c.p.Path, "the second half of %s never gets real - imaginary·psi; it is %s", c.p.Path, cut(fmShow(x.args[1]), 500))
		return
	}
	for k := range h {
		for n := range h[k] {
			bad := len(n.b.ms) > 0 && !is(n.b, 1, 2) && !is(n.b, -1, 2) || k == 0 && is(n.b, -1, 2)
			if bad {
				f.bad("constant", c.p.Path, "in half %d of %s the root of unity multiplies %s", k, c.p.Path, cut(fmShow(n.b), 300))
				return
			}
		}
	}
	for _, p := range pairs {
		if p.c.free {
			r.count("constants with choices of unknown condition", 1)
			continue
		}
		tests, zero, mixed := 0, 0, false
		for t, k := range p.c.taken {
			m := 0
			switch {
			case strings.HasPrefix(t, "zeroi:"):
				for i, n := range ps {
					if t == "zeroi:"+n && len(ps) == 2 {
						m = 1 << i
					}
				}
			case strings.HasPrefix(t, "zero:"):
				if v, ok := zeroPV.Load(t); ok {
					m = parts(n.val(v.(*PV)))
				}
			default:
				if strings.Contains(t, "real(") {
					m |= 1
				}
				if strings.Contains(t, "imag(") {
					m |= 2
				}
				if !strings.HasPrefix(t, "feq(f0,") {
					k = 1
				}
			}
			switch {
			case m == 3 && k == 0:
				mixed = true
			case m != 3:
				tests |= m
				if k == 0 {
					zero |= m
				}
			}
		}
		if mixed { // the sum of both parts is zero
			r.count("constants with choices of unknown condition", 1)
			continue
		}
		if zero != 0 { // the part is zero there
			for k := range p.h {
				p.h[k] = num{without(p.h[k].a, zero), without(p.h[k].b, zero)}
			}
		}
		what := ""
		switch {
		case p.h[0].a != p.h[1].a:
			what = "the two halves have different real parts"
		case p.h[0].b != fmNeg(p.h[1].b):
			what = "the imaginary parts of the two halves are not opposite"
		case len(p.h[0].a.ms) == 0 && tests&1 == 0:
			what = "the real part is left out"
		case len(p.h[0].b.ms) == 0 && tests&2 == 0:
			what = "the imaginary part is left out"
		default:
			continue
		}
		var cs []string
		for t, k := range p.c.taken {
			cs = append(cs, cut(t, 120)+map[int]string{0: " holds", 1: " does not hold"}[k])
		}
		sort.Strings(cs)
		f.bad("constant", c.p.Path, "%s in %s where %s: %s + (%s)·psi and %s + (%s)·psi", what, c.p.Path, strings.Join(cs, ", "),
			cut(fmShow(p.h[0].a), 200), cut(fmShow(p.h[0].b), 200), cut(fmShow(p.h[1].a), 200), cut(fmShow(p.h[1].b), 200))
		return
	}
}

// firstArg: call(name,x,...) is x.
func firstArg(s string) string {
	i := strings.Index(s, ",")
	if i < 0 {
		return s
	}
	s = s[i+1:]
	d := 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				return s[:i]
			}
		}
	}
	return s
}

// fmCovers: the formula itself has a meaning for this configuration.
func fmCovers(want []*PV) bool {
	for _, w := range want {
		if w == nil {
			return false
		}
	}
	return len(want) > 0
}
