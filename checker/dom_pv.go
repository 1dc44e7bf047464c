package main

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Value numbers: the content of a polynomial (or of a coefficient) as a polynomial expression over opaque atoms:
// the operands' initial contents, draws, constants and the results of operations that are not ring arithmetic.
// Transforms between the domains and reductions do not change the number; Montgomery factors are powers of the
// atom R. Numbers are interned, so equal expressions have the same pointer.

type pvFac struct {
	a string // atom
	k int
}

type pvMono struct {
	c  int64
	fs []pvFac
}

type PV struct {
	id string
	ms []pvMono
}

var (
	pvTab   sync.Map // canonical text -> *PV
	pvNames sync.Map // atom -> *pvInfo
)

const pvMax = 24

func (m pvMono) key() string {
	var sb strings.Builder
	for _, f := range m.fs {
		sb.WriteString(f.a)
		if f.k != 1 {
			sb.WriteString("^" + strconv.Itoa(f.k))
		}
		sb.WriteByte('.')
	}
	return sb.String()
}

func pvMake(ms []pvMono) *PV {
	by := map[string]*pvMono{}
	var ks []string
	for i := range ms {
		k := ms[i].key()
		if m := by[k]; m != nil {
			m.c += ms[i].c
			continue
		}
		x := ms[i]
		by[k] = &x
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	var out []pvMono
	for _, k := range ks {
		m := by[k]
		if m.c == 0 {
			continue
		}
		out = append(out, *m)
		sb.WriteString(strconv.FormatInt(m.c, 10) + "*" + k + "+")
	}
	t := sb.String()
	if len(out) > pvMax {
		return pvAtom("large", t)
	}
	if v, ok := pvTab.Load(t); ok {
		return v.(*PV)
	}
	v, _ := pvTab.LoadOrStore(t, &PV{id: "v" + hash36(t), ms: out})
	return v.(*PV)
}

func hash36(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return strconv.FormatUint(h.Sum64(), 36)
}

// pvInfo is what an atom stands for.
type pvInfo struct {
	op, text string
	args     []*PV
}

func (n *pvInfo) String() string {
	d := n.text
	for _, a := range n.args {
		if d != "" {
			d += ","
		}
		d += a.String()
	}
	return n.op + "(" + d + ")"
}

// pvNode is the opaque value op(text, args...).
func pvNode(op, text string, args ...*PV) *PV {
	for _, x := range args {
		if x == nil {
			return nil
		}
	}
	n := &pvInfo{op, text, args}
	a := op + "#" + hash36(n.String())
	pvNames.LoadOrStore(a, n)
	return pvMake([]pvMono{{1, []pvFac{{a, 1}}}})
}

func pvAtom(op, desc string) *PV { return pvNode(op, desc) }

// info of an atom (nil: R, N).
func atomInfo(a string) *pvInfo {
	if d, ok := pvNames.Load(a); ok {
		return d.(*pvInfo)
	}
	return nil
}

func vnOf(s string) *PV {
	i := strings.IndexByte(s, '(')
	j := strings.IndexByte(s, ':')
	if j > 0 && (i < 0 || j < i) {
		i = j
	}
	if i <= 0 {
		return pvAtom("v", s)
	}
	return pvAtom(s[:i], s[i+1:])
}

func vnS(v *PV) string {
	if v == nil {
		return "?"
	}
	return v.id
}

func pvInt(c int64) *PV {
	if c == 0 {
		return pvMake(nil)
	}
	return pvMake([]pvMono{{c, nil}})
}

func pvAdd(a, b *PV, sign int64) *PV {
	if a == nil || b == nil {
		return nil
	}
	ms := append([]pvMono{}, a.ms...)
	for _, m := range b.ms {
		ms = append(ms, pvMono{m.c * sign, m.fs})
	}
	return pvMake(ms)
}

func mulFacs(x, y []pvFac) []pvFac {
	m := map[string]int{}
	for _, f := range x {
		m[f.a] += f.k
	}
	for _, f := range y {
		m[f.a] += f.k
	}
	var out []pvFac
	for a, k := range m {
		if k != 0 {
			out = append(out, pvFac{a, k})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].a < out[j].a })
	return out
}

func pvMul(a, b *PV) *PV {
	if a == nil || b == nil {
		return nil
	}
	if len(a.ms)*len(b.ms) > 4*pvMax {
		if a.id > b.id {
			a, b = b, a
		}
		return pvNode("prod", "", a, b)
	}
	var ms []pvMono
	for _, x := range a.ms {
		for _, y := range b.ms {
			ms = append(ms, pvMono{x.c * y.c, mulFacs(x.fs, y.fs)})
		}
	}
	return pvMake(ms)
}

// pvR multiplies by a power of the Montgomery factor.
func pvR(a *PV, k int) *PV {
	if a == nil {
		return nil
	}
	return pvMul(a, pvFactor("R", k))
}

// pvFactor is a power of a scalar: R, the Montgomery factor, or N, the ring degree.
func pvFactor(a string, k int) *PV {
	return pvMake([]pvMono{{1, []pvFac{{a, k}}}})
}

// pvLinear applies an opaque linear map.
func pvLinear(op string, a *PV) *PV {
	if a == nil {
		return nil
	}
	r := pvInt(0)
	for _, m := range a.ms {
		t := pvInt(m.c)
		var rest []pvFac
		for _, f := range m.fs {
			if f.a == "R" || f.a == "N" {
				t = pvMul(t, pvFactor(f.a, f.k))
			} else {
				rest = append(rest, f)
			}
		}
		x := pvMake([]pvMono{{1, rest}})
		r = pvAdd(r, pvMul(t, pvNode(op, "", x)), 1)
	}
	return r
}

func (v *PV) String() string {
	if v == nil {
		return "?"
	}
	if len(v.ms) == 0 {
		return "0"
	}
	var ps []string
	for _, m := range v.ms {
		var fs []string
		if m.c != 1 || len(m.fs) == 0 {
			fs = append(fs, strconv.FormatInt(m.c, 10))
		}
		for _, f := range m.fs {
			if f.k != 1 {
				fs = append(fs, fmt.Sprintf("%s^%d", f.a, f.k))
			} else {
				fs = append(fs, f.a)
			}
		}
		ps = append(ps, strings.Join(fs, "*"))
	}
	return strings.Join(ps, " + ")
}

// show spells the atoms out.
func (v *PV) show(depth int) string {
	if v == nil {
		return "?"
	}
	s := v.String()
	for _, m := range v.ms {
		for _, f := range m.fs {
			if d := atomInfo(f.a); d != nil {
				n := d.String()
				for i := 0; i < depth; i++ {
					n = expandAtoms(n)
				}
				s = strings.ReplaceAll(s, f.a, n)
			}
		}
	}
	return s
}

func expandAtoms(s string) string {
	fs := strings.FieldsFunc(s, func(r rune) bool {
		return strings.ContainsRune("(), *+^", r)
	})
	for _, f := range fs {
		if strings.Contains(f, "#") {
			if d := atomInfo(f); d != nil {
				s = strings.ReplaceAll(s, f, d.String())
			}
		}
	}
	return s
}

// atoms calls f for every atom of the expression.
func (v *PV) atoms(f func(a string)) {
	for _, m := range v.ms {
		for _, x := range m.fs {
			f(x.a)
		}
	}
}

// ---- joins

func joinVN(a, b *PV, cond *Term, name string) *PV {
	if a == b {
		return a
	}
	if a == nil || b == nil {
		return nil
	}
	if cond != nil {
		if at, ok := soleAtom(cond); ok && at.op == "not" {
			cond = at.args[0]
			a, b = b, a
		}
		return pvNode("ite", normKey(cond.key), a, b)
	}
	if strings.HasPrefix(name, "L") {
		if isMu(a) {
			return a
		}
		return pvNode("mu", "", a, b)
	}
	if name == "" {
		return nil
	}
	if a.id > b.id {
		a, b = b, a
	}
	return pvNode("phi", "", a, b)
}

// isMu: the value of a cell a loop keeps changing.
func isMu(v *PV) bool {
	return v != nil && len(v.ms) == 1 && v.ms[0].c == 1 && len(v.ms[0].fs) == 1 && v.ms[0].fs[0].k == 1 && strings.HasPrefix(v.ms[0].fs[0].a, "mu#")
}
