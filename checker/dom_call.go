package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func isU64Slice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

var kernCache sync.Map

// isKernel: a loop over residues of one or more rows: only rows and scalars as parameters, no result, and no
// calls but scalar functions.
func isKernel(f *ssa.Function) bool {
	if r, ok := kernCache.Load(f); ok {
		return r.(bool)
	}
	r := kernelShape(f)
	kernCache.Store(f, r)
	return r
}

func kernelShape(f *ssa.Function) bool {
	if !inRepo(f) || len(f.Blocks) == 0 || f.Signature.Recv() != nil || f.Signature.Results().Len() != 0 || f.Parent() != nil {
		return false
	}
	rows := 0
	for _, p := range f.Params {
		switch {
		case isU64Slice(p.Type()):
			rows++
		case isInteger(p.Type()):
		default:
			return false
		}
	}
	if rows == 0 {
		return false
	}
	loop := false
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				loop = true
			}
		}
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, ok := c.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Signature.Results().Len() == 0 {
					return false
				}
			}
		}
	}
	return loop
}

func (D *Dom) readSlc(I *Interp, fr *Frame, st *State, v Val) *CA {
	s, ok := v.(*Slc)
	if !ok || len(s.ts) == 0 {
		return caUnknown()
	}
	var r *CA
	for _, t := range s.ts {
		if t.o.kind == OGlobal {
			return caUnknown()
		}
		a := D.cell(I, st, Key{t.o, t.p + "[*]"}, tU64)
		x := atRow(fr, a, readRow(a, t.sel, st.facts), t.o, t.sel)
		if r == nil {
			r = x
		} else {
			r = caJoin(r, x, nil, "")
		}
	}
	return r
}

var tU64 = types.Typ[types.Uint64]

func isHalf(t STgt) (lo, hi bool) {
	if t.ln == nil || t.off == nil {
		return false, false
	}
	n := tSym("N")
	if t.ln == n || isConstTerm(t.ln) {
		return false, false
	}
	half := func(x *Term) bool {
		at, ok := soleAtom(x)
		return ok && (at.op == "shr" || at.op == "div") && at.args[0] == n
	}
	if half(t.off) {
		_, whole := soleAtom(tAdd(t.off, t.ln))
		return false, whole
	}
	return half(t.ln), false
}

// writeSlc writes a row (or half of it).
func (D *Dom) writeSlc(I *Interp, fr *Frame, st *State, v Val, n *CA) {
	s, ok := v.(*Slc)
	if !ok {
		return
	}
	for _, t := range s.ts {
		lo, hi := isHalf(t)
		k := Key{t.o, t.p + "[*]"}
		x := n
		if lo || hi {
			old := readRow(D.cell(I, st, k, tU64), t.sel, st.facts)
			c := D.cell(I, st, k, tU64)
			var h *CA
			if c.pend != nil && c.psel == t.sel {
				h = c.pend.half
				old = c.pend
			} else if c.pend == nil {
				h = c.half
			}
			if lo {
				x = old.plain().clone()
				x.half = n
			} else if h != nil {
				x = caJoin(h, n, nil, "halves")
				if h.vn != nil && n.vn != nil && h.vn != n.vn {
					x = x.clone()
					x.vn = pvNode("halves", "", h.vn, n.vn)
				}
			} else {
				x = caJoin(old.plain(), n, nil, "")
			}
		}
		if I.H.Write != nil {
			I.H.Write(I, fr, st, Tgt{o: t.o, p: t.p + "[*]", sel: t.sel}, &Num{}, nil)
		}
		D.writeRow(I, fr, st, Tgt{o: t.o, p: t.p + "[*]", sel: t.sel}, x, tU64, len(s.ts) == 1)
	}
}

// rowsOf gives the row slices of a [][]uint64 value.
func (D *Dom) rowsOf(I *Interp, fr *Frame, st *State, v Val, sel *Term, instr ssa.Instruction) Val {
	s, ok := v.(*Slc)
	if !ok {
		return nil
	}
	var r Val
	rt := types.NewSlice(tU64)
	for _, t := range s.ts {
		x := I.load(fr, st, Tgt{o: t.o, p: t.p + "[*]", sel: sel}, rt, instr)
		if r == nil {
			r = x
		} else {
			r = joinVal(r, x, joinCtx{}, "")
		}
	}
	return r
}

func (D *Dom) coeffs(I *Interp, fr *Frame, st *State, poly Val, instr ssa.Instruction) Val {
	p, ok := poly.(*Ptr)
	if !ok {
		return nil
	}
	var r Val
	ct := types.NewSlice(types.NewSlice(tU64))
	for _, t := range p.ts {
		x := I.load(fr, st, Tgt{o: t.o, p: t.p + ".Coeffs", sel: t.sel}, ct, instr)
		if r == nil {
			r = x
		} else {
			r = joinVal(r, x, joinCtx{}, "")
		}
	}
	return r
}

// writeRows writes rows 0..level of a [][]uint64 (level nil: all).
func (D *Dom) writeRows(I *Interp, fr *Frame, st *State, rows Val, level *Term, f func(old *CA) *CA, instr ssa.Instruction) {
	s, ok := rows.(*Slc)
	if !ok {
		return
	}
	given := level
	for _, t := range s.ts {
		idx := tSym("rows*")
		level := given
		if level == nil && t.ln != nil {
			level = tSub(t.ln, tConst(1))
		}
		if given != nil && level != nil && t.ln != nil && isConstTerm(t.ln) == false {
			if leq(tAdd(level, tConst(1)), t.ln, st.facts) == false {
				sat, dec := satisfiable(st.facts, tSub(t.ln, level))
				root := rootOfName(t.o.name)
				if dec && sat && !(root == "recv" && !D.recvIsOperand()) && t.o.kind == OSym {
					w := &where{D: D, fr: fr, instr: instr}
					w.bad("P08", "row-beyond-level", "rows up to %s of %s are written although it has only %s rows", level, t.o.name, t.ln)
				}
			}
		}
		rv, _ := D.rowsOf(I, fr, st, &Slc{ts: []STgt{t}}, nil, instr).(*Slc)
		if rv == nil {
			continue
		}
		for _, rt := range rv.ts {
			if rt.o.kind == OGlobal {
				continue
			}
			k := Key{rt.o, rt.p + "[*]"}
			old := D.cell(I, st, k, tU64)
			n := f(readRow(old, nil, st.facts)).plain()
			var r *CA
			if len(s.ts) == 1 && len(rv.ts) == 1 {
				x := foldPend(old).clone()
				x.pend, x.psel = n, idx
				if level == nil {
					r = n
				} else {
					r = finalise(x, idx, tConst(0), tAdd(level, tConst(1)), st.facts, rt.o)
				}
			} else {
				r = caJoin(foldPend(old), n, nil, "")
			}
			I.noteCell(k, tU64)
			if ps := I.paths[k.o]; ps == nil {
				I.paths[k.o] = map[string]bool{k.p: true}
			} else {
				ps[k.p] = true
			}
			if I.H.Write != nil {
				I.H.Write(I, fr, st, Tgt{o: rt.o, p: rt.p + "[*]"}, &Num{}, instr)
			}
			st.h.m[k] = &Num{A: r}
		}
	}
}

func (D *Dom) readRowsAll(I *Interp, fr *Frame, st *State, rows Val, level *Term, instr ssa.Instruction) *CA {
	rv := D.rowsOf(I, fr, st, rows, nil, instr)
	s, ok := rv.(*Slc)
	if !ok {
		return caUnknown()
	}
	if whole, ok := rows.(*Slc); ok && level == nil && len(whole.ts) == 1 && whole.ts[0].ln != nil {
		level = tSub(whole.ts[0].ln, tConst(1))
	}
	var r *CA
	for _, t := range s.ts {
		a := D.cell(I, st, Key{t.o, t.p + "[*]"}, tU64)
		var x *CA
		for _, o := range a.ones {
			if level == nil || !leq(tAdd(level, tConst(1)), o.sel, st.facts) {
				if r == nil {
					r = o.v
				} else {
					r = caJoin(r, o.v, nil, "")
				}
			}
		}
		a = a.noOnes()
		if a.lvl != nil && a.rest != nil && (level == nil || !leq(level, a.lvl, st.facts)) {
			x = caJoin(a.plain(), a.rest, nil, "")
			if level == nil && a.rest.untouched() {
				x = filled(a.plain(), a.rest)
			}
			if level != nil && rowRel(level, a.lvl, st.facts) != 0 && rowRel(level, a.lvl, st.facts) != -1 {
				x = a.plain()
			}
		} else if a.lvl != nil && a.rest != nil && a.pend == nil && a.kind == "" && !isConstTable(a) {
			x = a.plain()
		} else {
			x = readRow(a, nil, st.facts)
		}
		if r == nil {
			r = x
		} else {
			r = caJoin(r, x, nil, "")
		}
	}
	if r == nil {
		return caUnknown()
	}
	return r
}

func samePoly(a, b Val) bool {
	p, ok1 := a.(*Ptr)
	q, ok2 := b.(*Ptr)
	return ok1 && ok2 && len(p.ts) == 1 && len(q.ts) == 1 && p.ts[0].o == q.ts[0].o && p.ts[0].p == q.ts[0].p
}
func sameSlc(a, b Val) bool {
	p, ok1 := a.(*Slc)
	q, ok2 := b.(*Slc)
	return ok1 && ok2 && len(p.ts) == 1 && len(q.ts) == 1 && p.ts[0].o == q.ts[0].o && p.ts[0].p == q.ts[0].p
}

func num(v Val) *Term { return numT(v) }

func (D *Dom) call(I *Interp, fr *Frame, st *State, fn *ssa.Function, args []Val, instr ssa.Instruction) (Val, bool) {
	if domTrace != "" {
		D.dbgCells(I, st, fname(fn)+" from "+I.P.instrPos(instr))
	}
	if fn.String() == "(*math/big.Int).Uint64" {
		return D.bigScalar(I, fr, fn, instr)
	}
	if !inRepo(fn) || fn.Object() == nil {
		return nil, false
	}
	w := &where{D: D, fr: fr, instr: instr}
	name := strings.TrimPrefix(fname(fn), "")
	pkg := fn.Object().Pkg().Name()
	if domCalls && pkg == "ring" {
		for _, a := range args {
			fmt.Print(" ", valKey(a))
		}
		fmt.Println("  CALL", fn.Name(), I.P.instrPos(instr))
	}
	if pkg == "ring" && fn.Signature.Recv() == nil && fn.Signature.Results().Len() == 1 && len(fn.Params) >= 2 {
		as := make([]*CA, len(args))
		ok := true
		for i, a := range args {
			if isU64Slice(fn.Params[i].Type()) {
				as[i] = D.readSlc(I, fr, st, a)
			} else if isInteger(fn.Params[i].Type()) {
				as[i] = caOf(a)
			} else {
				ok = false
			}
		}
		if ok {
			if r, ok := w.scalarFn(fn.Name(), as); ok {
				return &Num{A: r}, true
			}
		}
	}
	void := top
	switch name {
	case "ring.NTTLazy", "ring.NTTConjugateInvariantLazy":
		return void, D.transform(I, fr, st, fn, args, instr, dC, dN, 3, 4)
	case "ring.invNTTCore", "ring.invNTTConjugateInvariantCore":
		return void, D.transform(I, fr, st, fn, args, instr, dN, dC, 3, 4)
	case "ring.modUpExact":
		if len(args) >= 2 {
			a := D.readRowsAll(I, fr, st, args[0], nil, instr)
			w.n("P06")
			if a.dom == dN {
				w.bad("P06", "basis-extension-domain", "a basis extension is applied to values in the evaluation domain")
			}
			D.checkRange(w, a, 4, "a basis extension")
			n := &CA{dom: dC, mont: a.mont, bnd: 2, may: a.may, must: a.must, vn: hv("modup", a.vn)}
			if a.dom == dUnknown {
				n.dom = dUnknown
			}
			D.writeRows(I, fr, st, args[1], nil, func(old *CA) *CA {
				m := n.clone()
				m.base = D.rowBase(args[1])
				return m
			}, instr)
			return void, true
		}
	case "(*ring.Decomposer).DecomposeAndSplit":
		if len(args) == 8 {
			src := D.coeffs(I, fr, st, args[5], instr)
			a := D.readRowsAll(I, fr, st, src, num(args[1]), instr)
			w.n("P06")
			if a.dom == dN {
				w.bad("P06", "basis-extension-domain", "a gadget decomposition is applied to values in the evaluation domain")
			}
			if a.mont == 1 && a.dom != dAny {
				w.bad("P06", "decomposition-montgomery", "a gadget decomposition is applied to values in Montgomery form")
			}
			D.checkRange(w, a, 4, "a gadget decomposition")
			n := &CA{dom: dC, mont: a.mont, bnd: 2, may: a.may, must: a.must, vn: hv("decomp:"+normKey(tkey(num(args[4])))+","+normKey(tkey(num(args[1]))), a.vn)}
			if a.dom == dUnknown {
				n.dom = dUnknown
			}
			for k, lv := range []Val{args[1], args[2]} {
				D.writeRows(I, fr, st, D.coeffs(I, fr, st, args[6+k], instr), num(lv), func(old *CA) *CA {
					m := n.clone()
					m.base = []string{"Q", "P"}[k]
					return m
				}, instr)
			}
			return void, true
		}
	case "(*ring.Ring).PermuteNTTWithIndexLvl", "(*ring.Ring).PermuteNTTWithIndexAndAddNoModLvl":
		if len(args) == 5 {
			src, dst := D.coeffs(I, fr, st, args[2], instr), D.coeffs(I, fr, st, args[4], instr)
			a := D.readRowsAll(I, fr, st, src, num(args[1]), instr)
			w.n("P06")
			if a.dom == dC {
				w.bad("P06", "automorphism-domain", "the evaluation-domain automorphism is applied to values in the coefficient domain")
			}
			w.n("P04")
			if samePoly(args[2], args[4]) {
				w.bad("P04", "automorphism-in-place", "an automorphism is computed in place: positions are overwritten before they are read")
			}
			n := a.plain().clone()
			n.vn = pvLinear("perm:"+D.idxVN(args[3]), a.vn)
			D.writeRows(I, fr, st, dst, num(args[1]), func(old *CA) *CA {
				if strings.Contains(name, "AndAdd") {
					return w.add(old, n)
				}
				return n
			}, instr)
			return void, true
		}
	case "(*ring.Ring).PermuteNTTLvl", "(*ring.Ring).PermuteNTT", "(*ring.Ring).Permute":
		i, o := 1, 3
		var lv *Term
		if len(args) == 5 {
			i, o, lv = 2, 4, num(args[1])
		}
		src, dst := D.coeffs(I, fr, st, args[i], instr), D.coeffs(I, fr, st, args[o], instr)
		a := D.readRowsAll(I, fr, st, src, lv, instr)
		w.n("P06")
		if strings.Contains(name, "NTT") {
			if a.dom == dC {
				w.bad("P06", "automorphism-domain", "the evaluation-domain automorphism is applied to values in the coefficient domain")
			}
		} else if a.dom == dN {
			w.bad("P06", "automorphism-domain", "the coefficient-domain automorphism is applied to values in the evaluation domain")
		}
		if samePoly(args[i], args[o]) {
			w.bad("P04", "automorphism-in-place", "an automorphism is computed in place: positions are overwritten before they are read")
		}
		n := a.plain().clone()
		n.vn = pvLinear("perm:"+normKey(tkey(num(args[o-1]))), a.vn)
		D.writeRows(I, fr, st, dst, lv, func(old *CA) *CA { return n }, instr)
		return void, true
	case "(*ring.Ring).FoldStandardToConjugateInvariant":
		// rows of the input summed with their permutation
		a := D.readRowsAll(I, fr, st, D.coeffs(I, fr, st, args[2], instr), num(args[1]), instr)
		n := a.plain().clone()
		n.bnd, n.vn = 1, hv("fold", a.vn)
		D.writeRows(I, fr, st, D.coeffs(I, fr, st, args[4], instr), num(args[1]), func(old *CA) *CA { return n }, instr)
		return void, true
	case "(*ring.Ring).UnfoldConjugateInvariantToStandard":
		a := D.readRowsAll(I, fr, st, D.coeffs(I, fr, st, args[2], instr), num(args[1]), instr)
		n := a.plain().clone()
		n.vn = hv("unfold", a.vn)
		D.writeRows(I, fr, st, D.coeffs(I, fr, st, args[3], instr), num(args[1]), func(old *CA) *CA { return n }, instr)
		return void, true
	case "(rlwe.Parameters).QiOverflowMargin", "(*rlwe.Parameters).QiOverflowMargin":
		return D.margin(st, "Q", args), true
	case "(rlwe.Parameters).PiOverflowMargin", "(*rlwe.Parameters).PiOverflowMargin":
		return D.margin(st, "P", args), true
	case "(frlwe.Parameters).TiOverflowMargin", "(*frlwe.Parameters).TiOverflowMargin":
		return D.margin(st, "T", args), true
	}
	if r, ok := D.sampler(I, fr, st, fn, name, args, instr); ok {
		return r, true
	}
	if isKernel(fn) {
		D.kernel(I, fr, st, fn, args, instr)
		return void, true
	}
	return nil, false
}

func hv(op string, v *PV) *PV {
	if v == nil {
		return nil
	}
	return pvNode(op, "", v)
}

func (D *Dom) idxVN(v Val) string {
	if s, ok := v.(*Slc); ok && len(s.ts) == 1 {
		return normKey(s.ts[0].o.name)
	}
	return "?"
}

func (D *Dom) rowBase(rows Val) string {
	if s, ok := rows.(*Slc); ok && len(s.ts) == 1 {
		return D.polyBase(strings.TrimSuffix(s.ts[0].o.name, ".Coeffs"))
	}
	return ""
}

func (D *Dom) checkRange(w *where, a *CA, max float64, what string) {
	w.n("P07")
	if a.acc == nil && !math.IsInf(a.bnd, 1) && a.bnd > max {
		w.bad("P07", "range", "%s is applied to values that may reach %.2f times the modulus", what, a.bnd)
	}
	if a.grow {
		w.bad("P07", "unbounded", "%s is applied to a sum accumulated without any reduction", what)
	}
}

// margin gives the symbolic number of additions that fit a word.
func (D *Dom) margin(st *State, base string, args []Val) Val {
	lv := "?"
	if len(args) > 1 {
		lv = tkey(num(args[1]))
	}
	m := tAtom(mkAtom("margin:" + base + "(" + lv + ")"))
	// the margin is at least 8 (Q) or 4 (P, T)
	min := int64(2 * minF(base))
	st.facts = st.facts.addLin(tSub(tConst(min), m))
	st.facts = st.facts.addLin(tSub(tConst(min/2), tApp("shr", m, tConst(1))))
	st.facts = st.facts.addLin(tSub(tConst(min/2), tDiv(m, tConst(2))))
	return &Num{T: m}
}

// transform: NTT and its inverse on one row.
func (D *Dom) transform(I *Interp, fr *Frame, st *State, fn *ssa.Function, args []Val, instr ssa.Instruction, from, to int8, psi, q int) bool {
	w := &where{D: D, fr: fr, instr: instr}
	if len(args) < 5 {
		return false
	}
	a := D.readSlc(I, fr, st, args[0])
	w.n("P06")
	if a.dom == dMixed {
		w.bad("P06", "transform-mixed", "a transform is applied to a polynomial some rows of which are in the coefficient and others in the evaluation domain")
	}
	if a.dom == to {
		w.bad("P06", "transform-twice", "a transform to the %s domain is applied to values already in the %s domain", domName(to), domName(to))
	}
	D.checkRange(w, a, 2, "the transform")
	w.checkAcc(a)
	if a.acc != nil {
		w.bad("P07", "range", "the transform is applied to an accumulator that was not reduced")
	}
	qa := caOf(args[q])
	w.checkBase(a, qa)
	D.selCheck(w, args[1], qa)
	D.selCheck(w, args[psi], qa)
	n := w.reduced("", a, 2)
	if a.base == "" {
		n.base = qa.base
	}
	if from == dN { // the core of the inverse leaves a factor N, which the last step takes away
		n.vn = pvMul(n.vn, pvFactor("N", 1))
	}
	switch a.dom {
	case from:
		n.dom = to
	case dU, dAny:
		n.dom = a.dom
		if a.dom == dAny && !a.isZero() && a.kind == "" {
			n.dom = to
		}
	default:
		n.dom = dUnknown
	}
	D.writeSlc(I, fr, st, args[1], n)
	return true
}

// selCheck: the row written and the modulus used have the same index.
func (D *Dom) selCheck(w *where, row Val, q *CA) {
	s, ok := row.(*Slc)
	if !ok || len(s.ts) != 1 || q.sel == nil || s.ts[0].sel == nil || q.kind == "" {
		return
	}
	if q.base == "" {
		return
	}
	w.n("P05")
	if w.selDiffer(s.ts[0].sel, q.sel) {
		w.bad("P05", "row-modulus", "row %s is reduced with the modulus (or its constants) of row %s", s.ts[0].sel, q.sel)
	}
}

// sampler axioms.
func (D *Dom) sampler(I *Interp, fr *Frame, st *State, fn *ssa.Function, name string, args []Val, instr ssa.Instruction) (Val, bool) {
	var kind string
	switch {
	case strings.HasPrefix(name, "(*ring.GaussianSampler).Read"):
		kind = "E"
	case strings.HasPrefix(name, "(*ring.TernarySampler).Read"):
		kind = "T"
	case strings.HasPrefix(name, "(*ring.UniformSampler).Read"):
		kind = "U"
	default:
		return nil, false
	}
	m := fn.Name()
	if strings.HasSuffix(m, "New") || len(args) < 2 {
		return nil, false // interpreted: allocates, then reads
	}
	var level *Term
	poly := args[1]
	if strings.Contains(m, "Lvl") {
		level = num(args[1])
		poly = args[2]
	}
	lab := fmt.Sprintf("%s:%d.%s%s", kind, fr.ctx.id, I.instrID(instr), iterChain(fr))
	n := &CA{dom: dC, mont: 0, bnd: 1, vn: vnOf("draw:" + kind + normKey(lab))}
	n.must = sortedU(kind, lab)
	n.may = n.must
	if kind == "U" {
		n.dom, n.mont = dU, mAny
	}
	w := &where{D: D, fr: fr, instr: instr}
	rows := D.coeffs(I, fr, st, poly, instr)
	n.vn = vnOf(fmt.Sprintf("draw:%s%s", kind, D.drawID(fr, instr)))
	D.writeRows(I, fr, st, rows, level, func(old *CA) *CA {
		if strings.Contains(m, "AndAdd") {
			w.n("P06")
			if old.dom == dN {
				w.bad("P06", "noise-domain", "small error coefficients are added to a polynomial in the evaluation domain")
			}
			r := w.add(old, n)
			r.bnd, r.acc, r.inc, r.step = 1, nil, 0, 0
			r.dom = joinDom(old.dom, dC)
			return r
		}
		return n
	}, instr)
	return top, true
}

// iterChain: the loop iterations a frame and its callers are in.
func iterChain(fr *Frame) string {
	s := ""
	for x := fr; x != nil; x = x.up {
		s = x.iter + s
	}
	return s
}

// drawID names a draw by its call path, so that two runs of the same entry agree.
func (D *Dom) drawID(fr *Frame, instr ssa.Instruction) string {
	s := D.P.instrPos(instr)
	for x := fr; x != nil && x.call != nil; x = x.up {
		s += "<" + D.P.instrPos(x.call) + x.iter
	}
	return s
}

// kernel interprets an elementwise function over fresh rows and applies its summary.
func (D *Dom) kernel(I *Interp, fr *Frame, st *State, fn *ssa.Function, args []Val, instr ssa.Instruction) {
	in := make([]*CA, len(args))
	var key strings.Builder
	key.WriteString(fname(fn))
	for i, a := range args {
		if isU64Slice(fn.Params[i].Type()) {
			in[i] = D.readSlc(I, fr, st, a)
		} else {
			in[i] = caOf(a)
			key.WriteString("#" + normKey(tkey(num(a))))
		}
		fmt.Fprintf(&key, "|%d,%s", i, in[i].AKey())
		for j := 0; j < i; j++ {
			if sameSlc(args[i], args[j]) {
				fmt.Fprintf(&key, "=%d", j)
			}
		}
	}
	w := &where{D: D, fr: fr, instr: instr}
	if D.kc == nil {
		D.kc = map[string]map[string]*CA{}
	}
	sum, ok := D.kc[key.String()]
	if !ok {
		sum = D.summarise(I, fr, fn, args, in, instr)
		D.kc[key.String()] = sum
	}
	var q *CA
	for i := range args {
		if !isU64Slice(fn.Params[i].Type()) && in[i].kind == "mod" || in[i].kind == "mred" {
			q = in[i]
		}
	}
	for i, p := range fn.Params {
		n := sum[p.Name()]
		if n == nil || !isU64Slice(p.Type()) {
			continue
		}
		if q != nil {
			D.selCheck(w, args[i], q)
		}
		// an input overlapping the output at another position
		D.writeSlc(I, fr, st, args[i], n)
	}
}

func (D *Dom) summarise(I *Interp, fr *Frame, fn *ssa.Function, args []Val, in []*CA, instr ssa.Instruction) map[string]*CA {
	J := newInterp(I.P)
	J.H = Hooks{Domain: true, StrongContent: true, AssumeNonEmpty: true, Peel: false, LimbLoops: false}
	byName := map[string]*CA{}
	out := map[string]*CA{}
	J.H.Arith = I.H.Arith
	J.H.ZeroAttr = I.H.ZeroAttr
	J.H.Undecided = I.H.Undecided
	J.H.Call = func(J *Interp, jf *Frame, js *State, g *ssa.Function, as []Val, ins ssa.Instruction) (Val, bool) {
		if !inRepo(g) || g.Object() == nil {
			return nil, false
		}
		cs := make([]*CA, len(as))
		for i, a := range as {
			if s, ok := a.(*Slc); ok {
				cs[i] = caUnknown()
				if len(s.ts) == 1 {
					if x := byName[s.ts[0].o.name]; x != nil {
						cs[i] = x
					}
				}
			} else {
				cs[i] = caOf(a)
			}
		}
		w := &where{D: D, fr: jf, instr: ins}
		if r, ok := w.scalarFn(g.Name(), cs); ok {
			return &Num{A: r}, true
		}
		return nil, false
	}
	J.H.LenOf = func(J *Interp, name string, t types.Type) *Term { return tSym("N") }
	J.H.LoadC = func(J *Interp, jf *Frame, js *State, tg Tgt, t types.Type, ins ssa.Instruction) (Val, bool) {
		if a := byName[tg.o.name]; a != nil && tg.o.kind == OSym {
			return &Num{A: a}, true
		}
		return nil, false
	}
	J.H.StoreC = func(J *Interp, jf *Frame, js *State, tg Tgt, v Val, t types.Type, strong bool, ins ssa.Instruction) bool {
		if tg.o.kind != OSym || byName[tg.o.name] == nil {
			return false
		}
		a := caOf(v).plain()
		if a.kind != "" || a.sel != nil {
			a = a.clone()
			a.kind, a.sel = "", nil
		}
		if o := out[tg.o.name]; o != nil {
			out[tg.o.name] = caJoin(o, a, nil, "")
		} else {
			out[tg.o.name] = a
		}
		return true
	}
	env := map[string]Val{}
	for i, p := range fn.Params {
		n := p.Name()
		if isU64Slice(p.Type()) {
			byName[n] = in[i]
			for j := 0; j < i; j++ {
				if sameSlc(args[i], args[j]) {
					n = fn.Params[j].Name()
				}
			}
			continue
		}
		v := &Num{A: in[i]}
		if t := num(args[i]); t != nil {
			v.T = t
		}
		env[n] = v
	}
	jf, js := J.newEntry(fn, env)
	jf.up, jf.call, jf.dep = fr, instr, fr.dep+1
	J.runFn(jf, js)
	// aliased destinations: the same row is written
	return out
}

// bigScalar names the residue an operation takes of its only big.Int argument.
func (D *Dom) bigScalar(I *Interp, fr *Frame, fn *ssa.Function, instr ssa.Instruction) (Val, bool) {
	if fr.fn.Pkg == nil || fr.fn.Pkg.Pkg.Name() != "ring" {
		return nil, false
	}
	name := ""
	for _, p := range fr.fn.Params {
		if typeIs(p.Type(), "math/big.Int") {
			q, ok := fr.env[p].(*Ptr)
			if !ok || name != "" {
				return nil, false
			}
			for _, t := range q.ts {
				name += t.o.name + t.p + ";"
			}
		}
	}
	if name == "" {
		return nil, false
	}
	a := caUnknown()
	a.vn = pvAtom("scalar", name)
	return &Num{A: a}, true
}
