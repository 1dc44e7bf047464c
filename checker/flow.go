package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// region executes the blocks of region (nil: whole function) from entry. header is the
// header of the loop being executed (nil for the function body); edges to it are back edges.
func (I *Interp) region(fr *Frame, reg map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, in []edge, header *ssa.BasicBlock) (exits, backs []edge) {
	pending := map[*ssa.BasicBlock][]edge{}
	pending[entry] = in
	deliver := func(e edge) {
		switch {
		case e.to == header:
			backs = append(backs, e)
		case reg != nil && !reg[e.to]:
			exits = append(exits, e)
		default:
			pending[e.to] = append(pending[e.to], e)
		}
	}
	for _, b := range fr.info.rpo {
		if reg != nil && !reg[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		delete(pending, b)
		if L := fr.info.loops[b]; L != nil && b != header {
			for _, e := range I.execLoop(fr, L, es) {
				deliver(e)
			}
			continue
		}
		var st *State
		if b == header {
			st = es[0].st // phis already set
		} else {
			st = I.enter(fr, b, es)
		}
		for _, e := range I.block(fr, b, st) {
			deliver(e)
		}
	}
	return
}

// enter merges the incoming edges of b and sets its phis.
func (I *Interp) enter(fr *Frame, b *ssa.BasicBlock, es []edge) *State {
	st, vs, phis := I.mergePhis(fr, b, es)
	for i, p := range phis {
		fr.env[p] = vs[i]
	}
	return st
}

func (I *Interp) mergePhis(fr *Frame, b *ssa.BasicBlock, es []edge) (*State, []Val, []*ssa.Phi) {
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	items := make([]mergeItem, 0, len(es))
	ephi := -1
	if I.H.Domain && len(phis) > 0 {
		ephi = errorPhi(fr.fn, b, phis)
	}
	for _, e := range es {
		vs := make([]Val, len(phis))
		for i, p := range phis {
			for j, pr := range b.Preds {
				if pr == e.from {
					vs[i] = fr.val(I, p.Edges[j])
					break
				}
			}
		}
		if ephi >= 0 && certainError(vs[ephi]) {
			continue
		}
		items = append(items, mergeItem{b: e.from, st: e.st, vs: vs})
	}
	if len(items) == 0 {
		for _, e := range es[:1] {
			vs := make([]Val, len(phis))
			for i, p := range phis {
				vs[i] = fr.val(I, p.Edges[predIndex(b, e.from)])
			}
			items = append(items, mergeItem{b: e.from, st: e.st, vs: vs})
		}
	}
	if len(items) == 1 {
		return items[0].st, items[0].vs, phis
	}
	m := I.mergeTree(fr, items, b)
	return m.st, m.vs, phis
}

func predIndex(b, p *ssa.BasicBlock) int {
	for j, x := range b.Preds {
		if x == p {
			return j
		}
	}
	return 0
}

// errorPhi: b only returns, and the error it returns is the phi with the index given.
func errorPhi(f *ssa.Function, b *ssa.BasicBlock, phis []*ssa.Phi) int {
	ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) == 0 || len(b.Instrs) != len(phis)+1 {
		return -1
	}
	last := ret.Results[len(ret.Results)-1]
	if last.Type().String() != "error" {
		return -1
	}
	for i, p := range phis {
		if p == last {
			return i
		}
	}
	return -1
}

// block executes b's instructions and returns its out edges.
func (I *Interp) block(fr *Frame, b *ssa.BasicBlock, st *State) []edge {
	if st.h.frozen {
		st = st.fork()
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			cv := fr.val(I, in.Cond)
			c := numT(cv)
			if I.H.Branch != nil {
				I.H.Branch(I, fr, st, in, cv)
			}
			if k, ok := constOf(c); ok {
				if k != 0 {
					return []edge{{b, b.Succs[0], st}}
				}
				return []edge{{b, b.Succs[1], st}}
			}
			if c != nil {
				if v, ok := st.facts.lookup(c.key); ok {
					if v {
						return []edge{{b, b.Succs[0], st}}
					}
					return []edge{{b, b.Succs[1], st}}
				}
			}
			if c != nil && I.H.Choose != nil {
				if v, ok := I.H.Choose(fr, st, c); ok {
					if st.h.frozen {
						st = st.fork()
					}
					st.facts = I.assume(st.facts, c, v)
					if v {
						return []edge{{b, b.Succs[0], st}}
					}
					return []edge{{b, b.Succs[1], st}}
				}
			}
			t, f := st.fork(), st.fork()
			t.facts = I.assume(t.facts, c, true)
			f.facts = I.assume(f.facts, c, false)
			return []edge{{b, b.Succs[0], t}, {b, b.Succs[1], f}}
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var v Val = top
			switch len(in.Results) {
			case 0:
			case 1:
				v = fr.val(I, in.Results[0])
			default:
				t := &Tup{}
				for _, r := range in.Results {
					t.vs = append(t.vs, fr.val(I, r))
				}
				v = t
			}
			fr.rets = append(fr.rets, retItem{b, st, v})
			return nil
		case *ssa.Panic:
			return nil
		default:
			I.step(fr, st, in)
			if st.h == nil {
				return nil
			}
			if st.h.frozen {
				st = st.fork()
			}
		}
	}
	return nil
}

func (I *Interp) assume(f *Facts, c *Term, v bool) *Facts {
	if c == nil {
		return f
	}
	if !v {
		f = f.addBool(c.key, false)
		c = notT(c)
	} else {
		n := notT(c)
		if n != nil {
			f = f.addBool(n.key, false)
		}
	}
	f = f.addBool(c.key, true)
	if a, ok := soleAtom(c); ok && len(a.args) == 2 {
		x, y := a.args[0], a.args[1]
		switch a.op {
		case "lt":
			f = f.addLin(tAdd(tSub(x, y), tConst(1)))
		case "le":
			f = f.addLin(tSub(x, y))
		case "eq":
			f = f.addLin(tSub(x, y))
			f = f.addLin(tSub(y, x))
		}
	}
	return f
}

type indInfo struct {
	phi  *ssa.Phi
	step int64
	init Val
}

// induction finds phis of h of the form phi(init, phi+const).
func (I *Interp) induction(L *loop) map[*ssa.Phi]int64 {
	r := map[*ssa.Phi]int64{}
	for _, in := range L.h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isInteger(p.Type()) {
			continue
		}
		var step int64
		okAll := true
		for i, e := range p.Edges {
			if !L.blocks[L.h.Preds[i]] {
				continue
			}
			b, ok := e.(*ssa.BinOp)
			if !ok {
				okAll = false
				break
			}
			var c *ssa.Const
			if b.X == p {
				c, _ = b.Y.(*ssa.Const)
			} else if b.Y == p && b.Op == token.ADD {
				c, _ = b.X.(*ssa.Const)
			}
			if c == nil || c.Value == nil {
				okAll = false
				break
			}
			k := c.Int64()
			if b.Op == token.SUB {
				k = -k
			} else if b.Op != token.ADD {
				okAll = false
				break
			}
			if step != 0 && step != k {
				okAll = false
				break
			}
			step = k
		}
		if okAll && step != 0 {
			r[p] = step
		}
	}
	return r
}

// isLimbLoop: the induction variable selects rows of a [][]numeric.
func (I *Interp) isLimbLoop(L *loop) bool {
	if L.limb != 0 {
		return L.limb == 1
	}
	L.limb = 2
	ind := I.induction(L)
	idx := map[ssa.Value]bool{}
	for p := range ind {
		idx[p] = true
		for _, r := range *p.Referrers() {
			if b, ok := r.(*ssa.BinOp); ok && L.blocks[b.Block()] && (b.Op == token.ADD || b.Op == token.SUB) {
				idx[b] = true
			}
		}
	}
	for b := range L.blocks {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok && idx[ia.Index] {
				if isRowsType(ia.X.Type()) {
					L.limb = 1
					return true
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if fn := c.Common().StaticCallee(); fn != nil {
					for i, a := range c.Common().Args {
						if idx[a] && i < len(fn.Params) && selectsRow(fn.Params[i], 3) {
							L.limb = 1
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// selectsRow: a parameter that is the row number a function works on: it is used as an index, possibly
// further down, and for nothing else.
func selectsRow(p *ssa.Parameter, depth int) bool {
	if p.Referrers() == nil || depth == 0 {
		return false
	}
	rows := false
	for _, r := range *p.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			if x.Index != p {
				return false
			}
			if isRowsType(x.X.Type()) {
				rows = true
			}
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			fn := x.Common().StaticCallee()
			if fn == nil {
				return false
			}
			for i, a := range x.Common().Args {
				if a == p {
					if i >= len(fn.Params) || !selectsRow(fn.Params[i], depth-1) {
						return false
					}
					rows = true
				}
			}
		default:
			return false
		}
	}
	return rows
}

func isRowsType(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	s2, ok := s.Elem().Underlying().(*types.Slice)
	return ok && isNumeric(s2.Elem())
}

const unrollLimit = 130

func (I *Interp) execLoop(fr *Frame, L *loop, in []edge) []edge {
	h := L.h
	st, phiv, phis := I.mergePhis(fr, h, in)
	if st.h.frozen {
		st = st.fork()
	}
	ind := I.induction(L)
	saveIter := fr.iter
	defer func() { fr.iter = saveIter }()
	if I.H.LimbLoops && I.isLimbLoop(L) {
		return I.limbLoop(fr, L, st, phis, phiv, ind)
	}
	var acc []edge
	cur, vals := st, phiv
	nr0 := len(fr.rets)
	mark := 0
	if I.H.Mark != nil {
		mark = I.H.Mark()
	}
	for it := 0; ; it++ {
		for i, p := range phis {
			fr.env[p] = vals[i]
		}
		fr.iter = fmt.Sprintf("%s%d=%d;", saveIter, h.Index, it)
		nr := len(fr.rets)
		s := cur.fork()
		exits, backs := I.region(fr, L.blocks, h, []edge{{nil, h, s}}, h)
		if len(backs) == 0 {
			return append(acc, exits...)
		}
		if len(exits) == 0 && it < unrollLimit {
			cur, vals, _ = I.mergePhis(fr, h, backs)
			if cur.h.frozen {
				cur = cur.fork()
			}
			cur.h = cur.h.flatten()
			continue
		}
		if I.H.OneDigit && it >= 1 && it <= 2 {
			// the elements allocated by all iterations are one representative: start again
			cur, vals = st, phiv
			it = 0
			if I.H.Undo != nil {
				I.H.Undo(mark)
			}
			fr.rets = fr.rets[:nr0]
			nr = nr0
			for i, p := range phis {
				fr.env[p] = vals[i]
			}
			exits = nil
			fr.iter = fmt.Sprintf("%s%d=*;", saveIter, h.Index)
			exits, backs = I.region(fr, L.blocks, h, []edge{{nil, h, cur.fork()}}, h)
			if len(backs) == 0 {
				return append(acc, exits...)
			}
		} else if I.H.OneDigit && it == 0 {
			fr.rets = fr.rets[:nr]
			for i, p := range phis {
				fr.env[p] = vals[i]
			}
			fr.iter = fmt.Sprintf("%s%d=*;", saveIter, h.Index)
			exits, backs = I.region(fr, L.blocks, h, []edge{{nil, h, cur.fork()}}, h)
			if len(backs) == 0 {
				return append(acc, exits...)
			}
		}
		if I.H.Peel && it == 0 {
			// keep the first iteration apart: its exits count unless the loop is known non-empty
			drop := false
			if I.H.AssumeNonEmpty {
				for i, p := range phis {
					if _, ok := ind[p]; ok {
						if c, ok := constOf(numT(vals[i])); ok && (c == 0 || c == -1) {
							drop = true
						}
					}
				}
			}
			for _, e := range exits {
				if drop && e.from == h {
					continue
				}
				acc = append(acc, e)
			}
			cur, vals, _ = I.mergePhis(fr, h, backs)
			if cur.h.frozen {
				cur = cur.fork()
			}
		} else {
			fr.rets = fr.rets[:nr]
		}
		// generic iteration from cur
		var pre *State
		if I.H.OneDigit && it == 0 {
			pre = st
		}
		ex := I.genericLoop(fr, L, cur, pre, phis, vals, ind, saveIter)
		return append(acc, ex...)
	}
}

func (I *Interp) genericLoop(fr *Frame, L *loop, cur, pre *State, phis []*ssa.Phi, vals []Val, ind map[*ssa.Phi]int64, saveIter string) []edge {
	h := L.h
	fr.iter = fmt.Sprintf("%s%d=*;", saveIter, h.Index)
	facts := cur.facts
	hv := append([]Val{}, vals...)
	al := &activeLoop{L: L, ind: map[*ssa.Phi]*Term{}, lo: map[*ssa.Phi]*Term{}, generic: true}
	// loop variables that move by one step each are one variable
	var count, count0 *Term
	for i, p := range phis {
		if k, ok := ind[p]; ok && k == 1 && count == nil {
			if c, ok := constOf(numT(vals[i])); ok && c >= -1 && c <= 1 {
				count, count0 = tSym(fmt.Sprintf("i%d.%d.%d", fr.ctx.id, h.Index, i)), tConst(c)
			}
		}
	}
	for i, p := range phis {
		if k, ok := ind[p]; ok {
			init := numT(vals[i])
			sym := tSym(fmt.Sprintf("i%d.%d.%d", fr.ctx.id, h.Index, i))
			if count != nil && k == -1 && init != nil {
				if t := tSub(init, tSub(count, count0)); t != nil {
					sym = t
				}
			}
			hv[i] = &Num{T: sym}
			al.ind[p] = sym
			al.lo[p] = init
			if init != nil {
				if k > 0 {
					facts = facts.addLin(tSub(init, sym))
				} else {
					facts = facts.addLin(tSub(sym, init))
				}
			}
		}
	}
	fr.loops = append(fr.loops, al)
	defer func() { fr.loops = fr.loops[:len(fr.loops)-1] }()
	hs := &State{h: cur.h, facts: facts}
	nr := len(fr.rets)
	jn := joinCtx{name: fmt.Sprintf("L%d.%d", fr.ctx.id, h.Index)}
	for it := 0; ; it++ {
		for i, p := range phis {
			fr.env[p] = hv[i]
		}
		fr.rets = fr.rets[:nr]
		s := hs.fork()
		if pre != nil && it == 0 {
			// find the elements accessed at the loop index only, without judging this pass
			I.quiet++
			_, backs := I.region(fr, L.blocks, h, []edge{{nil, h, s}}, h)
			I.quiet--
			if len(backs) > 0 {
				bs, _, _ := I.mergePhis(fr, h, backs)
				if reset := digitObjs(bs.h, al.digits); len(reset) > 0 {
					hs = hs.fork()
					dk, _ := diffKeys(pre.h, hs.h)
					for k := range dk {
						if !reset[k.o] {
							continue
						}
						if v, ok := pre.h.get(k); ok {
							hs.h.m[k] = v
						} else if k.o.kind != OAlloc {
							hs.h.m[k] = I.initCell(k, I.ctyp[k])
						}
					}
				}
			}
			for i, p := range phis {
				fr.env[p] = hv[i]
			}
			fr.rets = fr.rets[:nr]
			s = hs.fork()
		}
		exits, backs := I.region(fr, L.blocks, h, []edge{{nil, h, s}}, h)
		if len(backs) == 0 {
			return exits
		}
		bs, bv, _ := I.mergePhis(fr, h, backs)
		changed := false
		var reset map[*Obj]bool
		if pre != nil {
			reset = digitObjs(bs.h, al.digits)
		}
		nv := append([]Val{}, hv...)
		for i, p := range phis {
			if _, ok := ind[p]; ok {
				continue
			}
			n := joinVal(hv[i], bv[i], jn, fmt.Sprintf("p%d", i))
			if !valEq(n, hv[i]) {
				nv[i] = n
				changed = true
			}
		}
		ns, _ := I.join2(hs, bs, nil, nil, jn)
		if len(reset) > 0 {
			// every iteration starts with its own element: untouched so far
			if ns.h.frozen || ns == hs {
				ns = ns.fork()
			}
			dk, _ := diffKeys(pre.h, bs.h)
			for k := range dk {
				if !reset[k.o] {
					continue
				}
				if v, ok := pre.h.get(k); ok {
					ns.h.m[k] = v
				} else if k.o.kind != OAlloc {
					ns.h.m[k] = I.initCell(k, I.ctyp[k])
				}
			}
			for i, e := range exits {
				if e.from != h {
					continue
				}
				s := e.st.fork()
				for k := range dk {
					if reset[k.o] {
						if v, ok := bs.h.get(k); ok {
							s.h.m[k] = v
						}
					}
				}
				exits[i].st = s
			}
		}
		keys, _ := diffKeys(hs.h, ns.h)
		for k := range keys {
			a, ok1 := hs.h.get(k)
			b, ok2 := ns.h.get(k)
			if !ok1 {
				a = I.initCell(k, I.ctyp[k])
			}
			if !ok2 {
				continue
			}
			if !valEq(a, b) {
				changed = true
				if domTrace == "fix" && it > 11 {
					fmt.Println("UNSTABLE", it, k.o.name, k.p, valKey(a), "=>", valKey(b))
				}
				if it < 8 || !I.H.Domain {
					break
				}
				// widen: the contents are unknown
				x, _ := b.(*Num)
				y, _ := a.(*Num)
				if w := widenCA(x, y); w != nil {
					if ns.h.frozen || ns == hs {
						ns = ns.fork()
					}
					ns.h.m[k] = &Num{A: w}
				}
			}
		}
		if !changed {
			return exits
		}
		if it > 14 {
			if I.overflow == "" {
				I.overflow = "loop does not stabilise in " + fname(fr.fn)
			}
			return exits
		}
		hs = &State{h: ns.h, facts: facts}
		hv = nv
	}
}

// limbLoop interprets a loop over residue rows as a forall: one generic iteration.
func (I *Interp) limbLoop(fr *Frame, L *loop, st *State, phis []*ssa.Phi, vals []Val, ind map[*ssa.Phi]int64) []edge {
	h := L.h
	saveIter := fr.iter
	fr.iter = fmt.Sprintf("%s%d=*;", saveIter, h.Index)
	facts := st.facts
	al := &activeLoop{L: L, ind: map[*ssa.Phi]*Term{}, lo: map[*ssa.Phi]*Term{}, generic: true}
	hv := append([]Val{}, vals...)
	for i, p := range phis {
		if k, ok := ind[p]; ok {
			init := numT(vals[i])
			sym := tSym(fmt.Sprintf("i%d.%d.%d", fr.ctx.id, h.Index, i))
			hv[i] = &Num{T: sym}
			al.ind[p], al.lo[p] = sym, init
			if init != nil {
				if k > 0 {
					facts = facts.addLin(tSub(init, sym))
				} else {
					facts = facts.addLin(tSub(sym, init))
				}
			}
		} else {
			hv[i] = joinVal(vals[i], &Num{}, joinCtx{name: fmt.Sprintf("L%d.%d", fr.ctx.id, h.Index)}, fmt.Sprintf("p%d", i))
			if _, ok := vals[i].(*Num); !ok {
				hv[i] = vals[i]
			}
		}
	}
	// bounds from the header condition
	fr.loops = append(fr.loops, al)
	defer func() { fr.loops = fr.loops[:len(fr.loops)-1] }()
	for i, p := range phis {
		fr.env[p] = hv[i]
	}
	s := &State{h: st.h.fork(), facts: facts}
	exits, backs := I.region(fr, L.blocks, h, []edge{{nil, h, s}}, h)
	if len(backs) == 0 {
		return exits
	}
	var idx, lo, hi *Term
	if iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok {
		if b, ok := iff.Cond.(*ssa.BinOp); ok {
			x, y := numT(fr.val(I, b.X)), numT(fr.val(I, b.Y))
			for i, p := range phis {
				k, isInd := ind[p]
				if !isInd || x == nil || y == nil {
					continue
				}
				init := numT(vals[i])
				d := tSub(x, al.ind[p])
				if c, ok := constOf(d); ok && init != nil {
					idx = x
					switch {
					case k > 0 && b.Op == token.LSS:
						lo, hi = tAdd(init, tConst(c)), y
					case k > 0 && b.Op == token.LEQ:
						lo, hi = tAdd(init, tConst(c)), tAdd(y, tConst(1))
					case k < 0 && b.Op == token.GEQ:
						lo, hi = y, tAdd(tAdd(init, tConst(c)), tConst(1))
					case k < 0 && b.Op == token.GTR:
						lo, hi = tAdd(y, tConst(1)), tAdd(tAdd(init, tConst(c)), tConst(1))
					}
				}
			}
		}
	}
	bs, bv, _ := I.mergePhis(fr, h, backs)
	if bs.h.frozen {
		bs = bs.fork()
	}
	bs.facts = st.facts
	jn := joinCtx{name: fmt.Sprintf("L%d.%d", fr.ctx.id, h.Index)}
	for i, p := range phis {
		if _, ok := ind[p]; ok {
			if hi != nil && ind[p] > 0 {
				fr.env[p] = &Num{T: hi}
			}
			continue
		}
		fr.env[p] = joinVal(vals[i], bv[i], jn, fmt.Sprintf("p%d", i))
	}
	if I.H.LimbExit != nil {
		I.H.LimbExit(I, fr, bs, st.h, idx, lo, hi)
	}
	var out []edge
	doneHeader := false
	for _, e := range exits {
		if e.from == h {
			if !doneHeader {
				out = append(out, edge{h, e.to, bs})
				doneHeader = true
			}
			continue
		}
		out = append(out, e)
	}
	_ = strings.Contains
	return out
}

// fnCandidates resolves a symbolic function value by signature; method values of the object
// holding the function are bound to that object.
func (I *Interp) fnCandidates(v *Fn, sig *types.Signature) []FTgt {
	var out []FTgt
	for _, fn := range I.P.addrTaken() {
		s := fn.Signature
		if !types.Identical(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
			continue
		}
		t := FTgt{fn: fn}
		for _, fv := range fn.FreeVars {
			var b Val
			if v.op != nil && v.op.parent != nil {
				if p, ok := fv.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), v.op.parent.typ) {
					b = &Ptr{ts: []Tgt{{o: v.op.parent}}}
				}
			}
			if b == nil {
				root, par := v.name, (*Obj)(nil)
				if v.op != nil {
					root, par = v.op.root, v.op.parent
				}
				b = I.symVal(v.name+"."+fv.Name(), fv.Type(), par, root)
			}
			t.bind = append(t.bind, b)
		}
		out = append(out, t)
	}
	return out
}

// isPolyElem tells whether elements of this type are (groups of) polynomials.
func isPolyElem(t types.Type) bool {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		case *types.Array:
			t = u.Elem()
			continue
		}
		break
	}
	switch typeName(t) {
	case "ring.Poly", "rlwe.PolyQP", "rlwe.SwitchingKey", "frlwe.SwitchingKey", "rlwe.Ciphertext", "rlwe.Plaintext", "ckks.Ciphertext", "ckks.Plaintext":
		return true
	}
	return false
}

// noteDigit records that element idx of an array of polynomials is accessed.
func (fr *Frame) noteDigit(o *Obj, idx *Term) {
	for x := fr; x != nil; x = x.up {
		for _, al := range x.loops {
			if al.digits == nil {
				al.digits = map[*Obj]string{}
			}
			key := "!"
			if idx != nil {
				for _, t := range al.ind {
					if sharesAtom(t, idx) {
						key = idx.key
					}
				}
			}
			if old, ok := al.digits[o]; ok && old != key {
				key = "!"
			}
			al.digits[o] = key
		}
	}
}

// digitObjs are the objects reachable from the arrays accessed at the loop index only.
func digitObjs(h *Heap, digits map[*Obj]string) map[*Obj]bool {
	var roots []*Obj
	for o, k := range digits {
		if k != "!" {
			roots = append(roots, o)
		}
	}
	if len(roots) == 0 {
		return nil
	}
	cells := map[*Obj][]Key{}
	for x := h; x != nil; x = x.up {
		for k := range x.m {
			cells[k.o] = append(cells[k.o], k)
		}
	}
	seen := map[*Obj]bool{}
	var add func(o *Obj)
	var val func(v Val)
	val = func(v Val) {
		switch v := v.(type) {
		case *Ptr:
			for _, t := range v.ts {
				add(t.o)
			}
		case *Slc:
			for _, t := range v.ts {
				add(t.o)
			}
		}
	}
	add = func(o *Obj) {
		if seen[o] {
			return
		}
		seen[o] = true
		for _, k := range cells[o] {
			if v, ok := h.get(k); ok {
				val(v)
			}
		}
	}
	for _, o := range roots {
		add(o)
	}
	// symbolic elements
	for o := range cells {
		for x := o.parent; x != nil; x = x.parent {
			if seen[x] {
				seen[o] = true
				break
			}
		}
	}
	return seen
}
