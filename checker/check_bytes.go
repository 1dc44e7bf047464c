package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Random bytes are used once: between two reads of the same position of a buffer that a generator fills, the buffer
// must be refilled. A position is the buffer, the index expression and (for single bits) the shift; the walk follows
// the control-flow graph from every read and keeps the positions it can name unchanged.

type byteRead struct {
	in  ssa.Instruction
	pos []ssa.Value // buffer, low index, shift (nil: none)
}

type byteAn struct {
	P     *Prog
	r     *Report
	f     *ssa.Function
	bufs  map[string]bool // struct fields holding buffers
	vals  map[ssa.Value]bool
	reads map[ssa.Instruction]*byteRead
}

// isClock: a call that fills its last argument with fresh random bytes.
func isClock(in ssa.Instruction) ssa.Value {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}
	cc := c.Call
	if cc.IsInvoke() {
		if isPRNG(cc.Value.Type()) && cc.Method.Name() == "Clock" {
			return cc.Args[0]
		}
		return nil
	}
	f := cc.StaticCallee()
	if f == nil {
		return nil
	}
	if f.Signature.Recv() != nil && isPRNG(f.Signature.Recv().Type()) && f.Name() == "Clock" {
		return cc.Args[1]
	}
	return nil
}

// root follows reslicing, phis and field loads to name a buffer: a field, or the set of SSA values.
func bufRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		return v
	}
}

func bufField(v ssa.Value) string {
	if u, ok := bufRoot(v).(*ssa.UnOp); ok && u.Op == token.MUL {
		return fieldKey(u.X)
	}
	return ""
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func randomBytes(P *Prog, r *Report) {
	// fields filled by a generator anywhere
	fields := map[string]bool{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v := isClock(in); v != nil {
					if k := bufField(v); k != "" {
						fields[k] = true
					}
				}
			}
		}
	}
	all := map[*ssa.Function]map[ssa.Instruction]*byteRead{}
	ans := map[*ssa.Function]*byteAn{}
	for _, f := range P.Funcs {
		a := &byteAn{P: P, r: r, f: f, bufs: fields, vals: map[ssa.Value]bool{}, reads: map[ssa.Instruction]*byteRead{}}
		a.collect()
		all[f], ans[f] = a.reads, a
		if len(a.reads) == 0 {
			continue
		}
		var rs []*byteRead
		for _, x := range a.reads {
			rs = append(rs, x)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].in.Pos() < rs[j].in.Pos() })
		for _, x := range rs {
			r.count("reads of random bytes followed", 1)
			r.ok(1)
			a.walk(x)
		}
		a.entry()
	}
	firstUse(P, r, fields, all, func(f *ssa.Function, v ssa.Value) bool { return ans[f] != nil && ans[f].isBuf(v) })
}

// collect finds the buffers of the function and the reads of their bytes.
func (a *byteAn) collect() {
	for _, b := range a.f.Blocks {
		for _, in := range b.Instrs {
			if v := isClock(in); v != nil {
				a.mark(bufRoot(v))
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, b := range a.f.Blocks {
			for _, in := range b.Instrs {
				if p, ok := in.(*ssa.Phi); ok && isByteSlice(p.Type()) {
					any := a.vals[p]
					for _, e := range p.Edges {
						any = any || a.vals[bufRoot(e)]
					}
					if any && !a.vals[p] {
						a.vals[p] = true
						changed = true
					}
					if any {
						for _, e := range p.Edges {
							if _, isC := e.(*ssa.Const); !isC && !a.vals[bufRoot(e)] {
								a.vals[bufRoot(e)] = true
								changed = true
							}
						}
					}
				}
			}
		}
	}
	for _, b := range a.f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.UnOp: // one byte
				if ia, ok := in.X.(*ssa.IndexAddr); ok && in.Op == token.MUL && a.isBuf(ia.X) {
					sh, found := shiftOf(in)
					if found {
						a.reads[in] = &byteRead{in: in, pos: []ssa.Value{ia.X, ia.Index, sh}}
					}
				}
			case *ssa.Slice: // a word
				if in.Low != nil && in.High != nil && a.isBuf(in.X) && usedByCall(in) {
					a.reads[in] = &byteRead{in: in, pos: []ssa.Value{in.X, in.Low, nil}}
				}
			}
		}
	}
}

func (a *byteAn) mark(v ssa.Value) { a.vals[v] = true }

func (a *byteAn) isBuf(v ssa.Value) bool {
	if !isByteSlice(v.Type()) {
		return false
	}
	if k := bufField(v); k != "" {
		return a.bufs[k]
	}
	return a.vals[bufRoot(v)]
}

func usedByCall(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		if _, ok := u.(*ssa.Call); ok {
			return true
		}
	}
	return false
}

// shiftOf: the single bit (by shift amount) or the masked low bit a byte is read for.
func shiftOf(v ssa.Value) (ssa.Value, bool) {
	refs := *v.Referrers()
	if len(refs) != 1 {
		return nil, false
	}
	switch u := refs[0].(type) {
	case *ssa.Convert:
		return shiftOf(u)
	case *ssa.BinOp:
		if u.Op == token.SHR && u.X == v {
			return u.Y, true
		}
	}
	return nil, false
}

// bstate: which SSA values equal a leaf of the read position, and which fields still hold it.
type bstate struct {
	al  []map[ssa.Value]bool // per leaf
	fl  []map[string]bool    // per leaf: fields holding it
	zer map[ssa.Value]bool   // values known to be the constant zero
	zf  map[string]bool      // fields known to hold zero
}

func (s *bstate) key() string {
	var ks []string
	for i := range s.al {
		for v := range s.al[i] {
			ks = append(ks, fmt.Sprintf("%d:%p", i, v))
		}
		for k := range s.fl[i] {
			ks = append(ks, fmt.Sprintf("%d:%s", i, k))
		}
	}
	for v := range s.zer {
		ks = append(ks, fmt.Sprintf("z%p", v))
	}
	for k := range s.zf {
		ks = append(ks, "z"+k)
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func (s *bstate) clone() *bstate {
	n := &bstate{zer: map[ssa.Value]bool{}, zf: map[string]bool{}}
	for i := range s.al {
		m := map[ssa.Value]bool{}
		for k := range s.al[i] {
			m[k] = true
		}
		n.al = append(n.al, m)
		g := map[string]bool{}
		for k := range s.fl[i] {
			g[k] = true
		}
		n.fl = append(n.fl, g)
	}
	for k := range s.zer {
		n.zer[k] = true
	}
	for k := range s.zf {
		n.zf[k] = true
	}
	return n
}

// leaves of an index expression.
func exprLeaves(v ssa.Value, out *[]ssa.Value) {
	switch x := v.(type) {
	case nil:
	case *ssa.Const:
	case *ssa.BinOp:
		exprLeaves(x.X, out)
		exprLeaves(x.Y, out)
	case *ssa.Convert:
		exprLeaves(x.X, out)
	case *ssa.Slice:
		exprLeaves(x.X, out)
		exprLeaves(x.Low, out)
	default:
		for _, y := range *out {
			if y == v {
				return
			}
		}
		*out = append(*out, v)
	}
}

// same: the expression y evaluates to what x evaluated to at the read.
func (s *bstate) same(x, y ssa.Value, leaf map[ssa.Value]int) bool {
	if x == nil || y == nil {
		return x == nil && y == nil
	}
	switch a := x.(type) {
	case *ssa.Const:
		b, ok := y.(*ssa.Const)
		return ok && a.Value != nil && b.Value != nil && a.Value.ExactString() == b.Value.ExactString()
	case *ssa.BinOp:
		if b, ok := y.(*ssa.BinOp); ok && a.Op == b.Op {
			return s.same(a.X, b.X, leaf) && s.same(a.Y, b.Y, leaf)
		}
		return false
	case *ssa.Convert:
		if b, ok := y.(*ssa.Convert); ok && types.Identical(a.Type(), b.Type()) {
			return s.same(a.X, b.X, leaf)
		}
		return false
	case *ssa.Slice:
		if b, ok := y.(*ssa.Slice); ok {
			return s.same(a.X, b.X, leaf) && s.same(a.Low, b.Low, leaf)
		}
		return false
	}
	i, ok := leaf[x]
	return ok && s.al[i][y]
}

func (a *byteAn) walk(x *byteRead) {
	var ls []ssa.Value
	for _, p := range x.pos {
		exprLeaves(p, &ls)
	}
	leaf := map[ssa.Value]int{}
	s := &bstate{zer: map[ssa.Value]bool{}, zf: map[string]bool{}}
	for i, l := range ls {
		leaf[l] = i
		s.al = append(s.al, map[ssa.Value]bool{l: true})
		s.fl = append(s.fl, map[string]bool{})
		if u, ok := l.(*ssa.UnOp); ok && u.Op == token.MUL {
			if k := fieldKey(u.X); k != "" && noStoreBetween(u, x.in, k) {
				s.fl[i][k] = true
			}
		}
	}
	a.explore(x, x.in.Block(), indexIn(x.in)+1, s, leaf, map[string]bool{})
}

func indexIn(in ssa.Instruction) int {
	for i, y := range in.Block().Instrs {
		if y == in {
			return i
		}
	}
	return 0
}

func noStoreBetween(l ssa.Instruction, x ssa.Instruction, k string) bool {
	if l.Block() != x.Block() {
		return a0(l, x, k)
	}
	for i := indexIn(l); i < indexIn(x); i++ {
		if st, ok := l.Block().Instrs[i].(*ssa.Store); ok && fieldKey(st.Addr) == k {
			return false
		}
	}
	return true
}

// a0: the field is stored nowhere in the function (loads anywhere agree).
func a0(l, x ssa.Instruction, k string) bool {
	for _, b := range l.Block().Parent().Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && fieldKey(st.Addr) == k {
				return false
			}
		}
	}
	return true
}

func (a *byteAn) explore(x *byteRead, b *ssa.BasicBlock, from int, s *bstate, leaf map[ssa.Value]int, seen map[string]bool) {
	s = s.clone()
	for i := from; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if y := a.reads[in]; y != nil {
			same := len(y.pos) == len(x.pos)
			for j := range y.pos {
				same = same && s.same(x.pos[j], y.pos[j], leaf)
			}
			if same {
				a.r.bad("bytes-reused|"+fname(a.f), "%s: random bytes read at %s are read again at %s without drawing new ones", fname(a.f), a.P.instrPos(x.in), a.P.instrPos(y.in))
				return
			}
			if y.pos[2] == nil && s.zer[y.pos[1]] && s.same(x.pos[0], y.pos[0], leaf) {
				a.r.bad("bytes-rewound|"+fname(a.f), "%s: after the read at %s the position goes back to the start of the buffer (read at %s) without drawing new bytes", fname(a.f), a.P.instrPos(x.in), a.P.instrPos(y.in))
				return
			}
		}
		if v := isClock(in); v != nil && a.isBuf(v) {
			return
		}
		switch in := in.(type) {
		case *ssa.Store:
			if k := fieldKey(in.Addr); k != "" {
				for j := range s.al {
					if s.al[j][in.Val] {
						s.fl[j][k] = true
					} else {
						delete(s.fl[j], k)
					}
				}
				if isZero(in.Val) || s.zer[in.Val] {
					s.zf[k] = true
				} else {
					delete(s.zf, k)
				}
			}
		case *ssa.Call:
			if touchesBuffer(a, in) {
				return
			}
		case *ssa.Return:
			return
		}
		if v, ok := in.(ssa.Value); ok {
			for j := range s.al {
				delete(s.al[j], v)
			}
			delete(s.zer, v)
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
				if k := fieldKey(u.X); k != "" {
					for j := range s.al {
						if s.fl[j][k] {
							s.al[j][v] = true
						}
					}
					if s.zf[k] {
						s.zer[v] = true
					}
				}
			}
		}
	}
	for _, n := range b.Succs {
		t := s.clone()
		pi := predIdx(n, b)
		type upd struct {
			p *ssa.Phi
			e ssa.Value
		}
		var us []upd
		for _, in := range n.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			us = append(us, upd{p, p.Edges[pi]})
		}
		for _, u := range us {
			for j := range t.al {
				if s.al[j][u.e] {
					t.al[j][u.p] = true
				} else {
					delete(t.al[j], u.p)
				}
			}
			if isZero(u.e) || s.zer[u.e] {
				t.zer[u.p] = true
			} else {
				delete(t.zer, u.p)
			}
		}
		k := fmt.Sprintf("%d|%s", n.Index, t.key())
		if seen[k] || len(seen) > 4000 {
			continue
		}
		seen[k] = true
		a.explore(x, n, len(us), t, leaf, seen)
	}
}

func predIdx(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return 0
}

func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == "0"
}

// touchesBuffer: a call inside the repository that may refill or read the buffer.
func touchesBuffer(a *byteAn, c *ssa.Call) bool {
	fs, _ := a.P.callees(&c.Call)
	for _, f := range fs {
		if !inRepo(f) {
			continue
		}
		for _, x := range c.Call.Args {
			if isByteSlice(x.Type()) && a.isBuf(x) {
				return true
			}
		}
		if usesBuffers(a, f, 0) {
			return true
		}
	}
	return false
}

func usesBuffers(a *byteAn, f *ssa.Function, d int) bool {
	if d > 4 {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && a.bufs[fieldKey(fa)] {
				return true
			}
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && inRepo(g) && g != f && usesBuffers(a, g, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// entry: a buffer kept between calls must not be read from its start before it is refilled.
func (a *byteAn) entry() {
	s := &bstate{zer: map[ssa.Value]bool{}, zf: map[string]bool{}}
	seen := map[string]bool{}
	var go_ func(b *ssa.BasicBlock, from int, s *bstate)
	go_ = func(b *ssa.BasicBlock, from int, s *bstate) {
		s = s.clone()
		for i := from; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if y := a.reads[in]; y != nil && bufField(y.pos[0]) != "" && (s.zer[y.pos[1]] || isZero(y.pos[1])) && (y.pos[2] == nil || s.zer[y.pos[2]] || isZero(y.pos[2])) {
				a.r.bad("bytes-kept|"+fname(a.f), "%s reads the start of the buffer it keeps between calls at %s before drawing new bytes", fname(a.f), a.P.instrPos(in))
				return
			}
			if v := isClock(in); v != nil && a.isBuf(v) {
				return
			}
			switch in := in.(type) {
			case *ssa.Store:
				if k := fieldKey(in.Addr); k != "" {
					if isZero(in.Val) || s.zer[in.Val] {
						s.zf[k] = true
					} else {
						delete(s.zf, k)
					}
				}
			case *ssa.Call:
				if touchesBuffer(a, in) {
					return
				}
			case *ssa.Return:
				return
			}
			if v, ok := in.(ssa.Value); ok {
				delete(s.zer, v)
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					if k := fieldKey(u.X); k != "" && s.zf[k] {
						s.zer[v] = true
					}
				}
			}
		}
		for _, n := range b.Succs {
			t := s.clone()
			pi := predIdx(n, b)
			k := 0
			for _, in := range n.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				k++
				if isZero(p.Edges[pi]) || s.zer[p.Edges[pi]] {
					t.zer[p] = true
				} else {
					delete(t.zer, p)
				}
			}
			key := fmt.Sprintf("%d|%s", n.Index, t.key())
			if seen[key] || len(seen) > 4000 {
				continue
			}
			seen[key] = true
			go_(n, k, t)
		}
	}
	if len(a.f.Blocks) > 0 {
		go_(a.f.Blocks[0], 0, s)
	}
}

// firstUse: a buffer that starts out unfilled is filled before the first read of every exported operation.
func firstUse(P *Prog, r *Report, fields map[string]bool, reads map[*ssa.Function]map[ssa.Instruction]*byteRead, isBuf func(f *ssa.Function, v ssa.Value) bool) {
	// cursors kept in fields
	cursor := map[string]bool{}
	direct := map[ssa.Instruction]bool{}
	for _, rs := range reads {
		for in, x := range rs {
			if bufField(x.pos[0]) == "" {
				continue
			}
			var ls []ssa.Value
			exprLeaves(x.pos[1], &ls)
			for _, l := range ls {
				if u, ok := l.(*ssa.UnOp); ok && u.Op == token.MUL {
					if k := fieldKey(u.X); k != "" {
						cursor[k] = true
						direct[in] = true
					}
				}
			}
		}
	}
	if len(cursor) == 0 {
		return
	}
	// a constructor which starts the cursor at zero over an unfilled buffer
	unfilled := false
	for _, f := range P.Funcs {
		makes, clocks, nonzero := false, false, false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if isClock(in) != nil {
					clocks = true
				}
				if st, ok := in.(*ssa.Store); ok {
					k := fieldKey(st.Addr)
					if fields[k] {
						switch bufRoot(st.Val).(type) {
						case *ssa.MakeSlice, *ssa.Alloc:
							makes = true
						}
					}
					if cursor[k] && !isZero(st.Val) {
						nonzero = true
					}
				}
			}
		}
		unfilled = unfilled || makes && !clocks && !nonzero
	}
	if !unfilled {
		return
	}
	need := map[*ssa.Function]string{}
	for changed := true; changed; {
		changed = false
		for _, f := range P.Funcs {
			if need[f] != "" || len(f.Blocks) == 0 {
				continue
			}
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock) string
			walk = func(b *ssa.BasicBlock) string {
				if seen[b] {
					return ""
				}
				seen[b] = true
				for _, in := range b.Instrs {
					if v := isClock(in); v != nil && isBuf(f, v) {
						return ""
					}
					if direct[in] {
						return P.instrPos(in)
					}
					if c, ok := in.(*ssa.Call); ok {
						if g := c.Call.StaticCallee(); g != nil {
							if need[g] != "" {
								return need[g]
							}
							if inRepo(g) && alwaysClocks(g) {
								return ""
							}
						}
					}
				}
				for _, n := range b.Succs {
					if s := walk(n); s != "" {
						return s
					}
				}
				return ""
			}
			if s := walk(f.Blocks[0]); s != "" {
				need[f] = s
				changed = true
			}
		}
	}
	for _, f := range P.Funcs {
		if f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if rv := f.Signature.Recv(); rv == nil || !strings.Contains(typeName(deref(rv.Type())), "Sampler") {
			continue
		}
		r.ok(1)
		if need[f] != "" {
			r.bad("bytes-before-fill|"+fname(f), "%s reads its byte buffer at %s before a generator has ever filled it", fname(f), need[f])
		}
	}
}

// alwaysClocks: every path of the function draws fresh bytes.
func alwaysClocks(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var escape func(b *ssa.BasicBlock) bool
	escape = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if isClock(in) != nil {
				return false
			}
			if _, ok := in.(*ssa.Return); ok {
				return true
			}
		}
		for _, n := range b.Succs {
			if escape(n) {
				return true
			}
		}
		return false
	}
	return !escape(f.Blocks[0])
}
