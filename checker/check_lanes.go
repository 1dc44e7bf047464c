package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lane analysis of the unrolled kernels: a loop body that treats k coefficients by hand must treat each of them by the
// same formula, at its own position, and the loop must visit every block exactly once.

type laneAcc struct {
	arr  ssa.Value // pointer to the array
	lane int64
	n    int64 // array length
}

func lanePtr(v ssa.Value) (laneAcc, bool) {
	ia, ok := v.(*ssa.IndexAddr)
	if !ok {
		return laneAcc{}, false
	}
	pt, ok := ia.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return laneAcc{}, false
	}
	at, ok := pt.Elem().Underlying().(*types.Array)
	if !ok {
		return laneAcc{}, false
	}
	c, ok := ia.Index.(*ssa.Const)
	if !ok {
		return laneAcc{}, false
	}
	return laneAcc{ia.X, c.Int64(), at.Len()}, true
}

type laneSig struct {
	fn    *ssa.Function
	modes map[ssa.Value]bool // arrays read in mirrored order
	arrs  []ssa.Value        // arrays read
	names map[ssa.Value]string
	order map[ssa.Instruction]int // position within the block
}

func (l *laneSig) name(v ssa.Value) string {
	if s, ok := l.names[v]; ok {
		return s
	}
	s := fmt.Sprintf("v%d", len(l.names))
	l.names[v] = s
	return s
}

// sig prints the expression with lanes made relative to lane k of an array of length n.
func (l *laneSig) sig(v ssa.Value, k, n int64, store *ssa.Store, depth int) string {
	if depth > 24 {
		return "…"
	}
	rel := func(a laneAcc) string {
		b := k
		if a.n != n && n > 0 {
			b = k * a.n / n
		}
		d := a.lane - b
		if _, ok := l.modes[a.arr]; !ok {
			l.modes[a.arr] = false
			l.arrs = append(l.arrs, a.arr)
		}
		if l.modes[a.arr] {
			d = a.lane + b
		}
		return fmt.Sprintf("%s@%d", l.name(a.arr), d)
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.String()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := lanePtr(x.X); ok {
				late := ""
				if x.Block() == store.Block() && l.stored(a, x) {
					late = "!"
				}
				return rel(a) + late
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				return l.name(ia.X) + "[" + l.sig(ia.Index, k, n, store, depth+1) + "]"
			}
			return "*" + l.sig(x.X, k, n, store, depth+1)
		}
		return x.Op.String() + l.sig(x.X, k, n, store, depth+1)
	case *ssa.BinOp:
		a, b := l.sig(x.X, k, n, store, depth+1), l.sig(x.Y, k, n, store, depth+1)
		switch x.Op {
		case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
			if a > b {
				a, b = b, a
			}
		}
		return "(" + a + x.Op.String() + b + ")"
	case *ssa.Convert:
		return l.sig(x.X, k, n, store, depth+1)
	case *ssa.ChangeType:
		return l.sig(x.X, k, n, store, depth+1)
	case *ssa.Extract:
		return fmt.Sprintf("%s#%d", l.sig(x.Tuple, k, n, store, depth+1), x.Index)
	case *ssa.Call:
		s := "?"
		if f := x.Call.StaticCallee(); f != nil {
			s = fname(f)
		}
		s += "("
		for i, a := range x.Call.Args {
			if i > 0 {
				s += ","
			}
			s += l.sig(a, k, n, store, depth+1)
		}
		return s + ")"
	case *ssa.Phi:
		if l.order[x] < 0 { // loop variable or accumulator being printed
			return l.name(x)
		}
		if hdr := x.Block(); isLoopHeader(hdr) {
			return l.name(x)
		}
		old := l.order[x]
		l.order[x] = -1
		var es []string
		for _, e := range x.Edges {
			es = append(es, l.sig(e, k, n, store, depth+1))
		}
		l.order[x] = old
		sort.Strings(es)
		return "φ(" + strings.Join(es, ",") + ")"
	case *ssa.IndexAddr:
		if a, ok := lanePtr(x); ok {
			return "&" + rel(a)
		}
	}
	return l.name(v)
}

func isLoopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// stored: the lane is written in the block before the load.
func (l *laneSig) stored(a laneAcc, load *ssa.UnOp) bool {
	for _, in := range load.Block().Instrs {
		if in == ssa.Instruction(load) {
			return false
		}
		if s, ok := in.(*ssa.Store); ok {
			if b, ok := lanePtr(s.Addr); ok && b.arr == a.arr && b.lane == a.lane {
				return true
			}
		}
	}
	return false
}

// laneGroups collects the stores of each array, per innermost region (all blocks of one loop iteration).
func laneStores(f *ssa.Function) map[ssa.Value]map[int64][]*ssa.Store {
	out := map[ssa.Value]map[int64][]*ssa.Store{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			a, ok := lanePtr(s.Addr)
			if !ok || a.n < 4 {
				continue
			}
			if out[a.arr] == nil {
				out[a.arr] = map[int64][]*ssa.Store{}
			}
			out[a.arr][a.lane] = append(out[a.arr][a.lane], s)
		}
	}
	return out
}

func arrLen(v ssa.Value) int64 {
	if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			return at.Len()
		}
	}
	return 0
}

type laneVerdict struct {
	regular bool
	mode    string
	bad     []int64
	good    string
	got     map[int64]string
}

func judgeLanes(f *ssa.Function, arr ssa.Value, lanes map[int64][]*ssa.Store) (laneVerdict, bool) {
	n := arrLen(arr)
	var ks []int64
	rounds := -1
	for k, ss := range lanes {
		ks = append(ks, k)
		if rounds < 0 || len(ss) < rounds {
			rounds = len(ss)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	best, found := laneVerdict{}, false
	var arrs []ssa.Value
	for mask := 0; mask < 1<<len(arrs) && mask < 64; mask++ {
		l := &laneSig{fn: f, modes: map[ssa.Value]bool{}, names: map[ssa.Value]string{}, order: map[ssa.Instruction]int{}}
		for i, a := range arrs {
			l.modes[a] = mask>>i&1 == 1
		}
		sig := map[int64]string{}
		for _, k := range ks {
			var parts []string
			for _, s := range lanes[k] {
				parts = append(parts, l.sig(s.Val, k, n, s, 0))
			}
			sig[k] = strings.Join(parts, ";")
		}
		if mask == 0 {
			arrs = l.arrs
		}
		for _, M := range []int64{1, 2, 4, 8} {
			if n%M != 0 || n/M < 2 {
				continue
			}
			var bad []int64
			ok := true
			maj := map[int64]string{}
			for c := int64(0); c < M; c++ {
				cnt := map[string]int{}
				tot := 0
				for _, k := range ks {
					if k%M == c {
						cnt[sig[k]]++
						tot++
					}
				}
				if tot == 0 {
					continue
				}
				bs, bn := "", 0
				for _, s := range sortedKeys(cnt) {
					if cnt[s] > bn {
						bs, bn = s, cnt[s]
					}
				}
				maj[c] = bs
				if bn < tot && bn < 3 {
					ok = false
				}
				for _, k := range ks {
					if k%M == c && sig[k] != bs {
						bad = append(bad, k)
					}
				}
			}
			if !ok {
				continue
			}
			mode := fmt.Sprintf("step %d", M)
			if mask != 0 {
				mode += " mirrored"
			}
			if len(bad) == 0 {
				return laneVerdict{regular: true, mode: mode}, true
			}
			if len(bad) <= 2 && len(ks) >= 6 && (!found || len(bad) < len(best.bad)) {
				best, found = laneVerdict{mode: mode, bad: bad, good: maj[bad[0]%M], got: sig}, true
			}
		}
	}
	return best, found
}

func checkLanes(P *Prog, r *Report) {
	var fns []*ssa.Function
	for _, f := range P.Funcs {
		fns = append(fns, f)
	}
	for _, f := range fns {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		st := laneStores(f)
		var arrs []ssa.Value
		for a := range st {
			arrs = append(arrs, a)
		}
		sort.Slice(arrs, func(i, j int) bool { return arrs[i].Name() < arrs[j].Name() })
		if len(arrs) > 0 {
			r.count("unrolled functions", 1)
		}
		full := 0
		for _, a := range arrs {
			lanes := st[a]
			n := arrLen(a)
			r.count("unrolled blocks", 1)
			r.count("unrolled lanes", len(lanes))
			r.ok(len(lanes))
			if int64(len(lanes)) < n && int64(len(lanes)) >= n-2 && len(lanes) >= 5 {
				var miss []string
				for k := int64(0); k < n; k++ {
					if lanes[k] == nil {
						miss = append(miss, fmt.Sprint(k))
					}
				}
				r.bad("lane-skipped|"+fname(f)+"|"+strings.Join(miss, ","), "the unrolled block in %s (%s) writes %d of its %d positions; position %s is never written", fname(f), P.pos(a.Pos()), len(lanes), n, strings.Join(miss, ","))
				continue
			}
			if int64(len(lanes)) == n {
				full++
			}
			v, ok := judgeLanes(f, a, lanes)
			if !ok {
				r.count("unrolled blocks without a regular pattern (not judged)", 1)
				if domTrace == "lanes" {
					fmt.Println("IRR", fname(f), a.Name(), P.pos(a.Pos()), n, len(lanes), v.got)
				}
				continue
			}
			if v.regular {
				r.count("unrolled blocks with one formula for every position", 1)
				continue
			}
			var bs []string
			for _, k := range v.bad {
				bs = append(bs, fmt.Sprint(k))
			}
			r.bad("lane-formula|"+fname(f)+"|"+strings.Join(bs, ","), "in the unrolled block of %s (%s) position %s is computed as %s, the other positions as %s", fname(f), P.pos(lanes[v.bad[0]][0].Pos()), strings.Join(bs, ","), v.got[v.bad[0]], v.good)
		}
		if len(arrs) > 0 && full > 0 && strings.HasSuffix(f.Name(), "Vec") {
			checkBlockLoop(P, r, f)
		}
	}
	r.atLeast("unrolled functions", 35)
	r.atLeast("unrolled lanes", 500)
}

// checkBlockLoop: the loop over blocks visits [0,len) exactly once, with the step of the block size.
func checkBlockLoop(P *Prog, r *Report, f *ssa.Function) {
	// the index used in every conversion &p[j] -> *[n]uint64
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			cv, ok := in.(*ssa.Convert)
			if !ok {
				continue
			}
			n := arrLen(cv)
			if n == 0 {
				continue
			}
			up, ok := cv.X.(*ssa.Convert)
			if !ok {
				continue
			}
			ia, ok := up.X.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			ph, off := indexPhi(ia.Index)
			if ph == nil {
				continue
			}
			init, step, lim, ok := countedLoop(ph)
			if !ok {
				r.count("block loops of unknown form", 1)
				continue
			}
			r.ok(1)
			r.count("block loops", 1)
			if init+off != 0 || step != n || lim < 0 {
				r.bad("block-loop|"+fname(f), "the block loop of %s (%s) starts at %d, advances by %d over blocks of %d and stops %d before the end of the row: not every coefficient is processed once", fname(f), P.pos(ia.Pos()), init+off, step, n, -lim)
			}
		}
	}
}

func indexPhi(v ssa.Value) (*ssa.Phi, int64) {
	switch x := v.(type) {
	case *ssa.Phi:
		return x, 0
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Const); ok && (x.Op == token.ADD || x.Op == token.SUB) {
			if p, o := indexPhi(x.X); p != nil {
				d := c.Int64()
				if x.Op == token.SUB {
					d = -d
				}
				return p, o + d
			}
		}
	}
	return nil, 0
}

// countedLoop: phi(init, phi+step) compared with len(slice)+lim (j < len+lim).
func countedLoop(p *ssa.Phi) (init, step, lim int64, ok bool) {
	if !isLoopHeader(p.Block()) || len(p.Edges) != 2 {
		return
	}
	gi, gs := false, false
	for i, e := range p.Edges {
		if p.Block().Dominates(p.Block().Preds[i]) {
			if q, d := indexPhi(e); q == p {
				step, gs = d, true
			}
		} else if c, isC := e.(*ssa.Const); isC {
			init, gi = c.Int64(), true
		}
	}
	if !gi || !gs {
		return
	}
	iff, isIf := p.Block().Instrs[len(p.Block().Instrs)-1].(*ssa.If)
	if !isIf {
		return
	}
	c, isB := iff.Cond.(*ssa.BinOp)
	if !isB {
		return
	}
	q, off := indexPhi(c.X)
	if q != p {
		return
	}
	base := c.Y
	for {
		b, isB := base.(*ssa.BinOp)
		if !isB {
			break
		}
		k, isC := b.Y.(*ssa.Const)
		if !isC || (b.Op != token.ADD && b.Op != token.SUB) {
			break
		}
		if b.Op == token.ADD {
			lim += k.Int64()
		} else {
			lim -= k.Int64()
		}
		base = b.X
	}
	call, isCall := base.(*ssa.Call)
	if !isCall {
		return
	}
	if bi, isBi := call.Call.Value.(*ssa.Builtin); !isBi || bi.Name() != "len" {
		return
	}
	lim -= off
	switch c.Op {
	case token.LSS:
	case token.LEQ:
		lim++
	default:
		return
	}
	// j < len - c covers every block as long as c is below the block size
	if lim < 0 && -lim < step {
		lim = 0
	}
	return init, step, lim, true
}
