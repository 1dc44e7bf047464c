package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- P14: failures are reported

var errType = types.Universe.Lookup("error").Type()

func isErrT(t types.Type) bool { return types.Identical(t, errType) }

func lastIsErr(s *types.Signature) bool {
	n := s.Results().Len()
	return n > 0 && isErrT(s.Results().At(n-1).Type())
}

// callees resolves the possible targets of a call inside the repository; ext tells that an unknown target is possible.
func (P *Prog) callees(c *ssa.CallCommon) (fs []*ssa.Function, ext bool) {
	if c.IsInvoke() {
		it, ok := c.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil, true
		}
		for _, t := range P.implementers(it) {
			if f := P.Prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); f != nil && f.Blocks != nil {
				fs = append(fs, f)
			}
		}
		return fs, len(fs) == 0
	}
	if f := c.StaticCallee(); f != nil {
		if f.Blocks == nil || !inRepo(f) && f.Synthetic == "" {
			return nil, true
		}
		return []*ssa.Function{f}, false
	}
	if sig, ok := c.Value.Type().Underlying().(*types.Signature); ok {
		for _, f := range P.addrTaken() {
			if types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()), types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
				fs = append(fs, f)
			}
		}
	}
	return fs, len(fs) == 0
}

type errAn struct {
	P    *Prog
	r    *Report
	fail map[*ssa.Function]bool // may return a non-nil error
}

// nilErr: the value is certainly the nil error.
func nilErr(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// infallible external functions whose error result is documented as always nil.
var infallible = map[string]bool{"fmt.Println": true, "fmt.Printf": true, "fmt.Print": true}

// neverFailsHere interprets f and tells whether the error of the call is nil at this site for every input.
func neverFailsHere(P *Prog, f *ssa.Function, call *ssa.Call) bool {
	if f.Parent() != nil {
		return false
	}
	I := newInterp(P)
	fr, st := I.newEntry(f, nil)
	I.runFn(fr, st)
	if I.overflow != "" {
		return false
	}
	v := fr.env[call]
	if t, ok := v.(*Tup); ok && len(t.vs) > 0 {
		v = t.vs[len(t.vs)-1]
	}
	if v == nil {
		return false
	}
	isNil, known, _ := I.nilness(v)
	return known && isNil
}

func (a *errAn) canFail(c *ssa.CallCommon) bool {
	fs, ext := a.P.callees(c)
	if ext {
		if f := c.StaticCallee(); f != nil && infallible[f.String()] {
			return false
		}
		return true
	}
	for _, f := range fs {
		if a.fail[f] {
			return true
		}
	}
	return false
}

// mayBeNonNil decides whether an error operand can be non-nil, given the current fixpoint.
func (a *errAn) mayBeNonNil(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil
	case *ssa.Phi:
		for _, e := range x.Edges {
			if a.mayBeNonNil(e, seen) {
				return true
			}
		}
		return false
	case *ssa.Call:
		return a.canFail(&x.Call) || !isErrT(x.Type())
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && isErrT(x.Type()) {
			return a.canFail(&c.Call)
		}
		return true
	case *ssa.ChangeInterface:
		return a.mayBeNonNil(x.X, seen)
	}
	return true
}

func (a *errAn) fixpoint() {
	a.fail = map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range a.P.Funcs {
			if a.fail[f] || !lastIsErr(f.Signature) {
				continue
			}
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
					if a.mayBeNonNil(ret.Results[len(ret.Results)-1], map[ssa.Value]bool{}) {
						a.fail[f] = true
						ch = true
					}
				}
			}
		}
	}
}

// errWalk explores the paths after a failed step.
type errWalk struct {
	a     *errAn
	f     *ssa.Function
	step  ssa.Instruction // the failing call
	src   ssa.Value       // its error
	bad   string
	seen  map[string]bool
	cells map[ssa.Value]bool // local variables the error was stored into
}

type errState struct {
	phi  map[*ssa.Phi]ssa.Value
	cell map[ssa.Value]ssa.Value
}

func (s errState) key() string {
	k := ""
	for _, p := range sortedPhis(s.phi) {
		k += p.Name() + "=" + s.phi[p].Name() + ","
	}
	for c, v := range s.cell {
		k += c.Name() + ":" + v.Name() + ";"
	}
	return k
}

func sortedPhis(m map[*ssa.Phi]ssa.Value) []*ssa.Phi {
	var r []*ssa.Phi
	for p := range m {
		r = append(r, p)
	}
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if r[j].Name() < r[i].Name() {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return r
}

func (w *errWalk) resolve(s errState, v ssa.Value) ssa.Value {
	for d := 0; d < 20; d++ {
		switch x := v.(type) {
		case *ssa.Phi:
			if y, ok := s.phi[x]; ok {
				v = y
				continue
			}
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if y, ok := s.cell[x.X]; ok {
					v = y
					continue
				}
			}
		}
		return v
	}
	return v
}

// carries: v is the failed step's error, or an error built from it or on the spot.
func (w *errWalk) carries(s errState, v ssa.Value) bool {
	v = w.resolve(s, v)
	if v == w.src {
		return true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true // a concrete error value
	case *ssa.Call:
		if isErrT(x.Type()) {
			if f := x.Call.StaticCallee(); f != nil {
				n := f.String()
				if n == "fmt.Errorf" || n == "errors.New" || n == "errors.Join" {
					return true
				}
				if inRepo(f) && alwaysErr(f) {
					return true
				}
			}
		}
	case *ssa.UnOp:
		if _, ok := x.X.(*ssa.Global); ok {
			return true // a sentinel error variable
		}
	}
	return false
}

func alwaysErr(f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
			n++
			switch x := ret.Results[len(ret.Results)-1].(type) {
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil || g.String() != "fmt.Errorf" && g.String() != "errors.New" {
					return false
				}
			default:
				return false
			}
		}
	}
	return n > 0
}

// walk continues at block b from predecessor p, starting at instruction i.
func (w *errWalk) walk(b *ssa.BasicBlock, p *ssa.BasicBlock, i int, s errState) {
	if w.bad != "" {
		return
	}
	if i == 0 {
		ns := errState{phi: map[*ssa.Phi]ssa.Value{}, cell: s.cell}
		for k, v := range s.phi {
			ns.phi[k] = v
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			delete(ns.phi, ph)
			if isErrT(ph.Type()) {
				for j, q := range b.Preds {
					if q == p {
						ns.phi[ph] = w.resolve(s, ph.Edges[j])
					}
				}
			}
		}
		s = ns
		k := fmt.Sprint(b.Index, "|") + s.key()
		if w.seen[k] {
			return
		}
		w.seen[k] = true
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if in == w.step {
			w.bad = "repeats the step without looking at the failure"
			return
		}
		switch x := in.(type) {
		case *ssa.Panic:
			return
		case *ssa.Store:
			if isErrT(deref(x.Addr.Type())) {
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					c := map[ssa.Value]ssa.Value{}
					for k, v := range s.cell {
						c[k] = v
					}
					c[al] = w.resolve(s, x.Val)
					s = errState{phi: s.phi, cell: c}
				} else if w.carries(s, x.Val) {
					return // handed on through memory
				}
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && (f.String() == "os.Exit" || strings.HasPrefix(f.String(), "log.Fatal") || strings.HasPrefix(f.String(), "log.Panic") || strings.HasPrefix(f.String(), "(*log.Logger).Fatal")) {
				return
			}
		case *ssa.Return:
			if n := len(x.Results); n > 0 && isErrT(x.Results[n-1].Type()) && w.carries(s, x.Results[n-1]) {
				return
			}
			// a second step that failed as well may report its own error
			if n := len(x.Results); n > 0 && isErrT(x.Results[n-1].Type()) {
				w.bad = "returns without that error (" + w.a.P.instrPos(x) + ")"
			} else {
				w.bad = "carries on to a normal return (" + w.a.P.instrPos(x) + ")"
			}
			return
		case *ssa.If:
			if bo, ok := x.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				var v ssa.Value
				if nilErr(bo.Y) {
					v = bo.X
				} else if nilErr(bo.X) {
					v = bo.Y
				}
				if v != nil && isErrT(v.Type()) {
					rv := w.resolve(s, v)
					if rv == w.src || w.carries(s, v) {
						if bo.Op == token.NEQ {
							w.walk(b.Succs[0], b, 0, s)
						} else {
							w.walk(b.Succs[1], b, 0, s)
						}
						return
					}
					if nilErr(rv) {
						if bo.Op == token.NEQ {
							w.walk(b.Succs[1], b, 0, s)
						} else {
							w.walk(b.Succs[0], b, 0, s)
						}
						return
					}
				}
			}
			w.walk(b.Succs[0], b, 0, s)
			w.walk(b.Succs[1], b, 0, s)
			return
		case *ssa.Jump:
			w.walk(b.Succs[0], b, 0, s)
			return
		}
	}
}

func calleeName(c *ssa.CallCommon) string {
	if f := c.StaticCallee(); f != nil {
		return fname(f)
	}
	if c.IsInvoke() {
		return shortType(c.Value.Type()) + "." + c.Method.Name()
	}
	return "a function value"
}

func checkP14(P *Prog, r *Report) {
	r.Rule = "Error-path dataflow over go/ssa. For every call in the library whose callee can return a non-nil error (interprocedural fixpoint over all returns, dynamic calls resolved to every implementer) the paths on which that error is non-nil are followed (phi operands resolved by the incoming edge, tests of the error against nil decided): each must end in a panic or in a return of that error or of an error built there. " +
		"A dropped error, an error overwritten before being looked at, a step repeated without looking, and a normal return on a failing path are violations. The boolean of a (value, found) result must be tested and its false branch must end the same way. " +
		"A value of interface type examined only by type assertions must panic or return an error when every assertion fails. recover is not used."
	a := &errAn{P: P, r: r}
	a.fixpoint()
	for _, f := range P.Funcs {
		if isTestOrMain(P, f) || f.Synthetic != "" {
			continue
		}
		r.count("functions", 1)
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if bi.Name() == "recover" {
						r.bad("recover|"+fname(f), "%s recovers from panics (%s): failures are swallowed", fname(f), P.instrPos(in))
					}
					continue
				}
				sig := c.Signature()
				if lastIsErr(sig) {
					r.count("error_returning_calls", 1)
					if !a.canFail(c) {
						r.ok(1)
						continue
					}
					r.count("calls_that_can_fail", 1)
					r.ok(1)
					call, ok := in.(*ssa.Call)
					if !ok {
						r.bad("dropped|"+fname(f)+"|"+calleeName(c), "%s drops the error of the deferred or spawned %s (%s)", fname(f), calleeName(c), P.instrPos(in))
						continue
					}
					var e ssa.Value
					if sig.Results().Len() == 1 {
						e = call
					} else {
						for _, u := range *call.Referrers() {
							if x, ok := u.(*ssa.Extract); ok && x.Index == sig.Results().Len()-1 {
								e = x
							}
						}
					}
					if e == nil || e.Referrers() == nil || len(*e.Referrers()) == 0 {
						if neverFailsHere(P, f, call) {
							r.count("dropped_but_always_nil", 1)
							continue
						}
						r.bad("dropped|"+fname(f)+"|"+calleeName(c), "%s drops the error of %s (%s)", fname(f), calleeName(c), P.instrPos(in))
						continue
					}
					w := &errWalk{a: a, f: f, step: in, src: e, seen: map[string]bool{}}
					w.walk(b, nil, i+1, errState{phi: map[*ssa.Phi]ssa.Value{}, cell: map[ssa.Value]ssa.Value{}})
					if w.bad != "" {
						r.bad("swallowed|"+fname(f)+"|"+calleeName(c), "when %s fails (%s), %s %s", calleeName(c), P.instrPos(in), fname(f), w.bad)
					}
					if len(r.Sample) < 8 && r.Counts["calls_that_can_fail"]%17 == 0 {
						r.sample(fmt.Sprintf("error of %s in %s (%s): every failing path reports", calleeName(c), fname(f), P.instrPos(in)))
					}
					continue
				}
				// (value, found)
				if n := sig.Results().Len(); n >= 2 {
					if bt, ok := sig.Results().At(n - 1).Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
						fs, _ := P.callees(c)
						if len(fs) == 0 || !inRepo(fs[0]) {
							continue
						}
						r.count("found_results", 1)
						r.ok(1)
						call, ok := in.(*ssa.Call)
						if !ok {
							continue
						}
						var e ssa.Value
						for _, u := range *call.Referrers() {
							if x, ok := u.(*ssa.Extract); ok && x.Index == n-1 {
								e = x
							}
						}
						if e == nil || len(*e.Referrers()) == 0 {
							r.bad("dropped|"+fname(f)+"|"+calleeName(c), "%s does not look whether %s found anything (%s)", fname(f), calleeName(c), P.instrPos(in))
							continue
						}
						if p := missPath(f, b, i+1, e); p != nil {
							r.bad("swallowed|"+fname(f)+"|"+calleeName(c), "when %s finds nothing (%s), %s carries on to a normal return (%s)", calleeName(c), P.instrPos(in), fname(f), P.instrPos(p))
						}
					}
				}
			}
		}
		checkTypeSwitch(P, r, f)
	}
	r.atLeast("functions", 600)
	r.atLeast("calls_that_can_fail", 60)
}

// missPath follows the paths on which boolean e is false; it returns a normal return reached, or nil.
func missPath(f *ssa.Function, b *ssa.BasicBlock, i int, e ssa.Value) ssa.Instruction {
	return boolPath(b, i, map[ssa.Value]bool{e: false})
}

// boolPath explores from instruction i of block b with known booleans; it returns a return that reports nothing.
func boolPath(b *ssa.BasicBlock, i int, known map[ssa.Value]bool) ssa.Instruction {
	type st struct{ b, p *ssa.BasicBlock }
	seen := map[st]bool{}
	var eval func(v ssa.Value, p *ssa.BasicBlock) (bool, bool)
	eval = func(v ssa.Value, p *ssa.BasicBlock) (bool, bool) {
		if k, ok := known[v]; ok {
			return k, true
		}
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value != nil && x.Value.String() == "true", true
		case *ssa.UnOp:
			if x.Op == token.NOT {
				k, ok := eval(x.X, p)
				return !k, ok
			}
		case *ssa.Phi:
			for j, q := range x.Block().Preds {
				if q == p {
					return eval(x.Edges[j], p)
				}
			}
		}
		return false, false
	}
	var walk func(b, p *ssa.BasicBlock, i int) ssa.Instruction
	walk = func(b, p *ssa.BasicBlock, i int) ssa.Instruction {
		if i == 0 {
			if seen[st{b, p}] {
				return nil
			}
			seen[st{b, p}] = true
		}
		for ; i < len(b.Instrs); i++ {
			switch x := b.Instrs[i].(type) {
			case *ssa.Panic:
				return nil
			case *ssa.Return:
				n := len(x.Results)
				if n > 0 {
					last := x.Results[n-1]
					if ph, ok := last.(*ssa.Phi); ok && ph.Block() == b {
						for j, q := range b.Preds {
							if q == p {
								last = ph.Edges[j]
							}
						}
					}
					if isErrT(last.Type()) && !nilErr(last) {
						return nil
					}
					if k, ok := eval(last, p); ok && !k {
						return nil // hands the miss on
					}
				}
				return x
			case *ssa.If:
				if k, ok := eval(x.Cond, p); ok {
					if k {
						return walk(b.Succs[0], b, 0)
					}
					return walk(b.Succs[1], b, 0)
				}
				if r := walk(b.Succs[0], b, 0); r != nil {
					return r
				}
				return walk(b.Succs[1], b, 0)
			case *ssa.Jump:
				return walk(b.Succs[0], b, 0)
			}
		}
		return nil
	}
	return walk(b, nil, i)
}

// checkTypeSwitch: interface parameters only examined by assertions need a reporting default.
func checkTypeSwitch(P *Prog, r *Report, f *ssa.Function) {
	for _, p := range f.Params {
		if !types.IsInterface(p.Type()) || isErrT(p.Type()) {
			continue
		}
		known := map[ssa.Value]bool{}
		n, other := 0, false
		for _, u := range *p.Referrers() {
			switch x := u.(type) {
			case *ssa.TypeAssert:
				if !x.CommaOk {
					other = true
					continue
				}
				n++
				for _, q := range *x.Referrers() {
					if e, ok := q.(*ssa.Extract); ok && e.Index == 1 {
						known[e] = false
					}
				}
			case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.DebugRef:
			case *ssa.Call:
				// printing the value in the message of the report is fine; handing it on is not an examination
				if x.Call.IsInvoke() && x.Call.Value == p {
					other = true
				}
			}
		}
		if n == 0 || other {
			continue
		}
		r.count("type_switches", 1)
		r.ok(1)
		if x := boolPath(f.Blocks[0], 0, known); x != nil {
			r.bad("type|"+fname(f)+"|"+p.Name(), "%s returns normally (%s) when %s has none of the types it examines", fname(f), P.instrPos(x), p.Name())
		}
	}
}
