package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect is one observed write to memory that existed before the call.
type Effect struct {
	Root  string // parameter (or global) the memory was reached from
	Path  string // access path of the written cell
	Obj   *Obj
	Instr ssa.Instruction
	Stack string
}

type EffectRun struct {
	F       *ssa.Function
	Writes  map[string]*Effect // by root|path
	Reads   map[string]bool
	Externs map[string]string // external call -> stack
	Rand    map[string]string // draws from the repository's generators
	Undec   map[string]bool
	Err     string
	Steps   int
	Result  Val
	Out     *State
	I       *Interp
	Panics  bool
}

func stackOf(P *Prog, fr *Frame, instr ssa.Instruction) string {
	s := fmt.Sprintf("%s (%s)", fname(instr.Parent()), P.instrPos(instr))
	for x := fr; x != nil && x.call != nil; x = x.up {
		if x.call.Parent() == nil {
			break
		}
		s = fmt.Sprintf("%s (%s) -> ", fname(x.call.Parent()), P.instrPos(x.call)) + s
	}
	return s
}

// paramName gives a stable name of parameter i.
func paramName(f *ssa.Function, i int) string {
	if f.Signature.Recv() != nil && i == 0 {
		return "recv"
	}
	n := f.Params[i].Name()
	if n == "_" || n == "" {
		n = fmt.Sprintf("arg%d", i)
	}
	return n
}

// newEntry builds the frame and symbolic arguments of an analysis entry point.
func (I *Interp) newEntry(f *ssa.Function, args map[string]Val) (*Frame, *State) {
	fr := &Frame{fn: f, env: map[ssa.Value]Val{}, ctx: I.root, info: I.info(f)}
	st := &State{h: newHeap()}
	for i, p := range f.Params {
		n := paramName(f, i)
		if v, ok := args[n]; ok {
			fr.env[p] = v
			continue
		}
		fr.env[p] = I.symVal(n, p.Type(), nil, n)
	}
	return fr, st
}

func runEffects(P *Prog, f *ssa.Function) *EffectRun {
	I := newInterp(P)
	R := &EffectRun{F: f, Writes: map[string]*Effect{}, Reads: map[string]bool{}, Externs: map[string]string{}, Rand: map[string]string{}, Undec: map[string]bool{}, I: I}
	I.H.Write = func(I *Interp, fr *Frame, st *State, t Tgt, v Val, instr ssa.Instruction) {
		if t.o.kind == OAlloc {
			return
		}
		root := t.o.root
		k := root + "|" + t.o.name + t.p
		if R.Writes[k] == nil {
			R.Writes[k] = &Effect{Root: root, Path: t.o.name + t.p, Obj: t.o, Instr: instr, Stack: stackOf(P, fr, instr)}
		}
	}
	I.H.Extern = func(I *Interp, fr *Frame, st *State, name string, args []Val, instr ssa.Instruction) {
		if _, ok := R.Externs[name]; !ok {
			R.Externs[name] = stackOf(P, fr, instr)
		}
	}
	I.H.Call = func(I *Interp, fr *Frame, st *State, fn *ssa.Function, args []Val, instr ssa.Instruction) (Val, bool) {
		if fn.Signature.Recv() != nil && (fn.Name() == "Clock" || fn.Name() == "SetClock" || fn.Name() == "Read") && strings.HasPrefix(typeName(deref(fn.Signature.Recv().Type())), "utils.") {
			if _, ok := R.Rand[fname(fn)]; !ok {
				R.Rand[fname(fn)] = stackOf(P, fr, instr)
			}
		}
		return nil, false
	}
	I.H.Undecided = func(I *Interp, fr *Frame, what string, instr ssa.Instruction) {
		R.Undec[what+" at "+stackOf(P, fr, instr)] = true
	}
	fr, st := I.newEntry(f, nil)
	v, out := I.runFn(fr, st)
	R.Result, R.Out = v, out
	R.Panics = out == nil
	R.Err = I.overflow
	for e, p := range I.unknownExt {
		R.Undec["call of "+e+" outside the model at "+p] = true
	}
	R.Steps = I.steps
	return R
}

// immutableTypes are objects no operation may write after construction.
func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/") + "." + n.Obj().Name()
	}
	return ""
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// apiFuncs are the exported functions and methods (of exported or unexported types reachable
// through exported interfaces) of the library packages.
func apiFuncs(P *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || f.Object() == nil {
			continue
		}
		pk := strings.TrimPrefix(f.Object().Pkg().Path(), modPath+"/")
		if strings.HasPrefix(pk, "profile") {
			continue
		}
		if !f.Object().Exported() {
			continue
		}
		if strings.HasSuffix(P.Fset.Position(f.Pos()).Filename, "_test.go") {
			continue
		}
		out = append(out, f)
	}
	return out
}

// Share is a reference from storage of one owner to storage of another after a call.
type Share struct {
	From string // "result" or the root that now holds the reference
	To   string // root of the referenced storage
	Path string // access path of the referenced storage
	Via  string // where it is held
	Obj  *Obj
}

// shares lists references created by the call between different owners.
func (R *EffectRun) shares() []Share {
	if R.Out == nil {
		return nil
	}
	var out []Share
	seen := map[string]bool{}
	add := func(s Share) {
		k := s.From + "|" + s.To + "|" + s.Path
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	// cells by object
	cells := map[*Obj][]Key{}
	for h := R.Out.h; h != nil; h = h.up {
		for k := range h.m {
			cells[k.o] = append(cells[k.o], k)
		}
	}
	for _, ks := range cells {
		sort.Slice(ks, func(i, j int) bool { return ks[i].p < ks[j].p })
	}
	var walk func(v Val, from, via string, visited map[*Obj]bool)
	visitObj := func(o *Obj, from, via string, visited map[*Obj]bool) {
		if visited[o] {
			return
		}
		visited[o] = true
		if o.kind == OSym || o.kind == OGlobal {
			if o.root != from {
				add(Share{From: from, To: o.root, Path: o.name, Via: via, Obj: o})
			}
			return
		}
		for _, k := range cells[o] {
			v, _ := R.Out.h.get(k)
			walk(v, from, via+k.p, visited)
		}
	}
	walk = func(v Val, from, via string, visited map[*Obj]bool) {
		switch v := v.(type) {
		case *Ptr:
			for _, t := range v.ts {
				visitObj(t.o, from, via, visited)
			}
		case *Slc:
			for _, t := range v.ts {
				visitObj(t.o, from, via, visited)
			}
		case *Mp:
			for _, o := range v.os {
				visitObj(o, from, via, visited)
			}
		case *Agg:
			for i, f := range v.f {
				n := via
				if s, ok := v.typ.Underlying().(*types.Struct); ok {
					n = via + "." + s.Field(i).Name()
				}
				walk(f, from, n, visited)
			}
		case *Tup:
			for _, f := range v.vs {
				walk(f, from, via, visited)
			}
		case *Ifc:
			for _, t := range v.ts {
				walk(t.v, from, via, visited)
			}
			if v.open != "" && v.op != nil && v.op.root != from && v.op.root != "opaque" && !isErr(v.ityp) {
				add(Share{From: from, To: v.op.root, Path: v.open, Via: via, Obj: v.op})
			}
		case *Fn:
			for _, t := range v.ts {
				for _, b := range t.bind {
					walk(b, from, via, visited)
				}
			}
		}
	}
	walk(R.Result, "result", "result", map[*Obj]bool{})
	var objs []*Obj
	for o := range cells {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		ks := cells[o]
		if o.kind == OAlloc {
			continue
		}
		for _, k := range ks {
			v, _ := R.Out.h.get(k)
			walk(v, o.root, o.name+k.p, map[*Obj]bool{})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].From != out[j].From {
			return out[i].From < out[j].From
		}
		return out[i].Path < out[j].Path
	})
	return out
}

func isErr(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// immutableObj: the storage belongs to an object that is never written after construction.
func immutableObj(o *Obj) string {
	for x := o; x != nil; x = x.parent {
		if n := typeName(x.typ); immutableTypes[n] {
			return n
		}
	}
	return ""
}

var immutableTypes = map[string]bool{
	"ring.Ring": true, "ring.NumberTheoreticTransformerStandard": true, "ring.NumberTheoreticTransformerConjugateInvariant": true,
	"rlwe.Parameters": true, "ckks.Parameters": true, "frlwe.Parameters": true, "fckks.Parameters": true, "rlwe.RingQP": true,
	"rlwe.SecretKey": true, "rlwe.PublicKey": true, "rlwe.SwitchingKey": true, "rlwe.RelinearizationKey": true, "rlwe.RotationKeySet": true, "rlwe.EvaluationKey": true,
	"frlwe.SwitchingKey": true, "ring.Decomposer": true,
	"math/big.Int": false,
}
