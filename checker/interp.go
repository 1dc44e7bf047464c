package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Ctx is an interned call-stack context.
type Ctx struct {
	id    int
	up    *Ctx
	call  ssa.Instruction
	iter  string
	fn    *ssa.Function
	depth int
}

type ctxKey struct {
	up   *Ctx
	call ssa.Instruction
	iter string
	fn   *ssa.Function
}

// Hooks are the client analyses' callbacks.
type Hooks struct {
	// Call may replace the interpretation of a call. Returns handled.
	Call func(I *Interp, fr *Frame, st *State, fn *ssa.Function, args []Val, instr ssa.Instruction) (Val, bool)
	// Write is called for each cell write (or content write).
	Write func(I *Interp, fr *Frame, st *State, t Tgt, v Val, instr ssa.Instruction)
	Read  func(I *Interp, fr *Frame, st *State, t Tgt, v Val, instr ssa.Instruction)
	// InitAttr gives the attribute of symbolic numeric content.
	InitAttr func(I *Interp, o *Obj, p string, t types.Type) Attr
	// ZeroAttr is the attribute of zero-initialised numeric content.
	ZeroAttr func() Attr
	// Ret sees the result of every repository function interpreted.
	Ret func(I *Interp, fr *Frame, st *State, f *ssa.Function, args []Val, v Val) Val
	// SymName renames the symbols of the entry state.
	SymName func(name string) string
	// LenOf overrides the symbolic length of a sym slice.
	LenOf func(I *Interp, name string, t types.Type) *Term
	// Init overrides symbolic initial values by cell name.
	Init func(I *Interp, name string, t types.Type) (Val, bool)
	// Canon canonicalises the name of a sym object reached by a pointer or slice stored at name.
	Canon func(name string, t types.Type) string
	// Arith combines attributes of an arithmetic instruction on numeric values.
	Arith          func(I *Interp, fr *Frame, st *State, instr ssa.Instruction, x, y Val, t *Term) Attr
	Extern         func(I *Interp, fr *Frame, st *State, name string, args []Val, instr ssa.Instruction)
	Undecided      func(I *Interp, fr *Frame, what string, instr ssa.Instruction)
	StrongContent  bool // content writes replace (domain mode)
	AssumeNonEmpty bool // loops starting at 0 run at least once
	Peel           bool
	LimbLoops      bool
	LimbExit       func(I *Interp, fr *Frame, st *State, before *Heap, i *Term, lo, hi *Term)
	OneDigit       bool
	Mark           func() int // number of findings so far
	Undo           func(int)  // forget the findings after the mark
	NilSym         func(name string) (isNil, known bool)
	// LoadC and StoreC replace reads and writes of numeric contents (paths ending in [*]).
	LoadC  func(I *Interp, fr *Frame, st *State, tg Tgt, t types.Type, instr ssa.Instruction) (Val, bool)
	StoreC func(I *Interp, fr *Frame, st *State, tg Tgt, v Val, t types.Type, strong bool, instr ssa.Instruction) bool
	// Index sees every slice indexing.
	Index func(I *Interp, fr *Frame, st *State, in *ssa.IndexAddr, t STgt, idx *Term)
	// FloatOf names the floating-point value of an integer without a term.
	FloatOf  func(n *Num) *Term
	FloatQuo func(in ssa.Instruction, x, y *Term)
	// Domain selects the naming of elements used by the content analyses: rows and elements of slices of
	// unknown length share one name.
	Domain bool
	Branch func(I *Interp, fr *Frame, st *State, instr *ssa.If, c Val)
	// Choose decides an otherwise undecided branch condition by case split.
	Choose func(fr *Frame, st *State, c *Term) (v, ok bool)
}

type Interp struct {
	quiet      int // >0: a pass whose findings do not count
	P          *Prog
	H          Hooks
	objs       []*Obj
	symTab     map[string]*Obj
	allocT     map[string]*Obj
	globT      map[*ssa.Global]*Obj
	paths      map[*Obj]map[string]bool
	ctyp       map[Key]types.Type
	cells      map[*Obj]map[string]types.Type
	ctxTab     map[ctxKey]*Ctx
	ctxN       int
	steps      int
	maxStep    int
	root       *Ctx
	fresh      int
	unknownExt map[string]string
	overflow   string
	loopInfo   map[*ssa.Function]*fnInfo
}

type Frame struct {
	fn    *ssa.Function
	env   map[ssa.Value]Val
	ctx   *Ctx
	up    *Frame
	call  ssa.Instruction
	iter  string
	rets  []retItem
	free  []Val
	info  *fnInfo
	dep   int
	loops []*activeLoop
}

type activeLoop struct {
	L       *loop
	ind     map[*ssa.Phi]*Term
	lo      map[*ssa.Phi]*Term
	generic bool
	digits  map[*Obj]string // arrays of polynomials indexed by the loop variable: the index, "!" when other elements are accessed too
}

type retItem struct {
	b  *ssa.BasicBlock
	st *State
	v  Val
}

type loop struct {
	h      *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	limb   int // 0 unknown, 1 yes, 2 no
}
type fnInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loop
}

func newInterp(P *Prog) *Interp {
	I := &Interp{P: P, symTab: map[string]*Obj{}, allocT: map[string]*Obj{}, globT: map[*ssa.Global]*Obj{}, paths: map[*Obj]map[string]bool{},
		ctyp: map[Key]types.Type{}, cells: map[*Obj]map[string]types.Type{}, ctxTab: map[ctxKey]*Ctx{}, maxStep: 6000000, unknownExt: map[string]string{}, loopInfo: map[*ssa.Function]*fnInfo{}}
	I.root = &Ctx{}
	return I
}

func (I *Interp) info(f *ssa.Function) *fnInfo {
	if fi, ok := I.loopInfo[f]; ok {
		return fi
	}
	fi := &fnInfo{loops: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(f.Blocks) > 0 {
		dfs(f.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				L := fi.loops[s]
				if L == nil {
					L = &loop{h: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = L
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if L.blocks[x] {
						continue
					}
					L.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	I.loopInfo[f] = fi
	return fi
}

// ---- objects

func (I *Interp) newObj(o *Obj) *Obj {
	o.id = len(I.objs)
	I.objs = append(I.objs, o)
	return o
}

func (I *Interp) symObj(name string, t types.Type, arr bool, parent *Obj, root string) *Obj {
	if I.H.Canon != nil {
		if c := I.H.Canon(name, t); c != "" {
			name = c
		}
	}
	key := name
	if arr {
		key += "|arr"
	}
	if o, ok := I.symTab[key]; ok {
		return o
	}
	o := I.newObj(&Obj{kind: OSym, name: name, typ: t, arr: arr, parent: parent, root: root})
	if arr {
		if I.H.LenOf != nil {
			o.lenT = I.H.LenOf(I, name, t)
		}
		if o.lenT == nil {
			o.lenT = tAtom(mkAtom("len:" + name))
		}
	}
	I.symTab[key] = o
	return o
}

func (I *Interp) allocObj(fr *Frame, instr ssa.Instruction, t types.Type, arr bool, tag string) *Obj {
	key := fmt.Sprintf("%d|%p|%s|%s", fr.ctx.id, instr, fr.iter, tag)
	if o, ok := I.allocT[key]; ok {
		return o
	}
	o := I.newObj(&Obj{kind: OAlloc, name: "new@" + I.P.instrPos(instr), typ: t, arr: arr, site: instr, zero: true})
	I.allocT[key] = o
	return o
}

func (I *Interp) globObj(g *ssa.Global) *Obj {
	if o, ok := I.globT[g]; ok {
		return o
	}
	o := I.newObj(&Obj{kind: OGlobal, name: "global:" + g.String(), typ: deref(g.Type()), root: "global:" + strings.ReplaceAll(g.String(), modPath+"/", "")})
	I.globT[g] = o
	return o
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsNumeric|types.IsBoolean|types.IsString) != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (I *Interp) symName(n string) string {
	if I.H.SymName != nil {
		return I.H.SymName(n)
	}
	return n
}

// symVal creates a symbolic value of type t named name, held by object parent.
func (I *Interp) symVal(name string, t types.Type, parent *Obj, root string) Val {
	if I.H.Init != nil {
		if v, ok := I.H.Init(I, name, t); ok {
			return v
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return top
		}
		if u.Info()&types.IsFloat != 0 {
			return &Num{T: fSym(I.symName(name))}
		}
		return &Num{T: tSym(I.symName(name))}
	case *types.Pointer:
		o := I.symObj(name, u.Elem(), false, parent, root)
		return &Ptr{ts: []Tgt{{o: o}}}
	case *types.Slice:
		o := I.symObj(name, u.Elem(), true, parent, root)
		return &Slc{ts: []STgt{{o: o, off: tConst(0), ln: o.lenT}}}
	case *types.Struct:
		a := &Agg{typ: t, f: make([]Val, u.NumFields())}
		for i := range a.f {
			a.f[i] = I.symVal(name+"."+u.Field(i).Name(), u.Field(i).Type(), parent, root)
		}
		return a
	case *types.Array:
		if isNumeric(u.Elem()) || u.Len() > 16 {
			return &Agg{typ: t, f: []Val{I.symVal(name+"[*]", u.Elem(), parent, root)}}
		}
		a := &Agg{typ: t, f: make([]Val, u.Len())}
		for i := range a.f {
			a.f[i] = I.symVal(fmt.Sprintf("%s[%d]", name, i), u.Elem(), parent, root)
		}
		return a
	case *types.Interface:
		return &Ifc{open: name, ityp: t, op: &Obj{kind: OSym, name: name, parent: parent, root: root, id: -1}, nil_: true}
	case *types.Signature:
		return &Fn{open: true, name: name, op: &Obj{kind: OSym, name: name, parent: parent, root: root, id: -1}}
	case *types.Map:
		o := I.symObj(name, u.Elem(), true, parent, root)
		o.mp = true
		return &Mp{os: []*Obj{o}}
	}
	return top
}

func (I *Interp) zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		var a Attr
		if u.Info()&types.IsNumeric != 0 && I.H.ZeroAttr != nil {
			a = I.H.ZeroAttr()
		}
		if u.Info()&types.IsFloat != 0 {
			return &Num{T: fConst(0), A: a}
		}
		if u.Info()&types.IsString != 0 {
			return &Num{T: tSym(`""`)}
		}
		if u.Info()&types.IsComplex != 0 || u.Kind() == types.UnsafePointer {
			return &Num{A: a}
		}
		return &Num{T: tConst(0), A: a}
	case *types.Pointer:
		return &Ptr{nil_: true}
	case *types.Slice:
		return &Slc{nil_: true}
	case *types.Struct:
		a := &Agg{typ: t, f: make([]Val, u.NumFields())}
		for i := range a.f {
			a.f[i] = I.zeroVal(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		if isNumeric(u.Elem()) || n > 16 {
			n = 1
		}
		a := &Agg{typ: t, f: make([]Val, n)}
		for i := range a.f {
			a.f[i] = I.zeroVal(u.Elem())
		}
		return a
	case *types.Interface:
		return &Ifc{nil_: true, ityp: t}
	case *types.Signature:
		return &Fn{nil_: true}
	case *types.Map:
		return &Mp{nil_: true}
	}
	return top
}

// initCell is the value of a cell never written in this run.
func (I *Interp) initCell(k Key, t types.Type) Val {
	o := k.o
	if o.kind == OAlloc {
		return I.zeroVal(t)
	}
	name := o.name + k.p
	if o.kind == OGlobal {
		name = o.root + k.p
	}
	v := I.symVal(name, t, o, o.root)
	if n, ok := v.(*Num); ok {
		nn := *n
		if strings.HasSuffix(k.p, "[*]") {
			nn.T = nil
		}
		if I.H.InitAttr != nil {
			nn.A = I.H.InitAttr(I, o, k.p, t)
		}
		return &nn
	}
	return v
}

func splitPath(p string) []string {
	var r []string
	for i := 0; i < len(p); {
		j := i + 1
		if p[i] == '[' {
			for p[j-1] != ']' {
				j++
			}
		} else {
			for j < len(p) && p[j] != '.' && p[j] != '[' {
				j++
			}
		}
		r = append(r, p[i:j])
		i = j
	}
	return r
}

func pathsOverlap(a, b string) bool {
	if a == b {
		return true
	}
	x, y := splitPath(a), splitPath(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] == y[i] {
			continue
		}
		if x[i][0] == '[' && y[i][0] == '[' && (x[i] == "[*]" || y[i] == "[*]") {
			continue
		}
		return false
	}
	return true
}

// loadCell reads a leaf cell.
func (I *Interp) loadCell(st *State, k Key, t types.Type) Val {
	v, ok := st.h.get(k)
	if !ok {
		v = I.initCell(k, t)
	}
	if strings.Contains(k.p, "[") {
		for q := range I.paths[k.o] {
			if q != k.p && pathsOverlap(q, k.p) {
				if w, ok := st.h.get(Key{k.o, q}); ok {
					v = joinVal(v, w, joinCtx{}, "")
				}
			}
		}
	}
	return v
}

func (I *Interp) storeCell(st *State, k Key, v Val, t types.Type, strong bool) {
	if strings.Contains(k.p, "[") {
		ps := I.paths[k.o]
		if ps == nil {
			ps = map[string]bool{}
			I.paths[k.o] = ps
		}
		ps[k.p] = true
		if !strong {
			for q := range ps {
				if q != k.p && pathsOverlap(q, k.p) {
					if w, ok := st.h.get(Key{k.o, q}); ok {
						st.h.m[Key{k.o, q}] = joinVal(w, v, joinCtx{}, "")
					}
				}
			}
		}
	}
	if !strong {
		old, ok := st.h.get(k)
		if !ok {
			old = I.initCell(k, t)
		}
		v = joinVal(old, v, joinCtx{}, "")
	}
	I.noteCell(k, t)
	st.h.m[k] = v
}

// load reads a value of type t at target.
func (I *Interp) load(fr *Frame, st *State, tg Tgt, t types.Type, instr ssa.Instruction) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{typ: t, f: make([]Val, u.NumFields())}
		for i := range a.f {
			a.f[i] = I.load(fr, st, Tgt{o: tg.o, p: tg.p + "." + u.Field(i).Name(), sel: tg.sel}, u.Field(i).Type(), instr)
		}
		return a
	case *types.Array:
		if isNumeric(u.Elem()) || u.Len() > 16 {
			return &Agg{typ: t, f: []Val{I.load(fr, st, Tgt{o: tg.o, p: tg.p + "[*]"}, u.Elem(), instr)}}
		}
		a := &Agg{typ: t, f: make([]Val, u.Len())}
		for i := range a.f {
			a.f[i] = I.load(fr, st, Tgt{o: tg.o, p: fmt.Sprintf("%s[%d]", tg.p, i)}, u.Elem(), instr)
		}
		return a
	}
	if I.H.LoadC != nil && isNumeric(t) && strings.HasSuffix(tg.p, "[*]") {
		if v, ok := I.H.LoadC(I, fr, st, tg, t, instr); ok {
			return v
		}
	}
	v := I.loadCell(st, Key{tg.o, tg.p}, t)
	if tg.sel != nil {
		v = withSel(v, tg.sel)
	}
	if I.H.Read != nil {
		I.H.Read(I, fr, st, tg, v, instr)
	}
	return v
}

func withSel(v Val, sel *Term) Val {
	if s, ok := v.(*Slc); ok {
		r := &Slc{nil_: s.nil_, ts: append([]STgt{}, s.ts...)}
		for i := range r.ts {
			r.ts[i].sel = sel
		}
		return r
	}
	return v
}

func (I *Interp) store(fr *Frame, st *State, tg Tgt, v Val, t types.Type, strong bool, instr ssa.Instruction) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a, ok := v.(*Agg)
		for i := 0; i < u.NumFields(); i++ {
			var fv Val = top
			if ok {
				fv = a.f[i]
			}
			I.store(fr, st, Tgt{o: tg.o, p: tg.p + "." + u.Field(i).Name(), sel: tg.sel}, fv, u.Field(i).Type(), strong, instr)
		}
		return
	case *types.Array:
		a, ok := v.(*Agg)
		if isNumeric(u.Elem()) || u.Len() > 16 {
			var fv Val = top
			if ok {
				fv = a.f[0]
			}
			I.store(fr, st, Tgt{o: tg.o, p: tg.p + "[*]"}, fv, u.Elem(), strong, instr)
			return
		}
		for i := 0; i < int(u.Len()); i++ {
			var fv Val = top
			if ok {
				fv = a.f[i]
			}
			I.store(fr, st, Tgt{o: tg.o, p: fmt.Sprintf("%s[%d]", tg.p, i)}, fv, u.Elem(), strong, instr)
		}
		return
	}
	if I.H.Write != nil {
		I.H.Write(I, fr, st, tg, v, instr)
	}
	single := strong
	if strings.HasSuffix(tg.p, "[*]") || strings.Contains(tg.p, "[*]") {
		if !(I.H.StrongContent && isNumeric(t) && strings.Count(tg.p, "[*]") == 1) {
			strong = false
		}
	}
	if I.H.StoreC != nil && isNumeric(t) && strings.HasSuffix(tg.p, "[*]") {
		if I.H.StoreC(I, fr, st, tg, v, t, single, instr) {
			return
		}
	}
	if n, ok := v.(*Num); ok && strings.HasSuffix(tg.p, "[*]") && n.T != nil {
		v = &Num{A: n.A}
	}
	I.storeCell(st, Key{tg.o, tg.p}, v, t, strong)
}

func (I *Interp) loadPtr(fr *Frame, st *State, v Val, t types.Type, instr ssa.Instruction) Val {
	p, ok := v.(*Ptr)
	if !ok || len(p.ts) == 0 {
		if !ok && I.H.Undecided != nil {
			I.H.Undecided(I, fr, "load through an unresolved pointer", instr)
		}
		return I.unknown(t, instr, fr)
	}
	var r Val
	for _, tg := range p.ts {
		w := I.load(fr, st, tg, t, instr)
		if r == nil {
			r = w
		} else {
			r = joinVal(r, w, joinCtx{}, "")
		}
	}
	return r
}

func (I *Interp) storePtr(fr *Frame, st *State, v Val, x Val, t types.Type, instr ssa.Instruction) {
	p, ok := v.(*Ptr)
	if !ok {
		if I.H.Undecided != nil {
			I.H.Undecided(I, fr, "store through an unresolved pointer", instr)
		}
		return
	}
	for _, tg := range p.ts {
		I.store(fr, st, tg, x, t, len(p.ts) == 1, instr)
	}
}

// unknown creates an unconstrained value of type t.
func (I *Interp) unknown(t types.Type, instr ssa.Instruction, fr *Frame) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return &Num{}
	case *types.Struct, *types.Array, *types.Slice, *types.Pointer, *types.Map:
		_ = u
		name := fmt.Sprintf("opaque@%s", I.P.instrPos(instr))
		return I.symVal(name, t, nil, "opaque")
	case *types.Interface:
		return &Ifc{open: fmt.Sprintf("opaque@%s", I.P.instrPos(instr)), ityp: t, nil_: true}
	case *types.Signature:
		return &Fn{open: true}
	case *types.Tuple:
		r := &Tup{}
		for i := 0; i < u.Len(); i++ {
			r.vs = append(r.vs, I.unknown(u.At(i).Type(), instr, fr))
		}
		return r
	}
	return top
}

// ---- evaluation

func (fr *Frame) val(I *Interp, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return I.constVal(v)
	case *ssa.Global:
		return &Ptr{ts: []Tgt{{o: I.globObj(v)}}}
	case *ssa.Function:
		return &Fn{ts: []FTgt{{fn: v}}}
	case *ssa.Builtin:
		return top
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v && i < len(fr.free) {
				return fr.free[i]
			}
		}
		return top
	}
	if x, ok := fr.env[v]; ok {
		return x
	}
	return top
}

func (I *Interp) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return I.zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return &Num{T: tConst(1)}
		}
		return &Num{T: tConst(0)}
	case constant.String:
		return &Num{T: tSym(strconv.Quote(constant.StringVal(c.Value)))}
	}
	var a Attr
	if I.H.ZeroAttr != nil && constant.Sign(c.Value) == 0 {
		a = I.H.ZeroAttr()
	}
	if isFloat(c.Type()) {
		f, _ := constant.Float64Val(c.Value)
		return &Num{T: fConst(f), A: a}
	}
	if isInteger(c.Type()) {
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return &Num{T: tConst(i), A: a}
		}
		t := tSym("#" + c.Value.ExactString())
		return &Num{T: t}
	}
	return &Num{A: a}
}

func notT(t *Term) *Term {
	if t == nil {
		return nil
	}
	if c, ok := t.constVal(); ok {
		return tConst(1 - c)
	}
	if a, ok := soleAtom(t); ok {
		switch a.op {
		case "not":
			return a.args[0]
		case "lt":
			return tApp("le", a.args[1], a.args[0])
		case "le":
			return tApp("lt", a.args[1], a.args[0])
		}
	}
	return tApp("not", t)
}

func (I *Interp) cmpInt(op token.Token, x, y *Term, f *Facts) *Term {
	if x == nil || y == nil {
		return nil
	}
	switch op {
	case token.GTR:
		return I.cmpInt(token.LSS, y, x, f)
	case token.GEQ:
		return I.cmpInt(token.LEQ, y, x, f)
	case token.NEQ:
		return notT(I.cmpInt(token.EQL, x, y, f))
	}
	if x.isF || y.isF {
		if x.isFConst() && y.isFConst() {
			var b bool
			switch op {
			case token.LSS:
				b = x.fc < y.fc
			case token.LEQ:
				b = x.fc <= y.fc
			case token.EQL:
				b = x.fc == y.fc
			}
			if b {
				return tConst(1)
			}
			return tConst(0)
		}
		switch op {
		case token.LSS:
			return tApp("flt", x, y)
		case token.LEQ:
			return tApp("fle", x, y)
		}
		if x.key > y.key {
			x, y = y, x
		}
		if x == y {
			return tConst(1)
		}
		return tApp("feq", x, y)
	}
	switch op {
	case token.LSS:
		if leq(tAdd(x, tConst(1)), y, f) {
			return tConst(1)
		}
		if leq(y, x, f) {
			return tConst(0)
		}
		return tApp("lt", x, y)
	case token.LEQ:
		if leq(x, y, f) {
			return tConst(1)
		}
		if leq(tAdd(y, tConst(1)), x, f) {
			return tConst(0)
		}
		return tApp("le", x, y)
	case token.EQL:
		if x == y {
			return tConst(1)
		}
		d := tSub(x, y)
		if d == nil {
			return nil
		}
		if d.isConst() {
			if d.c == 0 {
				return tConst(1)
			}
			return tConst(0)
		}
		if leq(tAdd(x, tConst(1)), y, f) || leq(tAdd(y, tConst(1)), x, f) {
			return tConst(0)
		}
		if strings.HasPrefix(x.key, `"`) && strings.HasPrefix(y.key, `"`) {
			return tConst(0)
		}
		if x.key > y.key {
			x, y = y, x
		}
		return tApp("eq", x, y)
	}
	return nil
}

func (I *Interp) symNil(name string) (isNil, known bool, key string) {
	if I.H.NilSym != nil {
		if n, ok := I.H.NilSym(name); ok {
			return n, true, ""
		}
	}
	return false, false, "isnil:" + name
}

func (I *Interp) nilness(v Val) (isNil, known bool, key string) {
	switch x := v.(type) {
	case *Ptr:
		if len(x.ts) == 0 {
			return true, true, ""
		}
		if !x.nil_ {
			if len(x.ts) == 1 && x.ts[0].o.kind == OSym && x.ts[0].p == "" && x.ts[0].o.name != x.ts[0].o.root {
				return I.symNil(x.ts[0].o.name)
			}
			return false, true, ""
		}
	case *Slc:
		if len(x.ts) == 0 {
			return true, true, ""
		}
		if !x.nil_ {
			if len(x.ts) == 1 && x.ts[0].o.kind == OSym {
				return I.symNil(x.ts[0].o.name)
			}
			return false, true, ""
		}
	case *Ifc:
		if len(x.ts) == 0 && x.open == "" {
			return true, true, ""
		}
		if !x.nil_ {
			return false, true, ""
		}
		if x.open != "" {
			return false, false, "isnil:" + x.open
		}
	case *Fn:
		if len(x.ts) == 0 && !x.open {
			return true, true, ""
		}
		if !x.nil_ && !x.open {
			return false, true, ""
		}
	case *Mp:
		if len(x.os) == 0 {
			return true, true, ""
		}
		if !x.nil_ {
			return false, true, ""
		}
	}
	return false, false, ""
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func boolV(b bool) Val {
	if b {
		return &Num{T: tConst(1)}
	}
	return &Num{T: tConst(0)}
}

// zeroPV: the contents that are compared with zero, by the name of the condition.
var zeroPV sync.Map

// isCallPV: the residue of a number.
func isCallPV(d *pvInfo) bool { return d.op == "call" || d.op == "ite" || d.op == "phi" }

// zeroV: the condition that a number the run does not compute is zero.
func zeroV(name string, op token.Token) Val {
	t := tSym(name)
	if op == token.NEQ {
		t = notT(t)
	}
	return &Num{T: t}
}

func numT(v Val) *Term {
	if n, ok := v.(*Num); ok {
		return n.T
	}
	return nil
}

// ifcSame: both interfaces hold the same pointer.
func ifcSame(p, q *Ifc) bool {
	if p.nil_ || q.nil_ || p.open != "" || q.open != "" || len(p.ts) != 1 || len(q.ts) != 1 || !types.Identical(p.ts[0].typ, q.ts[0].typ) {
		return false
	}
	a, ok1 := p.ts[0].v.(*Ptr)
	b, ok2 := q.ts[0].v.(*Ptr)
	if !ok1 || !ok2 || a.nil_ || b.nil_ || len(a.ts) != 1 || len(b.ts) != 1 {
		return false
	}
	x, y := a.ts[0], b.ts[0]
	return x.o == y.o && x.p == y.p && !strings.Contains(x.p, "[*]") && !strings.Contains(x.o.name, "[*]")
}

func (I *Interp) binop(fr *Frame, st *State, b *ssa.BinOp, x, y Val) Val {
	switch b.Op {
	case token.EQL, token.NEQ:
		var nv Val
		if isNilConst(b.Y) {
			nv = x
		} else if isNilConst(b.X) {
			nv = y
		}
		if nv != nil {
			isn, known, key := I.nilness(nv)
			if known {
				return boolV(isn == (b.Op == token.EQL))
			}
			if key != "" {
				t := tSym(key)
				if b.Op == token.NEQ {
					t = notT(t)
				}
				return &Num{T: t}
			}
			return &Num{}
		}
		if p, ok := x.(*Ptr); ok {
			if q, ok := y.(*Ptr); ok && len(p.ts) == 1 && len(q.ts) == 1 && !p.nil_ && !q.nil_ {
				same := p.ts[0].o == q.ts[0].o && p.ts[0].p == q.ts[0].p
				if same && !strings.Contains(p.ts[0].p, "[*]") && !strings.Contains(p.ts[0].o.name, "[*]") {
					return boolV(b.Op == token.EQL)
				}
				if !same && (p.ts[0].o != q.ts[0].o) {
					return boolV(b.Op == token.NEQ)
				}
			}
			return &Num{}
		}
		if p, ok := x.(*Ifc); ok {
			if q, ok := y.(*Ifc); ok && ifcDistinct(p, q) {
				return boolV(b.Op == token.NEQ)
			}
			if q, ok := y.(*Ifc); ok && ifcSame(p, q) {
				return boolV(b.Op == token.EQL)
			}
			if q, ok := y.(*Ifc); ok && p.open != "" && len(p.ts) == 0 && q.open == "" && len(q.ts) == 1 {
				if c, ok := numT(q.ts[0].v).constVal(); ok && c == 0 {
					return zeroV("zeroi:"+p.open, b.Op)
				}
			}
			return &Num{}
		}
	}
	xt, yt := numT(x), numT(y)
	switch b.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if _, ok := x.(*Num); !ok {
			return &Num{}
		}
		t := I.cmpInt(b.Op, xt, yt, st.facts)
		if t == nil && (b.Op == token.EQL || b.Op == token.NEQ) {
			if c, ok := yt.constVal(); ok && c == 0 {
				if a, ok := x.(*Num).A.(*CA); ok && a != nil && a.vn != nil && len(a.vn.ms) > 0 && fmMadeOf(a.vn, isCallPV) {
					zeroPV.Store("zero:"+a.vn.id, a.vn)
					return zeroV("zero:"+a.vn.id, b.Op)
				}
			}
		}
		return &Num{T: t}
	}
	var t *Term
	if isFloat(b.Type()) {
		switch b.Op {
		case token.ADD:
			t = fAdd(xt, yt, false)
		case token.SUB:
			t = fAdd(xt, yt, true)
		case token.MUL:
			t = fMul(xt, yt, 1)
		case token.QUO:
			t = fMul(xt, yt, -1)
			if I.H.FloatQuo != nil {
				I.H.FloatQuo(b, xt, yt)
			}
		}
	} else if isInteger(b.Type()) {
		switch b.Op {
		case token.ADD:
			t = tAdd(xt, yt)
		case token.SUB:
			t = tSub(xt, yt)
		case token.MUL:
			t = tMul(xt, yt)
		case token.QUO:
			t = tDiv(xt, yt)
		case token.REM:
			t = tRem(xt, yt)
		case token.SHL:
			if c, ok := constOf(yt); ok && c < 62 && xt != nil && (xt.isConst() == false || xt.c < (1<<20)) {
				t = tScale(xt, 1<<uint(c))
			} else if xt != nil && yt != nil {
				t = tApp("shl", xt, yt)
			}
		case token.SHR:
			if a, ok := constOf(xt); ok {
				if c, ok := constOf(yt); ok && c < 63 && a >= 0 {
					t = tConst(a >> uint(c))
					break
				}
			}
			if xt != nil && yt != nil {
				t = tApp("shr", xt, yt)
			}
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			if xt != nil && yt != nil {
				if a, ok := constOf(xt); ok {
					if c, ok := constOf(yt); ok {
						switch b.Op {
						case token.AND:
							t = tConst(a & c)
						case token.OR:
							t = tConst(a | c)
						case token.XOR:
							t = tConst(a ^ c)
						case token.AND_NOT:
							t = tConst(a &^ c)
						}
						break
					}
				}
				if xt.key > yt.key && b.Op != token.AND_NOT {
					xt, yt = yt, xt
				}
				t = tApp("bit"+b.Op.String(), xt, yt)
			}
		}
	} else if b.Op == token.ADD && xt != nil && yt != nil { // strings
		t = tApp("concat", xt, yt)
	}
	r := &Num{T: t}
	if I.H.Arith != nil {
		r.A = I.H.Arith(I, fr, st, b, x, y, t)
	}
	return r
}

// ifcDistinct reports that two interface values cannot be equal: both hold pointers (or open operands), at most
// one may be nil, and no object is reachable as both under the assumption that distinct operands are distinct objects.
func ifcDistinct(p, q *Ifc) bool {
	if p.nil_ && q.nil_ && p.open == "" && q.open == "" {
		return false
	}
	if p.open == "" && len(p.ts) == 0 || q.open == "" && len(q.ts) == 0 {
		return false
	}
	if p.open != "" && q.open != "" && (p.open == q.open || strings.HasPrefix(p.open, q.open) || strings.HasPrefix(q.open, p.open)) {
		return false
	}
	objs := func(x *Ifc) (map[*Obj]bool, bool) {
		m := map[*Obj]bool{}
		for _, t := range x.ts {
			pt, ok := t.v.(*Ptr)
			if !ok {
				return nil, false
			}
			for _, g := range pt.ts {
				m[g.o] = true
			}
		}
		return m, true
	}
	pm, ok1 := objs(p)
	qm, ok2 := objs(q)
	if !ok1 || !ok2 {
		return false
	}
	for o := range pm {
		if qm[o] || q.open != "" && strings.HasPrefix(o.name, q.open) {
			return false
		}
	}
	for o := range qm {
		if p.open != "" && strings.HasPrefix(o.name, p.open) {
			return false
		}
	}
	return true
}

func isConstTerm(t *Term) bool { _, ok := constOf(t); return ok }

func constOf(t *Term) (int64, bool) {
	if t == nil {
		return 0, false
	}
	return t.constVal()
}

func structField(t types.Type, i int) *types.Var {
	return t.Underlying().(*types.Struct).Field(i)
}

func idxStep(elem types.Type, t *Term, off *Term) string {
	if isNumeric(elem) {
		return "[*]"
	}
	if off != nil {
		t = tAdd(t, off)
	}
	if c, ok := constOf(t); ok && c >= 0 && c < 1024 {
		return "[" + strconv.FormatInt(c, 10) + "]"
	}
	return "[*]"
}

func (I *Interp) step(fr *Frame, st *State, instr ssa.Instruction) {
	I.steps++
	set := func(v ssa.Value, x Val) { fr.env[v] = x }
	switch in := instr.(type) {
	case *ssa.Alloc:
		o := I.allocObj(fr, in, deref(in.Type()), false, "")
		// re-executed allocation: fresh zero
		if !in.Heap || true {
			I.resetObj(st, o)
		}
		set(in, &Ptr{ts: []Tgt{{o: o}}})
	case *ssa.BinOp:
		set(in, I.binop(fr, st, in, fr.val(I, in.X), fr.val(I, in.Y)))
	case *ssa.UnOp:
		x := fr.val(I, in.X)
		switch in.Op {
		case token.MUL:
			set(in, I.loadPtr(fr, st, x, in.Type(), in))
		case token.NOT:
			set(in, &Num{T: notT(numT(x))})
		case token.SUB:
			var t *Term
			if isFloat(in.Type()) {
				t = fMul(fConst(-1), numT(x), 1)
			} else {
				t = tScale(numT(x), -1)
			}
			r := &Num{T: t}
			if I.H.Arith != nil {
				r.A = I.H.Arith(I, fr, st, in, x, nil, t)
			}
			set(in, r)
		case token.XOR:
			r := &Num{}
			if t := numT(x); t != nil {
				r.T = tApp("compl", t)
			}
			if I.H.Arith != nil {
				r.A = I.H.Arith(I, fr, st, in, x, nil, nil)
			}
			set(in, r)
		default:
			set(in, I.unknown(in.Type(), in, fr))
		}
	case *ssa.ChangeType, *ssa.ChangeInterface:
		ops := instr.Operands(nil)
		x := fr.val(I, *ops[0])
		set(instr.(ssa.Value), x)
	case *ssa.Convert:
		set(in, I.convert(fr, st, in))
	case *ssa.MakeInterface:
		set(in, &Ifc{ts: []ITgt{{in.X.Type(), fr.val(I, in.X)}}, ityp: in.Type()})
	case *ssa.Extract:
		x := fr.val(I, in.Tuple)
		if t, ok := x.(*Tup); ok && in.Index < len(t.vs) {
			set(in, t.vs[in.Index])
		} else {
			set(in, I.unknown(in.Type(), in, fr))
		}
	case *ssa.Field:
		x := fr.val(I, in.X)
		if a, ok := x.(*Agg); ok && in.Field < len(a.f) {
			set(in, a.f[in.Field])
		} else {
			set(in, I.unknown(in.Type(), in, fr))
		}
	case *ssa.FieldAddr:
		x := fr.val(I, in.X)
		p, ok := x.(*Ptr)
		if !ok {
			set(in, top)
			if I.H.Undecided != nil {
				I.H.Undecided(I, fr, "field of an unresolved pointer", in)
			}
			return
		}
		r := &Ptr{}
		fn := structField(deref(in.X.Type()), in.Field).Name()
		for _, t := range p.ts {
			r.ts = append(r.ts, Tgt{o: t.o, p: t.p + "." + fn, sel: t.sel})
		}
		set(in, r)
	case *ssa.Index:
		x := fr.val(I, in.X)
		if a, ok := x.(*Agg); ok && len(a.f) > 0 {
			if c, ok := constOf(numT(fr.val(I, in.Index))); ok && int(c) < len(a.f) && c >= 0 {
				set(in, a.f[c])
			} else {
				var r Val
				for _, f := range a.f {
					if r == nil {
						r = f
					} else {
						r = joinVal(r, f, joinCtx{}, "")
					}
				}
				set(in, r)
			}
		} else {
			set(in, I.unknown(in.Type(), in, fr))
		}
	case *ssa.IndexAddr:
		x := fr.val(I, in.X)
		it := numT(fr.val(I, in.Index))
		r := &Ptr{}
		switch x := x.(type) {
		case *Ptr:
			el := deref(in.X.Type()).Underlying().(*types.Array).Elem()
			for _, t := range x.ts {
				if I.H.Domain && isNumeric(el) && t.sel != nil { // a few coefficients of a row at once
					r.ts = append(r.ts, Tgt{o: t.o, p: t.p + "[*]", sel: t.sel})
					continue
				}
				r.ts = append(r.ts, Tgt{o: t.o, p: t.p + idxStep(el, it, nil), sel: it})
			}
		case *Slc:
			el := in.X.Type().Underlying().(*types.Slice).Elem()
			for _, t := range x.ts {
				sel := it
				if t.off != nil && it != nil {
					sel = tAdd(it, t.off)
				} else {
					sel = nil
				}
				if isNumeric(el) && t.sel != nil && !lastIndexed(t.o.name) {
					sel = t.sel
				}
				if I.H.Index != nil {
					I.H.Index(I, fr, st, in, t, it)
				}
				if I.H.OneDigit && !isNumeric(el) && isPolyElem(el) {
					fr.noteDigit(t.o, it)
				}
				is := idxStep(el, it, t.off)
				if I.H.Domain && !(isConstTerm(t.ln) || isConstTerm(t.o.lenT)) {
					is = "[*]"
				}
				r.ts = append(r.ts, Tgt{o: t.o, p: t.p + is, sel: sel})
			}
		default:
			set(in, top)
			if I.H.Undecided != nil {
				I.H.Undecided(I, fr, "element of an unresolved slice", in)
			}
			return
		}
		r.ts = dedupTgt(r.ts)
		set(in, r)
	case *ssa.Slice:
		set(in, I.slice(fr, st, in))
	case *ssa.MakeSlice:
		el := in.Type().Underlying().(*types.Slice).Elem()
		o := I.allocObj(fr, in, el, true, "")
		I.resetObj(st, o)
		ln := numT(fr.val(I, in.Len))
		if I.H.Domain {
			o.lenT = ln
		}
		set(in, &Slc{ts: []STgt{{o: o, off: tConst(0), ln: ln}}})
	case *ssa.MakeMap:
		o := I.allocObj(fr, in, in.Type().Underlying().(*types.Map).Elem(), true, "")
		o.mp = true
		I.resetObj(st, o)
		set(in, &Mp{os: []*Obj{o}})
	case *ssa.MakeClosure:
		f := FTgt{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.bind = append(f.bind, fr.val(I, b))
		}
		set(in, &Fn{ts: []FTgt{f}})
	case *ssa.MapUpdate:
		if m, ok := fr.val(I, in.Map).(*Mp); ok {
			for _, o := range m.os {
				I.store(fr, st, Tgt{o: o, p: "[*]"}, fr.val(I, in.Value), o.typ, false, in)
			}
		}
	case *ssa.Lookup:
		x := fr.val(I, in.X)
		if m, ok := x.(*Mp); ok {
			el := in.X.Type().Underlying().(*types.Map).Elem()
			var r Val
			for _, o := range m.os {
				w := I.load(fr, st, Tgt{o: o, p: "[*]"}, el, in)
				if r == nil {
					r = w
				} else {
					r = joinVal(r, w, joinCtx{}, "")
				}
			}
			if r == nil {
				r = I.zeroVal(el)
			}
			if in.CommaOk {
				r = &Tup{vs: []Val{r, &Num{}}}
			}
			set(in, r)
		} else {
			set(in, I.unknown(in.Type(), in, fr))
		}
	case *ssa.Range:
		set(in, fr.val(I, in.X))
	case *ssa.Next:
		x := fr.val(I, in.Iter)
		tt := in.Type().(*types.Tuple)
		vs := []Val{&Num{}, I.unknownIf(tt.At(1).Type(), in, fr), I.unknownIf(tt.At(2).Type(), in, fr)}
		if m, ok := x.(*Mp); ok {
			var r Val
			for _, o := range m.os {
				w := I.load(fr, st, Tgt{o: o, p: "[*]"}, o.typ, in)
				if r == nil {
					r = w
				} else {
					r = joinVal(r, w, joinCtx{}, "")
				}
			}
			if r != nil {
				vs[2] = r
			}
		}
		set(in, &Tup{vs})
	case *ssa.TypeAssert:
		set(in, I.typeAssert(fr, st, in))
	case *ssa.Store:
		I.storePtr(fr, st, fr.val(I, in.Addr), fr.val(I, in.Val), in.Val.Type(), in)
	case *ssa.Call:
		v := I.call(fr, st, in.Common(), in)
		set(in, v)
	case *ssa.Defer, *ssa.RunDefers, *ssa.DebugRef:
	case *ssa.Go:
		I.call(fr, st, in.Common(), in)
	default:
		if v, ok := instr.(ssa.Value); ok {
			set(v, I.unknown(v.Type(), instr, fr))
		}
	}
}

func (I *Interp) unknownIf(t types.Type, in ssa.Instruction, fr *Frame) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return top
	}
	return I.unknown(t, in, fr)
}

// resetObj forgets the contents of a re-allocated object.
func (I *Interp) resetObj(st *State, o *Obj) {
	// cells written before by the same abstract object (loop re-execution, second call in
	// the same context) are set back to zero
	for k, t := range I.cells[o] {
		if _, ok := st.h.get(Key{o, k}); ok {
			st.h.m[Key{o, k}] = I.zeroVal(t)
		}
	}
}

func (I *Interp) convert(fr *Frame, st *State, in *ssa.Convert) Val {
	x := fr.val(I, in.X)
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	if tb, ok := to.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		return x
	}
	if fb, ok := from.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
		p, ok := x.(*Ptr)
		if !ok {
			return top
		}
		if _, ok := deref(in.Type()).Underlying().(*types.Array); ok {
			r := &Ptr{nil_: p.nil_}
			for _, t := range p.ts {
				r.ts = append(r.ts, Tgt{o: t.o, p: strings.TrimSuffix(t.p, "[*]"), sel: t.sel})
			}
			return r
		}
		return x
	}
	n, ok := x.(*Num)
	if !ok {
		if _, isS := to.(*types.Slice); isS { // string -> []byte
			return I.unknown(in.Type(), in, fr)
		}
		return &Num{}
	}
	if _, isS := to.(*types.Slice); isS {
		o := I.allocObj(fr, in, to.(*types.Slice).Elem(), true, "")
		return &Slc{ts: []STgt{{o: o, off: tConst(0), ln: nil}}}
	}
	r := &Num{T: n.T, A: n.A}
	tf, ff := isFloat(in.Type()), isFloat(in.X.Type())
	switch {
	case n.T == nil && tf && !ff && I.H.FloatOf != nil:
		r.T = I.H.FloatOf(n)
	case n.T == nil:
	case tf && !ff:
		if c, ok := constOf(n.T); ok {
			r.T = fConst(float64(c))
		} else {
			r.T = fApp("i2f", n.T)
		}
	case ff && !tf:
		if n.T.isFConst() && math.Abs(n.T.fc) < 1e18 {
			r.T = tConst(int64(n.T.fc))
		} else {
			r.T = tApp("f2i", n.T)
		}
	case isInteger(in.Type()) && isInteger(in.X.Type()):
		// narrowing loses information unless constant fits
		fs, ts := basicSize(from), basicSize(to)
		if ts < fs {
			if c, ok := constOf(n.T); ok && c >= 0 && c < 1<<uint(8*ts-1) {
				r.T = n.T
			} else {
				r.T = tApp(fmt.Sprintf("trunc%d", ts*8), n.T)
			}
		}
	case !isInteger(in.Type()) && !tf:
		r.T = nil
	}
	if I.H.Arith != nil {
		r.A = I.H.Arith(I, fr, st, in, x, nil, r.T)
	}
	return r
}

func basicSize(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 8
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func (I *Interp) slice(fr *Frame, st *State, in *ssa.Slice) Val {
	x := fr.val(I, in.X)
	lo := tConst(0)
	if in.Low != nil {
		lo = numT(fr.val(I, in.Low))
	}
	var hi *Term
	if in.High != nil {
		hi = numT(fr.val(I, in.High))
	}
	switch x := x.(type) {
	case *Slc:
		r := &Slc{}
		for _, t := range x.ts {
			h := hi
			if in.High == nil {
				h = t.ln
			}
			n := STgt{o: t.o, p: t.p, sel: t.sel}
			n.off = tAdd(t.off, lo)
			n.ln = tSub(h, lo)
			r.ts = append(r.ts, n)
		}
		if len(x.ts) == 0 {
			r.nil_ = true
		}
		return r
	case *Ptr:
		at, ok := deref(in.X.Type()).Underlying().(*types.Array)
		if !ok {
			return top
		}
		r := &Slc{}
		for _, t := range x.ts {
			h := hi
			if in.High == nil {
				h = tConst(at.Len())
			}
			r.ts = append(r.ts, STgt{o: t.o, p: t.p, off: lo, ln: tSub(h, lo), sel: t.sel})
		}
		return r
	case *Num:
		return &Num{}
	}
	return I.unknown(in.Type(), in, fr)
}

func (I *Interp) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) Val {
	x, ok := fr.val(I, in.X).(*Ifc)
	var r Val
	var okv Val = &Num{}
	if !ok {
		r = I.unknown(in.AssertedType, in, fr)
	} else if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		n := &Ifc{open: x.open, ityp: in.AssertedType, op: x.op, nil_: false}
		miss := false
		for _, t := range x.ts {
			if types.Implements(t.typ, it) {
				n.ts = append(n.ts, t)
			} else {
				miss = true
			}
		}
		r = n
		if x.open == "" && !x.nil_ {
			if !miss {
				okv = boolV(true)
			} else if len(n.ts) == 0 {
				okv = boolV(false)
			}
		}
	} else {
		match := false
		others := false
		for _, t := range x.ts {
			if types.Identical(t.typ, in.AssertedType) {
				r = t.v
				match = true
			} else {
				others = true
			}
		}
		if x.open != "" {
			var parent *Obj
			root := x.open
			if x.op != nil {
				parent, root = x.op.parent, x.op.root
			}
			w := I.symVal(x.open+".("+shortType(in.AssertedType)+")", in.AssertedType, parent, root)
			if r == nil {
				r = w
			} else {
				r = joinVal(r, w, joinCtx{}, "")
			}
			okv = &Num{T: tSym("is:" + x.open + ":" + shortType(in.AssertedType))}
		} else if match && !others && !x.nil_ {
			okv = boolV(true)
		} else if !match {
			okv = boolV(false)
		}
		if r == nil {
			r = I.zeroVal(in.AssertedType)
		}
	}
	if in.CommaOk {
		return &Tup{vs: []Val{r, okv}}
	}
	return r
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- calls

func (I *Interp) call(fr *Frame, st *State, c *ssa.CallCommon, instr ssa.Instruction) Val {
	var args []Val
	resT := func() types.Type { return c.Signature().Results() }
	ret := func(v Val) Val {
		return v
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		for _, a := range c.Args {
			args = append(args, fr.val(I, a))
		}
		return I.builtin(fr, st, b.Name(), c, args, instr)
	}
	if c.IsInvoke() {
		recv := fr.val(I, c.Value)
		for _, a := range c.Args {
			args = append(args, fr.val(I, a))
		}
		x, ok := recv.(*Ifc)
		if !ok {
			if I.H.Undecided != nil {
				I.H.Undecided(I, fr, "dynamic call on unresolved interface", instr)
			}
			return I.resUnknown(resT(), instr, fr)
		}
		var cands []ITgt
		cands = append(cands, x.ts...)
		if x.open != "" {
			it, ok := c.Value.Type().Underlying().(*types.Interface)
			if ok {
				for _, t := range I.P.implementers(it) {
					dup := false
					for _, d := range x.ts {
						if types.Identical(d.typ, t) {
							dup = true
						}
					}
					if dup {
						continue
					}
					parent, root := (*Obj)(nil), x.open
					if x.op != nil {
						parent, root = x.op.parent, x.op.root
					}
					cands = append(cands, ITgt{t, I.symVal(x.open+".("+shortType(t)+")", t, parent, root)})
				}
			}
		}
		var outs []retItem
		for _, cd := range cands {
			m := I.P.Prog.LookupMethod(cd.typ, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				continue
			}
			s2 := st.fork()
			v, alive := I.invoke(fr, s2, m, append([]Val{cd.v}, args...), nil, instr)
			if alive {
				outs = append(outs, retItem{st: s2, v: v})
			}
		}
		if len(outs) == 0 {
			if len(cands) > 0 {
				st.h = nil // every candidate panics
				return top
			}
			I.externCall(fr, st, "invoke "+c.Method.FullName(), append([]Val{recv}, args...), instr, c)
			return I.resUnknown(resT(), instr, fr)
		}
		acc := outs[0]
		for _, o := range outs[1:] {
			ns, nv := I.join2(acc.st, o.st, []Val{acc.v}, []Val{o.v}, joinCtx{name: fmt.Sprintf("dyn%d.%s", fr.ctx.id, I.instrID(instr))})
			acc = retItem{st: ns, v: nv[0]}
		}
		*st = *acc.st
		return ret(acc.v)
	}
	for _, a := range c.Args {
		args = append(args, fr.val(I, a))
	}
	if f := c.StaticCallee(); f != nil {
		var free []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, fr.val(I, b))
			}
		}
		v, alive := I.invoke(fr, st, f, args, free, instr)
		if !alive {
			st.h = nil
			return top
		}
		return v
	}
	fv, ok := fr.val(I, c.Value).(*Fn)
	if ok && fv.open {
		fv = &Fn{ts: append(append([]FTgt{}, fv.ts...), I.fnCandidates(fv, c.Signature())...)}
	}
	if !ok || (len(fv.ts) == 0) {
		if I.H.Undecided != nil {
			I.H.Undecided(I, fr, "call of an unresolved function value", instr)
		}
		return I.resUnknown(resT(), instr, fr)
	}
	var outs []retItem
	for _, t := range fv.ts {
		s2 := st.fork()
		v, alive := I.invoke(fr, s2, t.fn, args, t.bind, instr)
		if alive {
			outs = append(outs, retItem{st: s2, v: v})
		}
	}
	if len(outs) == 0 {
		st.h = nil
		return top
	}
	acc := outs[0]
	for _, o := range outs[1:] {
		ns, nv := I.join2(acc.st, o.st, []Val{acc.v}, []Val{o.v}, joinCtx{name: fmt.Sprintf("dyn%d.%s", fr.ctx.id, I.instrID(instr))})
		acc = retItem{st: ns, v: nv[0]}
	}
	*st = *acc.st
	return acc.v
}

func (I *Interp) resUnknown(t types.Type, instr ssa.Instruction, fr *Frame) Val {
	tt := t.(*types.Tuple)
	if tt.Len() == 0 {
		return top
	}
	if tt.Len() == 1 {
		return I.unknown(tt.At(0).Type(), instr, fr)
	}
	return I.unknown(tt, instr, fr)
}

func (I *Interp) ctxFor(up *Ctx, call ssa.Instruction, iter string, fn *ssa.Function) *Ctx {
	k := ctxKey{up, call, iter, fn}
	if c, ok := I.ctxTab[k]; ok {
		return c
	}
	I.ctxN++
	c := &Ctx{id: I.ctxN, up: up, call: call, iter: iter, fn: fn, depth: up.depth + 1}
	I.ctxTab[k] = c
	return c
}

func (I *Interp) invoke(fr *Frame, st *State, f *ssa.Function, args []Val, free []Val, instr ssa.Instruction) (Val, bool) {
	if I.H.Call != nil {
		if v, ok := I.H.Call(I, fr, st, f, args, instr); ok {
			return v, st.h != nil
		}
	}
	if len(f.Blocks) == 0 || !inRepo(f) {
		if v, ok := I.external(fr, st, f, args, instr); ok {
			return v, st.h != nil
		}
		I.externCall(fr, st, f.String(), args, instr, nil)
		return I.resUnknown(f.Signature.Results(), instr, fr), true
	}
	if isPureScalar(f) && !smallInt(f) {
		return I.opaqueCall(fr, st, f, args, instr), true
	}
	rec := 0
	for x := fr; x != nil; x = x.up {
		if x.fn == f {
			rec++
		}
	}
	if rec >= 3 {
		return top, false // only the non-recursive paths of the innermost instance continue
	}
	n := &Frame{fn: f, env: map[ssa.Value]Val{}, up: fr, call: instr, info: I.info(f), free: free, dep: fr.dep + 1}
	n.ctx = I.ctxFor(fr.ctx, instr, fr.iter, f)
	for i, p := range f.Params {
		if i < len(args) {
			n.env[p] = args[i]
		}
	}
	v, out := I.runFn(n, st)
	if out == nil {
		return top, false
	}
	*st = *out
	if I.H.Ret != nil {
		v = I.H.Ret(I, fr, st, f, args, v)
	}
	return v, true
}

func (I *Interp) opaqueCall(fr *Frame, st *State, f *ssa.Function, args []Val, instr ssa.Instruction) Val {
	var ts []*Term
	for _, a := range args {
		ts = append(ts, numT(a))
	}
	mk := func(i int, t types.Type) Val {
		r := &Num{}
		if isFloat(t) {
			r.T = fApp(fmt.Sprintf("%s#%d", fname(f), i), ts...)
		} else {
			r.T = tApp(fmt.Sprintf("%s#%d", fname(f), i), ts...)
		}
		if len(ts) == 0 {
			r.T = nil
		}
		if I.H.Arith != nil {
			var x Val
			for _, a := range args {
				if n, ok := a.(*Num); ok {
					if x == nil {
						x = n
					} else {
						x = &Num{A: I.H.Arith(I, fr, st, instr, x, n, nil)}
					}
				}
			}
			if n, ok := x.(*Num); ok {
				r.A = n.A
			}
		}
		return r
	}
	res := f.Signature.Results()
	if res.Len() == 1 {
		return mk(0, res.At(0).Type())
	}
	t := &Tup{}
	for i := 0; i < res.Len(); i++ {
		t.vs = append(t.vs, mk(i, res.At(i).Type()))
	}
	return t
}

var pureCache sync.Map

// isPureScalar: all parameters and results are basic scalars (or read-only []uint64 constants), no stores, no unknown calls.
func isPureScalar(f *ssa.Function) bool {
	if r, ok := pureCache.Load(f); ok {
		return r.(bool)
	}
	r := pureScalar(f, map[*ssa.Function]bool{})
	pureCache.Store(f, r)
	return r
}

func pureScalar(f *ssa.Function, active map[*ssa.Function]bool) bool {
	if active[f] {
		return false
	}
	active[f] = true
	defer delete(active, f)
	for _, p := range f.Params {
		if !isNumeric(p.Type()) {
			if s, ok := p.Type().Underlying().(*types.Slice); !ok || !isNumeric(s.Elem()) {
				return false
			}
		}
	}
	res := f.Signature.Results()
	if res.Len() == 0 {
		return false
	}
	for i := 0; i < res.Len(); i++ {
		if !isNumeric(res.At(i).Type()) {
			return false
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				return false
			case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.MakeSlice, *ssa.Alloc:
				return false
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "len" {
						continue
					}
					return false
				}
				c := in.Call.StaticCallee()
				if c == nil {
					return false
				}
				if inRepo(c) {
					if !pureScalar(c, active) {
						return false
					}
				} else if c.Pkg == nil || (c.Pkg.Pkg.Path() != "math/bits" && c.Pkg.Pkg.Path() != "math") {
					return false
				}
			}
		}
	}
	return true
}

// smallInt functions (int -> int, e.g. min/max) are interpreted rather than kept opaque.
func smallInt(f *ssa.Function) bool {
	res := f.Signature.Results()
	if res.Len() != 1 || len(f.Blocks) > 6 {
		return false
	}
	b, ok := res.At(0).Type().Underlying().(*types.Basic)
	if !ok || (b.Kind() != types.Int && b.Info()&types.IsBoolean == 0 && b.Kind() != types.Float64) {
		return false
	}
	for _, bl := range f.Blocks {
		for _, s := range bl.Succs {
			if s.Dominates(bl) {
				return false
			}
		}
	}
	return true
}

func (I *Interp) runFn(fr *Frame, st *State) (Val, *State) {
	if fr.dep > 60 || I.steps > I.maxStep {
		if I.overflow == "" {
			I.overflow = fmt.Sprintf("analysis budget exceeded in %s (depth %d, steps %d)", fname(fr.fn), fr.dep, I.steps)
		}
		return I.resUnknown(fr.fn.Signature.Results(), fr.call, fr), st
	}
	I.region(fr, nil, fr.fn.Blocks[0], []edge{{nil, fr.fn.Blocks[0], st}}, nil)
	if len(fr.rets) == 0 {
		return nil, nil
	}
	items := make([]mergeItem, 0, len(fr.rets))
	for _, r := range fr.rets {
		if I.H.Domain && errorExit(fr.fn, r.v) {
			continue
		}
		items = append(items, mergeItem{b: r.b, st: r.st, vs: []Val{r.v}})
	}
	if len(items) == 0 {
		return nil, nil
	}
	m := I.mergeTree(fr, items, nil)
	return m.vs[0], m.st
}

// errorExit: the function returns with an error that is certainly not nil.
func errorExit(f *ssa.Function, v Val) bool {
	rs := f.Signature.Results()
	if rs.Len() == 0 || rs.At(rs.Len()-1).Type().String() != "error" {
		return false
	}
	if t, ok := v.(*Tup); ok && len(t.vs) == rs.Len() {
		v = t.vs[len(t.vs)-1]
	}
	return certainError(v)
}

func certainError(v Val) bool {
	x, ok := v.(*Ifc)
	return ok && !x.nil_ && len(x.ts) == 0 && strings.HasPrefix(x.open, "err@")
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

type mergeItem struct {
	b  *ssa.BasicBlock
	st *State
	vs []Val
}

func commonDom(items []mergeItem) *ssa.BasicBlock {
	d := items[0].b
	for _, it := range items[1:] {
		for d != nil && !d.Dominates(it.b) {
			d = d.Idom()
		}
	}
	return d
}

// mergeTree joins items (predecessor blocks with states), attributing differences to the deciding branch.
func (I *Interp) mergeTree(fr *Frame, items []mergeItem, to *ssa.BasicBlock) mergeItem {
	if len(items) == 1 {
		return items[0]
	}
	d := commonDom(items)
	if d != nil {
		if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
			c := numT(fr.val(I, iff.Cond))
			ts, fs := d.Succs[0], d.Succs[1]
			var T, F, O []mergeItem
			for _, it := range items {
				switch {
				case it.b != d && ts.Dominates(it.b) && len(ts.Preds) == 1, it.b == d && ts == to && fs != to:
					T = append(T, it)
				case it.b != d && fs.Dominates(it.b) && len(fs.Preds) == 1, it.b == d && fs == to && ts != to:
					F = append(F, it)
				default:
					O = append(O, it)
				}
			}
			if len(T) > 0 && len(F) > 0 && len(O) == 0 {
				a := I.mergeTree(fr, T, to)
				b := I.mergeTree(fr, F, to)
				j := joinCtx{cond: c}
				if c == nil {
					j = joinCtx{name: fmt.Sprintf("j%d.%d.%d", fr.ctx.id, d.Index, blockID(to))}
				}
				s, vs := I.join2(a.st, b.st, a.vs, b.vs, j)
				return mergeItem{b: d, st: s, vs: vs}
			}
		}
	}
	acc := items[0]
	for n, it := range items[1:] {
		s, vs := I.join2(acc.st, it.st, acc.vs, it.vs, joinCtx{name: fmt.Sprintf("m%d.%d.%d.%d", fr.ctx.id, items[0].b.Index, n, blockID(to))})
		acc = mergeItem{b: acc.b, st: s, vs: vs}
	}
	return acc
}

func (I *Interp) join2(a, b *State, va, vb []Val, j joinCtx) (*State, []Val) {
	vs := make([]Val, len(va))
	for i := range va {
		vs[i] = joinVal(va[i], vb[i], j, "v"+strconv.Itoa(i))
	}
	if a == b {
		return a, vs
	}
	keys, anc := diffKeys(a.h, b.h)
	a.h.frozen, b.h.frozen = true, true
	var nh *Heap
	if anc != nil {
		nh = &Heap{m: map[Key]Val{}, up: anc, depth: anc.depth + 1}
	} else {
		nh = newHeap()
	}
	for k := range keys {
		x, okx := a.h.get(k)
		y, oky := b.h.get(k)
		if okx && oky {
			if x == y {
				nh.m[k] = x
				continue
			}
		}
		if !okx {
			x = I.initCell(k, I.ctyp[k])
		}
		if !oky {
			y = I.initCell(k, I.ctyp[k])
		}
		nh.m[k] = joinVal(x, y, j, fmt.Sprintf("%d%s", k.o.id, k.p))
	}
	return &State{h: nh.flatten(), facts: commonFacts(a.facts, b.facts)}, vs
}

func (I *Interp) noteCell(k Key, t types.Type) {
	if _, ok := I.ctyp[k]; !ok {
		I.ctyp[k] = t
		m := I.cells[k.o]
		if m == nil {
			m = map[string]types.Type{}
			I.cells[k.o] = m
		}
		m[k.p] = t
	}
}

// instrID identifies an instruction within its function.
func (I *Interp) instrID(in ssa.Instruction) string {
	b := in.Block()
	if b == nil {
		return "-"
	}
	for i, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("%d_%d", b.Index, i)
		}
	}
	return "?"
}

func blockID(b *ssa.BasicBlock) int {
	if b == nil {
		return -1
	}
	return b.Index
}
