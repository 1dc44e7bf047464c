package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P17: integers put into residue form. A loop over the rows (moduli) of a table of residues that stores, for one
// coefficient, a value made from quantities outside the table is executed symbolically, one row after another, on every
// acyclic path: the stored value must be congruent, modulo the modulus of its row, to one integer that is the same for
// every row; the integer is drawn outside the loop; a sign flips the integer; samples and lifts are below the modulus.

// sfm is a linear form over atoms. Atoms: "j" the row, "mod:<index>@<table>" an element of a table of moduli, "~…"
// something that differs between rows, anything else: fixed for the rows.
type sfm struct {
	lin map[string]int64
	m   map[string]bool // congruence only, modulo these moduli
	red bool            // below the modulus of its reduction
	pos bool            // at least one
	rem bool            // a signed remainder: between minus and plus the modulus
	neg bool            // a signed remainder below zero
}

func smConst(n int64) *sfm { return &sfm{lin: map[string]int64{"": n}} }
func smAtom(a string) *sfm { return &sfm{lin: map[string]int64{a: 1}} }

func (a *sfm) norm() *sfm {
	for k, v := range a.lin {
		if v == 0 {
			delete(a.lin, k)
		}
	}
	return a
}

func (a *sfm) add(b *sfm, k int64) *sfm {
	r := &sfm{lin: map[string]int64{}, m: map[string]bool{}}
	for x, n := range a.lin {
		r.lin[x] += n
	}
	for x, n := range b.lin {
		r.lin[x] += k * n
	}
	for x := range a.m {
		r.m[x] = true
	}
	for x := range b.m {
		r.m[x] = true
	}
	return r.norm()
}

func (a *sfm) konst() (int64, bool) {
	if len(a.m) > 0 {
		return 0, false
	}
	switch len(a.lin) {
	case 0:
		return 0, true
	case 1:
		n, ok := a.lin[""]
		return n, ok
	}
	return 0, false
}

func (a *sfm) mul(b *sfm) *sfm {
	r := &sfm{lin: map[string]int64{}, m: map[string]bool{}}
	for x, n := range a.lin {
		for y, k := range b.lin {
			r.lin[smProd(x, y)] += n * k
		}
	}
	for x := range a.m {
		r.m[x] = true
	}
	for x := range b.m {
		r.m[x] = true
	}
	return r.norm()
}

func smProd(x, y string) string {
	switch {
	case x == "":
		return y
	case y == "":
		return x
	}
	f := append(strings.Split(x, "·"), strings.Split(y, "·")...)
	sort.Strings(f)
	return strings.Join(f, "·")
}

func (a *sfm) String() string {
	var ks []string
	for k := range a.lin {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		n := a.lin[k]
		switch {
		case k == "":
			out = append(out, strconv.FormatInt(n, 10))
		case n == 1:
			out = append(out, k)
		case n == -1:
			out = append(out, "-"+k)
		default:
			out = append(out, strconv.FormatInt(n, 10)+"·"+k)
		}
	}
	if len(out) == 0 {
		return "0"
	}
	return strings.Join(out, " + ")
}

// rowDep: the value can differ between rows.
func (a *sfm) rowDep() bool {
	for k := range a.lin {
		if smRowDep(k) {
			return true
		}
	}
	for k := range a.m {
		if smRowDep(k) {
			return true
		}
	}
	return false
}

func smRowDep(k string) bool {
	for _, f := range strings.Split(k, "·") {
		if f == "j" || strings.HasPrefix(f, "~") || strings.HasPrefix(f, "mod:") && smIdxRow(f) {
			return true
		}
	}
	return false
}

// smIdxRow: the index of the modulus moves with the row.
func smIdxRow(m string) bool {
	i := strings.Index(m, "@")
	if i < 0 {
		i = len(m)
	}
	for _, f := range strings.FieldsFunc(m[len("mod:"):i], func(r rune) bool { return r == ' ' || r == '+' || r == '·' || r == '*' || r == '-' }) {
		if f == "j" || strings.HasPrefix(f, "~") {
			return true
		}
	}
	return false
}

// smRef is a row of a table of residues, or (array) an element of it.
type smRef struct {
	base string // the table
	row  *sfm
}

type smStore struct {
	at    ssa.Instruction
	base  string
	row   *sfm
	col   *sfm
	val   *sfm
	iter  int
	inv   string // row-independent choices made
	paths string
}

// smExec executes one loop over rows.
type smExec struct {
	A     *smAn
	f     *ssa.Function
	h     *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	ind   ssa.Value // induction phi
	iter  int
	env   map[ssa.Value]*sfm
	refs  map[ssa.Value]*smRef
	bigs  map[string]*sfm // big integers, by object
	mem   map[string]*sfm
	bobj  map[ssa.Value]string
	carry map[ssa.Value]*sfm
	// choices
	dec    []int
	max    []int
	keys   map[string]int
	kinv   map[string]bool
	cmp    map[string]string // comparisons with a modulus on the path
	whole  bool              // a whole function is executed, not a loop
	phic   map[string]string // the condition a choice between values stands for
	n      int
	stores []smStore
	depth  int
	stop   bool
	names  map[ssa.Value]string // parameters of inlined functions, outer names
}

type smAn struct {
	P    *Prog
	r    *Report
	rng  map[ssa.Value]int8 // 1: 0..1, 2: not known, 3: can be larger
	mods map[*ssa.Parameter]int8
	impu map[*ssa.Function]bool
}

// choose returns the alternative of a choice point.
func (x *smExec) choose(key string, n int, inv bool) int {
	if d, ok := x.keys[key]; ok {
		return d
	}
	if x.n == len(x.dec) {
		x.dec = append(x.dec, 0)
		x.max = append(x.max, n)
	}
	x.max[x.n] = n
	d := x.dec[x.n]
	x.n++
	x.keys[key] = d
	x.kinv[key] = inv
	return d
}

// next moves to the next combination of choices.
func (x *smExec) next() bool {
	x.dec, x.max = x.dec[:x.n], x.max[:x.n]
	for len(x.dec) > 0 {
		l := len(x.dec) - 1
		x.dec[l]++
		if x.dec[l] < x.max[l] {
			return true
		}
		x.dec, x.max = x.dec[:l], x.max[:l]
	}
	return false
}

func (x *smExec) in(b *ssa.BasicBlock) bool { return b.Parent() != x.f || x.body[b] }

// val is the form of a value.
func (x *smExec) val(v ssa.Value) *sfm {
	if r, ok := x.env[v]; ok {
		return r
	}
	if in, ok := v.(ssa.Instruction); ok && in.Block() != nil && x.in(in.Block()) {
		return smAtom("~?" + v.Name())
	}
	r := x.outer(v)
	x.env[v] = r
	return r
}

// outer: a value from outside of the loop.
func (x *smExec) outer(v ssa.Value) *sfm {
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value == nil {
			return smConst(0)
		}
		switch t.Value.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(t.Value); ok && n < 1<<40 && n > -(1<<40) {
				return smConst(n)
			}
		case constant.Float:
			if x, _ := constant.Float64Val(t.Value); x == 0.5 {
				return smAtom("½")
			} else if x == -0.5 {
				return smConst(0).add(smAtom("½"), -1)
			} else if x == float64(int64(x)) && x < 1<<20 && x > -(1<<20) {
				return smConst(int64(x))
			}
		case constant.Bool:
			if constant.BoolVal(t.Value) {
				return smConst(1)
			}
			return smConst(0)
		}
		return smAtom(t.Value.String())
	case *ssa.BinOp:
		if r := x.bin(t); r != nil {
			return r
		}
	case *ssa.Convert:
		if isInt(t.Type()) && isInt(t.X.Type()) {
			return x.val(t.X)
		}
	case *ssa.Phi:
		b := t.Block()
		if natLoop(b) == nil && x.live(b) > 1 {
			key := "phi:" + x.f.Name() + ":" + strconv.Itoa(b.Index)
			k := x.choose(key, len(b.Preds), true)
			if d := b.Idom(); d != nil {
				if c, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && natLoop(d) == nil {
					if x.phic == nil {
						x.phic = map[string]string{}
					}
					x.phic[key] = x.val(c.Cond).String()
				}
			}
			return x.val(t.Edges[k])
		}
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if r := x.load(t, t.X); r != nil {
				return r
			}
		}
		if t.Op == token.SUB {
			return smConst(0).add(x.val(t.X), -1)
		}
	case *ssa.Call:
		return smAtom("call:" + v.Name())
	case *ssa.Extract:
		if c, ok := t.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && inRepo(f) && x.depth < 3 && smPure(f) {
				var fs []*sfm
				for _, a := range c.Call.Args {
					fs = append(fs, x.val(a))
				}
				if _, ok := x.inline(f, c, fs); ok {
					if r, ok := x.env[v]; ok {
						return r
					}
				}
			}
		}
		return smAtom("call:" + t.Tuple.Name() + "#" + strconv.Itoa(t.Index))
	}
	return smAtom(x.name(v))
}

// smPure: integer arithmetic on its arguments alone.
func smPure(f *ssa.Function) bool {
	if len(f.Blocks) == 0 || len(f.Blocks) > 8 || hasLoop(f) {
		return false
	}
	for _, p := range f.Params {
		if !isInt(p.Type()) {
			return false
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef:
			case *ssa.UnOp:
				if t.Op == token.MUL {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func (x *smExec) live(b *ssa.BasicBlock) int { return len(b.Preds) }

func (x *smExec) name(v ssa.Value) string {
	if n, ok := x.names[v]; ok {
		return n
	}
	switch t := v.(type) {
	case *ssa.Parameter:
		return t.Name()
	case *ssa.Global:
		return t.Name()
	case *ssa.FieldAddr:
		return x.name(t.X) + "." + smField(t)
	case *ssa.UnOp:
		if t.Op == token.MUL {
			return x.name(t.X)
		}
	case *ssa.Slice:
		if t.Low == nil {
			return x.name(t.X)
		}
	case *ssa.Field:
		return x.name(t.X) + "." + smField(t)
	case *ssa.ChangeType:
		return x.name(t.X)
	case *ssa.IndexAddr:
		return x.name(t.X) + "[" + x.val(t.Index).String() + "]"
	case *ssa.Alloc:
		// a local that holds one value
		if w := soleStore(t); w != nil {
			return x.name(w)
		}
	case *ssa.Call:
		if f := t.Call.StaticCallee(); f != nil && len(t.Call.Args) == 1 && inRepo(f) {
			return x.name(t.Call.Args[0]) + "." + f.Name() + "()"
		}
	}
	return v.Name()
}

func soleStore(a *ssa.Alloc) ssa.Value {
	var w ssa.Value
	for _, u := range *a.Referrers() {
		switch t := u.(type) {
		case *ssa.Store:
			if t.Addr != a || w != nil {
				return nil
			}
			w = t.Val
		}
	}
	return w
}

func smField(v ssa.Value) string {
	switch t := v.(type) {
	case *ssa.FieldAddr:
		return deref(t.X.Type()).Underlying().(*types.Struct).Field(t.Field).Name()
	case *ssa.Field:
		return t.X.Type().Underlying().(*types.Struct).Field(t.Field).Name()
	}
	return ""
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// isTable: a table whose rows are residues of one modulus each.
func isTable(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	switch e := s.Elem().Underlying().(type) {
	case *types.Slice:
		b, ok := e.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint64
	case *types.Array:
		b, ok := e.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint64
	}
	return false
}

// modTable: the slice holds the moduli.
func (A *smAn) modTable(v ssa.Value) bool {
	switch t := v.(type) {
	case *ssa.UnOp:
		if fa, ok := t.X.(*ssa.FieldAddr); ok && t.Op == token.MUL {
			return strings.Contains(smField(fa), "odul")
		}
	case *ssa.Field:
		return strings.Contains(smField(t), "odul")
	case *ssa.Slice:
		return A.modTable(t.X)
	case *ssa.ChangeType:
		return A.modTable(t.X)
	case *ssa.Call:
		if f := t.Call.StaticCallee(); f != nil && inRepo(f) && len(f.Blocks) == 1 {
			if r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				return A.modTable(r.Results[0])
			}
		}
	case *ssa.Parameter:
		if n, ok := A.mods[t]; ok {
			return n == 1
		}
		A.mods[t] = 0
		f := t.Parent()
		k := -1
		for i, p := range f.Params {
			if p == t {
				k = i
			}
		}
		n, all := 0, true
		for _, g := range A.P.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() != f || k >= len(c.Common().Args) {
						continue
					}
					n++
					all = all && A.modTable(c.Common().Args[k])
				}
			}
		}
		if n > 0 && all {
			A.mods[t] = 1
		}
		return A.mods[t] == 1
	}
	return false
}

// ref: v is a row (or array element) of a table.
func (x *smExec) ref(v ssa.Value) *smRef {
	if r, ok := x.refs[v]; ok {
		return r
	}
	switch t := v.(type) {
	case *ssa.UnOp:
		if ia, ok := t.X.(*ssa.IndexAddr); ok && t.Op == token.MUL && isTable(ia.X.Type()) {
			return &smRef{base: x.name(ia.X), row: x.val(ia.Index)}
		}
	case *ssa.IndexAddr:
		if isTable(t.X.Type()) {
			return &smRef{base: "arr:" + x.name(t.X), row: x.val(t.Index)}
		}
	case *ssa.Slice:
		return x.ref(t.X)
	case *ssa.ChangeType:
		return x.ref(t.X)
	}
	return nil
}

// load: the value at an address.
func (x *smExec) load(at ssa.Value, addr ssa.Value) *sfm {
	ia, ok := addr.(*ssa.IndexAddr)
	if !ok {
		n := x.name(addr)
		if r, ok := x.mem[n]; ok {
			return r
		}
		if !isInt(at.Type()) {
			return nil
		}
		return smAtom(n)
	}
	idx := x.val(ia.Index)
	if x.A.modTable(ia.X) {
		return &sfm{lin: map[string]int64{"mod:" + strings.ReplaceAll(idx.String(), "·", "*") + "@" + x.name(ia.X): 1}, pos: true}
	}
	if rf := x.ref(ia.X); rf != nil {
		if r, ok := x.mem[rf.base+"["+rf.row.String()+"]["+idx.String()+"]"]; ok {
			return r
		}
		if rf.row.rowDep() {
			if b, ok := x.bit(ia.Index, idx); ok {
				idx = b
			}
			return &sfm{lin: map[string]int64{"~row:" + rf.base + "[" + rf.row.String() + "][" + idx.String() + "]": 1}, red: true}
		}
		return &sfm{lin: map[string]int64{"elem:" + rf.base + "[" + rf.row.String() + "][" + idx.String() + "]": 1}, red: true}
	}
	if !isInt(at.Type()) {
		if idx.rowDep() {
			return smAtom("~tab:" + x.name(ia.X))
		}
		return nil
	}
	if idx.rowDep() {
		return smAtom("~tab:" + x.name(ia.X))
	}
	return smAtom(x.name(ia.X) + "[" + idx.String() + "]")
}

// bit: a value that is 0 or 1, decided by choice. ok: it can be nothing else.
func (x *smExec) bit(v ssa.Value, f *sfm) (*sfm, bool) {
	if _, ok := f.konst(); ok {
		return f, true
	}
	if f.rowDep() || x.A.rangeOf(v, 0) != 1 {
		return f, false
	}
	return smConst(int64(x.choose("bit:"+f.String(), 2, true))), true
}

// rangeOf: 1 the value is 0 or 1, 2 not known, 3 more values by construction.
func (A *smAn) rangeOf(v ssa.Value, depth int) int8 {
	if r, ok := A.rng[v]; ok {
		return r
	}
	A.rng[v] = 1 // induction: assumed while it is computed
	r := A.rangeOf1(v, depth)
	if r != 1 {
		A.rng[v] = r
	} else {
		delete(A.rng, v)
	}
	return r
}

func (A *smAn) rangeOf1(v ssa.Value, depth int) int8 {
	if depth > 40 {
		return 2
	}
	worst := func(a, b int8) int8 {
		if a > b {
			return a
		}
		return b
	}
	switch t := v.(type) {
	case *ssa.Const:
		if n, ok := smInt(t); ok {
			if n == 0 || n == 1 {
				return 1
			}
			return 3
		}
	case *ssa.Convert:
		if isInt(t.X.Type()) {
			return A.rangeOf(t.X, depth+1)
		}
	case *ssa.BinOp:
		c, cok := int64(0), false
		if k, ok := t.Y.(*ssa.Const); ok {
			c, cok = smInt(k)
		}
		switch t.Op {
		case token.AND:
			a, b := A.rangeOf(t.X, depth+1), A.rangeOf(t.Y, depth+1)
			if a == 1 || b == 1 {
				return 1
			}
			if cok {
				return 3
			}
		case token.SHR:
			if cok {
				if w := intBits(t.X.Type()); w > 0 {
					if int64(w)-c <= 1 {
						return 1
					}
					return 3
				}
			}
		case token.XOR, token.OR:
			return worst(A.rangeOf(t.X, depth+1), A.rangeOf(t.Y, depth+1))
		}
	case *ssa.Phi:
		r := int8(1)
		for _, e := range t.Edges {
			r = worst(r, A.rangeOf(e, depth+1))
		}
		return r
	case *ssa.Extract:
		c, ok := t.Tuple.(*ssa.Call)
		if ok && c.Call.StaticCallee() != nil && inRepo(c.Call.StaticCallee()) {
			return A.rangeRet(c.Call.StaticCallee(), t.Index, depth)
		}
	case *ssa.Call:
		if f := t.Call.StaticCallee(); f != nil && inRepo(f) {
			return A.rangeRet(f, 0, depth)
		}
	}
	return 2
}

func (A *smAn) rangeRet(f *ssa.Function, k, depth int) int8 {
	r, n := int8(1), 0
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(ret.Results) {
			n++
			if x := A.rangeOf(ret.Results[k], depth+1); x > r {
				r = x
			}
		}
	}
	if n == 0 {
		return 2
	}
	return r
}

func smInt(c *ssa.Const) (int64, bool) {
	if c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

func intBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsUnsigned == 0 {
		return 0
	}
	switch b.Kind() {
	case types.Uint8:
		return 8
	case types.Uint16:
		return 16
	case types.Uint32:
		return 32
	case types.Uint64, types.Uint:
		return 64
	}
	return 0
}

func (x *smExec) opaque(op string, fs ...*sfm) *sfm {
	s, dep := op+"(", false
	for i, f := range fs {
		if i > 0 {
			s += ","
		}
		s += f.String()
		dep = dep || f.rowDep()
	}
	s = strings.ReplaceAll(s, "·", "*") + ")"
	if dep {
		return smAtom("~?" + s)
	}
	return smAtom(s)
}

// mod: f reduced by a modulus q.
func (x *smExec) mod(f, q *sfm, op string) *sfm {
	if len(q.lin) == 1 {
		for k, n := range q.lin {
			if n == 1 && strings.HasPrefix(k, "mod:") && (smIdxRow(k) || x.whole) {
				r := smConst(0).add(f, 1)
				r.m[k] = true
				r.red = true
				return r
			}
		}
	}
	return x.opaque(op, f, q)
}

func (x *smExec) bin(t *ssa.BinOp) *sfm {
	a, b := x.val(t.X), x.val(t.Y)
	if isFloat(t.X.Type()) {
		switch t.Op {
		case token.ADD:
			return a.add(b, 1)
		case token.SUB:
			return a.add(b, -1)
		case token.MUL:
			return a.mul(b)
		}
	}
	if !isInt(t.X.Type()) {
		return x.opaque(t.Op.String(), a, b)
	}
	switch t.Op {
	case token.ADD:
		r := a.add(b, 1)
		r.red = a.neg && smOneMod(b) || b.neg && smOneMod(a)
		return r
	case token.SUB:
		r := a.add(b, -1)
		if len(a.lin) == 1 {
			for k := range a.lin {
				if strings.HasPrefix(k, "mod:") {
					r.pos = b.red // the modulus minus a residue of it
					r.red = b.pos // the modulus minus a positive number
				}
			}
		}
		if smOneMod(a) && (a.rowDep() || x.whole) {
			if _, isC := b.konst(); !isC {
				switch id := b.String() + "|" + a.String(); {
				case b.red:
				case x.cmp[id] == ">":
					r.m["wrap!"], r.red = true, false
				case x.cmp[id] != "<=":
					r.m["wrap?"] = true
				}
			}
		}
		return r
	case token.MUL:
		if n, ok := a.konst(); ok && n == 0 {
			return smConst(0)
		}
		if n, ok := b.konst(); ok && n == 0 {
			return smConst(0)
		}
		if n, ok := a.konst(); ok && n == 1 {
			return b
		}
		if n, ok := b.konst(); ok && n == 1 {
			return a
		}
		if y, ok := x.bit(t.X, a); ok {
			if n, _ := y.konst(); n == 0 {
				return smConst(0)
			}
			return b
		}
		if y, ok := x.bit(t.Y, b); ok {
			if n, _ := y.konst(); n == 0 {
				return smConst(0)
			}
			return a
		}
		return a.mul(b)
	case token.XOR:
		a, aok := x.bit(t.X, a)
		b, bok := x.bit(t.Y, b)
		n, ok1 := a.konst()
		k, ok2 := b.konst()
		if aok && bok && ok1 && ok2 {
			return smConst(n ^ k)
		}
	case token.AND:
		if c, ok := t.Y.(*ssa.Const); ok {
			if n, ok := smInt(c); ok && n == 1 {
				break
			}
		}
		a, aok := x.bit(t.X, a)
		b, bok := x.bit(t.Y, b)
		n, ok1 := a.konst()
		k, ok2 := b.konst()
		if ok1 && n == 0 || ok2 && k == 0 {
			return smConst(0)
		}
		if aok && bok && ok1 && ok2 {
			return smConst(n & k)
		}
	case token.OR:
		if n, ok := a.konst(); ok && n == 0 {
			return b
		}
		if n, ok := b.konst(); ok && n == 0 {
			return a
		}
		n, ok1 := a.konst()
		k, ok2 := b.konst()
		if ok1 && ok2 {
			return smConst(n | k)
		}
		if smHasMod(a) || smHasMod(b) {
			return smAtom("~mix:" + strings.ReplaceAll(a.String()+" | "+b.String(), "·", "*"))
		}
	case token.SHL:
		n, ok1 := a.konst()
		k, ok2 := b.konst()
		if ok1 && ok2 && n >= 0 && n < 1024 && k >= 0 && k < 10 {
			return smConst(n << uint(k))
		}
	case token.REM:
		r := x.mod(a, b, "%")
		if bt, ok := t.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned == 0 && r.red {
			r.red, r.rem = false, true
		}
		return r
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		n, ok1 := a.konst()
		k, ok2 := b.konst()
		if ok1 && ok2 {
			return smBool(map[token.Token]bool{token.EQL: n == k, token.NEQ: n != k, token.LSS: n < k, token.LEQ: n <= k, token.GTR: n > k, token.GEQ: n >= k}[t.Op])
		}
	}
	return x.opaque(t.Op.String(), a, b)
}

// smOneMod: one modulus of a table.
func smOneMod(f *sfm) bool {
	for k, n := range f.lin {
		return len(f.lin) == 1 && n == 1 && strings.HasPrefix(k, "mod:")
	}
	return false
}

// signed refines a signed remainder by the branch taken on its comparison with zero.
func (x *smExec) signed(c ssa.Value, taken bool) {
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return
	}
	f := x.env[b.X]
	if q := x.env[b.Y]; f != nil && q != nil && isInt(b.X.Type()) && smOneMod(q) && x.cmp != nil {
		id := f.String() + "|" + q.String()
		switch {
		case b.Op == token.GTR && taken || b.Op == token.LEQ && !taken:
			x.cmp[id] = ">"
		case b.Op == token.GTR || b.Op == token.LEQ || b.Op == token.LSS && taken || b.Op == token.GEQ && !taken:
			x.cmp[id] = "<="
		}
	}
	if f != nil && isInt(b.X.Type()) && !f.red {
		// a magnitude below the modulus
		if q := x.env[b.Y]; q != nil && smOneMod(q) && (q.rowDep() || x.whole) && (b.Op == token.LSS && taken || b.Op == token.GEQ && !taken) {
			g := smConst(0).add(f, 1)
			g.red, g.pos = true, f.pos
			x.env[b.X] = g
			return
		}
	}
	k, ok := b.Y.(*ssa.Const)
	if f == nil || !f.rem || !ok {
		return
	}
	if n, ok := smInt(k); !ok || n != 0 {
		return
	}
	neg := false
	switch b.Op {
	case token.LSS:
		neg = taken
	case token.GEQ:
		neg = !taken
	default:
		return
	}
	g := smConst(0).add(f, 1)
	g.rem, g.neg, g.red = neg, neg, !neg
	x.env[b.X] = g
}

func smBool(b bool) *sfm {
	if b {
		return smConst(1)
	}
	return smConst(0)
}

// big: the object a big integer pointer names.
func (x *smExec) big(v ssa.Value) string {
	if n, ok := x.bobj[v]; ok {
		return n
	}
	switch t := v.(type) {
	case *ssa.Phi:
		if !x.in(t.Block()) && natLoop(t.Block()) == nil {
			k := x.choose("phi:"+x.f.Name()+":"+strconv.Itoa(t.Block().Index), len(t.Block().Preds), true)
			return x.big(t.Edges[k])
		}
	case *ssa.Alloc, *ssa.Call:
		return "big:" + v.Name()
	}
	return "big:" + x.name(v)
}

func (x *smExec) bigVal(o string) *sfm {
	if f, ok := x.bigs[o]; ok {
		return f
	}
	return smAtom(o)
}

func smIsBig(t types.Type) bool {
	return typeIs(deref(t), "math/big.Int", "ring.Int", "math/big.Float")
}

// smTrunc: f rounded towards zero, which commutes with the sign.
func smTrunc(f *sfm, how string) *sfm {
	var ks []string
	for k := range f.lin {
		if k != "½" && k != "" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return smAtom(how + "(" + f.String() + ")")
	}
	sg := int64(1)
	if f.lin[ks[0]] < 0 {
		sg = -1
	}
	g := smConst(0).add(f, sg)
	n := how + "(" + strings.ReplaceAll(g.String(), "·", "*") + ")"
	if g.rowDep() {
		n = "~?" + n
	}
	r := smConst(0).add(smAtom(n), sg)
	smInner[n] = g
	return r
}

// smInner: what is rounded.
var smInner = map[string]*sfm{}

// call executes a call; nil: no result.
func (x *smExec) call(c *ssa.Call) *sfm {
	cc := c.Call
	f := cc.StaticCallee()
	args := func(i int) *sfm { return x.val(cc.Args[i]) }
	var forms []*sfm
	if f == nil {
		if cc.IsInvoke() && isPRNG(cc.Value.Type()) {
			return smAtom("~draw:" + c.Name())
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return smAtom(b.Name() + ":" + x.name(cc.Args[0]))
		}
		return smAtom("~?" + c.Name())
	}
	name := fname(f)
	switch f.Name() {
	case "CRed", "CRedConstant":
		return x.mod(args(0), args(1), "cred")
	case "BRedAdd":
		return x.mod(args(0), args(1), "bredadd")
	case "MForm":
		r := x.mod(args(0).mul(smAtom("R")), args(1), "mform")
		return r
	case "BRed":
		return x.mod(args(0).mul(args(1)), args(2), "bred")
	}
	if f.Signature.Recv() != nil && smIsBig(f.Signature.Recv().Type()) {
		o := x.big(cc.Args[0])
		set := func(v *sfm) *sfm {
			x.bigs[o] = v
			x.bobj[c] = o
			return nil
		}
		b := func(i int) *sfm { return x.bigVal(x.big(cc.Args[i])) }
		switch f.Name() {
		case "SetUint64", "SetInt64", "SetFloat64":
			return set(args(1))
		case "SetPrec", "SetMode":
			return set(x.bigVal(o))
		case "Int":
			if typeIs(deref(f.Signature.Recv().Type()), "math/big.Float") {
				z := x.big(cc.Args[1])
				if x.whole {
					x.bigs[z] = smTrunc(x.bigVal(o), "trunc")
				} else {
					x.bigs[z] = x.opaque("Int", x.bigVal(o))
				}
				x.bobj[c] = z
				return smAtom("tuple")
			}
		case "Set":
			return set(b(1))
		case "Mod":
			return set(x.mod(b(1), b(2), "mod"))
		case "Add":
			return set(b(1).add(b(2), 1))
		case "Sub":
			return set(b(1).add(b(2), -1))
		case "Neg":
			return set(smConst(0).add(b(1), -1))
		case "Mul":
			return set(b(1).mul(b(2)))
		case "Uint64", "Int64":
			r := smConst(0).add(x.bigVal(o), 1)
			r.red = x.bigVal(o).red
			return r
		case "Cmp", "CmpAbs":
			return x.opaque(f.Name(), x.bigVal(o), b(1))
		case "Sign", "IsInt64", "IsUint64", "BitLen":
			return x.opaque(f.Name(), x.bigVal(o))
		}
		for _, a := range cc.Args[1:] {
			if smIsBig(a.Type()) {
				forms = append(forms, x.bigVal(x.big(a)))
			} else {
				forms = append(forms, x.val(a))
			}
		}
		r := x.opaque(f.Name(), forms...)
		if smIsBig(c.Type()) {
			return set(r)
		}
		return r
	}
	switch {
	case name == "math/big.NewFloat" || name == "ring.NewFloat" || name == "math/big.NewInt" || name == "ring.NewUint" || name == "ring.NewInt":
		o := "big:" + c.Name()
		x.bobj[c] = o
		x.bigs[o] = args(0)
		return nil
	case name == "ring.NewIntFromString":
		o := "big:" + c.Name()
		x.bobj[c] = o
		x.bigs[o] = x.opaque("parse", args(0))
		return nil
	}
	// out-parameters that are big integers: Float.Int
	dep := false
	for _, a := range cc.Args {
		if smIsBig(a.Type()) {
			forms = append(forms, x.bigVal(x.big(a)))
		} else {
			forms = append(forms, x.val(a))
		}
		dep = dep || forms[len(forms)-1].rowDep()
	}
	if x.A.draws(f) {
		return smAtom("~draw:" + c.Name())
	}
	if inRepo(f) && x.depth < 3 && len(f.Blocks) > 0 && len(f.Blocks) < 12 && !hasLoop(f) {
		if r, ok := x.inline(f, c, forms); ok {
			return r
		}
	}
	for _, a := range cc.Args {
		if smIsBig(a.Type()) {
			x.bigs[x.big(a)] = x.opaque(f.Name(), forms...)
		}
	}
	_ = dep
	return x.opaque(f.Name(), forms...)
}

// draws: the function reads a generator.
func (A *smAn) draws(f *ssa.Function) bool {
	if r, ok := A.impu[f]; ok {
		return r
	}
	A.impu[f] = false
	r := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if c.Common().IsInvoke() {
				r = r || isPRNG(c.Common().Value.Type())
				continue
			}
			if g := c.Common().StaticCallee(); g != nil && inRepo(g) {
				r = r || A.draws(g)
			}
			if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && strings.Contains(g.Pkg.Pkg.Path(), "rand") {
				r = true
			}
		}
	}
	if r {
		A.impu[f] = true
	}
	return r
}

func hasLoop(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if natLoop(b) != nil {
			return true
		}
	}
	return false
}

// inline executes a loop-free function on the caller's path.
func (x *smExec) inline(f *ssa.Function, c *ssa.Call, args []*sfm) (*sfm, bool) {
	sub := &smExec{A: x.A, f: f, h: x.h, iter: x.iter, env: map[ssa.Value]*sfm{}, refs: map[ssa.Value]*smRef{}, bigs: x.bigs, mem: x.mem,
		bobj: map[ssa.Value]string{}, depth: x.depth + 1, names: map[ssa.Value]string{}}
	for i, p := range f.Params {
		if i >= len(c.Call.Args) {
			return nil, false
		}
		a := c.Call.Args[i]
		sub.env[p] = args[i]
		if isInt(a.Type()) {
			if b, ok := x.bit(a, args[i]); ok {
				sub.env[p] = b
			}
		}
		sub.names[p] = x.name(a)
		if smIsBig(p.Type()) {
			sub.bobj[p] = x.big(a)
		}
		if r := x.ref(a); r != nil {
			sub.refs[p] = r
		}
	}
	sub.whole, sub.cmp = x.whole, x.cmp
	sub.dec, sub.max, sub.keys, sub.kinv, sub.n = x.dec, x.max, x.keys, x.kinv, x.n
	ret := sub.run(f.Blocks[0], nil)
	x.dec, x.max, x.keys, x.kinv, x.n = sub.dec, sub.max, sub.keys, sub.kinv, sub.n
	for _, s := range sub.stores {
		x.stores = append(x.stores, s)
	}
	if sub.stop || ret == nil {
		return nil, false
	}
	switch len(ret.Results) {
	case 0:
		return smConst(0), true
	case 1:
		if smIsBig(ret.Results[0].Type()) {
			x.bobj[c] = sub.big(ret.Results[0])
			return nil, true
		}
		return sub.val(ret.Results[0]), true
	}
	for _, u := range *c.Referrers() {
		if e, ok := u.(*ssa.Extract); ok {
			x.env[e] = sub.val(ret.Results[e.Index])
		}
	}
	return smAtom("tuple"), true
}

// run executes from block b until a return, or until the loop starts again or is left.
func (x *smExec) run(b, from *ssa.BasicBlock) *ssa.Return {
	visits := map[*ssa.BasicBlock]int{}
	for steps := 0; steps < 4000; steps++ {
		if visits[b]++; visits[b] > 2 {
			x.stop = true
			return nil
		}
		again := visits[b] == 2
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Phi:
				if x.h == b && b.Parent() == x.f && x.depth == 0 {
					if _, ok := x.env[t]; !ok {
						x.env[t] = smAtom("~?" + t.Name())
					}
					continue
				}
				if natLoop(b) != nil { // an inner loop: some step of it
					x.env[t] = smAtom("step:" + t.Name())
					continue
				}
				done := false
				for i, p := range b.Preds {
					if p == from {
						x.env[t] = x.val(t.Edges[i])
						if r := x.ref(t.Edges[i]); r != nil {
							x.refs[t] = r
						}
						if smIsBig(t.Type()) {
							x.bobj[t] = x.big(t.Edges[i])
						}
						done = true
					}
				}
				if !done {
					x.env[t] = smAtom("~?" + t.Name())
				}
			case *ssa.BinOp:
				x.env[t] = x.bin(t)
			case *ssa.Convert:
				if isInt(t.Type()) && isInt(t.X.Type()) || isFloat(t.Type()) && isFloat(t.X.Type()) {
					x.env[t] = x.val(t.X)
				} else if isInt(t.Type()) && isFloat(t.X.Type()) && x.whole {
					x.env[t] = smTrunc(x.val(t.X), "trunc")
				} else {
					x.env[t] = x.opaque("conv", x.val(t.X))
				}
			case *ssa.UnOp:
				if t.Op == token.MUL {
					if r := x.ref(t); r != nil {
						x.refs[t] = r
						continue
					}
					if r := x.load(t, t.X); r != nil {
						x.env[t] = r
					} else {
						x.names[t] = x.name(t.X)
						x.env[t] = smAtom(x.name(t.X))
					}
				} else if t.Op == token.SUB {
					x.env[t] = smConst(0).add(x.val(t.X), -1)
				} else if t.Op == token.NOT {
					if n, ok := x.val(t.X).konst(); ok {
						x.env[t] = smConst(1 - n)
					} else {
						x.env[t] = x.opaque("!", x.val(t.X))
					}
				} else {
					x.env[t] = x.opaque(t.Op.String(), x.val(t.X))
				}
			case *ssa.Slice, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.ChangeType, *ssa.Field:
				v := in.(ssa.Value)
				if r := x.ref(v); r != nil {
					x.refs[v] = r
				}
				if ct, ok := in.(*ssa.ChangeType); ok {
					x.env[ct] = x.val(ct.X)
				}
			case *ssa.Extract:
				if _, ok := x.env[t]; !ok {
					f := x.val(t.Tuple)
					s := f.String()
					if strings.HasPrefix(s, "~") || !f.rowDep() {
						x.env[t] = smAtom(s + "#" + strconv.Itoa(t.Index))
					} else {
						x.env[t] = smAtom("~?" + s + "#" + strconv.Itoa(t.Index))
					}
				}
			case *ssa.Call:
				if r := x.call(t); r != nil {
					x.env[t] = r
				}
			case *ssa.TypeAssert:
				x.names[t] = x.name(t.X) + ".(" + types.TypeString(t.AssertedType, nil) + ")"
				x.env[t] = smAtom(x.names[t])
			case *ssa.Alloc:
				x.bobj[t] = "big:" + t.Name()
				if typeIs(deref(t.Type()), "math/big.Int") {
					x.bigs["big:"+t.Name()] = smConst(0)
				}
			case *ssa.Store:
				if ia, ok := t.Addr.(*ssa.IndexAddr); ok {
					if rf := x.ref(ia.X); rf != nil {
						col := x.val(ia.Index)
						v := x.val(t.Val)
						x.stores = append(x.stores, smStore{at: t, base: rf.base, row: rf.row, col: col, val: v, iter: x.iter})
						x.mem[rf.base+"["+rf.row.String()+"]["+col.String()+"]"] = v
					}
					continue
				}
				if isInt(deref(t.Addr.Type())) {
					x.mem[x.name(t.Addr)] = x.val(t.Val)
				}
			case *ssa.Return:
				return t
			case *ssa.Panic:
				x.stop = true
				return nil
			}
		}
		var next *ssa.BasicBlock
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Jump:
			next = b.Succs[0]
		case *ssa.If:
			inner := natLoop(b)
			if x.depth == 0 && b == x.h {
				inner = x.body
			}
			k := -1
			if inner != nil && (inner[b.Succs[0]] != inner[b.Succs[1]]) {
				// the test of a loop: its body once, then on
				k = 0
				if inner[b.Succs[1]] {
					k = 1
				}
				if again {
					k = 1 - k
				}
			} else {
				c := x.val(t.Cond)
				if n, ok := c.konst(); ok {
					k = 1
					if n != 0 {
						k = 0
					}
				} else if c.rowDep() {
					k = x.choose("row:"+strconv.Itoa(x.iter)+":"+b.Parent().Name()+":"+strconv.Itoa(b.Index), 2, false)
				} else {
					k = x.choose("if:"+c.String(), 2, true)
				}
				x.signed(t.Cond, k == 0)
			}
			next = b.Succs[k]
		default:
			x.stop = true
			return nil
		}
		if x.depth == 0 && (next == x.h || !x.body[next]) {
			if next != x.h && b != x.h {
				// left early: a break, or a panic further on
				x.stop = true
			}
			// values carried into the next row
			if next == x.h {
				x.carry = map[ssa.Value]*sfm{}
				for i, p := range x.h.Preds {
					if p == b {
						for _, in := range x.h.Instrs {
							if ph, ok := in.(*ssa.Phi); ok {
								x.carry[ph] = smCarried(x.val(ph.Edges[i]))
							}
						}
					}
				}
			}
			return nil
		}
		from, b = b, next
	}
	x.stop = true
	return nil
}

// smCarried: a value of the row before.
func smCarried(f *sfm) *sfm {
	if f.rowDep() {
		return smAtom("~carried")
	}
	return f
}

func smHasMod(f *sfm) bool {
	for k := range f.lin {
		for _, g := range strings.Split(k, "·") {
			if strings.HasPrefix(g, "mod:") && smIdxRow(g) {
				return true
			}
		}
	}
	return false
}

// smSpread is one stored value, modulo its row's modulus.
type smSpread struct {
	wrap  string // a modulus minus a number that exceeds it (!), or can (?)
	loop  int    // the loop over rows
	fn    *ssa.Function
	at    ssa.Instruction
	base  string
	col   string
	inv   map[string]int
	v     *sfm
	usesQ bool
	below bool // below the modulus
	other bool // takes other polynomials' rows, or an operation that is not recognised
	conds []string
	bad   string
}

// key of a group: the same element under the same row-independent choices.
func (s *smSpread) kase(without string) string {
	var ks []string
	for k, d := range s.inv {
		if k != without {
			ks = append(ks, k+"="+strconv.Itoa(d))
		}
	}
	sort.Strings(ks)
	return s.base + "[" + s.col + "] " + strings.Join(ks, " ")
}

func checkP17(P *Prog, r *Report) {
	r.Rule = "every loop that stores one coefficient into the rows of a table of residues is executed symbolically for two successive rows on every acyclic path: the stored value is congruent modulo the row's modulus to one integer, the same in all rows, made of quantities fixed outside the loop; a sign flips it consistently; samples and lifts are below the modulus"
	r.Assume = append(r.Assume, "the magnitude of a sample is at most the smallest modulus (bound of the distribution)")
	A := &smAn{P: P, r: r, rng: map[ssa.Value]int8{}, mods: map[*ssa.Parameter]int8{}, impu: map[*ssa.Function]bool{}}
	per := map[*ssa.Function][]*smSpread{}
	var fns []*ssa.Function
	for _, f := range P.Funcs {
		if len(f.Blocks) == 0 {
			continue
		}
		var ss []*smSpread
		for _, h := range f.Blocks {
			if body := natLoop(h); body != nil {
				ss = append(ss, A.loop(f, h, body)...)
			}
		}
		if len(ss) > 0 {
			per[f] = ss
			fns = append(fns, f)
		}
	}
	// tables of residues of fixed integers
	tabs := map[string][]map[string]*sfm{}
	for _, f := range fns {
		byCase := map[string]map[string]*sfm{}
		names := map[string]string{}
		for _, s := range per[f] {
			if !strings.HasPrefix(s.base, "arr:") || s.other {
				continue
			}
			t := s.base[strings.LastIndex(s.base, ".")+1:]
			k := (&smSpread{base: t, inv: s.inv}).kase("")
			if byCase[k] == nil {
				byCase[k] = map[string]*sfm{}
				names[k] = t
			}
			byCase[k][s.col] = s.v
		}
		for k, m := range byCase {
			tabs[names[k]] = append(tabs[names[k]], m)
			if len(m) == 3 && m["0"] != nil && m["1"] != nil && m["2"] != nil {
				r.count("tables of ternary residues", 1)
				r.ok(1)
				if c, ok := m["0"].konst(); !ok || c != 0 || m["1"].add(m["2"], 1).String() != "0" {
					r.bad("table|"+fname(f)+"|"+names[k], "the rows of %s hold %s, %s and %s instead of 0 and two opposite integers; in %s, %s", names[k], m["0"], m["1"], m["2"], fname(f), k)
				}
			}
		}
	}
	for _, f := range fns {
		A.judge(f, per[f], tabs)
	}
	A.fixedPoint()
	r.atLeast("stored values judged", 14)
	r.atLeast("functions that put integers into residue form", 7)
}

// loop collects the values stored by one loop over rows.
func (A *smAn) loop(f *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) []*smSpread {
	var inds []*ssa.Phi
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok || !isInt(ph.Type()) {
			continue
		}
		for i, p := range h.Preds {
			if b, ok := ph.Edges[i].(*ssa.BinOp); ok && body[p] && (b.Op == token.ADD || b.Op == token.SUB) && b.X == ph {
				if c, ok := b.Y.(*ssa.Const); ok {
					if n, ok := smInt(c); ok && n == 1 {
						inds = append(inds, ph)
					}
				}
			}
		}
	}
	var out []*smSpread
	for _, ind := range inds {
		out = append(out, A.rows(f, h, body, ind)...)
	}
	return out
}

func (A *smAn) rows(f *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, ind *ssa.Phi) []*smSpread {
	var out []*smSpread
	x := &smExec{A: A, f: f, h: h, body: body, ind: ind, names: map[ssa.Value]string{}}
	for runs := 0; runs < 512; runs++ {
		x.n, x.keys, x.kinv = 0, map[string]int{}, map[string]bool{}
		x.bigs, x.mem, x.bobj = map[string]*sfm{}, map[string]*sfm{}, map[ssa.Value]string{}
		x.refs = map[ssa.Value]*smRef{}
		x.stores, x.stop, x.carry = nil, false, nil
		feasible := true
		for x.iter = 1; x.iter <= 2 && feasible && !x.stop; x.iter++ {
			x.env = map[ssa.Value]*sfm{}
			x.cmp = map[string]string{}
			for k := range x.refs {
				delete(x.refs, k)
			}
			if x.iter == 1 {
				x.env[ind] = smAtom("j")
				feasible = x.given()
			}
			for _, in := range h.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					continue
				}
				switch {
				case ph == ind:
					x.env[ph] = smAtom("j")
				case x.iter == 2:
					x.env[ph] = x.carry[ph]
				default:
					for i, p := range h.Preds {
						if !body[p] {
							x.env[ph] = x.outer(ph.Edges[i])
						}
					}
				}
			}
			if x.iter == 2 {
				for k, v := range x.bigs {
					x.bigs[k] = smCarried(v)
				}
				for k, v := range x.mem {
					if strings.Contains(k, "][") {
						delete(x.mem, k)
					} else {
						x.mem[k] = smCarried(v)
					}
				}
			}
			x.run(h, nil)
			if x.iter == 1 && x.carry == nil {
				break
			}
		}
		if feasible && !x.stop {
			for _, s := range x.stores {
				if sp := x.spread(s); sp != nil {
					out = append(out, sp)
				}
			}
		}
		if !x.next() {
			return out
		}
	}
	A.r.count("loops with too many paths", 1)
	return nil
}

// given takes over the conditions under which the loop is reached.
func (x *smExec) given() bool {
	for b := x.h; b.Idom() != nil; b = b.Idom() {
		d := b.Idom()
		t, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || natLoop(d) != nil {
			continue
		}
		// the edge that leads here
		k := -1
		for i, s := range d.Succs {
			if s.Dominates(x.h) && len(s.Preds) == 1 {
				k = i
			}
		}
		if k < 0 {
			continue
		}
		c := x.val(t.Cond)
		if n, ok := c.konst(); ok {
			if (n != 0) != (k == 0) {
				return false
			}
			continue
		}
		key := "if:" + c.String()
		if d, ok := x.keys[key]; ok && d != k {
			return false
		}
		x.keys[key] = k
		x.kinv[key] = true
	}
	return true
}

// spread reduces a stored value modulo the modulus of its row; nil: the row does not move with the loop.
func (x *smExec) spread(s smStore) *smSpread {
	row := s.row.String()
	if s.row.lin["j"] == 0 || len(s.row.m) > 0 {
		return nil
	}
	for k := range s.row.lin {
		if k != "j" && smRowDep(k) {
			return nil
		}
	}
	q := "mod:" + row + "@"
	sp := &smSpread{loop: x.h.Index, fn: x.f, at: s.at, base: s.base, col: s.col.String(), inv: map[string]int{}, v: &sfm{lin: map[string]int64{}}, below: s.val.red}
	for k, d := range x.keys {
		if x.kinv[k] {
			sp.inv[k] = d
			sp.conds = append(sp.conds, k)
			if c, ok := x.phic[k]; ok {
				sp.conds = append(sp.conds, c)
			}
		}
	}
	sm := map[string]bool{}
	for k := range s.val.m {
		if strings.HasPrefix(k, "wrap") {
			sp.wrap = k
			continue
		}
		sm[k] = true
		sp.usesQ = true
		if !strings.HasPrefix(k, q) {
			sp.other = true
		}
	}
	own := "~row:" + s.base + "[" + row + "][" + s.col.String() + "]"
	nq := int64(0)
	for k, n := range s.val.lin {
		isq := false
		for _, g := range strings.Split(k, "·") {
			if strings.HasPrefix(g, q) {
				isq = true
			}
		}
		switch {
		case isq:
			sp.usesQ = true
			nq = n
		case k == own && n == 1:
		case strings.HasPrefix(k, "~row:arr:") && n == 1 && strings.Contains(k, "["+row+"]["):
			t := k[strings.LastIndex(k[:strings.Index(k, "[")], ".")+1 : strings.Index(k, "[")]
			i := k[strings.Index(k, "]["):]
			sp.v.lin["tab:"+t+":"+i[2:len(i)-1]] = n
			sp.usesQ, sp.below = true, true
		default:
			sp.v.lin[k] = n
			for _, g := range strings.Split(k, "·") {
				switch {
				case strings.HasPrefix(g, "~draw:"):
					sp.bad = "is drawn anew for every row"
				case strings.HasPrefix(g, "~carried"):
					sp.bad = "takes over what the row before left"
				case strings.HasPrefix(g, "~mix:"):
					sp.bad = "combines the bits of two numbers (" + g[5:] + ")"
				case smRowDep(g):
					sp.other = true
				}
			}
		}
	}
	sp.v.norm()
	if nq == 0 && !sp.below && len(sm) == 0 && !strings.HasPrefix(x.f.Name(), "SetCoefficients") {
		// a magnitude: drawn, or lifted, and so small
		sp.below = true
		for _, n := range sp.v.lin {
			if n < 0 {
				sp.below = false
			}
		}
	}
	if c, one := sp.v.konst(); one && nq == 1 && len(sm) == 0 && c < 0 && c > -16 {
		sp.below = true // q - c
	}
	return sp
}

func (A *smAn) judge(f *ssa.Function, ss []*smSpread, tabs map[string][]map[string]*sfm) {
	r := A.r
	rt := ""
	if f.Signature.Recv() != nil {
		rt = typeName(deref(f.Signature.Recv().Type()))
	}
	if strings.Contains(rt, "Uniform") {
		return
	}
	uses := map[string]bool{}
	for _, s := range ss {
		if s.usesQ {
			uses[s.base] = true
		}
		for k := range s.v.lin {
			for _, c := range s.conds {
				if strings.HasPrefix(k, "elem:") && strings.Contains(c, k) && strings.Contains(c, "mod:") {
					uses[s.base] = true // centred, or meant to be
				}
			}
		}
	}
	sampler := strings.HasSuffix(rt, "Sampler")
	groups := map[string]*smSpread{}
	cells := map[string][]*smSpread{}
	seen := false
	strict := false // numbers of any size
	for _, p := range f.Params {
		strict = strict || !sampler && isFloat(p.Type())
	}
	must := sampler || strings.Contains(f.Name(), "ExtendBasisSmallNorm") || strings.HasPrefix(f.Name(), "SetCoefficients")
	for _, s := range ss {
		if !uses[s.base] && !(must && strings.HasSuffix(s.base, ".Coeffs")) {
			continue
		}
		if os.Getenv("SM") != "" {
			fmt.Fprintln(os.Stderr, "SM", fname(f), s.kase(""), "V =", s.v, "below", s.below, "other", s.other, s.bad)
		}
		if s.bad == "" && s.other {
			r.count("stored values not judged (made from other rows, or not recognised)", 1)
			continue
		}
		seen = true
		r.ok(1)
		r.count("stored values judged", 1)
		where := fname(f) + "|" + s.base
		if s.bad != "" {
			r.bad("row|"+where, "the value stored for one coefficient in the rows of %s %s; at %s", s.base, s.bad, A.P.instrPos(s.at))
			continue
		}
		if s.wrap == "wrap!" || s.wrap == "wrap?" && strict {
			r.bad("wrap|"+where, "the residue stored in %s comes from a modulus minus a number that %s it; at %s", s.base, map[string]string{"wrap!": "exceeds", "wrap?": "can exceed"}[s.wrap], A.P.instrPos(s.at))
			continue
		}
		if g := groups[s.kase("")]; g != nil && g.v.String() != s.v.String() {
			r.bad("integer|"+where, "the rows of %s hold residues of different integers: %s in some rows, %s in others; at %s and %s", s.base, g.v, s.v, A.P.instrPos(g.at), A.P.instrPos(s.at))
			continue
		}
		lifts, fixed := false, ""
		for k := range s.v.lin {
			lifts = lifts || strings.HasPrefix(k, "elem:")
			if strings.HasPrefix(k, "mod:") {
				fixed = k[len("mod:"):]
			}
		}
		if fixed != "" && !lifts {
			r.bad("fixed|"+where, "the integer put into the rows of %s contains the modulus %s, whatever the row; at %s", s.base, fixed, A.P.instrPos(s.at))
			continue
		}
		groups[s.kase("")] = s
		cells[s.base] = append(cells[s.base], s)
		if must && !s.below {
			r.bad("below|"+where, "the residue of %s stored in %s is not reduced: it can equal or exceed the modulus; at %s", s.v, s.base, A.P.instrPos(s.at))
		}
	}
	if seen {
		r.count("functions that put integers into residue form", 1)
		r.sample(fname(f))
	}
	// a sign flips the integer, everywhere or nowhere
	for base, cs := range cells {
		rel := map[string]map[string]*smSpread{}
		for _, s := range cs {
			for k, d := range s.inv {
				for _, t := range cs {
					if e, ok := t.inv[k]; !ok || e == d || t.kase(k) != s.kase(k) {
						continue
					}
					w := ""
					switch sum, same := s.v.add(t.v, 1).String() == "0", s.v.String() == t.v.String(); {
					case sum && same:
						continue
					case sum:
						w = "opposite"
					case same:
						w = "the same"
					default:
						continue
					}
					if rel[k] == nil {
						rel[k] = map[string]*smSpread{}
					}
					rel[k][w] = s
				}
			}
		}
		for k, m := range rel {
			if a, b := m["opposite"], m["the same"]; a != nil && b != nil {
				r.bad("sign|"+fname(f)+"|"+base, "the sign (%s) changes the integer stored in %s at %s but not at %s", k, base, A.P.instrPos(a.at), A.P.instrPos(b.at))
			}
		}
		// lifted from one row of a polynomial: the centred residue of that row
		centred := map[int]map[bool]*smSpread{}
		for _, s := range cs {
			src, n := "", 0
			for k := range s.v.lin {
				if strings.HasPrefix(k, "elem:") {
					src = k
					n++
				}
			}
			if n != 1 {
				continue
			}
			if strings.HasPrefix(src, "elem:arr:") {
				r.bad("tablerow|"+fname(f)+"|"+base, "every row of %s takes the residue of one row of a table (%s); at %s", base, src[len("elem:arr:"):], A.P.instrPos(s.at))
				continue
			}
			i := strings.Index(src, "[")
			idx := src[i+1 : i+1+strings.Index(src[i+1:], "]")]
			rest := s.v.add(smAtom(src), -s.v.lin[src])
			ok := s.v.lin[src] == 1
			switch len(rest.lin) {
			case 0:
			case 1:
				for k, n := range rest.lin {
					ok = ok && n == -1 && strings.HasPrefix(k, "mod:"+idx+"@")
					// the half it is compared with
					for _, c := range s.conds {
						if strings.Contains(c, src) && strings.Contains(c, "mod:") && !strings.Contains(c, k) {
							ok = false
						}
					}
				}
			default:
				ok = false
			}
			for _, c := range s.conds {
				if strings.Contains(c, src) && strings.Contains(c, "mod:") {
					if centred[s.loop] == nil {
						centred[s.loop] = map[bool]*smSpread{}
					}
					centred[s.loop][len(rest.lin) > 0] = s
				}
			}
			r.count("lifted residues", 1)
			if !ok {
				r.bad("centre|"+fname(f)+"|"+base, "the integer put into the rows of %s is %s, not the centred residue of %s modulo the modulus of its row; at %s", base, s.v, src, A.P.instrPos(s.at))
			}
		}
		for _, m := range centred {
			if s := m[false]; s != nil && m[true] == nil {
				r.bad("centre|"+fname(f)+"|"+base, "the integer put into the rows of %s is %s whether it exceeds half its modulus or not; at %s", base, s.v, A.P.instrPos(s.at))
			}
		}
		if !sampler {
			continue
		}
		// both signs occur
		byLoop := map[int][]*smSpread{}
		for _, s := range cs {
			byLoop[s.loop] = append(byLoop[s.loop], s)
		}
		for _, ls := range byLoop {
			var vs []*sfm
			known := true
			for _, s := range ls {
				alts := []*sfm{s.v}
				for k := range s.v.lin {
					if !strings.HasPrefix(k, "tab:") {
						continue
					}
					p := strings.Split(k, ":")
					ts := tabs[p[1]]
					if len(s.v.lin) != 1 || len(ts) == 0 {
						known = false
						continue
					}
					if _, err := strconv.Atoi(p[2]); err != nil {
						known = false // any entry
						continue
					}
					e := ts[0][p[2]]
					if e == nil {
						r.bad("entry|"+fname(f)+"|"+base, "entry %s of %s does not exist; at %s", p[2], p[1], A.P.instrPos(s.at))
						known = false
						continue
					}
					alts = []*sfm{e}
				}
				vs = append(vs, alts...)
			}
			if !known || strings.HasPrefix(base, "arr:") {
				continue
			}
			for _, v := range vs {
				found := false
				for _, w := range vs {
					if v.add(w, 1).String() == "0" {
						found = true
					}
				}
				if !found {
					r.bad("negation|"+fname(f)+"|"+base, "the sampler stores %s in the rows of %s but never its negative", v, base)
				}
			}
			r.count("samplers with both signs", 1)
		}
	}
	if sampler {
		A.cover(f)
	}
}

// cover: the loops of a sampler run over all rows up to the level and over all coefficients.
func (A *smAn) cover(f *ssa.Function) {
	lvl := ""
	for _, p := range f.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int && strings.HasPrefix(strings.ToLower(p.Name()), "l") {
			lvl = p.Name()
		}
	}
	if lvl == "" {
		return
	}
	for _, h := range f.Blocks {
		body := natLoop(h)
		if body == nil {
			continue
		}
		t, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := t.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.LSS && c.Op != token.LEQ {
			continue
		}
		var ind *ssa.Phi
		off := int64(0)
		switch y := c.X.(type) {
		case *ssa.Phi:
			ind = y
		case *ssa.BinOp:
			if p, ok := y.X.(*ssa.Phi); ok && y.Op == token.ADD {
				if k, ok := y.Y.(*ssa.Const); ok {
					ind = p
					off, _ = smInt(k)
				}
			}
		}
		if ind == nil || ind.Block() != h {
			continue
		}
		x := &smExec{A: A, f: f, h: h, body: body, names: map[ssa.Value]string{}, env: map[ssa.Value]*sfm{}, refs: map[ssa.Value]*smRef{},
			bigs: map[string]*sfm{}, mem: map[string]*sfm{}, bobj: map[ssa.Value]string{}, keys: map[string]int{}, kinv: map[string]bool{}}
		var start *sfm
		for i, p := range h.Preds {
			if !body[p] {
				start = x.outer(ind.Edges[i]).add(smConst(off), 1)
			}
		}
		lim := A.bound(x, c.Y)
		if lim == nil || start == nil {
			continue
		}
		if c.Op == token.LEQ {
			lim = lim.add(smConst(1), 1)
		}
		// what the loop counts: rows, or coefficients
		kind := ""
		for b := range body {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := s.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				u, ok := ia.X.(*ssa.UnOp)
				if !ok {
					continue
				}
				ja, ok := u.X.(*ssa.IndexAddr)
				if !ok || !isTable(ja.X.Type()) {
					continue
				}
				same := func(v ssa.Value) bool { return v == ssa.Value(ind) || v == c.X }
				if same(ja.Index) {
					kind = "rows"
				} else if same(ia.Index) {
					kind = "coefficients"
				}
			}
		}
		if kind == "" {
			continue
		}
		A.r.count("sampler loops over "+kind, 1)
		A.r.ok(1)
		bad := func(what string) {
			A.r.bad("cover|"+fname(f)+"|"+kind, "the loop over the %s of the sample %s; at %s", kind, what, A.P.instrPos(t))
		}
		if n, ok := start.konst(); !ok || n != 0 {
			if ok {
				bad(fmt.Sprintf("starts at %d", n))
			}
			continue
		}
		if kind == "rows" {
			rest := lim.add(smAtom(lvl), -1)
			if n, ok := rest.konst(); ok && n != 1 {
				bad("ends at row " + lim.String() + " and not at " + lvl + " + 1")
			}
		} else {
			var nn []string
			for k := range lim.lin {
				if strings.HasSuffix(k, ".N") {
					nn = append(nn, k)
				}
			}
			if len(nn) == 1 && lim.lin[nn[0]] == 1 {
				if n, ok := lim.add(smAtom(nn[0]), -1).konst(); ok && n != 0 {
					bad("ends at coefficient " + lim.String())
				}
			}
		}
	}
}

// bound: the limit of a loop; the length of a slice expression is its upper index.
func (A *smAn) bound(x *smExec, v ssa.Value) *sfm {
	c, ok := v.(*ssa.Call)
	if !ok {
		return x.outer(v)
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return nil
	}
	switch s := c.Call.Args[0].(type) {
	case *ssa.Slice:
		if s.High != nil && s.Low == nil {
			return x.outer(s.High)
		}
	}
	return nil
}

// fixedPoint: the functions that round a real number, or take an integer of any type, and return or store its residues.
func (A *smAn) fixedPoint() {
	r := A.r
	for _, f := range A.P.Funcs {
		if !inRepo(f) || len(f.Blocks) == 0 || len(f.Blocks) > 60 || f.Signature.Recv() != nil || f.Parent() != nil {
			continue
		}
		var qs []*ssa.Parameter
		real, whole := false, false
		for _, p := range f.Params {
			switch t := p.Type().Underlying().(type) {
			case *types.Basic:
				real = real || t.Kind() == types.Float64
				if t.Kind() == types.Uint64 && A.modArg(f, p) {
					qs = append(qs, p)
				}
			case *types.Interface:
				whole = whole || t.Empty()
			case *types.Slice:
				real = real || typeIs(deref(t.Elem()), "math/big.Float")
			}
		}
		if !real && !(whole && len(qs) == 1) {
			continue
		}
		body := map[*ssa.BasicBlock]bool{}
		for _, b := range f.Blocks {
			body[b] = true
		}
		type out struct {
			v  *sfm
			at ssa.Instruction
		}
		res := map[string][]out{}
		known := map[string]bool{}
		x := &smExec{A: A, f: f, body: body, names: map[ssa.Value]string{}, whole: true}
		done := false
		for runs := 0; runs < 1024 && !done; runs++ {
			x.n, x.keys, x.kinv = 0, map[string]int{}, map[string]bool{}
			x.bigs, x.mem, x.bobj = map[string]*sfm{}, map[string]*sfm{}, map[ssa.Value]string{}
			x.refs, x.env = map[ssa.Value]*smRef{}, map[ssa.Value]*sfm{}
			x.stores, x.stop, x.cmp = nil, false, map[string]string{}
			for _, q := range qs {
				x.env[q] = &sfm{lin: map[string]int64{"mod:j@" + q.Name(): 1}, pos: true}
			}
			ret := x.run(f.Blocks[0], nil)
			if !x.stop && ret != nil {
				add := func(base string, f *sfm, at ssa.Instruction, q bool) {
					v := smConst(0)
					mod := len(f.m) > 0
					if f.m["wrap!"] || f.m["wrap?"] {
						r.bad("wrap|"+fname(x.f)+"|"+base, "%s puts out a modulus minus a number that can exceed it; at %s", fname(x.f), A.P.instrPos(at))
					}
					for k, n := range f.lin {
						if strings.Contains(k, "mod:") && !strings.Contains(k, "(") {
							mod = true
						} else {
							v.lin[k] += n
						}
					}
					v.norm()
					known[base] = known[base] || mod && q
					res[base] = append(res[base], out{v, at})
				}
				for _, s := range x.stores {
					add(s.base, s.val, s.at, true)
				}
				if len(ret.Results) == 1 && isInt(ret.Results[0].Type()) && len(qs) == 1 {
					add("result", x.val(ret.Results[0]), ret, true)
				}
			}
			done = !x.next()
		}
		if !done {
			r.count("loops with too many paths", 1)
			continue
		}
		for base, vs := range res {
			if !known[base] {
				continue
			}
			if os.Getenv("SM") != "" {
				for _, v := range vs {
					fmt.Fprintln(os.Stderr, "FP", fname(f), base, v.v)
				}
			}
			where := fname(f) + "|" + base
			if !real {
				for _, o := range vs {
					r.ok(1)
					if len(o.v.lin) == 1 {
						for k, n := range o.v.lin {
							if n < 0 && !strings.HasPrefix(k, "~") {
								r.bad("negated|"+where, "the residue of -(%s) is returned instead of the residue of the argument; at %s", k, A.P.instrPos(o.at))
							}
						}
					}
				}
				r.count("integer arguments reduced", 1)
				continue
			}
			all := len(vs) > 0
			for _, o := range vs {
				ok := len(o.v.lin) > 0
				for k := range o.v.lin {
					ok = ok && (k == "" || smInner[k] != nil && !strings.Contains(smInner[k].String(), "("))
				}
				all = all && ok
			}
			if !all {
				r.count("fixed-point encodings not judged", 1)
				continue
			}
			r.count("fixed-point encodings judged", 1)
			r.sample(fname(f))
			for _, o := range vs {
				r.ok(1)
				fl := smFlip(o.v)
				found := false
				for _, w := range vs {
					found = found || w.v.String() == fl.String()
				}
				if !found {
					r.bad("odd|"+where, "%s encodes %s for some numbers but its negative, %s, for none: a number and its negative are not encoded alike; at %s", fname(f), o.v, fl, A.P.instrPos(o.at))
				}
			}
		}
	}
	r.atLeast("fixed-point encodings judged", 1)
}

// smFlip: minus the rounded value of minus the number.
func smFlip(v *sfm) *sfm {
	r := smConst(0)
	for k, n := range v.lin {
		if k == "" {
			r = r.add(smConst(1), -n)
			continue
		}
		g := &sfm{lin: map[string]int64{}}
		for a, c := range smInner[k].lin {
			if a == "½" || a == "" {
				g.lin[a] = c
			} else {
				g.lin[a] = -c
			}
		}
		r = r.add(smTrunc(g, k[:strings.Index(k, "(")]), -n)
	}
	return r.norm()
}

// modArg: every call hands over an element of a table of moduli.
func (A *smAn) modArg(f *ssa.Function, p *ssa.Parameter) bool {
	k := -1
	for i, q := range f.Params {
		if q == p {
			k = i
		}
	}
	n := 0
	for _, g := range A.P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() != f {
					continue
				}
				n++
				u, ok := c.Common().Args[k].(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					return false
				}
				ia, ok := u.X.(*ssa.IndexAddr)
				if !ok || !A.modTable(ia.X) {
					return false
				}
			}
		}
	}
	return n > 0
}
