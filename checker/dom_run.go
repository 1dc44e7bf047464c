package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// DomCfg is one assignment of operand shapes to an entry point.
type DomCfg struct {
	fn    *ssa.Function
	typ   map[string]types.Type // concrete types of interface-typed parameters
	deg   map[string]int        // ciphertext degrees
	ntt   map[string]bool       // representation flags of the operands
	noP   bool
	ci    bool
	same  map[string]string // parameters that are the same object as another one
	twin  map[string]string // parameters that are distinct objects with the same entry state as another one
	recvs map[string]bool   // written parameters
	path  []bool            // outcomes of scale comparisons
}

func (c *DomCfg) String() string {
	var p []string
	for k, v := range c.deg {
		p = append(p, fmt.Sprintf("%s of degree %d", k, v))
	}
	for k, v := range c.ntt {
		if v {
			p = append(p, k+" in the evaluation domain")
		} else {
			p = append(p, k+" in the coefficient domain")
		}
	}
	for k, t := range c.typ {
		p = append(p, k+" a "+shortType(t))
	}
	if c.noP {
		p = append(p, "without auxiliary moduli")
	}
	if c.ci {
		p = append(p, "conjugate-invariant ring")
	}
	for a, b := range c.same {
		p = append(p, a+" being the same object as "+b)
	}
	for a, b := range c.twin {
		p = append(p, a+" being equal to "+b)
	}
	sort.Strings(p)
	s := "entry " + fname(c.fn)
	if len(p) > 0 {
		s += " with " + strings.Join(p, ", ")
	}
	return s
}

// real is the name of the object passed as parameter n.
func (c *DomCfg) real(n string) string {
	if b, ok := c.same[n]; ok {
		return b
	}
	return n
}

// sym is the name under which the entry state of a location is known: that of its twin, if it has one.
func (c *DomCfg) sym(name string) string {
	if len(c.twin) == 0 {
		return name
	}
	r := rootOfName(name)
	if b, ok := c.twin[r]; ok {
		return b + name[len(r):]
	}
	return name
}

// DomRun is the outcome of one run.
type DomRun struct {
	D   *Dom
	cfg *DomCfg
	I   *Interp
	Out *State
	Res Val
	fr  *Frame
}

func typeIs(t types.Type, names ...string) bool {
	n := typeName(deref(t))
	for _, x := range names {
		if n == x {
			return true
		}
	}
	return false
}

var ctTypes = []string{"rlwe.Ciphertext", "rlwe.Plaintext", "ckks.Ciphertext", "ckks.Plaintext"}

func rootOfName(name string) string {
	if i := strings.IndexAny(name, ".[("); i >= 0 {
		return name[:i]
	}
	return name
}

var ringFields = map[string]string{"Modulus": "mod", "MredParams": "mred", "BredParams": "bred", "NttPsi": "mont", "NttPsiInv": "mont", "NttNInv": "mont", "PsiMont": "mont", "PsiInvMont": "mont",
	"RescaleParams": "mont", "modDownparamsPtoQ": "mont", "modDownparamsQtoP": "mont", "Mask": "plain"}

// ringTag gives the modulus tag of a ring or parameter path.
func ringTag(name string) string {
	if i := strings.Index(name, "Ring"); i >= 0 && (i == 0 || name[i-1] == '.') {
		name = name[:i] + "r" + name[i+1:]
	}
	switch {
	case strings.Contains(name, "ringQj"):
		return ""
	case strings.Contains(name, "ringQ") || strings.HasSuffix(name, ".qi"):
		return "Q"
	case strings.Contains(name, "ringP") || strings.HasSuffix(name, ".pi"):
		return "P"
	case strings.Contains(name, "ringT"):
		return "T"
	case strings.Contains(name, "ringR"):
		return "R"
	case strings.Contains(name, "modDownparamsPtoQ"):
		return "Q"
	case strings.Contains(name, "modDownparamsQtoP"):
		return "P"
	}
	return ""
}

func lastField(name string) string {
	for strings.HasSuffix(name, "]") {
		name = name[:strings.LastIndex(name, "[")]
	}
	if i := strings.LastIndex(name, "."); i >= 0 {
		return name[i+1:]
	}
	return name
}

// lastIndexed: tables whose last index is the number of the modulus.
func lastIndexed(name string) bool {
	return strings.Contains(name, "RescaleParams") || strings.Contains(name, "modDownparams")
}

// polyOwner: for the name of a row object ("X.Coeffs[*]") the name X of the polynomial.
func polyOwner(name string) string {
	if i := strings.LastIndex(name, ".Coeffs"); i >= 0 {
		return name[:i]
	}
	return ""
}

func (D *Dom) init(I *Interp) {
	cfg := D.cfg
	I.H.Domain, I.H.StrongContent, I.H.AssumeNonEmpty, I.H.Peel, I.H.LimbLoops = true, true, true, true, true
	I.H.ZeroAttr = func() Attr { return caZero() }
	I.H.FloatQuo = func(in ssa.Instruction, x, y *Term) {
		if y == nil || !y.isF || len(y.ts) != 1 || y.ts[0].k != 1 || !strings.HasPrefix(y.ts[0].a.op, "modulus:") {
			return
		}
		if D.quos == nil {
			D.quos = map[ssa.Instruction]*Term{}
		}
		D.quos[in] = y.ts[0].a.args[0]
	}
	I.H.FloatOf = func(n *Num) *Term {
		if a, ok := n.A.(*CA); ok && a.kind == "mod" && a.sel != nil {
			return fApp("modulus:"+a.base, a.sel)
		}
		return nil
	}
	I.H.Canon = func(name string, t types.Type) string {
		if typeIs(t, "ring.Ring") {
			if g := lastField(name); g == "ringQ" || g == "ringP" || g == "ringT" {
				return "§." + g
			}
		}
		return ""
	}
	I.H.SymName = cfg.sym
	I.H.Ret = D.afterCall
	I.H.LenOf = func(I *Interp, name string, t types.Type) *Term {
		f := lastField(name)
		root := rootOfName(name)
		if typeIs(t, "ring.Poly") && f == "Value" && name[len(name)-1] != ']' && root != "recv" {
			d, ok := cfg.deg[root]
			if !ok {
				d = 1
			}
			return tConst(int64(d + 1))
		}
		if typeIs(t, "ring.Poly") && f == "Value" && name[len(name)-1] != ']' && strings.Contains(name, "ctxpool") {
			return tConst(3)
		}
		switch {
		case f == "qi" || f == "Modulus" && ringTag(name) == "Q":
			return tSym("lenQ")
		case f == "pi" || f == "Modulus" && ringTag(name) == "P":
			if cfg.noP {
				return tConst(0)
			}
			return tSym("lenP")
		case f == "Modulus" && ringTag(name) == "T":
			return tSym("lenT")
		case f == "Modulus" && root == "recv":
			return tSym("lenQ")
		}
		if strings.HasSuffix(name, ".Coeffs") {
			o := polyOwner(name)
			switch D.polyBase(o) {
			case "P":
				if root == "recv" || strings.HasSuffix(o, "P") {
					return tSym("lenP")
				}
			case "T":
				return tSym("lenT")
			case "R":
				return tSym("lenR")
			}
			if root == "recv" && !D.recvIsOperand() || strings.HasSuffix(o, ".Q") {
				return tSym("lenQ")
			}
			if i := D.paramIdx(root); i >= 0 && typeIs(elemOf(cfg.fn.Params[i].Type()), "frlwe.SwitchingKey", "frlwe.RelinKey", "frlwe.RotationKey") {
				return tSym("lenT")
			}
			return tAdd(tSym("lvl:"+cfg.sym(root)), tConst(1))
		}
		if strings.Contains(name, ".Coeffs[") {
			return tSym("N")
		}
		return nil
	}
	I.H.Init = func(I *Interp, name string, t types.Type) (Val, bool) {
		root := rootOfName(name)
		switch lastField(name) {
		case "IsNTT":
			if root == "recv" && !D.recvIsOperand() {
				return nil, false
			}
			if strings.Contains(name, "Pool") || strings.Contains(name, "pool") {
				return nil, false
			}
			if v, ok := cfg.ntt[root]; ok {
				return boolV(v), true
			}
		case "IsMForm":
			return boolV(false), true
		case "N":
			if isInteger(t) && (strings.HasPrefix(name, "§.") || strings.Contains(strings.ToLower(name), "ring")) {
				return &Num{T: tSym("N")}, true
			}
		case "ringType", "RingType":
			if isInteger(t) {
				if cfg.ci {
					return &Num{T: tConst(1)}, true
				}
				return &Num{T: tConst(0)}, true
			}
		case "NumberTheoreticTransformer":
			tn := "NumberTheoreticTransformerStandard"
			if cfg.ci {
				tn = "NumberTheoreticTransformerConjugateInvariant"
			}
			if n := I.P.namedType("ring", tn); n != nil {
				return &Ifc{ts: []ITgt{{n, I.zeroVal(n)}}, ityp: t}, true
			}
		}
		return nil, false
	}
	I.H.InitAttr = func(I *Interp, o *Obj, p string, t types.Type) Attr {
		if !strings.HasSuffix(p, "[*]") {
			return nil
		}
		return D.initContent(o, p, t)
	}
	I.H.OneDigit = true
	I.H.Mark = func() int { return len(D.log) }
	I.H.Undo = func(n int) {
		for _, k := range D.log[n:] {
			delete(D.viol, k)
		}
		D.log = D.log[:n]
	}
	I.H.NilSym = func(name string) (bool, bool) {
		switch f := lastField(name); {
		case f == "ringP" || f == "P" || f == "RingP" || f == "samplerP" || strings.ToLower(f) == "basisextender":
			return cfg.noP, true
		}
		return false, true
	}
	I.H.Choose = D.choose
	I.H.LoadC = D.loadC
	I.H.StoreC = D.storeC
	I.H.Arith = D.arith
	I.H.Call = D.call
	I.H.LimbExit = D.limbExit
	I.H.Index = D.index
	I.H.Undecided = func(I *Interp, fr *Frame, what string, instr ssa.Instruction) {
		D.und[what+" at "+I.P.instrPos(instr)] = true
	}
}

// retVN: a scalar the run could not compute is the value of that function on its (scalar) arguments.
// afterCall names the result of a scalar function, and carries the content of a small polynomial over to its
// extension to the other basis.
func (D *Dom) afterCall(I *Interp, fr *Frame, st *State, f *ssa.Function, args []Val, v Val) Val {
	if fname(f) == "(*rlwe.RingQP).ExtendBasisSmallNormAndCenter" && len(args) == 5 {
		in := D.readRowsAll(I, fr, st, D.coeffs(I, fr, st, args[1], nil), tConst(0), nil)
		rows, _ := D.coeffs(I, fr, st, args[4], nil).(*Slc)
		if rows == nil || in.vn == nil {
			return v
		}
		rv, _ := D.rowsOf(I, fr, st, rows, nil, nil).(*Slc)
		if rv == nil || len(rv.ts) != 1 || len(rows.ts) != 1 {
			return v
		}
		k := Key{rv.ts[0].o, rv.ts[0].p + "[*]"}
		a := D.cell(I, st, k, tU64).clone()
		a.vn = in.vn
		st.h.m[k] = &Num{A: a}
		return v
	}
	if isEncoding(f) && len(args) == 3 {
		if D.encs == nil {
			D.encs = map[ssa.Instruction][]*Term{}
		}
		if t := numT(args[1]); !inTerms(D.encs[fr.call], t) {
			D.encs[fr.call] = append(D.encs[fr.call], t)
		}
	}
	return retVN(f, args, v)
}

// isEncoding: a number times a factor, as a residue of a modulus.
func isEncoding(f *ssa.Function) bool {
	g := f.Signature
	return inRepo(f) && g.Recv() == nil && g.Params().Len() == 3 && g.Results().Len() == 1 && isFloat(g.Params().At(0).Type()) && isFloat(g.Params().At(1).Type()) &&
		types.Identical(g.Params().At(2).Type(), tU64) && types.Identical(g.Results().At(0).Type(), tU64)
}

func inTerms(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

func retVN(f *ssa.Function, args []Val, v Val) Val {
	n, ok := v.(*Num)
	if !ok || n.T != nil {
		return v
	}
	a, _ := n.A.(*CA)
	if a != nil && (a.vn != nil || a.kind != "") || a == nil && n.A != nil {
		return v
	}
	d := ""
	for i, x := range args {
		switch x := x.(type) {
		case *Num:
			if x.T != nil && caOf(x).vn == nil {
				if i == 1 && isEncoding(f) { // the scale, which P09 looks at
					d += "?,"
					continue
				}
				if _, ok := x.T.constVal(); !ok {
					d += pvAtom("t", normKey(x.T.key)).String() + ","
					continue
				}
			}
			if c := caOf(x); c.vn != nil {
				d += c.vn.String() + ","
				continue
			}
		case *Ifc:
			if x.open != "" && len(x.ts) == 0 {
				d += x.open + ","
				continue
			}
			if len(x.ts) == 1 && x.open == "" {
				if m, ok := x.ts[0].v.(*Num); ok {
					if c := caOf(m); c.vn != nil {
						d += c.vn.String() + ","
						continue
					}
				}
			}
		}
		return v
	}
	if a == nil {
		a = caOf(n)
	}
	a = a.clone()
	a.vn = pvAtom("call", fname(f)+","+d)
	return &Num{A: a}
}

func (D *Dom) recvIsOperand() bool {
	r := D.cfg.fn.Signature.Recv()
	return r != nil && typeIs(r.Type(), append([]string{"ring.Poly", "rlwe.PolyQP"}, ctTypes...)...)
}

// polyBase guesses the modulus tag of a polynomial from its path.
func (D *Dom) polyBase(o string) string {
	l := lastField(o)
	switch {
	case l == "Q":
		return "Q"
	case l == "P":
		return "P"
	case strings.HasPrefix(o, "recv"):
		ll := strings.ToLower(l)
		switch {
		case strings.Contains(ll, "polyt") || strings.HasSuffix(l, "PolyT"):
			return "T"
		case strings.Contains(ll, "polyr"):
			return "R"
		case strings.HasSuffix(l, "P") && !strings.HasSuffix(l, "QP"):
			return "P"
		}
		if D.recvIsOperand() {
			return ""
		}
		return ""
	}
	root := rootOfName(o)
	if i := D.paramIdx(root); i >= 0 {
		t := D.cfg.fn.Params[i].Type()
		if ct, ok := D.cfg.typ[root]; ok {
			t = ct
		}
		if typeIs(t, ctTypes...) {
			return "Q"
		}
		if typeIs(t, "ring.Poly") && l == root {
			if strings.HasSuffix(root, "P") {
				return "P"
			}
			if strings.HasSuffix(root, "Q") {
				return "Q"
			}
		}
	}
	return ""
}

func (D *Dom) paramIdx(n string) int {
	for i := range D.cfg.fn.Params {
		if paramName(D.cfg.fn, i) == n {
			return i
		}
	}
	return -1
}

func keyKind(o *Obj) string {
	for x := o; x != nil; x = x.parent {
		if x.typ != nil && !x.arr {
			switch typeName(x.typ) {
			case "rlwe.SecretKey":
				return "sk"
			case "rlwe.PublicKey":
				return "pk"
			case "rlwe.SwitchingKey", "frlwe.SwitchingKey", "rlwe.RelinearizationKey", "rlwe.RotationKeySet", "frlwe.RelinKey", "frlwe.RotationKey":
				return "swk"
			}
		}
	}
	return ""
}

// initContent is the attribute of contents not written by the run.
func (D *Dom) initContent(o *Obj, p string, t types.Type) *CA {
	name := o.name + p
	a := caUnknown()
	a.vn = vnOf("init:" + D.cfg.sym(name))
	if o.kind == OGlobal {
		return a
	}
	f := lastField(o.name)
	if k, ok := ringFields[f]; ok {
		a = &CA{dom: dAny, mont: 0, bnd: math.Inf(1), base: ringTag(o.name), vn: a.vn}
		switch k {
		case "mod":
			a.kind, a.bnd, a.le, a.mont = "mod", 1, true, 0
		case "mred", "bred":
			a.kind = k
		case "mont":
			a.mont, a.bnd = 1, 1
			if f == "NttNInv" {
				a.vn = pvFactor("N", -1)
			}
			a.vn = pvR(a.vn, 1)
		}
		return a
	}
	if f == "qi" || f == "pi" {
		return &CA{dom: dAny, mont: 0, bnd: 1, le: true, base: ringTag(o.name), vn: a.vn, kind: "mod"}
	}
	root := rootOfName(o.name)
	owner := polyOwner(o.name)
	isRow := owner != ""
	kk := keyKind(o)
	if isRow {
		a.base = D.polyBase(owner)
	}
	switch {
	case kk == "sk" && isRow:
		if !D.cfg.recvs[root] || root == "recv" {
			a.dom, a.mont, a.bnd = dN, 1, 1
			a.may = []string{"sk:" + root}
			a.must = a.may
			return a
		}
	case kk == "pk" && isRow:
		if !D.cfg.recvs[root] || root == "recv" {
			a.dom, a.mont, a.bnd = dN, 0, 1
			a.may = []string{"pk:" + root}
			a.must = a.may
			return a
		}
	case kk == "swk" && isRow:
		if !D.cfg.recvs[root] || root == "recv" {
			a.dom, a.mont, a.bnd = dN, 1, 1
			a.may = []string{"ek:" + root}
			a.must = a.may
			return a
		}
	}
	if root == "recv" && !D.recvIsOperand() && isRow && strings.HasPrefix(lastField(strings.TrimSuffix(strings.TrimSuffix(owner, ".Q"), ".P")), "halfT") && !D.writtenScratch(o, p) {
		// the constant polynomial T/2, precomputed by the constructor
		a.dom, a.mont, a.bnd = dC, 0, 1
		return a
	}
	if root == "recv" && !D.recvIsOperand() {
		if D.writtenScratch(o, p) {
			a.may = []string{"stale:" + o.name}
			return a
		}
		a.may = nil
		return a
	}
	if D.paramIdx(root) >= 0 {
		if D.cfg.recvs[root] && !D.accum(root) {
			if !D.recvReads(root) {
				a.may = []string{"old:" + o.name}
			}
			return a
		}
		a.may = []string{"op:" + root}
		a.must = a.may
		if isRow {
			a.bnd, a.mont = 1, 0
			if r := D.cfg.fn.Signature.Recv(); r != nil && typeIs(r.Type(), "rlwe.RingQP") {
				a.mont = mUnknown
				return a
			}
			if root == "crp" { // uniform values: any representation
				a.dom, a.mont = dAny, mAny
			} else if v, ok := D.cfg.ntt[root]; ok {
				a.dom = dC
				if v {
					a.dom = dN
				}
			}
		}
		return a
	}
	return a
}

// accum: operations that add into their receiver.
func (D *Dom) accum(root string) bool {
	n := strings.ToLower(D.cfg.fn.Name())
	return strings.Contains(n, "andadd") || strings.Contains(n, "andsub")
}

func (D *Dom) recvReads(root string) bool { return false }

// ---- content access

func inLoop(fr *Frame, sel *Term) bool {
	if sel == nil {
		return false
	}
	for x := fr; x != nil; x = x.up {
		for _, al := range x.loops {
			for _, t := range al.ind {
				if sharesAtom(t, sel) {
					return true
				}
			}
		}
	}
	return false
}

func (D *Dom) cell(I *Interp, st *State, k Key, t types.Type) *CA {
	v, ok := st.h.get(k)
	if !ok {
		v = I.initCell(k, t)
	}
	return caOf(v)
}

func (D *Dom) loadC(I *Interp, fr *Frame, st *State, tg Tgt, t types.Type, instr ssa.Instruction) (Val, bool) {
	if tg.o.kind == OGlobal {
		return nil, false
	}
	a := D.cell(I, st, Key{tg.o, tg.p}, t)
	if a.vn != nil && isConstTable(a) && strings.Contains(tg.o.name+tg.p, "NttPsi") {
		a = rootNo(a, instr)
	}
	return &Num{A: atRow(fr, a, readRow(a, tg.sel, st.facts), tg.o, tg.sel)}, true
}

// rootNo: which of the roots of unity of a modulus is read.
func rootNo(a *CA, instr ssa.Instruction) *CA {
	u, ok := instr.(*ssa.UnOp)
	if !ok {
		return a
	}
	x, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return a
	}
	k, ok := x.Index.(*ssa.Const)
	if !ok {
		return a
	}
	r := a.clone()
	a.vn.atoms(func(n string) {
		if d := atomInfo(n); d != nil && d.op == "init" && strings.HasSuffix(d.text, "[*][*]") {
			r.vn = fmSubst(a.vn, n, pvAtom("init", strings.TrimSuffix(d.text, "[*]")+"["+k.Value.String()+"]"))
		}
	})
	return r
}

// atRow: the value of one fixed row, read while other rows are processed, is not the value of the polynomial.
func atRow(fr *Frame, a, x *CA, o *Obj, sel *Term) *CA {
	if sel == nil || x.vn == nil || x.kind != "" || isConstTable(x) || a.hasOne(sel) || inLoop(fr, sel) || !strings.Contains(o.name, ".Coeffs") {
		return x
	}
	r := x.clone()
	r.vn = pvLinear("row:"+normKey(sel.key), x.vn)
	return r
}

func readRow(a *CA, sel *Term, f *Facts) *CA {
	if a.kind != "" || isConstTable(a) {
		if sel != nil {
			r := a.clone()
			r.sel = sel
			return r
		}
		return a
	}
	if a.ones != nil {
		r := readRow(a.noOnes(), sel, f)
		for _, o := range a.ones {
			if o.sel == sel {
				return o.v
			}
			if !apart(o.sel, sel, f) {
				r = caJoin(r, o.v, nil, "")
			}
		}
		return r
	}
	if a.pend != nil {
		if a.psel == sel {
			return a.pend
		}
		b := a.clone()
		b.pend, b.psel = nil, nil
		if sel == nil {
			return caJoin(readRow(b, sel, f), a.pend, nil, "").plain()
		}
		return readRow(b, sel, f)
	}
	if a.lvl == nil || a.rest == nil {
		return a.plain()
	}
	switch rowRel(sel, a.lvl, f) {
	case -1:
		return a.rest
	case 0:
		return caJoin(a.plain(), a.rest, nil, "")
	}
	return a.plain()
}

func isConstTable(a *CA) bool { return a.dom == dAny && a.base != "" && a.mont == 1 }

func (D *Dom) storeC(I *Interp, fr *Frame, st *State, tg Tgt, v Val, t types.Type, strong bool, instr ssa.Instruction) bool {
	if tg.o.kind == OGlobal {
		return false
	}
	n := caOf(v).plain()
	D.writeRow(I, fr, st, tg, n, t, strong)
	return true
}

func (D *Dom) writeRow(I *Interp, fr *Frame, st *State, tg Tgt, n *CA, t types.Type, strong bool) {
	k := Key{tg.o, tg.p}
	old := D.cell(I, st, k, t)
	if n.kind != "" || n.sel != nil {
		n = n.clone()
		n.kind, n.sel = "", nil
	}
	var r *CA
	switch {
	case !strong:
		r = caJoin(old, n, nil, "")
	case tg.sel != nil && old.ones != nil && strings.Contains(tg.o.name, ".Coeffs"):
		var ones []oneRow
		exact := false
		for _, o := range old.ones {
			switch {
			case o.sel == tg.sel:
				exact = true
				ones = append(ones, oneRow{o.sel, n.plain()})
			case apart(o.sel, tg.sel, st.facts):
				ones = append(ones, o)
			default:
				ones = append(ones, oneRow{o.sel, caJoin(o.v, n.plain(), nil, "")})
			}
		}
		if exact {
			r = old.withOnes(ones)
		} else {
			r = D.writeOne(fr, st, old.noOnes(), n, tg.sel)
			r = r.withOnes(append(ones, r.ones...))
		}
	case tg.sel == nil || !strings.Contains(tg.o.name, ".Coeffs") && tg.o.kind == OSym:
		r = n
	default:
		r = D.writeOne(fr, st, old, n, tg.sel)
	}
	I.noteCell(k, t)
	if ps := I.paths[k.o]; ps == nil {
		I.paths[k.o] = map[string]bool{k.p: true}
	} else {
		ps[k.p] = true
	}
	st.h.m[k] = &Num{A: r}
	if domTrace != "" && strings.Contains(tg.o.name, domTrace) {
		fmt.Printf("TRACE %s sel=%s strong=%v <- %s\n      now %s\n", tg.o.name, tkey(tg.sel), strong, n.str(), r.str())
	}
}

var domTrace = os.Getenv("DOM_TRACE")
var domArith, domRel = os.Getenv("DOM_ARITH") != "", os.Getenv("DOM_REL") != ""

func (D *Dom) writeOne(fr *Frame, st *State, old, n *CA, sel *Term) *CA {
	if inLoop(fr, sel) {
		if old.pend != nil && old.psel != sel {
			old = foldPend(old)
		}
		r := old.clone()
		r.pend, r.psel, r.half = n, sel, nil
		return r
	}
	return singleRow(old, n, sel, st.facts)
}

// singleRow writes one row.
func singleRow(old, n *CA, sel *Term, f *Facts) *CA {
	if old.pend != nil {
		old = foldPend(old)
	}
	c, isC := constOf(sel)
	r := n.clone()
	switch {
	case isC && c == 0:
		r.lvl = sel
		if old.lvl == nil {
			r.rest = old.plain()
		} else if old.rest != nil {
			r.rest = caJoin(old.plain(), old.rest, nil, "")
		} else {
			r.rest = old.plain()
		}
		if old.lvl == sel {
			r.rest = old.rest
		} else if old.lvl == nil {
			r.rest = old.plain()
		}
		return r
	case old.lvl != nil && sel == tAdd(old.lvl, tConst(1)):
		j := caJoin(old.plain(), n, nil, "").clone()
		j.lvl, j.rest = sel, old.rest
		return j
	}
	return old.withOnes(append(append([]oneRow{}, old.ones...), oneRow{sel, n.plain()}))
}

func (D *Dom) limbExit(I *Interp, fr *Frame, st *State, before *Heap, idx, lo, hi *Term) {
	keys, _ := diffKeys(st.h, before)
	for k := range keys {
		v, ok := st.h.get(k)
		if !ok {
			continue
		}
		num, ok := v.(*Num)
		if !ok {
			continue
		}
		a, ok := num.A.(*CA)
		if !ok || a == nil || a.pend == nil {
			continue
		}
		if idx != nil && a.psel != nil && !sharesAtom(idx, a.psel) {
			continue // belongs to an enclosing loop
		}
		st.h.m[k] = &Num{A: finalise(a, idx, lo, hi, st.facts, k.o)}
		if domTrace != "" && strings.Contains(k.o.name, domTrace) {
			fmt.Printf("TRACE final %s idx=%s lo=%s hi=%s: %s\n", k.o.name, tkey(idx), tkey(lo), tkey(hi), st.h.m[k].(*Num).A.(*CA).str())
		}
	}
}

func finalise(a *CA, idx, lo, hi *Term, f *Facts, o *Obj) *CA {
	n := a.pend
	old := a.clone()
	old.pend, old.psel = nil, nil
	d, isC := constOf(tSub(a.psel, idx))
	if !isC || lo == nil || hi == nil {
		if old.untouched() {
			return filled(n.plain(), old)
		}
		return approx(someRows(old, n))
	}
	l, h := tAdd(lo, tConst(d)), tAdd(hi, tConst(d-1)) // rows l..h
	if old.ones != nil {
		x := a.clone()
		x.ones = nil
		r := finalise(x, idx, lo, hi, f, o)
		var ones []oneRow
		for _, w := range old.ones {
			switch {
			case leq(tAdd(h, tConst(1)), w.sel, f) || leq(tAdd(w.sel, tConst(1)), l, f):
				ones = append(ones, w)
			case leq(w.sel, h, f) && leq(l, w.sel, f):
			default:
				ones = append(ones, oneRow{w.sel, caJoin(w.v, n.plain(), nil, "")})
			}
		}
		return r.withOnes(ones)
	}
	if c, ok := constOf(l); ok && c == 0 {
		r := n.clone()
		r.lvl = h
		switch {
		case old.lvl == nil:
			r.rest = old.plain()
		case leq(old.lvl, h, f):
			r.rest = old.rest
			if r.rest == nil {
				r.rest = old.plain()
			}
		case old.rest != nil:
			r.rest = caJoin(old.plain(), old.rest, nil, "")
		default:
			r.rest = old.plain()
		}
		if o.parent != nil && o.parent.lenT != nil && tAdd(h, tConst(1)) == o.parent.lenT {
			r.lvl, r.rest = nil, nil
		}
		return r
	}
	if old.lvl == nil {
		return someRows(old, n)
	}
	if l == tAdd(old.lvl, tConst(1)) {
		r := someRows(old.plain(), n).clone()
		r.lvl, r.rest = h, old.rest
		return r
	}
	r := someRows(old.plain(), n).clone()
	r.lvl = old.lvl
	if old.rest != nil {
		r.rest = caJoin(old.rest, n, nil, "").plain()
	}
	return r
}

// someRows: some rows of old have been replaced.
func someRows(old, n *CA) *CA {
	r := caJoin(old, n, nil, "")
	if r.vn != nil || old.vn == nil || n.vn == nil {
		return r
	}
	r = r.clone()
	r.vn = pvAdd(old.vn, pvLinear("some", pvAdd(n.vn, old.vn, -1)), 1)
	return r
}

// index checks row accesses against the operand's number of rows.
func (D *Dom) index(I *Interp, fr *Frame, st *State, in *ssa.IndexAddr, t STgt, idx *Term) {
	if !isRowsType(in.X.Type()) || t.ln == nil || idx == nil {
		return
	}
	root := rootOfName(t.o.name)
	if t.o.kind == OSym && (root == "recv" && !D.recvIsOperand() || strings.HasPrefix(t.o.name, "§") || strings.HasPrefix(t.o.name, "opaque")) {
		return
	}
	D.n["P08"]++
	if leq(tAdd(idx, tConst(1)), t.ln, st.facts) {
		return
	}
	sat, dec := satisfiable(st.facts, tSub(t.ln, idx))
	if dec && sat {
		w := &where{D: D, fr: fr, instr: in}
		w.bad("P08", "row-beyond-level", "row %s of %s is accessed although it has only %s rows", idx, t.o.name, t.ln)
	}
}

// ---- arithmetic

func isCplxOrFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func (D *Dom) arith(I *Interp, fr *Frame, st *State, instr ssa.Instruction, x, y Val, t *Term) Attr {
	nx, _ := x.(*Num)
	ny, _ := y.(*Num)
	has := func(n *Num) bool {
		if n == nil {
			return false
		}
		a, ok := n.A.(*CA)
		return ok && a != nil
	}
	if !has(nx) && !has(ny) {
		return nil
	}
	w := &where{D: D, fr: fr, instr: instr}
	var a, b *CA
	if nx != nil {
		a = caOf(nx)
	} else {
		a = caUnknown()
	}
	if ny != nil {
		b = caOf(ny)
	}
	bo, ok := instr.(*ssa.BinOp)
	if !ok {
		if b == nil {
			if _, ok := instr.(*ssa.Convert); ok {
				return a
			}
			r := caUnknown()
			r.may, r.must = a.may, a.must
			r.vn = hv(fmt.Sprintf("%T", instr), a.vn)
			return r
		}
		r := w.comb("f", a, b)
		r.base = ""
		if isScalarLike(a) && isScalarLike(b) && a.mont == 0 && b.mont == 0 {
			r.dom, r.mont = dAny, 0
		}
		return r
	}
	if isCplxOrFloat(bo.Type()) || !isInteger(bo.Type()) {
		r := w.comb(bo.Op.String(), a, b)
		r.base = ""
		if isScalarLike(a) && isScalarLike(b) && a.mont == 0 && b.mont == 0 {
			r.dom, r.mont = dAny, 0
		}
		return r
	}
	switch bo.Op {
	case token.ADD:
		return w.add(a, b)
	case token.SUB:
		return w.sub(a, b)
	case token.MUL:
		if a.kind == "mod" {
			if c, ok := constOf(numT(y)); ok {
				r := a.clone()
				r.bnd *= float64(c)
				return r
			}
		}
		if b.kind == "mod" {
			if c, ok := constOf(numT(x)); ok {
				r := b.clone()
				r.bnd *= float64(c)
				return r
			}
		}
	case token.SHL:
		if a.kind == "mod" {
			if c, ok := constOf(numT(y)); ok && c < 8 {
				r := a.clone()
				r.bnd *= float64(int64(1) << uint(c))
				return r
			}
		}
	}
	r := w.comb(bo.Op.String(), a, b)
	if domArith {
		fmt.Println("ARITH", bo.Op, a.str(), "##", b.str(), bo.Parent().Name())
	}
	plain := func(x *CA) bool { return x.dom == dAny && x.mont == 0 && x.kind == "" }
	switch bo.Op {
	case token.MUL:
		switch {
		case plain(a) && plain(b):
			r.dom, r.mont = dAny, 0
		case plain(a):
			r.dom, r.mont = b.dom, b.mont
		case plain(b):
			r.dom, r.mont = a.dom, a.mont
		}
	case token.OR:
		r.dom, r.mont = joinDom(a.dom, b.dom), joinMont(a.mont, b.mont)
		if a.base != b.base {
			r.base = ""
		}
	case token.SHL, token.SHR, token.AND, token.XOR, token.REM, token.QUO:
		if plain(a) && plain(b) {
			r.dom, r.mont = dAny, 0
		}
	}
	return r
}

// elemOf strips pointers, arrays and slices.
func elemOf(t types.Type) types.Type {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			return t
		}
	}
}
