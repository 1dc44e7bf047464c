package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// OutPoly is one polynomial an operation hands to its caller.
type OutPoly struct {
	Path string // e.g. result.Value[0], ctOut.Value[1]
	Root string
	Kind string // ct, pt, sk, pk, swk, poly
	Own  string // path of the enclosing object
	A    *CA    // contents of the rows covered
	Rest *CA    // contents of rows above A.lvl that are still part of the polynomial (nil: none)
	Len  *Term  // number of rows
	NTT  Val
	Obj  *Obj
}

// OutObj is a ciphertext or plaintext handed to the caller.
type OutObj struct {
	Path, Root, Kind string
	Scale            Val
	HasScale         bool
	Deg              *Term
	Polys            []*OutPoly
}

type outWalker struct {
	R     *DomRun
	out   []*OutPoly
	objs  []*OutObj
	seen  map[string]bool
	depth int
}

func hasPoly(t types.Type, depth int) bool {
	if depth > 8 {
		return false
	}
	switch u := t.(type) {
	case *types.Pointer:
		return hasPoly(u.Elem(), depth+1)
	case *types.Slice:
		return hasPoly(u.Elem(), depth+1)
	case *types.Array:
		return hasPoly(u.Elem(), depth+1)
	case *types.Map:
		return hasPoly(u.Elem(), depth+1)
	}
	if typeIs(t, "ring.Poly") {
		return true
	}
	n := typeName(t)
	switch n {
	case "rlwe.Ciphertext", "rlwe.Plaintext", "ckks.Ciphertext", "ckks.Plaintext", "rlwe.PolyQP", "rlwe.SecretKey", "rlwe.PublicKey", "rlwe.SwitchingKey", "rlwe.RelinearizationKey",
		"rlwe.RotationKeySet", "frlwe.SwitchingKey", "frlwe.RelinKey", "frlwe.RotationKey", "ckks.SwkComplexToReal", "ckks.SwkRealToComplex":
		return true
	}
	return false
}

func kindOf(t types.Type) string {
	switch typeName(t) {
	case "rlwe.Ciphertext", "ckks.Ciphertext":
		return "ct"
	case "rlwe.Plaintext", "ckks.Plaintext":
		return "pt"
	case "rlwe.SecretKey":
		return "sk"
	case "rlwe.PublicKey":
		return "pk"
	case "rlwe.SwitchingKey":
		return "swk"
	case "frlwe.SwitchingKey":
		return "fswk"
	}
	return ""
}

func (w *outWalker) loc(tg Tgt, t types.Type, path, root, kind string, own *OutObj) {
	if w.depth > 14 || !hasPoly(t, 0) {
		return
	}
	w.depth++
	defer func() { w.depth-- }()
	I, fr, st := w.R.I, w.R.fr, w.R.Out
	if typeIs(t, "ring.Poly") {
		if _, isPtr := t.(*types.Pointer); !isPtr {
			w.poly(tg, path, root, kind, own)
			return
		}
	}
	switch u := t.(type) {
	case *types.Pointer:
		if v, ok := I.load(fr, st, tg, t, nil).(*Ptr); ok {
			w.ptr(v, u.Elem(), path, root, kind, own)
		}
		return
	case *types.Slice:
		s, ok := I.load(fr, st, tg, t, nil).(*Slc)
		if !ok {
			return
		}
		for _, x := range s.ts {
			n, isC := constOf(x.ln)
			if !isC {
				w.loc(Tgt{o: x.o, p: x.p + "[*]"}, u.Elem(), path+"[*]", root, kind, own)
				continue
			}
			for i := int64(0); i < n && i < 8; i++ {
				w.loc(Tgt{o: x.o, p: x.p + idxStep(u.Elem(), tConst(i), x.off)}, u.Elem(), fmt.Sprintf("%s[%d]", path, i), root, kind, own)
			}
		}
		return
	case *types.Array:
		for i := int64(0); i < u.Len() && i < 8; i++ {
			w.loc(Tgt{o: tg.o, p: fmt.Sprintf("%s[%d]", tg.p, i)}, u.Elem(), fmt.Sprintf("%s[%d]", path, i), root, kind, own)
		}
		return
	case *types.Map:
		if m, ok := I.load(fr, st, tg, t, nil).(*Mp); ok {
			for _, o := range m.os {
				w.loc(Tgt{o: o, p: "[*]"}, u.Elem(), path+"[*]", root, kind, own)
			}
		}
		return
	}
	if k := kindOf(t); k != "" {
		if kind == "" || !(k == kind) {
			own = &OutObj{Path: path, Root: root, Kind: k}
			w.objs = append(w.objs, own)
		}
		kind = k
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		p := tg.p + "." + f.Name()
		if f.Name() == "Scale" && own != nil && isCplxOrFloat(f.Type()) {
			own.Scale = I.load(fr, st, Tgt{o: tg.o, p: p}, f.Type(), nil)
			own.HasScale = true
			continue
		}
		np := path + "." + f.Name()
		if f.Embedded() {
			np = path
		}
		w.loc(Tgt{o: tg.o, p: p}, f.Type(), np, root, kind, own)
	}
}

func (w *outWalker) ptr(v *Ptr, el types.Type, path, root, kind string, own *OutObj) {
	for _, t := range v.ts {
		k := fmt.Sprintf("%d%s|%s", t.o.id, t.p, path)
		if w.seen[k] {
			continue
		}
		w.seen[k] = true
		w.loc(t, el, path, root, kind, own)
	}
}

func (w *outWalker) poly(tg Tgt, path, root, kind string, own *OutObj) {
	D, I, fr, st := w.R.D, w.R.I, w.R.fr, w.R.Out
	o := &OutPoly{Path: path, Root: root, Kind: kind, Obj: tg.o}
	o.NTT = I.load(fr, st, Tgt{o: tg.o, p: tg.p + ".IsNTT"}, types.Typ[types.Bool], nil)
	rows := D.coeffs(I, fr, st, &Ptr{ts: []Tgt{tg}}, nil)
	s, ok := rows.(*Slc)
	if !ok || len(s.ts) != 1 {
		o.A = caUnknown()
	} else {
		o.Len = s.ts[0].ln
		rv, ok := D.rowsOf(I, fr, st, rows, nil, nil).(*Slc)
		if !ok || len(rv.ts) != 1 {
			o.A = caUnknown()
		} else {
			a := foldPend(D.cell(I, st, Key{rv.ts[0].o, rv.ts[0].p + "[*]"}, tU64))
			for _, w := range a.ones {
				if o.Len == nil || !leq(o.Len, w.sel, st.facts) {
					a = caJoin(a.noOnes(), w.v, nil, "").withOnes(a.ones)
				}
			}
			a = a.noOnes()
			o.A = a
			if a.lvl != nil && a.rest != nil {
				top := o.Len
				if top != nil && leq(top, tAdd(a.lvl, tConst(1)), st.facts) {
					top = nil
				} else if top != nil {
					if over, dec := satisfiable(st.facts, tSub(tAdd(a.lvl, tConst(2)), top)); dec && !over {
						top = nil
					}
				} else {
					o.Rest = a.rest
				}
				if top != nil {
					o.Rest = a.rest
				}
			}
			o.A = a.plain()
			if a.lvl != nil {
				o.A = o.A.clone()
				o.A.lvl = a.lvl
			}
		}
	}
	w.out = append(w.out, o)
	if own != nil {
		own.Polys = append(own.Polys, o)
	}
}

// outputs collects everything with residues the operation returns or writes for its caller.
func (R *DomRun) outputs() ([]*OutPoly, []*OutObj) {
	w := &outWalker{R: R, seen: map[string]bool{}}
	one := func(v Val, t types.Type, name string) {
		switch v := v.(type) {
		case *Ptr:
			if p, ok := t.Underlying().(*types.Pointer); ok {
				w.ptr(v, p.Elem(), name, name, "", nil)
			}
		case *Agg:
			u, ok := t.Underlying().(*types.Struct)
			if !ok {
				return
			}
			for i := 0; i < u.NumFields() && i < len(v.f); i++ {
				if x, ok := v.f[i].(*Ptr); ok {
					if p, ok := u.Field(i).Type().(*types.Pointer); ok && typeIs(p.Elem(), "ring.Poly") {
						w.ptr(x, p.Elem(), name+"."+u.Field(i).Name(), name, "", nil)
					}
				}
			}
		case *Slc:
			if p, ok := t.Underlying().(*types.Slice); ok {
				for _, x := range v.ts {
					if isNumeric(p.Elem()) {
						continue
					}
					n, isC := constOf(x.ln)
					if !isC {
						w.loc(Tgt{o: x.o, p: x.p + "[*]"}, p.Elem(), name+"[*]", name, "", nil)
						continue
					}
					for i := int64(0); i < n && i < 8; i++ {
						w.loc(Tgt{o: x.o, p: x.p + idxStep(p.Elem(), tConst(i), x.off)}, p.Elem(), fmt.Sprintf("%s[%d]", name, i), name, "", nil)
					}
				}
			}
		case *Ifc:
			for _, x := range v.ts {
				if p, ok := x.v.(*Ptr); ok {
					if pt, ok := x.typ.Underlying().(*types.Pointer); ok {
						w.ptr(p, pt.Elem(), name, name, "", nil)
					}
				}
			}
		}
	}
	fn := R.cfg.fn
	rs := fn.Signature.Results()
	switch {
	case rs.Len() == 1:
		one(R.Res, rs.At(0).Type(), "result")
	case rs.Len() > 1:
		if t, ok := R.Res.(*Tup); ok {
			for i := range t.vs {
				one(t.vs[i], rs.At(i).Type(), fmt.Sprintf("result%d", i))
			}
		}
	}
	for i, p := range fn.Params {
		n := paramName(fn, i)
		if !R.cfg.recvs[n] || n == "recv" && !R.D.recvIsOperand() {
			continue
		}
		one(R.fr.env[p], p.Type(), n)
	}
	return w.out, w.objs
}

func (o *OutPoly) str() string {
	s := fmt.Sprintf("%s[%s] %s m%d <%.2f", o.Path, o.Kind, domName(o.A.dom), o.A.mont, o.A.bnd)
	if o.A.acc != nil {
		s += " ACC"
	}
	if o.A.grow {
		s += " GROW"
	}
	s += " " + o.A.base
	if o.Len != nil {
		s += " len " + o.Len.String()
	} else {
		s += " len ?"
	}
	if o.A.lvl != nil {
		s += " rows 0.." + o.A.lvl.String()
	}
	if o.Rest != nil {
		s += " REST(" + domName(o.Rest.dom) + fmt.Sprint(o.Rest.may) + ")"
	}
	s += " ntt=" + valKey(o.NTT)
	s += " must" + fmt.Sprint(o.A.must)
	var add []string
	for _, m := range o.A.may {
		if !hasS(o.A.must, m) {
			add = append(add, m)
		}
	}
	if len(add) > 0 {
		s += " may+" + fmt.Sprint(add)
	}
	if os.Getenv("DOM_VN") != "" {
		s += "\n          = " + o.A.vn.show(3)
	}
	return s
}

// domRuns runs every configuration of every entry once.
var drOnce sync.Once
var drAll []*DomRun

func domRuns(P *Prog, filter string) []*DomRun {
	getWritten(P)
	var cfgs []*DomCfg
	fns := domEntries(P)
	if strings.HasPrefix(filter, "ring.") || strings.HasPrefix(filter, "(*ring.") || strings.HasPrefix(filter, "(ring.") {
		fns = ringEntries(P)
	}
	for _, f := range fns {
		if filter != "" && !strings.Contains(fname(f), filter) {
			continue
		}
		cfgs = append(cfgs, domConfigs(P, f)...)
	}
	res := make([][]*DomRun, len(cfgs))
	parallel(len(cfgs), func(i int) { res[i] = runAll(P, cfgs[i]) })
	var out []*DomRun
	for _, r := range res {
		out = append(out, r...)
	}
	return out
}

func domOut(P *Prog, filter string) {
	for _, R := range domRuns(P, filter) {
		fmt.Println("##", R.cfg)
		for _, c := range R.D.chosen {
			fmt.Println("   chosen", c.v, c.key)
		}
		if R.Out == nil {
			fmt.Println("    no normal exit")
			continue
		}
		ps, os := R.outputs()
		for _, p := range ps {
			fmt.Println("   ", p.str())
		}
		for _, o := range os {
			if o.HasScale {
				fmt.Println("    SCALE", o.Path, valKey(o.Scale))
			}
		}
	}
	_ = ssa.NaiveForm
}
