package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (I *Interp) builtin(fr *Frame, st *State, name string, c *ssa.CallCommon, args []Val, instr ssa.Instruction) Val {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *Slc:
			if len(x.ts) == 0 {
				return &Num{T: tConst(0)}
			}
			var t *Term
			for i, g := range x.ts {
				if i == 0 {
					t = g.ln
				} else if t != g.ln {
					t = nil
				}
			}
			if x.nil_ && !I.H.AssumeNonEmpty {
				t = nil
			}
			if name == "cap" && t != nil {
				return &Num{T: tApp("cap", t)}
			}
			return &Num{T: t}
		case *Agg:
			if at, ok := x.typ.Underlying().(*types.Array); ok {
				return &Num{T: tConst(at.Len())}
			}
		case *Mp:
			if len(x.os) == 1 {
				return &Num{T: tSym("maplen:" + x.os[0].name)}
			}
		case *Num:
			if x.T != nil {
				return &Num{T: tApp("strlen", x.T)}
			}
		case *Ptr:
			if at, ok := deref(c.Args[0].Type()).Underlying().(*types.Array); ok {
				return &Num{T: tConst(at.Len())}
			}
		}
		return &Num{}
	case "append":
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		x, ok := args[0].(*Slc)
		if !ok {
			return I.unknown(c.Args[0].Type(), instr, fr)
		}
		o := I.allocObj(fr, instr, el, true, "append")
		r := &Slc{}
		if I.H.Domain && !isNumeric(el) && len(x.ts) <= 1 {
			if y, ok := args[len(args)-1].(*Slc); ok && len(args) > 1 && len(y.ts) == 1 {
				xn, yn := int64(0), int64(-1)
				okx := len(x.ts) == 0
				if len(x.ts) == 1 {
					xn, okx = constOf(x.ts[0].ln)
				}
				oky := false
				yn, oky = constOf(y.ts[0].ln)
				if okx && oky && xn+yn <= 64 {
					I.resetObj(st, o)
					o.lenT = tConst(xn + yn)
					cp := func(s STgt, n, base int64) bool {
						b, ok := constOf(s.off)
						if !ok {
							return false
						}
						for k := int64(0); k < n; k++ {
							v := I.load(fr, st, Tgt{o: s.o, p: fmt.Sprintf("%s[%d]", s.p, b+k)}, el, instr)
							I.storeStrong(st, Tgt{o: o, p: fmt.Sprintf("[%d]", base+k)}, v, el)
						}
						return true
					}
					if (xn == 0 || cp(x.ts[0], xn, 0)) && cp(y.ts[0], yn, xn) {
						return &Slc{ts: []STgt{{o: o, off: tConst(0), ln: tConst(xn + yn)}}}
					}
				}
			}
		}
		tmpTypes := el
		// contents: old elements and new ones end up in the (possibly new) array
		var ln *Term
		if len(x.ts) == 0 {
			ln = tConst(0)
		}
		for i, t := range x.ts {
			v := I.load(fr, st, Tgt{o: t.o, p: t.p + "[*]"}, el, instr)
			if t.o != o {
				I.storeQuiet(st, Tgt{o: o, p: "[*]"}, v, tmpTypes)
			}
			if i == 0 {
				ln = t.ln
			} else if ln != t.ln {
				ln = nil
			}
		}
		if len(args) > 1 {
			switch y := args[1].(type) {
			case *Slc:
				var yl *Term
				if len(y.ts) == 0 {
					yl = tConst(0)
				}
				for i, t := range y.ts {
					v := I.load(fr, st, Tgt{o: t.o, p: t.p + "[*]"}, el, instr)
					I.storeQuiet(st, Tgt{o: o, p: "[*]"}, v, tmpTypes)
					// may write in place into the old array
					for _, u := range x.ts {
						if u.o != o && I.mayHaveSpare(u) {
							I.store(fr, st, Tgt{o: u.o, p: u.p + "[*]"}, v, el, false, instr)
						}
					}
					if i == 0 {
						yl = t.ln
					} else if yl != t.ln {
						yl = nil
					}
				}
				ln = tAdd(ln, yl)
			default:
				ln = nil
			}
		}
		r.ts = append(r.ts, STgt{o: o, off: tConst(0), ln: ln})
		for _, u := range x.ts {
			if u.o != o && I.mayHaveSpare(u) {
				r.ts = append(r.ts, STgt{o: u.o, p: u.p, off: u.off, ln: ln})
			}
		}
		return r
	case "copy":
		d, ok := args[0].(*Slc)
		if !ok {
			return &Num{}
		}
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		var v Val
		if s, ok := args[1].(*Slc); ok {
			for _, t := range s.ts {
				w := I.load(fr, st, Tgt{o: t.o, p: t.p + "[*]", sel: t.sel}, el, instr)
				if v == nil {
					v = w
				} else {
					v = joinVal(v, w, joinCtx{}, "")
				}
			}
		}
		if v == nil {
			v = I.unknown(el, instr, fr)
		}
		for _, t := range d.ts {
			I.store(fr, st, Tgt{o: t.o, p: t.p + "[*]", sel: t.sel}, v, el, len(d.ts) == 1, instr)
		}
		return &Num{}
	case "complex", "real", "imag":
		r := &Num{}
		if name != "complex" && len(args) == 1 {
			if a, ok := soleAtom(numT(args[0])); ok {
				r.T = fSym(name + "(" + a.key + ")")
			}
		}
		if I.H.Arith != nil {
			var y Val
			if len(args) > 1 {
				y = args[1]
			}
			r.A = I.H.Arith(I, fr, st, instr, args[0], y, nil)
		}
		return r
	case "min", "max":
		t := numT(args[0])
		for _, a := range args[1:] {
			if t == nil || numT(a) == nil || t.isF || numT(a).isF {
				t = nil
			} else if name == "min" {
				t = tMin(t, numT(a))
			} else {
				t = tMax(t, numT(a))
			}
		}
		return &Num{T: t}
	case "delete", "print", "println", "close", "clear", "recover":
		if name == "delete" || name == "clear" {
			if m, ok := args[0].(*Mp); ok {
				for _, o := range m.os {
					I.store(fr, st, Tgt{o: o, p: "[*]"}, I.unknown(o.typ, instr, fr), o.typ, false, instr)
				}
			}
		}
		return top
	}
	return I.resUnknown(c.Signature().Results(), instr, fr)
}

// mayHaveSpare: appending to a slice that is a strict prefix of its array may write in place.
func (I *Interp) mayHaveSpare(t STgt) bool {
	return !I.H.Domain && (t.o.kind == OSym || t.o.kind == OGlobal)
}

func (I *Interp) storeStrong(st *State, t Tgt, v Val, typ types.Type) {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		a, ok := v.(*Agg)
		for i := 0; i < u.NumFields(); i++ {
			var fv Val = top
			if ok {
				fv = a.f[i]
			}
			I.storeStrong(st, Tgt{o: t.o, p: t.p + "." + u.Field(i).Name()}, fv, u.Field(i).Type())
		}
		return
	case *types.Array:
		I.storeQuiet(st, t, v, typ)
		return
	}
	I.storeCell(st, Key{t.o, t.p}, v, typ, true)
}

func (I *Interp) storeQuiet(st *State, t Tgt, v Val, typ types.Type) {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		a, ok := v.(*Agg)
		for i := 0; i < u.NumFields(); i++ {
			var fv Val = top
			if ok {
				fv = a.f[i]
			}
			I.storeQuiet(st, Tgt{o: t.o, p: t.p + "." + u.Field(i).Name()}, fv, u.Field(i).Type())
		}
		return
	case *types.Array:
		a, ok := v.(*Agg)
		if isNumeric(u.Elem()) || u.Len() > 16 {
			var fv Val = top
			if ok {
				fv = a.f[0]
			}
			I.storeQuiet(st, Tgt{o: t.o, p: t.p + "[*]"}, fv, u.Elem())
			return
		}
		for i := 0; i < int(u.Len()); i++ {
			var fv Val = top
			if ok {
				fv = a.f[i]
			}
			I.storeQuiet(st, Tgt{o: t.o, p: fmt.Sprintf("%s[%d]", t.p, i)}, fv, u.Elem())
		}
		return
	}
	I.storeCell(st, Key{t.o, t.p}, v, typ, false)
}

var bigMut = map[string]bool{"Add": true, "Sub": true, "Mul": true, "Quo": true, "Div": true, "Mod": true, "Rem": true, "Set": true, "SetUint64": true, "SetInt64": true,
	"SetString": true, "SetFloat64": true, "SetInt": true, "SetPrec": true, "Lsh": true, "Rsh": true, "ModInverse": true, "QuoRem": true, "DivMod": true, "Exp": true, "Neg": true, "Abs": true,
	"SetBytes": true, "SetBit": true, "GCD": true, "Sqrt": true, "Copy": true, "And": true, "Or": true, "Xor": true, "Not": true, "ModSqrt": true, "SetBits": true, "SetMode": true, "SetRat": true, "Rand": true, "SetMantExp": true, "MulRange": true, "Binomial": true, "SetInf": true}

func isBig(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

// bigWrite records a write to the opaque contents of a big number.
func (I *Interp) bigWrite(fr *Frame, st *State, v Val, src []Val, instr ssa.Instruction) {
	p, ok := v.(*Ptr)
	if !ok {
		return
	}
	n := &Num{}
	if I.H.Arith != nil {
		for _, s := range src {
			n = &Num{A: I.H.Arith(I, fr, st, instr, n, s, nil)}
		}
	}
	for _, t := range p.ts {
		I.store(fr, st, Tgt{o: t.o, p: t.p + ".val", sel: t.sel}, n, types.Typ[types.Uint64], len(p.ts) == 1, instr)
	}
}

func (I *Interp) bigRead(fr *Frame, st *State, v Val, instr ssa.Instruction) Val {
	p, ok := v.(*Ptr)
	if !ok {
		return v
	}
	var r Val
	for _, t := range p.ts {
		w := I.load(fr, st, Tgt{o: t.o, p: t.p + ".val", sel: t.sel}, types.Typ[types.Uint64], instr)
		if r == nil {
			r = w
		} else {
			r = joinVal(r, w, joinCtx{}, "")
		}
	}
	if n, ok := r.(*Num); ok {
		return &Num{A: n.A}
	}
	return &Num{}
}

// external models functions outside the repository.
func (I *Interp) external(fr *Frame, st *State, f *ssa.Function, args []Val, instr ssa.Instruction) (Val, bool) {
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	name := f.Name()
	full := f.String()
	recv := f.Signature.Recv()
	res := f.Signature.Results()
	switch pkg {
	case "math/big":
		if recv != nil {
			if bigMut[name] && res.Len() > 0 && isBig(res.At(0).Type()) {
				var src []Val
				for _, a := range args[1:] {
					if _, ok := a.(*Ptr); ok {
						src = append(src, I.bigRead(fr, st, a, instr))
					} else {
						src = append(src, a)
					}
				}
				if name == "Lsh" || name == "Rsh" || name == "Set" || name == "Add" || name == "Sub" {
				}
				I.bigWrite(fr, st, args[0], src, instr)
				if name == "QuoRem" || name == "DivMod" {
					I.bigWrite(fr, st, args[3], src, instr)
				}
				if res.Len() == 1 {
					return args[0], true
				}
				t := &Tup{vs: []Val{args[0]}}
				for i := 1; i < res.Len(); i++ {
					t.vs = append(t.vs, I.unknown(res.At(i).Type(), instr, fr))
				}
				return t, true
			}
			// reading methods; Float.Int(z) writes z
			src := I.bigRead(fr, st, args[0], instr)
			if (name == "Int" || name == "Rat") && len(args) == 2 {
				p, _ := args[1].(*Ptr)
				if p == nil || len(p.ts) == 0 {
					o := I.allocObj(fr, instr, deref(res.At(0).Type()), false, "bigInt")
					p = &Ptr{ts: []Tgt{{o: o}}}
				}
				I.bigWrite(fr, st, p, []Val{src}, instr)
				return &Tup{vs: []Val{p, &Num{}}}, true
			}
			v := I.resUnknown(res, instr, fr)
			a := Attr(nil)
			if n, ok := src.(*Num); ok {
				a = n.A
			}
			for _, x := range args[1:] {
				if _, ok := x.(*Ptr); ok {
					I.bigRead(fr, st, x, instr)
				}
			}
			if n, ok := v.(*Num); ok {
				v = &Num{T: n.T, A: a}
			} else if t, ok := v.(*Tup); ok {
				for i := range t.vs {
					if n, ok := t.vs[i].(*Num); ok {
						t.vs[i] = &Num{T: n.T, A: a}
					}
				}
			}
			return v, true
		}
		if res.Len() == 1 && isBig(res.At(0).Type()) {
			o := I.allocObj(fr, instr, deref(res.At(0).Type()), false, "big")
			p := &Ptr{ts: []Tgt{{o: o}}}
			I.storeQuiet(st, Tgt{o: o, p: ".val"}, &Num{A: attrOf(args)}, types.Typ[types.Uint64])
			return p, true
		}
		return I.resUnknown(res, instr, fr), true
	case "math", "math/bits", "strconv", "strings", "unicode/utf8":
		if pkg == "math" && len(args) == 1 {
			if t := numT(args[0]); t != nil && t.isF {
				if t.isFConst() {
					switch name {
					case "Ceil":
						return &Num{T: fConst(math.Ceil(t.fc))}, true
					case "Floor":
						return &Num{T: fConst(math.Floor(t.fc))}, true
					case "Exp2":
						return &Num{T: fConst(math.Exp2(t.fc))}, true
					}
				}
				if isFloat(res.At(0).Type()) {
					return &Num{T: fApp("math."+name, t), A: attrOf(args)}, true
				}
			}
		}
		return I.opaqueCall(fr, st, f, args, instr), true
	case "encoding/binary":
		if strings.HasPrefix(name, "Put") && len(args) == 3 {
			if s, ok := args[1].(*Slc); ok {
				for _, t := range s.ts {
					I.store(fr, st, Tgt{o: t.o, p: t.p + "[*]", sel: t.sel}, &Num{A: attrOf(args[2:])}, types.Typ[types.Uint8], false, instr)
				}
			}
			return top, true
		}
		if strings.HasPrefix(name, "Uint") {
			r := &Num{}
			if s, ok := args[1].(*Slc); ok {
				for _, t := range s.ts {
					if v, ok := I.load(fr, st, Tgt{o: t.o, p: t.p + "[*]", sel: t.sel}, types.Typ[types.Uint8], instr).(*Num); ok {
						r.A = v.A
					}
				}
			}
			return r, true
		}
	case "errors", "fmt":
		I.externCall(fr, st, full, args, instr, nil)
		if res.Len() == 1 && types.IsInterface(res.At(0).Type()) {
			return &Ifc{open: "err@" + I.P.instrPos(instr), ityp: res.At(0).Type()}, true
		}
		return I.resUnknown(res, instr, fr), true
	case "log", "os", "flag", "runtime/pprof", "runtime":
		I.externCall(fr, st, full, args, instr, nil)
		if name == "Fatal" || name == "Fatalf" || name == "Exit" {
			st.h = nil
			return top, true
		}
		return I.resUnknown(res, instr, fr), true
	case "crypto/rand":
		I.externCall(fr, st, full, args, instr, nil)
		if name == "Read" {
			if s, ok := args[0].(*Slc); ok {
				for _, t := range s.ts {
					I.store(fr, st, Tgt{o: t.o, p: t.p + "[*]", sel: t.sel}, &Num{}, types.Typ[types.Uint8], false, instr)
				}
			}
			return &Tup{vs: []Val{&Num{}, &Ifc{open: "err:rand", ityp: types.Universe.Lookup("error").Type(), nil_: true}}}, true
		}
		if name == "Int" {
			o := I.allocObj(fr, instr, deref(res.At(0).Type()), false, "big")
			return &Tup{vs: []Val{&Ptr{ts: []Tgt{{o: o}}}, &Ifc{open: "err:rand", ityp: types.Universe.Lookup("error").Type(), nil_: true}}}, true
		}
	case "encoding/json", "encoding/gob":
		I.externCall(fr, st, full, args, instr, nil)
		if name == "Unmarshal" && len(args) == 2 || name == "Decode" && len(args) == 2 {
			if x, ok := args[1].(*Ifc); ok {
				for _, t := range x.ts {
					if p, ok := t.v.(*Ptr); ok {
						for _, tg := range p.ts {
							I.store(fr, st, tg, I.unknown(deref(t.typ), instr, fr), deref(t.typ), false, instr)
						}
					}
				}
			}
		}
		return I.resUnknown(res, instr, fr), true
	case "sort", "slices":
		I.externCall(fr, st, full, args, instr, nil)
		for _, a := range args {
			if x, ok := a.(*Ifc); ok && len(x.ts) == 1 {
				a = x.ts[0].v
			}
			if s, ok := a.(*Slc); ok && strings.Contains(name, "Sort") || ok && (name == "Slice" || name == "Ints" || name == "Strings" || name == "SliceStable" || name == "Float64s" || name == "Stable") {
				for _, t := range s.ts {
					if !isNumeric(t.o.typ) && t.p == "" {
						continue
					}
					I.store(fr, st, Tgt{o: t.o, p: t.p + "[*]", sel: t.sel}, &Num{}, types.Typ[types.Uint64], false, instr)
				}
			}
		}
		return I.resUnknown(res, instr, fr), true
	case "bytes", "io", "time", "sync", "sync/atomic", "math/rand", "golang.org/x/crypto/blake2b", "unsafe", "context":
		I.externCall(fr, st, full, args, instr, nil)
		if pkg == "sync" || pkg == "sync/atomic" {
			for i, a := range args {
				if p, ok := a.(*Ptr); ok && i == 0 {
					for _, t := range p.ts {
						I.store(fr, st, Tgt{o: t.o, p: t.p + ".sync"}, &Num{}, types.Typ[types.Uint64], false, instr)
					}
				}
			}
		}
		return I.resUnknown(res, instr, fr), true
	}
	I.unknownExt[full] = I.P.instrPos(instr)
	return nil, false
}

func attrOf(args []Val) Attr {
	var r Attr
	for _, a := range args {
		if n, ok := a.(*Num); ok && n.A != nil {
			if r == nil {
				r = n.A
			} else {
				r = r.AJoin(n.A)
			}
		}
	}
	return r
}

func (I *Interp) externCall(fr *Frame, st *State, name string, args []Val, instr ssa.Instruction, c *ssa.CallCommon) {
	if I.H.Extern != nil {
		I.H.Extern(I, fr, st, name, args, instr)
	}
	if strings.HasPrefix(name, "invoke ") && strings.HasSuffix(name, ".Read") && len(args) == 2 {
		// io.Reader: fills the buffer and advances the reader
		if x, ok := args[0].(*Ifc); ok {
			if x.op != nil {
				I.extWrite(fr, st, Tgt{o: x.op, p: ".stream"}, instr)
			}
			for _, t := range x.ts {
				if p, ok := t.v.(*Ptr); ok {
					for _, tg := range p.ts {
						I.store(fr, st, Tgt{o: tg.o, p: tg.p + ".stream"}, &Num{}, types.Typ[types.Uint64], false, instr)
					}
				}
			}
		}
		if s, ok := args[1].(*Slc); ok {
			for _, t := range s.ts {
				I.store(fr, st, Tgt{o: t.o, p: t.p + "[*]", sel: t.sel}, &Num{}, types.Typ[types.Uint8], false, instr)
			}
		}
	}
}

func (I *Interp) extWrite(fr *Frame, st *State, t Tgt, instr ssa.Instruction) {
	if I.H.Write != nil {
		I.H.Write(I, fr, st, t, &Num{}, instr)
	}
}
