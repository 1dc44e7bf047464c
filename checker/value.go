package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ObjKind int

const (
	OSym ObjKind = iota
	OAlloc
	OGlobal
	OOpaque
)

// Obj is an abstract memory object: a pointed-to variable or the backing array of a slice/map.
type Obj struct {
	id     int
	kind   ObjKind
	name   string     // access path (OSym), site (OAlloc), variable name (OGlobal)
	typ    types.Type // type of the variable, or element type of the backing array
	arr    bool       // backing array (slice or map)
	mp     bool
	parent *Obj   // object holding the pointer to this one (OSym)
	root   string // root parameter name (OSym)
	lenT   *Term
	site   ssa.Instruction
	zero   bool // allocated zeroed
}

// Val is an abstract value.
type Val interface{}

type Num struct {
	T *Term
	A Attr
}

// Attr is client-domain information attached to numeric contents.
type Attr interface {
	AKey() string
	AJoin(o Attr) Attr
}

type Tgt struct {
	o *Obj
	p string
	// sel is the index by which the containing row was selected ("" if none)
	sel *Term
}
type Ptr struct {
	ts   []Tgt
	nil_ bool // may be nil
}
type STgt struct {
	o   *Obj
	p   string // path of the array within o ("" for backing arrays)
	off *Term
	ln  *Term
	sel *Term
}
type Slc struct {
	ts   []STgt
	nil_ bool
}
type Agg struct {
	typ types.Type
	f   []Val
}
type ITgt struct {
	typ types.Type
	v   Val
}
type Ifc struct {
	ts   []ITgt
	open string // non-empty: may hold any type; symbolic name
	nil_ bool
	ityp types.Type
	op   *Obj
}
type FTgt struct {
	fn   *ssa.Function
	bind []Val
}
type Fn struct {
	ts   []FTgt
	open bool
	nil_ bool
	name string // symbolic name when open
	op   *Obj
}
type Mp struct {
	os   []*Obj
	nil_ bool
}
type Tup struct{ vs []Val }
type Top struct{}

var top = Top{}

func isTop(v Val) bool { _, ok := v.(Top); return ok || v == nil }

func attrKey(a Attr) string {
	if a == nil {
		return ""
	}
	return a.AKey()
}

func valKey(v Val) string {
	var sb strings.Builder
	writeKey(&sb, v)
	return sb.String()
}
func writeKey(sb *strings.Builder, v Val) {
	switch v := v.(type) {
	case nil:
		sb.WriteString("nil!")
	case Top:
		sb.WriteString("T")
	case *Num:
		sb.WriteString("n:")
		if v.T != nil {
			sb.WriteString(v.T.key)
		} else {
			sb.WriteString("?")
		}
		if v.A != nil {
			sb.WriteString("@")
			sb.WriteString(v.A.AKey())
		}
	case *Ptr:
		sb.WriteString("p{")
		for _, t := range v.ts {
			fmt.Fprintf(sb, "%d%s;", t.o.id, t.p)
			if t.sel != nil {
				sb.WriteString("~" + t.sel.key)
			}
		}
		if v.nil_ {
			sb.WriteString("nil")
		}
		sb.WriteString("}")
	case *Slc:
		sb.WriteString("s{")
		for _, t := range v.ts {
			fmt.Fprintf(sb, "%d%s[%s:%s];", t.o.id, t.p, t.off, t.ln)
			if t.sel != nil {
				sb.WriteString("~" + t.sel.key)
			}
		}
		if v.nil_ {
			sb.WriteString("nil")
		}
		sb.WriteString("}")
	case *Agg:
		sb.WriteString("a(")
		for _, f := range v.f {
			writeKey(sb, f)
			sb.WriteString(",")
		}
		sb.WriteString(")")
	case *Ifc:
		sb.WriteString("i{")
		for _, t := range v.ts {
			sb.WriteString(t.typ.String())
			sb.WriteString(":")
			writeKey(sb, t.v)
			sb.WriteString(";")
		}
		if v.open != "" {
			sb.WriteString("open:" + v.open)
		}
		if v.nil_ {
			sb.WriteString("nil")
		}
		sb.WriteString("}")
	case *Fn:
		sb.WriteString("f{")
		for _, t := range v.ts {
			sb.WriteString(fname(t.fn))
			for _, b := range t.bind {
				writeKey(sb, b)
			}
			sb.WriteString(";")
		}
		if v.open {
			sb.WriteString("open")
		}
		sb.WriteString("}")
	case *Mp:
		sb.WriteString("m{")
		for _, o := range v.os {
			fmt.Fprintf(sb, "%d;", o.id)
		}
		sb.WriteString("}")
	case *Tup:
		sb.WriteString("t(")
		for _, f := range v.vs {
			writeKey(sb, f)
			sb.WriteString(",")
		}
		sb.WriteString(")")
	default:
		panic(fmt.Sprintf("writeKey %T", v))
	}
}

func valEq(a, b Val) bool {
	if a == b {
		return true
	}
	return valKey(a) == valKey(b)
}

type condJoiner interface {
	AJoinC(o Attr, cond *Term, name string) Attr
}

// joinCtx says how differing numeric terms merge.
type joinCtx struct {
	cond *Term  // if-join: condition, a is the value on the true side
	name string // otherwise: symbol to widen to
}

func (j joinCtx) num(a, b *Term, where string) *Term {
	if a == b {
		return a
	}
	if a == nil || b == nil {
		return nil
	}
	if j.cond != nil {
		if a.isF != b.isF {
			return nil
		}
		if at, ok := soleAtom(j.cond); ok && len(at.args) == 2 && (at.op == "lt" || at.op == "le") {
			x, y := at.args[0], at.args[1]
			if a == x && b == y {
				return tMin(x, y)
			}
			if a == y && b == x {
				return tMax(x, y)
			}
		}
		if a.isF {
			return fApp("ite", j.cond, a, b)
		}
		return tApp("ite", j.cond, a, b)
	}
	if j.name == "" {
		return nil
	}
	if a.isF {
		return fSym("w:" + j.name + ":" + where)
	}
	return tSym("w:" + j.name + ":" + where)
}

func joinVal(a, b Val, j joinCtx, where string) Val {
	if a == b {
		return a
	}
	switch x := a.(type) {
	case *Num:
		y, ok := b.(*Num)
		if !ok {
			return top
		}
		t := j.num(x.T, y.T, where)
		at := x.A
		if attrKey(x.A) != attrKey(y.A) {
			if cj, ok := x.A.(condJoiner); ok {
				at = cj.AJoinC(y.A, j.cond, j.name)
			} else if cj, ok := y.A.(condJoiner); ok && x.A == nil {
				at = cj.AJoinC(nil, nil, j.name)
			} else if x.A == nil {
				at = y.A.AJoin(nil)
			} else {
				at = x.A.AJoin(y.A)
			}
		}
		if t == x.T && attrKey(at) == attrKey(x.A) {
			return x
		}
		return &Num{t, at}
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok {
			return top
		}
		r := &Ptr{nil_: x.nil_ || y.nil_}
		r.ts = append(append([]Tgt{}, x.ts...), y.ts...)
		r.ts = dedupTgt(r.ts)
		return r
	case *Slc:
		y, ok := b.(*Slc)
		if !ok {
			return top
		}
		r := &Slc{nil_: x.nil_ || y.nil_}
		type k struct {
			o *Obj
			p string
		}
		idx := map[k]int{}
		for i, t := range append(append([]STgt{}, x.ts...), y.ts...) {
			if n, ok := idx[k{t.o, t.p}]; ok {
				u := &r.ts[n]
				if u.off != t.off {
					u.off = j.num(u.off, t.off, where+"off")
				}
				if u.ln != t.ln {
					u.ln = j.num(u.ln, t.ln, where+"len")
				}
				if u.sel != t.sel {
					u.sel = j.num(u.sel, t.sel, where+"sel")
				}
			} else {
				idx[k{t.o, t.p}] = len(r.ts)
				r.ts = append(r.ts, t)
			}
			_ = i
		}
		sort.Slice(r.ts, func(i, j int) bool {
			if r.ts[i].o.id != r.ts[j].o.id {
				return r.ts[i].o.id < r.ts[j].o.id
			}
			return r.ts[i].p < r.ts[j].p
		})
		return r
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(y.f) != len(x.f) {
			return top
		}
		r := &Agg{typ: x.typ, f: make([]Val, len(x.f))}
		for i := range x.f {
			r.f[i] = joinVal(x.f[i], y.f[i], j, fmt.Sprintf("%s.%d", where, i))
		}
		return r
	case *Ifc:
		y, ok := b.(*Ifc)
		if !ok {
			return top
		}
		r := &Ifc{nil_: x.nil_ || y.nil_, open: x.open, ityp: x.ityp, op: x.op}
		if r.open == "" {
			r.open, r.op = y.open, y.op
		}
		r.ts = append(r.ts, x.ts...)
		for _, t := range y.ts {
			found := false
			for i := range r.ts {
				if types.Identical(r.ts[i].typ, t.typ) {
					r.ts[i].v = joinVal(r.ts[i].v, t.v, j, where)
					found = true
				}
			}
			if !found {
				r.ts = append(r.ts, t)
			}
		}
		sort.SliceStable(r.ts, func(i, j int) bool { return r.ts[i].typ.String() < r.ts[j].typ.String() })
		return r
	case *Fn:
		y, ok := b.(*Fn)
		if !ok {
			return top
		}
		r := &Fn{open: x.open || y.open, nil_: x.nil_ || y.nil_}
		r.ts = append(r.ts, x.ts...)
		for _, t := range y.ts {
			found := false
			for i := range r.ts {
				if r.ts[i].fn == t.fn && len(r.ts[i].bind) == len(t.bind) {
					nb := make([]Val, len(t.bind))
					for q := range nb {
						nb[q] = joinVal(r.ts[i].bind[q], t.bind[q], j, where)
					}
					r.ts[i].bind = nb
					found = true
				}
			}
			if !found {
				r.ts = append(r.ts, t)
			}
		}
		sort.SliceStable(r.ts, func(i, j int) bool { return fname(r.ts[i].fn) < fname(r.ts[j].fn) })
		return r
	case *Mp:
		y, ok := b.(*Mp)
		if !ok {
			return top
		}
		r := &Mp{nil_: x.nil_ || y.nil_}
		seen := map[*Obj]bool{}
		for _, o := range append(append([]*Obj{}, x.os...), y.os...) {
			if !seen[o] {
				seen[o] = true
				r.os = append(r.os, o)
			}
		}
		sort.Slice(r.os, func(i, j int) bool { return r.os[i].id < r.os[j].id })
		return r
	case *Tup:
		y, ok := b.(*Tup)
		if !ok || len(y.vs) != len(x.vs) {
			return top
		}
		r := &Tup{vs: make([]Val, len(x.vs))}
		for i := range x.vs {
			r.vs[i] = joinVal(x.vs[i], y.vs[i], j, fmt.Sprintf("%s#%d", where, i))
		}
		return r
	}
	return top
}

func dedupTgt(ts []Tgt) []Tgt {
	sort.SliceStable(ts, func(i, j int) bool {
		if ts[i].o.id != ts[j].o.id {
			return ts[i].o.id < ts[j].o.id
		}
		return ts[i].p < ts[j].p
	})
	var r []Tgt
	for _, t := range ts {
		if n := len(r); n > 0 && r[n-1].o == t.o && r[n-1].p == t.p {
			if r[n-1].sel != t.sel {
				r[n-1].sel = nil
			}
			continue
		}
		r = append(r, t)
	}
	return r
}

// ---- heap

type Key struct {
	o *Obj
	p string
}

type Heap struct {
	m      map[Key]Val
	up     *Heap
	depth  int
	frozen bool
}

func newHeap() *Heap { return &Heap{m: map[Key]Val{}} }

func (h *Heap) get(k Key) (Val, bool) {
	for ; h != nil; h = h.up {
		if v, ok := h.m[k]; ok {
			return v, true
		}
	}
	return nil, false
}

func (h *Heap) fork() *Heap {
	h.frozen = true
	if len(h.m) == 0 && h.up != nil {
		return &Heap{m: map[Key]Val{}, up: h.up, depth: h.depth}
	}
	n := &Heap{m: map[Key]Val{}, up: h, depth: h.depth + 1}
	return n
}

func (h *Heap) flatten() *Heap {
	if h.depth < 40 {
		return h
	}
	n := newHeap()
	var chain []*Heap
	for x := h; x != nil; x = x.up {
		chain = append(chain, x)
	}
	for i := len(chain) - 1; i >= 0; i-- {
		for k, v := range chain[i].m {
			n.m[k] = v
		}
	}
	return n
}

// diffKeys lists the keys that may differ between a and b.
func diffKeys(a, b *Heap) (map[Key]bool, *Heap) {
	keys := map[Key]bool{}
	x, y := a, b
	for x != y {
		if x == nil || (y != nil && y.depth > x.depth) {
			for k := range y.m {
				keys[k] = true
			}
			y = y.up
		} else if y == nil || x.depth > y.depth {
			for k := range x.m {
				keys[k] = true
			}
			x = x.up
		} else {
			for k := range x.m {
				keys[k] = true
			}
			for k := range y.m {
				keys[k] = true
			}
			x, y = x.up, y.up
		}
	}
	return keys, x
}

type State struct {
	h     *Heap
	facts *Facts
}

func (s *State) fork() *State {
	return &State{h: s.h.fork(), facts: s.facts}
}
