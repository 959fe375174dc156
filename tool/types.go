package main

import (
	"fmt"
	"go/types"
	"strings"
)

type Leaf struct {
	path string
	sort Sort
	kind leafKind
	typ  types.Type
}
type leafKind int

const (
	lkPlain leafKind = iota
	lkRef            // ref to object (pointer, map, chan)
	lkArr            // slice backing array ref
	lkOff
	lkLen
	lkCap
	lkTag
	lkData
	lkFunc
)

type Unsupported struct{ msg string }

func (u Unsupported) Error() string { return u.msg }

func unsup(f string, a ...any) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func qual(p *types.Package) string { return pkgShort(p) }

var typeKeyCache = map[types.Type]string{}

func typeKey(t types.Type) string {
	if s, ok := typeKeyCache[t]; ok {
		return s
	}
	s := types.TypeString(types.Unalias(t), qual)
	typeKeyCache[t] = s
	return s
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Byte)
}

// flattenExt: external struct types whose fields are modelled individually.
var flattenExt = map[string]bool{
	"database/sql.NullInt64":  true,
	"database/sql.NullString": true,
}

// opaqueStruct reports whether a struct type is modelled as an uninterpreted value.
func opaqueStruct(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		p := n.Obj().Pkg()
		if p != nil && !strings.HasPrefix(p.Path(), modPath) {
			return !flattenExt[p.Path()+"."+n.Obj().Name()]
		}
	}
	return false
}

var leafCache = map[types.Type][]Leaf{}

func leaves(t types.Type) []Leaf {
	if l, ok := leafCache[t]; ok {
		return l
	}
	l := leaves0(t)
	leafCache[t] = l
	return l
}

func leaves0(t types.Type) []Leaf {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", SInt, lkPlain, t}}
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, lkPlain, t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SStr, lkPlain, t}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{"", SInt, lkRef, t}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", SInt, lkRef, t}}
		}
		return []Leaf{{"", SU, lkPlain, t}}
	case *types.Pointer:
		return []Leaf{{"", SInt, lkRef, t}}
	case *types.Map, *types.Chan:
		return []Leaf{{"", SInt, lkRef, t}}
	case *types.Signature:
		return []Leaf{{"", SInt, lkFunc, t}}
	case *types.Slice:
		if isByteSlice(t) {
			return []Leaf{{"", SRaw, lkPlain, t}}
		}
		return []Leaf{{"~arr", SInt, lkArr, t}, {"~off", SInt, lkOff, t}, {"~len", SInt, lkLen, t}, {"~cap", SInt, lkCap, t}}
	case *types.Interface:
		return []Leaf{{"~tag", SInt, lkTag, t}, {"~data", SInt, lkData, t}}
	case *types.Struct:
		if opaqueStruct(t) {
			return []Leaf{{"", SU, lkPlain, t}}
		}
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				out = append(out, Leaf{"." + u.Field(i).Name() + l.path, l.sort, l.kind, l.typ})
			}
		}
		return out
	case *types.Array:
		if u.Len() > 64 {
			return []Leaf{{"", SU, lkPlain, t}}
		}
		var out []Leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range leaves(u.Elem()) {
				out = append(out, Leaf{fmt.Sprintf(".%d%s", i, l.path), l.sort, l.kind, l.typ})
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf(".%d%s", i, l.path), l.sort, l.kind, l.typ})
			}
		}
		return out
	}
	unsup("type %s", t)
	return nil
}

// keySort returns the SMT sort used for map keys of type t.
func keySort(t types.Type) Sort {
	ls := leaves(t)
	if len(ls) == 1 {
		return ls[0].sort
	}
	if len(ls) == 0 {
		return SInt
	}
	s := Sort("|K:" + sanitize(typeKey(t)) + "|")
	if _, ok := tb.dts[s]; !ok {
		var sb strings.Builder
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", s, ctorName(s))
		for i, l := range ls {
			fmt.Fprintf(&sb, " (%s %s)", selName(s, i), l.sort)
		}
		sb.WriteString("))))")
		tb.dts[s] = sb.String()
		tb.dtOrder = append(tb.dtOrder, s)
	}
	return s
}
func ctorName(s Sort) string       { return "|mk" + string(s)[1:] }
func selName(s Sort, i int) string { return fmt.Sprintf("|s%d%s", i, string(s)[1:]) }

func mkKey(t types.Type, ts []*Term) *Term {
	if len(ts) == 1 {
		return ts[0]
	}
	if len(ts) == 0 {
		return Num(0)
	}
	s := keySort(t)
	// eta: mk(s0(x), s1(x), ..) = x
	if ts[0].op == "ctor" && len(ts[0].args) == 1 && ts[0].name == selName(s, 0) {
		x := ts[0].args[0]
		all := true
		for i, a := range ts {
			if !(a.op == "ctor" && a.name == selName(s, i) && a.args[0] == x) {
				all = false
			}
		}
		if all {
			return x
		}
	}
	return tb.mk("ctor", ctorName(s), 0, s, ts)
}

func unKey(t types.Type, k *Term) []*Term {
	ls := leaves(t)
	if len(ls) == 1 {
		return []*Term{k}
	}
	s := keySort(t)
	out := make([]*Term, len(ls))
	for i, l := range ls {
		if k.op == "ctor" && k.name == ctorName(s) {
			out[i] = k.args[i]
		} else {
			out[i] = tb.mk("ctor", selName(s, i), 0, l.sort, []*Term{k})
		}
	}
	return out
}

func zeroOf(s Sort, k leafKind) *Term {
	switch s {
	case SInt:
		return Num(0)
	case SBool:
		return False
	case SStr:
		return StrConst("")
	case SRaw:
		return Sym("raw_nil", SRaw)
	case SU:
		return Sym("u_zero", SU)
	}
	panic("zero of " + string(s))
}
func zeroLeaf(l Leaf) *Term {
	if l.sort == SU {
		return Sym("zero:"+sanitize(typeKey(l.typ)), SU)
	}
	return zeroOf(l.sort, l.kind)
}

// ---- values ----

type Val interface{}

type StructV struct{ elems []Val } // structs, arrays, tuples
type SliceV struct{ arr, off, len, cap *Term }
type Cell struct {
	id  int
	typ types.Type
	key string
}
type PtrV struct {
	kind   int // 0 obj, 1 slice element, 2 cell, 3 global
	ref    *Term
	arr    *Term
	idx    *Term
	cell   *Cell
	base   types.Type // type of the base object (obj: pointee; elem: slice elem type)
	path   string     // static path within base
	typ    types.Type // pointee type
	gname  string
	srcRef *Term // obj holding the slice (for notes)
}
type IfaceV struct {
	tag, data *Term
	dyn       types.Type
	val       Val
}
type FuncV struct {
	fn    fnRef
	binds []Val
	term  *Term
}
type IterV struct {
	m    *Term
	mt   *types.Map
	vis  *Cell
	cnt  *Cell
	dom0 *Term
	str  bool
}

func encode(v Val, t types.Type, x *Exec) []*Term {
	t = types.Unalias(t)
	switch vv := v.(type) {
	case *Term:
		return []*Term{vv}
	case *StructV:
		var out []*Term
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				out = append(out, encode(vv.elems[i], u.Field(i).Type(), x)...)
			}
		case *types.Array:
			for i := range vv.elems {
				out = append(out, encode(vv.elems[i], u.Elem(), x)...)
			}
		case *types.Tuple:
			for i := range vv.elems {
				out = append(out, encode(vv.elems[i], u.At(i).Type(), x)...)
			}
		default:
			panic("encode struct as " + t.String())
		}
		return out
	case SliceV:
		return []*Term{vv.arr, vv.off, vv.len, vv.cap}
	case PtrV:
		return []*Term{x.ptrTerm(vv)}
	case IfaceV:
		return []*Term{vv.tag, vv.data}
	case FuncV:
		return []*Term{x.funcTerm(vv)}
	}
	panic(fmt.Sprintf("encode %T as %s", v, t))
}

func decode(ts []*Term, t types.Type, x *Exec) Val {
	v, rest := decode1(ts, t, x)
	if len(rest) != 0 {
		panic("decode: leftover leaves for " + t.String())
	}
	return v
}
func decode1(ts []*Term, t types.Type, x *Exec) (Val, []*Term) {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return PtrV{kind: 0, ref: ts[0], base: u.Elem(), typ: u.Elem()}, ts[1:]
	case *types.Signature:
		return x.funcOf(ts[0]), ts[1:]
	case *types.Slice:
		if isByteSlice(t) {
			return ts[0], ts[1:]
		}
		return SliceV{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Interface:
		return x.mkIface(ts[0], ts[1]), ts[2:]
	case *types.Struct:
		if opaqueStruct(t) {
			return ts[0], ts[1:]
		}
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ts = decode1(ts, u.Field(i).Type(), x)
			s.elems = append(s.elems, v)
		}
		return s, ts
	case *types.Array:
		if u.Len() > 64 {
			return ts[0], ts[1:]
		}
		s := &StructV{}
		for i := int64(0); i < u.Len(); i++ {
			var v Val
			v, ts = decode1(ts, u.Elem(), x)
			s.elems = append(s.elems, v)
		}
		return s, ts
	case *types.Tuple:
		s := &StructV{}
		for i := 0; i < u.Len(); i++ {
			var v Val
			v, ts = decode1(ts, u.At(i).Type(), x)
			s.elems = append(s.elems, v)
		}
		return s, ts
	}
	return ts[0], ts[1:]
}

func zeroVal(t types.Type, x *Exec) Val {
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = zeroLeaf(l)
	}
	return decode(ts, t, x)
}
