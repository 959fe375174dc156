package main

import (
	"fmt"
	"go/types"
)

type SV struct {
	v Val
	t types.Type
}

type Env struct {
	x    *Exec
	st   *State // current state
	old  *State
	pre  *State // loop entry
	vars map[string]SV
	// values of the invariant roles on loop entry
	preVars map[string]SV
	depth   int
}

func (e *Env) deeper() *Env {
	c := *e
	return &c
}

func (e *Env) with(n string, v SV) *Env {
	m := make(map[string]SV, len(e.vars)+1)
	for k, s := range e.vars {
		m[k] = s
	}
	m[n] = v
	c := *e
	c.vars = m
	return &c
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]

func serr(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (e *Env) bool(ex Expr) *Term {
	v := e.eval(ex)
	t, ok := v.v.(*Term)
	if !ok || t.sort != SBool {
		serr("boolean expected, got %T of type %v in %v", v.v, v.t, ex)
	}
	return t
}
func (e *Env) int(ex Expr) *Term {
	v := e.eval(ex)
	t, ok := v.v.(*Term)
	if !ok || t.sort != SInt {
		serr("integer expected, got %v in %v", v.t, ex)
	}
	return t
}

func (e *Env) eval(ex Expr) SV {
	x := e.x
	switch n := ex.(type) {
	case ENum:
		return SV{Num(n.n), tInt}
	case EStr:
		return SV{StrConst(n.s), tString}
	case EId:
		if v, ok := e.vars[n.name]; ok {
			return v
		}
		switch n.name {
		case "true":
			return SV{True, tBool}
		case "false":
			return SV{False, tBool}
		case "nil":
			return SV{nil, nil}
		}
		if d, ok := x.eng.specs.defs[n.name]; ok && len(d.params) == 0 {
			c := *e
			return c.eval(d.body)
		}
		if g, ok := x.eng.specs.ghosts[n.name]; ok {
			t := x.eng.resolveType(g)
			gv := x.ghostTerm(e.st, n.name, t)
			if pt, ok := t.(*types.Pointer); ok {
				if term, ok := gv.(*Term); ok {
					gv = PtrV{kind: 0, ref: term, base: pt.Elem(), typ: pt.Elem()}
				}
			}
			return SV{gv, t}
		}
		// package-level constant "pkg.Name" is an EField
		serr("unknown identifier %s", n.name)
	case EUn:
		switch n.op {
		case "!":
			return SV{Not(e.bool(n.e)), tBool}
		case "-":
			return SV{Neg(e.int(n.e)), tInt}
		case "*":
			v := e.eval(n.e)
			p := v.v.(PtrV)
			return SV{x.load(e.st, p), p.typ}
		}
	case EBin:
		return e.binary(n)
	case EField:
		if id, ok := n.e.(EId); ok {
			if _, bound := e.vars[id.name]; !bound {
				if pk := x.eng.ext[id.name]; pk != nil {
					if c, ok := pk.Scope().Lookup(n.f).(*types.Const); ok {
						return x.constSV(c)
					}
					if g, ok := pk.Scope().Lookup(n.f).(*types.Var); ok {
						return SV{x.load(e.st, PtrV{kind: 3, gname: pkgShort(pk) + "." + n.f, base: g.Type(), typ: g.Type()}), g.Type()}
					}
				}
			}
		}
		return e.field(e.eval(n.e), n.f)
	case EIdx:
		return e.index(e.eval(n.e), n.i)
	case ELet:
		return e.with(n.name, e.eval(n.e)).eval(n.body)
	case EQuant:
		c := e.deeper()
		var vs []*Term
		var guards []*Term
		for _, v := range n.vars {
			t := x.eng.resolveType(v.typ)
			ls := leaves(t)
			var ts []*Term
			for _, l := range ls {
				c.depth++
				b := BVarAt(v.name, c.depth, l.sort)
				ts = append(ts, b)
				vs = append(vs, b)
				if l.kind == lkRef {
					guards = append(guards, Le(Num(0), b))
				}
			}
			if len(ls) > 1 && isKeyable(t) {
				// composite: quantify over the key datatype
				vs = vs[:len(vs)-len(ls)]
				k := BVarAt(v.name, c.depth, keySort(t))
				vs = append(vs, k)
				ts = unKey(t, k)
			}
			c = c.with(v.name, SV{decode(ts, t, x), t})
		}
		body := c.bool(n.body)
		var pats [][]*Term
		for _, p := range n.pats {
			var ps []*Term
			for _, pe := range p {
				v := c.eval(pe)
				ps = append(ps, encode(v.v, v.t, x)...)
			}
			pats = append(pats, ps)
		}
		_ = guards
		if n.forall {
			return SV{Forall(vs, body, pats...), tBool}
		}
		return SV{Exists(vs, body, pats...), tBool}
	case ECall:
		return e.call(n)
	}
	serr("cannot evaluate %T %v", ex, ex)
	return SV{}
}

func isKeyable(t types.Type) bool {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Struct, *types.Array, *types.Interface:
		return true
	}
	return false
}

func (x *Exec) constSV(c *types.Const) SV {
	return SV{x.constOf(c.Val(), c.Type()), c.Type()}
}

func (x *Exec) ghostTerm(st *State, name string, t types.Type) Val {
	key := "ghost:" + name
	return x.comp(st, key, compInfo{sort: ghostSort(t), kind: 6, leaf: Leaf{"", ghostSort(t), lkPlain, nil}})
}
func ghostSort(t types.Type) Sort {
	switch u := t.(type) {
	case *SetT:
		return SArr(keySort(u.k), SBool)
	case *GMapT:
		return SArr(keySort(u.k), ghostSort(u.v))
	}
	ls := leaves(t)
	if len(ls) != 1 {
		serr("ghost type %s must be scalar", t)
	}
	return ls[0].sort
}

func (e *Env) binary(n EBin) SV {
	x := e.x
	switch n.op {
	case "&&":
		return SV{And(e.bool(n.l), e.bool(n.r)), tBool}
	case "||":
		return SV{Or(e.bool(n.l), e.bool(n.r)), tBool}
	case "==>":
		return SV{Implies(e.bool(n.l), e.bool(n.r)), tBool}
	case "<==>":
		return SV{Eq(e.bool(n.l), e.bool(n.r)), tBool}
	case "==", "!=":
		l, r := e.eval(n.l), e.eval(n.r)
		if l.t == nil && r.t == nil {
			serr("nil == nil")
		}
		if l.t == nil {
			l = SV{zeroVal(r.t, x), r.t}
		}
		if r.t == nil {
			r = SV{zeroVal(l.t, x), l.t}
		}
		eq := e.eq(l, r)
		if n.op == "!=" {
			eq = Not(eq)
		}
		return SV{eq, tBool}
	case "in":
		l, r := e.eval(n.l), e.eval(n.r)
		return SV{e.member(l, r), tBool}
	}
	l, r := e.eval(n.l), e.eval(n.r)
	a, ok1 := l.v.(*Term)
	b, ok2 := r.v.(*Term)
	if !ok1 || !ok2 {
		serr("operator %s on non-scalars", n.op)
	}
	if a.sort == SStr {
		switch n.op {
		case "+":
			return SV{x.concat(a, b), l.t}
		case "<":
			return SV{x.strLt(a, b), tBool}
		case "<=":
			return SV{Not(x.strLt(b, a)), tBool}
		case ">":
			return SV{x.strLt(b, a), tBool}
		case ">=":
			return SV{Not(x.strLt(a, b)), tBool}
		}
	}
	if a.sort != SInt || b.sort != SInt {
		serr("operator %s on %s,%s", n.op, a.sort, b.sort)
	}
	switch n.op {
	case "+":
		return SV{Add(a, b), l.t}
	case "-":
		return SV{Sub(a, b), l.t}
	case "*":
		return SV{Mul(a, b), l.t}
	case "<":
		return SV{Lt(a, b), tBool}
	case "<=":
		return SV{Le(a, b), tBool}
	case ">":
		return SV{Lt(b, a), tBool}
	case ">=":
		return SV{Le(b, a), tBool}
	}
	serr("operator %s", n.op)
	return SV{}
}

func (e *Env) eq(l, r SV) *Term {
	if a, ok := l.v.(*Term); ok {
		if b, ok := r.v.(*Term); ok {
			if a.sort != b.sort {
				serr("comparison of %s with %s", a.sort, b.sort)
			}
			return Eq(a, b)
		}
	}
	return e.x.eqVals(l.v, r.v, l.t, r.t)
}

func (e *Env) member(l, r SV) *Term {
	x := e.x
	switch u := types.Unalias(r.t).Underlying().(type) {
	case *types.Map:
		return x.mapHas(e.st, r.v.(*Term), u, x.key(l.v, u))
	case *SetT:
		return Select(r.v.(*Term), mkKey(u.k, encode(l.v, u.k, x)))
	case *types.Slice:
		k := BVarAt("k", e.depth+1, SInt)
		s := r.v.(SliceV)
		el := x.elem(e.st, s, u.Elem(), k)
		return Exists([]*Term{k}, And(Le(Num(0), k), Lt(k, s.len), e.eq(SV{el, u.Elem()}, l)))
	}
	serr("in: not a container: %s", r.t)
	return nil
}

func (e *Env) field(v SV, f string) SV {
	x := e.x
	if v.t == nil {
		serr("field %s of nil", f)
	}
	// interface pseudo-fields
	if iv, ok := v.v.(IfaceV); ok {
		switch f {
		case "tag":
			return SV{iv.tag, tInt}
		case "data":
			return SV{iv.data, tInt}
		}
	}
	if sv, ok := v.v.(SliceV); ok {
		switch f {
		case "arr":
			return SV{sv.arr, tInt}
		case "off":
			return SV{sv.off, tInt}
		}
	}
	t := types.Unalias(v.t)
	var pkg *types.Package
	bt := t
	if p, ok := bt.Underlying().(*types.Pointer); ok {
		bt = types.Unalias(p.Elem())
	}
	if nm, ok := bt.(*types.Named); ok {
		pkg = nm.Obj().Pkg()
	}
	obj, idx, _ := types.LookupFieldOrMethod(t, true, pkg, f)
	fv, ok := obj.(*types.Var)
	if !ok || fv == nil {
		serr("no field %s in %s", f, v.t)
	}
	cur := v
	for _, i := range idx {
		switch vv := cur.v.(type) {
		case PtrV:
			stt := types.Unalias(vv.typ).Underlying().(*types.Struct)
			fl := stt.Field(i)
			np := vv
			np.path += "." + fl.Name()
			np.typ = fl.Type()
			cur = SV{x.load(e.st, np), fl.Type()}
		case *StructV:
			stt := types.Unalias(cur.t).Underlying().(*types.Struct)
			cur = SV{vv.elems[i], stt.Field(i).Type()}
		case *Term:
			stt := types.Unalias(cur.t).Underlying().(*types.Struct)
			fl := stt.Field(i)
			cur = SV{x.opaqueField(vv, cur.t, "."+fl.Name(), fl.Type()), fl.Type()}
		default:
			serr("field %s of %T", f, cur.v)
		}
	}
	return cur
}

func (e *Env) index(v SV, ie Expr) SV {
	x := e.x
	switch u := types.Unalias(v.t).Underlying().(type) {
	case *types.Slice:
		return SV{x.elem(e.st, v.v.(SliceV), u.Elem(), e.int(ie)), u.Elem()}
	case *types.Map:
		k := e.eval(ie)
		return SV{x.mapGet(e.st, v.v.(*Term), u, x.key(k.v, u)), u.Elem()}
	case *GMapT:
		k := e.eval(ie)
		sel := Select(v.v.(*Term), mkKey(u.k, encode(k.v, u.k, x)))
		switch u.v.(type) {
		case *SetT, *GMapT:
			return SV{sel, u.v}
		}
		return SV{decode([]*Term{sel}, u.v, x), u.v}
	case *SetT:
		k := e.eval(ie)
		return SV{Select(v.v.(*Term), mkKey(u.k, encode(k.v, u.k, x))), tBool}
	case *types.Array:
		i := e.int(ie)
		s := v.v.(*StructV)
		if i.op == "num" {
			return SV{s.elems[i.num], u.Elem()}
		}
		var r Val
		for k := len(s.elems) - 1; k >= 0; k-- {
			if r == nil {
				r = s.elems[k]
			} else {
				r = x.mergeVal(Eq(i, Num(int64(k))), s.elems[k], r, u.Elem())
			}
		}
		return SV{r, u.Elem()}
	}
	serr("index of %s", v.t)
	return SV{}
}

func (e *Env) call(n ECall) SV {
	x := e.x
	argc := func(k int) {
		if len(n.args) != k {
			serr("%s expects %d arguments", n.f, k)
		}
	}
	switch n.f {
	case "old":
		argc(1)
		c := *e
		c.st = e.old
		return c.eval(n.args[0])
	case "ref": // the identity of a pointer, as an interface holding it would carry it
		argc(1)
		b := e.eval(n.args[0])
		p, ok := b.v.(PtrV)
		if !ok || p.kind != 0 || p.path != "" {
			serr("ref: not a pointer to an object")
		}
		return SV{p.ref, types.Typ[types.Int]}
	case "addr":
		// addr(x.f): the address of a field reached through a pointer
		argc(1)
		fe, ok := n.args[0].(EField)
		if !ok {
			serr("addr: not a field")
		}
		b := e.eval(fe.e)
		p, ok := b.v.(PtrV)
		if !ok {
			serr("addr: base is not a pointer")
		}
		obj, idx, _ := types.LookupFieldOrMethod(p.typ, true, specPkg(p.typ), fe.f)
		if fv, ok := obj.(*types.Var); !ok || fv == nil {
			serr("addr: no field %s", fe.f)
		}
		for _, i := range idx {
			stt := types.Unalias(p.typ).Underlying().(*types.Struct)
			fl := stt.Field(i)
			p.path += "." + fl.Name()
			p.typ = fl.Type()
		}
		return SV{p, types.NewPointer(p.typ)}
	case "pre":
		argc(1)
		if e.pre == nil {
			serr("pre() outside a loop invariant")
		}
		c := *e
		c.st = e.pre
		if e.preVars != nil {
			m := map[string]SV{}
			for k, v := range e.vars {
				m[k] = v
			}
			for k, v := range e.preVars {
				m[k] = v
			}
			c.vars = m
		}
		return c.eval(n.args[0])
	case "len":
		argc(1)
		v := e.eval(n.args[0])
		switch vv := v.v.(type) {
		case SliceV:
			return SV{vv.len, tInt}
		case *StructV:
			return SV{Num(int64(len(vv.elems))), tInt}
		case *Term:
			switch vv.sort {
			case SStr:
				return SV{x.strLen(vv), tInt}
			case SRaw:
				return SV{x.rawLen(vv), tInt}
			}
			if mt, ok := types.Unalias(v.t).Underlying().(*types.Map); ok {
				return SV{x.mapLen(e.st, vv, mt), tInt}
			}
		}
		serr("len of %s", v.t)
	case "cap":
		return SV{e.eval(n.args[0]).v.(SliceV).cap, tInt}
	case "has":
		argc(2)
		return SV{e.member(e.eval(n.args[1]), e.eval(n.args[0])), tBool}
	case "get": // map lookup with Go's zero default
		argc(2)
		m := e.eval(n.args[0])
		mt := types.Unalias(m.t).Underlying().(*types.Map)
		k := x.key(e.eval(n.args[1]).v, mt)
		return SV{x.mapGet(e.st, m.v.(*Term), mt, k), mt.Elem()}
	case "ite":
		argc(3)
		c := e.bool(n.args[0])
		a, b := e.eval(n.args[1]), e.eval(n.args[2])
		if a.t == nil {
			a = SV{zeroVal(b.t, x), b.t}
		}
		if b.t == nil {
			b = SV{zeroVal(a.t, x), a.t}
		}
		return SV{x.mergeVal(c, a.v, b.v, a.t), a.t}
	case "min", "max":
		a, b := e.int(n.args[0]), e.int(n.args[1])
		if n.f == "min" {
			return SV{Ite(Lt(a, b), a, b), tInt}
		}
		return SV{Ite(Lt(a, b), b, a), tInt}
	case "fresh":
		argc(1)
		v := e.eval(n.args[0])
		var r *Term
		switch vv := v.v.(type) {
		case SliceV:
			r = vv.arr
		case PtrV:
			r = x.ptrTerm(vv)
		case *Term:
			r = vv
		}
		return SV{Le(e.old.A, r), tBool}
	case "seqeq": // elementwise equality of two slices
		argc(2)
		a, b := e.eval(n.args[0]), e.eval(n.args[1])
		sa, sb := a.v.(SliceV), b.v.(SliceV)
		et := types.Unalias(a.t).Underlying().(*types.Slice).Elem()
		k := BVarAt("k", e.depth+1, SInt)
		return SV{And(Eq(sa.len, sb.len), Forall([]*Term{k}, Implies(And(Le(Num(0), k), Lt(k, sa.len)), e.eq(SV{x.elem(e.st, sa, et, k), et}, SV{x.elem(e.st, sb, et, k), et})))), tBool}
	case "same": // leaf-wise identity
		argc(2)
		a, b := e.eval(n.args[0]), e.eval(n.args[1])
		ta, tb_ := encode(a.v, a.t, x), encode(b.v, b.t, x)
		var cs []*Term
		for i := range ta {
			cs = append(cs, Eq(ta[i], tb_[i]))
		}
		return SV{And(cs...), tBool}
	case "is":
		t := x.eng.resolveType(n.types[0])
		v := e.eval(n.args[0]).v.(IfaceV)
		return SV{Eq(v.tag, x.tagOf(t)), tBool}
	case "as":
		t := x.eng.resolveType(n.types[0])
		v := e.eval(n.args[0]).v.(IfaceV)
		if v.dyn != nil && types.Identical(v.dyn, t) {
			return SV{v.val, t}
		}
		return SV{x.unbox(v.data, t), t}
	case "zero":
		t := x.eng.resolveType(n.types[0])
		return SV{zeroVal(t, x), t}
	case "pure": // pure<ResultType>("fn:key", args...)
		t := x.eng.resolveType(n.types[0])
		name := n.args[0].(EStr).s
		var args []Val
		var ts []types.Type
		for _, a := range n.args[1:] {
			v := e.eval(a)
			args = append(args, v.v)
			ts = append(ts, v.t)
		}
		return SV{x.pureAppSpec(e.st, name, args, ts, t), t}
	case "domeq": // two maps (or sets) have the same keys
		argc(2)
		a, b := e.setOf(e.eval(n.args[0])), e.setOf(e.eval(n.args[1]))
		return SV{Eq(a, b), tBool}
	case "dom":
		v := e.eval(n.args[0])
		mt := types.Unalias(v.t).Underlying().(*types.Map)
		return SV{e.setOf(v), &SetT{mt.Key()}}
	case "store": // functional update of a ghost map / set
		argc(3)
		m, k, v := e.eval(n.args[0]), e.eval(n.args[1]), e.eval(n.args[2])
		switch u := m.t.(type) {
		case *GMapT:
			return SV{Store(m.v.(*Term), mkKey(u.k, encode(k.v, u.k, x)), encode(v.v, v.t, x)[0]), m.t}
		case *SetT:
			return SV{Store(m.v.(*Term), mkKey(u.k, encode(k.v, u.k, x)), v.v.(*Term)), m.t}
		}
		serr("store on %s", m.t)
	case "bits": // bits(x, c): all bits of constant c are set in x
		a, c := e.int(n.args[0]), e.int(n.args[1])
		return SV{Eq(x.bitop("bitand", a, c), c), tBool}
	case "bitor":
		return SV{x.bitop("bitor", e.int(n.args[0]), e.int(n.args[1])), tInt}
	case "bitand":
		return SV{x.bitop("bitand", e.int(n.args[0]), e.int(n.args[1])), tInt}
	case "str": // string of raw bytes
		r := e.eval(n.args[0]).v.(*Term)
		return SV{App("raw2str", SStr, r), tString}
	}
	if d, ok := x.eng.specs.defs[n.f]; ok {
		if len(d.params) != len(n.args) {
			serr("%s expects %d arguments", n.f, len(d.params))
		}
		c := *e
		c.vars = make(map[string]SV, len(e.vars)+len(d.params))
		for k, v := range e.vars {
			c.vars[k] = v
		}
		for i, p := range d.params {
			c.vars[p] = e.eval(n.args[i])
		}
		return c.eval(d.body)
	}
	if f, ok := x.eng.specs.fns[n.f]; ok {
		var ts []*Term
		for _, a := range n.args {
			v := e.eval(a)
			ts = append(ts, encode(v.v, v.t, x)...)
		}
		rt := x.eng.resolveType(f.res)
		return SV{x.specFn(n.f, ts, rt), rt}
	}
	serr("unknown function %s", n.f)
	return SV{}
}

func (x *Exec) specFn(name string, ts []*Term, rt types.Type) Val {
	switch rt.(type) {
	case *SetT, *GMapT:
		return App("spec:"+name, ghostSort(rt), ts...)
	}
	ls := leaves(rt)
	out := make([]*Term, len(ls))
	for i, l := range ls {
		out[i] = App("spec:"+name+l.path, l.sort, ts...)
	}
	return decode(out, rt, x)
}

func (x *Exec) pureAppSpec(st *State, name string, args []Val, ts []types.Type, rt types.Type) Val {
	var in []*Term
	for i, a := range args {
		in = append(in, x.pureArg(st, a, ts[i])...)
	}
	ls := leaves(rt)
	out := make([]*Term, len(ls))
	for i, l := range ls {
		if len(in) == 0 {
			out[i] = Sym(sanitize(name+l.path), l.sort)
		} else {
			out[i] = App(name+l.path, l.sort, in...)
		}
	}
	return decode(out, rt, x)
}

func (e *Env) setOf(v SV) *Term {
	if mt, ok := types.Unalias(v.t).Underlying().(*types.Map); ok {
		_, d := e.x.mapDom(e.st, mt)
		return Select(d, v.v.(*Term))
	}
	if _, ok := v.t.(*SetT); ok {
		return v.v.(*Term)
	}
	serr("not a map or set: %s", v.t)
	return nil
}

func specPkg(t types.Type) *types.Package {
	if nm, ok := types.Unalias(t).(*types.Named); ok {
		return nm.Obj().Pkg()
	}
	return nil
}
