package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.env[i] = x.alloc(fr, st, i)
	case *ssa.Store:
		p := x.val(fr, i.Addr).(PtrV)
		x.nilCheck(st, p, i.Pos())
		x.store(st, p, x.val(fr, i.Val))
	case *ssa.UnOp:
		fr.env[i] = x.unop(fr, st, i)
	case *ssa.BinOp:
		fr.env[i] = x.binop(st, i.Op, x.val(fr, i.X), x.val(fr, i.Y), i.X.Type(), i.Y.Type(), i.Pos())
	case *ssa.FieldAddr:
		p := x.val(fr, i.X).(PtrV)
		x.nilCheck(st, p, i.Pos())
		stt := types.Unalias(i.X.Type().Underlying().(*types.Pointer).Elem()).Underlying().(*types.Struct)
		f := stt.Field(i.Field)
		np := p
		np.path += "." + f.Name()
		np.typ = f.Type()
		if opaqueStruct(stt2(i)) && escapesOnceWritten(i) {
			// the address of a field of a local, once-written value of a foreign type: a fresh
			// object holding the field's value
			v := x.load(st, np)
			np = x.allocObj(st, f.Type())
			x.store(st, np, v)
			x.note("the address of a field of a local %s denotes a copy of the field", typeKey(stt2(i)))
		}
		fr.env[i] = np
	case *ssa.Field:
		v := x.val(fr, i.X)
		stt := types.Unalias(i.X.Type()).Underlying().(*types.Struct)
		switch sv := v.(type) {
		case *StructV:
			fr.env[i] = sv.elems[i.Field]
		case *Term:
			f := stt.Field(i.Field)
			fr.env[i] = x.opaqueField(sv, i.X.Type(), "."+f.Name(), f.Type())
		}
	case *ssa.IndexAddr:
		fr.env[i] = x.indexAddr(fr, st, i)
	case *ssa.Index:
		fr.env[i] = x.index(fr, st, i)
	case *ssa.Lookup:
		fr.env[i] = x.lookup(fr, st, i)
	case *ssa.MapUpdate:
		m := x.val(fr, i.Map).(*Term)
		mt := types.Unalias(i.Map.Type()).Underlying().(*types.Map)
		if x.safe {
			x.oblige(st, "safe", "write to nil map", Not(Eq(m, Num(0))), i.Pos())
		}
		x.assume(st, Not(Eq(m, Num(0))))
		x.mapStore(st, m, mt, x.val(fr, i.Key), x.val(fr, i.Value))
	case *ssa.MakeMap:
		mt := types.Unalias(i.Type()).Underlying().(*types.Map)
		fr.env[i] = x.newMap(st, mt)
	case *ssa.MakeSlice:
		n := x.val(fr, i.Len).(*Term)
		c := x.val(fr, i.Cap).(*Term)
		if isByteSlice(i.Type()) {
			fr.env[i] = App("rawmake", SRaw, n)
			return
		}
		if x.safe {
			x.oblige(st, "safe", "make: non-negative length", And(Le(Num(0), n), Le(n, c)), i.Pos())
		}
		x.assume(st, And(Le(Num(0), n), Le(n, c)))
		et := types.Unalias(i.Type()).Underlying().(*types.Slice).Elem()
		fr.env[i] = x.newSlice(st, et, n, c)
	case *ssa.MakeChan:
		fr.env[i] = x.newRef(st)
	case *ssa.MakeInterface:
		fr.env[i] = x.box(x.val(fr, i.X), i.X.Type())
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range i.Bindings {
			bs = append(bs, x.val(fr, b))
		}
		fr.env[i] = FuncV{fn: i.Fn.(*ssa.Function), binds: bs}
	case *ssa.ChangeType:
		fr.env[i] = x.retype(x.val(fr, i.X), i.X.Type(), i.Type())
	case *ssa.ChangeInterface:
		fr.env[i] = x.val(fr, i.X)
	case *ssa.Convert:
		fr.env[i] = x.convert(st, x.val(fr, i.X), i.X.Type(), i.Type())
	case *ssa.TypeAssert:
		fr.env[i] = x.typeAssert(fr, st, i)
	case *ssa.Extract:
		fr.env[i] = x.val(fr, i.Tuple).(*StructV).elems[i.Index]
	case *ssa.Slice:
		fr.env[i] = x.slice(fr, st, i)
	case *ssa.Call:
		fr.env[i] = x.call(fr, st, i, i.Common(), i.Pos())
	case *ssa.Defer:
		var fnv Val
		c := i.Common()
		if !c.IsInvoke() {
			if _, ok := c.Value.(*ssa.Builtin); !ok {
				fnv = x.val(fr, c.Value)
			}
		} else {
			fnv = x.val(fr, c.Value)
		}
		var args []Val
		for _, a := range c.Args {
			args = append(args, x.val(fr, a))
		}
		fr.defers = append(fr.defers, deferred{st.pc, i.Block(), i, fnv, args})
	case *ssa.RunDefers:
		x.runDefers(fr, st, i.Block())
	case *ssa.Go:
		x.goStmt(fr, st, i)
	case *ssa.Range:
		x.rangeStart(fr, st, i)
	case *ssa.Next:
		fr.env[i] = x.next(fr, st, i)
	case *ssa.Send:
		x.note("channel send is not modelled (no effect on sequential state)")
	case *ssa.Select:
		fr.env[i] = x.selectStmt(fr, st, i)
	default:
		unsup("instruction %T %s in %s", in, in, fr.fn)
	}
}

func (x *Exec) nilCheck(st *State, p PtrV, pos token.Pos) {
	n := x.isNilPtr(p)
	if n == False {
		return
	}
	if p.kind == 0 {
		if _, ok := tb.fresh[p.ref]; ok {
			return
		}
	}
	if x.safe {
		x.oblige(st, "safe", "nil dereference", Not(n), pos)
	}
	x.assume(st, Not(n))
}

func (x *Exec) alloc(fr *Frame, st *State, i *ssa.Alloc) Val {
	t := i.Type().(*types.Pointer).Elem()
	if x.escaped[i] {
		if _, ok := types.Unalias(t).Underlying().(*types.Array); ok {
			unsup("escaping array %s", i)
		}
		return x.allocObj(st, t)
	}
	if i.Heap && !x.cellable(i) {
		if _, ok := types.Unalias(t).Underlying().(*types.Array); !ok {
			return x.allocObj(st, t)
		}
	}
	c := x.newCell(t, i.Comment)
	x.cellOwner[c] = i
	if a, ok := types.Unalias(t).Underlying().(*types.Array); ok && a.Len() > 64 {
		unsup("large array")
	}
	st.cells[c] = zeroVal(t, x)
	return PtrV{kind: 2, cell: c, base: t, typ: t}
}

// cellable: the allocation is only used by direct loads/stores, field addressing, slicing of
// literals and capture by closures (captured variables), so it can be a local cell.
func (x *Exec) cellable(i *ssa.Alloc) bool {
	for _, r := range *i.Referrers() {
		switch u := r.(type) {
		case *ssa.Store:
			if u.Val == ssa.Value(i) {
				return false
			}
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.DebugRef:
		case *ssa.MakeClosure:
		case *ssa.Call, *ssa.Defer:
			// pointer argument; may be inlined. Restart handles real escapes.
		default:
			return false
		}
	}
	return true
}

func (x *Exec) unop(fr *Frame, st *State, i *ssa.UnOp) Val {
	v := x.val(fr, i.X)
	switch i.Op {
	case token.MUL:
		p := v.(PtrV)
		x.nilCheck(st, p, i.Pos())
		return x.load(st, p)
	case token.NOT:
		return Not(v.(*Term))
	case token.SUB:
		if v.(*Term).sort == SInt {
			return Neg(v.(*Term))
		}
		return App("fneg", SU, v.(*Term))
	case token.XOR:
		return App("bitnot", SInt, v.(*Term))
	case token.ARROW:
		return x.recv(fr, st, i)
	}
	unsup("unop %s", i.Op)
	return nil
}

func (x *Exec) recv(fr *Frame, st *State, i *ssa.UnOp) Val {
	x.note("channel receive yields an arbitrary value")
	if len(x.con.shared) > 0 {
		env := &Env{x: x, st: st.clone(), old: x.entry, vars: x.paramEnv}
		var canon []canonReq
		for _, m := range x.con.shared {
			for _, l := range env.locations(m) {
				for _, k := range l.comps {
					canon = append(canon, x.havoc(st, k, l.base))
				}
			}
		}
		x.canon(st, canon)
		x.note("while a channel receive waits, others may change what the contract calls shared")
	}
	v := x.freshVal(st, "recv", i.Type())
	return v
}

func (x *Exec) selectStmt(fr *Frame, st *State, i *ssa.Select) Val {
	x.note("select: every ready order is considered; received values arbitrary")
	t := i.Type().(*types.Tuple)
	v := x.freshVal(st, "select", t).(*StructV)
	lo := int64(0)
	if !i.Blocking {
		lo = -1
	}
	idx := v.elems[0].(*Term)
	x.assume(st, And(Le(Num(lo), idx), Lt(idx, Num(int64(len(i.States))))))
	return v
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, ta, tb_ types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL:
		return x.eqVals(a, b, ta, tb_)
	case token.NEQ:
		return Not(x.eqVals(a, b, ta, tb_))
	}
	l, r := a.(*Term), b.(*Term)
	if l.sort == SInt && r.sort == SInt {
		switch op {
		case token.ADD:
			return Add(l, r)
		case token.SUB:
			return Sub(l, r)
		case token.MUL:
			return Mul(l, r)
		case token.LSS:
			return Lt(l, r)
		case token.LEQ:
			return Le(l, r)
		case token.GTR:
			return Lt(r, l)
		case token.GEQ:
			return Le(r, l)
		case token.QUO:
			if l.op == "num" && r.op == "num" && r.num != 0 {
				return Num(l.num / r.num)
			}
			x.assume(st, Not(Eq(r, Num(0))))
			// truncated division
			d := App("tdiv", SInt, l, r)
			x.axiom(Implies(And(Le(Num(0), l), Lt(Num(0), r)), And(Le(Mul(d, r), l), Lt(l, Add(Mul(d, r), r)), Le(Num(0), d))))
			return d
		case token.REM:
			if l.op == "num" && r.op == "num" && r.num != 0 {
				return Num(l.num % r.num)
			}
			x.assume(st, Not(Eq(r, Num(0))))
			// for l>=0, r>0: euclidean mod
			m := App("tmod", SInt, l, r)
			md := tb.mk("mod", "", 0, SInt, []*Term{l, r})
			x.axiom(Implies(And(Le(Num(0), l), Lt(Num(0), r)), And(Eq(m, md), Le(Num(0), m), Lt(m, r))))
			return m
		case token.OR:
			return x.bitop("bitor", l, r)
		case token.AND:
			return x.bitop("bitand", l, r)
		case token.XOR:
			return x.bitop("bitxor", l, r)
		case token.AND_NOT:
			return x.bitop("bitandnot", l, r)
		case token.SHL:
			if l.op == "num" && r.op == "num" {
				return Num(l.num << uint(r.num))
			}
			return App("shl", SInt, l, r)
		case token.SHR:
			if l.op == "num" && r.op == "num" {
				return Num(l.num >> uint(r.num))
			}
			return App("shr", SInt, l, r)
		}
	}
	if l.sort == SStr {
		switch op {
		case token.ADD:
			return x.concat(l, r)
		case token.LSS:
			return x.strLt(l, r)
		case token.GTR:
			return x.strLt(r, l)
		case token.LEQ:
			return Not(x.strLt(r, l))
		case token.GEQ:
			return Not(x.strLt(l, r))
		}
	}
	if l.sort == SBool {
		switch op {
		case token.AND:
			return And(l, r)
		case token.OR:
			return Or(l, r)
		}
	}
	if l.sort == SU {
		switch op {
		case token.LSS:
			return App("flt", SBool, l, r)
		case token.GTR:
			return App("flt", SBool, r, l)
		case token.LEQ:
			return Not(App("flt", SBool, r, l))
		case token.GEQ:
			return Not(App("flt", SBool, l, r))
		}
		return App("f"+op.String(), SU, l, r)
	}
	unsup("binop %s on %s", op, l.sort)
	return nil
}

// bitop models bitwise operators through per-bit facts on the low 8 bits (exact on constants).
func (x *Exec) bitop(f string, l, r *Term) *Term {
	if l.op == "num" && r.op == "num" {
		switch f {
		case "bitor":
			return Num(l.num | r.num)
		case "bitand":
			return Num(l.num & r.num)
		case "bitxor":
			return Num(l.num ^ r.num)
		case "bitandnot":
			return Num(l.num &^ r.num)
		}
	}
	t := App(f, SInt, l, r)
	bit := func(v *Term, k int) *Term {
		if v.op == "num" {
			return BoolT(v.num>>uint(k)&1 == 1)
		}
		return App("bit", SBool, v, Num(int64(k)))
	}
	for k := 0; k < 8; k++ {
		bl, br, bt := bit(l, k), bit(r, k), bit(t, k)
		switch f {
		case "bitor":
			x.axiom(Eq(bt, Or(bl, br)))
		case "bitand":
			x.axiom(Eq(bt, And(bl, br)))
		case "bitxor":
			x.axiom(Eq(bt, Not(Eq(bl, br))))
		case "bitandnot":
			x.axiom(Eq(bt, And(bl, Not(br))))
		}
	}
	// relate the value to its bits when it fits in 8 bits
	for _, v := range []*Term{l, r, t} {
		if v.op == "num" {
			continue
		}
		sum := Num(0)
		for k := 0; k < 8; k++ {
			sum = Add(sum, Ite(bit(v, k), Num(1<<uint(k)), Num(0)))
		}
		x.axiom(Implies(And(Le(Num(0), v), Lt(v, Num(256))), Eq(v, sum)))
	}
	small := func(v *Term) *Term { return And(Le(Num(0), v), Lt(v, Num(256))) }
	x.axiom(Implies(And(small(l), small(r)), small(t)))
	if f == "bitand" {
		x.axiom(Implies(Or(small(l), small(r)), small(t)))
	}
	return t
}

func (x *Exec) concat(l, r *Term) *Term {
	if l == StrConst("") {
		return r
	}
	if r == StrConst("") {
		return l
	}
	for s1, t1 := range tb.strs {
		if t1 == l {
			for s2, t2 := range tb.strs {
				if t2 == r {
					return StrConst(s1 + s2)
				}
			}
		}
	}
	return App("concat", SStr, l, r)
}

func (x *Exec) strLt(l, r *Term) *Term {
	if l == r {
		return False
	}
	if !x.axDone["strlt"] {
		x.axDone["strlt"] = true
		a, b, c := BVar("a", SStr), BVar("b", SStr), BVar("c", SStr)
		lt := func(p, q *Term) *Term { return App("strlt", SBool, p, q) }
		x.base = append(x.base,
			Forall([]*Term{a}, Not(lt(a, a)), []*Term{lt(a, a)}),
			Forall([]*Term{a, b}, Or(lt(a, b), lt(b, a), Eq(a, b)), []*Term{lt(a, b)}),
			Forall([]*Term{a, b, c}, Implies(And(lt(a, b), lt(b, c)), lt(a, c)), []*Term{lt(a, b), lt(b, c)}),
		)
	}
	return App("strlt", SBool, l, r)
}

func (x *Exec) strLen(s *Term) *Term {
	for v, t := range tb.strs {
		if t == s {
			return Num(int64(len(v)))
		}
	}
	if s.op == "ite" {
		return Ite(s.args[0], x.strLen(s.args[1]), x.strLen(s.args[2]))
	}
	n := App("strlen", SInt, s)
	if !s.hasV {
		x.axiom(And(Le(Num(0), n), Eq(Eq(n, Num(0)), Eq(s, StrConst("")))))
	}
	return n
}
func (x *Exec) rawLen(s *Term) *Term {
	n := App("rawlen", SInt, s)
	if !s.hasV {
		x.axiom(And(Le(Num(0), n), Implies(Eq(s, Sym("raw_nil", SRaw)), Eq(n, Num(0)))))
	}
	return n
}

func (x *Exec) eqVals(a, b Val, ta, tb_ types.Type) *Term {
	// interface vs concrete
	ia, aI := a.(IfaceV)
	ib, bI := b.(IfaceV)
	if aI && !bI {
		return x.valEq(ia, x.box(b, tb_), ta)
	}
	if bI && !aI {
		return x.valEq(x.box(a, ta), ib, ta)
	}
	if fa, ok := a.(FuncV); ok {
		fb := b.(FuncV)
		// comparison with nil
		if fb.term == Num(0) && fa.fn != nil {
			return False
		}
		if fa.term == Num(0) && fb.fn != nil {
			return False
		}
		return Eq(x.funcTerm(fa), x.funcTerm(fb))
	}
	if sa, ok := a.(*StructV); ok {
		sb := b.(*StructV)
		var cs []*Term
		for i := range sa.elems {
			et := elemType(ta, i)
			cs = append(cs, x.eqVals(sa.elems[i], sb.elems[i], et, et))
		}
		return And(cs...)
	}
	return x.valEq(a, b, ta)
}

func (x *Exec) retype(v Val, from, to types.Type) Val {
	if p, ok := v.(PtrV); ok {
		if _, ok := types.Unalias(to).Underlying().(*types.Pointer); ok && p.kind == 0 {
			return p
		}
	}
	return v
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	lf, lt := leaves(from), leaves(to)
	if len(lf) == 1 && len(lt) == 1 {
		t := v.(*Term)
		if lf[0].sort == lt[0].sort {
			return t
		}
		switch {
		case lf[0].sort == SRaw && lt[0].sort == SStr:
			if t.op == "app" && t.name == "str2raw" {
				return t.args[0]
			}
			r := App("raw2str", SStr, t)
			x.axiom(Eq(x.strLen(r), x.rawLen(t)))
			return r
		case lf[0].sort == SStr && lt[0].sort == SRaw:
			r := App("str2raw", SRaw, t)
			x.axiom(Eq(App("raw2str", SStr, r), t))
			x.axiom(Eq(x.strLen(t), x.rawLen(r)))
			return r
		case lf[0].sort == SInt && lt[0].sort == SStr:
			return App("int2str", SStr, t)
		case lf[0].sort == SInt && lt[0].sort == SU:
			return App("int2f", SU, t)
		case lf[0].sort == SU && lt[0].sort == SInt:
			return App("f2int", SInt, t)
		}
	}
	unsup("convert %s to %s", from, to)
	return nil
}

func (x *Exec) typeAssert(fr *Frame, st *State, i *ssa.TypeAssert) Val {
	v := x.val(fr, i.X).(IfaceV)
	var ok *Term
	var res Val
	if _, isI := types.Unalias(i.AssertedType).Underlying().(*types.Interface); isI {
		if v.dyn != nil {
			ok = BoolT(types.Implements(v.dyn, i.AssertedType.Underlying().(*types.Interface)))
		} else {
			ok = And(Not(Eq(v.tag, Num(0))), x.implTerm(i.AssertedType, v.tag))
		}
		res = v
	} else {
		ok = Eq(v.tag, x.tagOf(i.AssertedType))
		if v.dyn != nil && types.Identical(v.dyn, i.AssertedType) {
			res = v.val
		} else {
			res = x.unbox(v.data, i.AssertedType)
			if p, isP := res.(PtrV); isP && !p.ref.hasV {
				x.assume(st, Implies(ok, And(Le(Num(0), p.ref), Lt(p.ref, st.A))))
			}
		}
	}
	if !i.CommaOk {
		if x.safe {
			x.oblige(st, "safe", "type assertion", ok, i.Pos())
		}
		x.assume(st, ok)
		return res
	}
	z := zeroVal(i.AssertedType, x)
	return &StructV{elems: []Val{x.mergeVal(ok, res, z, i.AssertedType), ok}}
}

// ---- slices and arrays ----

func (x *Exec) newSlice(st *State, et types.Type, n, c *Term) SliceV {
	r := x.newRef(st)
	for _, l := range leaves(et) {
		key, cc := x.sliceComp(st, et, "", l)
		x.setComp(st, key, Store(cc, r, ConstArr(SArr(SInt, l.sort), zeroLeaf(l))))
		x.logWrite(key, r)
	}
	return SliceV{r, Num(0), n, c}
}

func (x *Exec) boundsCheck(st *State, idx, n *Term, pos token.Pos) {
	c := And(Le(Num(0), idx), Lt(idx, n))
	if c == True {
		return
	}
	if x.safe {
		x.oblige(st, "safe", "index in range", c, pos)
	}
	x.assume(st, c)
}

func (x *Exec) indexAddr(fr *Frame, st *State, i *ssa.IndexAddr) Val {
	v := x.val(fr, i.X)
	idx := x.val(fr, i.Index).(*Term)
	switch vv := v.(type) {
	case SliceV:
		x.boundsCheck(st, idx, vv.len, i.Pos())
		et := types.Unalias(i.X.Type()).Underlying().(*types.Slice).Elem()
		return PtrV{kind: 1, arr: vv.arr, idx: Add(vv.off, idx), base: et, typ: et}
	case PtrV: // pointer to array
		at := types.Unalias(i.X.Type().Underlying().(*types.Pointer).Elem()).Underlying().(*types.Array)
		x.boundsCheck(st, idx, Num(at.Len()), i.Pos())
		if idx.op != "num" {
			return x.dynArrayPtr(fr, st, vv, at, idx)
		}
		np := vv
		np.path += "." + itoa(idx.num)
		np.typ = at.Elem()
		return np
	case *Term: // bytes
		unsup("address of byte slice element")
	}
	unsup("indexAddr %T", v)
	return nil
}

// dynArrayPtr: dynamic index into an array: only loads are supported, via a temporary cell.
func (x *Exec) dynArrayPtr(fr *Frame, st *State, p PtrV, at *types.Array, idx *Term) Val {
	var v Val
	for k := at.Len() - 1; k >= 0; k-- {
		np := p
		np.path += "." + itoa(k)
		np.typ = at.Elem()
		e := x.load(st, np)
		if v == nil {
			v = e
		} else {
			v = x.mergeVal(Eq(idx, Num(k)), e, v, at.Elem())
		}
	}
	x.note("dynamic array index: address is read-only")
	c := x.newCell(at.Elem(), "dynidx")
	st.cells[c] = v
	return PtrV{kind: 2, cell: c, base: at.Elem(), typ: at.Elem()}
}

func itoa(n int64) string {
	return Num(n).String()
}

func (x *Exec) index(fr *Frame, st *State, i *ssa.Index) Val {
	v := x.val(fr, i.X)
	idx := x.val(fr, i.Index).(*Term)
	switch vv := v.(type) {
	case *StructV:
		if idx.op == "num" {
			return vv.elems[idx.num]
		}
		et := types.Unalias(i.X.Type()).Underlying().(*types.Array).Elem()
		x.boundsCheck(st, idx, Num(int64(len(vv.elems))), i.Pos())
		var r Val
		for k := len(vv.elems) - 1; k >= 0; k-- {
			if r == nil {
				r = vv.elems[k]
			} else {
				r = x.mergeVal(Eq(idx, Num(int64(k))), vv.elems[k], r, et)
			}
		}
		return r
	case *Term:
		if vv.sort == SStr {
			return App("strat", SInt, vv, idx)
		}
		return App("rawat", SInt, vv, idx)
	}
	unsup("index %T", v)
	return nil
}

func (x *Exec) slice(fr *Frame, st *State, i *ssa.Slice) Val {
	v := x.val(fr, i.X)
	opt := func(e ssa.Value) *Term {
		if e == nil {
			return nil
		}
		return x.val(fr, e).(*Term)
	}
	lo, hi, mx := opt(i.Low), opt(i.High), opt(i.Max)
	switch vv := v.(type) {
	case SliceV:
		if lo == nil {
			lo = Num(0)
		}
		if hi == nil {
			hi = vv.len
		}
		c := vv.cap
		if mx != nil {
			c = mx
		}
		cond := And(Le(Num(0), lo), Le(lo, hi), Le(hi, vv.cap))
		if x.safe {
			x.oblige(st, "safe", "slice bounds", cond, i.Pos())
		}
		x.assume(st, cond)
		return SliceV{vv.arr, Add(vv.off, lo), Sub(hi, lo), Sub(c, lo)}
	case PtrV:
		at := types.Unalias(i.X.Type().Underlying().(*types.Pointer).Elem()).Underlying().(*types.Array)
		if isByteSlice(i.Type()) {
			var args []*Term
			for k := int64(0); k < at.Len() && k < 64; k++ {
				np := vv
				np.path += "." + itoa(k)
				np.typ = at.Elem()
				args = append(args, x.load(st, np).(*Term))
			}
			return App("rawlit"+itoa(at.Len()), SRaw, args...)
		}
		if vv.kind == 2 && x.cellOwner[vv.cell] != nil {
			al, _ := x.cellOwner[vv.cell].(*ssa.Alloc)
			if al != nil && al.Comment != "varargs" && al.Comment != "slicelit" && al.Comment != "makeslice" {
				x.note("slice of a named array: snapshot semantics")
			}
		}
		n := Num(at.Len())
		if lo != nil || mx != nil {
			unsup("partial slice of array")
		}
		ln := n
		if hi != nil {
			ln = hi
		}
		s := x.newSlice(st, at.Elem(), ln, n)
		if at.Len() <= 64 {
			for k := int64(0); k < at.Len(); k++ {
				np := vv
				np.path += "." + itoa(k)
				np.typ = at.Elem()
				x.store(st, PtrV{kind: 1, arr: s.arr, idx: Num(k), base: at.Elem(), typ: at.Elem()}, x.load(st, np))
			}
		}
		return s
	case *Term:
		f := "substr"
		if vv.sort == SRaw {
			f = "subraw"
		}
		if lo == nil {
			lo = Num(0)
		}
		if hi == nil {
			if vv.sort == SRaw {
				hi = x.rawLen(vv)
			} else {
				hi = x.strLen(vv)
			}
		}
		return App(f, vv.sort, vv, lo, hi)
	}
	unsup("slice of %T", v)
	return nil
}

// elem reads element k of a slice value.
func (x *Exec) elem(st *State, s SliceV, et types.Type, k *Term) Val {
	return x.load(st, PtrV{kind: 1, arr: s.arr, idx: Add(s.off, k), base: et, typ: et})
}

// appendSlices models append(s, t...) as a copy into a fresh array.
func (x *Exec) appendSlices(st *State, s, t SliceV, et types.Type) SliceV {
	x.note("append always copies (no aliasing through spare capacity is modelled)")
	if t.len == Num(0) {
		return s
	}
	r := x.newRef(st)
	n := Add(s.len, t.len)
	res := SliceV{r, s.off, n, n}
	if s.len == Num(0) {
		res.off = Num(0)
		res.len, res.cap = t.len, t.len
	}
	for _, l := range leaves(et) {
		key, c := x.sliceComp(st, et, "", l)
		var cont *Term
		old := Select(c, s.arr)
		add := Select(c, t.arr)
		if s.len == Num(0) {
			old = ConstArr(SArr(SInt, l.sort), zeroLeaf(l))
		}
		if t.len.op == "num" && t.len.num <= 8 {
			cont = old
			for j := int64(0); j < t.len.num; j++ {
				cont = Store(cont, Add(Add(res.off, s.len), Num(j)), Select(add, Add(t.off, Num(j))))
			}
		} else if s.len == Num(0) && t.off == Num(0) {
			cont = add // copy
		} else {
			cont = Fresh("app:"+key, SArr(SInt, l.sort))
			j := BVar("j", SInt)
			sel := Select(cont, j)
			x.axiom(Forall([]*Term{j}, Implies(And(Le(res.off, j), Lt(j, Add(res.off, s.len))), Eq(sel, Select(old, j))), []*Term{sel}))
			start := Add(res.off, s.len)
			x.axiom(Forall([]*Term{j}, Implies(And(Le(start, j), Lt(j, Add(start, t.len))), Eq(sel, Select(add, Add(t.off, Sub(j, start))))), []*Term{sel}))
			// forward triggers: from the source elements to the result
			k := BVar("k", SInt)
			src := Select(add, k)
			if src.op == "select" {
				x.axiom(Forall([]*Term{k}, Implies(And(Le(t.off, k), Lt(k, Add(t.off, t.len))), Eq(src, Select(cont, Add(start, Sub(k, t.off))))), []*Term{src}))
			}
			osel := Select(old, k)
			if old.op != "constarr" {
				x.axiom(Forall([]*Term{k}, Implies(And(Le(res.off, k), Lt(k, start)), Eq(osel, Select(cont, k))), []*Term{osel}))
			}
		}
		x.setComp(st, key, Store(c, r, cont))
		x.logWrite(key, r)
	}
	// append(nil, empty...) stays nil
	if t.len.op != "num" {
		empty := Eq(t.len, Num(0))
		return SliceV{Ite(empty, s.arr, res.arr), Ite(empty, s.off, res.off), res.len, Ite(empty, s.cap, res.cap)}
	}
	return res
}

func (x *Exec) copySlices(st *State, d, s SliceV, et types.Type) *Term {
	n := Ite(Lt(d.len, s.len), d.len, s.len)
	for _, l := range leaves(et) {
		key, c := x.sliceComp(st, et, "", l)
		old, src := Select(c, d.arr), Select(c, s.arr)
		cont := Fresh("copy:"+key, SArr(SInt, l.sort))
		j := BVar("j", SInt)
		sel := Select(cont, j)
		x.axiom(Forall([]*Term{j}, Eq(sel, Ite(And(Le(d.off, j), Lt(j, Add(d.off, n))), Select(src, Add(s.off, Sub(j, d.off))), Select(old, j))), []*Term{sel}))
		x.setComp(st, key, Store(c, d.arr, cont))
		x.logWrite(key, d.arr)
	}
	return n
}

// ---- maps ----

func (x *Exec) newMap(st *State, mt *types.Map) *Term {
	r := x.newRef(st)
	ks := keySort(mt.Key())
	k, d := x.mapDom(st, mt)
	x.setComp(st, k, Store(d, r, ConstArr(SArr(ks, SBool), False)))
	x.logWrite(k, r)
	k, c := x.mapCard(st, mt)
	x.setComp(st, k, Store(c, r, Num(0)))
	x.logWrite(k, r)
	for _, l := range leaves(mt.Elem()) {
		k, v := x.mapVal(st, mt, l)
		x.setComp(st, k, Store(v, r, ConstArr(SArr(ks, l.sort), zeroLeaf(l))))
		x.logWrite(k, r)
	}
	return r
}

func (x *Exec) key(v Val, mt *types.Map) *Term { return mkKey(mt.Key(), encode(v, mt.Key(), x)) }

func (x *Exec) mapHas(st *State, m *Term, mt *types.Map, k *Term) *Term {
	_, d := x.mapDom(st, mt)
	if m == Num(0) {
		return False
	}
	return Select(Select(d, m), k)
}

func (x *Exec) mapGet(st *State, m *Term, mt *types.Map, k *Term) Val {
	ls := leaves(mt.Elem())
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		_, v := x.mapVal(st, mt, l)
		ts[i] = x.loaded(st, l, Select(Select(v, m), k))
	}
	v := decode(ts, mt.Elem(), x)
	x.factsForVal(st, v, mt.Elem())
	return v
}

func (x *Exec) mapStore(st *State, m *Term, mt *types.Map, kv, vv Val) {
	k := x.key(kv, mt)
	dk, d := x.mapDom(st, mt)
	ck, c := x.mapCard(st, mt)
	had := Select(Select(d, m), k)
	x.setComp(st, ck, Store(c, m, Ite(had, Select(c, m), Add(Select(c, m), Num(1)))))
	x.logWrite(ck, m)
	x.setComp(st, dk, Store(d, m, Store(Select(d, m), k, True)))
	x.logWrite(dk, m)
	ts := encode(vv, mt.Elem(), x)
	for i, l := range leaves(mt.Elem()) {
		vk, v := x.mapVal(st, mt, l)
		x.setComp(st, vk, Store(v, m, Store(Select(v, m), k, ts[i])))
		x.logWrite(vk, m)
	}
}

func (x *Exec) mapDelete(st *State, m *Term, mt *types.Map, kv Val) {
	k := x.key(kv, mt)
	dk, d := x.mapDom(st, mt)
	ck, c := x.mapCard(st, mt)
	had := Select(Select(d, m), k)
	x.assume(st, Implies(had, Lt(Num(0), Select(c, m))))
	x.setComp(st, ck, Store(c, m, Ite(had, Sub(Select(c, m), Num(1)), Select(c, m))))
	x.logWrite(ck, m)
	x.setComp(st, dk, Store(d, m, Store(Select(d, m), k, False)))
	x.logWrite(dk, m)
	for _, l := range leaves(mt.Elem()) {
		vk, v := x.mapVal(st, mt, l)
		x.setComp(st, vk, Store(v, m, Store(Select(v, m), k, zeroLeaf(l))))
		x.logWrite(vk, m)
	}
}

func (x *Exec) mapLen(st *State, m *Term, mt *types.Map) *Term {
	_, c := x.mapCard(st, mt)
	_, d := x.mapDom(st, mt)
	n := Select(c, m)
	if n.op == "num" || n.hasV {
		return n
	}
	k := BVar("k", keySort(mt.Key()))
	dm := Select(d, m)
	sel := Select(dm, k)
	x.assume(st, Le(Num(0), n))
	if sel.op == "select" {
		x.assume(st, Forall([]*Term{k}, Implies(sel, Lt(Num(0), n)), []*Term{sel}))
	} else {
		x.assume(st, Forall([]*Term{k}, Implies(sel, Lt(Num(0), n))))
	}
	x.assume(st, Implies(Lt(Num(0), n), Exists([]*Term{k}, sel)))
	return n
}

func (x *Exec) lookup(fr *Frame, st *State, i *ssa.Lookup) Val {
	v := x.val(fr, i.X)
	if mt, ok := types.Unalias(i.X.Type()).Underlying().(*types.Map); ok {
		m := v.(*Term)
		k := x.key(x.val(fr, i.Index), mt)
		has := x.mapHas(st, m, mt, k)
		r := x.mapGet(st, m, mt, k) // the zero value if absent
		if i.CommaOk {
			return &StructV{elems: []Val{r, has}}
		}
		return r
	}
	return App("strat", SInt, v.(*Term), x.val(fr, i.Index).(*Term))
}

func (x *Exec) rangeStart(fr *Frame, st *State, i *ssa.Range) {
	if mt, ok := types.Unalias(i.X.Type()).Underlying().(*types.Map); ok {
		m := x.val(fr, i.X).(*Term)
		c := x.newCell(nil, "visited")
		st.cells[c] = ConstArr(SArr(keySort(mt.Key()), SBool), False)
		_, d := x.mapDom(st, mt)
		n := x.newCell(nil, "visited-count")
		st.cells[n] = Num(0)
		fr.env[i] = IterV{m: m, mt: mt, vis: c, cnt: n, dom0: Select(d, m)}
		return
	}
	unsup("range over string")
}

func (x *Exec) next(fr *Frame, st *State, i *ssa.Next) Val {
	it := x.val(fr, i.Iter).(IterV)
	ok := Fresh("next_ok", SBool)
	k := Fresh("next_k", keySort(it.mt.Key()))
	vis := st.cells[it.vis].(*Term)
	_, d := x.mapDom(st, it.mt)
	dom := Select(d, it.m)
	kv := decode(unKey(it.mt.Key(), k), it.mt.Key(), x)
	if len(leaves(it.mt.Key())) == 1 {
		if l := leaves(it.mt.Key())[0]; l.kind == lkRef {
			x.axiom(And(Le(Num(0), k), Lt(k, st.A)))
			tb.exist[k] = x.clock
		}
	}
	x.assume(st, Implies(ok, And(Select(dom, k), Not(Select(vis, k)))))
	q := BVar("k", keySort(it.mt.Key()))
	x.assume(st, Implies(Not(ok), Forall([]*Term{q}, Implies(And(Select(dom, q), Select(it.dom0, q)), Select(vis, q)))))
	st.cells[it.vis] = Ite(ok, Store(vis, k, True), vis)
	// the iteration count, while the map keeps its keys
	cnt := st.cells[it.cnt].(*Term)
	_, cd := x.mapCard(st, it.mt)
	card := Select(cd, it.m)
	same := Eq(dom, it.dom0)
	x.assume(st, Implies(same, And(Implies(ok, Lt(cnt, card)), Implies(Not(ok), Eq(cnt, card)))))
	st.cells[it.cnt] = Ite(ok, Add(cnt, Num(1)), cnt)
	vv := x.mapGet(st, it.m, it.mt, k)
	return &StructV{elems: []Val{ok, kv, vv}}
}

func stt2(i *ssa.FieldAddr) types.Type {
	return types.Unalias(i.X.Type()).Underlying().(*types.Pointer).Elem()
}

// escapesOnceWritten: i is the address of a field of a local that is assigned once as a whole and
// whose fields are never assigned, and the address is used for something other than reading.
func escapesOnceWritten(i *ssa.FieldAddr) bool {
	a, ok := i.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	stores := 0
	for _, r := range *a.Referrers() {
		switch u := r.(type) {
		case *ssa.Store:
			if u.Addr != a {
				return false
			}
			stores++
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, q := range *u.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == u {
					return false
				}
			}
		default:
			return false
		}
	}
	if stores > 1 {
		return false
	}
	for _, q := range *i.Referrers() {
		switch q.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}
