package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *Frame, st *State, instr ssa.CallInstruction, c *ssa.CallCommon, pos token.Pos) Val {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		var args []Val
		var ts []types.Type
		for _, a := range c.Args {
			args = append(args, x.val(fr, a))
			ts = append(ts, a.Type())
		}
		return x.builtin(fr, st, b.Name(), args, ts, c, pos)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	return x.callCommon(fr, st, c, x.val(fr, c.Value), args, pos)
}

func (x *Exec) callCommon(fr *Frame, st *State, c *ssa.CallCommon, fv Val, args []Val, pos token.Pos) Val {
	if c.IsInvoke() {
		return x.invoke(fr, st, c, fv.(IfaceV), args, pos)
	}
	f, ok := fv.(FuncV)
	if !ok {
		unsup("call of %T", fv)
	}
	if u, isU := c.Value.(*ssa.UnOp); isU && f.fn == nil {
		// a function held in a struct field may have an assumed contract named after the field
		if fa, isF := u.X.(*ssa.FieldAddr); isF {
			pt := types.Unalias(fa.X.Type()).Underlying().(*types.Pointer).Elem()
			key := typeKey(pt) + "." + pt.Underlying().(*types.Struct).Field(fa.Field).Name()
			if con := x.eng.specs.contracts[key]; con != nil && con.trusted {
				return x.applyContract(fr, st, con, c.Signature(), args, key, pos)
			}
		}
	}
	return x.callFuncV(fr, st, f, args, c.Signature(), pos)
}

func (x *Exec) invoke(fr *Frame, st *State, c *ssa.CallCommon, recv IfaceV, args []Val, pos token.Pos) Val {
	it := c.Value.Type()
	key := typeKey(it) + "." + c.Method.Name()
	if con := x.eng.specs.lookup(key, x.con); con != nil {
		return x.applyContract(fr, st, con, c.Signature(), append([]Val{recv}, args...), key, pos)
	}
	// embedded interface declaring the method
	if con := x.ifaceContract(c.Method); con != nil {
		return x.applyContract(fr, st, con, c.Signature(), append([]Val{recv}, args...), con.key, pos)
	}
	if recv.dyn != nil {
		fn := x.eng.prog.LookupMethod(recv.dyn, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			unsup("no method %s on %s", c.Method.Name(), recv.dyn)
		}
		return x.callFn(fr, st, fn, nil, append([]Val{recv.val}, args...), pos)
	}
	if m := externRule(key); m != "" {
		return x.applyRule(fr, st, m, key, append([]Val{recv}, args...), append([]types.Type{it}, sigTypes(c.Signature())...), c.Signature(), pos)
	}
	if recv.tag.op == "ite" {
		if r, ok := x.dispatchIte(fr, st, c, recv, args, pos); ok {
			return r
		}
	}
	unsup("call of interface method %s on unknown dynamic type", key)
	return nil
}

func (x *Exec) ifaceContract(m *types.Func) *Contract {
	if m.Pkg() == nil {
		return nil
	}
	sig := m.Type().(*types.Signature)
	if sig.Recv() == nil {
		return nil
	}
	return x.eng.specs.lookup(typeKey(sig.Recv().Type())+"."+m.Name(), x.con)
}

func (x *Exec) dispatchIte(fr *Frame, st *State, c *ssa.CallCommon, recv IfaceV, args []Val, pos token.Pos) (Val, bool) {
	return nil, false
}

func sigTypes(s *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < s.Params().Len(); i++ {
		out = append(out, s.Params().At(i).Type())
	}
	return out
}

func (x *Exec) callFuncV(fr *Frame, st *State, f FuncV, args []Val, sig *types.Signature, pos token.Pos) Val {
	if f.fn != nil {
		return x.callFn(fr, st, f.fn, f.binds, args, pos)
	}
	t := f.term
	if t.op == "ite" {
		// enumerate alternatives
		a, b := st.clone(), st.clone()
		a.pc = And(st.pc, t.args[0])
		b.pc = And(st.pc, Not(t.args[0]))
		va := x.callFuncV(fr, a, x.funcOf(t.args[1]), args, sig, pos)
		vb := x.callFuncV(fr, b, x.funcOf(t.args[2]), args, sig, pos)
		return x.joinInto(st, []retState{{a, va, pos}, {b, vb, pos}}, resultType(sig))
	}
	if t == Num(0) {
		x.onPanic(fr, st, pos)
		st.pc = False
		return x.freshVal(st, "dead", resultType(sig))
	}
	// an unknown function value (callback parameter)
	if con := x.callbackContract(t); con != nil {
		return x.applyContract(fr, st, con, sig, args, con.key, pos)
	}
	x.note("unknown function values (callback parameters) are treated as pure functions of their arguments")
	return x.pureApp(st, "callback", append([]Val{t}, args...), append([]types.Type{types.Typ[types.Int]}, sigTypes(sig)...), resultType(sig))
}

// callbackContract finds a contract `callback NAME` for a function-typed parameter.
func (x *Exec) callbackContract(t *Term) *Contract {
	if x.con == nil {
		return nil
	}
	for i, p := range x.params {
		if f, ok := p.(FuncV); ok && f.term == t && i < len(x.con.params) {
			if c := x.con.callbacks[x.con.params[i]]; c != nil {
				return c
			}
		}
	}
	for name, c := range x.con.callbacks {
		if strings.HasPrefix(t.String(), "|H0:") || t.op == "select" {
			if strings.HasSuffix(fmt.Sprint(t.args[0].name), name) {
				return c
			}
		}
	}
	return nil
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// joinInto merges alternative continuations into st (in place), returning the merged value.
func (x *Exec) joinInto(st *State, rs []retState, rt types.Type) Val {
	var live []retState
	for _, r := range rs {
		if r.st.pc != False {
			live = append(live, r)
		}
	}
	if len(live) == 0 {
		st.pc = False
		return x.deadVal(rt)
	}
	sts := make([]*State, len(live))
	for i, r := range live {
		sts[i] = r.st
	}
	m, conds := x.mergeStates(sts)
	var v Val
	for j := len(live) - 1; j >= 0; j-- {
		if v == nil {
			v = live[j].val
		} else {
			v = x.mergeVal(conds[j], live[j].val, v, rt)
		}
	}
	*st = *m
	return v
}

func (x *Exec) deadVal(rt types.Type) Val {
	if rt == nil {
		return nil
	}
	if t, ok := rt.(*types.Tuple); ok && t.Len() == 0 {
		return nil
	}
	return zeroVal(rt, x)
}

func (x *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, binds []Val, args []Val, pos token.Pos) Val {
	key := fnKey(fn)
	if fn.Synthetic == "" || fn.Origin() != nil {
		if con := x.eng.specs.lookup(key, x.con); con != nil && (con.trusted || con.modular) && !(fn == x.root && len(x.stack) == 0) {
			return x.applyContract(fr, st, con, fn.Signature, args, key, pos)
		}
	}
	if !inRepoFn(fn) && fn.Pkg != nil {
		// assumed contracts on dependencies are written with the package's name rather than its path
		short := fn.Pkg.Pkg.Name() + strings.TrimPrefix(key, fn.Pkg.Pkg.Path())
		if con := x.eng.specs.contracts[short]; con != nil && con.trusted {
			return x.applyContract(fr, st, con, fn.Signature, args, short, pos)
		}
	}
	okey := key
	if fn.Origin() != nil {
		okey = fnKey(fn.Origin())
	}
	if m, ok := externModels[okey]; ok {
		x.trusted["model:"+okey] = true
		return m(x, fr, st, fn, args, pos)
	}
	if r := externRule(okey); r != "" {
		ts := sigTypes(fn.Signature)
		if fn.Signature.Recv() != nil {
			ts = append([]types.Type{fn.Signature.Recv().Type()}, ts...)
		}
		return x.applyRule(fr, st, r, okey, args, ts, fn.Signature, pos)
	}
	if len(fn.Blocks) > 0 && (inRepoFn(fn) || fn.Synthetic != "") {
		if fn.Synthetic == "" {
			x.inlined[key] = true
		}
		rs := x.runFunc(fn, args, binds, st.clone(), fr)
		return x.joinInto(st, rs, resultType(fn.Signature))
	}
	unsup("call of external function %s without model", okey)
	return nil
}

func (x *Exec) applyRule(fr *Frame, st *State, rule, key string, args []Val, ts []types.Type, sig *types.Signature, pos token.Pos) Val {
	x.trusted[rule+":"+key] = true
	rt := resultType(sig)
	switch rule {
	case "noop", "fresh":
		if sig.Results().Len() == 0 {
			return nil
		}
		return x.freshVal(st, "ext_"+lastSeg(key), rt)
	case "nonnil":
		v := x.freshVal(st, "ext_"+lastSeg(key), rt)
		switch vv := v.(type) {
		case IfaceV:
			x.assume(st, Lt(Num(0), vv.tag))
		case PtrV:
			x.assume(st, Lt(Num(0), vv.ref))
		}
		return v
	case "pure":
		return x.pureApp(st, "fn:"+key, args, ts, rt)
	}
	panic("rule " + rule)
}

func lastSeg(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// pureApp: an uninterpreted function of the argument values (slices by content).
func (x *Exec) pureApp(st *State, f string, args []Val, ts []types.Type, rt types.Type) Val {
	var in []*Term
	for i, a := range args {
		in = append(in, x.pureArg(st, a, ts[i])...)
	}
	if tup, ok := rt.(*types.Tuple); ok && tup.Len() == 0 {
		return nil
	}
	return x.pureRes(st, f, in, rt)
}

func (x *Exec) pureArg(st *State, a Val, t types.Type) []*Term {
	switch v := a.(type) {
	case SliceV:
		et := types.Unalias(t).Underlying().(*types.Slice).Elem()
		var out []*Term
		for _, l := range leaves(et) {
			_, c := x.sliceComp(st, et, "", l)
			if v.arr == Num(0) {
				out = append(out, ConstArr(SArr(SInt, l.sort), zeroLeaf(l)))
			} else {
				out = append(out, Select(c, v.arr))
			}
		}
		return append(out, v.off, v.len)
	case PtrV:
		if v.kind == 2 {
			return x.pureArg(st, x.load(st, v), v.typ)
		}
		if v.kind == 0 && v.path == "" && opaqueStruct(v.typ) {
			return []*Term{x.load(st, v).(*Term)}
		}
		if v.kind != 0 || v.path != "" {
			return x.pureArg(st, x.load(st, v), v.typ)
		}
		return []*Term{v.ref}
	case FuncV:
		return []*Term{x.funcTerm(v)}
	case IfaceV:
		return []*Term{v.tag, v.data}
	case *StructV:
		var out []*Term
		for i := range v.elems {
			out = append(out, x.pureArg(st, v.elems[i], elemType(t, i))...)
		}
		return out
	}
	return encode(a, t, x)
}

func (x *Exec) pureRes(st *State, f string, in []*Term, rt types.Type) Val {
	switch u := types.Unalias(rt).Underlying().(type) {
	case *types.Tuple:
		s := &StructV{}
		for i := 0; i < u.Len(); i++ {
			s.elems = append(s.elems, x.pureRes(st, fmt.Sprintf("%s#%d", f, i), in, u.At(i).Type()))
		}
		return s
	case *types.Slice:
		if !isByteSlice(rt) {
			n := App(f+"#len", SInt, in...)
			x.axiom(Le(Num(0), n))
			s := x.newSlice(st, u.Elem(), n, n)
			for _, l := range leaves(u.Elem()) {
				key, c := x.sliceComp(st, u.Elem(), "", l)
				if l.kind == lkRef || l.kind == lkArr {
					continue
				}
				x.setComp(st, key, Store(c, s.arr, App(f+"#c"+l.path, SArr(SInt, l.sort), in...)))
			}
			return s
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return x.freshVal(st, f, rt)
	case *types.Struct:
		if !opaqueStruct(rt) {
			s := &StructV{}
			for i := 0; i < u.NumFields(); i++ {
				s.elems = append(s.elems, x.pureRes(st, f+"."+u.Field(i).Name(), in, u.Field(i).Type()))
			}
			return s
		}
	}
	ls := leaves(rt)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		if len(in) == 0 {
			ts[i] = Sym(sanitize(f+l.path), l.sort)
		} else {
			ts[i] = App(f+l.path, l.sort, in...)
		}
		if l.kind == lkTag || isUnsigned(l.typ) && l.sort == SInt {
			x.axiomNV(Le(Num(0), ts[i]))
		}
	}
	return decode(ts, rt, x)
}

func (x *Exec) axiomNV(t *Term) {
	if !t.hasV {
		x.axiom(t)
	}
}

func (x *Exec) builtin(fr *Frame, st *State, name string, args []Val, ts []types.Type, c *ssa.CallCommon, pos token.Pos) Val {
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case SliceV:
			if name == "cap" {
				return v.cap
			}
			return v.len
		case *StructV:
			return Num(int64(len(v.elems)))
		case PtrV:
			at := types.Unalias(v.typ).Underlying().(*types.Array)
			return Num(at.Len())
		case *Term:
			switch v.sort {
			case SStr:
				return x.strLen(v)
			case SRaw:
				return x.rawLen(v)
			}
			if mt, ok := types.Unalias(ts[0]).Underlying().(*types.Map); ok {
				return x.mapLen(st, v, mt)
			}
			if _, ok := types.Unalias(ts[0]).Underlying().(*types.Chan); ok {
				n := Fresh("chanlen", SInt)
				x.axiom(Le(Num(0), n))
				return n
			}
		}
	case "append":
		if isByteSlice(ts[0]) {
			b := args[1].(*Term)
			return App("rawappend:"+string(b.sort), SRaw, args[0].(*Term), b)
		}
		et := types.Unalias(ts[0]).Underlying().(*types.Slice).Elem()
		if len(args) < 2 {
			return args[0]
		}
		return x.appendSlices(st, args[0].(SliceV), args[1].(SliceV), et)
	case "copy":
		if isByteSlice(ts[0]) {
			unsup("copy of bytes")
		}
		et := types.Unalias(ts[0]).Underlying().(*types.Slice).Elem()
		return x.copySlices(st, args[0].(SliceV), args[1].(SliceV), et)
	case "delete":
		mt := types.Unalias(ts[0]).Underlying().(*types.Map)
		m := args[0].(*Term)
		if m == Num(0) {
			return nil
		}
		x.mapDelete(st, m, mt, args[1])
		return nil
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			b := a.(*Term)
			if name == "min" {
				r = Ite(Lt(b, r), b, r)
			} else {
				r = Ite(Lt(r, b), b, r)
			}
		}
		return r
	case "print", "println":
		return nil
	case "close":
		x.note("channel close is not modelled")
		return nil
	case "recover":
		if x.panicking != nil {
			v := *x.panicking
			*x.panicking = x.mkIface(Num(0), Num(0))
			x.recovered = true
			return v
		}
		return x.mkIface(Num(0), Num(0))
	case "ssa:wrapnilchk":
		return args[0]
	}
	unsup("builtin %s", name)
	return nil
}

func (x *Exec) runDefers(fr *Frame, st *State, at *ssa.BasicBlock) {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		if d.block.Dominates(at) {
			x.runDeferred(fr, st, d)
			continue
		}
		a, b := st.clone(), st.clone()
		a.pc = And(st.pc, d.guard)
		b.pc = And(st.pc, Not(d.guard))
		if a.pc != False {
			x.runDeferred(fr, a, d)
		}
		x.joinInto(st, []retState{{a, nil, 0}, {b, nil, 0}}, nil)
	}
}

func (x *Exec) runDeferred(fr *Frame, st *State, d deferred) {
	c := d.instr.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		var ts []types.Type
		for _, a := range c.Args {
			ts = append(ts, a.Type())
		}
		x.builtin(fr, st, b.Name(), d.args, ts, c, d.instr.Pos())
		return
	}
	x.callCommon(fr, st, c, d.fn, d.args, d.instr.Pos())
}

func (x *Exec) goStmt(fr *Frame, st *State, i *ssa.Go) {
	x.note("goroutines started by the function are not followed")
}

// evalPure runs a function value on terms that may contain bound variables, returning its result
// as a term; facts about bound variables are dropped.
func (x *Exec) evalPure(fr *Frame, st *State, f FuncV, args []Val, sig *types.Signature) Val {
	nf, no := len(x.facts), len(x.obls)
	s2 := st.clone()
	s2.pc = True
	x.dry++
	saveW := x.writes
	x.writes = &writeLog{bases: map[string]map[*Term]bool{}, wild: map[string]bool{}}
	safe := x.safe
	x.safe = false
	v := x.callFuncV(fr, s2, f, args, sig, token.NoPos)
	x.safe = safe
	x.evalWrote = len(x.writes.bases) > 0 || len(x.writes.wild) > 0
	x.writes = saveW
	x.dry--
	var keep []*Term
	for _, f := range x.facts[nf:] {
		if !f.hasV {
			keep = append(keep, f)
		}
	}
	x.facts = append(x.facts[:nf:nf], keep...)
	x.obls = x.obls[:no]
	return v
}
