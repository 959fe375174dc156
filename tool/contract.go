package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) constOf(v constant.Value, t types.Type) Val {
	return x.constVal(ssa.NewConst(v, types.Default(t)))
}

// location: a set of heap components with a base (nil base = everything)
type location struct {
	comps []string
	base  *Term
}

func (e *Env) locations(ex Expr) []location {
	x := e.x
	switch n := ex.(type) {
	case EId:
		if g, ok := x.eng.specs.ghosts[n.name]; ok {
			t := x.eng.resolveType(g)
			x.ghostTerm(e.st, n.name, t)
			return []location{{[]string{"ghost:" + n.name}, nil}}
		}
	case EUn:
		if n.op == "*" {
			v := e.eval(n.e)
			return x.ptrLocs(e.st, v.v.(PtrV))
		}
	case EField:
		v := e.eval(n.e)
		p, ok := v.v.(PtrV)
		if !ok {
			// maybe package global
			serr("modifies: not a pointer field: %v", ex)
		}
		t := types.Unalias(v.t)
		var pkg *types.Package
		if nm, ok := types.Unalias(p.typ).(*types.Named); ok {
			pkg = nm.Obj().Pkg()
		}
		_, idx, _ := types.LookupFieldOrMethod(t, true, pkg, n.f)
		if idx == nil {
			serr("modifies: no field %s", n.f)
		}
		cur := p
		for _, i := range idx {
			stt := types.Unalias(cur.typ).Underlying().(*types.Struct)
			fl := stt.Field(i)
			cur.path += "." + fl.Name()
			cur.typ = fl.Type()
			if _, isP := types.Unalias(fl.Type()).Underlying().(*types.Pointer); isP && i != idx[len(idx)-1] {
				cur = x.load(e.st, cur).(PtrV)
			}
		}
		return x.ptrLocs(e.st, cur)
	case ECall:
		switch n.f {
		case "elems":
			v := e.eval(n.args[0])
			et := types.Unalias(v.t).Underlying().(*types.Slice).Elem()
			l := location{base: v.v.(SliceV).arr}
			for _, lf := range leaves(et) {
				k, _ := x.sliceComp(e.st, et, "", lf)
				l.comps = append(l.comps, k)
			}
			return []location{l}
		case "entries":
			v := e.eval(n.args[0])
			mt := types.Unalias(v.t).Underlying().(*types.Map)
			return []location{{x.mapComps(e.st, mt), v.v.(*Term)}}
		case "all": // all<T>() every object of type T; all<map..>, all<[]T>
			t := x.eng.resolveType(n.types[0])
			var l location
			switch u := types.Unalias(t).Underlying().(type) {
			case *types.Map:
				l.comps = x.mapComps(e.st, u)
			case *types.Slice:
				for _, lf := range leaves(u.Elem()) {
					k, _ := x.sliceComp(e.st, u.Elem(), "", lf)
					l.comps = append(l.comps, k)
				}
			default:
				for _, lf := range leaves(t) {
					k, _ := x.objComp(e.st, t, "", lf)
					l.comps = append(l.comps, k)
				}
			}
			return []location{l}
		case "syncmap":
			serr("syncmap locations unsupported")
		}
	}
	serr("bad modifies location %v", ex)
	return nil
}

func (x *Exec) mapComps(st *State, mt *types.Map) []string {
	var out []string
	k, _ := x.mapDom(st, mt)
	out = append(out, k)
	k, _ = x.mapCard(st, mt)
	out = append(out, k)
	for _, l := range leaves(mt.Elem()) {
		k, _ = x.mapVal(st, mt, l)
		out = append(out, k)
	}
	return out
}

func (x *Exec) ptrLocs(st *State, p PtrV) []location {
	var l location
	switch p.kind {
	case 0:
		l.base = p.ref
		for _, lf := range leaves(p.typ) {
			k, _ := x.objComp(st, p.base, p.path, lf)
			l.comps = append(l.comps, k)
		}
	case 1:
		l.base = p.arr
		for _, lf := range leaves(p.typ) {
			k, _ := x.sliceComp(st, p.base, p.path, lf)
			l.comps = append(l.comps, k)
		}
	default:
		serr("modifies: pointer to local")
	}
	return []location{l}
}

// applyContract replaces a call by the callee's contract.
func (x *Exec) applyContract(fr *Frame, st *State, con *Contract, sig *types.Signature, args []Val, key string, pos token.Pos) Val {
	if con.trusted {
		x.trusted["contract:"+con.key] = true
	} else {
		x.usedContracts[con.key] = true
	}
	ats := x.argTypes(sig, args)
	args = x.knownCallbacks(fr, st, con, args, ats)
	env := &Env{x: x, st: st.clone(), old: st.clone(), vars: map[string]SV{}}
	if len(con.params) > len(args) {
		serr("contract %s: %d parameters, call has %d", con.key, len(con.params), len(args))
	}
	for i, p := range con.params {
		env.vars[p] = SV{args[i], ats[i]}
	}
	for _, r := range con.requires {
		g := env.bool(r.e)
		x.oblige(st, "requires", fmt.Sprintf("precondition of %s: %s", con.key, clauseName(r)), g, pos)
		x.assume(st, g)
	}
	pre := st.clone()
	// havoc
	var canon []canonReq
	for _, m := range con.modifies {
		for _, l := range env.locations(m) {
			for _, k := range l.comps {
				canon = append(canon, x.havoc(st, k, l.base))
			}
		}
	}
	x.canon(st, canon)
	if con.opts["pure"] == "" {
		x.bumpA(st, "call")
	}
	rt := resultType(sig)
	var res Val
	if sig.Results().Len() > 0 {
		// objects reachable from results may be new
		for i := 0; i < sig.Results().Len() && con.opts["pure"] == ""; i++ {
			x.havocAbove(st, pre, sig.Results().At(i).Type(), map[string]bool{}, 0)
		}
		res = x.freshVal(st, "res_"+lastSeg(con.key), rt)
	}
	post := &Env{x: x, st: st, old: pre, vars: map[string]SV{}}
	for k, v := range env.vars {
		post.vars[k] = v
	}
	x.bindResults(post, con, sig, res)
	for _, c := range con.ensures {
		if c.local {
			continue
		}
		x.assume(st, post.bool(c.e))
	}
	return res
}

// knownCallbacks ties a known function passed to a contract that treats it as a pure callback to
// what the function computes: for all arguments, callback(f, args) is the value of f's body in the
// state of the call. Only for functions without effects passed to callees without effects.
func (x *Exec) knownCallbacks(fr *Frame, st *State, con *Contract, args []Val, ats []types.Type) []Val {
	out := append([]Val{}, args...)
	for i, a := range args {
		f, ok := a.(FuncV)
		if !ok || f.fn == nil || len(con.modifies) > 0 {
			continue
		}
		sig, ok := types.Unalias(ats[i]).Underlying().(*types.Signature)
		if !ok || sig.Results().Len() != 1 {
			continue
		}
		var bv []*Term
		var vs []Val
		good := true
		for j := 0; j < sig.Params().Len(); j++ {
			ls := leaves(sig.Params().At(j).Type())
			if _, basic := sig.Params().At(j).Type().Underlying().(*types.Basic); !basic || len(ls) != 1 {
				good = false
				break
			}
			b := BVar(fmt.Sprintf("cb%d", j), ls[0].sort)
			bv = append(bv, b)
			vs = append(vs, b)
		}
		if !good || len(bv) == 0 {
			continue
		}
		nf := FuncV{fn: f.fn, binds: f.binds, term: Fresh("closure", SInt)}
		x.axiom(Lt(Num(0), nf.term))
		x.funcs[nf.term] = nf
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(Unsupported); ok {
						x.note("callback passed to %s not expressible (%s)", con.key, u.msg)
						good = false
						return
					}
					panic(r)
				}
			}()
			stack := len(x.stack)
			defer func() { x.stack = x.stack[:stack] }()
			body, isT := x.evalPure(fr, st, f, vs, sig).(*Term)
			if !isT || x.evalWrote {
				good = false
				return
			}
			app := x.pureApp(st, "callback", append([]Val{nf.term}, vs...), append([]types.Type{types.Typ[types.Int]}, sigTypes(sig)...), resultType(sig)).(*Term)
			x.assume(st, Forall(bv, Eq(app, body)))
		}()
		if good {
			out[i] = nf
		}
	}
	return out
}

func (x *Exec) argTypes(sig *types.Signature, args []Val) []types.Type {
	ts := sigTypes(sig)
	if len(ts) == len(args) {
		return ts
	}
	// receiver first
	if sig.Recv() != nil {
		return append([]types.Type{sig.Recv().Type()}, ts...)
	}
	if iv, ok := args[0].(IfaceV); ok {
		_ = iv
		return append([]types.Type{anyT}, ts...)
	}
	return append([]types.Type{anyT}, ts...)
}

func (x *Exec) bindResults(env *Env, con *Contract, sig *types.Signature, res Val) {
	n := sig.Results().Len()
	for i, r := range con.results {
		if i >= n {
			serr("contract %s names %d results, function has %d", con.key, len(con.results), n)
		}
		v := res
		if n > 1 {
			v = res.(*StructV).elems[i]
		}
		env.vars[r] = SV{v, sig.Results().At(i).Type()}
	}
}

func clauseName(c Clause) string {
	if c.name != "" {
		return c.name
	}
	return c.src
}

func (x *Exec) havoc(st *State, key string, base *Term) canonReq {
	ci := x.comps[key]
	c := x.cur(st, key)
	if base == nil || ci.kind == 5 || ci.kind == 6 {
		n := Fresh("hv:"+key, ci.sort)
		if ci.leaf.kind == lkOff {
			n = zeroArr(ci.sort)
		}
		st.heap[key] = n
		x.wfComp(key, n, Add(st.A, Num(x.k+1)), True, false)
		x.logWrite(key, nil)
		return canonReq{key, n, nil}
	}
	_, vs := arraySorts(ci.sort)
	n := Fresh("hv:"+key, vs)
	if ci.leaf.kind == lkOff { // slices received from calls start at offset 0 of their array
		n = zeroArr(vs)
	}
	x.wfCompVal(key, n, Add(st.A, Num(x.k+1)))
	st.heap[key] = Store(c, base, n)
	x.logWrite(key, base)
	return canonReq{key, n, base}
}

// havocAbove: components that may describe objects newly allocated by a callee.
func (x *Exec) havocAbove(st, pre *State, t types.Type, seen map[string]bool, depth int) {
	tk := typeKey(t)
	if seen[tk] || depth > 3 {
		return
	}
	seen[tk] = true
	var canon []canonReq
	fresh := func(key string) {
		ci := x.comps[key]
		c := x.cur(st, key)
		if ci.leaf.kind == lkOff && (c.op == "constarr") {
			return // already all zero
		}
		n := Fresh("new:"+key, ci.sort)
		x.wfComp(key, n, st.A, True, false)
		r := BVar("r", SInt)
		s := Select(n, r)
		x.axiom(Forall([]*Term{r}, Implies(Lt(r, Add(pre.A, Num(x.k))), Eq(s, Select(c, r))), []*Term{s}))
		st.heap[key] = n
		canon = append(canon, canonReq{key, n, nil})
	}
	defer func() { x.canon(st, canon) }()
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		if isByteSlice(t) {
			return
		}
		for _, l := range leaves(u.Elem()) {
			k, _ := x.sliceComp(st, u.Elem(), "", l)
			fresh(k)
		}
		x.havocAbove(st, pre, u.Elem(), seen, depth+1)
	case *types.Map:
		for _, k := range x.mapComps(st, u) {
			fresh(k)
		}
		x.havocAbove(st, pre, u.Elem(), seen, depth+1)
	case *types.Pointer:
		if opaqueStruct(u.Elem()) {
			return
		}
		for _, l := range leaves(u.Elem()) {
			k, _ := x.objComp(st, u.Elem(), "", l)
			fresh(k)
		}
		x.havocAbove(st, pre, u.Elem(), seen, depth+1)
	case *types.Struct:
		if opaqueStruct(t) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			x.havocAbove(st, pre, u.Field(i).Type(), seen, depth)
		}
	}
}

// ---- invariants ----

type roleVal struct {
	name string
	// value at: 0 entry, 1 head, 2 back edge j
	at  func(which int, j int, st *State) Val
	typ types.Type
}

type invCand struct {
	c    *Cand
	eval func(which, j int, st *State) *Term
}

func (x *Exec) candidates(fr *Frame, l *Loop, r RoleDecl, phiVal func(p *ssa.Phi, which, j int) Val) []roleVal {
	var out []roleVal
	var want types.Type
	if r.role == "phi" || r.role == "var" || r.role == "written" || r.role == "visited" {
		want = x.eng.resolveType(r.typ)
	}
	addPhi := func(p *ssa.Phi) {
		out = append(out, roleVal{phiName(p), func(which, j int, st *State) Val { return phiVal(p, which, j) }, p.Type()})
	}
	switch r.role {
	case "progress":
		for _, p := range headPhis(l.head) {
			p := p
			if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				continue
			}
			init := l.phiInit[p].(*Term)
			out = append(out, roleVal{phiName(p) + "-init", func(w, j int, st *State) Val { return Sub(phiVal(p, w, j).(*Term), init) }, tInt})
			if init != Num(0) && phiName(p) != "rangeindex" {
				out = append(out, roleVal{phiName(p), func(w, j int, st *State) Val { return phiVal(p, w, j) }, tInt})
				if init != Num(-1) {
					out = append(out, roleVal{phiName(p) + "+1", func(w, j int, st *State) Val { return Add(phiVal(p, w, j).(*Term), Num(1)) }, tInt})
				}
			}
		}
		return out
	case "oprogress":
		for _, ol := range x.enclosing(fr, l) {
			for _, p := range headPhis(ol.head) {
				if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
					continue
				}
				init := ol.phiInit[p].(*Term)
				v := ol.fr.env[p].(*Term)
				out = append(out, roleVal{"outer " + phiName(p), func(w, j int, st *State) Val { return Sub(v, init) }, tInt})
			}
		}
		return out
	case "count":
		for _, it := range x.mapIters(fr, l) {
			cell := it.cnt
			out = append(out, roleVal{"count", func(w, j int, st *State) Val { return st.cells[cell] }, tInt})
		}
		return out
	case "visited":
		for _, b := range l.blocks {
			for _, in := range b.Instrs {
				if nx, ok := in.(*ssa.Next); ok {
					it, ok := fr.env[nx.Iter].(IterV)
					if !ok || it.mt == nil || !types.Identical(it.mt.Key(), want) || x.innerLoop(fr, l, b) {
						continue
					}
					cell := it.vis
					if _, ok := l.entry.cells[cell]; !ok {
						continue
					}
					out = append(out, roleVal{"visited", func(w, j int, st *State) Val { return st.cells[cell] }, &SetT{want}})
				}
			}
		}
		return out
	case "phi", "var", "written":
		for _, p := range headPhis(l.head) {
			if types.Identical(types.Unalias(p.Type()), types.Unalias(want)) || sameShape(p.Type(), want) {
				addPhi(p)
			}
		}
		// cells
		for _, c := range sortedCells(l.headState.cells) {
			v := l.headState.cells[c]
			if c.typ == nil {
				continue
			}
			if !sameShape(c.typ, want) {
				continue
			}
			if r.role == "phi" {
				if ev, ok := l.entry.cells[c]; ok && x.sameVal(ev, v, c.typ) {
					continue
				}
			}
			out = append(out, roleVal{"cell " + c.key, func(w, j int, st *State) Val { return st.cells[c] }, c.typ})
		}
		if r.role == "written" {
			// a map the body writes to (by any name)
			out = nil
			for _, p := range headPhis(l.head) {
				if sameShape(p.Type(), want) {
					addPhi(p)
				}
			}
			for _, c := range sortedCells(l.headState.cells) {
				if v, ok := l.headState.cells[c].(*Term); ok && c.typ != nil && sameShape(c.typ, want) && (l.anyWrite || l.written[v]) {
					out = append(out, roleVal{"cell " + c.key, func(w, j int, st *State) Val { return st.cells[c] }, c.typ})
				}
			}
		}
		if r.role != "phi" {
			for f := fr; f != nil; f = f.caller {
				for _, sv := range sortedVals(f.env) {
					v := f.env[sv]
					if r.role == "written" {
						if t, ok := v.(*Term); !ok || !(l.anyWrite || l.written[t]) {
							continue
						}
					}
					if v == nil || sv.Type() == nil {
						continue
					}
					if f == fr && !definedBefore(sv, l) {
						continue
					}
					if _, isPhi := sv.(*ssa.Phi); isPhi && f == fr && sv.(*ssa.Phi).Block() == l.head {
						continue
					}
					if !sameShape(sv.Type(), want) {
						continue
					}
					if _, isT := sv.Type().(*types.Tuple); isT {
						continue
					}
					out = append(out, roleVal{sv.Name(), func(w, j int, st *State) Val { return v }, sv.Type()})
				}
			}
		}
	}
	return dedupRoles(out, l.headState)
}

func dedupRoles(in []roleVal, st *State) []roleVal {
	var out []roleVal
	seen := map[string]bool{}
	for _, r := range in {
		k := fmt.Sprint(r.at(1, 0, st))
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, r)
	}
	return out
}

func sameShape(a, b types.Type) bool {
	if types.Identical(types.Unalias(a), types.Unalias(b)) {
		return true
	}
	return types.Identical(a.Underlying(), b.Underlying()) && !isBasic(a.Underlying())
}
func isBasic(t types.Type) bool { _, ok := t.(*types.Basic); return ok }

func (x *Exec) sameVal(a, b Val, t types.Type) bool {
	same := true
	x.diffVal(a, b, t, func(int) { same = false })
	return same
}

func definedBefore(v ssa.Value, l *Loop) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	if l.set[in.Block()] {
		return false
	}
	return in.Block() != nil && in.Block().Dominates(l.head)
}

func (x *Exec) innerLoop(fr *Frame, l *Loop, b *ssa.BasicBlock) bool {
	for _, m := range fr.loops {
		if m != l && l.set[m.head] && m.set[b] {
			return true
		}
	}
	return false
}

func (x *Exec) enclosing(fr *Frame, l *Loop) []*Loop {
	var out []*Loop
	for f := fr; f != nil; f = f.caller {
		for _, ol := range f.loopStack {
			if ol != l {
				out = append(out, ol)
			}
		}
	}
	return out
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (x *Exec) instantiateInvariants(fr *Frame, l *Loop, st0, h *State, init map[*ssa.Phi]Val, startClock int) []*invCand {
	if x.con == nil || x.dry > 0 {
		return nil
	}
	headVals := map[*ssa.Phi]Val{}
	for _, p := range headPhis(l.head) {
		headVals[p] = fr.env[p]
	}
	var backVals func(p *ssa.Phi, j int) Val
	l.backVals = &backVals
	phiVal := func(p *ssa.Phi, which, j int) Val {
		switch which {
		case 0:
			return init[p]
		case 1:
			return headVals[p]
		}
		return backVals(p, j)
	}
	var out []*invCand
	seen := map[*Term]bool{}
	user := true
	add := func(name string, ev func(which, j int, st *State) *Term) {
		ht := ev(1, 0, h)
		if ht == True || seen[ht] {
			return
		}
		seen[ht] = true
		c := &Cand{id: len(x.cands), act: Fresh("act", SBool), text: name, loop: l.name(x), alive: true, user: user}
		ic := &invCand{c, ev}
		// initial
		it := ev(0, 0, st0)
		x.oblige(st0, "inv-init", "invariant holds on entry: "+name, it, token.NoPos)
		if it != True {
			x.obls[len(x.obls)-1].cand = c
		}
		if it == False {
			x.obls = x.obls[:len(x.obls)-1]
			return
		}
		x.cands = append(x.cands, c)
		out = append(out, ic)
		x.axiom(Implies(And(h.pc, c.act), ht))
	}
	// user templates
	for _, inv := range x.con.invariants {
		x.expandTemplate(fr, l, inv, phiVal, st0, add)
	}
	// system candidates
	user = false
	iters := x.mapIters(fr, l)
	for _, it := range iters {
		it := it
		add("visited keys are keys of the map at loop entry", func(w, j int, st *State) *Term {
			q := BVar("k", keySort(it.mt.Key()))
			v := Select(st.cells[it.vis].(*Term), q)
			return Forall([]*Term{q}, Implies(v, Select(it.dom0, q)))
		})
		add("iteration count >= 0", func(w, j int, st *State) *Term { return Le(Num(0), st.cells[it.cnt].(*Term)) })
	}
	for _, p := range headPhis(l.head) {
		p := p
		for _, it := range iters {
			it := it
			if v, ok := headVals[p].(*Term); ok && v.sort == SInt && v.op == "sym" {
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					iv := init[p].(*Term)
					add(phiName(p)+" = init + iteration count", func(w, j int, st *State) *Term {
						return Eq(phiVal(p, w, j).(*Term), Add(iv, st.cells[it.cnt].(*Term)))
					})
				}
			}
		}
		switch v := headVals[p].(type) {
		case *Term:
			if v.sort == SInt && v.op == "sym" {
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					iv := init[p].(*Term)
					add(phiName(p)+" >= init", func(w, j int, st *State) *Term { return Le(iv, phiVal(p, w, j).(*Term)) })
					if phiName(p) == "rangeindex" {
						for _, bd := range l.bounds {
							bd := bd
							add(phiName(p)+" < "+bd.String(), func(w, j int, st *State) *Term { return Lt(phiVal(p, w, j).(*Term), bd) })
						}
						continue
					}
					add(phiName(p)+" <= init", func(w, j int, st *State) *Term { return Le(phiVal(p, w, j).(*Term), iv) })
					for _, bd := range l.bounds {
						bd := bd
						add(phiName(p)+" <= "+bd.String(), func(w, j int, st *State) *Term { return Le(phiVal(p, w, j).(*Term), bd) })
						add(phiName(p)+" < "+bd.String(), func(w, j int, st *State) *Term { return Lt(phiVal(p, w, j).(*Term), bd) })
						add(phiName(p)+" >= "+bd.String(), func(w, j int, st *State) *Term { return Le(bd, phiVal(p, w, j).(*Term)) })
					}
				}
			}
		case SliceV:
			add(phiName(p)+" nil or fresh", func(w, j int, st *State) *Term {
				s := phiVal(p, w, j).(SliceV)
				return Or(Eq(s.arr, Num(0)), Le(Add(st0.A, Num(l.kAt)), s.arr), x.eqInit(s, init[p]))
			})
		case PtrV:
			if v.kind == 0 && v.path == "" {
				add(phiName(p)+" non-nil", func(w, j int, st *State) *Term {
					return Not(x.isNilPtr(phiVal(p, w, j).(PtrV)))
				})
			}
		}
	}
	return out
}

// mapIters lists the map iterators advanced by this loop itself.
func (x *Exec) mapIters(fr *Frame, l *Loop) (out []IterV) {
	for _, b := range l.blocks {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				it, ok := fr.env[nx.Iter].(IterV)
				if !ok || it.mt == nil || x.innerLoop(fr, l, b) {
					continue
				}
				if _, ok := l.entry.cells[it.cnt]; !ok {
					continue
				}
				out = append(out, it)
			}
		}
	}
	return
}

func (x *Exec) eqInit(s SliceV, init Val) *Term {
	i := init.(SliceV)
	return Eq(s.arr, i.arr)
}

func (x *Exec) expandTemplate(fr *Frame, l *Loop, inv Clause, phiVal func(*ssa.Phi, int, int) Val, st0 *State, add func(string, func(int, int, *State) *Term)) {
	choices := make([][]roleVal, len(inv.roles))
	total := 1
	for i, r := range inv.roles {
		choices[i] = x.candidates(fr, l, r, phiVal)
		total *= len(choices[i])
	}
	if total == 0 {
		return
	}
	if total > 400 {
		x.note("invariant template %s: too many instantiations (%d) at %s, truncated", clauseName(inv), total, l.name(x))
		total = 400
	}
	idx := make([]int, len(inv.roles))
	for n := 0; n < total; n++ {
		sel := make([]roleVal, len(idx))
		var names []string
		for i := range idx {
			sel[i] = choices[i][idx[i]]
			names = append(names, inv.roles[i].name+"="+sel[i].name)
		}
		name := clauseName(inv)
		if len(names) > 0 {
			name += " [" + strings.Join(names, ", ") + "]"
		}
		ev := func(which, j int, st *State) *Term {
			env := &Env{x: x, st: st, old: x.entry, pre: st0, vars: map[string]SV{}}
			for k, v := range x.paramEnv {
				env.vars[k] = v
			}
			for i, r := range sel {
				env.vars[inv.roles[i].name] = SV{r.at(which, j, st), r.typ}
			}
			env.preVars = map[string]SV{}
			for i, r := range sel {
				if inv.roles[i].role != "visited" && inv.roles[i].role != "count" && inv.roles[i].role != "oprogress" {
					env.preVars[inv.roles[i].name] = SV{r.at(0, 0, st0), r.typ}
				}
			}
			return env.bool(inv.e)
		}
		add(name, ev)
		for i := len(idx) - 1; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(choices[i]) {
				break
			}
			idx[i] = 0
		}
		if len(idx) == 0 {
			break
		}
	}
}

func (x *Exec) checkInvariants(fr *Frame, l *Loop, cands []*invCand, back []edge) {
	if len(cands) == 0 {
		return
	}
	*l.backVals = func(p *ssa.Phi, j int) Val { return x.phiIn(fr, p, l.head, back, j) }
	for j, e := range back {
		for _, ic := range cands {
			g := ic.eval(2, j, e.st)
			n := len(x.obls)
			x.oblige(e.st, "inv-keep", "invariant preserved: "+ic.c.text, g, token.NoPos)
			if len(x.obls) > n {
				x.obls[n].cand = ic.c
			}
		}
	}
}

func sortedVals(m map[ssa.Value]Val) []ssa.Value {
	out := make([]ssa.Value, 0, len(m))
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		if len(a.Name()) != len(b.Name()) {
			return len(a.Name()) < len(b.Name())
		}
		return a.Name() < b.Name()
	})
	return out
}
