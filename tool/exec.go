package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fnRef = *ssa.Function

type State struct {
	pc    *Term
	heap  map[string]*Term
	cells map[*Cell]Val
	A     *Term
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, A: s.A, heap: make(map[string]*Term, len(s.heap)), cells: make(map[*Cell]Val, len(s.cells))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

type Obl struct {
	name  string
	pc    *Term
	goal  *Term
	nfact int
	cand  *Cand  // Houdini candidate this obligation belongs to
	kind  string // ensures, requires, frame, inv-init, inv-keep, safe, cover
	pos   string
	// results
	res    SolveResult
	solved bool
	contra map[*Term]bool
	script string
	lits   map[*Term]*Term // case split
}

type Cand struct {
	user  bool
	id    int
	act   *Term
	text  string
	loop  string
	alive bool
	must  bool
}

type deferred struct {
	guard *Term
	block *ssa.BasicBlock
	instr *ssa.Defer
	fn    Val
	args  []Val
}

type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]Val
	binds     []Val
	caller    *Frame
	defers    []deferred
	rets      []retState
	loops     map[*ssa.BasicBlock]*Loop
	order     []*ssa.BasicBlock
	depth     int
	loopStack []*Loop
	inst      int
}
type retState struct {
	st  *State
	val Val
	pos token.Pos
}

type compInfo struct {
	sort Sort
	leaf Leaf
	kind int // 0 obj comp, 1 slice comp, 2 map dom, 3 map val, 4 map card, 5 global, 6 ghost, 7 sync.Map-like
	key  Sort
	mt   *types.Map
}

type Exec struct {
	eng           *Engine
	root          *ssa.Function
	con           *Contract
	facts         []*Term
	base          []*Term
	cellOwner     map[*Cell]ssa.Value
	obls          []*Obl
	cands         []*Cand
	comps         map[string]*compInfo
	heap0         map[string]*Term
	A0            *Term
	clock         int
	k             int64
	cellN         int
	escaped       map[ssa.Value]bool
	funcs         map[*Term]FuncV
	funcIDs       map[*ssa.Function]*Term
	tags          map[string]*Term
	implIfaces    map[string]types.Type
	tagType       map[int64]types.Type
	ifaces        map[[2]*Term]IfaceV
	notes         map[string]bool
	dry           int
	evalWrote     bool
	instN         int
	writes        *writeLog
	trusted       map[string]bool
	inlined       map[string]bool
	entry         *State
	params        []Val
	axDone        map[string]bool
	stack         []*ssa.Function
	safe          bool
	callOrd       map[string]int
	usedContracts map[string]bool
	paramEnv      map[string]SV
	panicking     *IfaceV
	recovered     bool
}

type restart struct{ v ssa.Value }

type writeLog struct {
	parent *writeLog
	bases  map[string]map[*Term]bool // comp -> base refs written
	wild   map[string]bool           // comp written at unknown set of bases
}

func (x *Exec) note(f string, a ...any) { x.notes[fmt.Sprintf(f, a...)] = true }

func (x *Exec) tick() int { x.clock++; return x.clock }

func (x *Exec) assume(st *State, t *Term) {
	if t == True {
		return
	}
	f := Implies(st.pc, t)
	if f == True {
		return
	}
	x.facts = append(x.facts, f)
}
func (x *Exec) axiom(t *Term) {
	if t != True {
		x.facts = append(x.facts, t)
	}
}

func (x *Exec) oblige(st *State, kind, name string, goal *Term, pos token.Pos) {
	if goal == True && kind != "ensures" {
		return
	}
	o := &Obl{name: name, pc: st.pc, goal: goal, nfact: len(x.facts), kind: kind}
	if pos.IsValid() {
		p := x.eng.prog.Fset.Position(pos)
		o.pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, x.eng.repo+"/"), p.Line)
	}
	x.obls = append(x.obls, o)
}

// ---- heap ----

func (x *Exec) logWrite(comp string, base *Term) {
	for w := x.writes; w != nil; w = w.parent {
		if w.bases[comp] == nil {
			w.bases[comp] = map[*Term]bool{}
		}
		if base == nil {
			w.wild[comp] = true
		} else {
			w.bases[comp][base] = true
		}
	}
}

// canon states that absent keys of map components replaced by unknowns hold the zero value.
type canonReq struct {
	key  string
	n    *Term
	base *Term
}

func (x *Exec) canon(st *State, rs []canonReq) {
	for _, q := range rs {
		ci := x.comps[q.key]
		if ci.kind != 3 || ci.leaf.kind == lkOff && q.n.op == "constarr" {
			continue
		}
		d := x.cur(st, "dom:"+typeKey(ci.mt))
		if d == nil {
			_, d = x.mapDom(st, ci.mt)
		}
		r, k := BVar("r", SInt), BVar("k", ci.key)
		if q.base == nil {
			sel := Select(Select(q.n, r), k)
			x.axiom(Forall([]*Term{r, k}, Implies(Not(Select(Select(d, r), k)), Eq(sel, zeroLeaf(ci.leaf))), []*Term{sel}))
		} else {
			sel := Select(q.n, k)
			x.axiom(Forall([]*Term{k}, Implies(Not(Select(Select(d, q.base), k)), Eq(sel, zeroLeaf(ci.leaf))), []*Term{sel}))
		}
	}
}

func zeroArr(s Sort) *Term {
	if strings.HasPrefix(string(s), "(Array ") {
		_, v := arraySorts(s)
		return ConstArr(s, zeroArr(v))
	}
	return Num(0)
}

// comp returns the current term of a heap component, creating the initial symbol on first use.
func (x *Exec) comp(st *State, key string, ci compInfo) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	if t, ok := x.heap0[key]; ok {
		return t
	}
	c := ci
	x.comps[key] = &c
	t := Sym("H0:"+sanitize(key), ci.sort)
	if ci.leaf.kind == lkOff { // slices on the heap at entry start at offset 0 of their array
		x.notes["slices received from parameters, the heap and calls start at offset 0 of their array"] = true
		t = zeroArr(ci.sort)
		x.heap0[key] = t
		return t
	}
	x.heap0[key] = t
	// initial components are described from the beginning of time
	x.wfComp(key, t, x.A0, True, true)
	if ci.kind == 3 { // absent keys hold the zero value
		dk := "dom:" + typeKey(ci.mt)
		x.comp(&State{heap: map[string]*Term{}}, dk, compInfo{sort: SArr(SInt, SArr(ci.key, SBool)), kind: 2, key: ci.key, mt: ci.mt})
		r, k := BVar("r", SInt), BVar("k", ci.key)
		sel := Select(Select(t, r), k)
		x.base = append(x.base, Forall([]*Term{r, k}, Implies(Not(Select(Select(x.heap0[dk], r), k)), Eq(sel, zeroLeaf(ci.leaf))), []*Term{sel}))
	}
	return t
}

func (x *Exec) cur(st *State, key string) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	return x.heap0[key]
}

// wfComp adds well-formedness axioms for a (new) component term.
func (x *Exec) wfComp(key string, t *Term, A *Term, guard *Term, initial bool) {
	ci := x.comps[key]
	var pre []*Term
	add := func(f *Term) {
		if guard != True {
			f = Implies(guard, f)
		}
		pre = append(pre, f)
	}
	leafFact := func(v *Term) *Term {
		switch ci.leaf.kind {
		case lkRef, lkArr:
			return And(Le(Num(0), v), Lt(v, A))
		case lkOff:
			if initial {
				return Eq(v, Num(0))
			}
			return Le(Num(0), v)
		case lkLen, lkCap:
			return Le(Num(0), v)
		case lkTag:
			return Le(Num(0), v)
		case lkPlain:
			if isUnsigned(ci.leaf.typ) {
				return Le(Num(0), v)
			}
		}
		return True
	}
	switch ci.kind {
	case 0:
		r := BVar("r", SInt)
		s := Select(t, r)
		if f := leafFact(s); f != True {
			add(Forall([]*Term{r}, f, []*Term{s}))
		}
	case 1:
		r, i := BVar("r", SInt), BVar("i", SInt)
		s := Select(Select(t, r), i)
		if f := leafFact(s); f != True {
			add(Forall([]*Term{r, i}, f, []*Term{s}))
		}
	case 2:
		add(Eq(Select(t, Num(0)), ConstArr(SArr(ci.key, SBool), False)))
	case 3:
		r, i := BVar("r", SInt), BVar("i", ci.key)
		s := Select(Select(t, r), i)
		if f := leafFact(s); f != True {
			add(Forall([]*Term{r, i}, f, []*Term{s}))
		}
	case 4:
		r := BVar("r", SInt)
		s := Select(t, r)
		add(Forall([]*Term{r}, Le(Num(0), s), []*Term{s}))
		add(Eq(Select(t, Num(0)), Num(0)))
	case 5, 6:
		if f := leafFact(t); f != True {
			add(f)
		}
	}
	if initial {
		x.base = append(x.base, pre...)
	} else {
		x.facts = append(x.facts, pre...)
	}
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (x *Exec) setComp(st *State, key string, t *Term) { st.heap[key] = t }

func (x *Exec) objComp(st *State, base types.Type, path string, l Leaf) (string, *Term) {
	key := typeKey(base) + path + l.path
	return key, x.comp(st, key, compInfo{sort: SArr(SInt, l.sort), leaf: l, kind: 0})
}
func (x *Exec) sliceComp(st *State, elem types.Type, path string, l Leaf) (string, *Term) {
	key := "[]" + typeKey(elem) + path + l.path
	return key, x.comp(st, key, compInfo{sort: SArr(SInt, SArr(SInt, l.sort)), leaf: l, kind: 1})
}
func (x *Exec) mapDom(st *State, mt *types.Map) (string, *Term) {
	ks := keySort(mt.Key())
	key := "dom:" + typeKey(mt)
	return key, x.comp(st, key, compInfo{sort: SArr(SInt, SArr(ks, SBool)), kind: 2, key: ks, mt: mt})
}
func (x *Exec) mapCard(st *State, mt *types.Map) (string, *Term) {
	key := "card:" + typeKey(mt)
	return key, x.comp(st, key, compInfo{sort: SArr(SInt, SInt), kind: 4, mt: mt})
}
func (x *Exec) mapVal(st *State, mt *types.Map, l Leaf) (string, *Term) {
	ks := keySort(mt.Key())
	key := "val:" + typeKey(mt) + l.path
	return key, x.comp(st, key, compInfo{sort: SArr(SInt, SArr(ks, l.sort)), kind: 3, leaf: l, key: ks, mt: mt})
}
func (x *Exec) globalComp(st *State, name string, l Leaf) (string, *Term) {
	key := "global:" + name + l.path
	return key, x.comp(st, key, compInfo{sort: l.sort, kind: 5, leaf: l})
}

func (x *Exec) loaded(st *State, l Leaf, t *Term) *Term {
	if l.kind == lkRef || l.kind == lkArr {
		if t.op != "num" && !t.hasV {
			if _, ok := existTime(t); !ok {
				tb.exist[t] = x.clock
			}
		}
	}
	return t
}

// factsForVal adds ground well-formedness facts for a value read in state st.
func (x *Exec) factsForVal(st *State, v Val, t types.Type) {
	switch vv := v.(type) {
	case SliceV:
		if vv.len.hasV || vv.arr.hasV {
			return
		}
		x.axiomOnce(And(Le(Num(0), vv.len), Le(vv.len, vv.cap), Le(Num(0), vv.off), Implies(Eq(vv.arr, Num(0)), Eq(vv.cap, Num(0)))), st)
	case IfaceV:
		if vv.tag.hasV {
			return
		}
		x.axiomOnce(Le(Num(0), vv.tag), st)
	case *StructV:
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Struct:
			for i := range vv.elems {
				x.factsForVal(st, vv.elems[i], u.Field(i).Type())
			}
		case *types.Array:
			for i := range vv.elems {
				x.factsForVal(st, vv.elems[i], u.Elem())
			}
		}
	}
}
func (x *Exec) axiomOnce(f *Term, st *State) {
	if f == True {
		return
	}
	x.assume(st, f)
}

func (x *Exec) load(st *State, p PtrV) Val {
	ls := leaves(p.typ)
	ts := make([]*Term, len(ls))
	switch p.kind {
	case 0:
		if opaqueStruct(p.base) && p.path != "" {
			// field of an opaque object held behind a pointer
			_, c := x.objComp(st, p.base, "", Leaf{"", SU, lkPlain, p.base})
			return x.opaqueField(Select(c, p.ref), p.base, p.path, p.typ)
		}
		for i, l := range ls {
			_, c := x.objComp(st, p.base, p.path, l)
			ts[i] = x.loaded(st, l, Select(c, p.ref))
		}
	case 1:
		for i, l := range ls {
			_, c := x.sliceComp(st, p.base, p.path, l)
			ts[i] = x.loaded(st, l, Select(Select(c, p.arr), p.idx))
		}
	case 2:
		v, ok := st.cells[p.cell]
		if !ok {
			unsup("load of dead cell %s", p.cell.key)
		}
		return x.navGet(v, p.cell.typ, p.path)
	case 3:
		if c := x.eng.constV[p.gname]; c != nil && p.path == "" {
			return x.constVal(c)
		}
		for i, l := range ls {
			_, c := x.globalComp(st, p.gname+p.path, l)
			ts[i] = x.loaded(st, l, c)
		}
	}
	v := decode(ts, p.typ, x)
	x.factsForVal(st, v, p.typ)
	return v
}

func splitPath(p string) (string, string) {
	p = p[1:]
	i := strings.IndexAny(p, ".")
	if i < 0 {
		return p, ""
	}
	return p[:i], p[i:]
}

func (x *Exec) navGet(v Val, t types.Type, path string) Val {
	for path != "" {
		var n string
		n, path = splitPath(path)
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Struct:
			if term, ok := v.(*Term); ok {
				return x.opaqueField(term, t, "."+n+path, pathType(t, "."+n+path))
			}
			i := fieldIndex(u, n)
			v, t = v.(*StructV).elems[i], u.Field(i).Type()
		case *types.Array:
			i := atoi(n)
			v, t = v.(*StructV).elems[i], u.Elem()
		default:
			unsup("navGet %s", t)
		}
	}
	return v
}

func pathType(t types.Type, path string) types.Type {
	for path != "" {
		var n string
		n, path = splitPath(path)
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Struct:
			t = u.Field(fieldIndex(u, n)).Type()
		case *types.Array:
			t = u.Elem()
		default:
			unsup("pathType %s", t)
		}
	}
	return t
}

func atoi(s string) int {
	n := 0
	fmt.Sscanf(s, "%d", &n)
	return n
}
func fieldIndex(u *types.Struct, n string) int {
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == n {
			return i
		}
	}
	return -1
}

func (x *Exec) navSet(v Val, t types.Type, path string, nv Val) Val {
	if path == "" {
		return nv
	}
	n, rest := splitPath(path)
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Struct:
		if _, ok := v.(*Term); ok {
			// write to a field of an opaque value: forget it
			x.note("field write to opaque value of type %s forgets the other fields", typeKey(t))
			f := Fresh("opq_"+typeKey(t), SU)
			x.axiom(x.valEq(x.opaqueField(f, t, path, pathType(t, path)), nv, pathType(t, path)))
			return f
		}
		i := fieldIndex(u, n)
		s := v.(*StructV)
		ns := &StructV{elems: append([]Val{}, s.elems...)}
		ns.elems[i] = x.navSet(s.elems[i], u.Field(i).Type(), rest, nv)
		return ns
	case *types.Array:
		i := atoi(n)
		s := v.(*StructV)
		ns := &StructV{elems: append([]Val{}, s.elems...)}
		ns.elems[i] = x.navSet(s.elems[i], u.Elem(), rest, nv)
		return ns
	}
	unsup("navSet %s", t)
	return nil
}

// opaqueField reads a field of an uninterpreted struct value.
func (x *Exec) opaqueField(u *Term, t types.Type, path string, ft types.Type) Val {
	ls := leaves(ft)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = App("fld:"+typeKey(t)+path+l.path, l.sort, u)
	}
	return decode(ts, ft, x)
}

func (x *Exec) store(st *State, p PtrV, v Val) {
	switch p.kind {
	case 2:
		st.cells[p.cell] = x.navSet(st.cells[p.cell], p.cell.typ, p.path, v)
		return
	case 0:
		if opaqueStruct(p.base) && p.path != "" {
			key, c := x.objComp(st, p.base, "", Leaf{"", SU, lkPlain, p.base})
			nv := x.navSet(Select(c, p.ref), p.base, p.path, v)
			x.setComp(st, key, Store(c, p.ref, nv.(*Term)))
			x.logWrite(key, p.ref)
			return
		}
		ls := leaves(p.typ)
		ts := encode(v, p.typ, x)
		for i, l := range ls {
			key, c := x.objComp(st, p.base, p.path, l)
			x.setComp(st, key, Store(c, p.ref, ts[i]))
			x.logWrite(key, p.ref)
		}
	case 1:
		ls := leaves(p.typ)
		ts := encode(v, p.typ, x)
		for i, l := range ls {
			key, c := x.sliceComp(st, p.base, p.path, l)
			x.setComp(st, key, Store(c, p.arr, Store(Select(c, p.arr), p.idx, ts[i])))
			x.logWrite(key, p.arr)
		}
	case 3:
		ls := leaves(p.typ)
		ts := encode(v, p.typ, x)
		for i, l := range ls {
			key, _ := x.globalComp(st, p.gname+p.path, l)
			x.setComp(st, key, ts[i])
			x.logWrite(key, Num(0))
		}
	}
}

// newRef allocates a fresh object reference in st.
func (x *Exec) newRef(st *State) *Term {
	x.k++
	r := Add(st.A, Num(x.k))
	tb.fresh[r] = x.tick()
	return r
}

// bumpA introduces a new allocation frontier above everything allocated so far.
func (x *Exec) bumpA(st *State, why string) {
	x.k++
	n := Fresh("A_"+why, SInt)
	x.axiom(Le(Add(st.A, Num(x.k)), n))
	st.A = n
	x.tick()
}

func (x *Exec) allocObj(st *State, t types.Type) PtrV {
	r := x.newRef(st)
	p := PtrV{kind: 0, ref: r, base: t, typ: t}
	ls := leaves(t)
	for _, l := range ls {
		key, c := x.objComp(st, t, "", l)
		x.setComp(st, key, Store(c, r, zeroLeaf(l)))
		x.logWrite(key, r)
	}
	return p
}

func sortedCells[T any](m map[*Cell]T) []*Cell {
	out := make([]*Cell, 0, len(m))
	for c := range m {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (x *Exec) newCell(t types.Type, key string) *Cell {
	x.cellN++
	return &Cell{x.cellN, t, key}
}

// ptrTerm gives the reference term of a pointer; interior pointers cannot be expressed.
func (x *Exec) ptrTerm(p PtrV) *Term {
	switch {
	case p.kind == 0 && p.path == "":
		return p.ref
	case p.kind == 2 && p.cell != nil:
		if v := x.cellOwner[p.cell]; v != nil {
			panic(restart{v})
		}
	case p.kind == 1 && p.path == "" && p.arr.op == "num" && p.arr.num == 0:
		return Num(0)
	}
	return x.interiorRef(p)
}

// interiorRef: a pointer into a structure or slice element that flows into memory is
// represented by an uninterpreted reference (identity only).
func (x *Exec) interiorRef(p PtrV) *Term {
	x.note("interior pointer to %s%s escapes into memory: modelled by identity only (contents through it unconstrained)", typeKey(p.base), p.path)
	switch p.kind {
	case 0:
		return App("inner:"+typeKey(p.base)+p.path, SInt, p.ref)
	case 1:
		return App("innerelem:"+typeKey(p.base)+p.path, SInt, p.arr, p.idx)
	case 3:
		return Sym("inner:global:"+p.gname+p.path, SInt)
	}
	unsup("interior pointer into cell %s", p.cell.key)
	return nil
}

func (x *Exec) funcTerm(f FuncV) *Term {
	if f.term != nil {
		return f.term
	}
	if len(f.binds) == 0 {
		if t, ok := x.funcIDs[f.fn]; ok {
			return t
		}
		t := Num(int64(1000 + len(x.funcIDs)))
		x.funcIDs[f.fn] = t
		x.funcs[t] = FuncV{fn: f.fn, term: t}
		return t
	}
	t := Fresh("closure", SInt)
	x.axiom(Lt(Num(0), t))
	x.funcs[t] = FuncV{fn: f.fn, binds: f.binds, term: t}
	return t
}
func (x *Exec) funcOf(t *Term) FuncV {
	if f, ok := x.funcs[t]; ok {
		return f
	}
	return FuncV{term: t}
}

func (x *Exec) tagOf(t types.Type) *Term {
	k := typeKey(t)
	if n, ok := x.tags[k]; ok {
		return n
	}
	n := Num(int64(len(x.tags) + 1))
	x.tags[k] = n
	x.tagType[n.num] = t
	for ik, it := range x.implIfaces {
		x.implAxiom(t, n, ik, it)
	}
	return n
}

// implements(tag, interface) is known for every named type: asserted once per pair in use
func (x *Exec) implTerm(it types.Type, tag *Term) *Term {
	k := typeKey(it)
	if _, ok := x.implIfaces[k]; !ok {
		if x.implIfaces == nil {
			x.implIfaces = map[string]types.Type{}
		}
		x.implIfaces[k] = it
		for _, tk := range sortedTags(x.tags) {
			n := x.tags[tk]
			x.implAxiom(x.tagType[n.num], n, k, it)
		}
	}
	return App("implements:"+k, SBool, tag)
}
func sortedTags(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func (x *Exec) implAxiom(t types.Type, n *Term, ik string, it types.Type) {
	f := App("implements:"+ik, SBool, n)
	if !types.Implements(t, it.Underlying().(*types.Interface)) {
		f = Not(f)
	}
	x.axiom(f)
}

func (x *Exec) mkIface(tag, data *Term) IfaceV {
	if v, ok := x.ifaces[[2]*Term{tag, data}]; ok {
		return v
	}
	v := IfaceV{tag: tag, data: data}
	if tag.op == "num" && tag.num > 0 {
		if t, ok := x.tagType[tag.num]; ok {
			v.dyn = t
			v.val = x.unbox(data, t)
		}
	}
	return v
}

func (x *Exec) unbox(data *Term, t types.Type) Val {
	if _, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return decode([]*Term{data}, t, x)
	}
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = App("unbox:"+typeKey(t)+l.path, l.sort, data)
	}
	return decode(ts, t, x)
}

func (x *Exec) box(v Val, t types.Type) IfaceV {
	tag := x.tagOf(t)
	var data *Term
	if _, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		if p, ok := v.(PtrV); ok && (p.kind != 0 || p.path != "") {
			// keep the static value; identity only at term level
			if p.kind == 2 {
				// try: keep static if never encoded
				data = App("innercell", SInt, Num(int64(p.cell.id)))
			} else {
				data = x.interiorRef(p)
			}
			iv := IfaceV{tag: tag, data: data, dyn: t, val: v}
			x.ifaces[[2]*Term{tag, data}] = iv
			return iv
		}
		data = encode(v, t, x)[0]
	} else {
		ts := encode(v, t, x)
		if len(ts) == 0 {
			data = Num(0)
		} else {
			data = App("box:"+typeKey(t), SInt, ts...)
			for i, l := range leaves(t) {
				x.axiom(Eq(App("unbox:"+typeKey(t)+l.path, l.sort, data), ts[i]))
			}
		}
	}
	iv := IfaceV{tag: tag, data: data, dyn: t, val: v}
	x.ifaces[[2]*Term{tag, data}] = iv
	return iv
}

func (x *Exec) valEq(a, b Val, t types.Type) *Term {
	switch av := a.(type) {
	case PtrV:
		bv := b.(PtrV)
		return x.ptrEq(av, bv)
	case IfaceV:
		bv := b.(IfaceV)
		if bv.tag == Num(0) {
			return Eq(av.tag, Num(0))
		}
		if av.tag == Num(0) {
			return Eq(bv.tag, Num(0))
		}
		return And(Eq(av.tag, bv.tag), Or(Eq(av.tag, Num(0)), Eq(av.data, bv.data)))
	case SliceV:
		bv := b.(SliceV)
		if bv.arr == Num(0) {
			return Eq(av.arr, Num(0))
		}
		if av.arr == Num(0) {
			return Eq(bv.arr, Num(0))
		}
		return And(Eq(av.arr, bv.arr), Eq(av.off, bv.off), Eq(av.len, bv.len))
	}
	ta, tb_ := encode(a, t, x), encode(b, t, x)
	var cs []*Term
	for i := range ta {
		cs = append(cs, Eq(ta[i], tb_[i]))
	}
	return And(cs...)
}

func (x *Exec) isNilPtr(p PtrV) *Term {
	switch p.kind {
	case 0:
		if p.path == "" {
			return Eq(p.ref, Num(0))
		}
		return False
	case 1:
		return Eq(p.arr, Num(0))
	}
	return False
}

func (x *Exec) ptrEq(a, b PtrV) *Term {
	if b.kind == 0 && b.ref == Num(0) && b.path == "" {
		return x.isNilPtr(a)
	}
	if a.kind == 0 && a.ref == Num(0) && a.path == "" {
		return x.isNilPtr(b)
	}
	if a.kind == b.kind && a.path == b.path {
		switch a.kind {
		case 0:
			return Eq(a.ref, b.ref)
		case 1:
			return And(Eq(a.arr, b.arr), Eq(a.idx, b.idx))
		case 2:
			return BoolT(a.cell == b.cell)
		case 3:
			return BoolT(a.gname == b.gname)
		}
	}
	if a.kind == 2 || b.kind == 2 {
		return False
	}
	return Eq(x.ptrTerm(a), x.ptrTerm(b))
}

// ---- merging ----

func (x *Exec) mergeVal(c *Term, a, b Val, t types.Type) Val {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch av := a.(type) {
	case *Term:
		return Ite(c, av, b.(*Term))
	case *StructV:
		bv := b.(*StructV)
		if av == bv {
			return av
		}
		out := &StructV{elems: make([]Val, len(av.elems))}
		for i := range av.elems {
			out.elems[i] = x.mergeVal(c, av.elems[i], bv.elems[i], elemType(t, i))
		}
		return out
	case SliceV:
		bv := b.(SliceV)
		return SliceV{Ite(c, av.arr, bv.arr), Ite(c, av.off, bv.off), Ite(c, av.len, bv.len), Ite(c, av.cap, bv.cap)}
	case PtrV:
		bv := b.(PtrV)
		if av == bv {
			return av
		}
		if av.kind == bv.kind && av.path == bv.path {
			r := av
			switch av.kind {
			case 0:
				r.ref = Ite(c, av.ref, bv.ref)
				return r
			case 1:
				r.arr, r.idx = Ite(c, av.arr, bv.arr), Ite(c, av.idx, bv.idx)
				return r
			case 2:
				if av.cell == bv.cell {
					return av
				}
			case 3:
				if av.gname == bv.gname {
					return av
				}
			}
		}
		if av.kind == 1 && bv.kind == 0 && bv.ref == Num(0) {
			r := av
			r.arr = Ite(c, av.arr, Num(0))
			return r
		}
		if bv.kind == 1 && av.kind == 0 && av.ref == Num(0) {
			r := bv
			r.arr = Ite(c, Num(0), bv.arr)
			return r
		}
		r := PtrV{kind: 0, base: av.typ, typ: av.typ}
		r.ref = Ite(c, x.ptrTerm(av), x.ptrTerm(bv))
		return r
	case IfaceV:
		bv := b.(IfaceV)
		if av.tag == bv.tag && av.data == bv.data {
			return av
		}
		tag, data := Ite(c, av.tag, bv.tag), Ite(c, av.data, bv.data)
		if av.tag == bv.tag && av.dyn != nil && bv.dyn != nil && types.Identical(av.dyn, bv.dyn) {
			iv := IfaceV{tag: tag, data: data, dyn: av.dyn, val: x.mergeVal(c, av.val, bv.val, av.dyn)}
			x.ifaces[[2]*Term{tag, data}] = iv
			return iv
		}
		return x.mkIface(tag, data)
	case FuncV:
		bv := b.(FuncV)
		if av.fn != nil && av.fn == bv.fn && len(av.binds) == len(bv.binds) {
			same := true
			for i := range av.binds {
				if av.binds[i] != bv.binds[i] {
					same = false
				}
			}
			if same {
				return av
			}
		}
		return x.funcOf(Ite(c, x.funcTerm(av), x.funcTerm(bv)))
	case IterV:
		return av
	}
	panic(fmt.Sprintf("mergeVal %T", a))
}

func elemType(t types.Type, i int) types.Type {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Struct:
		return u.Field(i).Type()
	case *types.Array:
		return u.Elem()
	case *types.Tuple:
		return u.At(i).Type()
	}
	return nil
}

// mergeStates joins states coming from different edges. conds[i] distinguishes state i.
func (x *Exec) mergeStates(sts []*State) (*State, []*Term) {
	if len(sts) == 1 {
		return sts[0].clone(), []*Term{True}
	}
	pcs := make([]*Term, len(sts))
	for i, s := range sts {
		pcs[i] = s.pc
	}
	conds := x.relConds(pcs)
	out := sts[len(sts)-1].clone()
	pc := sts[0].pc
	for _, s := range sts[1:] {
		pc = Or(pc, s.pc)
	}
	out.pc = pc
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.heap {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		v := x.cur(sts[len(sts)-1], k)
		for i := len(sts) - 2; i >= 0; i-- {
			v = Ite(conds[i], x.cur(sts[i], k), v)
		}
		out.heap[k] = v
	}
	for _, c := range sortedCells(sts[len(sts)-1].cells) {
		last := sts[len(sts)-1].cells[c]
		v := last
		ok := true
		for i := len(sts) - 2; i >= 0; i-- {
			o, has := sts[i].cells[c]
			if !has {
				ok = false
				break
			}
			v = x.mergeVal(conds[i], o, v, c.typ)
		}
		if ok {
			out.cells[c] = v
		} else {
			delete(out.cells, c)
		}
	}
	A := sts[0].A
	same := true
	for _, s := range sts {
		if s.A != A {
			same = false
		}
	}
	if !same {
		x.k++
		n := Fresh("A_join", SInt)
		for _, s := range sts {
			x.axiom(Implies(s.pc, Le(Add(s.A, Num(x.k)), n)))
		}
		out.A = n
		x.tick()
	}
	return out, conds
}

// relConds strips the conjuncts common to all path conditions.
func (x *Exec) relConds(pcs []*Term) []*Term {
	common := map[*Term]int{}
	for _, p := range pcs {
		for _, c := range conjuncts(p) {
			common[c]++
		}
	}
	out := make([]*Term, len(pcs))
	for i, p := range pcs {
		var own []*Term
		for _, c := range conjuncts(p) {
			if common[c] < len(pcs) {
				own = append(own, c)
			}
		}
		out[i] = And(own...)
	}
	return out
}

// ---- running functions ----

const maxDepth = 14

func (x *Exec) runFunc(fn *ssa.Function, args []Val, binds []Val, st *State, caller *Frame) []retState {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	for _, f := range x.stack {
		if f == fn {
			unsup("recursion in %s without a contract", fnKey(fn))
		}
	}
	if len(x.stack) > maxDepth {
		unsup("inlining too deep at %s", fnKey(fn))
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	x.instN++
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, binds: binds, caller: caller, depth: len(x.stack), inst: x.instN}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, b := range fn.FreeVars {
		if i < len(binds) {
			fr.env[b] = binds[i]
		}
	}
	fr.loops, fr.order = analyzeLoops(fn)
	pending := map[*ssa.BasicBlock][]edge{}
	pending[fn.Blocks[0]] = []edge{{nil, st}}
	done := map[*ssa.BasicBlock]bool{}
	x.runBlocks(fr, fr.order, nil, pending, done)
	return fr.rets
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
}

// runBlocks executes blocks (in order) belonging directly to the region `in` (nil = whole function).
func (x *Exec) runBlocks(fr *Frame, order []*ssa.BasicBlock, in *Loop, pending map[*ssa.BasicBlock][]edge, done map[*ssa.BasicBlock]bool) {
	for _, b := range order {
		if done[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		if l := fr.loops[b]; l != nil && l != in {
			delete(pending, b)
			x.runLoop(fr, l, es, pending)
			for _, lb := range l.blocks {
				done[lb] = true
			}
			continue
		}
		delete(pending, b)
		done[b] = true
		st := x.enterBlock(fr, b, es)
		if st.pc == False {
			continue
		}
		x.runBlock(fr, b, st, pending)
	}
}

func (x *Exec) enterBlock(fr *Frame, b *ssa.BasicBlock, es []edge) *State {
	sts := make([]*State, len(es))
	for i, e := range es {
		sts[i] = e.st
	}
	st, conds := x.mergeStates(sts)
	// phis
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	if len(phis) > 0 {
		vals := make([]Val, len(phis))
		for i, p := range phis {
			var v Val
			for j := len(es) - 1; j >= 0; j-- {
				ev := x.phiIn(fr, p, b, es, j)
				if v == nil {
					v = ev
				} else {
					v = x.mergeVal(conds[j], ev, v, p.Type())
				}
			}
			vals[i] = v
		}
		for i, p := range phis {
			fr.env[p] = vals[i]
		}
	}
	return st
}

func (x *Exec) phiIn(fr *Frame, p *ssa.Phi, b *ssa.BasicBlock, es []edge, j int) Val {
	// nth edge from the same predecessor -> nth matching pred index
	n := 0
	for i := 0; i < j; i++ {
		if es[i].from == es[j].from {
			n++
		}
	}
	for k, pr := range b.Preds {
		if pr == es[j].from {
			if n == 0 {
				return x.val(fr, p.Edges[k])
			}
			n--
		}
	}
	panic("phiIn: no edge")
}

func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State, pending map[*ssa.BasicBlock][]edge) {
	for _, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := x.val(fr, i.Cond).(*Term)
			c = x.simpUnder(st.pc, c)
			t, f := st.clone(), st
			t.pc = And(st.pc, c)
			f.pc = And(st.pc, Not(c))
			if t.pc != False {
				pending[b.Succs[0]] = append(pending[b.Succs[0]], edge{b, t})
			}
			if f.pc != False {
				pending[b.Succs[1]] = append(pending[b.Succs[1]], edge{b, f})
			}
			return
		case *ssa.Jump:
			pending[b.Succs[0]] = append(pending[b.Succs[0]], edge{b, st})
			return
		case *ssa.Return:
			var v Val
			switch len(i.Results) {
			case 0:
			case 1:
				v = x.val(fr, i.Results[0])
			default:
				s := &StructV{}
				for _, r := range i.Results {
					s.elems = append(s.elems, x.val(fr, r))
				}
				v = s
			}
			fr.rets = append(fr.rets, retState{st, v, i.Pos()})
			return
		case *ssa.Panic:
			x.onPanic(fr, st, i.Pos())
			return
		default:
			x.instr(fr, st, in)
			if st.pc == False {
				return
			}
		}
	}
}

func (x *Exec) onPanic(fr *Frame, st *State, pos token.Pos) {
	if x.safe {
		x.oblige(st, "safe", "explicit panic unreachable", False, pos)
	}
	// otherwise: executions that panic are outside the contract
}

// simpUnder replaces conditions already decided by the path condition.
func (x *Exec) simpUnder(pc, c *Term) *Term {
	cs := conjuncts(pc)
	for _, p := range cs {
		if p == c {
			return True
		}
		if p == Not(c) {
			return False
		}
	}
	return c
}

func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	if r, ok := fr.env[v]; ok {
		return r
	}
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return FuncV{fn: c}
	case *ssa.Global:
		return x.globalPtr(c)
	case *ssa.Builtin:
		return FuncV{}
	}
	panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, fr.fn))
}

func (x *Exec) globalPtr(g *ssa.Global) PtrV {
	t := g.Type().(*types.Pointer).Elem()
	return PtrV{kind: 3, gname: pkgShort(g.Pkg.Pkg) + "." + g.Name(), base: t, typ: t}
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := types.Unalias(c.Type())
	if c.Value == nil {
		return zeroVal(t, x)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			n, ok := constant.Int64Val(constant.ToInt(c.Value))
			if !ok {
				return Sym("bigint:"+c.Value.ExactString(), SInt)
			}
			return Num(n)
		case u.Info()&types.IsBoolean != 0:
			return BoolT(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return StrConst(constant.StringVal(c.Value))
		}
		return Sym("float:"+c.Value.ExactString(), SU)
	}
	unsup("const %s", c)
	return nil
}

// freshVal creates an arbitrary value of a type, with well-formedness facts.
func (x *Exec) freshVal(st *State, name string, t types.Type) Val {
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		if l.kind == lkOff {
			ts[i] = Num(0)
			x.notes["slices received from parameters, the heap and calls start at offset 0 of their array"] = true
			continue
		}
		ts[i] = x.freshLeaf(st, name+l.path, l)
	}
	v := decode(ts, t, x)
	x.factsForVal(st, v, t)
	return v
}

func (x *Exec) freshLeaf(st *State, name string, l Leaf) *Term {
	s := Fresh(name, l.sort)
	switch l.kind {
	case lkRef, lkArr:
		x.axiom(And(Le(Num(0), s), Lt(s, st.A)))
		tb.exist[s] = x.clock
	case lkOff, lkLen, lkCap, lkTag:
		x.axiom(Le(Num(0), s))
	case lkPlain:
		if l.sort == SInt && isUnsigned(l.typ) {
			x.axiom(Le(Num(0), s))
		}
	}
	return s
}

func sortTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
