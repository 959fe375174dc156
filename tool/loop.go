package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	head   *ssa.BasicBlock
	blocks []*ssa.BasicBlock // in RPO
	set    map[*ssa.BasicBlock]bool
	parent *Loop

	// during the final run, information for invariant instantiation
	headState *State
	entry     *State
	phiInit   map[*ssa.Phi]Val
	fr        *Frame
	bounds    []*Term
	written   map[*Term]bool // references whose contents the body writes
	anyWrite  bool           // ... or of objects not known before the loop
	kAt       int64
	backVals  *func(p *ssa.Phi, j int) Val
}

func analyzeLoops(fn *ssa.Function) (map[*ssa.BasicBlock]*Loop, []*ssa.BasicBlock) {
	// RPO
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	order := make([]*ssa.BasicBlock, 0, len(post))
	for i := len(post) - 1; i >= 0; i-- {
		order = append(order, post[i])
	}
	idx := map[*ssa.BasicBlock]int{}
	for i, b := range order {
		idx[b] = i
	}
	loops := map[*ssa.BasicBlock]*Loop{}
	for _, b := range order {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				l := loops[s]
				if l == nil {
					l = &Loop{head: s, set: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					w := work[len(work)-1]
					work = work[:len(work)-1]
					if l.set[w] {
						continue
					}
					l.set[w] = true
					for _, p := range w.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			} else if idx[s] <= idx[b] {
				unsup("irreducible control flow in %s", fn)
			}
		}
	}
	for _, l := range loops {
		for b := range l.set {
			l.blocks = append(l.blocks, b)
		}
		sort.Slice(l.blocks, func(i, j int) bool { return idx[l.blocks[i]] < idx[l.blocks[j]] })
	}
	for _, l := range loops {
		for _, m := range loops {
			if m != l && m.set[l.head] {
				if l.parent == nil || len(m.set) < len(l.parent.set) {
					l.parent = m
				}
			}
		}
	}
	return loops, order
}

// mods describes which parts of the state a loop may change.
type mods struct {
	heap  map[string]bool
	cells map[*Cell]map[int]bool // leaf index (encoded) changed; -1 = whole
	phis  map[*ssa.Phi]map[int]bool
}

func headPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func (x *Exec) runLoop(fr *Frame, l *Loop, entries []edge, outer map[*ssa.BasicBlock][]edge) {
	phis := headPhis(l.head)
	// entry state (merged), with the entry values of the phis
	es := make([]*State, len(entries))
	for i := range entries {
		es[i] = entries[i].st
	}
	st0, conds := x.mergeStates(es)
	init := map[*ssa.Phi]Val{}
	for _, p := range phis {
		var v Val
		for j := len(entries) - 1; j >= 0; j-- {
			ev := x.phiIn(fr, p, l.head, entries, j)
			if v == nil {
				v = ev
			} else {
				v = x.mergeVal(conds[j], ev, v, p.Type())
			}
		}
		init[p] = v
	}
	if x.tryUnroll(fr, l, st0, init, outer) {
		return
	}
	m := &mods{heap: map[string]bool{}, cells: map[*Cell]map[int]bool{}, phis: map[*ssa.Phi]map[int]bool{}}
	var bases map[string]map[*Term]bool
	var wild map[string]bool
	startBorn := tb.born
	startClock := x.tick()
	// dry runs until the set of modified parts is stable
	for pass := 0; ; pass++ {
		if pass > 12 {
			unsup("loop modification analysis does not stabilise in %s", fr.fn)
		}
		nf, no, nc := len(x.facts), len(x.obls), len(x.cands)
		savedDefers := len(fr.defers)
		savedRets := len(fr.rets)
		x.dry++
		wl := &writeLog{bases: map[string]map[*Term]bool{}, wild: map[string]bool{}}
		saveW := x.writes
		x.writes = wl
		h := x.headerState(fr, l, st0, init, m, nil, nil, startBorn)
		back, _ := x.runBody(fr, l, h)
		x.writes = saveW
		x.dry--
		changed := x.diffMods(fr, l, h, back, init, m, phis)
		x.facts = x.facts[:nf]
		x.obls = x.obls[:no]
		x.cands = x.cands[:nc]
		fr.defers = fr.defers[:savedDefers]
		fr.rets = fr.rets[:savedRets]
		if !changed {
			bases, wild = wl.bases, wl.wild
			l.bounds = x.loopBounds(fr, l, startBorn)
			break
		}
	}
	// report writes to enclosing logs
	for c, bs := range bases {
		for b := range bs {
			if b.maxB <= startBorn {
				x.logWrite(c, b)
			} else if f, ok := tb.fresh[b]; ok && f >= startClock {
				x.logWrite(c, b) // allocated in here: fresh for the outer loop as well
			} else {
				x.logWrite(c, b)
			}
		}
	}
	for c := range wild {
		x.logWrite(c, nil)
	}
	// final run; outer logs must not see body writes a second time in raw form (they already have them)
	saveW := x.writes
	x.writes = &writeLog{bases: map[string]map[*Term]bool{}, wild: map[string]bool{}}
	h := x.headerState(fr, l, st0, init, m, bases, wild, startBorn)
	l.headState, l.entry, l.phiInit, l.fr = h.clone(), st0, init, fr
	fr.loopStack = append(fr.loopStack, l)
	l.written, l.anyWrite = map[*Term]bool{}, len(wild) > 0
	for _, bs := range bases {
		for b := range bs {
			l.written[b] = true
			for _, v := range invLeaves(b, startBorn) {
				l.written[v] = true
			}
		}
	}
	cands := x.instantiateInvariants(fr, l, st0, h, init, startClock)
	back, exits := x.runBody(fr, l, h)
	// preservation
	if x.dry == 0 {
		x.checkInvariants(fr, l, cands, back)
	}
	fr.loopStack = fr.loopStack[:len(fr.loopStack)-1]
	x.writes = saveW
	for b, ee := range exits {
		outer[b] = append(outer[b], ee...)
	}
}

// headerState builds the state at the loop head for an arbitrary iteration.
func (x *Exec) headerState(fr *Frame, l *Loop, st0 *State, init map[*ssa.Phi]Val, m *mods, bases map[string]map[*Term]bool, wild map[string]bool, startBorn int) *State {
	h := st0.clone()
	x.bumpA(h, "loop")
	frontier := st0.A
	var canon []canonReq
	kAt := x.k
	l.kAt = kAt
	final := bases != nil
	for _, k := range sortedKeys(m.heap) {
		c0 := x.cur(st0, k)
		ci := x.comps[k]
		if !final || ci.kind == 5 || ci.kind == 6 || wild[k] {
			n := Fresh("L:"+k, ci.sort)
			h.heap[k] = n
			x.wfComp(k, n, h.A, True, false)
			canon = append(canon, canonReq{k, n, nil})
			continue
		}
		var inv []*Term
		var fresh bool
		ok := true
		for _, b := range sortTerms(bases[k]) {
			if b.maxB <= startBorn {
				inv = append(inv, b)
			} else if f, isF := tb.fresh[b]; isF && f > 0 && b.maxB > startBorn {
				_ = f
				fresh = true
			} else if allFreshIte(b, startBorn) {
				fresh = true
				inv = append(inv, invLeaves(b, startBorn)...)
			} else {
				ok = false
			}
		}
		if !ok {
			n := Fresh("L:"+k, ci.sort)
			h.heap[k] = n
			x.wfComp(k, n, h.A, True, false)
			canon = append(canon, canonReq{k, n, nil})
			continue
		}
		if !fresh {
			cur := c0
			_, vs := arraySorts(ci.sort)
			for _, b := range inv {
				n := Fresh("Lv:"+k, vs)
				cur = Store(cur, b, n)
				x.wfCompVal(k, n, h.A)
				canon = append(canon, canonReq{k, n, b})
			}
			h.heap[k] = cur
			continue
		}
		n := Fresh("L:"+k, ci.sort)
		h.heap[k] = n
		x.wfComp(k, n, h.A, True, false)
		canon = append(canon, canonReq{k, n, nil})
		r := BVar("r", SInt)
		cond := []*Term{Lt(r, Add(frontier, Num(kAt)))}
		for _, b := range inv {
			cond = append(cond, Not(Eq(r, b)))
		}
		s := Select(n, r)
		x.axiom(Forall([]*Term{r}, Implies(And(cond...), Eq(s, Select(c0, r))), []*Term{s}))
	}
	x.canon(h, canon)
	for _, c := range sortedCells(m.cells) {
		ls := m.cells[c]
		old, ok := st0.cells[c]
		if !ok {
			continue
		}
		h.cells[c] = x.havocLeaves(h, "cell_"+c.key, c, old, c.typ, ls)
	}
	for _, p := range headPhis(l.head) {
		fr.env[p] = x.havocLeaves(h, "phi_"+p.Comment, nil, init[p], p.Type(), m.phis[p])
	}
	return h
}

// a base that is an ite over fresh refs and loop-invariant refs
func allFreshIte(b *Term, born int) bool {
	if b.op == "ite" {
		return allFreshIte(b.args[1], born) && allFreshIte(b.args[2], born)
	}
	if b.maxB <= born {
		return true
	}
	_, ok := tb.fresh[b]
	return ok
}
func invLeaves(b *Term, born int) []*Term {
	if b.op == "ite" {
		return append(invLeaves(b.args[1], born), invLeaves(b.args[2], born)...)
	}
	if b.maxB <= born {
		return []*Term{b}
	}
	return nil
}

func (x *Exec) wfCompVal(key string, v *Term, A *Term) {
	ci := x.comps[key]
	leafFact := func(v *Term) *Term {
		switch ci.leaf.kind {
		case lkRef, lkArr:
			return And(Le(Num(0), v), Lt(v, A))
		case lkOff, lkLen, lkCap, lkTag:
			return Le(Num(0), v)
		}
		if ci.leaf.kind == lkPlain && ci.leaf.sort == SInt && isUnsigned(ci.leaf.typ) {
			return Le(Num(0), v)
		}
		return True
	}
	switch ci.kind {
	case 0:
		x.axiom(leafFact(v))
	case 1, 3:
		ks, _ := arraySorts(v.sort)
		i := BVar("i", ks)
		s := Select(v, i)
		if f := leafFact(s); f != True {
			x.axiom(Forall([]*Term{i}, f, []*Term{s}))
		}
	case 4:
		x.axiom(Le(Num(0), v))
	}
}

func (x *Exec) havocLeaves(st *State, name string, c *Cell, old Val, t types.Type, which map[int]bool) Val {
	if len(which) == 0 {
		return old
	}
	if c != nil && t == nil { // ghost cell (visited set)
		return Fresh(name, old.(*Term).sort)
	}
	// values that cannot be encoded (static pointers etc.) must not change
	switch ov := old.(type) {
	case IterV:
		return old
	case PtrV:
		if ov.kind == 2 || ov.kind == 3 {
			unsup("loop-carried static pointer %s changes", name)
		}
		if ov.kind == 1 {
			return PtrV{kind: 1, arr: x.freshLeaf(st, name+"_arr", Leaf{"", SInt, lkArr, nil}), idx: x.freshLeaf(st, name+"_idx", Leaf{"", SInt, lkLen, nil}), base: ov.base, path: ov.path, typ: ov.typ}
		}
	}
	ts := encode(old, t, x)
	ls := leaves(t)
	nt := make([]*Term, len(ts))
	for i := range ts {
		if which[i] || which[-1] {
			nt[i] = x.freshLeaf(st, name+ls[i].path, ls[i])
		} else {
			nt[i] = ts[i]
		}
	}
	v := decode(nt, t, x)
	x.factsForVal(st, v, t)
	return v
}

func (x *Exec) runBody(fr *Frame, l *Loop, h *State) (back []edge, exits map[*ssa.BasicBlock][]edge) {
	pending := map[*ssa.BasicBlock][]edge{}
	done := map[*ssa.BasicBlock]bool{}
	st := h.clone()
	// execute the header block itself (phis already set)
	x.runBlock(fr, l.head, st, pending)
	done[l.head] = true
	back = append(back, pending[l.head]...)
	delete(pending, l.head)
	var inner []*ssa.BasicBlock
	for _, b := range l.blocks {
		if b != l.head {
			inner = append(inner, b)
		}
	}
	x.runBlocks(fr, inner, l, pending, done)
	back = append(back, pending[l.head]...)
	delete(pending, l.head)
	exits = map[*ssa.BasicBlock][]edge{}
	for b, ee := range pending {
		if l.set[b] {
			panic("unprocessed block in loop " + b.String())
		}
		exits[b] = ee
	}
	return back, exits
}

func (x *Exec) diffMods(fr *Frame, l *Loop, h *State, back []edge, init map[*ssa.Phi]Val, m *mods, phis []*ssa.Phi) bool {
	changed := false
	for j, e := range back {
		for _, k := range sortedKeys(e.st.heap) {
			if x.cur(e.st, k) != x.cur(h, k) && !m.heap[k] {
				m.heap[k] = true
				changed = true
			}
		}
		for _, c := range sortedCells(h.cells) {
			v := h.cells[c]
			nv, ok := e.st.cells[c]
			if !ok {
				continue
			}
			if x.diffVal(v, nv, c.typ, func(i int) {
				if m.cells[c] == nil {
					m.cells[c] = map[int]bool{}
				}
				if !m.cells[c][i] {
					m.cells[c][i] = true
					changed = true
				}
			}) {
			}
		}
		for _, p := range phis {
			nv := x.phiIn(fr, p, l.head, back, j)
			hv := fr.env[p]
			p := p
			x.diffVal(hv, nv, p.Type(), func(i int) {
				if m.phis[p] == nil {
					m.phis[p] = map[int]bool{}
				}
				if !m.phis[p][i] {
					m.phis[p][i] = true
					changed = true
				}
			})
		}
	}
	return changed
}

func (x *Exec) diffVal(a, b Val, t types.Type, f func(i int)) bool {
	if a == b {
		return false
	}
	if t == nil {
		if a != b {
			f(0)
		}
		return true
	}
	if pa, ok := a.(PtrV); ok {
		pb := b.(PtrV)
		if pa.kind == pb.kind && pa.path == pb.path && pa.cell == pb.cell && pa.ref == pb.ref && pa.arr == pb.arr && pa.idx == pb.idx && pa.gname == pb.gname {
			return false
		}
		if pa.kind == 0 && pa.path == "" && pb.kind != 0 {
			// nil (or object) pointer that becomes an element pointer
			f(0)
			return true
		}
		if pa.kind == 1 {
			f(0)
			return true
		}
	}
	if fa, ok := a.(FuncV); ok {
		fb := b.(FuncV)
		if fa.fn != nil && fa.fn == fb.fn && len(fa.binds) == 0 && len(fb.binds) == 0 {
			return false
		}
	}
	if _, ok := a.(IterV); ok {
		return false
	}
	ta, tb2 := encode(a, t, x), encode(b, t, x)
	ch := false
	for i := range ta {
		if ta[i] != tb2[i] {
			f(i)
			ch = true
		}
	}
	return ch
}

func (l *Loop) name(x *Exec) string {
	pos := l.head.Instrs[0].Pos()
	for _, b := range l.blocks {
		if pos.IsValid() {
			break
		}
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				pos = in.Pos()
				break
			}
		}
	}
	p := x.eng.prog.Fset.Position(pos)
	return fmt.Sprintf("%s:%s:%d", fnKey(l.head.Parent()), l.head.Comment, p.Line)
}

// loopBounds collects loop-invariant integer operands of comparisons in the loop.
func (x *Exec) loopBounds(fr *Frame, l *Loop, born int) []*Term {
	seen := map[*Term]bool{}
	for _, b := range l.blocks {
		if x.innerLoop(fr, l, b) {
			continue
		}
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op.String() {
			case "<", "<=", ">", ">=", "==", "!=":
			default:
				continue
			}
			for i, o := range []ssa.Value{bo.X, bo.Y} {
				if !phiBased(l, []ssa.Value{bo.Y, bo.X}[i], 0) {
					continue
				}
				var v Val
				if c, ok := o.(*ssa.Const); ok {
					if c.Value == nil {
						continue
					}
					v = x.constVal(c)
				} else {
					v = fr.env[o]
				}
				if t, ok := v.(*Term); ok && t.sort == SInt && t.maxB <= born {
					seen[t] = true
				}
			}
		}
	}
	return sortTerms(seen)
}

// phiBased: the value is a header phi, or a header phi plus or minus something.
func phiBased(l *Loop, v ssa.Value, d int) bool {
	switch u := v.(type) {
	case *ssa.Phi:
		return u.Block() == l.head
	case *ssa.BinOp:
		return d < 3 && (phiBased(l, u.X, d+1) || phiBased(l, u.Y, d+1))
	case *ssa.Convert:
		return d < 3 && phiBased(l, u.X, d+1)
	}
	return false
}

const maxUnroll = 9

// tryUnroll executes the loop exactly when the header condition folds to a constant on every
// iteration (constant trip count up to maxUnroll). Complete, no bound introduced.
func (x *Exec) tryUnroll(fr *Frame, l *Loop, st0 *State, init map[*ssa.Phi]Val, outer map[*ssa.BasicBlock][]edge) bool {
	if _, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	for _, in := range l.head.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return false
		}
	}
	nf, no, nc, nd, nr := len(x.facts), len(x.obls), len(x.cands), len(fr.defers), len(fr.rets)
	abort := func() bool {
		x.facts, x.obls, x.cands, fr.defers, fr.rets = x.facts[:nf], x.obls[:no], x.cands[:nc], fr.defers[:nd], fr.rets[:nr]
		return false
	}
	phis := headPhis(l.head)
	vals := init
	st := st0.clone()
	exits := map[*ssa.BasicBlock][]edge{}
	for it := 0; it <= maxUnroll; it++ {
		for _, p := range phis {
			fr.env[p] = vals[p]
		}
		// header only
		probe := st.clone()
		pending := map[*ssa.BasicBlock][]edge{}
		x.runBlock(fr, l.head, probe, pending)
		var inE, outE int
		for b, es := range pending {
			if l.set[b] {
				inE += len(es)
			} else {
				outE += len(es)
			}
		}
		if inE > 0 && outE > 0 {
			return abort()
		}
		if inE == 0 {
			for b, es := range pending {
				exits[b] = append(exits[b], es...)
			}
			for b, es := range exits {
				outer[b] = append(outer[b], es...)
			}
			return true
		}
		done := map[*ssa.BasicBlock]bool{l.head: true}
		var inner []*ssa.BasicBlock
		for _, b := range l.blocks {
			if b != l.head {
				inner = append(inner, b)
			}
		}
		back := pending[l.head]
		delete(pending, l.head)
		x.runBlocks(fr, inner, l, pending, done)
		back = append(back, pending[l.head]...)
		delete(pending, l.head)
		for b, es := range pending {
			// values leaving the loop through phis outside are read from env when the block is
			// entered, so several early exits from different iterations cannot be merged later
			if len(es) > 0 {
				if hasPhiFromLoop(b, l) || usesLoopVals(l) {
					return abort()
				}
				exits[b] = append(exits[b], es...)
			}
		}
		if len(back) == 0 {
			for b, es := range exits {
				outer[b] = append(outer[b], es...)
			}
			return true
		}
		sts := make([]*State, len(back))
		for i := range back {
			sts[i] = back[i].st
		}
		m, conds := x.mergeStates(sts)
		nv := map[*ssa.Phi]Val{}
		for _, p := range phis {
			var v Val
			for j := len(back) - 1; j >= 0; j-- {
				ev := x.phiIn(fr, p, l.head, back, j)
				if v == nil {
					v = ev
				} else {
					v = x.mergeVal(conds[j], ev, v, p.Type())
				}
			}
			nv[p] = v
		}
		vals = nv
		st = m
	}
	return abort()
}

func hasPhiFromLoop(b *ssa.BasicBlock, l *Loop) bool {
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			return false
		}
		for i, e := range p.Edges {
			if l.set[b.Preds[i]] {
				if _, isC := e.(*ssa.Const); !isC {
					if in, ok := e.(ssa.Instruction); ok && l.set[in.Block()] {
						return true
					}
				}
			}
		}
	}
	return false
}

// usesLoopVals: some value defined in the loop is used outside it other than through phis.
func usesLoopVals(l *Loop) bool {
	for b := range l.set {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if _, isPhi := r.(*ssa.Phi); isPhi {
					continue
				}
				if r.Block() != nil && !l.set[r.Block()] {
					return true
				}
			}
		}
	}
	return false
}
