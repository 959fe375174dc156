package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type RootResult struct {
	Key         string
	Status      string // proved, failed, unsupported, missing
	Msg         string
	Obls        []*Obl
	Discharged  int
	Total       int
	Failed      []*Obl
	Cands       int
	CandsAlive  int
	Invs        []string
	Notes       []string
	Trusted     []string
	Inlined     []string
	Used        []string
	Secs        float64
	Backends    map[string]int
	CandQueries int
}

var verbose = os.Getenv("GOVC_V") != ""

type budget struct{ candT, quick, slow float64 }

func (e *Engine) newExec(fn *ssa.Function, con *Contract, escaped map[ssa.Value]bool) *Exec {
	x := &Exec{eng: e, root: fn, con: con, comps: map[string]*compInfo{}, heap0: map[string]*Term{}, escaped: escaped,
		funcs: map[*Term]FuncV{}, funcIDs: map[*ssa.Function]*Term{}, tags: map[string]*Term{}, tagType: map[int64]types.Type{}, ifaces: map[[2]*Term]IfaceV{},
		notes: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{}, axDone: map[string]bool{}, cellOwner: map[*Cell]ssa.Value{},
		usedContracts: map[string]bool{}, paramEnv: map[string]SV{}}
	x.A0 = Fresh("A0", SInt)
	x.base = append(x.base, Le(Num(1), x.A0))
	return x
}

// Verify generates and discharges the obligations of one contract.
func (e *Engine) Verify(con *Contract, b budget) (res *RootResult) {
	start := time.Now()
	resetBank() // the queries of one function must not depend on which functions were verified before it
	res = &RootResult{Key: con.key, Backends: map[string]int{}}
	defer func() {
		res.Secs = time.Since(start).Seconds()
		if r := recover(); r != nil {
			switch u := r.(type) {
			case Unsupported:
				res.Status, res.Msg = "unsupported", u.msg
			case specErr:
				res.Status, res.Msg = "unsupported", "contract does not fit the code: "+u.msg
			default:
				res.Status, res.Msg = "unsupported", fmt.Sprintf("internal: %v", r)
				if verbose || os.Getenv("GOVC_TRACE") != "" {
					debug.PrintStack()
				}
			}
		}
	}()
	var x *Exec
	if con.lemma {
		x = e.lemma(con)
	} else {
		fn := e.fns[strings.SplitN(con.key, "@", 2)[0]] // "f@view" is another contract of f, not used by callers
		if fn == nil {
			res.Status, res.Msg = "missing", "function "+con.key+" not found"
			return
		}
		x = e.generate(fn, con)
	}
	e.discharge(x, res, b)
	return
}

func (e *Engine) lemma(con *Contract) *Exec {
	x := e.newExec(nil, con, map[ssa.Value]bool{})
	st := &State{pc: True, heap: map[string]*Term{}, cells: map[*Cell]Val{}, A: x.A0}
	x.entry = st.clone()
	env := &Env{x: x, st: st, old: x.entry, vars: map[string]SV{}}
	for _, v := range con.lemmaVars {
		t := e.resolveType(v.typ)
		var val Val
		switch t.(type) {
		case *SetT, *GMapT:
			val = Fresh(v.name, ghostSort(t))
		default:
			val = x.freshVal(st, v.name, t)
		}
		env.vars[v.name] = SV{val, t}
	}
	x.addAxioms(env)
	for _, r := range con.requires {
		x.assume(st, env.bool(r.e))
	}
	x.oblige(st, "cover", "hypotheses are satisfiable", False, token.NoPos)
	for _, c := range con.ensures {
		x.oblige(st, "ensures", clauseName(c), env.bool(c.e), token.NoPos)
	}
	return x
}

func (x *Exec) addAxioms(env *Env) {
	// only axioms whose symbols exist are harmless; add all declared in the same file
	for _, a := range x.eng.specs.axioms {
		x.base = append(x.base, env.bool(a.e))
	}
}

func (e *Engine) generate(fn *ssa.Function, con *Contract) *Exec {
	escaped := map[ssa.Value]bool{}
	for n := 0; n < 60; n++ {
		x := e.newExec(fn, con, escaped)
		again := func() (again bool) {
			defer func() {
				if r := recover(); r != nil {
					if rs, ok := r.(restart); ok {
						if escaped[rs.v] {
							panic(Unsupported{"cannot materialise " + rs.v.String()})
						}
						escaped[rs.v] = true
						again = true
						return
					}
					panic(r)
				}
			}()
			x.runRoot()
			return false
		}()
		if !again {
			return x
		}
	}
	panic(Unsupported{"too many restarts"})
}

func (x *Exec) runRoot() {
	fn, con := x.root, x.con
	x.safe = con.safe
	st := &State{pc: True, heap: map[string]*Term{}, cells: map[*Cell]Val{}, A: x.A0}
	if len(con.params) != len(fn.Params) {
		serr("contract %s names %d parameters, function has %d", con.key, len(con.params), len(fn.Params))
	}
	for i, p := range fn.Params {
		v := x.freshVal(st, "p:"+con.params[i], p.Type())
		if s, ok := v.(SliceV); ok {
			x.base = append(x.base, Le(Num(0), s.len))
			s.off = Num(0)
			v = s
			x.factsForVal(st, v, p.Type())
		}
		x.params = append(x.params, v)
		x.paramEnv[con.params[i]] = SV{v, p.Type()}
	}
	if fn.Signature.Recv() != nil {
		if p, ok := x.params[0].(PtrV); ok {
			x.assume(st, Not(x.isNilPtr(p)))
		}
	}
	var binds []Val
	for _, fv := range fn.FreeVars {
		binds = append(binds, x.freshVal(st, "fv:"+fv.Name(), fv.Type()))
	}
	x.entry = st.clone()
	env := &Env{x: x, st: st, old: x.entry, vars: x.paramEnv}
	x.addAxioms(env)
	for _, r := range con.requires {
		x.assume(st, env.bool(r.e))
	}
	x.oblige(st, "cover", "precondition is satisfiable", False, token.NoPos)
	rets := x.runFunc(fn, x.params, binds, st.clone(), nil)
	live := 0
	for i, r := range rets {
		if r.st.pc == False {
			continue
		}
		live++
		post := &Env{x: x, st: r.st, old: x.entry, vars: map[string]SV{}}
		for k, v := range x.paramEnv {
			post.vars[k] = v
		}
		x.bindResults(post, con, fn.Signature, r.val)
		x.oblige(r.st, "cover", fmt.Sprintf("return %d reachable", i), False, r.pos)
		for _, c := range con.ensures {
			x.oblige(r.st, "ensures", clauseName(c), post.bool(c.e), r.pos)
		}
		if con.hasMod {
			x.frameObls(env, r.st, con, r.pos)
		}
	}
	if live == 0 {
		x.oblige(st, "ensures", "function returns normally on some path", False, token.NoPos)
	}
}

func (x *Exec) frameObls(env *Env, st *State, con *Contract, pos token.Pos) {
	allowed := map[string][]*Term{}
	all := map[string]bool{}
	e0 := *env
	e0.st = x.entry
	for _, m := range con.modifies {
		for _, l := range e0.locations(m) {
			for _, k := range l.comps {
				if l.base == nil {
					all[k] = true
				} else {
					allowed[k] = append(allowed[k], l.base)
				}
			}
		}
	}
	keys := make([]string, 0)
	for k := range st.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		t := st.heap[k]
		t0 := x.heap0[k]
		if t == t0 || all[k] {
			continue
		}
		ci := x.comps[k]
		if ci.kind == 5 || ci.kind == 6 {
			x.oblige(st, "frame", "frame: "+k+" unchanged", Eq(t, t0), pos)
			continue
		}
		r := BVar("r", SInt)
		cond := []*Term{Lt(r, x.A0), Le(Num(0), r)}
		for _, b := range allowed[k] {
			cond = append(cond, Not(Eq(r, b)))
		}
		var eq *Term
		if ci.kind == 0 || ci.kind == 4 {
			eq = Eq(Select(t, r), Select(t0, r))
		} else {
			ks, _ := arraySorts(Select(t, r).sort)
			j := BVar("j", ks)
			eq = Forall([]*Term{j}, Eq(Select(Select(t, r), j), Select(Select(t0, r), j)))
		}
		g := Forall([]*Term{r}, Implies(And(cond...), eq))
		x.oblige(st, "frame", "frame: only declared parts of "+k+" change", g, pos)
	}
}

// query builds the assertion set for an obligation.
func (x *Exec) query(o *Obl, acts map[*Term]bool) []*Term {
	out := make([]*Term, 0, o.nfact+len(x.base)+8)
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t != True && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	if o.contra == nil {
		o.contra = map[*Term]bool{}
	}
	contra := o.contra
	m := map[*Term]*Term{}
	for a, alive := range acts {
		m[a] = BoolT(alive)
	}
	for _, f := range x.base {
		add(f)
	}
	for _, f := range x.facts[:o.nfact] {
		if f.op == "=>" {
			// facts guarded by a contradictory path are useless
			g := f.args[0]
			c, ok := contra[g]
			if !ok {
				c = contradictory(g, o.pc) || propContra(g, o.pc)
				contra[g] = c
			}
			if c {
				continue
			}
		}
		add(substActs(f, m))
	}
	add(o.pc)
	if o.kind != "cover" {
		add(Not(o.goal))
	}
	if len(o.lits) > 0 { // case split: the chosen conditions are rewritten away everywhere
		res := make([]*Term, 0, len(out))
		for _, t := range out {
			if t = Subst(t, o.lits); t != True {
				res = append(res, t)
			}
		}
		for c, v := range o.lits {
			if v == False {
				c = Not(c)
			}
			res = append(res, c)
		}
		sort.SliceStable(res[len(res)-len(o.lits):], func(i, j int) bool {
			return res[len(res)-len(o.lits)+i].String() < res[len(res)-len(o.lits)+j].String()
		})
		return res
	}
	return out
}

// splitAtom finds a path condition the goal's heap depends on (the condition of an array-valued ite).
func splitAtom(t *Term, seen map[*Term]bool) *Term {
	if seen[t] {
		return nil
	}
	seen[t] = true
	if t.op == "ite" && strings.HasPrefix(string(t.sort), "(Array ") && !t.args[0].hasV {
		c := t.args[0]
		for c.op == "not" {
			c = c.args[0]
		}
		return c
	}
	for _, a := range t.args {
		if c := splitAtom(a, seen); c != nil {
			return c
		}
	}
	return nil
}

// propContra decides by unit propagation whether a and b cannot both hold.
func propContra(a, b *Term) bool {
	val := map[*Term]bool{}
	var pend []*Term
	bad := false
	var assert func(t *Term, pos bool)
	assert = func(t *Term, pos bool) {
		if bad {
			return
		}
		if t.op == "not" {
			assert(t.args[0], !pos)
			return
		}
		if t == True || t == False {
			if (t == True) != pos {
				bad = true
			}
			return
		}
		if v, ok := val[t]; ok {
			if v != pos {
				bad = true
			}
			return
		}
		val[t] = pos
		switch {
		case t.op == "and" && pos, t.op == "or" && !pos:
			for _, c := range t.args {
				assert(c, pos)
			}
		case t.op == "or", t.op == "and", t.op == "=>":
			pend = append(pend, t)
		}
	}
	var eval func(t *Term, d int) int // 1 true, -1 false, 0 unknown
	eval = func(t *Term, d int) int {
		if t == True {
			return 1
		}
		if t == False {
			return -1
		}
		if t.op == "not" {
			return -eval(t.args[0], d)
		}
		if v, ok := val[t]; ok {
			if v {
				return 1
			}
			return -1
		}
		if d > 3 {
			return 0
		}
		if t.op == "and" || t.op == "or" {
			sign := 1
			if t.op == "or" {
				sign = -1
			}
			all := true
			for _, c := range t.args {
				switch eval(c, d+1) * sign {
				case -1:
					return -sign
				case 0:
					all = false
				}
			}
			if all {
				return sign
			}
		}
		return 0
	}
	assert(a, true)
	assert(b, true)
	for n := 0; n < 6 && !bad; n++ {
		before := len(val)
		for i := 0; i < len(pend) && !bad; i++ {
			t := pend[i]
			pos := val[t]
			var lits []*Term
			var want bool
			switch {
			case t.op == "or" && pos:
				lits, want = t.args, true
			case t.op == "and" && !pos:
				lits, want = t.args, false
			case t.op == "=>" && pos:
				lits, want = []*Term{Not(t.args[0]), t.args[1]}, true
			default:
				continue
			}
			var open *Term
			sat, nopen := false, 0
			for _, c := range lits {
				e := eval(c, 0)
				if !want {
					e = -e
				}
				if e == 1 {
					sat = true
					break
				}
				if e == 0 {
					nopen++
					open = c
				}
			}
			if sat {
				continue
			}
			if nopen == 0 {
				bad = true
			} else if nopen == 1 {
				assert(open, want)
			}
		}
		if len(val) == before {
			break
		}
	}
	return bad
}

func contradictory(a, b *Term) bool {
	in := map[*Term]bool{}
	for _, c := range conjuncts(b) {
		in[c] = true
	}
	for _, c := range conjuncts(a) {
		if in[Not(c)] {
			return true
		}
	}
	return false
}

func substActs(f *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 || f.op != "=>" {
		return f
	}
	g := f.args[0]
	has := false
	for _, c := range conjuncts(g) {
		if _, ok := m[c]; ok {
			has = true
		}
	}
	if !has {
		return f
	}
	var cs []*Term
	for _, c := range conjuncts(g) {
		if v, ok := m[c]; ok {
			c = v
		}
		cs = append(cs, c)
	}
	return Implies(And(cs...), f.args[1])
}

var termMu sync.Mutex // the term bank is not thread safe; queries are rendered under it

func (e *Engine) discharge(x *Exec, res *RootResult, b budget) {
	acts := map[*Term]bool{}
	for _, c := range x.cands {
		acts[c.act] = true
	}
	render := func(o *Obl) string {
		return Script(x.query(o, acts), "(set-logic ALL)\n") + "(check-sat)\n"
	}
	solve := func(o *Obl, quick, slow float64) SolveResult {
		termMu.Lock()
		script := o.script
		if script == "" {
			script = render(o)
		}
		termMu.Unlock()
		return solveScript(x.con.key+"__"+o.name, script, quick, slow)
	}
	// split proves an undecided obligation by cases on the path conditions its heap depends on
	var split func(o *Obl, depth int) SolveResult
	split = func(o *Obl, depth int) SolveResult {
		termMu.Lock()
		a := splitAtom(Subst(o.goal, o.lits), map[*Term]bool{})
		termMu.Unlock()
		r := SolveResult{Res: "unknown", Solver: "z3-new"}
		if a == nil || depth == 0 {
			return r
		}
		secs := 0.0
		for _, v := range []*Term{True, False} {
			c := *o
			c.contra, c.script = nil, ""
			c.lits = map[*Term]*Term{a: v}
			for k, w := range o.lits {
				c.lits[k] = w
			}
			q := solve(&c, b.quick, 0)
			secs += q.Secs
			if q.Res != "unsat" && q.Res != "sat" {
				q = split(&c, depth-1)
				secs += q.Secs
			}
			r = q
			if q.Res != "unsat" {
				if q.Res == "sat" {
					r.Res = "unknown" // not of the original query
				}
				break
			}
		}
		r.Secs = secs
		return r
	}
	// rendering creates terms: it is done in order, so that the text of the queries is reproducible
	parallel := func(os_ []*Obl, f func(*Obl) SolveResult) []SolveResult {
		var out []SolveResult
		for len(os_) > 0 {
			n := len(os_)
			if n > 64 {
				n = 64
			}
			for _, o := range os_[:n] {
				o.script = render(o)
			}
			out = append(out, parallel(os_[:n], f)...)
			for _, o := range os_[:n] {
				o.script = ""
			}
			os_ = os_[n:]
		}
		return out
	}
	// Houdini
	var candObls, main []*Obl
	for _, o := range x.obls {
		if o.cand != nil {
			candObls = append(candObls, o)
		} else {
			main = append(main, o)
		}
	}
	for round := 0; ; round++ {
		var todo []*Obl
		for _, o := range candObls {
			if o.cand.alive && !o.solved {
				todo = append(todo, o)
			}
		}
		if len(todo) == 0 {
			break
		}
		type out struct {
			o *Obl
			r SolveResult
		}
		rs := parallel(todo, func(o *Obl) SolveResult { return solve(o, b.candT, 0) })
		killed := false
		kill := func(o *Obl, r SolveResult) {
			if o.cand.alive {
				o.cand.alive = false
				acts[o.cand.act] = false
				killed = true
				if verbose {
					fmt.Fprintf(os.Stderr, "  drop %s @%s (%s: %s)\n", o.cand.text, o.cand.loop, o.kind, r.Res)
				}
			}
		}
		var hard []*Obl
		for i, o := range todo {
			res.CandQueries++
			if rs[i].Res == "unsat" {
				o.solved = true
			} else if o.cand.user && rs[i].Res != "sat" {
				hard = append(hard, o)
			} else {
				kill(o, rs[i])
			}
		}
		if !killed && len(hard) > 0 {
			rs := parallel(hard, func(o *Obl) SolveResult { return solve(o, 2*b.candT, 6*b.candT) })
			for i, o := range hard {
				if rs[i].Res == "unsat" {
					o.solved = true
				} else {
					kill(o, rs[i])
				}
			}
		}
		if !killed {
			break
		}
		for _, o := range candObls {
			o.solved = false
		}
	}
	for _, c := range x.cands {
		res.Cands++
		if c.alive {
			res.CandsAlive++
			res.Invs = append(res.Invs, c.loop+": "+c.text)
			if verbose {
				fmt.Fprintf(os.Stderr, "  keep %s @%s\n", c.text, c.loop)
			}
		}
	}
	// final
	rs := parallel(main, func(o *Obl) SolveResult {
		if o.kind == "cover" {
			return solve(o, 1.5, 0)
		}
		r := solve(o, b.quick, b.slow)
		if r.Res == "unsat" || r.Res == "sat" {
			return r
		}
		termMu.Lock()
		parts := goalParts(o.goal)
		termMu.Unlock()
		if r.Res != "unsat" && r.Res != "sat" && len(parts) == 1 {
			q := split(o, 3)
			q.Secs += r.Secs
			return q
		}
		if r.Res != "unsat" && r.Res != "sat" && len(parts) > 1 {
			// an undecided conjunction is retried conjunct by conjunct
			for _, g := range parts {
				c := *o
				c.goal, c.contra, c.script = g, nil, ""
				q := solve(&c, b.quick, b.slow)
				if q.Res != "unsat" && q.Res != "sat" {
					q = split(&c, 3)
				}
				q.Secs += r.Secs
				r = q
				if q.Res != "unsat" {
					if verbose {
						fmt.Fprintf(os.Stderr, "  undecided conjunct of %s: %s\n", o.name, trunc(g.String(), 600))
					}
					break
				}
			}
		}
		return r
	})
	coverOK, covers := 0, 0
	for i, o := range main {
		o.res = rs[i]
		if o.kind == "cover" {
			covers++
			if o.res.Res != "unsat" {
				coverOK++
			} else if strings.HasPrefix(o.name, "precondition") || strings.HasPrefix(o.name, "hypotheses") {
				res.Failed = append(res.Failed, o)
				o.name = "vacuity: " + o.name
			}
			continue
		}
		res.Total++
		res.Obls = append(res.Obls, o)
		if o.res.Res == "unsat" {
			res.Discharged++
			res.Backends[o.res.Solver]++
		} else {
			res.Failed = append(res.Failed, o)
		}
	}
	for _, o := range candObls {
		if o.cand.alive {
			res.Total++
			res.Discharged++
			res.Backends["z3-new"]++
		}
	}
	if covers > 1 && coverOK <= 1 {
		res.Failed = append(res.Failed, &Obl{name: "vacuity: no return is reachable", kind: "cover"})
	}
	if len(main) == 0 || res.Total == 0 {
		res.Failed = append(res.Failed, &Obl{name: "vacuity: no obligations generated", kind: "cover"})
	}
	for n := range x.notes {
		res.Notes = append(res.Notes, n)
	}
	sort.Strings(res.Notes)
	for n := range x.trusted {
		res.Trusted = append(res.Trusted, n)
	}
	sort.Strings(res.Trusted)
	for n := range x.inlined {
		res.Inlined = append(res.Inlined, n)
	}
	sort.Strings(res.Inlined)
	for n := range x.usedContracts {
		res.Used = append(res.Used, n)
	}
	sort.Strings(res.Used)
	if len(res.Failed) == 0 {
		res.Status = "proved"
	} else {
		res.Status = "failed"
	}
}

func parallel(os_ []*Obl, f func(*Obl) SolveResult) []SolveResult {
	out := make([]SolveResult, len(os_))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := range os_ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			out[i] = f(os_[i])
		}(i)
	}
	wg.Wait()
	return out
}

func goalParts(t *Term) []*Term {
	switch t.op {
	case "and":
		var out []*Term
		for _, a := range t.args {
			out = append(out, goalParts(a)...)
		}
		return out
	case "=>":
		ps := goalParts(t.args[1])
		if len(ps) > 1 {
			var out []*Term
			for _, p := range ps {
				out = append(out, Implies(t.args[0], p))
			}
			return out
		}
	}
	return []*Term{t}
}
