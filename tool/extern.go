package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// externRule classifies external functions by prefix of their key.
//
//	noop: no effect on modelled state, arbitrary result
//	pure: deterministic function of its arguments, no effect
var rulePrefixes = []struct{ prefix, rule string }{
	{"sync.Mutex.", "noop"}, {"sync/atomic.Bool.", "noop"}, {"sync.RWMutex.", "noop"}, {"sync.WaitGroup.", "noop"}, {"sync.Locker.", "noop"},
	{"github.com/rs/zerolog", "noop"}, {"github.com/getsentry/", "noop"}, {"github.com/prometheus/", "noop"},
	{"runtime", "noop"}, {"go.opentelemetry.io/", "noop"}, {"log.", "noop"}, {"os.Getenv", "pure"},
	{"context.", "noop"}, {"time.Now", "noop"}, {"time.Since", "noop"}, {"time.After", "noop"}, {"time.Sleep", "noop"}, {"time.NewTicker", "noop"},
	{"time.Timer.", "noop"}, {"time.Ticker.", "noop"}, {"time.NewTimer", "noop"},
	{"runtime/trace.", "noop"}, {"runtime/debug.", "noop"},
	{"time.", "pure"}, {"strings.", "pure"}, {"strconv.", "pure"}, {"math.", "pure"}, {"bytes.", "pure"}, {"unicode", "pure"},
	{"net/url.", "pure"}, {"path.", "pure"}, {"regexp.", "pure"}, {"hash", "pure"}, {"crypto/", "pure"}, {"encoding/hex.", "pure"}, {"encoding/base64.", "pure"},
	{"github.com/tidwall/gjson.", "pure"}, {"github.com/tidwall/sjson.", "pure"},
	{"fmt.Sprint", "pure"}, {"fmt.Errorf", "nonnil"}, {"errors.New", "nonnil"}, {"errors.Is", "pure"},
	{"error.Error", "pure"}, {"fmt.Stringer.String", "pure"}, {"net/http.Status", "pure"}, {"os.Exit", "noop"},
	{"fmt.Print", "noop"}, {"fmt.Fprint", "noop"}, {"encoding/json.Marshal", "pure"},
	{"github.com/lib/pq.Array", "pure"}, {"database/sql.Result.", "pure"},
	{"net/http.Request.", "noop"}, {"net/http.Header.", "noop"}, {"net/http.ResponseWriter.", "noop"},
	{"golang.org/x/crypto/", "noop"},
}

func externRule(key string) string {
	for _, r := range rulePrefixes {
		if strings.HasPrefix(key, r.prefix) {
			return r.rule
		}
	}
	return ""
}

type externModel func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val

var externModels map[string]externModel

func init() {
	externModels = map[string]externModel{
		"sort.Slice":                        modelSortSlice,
		"sort.SliceStable":                  modelSortSliceStable,
		"sort.Strings":                      modelSortStrings,
		"golang.org/x/exp/slices.Reverse":   modelReverse,
		"slices.Reverse":                    modelReverse,
		"errors.As":                         modelErrorsAs,
		"fmt.Errorf":                        modelErrorf,
		"errors.Join":                       modelErrorsJoin,
		"encoding/json.Unmarshal":           modelUnmarshal,
		"golang.org/x/exp/slices.Contains":  modelContains,
		"slices.Contains":                   modelContains,
		"golang.org/x/exp/slices.Insert":    modelInsert,
		"golang.org/x/exp/slices.Delete":    modelDelete,
		"slices.Delete":                     modelDelete,
		"slices.Insert":                     modelInsert,
		"sync.Map.Load":                     modelSyncMapLoad,
		"sync.Map.Store":                    modelSyncMapStore,
		"sync.Map.LoadAndDelete":            modelSyncMapLoadAndDelete,
		"sync.Map.Delete":                   modelSyncMapDelete,
		"sync.Map.LoadOrStore":              modelSyncMapLoadOrStore,
		"sync/atomic.Int64.Load":            nil,
		"sync.Once.Do":                      modelOnceDo,
		"fmt.Sprintf":                       modelSprintf,
		"sqlutil.WithTransaction":           modelWithTransaction,
		"github.com/jmoiron/sqlx.Tx.Select": modelSelect,
		"github.com/jmoiron/sqlx.DB.Select": modelSelect,
		"github.com/jmoiron/sqlx.Tx.Get":    modelSelect,
		"github.com/jmoiron/sqlx.DB.Get":    modelSelect,
		"strconv.Itoa":                      modelItoa,
		"strconv.FormatInt":                 modelItoa,
	}
	delete(externModels, "sync/atomic.Int64.Load")
}

func sliceArg(v Val) (SliceV, types.Type, bool) {
	if i, ok := v.(IfaceV); ok {
		if i.dyn == nil {
			return SliceV{}, nil, false
		}
		s, ok := i.val.(SliceV)
		if !ok {
			return SliceV{}, nil, false
		}
		return s, types.Unalias(i.dyn).Underlying().(*types.Slice).Elem(), true
	}
	return SliceV{}, nil, false
}

// permute replaces the contents of s by an arbitrary permutation; returns perm and inverse function names.
func (x *Exec) permute(st *State, s SliceV, et types.Type) (string, string) {
	x.instN++
	pn := "perm!" + itoa(int64(x.instN)) + "!" + itoa(int64(x.tick()))
	in := "inv" + pn
	k := BVar("k", SInt)
	inb := func(t *Term) *Term { return And(Le(Num(0), t), Lt(t, s.len)) }
	p := func(t *Term) *Term { return App(pn, SInt, t) }
	iv := func(t *Term) *Term { return App(in, SInt, t) }
	x.assume(st, Forall([]*Term{k}, Implies(inb(k), And(inb(p(k)), Eq(iv(p(k)), k))), []*Term{p(k)}))
	x.assume(st, Forall([]*Term{k}, Implies(inb(k), And(inb(iv(k)), Eq(p(iv(k)), k))), []*Term{iv(k)}))
	for _, l := range leaves(et) {
		key, c := x.sliceComp(st, et, "", l)
		old := Select(c, s.arr)
		cont := Fresh("perm:"+key, SArr(SInt, l.sort))
		j := BVar("j", SInt)
		sel := Select(cont, j)
		rel := Sub(j, s.off)
		x.assume(st, Forall([]*Term{j}, Eq(sel, Ite(inb(rel), Select(old, Add(s.off, p(rel))), Select(old, j))), []*Term{sel}))
		osel := Select(old, j)
		if osel.op == "select" {
			x.assume(st, Forall([]*Term{j}, Implies(inb(rel), Eq(osel, Select(cont, Add(s.off, iv(rel))))), []*Term{osel}))
		}
		x.setComp(st, key, Store(c, s.arr, cont))
		x.logWrite(key, s.arr)
	}
	return pn, in
}

func (x *Exec) sortModel(fr *Frame, st *State, fn *ssa.Function, args []Val, stable bool) Val {
	s, et, ok := sliceArg(args[0])
	if !ok {
		unsup("sort of unknown slice")
	}
	less := args[1].(FuncV)
	pn, _ := x.permute(st, s, et)
	i, j := BVar("i", SInt), BVar("j", SInt)
	sig := fn.Signature.Params().At(1).Type().Underlying().(*types.Signature)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					x.note("sort: comparator not expressible (%s); only the permutation property is used", u.msg)
					return
				}
				panic(r)
			}
		}()
		stack := len(x.stack)
		defer func() { x.stack = x.stack[:stack] }()
		l := x.evalPure(fr, st, less, []Val{j, i}, sig).(*Term)
		rng := And(Le(Num(0), i), Lt(i, j), Lt(j, s.len))
		// sort.Slice guarantees order only if less is a strict weak order
		x.assume(st, Forall([]*Term{i, j}, Implies(rng, Not(l))))
		if stable {
			l2 := x.evalPure(fr, st, less, []Val{i, j}, sig).(*Term)
			x.assume(st, Forall([]*Term{i, j}, Implies(And(rng, Not(l2)), Lt(App(pn, SInt, i), App(pn, SInt, j)))))
		}
		x.note("sort.Slice/SliceStable: result is a permutation with no adjacent inversion (comparator assumed a strict weak order)")
	}()
	return nil
}
func modelSortSlice(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	return x.sortModel(fr, st, fn, args, false)
}
func modelSortSliceStable(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	return x.sortModel(fr, st, fn, args, true)
}
func modelSortStrings(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	s := args[0].(SliceV)
	et := types.Typ[types.String]
	x.permute(st, s, et)
	i, j := BVar("i", SInt), BVar("j", SInt)
	_, c := x.sliceComp(st, et, "", leaves(et)[0])
	a := Select(c, s.arr)
	x.assume(st, Forall([]*Term{i, j}, Implies(And(Le(Num(0), i), Lt(i, j), Lt(j, s.len)), Not(x.strLt(Select(a, Add(s.off, j)), Select(a, Add(s.off, i)))))))
	return nil
}

func modelReverse(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	s := args[0].(SliceV)
	et := types.Unalias(fn.Signature.Params().At(0).Type()).Underlying().(*types.Slice).Elem()
	for _, l := range leaves(et) {
		key, c := x.sliceComp(st, et, "", l)
		old := Select(c, s.arr)
		cont := Fresh("rev:"+key, SArr(SInt, l.sort))
		j := BVar("j", SInt)
		sel := Select(cont, j)
		rel := Sub(j, s.off)
		in := And(Le(Num(0), rel), Lt(rel, s.len))
		x.assume(st, Forall([]*Term{j}, Eq(sel, Ite(in, Select(old, Add(s.off, Sub(Sub(s.len, Num(1)), rel))), Select(old, j))), []*Term{sel}))
		x.setComp(st, key, Store(c, s.arr, cont))
		x.logWrite(key, s.arr)
	}
	return nil
}

func modelContains(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	s := args[0].(SliceV)
	et := types.Unalias(fn.Signature.Params().At(0).Type()).Underlying().(*types.Slice).Elem()
	k := BVar("k", SInt)
	return Exists([]*Term{k}, And(Le(Num(0), k), Lt(k, s.len), x.eqVals(x.elem(st, s, et, k), args[1], et, et)))
}

func modelInsert(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	s := args[0].(SliceV)
	at := args[1].(*Term)
	v := args[2].(SliceV)
	et := types.Unalias(fn.Signature.Params().At(0).Type()).Underlying().(*types.Slice).Elem()
	cond := And(Le(Num(0), at), Le(at, s.len))
	if x.safe {
		x.oblige(st, "safe", "slices.Insert index", cond, pos)
	}
	x.assume(st, cond)
	n := Add(s.len, v.len)
	r := x.newSlice(st, et, n, n)
	for _, l := range leaves(et) {
		key, c := x.sliceComp(st, et, "", l)
		old, add := Select(c, s.arr), Select(c, v.arr)
		cont := Fresh("ins:"+key, SArr(SInt, l.sort))
		j := BVar("j", SInt)
		sel := Select(cont, j)
		x.assume(st, Forall([]*Term{j}, Implies(And(Le(Num(0), j), Lt(j, n)), Eq(sel, Ite(Lt(j, at), Select(old, Add(s.off, j)), Ite(Lt(j, Add(at, v.len)), Select(add, Add(v.off, Sub(j, at))), Select(old, Add(s.off, Sub(j, v.len))))))), []*Term{sel}))
		x.setComp(st, key, Store(c, r.arr, cont))
	}
	return r
}

// modelDelete: slices.Delete shifts the tail down in place; what is left behind the new end is unspecified.
func modelDelete(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	s := args[0].(SliceV)
	from, to := args[1].(*Term), args[2].(*Term)
	et := types.Unalias(fn.Signature.Params().At(0).Type()).Underlying().(*types.Slice).Elem()
	cond := And(Le(Num(0), from), Le(from, to), Le(to, s.len))
	if x.safe {
		x.oblige(st, "safe", "slices.Delete index", cond, pos)
	}
	x.assume(st, cond)
	d := Sub(to, from)
	n := Sub(s.len, d)
	for _, l := range leaves(et) {
		key, c := x.sliceComp(st, et, "", l)
		old := Select(c, s.arr)
		cont := Fresh("del:"+key, SArr(SInt, l.sort))
		j := BVar("j", SInt)
		sel := Select(cont, j)
		lo, cut, end := s.off, Add(s.off, from), Add(s.off, n)
		x.assume(st, Forall([]*Term{j}, Implies(Or(Lt(j, cut), Le(Add(s.off, s.len), j)), Eq(sel, Select(old, j))), []*Term{sel}))
		x.assume(st, Forall([]*Term{j}, Implies(And(Le(cut, j), Lt(j, end)), Eq(sel, Select(old, Add(j, d)))), []*Term{sel}))
		k := BVar("k", SInt)
		osel := Select(old, k)
		for b := old; ; b = b.args[0] { // forward triggers, also from the array before earlier writes
			x.assume(st, Forall([]*Term{k}, And(Implies(And(Le(lo, k), Lt(k, cut)), Eq(osel, Select(cont, k))),
				Implies(And(Le(Add(cut, d), k), Lt(k, Add(s.off, s.len))), Eq(osel, Select(cont, Sub(k, d))))), []*Term{Select(b, k)}))
			if b.op != "store" {
				break
			}
		}
		x.setComp(st, key, Store(c, s.arr, cont))
		x.logWrite(key, s.arr)
	}
	return SliceV{s.arr, s.off, n, s.cap}
}

func modelErrorsAs(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	e := args[0].(IfaceV)
	t := args[1].(IfaceV)
	if t.dyn == nil {
		unsup("errors.As target")
	}
	p := t.val.(PtrV)
	ok := App("errorsAs:"+typeKey(p.typ), SBool, e.tag, e.data)
	x.axiom(Implies(Eq(e.tag, Num(0)), Not(ok)))
	if _, isP := types.Unalias(p.typ).Underlying().(*types.Pointer); isP && e.tag != nil {
		// a value whose dynamic type is the target type is found
		x.axiom(Implies(Eq(e.tag, x.tagOf(p.typ)), ok))
	}
	old := x.load(st, p)
	nv := x.freshVal(st, "as", p.typ)
	if pp, ok2 := nv.(PtrV); ok2 {
		x.assume(st, Lt(Num(0), pp.ref))
		x.axiom(Implies(Eq(e.tag, x.tagOf(p.typ)), Eq(pp.ref, e.data)))
	}
	x.store(st, p, x.mergeVal(ok, nv, old, p.typ))
	return ok
}

// the error types whose presence in a chain of wrapped errors is followed
var chainTypes = []string{"*internal.DataError", "*internal.HandlerError"}

// fmt.Errorf is never nil; errors.As finds in it what it finds in the arguments of its %w verbs.
func modelErrorf(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	v := x.applyRule(fr, st, "nonnil", "fmt.Errorf", args, sigTypes(fn.Signature), fn.Signature, pos)
	r, ok1 := v.(IfaceV)
	a, ok2 := args[1].(SliceV)
	ft, ok3 := args[0].(*Term)
	if !ok1 || !ok2 || !ok3 {
		return v
	}
	format, known := "", false
	for s, t := range tb.strs {
		if t == ft {
			format, known = s, true
		}
	}
	if !known {
		return v
	}
	var wrapped []int
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.ContainsRune("+-# 0123456789.", rune(format[i])) {
			i++
		}
		if i >= len(format) || format[i] == '%' {
			continue
		}
		if format[i] == '*' || format[i] == '[' {
			return v
		}
		if format[i] == 'w' {
			wrapped = append(wrapped, n)
		}
		n++
	}
	for _, tk := range chainTypes {
		any := False
		for _, w := range wrapped {
			e := x.elem(st, a, anyT, Num(int64(w))).(IfaceV)
			any = Or(any, And(Lt(Num(0), e.tag), App("errorsAs:"+tk, SBool, e.tag, e.data)))
		}
		x.assume(st, Eq(App("errorsAs:"+tk, SBool, r.tag, r.data), any))
	}
	return v
}

// errors.Join is nil when all its arguments are; errors.As finds in it what it finds in one of them.
func modelErrorsJoin(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	x.trusted["model:errors.Join"] = true
	et := fn.Signature.Results().At(0).Type()
	r := x.freshVal(st, "join", et).(IfaceV)
	s := args[0].(SliceV)
	k := BVar("k", SInt)
	e := x.elem(st, s, et, k).(IfaceV)
	in := And(Le(Num(0), k), Lt(k, s.len))
	x.assume(st, Eq(Lt(Num(0), r.tag), Exists([]*Term{k}, And(in, Lt(Num(0), e.tag)))))
	for _, tk := range chainTypes {
		x.assume(st, Eq(App("errorsAs:"+tk, SBool, r.tag, r.data), Exists([]*Term{k}, And(in, Lt(Num(0), e.tag), App("errorsAs:"+tk, SBool, e.tag, e.data)))))
	}
	return r
}

// json.Unmarshal: every leaf of the target becomes an unconstrained function of the input and of
// the old value; the error is a function of input and target type.
func modelUnmarshal(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	raw := args[0].(*Term)
	t := args[1].(IfaceV)
	if t.dyn == nil {
		unsup("json.Unmarshal target")
	}
	p, okp := t.val.(PtrV)
	if !okp {
		unsup("json.Unmarshal into non-pointer")
	}
	ls := leaves(p.typ)
	ts := make([]*Term, len(ls))
	x.bumpA(st, "unm")
	for i, l := range ls {
		switch l.kind {
		case lkRef, lkArr, lkFunc, lkLen, lkCap, lkOff, lkTag, lkData:
			ts[i] = x.freshLeaf(st, "unm", l)
			if l.kind == lkOff {
				ts[i] = Num(0)
			}
		default:
			ts[i] = App("unm:"+typeKey(p.typ)+l.path, l.sort, raw)
		}
	}
	v := decode(ts, p.typ, x)
	x.factsForVal(st, v, p.typ)
	x.store(st, p, v)
	tag := App("unmerr:"+typeKey(p.typ), SInt, raw)
	x.axiom(Le(Num(0), tag))
	return x.mkIface(tag, App("unmerrd:"+typeKey(p.typ), SInt, raw))
}

// sync.Map is modelled as a map from boxed keys to boxed values.
var anyT = types.NewInterfaceType(nil, nil)
var syncMapT = types.NewMap(anyT, anyT)

func syncMapRef(x *Exec, st *State, v Val) *Term {
	p := v.(PtrV)
	switch p.kind {
	case 0:
		if p.path == "" {
			return p.ref
		}
		r := App("inner:"+typeKey(p.base)+p.path, SInt, p.ref)
		x.axiom(Lt(Num(0), r))
		return r
	}
	return x.ptrTerm(p)
}
func modelSyncMapLoad(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	m := syncMapRef(x, st, args[0])
	k := x.key(args[1], syncMapT)
	has := x.mapHas(st, m, syncMapT, k)
	v := x.mergeVal(has, x.mapGet(st, m, syncMapT, k), x.mkIface(Num(0), Num(0)), anyT)
	return &StructV{elems: []Val{v, has}}
}
func modelSyncMapStore(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	m := syncMapRef(x, st, args[0])
	x.mapStore(st, m, syncMapT, args[1], args[2])
	return nil
}
func modelSyncMapDelete(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	x.mapDelete(st, syncMapRef(x, st, args[0]), syncMapT, args[1])
	return nil
}
func modelSyncMapLoadAndDelete(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	r := modelSyncMapLoad(x, fr, st, fn, args, pos)
	x.mapDelete(st, syncMapRef(x, st, args[0]), syncMapT, args[1])
	return r
}
func modelSyncMapLoadOrStore(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	m := syncMapRef(x, st, args[0])
	k := x.key(args[1], syncMapT)
	has := x.mapHas(st, m, syncMapT, k)
	v := x.mergeVal(has, x.mapGet(st, m, syncMapT, k), args[2], anyT)
	x.mapStore(st, m, syncMapT, args[1], v)
	return &StructV{elems: []Val{v, has}}
}
func modelOnceDo(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	ran := Fresh("once_ran", SBool)
	a, b := st.clone(), st.clone()
	a.pc = And(st.pc, Not(ran))
	b.pc = And(st.pc, ran)
	x.callFuncV(fr, a, args[1].(FuncV), nil, fn.Signature.Params().At(0).Type().Underlying().(*types.Signature), pos)
	return x.joinInto(st, []retState{{a, nil, pos}, {b, nil, pos}}, nil)
}

// decimal formatting is inverted by decimal parsing
func (x *Exec) decimal(st *State, r *Term, n *Term) {
	for _, bits := range []int64{64, 0} {
		x.assume(st, Eq(App("fn:strconv.ParseInt#0", SInt, r, Num(10), Num(bits)), n))
		x.assume(st, Eq(App("fn:strconv.ParseInt#1"+leaves(anyT)[0].path, SInt, r, Num(10), Num(bits)), Num(0)))
	}
	x.assume(st, Eq(App("fn:strconv.Atoi#0", SInt, r), n))
}

func modelSprintf(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	v := x.applyRule(fr, st, "pure", "fmt.Sprintf", args, sigTypes(fn.Signature), fn.Signature, pos)
	a, ok := args[1].(SliceV)
	if args[0] == Val(StrConst("%d")) && ok && a.len == Num(1) {
		var e []*Term
		for _, l := range leaves(anyT) {
			_, c := x.sliceComp(st, anyT, "", l)
			e = append(e, Select(Select(c, a.arr), a.off))
		}
		if e[0].op == "num" {
			if t := x.tagType[e[0].num]; t != nil {
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					x.decimal(st, v.(*Term), x.unbox(e[1], t).(*Term))
				}
			}
		}
	}
	return v
}

func modelItoa(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	v := x.applyRule(fr, st, "pure", fnKey(fn), args, sigTypes(fn.Signature), fn.Signature, pos)
	if len(args) == 1 || args[1] == Val(Num(10)) {
		x.decimal(st, v.(*Term), args[0].(*Term))
	}
	return v
}

// sqlutil.WithTransaction runs the function once, unless the transaction cannot be opened; the error
// of the function is passed on, and a transaction that cannot be committed is an error.
func modelWithTransaction(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	f, ok := args[1].(FuncV)
	if !ok {
		unsup("WithTransaction of an unknown function")
	}
	et := fn.Signature.Results().At(0).Type()
	began := Fresh("began", SBool)
	a, b := st.clone(), st.clone()
	a.pc, b.pc = And(st.pc, began), And(st.pc, Not(began))
	sig := types.Unalias(fn.Signature.Params().At(1).Type()).Underlying().(*types.Signature)
	txn := x.freshVal(a, "txn", sig.Params().At(0).Type())
	if p, ok := txn.(PtrV); ok {
		x.assume(a, Lt(Num(0), p.ref))
	}
	r := x.callFuncV(fr, a, f, []Val{txn}, sig, pos)
	if a.pc != False {
		e := r.(IfaceV)
		c := x.freshVal(a, "commit", et).(IfaceV)
		r = x.mergeVal(Eq(e.tag, Num(0)), c, e, et)
	}
	nb := x.freshVal(b, "begin", et).(IfaceV)
	x.assume(b, Lt(Num(0), nb.tag))
	return x.joinInto(st, []retState{{a, r, pos}, {b, nb, pos}}, et)
}

// sqlx Select and Get fill the target with arbitrary rows.
func modelSelect(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	t := args[1].(IfaceV)
	if t.dyn == nil {
		unsup("Select target")
	}
	p, ok := t.val.(PtrV)
	if !ok {
		unsup("Select into non-pointer")
	}
	x.bumpA(st, "sel")
	x.store(st, p, x.freshVal(st, "rows", p.typ))
	return x.freshVal(st, "selerr", resultType(fn.Signature))
}
