package main

// Hash-consed SMT terms with light simplification, and the SMT-LIB printer.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SU    Sort = "U"
	SRaw  Sort = "Raw"
)

func SArr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// arraySorts splits "(Array K V)" into K and V.
func arraySorts(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	body := str[7 : len(str)-1]
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[:i]), Sort(body[i+1:])
			}
		}
	}
	panic("bad array sort " + str)
}

type Term struct {
	id    int
	op    string // "sym", "num", "var", "forall", "exists", "app:<f>", or builtin
	name  string
	num   int64
	args  []*Term
	bound []*Term   // quantifiers
	pats  [][]*Term // quantifiers
	sort  Sort
	hasV  bool // contains a bound variable occurrence
	born  int  // for symbols: creation counter
	maxB  int  // max born over symbols contained
}

type TermBank struct {
	tab     map[string]*Term
	next    int
	born    int
	symSort map[string]Sort
	funSig  map[string]string // declared uninterpreted function name -> declare-fun text
	funRes  map[string]Sort
	dts     map[Sort]string // datatype declarations (composite map keys)
	dtOrder []Sort
	strs    map[string]*Term
	strList []string
	exist   map[*Term]int // refs: time at which the ref is known to be allocated
	fresh   map[*Term]int // fresh allocations: time of allocation
	varN    int
}

func newBank() *TermBank {
	b := &TermBank{tab: map[string]*Term{}, symSort: map[string]Sort{}, funSig: map[string]string{}, funRes: map[string]Sort{}, dts: map[Sort]string{}, strs: map[string]*Term{}, exist: map[*Term]int{}, fresh: map[*Term]int{}}
	return b
}

var tb = newBank()

func (b *TermBank) mk(op, name string, num int64, s Sort, args []*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(num, 10))
	sb.WriteByte('|')
	if op == "constarr" || op == "sym" || op == "var" {
		sb.WriteString(string(s))
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := b.tab[k]; ok {
		return t
	}
	b.next++
	t := &Term{id: b.next, op: op, name: name, num: num, args: args, sort: s}
	for _, a := range args {
		if a.hasV {
			t.hasV = true
		}
		if a.maxB > t.maxB {
			t.maxB = a.maxB
		}
	}
	if op == "var" {
		t.hasV = true
	}
	b.tab[k] = t
	return t
}

func Num(n int64) *Term { return tb.mk("num", "", n, SInt, nil) }

var True = tb.mk("true", "", 0, SBool, nil)
var False = tb.mk("false", "", 0, SBool, nil)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

// Sym returns (creating) a named constant.
func Sym(name string, s Sort) *Term {
	if old, ok := tb.symSort[name]; ok && old != s {
		panic("symbol " + name + " redeclared with sort " + string(s) + " was " + string(old))
	}
	_, existed := tb.symSort[name]
	tb.symSort[name] = s
	t := tb.mk("sym", name, 0, s, nil)
	if !existed {
		tb.born++
		t.born = tb.born
		t.maxB = tb.born
	}
	return t
}

var freshN = map[string]int{}

func resetBank() {
	tb = newBank()
	True = tb.mk("true", "", 0, SBool, nil)
	False = tb.mk("false", "", 0, SBool, nil)
	freshN = map[string]int{}
	leafCache = map[types.Type][]Leaf{}
}

func Fresh(prefix string, s Sort) *Term {
	prefix = sanitize(prefix)
	freshN[prefix]++
	return Sym(fmt.Sprintf("%s!%d", prefix, freshN[prefix]), s)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '#' || c == '$' || c == '*' || c == '-' || c == '/' || c == '@' {
			if c == '#' {
				sb.WriteString("~")
			} else {
				sb.WriteRune(c)
			}
		} else if c == '[' || c == ']' {
			sb.WriteString("_")
		} else {
			sb.WriteString("_")
		}
	}
	return sb.String()
}

// BVarAt names a bound variable by its nesting depth, so that alpha-equivalent closed
// formulas are the same term.
func BVarAt(name string, depth int, s Sort) *Term {
	return tb.mk("var", fmt.Sprintf("%s?d%d", sanitize(name), depth), 0, s, nil)
}

func BVar(name string, s Sort) *Term {
	tb.varN++
	return tb.mk("var", fmt.Sprintf("%s?%d", sanitize(name), tb.varN), 0, s, nil)
}

func StrConst(v string) *Term {
	if t, ok := tb.strs[v]; ok {
		return t
	}
	t := Sym("str!"+strconv.Itoa(len(tb.strs))+"_"+sanitize(trunc(v, 20)), SStr)
	t.born = 0
	t.maxB = 0
	tb.strs[v] = t
	tb.strList = append(tb.strList, v)
	return t
}
func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// App applies an uninterpreted function, declaring it on first use.
func App(f string, res Sort, args ...*Term) *Term {
	f = sanitize(f)
	if _, ok := tb.funSig[f]; !ok {
		ss := make([]string, len(args))
		for i, a := range args {
			ss[i] = string(a.sort)
		}
		tb.funSig[f] = "(declare-fun " + q(f) + " (" + strings.Join(ss, " ") + ") " + string(res) + ")"
		tb.funRes[f] = res
	}
	if tb.funRes[f] != res {
		panic("function " + f + " used with two result sorts")
	}
	if len(args) == 0 {
		return Sym(f+"!0", res)
	}
	return tb.mk("app", f, 0, res, args)
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not":
		return a.args[0]
	}
	return tb.mk("not", "", 0, SBool, []*Term{a})
}

func nary(op string, ts []*Term, unit, zero *Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero || seen[Not(t)] {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if t == nil {
			panic("nil term in " + op)
		}
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return tb.mk(op, "", 0, SBool, out)
}

func And(ts ...*Term) *Term { return nary("and", ts, True, False) }

func Or(ts ...*Term) *Term {
	// (P and c) or (P and not c) = P
	r := nary("or", ts, False, True)
	if r.op == "or" && len(r.args) == 2 {
		if s := complementary(r.args[0], r.args[1]); s != nil {
			return s
		}
	}
	return r
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

func complementary(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	inB := map[*Term]bool{}
	for _, t := range cb {
		inB[t] = true
	}
	var common, onlyA []*Term
	for _, t := range ca {
		if inB[t] {
			common = append(common, t)
		} else {
			onlyA = append(onlyA, t)
		}
	}
	inA := map[*Term]bool{}
	for _, t := range ca {
		inA[t] = true
	}
	var onlyB []*Term
	for _, t := range cb {
		if !inA[t] {
			onlyB = append(onlyB, t)
		}
	}
	if len(onlyA) == 0 {
		return a
	}
	if len(onlyB) == 0 {
		return b
	}
	if And(onlyA...) == Not(And(onlyB...)) || And(onlyB...) == Not(And(onlyA...)) {
		return And(common...)
	}
	if len(common) > 0 {
		return And(append(append([]*Term{}, common...), tb.mk("or", "", 0, SBool, []*Term{And(onlyA...), And(onlyB...)}))...)
	}
	return nil
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return tb.mk("=>", "", 0, SBool, []*Term{a, b})
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func isStrConst(t *Term) bool { return t.op == "sym" && strings.HasPrefix(t.name, "str!") }

// distinctRefs reports whether two Int terms are syntactically known distinct.
func distinctRefs(a, b *Term) bool {
	if a == b {
		return false
	}
	ba, ka := baseOff(a)
	bb, kb := baseOff(b)
	if ba == bb {
		return ka != kb
	}
	if fa, ok := tb.fresh[a]; ok {
		if eb, ok2 := existTime(b); ok2 && eb < fa {
			return true
		}
	}
	if fb, ok := tb.fresh[b]; ok {
		if ea, ok2 := existTime(a); ok2 && ea < fb {
			return true
		}
	}
	return false
}

func existTime(t *Term) (int, bool) {
	if e, ok := tb.exist[t]; ok {
		return e, true
	}
	if f, ok := tb.fresh[t]; ok {
		return f, true
	}
	if t.op == "num" {
		return 0, true
	}
	if t.op == "ite" {
		a, ok1 := existTime(t.args[1])
		b, ok2 := existTime(t.args[2])
		if ok1 && ok2 {
			if a > b {
				return a, true
			}
			return b, true
		}
	}
	return 0, false
}

func baseOff(t *Term) (*Term, int64) {
	if t.op == "num" {
		return nil, t.num
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].op == "num" {
		return t.args[0], t.args[1].num
	}
	return t, 0
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s : %s vs %s : %s", a, a.sort, b, b.sort))
	}
	if a.op == "num" && b.op == "num" {
		return BoolT(a.num == b.num)
	}
	if isStrConst(a) && isStrConst(b) {
		return False
	}
	if a.sort == SInt && distinctRefs(a, b) {
		return False
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	// ite with constant branches
	for i := 0; i < 2; i++ {
		x, y := a, b
		if i == 1 {
			x, y = b, a
		}
		if x.op == "ite" && (y.op == "num" || isStrConst(y)) {
			e1, e2 := Eq(x.args[1], y), Eq(x.args[2], y)
			if (e1 == True || e1 == False) || (e2 == True || e2 == False) {
				return Ite(x.args[0], e1, e2)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk("=", "", 0, SBool, []*Term{a, b})
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Ite sort mismatch %s/%s: %s | %s", a.sort, b.sort, a, b))
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return tb.mk("ite", "", 0, a.sort, []*Term{c, a, b})
}

func Add(a, b *Term) *Term {
	if a.op == "num" && b.op == "num" {
		return Num(a.num + b.num)
	}
	if a.op == "num" {
		a, b = b, a
	}
	if b.op == "num" {
		if b.num == 0 {
			return a
		}
		if a.op == "+" && len(a.args) == 2 && a.args[1].op == "num" {
			return Add(a.args[0], Num(a.args[1].num+b.num))
		}
		if a.op == "ite" && a.args[1].op == "num" && a.args[2].op == "num" {
			return Ite(a.args[0], Num(a.args[1].num+b.num), Num(a.args[2].num+b.num))
		}
		return tb.mk("+", "", 0, SInt, []*Term{a, b})
	}
	// pull constants out
	ba, ka := baseOff(a)
	bb, kb := baseOff(b)
	if ka+kb != 0 || ka != 0 {
		return Add(Add(ba, bb), Num(ka+kb))
	}
	if bb.op == "-neg" && bb.args[0] == ba {
		return Num(0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk("+", "", 0, SInt, []*Term{a, b})
}

func Neg(a *Term) *Term {
	if a.op == "num" {
		return Num(-a.num)
	}
	if a.op == "-neg" {
		return a.args[0]
	}
	return tb.mk("-neg", "", 0, SInt, []*Term{a})
}
func Sub(a, b *Term) *Term {
	if a == b {
		return Num(0)
	}
	if b.op == "num" {
		return Add(a, Num(-b.num))
	}
	ba, ka := baseOff(a)
	bb, kb := baseOff(b)
	if ba == bb {
		return Num(ka - kb)
	}
	if bb != nil && ba != nil && (ka != 0 || kb != 0) {
		return Add(Sub(ba, bb), Num(ka-kb))
	}
	return tb.mk("-", "", 0, SInt, []*Term{a, b})
}
func Mul(a, b *Term) *Term {
	if a.op == "num" && b.op == "num" {
		return Num(a.num * b.num)
	}
	if a.op == "num" && a.num == 1 {
		return b
	}
	if b.op == "num" && b.num == 1 {
		return a
	}
	return tb.mk("*", "", 0, SInt, []*Term{a, b})
}

func Lt(a, b *Term) *Term {
	if a.op == "num" && b.op == "num" {
		return BoolT(a.num < b.num)
	}
	ba, ka := baseOff(a)
	bb, kb := baseOff(b)
	if ba == bb {
		return BoolT(ka < kb)
	}
	return tb.mk("<", "", 0, SBool, []*Term{a, b})
}
func Le(a, b *Term) *Term {
	if a.op == "num" && b.op == "num" {
		return BoolT(a.num <= b.num)
	}
	ba, ka := baseOff(a)
	bb, kb := baseOff(b)
	if ba == bb {
		return BoolT(ka <= kb)
	}
	return tb.mk("<=", "", 0, SBool, []*Term{a, b})
}

func distinctKeys(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == "num" && b.op == "num" {
		return true
	}
	if isStrConst(a) && isStrConst(b) {
		return true
	}
	if a.sort == SInt {
		return distinctRefs(a, b)
	}
	return false
}

func Select(a, i *Term) *Term {
	k, v := arraySorts(a.sort)
	if k != i.sort {
		panic(fmt.Sprintf("select key sort %s, want %s (%s)", i.sort, k, a))
	}
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if distinctKeys(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		if a.op == "ite" {
			// push select through ite when it simplifies on a side
			l, r := a.args[1], a.args[2]
			if selSimplifies(l, i) || selSimplifies(r, i) {
				return Ite(a.args[0], Select(l, i), Select(r, i))
			}
		}
		break
	}
	return tb.mk("select", "", 0, v, []*Term{a, i})
}

func selSimplifies(a, i *Term) bool {
	switch a.op {
	case "store":
		return a.args[1] == i || distinctKeys(a.args[1], i)
	case "constarr":
		return true
	case "ite":
		return selSimplifies(a.args[1], i) || selSimplifies(a.args[2], i)
	}
	return false
}

func Store(a, i, v *Term) *Term {
	k, vs := arraySorts(a.sort)
	if k != i.sort || vs != v.sort {
		panic(fmt.Sprintf("store sorts: array %s key %s val %s", a.sort, i.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return tb.mk("store", "", 0, a.sort, []*Term{a, i, v})
}

func ConstArr(s Sort, v *Term) *Term { return tb.mk("constarr", "", 0, s, []*Term{v}) }

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", vars, body, pats)
}
func Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("exists", vars, body, pats)
}
func quant(op string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False || len(vars) == 0 {
		return body
	}
	if !body.hasV {
		return body
	}
	var sb strings.Builder
	for _, v := range vars {
		sb.WriteString(strconv.Itoa(v.id) + ",")
	}
	sb.WriteByte(';')
	for _, p := range pats {
		for _, t := range p {
			sb.WriteString(strconv.Itoa(t.id) + ",")
		}
		sb.WriteByte(';')
	}
	t := tb.mk(op, sb.String(), 0, SBool, []*Term{body})
	if t.bound == nil {
		t.bound = vars
		t.pats = pats
		t.hasV = hasFreeVar(body, vars)
	}
	return t
}

func hasFreeVar(t *Term, bound []*Term) bool {
	b := map[*Term]bool{}
	for _, v := range bound {
		b[v] = true
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.hasV || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "var" {
			return !b[t]
		}
		if t.bound != nil {
			for _, v := range t.bound {
				b[v] = true // names are unique
			}
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Subst replaces bound variables by terms (capture is impossible: variables are unique).
func Subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				same = false
			}
		}
		r := t
		if !same {
			r = rebuild(t, args, rec)
		}
		cache[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term, rec func(*Term) *Term) *Term {
	switch t.op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Implies(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		return Add(args[0], args[1])
	case "-":
		return Sub(args[0], args[1])
	case "-neg":
		return Neg(args[0])
	case "*":
		return Mul(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "forall", "exists":
		var pats [][]*Term
		for _, p := range t.pats {
			var np []*Term
			for _, x := range p {
				np = append(np, rec(x))
			}
			pats = append(pats, np)
		}
		return quant(t.op, t.bound, args[0], pats)
	}
	return tb.mk(t.op, t.name, t.num, t.sort, args)
}

func (t *Term) String() string {
	s := (&printer{inline: true}).str(t)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// ---- printing ----

func q(name string) string {
	return "|" + name + "|"
}

type printer struct {
	inline bool
	names  map[*Term]string
}

func (p *printer) str(t *Term) string {
	var sb strings.Builder
	p.write(&sb, t, 0)
	return sb.String()
}

func (p *printer) write(sb *strings.Builder, t *Term, depth int) {
	if p.inline && depth > 40 {
		sb.WriteString("...")
		return
	}
	if p.inline && sb.Len() > 2000 {
		sb.WriteString("...")
		return
	}
	if n, ok := p.names[t]; ok {
		sb.WriteString(n)
		return
	}
	p.writeNode(sb, t, depth)
}

func (p *printer) writeNode(sb *strings.Builder, t *Term, depth int) {
	switch t.op {
	case "sym", "var":
		sb.WriteString(q(t.name))
	case "num":
		if t.num < 0 {
			sb.WriteString("(- " + strconv.FormatUint(uint64(-t.num), 10) + ")")
		} else {
			sb.WriteString(strconv.FormatInt(t.num, 10))
		}
	case "true", "false":
		sb.WriteString(t.op)
	case "app":
		sb.WriteString("(" + q(t.name))
		for _, a := range t.args {
			sb.WriteByte(' ')
			p.write(sb, a, depth+1)
		}
		sb.WriteByte(')')
	case "ctor":
		sb.WriteString("(" + t.name)
		for _, a := range t.args {
			sb.WriteByte(' ')
			p.write(sb, a, depth+1)
		}
		sb.WriteByte(')')
	case "-neg":
		sb.WriteString("(- ")
		p.write(sb, t.args[0], depth+1)
		sb.WriteByte(')')
	case "constarr":
		sb.WriteString("((as const " + string(t.sort) + ") ")
		p.write(sb, t.args[0], depth+1)
		sb.WriteByte(')')
	case "forall", "exists":
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.bound {
			sb.WriteString("(" + q(v.name) + " " + string(v.sort) + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		p.writeQBody(sb, t, depth+1)
		for _, pat := range t.pats {
			sb.WriteString(" :pattern (")
			for i, x := range pat {
				if i > 0 {
					sb.WriteByte(' ')
				}
				p.write(sb, x, depth+1)
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteByte(')')
	default:
		sb.WriteString("(" + t.op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			p.write(sb, a, depth+1)
		}
		sb.WriteByte(')')
	}
}

// writeQBody prints a quantifier body introducing lets for shared subterms that mention bound variables.
func (p *printer) writeQBody(sb *strings.Builder, t *Term, depth int) {
	body := t.args[0]
	if p.inline || len(t.pats) > 0 {
		p.write(sb, body, depth)
		return
	}
	count := map[*Term]int{}
	var order []*Term
	var visit func(x *Term)
	visit = func(x *Term) {
		if _, named := p.names[x]; named {
			return
		}
		if len(x.args) == 0 || !x.hasV {
			return
		}
		count[x]++
		if count[x] > 1 {
			return
		}
		if x.op == "forall" || x.op == "exists" {
			order = append(order, x)
			return // inner quantifiers handle themselves
		}
		for _, a := range x.args {
			visit(a)
		}
		order = append(order, x)
	}
	visit(body)
	var added []*Term
	n := 0
	for _, x := range order {
		if count[x] > 1 && x != body {
			name := fmt.Sprintf("l!%d", x.id)
			sb.WriteString("(let ((" + name + " ")
			p.writeNode(sb, x, depth)
			sb.WriteString(")) ")
			p.names[x] = name
			added = append(added, x)
			n++
		}
	}
	p.write(sb, body, depth)
	for i := 0; i < n; i++ {
		sb.WriteByte(')')
	}
	for _, x := range added {
		delete(p.names, x)
	}
}

// Script renders a full SMT-LIB script asserting the given formulas.
func Script(asserts []*Term, header string) string {
	var sb strings.Builder
	sb.WriteString(header)
	sb.WriteString("(declare-sort Str 0)\n(declare-sort U 0)\n(declare-sort Raw 0)\n")
	for _, s := range tb.dtOrder {
		sb.WriteString(tb.dts[s] + "\n")
	}
	// collect
	seen := map[*Term]bool{}
	count := map[*Term]int{}
	var order []*Term
	syms := map[string]Sort{}
	funs := map[string]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		count[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "sym":
			syms[t.name] = t.sort
		case "app":
			funs[t.name] = true
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, p := range t.pats {
			for _, a := range p {
				visit(a)
			}
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		visit(a)
		count[a]++
	}
	names := make([]string, 0, len(syms))
	for n := range syms {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		sb.WriteString("(declare-const " + q(n) + " " + string(syms[n]) + ")\n")
	}
	fs := make([]string, 0)
	for f := range funs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		sb.WriteString(tb.funSig[f] + "\n")
	}
	// string constants are pairwise distinct
	var sc []string
	for _, n := range names {
		if strings.HasPrefix(n, "str!") {
			sc = append(sc, q(n))
		}
	}
	if len(sc) > 1 {
		sb.WriteString("(assert (distinct " + strings.Join(sc, " ") + "))\n")
	}
	p := &printer{names: map[*Term]string{}}
	for _, t := range order {
		if len(t.args) > 0 && !t.hasV && count[t] > 1 {
			name := fmt.Sprintf("d!%d", t.id)
			sb.WriteString("(define-fun " + name + " () " + string(t.sort) + " ")
			p.writeNode(&sb, t, 0)
			sb.WriteString(")\n")
			p.names[t] = name
		}
	}
	for _, a := range asserts {
		sb.WriteString("(assert ")
		p.write(&sb, a, 0)
		sb.WriteString(")\n")
	}
	return sb.String()
}
