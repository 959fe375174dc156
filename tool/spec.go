package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---- AST ----

type Expr interface{}
type (
	EId  struct{ name string }
	ENum struct{ n int64 }
	EStr struct{ s string }
	EBin struct {
		op   string
		l, r Expr
	}
	EUn struct {
		op string
		e  Expr
	}
	EField struct {
		e Expr
		f string
	}
	EIdx  struct{ e, i Expr }
	ECall struct {
		f     string
		types []TypeExpr
		args  []Expr
	}
	EQuant struct {
		forall bool
		vars   []VarDecl
		pats   [][]Expr
		body   Expr
	}
	ELet struct {
		name string
		e    Expr
		body Expr
	}
)
type VarDecl struct {
	name string
	typ  TypeExpr
}
type TypeExpr struct {
	kind string // name, slice, map, ptr, array, set, gmap
	name string
	n    int64
	a, b *TypeExpr
}

type Clause struct {
	name  string
	e     Expr
	roles []RoleDecl
	src   string
	local bool
}
type RoleDecl struct {
	name, role string
	typ        TypeExpr
}

type Contract struct {
	key        string
	params     []string
	results    []string
	requires   []Clause
	ensures    []Clause
	modifies   []Expr
	hasMod     bool
	shared     []Expr // changed by others while a channel receive waits
	invariants []Clause
	trusted    bool
	modular    bool
	safe       bool
	lemma      bool
	lemmaVars  []VarDecl
	opts       map[string]string
	callbacks  map[string]*Contract
	props      []string
	file       string
	iface      bool
}

type Def struct {
	params []string
	body   Expr
}
type FnDecl struct {
	args []TypeExpr
	res  TypeExpr
}

type SpecDB struct {
	contracts map[string]*Contract
	order     []*Contract
	defs      map[string]*Def
	fns       map[string]*FnDecl
	axioms    []Clause
	ghosts    map[string]TypeExpr
}

func (db *SpecDB) lookup(key string, cur *Contract) *Contract {
	c := db.contracts[key]
	if c == nil || c == cur && !c.trusted {
		if c == cur && c != nil && c.modular {
			return c // recursive call uses its own contract
		}
		return nil
	}
	if cur != nil && cur.opts["inline:"+key] != "" {
		return nil
	}
	if c.trusted || c.modular {
		return c
	}
	return nil
}

// ---- lexer ----

type tok struct {
	k    string // id, num, str, op, eof
	s    string
	line int
}

func lex(src string) ([]tok, error) {
	var out []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", ":=", "->"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				return nil, fmt.Errorf("line %d: bad string", line)
			}
			out = append(out, tok{"str", s, line})
			i = j + 1
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && unicode.IsDigit(rune(src[j])) {
				j++
			}
			out = append(out, tok{"num", src[i:j], line})
			i = j
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			out = append(out, tok{"id", src[i:j], line})
			i = j
		default:
			matched := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o, line})
					i += len(o)
					matched = true
					break
				}
			}
			if !matched {
				out = append(out, tok{"op", string(c), line})
				i++
			}
		}
	}
	out = append(out, tok{"eof", "", line})
	return out, nil
}

type parser struct {
	toks []tok
	p    int
	file string
}

func (p *parser) peek() tok { return p.toks[p.p] }
func (p *parser) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *parser) fail(f string, a ...any) {
	panic(fmt.Errorf("%s:%d: %s", p.file, p.peek().line, fmt.Sprintf(f, a...)))
}
func (p *parser) is(s string) bool { t := p.peek(); return t.k != "str" && t.s == s }
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q, got %q", s, p.peek().s)
	}
}
func (p *parser) id() string {
	t := p.next()
	if t.k != "id" {
		p.p--
		p.fail("expected identifier, got %q", t.s)
	}
	return t.s
}

func (p *parser) typ() TypeExpr {
	switch {
	case p.accept("*"):
		t := p.typ()
		return TypeExpr{kind: "ptr", a: &t}
	case p.accept("["):
		if p.accept("]") {
			t := p.typ()
			return TypeExpr{kind: "slice", a: &t}
		}
		n, _ := strconv.ParseInt(p.next().s, 10, 64)
		p.expect("]")
		t := p.typ()
		return TypeExpr{kind: "array", n: n, a: &t}
	}
	name := p.id()
	switch name {
	case "map", "gmap":
		p.expect("[")
		k := p.typ()
		p.expect("]")
		v := p.typ()
		return TypeExpr{kind: name, a: &k, b: &v}
	case "set":
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return TypeExpr{kind: "set", a: &k}
	case "interface":
		p.expect("{")
		p.expect("}")
		return TypeExpr{kind: "any"}
	case "struct":
		p.expect("{")
		p.expect("}")
		return TypeExpr{kind: "unit"}
	}
	for p.accept(".") {
		name += "." + p.id()
	}
	return TypeExpr{kind: "name", name: name}
}

func (p *parser) expr() Expr { return p.iff() }

func (p *parser) iff() Expr {
	l := p.implies()
	for p.accept("<==>") {
		r := p.implies()
		l = EBin{"<==>", l, r}
	}
	return l
}
func (p *parser) implies() Expr {
	l := p.or()
	if p.accept("==>") {
		return EBin{"==>", l, p.implies()}
	}
	return l
}
func (p *parser) or() Expr {
	l := p.and()
	for p.accept("||") {
		l = EBin{"||", l, p.and()}
	}
	return l
}
func (p *parser) and() Expr {
	l := p.cmp()
	for p.accept("&&") {
		l = EBin{"&&", l, p.cmp()}
	}
	return l
}
func (p *parser) cmp() Expr {
	l := p.add()
	var res Expr
	cur := l
	for {
		op := ""
		for _, o := range []string{"==", "!=", "<=", ">=", "<", ">", "in"} {
			if p.is(o) {
				op = o
				break
			}
		}
		if op == "" {
			break
		}
		p.next()
		r := p.add()
		c := EBin{op, cur, r}
		if res == nil {
			res = c
		} else {
			res = EBin{"&&", res, c}
		}
		cur = r
	}
	if res == nil {
		return l
	}
	return res
}
func (p *parser) add() Expr {
	l := p.mul()
	for p.is("+") || p.is("-") {
		op := p.next().s
		l = EBin{op, l, p.mul()}
	}
	return l
}
func (p *parser) mul() Expr {
	l := p.unary()
	for p.is("*") {
		p.next()
		l = EBin{"*", l, p.unary()}
	}
	return l
}
func (p *parser) unary() Expr {
	if p.accept("!") {
		return EUn{"!", p.unary()}
	}
	if p.accept("-") {
		return EUn{"-", p.unary()}
	}
	if p.accept("*") {
		return EUn{"*", p.unary()}
	}
	return p.postfix()
}
func (p *parser) postfix() Expr {
	e := p.primary()
	for {
		switch {
		case p.accept("."):
			e = EField{e, p.id()}
		case p.accept("["):
			i := p.expr()
			p.expect("]")
			e = EIdx{e, i}
		default:
			return e
		}
	}
}
func (p *parser) primary() Expr {
	t := p.next()
	switch t.k {
	case "num":
		n, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			p.fail("bad number")
		}
		return ENum{n}
	case "str":
		return EStr{t.s}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	case "id":
		switch t.s {
		case "forall", "exists":
			var vs []VarDecl
			for {
				var names []string
				names = append(names, p.id())
				for p.accept(",") {
					// either another name of the same type or a new decl
					names = append(names, p.id())
				}
				p.expect(":")
				ty := p.typ()
				for _, n := range names {
					vs = append(vs, VarDecl{n, ty})
				}
				if p.accept(";") {
					continue
				}
				break
			}
			p.expect("::")
			var pats [][]Expr
			for p.accept("{") {
				var ps []Expr
				ps = append(ps, p.expr())
				for p.accept(",") {
					ps = append(ps, p.expr())
				}
				p.expect("}")
				pats = append(pats, ps)
			}
			return EQuant{t.s == "forall", vs, pats, p.expr()}
		case "let":
			n := p.id()
			p.expect("=")
			e := p.expr()
			p.expect("in")
			return ELet{n, e, p.expr()}
		}
		if p.is("(") || p.is("<") && isTypedCall(t.s) {
			c := ECall{f: t.s}
			if p.accept("<") {
				c.types = append(c.types, p.typ())
				for p.accept(",") {
					c.types = append(c.types, p.typ())
				}
				p.expect(">")
			}
			p.expect("(")
			if !p.accept(")") {
				c.args = append(c.args, p.expr())
				for p.accept(",") {
					c.args = append(c.args, p.expr())
				}
				p.expect(")")
			}
			return c
		}
		return EId{t.s}
	}
	p.p--
	p.fail("unexpected %q", t.s)
	return nil
}

func isTypedCall(s string) bool {
	switch s {
	case "is", "as", "pure", "field", "zero", "all":
		return true
	}
	return false
}

func (p *parser) clause() Clause {
	c := Clause{}
	start := p.p
	if p.accept("[") {
		for {
			n := p.id()
			p.expect(":")
			role := p.id()
			rd := RoleDecl{name: n, role: role}
			if role == "phi" || role == "var" || role == "written" || role == "visited" {
				rd.typ = p.typ()
			}
			c.roles = append(c.roles, rd)
			if !p.accept(",") {
				break
			}
		}
		p.expect("]")
	}
	if p.peek().k == "id" && p.toks[p.p+1].s == ":" && p.toks[p.p+1].k == "op" {
		c.name = p.id()
		p.expect(":")
	}
	c.e = p.expr()
	p.expect(";")
	var sb strings.Builder
	for _, t := range p.toks[start : p.p-1] {
		sb.WriteString(t.s + " ")
	}
	c.src = strings.TrimSpace(sb.String())
	return c
}

func (p *parser) key() string {
	k := p.id()
	for {
		if p.accept(".") {
			k += "." + p.id()
			continue
		}
		if p.accept("/") {
			k += "/" + p.id()
			continue
		}
		if p.accept("-") {
			k += "-" + p.id()
			continue
		}
		break
	}
	return k
}

func (p *parser) contract(db *SpecDB, props []string) *Contract {
	c := &Contract{opts: map[string]string{}, callbacks: map[string]*Contract{}, props: props, file: p.file}
	if p.peek().k == "str" {
		c.key = p.next().s
	} else {
		c.key = p.key()
	}
	p.sig(c)
	p.body(c)
	if c.modular && !c.hasMod {
		serr("%s: a modular contract must say what it modifies", c.key)
	}
	return c
}

func (p *parser) sig(c *Contract) {
	p.expect("(")
	for !p.accept(")") {
		c.params = append(c.params, p.id())
		p.accept(",")
	}
	if p.accept("returns") {
		p.expect("(")
		for !p.accept(")") {
			c.results = append(c.results, p.id())
			p.accept(",")
		}
	}
}

func (p *parser) body(c *Contract) {
	p.expect("{")
	for !p.accept("}") {
		switch k := p.id(); k {
		case "requires":
			c.requires = append(c.requires, p.clause())
		case "ensures":
			c.ensures = append(c.ensures, p.clause())
		case "proves": // proved here, not exported to callers
			cl := p.clause()
			cl.local = true
			c.ensures = append(c.ensures, cl)
		case "invariant":
			c.invariants = append(c.invariants, p.clause())
		case "modifies":
			c.hasMod = true
			if !p.accept("nothing") {
				c.modifies = append(c.modifies, p.expr())
				for p.accept(",") {
					c.modifies = append(c.modifies, p.expr())
				}
			}
			p.expect(";")
		case "shared":
			c.shared = append(c.shared, p.expr())
			for p.accept(",") {
				c.shared = append(c.shared, p.expr())
			}
			p.expect(";")
		case "safe":
			c.safe = true
			p.expect(";")
		case "modular":
			c.modular = true
			p.expect(";")
		case "option":
			n := p.id()
			v := "1"
			if p.accept("=") {
				v = p.next().s
			}
			c.opts[n] = v
			p.expect(";")
		case "inline":
			c.opts["inline:"+p.key()] = "1"
			p.expect(";")
		case "callback":
			n := p.id()
			cb := &Contract{key: "callback:" + n, trusted: true, opts: map[string]string{}, callbacks: map[string]*Contract{}}
			p.sig(cb)
			p.body(cb)
			c.callbacks[n] = cb
		default:
			p.fail("unknown clause %s", k)
		}
	}
}

func parseSpecs(dir string) (*SpecDB, error) {
	db := &SpecDB{contracts: map[string]*Contract{}, defs: map[string]*Def{}, fns: map[string]*FnDecl{}, ghosts: map[string]TypeExpr{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.vspec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := db.parse(f, string(b)); err != nil {
			return nil, err
		}
	}
	return db, nil
}

func (db *SpecDB) parse(file, src string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	toks, err := lex(src)
	if err != nil {
		return fmt.Errorf("%s: %v", file, err)
	}
	p := &parser{toks: toks, file: filepath.Base(file)}
	var props []string
	for p.peek().k != "eof" {
		switch k := p.id(); k {
		case "property":
			props = []string{p.id()}
			for p.accept(",") {
				props = append(props, p.id())
			}
			p.expect(";")
		case "def":
			n := p.id()
			d := &Def{}
			p.expect("(")
			for !p.accept(")") {
				d.params = append(d.params, p.id())
				p.accept(",")
			}
			p.expect("=")
			d.body = p.expr()
			p.expect(";")
			if db.defs[n] != nil {
				p.fail("def %s redefined", n)
			}
			db.defs[n] = d
		case "fn":
			n := p.id()
			d := &FnDecl{}
			p.expect("(")
			for !p.accept(")") {
				d.args = append(d.args, p.typ())
				p.accept(",")
			}
			p.expect(":")
			d.res = p.typ()
			p.expect(";")
			db.fns[n] = d
		case "axiom":
			db.axioms = append(db.axioms, p.clause())
		case "ghost":
			n := p.id()
			p.expect(":")
			db.ghosts[n] = p.typ()
			p.expect(";")
		case "trusted", "func":
			c := p.contract(db, props)
			c.trusted = k == "trusted"
			if db.contracts[c.key] != nil {
				p.fail("contract %s redefined", c.key)
			}
			db.contracts[c.key] = c
			db.order = append(db.order, c)
		case "lemma":
			c := &Contract{lemma: true, opts: map[string]string{}, callbacks: map[string]*Contract{}, props: props, file: p.file}
			c.key = "lemma " + p.id()
			p.expect("(")
			for !p.accept(")") {
				n := p.id()
				p.expect(":")
				c.lemmaVars = append(c.lemmaVars, VarDecl{n, p.typ()})
				p.accept(",")
			}
			p.body(c)
			db.contracts[c.key] = c
			db.order = append(db.order, c)
		default:
			p.fail("unknown declaration %s", k)
		}
	}
	return nil
}

// ---- types ----

type SetT struct{ k types.Type }

func (s *SetT) Underlying() types.Type { return s }
func (s *SetT) String() string         { return "set[" + typeKey(s.k) + "]" }

type GMapT struct{ k, v types.Type }

func (s *GMapT) Underlying() types.Type { return s }
func (s *GMapT) String() string         { return "gmap[" + typeKey(s.k) + "]" + typeKey(s.v) }

func (e *Engine) resolveType(t TypeExpr) types.Type {
	switch t.kind {
	case "ptr":
		return types.NewPointer(e.resolveType(*t.a))
	case "slice":
		return types.NewSlice(e.resolveType(*t.a))
	case "array":
		return types.NewArray(e.resolveType(*t.a), t.n)
	case "map":
		return types.NewMap(e.resolveType(*t.a), e.resolveType(*t.b))
	case "gmap":
		return &GMapT{e.resolveType(*t.a), e.resolveType(*t.b)}
	case "set":
		return &SetT{e.resolveType(*t.a)}
	case "any":
		return anyT
	case "unit":
		return types.NewStruct(nil, nil)
	}
	if o := types.Universe.Lookup(t.name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	i := strings.LastIndex(t.name, ".")
	if i < 0 {
		panic(specErr{"unknown type " + t.name})
	}
	pk := e.ext[t.name[:i]]
	if pk == nil {
		panic(specErr{"unknown package in type " + t.name})
	}
	o := pk.Scope().Lookup(t.name[i+1:])
	if o == nil {
		panic(specErr{"unknown type " + t.name})
	}
	return o.Type()
}

type specErr struct{ msg string }

func (s specErr) Error() string { return s.msg }
