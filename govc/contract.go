package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Clause is one named formula of a contract.
type Clause struct {
	name  string
	props []string
	text  string
	expr  ast.Expr
	vars  []specVar // invariant templates and rules
	line  int
}

type specVar struct{ name, typ string }

// Contract is the specification of one function.
type Contract struct {
	key      string
	fn       *ssa.Function
	params   []string
	results  []string
	props    []string
	requires []*Clause
	ensures  []*Clause
	invs     []*Clause
	pure     bool
	theory   bool // use the SMT string theory
	inline   map[string]bool
	depth    int
	file     string
	line     int
	note     string
	timeout  int
	noreplay bool
	gen      string
	opaque   map[string]bool
	trusted  bool
	quant    bool // keep quantified facts
}

func (ct *Contract) usable() bool { return len(ct.ensures) > 0 || len(ct.requires) > 0 || ct.pure }

// Def is a specification function.
type Def struct {
	name   string
	params []specVar
	ret    string
	body   ast.Expr
	text   string
	rec    bool
	keys   []string // heap components read (recursive definitions)
	done   *Ctx
	opaque bool
	nofuel bool // every application unfolds, again and again
}

type Specs struct {
	contracts map[string]*Contract
	order     []*Contract
	defs      map[string]*Def
	deforder  []string
	errs      []string
}

var clauseKeywords = []string{"property", "requires", "ensures", "inv", "pure", "theory", "inline", "opaque", "depth", "note", "timeout", "noreplay", "gen", "trusted", "quant"}

// ParseSpecs reads specification files; a missing file is an empty one.
func ParseSpecs(dir string, names ...string) (*Specs, error) {
	sp := &Specs{contracts: map[string]*Contract{}, defs: map[string]*Def{}}
	for _, n := range names {
		b, err := os.ReadFile(filepath.Join(dir, n+".spec"))
		if os.IsNotExist(err) {
			continue
		}
		if err != nil {
			return nil, err
		}
		if err := sp.parse(n+".spec", string(b)); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

func (sp *Specs) parse(file, text string) error {
	type ln struct {
		s string
		n int
	}
	var lines []ln
	for i, l := range strings.Split(text, "\n") {
		if k := strings.Index(l, "//"); k >= 0 && !strings.Contains(l[:k], "\"") {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		first := strings.Fields(t)[0]
		start := first == "func" || first == "define" || first == "recdef" || first == "unfolddef" || first == "opaquedef"
		for _, k := range clauseKeywords {
			if first == k {
				start = true
			}
		}
		if start || len(lines) == 0 {
			lines = append(lines, ln{t, i + 1})
		} else {
			lines[len(lines)-1].s += " " + t
		}
	}
	var cur *Contract
	for _, l := range lines {
		first := strings.Fields(l.s)[0]
		rest := strings.TrimSpace(l.s[len(first):])
		fail := func(err error) error { return fmt.Errorf("%s:%d: %v", file, l.n, err) }
		switch first {
		case "func":
			ct := &Contract{file: file, line: l.n, inline: map[string]bool{}, opaque: map[string]bool{}}
			i := strings.Index(rest, "(")
			if i < 0 {
				return fail(fmt.Errorf("missing ("))
			}
			ct.key = strings.TrimSpace(rest[:i])
			j := strings.Index(rest, ")")
			ct.params = splitNames(rest[i+1 : j])
			r := strings.TrimSpace(rest[j+1:])
			r = strings.TrimSuffix(strings.TrimPrefix(r, "("), ")")
			ct.results = splitNames(r)
			if sp.contracts[ct.key] != nil {
				return fail(fmt.Errorf("second contract for %s", ct.key))
			}
			sp.contracts[ct.key] = ct
			sp.order = append(sp.order, ct)
			cur = ct
		case "define", "recdef", "unfolddef", "opaquedef":
			eq := strings.Index(rest, "=")
			// the '=' after the closing parenthesis of the parameter list
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			eq = j + strings.Index(rest[j:], "=")
			d := &Def{name: strings.TrimSpace(rest[:i]), rec: first == "recdef" || first == "unfolddef", nofuel: first == "unfolddef", text: rest, opaque: first == "opaquedef"}
			for _, p := range strings.Split(rest[i+1:j], ",") {
				f := strings.Fields(p)
				if len(f) == 2 {
					d.params = append(d.params, specVar{f[0], f[1]})
				} else if len(f) != 0 {
					return fail(fmt.Errorf("bad parameter %q", p))
				}
			}
			if d.opaque {
				d.ret = strings.TrimSpace(rest[j+1:])
				sp.defs[d.name] = d
				sp.deforder = append(sp.deforder, d.name)
				cur = nil
				continue
			}
			d.ret = strings.TrimSpace(rest[j+1 : eq])
			e, err := parser.ParseExpr(rest[eq+1:])
			if err != nil {
				return fail(err)
			}
			d.body = e
			sp.defs[d.name] = d
			sp.deforder = append(sp.deforder, d.name)
			cur = nil
		default:
			if cur == nil {
				return fail(fmt.Errorf("clause outside a contract: %s", l.s))
			}
			switch first {
			case "property":
				cur.props = strings.Fields(rest)
			case "pure":
				cur.pure = true
			case "trusted":
				cur.trusted = true
			case "quant":
				cur.quant = true
			case "theory":
				cur.theory = true
			case "noreplay":
				cur.noreplay = true
			case "gen":
				cur.gen = rest
			case "note":
				cur.note = rest
			case "timeout":
				fmt.Sscan(rest, &cur.timeout)
			case "depth":
				fmt.Sscan(rest, &cur.depth)
			case "inline":
				for _, n := range strings.Fields(rest) {
					cur.inline[n] = true
				}
			case "opaque":
				for _, n := range strings.Fields(rest) {
					cur.opaque[n] = true
				}
			case "requires", "ensures", "inv":
				cl := &Clause{line: l.n}
				k := strings.Index(rest, ":")
				if k < 0 {
					return fail(fmt.Errorf("clause needs a name: %s", l.s))
				}
				head := strings.TrimSpace(rest[:k])
				body := strings.TrimSpace(rest[k+1:])
				if i := strings.Index(head, "("); i >= 0 && first == "inv" {
					j := strings.LastIndex(head, ")")
					for _, p := range strings.Split(head[i+1:j], ",") {
						f := strings.Fields(p)
						if len(f) == 2 {
							cl.vars = append(cl.vars, specVar{f[0], f[1]})
						}
					}
					head = strings.TrimSpace(head[:i])
				}
				if i := strings.Index(head, "["); i >= 0 {
					j := strings.Index(head, "]")
					cl.props = strings.FieldsFunc(head[i+1:j], func(r rune) bool { return r == ',' || r == ' ' })
					head = strings.TrimSpace(head[:i])
				}
				cl.name = head
				cl.text = body
				e, err := parser.ParseExpr(body)
				if err != nil {
					return fail(fmt.Errorf("%v in %q", err, body))
				}
				cl.expr = e
				switch first {
				case "requires":
					cur.requires = append(cur.requires, cl)
				case "ensures":
					cur.ensures = append(cur.ensures, cl)
				case "inv":
					cur.invs = append(cur.invs, cl)
				}
			}
		}
	}
	return nil
}

func splitNames(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		f := strings.Fields(p)
		if len(f) > 0 {
			out = append(out, f[0])
		}
	}
	return out
}

// ---------------------------------------------------------------- evaluation

// SV is a specification value.
type SV struct {
	t   *Term
	typ types.Type
}

// Env evaluates specification expressions in a state.
type Env struct {
	ex    *Exec
	st    *State
	old   *State
	vars  map[string]SV
	depth int
}

func (ex *Exec) contractEnv(ct *Contract, f *ssa.Function, args []*Val, res []*Term, st, old *State) *Env {
	e := &Env{ex: ex, st: st, old: old, vars: map[string]SV{}}
	for i, n := range ct.params {
		if i < len(args) && i < len(f.Params) {
			e.vars[n] = SV{ex.plain(args[i]), f.Params[i].Type()}
		}
	}
	rs := f.Signature.Results()
	for i, n := range ct.results {
		if i < len(res) {
			e.vars[n] = SV{res[i], rs.At(i).Type()}
		}
	}
	return e
}

func (e *Env) with(n string, v SV) *Env {
	ne := &Env{ex: e.ex, st: e.st, old: e.old, vars: map[string]SV{}, depth: e.depth}
	for k, x := range e.vars {
		ne.vars[k] = x
	}
	ne.vars[n] = v
	return ne
}

func (e *Env) boolean(x ast.Expr) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specPanic); ok {
				err = fmt.Errorf("%s", string(s))
				t = e.ex.c.True()
				return
			}
			panic(r)
		}
	}()
	v := e.eval(x)
	if v.t.sort != "Bool" {
		return nil, fmt.Errorf("not a boolean")
	}
	return v.t, nil
}

type specPanic string

func sfail(f string, a ...any) { panic(specPanic(fmt.Sprintf(f, a...))) }

var tInt, tStr, tBool = types.Typ[types.Int], types.Typ[types.String], types.Typ[types.Bool]

func (e *Env) eval(x ast.Expr) SV {
	c := e.ex.c
	switch v := x.(type) {
	case *ast.ParenExpr:
		return e.eval(v.X)
	case *ast.BasicLit:
		switch v.Kind {
		case token.INT:
			cv := constant.MakeFromLiteral(v.Value, v.Kind, 0)
			n, _ := constant.Int64Val(cv)
			return SV{c.Int(n), tInt}
		case token.STRING:
			cv := constant.MakeFromLiteral(v.Value, v.Kind, 0)
			return SV{c.Str(constant.StringVal(cv)), tStr}
		case token.CHAR:
			cv := constant.MakeFromLiteral(v.Value, v.Kind, 0)
			n, _ := constant.Int64Val(cv)
			return SV{c.Int(n), tInt}
		}
	case *ast.Ident:
		if s, ok := e.vars[v.Name]; ok {
			return s
		}
		switch v.Name {
		case "true":
			return SV{c.True(), tBool}
		case "false":
			return SV{c.False(), tBool}
		case "nil":
			return SV{c.Int(0), types.Typ[types.UntypedNil]}
		}
		for _, pp := range []string{pkgVx, pkgCore} {
			if pk := e.ex.P.pkgs[pp]; pk != nil {
				if g, ok := pk.Members[v.Name].(*ssa.Global); ok {
					el := g.Type().Underlying().(*types.Pointer).Elem()
					t := e.ex.heap(e.st, globalKey(g), c.sortOf(el))
					e.ex.globalFacts(e.st, g, t, el)
					return SV{t, el}
				}
				if g, ok := pk.Members[v.Name].(*ssa.NamedConst); ok {
					return SV{e.ex.constant(g.Value), g.Value.Type()}
				}
			}
		}
		sfail("unknown name %s", v.Name)
	case *ast.UnaryExpr:
		a := e.eval(v.X)
		switch v.Op {
		case token.NOT:
			return SV{c.Not(a.t), tBool}
		case token.SUB:
			return SV{c.Sub(c.Int(0), a.t), tInt}
		}
	case *ast.BinaryExpr:
		return e.binary(v)
	case *ast.SelectorExpr:
		return e.selector(e.eval(v.X), v.Sel.Name)
	case *ast.IndexExpr:
		a := e.eval(v.X)
		i := e.eval(v.Index)
		switch t := a.typ.Underlying().(type) {
		case *types.Slice:
			return SV{c.SGet(a.t, i.t), t.Elem()}
		case *types.Map:
			has, val := e.ex.mapGet(e.st, a.t, i.t, a.typ)
			return SV{c.Ite(has, val, e.ex.zero(t.Elem())), t.Elem()}
		case *types.Basic:
			return SV{c.StrAt(a.t, i.t), tInt}
		}
	case *ast.SliceExpr:
		a := e.eval(v.X)
		lo := c.Int(0)
		if v.Low != nil {
			lo = e.eval(v.Low).t
		}
		if a.t.sort == c.StrSort() {
			hi := c.StrLen(a.t)
			if v.High != nil {
				hi = e.eval(v.High).t
			}
			return SV{c.StrSub(a.t, lo, hi), tStr}
		}
		hi := c.SLen(a.t)
		if v.High != nil {
			hi = e.eval(v.High).t
		}
		if n, ok := isInt(lo); ok && n == 0 {
			return SV{c.MkSlice(c.SArr(a.t), hi), a.typ}
		}
	case *ast.CallExpr:
		return e.call(v)
	}
	sfail("unsupported expression %T", x)
	return SV{}
}

func (e *Env) binary(v *ast.BinaryExpr) SV {
	c := e.ex.c
	a := e.eval(v.X)
	b := e.eval(v.Y)
	switch v.Op {
	case token.LAND:
		return SV{c.And(a.t, b.t), tBool}
	case token.LOR:
		return SV{c.Or(a.t, b.t), tBool}
	case token.EQL, token.NEQ:
		at, bt := a.t, b.t
		if at.sort != bt.sort {
			if at.sort == "Any" && b.typ == types.Typ[types.UntypedNil] {
				bt = c.anyNil()
			} else if bt.sort == "Any" && a.typ == types.Typ[types.UntypedNil] {
				at = c.anyNil()
			} else if isSliceSort(at.sort) && b.typ == types.Typ[types.UntypedNil] {
				at, bt = c.SLen(at), c.Int(0)
			} else {
				sfail("comparison of %s and %s", at.sort, bt.sort)
			}
		}
		r := c.Eq(at, bt)
		if isSliceSort(at.sort) {
			i := c.BVar(fmt.Sprintf("s%d!", e.depth), "Int")
			r = c.And(c.Eq(c.SLen(at), c.SLen(bt)), c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, c.SLen(at))), c.Eq(c.SGet(at, i), c.SGet(bt, i)))))
		}
		if v.Op == token.NEQ {
			r = c.Not(r)
		}
		return SV{r, tBool}
	case token.ADD:
		if a.t.sort == c.StrSort() {
			return SV{c.StrCat(a.t, b.t), tStr}
		}
		return SV{c.Add(a.t, b.t), tInt}
	case token.SUB:
		return SV{c.Sub(a.t, b.t), tInt}
	case token.MUL:
		return SV{c.Mul(a.t, b.t), tInt}
	case token.LSS:
		if a.t.sort == c.StrSort() {
			return SV{c.StrLt(a.t, b.t), tBool}
		}
		return SV{c.Lt(a.t, b.t), tBool}
	case token.LEQ:
		if a.t.sort == c.StrSort() {
			return SV{c.Not(c.StrLt(b.t, a.t)), tBool}
		}
		return SV{c.Le(a.t, b.t), tBool}
	case token.GTR:
		if a.t.sort == c.StrSort() {
			return SV{c.StrLt(b.t, a.t), tBool}
		}
		return SV{c.Lt(b.t, a.t), tBool}
	case token.GEQ:
		if a.t.sort == c.StrSort() {
			return SV{c.Not(c.StrLt(a.t, b.t)), tBool}
		}
		return SV{c.Le(b.t, a.t), tBool}
	}
	sfail("operator %s", v.Op)
	return SV{}
}

func (e *Env) selector(a SV, f string) SV {
	c := e.ex.c
	sct, nt := structOf(a.typ)
	if sct == nil || nt == nil {
		sfail("selector .%s on %s", f, a.typ)
	}
	for i := 0; i < sct.NumFields(); i++ {
		if sct.Field(i).Name() == f {
			ft := sct.Field(i).Type()
			if _, ok := a.typ.Underlying().(*types.Pointer); ok {
				h := e.ex.heap(e.st, fieldKey(nt, f), "(Array Int "+c.sortOf(ft)+")")
				return SV{c.Select(h, a.t), ft}
			}
			return SV{c.Proj(a.t, f, c.sortOf(ft)), ft}
		}
	}
	sfail("no field %s in %s", f, a.typ)
	return SV{}
}

func (e *Env) call(v *ast.CallExpr) SV {
	c := e.ex.c
	id, ok := v.Fun.(*ast.Ident)
	if !ok {
		if sel, ok := v.Fun.(*ast.SelectorExpr); ok {
			// pkg.Func(args): the result of a function of the repository
			if p, ok := sel.X.(*ast.Ident); ok {
				return e.repoCall(p.Name+"."+sel.Sel.Name, v.Args)
			}
		}
		sfail("call of an expression")
	}
	arg := func(i int) SV {
		if i >= len(v.Args) {
			sfail("%s: missing argument", id.Name)
		}
		return e.eval(v.Args[i])
	}
	S := c.StrSort()
	switch id.Name {
	case "len":
		a := arg(0)
		return SV{e.ex.lenOf(e.st, a.t, a.typ), tInt}
	case "old":
		ne := *e
		ne.st = e.old
		return ne.eval(v.Args[0])
	case "implies":
		return SV{c.Implies(arg(0).t, arg(1).t), tBool}
	case "iff":
		return SV{c.Eq(arg(0).t, arg(1).t), tBool}
	case "ite":
		a := arg(1)
		return SV{c.Ite(arg(0).t, a.t, arg(2).t), a.typ}
	case "and":
		var ts []*Term
		for i := range v.Args {
			ts = append(ts, arg(i).t)
		}
		return SV{c.And(ts...), tBool}
	case "forall", "exists":
		n := v.Args[0].(*ast.Ident).Name
		lo, hi := arg(1).t, arg(2).t
		e2 := *e
		e2.depth++
		b := c.BVar(fmt.Sprintf("%s!%d", n, e2.depth), "Int")
		ne := e2.with(n, SV{b, tInt})
		body := ne.eval(v.Args[3]).t
		rng := c.And(c.Le(lo, b), c.Lt(b, hi))
		var pats []*Term
		if len(v.Args) > 4 {
			pats = append(pats, ne.eval(v.Args[4]).t)
		}
		if id.Name == "forall" {
			return SV{c.Forall([]*Term{b}, c.Implies(rng, body), pats...), tBool}
		}
		return SV{c.Exists([]*Term{b}, c.And(rng, body)), tBool}
	case "forallstr", "existsstr":
		n := v.Args[0].(*ast.Ident).Name
		e2 := *e
		e2.depth++
		b := c.BVar(fmt.Sprintf("%s!%d", n, e2.depth), S)
		ne := e2.with(n, SV{b, tStr})
		body := ne.eval(v.Args[1]).t
		var pats []*Term
		if len(v.Args) > 2 {
			pats = append(pats, ne.eval(v.Args[2]).t)
		}
		if id.Name == "forallstr" {
			return SV{c.Forall([]*Term{b}, body, pats...), tBool}
		}
		return SV{c.Exists([]*Term{b}, body), tBool}
	case "haskey":
		m := arg(0)
		has, _ := e.ex.mapGet(e.st, m.t, arg(1).t, m.typ)
		return SV{has, tBool}
	case "fresh":
		return SV{c.Lt(e.old.heap["alloc"], arg(0).t), tBool}
	case "allocated":
		a := arg(0).t
		return SV{c.And(c.Le(c.Int(0), a), c.Le(a, e.ex.heap(e.st, "alloc", "Int"))), tBool}
	case "contains":
		return SV{c.strFn("contains", "Bool", arg(0).t, arg(1).t), tBool}
	case "hasprefix":
		return SV{c.strFn("prefix", "Bool", arg(0).t, arg(1).t), tBool}
	case "hassuffix":
		return SV{c.strFn("suffix", "Bool", arg(0).t, arg(1).t), tBool}
	case "index":
		return SV{c.strFn("index", "Int", arg(0).t, arg(1).t), tInt}
	case "lastindex":
		return SV{c.strFn("lastindex", "Int", arg(0).t, arg(1).t), tInt}
	case "replaceall":
		return SV{c.strFn("replaceall", S, arg(0).t, arg(1).t, arg(2).t), tStr}
	case "toupper":
		return SV{c.strFn("toupper", S, arg(0).t), tStr}
	case "tolower":
		return SV{c.strFn("tolower", S, arg(0).t), tStr}
	case "itoa":
		return SV{c.itoa(arg(0).t), tStr}
	case "repeat":
		return SV{c.strFn("repeat", S, arg(0).t, arg(1).t), tStr}
	case "min":
		a, b := arg(0).t, arg(1).t
		return SV{c.Ite(c.Le(a, b), a, b), tInt}
	case "max":
		a, b := arg(0).t, arg(1).t
		return SV{c.Ite(c.Le(a, b), b, a), tInt}
	case "join":
		return SV{c.joinFn(arg(0).t, arg(1).t), tStr}
	case "joinn":
		return SV{c.joinN(c.SArr(arg(0).t), arg(1).t, arg(2).t, S), tStr}
	case "istype":
		// istype(anyvalue, "type")
		a := arg(0)
		tn := constant.StringVal(constant.MakeFromLiteral(v.Args[1].(*ast.BasicLit).Value, token.STRING, 0))
		return SV{c.Eq(c.Tag(a.t), c.typeID(e.ex.goType(tn))), tBool}
	case "as":
		a := arg(0)
		tn := constant.StringVal(constant.MakeFromLiteral(v.Args[1].(*ast.BasicLit).Value, token.STRING, 0))
		ty := e.ex.goType(tn)
		return SV{c.unbox(ty, a.t), ty}
	}
	if d := e.ex.specs.defs[id.Name]; d != nil {
		var as []SV
		for i := range v.Args {
			as = append(as, arg(i))
		}
		return e.applyDef(d, as)
	}
	for _, p := range []string{"vxlisp", "vx_core"} {
		if e.ex.P.byKey[p+"."+id.Name] != nil {
			return e.repoCall(p+"."+id.Name, v.Args)
		}
	}
	sfail("unknown function %s", id.Name)
	return SV{}
}

// repoCall names the result of a side-effect free function of the repository.
func (e *Env) repoCall(key string, args []ast.Expr) SV {
	f := e.ex.P.byKey[key]
	if f == nil {
		sfail("unknown function %s", key)
	}
	ct := e.ex.specs.contracts[key]
	var vs []*Val
	for _, a := range args {
		vs = append(vs, &Val{t: e.eval(a).t})
	}
	t := e.ex.pureResult(e.st, f, ct, vs)
	return SV{t, f.Signature.Results().At(0).Type()}
}

func (ex *Exec) goType(s string) types.Type {
	ex.P.mu.Lock()
	defer ex.P.mu.Unlock()
	if t, ok := ex.P.typeMemo[s]; ok {
		return t
	}
	var last error
	for _, pp := range []string{pkgVx, pkgCore} {
		tv, err := types.Eval(ex.P.prog.Fset, ex.P.pkgs[pp].Pkg, token.NoPos, s)
		if err == nil && tv.IsType() {
			ex.P.typeMemo[s] = tv.Type
			return tv.Type
		}
		last = err
	}
	sfail("type %s: %v", s, last)
	return nil
}

func (e *Env) applyDef(d *Def, as []SV) SV {
	c := e.ex.c
	if len(as) != len(d.params) {
		sfail("%s takes %d arguments", d.name, len(d.params))
	}
	if !d.rec && !d.opaque {
		ne := &Env{ex: e.ex, st: e.st, old: e.old, vars: map[string]SV{}, depth: e.depth + 10}
		for i, p := range d.params {
			ne.vars[p.name] = SV{as[i].t, e.ex.goType(p.typ)}
		}
		r := ne.eval(d.body)
		return r
	}
	rt := e.ex.goType(d.ret)
	if d.opaque {
		var ts []*Term
		for _, a := range as {
			ts = append(ts, a.t)
		}
		return SV{c.App("spec."+d.name, c.sortOf(rt), ts...), rt}
	}
	e.ex.defineRec(d)
	var ts []*Term
	for _, a := range as {
		ts = append(ts, a.t)
	}
	for _, k := range e.ex.recKeys[d.name] {
		ts = append(ts, e.ex.heap(e.st, k, e.ex.keys[k]))
	}
	name := "spec." + d.name
	if e.ex.inRec == d && !d.nofuel {
		name += "!0"
	}
	return SV{c.App(name, c.sortOf(rt), ts...), rt}
}

// defineRec gives a recursive specification function its defining axiom
// (each application is unfolded once).
func (ex *Exec) defineRec(d *Def) {
	c := ex.c
	if c.instd["rec:"+d.name] {
		return
	}
	c.instd["rec:"+d.name] = true
	if ex.recKeys == nil {
		ex.recKeys = map[string][]string{}
	}
	rt := ex.goType(d.ret)
	saveRec := ex.inRec
	for pass := 0; pass < 6; pass++ {
		before := len(ex.recKeys[d.name])
		st := &State{cond: c.True(), heap: map[string]*Term{}, cells: map[cellKey]*Term{}}
		var bvs []*Term
		known := map[string]bool{}
		for _, k := range sortedKeysS(ex.keys) {
			st.heap[k] = c.BVar("h!"+k, ex.keys[k])
		}
		env := &Env{ex: ex, st: st, old: st, vars: map[string]SV{}, depth: 30}
		var ps []*Term
		for _, p := range d.params {
			ty := ex.goType(p.typ)
			b := c.BVar(p.name+"!r", c.sortOf(ty))
			ps = append(ps, b)
			env.vars[p.name] = SV{b, ty}
		}
		ex.inRec = d
		nk := len(ex.keys)
		body := env.eval(d.body).t
		ex.inRec = saveRec
		if len(ex.keys) != nk {
			// a new state component was discovered: the whole run restarts
			ex.restart = true
		}
		fb := map[string]bool{}
		freeB(body, fb, map[int]bool{})
		for _, k := range ex.recKeys[d.name] {
			known[k] = true
		}
		for _, k := range sortedKeysS(ex.keys) {
			if fb["%h!"+k] && !known[k] {
				ex.recKeys[d.name] = append(ex.recKeys[d.name], k)
			}
		}
		if len(ex.recKeys[d.name]) != before {
			continue
		}
		for _, k := range ex.recKeys[d.name] {
			bvs = append(bvs, c.BVar("h!"+k, ex.keys[k]))
		}
		all := append(append([]*Term{}, ps...), bvs...)
		f := c.App("spec."+d.name, c.sortOf(rt), all...)
		g := c.App("spec."+d.name+"!0", c.sortOf(rt), all...)
		c.fnaxioms["spec."+d.name] = []*Term{
			c.Forall(all, c.Eq(f, body), f),
			c.Forall(all, c.Eq(f, g), f),
		}
		if d.nofuel {
			c.fnaxioms["spec."+d.name] = c.fnaxioms["spec."+d.name][:1]
		}
		return
	}
}

// templateCands instantiates the contract's invariant templates over the loop's variables.
func (ex *Exec) templateCands(fr *Frame, l *loopInfo, phis []*ssa.Phi, addc func(string, genFn)) {
	c := ex.c
	ct := ex.rootContract
	for _, cl := range ct.invs {
		cl := cl
		// choices per template variable
		type choice struct {
			ph   *ssa.Phi
			off  int64
			cell ssa.Value
			ext  string
		}
		var opts [][]choice
		for _, v := range cl.vars {
			ty := ex.goType(v.typ)
			srt := c.sortOf(ty)
			var cs []choice
			for _, p := range phis {
				if c.sortOf(p.Type()) == srt && isPtrLike(p.Type()) == isPtrLike(ty) && (srt != "Int" || !isPtrLike(ty) || types.Identical(p.Type(), ty)) {
					cs = append(cs, choice{ph: p})
					if srt == "Int" && !isPtrLike(ty) {
						cs = append(cs, choice{ph: p, off: 1})
					}
				}
			}
			for _, b := range fr.fn.Blocks {
				for _, in := range b.Instrs {
					if al, ok := in.(*ssa.Alloc); ok && isCell(al) {
						el := al.Type().Underlying().(*types.Pointer).Elem()
						if c.sortOf(el) == srt || (isBuilderPtr(al.Type()) && srt == c.StrSort()) {
							cs = append(cs, choice{cell: al})
						}
					}
				}
			}
			opts = append(opts, cs)
		}
		n := 1
		for _, o := range opts {
			n *= len(o)
		}
		if n == 0 || n > 400 {
			continue
		}
		for k := 0; k < n; k++ {
			sel := make([]choice, len(opts))
			kk := k
			nm := cl.name
			for i, o := range opts {
				sel[i] = o[kk%len(o)]
				kk /= len(o)
				if sel[i].ph != nil {
					nm += fmt.Sprintf(" %s=%s%+d", cl.vars[i].name, sel[i].ph.Comment, sel[i].off)
				}
			}
			addc(nm, func(get func(*ssa.Phi) *Term, st *State) *Term {
				env := ex.contractEnv(ct, ex.root.fn, ex.root.args, nil, st, ex.rootPre)
				for i, v := range cl.vars {
					ty := ex.goType(v.typ)
					var t *Term
					if sel[i].ph != nil {
						t = get(sel[i].ph)
						if t == nil {
							return nil
						}
						if sel[i].off != 0 {
							t = c.Add(t, c.Int(sel[i].off))
						}
						ty = sel[i].ph.Type()
					} else {
						t = st.cells[cellKey{fr.id, sel[i].cell}]
						if t == nil {
							return nil
						}
					}
					env.vars[v.name] = SV{t, ty}
				}
				g, err := env.boolean(cl.expr)
				if err != nil {
					ex.specError(ct, cl, err)
					return nil
				}
				return g
			})
		}
	}
}
