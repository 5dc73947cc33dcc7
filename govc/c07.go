package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"maps"
	"os"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C07: everything a package declares is in what is generated for it.
//
// One type, one constant and one function of one package of the project, each
// chosen arbitrarily, are followed through the output phase. What must be found in
// the text for a package is given by templates: fixed text around the name of the
// declaration as the target language spells it. Contracts, inferred by
// elimination: a function that is given the declaration (or a list, a table or the
// package that holds it, or text that has it) returns text with the template.

func init() {
	register(&Check{id: "C07", level: "proof", run: runC07, search: c07Search,
		what: "for the functions that turn a package or a project into text: for every type, constant and function declared in it the text holds its definition and its entry in the run-time tables (JavaScript, C++, Java, Kotlin, C#) or its entry, description and source (documentation)",
		assumes: []string{
			"generating output leaves the project unchanged (property C03), and an element that is read exists (property C01)",
			"what a declaration is called in the target language (LangFromName) and how text is escaped (HtmlFromString) is not part of this property",
			"names of declarations are not empty, and the types that stand for types of the target languages are not declared in a package",
			"the package's tables and lists hold what was declared (reading of the sources)",
			"left out: Swift, generated tests; the empty value of vx/core/boolean (Java, Kotlin, C#), the C++ class of vx/core/any and the destructor template of generic types (C++), which are hand-written",
		}})
}

const (
	kdType = iota
	kdFunc
	kdConst
	kdPkg
	kinds07
)

var kdName = [kinds07]string{"type", "func", "const", "package"}
var kdGo = [kinds07]string{"vxtype", "vxfunc", "vxconst", "vxpackage"}

// A template: the text that must be found for a declaration of the kind. $N is the
// name in the target language, $H the escaped name, $P the escaped package name,
// $D the escaped description, $S the escaped source, $n the name as declared, $I the
// number of an overload, $Q the package in the target language. What is in braces
// may be handed to a function that adds what is around it.
type tmpl struct {
	kind int
	text string
}

// A family: functions that make the whole text for a package (or for a project),
// with the templates that each of their results must hold.
type family struct {
	name  string
	roots map[string]map[int][]tmpl // function -> result -> templates
	langs []string                  // the languages, if they share the functions with others
	// declarations whose text is hand-written: template -> full name
	except map[tmpl]string
	// templates that generic types (whose name depends on the use) do not have
	ordinary map[tmpl]bool
}

func tm(kind int, texts ...string) []tmpl {
	var out []tmpl
	for _, t := range texts {
		out = append(out, tmpl{kind, t})
	}
	return out
}

func tms(xs ...[]tmpl) []tmpl {
	var out []tmpl
	for _, x := range xs {
		out = append(out, x...)
	}
	return out
}

var families = []family{
	{name: "javascript", roots: map[string]map[int][]tmpl{
		"JsFromPackage": {0: tms(
			tm(kdType, "static t_$N", "static e_$N", ".t_$N['vx_value'] = {", "\"$n\": $Q.e_$N", "\"$n\": $Q.t_$N"),
			tm(kdFunc, "static t_$N$I", "static e_$N$I", "f_$N$I", "\"$n$I\": $Q.e_$N$I", "\"$n$I\": $Q.t_$N$I"),
			tm(kdConst, "static c_$N", "\"$n\": $Q.c_$N"))}}},
	{name: "c++", ordinary: map[tmpl]bool{{kdType, "~Class_$N() override"}: true}, except: map[tmpl]string{{kdType, "~Class_$N() override"}: "vx/core/any"}, roots: map[string]map[int][]tmpl{
		"CppFromPackage": {
			0: tms(tm(kdType, "class {Class_$N}", "::e_$N = ", "::t_$N = ", "maptype[\"$n\"] = "),
				tm(kdFunc, "class {Class_$N$I}", "e_$N$I = NULL;", "t_$N$I = NULL;", "mapfunc[\"$n$I\"] = "),
				tm(kdConst, "Class_$N", "c_$N = NULL;", "mapconst[\"$n\"] = ")),
			1: tms(tm(kdType, "class Abstract_$N", "~Class_$N() override", "extern Type_$N"),
				tm(kdFunc, "class Abstract_$N$I", "class Class_$N$I", "extern Func_$N$I"),
				tm(kdConst, "class Class_$N", "extern Const_$N"))}}},
	{name: "java, kotlin, c#", langs: []string{"langjava", "langkotlin", "langcsharp"}, except: map[tmpl]string{{kdType, " {e_$N}"}: "vx/core/boolean"}, roots: map[string]map[int][]tmpl{
		"LangFromPackage": {0: tms(
			tm(kdType, "class Class_$N", " {e_$N}", " {t_$N}", "maptype.put(\"$n\", "),
			tm(kdFunc, "class Class_$N$I", " {e_$N$I}", " {t_$N$I}", "mapfunc.put(\"$n$I\", "),
			tm(kdConst, "class {Const_$N}", " {c_$N}", "mapconst.put(\"$n\", "))}}},
	{name: "documentation", roots: map[string]map[int][]tmpl{
		"HtmlFromProject": {0: tms(
			tm(kdType, "id=\"d_type_$P/$H", "navigate('type_$P/$H", "(t) $H", "$D", "$S"),
			tm(kdFunc, "id=\"d_func_$P/$H$I", "navigate('func_$P/$H$I", "(f) $H", "$D", "$S"),
			tm(kdConst, "id=\"d_const_$P/$H", "navigate('const_$P/$H", "(c) $H", "$D", "$S"),
			tm(kdPkg, "id=\"d_pkg_$H", "navigate('pkg_$H", "$D", "$S"))}}},
}

var contractMu sync.Mutex

type textRun struct {
	k       *Run
	P       *Prog
	fam     *family
	tmpls   []tmpl // of this family, without duplicates
	item    [kinds07]*types.Named
	prj     *types.Named
	mu      sync.Mutex
	dead    map[string]string
	use     map[string]map[*ssa.Function]bool
	calls   map[*ssa.Function]bool // has a contract of its own
	roots   map[*ssa.Function]bool
	consts  map[*ssa.Function]map[string]bool
	generic bool // the pass about the flow of text
	results []*FnResult
	langs   map[string]*ssa.Global
	plain   map[string]bool
}

func (n *textRun) kindOf(t types.Type) int {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return -1
	}
	for k, nt := range n.item {
		if nt != nil && types.Identical(types.Unalias(p.Elem()), nt) {
			return k
		}
	}
	return -1
}

func (n *textRun) listOf(t types.Type) int {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return n.kindOf(s.Elem())
	}
	return -1
}

// tableOf: a table of declarations by name.
func (n *textRun) tableOf(t types.Type) int {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isStrT(m.Key()) {
		return -1
	}
	if k := n.kindOf(m.Elem()); k >= 0 {
		return k
	}
	return n.listOf(m.Elem())
}

func isTexts(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isStrT(s.Elem())
}

func (n *textRun) isPrj(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && n.prj != nil && types.Identical(types.Unalias(p.Elem()), n.prj)
}

func (n *textRun) isLang(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	nt, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && nt.Obj().Name() == "vxlang"
}

func (n *textRun) alive(f *ssa.Function, key string) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.use[key] == nil {
		n.use[key] = map[*ssa.Function]bool{}
	}
	n.use[key][f] = true
	_, d := n.dead[key]
	return !d
}

func (n *textRun) isDead(key string) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	_, d := n.dead[key]
	return d
}

// textMemo holds the terms of one function.
type textMemo struct {
	n    *textRun
	ex   *Exec
	memo map[[2]int]*Term // text, template
	lmem map[[2]int]*Term
	mems map[[2]int]*Term
	pat  [][]*Term
}

// The followed declarations and what they are called.
func (m *textMemo) it(k int) *Term  { return m.ex.c.Const("$"+kdName[k], "Int") }
func (m *textMemo) key(k int) *Term { return m.ex.c.Const("$"+kdName[k]+".key", m.ex.c.StrSort()) }
func (m *textMemo) fld(k int, f string) *Term {
	return m.ex.c.Const("$"+kdName[k]+"."+f, m.ex.c.StrSort())
}
func (m *textMemo) idx(k int) *Term { return m.ex.c.Const("$"+kdName[k]+".idx", "Int") }
func (m *textMemo) prj() *Term      { return m.ex.c.Const("$project", "Int") }

const tmGeneric = -1 // any text
const opName, opHtml = "langname", "htmltext"

// parts of template i.
func (m *textMemo) parts(i int) []*Term {
	if m.pat == nil {
		m.pat = make([][]*Term, len(m.n.tmpls))
	}
	if m.pat[i] == nil {
		a, b, z := braces(m.n.tmpls[i].text)
		m.pat[i] = m.split(m.n.tmpls[i], a+b+z)
	}
	return m.pat[i]
}

// core is what is in braces, and the parts with it as one.
func (m *textMemo) core(i int) (*Term, []*Term) {
	t := m.n.tmpls[i]
	a, b, z := braces(t.text)
	if b == "" {
		return nil, nil
	}
	c := m.ex.c
	ps := m.split(t, b)
	x := ps[len(ps)-1]
	for j := len(ps) - 2; j >= 0; j-- {
		x = c.StrCat(ps[j], x)
	}
	return x, append(append(m.split(t, a), x), m.split(t, z)...)
}

// braces: what is before, in and after the braces.
func braces(s string) (string, string, string) {
	a, rest, ok := strings.Cut(s, "{")
	b, z, ok2 := strings.Cut(rest, "}")
	if !ok || !ok2 {
		return s, "", ""
	}
	return a, b, z
}

func (m *textMemo) split(t tmpl, s string) []*Term {
	c := m.ex.c
	var out []*Term
	app := func(fn, f string) *Term { return c.App(fn, c.StrSort(), m.fld(t.kind, f)) }
	lit := ""
	for j := 0; j < len(s); j++ {
		if s[j] == '$' && j+1 < len(s) {
			var p *Term
			switch s[j+1] {
			case 'N':
				p = app(opName, "alias")
			case 'H':
				p = app(opHtml, "name")
			case 'P':
				p = app(opHtml, "pkgname")
			case 'D':
				p = app(opHtml, "doc")
			case 'I':
				ix := m.idx(t.kind)
				p = c.Ite(c.Lt(c.Int(0), ix), c.StrCat(c.Str("_"), c.itoa(ix)), c.Str(""))
			case 'Q':
				p = c.App(opName, c.StrSort(), m.fld(kdPkg, "name"))
			case 'S':
				p = app(opHtml, "source")
			case 'n':
				p = m.fld(t.kind, "name")
			}
			if p != nil {
				if lit != "" {
					out = append(out, c.Str(lit))
				}
				lit = ""
				out = append(out, p)
				j++
				continue
			}
		}
		lit += string(s[j])
	}
	if lit != "" {
		out = append(out, c.Str(lit))
	}
	return out
}

func flat(t *Term) []*Term {
	var out []*Term
	for t.op == "@cat" {
		out = append(out, t.args[0])
		t = t.args[1]
	}
	return append(out, t)
}

// has: the text s has template i.
func (m *textMemo) has(s *Term, i int) *Term {
	k := [2]int{s.id, i}
	if r, ok := m.memo[k]; ok {
		return r
	}
	c := m.ex.c
	var r *Term
	_, lit := isStr(s)
	switch {
	case s.op == "ite":
		r = c.Ite(s.args[0], m.has(s.args[1], i), m.has(s.args[2], i))
	case s.op == "@cat":
		r = c.Or(m.has(s.args[0], i), m.has(s.args[1], i))
		if i >= 0 {
			r = c.Or(r, m.match(s, i))
		}
	case lit:
		r = c.App(fmt.Sprintf("has%d", i+1), "Bool", s)
		if i >= 0 {
			r = c.False()
		}
	default:
		r = c.App(fmt.Sprintf("has%d", i+1), "Bool", s)
		if _, ok := c.termfacts[r.id]; !ok && !r.bound {
			c.termfacts[r.id] = nil
			var fs []*Term
			if i >= 0 {
				fs = append(fs, c.Implies(m.match(s, i), r))
			}
			if s.op == "@go.joinn" {
				l := c.MkSlice(s.args[0], s.args[1])
				fs = append(fs, c.Implies(m.lhas(l, i), r))
			}
			c.termfacts[r.id] = fs
		}
	}
	m.memo[k] = r
	return r
}

// match: the template starts in the first part of s.
func (m *textMemo) match(s *Term, i int) *Term {
	r := m.matchParts(s, m.parts(i), true, 0)
	if _, ps := m.core(i); ps != nil {
		r = m.ex.c.Or(r, m.matchParts(s, ps, true, 0))
	}
	return r
}

func (m *textMemo) matchParts(x *Term, ps []*Term, first bool, depth int) *Term {
	c := m.ex.c
	r := c.True()
	for j, p := range ps {
		if x == nil {
			return c.False()
		}
		h, rest := x, (*Term)(nil)
		if x.op == "@cat" {
			h, rest = x.args[0], x.args[1]
		}
		// a part that depends on a condition
		if p.op == "ite" && h != p {
			a := m.matchParts(x, append(flat(p.args[1]), ps[j+1:]...), first && j == 0, depth+1)
			b := m.matchParts(x, append(flat(p.args[2]), ps[j+1:]...), first && j == 0, depth+1)
			return c.And(r, c.Ite(p.args[0], a, b))
		}
		if s, ok := isStr(p); ok && s == "" {
			continue
		}
		if h.op == "ite" && h != p && depth < 6 && (j > 0 || !first) {
			alt := func(t *Term) *Term {
				if rest != nil {
					t = c.StrCat(t, rest)
				}
				return m.matchParts(t, ps[j:], first && j == 0, depth+1)
			}
			return c.And(r, c.Ite(h.args[0], alt(h.args[1]), alt(h.args[2])))
		}
		w, plit := isStr(p)
		v, hlit := isStr(h)
		switch {
		case plit && hlit && j == 0 && first && len(ps) > 1:
			if !strings.HasSuffix(v, w) {
				return c.False()
			}
		case plit && hlit && j == 0 && first:
			if !strings.Contains(v, w) {
				return c.False()
			}
		case plit && hlit && j == len(ps)-1:
			if !strings.HasPrefix(v, w) {
				return c.False()
			}
		case plit != hlit:
			return c.False()
		case plit:
			if v != w {
				return c.False()
			}
		default:
			r = c.And(r, c.Eq(h, p))
		}
		x = rest
	}
	return r
}

// lhas: an element of the list of texts has template i.
func (m *textMemo) lhas(l *Term, i int) *Term {
	k := [2]int{l.id, i}
	if r, ok := m.lmem[k]; ok {
		return r
	}
	c := m.ex.c
	var r *Term
	if n, ok := isInt(c.SLen(l)); ok && n <= 12 {
		r = c.False()
		for j := int64(0); j < n; j++ {
			r = c.Or(r, m.has(c.SGet(l, c.Int(j)), i))
		}
	} else if l.op == "ite" {
		r = c.Ite(l.args[0], m.lhas(l.args[1], i), m.lhas(l.args[2], i))
	} else {
		r = c.App(fmt.Sprintf("lhas%d", i+1), "Bool", l)
		if _, ok := c.termfacts[r.id]; !ok && !r.bound {
			w := c.App(fmt.Sprintf("lhasat%d", i+1), "Int", l)
			c.termfacts[r.id] = nil
			c.termfacts[r.id] = []*Term{
				c.Implies(r, c.And(c.Le(c.Int(0), w), c.Lt(w, c.SLen(l)), m.has(c.SGet(l, w), i))),
			}
		}
	}
	m.lmem[k] = r
	return r
}

// mem: the followed declaration (or its key) is in the list.
func (m *textMemo) mem(l *Term, k int, key bool) *Term {
	id := k
	x := m.it(k)
	if key {
		id += kinds07
		x = m.key(k)
	}
	if r, ok := m.mems[[2]int{l.id, id}]; ok {
		return r
	}
	c := m.ex.c
	var r *Term
	if n, ok := isInt(c.SLen(l)); ok && n <= 12 {
		r = c.False()
		for j := int64(0); j < n; j++ {
			r = c.Or(r, c.Eq(c.SGet(l, c.Int(j)), x))
		}
	} else if l.op == "ite" {
		r = c.Ite(l.args[0], m.mem(l.args[1], k, key), m.mem(l.args[2], k, key))
	} else {
		r = c.App(fmt.Sprintf("mem%d", id), "Bool", l)
		if _, ok := c.termfacts[r.id]; !ok && !r.bound {
			w := m.wit(l, k, key)
			c.termfacts[r.id] = []*Term{
				c.Implies(r, c.And(c.Le(c.Int(0), w), c.Lt(w, c.SLen(l)), c.Eq(c.SGet(l, w), x))),
				c.Implies(c.Eq(c.SLen(l), c.Int(0)), c.Not(r)),
			}
		}
	}
	m.mems[[2]int{l.id, id}] = r
	return r
}

// haskey: the key of the followed declaration is in the table.
func (m *textMemo) haskey(st *State, t *Term, mt types.Type, k int) *Term {
	h, _ := m.ex.mapGet(st, t, m.key(k), mt)
	return h
}

func (m *textMemo) wit(l *Term, k int, key bool) *Term {
	if key {
		k += kinds07
	}
	return m.ex.c.App(fmt.Sprintf("memat%d", k), "Int", l)
}

// table and list of the followed package.
func (m *textMemo) table(k int) *Term { return m.ex.c.Const("$package.map"+kdName[k], "Int") }
func (m *textMemo) list(k int, t types.Type) *Term {
	return m.ex.c.Const("$package.list"+kdName[k], m.ex.c.sortOf(t))
}

// A fact: if the arguments are like this, the results are like that.
type textFact struct {
	key   string
	hyp   func(m *textMemo, args []*Term) *Term
	concl func(m *textMemo, st *State, args, res []*Term) *Term
}

// facts about a function, candidates included.
func (n *textRun) facts(f *ssa.Function) []textFact {
	var out []textFact
	sig := f.Signature
	add := func(key string, hyp func(m *textMemo, a []*Term) *Term, concl func(m *textMemo, st *State, a, r []*Term) *Term) {
		out = append(out, textFact{funcKey(f) + ": " + key, hyp, concl})
	}
	type hypT struct {
		name string
		kind int // of the declaration, -1: text, -2: the project
		key  bool
		at   func(m *textMemo, a []*Term) *Term
	}
	var hyps []hypT
	for i, p := range f.Params {
		i, t := i, p.Type()
		if k := n.kindOf(t); k >= 0 {
			hyps = append(hyps, hypT{fmt.Sprintf("%s %d", kdName[k], i), k, false, func(m *textMemo, a []*Term) *Term { return m.ex.c.Eq(a[i], m.it(k)) }})
		}
		if k := n.listOf(t); k >= 0 {
			hyps = append(hyps, hypT{fmt.Sprintf("list of %s %d", kdName[k], i), k, false, func(m *textMemo, a []*Term) *Term { return m.mem(a[i], k, false) }})
		}
		if k := n.tableOf(t); k >= 0 {
			hyps = append(hyps, hypT{fmt.Sprintf("table of %s %d", kdName[k], i), k, true, func(m *textMemo, a []*Term) *Term { return m.ex.c.Eq(a[i], m.table(k)) }})
		}
		if n.isPrj(t) {
			hyps = append(hyps, hypT{fmt.Sprintf("project %d", i), -2, false, func(m *textMemo, a []*Term) *Term { return m.ex.c.Eq(a[i], m.prj()) }})
		}
	}
	// the most precise ones only
	best := -3
	for _, h := range hyps {
		r := -2
		switch h.kind {
		case -2:
		case kdPkg:
			r = -1
		default:
			r = 0
		}
		best = max(best, r)
	}
	some := hyps[:0]
	for _, h := range hyps {
		if best == -2 || h.kind != -2 && (best == -1 || h.kind != kdPkg) {
			some = append(some, h)
		}
	}
	hyps = some
	for j := 0; j < sig.Results().Len(); j++ {
		j, t := j, sig.Results().At(j).Type()
		switch {
		case isStrT(t) || isTexts(t):
			got := func(m *textMemo, r []*Term, i int) *Term {
				if isStrT(t) {
					return m.has(r[j], i)
				}
				return m.lhas(r[j], i)
			}
			if n.generic {
				for i, p := range f.Params {
					i := i
					key := fmt.Sprintf("text %d in result %d", i, j)
					if n.fam != nil {
						// what may fail for other languages
						if !isStrT(p.Type()) || !hasLang(n, f) || !n.isDead(funcKey(f)+": "+key) {
							continue
						}
						key += " for " + n.fam.name
					}
					if isStrT(p.Type()) {
						add(key, func(m *textMemo, a []*Term) *Term { return m.has(a[i], tmGeneric) },
							func(m *textMemo, st *State, a, r []*Term) *Term { return got(m, r, tmGeneric) })
					} else if isTexts(p.Type()) {
						add(fmt.Sprintf("texts %d in result %d", i, j), func(m *textMemo, a []*Term) *Term { return m.lhas(a[i], tmGeneric) },
							func(m *textMemo, st *State, a, r []*Term) *Term { return got(m, r, tmGeneric) })
					}
				}
				break
			}
			for i, tt := range n.tmpls {
				for a, p := range f.Params {
					if _, b, _ := braces(tt.text); b != "" && isStrT(p.Type()) {
						add(fmt.Sprintf("name given as %d in result %d: %s", a, j, tt.text+" ("+kdName[tt.kind]+")"),
							func(m *textMemo, args []*Term) *Term { x, _ := m.core(i); return m.ex.c.Eq(args[a], x) },
							func(m *textMemo, st *State, args, r []*Term) *Term { return got(m, r, i) })
					}
				}
			}
			for i, tt := range n.tmpls {
				for a, p := range f.Params {
					if n.fam.ordinary[tt] && isStrT(t) && n.kindOf(p.Type()) == tt.kind && n.named(f) {
						add(fmt.Sprintf("result %d is the name of %s %d (%d)", j, kdName[tt.kind], a, i),
							func(m *textMemo, args []*Term) *Term { return m.ex.c.Eq(args[a], m.it(tt.kind)) },
							func(m *textMemo, st *State, args, r []*Term) *Term {
								return m.ex.c.Eq(r[j], m.ex.c.App(opName, m.ex.c.StrSort(), m.fld(tt.kind, "alias")))
							})
					}
				}
			}
			for _, h := range hyps {
				if n.roots[f] {
					break
				}
				for i, tt := range n.tmpls {
					if h.kind == tt.kind || h.kind == -2 || h.kind == kdPkg {
						i := i
						if n.mayHold(f, tt) {
							add(fmt.Sprintf("%s in result %d: %s", h.name, j, tt.text+" ("+kdName[tt.kind]+")"), h.at, func(m *textMemo, st *State, a, r []*Term) *Term { return got(m, r, i) })
						}
					}
				}
			}
		}
		if !n.generic || n.fam != nil {
			continue
		}
		switch {
		case isTexts(t):
			for _, h := range hyps {
				if h.key {
					k := h.kind
					add(fmt.Sprintf("%s, key in result %d", h.name, j), h.at, func(m *textMemo, st *State, a, r []*Term) *Term { return m.mem(r[j], k, true) })
				}
			}
			for i, p := range f.Params {
				if !isTexts(p.Type()) {
					continue
				}
				for k := 0; k < kinds07; k++ {
					i, k := i, k
					in := func(m *textMemo, a []*Term) *Term { return m.mem(a[i], k, true) }
					add(fmt.Sprintf("key of %s in %d and result %d", kdName[k], i, j), in, func(m *textMemo, st *State, a, r []*Term) *Term { return m.mem(r[j], k, true) })
					for i2, p2 := range f.Params {
						i2 := i2
						if i2 != i && isTexts(p2.Type()) {
							add(fmt.Sprintf("key of %s in %d, not in %d, in result %d", kdName[k], i, i2, j),
								func(m *textMemo, a []*Term) *Term { return m.ex.c.And(in(m, a), m.ex.c.Not(m.mem(a[i2], k, true))) },
								func(m *textMemo, st *State, a, r []*Term) *Term { return m.mem(r[j], k, true) })
						}
					}
				}
			}
		case isStrMap(t):
			for i, p := range f.Params {
				if isTexts(p.Type()) {
					for k := 0; k < kinds07; k++ {
						i, k := i, k
						add(fmt.Sprintf("key of %s in table %d only if in %d", kdName[k], j, i), func(m *textMemo, a []*Term) *Term { return m.ex.c.Not(m.mem(a[i], k, true)) },
							func(m *textMemo, st *State, a, r []*Term) *Term { return m.ex.c.Not(m.haskey(st, r[j], t, k)) })
						add(fmt.Sprintf("key of %s in %d and table %d", kdName[k], i, j), func(m *textMemo, a []*Term) *Term { return m.mem(a[i], k, true) },
							func(m *textMemo, st *State, a, r []*Term) *Term { return m.haskey(st, r[j], t, k) })
					}
				}
			}
		case n.listOf(t) >= 0:
			k := n.listOf(t)
			for _, h := range hyps {
				if !h.key && (h.kind == k || h.kind == -2 && k == kdPkg) {
					add(fmt.Sprintf("%s in list %d", h.name, j), h.at, func(m *textMemo, st *State, a, r []*Term) *Term { return m.mem(r[j], k, false) })
				}
			}
		case isBool(t):
			for i, p := range f.Params {
				for i2, p2 := range f.Params {
					if isTexts(p.Type()) && isStrT(p2.Type()) {
						for k := 0; k < kinds07; k++ {
							i, i2, k := i, i2, k
							add(fmt.Sprintf("key of %s, given as %d, in %d told by result %d", kdName[k], i2, i, j),
								func(m *textMemo, a []*Term) *Term { return m.ex.c.Eq(a[i2], m.key(k)) },
								func(m *textMemo, st *State, a, r []*Term) *Term { return m.ex.c.Eq(r[j], m.mem(a[i], k, true)) })
						}
					}
				}
			}
		}
	}
	return out
}

func hasLang(n *textRun, f *ssa.Function) bool {
	return slices.ContainsFunc(f.Params, func(p *ssa.Parameter) bool { return n.isLang(p.Type()) })
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// mayHold: the fixed text of the template occurs in the function or one it calls.
func (n *textRun) mayHold(f *ssa.Function, t tmpl) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	cs, ok := n.consts[f]
	if !ok {
		cs = map[string]bool{}
		n.P.reachesInstr(f, func(in ssa.Instruction) bool {
			for _, op := range in.Operands(nil) {
				if op != nil && *op != nil {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && isStrT(k.Type()) {
						cs[constant.StringVal(k.Value)] = true
					}
				}
			}
			return false
		})
		n.consts[f] = cs
	}
	all := true
	for _, lit := range tmplLits(t.text) {
		some := false
		for s := range cs {
			some = some || strings.Contains(s, lit)
		}
		all = all && some
	}
	return all && (!strings.Contains(t.text, "$Q") || n.takesPkg(f))
}

func (n *textRun) takesPkg(f *ssa.Function) bool {
	for _, p := range f.Params {
		if n.kindOf(p.Type()) == kdPkg || n.isPrj(p.Type()) {
			return true
		}
	}
	return false
}

func tmplLits(s string) []string {
	var out []string
	if a, b, z := braces(s); b != "" {
		return append(append(tmplLits(a), tmplLits(b)...), tmplLits(z)...)
	}
	for i, p := range strings.Split(s, "$") {
		if i > 0 && p != "" {
			p = p[1:]
		}
		if p != "" {
			out = append(out, p)
		}
	}
	return out
}

var opaque07 = map[string]string{"LangFromName": opName, "HtmlFromString": opHtml}

func (n *textRun) inline(fr *Frame, cal *ssa.Function) bool {
	if len(cal.Blocks) == 0 || n.P.recursive[cal] || n.roots[cal] || ninstr(cal) > 60 || ninstr(cal) > 25 && n.makesText(cal) || len(loopsOf(cal)) > 0 || len(cal.AnonFuncs) > 0 {
		return false
	}
	return opaque07[cal.Name()] == ""
}

// named: the function may ask for the name in the target language.
func (n *textRun) named(f *ssa.Function) bool {
	for g := range n.P.reachable(f) {
		if opaque07[g.Name()] == opName {
			return true
		}
	}
	return false
}

// makesText: the function makes text from a declaration.
func (n *textRun) makesText(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isStrT(rs.At(i).Type()) {
			return slices.ContainsFunc(f.Params, func(p *ssa.Parameter) bool { return n.kindOf(p.Type()) >= 0 })
		}
	}
	return false
}

func (n *textRun) opts() *Opts {
	o := &Opts{kinds: map[string]bool{"complete": true, "fact": true}, noQuant: true, maxDepth: 4, noTheoryRetry: true, autoInv: false, inline: n.inline, factsOnce: true}
	var m *textMemo
	idx := func() []int {
		if n.generic {
			return []int{tmGeneric}
		}
		var out []int
		for i := range n.tmpls {
			out = append(out, i)
		}
		return out
	}
	o.onEntry = func(ex *Exec, fr *Frame, st *State) {
		c := ex.c
		m = &textMemo{n: n, ex: ex, memo: map[[2]int]*Term{}, lmem: map[[2]int]*Term{}, mems: map[[2]int]*Term{}}
		for k := 0; k < kinds07; k++ {
			ex.assume(st, c.Lt(c.Int(0), m.it(k)))
			ex.assume(st, c.Le(m.it(k), ex.heap(st, "alloc", "Int")))
			ex.assume(st, c.Not(c.Eq(m.key(k), c.Str(""))))
			ex.assume(st, c.Not(c.Eq(m.fld(k, "alias"), c.Str(""))))
			ex.assume(st, c.Not(c.Eq(c.App(opName, c.StrSort(), m.fld(k, "alias")), c.Str(""))))
			ex.assume(st, c.Lt(c.Int(0), m.table(k)))
			ex.assume(st, c.Le(m.table(k), ex.heap(st, "alloc", "Int")))
		}
		for _, t := range n.tmpls {
			if s := n.fam.except[t]; s != "" {
				ex.assume(st, c.Not(c.Eq(c.StrCat(m.fld(t.kind, "pkgname"), c.StrCat(c.Str("/"), m.fld(t.kind, "name"))), c.Str(s))))
			}
		}
		// each language has an object of its own
		var gs []*Term
		for _, name := range slices.Sorted(maps.Keys(n.langs)) {
			gs = append(gs, ex.heap(st, globalKey(n.langs[name]), "Int"))
		}
		for a := range gs {
			ex.assume(st, c.Lt(c.Int(0), gs[a]))
			for b := range gs[:a] {
				ex.assume(st, c.Not(c.Eq(gs[a], gs[b])))
			}
		}
		for i, p := range fr.fn.Params {
			if n.isLang(p.Type()) {
				if t := n.oneOf(ex, st, ex.plain(fr.args[i])); t != nil {
					ex.assume(st, t)
				}
			}
		}
	}
	o.hookCall = func(ex *Exec, fr *Frame, st *State, in ssa.Instruction, cal *ssa.Function, args []*Val, res []*Term) {
		for i, p := range cal.Params {
			if n.tmpls == nil && n.calls[cal] && n.isLang(p.Type()) {
				if t := n.oneOf(ex, st, ex.plain(args[i])); t != nil {
					ex.oblige(fr, st, "complete", "the language is handed on", in.Pos(), t)
				}
			}
		}
		if fn := opaque07[cal.Name()]; fn != "" && len(res) == 1 && len(args) == 1 {
			ex.assume(st, ex.c.Eq(res[0], ex.c.App(fn, ex.c.StrSort(), ex.plain(args[0]))))
		}
	}
	o.afterCall = func(ex *Exec, fr *Frame, pre, st *State, in ssa.Instruction, cc *ssa.CallCommon, v *Val) {
		c := ex.c
		cal := cc.StaticCallee()
		if cal == nil || v == nil {
			return
		}
		if s := cal.String(); (s == "sort.Strings" || s == "slices.Sort") && len(cc.Args) == 1 && isTexts(cc.Args[0].Type()) {
			a, b := ex.term(fr, pre, cc.Args[0]), ex.term(fr, st, cc.Args[0])
			for k := 0; k < kinds07; k++ {
				ex.assume(st, c.Eq(m.mem(a, k, true), m.mem(b, k, true)))
			}
			for _, i := range idx() {
				ex.assume(st, c.Eq(m.lhas(a, i), m.lhas(b, i)))
			}
			return
		}
		if !n.calls[cal] || ex.willInline(fr, cal) {
			return
		}
		var args, res []*Term
		for _, a := range cc.Args {
			args = append(args, ex.term(fr, pre, a))
		}
		rs := cc.Signature().Results()
		for i := 0; i < rs.Len(); i++ {
			switch {
			case rs.Len() == 1:
				res = append(res, ex.plain(v))
			case i < len(v.tup):
				res = append(res, ex.plain(v.tup[i]))
			}
		}
		n.apply(m, st, cal, args, res)
	}
	o.post = func(ex *Exec, fr *Frame, st *State, in ssa.Instruction) {
		c := ex.c
		switch x := in.(type) {
		case *ssa.UnOp:
			v := fr.vals[x]
			if x.Op != token.MUL || v == nil || v.t == nil {
				return
			}
			switch a := x.X.(type) {
			case *ssa.IndexAddr:
				for k := 0; k < kinds07; k++ {
					if n.listOf(a.X.Type()) == k {
						ex.assume(st, c.Implies(c.Eq(v.t, m.it(k)), m.mem(ex.term(fr, st, a.X), k, false)))
					}
					if isTexts(a.X.Type()) {
						ex.assume(st, c.Implies(c.Eq(v.t, m.key(k)), m.mem(ex.term(fr, st, a.X), k, true)))
					}
				}
				if isTexts(a.X.Type()) {
					l := ex.term(fr, st, a.X)
					for _, i := range idx() {
						ex.assume(st, c.Implies(m.has(v.t, i), m.lhas(l, i)))
					}
				}
			case *ssa.FieldAddr:
				n.field(m, fr, st, a, x, v.t)
			case *ssa.Global:
				// the types of the target languages are not declared in a package
				if n.kindOf(x.Type()) == kdType && strings.HasPrefix(a.Name(), "raw") && n.isOrdinary() {
					ex.assume(st, c.Not(c.Eq(v.t, m.it(kdType))))
				}
			}
		case *ssa.Lookup:
			n.lookup(m, fr, st, x)
		case *ssa.Next:
			if x.IsString {
				return
			}
			rg := x.Iter.(*ssa.Range)
			k := n.tableOf(rg.X.Type())
			if k < 0 || fr.vals[x] == nil {
				return
			}
			// when the loop ends, every key was visited
			vis, ok := st.heap["ghost:visited:"+fmt.Sprint(fr.id)+":"+rg.Name()], fr.vals[x].tup[0].t
			if vis != nil {
				ex.assume(st, c.Implies(c.And(c.Not(ok), c.Eq(ex.term(fr, st, rg), m.table(k))), c.Select(vis, m.key(k))))
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" || fr.vals[x] == nil {
				return
			}
			l, r := ex.term(fr, st, x.Call.Args[0]), ex.term(fr, st, x)
			its := variadicItems(x.Call.Args[1])
			for k := 0; k < kinds07; k++ {
				for _, key := range []bool{false, true} {
					if key && !isTexts(x.Type()) || !key && n.listOf(x.Type()) != k {
						continue
					}
					f, t := m.it(k), m.mem(l, k, key)
					if key {
						f = m.key(k)
					}
					if its != nil {
						for _, it := range its {
							t = c.Or(t, c.Eq(ex.term(fr, st, it), f))
						}
					} else {
						t = c.Or(t, m.mem(ex.term(fr, st, x.Call.Args[1]), k, key))
					}
					ex.assume(st, c.Eq(m.mem(r, k, key), t))
				}
			}
			if isTexts(x.Type()) {
				for _, i := range idx() {
					t := m.lhas(l, i)
					if its != nil {
						for _, it := range its {
							t = c.Or(t, m.has(ex.term(fr, st, it), i))
						}
					} else {
						t = c.Or(t, m.lhas(ex.term(fr, st, x.Call.Args[1]), i))
					}
					ex.assume(st, c.Eq(m.lhas(r, i), t))
				}
			}
		}
	}
	if !n.generic && n.tmpls == nil {
		o.post, o.afterCall = nil, nil
		return o
	}
	o.extraCands = func(ex *Exec, fr *Frame, l *loopInfo, entry *State, phis []*ssa.Phi, init func(*ssa.Phi) *Term, addc func(string, genFn)) {
		n.cands(m, fr, l, entry, phis, init, addc, idx())
	}
	o.onReturn = func(ex *Exec, fr *Frame, st *State, res []*Term) {
		c := ex.c
		if fr.fn.Parent() != nil {
			return
		}
		var args []*Term
		for i := range fr.fn.Params {
			args = append(args, ex.plain(fr.args[i]))
		}
		for _, f := range n.facts(fr.fn) {
			if n.alive(fr.fn, f.key) {
				ex.oblige(fr, st, "fact", f.key, fr.fn.Pos(), c.Implies(f.hyp(m, args), f.concl(m, st, args, res)))
			}
		}
		if n.generic {
			return
		}
		want := n.fam.roots[fr.fn.Name()]
		for j := range res {
			for i, t := range n.tmpls {
				for _, w := range want[j] {
					if w != t {
						continue
					}
					h := c.False()
					for a, p := range fr.fn.Params {
						switch {
						case n.kindOf(p.Type()) == kdPkg:
							h = c.Eq(args[a], m.it(kdPkg))
						case n.isPrj(p.Type()) && n.noPkg(fr.fn):
							h = c.Eq(args[a], m.prj())
						}
					}
					ex.oblige(fr, st, "complete", fmt.Sprintf("every %s of the package has %q in result %d", kdName[t.kind], t.text, j), fr.fn.Pos(), c.Implies(h, m.has(res[j], i)))
				}
			}
		}
	}
	return o
}

func (n *textRun) noPkg(f *ssa.Function) bool {
	for _, p := range f.Params {
		if n.kindOf(p.Type()) == kdPkg {
			return false
		}
	}
	return true
}

// apply assumes the contract of the callee.
func (n *textRun) apply(m *textMemo, st *State, cal *ssa.Function, args, res []*Term) {
	c := m.ex.c
	for _, f := range n.factsOf(cal) {
		if n.alive(m.ex.root.fn, f.key) {
			m.ex.assume(st, c.Implies(f.hyp(m, args), f.concl(m, st, args, res)))
		}
	}
	// text that comes in and goes out, for every template
	if n.generic {
		return
	}
	for i := range n.tmpls {
		for j := 0; j < cal.Signature.Results().Len() && j < len(res); j++ {
			t := cal.Signature.Results().At(j).Type()
			if !isStrT(t) && !isTexts(t) {
				continue
			}
			got := func() *Term {
				if isStrT(t) {
					return m.has(res[j], i)
				}
				return m.lhas(res[j], i)
			}
			for a, p := range cal.Params {
				if isStrT(p.Type()) && n.flows(m.ex.root.fn, cal, a, j) {
					ex0 := m.has(args[a], i)
					if ex0 != c.False() {
						m.ex.assume(st, c.Implies(ex0, got()))
					}
				} else if isTexts(p.Type()) && n.alive(m.ex.root.fn, fmt.Sprintf("%s: texts %d in result %d", funcKey(cal), a, j)) {
					m.ex.assume(st, c.Implies(m.lhas(args[a], i), got()))
				}
			}
		}
	}
}

// flows: text a of the callee is in its result j.
func (n *textRun) flows(f, cal *ssa.Function, a, j int) bool {
	key := fmt.Sprintf("%s: text %d in result %d", funcKey(cal), a, j)
	if n.alive(f, key) {
		return true
	}
	return n.fam != nil && len(n.fam.langs) > 0 && hasLang(n, cal) && n.alive(f, key+" for "+n.fam.name)
}

// factsOf: the facts of this pass and what the first pass proved.
func (n *textRun) factsOf(f *ssa.Function) []textFact {
	out := n.facts(f)
	if !n.generic || n.fam != nil {
		g := *genericView(n)
		for _, x := range g.facts(f) {
			if n.generic {
				out = append(out, x)
				continue
			}
			if !strings.Contains(x.key, ": text") {
				out = append(out, x)
			}
		}
	}
	return out
}

func genericView(n *textRun) *textRun {
	return &textRun{k: n.k, P: n.P, item: n.item, prj: n.prj, generic: true}
}

// oneOf: the language is one of those that commands generate.
func (n *textRun) oneOf(ex *Exec, st *State, v *Term) *Term {
	if n.fam == nil || len(n.fam.langs) == 0 {
		return nil
	}
	r := ex.c.False()
	for _, g := range n.fam.langs {
		if gl := n.langs[g]; gl != nil {
			r = ex.c.Or(r, ex.c.Eq(v, ex.heap(st, globalKey(gl), "Int")))
		}
	}
	return r
}

func (n *textRun) isOrdinary() bool { return len(n.tmpls) == 1 && n.fam.ordinary[n.tmpls[0]] }

// field: a field of a followed object.
func (n *textRun) field(m *textMemo, fr *Frame, st *State, a *ssa.FieldAddr, x *ssa.UnOp, v *Term) {
	ex, c := m.ex, m.ex.c
	sct, _ := structOf(a.X.Type())
	if sct == nil {
		return
	}
	f := sct.Field(a.Field).Name()
	p := ex.term(fr, st, a.X)
	k := n.kindOf(a.X.Type())
	same := func(obj, t *Term) { ex.assume(st, c.Implies(c.Eq(p, obj), c.Eq(v, t))) }
	switch {
	case k >= 0 && (f == "alias" || f == "name" || f == "doc" || f == "pkgname"):
		same(m.it(k), m.fld(k, f))
	case k >= 0 && f == "idx":
		same(m.it(k), m.idx(k))
	case n.isLang(a.X.Type()) && f == "version" && n.fam != nil && len(n.fam.langs) > 0:
		for _, g := range n.fam.langs {
			if n.plain[g] {
				ex.assume(st, c.Implies(c.Eq(p, ex.heap(st, globalKey(n.langs[g]), "Int")), c.Eq(v, c.Int(0))))
			}
		}
	case k == kdType && (f == "isgeneric" || f == "isfunc") && n.isOrdinary():
		same(m.it(k), c.False())
	case k >= 0 && f == "textblock":
		same(m.it(k), c.Const("$"+kdName[k]+".textblock", "Int"))
	case f == "text" && isStrT(x.Type()):
		for k := 0; k < kinds07; k++ {
			same(c.Const("$"+kdName[k]+".textblock", "Int"), m.fld(k, "source"))
		}
	case k == kdPkg && n.tableOf(x.Type()) >= 0 && strings.HasPrefix(f, "map"):
		same(m.it(k), m.table(n.tableOf(x.Type())))
	case (k == kdPkg || n.isPrj(a.X.Type())) && n.listOf(x.Type()) >= 0 && f == "list"+kdName[n.listOf(x.Type())]:
		lk := n.listOf(x.Type())
		obj := m.it(kdPkg)
		if k != kdPkg {
			obj = m.prj()
		}
		l := m.list(lk, x.Type())
		ex.assume(st, m.mem(l, lk, false))
		same(obj, l)
	}
}

// lookup in a table of the followed package.
func (n *textRun) lookup(m *textMemo, fr *Frame, st *State, x *ssa.Lookup) {
	ex, c := m.ex, m.ex.c
	k := n.tableOf(x.X.Type())
	val := fr.vals[x]
	if k < 0 || val == nil {
		return
	}
	v := val.t
	hit := c.And(c.Eq(ex.term(fr, st, x.X), m.table(k)), c.Eq(ex.term(fr, st, x.Index), m.key(k)))
	if x.CommaOk {
		v = val.tup[0].t
		ex.assume(st, c.Implies(hit, val.tup[1].t))
	}
	el := x.X.Type().Underlying().(*types.Map).Elem()
	if n.kindOf(el) == k {
		ex.assume(st, c.Implies(hit, c.Eq(v, m.it(k))))
	} else {
		ex.assume(st, c.Implies(hit, m.mem(v, k, false)))
	}
}

// cands are the loop invariants that are tried.
func (n *textRun) cands(m *textMemo, fr *Frame, l *loopInfo, entry *State, phis []*ssa.Phi, init func(*ssa.Phi) *Term, addc func(string, genFn), idx []int) {
	ex, c := m.ex, m.ex.c
	type getT = func(*ssa.Phi) *Term
	// what is collected
	type acc struct {
		name string
		t    types.Type
		p    *ssa.Phi
	}
	var accs []acc
	var ints, bools []*ssa.Phi
	for _, p := range phis {
		t := p.Type()
		switch {
		case isStrT(t) || isTexts(t) || n.listOf(t) >= 0:
			accs = append(accs, acc{p.Comment + p.Name(), t, p})
		case isBool(t):
			bools = append(bools, p)
		default:
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				ints = append(ints, p)
			}
		}
	}
	got := func(a acc, i int, get getT) *Term {
		if isStrT(a.t) {
			return m.has(get(a.p), i)
		}
		return m.lhas(get(a.p), i)
	}
	// nothing is lost
	for _, a := range accs {
		a := a
		if isStrT(a.t) || isTexts(a.t) {
			for _, i := range idx {
				i := i
				if got(a, i, init) == c.False() {
					continue
				}
				addc(fmt.Sprint("still ", a.name, i), func(get getT, st *State) *Term { return c.Implies(got(a, i, init), got(a, i, get)) })
			}
		}
		for k := 0; k < kinds07; k++ {
			for _, key := range []bool{false, true} {
				k, key := k, key
				if key && isTexts(a.t) && n.generic || !key && n.listOf(a.t) == k {
					addc(fmt.Sprint("still in ", a.name, k, key), func(get getT, st *State) *Term {
						return c.Implies(m.mem(init(a.p), k, key), m.mem(get(a.p), k, key))
					})
				}
			}
		}
	}
	// what each passed element leads to
	type elem struct {
		name string
		kind int
		key  bool
		ok   func(get getT, st *State) *Term // passed
	}
	var els []elem
	back := goesBack(l)
	for _, lt := range n.through(fr, l) {
		t := lt
		lv := fr.vals[t]
		if lv == nil || lv.t == nil {
			continue
		}
		lterm := lv.t
		for k := 0; k < kinds07; k++ {
			for _, key := range []bool{false, true} {
				k, key := k, key
				if key && !isTexts(t.Type()) || !key && n.listOf(t.Type()) != k {
					continue
				}
				for _, p := range ints {
					p := p
					mm, w := m.mem(lterm, k, key), m.wit(lterm, k, key)
					els = append(els, elem{fmt.Sprint("passed ", k, key, p.Comment), k, key, func(get getT, st *State) *Term { return c.And(mm, c.Le(w, get(p))) }})
					els = append(els, elem{fmt.Sprint("before ", k, key, p.Comment), k, key, func(get getT, st *State) *Term { return c.And(mm, c.Lt(w, get(p))) }})
					if back {
						ln := c.Sub(c.SLen(lterm), c.Int(1))
						els = append(els, elem{fmt.Sprint("mirror passed ", k, key, p.Comment), k, key, func(get getT, st *State) *Term { return c.And(mm, c.Le(c.Sub(ln, get(p)), w)) }})
						els = append(els, elem{fmt.Sprint("mirror before ", k, key, p.Comment), k, key, func(get getT, st *State) *Term { return c.And(mm, c.Lt(c.Sub(ln, get(p)), w)) }})
						els = append(els, elem{fmt.Sprint("after ", k, key, p.Comment), k, key, func(get getT, st *State) *Term { return c.And(mm, c.Lt(get(p), w)) }})
					}
				}
			}
		}
		if isTexts(t.Type()) && n.generic {
			for _, p := range ints {
				p := p
				mm, w := m.lhas(lterm, tmGeneric), c.App(fmt.Sprintf("lhasat%d", tmGeneric+1), "Int", lterm)
				for _, a := range accs {
					a := a
					if isStrT(a.t) || isTexts(a.t) {
						addc(fmt.Sprint("texts passed ", a.name, p.Comment), func(get getT, st *State) *Term {
							return c.Implies(c.And(mm, c.Le(w, get(p))), got(a, tmGeneric, get))
						})
						addc(fmt.Sprint("texts before ", a.name, p.Comment), func(get getT, st *State) *Term {
							return c.Implies(c.And(mm, c.Lt(w, get(p))), got(a, tmGeneric, get))
						})
					}
				}
			}
		}
	}
	for _, b := range l.blocks() {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString || b != l.header {
				continue
			}
			rg := nx.Iter.(*ssa.Range)
			if k := n.tableOf(rg.X.Type()); k >= 0 {
				gk := "ghost:visited:" + fmt.Sprint(fr.id) + ":" + rg.Name()
				els = append(els, elem{"visited " + fmt.Sprint(k), k, true, func(get getT, st *State) *Term {
					if vis := st.heap[gk]; vis != nil {
						return c.Select(vis, m.key(k))
					}
					return c.False()
				}})
			}
		}
	}
	for _, e := range els {
		e := e
		if g := n.guard(m, fr, e.kind); g != nil && (e.key || slices.ContainsFunc(n.tmpls, func(t tmpl) bool { return strings.Contains(t.text, "$Q") })) {
			ok := e.ok
			e.ok = func(get getT, st *State) *Term { return c.And(g, ok(get, st)) }
		}
		for _, a := range accs {
			a := a
			if (isStrT(a.t) || isTexts(a.t)) && !n.generic {
				for _, i := range idx {
					i := i
					if n.tmpls[i].kind == e.kind || e.kind == kdPkg {
						addc(fmt.Sprint(e.name, a.name, i), func(get getT, st *State) *Term { return c.Implies(e.ok(get, st), got(a, i, get)) })
					}
				}
			}
			if n.generic && (isTexts(a.t) && e.key || n.listOf(a.t) == e.kind && !e.key) {
				addc(fmt.Sprint(e.name, " in ", a.name), func(get getT, st *State) *Term { return c.Implies(e.ok(get, st), m.mem(get(a.p), e.kind, e.key)) })
				for j, p := range fr.fn.Params {
					j := j
					if e.key && isTexts(p.Type()) {
						addc(fmt.Sprint(e.name, " in ", a.name, " or ", j), func(get getT, st *State) *Term {
							return c.Implies(e.ok(get, st), c.Or(m.mem(get(a.p), e.kind, e.key), m.mem(ex.plain(fr.args[j]), e.kind, e.key)))
						})
					}
				}
			}
		}
		if n.generic && e.key {
			for v, val := range fr.vals {
				if isStrMap(v.Type()) && !inLoop(l, v) && val != nil && val.t != nil {
					t, mt := val.t, v.Type()
					addc(fmt.Sprint(e.name, " key of ", v.Name()), func(get getT, st *State) *Term { return c.Implies(e.ok(get, st), m.haskey(st, t, mt, e.kind)) })
				}
			}
			for j, p := range fr.fn.Params {
				j := j
				if !isStrT(p.Type()) {
					continue
				}
				asked := c.Eq(ex.plain(fr.args[j]), m.key(e.kind))
				addc(fmt.Sprint(e.name, " not asked ", j), func(get getT, st *State) *Term { return c.Not(c.And(asked, e.ok(get, st))) })
				for _, b := range bools {
					b := b
					addc(fmt.Sprint(e.name, " answered ", j, b.Comment), func(get getT, st *State) *Term { return c.Implies(c.And(asked, e.ok(get, st)), get(b)) })
				}
			}
		}
	}
	if n.generic {
		for v, val := range fr.vals {
			if !isStrMap(v.Type()) || inLoop(l, v) || val == nil || val.t == nil {
				continue
			}
			t, mt := val.t, v.Type()
			for j, p := range fr.fn.Params {
				if isTexts(p.Type()) {
					for k := 0; k < kinds07; k++ {
						j, k := j, k
						addc(fmt.Sprint("key of ", v.Name(), " only if in ", j, k), func(get getT, st *State) *Term {
							return c.Implies(m.haskey(st, t, mt, k), m.mem(ex.plain(fr.args[j]), k, true))
						})
					}
				}
			}
		}
		for j, p := range fr.fn.Params {
			for j2, p2 := range fr.fn.Params {
				if isStrT(p.Type()) && isTexts(p2.Type()) {
					for k := 0; k < kinds07; k++ {
						for _, b := range bools {
							j, j2, k, b := j, j2, k, b
							addc(fmt.Sprint("only if asked ", j, j2, k, b.Comment), func(get getT, st *State) *Term {
								return c.Implies(c.And(c.Eq(ex.plain(fr.args[j]), m.key(k)), get(b)), m.mem(ex.plain(fr.args[j2]), k, true))
							})
						}
					}
				}
			}
		}
	}
}

// guard: what the function is given is the followed table, package or project.
func (n *textRun) guard(m *textMemo, fr *Frame, k int) *Term {
	var g *Term
	best := 0
	for i, p := range fr.fn.Params {
		a := func() *Term { return m.ex.plain(fr.args[i]) }
		switch t := p.Type(); {
		case n.tableOf(t) == k && best < 3:
			g, best = m.ex.c.Eq(a(), m.table(k)), 3
		case n.kindOf(t) == kdPkg && best < 2:
			g, best = m.ex.c.Eq(a(), m.it(kdPkg)), 2
		case n.isPrj(t) && best < 1:
			g, best = m.ex.c.Eq(a(), m.prj()), 1
		}
	}
	return g
}

// through lists what the loop goes through by index.
// goesBack: the loop computes an index by subtraction.
func goesBack(l *loopInfo) bool {
	for _, b := range l.blocks() {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.BinOp); ok && (x.Op == token.SUB || isNeg(x.Y)) {
				return true
			}
		}
	}
	return false
}

func isNeg(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Int && constant.Sign(k.Value) < 0
}

func (n *textRun) through(fr *Frame, l *loopInfo) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	for _, b := range l.blocks() {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok && !seen[ia.X] && !inLoop(l, ia.X) {
				if _, isConst := ia.Index.(*ssa.Const); !isConst && (isTexts(ia.X.Type()) || n.listOf(ia.X.Type()) >= 0) {
					seen[ia.X] = true
					out = append(out, ia.X)
				}
			}
		}
	}
	return out
}

func runC07(k *Run) {
	P := k.P
	if mode := devEnv("GOVC_SCEN"); mode != "" {
		fmt.Fprintln(os.Stderr, "scenario found:", k.scenario(mode, 240*time.Second))
		return
	}
	n := &textRun{k: k, P: P, dead: map[string]string{}, use: map[string]map[*ssa.Function]bool{}, roots: map[*ssa.Function]bool{}, consts: map[*ssa.Function]map[string]bool{}, calls: map[*ssa.Function]bool{}}
	for i, name := range kdGo {
		t := P.lookupType(name)
		if t == nil {
			k.extra["missing_type"] = name
			return
		}
		n.item[i] = types.Unalias(t).(*types.Named)
	}
	if t := P.lookupType("vxproject"); t != nil {
		n.prj = types.Unalias(t).(*types.Named)
	}
	n.languages()
	byName := map[string]*ssa.Function{}
	for _, f := range P.funcs {
		if f.Parent() == nil && len(f.Blocks) > 0 && f.Signature.Recv() == nil {
			byName[f.Name()] = f
		}
	}
	var rootsOf = make([][]*ssa.Function, len(families))
	var all []*ssa.Function
	var missing []string
	for i := range families {
		for name := range families[i].roots {
			if f := byName[name]; f != nil {
				n.roots[f] = true
				rootsOf[i] = append(rootsOf[i], f)
				all = append(all, f)
			} else {
				missing = append(missing, name)
			}
		}
	}
	sort.Strings(missing)
	k.extra["contracts_without_function"] = missing
	// functions with contracts
	reach := P.reachable(all...)
	var fs []*ssa.Function
	for _, f := range P.funcs {
		if reach[f] && len(f.Blocks) > 0 && f.Parent() == nil && opaque07[f.Name()] == "" && !n.inline(nil, f) {
			n.calls[f] = true
			fs = append(fs, f)
		}
	}
	n.generic = true
	if devEnv("GOVC_NOGEN") == "" {
		n.pass(fs, func(f *ssa.Function) bool { return len(n.facts(f)) > 0 })
	}
	n.generic = false
	var runs []func() *textRun
	var langs []*textRun
	for i := range families {
		if on := devEnv("GOVC_FAM"); on != "" && on != families[i].name {
			continue
		}
		var tmpls []tmpl
		seen := map[tmpl]bool{}
		for _, rs := range families[i].roots {
			for _, ts := range rs {
				for _, t := range ts {
					if !seen[t] {
						seen[t] = true
						tmpls = append(tmpls, t)
					}
				}
			}
		}
		sort.Slice(tmpls, func(a, b int) bool {
			if tmpls[a].kind != tmpls[b].kind {
				return tmpls[a].kind < tmpls[b].kind
			}
			return tmpls[a].text < tmpls[b].text
		})
		fr := P.reachable(rootsOf[i]...)
		var some []*ssa.Function
		for _, f := range fs {
			if on := devEnv("GOVC_ONLY"); fr[f] && (on == "" || on == f.Name()) {
				some = append(some, f)
			}
		}
		if len(families[i].langs) > 0 {
			lang := n.forTmpl(&families[i], nil)
			lang.generic = true
			lang.pass(some, func(f *ssa.Function) bool { return len(lang.facts(f)) > 0 })
			langs = append(langs, lang)
			for key, why := range lang.dead {
				n.dead[key] = why
			}
			one := n.forTmpl(&families[i], nil)
			runs = append(runs, func() *textRun {
				one.pass(some, func(f *ssa.Function) bool {
					return hasLang(n, f)
				})
				return one
			})
		}
		for _, t := range tmpls {
			if on := devEnv("GOVC_TMPL"); on != "" && on != t.text {
				continue
			}
			one := n.forTmpl(&families[i], []tmpl{t})
			runs = append(runs, func() *textRun {
				one.pass(some, func(f *ssa.Function) bool { return len(one.facts(f)) > 0 || one.fam.roots[f.Name()] != nil })
				return one
			})
		}
	}
	var wg sync.WaitGroup
	done := make([]*textRun, len(runs))
	slots := make(chan bool, 4)
	for i, run := range runs {
		wg.Add(1)
		slots <- true
		go func() {
			defer wg.Done()
			done[i] = run()
			<-slots
		}()
	}
	wg.Wait()
	alive := 0
	for _, one := range append(append(done, langs...), n) {
		for key := range one.use {
			if _, d := one.dead[key]; !d && (one == n || n.use[key] == nil && (one.generic || !strings.Contains(key, ": text"))) {
				alive++
			}
		}
		k.results = append(k.results, one.results...)
	}
	k.extra["facts_proved"] = alive
}

// forTmpl: the run about one template (none: about the language), knowing what was proved about texts in general.
func (n *textRun) forTmpl(fam *family, ts []tmpl) *textRun {
	one := &textRun{k: n.k, P: n.P, fam: fam, tmpls: ts, item: n.item, prj: n.prj, calls: n.calls, roots: n.roots, langs: n.langs, plain: n.plain,
		dead: map[string]string{}, use: map[string]map[*ssa.Function]bool{}, consts: map[*ssa.Function]map[string]bool{}}
	for key, why := range n.dead {
		one.dead[key] = why
	}
	return one
}

// languages finds the variables that are set once, at start-up, to an object made
// for them; plain are those whose version stays as a new object has it.
func (n *textRun) languages() {
	n.langs, n.plain = map[string]*ssa.Global{}, map[string]bool{}
	made := map[*ssa.Global]*ssa.Function{}
	times := map[*ssa.Global]int{}
	sets := map[*ssa.Function]bool{}
	for _, f := range n.P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if g, ok := s.Addr.(*ssa.Global); ok && n.isLang(g.Type().Underlying().(*types.Pointer).Elem()) {
					times[g]++
					if call, ok := s.Val.(*ssa.Call); ok && f.Name() == "init" {
						made[g] = call.Call.StaticCallee()
					}
				}
				if a, ok := s.Addr.(*ssa.FieldAddr); ok && n.isLang(a.X.Type()) {
					if sct, _ := structOf(a.X.Type()); sct.Field(a.Field).Name() == "version" {
						sets[f] = true
					}
				}
			}
		}
	}
	makers := map[*ssa.Function]bool{}
	for _, f := range made {
		makers[f] = true
	}
	only := true
	for f := range sets {
		only = only && makers[f]
	}
	for g, f := range made {
		if f == nil || times[g] != 1 || !isFresh(f) {
			continue
		}
		n.langs[g.Name()] = g
		n.plain[g.Name()] = only && !sets[f] && !n.P.reachesInstr(f, func(in ssa.Instruction) bool { return sets[in.Parent()] })
	}
}

// isFresh: the function returns an object it makes.
func isFresh(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			switch x := r.Results[0].(type) {
			case *ssa.Alloc:
			case *ssa.Call:
				if c := x.Call.StaticCallee(); c == nil || c == f || !isFresh(c) {
					return false
				}
			default:
				return false
			}
		}
	}
	return len(f.Blocks) > 0
}

// pass proves the facts of this pass, dropping those that fail, until the rest is closed.
func (n *textRun) pass(fs []*ssa.Function, want func(*ssa.Function) bool) {
	var todo []*ssa.Function
	for _, f := range fs {
		if want(f) {
			todo = append(todo, f)
		}
	}
	fs = todo
	res := map[*ssa.Function]*FnResult{}
	verbose := os.Getenv("GOVC_V") != ""
	for round := 0; len(todo) > 0; round++ {
		t0 := time.Now()
		again := map[*ssa.Function]bool{}
		nd := 0
		for _, r := range verifyAll(todo, func(f *ssa.Function) *FnResult { return verifyFn(n.P, n.k.specs, f, nil, n.opts(), n.k.ms, false) }) {
			res[r.fn] = r
			if devEnv("GOVC_PROF") != "" {
				fmt.Fprintln(os.Stderr, "prof", r.fn.Name(), r.millis, n.generic)
			}
			for _, ob := range r.obls {
				if ob.kind != "fact" || ob.status == "valid" {
					continue
				}
				if _, d := n.dead[ob.clause]; !d {
					nd++
					n.dead[ob.clause] = ob.name + " at " + ob.pos
					if verbose {
						fmt.Fprintln(os.Stderr, "drop", round, ob.clause, "|", ob.status)
					}
				}
				for f := range n.use[ob.clause] {
					again[f] = true
				}
			}
		}
		if verbose {
			fmt.Fprintln(os.Stderr, "round", round, "functions", len(todo), "dropped", nd, time.Since(t0))
		}
		todo = nil
		for _, f := range fs {
			if again[f] {
				todo = append(todo, f)
			}
		}
	}
	for _, f := range fs {
		n.results = append(n.results, res[f])
		contractMu.Lock()
		n.k.contract[funcKey(f)] = true
		contractMu.Unlock()
	}
}

func c07Search(k *Run, f *Failure) string {
	return k.once("complete", func() string { return k.scenario("complete", 240*time.Second) })
}

// templatesJSON: the templates for the replay on whole projects.
func templatesJSON() string {
	type one struct {
		Root               string
		Result             int
		Kind, Text, Except string
		Ordinary           bool
		Langs              []string
	}
	var out []one
	for _, fam := range families {
		langs := fam.langs
		if len(langs) == 0 {
			langs = []string{""}
		}
		for _, root := range slices.Sorted(maps.Keys(fam.roots)) {
			for _, j := range slices.Sorted(maps.Keys(fam.roots[root])) {
				for _, t := range fam.roots[root][j] {
					a, b, z := braces(t.text)
					out = append(out, one{root, j, kdName[t.kind], a + b + z, fam.except[t], fam.ordinary[t], langs})
				}
			}
		}
	}
	b, _ := json.Marshal(out)
	return string(b)
}
