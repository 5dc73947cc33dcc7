package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	op    string
	args  []*Term
	sort  string
	id    int
	bound bool // contains bound variables
	quant bool // contains quantifiers
	pats  []*Term
}

// Ctx owns the terms, declared symbols and sorts of one verification run.
type Ctx struct {
	strTheory bool
	table     map[string]*Term
	nterm     int
	decls     map[string]string // constant/function name -> "(args) result"
	nfresh    map[string]int
	lits      map[string]*Term
	litorder  []string
	litidx    map[string]int
	termfacts map[int][]*Term // facts about a term, included whenever the term occurs
	dts       *Datatypes
	recdefs   map[string]string
	reclist   []string
	tags      map[string]int
	// fnaxioms: axioms tied to a function symbol; included when the symbol occurs
	fnaxioms map[string][]*Term
	instd    map[string]bool
}

func NewCtx(dts *Datatypes, strTheory bool) *Ctx {
	c := &Ctx{strTheory: strTheory, dts: dts,
		table: map[string]*Term{}, decls: map[string]string{}, nfresh: map[string]int{}, lits: map[string]*Term{}, litidx: map[string]int{}, termfacts: map[int][]*Term{},
		recdefs: map[string]string{}, fnaxioms: map[string][]*Term{}, instd: map[string]bool{}}
	return c
}

func (c *Ctx) mk(op, srt string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(0)
	sb.WriteString(srt)
	bound, quant := false, false
	for _, a := range args {
		sb.WriteByte(1)
		sb.WriteString(strconv.Itoa(a.id))
		if a.bound {
			bound = true
		}
		if a.quant {
			quant = true
		}
	}
	k := sb.String()
	if t, ok := c.table[k]; ok {
		return t
	}
	c.nterm++
	t := &Term{op: op, args: args, sort: srt, id: c.nterm, bound: bound, quant: quant}
	c.table[k] = t
	return t
}

func (c *Ctx) StrSort() string {
	if c.strTheory {
		return "String"
	}
	return "Str"
}

func (c *Ctx) True() *Term  { return c.mk("true", "Bool") }
func (c *Ctx) False() *Term { return c.mk("false", "Bool") }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True()
	}
	return c.False()
}
func (c *Ctx) Int(n int64) *Term {
	return c.mk("#"+strconv.FormatInt(n, 10), "Int")
}
func isInt(t *Term) (int64, bool) {
	if strings.HasPrefix(t.op, "#") {
		n, err := strconv.ParseInt(t.op[1:], 10, 64)
		return n, err == nil
	}
	return 0, false
}
func (c *Ctx) Str(s string) *Term {
	if t, ok := c.lits[s]; ok {
		return t
	}
	var t *Term
	t = c.mk("\""+s, c.StrSort())
	c.lits[s] = t
	c.litidx[s] = len(c.litorder)
	c.litorder = append(c.litorder, s)
	return t
}
func isStr(t *Term) (string, bool) {
	if strings.HasPrefix(t.op, "\"") {
		return t.op[1:], true
	}
	return "", false
}
func (c *Ctx) Const(name, srt string) *Term {
	if old, ok := c.decls[name]; ok && old != "() "+srt {
		panic("redeclared " + name + " " + old + " vs " + srt)
	}
	c.decls[name] = "() " + srt
	return c.mk("$"+name, srt)
}
func (c *Ctx) Fresh(hint, srt string) *Term {
	hint = sanitize(hint)
	c.nfresh[hint]++
	return c.Const(fmt.Sprintf("%s!%d", hint, c.nfresh[hint]), srt)
}
func (c *Ctx) App(fn, srt string, args ...*Term) *Term {
	var ss []string
	for _, a := range args {
		ss = append(ss, a.sort)
	}
	d := "(" + strings.Join(ss, " ") + ") " + srt
	if old, ok := c.decls[fn]; ok && old != d {
		panic("redeclared fn " + fn + " " + old + " vs " + d)
	}
	c.decls[fn] = d
	return c.mk("@"+fn, srt, args...)
}
func (c *Ctx) BVar(name, srt string) *Term {
	t := c.mk("%"+name, srt)
	t.bound = true
	return t
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.False()
	case "false":
		return c.True()
	case "not":
		return a.args[0]
	}
	return c.mk("not", "Bool", a)
}
func (c *Ctx) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.op == "true" || seen[t.id] {
			return true
		}
		if t.op == "false" {
			return false
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		if seen[c.Not(t).id] {
			return false
		}
		out = append(out, t)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return c.False()
		}
	}
	if len(out) == 0 {
		return c.True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("and", "Bool", out...)
}
func (c *Ctx) Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, t := range xs {
		if t.op == "false" || seen[t.id] {
			continue
		}
		if t.op == "true" {
			return t
		}
		if seen[c.Not(t).id] {
			return c.True()
		}
		seen[t.id] = true
		out = append(out, t)
	}
	if len(out) == 0 {
		return c.False()
	}
	if len(out) == 1 {
		return out[0]
	}
	// factor (a and p) or (a and not p) -> a : common join simplification
	if len(out) == 2 {
		if r := c.joinSimplify(out[0], out[1]); r != nil {
			return r
		}
	}
	return c.mk("or", "Bool", out...)
}
func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}
func (c *Ctx) joinSimplify(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	inb := map[int]bool{}
	for _, t := range cb {
		inb[t.id] = true
	}
	ina := map[int]bool{}
	for _, t := range ca {
		ina[t.id] = true
	}
	var common, ra, rb []*Term
	for _, t := range ca {
		if inb[t.id] {
			common = append(common, t)
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range cb {
		if !ina[t.id] {
			rb = append(rb, t)
		}
	}
	if len(ra) == 0 || len(rb) == 0 {
		return c.And(common...)
	}
	if len(ra) == 1 && len(rb) == 1 && c.Not(ra[0]) == rb[0] {
		return c.And(common...)
	}
	if len(common) > 0 {
		x := c.And(ra...)
		y := c.And(rb...)
		return c.And(append(common, c.mk("or", "Bool", x, y))...)
	}
	return nil
}
func (c *Ctx) Implies(a, b *Term) *Term {
	if a.op == "true" {
		return b
	}
	if a.op == "false" || b.op == "true" {
		return c.True()
	}
	if b.op == "false" {
		return c.Not(a)
	}
	if a == b {
		return c.True()
	}
	return c.mk("=>", "Bool", a, b)
}
func isConstTerm(t *Term) bool {
	if _, ok := isInt(t); ok {
		return true
	}
	if _, ok := isStr(t); ok {
		return true
	}
	return t.op == "true" || t.op == "false"
}
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %s (%s) vs %s (%s)", a.sort, a.op, b.sort, b.op))
	}
	if isConstTerm(a) && isConstTerm(b) {
		return c.False()
	}
	if a.sort == "Bool" {
		switch {
		case a.op == "true":
			return b
		case a.op == "false":
			return c.Not(b)
		case b.op == "true":
			return a
		case b.op == "false":
			return c.Not(a)
		}
	}
	// ite(c, k1, k2) = k  with constants
	for k := 0; k < 2; k++ {
		x, y := a, b
		if k == 1 {
			x, y = b, a
		}
		if x.op == "ite" && isConstTerm(y) && (isConstTerm(x.args[1]) || isConstTerm(x.args[2])) && !x.bound {
			return c.Ite(x.args[0], c.Eq(x.args[1], y), c.Eq(x.args[2], y))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "Bool", a, b)
}
func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.op == "true" {
		return a
	}
	if p.op == "false" {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %s vs %s: %s / %s", a.sort, b.sort, a.op, b.op))
	}
	if a.sort == "Bool" {
		if a.op == "true" {
			return c.Or(p, b)
		}
		if a.op == "false" {
			return c.And(c.Not(p), b)
		}
		if b.op == "true" {
			return c.Or(c.Not(p), a)
		}
		if b.op == "false" {
			return c.And(p, a)
		}
	}
	return c.mk("ite", a.sort, p, a, b)
}
func (c *Ctx) Add(a, b *Term) *Term {
	x, ok1 := isInt(a)
	y, ok2 := isInt(b)
	if ok1 && ok2 {
		return c.Int(x + y)
	}
	if ok1 && x == 0 {
		return b
	}
	if ok2 && y == 0 {
		return a
	}
	if ok2 && a.op == "+" && len(a.args) == 2 {
		if z, ok := isInt(a.args[1]); ok {
			return c.Add(a.args[0], c.Int(y+z))
		}
	}
	return c.mk("+", "Int", a, b)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if y, ok := isInt(b); ok {
		return c.Add(a, c.Int(-y))
	}
	if a == b {
		return c.Int(0)
	}
	return c.mk("-", "Int", a, b)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	x, ok1 := isInt(a)
	y, ok2 := isInt(b)
	if ok1 && ok2 {
		return c.Int(x * y)
	}
	return c.mk("*", "Int", a, b)
}
func (c *Ctx) Le(a, b *Term) *Term {
	x, ok1 := isInt(a)
	y, ok2 := isInt(b)
	if ok1 && ok2 {
		return c.Bool(x <= y)
	}
	if a == b {
		return c.True()
	}
	return c.mk("<=", "Bool", a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term {
	x, ok1 := isInt(a)
	y, ok2 := isInt(b)
	if ok1 && ok2 {
		return c.Bool(x < y)
	}
	if a == b {
		return c.False()
	}
	return c.mk("<", "Bool", a, b)
}
func arrElem(s string) string {
	// (Array K V) -> V
	parts := splitSort(s)
	if len(parts) != 3 || parts[0] != "Array" {
		panic("not an array sort: " + s)
	}
	return parts[2]
}
func arrKey(s string) string { return splitSort(s)[1] }
func splitSort(s string) []string {
	s = strings.TrimSpace(s)
	if !strings.HasPrefix(s, "(") {
		return []string{s}
	}
	s = s[1 : len(s)-1]
	var out []string
	depth := 0
	cur := ""
	for _, r := range s {
		switch r {
		case '(':
			depth++
			cur += "("
		case ')':
			depth--
			cur += ")"
		case ' ':
			if depth == 0 {
				if cur != "" {
					out = append(out, cur)
				}
				cur = ""
			} else {
				cur += " "
			}
		default:
			cur += string(r)
		}
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}
func (c *Ctx) definitelyDistinct(a, b *Term) bool {
	if isConstTerm(a) && isConstTerm(b) && a != b {
		return true
	}
	if a.sort == "Int" {
		ba, ka := splitOff(a)
		bb, kb := splitOff(b)
		if ba == bb && ka != kb {
			return true
		}
	}
	return false
}
func splitOff(a *Term) (*Term, int64) {
	if a.op == "+" && len(a.args) == 2 {
		if z, ok := isInt(a.args[1]); ok {
			return a.args[0], z
		}
	}
	return a, 0
}
func (c *Ctx) Select(a, i *Term) *Term {
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if c.definitelyDistinct(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return c.mk("select", arrElem(a.sort), a, i)
}
func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if arrElem(a.sort) != v.sort {
		panic("store sort mismatch " + a.sort + " <- " + v.sort)
	}
	return c.mk("store", a.sort, a, i, v)
}
func (c *Ctx) ConstArr(srt string, v *Term) *Term {
	return c.mk("constarr", srt, v)
}
func (c *Ctx) Forall(vars []*Term, body *Term, pats ...*Term) *Term {
	return c.quant("forall", vars, body, pats)
}
func (c *Ctx) Exists(vars []*Term, body *Term, pats ...*Term) *Term {
	return c.quant("exists", vars, body, pats)
}
func (c *Ctx) quant(q string, vars []*Term, body *Term, pats []*Term) *Term {
	if body.op == "true" || body.op == "false" {
		return body
	}
	args := append(append([]*Term{}, vars...), body)
	op := q + ":" + strconv.Itoa(len(vars))
	for _, p := range pats {
		op += "," + strconv.Itoa(p.id)
	}
	t := c.mk(op, "Bool", args...)
	t.pats = pats
	// closed if no free bound variables other than vars
	fv := map[string]bool{}
	freeB(body, fv, map[int]bool{})
	for _, v := range vars {
		delete(fv, v.op)
	}
	t.bound = len(fv) > 0
	t.quant = true
	return t
}
func freeB(t *Term, out map[string]bool, seen map[int]bool) {
	if !t.bound || seen[t.id] {
		return
	}
	seen[t.id] = true
	if strings.HasPrefix(t.op, "%") {
		out[t.op] = true
		return
	}
	if strings.HasPrefix(t.op, "forall:") || strings.HasPrefix(t.op, "exists:") {
		inner := map[string]bool{}
		n := len(t.args) - 1
		freeB(t.args[n], inner, map[int]bool{})
		for _, v := range t.args[:n] {
			delete(inner, v.op)
		}
		for k := range inner {
			out[k] = true
		}
		return
	}
	for _, a := range t.args {
		freeB(a, out, seen)
	}
}

// subst replaces terms by id.
func (c *Ctx) subst(t *Term, m map[int]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t.id]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, na)
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}
func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "not":
		return c.Not(a[0])
	case "=>":
		return c.Implies(a[0], a[1])
	case "=":
		return c.Eq(a[0], a[1])
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	case "+":
		return c.Add(a[0], a[1])
	}
	if strings.HasPrefix(t.op, "forall:") || strings.HasPrefix(t.op, "exists:") {
		n := len(a) - 1
		q := t.op[:6]
		return c.quant(q, a[:n], a[n], nil)
	}
	if strings.HasPrefix(t.op, "proj:") {
		return c.Proj(a[0], t.op[5:], t.sort)
	}
	return c.mk(t.op, t.sort, a...)
}

// ---------------------------------------------------------------- datatypes

// Datatypes records the record sorts derived from Go struct types and slices.
type Datatypes struct {
	recs map[string][]DTField // sort name -> fields
	ord  []string
}
type DTField struct{ name, sort string }

func (c *Ctx) MkRec(srt string, vals []*Term) *Term {
	// eta: mk(proj0(x), proj1(x), ...) = x
	fs := c.dts.recs[srt]
	if len(vals) > 0 && strings.HasPrefix(vals[0].op, "proj:") {
		x := vals[0].args[0]
		if x.sort == srt {
			all := true
			for i, v := range vals {
				if v.op != "proj:"+fs[i].name || v.args[0] != x {
					all = false
					break
				}
			}
			if all {
				return x
			}
		}
	}
	return c.mk("mk:"+srt, srt, vals...)
}
func (c *Ctx) Proj(x *Term, field, srt string) *Term {
	if strings.HasPrefix(x.op, "mk:") {
		for i, f := range c.dts.recs[x.sort] {
			if f.name == field {
				return x.args[i]
			}
		}
		panic("no field " + field + " in " + x.sort)
	}
	if x.op == "ite" && (strings.HasPrefix(x.args[1].op, "mk:") || strings.HasPrefix(x.args[2].op, "mk:")) {
		return c.Ite(x.args[0], c.Proj(x.args[1], field, srt), c.Proj(x.args[2], field, srt))
	}
	return c.mk("proj:"+field, srt, x)
}

func sliceSort(elem string) string { return "(Slice " + elem + ")" }
func isSliceSort(s string) bool    { return strings.HasPrefix(s, "(Slice ") }
func sliceElem(s string) string    { return splitSort(s)[1] }

func (c *Ctx) MkSlice(arr, ln *Term) *Term {
	if arr.op == "sarr" && ln.op == "slen" && arr.args[0] == ln.args[0] {
		return arr.args[0]
	}
	return c.mk("mkslice", sliceSort(arrElem(arr.sort)), arr, ln)
}
func (c *Ctx) SArr(s *Term) *Term {
	if s.op == "mkslice" {
		return s.args[0]
	}
	if s.op == "ite" && (s.args[1].op == "mkslice" || s.args[2].op == "mkslice") {
		return c.Ite(s.args[0], c.SArr(s.args[1]), c.SArr(s.args[2]))
	}
	return c.mk("sarr", "(Array Int "+sliceElem(s.sort)+")", s)
}
func (c *Ctx) SLen(s *Term) *Term {
	if s.op == "mkslice" {
		return s.args[1]
	}
	if s.op == "ite" && (s.args[1].op == "mkslice" || s.args[2].op == "mkslice") {
		return c.Ite(s.args[0], c.SLen(s.args[1]), c.SLen(s.args[2]))
	}
	return c.mk("slen", "Int", s)
}
func (c *Ctx) SGet(s, i *Term) *Term { return c.Select(c.SArr(s), i) }

// ---------------------------------------------------------------- printing

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '$' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func smtString(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		b := s[i]
		if b == '"' {
			sb.WriteString("\"\"")
		} else if b < 32 || b > 126 || b == '\\' {
			fmt.Fprintf(&sb, "\\u{%x}", b)
		} else {
			sb.WriteByte(b)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

type printer struct {
	c       *Ctx
	sb      strings.Builder
	names   map[int]string
	used    map[string]bool // decl names used
	sorts   map[string]bool
	refs    map[int]int
	lits    map[string]bool
	ndef    int
	facts   []*Term
	factset map[int]bool
}

func (p *printer) count(t *Term) {
	p.refs[t.id]++
	if p.refs[t.id] > 1 {
		return
	}
	p.sorts[t.sort] = true
	switch {
	case strings.HasPrefix(t.op, "$"), strings.HasPrefix(t.op, "@"):
		p.used[t.op[1:]] = true
		for _, s := range sortsOfDecl(p.c.decls[t.op[1:]]) {
			p.sorts[s] = true
		}
	case strings.HasPrefix(t.op, "\""):
		p.lits[t.op[1:]] = true
	}
	for _, a := range t.args {
		p.count(a)
	}
	for _, a := range t.pats {
		p.count(a)
	}
	if t.bound {
		return
	}
	for _, f := range p.c.termfacts[t.id] {
		if !p.factset[f.id] {
			p.factset[f.id] = true
			p.facts = append(p.facts, f)
			p.count(f)
		}
	}
}

func sortsOfDecl(d string) []string {
	// "(A B) C"
	var out []string
	if d == "" {
		return out
	}
	parts := splitSort("(" + d + ")")
	if len(parts) == 2 {
		if parts[0] != "()" {
			out = append(out, splitSort(parts[0])...)
		}
		out = append(out, parts[1])
	}
	return out
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t.id]; ok {
		return n
	}
	s := p.raw(t)
	if len(t.args) > 0 && !t.bound && p.refs[t.id] > 1 {
		p.ndef++
		n := fmt.Sprintf("d!%d", p.ndef)
		fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, t.sort, s)
		p.names[t.id] = n
		return n
	}
	return s
}

func (p *printer) raw(t *Term) string {
	switch {
	case strings.HasPrefix(t.op, "#"):
		if t.op[1] == '-' {
			return "(- " + t.op[2:] + ")"
		}
		return t.op[1:]
	case strings.HasPrefix(t.op, "\""):
		if p.c.strTheory {
			return smtString(t.op[1:])
		}
		return p.litName(t.op[1:])
	case strings.HasPrefix(t.op, "$"):
		return "|" + t.op[1:] + "|"
	case strings.HasPrefix(t.op, "%"):
		return "|" + t.op[1:] + "|"
	}
	var as []string
	for _, a := range t.args {
		as = append(as, p.str(a))
	}
	j := strings.Join(as, " ")
	switch {
	case strings.HasPrefix(t.op, "@"):
		if len(as) == 0 {
			return "|" + t.op[1:] + "|"
		}
		return "(|" + t.op[1:] + "| " + j + ")"
	case t.op == "constarr":
		return "((as const " + t.sort + ") " + j + ")"
	case strings.HasPrefix(t.op, "mk:"):
		return "(mk_" + t.op[3:] + " " + j + ")"
	case strings.HasPrefix(t.op, "proj:"):
		return "(|" + t.args[0].sort + "." + t.op[5:] + "| " + j + ")"
	case t.op == "mkslice":
		return "((as mkslice " + t.sort + ") " + j + ")"
	case strings.HasPrefix(t.op, "forall:"), strings.HasPrefix(t.op, "exists:"):
		n := len(t.args) - 1
		var vs []string
		for _, v := range t.args[:n] {
			vs = append(vs, "(|"+v.op[1:]+"| "+v.sort+")")
		}
		body := as[n]
		if len(t.pats) > 0 {
			var ps []string
			for _, q := range t.pats {
				ps = append(ps, p.str(q))
			}
			body = "(! " + body + " :pattern (" + strings.Join(ps, " ") + "))"
		}
		return "(" + t.op[:6] + " (" + strings.Join(vs, " ") + ") " + body + ")"
	}
	if len(as) == 0 {
		return t.op
	}
	return "(" + t.op + " " + j + ")"
}

func (p *printer) litName(s string) string {
	return fmt.Sprintf("lit!%d", p.c.litidx[s])
}

// Script renders a satisfiability query for the conjunction of the given terms.
func (c *Ctx) Script(asserts []*Term, opts string, tail string) string {
	return c.ScriptSteps(asserts, nil, opts, tail)
}

// qstep is one step of an incremental script: assert facts, then (optionally)
// check them together with the query terms inside a push/pop.
type qstep struct {
	facts []*Term
	query []*Term
}

// ScriptSteps renders the assertions followed by the steps.
func (c *Ctx) ScriptSteps(asserts []*Term, steps []qstep, opts string, tail string) string {
	p := &printer{c: c, names: map[int]string{}, used: map[string]bool{}, sorts: map[string]bool{}, refs: map[int]int{}, lits: map[string]bool{}, factset: map[int]bool{}}
	all := append([]*Term{}, asserts...)
	for _, t := range all {
		p.count(t)
	}
	for _, st := range steps {
		for _, t := range st.facts {
			p.count(t)
		}
		for _, t := range st.query {
			p.count(t)
		}
	}
	// axioms for function symbols in use
	done := map[string]bool{}
	for {
		added := false
		var names []string
		for fn := range p.used {
			names = append(names, fn)
		}
		sort.Strings(names)
		for _, fn := range names {
			if done[fn] {
				continue
			}
			done[fn] = true
			for _, ax := range c.fnaxioms[fn] {
				p.count(ax)
				all = append(all, ax)
				added = true
			}
			if d, ok := c.recdefs[fn]; ok {
				_ = d
			}
		}
		if !added {
			break
		}
	}
	all = append(all, p.facts...)
	var head strings.Builder
	head.WriteString(opts)
	if !c.strTheory {
		head.WriteString("(declare-sort Str 0)\n")
	}
	head.WriteString("(declare-sort Any 0)\n(declare-sort Fn 0)\n(declare-sort Opaque 0)\n")
	head.WriteString("(declare-datatypes ((Slice 1)) ((par (T) ((mkslice (sarr (Array Int T)) (slen Int))))))\n")
	for _, s := range c.dts.ord {
		need := false
		for us := range p.sorts {
			if us == s || strings.Contains(us, " "+s+")") || strings.Contains(us, " "+s+" ") {
				need = true
			}
		}
		if !need {
			// nested use
			for _, s2 := range c.dts.ord {
				for _, f := range c.dts.recs[s2] {
					if strings.Contains(f.sort, s) {
						need = true
					}
				}
			}
		}
		if need {
			fmt.Fprintf(&head, "(declare-datatypes ((%s 0)) (((mk_%s", s, s)
			for _, f := range c.dts.recs[s] {
				fs := f.sort
				if c.strTheory {
					fs = toTheory(fs)
				}
				fmt.Fprintf(&head, " (|%s.%s| %s)", s, f.name, fs)
			}
			head.WriteString("))))\n")
		}
	}
	var names []string
	for n := range p.used {
		if _, isrec := c.recdefs[n]; !isrec {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		d := c.decls[n]
		if d == "" {
			panic("undeclared " + n)
		}
		if strings.HasPrefix(d, "() ") {
			fmt.Fprintf(&head, "(declare-const |%s| %s)\n", n, d[3:])
		} else {
			fmt.Fprintf(&head, "(declare-fun |%s| %s)\n", n, d)
		}
	}
	for _, n := range c.reclist {
		head.WriteString(c.recdefs[n])
	}
	if !c.strTheory && len(p.lits) > 0 {
		var ls []string
		for i, l := range c.litorder {
			if p.lits[l] {
				fmt.Fprintf(&head, "(declare-const lit!%d Str) ; %q\n", i, l)
				ls = append(ls, fmt.Sprintf("lit!%d", i))
			}
		}
		if len(ls) > 1 {
			fmt.Fprintf(&head, "(assert (distinct %s))\n", strings.Join(ls, " "))
		}
	}
	var as []string
	for _, t := range all {
		as = append(as, "(assert "+p.str(t)+")\n")
	}
	for _, st := range steps {
		for _, t := range st.facts {
			as = append(as, "(assert "+p.str(t)+")\n")
		}
		if st.query != nil {
			as = append(as, "(push 1)\n")
			for _, t := range st.query {
				as = append(as, "(assert "+p.str(t)+")\n")
			}
			as = append(as, "(check-sat)\n(pop 1)\n")
		}
	}
	return head.String() + p.sb.String() + strings.Join(as, "") + tail
}
