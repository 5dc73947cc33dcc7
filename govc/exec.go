package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: a term, a tuple, or an address that is not a heap reference.
type Val struct {
	t    *Term
	tup  []*Val
	addr *Addr
}

type step struct {
	st    *types.Struct
	rec   string
	field int
	idx   *Term
}

type addrKind int

const (
	aCell addrKind = iota
	aField
	aGlobal
	aElem
)

// Addr is a symbolic address.
type Addr struct {
	kind    addrKind
	cell    cellKey
	base    *Term
	key     string
	srt     string
	typ     types.Type // type of the root value
	path    []step
	sl      *Val      // aElem: slice value
	slv     ssa.Value // aElem: the register holding the slice
	idx     *Term
	frame   *Frame
	escaped bool
}

type cellKey struct {
	frame int
	v     ssa.Value
}

// State is the symbolic state at a program point.
type State struct {
	cond  *Term
	heap  map[string]*Term
	cells map[cellKey]*Term
}

func (s *State) clone() *State {
	n := &State{cond: s.cond, heap: map[string]*Term{}, cells: map[cellKey]*Term{}}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

// Frame is one activation.
type Frame struct {
	id    int
	fn    *ssa.Function
	vals  map[ssa.Value]*Val
	args  []*Val
	depth int
	path  string
	entry *State
	muted bool // inlined for precision only: its obligations are decided elsewhere
}

// Obl is a proof obligation.
type Obl struct {
	name    string // stable name: function, kind, ordinal
	kind    string
	fn      string
	clause  string
	pos     string
	cond    *Term
	goal    *Term
	nassume int
	// houdini bookkeeping
	cand     *Cand
	props    []string
	goalTerm bool
	// results
	status  string // "", "valid", "invalid", "unknown", "assumed"
	backend string
	model   string
	millis  int64
}

// Cand is a candidate loop invariant.
type Cand struct {
	name string
	sel  *Term
	dead bool
}

// Opts selects what a run generates.
type Opts struct {
	kinds            map[string]bool // obligation kinds to emit
	contracts        map[string]*Contract
	inline           func(caller *Frame, callee *ssa.Function) bool
	maxDepth         int
	typeInv          bool
	ghostErr         bool
	ensureTags       map[string]bool // which ensures clauses become obligations (nil = all)
	noCallPre        bool
	strTheory        bool
	hookCall         func(ex *Exec, fr *Frame, st *State, in ssa.Instruction, cal *ssa.Function, args []*Val, res []*Term)
	afterCall        func(ex *Exec, fr *Frame, pre, st *State, in ssa.Instruction, cc *ssa.CallCommon, v *Val)
	autoInv          bool
	noQuant          bool
	trace            func(ex *Exec, fr *Frame, st *State, in ssa.Instruction)
	traceEnd         bool // trace also before jumps and returns
	post             func(ex *Exec, fr *Frame, st *State, in ssa.Instruction)
	inlineContracted bool
	ghostHavoc       func(ex *Exec, st *State, key string, cal *ssa.Function)
	hookLib          func(ex *Exec, fr *Frame, st *State, in ssa.Instruction, name string, args []*Val, rt types.Type) (*Val, bool)
	extraCands       func(ex *Exec, fr *Frame, l *loopInfo, entry *State, phis []*ssa.Phi, init func(*ssa.Phi) *Term, addc func(string, genFn))
	typeInvFn        func(ex *Exec, t types.Type, v *Term) *Term
	onEntry          func(ex *Exec, fr *Frame, st *State)
	onReturn         func(ex *Exec, fr *Frame, st *State, res []*Term)
	clauseFilter     func(ct *Contract, cl *Clause) bool
	lifted           map[*ssa.Function]bool // functions whose obligations are decided at their call sites
	noTheoryRetry    bool
	factsOnce        bool
	muteInlined      bool
	mapLoop          func(ex *Exec, r *mapLoopRec) // called for every loop over a table
}

// mapLoopRec describes one pass through a loop over a table as a function of
// the state at its header.
type mapLoopRec struct {
	fr      *Frame
	l       *loopInfo
	next    *ssa.Next
	phis    []*ssa.Phi
	at      map[*ssa.Phi]*Term
	heap    map[string]*Term
	cells   map[cellKey]*Term
	mark    int // terms created later belong to the body
	nassume int
	key     *Term
	ok      *Term
	val     *Term
	backs   []mapBack
}

type mapBack struct {
	st   *State
	next map[*ssa.Phi]*Val
}

func mapNext(l *loopInfo) *ssa.Next {
	for _, in := range l.header.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			return n
		}
	}
	return nil
}

type tokenPos = token.Pos

type Exec struct {
	mu           sync.Mutex
	rootContract *Contract
	specs        *Specs
	specErrs     []string
	solverErr    string
	recKeys      map[string][]string
	inRec        *Def
	quickOnly    bool // no slow back ends
	finalCond    *Term
	finalSt      *State
	finalRes     []*Term
	P            *Prog
	c            *Ctx
	o            *Opts
	assumes      []*Term
	obls         []*Obl
	keys         map[string]string // heap key -> sort of state component
	restart      bool
	nframe       int
	ncount       map[string]int
	cands        []*Cand
	stack        []*ssa.Function
	root         *Frame
	rootPre      *State
	instrs       int
	tooBig       bool
	assumedExt   map[string]bool // library functions and abstracted features relied on
	reachPts     []*Term
	modelVars    []modelVar
	mapLoops     map[*ssa.BasicBlock]*mapLoopRec
	consts       map[int]*Term // results of calls that depend on their arguments alone
}

type modelVar struct {
	name string
	t    *Term
	typ  types.Type
}

func NewExec(P *Prog, o *Opts) *Exec {
	return &Exec{P: P, o: o, keys: map[string]string{"alloc": "Int"}}
}

func (ex *Exec) reset() {
	ex.c = NewCtx(ex.P.dts, ex.o.strTheory)
	ex.assumes = nil
	ex.obls = nil
	ex.restart = false
	ex.nframe = 0
	ex.ncount = map[string]int{}
	ex.cands = nil
	ex.stack = nil
	ex.instrs = 0
	ex.assumedExt = map[string]bool{}
	ex.reachPts = nil
	ex.modelVars = nil
	ex.mapLoops = map[*ssa.BasicBlock]*mapLoopRec{}
	ex.consts = map[int]*Term{}
}

// ---------------------------------------------------------------- helpers

func (ex *Exec) assume(st *State, f *Term) {
	if ex.o.noQuant && f.quant {
		return
	}
	f = ex.c.Implies(st.cond, f)
	if f.op != "true" {
		ex.assumes = append(ex.assumes, f)
	}
}

func (ex *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := ex.P.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, "/repo/"), ps.Line)
}

func (ex *Exec) oblige(fr *Frame, st *State, kind, detail string, pos token.Pos, goal *Term) *Obl {
	if fr.muted {
		// the callee's own verification answers for this
		ex.assume(st, goal)
		return nil
	}
	if ex.o.kinds != nil && !ex.o.kinds[kind] {
		return nil
	}
	base := funcKey(ex.root.fn)
	if fr.path != "" {
		base += "/" + fr.path
	}
	nm := base + "#" + kind
	if detail != "" {
		nm += "(" + detail + ")"
	}
	ex.ncount[nm]++
	o := &Obl{name: fmt.Sprintf("%s.%d", nm, ex.ncount[nm]), kind: kind, fn: funcKey(ex.root.fn), clause: detail, pos: ex.posOf(pos), cond: st.cond, goal: goal, nassume: len(ex.assumes)}
	ex.obls = append(ex.obls, o)
	ex.assume(st, goal)
	return o
}

func (ex *Exec) heap(st *State, key, srt string) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	if _, ok := ex.keys[key]; !ok {
		ex.keys[key] = srt
		ex.restart = true
	}
	t := ex.c.Const("H0."+sanitize(key), srt)
	st.heap[key] = t
	return t
}

func (ex *Exec) initState() *State {
	st := &State{cond: ex.c.True(), heap: map[string]*Term{}, cells: map[cellKey]*Term{}}
	var ks []string
	for k := range ex.keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		st.heap[k] = ex.c.Const("H0."+sanitize(k), ex.keys[k])
	}
	ex.assume(st, ex.c.Le(ex.c.Int(1000), st.heap["alloc"]))
	return st
}

func (ex *Exec) zero(t types.Type) *Term {
	c := ex.c
	return ex.zeroSort(c.sortOf(t), t)
}

func (ex *Exec) zeroSort(s string, t types.Type) *Term {
	c := ex.c
	switch {
	case s == "Bool":
		return c.False()
	case s == "Int":
		return c.Int(0)
	case s == "Str" || s == "String":
		return c.Str("")
	case s == "Any":
		return c.anyNil()
	case isSliceSort(s):
		el := sliceElem(s)
		var et types.Type
		if t != nil {
			if sl, ok := t.Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
		}
		return c.MkSlice(c.ConstArr("(Array Int "+el+")", ex.zeroSort(el, et)), c.Int(0))
	case strings.HasPrefix(s, "(Array "):
		var et types.Type
		if t != nil {
			if a, ok := t.Underlying().(*types.Array); ok {
				et = a.Elem()
			}
		}
		return c.ConstArr(s, ex.zeroSort(arrElem(s), et))
	case strings.HasPrefix(s, "R"):
		if fs, ok := ex.P.dts.recs[s]; ok {
			var vs []*Term
			for _, f := range fs {
				fs := f.sort
				if c.strTheory {
					fs = toTheory(fs)
				}
				vs = append(vs, ex.zeroSort(fs, nil))
			}
			return c.MkRec(s, vs)
		}
	}
	return c.Const("zero."+sanitize(s), s)
}

func (c *Ctx) anyNil() *Term {
	t := c.Const("any.nil", "Any")
	if _, ok := c.termfacts[t.id]; !ok {
		c.termfacts[t.id] = nil
		c.termfacts[t.id] = []*Term{c.Eq(c.App("tag", "Int", t), c.Int(0))}
	}
	return t
}

func (c *Ctx) typeID(t types.Type) *Term {
	k := "type:" + t.String()
	if c.tags == nil {
		c.tags = map[string]int{}
	}
	id, ok := c.tags[k]
	if !ok {
		id = len(c.tags) + 1
		c.tags[k] = id
	}
	return c.Int(int64(id))
}

func (c *Ctx) box(t types.Type, v *Term) *Term {
	n := sanitize(shortTypes(t.String()))
	b := c.App("box."+n, "Any", v)
	if _, ok := c.termfacts[b.id]; !ok && !b.bound {
		c.termfacts[b.id] = nil
		c.termfacts[b.id] = []*Term{
			c.Eq(c.App("tag", "Int", b), c.typeID(t)),
			c.Eq(c.unboxRaw(t, b), v)}
	}
	return b
}
func (c *Ctx) unboxRaw(t types.Type, a *Term) *Term {
	return c.App("unbox."+sanitize(shortTypes(t.String())), c.sortOf(t), a)
}
func (c *Ctx) unbox(t types.Type, a *Term) *Term {
	if a.op == "@box."+sanitize(shortTypes(t.String())) {
		return a.args[0]
	}
	return c.unboxRaw(t, a)
}
func (c *Ctx) Tag(a *Term) *Term { return c.App("tag", "Int", a) }

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		return true
	}
	return false
}

// wellFormed adds the standing facts about a value that came from outside
// (parameters, heap, call results).
func (ex *Exec) wellFormed(st *State, t types.Type, v *Term) {
	c := ex.c
	switch x := t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		ex.assume(st, c.And(c.Le(c.Int(0), v), c.Le(v, ex.heap(st, "alloc", "Int"))))
	case *types.Slice:
		ex.assume(st, c.Le(c.Int(0), c.SLen(v)))
		_ = x
	case *types.Struct:
		if nt, ok := types.Unalias(t).(*types.Named); ok && recName(nt) != "" {
			for i := 0; i < x.NumFields(); i++ {
				ft := x.Field(i).Type()
				switch ft.Underlying().(type) {
				case *types.Pointer, *types.Map, *types.Slice, *types.Struct:
					ex.wellFormed(st, ft, ex.proj(v, nt, x, i))
				}
			}
		}
	case *types.Basic:
		if x.Info()&types.IsUnsigned != 0 {
			ex.assume(st, c.Le(c.Int(0), v))
		}
	}
	if ex.o.typeInv {
		if f := ex.typeInvTerm(t, v); f != nil {
			ex.assume(st, f)
		}
	}
}

func (ex *Exec) proj(v *Term, nt *types.Named, st *types.Struct, i int) *Term {
	return ex.c.Proj(v, st.Field(i).Name(), ex.c.sortOf(st.Field(i).Type()))
}

// freshOf makes an unconstrained value of a type.
func (ex *Exec) freshOf(hint string, t types.Type) *Term {
	return ex.c.Fresh(hint, ex.c.sortOf(t))
}

// ---------------------------------------------------------------- addresses

func (ex *Exec) newRef(st *State) *Term {
	c := ex.c
	r := c.Add(ex.heap(st, "alloc", "Int"), c.Int(1))
	st.heap["alloc"] = r
	return r
}

func (ex *Exec) rootLoad(st *State, a *Addr) *Term {
	c := ex.c
	switch a.kind {
	case aCell:
		if a.escaped {
			return ex.freshOf("esc", a.typ)
		}
		if t, ok := st.cells[a.cell]; ok {
			return t
		}
		return ex.zero(a.typ)
	case aField:
		return c.Select(ex.heap(st, a.key, a.srt), a.base)
	case aGlobal:
		return ex.heap(st, a.key, a.srt)
	case aElem:
		return c.SGet(a.sl.t, a.idx)
	}
	panic("rootLoad")
}

func (ex *Exec) load(st *State, a *Addr) *Term {
	v := ex.rootLoad(st, a)
	for _, s := range a.path {
		if s.st != nil {
			v = ex.c.Proj(v, s.st.Field(s.field).Name(), ex.c.sortOf(s.st.Field(s.field).Type()))
		} else {
			v = ex.c.Select(v, s.idx)
		}
	}
	return v
}

func (ex *Exec) update(v *Term, path []step, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	c := ex.c
	if s.st != nil {
		var vs []*Term
		for i := 0; i < s.st.NumFields(); i++ {
			f := c.Proj(v, s.st.Field(i).Name(), c.sortOf(s.st.Field(i).Type()))
			if i == s.field {
				f = ex.update(f, path[1:], nv)
			}
			vs = append(vs, f)
		}
		return c.MkRec(s.rec, vs)
	}
	return c.Store(v, s.idx, ex.update(c.Select(v, s.idx), path[1:], nv))
}

func (ex *Exec) store(st *State, a *Addr, nv *Term) {
	c := ex.c
	if a.kind == aCell && a.escaped {
		return
	}
	v := nv
	if len(a.path) > 0 {
		v = ex.update(ex.rootLoad(st, a), a.path, nv)
	}
	switch a.kind {
	case aCell:
		st.cells[a.cell] = v
	case aField:
		st.heap[a.key] = c.Store(ex.heap(st, a.key, a.srt), a.base, v)
	case aGlobal:
		ex.heap(st, a.key, a.srt)
		st.heap[a.key] = v
	case aElem:
		ns := c.MkSlice(c.Store(c.SArr(a.sl.t), a.idx, v), c.SLen(a.sl.t))
		st.cells[cellKey{a.frame.id, a.slv}] = ns
		// write back to where the slice was loaded from
		if ld, ok := a.slv.(*ssa.UnOp); ok && ld.Op == token.MUL {
			src := ex.val(a.frame, st, ld.X)
			if src.addr != nil {
				ex.store(st, src.addr, ns)
			}
		}
	}
}

// addrOf gives the address denoted by a pointer value of pointer type t.
func (ex *Exec) addrOf(st *State, v *Val, t types.Type) *Addr {
	if v.addr != nil {
		return v.addr
	}
	el := t.Underlying().(*types.Pointer).Elem()
	k := "p:" + shortTypes(el.String())
	return &Addr{kind: aField, base: v.t, key: k, srt: "(Array Int " + ex.c.sortOf(el) + ")", typ: el}
}

// plain turns a value into a term; an address that escapes becomes an opaque non-nil reference.
func (ex *Exec) plain(v *Val) *Term {
	if v.t != nil {
		return v.t
	}
	if v.addr != nil {
		t := ex.c.Fresh("addr", "Int")
		ex.assumes = append(ex.assumes, ex.c.Lt(ex.c.Int(0), t))
		v.t = t
		return t
	}
	panic("tuple used as a plain value")
}

// ---------------------------------------------------------------- values

func (ex *Exec) val(fr *Frame, st *State, v ssa.Value) *Val {
	if ov, ok := st.cells[cellKey{fr.id, v}]; ok {
		if _, isA := v.(*ssa.Alloc); !isA {
			return &Val{t: ov}
		}
	}
	if r, ok := fr.vals[v]; ok {
		return r
	}
	c := ex.c
	switch x := v.(type) {
	case *ssa.Const:
		return &Val{t: ex.constant(x)}
	case *ssa.Global:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		return &Val{addr: &Addr{kind: aGlobal, key: globalKey(x), srt: c.sortOf(el), typ: el}}
	case *ssa.Function:
		return &Val{t: c.Const("fn."+sanitize(funcKey(x)), "Fn")}
	case *ssa.Builtin:
		return &Val{t: c.Const("builtin."+x.Name(), "Fn")}
	case *ssa.FreeVar:
		if _, ok := x.Type().Underlying().(*types.Pointer); ok {
			el := x.Type().Underlying().(*types.Pointer).Elem()
			r := &Val{addr: &Addr{kind: aCell, cell: cellKey{fr.id, x}, typ: el, escaped: true}}
			fr.vals[v] = r
			return r
		}
		r := &Val{t: ex.freshOf("fv", x.Type())}
		fr.vals[v] = r
		return r
	}
	panic(fmt.Sprintf("value %s (%T) not defined in %s", v.Name(), v, fr.fn.Name()))
}

func (ex *Exec) constant(x *ssa.Const) *Term {
	c := ex.c
	if x.Value == nil {
		return ex.zero(x.Type())
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return c.Bool(constant.BoolVal(x.Value))
	case constant.String:
		return c.Str(constant.StringVal(x.Value))
	case constant.Int:
		if c.sortOf(x.Type()) == "Int" {
			if n, ok := constant.Int64Val(x.Value); ok {
				return c.Int(n)
			}
		}
	}
	return c.Const("const."+sanitize(x.Value.ExactString()+"_"+x.Type().String()), c.sortOf(x.Type()))
}

func (ex *Exec) term(fr *Frame, st *State, v ssa.Value) *Term {
	return ex.plain(ex.val(fr, st, v))
}

// ---------------------------------------------------------------- loops

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	backs  []*ssa.BasicBlock
}

func loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := out[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					out[s] = l
				}
				l.backs = append(l.backs, b)
				// collect body
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	return out
}

func rpo(f *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] && !s.Dominates(b) {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	var out []*ssa.BasicBlock
	for i := len(post) - 1; i >= 0; i-- {
		out = append(out, post[i])
	}
	return out
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
}

func (ex *Exec) merge(es []edge) *State {
	if len(es) == 1 {
		return es[0].st.clone()
	}
	c := ex.c
	var conds []*Term
	for _, e := range es {
		conds = append(conds, e.st.cond)
	}
	n := &State{heap: map[string]*Term{}, cells: map[cellKey]*Term{}}
	n.cond = conds[0]
	for _, x := range conds[1:] {
		n.cond = c.Or(n.cond, x)
	}
	last := es[len(es)-1].st
	for k, v := range last.heap {
		t := v
		for i := len(es) - 2; i >= 0; i-- {
			t = c.Ite(conds[i], ex.heap(es[i].st, k, v.sort), t)
		}
		n.heap[k] = t
	}
	keys := map[cellKey]*Term{}
	for _, e := range es {
		for k, v := range e.st.cells {
			keys[k] = v
		}
	}
	for k := range keys {
		var t *Term
		for i := len(es) - 1; i >= 0; i-- {
			v, ok := es[i].st.cells[k]
			if !ok {
				// not yet defined on that path: any value will do, use the other side's
				continue
			}
			if t == nil {
				t = v
			} else {
				t = c.Ite(conds[i], v, t)
			}
		}
		n.cells[k] = t
	}
	return n
}

type retPoint struct {
	st   *State
	vals []*Val
}

// run executes a function body symbolically from the given state.
func (ex *Exec) run(fr *Frame, st0 *State) ([]retPoint, bool) {
	f := fr.fn
	loops := loopsOf(f)
	in := map[*ssa.BasicBlock][]edge{}
	in[f.Blocks[0]] = []edge{{nil, st0}}
	var rets []retPoint
	type pend struct {
		l     *loopInfo
		cands []*candInst
		entry *State
	}
	active := map[*ssa.BasicBlock]*pend{}
	for _, b := range rpo(f) {
		es := in[b]
		if len(es) == 0 {
			continue
		}
		// drop dead edges
		var live []edge
		for _, e := range es {
			if e.st.cond.op != "false" {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		es = live
		st := ex.merge(es)
		// phis
		phiVals := map[*ssa.Phi]*Val{}
		for _, instr := range b.Instrs {
			ph, ok := instr.(*ssa.Phi)
			if !ok {
				break
			}
			var t *Val
			for i := len(es) - 1; i >= 0; i-- {
				e := es[i]
				var src ssa.Value
				for j, p := range b.Preds {
					if p == e.from {
						src = ph.Edges[j]
					}
				}
				v := ex.val(fr, e.st, src)
				if t == nil {
					t = v
					continue
				}
				if v == t {
					continue
				}
				t = &Val{t: ex.c.Ite(e.st.cond, ex.plain(v), ex.plain(t))}
			}
			phiVals[ph] = t
		}
		for ph, v := range phiVals {
			fr.vals[ph] = v
		}
		if l := loops[b]; l != nil {
			p := &pend{l: l, entry: st.clone()}
			entryPhis := phiVals
			ex.loopHavoc(fr, l, st)
			for ph := range entryPhis {
				nv := ex.freshOf("phi."+ph.Comment, ph.Type())
				fr.vals[ph] = &Val{t: nv}
				ex.wellFormed(st, ph.Type(), nv)
			}
			if nx := mapNext(l); nx != nil && ex.o.mapLoop != nil && fr == ex.root {
				r := &mapLoopRec{fr: fr, l: l, next: nx, at: map[*ssa.Phi]*Term{}, heap: map[string]*Term{}, cells: map[cellKey]*Term{}}
				for ck, v := range st.cells {
					if p.entry.cells[ck] != v {
						if len(v.args) > 0 && isSliceSort(v.sort) {
							n := ex.c.Fresh("cell", v.sort)
							ex.assume(st, ex.c.Eq(ex.c.SLen(n), ex.c.SLen(v)))
							st.cells[ck] = n
							v = n
						}
						r.cells[ck] = v
					}
				}
				for _, k := range sortedKeysG(ex.loopWrites(fr, l)) {
					for _, hk := range ex.keysFor(k) {
						if srt, ok := ex.keys[hk]; ok {
							st.heap[hk] = ex.c.Fresh("H."+sanitize(hk), srt)
							r.heap[hk] = st.heap[hk]
						}
					}
				}
				for _, in := range b.Instrs {
					if ph, ok := in.(*ssa.Phi); ok && entryPhis[ph] != nil {
						r.phis = append(r.phis, ph)
						r.at[ph] = fr.vals[ph].t
					}
				}
				r.mark = ex.c.Fresh("mark", "Int").id
				r.nassume = len(ex.assumes)
				ex.mapLoops[b] = r
			}
			p.cands = ex.candidates(fr, l, p.entry, st, entryPhis)
			for _, ci := range p.cands {
				ex.assumes = append(ex.assumes, ex.c.Implies(ci.cand.sel, ex.c.Implies(st.cond, ci.here)))
			}
			active[b] = p
		}
		// body
		done := false
		for _, instr := range b.Instrs {
			if _, ok := instr.(*ssa.Phi); ok {
				continue
			}
			ex.instrs++
			if ex.instrs > 400000 {
				ex.tooBig = true
				return rets, false
			}
			if ex.o.traceEnd {
				switch instr.(type) {
				case *ssa.If, *ssa.Jump, *ssa.Return:
					ex.o.trace(ex, fr, st, instr)
				}
			}
			switch x := instr.(type) {
			case *ssa.If:
				cnd := ex.term(fr, st, x.Cond)
				s1 := st.clone()
				s1.cond = ex.c.And(st.cond, cnd)
				s2 := st.clone()
				s2.cond = ex.c.And(st.cond, ex.c.Not(cnd))
				ex.edge(fr, b, b.Succs[0], s1, in, loops, func(h *ssa.BasicBlock) ([]*candInst, *State) { return active[h].cands, active[h].entry })
				ex.edge(fr, b, b.Succs[1], s2, in, loops, func(h *ssa.BasicBlock) ([]*candInst, *State) { return active[h].cands, active[h].entry })
				done = true
			case *ssa.Jump:
				ex.edge(fr, b, b.Succs[0], st.clone(), in, loops, func(h *ssa.BasicBlock) ([]*candInst, *State) { return active[h].cands, active[h].entry })
				done = true
			case *ssa.Return:
				var vs []*Val
				for _, r := range x.Results {
					vs = append(vs, ex.val(fr, st, r))
				}
				rets = append(rets, retPoint{st, vs})
				done = true
			case *ssa.Panic:
				if x.Pos().IsValid() { // otherwise the unreachable default of a blocking select
					ex.oblige(fr, st, "panic", "explicit", x.Pos(), ex.c.False())
				}
				done = true
			default:
				ex.instr(fr, st, instr)
			}
			if done {
				break
			}
		}
	}
	return rets, true
}

func (ex *Exec) edge(fr *Frame, from, to *ssa.BasicBlock, st *State, in map[*ssa.BasicBlock][]edge, loops map[*ssa.BasicBlock]*loopInfo, cl func(*ssa.BasicBlock) ([]*candInst, *State)) {
	if to.Dominates(from) && loops[to] != nil {
		// back edge: candidates must be preserved
		if st.cond.op == "false" {
			return
		}
		next := map[*ssa.Phi]*Val{}
		for _, instr := range to.Instrs {
			ph, ok := instr.(*ssa.Phi)
			if !ok {
				break
			}
			for j, p := range to.Preds {
				if p == from {
					next[ph] = ex.val(fr, st, ph.Edges[j])
				}
			}
		}
		if r := ex.mapLoops[to]; r != nil && fr == ex.root {
			r.backs = append(r.backs, mapBack{st, next})
		}
		cands, _ := cl(to)
		for _, ci := range cands {
			g := ci.at(ex, st, next)
			if g == nil {
				g = ex.c.False()
			}
			o := &Obl{name: "inv-preserve:" + ci.cand.name, kind: "houdini", cond: st.cond, goal: g, nassume: len(ex.assumes), cand: ci.cand}
			ex.obls = append(ex.obls, o)
		}
		return
	}
	in[to] = append(in[to], edge{from, st})
}

// ---------------------------------------------------------------- instructions

func (ex *Exec) set(fr *Frame, v ssa.Value, t *Term) { fr.vals[v] = &Val{t: t} }

func (ex *Exec) instr(fr *Frame, st *State, instr ssa.Instruction) {
	if ex.o.trace != nil {
		ex.o.trace(ex, fr, st, instr)
	}
	ex.instr1(fr, st, instr)
	if ex.o.post != nil {
		ex.o.post(ex, fr, st, instr)
	}
}

func (ex *Exec) instr1(fr *Frame, st *State, instr ssa.Instruction) {
	c := ex.c
	switch x := instr.(type) {
	case *ssa.DebugRef, *ssa.RunDefers:
	case *ssa.Alloc:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		if isCell(x) {
			ck := cellKey{fr.id, x}
			st.cells[ck] = ex.zero(el)
			fr.vals[x] = &Val{addr: &Addr{kind: aCell, cell: ck, typ: el, escaped: cellEscapes(x)}}
			return
		}
		r := ex.newRef(st)
		ex.zeroObj(st, r, el)
		fr.vals[x] = &Val{t: r}
	case *ssa.BinOp:
		fr.vals[x] = &Val{t: ex.binop(fr, st, x)}
	case *ssa.UnOp:
		ex.unop(fr, st, x)
	case *ssa.Call:
		res := ex.call(fr, st, x, x.Common(), x.Type())
		fr.vals[x] = res
	case *ssa.ChangeType:
		fr.vals[x] = ex.val(fr, st, x.X)
	case *ssa.ChangeInterface:
		fr.vals[x] = ex.val(fr, st, x.X)
	case *ssa.Convert:
		ex.set(fr, x, ex.convert(st, ex.term(fr, st, x.X), x.X.Type(), x.Type()))
	case *ssa.Extract:
		tv := ex.val(fr, st, x.Tuple)
		fr.vals[x] = tv.tup[x.Index]
	case *ssa.Field:
		sct, _ := x.X.Type().Underlying().(*types.Struct)
		v := ex.term(fr, st, x.X)
		if strings.HasPrefix(v.sort, "R") {
			ex.set(fr, x, c.Proj(v, sct.Field(x.Field).Name(), c.sortOf(x.Type())))
		} else {
			ex.set(fr, x, ex.freshOf("field", x.Type()))
		}
	case *ssa.FieldAddr:
		ex.fieldAddr(fr, st, x)
	case *ssa.IndexAddr:
		ex.indexAddr(fr, st, x)
	case *ssa.Index:
		v := ex.term(fr, st, x.X)
		i := ex.term(fr, st, x.Index)
		if v.sort == c.StrSort() {
			ex.oblige(fr, st, "index", "", x.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.StrLen(v))))
			ex.set(fr, x, c.StrAt(v, i))
		} else {
			ex.set(fr, x, c.Select(v, i))
		}
	case *ssa.Lookup:
		ex.lookup(fr, st, x)
	case *ssa.MakeClosure:
		ex.set(fr, x, c.Fresh("closure", "Fn"))
	case *ssa.MakeInterface:
		v := ex.val(fr, st, x.X)
		if ex.o.typeInv {
			ex.checkTypeInv(fr, st, x.X.Type(), ex.plain(v), x.Pos(), "box")
		}
		ex.set(fr, x, c.box(x.X.Type(), ex.plain(v)))
	case *ssa.MakeMap:
		r := ex.newRef(st)
		mt := x.Type().Underlying().(*types.Map)
		dk, ds, _, _ := ex.mapKeys(x.Type())
		if _, used := ex.keys[dk]; used {
			st.heap[dk] = c.Store(ex.heap(st, dk, ds), r, c.ConstArr("(Array "+c.sortOf(mt.Key())+" Bool)", c.False()))
		}
		fr.vals[x] = &Val{t: r}
	case *ssa.MakeSlice:
		n := ex.term(fr, st, x.Len)
		ex.oblige(fr, st, "makeslice", "", x.Pos(), c.Le(c.Int(0), n))
		el := x.Type().Underlying().(*types.Slice).Elem()
		es := c.sortOf(el)
		ex.set(fr, x, c.MkSlice(c.ConstArr("(Array Int "+es+")", ex.zero(el)), n))
	case *ssa.MakeChan:
		ex.set(fr, x, c.Fresh("chan", c.sortOf(x.Type())))
	case *ssa.MapUpdate:
		m := ex.term(fr, st, x.Map)
		k := ex.term(fr, st, x.Key)
		v := ex.term(fr, st, x.Value)
		ex.oblige(fr, st, "nilmap", "", x.Pos(), c.Not(c.Eq(m, c.Int(0))))
		if ex.o.typeInv {
			ex.checkTypeInv(fr, st, x.Value.Type(), v, x.Pos(), "mapupdate")
		}
		dk, ds, vk, vs := ex.mapKeys(x.Map.Type())
		d := ex.heap(st, dk, ds)
		st.heap[dk] = c.Store(d, m, c.Store(c.Select(d, m), k, c.True()))
		h := ex.heap(st, vk, vs)
		st.heap[vk] = c.Store(h, m, c.Store(c.Select(h, m), k, v))
	case *ssa.Range:
		fr.vals[x] = ex.val(fr, st, x.X)
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			gk := "ghost:visited:" + fmt.Sprint(fr.id) + ":" + x.Name()
			gs := "(Array " + c.sortOf(mt.Key()) + " Bool)"
			ex.heap(st, gk, gs)
			st.heap[gk] = c.ConstArr(gs, c.False())
		}
	case *ssa.Next:
		ex.next(fr, st, x)
	case *ssa.Slice:
		ex.slice(fr, st, x)
	case *ssa.Store:
		av := ex.val(fr, st, x.Addr)
		v := ex.val(fr, st, x.Val)
		el := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		if av.addr == nil {
			// whole object through a heap reference
			if sct, nt := structOf(x.Addr.Type()); sct != nil && nt != nil && recName(nt) != "" {
				vt := ex.plain(v)
				ex.derefCheck(fr, st, av.t, x.Pos())
				ex.checkStoreInv(fr, st, x, el, vt)
				for i := 0; i < sct.NumFields(); i++ {
					k := fieldKey(nt, sct.Field(i).Name())
					if _, used := ex.keys[k]; used {
						srt := ex.keys[k]
						st.heap[k] = c.Store(ex.heap(st, k, srt), av.t, ex.proj(vt, nt, sct, i))
					}
				}
				return
			}
		}
		a := ex.addrOf(st, av, x.Addr.Type())
		if a.kind != aCell && len(a.path) == 0 {
			ex.checkStoreInv(fr, st, x, el, ex.plain(v))
		}
		if a.kind != aCell && len(a.path) > 0 && a.typ != nil && ex.o.typeInv {
			ex.checkStoreInv(fr, st, x, a.typ, ex.update(ex.rootLoad(st, a), a.path, ex.plain(v)))
		}
		ex.store(st, a, ex.plain(v))
	case *ssa.TypeAssert:
		ex.typeAssert(fr, st, x)
	case *ssa.Defer, *ssa.Go:
		ex.assumedExt["defer/go statement abstracted in "+funcKey(fr.fn)] = true
	case *ssa.Select:
		var tv []*Val
		tt := x.Type().(*types.Tuple)
		for i := 0; i < tt.Len(); i++ {
			tv = append(tv, &Val{t: ex.freshOf("sel", tt.At(i).Type())})
		}
		fr.vals[x] = &Val{tup: tv}
	case *ssa.Send:
	default:
		if v, ok := instr.(ssa.Value); ok {
			ex.assumedExt[fmt.Sprintf("instruction %T abstracted", instr)] = true
			fr.vals[v] = &Val{t: ex.freshOf("unk", v.Type())}
			return
		}
		ex.assumedExt[fmt.Sprintf("instruction %T ignored", instr)] = true
	}
}

func (ex *Exec) derefCheck(fr *Frame, st *State, r *Term, pos token.Pos) {
	if ex.o.kinds != nil && ex.o.kinds["nil"] {
		ex.oblige(fr, st, "nil", "", pos, ex.c.Not(ex.c.Eq(r, ex.c.Int(0))))
	}
}

func (ex *Exec) checkStoreInv(fr *Frame, st *State, x *ssa.Store, t types.Type, v *Term) {
	if ex.o.typeInv {
		ex.checkTypeInv(fr, st, t, v, x.Pos(), "store")
	}
}

func (ex *Exec) zeroObj(st *State, r *Term, el types.Type) {
	c := ex.c
	sct, nt := structOf(el)
	if sct == nil || nt == nil {
		return
	}
	for i := 0; i < sct.NumFields(); i++ {
		k := fieldKey(nt, sct.Field(i).Name())
		if srt, used := ex.keys[k]; used {
			st.heap[k] = c.Store(ex.heap(st, k, srt), r, ex.zero(sct.Field(i).Type()))
		}
	}
}

func (ex *Exec) mapKeys(t types.Type) (dk, ds, vk, vs string) {
	mt := t.Underlying().(*types.Map)
	b := mapKey(t)
	ks := ex.c.sortOf(mt.Key())
	es := ex.c.sortOf(mt.Elem())
	return b + ":dom", "(Array Int (Array " + ks + " Bool))", b + ":val", "(Array Int (Array " + ks + " " + es + "))"
}

func (ex *Exec) binop(fr *Frame, st *State, x *ssa.BinOp) *Term {
	c := ex.c
	av, bv := ex.val(fr, st, x.X), ex.val(fr, st, x.Y)
	a, b := ex.plain(av), ex.plain(bv)
	switch x.Op {
	case token.ADD:
		if a.sort == c.StrSort() {
			return c.StrCat(a, b)
		}
		if a.sort == "Int" {
			return c.Add(a, b)
		}
	case token.SUB:
		if a.sort == "Int" {
			return c.Sub(a, b)
		}
	case token.MUL:
		if a.sort == "Int" {
			return c.Mul(a, b)
		}
	case token.QUO, token.REM:
		if a.sort == "Int" {
			ex.oblige(fr, st, "divzero", "", x.Pos(), c.Not(c.Eq(b, c.Int(0))))
			// truncated division
			ab := func(t *Term) *Term { return c.Ite(c.Le(c.Int(0), t), t, c.Sub(c.Int(0), t)) }
			q := c.mk("div", "Int", ab(a), ab(b))
			neg := c.Not(c.Eq(c.Lt(a, c.Int(0)), c.Lt(b, c.Int(0))))
			q = c.Ite(neg, c.Sub(c.Int(0), q), q)
			if x.Op == token.QUO {
				return q
			}
			return c.Sub(a, c.Mul(q, b))
		}
	case token.EQL, token.NEQ:
		var r *Term
		if isSliceSort(a.sort) {
			// comparison with nil
			r = c.Fresh("slnil", "Bool")
			s := a
			if _, ok := x.X.(*ssa.Const); ok {
				s = b
			}
			ex.assume(st, c.Implies(r, c.Eq(c.SLen(s), c.Int(0))))
		} else {
			r = c.Eq(a, b)
		}
		if x.Op == token.NEQ {
			return c.Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.sort == "Int" {
			switch x.Op {
			case token.LSS:
				return c.Lt(a, b)
			case token.LEQ:
				return c.Le(a, b)
			case token.GTR:
				return c.Lt(b, a)
			case token.GEQ:
				return c.Le(b, a)
			}
		}
		if a.sort == c.StrSort() {
			switch x.Op {
			case token.LSS:
				return c.StrLt(a, b)
			case token.LEQ:
				return c.Not(c.StrLt(b, a))
			case token.GTR:
				return c.StrLt(b, a)
			case token.GEQ:
				return c.Not(c.StrLt(a, b))
			}
		}
	}
	return c.App("op."+sanitize(x.Op.String()+"."+a.sort+fmt.Sprint(int(x.Op))), c.sortOf(x.Type()), a, b)
}

func (ex *Exec) unop(fr *Frame, st *State, x *ssa.UnOp) {
	c := ex.c
	v := ex.val(fr, st, x.X)
	switch x.Op {
	case token.MUL:
		el := x.Type()
		var t *Term
		if v.addr == nil {
			// load of a whole object through a reference
			if sct, nt := structOf(x.X.Type()); sct != nil && nt != nil && recName(nt) != "" {
				ex.derefCheck(fr, st, v.t, x.Pos())
				var fs []*Term
				for i := 0; i < sct.NumFields(); i++ {
					k := fieldKey(nt, sct.Field(i).Name())
					srt := "(Array Int " + c.sortOf(sct.Field(i).Type()) + ")"
					fs = append(fs, c.Select(ex.heap(st, k, srt), v.t))
				}
				t = c.MkRec(recName(nt), fs)
				ex.set(fr, x, t)
				return
			}
		}
		a := ex.addrOf(st, v, x.X.Type())
		t = ex.load(st, a)
		if a.kind == aGlobal && len(a.path) == 0 {
			ex.globalFacts(st, x.X, t, el)
		}
		if a.kind != aCell || a.escaped {
			ex.wellFormed(st, el, t)
		}
		ex.set(fr, x, t)
	case token.NOT:
		ex.set(fr, x, c.Not(ex.plain(v)))
	case token.SUB:
		if ex.plain(v).sort == "Int" {
			ex.set(fr, x, c.Sub(c.Int(0), v.t))
		} else {
			ex.set(fr, x, ex.freshOf("neg", x.Type()))
		}
	case token.ARROW:
		if x.CommaOk {
			tt := x.Type().(*types.Tuple)
			fr.vals[x] = &Val{tup: []*Val{{t: ex.freshOf("recv", tt.At(0).Type())}, {t: c.Fresh("ok", "Bool")}}}
		} else {
			ex.set(fr, x, ex.freshOf("recv", x.Type()))
		}
	default:
		ex.set(fr, x, ex.freshOf("unop", x.Type()))
	}
}

// globalFacts: a package-level pointer that is only written by its initialiser
// is non-nil and distinct from the others when the initialiser allocates.
func (ex *Exec) globalFacts(st *State, gv ssa.Value, t *Term, el types.Type) {
	g, ok := gv.(*ssa.Global)
	if !ok {
		return
	}
	c := ex.c
	k := "globalfact:" + globalKey(g)
	if c.instd[k] || ex.P.globalWritten[g] {
		return
	}
	c.instd[k] = true
	if t.op != "$H0."+sanitize(globalKey(g)) {
		return
	}
	id, ok := ex.P.globalID(g)
	if ok {
		// initial objects have small distinct references
		ex.assumes = append(ex.assumes, c.Eq(t, c.Int(int64(id))))
	}
}

var globalIDs map[*ssa.Global]int

// globalID numbers the globals whose initialiser stores a freshly allocated object.
func (P *Prog) globalID(g *ssa.Global) (int, bool) {
	if globalIDs == nil {
		globalIDs = map[*ssa.Global]int{}
		var gs []*ssa.Global
		for gg := range P.globalInit {
			gs = append(gs, gg)
		}
		sort.Slice(gs, func(i, j int) bool { return globalKey(gs[i]) < globalKey(gs[j]) })
		n := 0
		for _, gg := range gs {
			if P.globalWritten[gg] || !isPtrLike(gg.Type().Underlying().(*types.Pointer).Elem()) {
				continue
			}
			v := P.globalInit[gg]
			initf := gg.Pkg.Func("init")
			os := P.originOf(initf, v)
			if len(os) == 1 && os[oFresh] {
				if cst, isc := v.(*ssa.Const); isc && cst.Value == nil {
					continue
				}
				n++
				globalIDs[gg] = n
			}
		}
	}
	id, ok := globalIDs[g]
	return id, ok
}

func (ex *Exec) convert(st *State, v *Term, from, to types.Type) *Term {
	c := ex.c
	fs, ts := c.sortOf(from), c.sortOf(to)
	if fs == ts {
		if fs != "Opaque" {
			return v
		}
	}
	if fs == "Int" && ts == c.StrSort() {
		if n, ok := isInt(v); ok {
			return c.Str(string(rune(n)))
		}
		t := c.App("runestr", c.StrSort(), v)
		if !t.bound {
			c.termfacts[t.id] = []*Term{c.Le(c.Int(1), c.StrLen(t)), c.Le(c.StrLen(t), c.Int(4)),
				c.Implies(c.And(c.Le(c.Int(0), v), c.Lt(v, c.Int(128))), c.Eq(c.StrLen(t), c.Int(1)))}
			if c.strTheory {
				c.termfacts[t.id] = append(c.termfacts[t.id], c.Implies(c.And(c.Le(c.Int(0), v), c.Lt(v, c.Int(128))), c.Eq(t, c.mk("str.from_code", "String", v))))
			}
		}
		return t
	}
	t := c.App("conv."+sanitize(from.String()+"."+to.String()), ts, v)
	if isSliceSort(ts) {
		ex.assume(st, c.Le(c.Int(0), c.SLen(t)))
		if fs == c.StrSort() {
			if sl, ok := to.Underlying().(*types.Slice); ok && sl.Elem().String() == "byte" {
				ex.assume(st, c.Eq(c.SLen(t), c.StrLen(v)))
			}
		}
	}
	return t
}

func (ex *Exec) fieldAddr(fr *Frame, st *State, x *ssa.FieldAddr) {
	c := ex.c
	v := ex.val(fr, st, x.X)
	sct, nt := structOf(x.X.Type())
	ft := sct.Field(x.Field).Type()
	if v.addr != nil {
		na := *v.addr
		if nt == nil || recName(nt) == "" {
			na.escaped = true
			na.kind = aCell
			na.typ = ft
			na.path = nil
			fr.vals[x] = &Val{addr: &na}
			return
		}
		na.path = append(append([]step{}, v.addr.path...), step{st: sct, rec: recName(nt), field: x.Field})
		fr.vals[x] = &Val{addr: &na}
		return
	}
	ex.derefCheck(fr, st, v.t, x.Pos())
	if nt == nil {
		fr.vals[x] = &Val{addr: &Addr{kind: aCell, escaped: true, typ: ft}}
		return
	}
	k := fieldKey(nt, sct.Field(x.Field).Name())
	fr.vals[x] = &Val{addr: &Addr{kind: aField, base: v.t, key: k, srt: "(Array Int " + c.sortOf(ft) + ")", typ: ft}}
}

func (ex *Exec) indexAddr(fr *Frame, st *State, x *ssa.IndexAddr) {
	c := ex.c
	v := ex.val(fr, st, x.X)
	i := ex.term(fr, st, x.Index)
	if isArrayPtr(x.X.Type()) {
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		ex.oblige(fr, st, "index", "", x.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(n))))
		if v.addr != nil {
			na := *v.addr
			na.path = append(append([]step{}, v.addr.path...), step{idx: i})
			fr.vals[x] = &Val{addr: &na}
			return
		}
		fr.vals[x] = &Val{addr: &Addr{kind: aCell, escaped: true, typ: x.Type().Underlying().(*types.Pointer).Elem()}}
		return
	}
	s := ex.plain(v)
	ex.oblige(fr, st, "index", "", x.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.SLen(s))))
	el := x.X.Type().Underlying().(*types.Slice).Elem()
	fr.vals[x] = &Val{addr: &Addr{kind: aElem, sl: &Val{t: s}, slv: x.X, idx: i, typ: el, frame: fr}}
}

func (ex *Exec) lookup(fr *Frame, st *State, x *ssa.Lookup) {
	c := ex.c
	v := ex.term(fr, st, x.X)
	k := ex.term(fr, st, x.Index)
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		ex.oblige(fr, st, "index", "", x.Pos(), c.And(c.Le(c.Int(0), k), c.Lt(k, c.StrLen(v))))
		ex.set(fr, x, c.StrAt(v, k))
		return
	}
	has, val := ex.mapGet(st, v, k, x.X.Type())
	val = c.Ite(has, val, ex.zero(mt.Elem()))
	ex.wellFormed(st, mt.Elem(), val)
	if x.CommaOk {
		fr.vals[x] = &Val{tup: []*Val{{t: val}, {t: has}}}
	} else {
		ex.set(fr, x, val)
	}
}

// mapGet returns (present, stored value) of a map at a key.
func (ex *Exec) mapGet(st *State, m, k *Term, t types.Type) (*Term, *Term) {
	c := ex.c
	dk, ds, vk, vs := ex.mapKeys(t)
	has := c.And(c.Not(c.Eq(m, c.Int(0))), c.Select(c.Select(ex.heap(st, dk, ds), m), k))
	return has, c.Select(c.Select(ex.heap(st, vk, vs), m), k)
}

func (ex *Exec) next(fr *Frame, st *State, x *ssa.Next) {
	c := ex.c
	tt := x.Type().(*types.Tuple)
	ok := c.Fresh("more", "Bool")
	if x.IsString {
		k := c.Fresh("pos", "Int")
		r := c.Fresh("rune", "Int")
		s := ex.term(fr, st, x.Iter)
		ex.assume(st, c.Implies(ok, c.And(c.Le(c.Int(0), k), c.Lt(k, c.StrLen(s)), c.Le(c.Int(0), r), c.Le(r, c.Int(0x10ffff)))))
		fr.vals[x] = &Val{tup: []*Val{{t: ok}, {t: k}, {t: r}}}
		return
	}
	rg := x.Iter.(*ssa.Range)
	m := ex.term(fr, st, rg)
	mt := rg.X.Type().Underlying().(*types.Map)
	k := ex.freshOf("mkey", mt.Key())
	has, val := ex.mapGet(st, m, k, rg.X.Type())
	ex.assume(st, c.Implies(ok, has))
	vt := val
	if tt.At(2).Type() == types.Typ[types.Invalid] {
		vt = nil
	}
	tv := []*Val{{t: ok}, {t: k}, {t: vt}}
	if r := ex.mapLoops[x.Block()]; r != nil && fr == ex.root && r.next == x {
		r.key, r.ok, r.val = k, ok, vt
	}
	if vt != nil {
		ex.wellFormed(st, mt.Elem(), vt)
	}
	// ghost: the set of keys already visited
	gk := "ghost:visited:" + fmt.Sprint(fr.id) + ":" + rg.Name()
	gs := "(Array " + c.sortOf(mt.Key()) + " Bool)"
	vis := ex.heap(st, gk, gs)
	ex.assume(st, c.Implies(ok, c.Not(c.Select(vis, k))))
	q := c.BVar("q!", c.sortOf(mt.Key()))
	dk, ds, _, _ := ex.mapKeys(rg.X.Type())
	dom := c.Select(ex.heap(st, dk, ds), m)
	ex.assume(st, c.Implies(c.Not(ok), c.Forall([]*Term{q}, c.Implies(c.And(c.Not(c.Eq(m, c.Int(0))), c.Select(dom, q)), c.Select(vis, q)))))
	st.heap[gk] = c.Ite(ok, c.Store(vis, k, c.True()), vis)
	fr.vals[x] = &Val{tup: tv}
}

func (ex *Exec) slice(fr *Frame, st *State, x *ssa.Slice) {
	c := ex.c
	v := ex.val(fr, st, x.X)
	lo := c.Int(0)
	if x.Low != nil {
		lo = ex.term(fr, st, x.Low)
	}
	if isArrayPtr(x.X.Type()) {
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		hi := c.Int(n)
		if x.High != nil {
			hi = ex.term(fr, st, x.High)
		}
		ex.oblige(fr, st, "slice", "", x.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.Int(n))))
		arr := ex.load(st, v.addr)
		if ex.o.typeInv && n <= 16 {
			el := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()
			for i := int64(0); i < n; i++ {
				ex.checkTypeInv(fr, st, el, c.Select(arr, c.Int(i)), x.Pos(), "element")
			}
		}
		ex.set(fr, x, ex.subslice(st, c.MkSlice(arr, c.Int(n)), lo, hi))
		return
	}
	s := ex.plain(v)
	if s.sort == c.StrSort() {
		hi := c.StrLen(s)
		if x.High != nil {
			hi = ex.term(fr, st, x.High)
		}
		ex.oblige(fr, st, "slice", "", x.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.StrLen(s))))
		ex.set(fr, x, c.StrSub(s, lo, hi))
		return
	}
	hi := c.SLen(s)
	if x.High != nil {
		hi = ex.term(fr, st, x.High)
	}
	// capacity is not modelled: slicing beyond len is reported
	ex.oblige(fr, st, "slice", "", x.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.SLen(s))))
	ex.set(fr, x, ex.subslice(st, s, lo, hi))
}

func (ex *Exec) subslice(st *State, s, lo, hi *Term) *Term {
	c := ex.c
	if n, ok := isInt(lo); ok && n == 0 {
		return c.MkSlice(c.SArr(s), hi)
	}
	arr := c.SArr(s)
	na := c.Fresh("sub", arr.sort)
	i := c.BVar("i!", "Int")
	ex.assume(st, c.Forall([]*Term{i}, c.Eq(c.Select(na, i), c.Select(arr, c.Add(i, lo))), c.Select(na, i)))
	return c.MkSlice(na, c.Sub(hi, lo))
}

func (ex *Exec) appendSlices(st *State, a, b *Term) *Term {
	c := ex.c
	if n, ok := isInt(c.SLen(b)); ok && n <= 40 {
		arr := c.SArr(a)
		l := c.SLen(a)
		for i := int64(0); i < n; i++ {
			arr = c.Store(arr, c.Add(l, c.Int(i)), c.SGet(b, c.Int(i)))
		}
		return c.MkSlice(arr, c.Add(l, c.Int(n)))
	}
	if n, ok := isInt(c.SLen(a)); ok && n == 0 {
		return c.MkSlice(c.SArr(b), c.SLen(b))
	}
	la, lb := c.SLen(a), c.SLen(b)
	na := c.Fresh("app", c.SArr(a).sort)
	i := c.BVar("i!", "Int")
	ex.assume(st, c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, la)), c.Eq(c.Select(na, i), c.SGet(a, i))), c.Select(na, i)))
	ex.assume(st, c.Forall([]*Term{i}, c.Implies(c.And(c.Le(la, i), c.Lt(i, c.Add(la, lb))), c.Eq(c.Select(na, i), c.SGet(b, c.Sub(i, la)))), c.Select(na, i)))
	j := c.BVar("j!", "Int")
	ex.assume(st, c.Forall([]*Term{j}, c.Implies(c.And(c.Le(c.Int(0), j), c.Lt(j, lb)), c.Eq(c.Select(na, c.Add(la, j)), c.SGet(b, j))), c.SGet(b, j)))
	return c.MkSlice(na, c.Add(la, lb))
}

func (ex *Exec) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) {
	c := ex.c
	v := ex.term(fr, st, x.X)
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if x.CommaOk {
			fr.vals[x] = &Val{tup: []*Val{{t: v}, {t: c.Fresh("ok", "Bool")}}}
		} else {
			ex.set(fr, x, v)
		}
		return
	}
	is := c.Eq(c.Tag(v), c.typeID(x.AssertedType))
	u := c.unbox(x.AssertedType, v)
	if x.CommaOk {
		r := c.Ite(is, u, ex.zero(x.AssertedType))
		ex.wellFormed(st, x.AssertedType, r)
		fr.vals[x] = &Val{tup: []*Val{{t: r}, {t: is}}}
		return
	}
	ex.oblige(fr, st, "typeassert", "", x.Pos(), is)
	ex.wellFormed(st, x.AssertedType, u)
	ex.set(fr, x, u)
}
