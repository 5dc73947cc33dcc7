package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C04: two runs on the same sources give the same files and messages.
//
// What a Go program can do differently in two runs on the same input: visit
// tables in another order, use other memory addresses, read clocks, random
// numbers, process data, or interleave threads.
//
//  1. Loops over tables. Contract of each loop: two passes with different keys
//     give the same state in either order; a list that grows may differ by the
//     exchange of what the two passes appended (it is then an unordered list),
//     and no pass looks at the contents of such a list.
//  2. Unordered lists are sorted before anything depends on their order
//     (data flow over the function, contracts of callees for parameters and results).
//  3. Addresses: what is turned into text holds no reference.
//  4. Clocks, random numbers, threads: no function of the run uses them.

func init() {
	register(&Check{id: "C04", level: "proof", run: runC04, search: c04Search,
		what: "for every function of a run: loops over tables commute up to the order of lists, unordered lists are sorted before use, no reference becomes text, no clock, random number or thread is used",
		assumes: []string{
			"what the operating system returns (contents of files, order of filepath.Walk, which is lexical) is the same in both runs",
			"the order of unordered lists, the types that become text and the use of clocks and threads are decided by data flow, without a solver",
		}})
}

// forbidden library packages and functions: their results differ between runs.
func differs(cal *ssa.Function) string {
	if cal.Pkg == nil {
		return ""
	}
	p := cal.Pkg.Pkg.Path()
	switch p {
	case "math/rand", "math/rand/v2", "crypto/rand", "time", "runtime", "hash/maphash", "unsafe", "net", "os/user", "sync", "sync/atomic":
		return p
	case "os":
		switch cal.Name() {
		case "Getpid", "Getppid", "MkdirTemp", "CreateTemp", "Hostname", "Getenv", "Environ", "LookupEnv", "TempDir", "Chtimes":
			return "os." + cal.Name()
		}
	}
	return ""
}

// serves: the function waits for requests and does not take part in a run that ends.
func serves(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if cal := ci.Common().StaticCallee(); cal != nil && !inRepo(cal) && cal.Pkg != nil {
					switch cal.Pkg.Pkg.Path() {
					case "net/http", "github.com/fsnotify/fsnotify":
						return true
					}
				}
			}
		}
	}
	return false
}

type c04 struct {
	k  *Run
	in map[*ssa.Function]bool
	// what a function does with an unordered list passed as parameter
	par map[*ssa.Parameter]*bagUse
	// result i of a function is an unordered list
	ret map[*ssa.Function]map[int]bool
	n   int
	ok  int
}

// bagUse: bad use of the list, if any; whether the list is sorted when the
// function returns; results that are the list, still unordered.
type bagUse struct {
	bad    ssa.Instruction
	why    string
	sorted bool
	rets   map[int]bool
	busy   bool
}

func runC04(k *Run) {
	P := k.P
	var roots []*ssa.Function
	for _, n := range []string{"ExecuteProjectFromArgs"} {
		if f := P.byKey["vxlisp."+n]; f != nil {
			roots = append(roots, f)
		}
	}
	if len(roots) == 0 {
		k.missing = append(k.missing, "vxlisp.ExecuteProjectFromArgs")
		return
	}
	x := &c04{k: k, in: map[*ssa.Function]bool{}, par: map[*ssa.Parameter]*bagUse{}, ret: map[*ssa.Function]map[int]bool{}}
	for f := range P.reachable(roots...) {
		if !serves(f) {
			x.in[f] = true
		}
	}
	var fs, loops []*ssa.Function
	for _, f := range realFuncs(P) {
		if !x.in[f] {
			continue
		}
		k.contract[funcKey(f)] = true
		fs = append(fs, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
					if len(loops) == 0 || loops[len(loops)-1] != f {
						loops = append(loops, f)
					}
				}
			}
		}
	}
	// 1. loops over tables
	rs := verifyAll(loops, func(f *ssa.Function) *FnResult { return verifyFn(P, k.specs, f, nil, x.opts(), k.ms, true) })
	k.results = rs
	var names []string
	for _, f := range loops {
		names = append(names, funcKey(f))
	}
	k.extra["functions_with_loops_over_tables"] = names
	// 2. unordered lists
	for changed := true; changed; {
		changed = false
		x.par = map[*ssa.Parameter]*bagUse{}
		for _, f := range fs {
			for src, j := range x.sources(f) {
				_ = j
				u := x.flow(f, src)
				for i := range u.rets {
					if x.ret[f] == nil {
						x.ret[f] = map[int]bool{}
					}
					if !x.ret[f][i] {
						x.ret[f][i] = true
						changed = true
					}
				}
			}
		}
	}
	nsrc, oksrc := 0, 0
	var bagf []string
	for _, f := range fs {
		srcs := x.sources(f)
		var vs []ssa.Value
		for v := range srcs {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for i, v := range vs {
			nsrc++
			u := x.flow(f, v)
			if u.bad != nil {
				k.fail(fmt.Sprintf("%s#order.%d", funcKey(f), i+1), funcKey(f), "order", posStr(P, u.bad.Pos()), "the order of a list filled in the order of a table matters here: "+u.why)
			} else {
				oksrc++
			}
		}
		if len(x.ret[f]) > 0 {
			bagf = append(bagf, funcKey(f))
		}
	}
	k.count("order flow", nsrc, oksrc)
	sort.Strings(bagf)
	k.extra["functions_returning_unordered_lists"] = bagf
	// 3. addresses, 4. clocks and threads
	x.text(fs)
	x.sourcesOfChange(fs)
}

func isMapVal(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// ---------------------------------------------------------------- loops over tables

func (x *c04) opts() *Opts {
	P := x.k.P
	o := &Opts{kinds: map[string]bool{"commute": true, "commute-list": true, "order-blind": true, "early-exit": true}, maxDepth: 3,
		inline: func(fr *Frame, cal *ssa.Function) bool { return !P.recursive[cal] && ninstr(cal) < 40 }}
	o.hookCall = func(ex *Exec, fr *Frame, st *State, in ssa.Instruction, cal *ssa.Function, args []*Val, res []*Term) {
		// assume-guarantee: the result is a function of the arguments and what the callee reads
		var as []*Term
		for _, a := range args {
			as = append(as, ex.plain(a))
		}
		for _, rk := range P.readKeys(cal) {
			for _, hk := range ex.keysFor(rk) {
				if srt, ok := ex.keys[hk]; ok {
					as = append(as, ex.heap(st, hk, srt))
				}
			}
		}
		for i, t := range res {
			if !isPtrLike(cal.Signature.Results().At(i).Type()) {
				ex.consts[t.id] = ex.c.App(fmt.Sprintf("det:%s:%d:%d", funcKey(cal), i, len(as)), t.sort, as...)
			}
		}
	}
	o.mapLoop = x.commute
	return o
}

type loopState struct {
	phi  map[*ssa.Phi]*Term
	heap map[string]*Term
	cell map[cellKey]*Term
	cond *Term // the pass goes on to the next key
}

func (x *c04) commute(ex *Exec, r *mapLoopRec) {
	c := ex.c
	fr := r.fr
	pos := r.next.Iter.(*ssa.Range).Pos()
	top := &State{cond: c.True(), heap: map[string]*Term{}, cells: map[cellKey]*Term{}}
	loopBlocks := map[*ssa.BasicBlock]bool{}
	for _, b := range r.l.blocks() {
		loopBlocks[b] = true
	}
	skipHeap := func(k string) bool { return k == "alloc" || strings.HasPrefix(k, "ghost:") }
	nstate := len(r.phis) + len(r.cells)
	for hk := range r.heap {
		if !skipHeap(hk) {
			nstate++
		}
	}
	// leaving the loop early: only with one fixed result and nothing else kept
	var exitRet *ssa.Return
	for _, b := range r.l.blocks() {
		if b == r.l.header {
			continue
		}
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			exitRet = x.exit(ex, fr, top, r, rt, exitRet, nstate)
		}
		for _, s := range b.Succs {
			if loopBlocks[s] {
				continue
			}
			rt, _ := s.Instrs[len(s.Instrs)-1].(*ssa.Return)
			if rt != nil && len(s.Instrs) == 1 {
				exitRet = x.exit(ex, fr, top, r, rt, exitRet, nstate)
				continue
			}
			ex.oblige(fr, top, "early-exit", "", pos, c.Bool(nstate == 0 && x.samePhi(s, loopBlocks)))
		}
	}
	if len(r.backs) == 0 || r.key == nil {
		return
	}
	// constants of the body
	var body []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t.id] {
			return
		}
		seen[t.id] = true
		if len(t.args) == 0 && strings.HasPrefix(t.op, "$") && t.id > r.mark {
			body = append(body, t)
			walk(ex.consts[t.id])
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	nb := len(ex.assumes)
	for _, b := range r.backs {
		walk(b.st.cond)
		for _, p := range r.phis {
			walk(ex.plain(b.next[p]))
		}
		for hk := range r.heap {
			walk(b.st.heap[hk])
		}
		for ck := range r.cells {
			walk(b.st.cells[ck])
		}
	}
	for _, a := range ex.assumes[r.nassume:nb] {
		walk(a)
	}
	sort.Slice(body, func(i, j int) bool { return body[i].id < body[j].id })
	var extra []*Term
	step := func(s loopState, key *Term) loopState {
		m := map[int]*Term{}
		for p, t := range r.at {
			m[t.id] = s.phi[p]
		}
		for hk, t := range r.heap {
			m[t.id] = s.heap[hk]
		}
		for ck, t := range r.cells {
			m[t.id] = s.cell[ck]
		}
		m[r.key.id] = key
		for _, t := range body {
			if _, ok := m[t.id]; ok {
				continue
			}
			switch {
			case t == r.ok:
				m[t.id] = c.True()
			case ex.consts[t.id] != nil:
				m[t.id] = c.subst(ex.consts[t.id], m)
			default:
				m[t.id] = c.Fresh("other", t.sort)
			}
		}
		out := loopState{map[*ssa.Phi]*Term{}, map[string]*Term{}, map[cellKey]*Term{}, c.False()}
		conds := make([]*Term, len(r.backs))
		for i, b := range r.backs {
			conds[i] = c.subst(b.st.cond, m)
			out.cond = c.Or(out.cond, conds[i])
		}
		pick := func(get func(b mapBack) *Term) *Term {
			var t *Term
			for i := len(r.backs) - 1; i >= 0; i-- {
				v := c.subst(get(r.backs[i]), m)
				if t == nil {
					t = v
				} else {
					t = c.Ite(conds[i], v, t)
				}
			}
			return t
		}
		for _, p := range r.phis {
			out.phi[p] = pick(func(b mapBack) *Term { return ex.plain(b.next[p]) })
		}
		for hk := range r.heap {
			out.heap[hk] = pick(func(b mapBack) *Term { return b.st.heap[hk] })
		}
		for ck := range r.cells {
			out.cell[ck] = pick(func(b mapBack) *Term { return b.st.cells[ck] })
		}
		for _, a := range ex.assumes[r.nassume:nb] {
			if s := c.subst(a, m); s != a {
				extra = append(extra, s)
			}
		}
		return out
	}
	s0 := loopState{r.at, r.heap, r.cells, nil}
	k1, k2 := c.Fresh("key1", r.key.sort), c.Fresh("key2", r.key.sort)
	a1 := step(s0, k1)
	a2 := step(a1, k2)
	b1 := step(s0, k2)
	b2 := step(b1, k1)
	// the state where list contents are replaced
	s0x := loopState{map[*ssa.Phi]*Term{}, r.heap, map[cellKey]*Term{}, nil}
	var lens []*Term
	other := func(t *Term, ty types.Type) *Term {
		if !isSliceT(ty) {
			return t
		}
		n := c.Fresh("otherlist", t.sort)
		lens = append(lens, c.Eq(c.SLen(n), c.SLen(t)))
		return n
	}
	for _, p := range r.phis {
		s0x.phi[p] = other(r.at[p], p.Type())
	}
	cellType := func(ck cellKey) types.Type {
		if _, ok := ck.v.(*ssa.Alloc); !ok {
			return ck.v.Type() // a list whose elements are written
		}
		return ck.v.Type().Underlying().(*types.Pointer).Elem()
	}
	var cks []cellKey
	for ck := range r.cells {
		cks = append(cks, ck)
		s0x.cell[ck] = other(r.cells[ck], cellType(ck))
	}
	sort.Slice(cks, func(i, j int) bool { return cks[i].v.Name() < cks[j].v.Name() })
	x1 := step(s0x, k1)
	for _, e := range extra {
		ex.assumes = append(ex.assumes, e)
	}
	ex.assumes = append(ex.assumes, lens...)
	top.cond = c.And(c.Not(c.Eq(k1, k2)), a1.cond, a2.cond, b1.cond, b2.cond)
	// appended part: t = old ++ new
	grown := func(name string, o, t1, t2, u1, u2, ox, tx *Term) {
		i := c.BVar("i!", "Int")
		n, a, b := c.SLen(o), c.Sub(c.SLen(t1), c.SLen(o)), c.Sub(c.SLen(u1), c.SLen(o))
		in := func(m *Term) *Term { return c.And(c.Le(c.Int(0), i), c.Lt(i, m)) }
		all := func(b *Term) *Term { return c.Forall([]*Term{i}, b) }
		pre := func(t *Term) *Term { return all(c.Implies(in(n), c.Eq(c.SGet(t, i), c.SGet(o, i)))) }
		ex.oblige(fr, top, "commute-list", name, pos, c.And(
			c.Le(c.Int(0), a), c.Le(c.Int(0), b),
			c.Eq(c.SLen(t2), c.Add(n, c.Add(a, b))), c.Eq(c.SLen(u2), c.Add(n, c.Add(a, b))),
			pre(t2), pre(u2),
			all(c.Implies(in(a), c.Eq(c.SGet(t2, c.Add(n, i)), c.SGet(u2, c.Add(c.Add(n, b), i))))),
			all(c.Implies(in(b), c.Eq(c.SGet(t2, c.Add(c.Add(n, a), i)), c.SGet(u2, c.Add(n, i)))))))
		ex.oblige(fr, top, "order-blind", name, pos, c.And(
			c.Eq(c.SLen(tx), c.SLen(t1)), all(c.Implies(c.And(c.Le(n, i), c.Lt(i, c.SLen(t1))), c.Eq(c.SGet(tx, i), c.SGet(t1, i))))))
	}
	// written at a counter: the two passes exchange the elements at its two values
	written := func(name string, o, t1, t2, u2, ox, tx *Term) {
		i := c.BVar("i!", "Int")
		in := c.And(c.Le(c.Int(0), i), c.Lt(i, c.SLen(o)))
		alts := []*Term{c.Forall([]*Term{i}, c.Implies(in, c.Eq(c.SGet(t2, i), c.SGet(u2, i))))}
		for _, p := range r.phis {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				a, b := r.at[p], a1.phi[p]
				alts = append(alts, c.And(c.Eq(c.SGet(t2, a), c.SGet(u2, b)), c.Eq(c.SGet(t2, b), c.SGet(u2, a)),
					c.Forall([]*Term{i}, c.Implies(c.And(in, c.Not(c.Eq(i, a)), c.Not(c.Eq(i, b))), c.Eq(c.SGet(t2, i), c.SGet(u2, i))))))
			}
		}
		ex.oblige(fr, top, "commute-list", name, pos, c.And(c.Eq(c.SLen(t2), c.SLen(o)), c.Eq(c.SLen(u2), c.SLen(o)), c.Or(alts...)))
		ex.oblige(fr, top, "order-blind", name, pos, c.Forall([]*Term{i}, c.Implies(in, c.Or(c.Eq(c.SGet(tx, i), c.SGet(t1, i)),
			c.And(c.Eq(c.SGet(t1, i), c.SGet(o, i)), c.Eq(c.SGet(tx, i), c.SGet(ox, i)))))))
	}
	same := func(name string, t1, t2, u2, tx *Term) {
		ex.oblige(fr, top, "commute", name, pos, c.Eq(t2, u2))
		ex.oblige(fr, top, "order-blind", name, pos, c.Eq(t1, tx))
	}
	for _, p := range r.phis {
		if isSliceT(p.Type()) {
			grown(p.Comment, r.at[p], a1.phi[p], a2.phi[p], b1.phi[p], b2.phi[p], s0x.phi[p], x1.phi[p])
		} else {
			same(p.Comment, a1.phi[p], a2.phi[p], b2.phi[p], x1.phi[p])
		}
	}
	for _, ck := range cks {
		nm := ck.v.Name()
		al, isAlloc := ck.v.(*ssa.Alloc)
		if isAlloc {
			nm = al.Comment
		}
		if !isAlloc {
			written(nm, r.cells[ck], a1.cell[ck], a2.cell[ck], b2.cell[ck], s0x.cell[ck], x1.cell[ck])
		} else if isSliceT(cellType(ck)) {
			grown(nm, r.cells[ck], a1.cell[ck], a2.cell[ck], b1.cell[ck], b2.cell[ck], s0x.cell[ck], x1.cell[ck])
		} else {
			same(nm, a1.cell[ck], a2.cell[ck], b2.cell[ck], x1.cell[ck])
		}
	}
	for _, hk := range sortedKeysG(r.heap) {
		if !skipHeap(hk) {
			same(hk, a1.heap[hk], a2.heap[hk], b2.heap[hk], x1.heap[hk])
		}
	}
	ex.oblige(fr, top, "order-blind", "continues", pos, c.Eq(a1.cond, x1.cond))
}

// exit: a return inside the loop gives the same constants as every other one.
func (x *c04) exit(ex *Exec, fr *Frame, top *State, r *mapLoopRec, rt, before *ssa.Return, nstate int) *ssa.Return {
	ok := nstate == 0
	for i, v := range rt.Results {
		switch v := v.(type) {
		case *ssa.Const:
			if before != nil {
				w, isc := before.Results[i].(*ssa.Const)
				ok = ok && isc && w.String() == v.String()
			}
		default:
			if in, isin := v.(ssa.Instruction); isin && in.Block() != nil {
				for _, b := range r.l.blocks() {
					if b == in.Block() {
						ok = false
					}
				}
			}
			ok = ok && (before == nil || before.Results[i] == v)
		}
	}
	ex.oblige(fr, top, "early-exit", "", rt.Pos(), ex.c.Bool(ok))
	return rt
}

// samePhi: every way out of the loop early carries the same constants.
func (x *c04) samePhi(s *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool) bool {
	for _, in := range s.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		first := ""
		for i, p := range s.Preds {
			if !loop[p] || len(p.Succs) == 0 {
				continue
			}
			cst, isc := ph.Edges[i].(*ssa.Const)
			if _, isNext := mapNextOf(p); isNext {
				continue
			}
			if !isc || (first != "" && first != cst.String()) {
				return false
			}
			first = cst.String()
		}
	}
	return true
}

func mapNextOf(b *ssa.BasicBlock) (*ssa.Next, bool) {
	for _, in := range b.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			return n, true
		}
	}
	return nil, false
}

// ---------------------------------------------------------------- unordered lists

// sources lists where unordered lists come from in one function.
func (x *c04) sources(f *ssa.Function) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		nx, isMap := mapNextOf(b)
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Phi:
				if isMap && isSliceT(v.Type()) {
					out[v] = true
				}
			case *ssa.Call:
				cal := v.Call.StaticCallee()
				if cal == nil {
					continue
				}
				if inRepo(cal) {
					if x.ret[cal][0] && cal.Signature.Results().Len() == 1 {
						out[v] = true
					}
				} else if n := generic(cal); n == "maps.Keys" || n == "maps.Values" || n == "maps.All" || n == "reflect.MapKeys" {
					out[v] = true
				}
			case *ssa.Extract:
				if cl, ok := v.Tuple.(*ssa.Call); ok {
					if cal := cl.Call.StaticCallee(); cal != nil && x.ret[cal][v.Index] {
						out[v] = true
					}
				}
			}
		}
		if isMap {
			// variables captured by a closure
			for _, l := range loopsOf(f) {
				if l.header != nx.Block() {
					continue
				}
				for _, lb := range l.blocks() {
					for _, in := range lb.Instrs {
						if st, ok := in.(*ssa.Store); ok {
							if ia, ok := st.Addr.(*ssa.IndexAddr); ok && isSliceT(ia.X.Type()) {
								out[ia.X] = true
							}
							if a, ok := st.Addr.(*ssa.Alloc); ok && isSliceT(a.Type().Underlying().(*types.Pointer).Elem()) {
								out[a] = true
							}
						}
					}
				}
			}
		}
	}
	return out
}

// generic is the package and name of a library function, without type arguments.
func generic(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		return f.Name()
	}
	return f.Pkg.Pkg.Path() + "." + f.Name()
}

// flow follows one unordered list through the function.
func (x *c04) flow(f *ssa.Function, src ssa.Value) *bagUse {
	out := &bagUse{rets: map[int]bool{}}
	// values that are the list
	is := map[ssa.Value]bool{src: true}
	work := []ssa.Value{src}
	push := func(v ssa.Value) {
		if !is[v] {
			is[v] = true
			work = append(work, v)
		}
	}
	var sorts []ssa.Instruction
	type use struct {
		in  ssa.Instruction
		why string
		ret int
	}
	var uses []use
	var writes []ssa.Instruction
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		_, isCellV := v.(*ssa.Alloc)
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				push(u)
			case *ssa.ChangeType:
				push(u)
			case *ssa.MakeInterface:
				push(u)
			case *ssa.Slice:
				if !isCellV {
					uses = append(uses, use{u, "a part of it is taken", -1})
				}
			case *ssa.BinOp: // comparison with nil
			case *ssa.Store:
				if u.Val == v {
					if a, ok := u.Addr.(*ssa.Alloc); ok && !cellEscapes(a) {
						push(a)
						continue
					}
					uses = append(uses, use{u, "it is stored", -1})
				}
			case *ssa.IndexAddr:
				reads := false
				for _, e := range *u.Referrers() {
					if st, ok := e.(*ssa.Store); !ok || st.Addr != u {
						reads = true
					}
				}
				if reads {
					uses = append(uses, use{u, "its elements are read in this order", -1})
				} else {
					writes = append(writes, u)
				}
			case *ssa.UnOp:
				if isCellV && u.Op == token.MUL {
					push(u)
					continue
				}
				uses = append(uses, use{u, "it is read", -1})
			case *ssa.MakeClosure:
				if !closureSorts(u) {
					uses = append(uses, use{u, "a function uses it", -1})
				}
			case *ssa.Return:
				for i, e := range u.Results {
					if e == v {
						uses = append(uses, use{u, "", i})
					}
				}
			case *ssa.Call:
				x.callUse(u, v, push, func(why string) { uses = append(uses, use{u, why, -1}) }, func() { sorts = append(sorts, u) }, func(i int) {
					if u.Call.Signature().Results().Len() == 1 {
						push(u)
						return
					}
					for _, e := range *u.Referrers() {
						if ex, ok := e.(*ssa.Extract); ok && ex.Index == i {
							push(ex)
						}
					}
				})
			default:
				uses = append(uses, use{r, "its elements are read in this order", -1})
			}
		}
	}
	before := func(a, b ssa.Instruction) bool {
		if a.Block() == b.Block() {
			for _, in := range a.Block().Instrs {
				if in == a {
					return true
				}
				if in == b {
					return false
				}
			}
		}
		return a.Block().Dominates(b.Block())
	}
	// growing after sorting makes it unordered again
	grow := writes
	for v := range is {
		if cl, ok := v.(*ssa.Call); ok {
			if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				grow = append(grow, cl)
			}
		}
	}
	reaches := func(a, b ssa.Instruction) bool { return instrReaches(a, b) }
	sortedAt := func(u ssa.Instruction) bool {
		for _, s := range sorts {
			if !before(s, u) {
				continue
			}
			again := false
			for _, g := range grow {
				if reaches(s, g) && reaches(g, u) {
					again = true
				}
			}
			if !again {
				return true
			}
		}
		return false
	}
	for _, u := range uses {
		if sortedAt(u.in) {
			continue
		}
		if u.ret >= 0 {
			out.rets[u.ret] = true
			continue
		}
		if out.bad == nil || u.in.Pos() < out.bad.Pos() {
			out.bad, out.why = u.in, u.why
		}
	}
	out.sorted = true
	nret := 0
	for _, b := range f.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			nret++
			if !sortedAt(rt) {
				out.sorted = false
			}
		}
	}
	return out
}

func instrReaches(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a && a != b {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if rec(s) {
					return true
				}
			}
		}
		return false
	}
	return rec(a.Block())
}

// callUse says what a call does with the unordered list v.
func (x *c04) callUse(u *ssa.Call, v ssa.Value, push func(ssa.Value), bad func(string), sorts func(), result func(int)) {
	cc := &u.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			push(u)
		case "len", "cap":
		default:
			bad("builtin " + b.Name())
		}
		return
	}
	cal := cc.StaticCallee()
	if cal == nil {
		bad("it is passed to a function value")
		return
	}
	if !inRepo(cal) {
		elemStr := false
		if sl, ok := v.Type().Underlying().(*types.Slice); ok {
			bt, isb := sl.Elem().Underlying().(*types.Basic)
			elemStr = isb && bt.Kind() != types.UnsafePointer
		}
		switch generic(cal) {
		case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
			sorts()
		case "slices.Sorted":
		case "slices.Collect":
			push(u)
		case "slices.AppendSeq":
			push(u)
		case "sort.Sort", "sort.Stable":
			if mi, ok := v.(*ssa.MakeInterface); ok {
				if n := mi.X.Type().String(); n == "sort.StringSlice" || n == "sort.IntSlice" {
					sorts()
					return
				}
			}
			bad("sorted by an order of its own")
		case "sort.Slice", "sort.SliceStable":
			if mi, ok := v.(*ssa.MakeInterface); ok && plainLess(cc.Args[1], mi.X) {
				sorts()
				return
			}
			bad("sorted by an order that may leave elements in place")
		case "slices.SortFunc", "slices.SortStableFunc":
			if fn, ok := cc.Args[1].(*ssa.Function); ok && elemStr {
				if g := generic(fn); g == "strings.Compare" || g == "cmp.Compare" {
					sorts()
					return
				}
			}
			bad("sorted by an order that may leave elements in place")
		default:
			bad("it is passed to " + generic(cal))
		}
		return
	}
	for i, a := range cc.Args {
		if a != v || i >= len(cal.Params) {
			continue
		}
		p := cal.Params[i]
		s := x.par[p]
		if s == nil {
			x.par[p] = &bagUse{busy: true, bad: u, why: "recursive use", rets: map[int]bool{}}
			s = x.flow(cal, p)
			x.par[p] = s
		}
		if s.bad != nil {
			bad("passed to " + cal.Name() + ", where " + s.why)
		} else if s.sorted {
			sorts()
		} else {
			for j := range s.rets {
				result(j)
			}
		}
	}
}

// plainLess: the closure compares two elements of the list with <, and the
// elements are strings or numbers, so that equal elements are the same.
func plainLess(v ssa.Value, list ssa.Value) bool {
	mc, ok := v.(*ssa.MakeClosure)
	if !ok {
		return false
	}
	sl, ok := list.Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	if _, ok := sl.Elem().Underlying().(*types.Basic); !ok {
		return false
	}
	fn := mc.Fn.(*ssa.Function)
	if len(fn.Blocks) != 1 || len(fn.Params) != 2 {
		return false
	}
	rt, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok {
		return false
	}
	cmp, ok := rt.Results[0].(*ssa.BinOp)
	if !ok || (cmp.Op != token.LSS && cmp.Op != token.GTR) {
		return false
	}
	elem := func(v ssa.Value) ssa.Value {
		ld, ok := v.(*ssa.UnOp)
		if !ok {
			return nil
		}
		ia, ok := ld.X.(*ssa.IndexAddr)
		if !ok {
			return nil
		}
		return ia.Index
	}
	a, b := elem(cmp.X), elem(cmp.Y)
	return a != nil && b != nil && a != b
}

// closureSorts: the closure is only the order of a sort.
func closureSorts(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			cal := u.Call.StaticCallee()
			if cal == nil || inRepo(cal) {
				return false
			}
			if p := generic(cal); p != "sort.Slice" && p != "sort.SliceStable" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- addresses as text

// holdsRef: the printed form of a value of the type shows an address.
func holdsRef(t types.Type, depth int, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, m := range []string{"Error", "String"} {
		for _, tt := range []types.Type{t} {
			ms := types.NewMethodSet(tt)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == m {
					return false
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
	case *types.Pointer:
		if depth > 0 {
			return true
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			return holdsRef(u.Elem(), depth+1, seen)
		}
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsRef(u.Field(i).Type(), depth+1, seen) {
				return true
			}
		}
	case *types.Slice:
		return holdsRef(u.Elem(), depth+1, seen)
	case *types.Array:
		return holdsRef(u.Elem(), depth+1, seen)
	case *types.Map:
		return holdsRef(u.Key(), depth+1, seen) || holdsRef(u.Elem(), depth+1, seen)
	case *types.Chan, *types.Signature:
		return true
	}
	return false
}

// text: the values that reach the formatting functions hold no reference. A
// parameter or list of any type that reaches them passes the demand to callers.
func (x *c04) text(fs []*ssa.Function) {
	k, P := x.k, x.k.P
	demand := map[*ssa.Parameter]bool{}
	var check func(f *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) (bad ssa.Value, grew bool)
	check = func(f *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) (ssa.Value, bool) {
		if v == nil || seen[v] {
			return nil, false
		}
		seen[v] = true
		if _, isI := v.Type().Underlying().(*types.Interface); !isI {
			if sl, ok := v.Type().Underlying().(*types.Slice); !ok || !types.IsInterface(sl.Elem()) {
				if _, isPtr := v.Type().Underlying().(*types.Pointer); !isPtr || !isArrayPtr(v.Type()) {
					if holdsRef(v.Type(), 0, map[types.Type]bool{}) {
						return v, false
					}
					return nil, false
				}
			}
		}
		multi := func(vs ...ssa.Value) (ssa.Value, bool) {
			g := false
			for _, w := range vs {
				b, gr := check(f, w, seen)
				g = g || gr
				if b != nil {
					return b, g
				}
			}
			return nil, g
		}
		switch u := v.(type) {
		case *ssa.MakeInterface:
			return multi(u.X)
		case *ssa.ChangeInterface:
			return multi(u.X)
		case *ssa.ChangeType:
			return multi(u.X)
		case *ssa.Const:
			return nil, false
		case *ssa.Phi:
			return multi(u.Edges...)
		case *ssa.Slice:
			return multi(u.X)
		case *ssa.Alloc:
			// the array of a variadic call
			var vs []ssa.Value
			for _, r := range *u.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, s := range *ia.Referrers() {
						if st, ok := s.(*ssa.Store); ok {
							vs = append(vs, st.Val)
						}
					}
				}
			}
			return multi(vs...)
		case *ssa.UnOp:
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				return multi(ia.X)
			}
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return multi(u.Call.Args...)
			}
			if types.Implements(u.Type(), errorIface) {
				return nil, false
			}
		case *ssa.Extract:
			if types.Implements(u.Type(), errorIface) {
				return nil, false
			}
			if nx, ok := u.Tuple.(*ssa.Next); ok {
				return multi(nx.Iter.(*ssa.Range).X)
			}
		case *ssa.Parameter:
			if !demand[u] {
				demand[u] = true
				return nil, true
			}
			return nil, false
		}
		if types.Implements(v.Type(), errorIface) {
			return nil, false
		}
		return v, false
	}
	printed := func(cal *ssa.Function, n int) []int {
		if cal == nil {
			return nil
		}
		var out []int
		if !inRepo(cal) {
			if cal.Pkg != nil && (cal.Pkg.Pkg.Path() == "fmt" || cal.Pkg.Pkg.Path() == "log") && !strings.Contains(cal.Name(), "can") {
				for i := 0; i < n; i++ {
					t := cal.Signature.Params()
					if i < t.Len() && !strings.Contains(t.At(i).Type().String(), "io.") {
						out = append(out, i)
					}
				}
			}
			return out
		}
		for i, p := range cal.Params {
			if demand[p] {
				out = append(out, i)
			}
		}
		return out
	}
	pass := func(report bool) bool {
		grew := false
		n, ok := 0, 0
		for _, f := range fs {
			cnt := 0
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, isc := in.(ssa.CallInstruction)
					if !isc {
						continue
					}
					cc := ci.Common()
					for _, i := range printed(cc.StaticCallee(), len(cc.Args)) {
						bad, g := check(f, cc.Args[i], map[ssa.Value]bool{})
						grew = grew || g
						n++
						cnt++
						if bad == nil {
							ok++
						} else if report {
							k.fail(fmt.Sprintf("%s#address.%d", funcKey(f), cnt), funcKey(f), "address", posStr(P, in.Pos()), "the printed form of a value of type "+bad.Type().String()+" shows memory addresses")
						}
					}
				}
			}
		}
		if report {
			k.count("type flow", n, ok)
		}
		return grew
	}
	for pass(false) {
	}
	pass(true)
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// sourcesOfChange: clocks, random numbers, process data, threads, addresses as numbers.
func (x *c04) sourcesOfChange(fs []*ssa.Function) {
	k, P := x.k, x.k.P
	n, ok := 0, 0
	for _, f := range fs {
		cnt := 0
		bad := func(in ssa.Instruction, why string) {
			cnt++
			k.fail(fmt.Sprintf("%s#outside.%d", funcKey(f), cnt), funcKey(f), "outside", posStr(P, in.Pos()), why)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch u := in.(type) {
				case *ssa.Go:
					n++
					bad(in, "starts a thread")
				case *ssa.Select:
					n++
					bad(in, "takes whichever communication is ready first")
				case *ssa.Convert:
					if bt, isb := u.X.Type().Underlying().(*types.Basic); isb && bt.Kind() == types.UnsafePointer {
						n++
						bad(in, "uses an address as a number")
					}
				case ssa.CallInstruction:
					cal := u.Common().StaticCallee()
					if cal == nil || inRepo(cal) {
						continue
					}
					n++
					if w := differs(cal); w != "" {
						bad(in, "uses "+w)
					} else {
						ok++
					}
				}
			}
		}
	}
	k.count("library use", n, ok)
}

func c04Search(k *Run, f *Failure) string {
	return k.once("repeat", func() string { return k.scenario("repeat", 200*time.Second) })
}
