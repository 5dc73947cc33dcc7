package main

import (
	"cmp"
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortedKeysG[K cmp.Ordered, V any](m map[K]V) []K {
	var out []K
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return out
}

func (l *loopInfo) blocks() []*ssa.BasicBlock {
	var bs []*ssa.BasicBlock
	for b := range l.body {
		bs = append(bs, b)
	}
	slices.SortFunc(bs, func(a, b *ssa.BasicBlock) int { return cmp.Compare(a.Index, b.Index) })
	return bs
}

func inLoop(l *loopInfo, v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() != nil && l.body[in.Block()]
}

// loopWrites lists what the loop body may write: per key the base values defined
// outside the loop, and whether other pre-existing objects may be written.
type loopWrite struct {
	bases map[ssa.Value]bool
	any   bool // arbitrary objects
	local bool // objects created since the function was entered
}

func (ex *Exec) loopWrites(fr *Frame, l *loopInfo) map[string]*loopWrite {
	out := map[string]*loopWrite{}
	get := func(k string) *loopWrite {
		if out[k] == nil {
			out[k] = &loopWrite{bases: map[ssa.Value]bool{}}
		}
		return out[k]
	}
	P := ex.P
	add := func(k string, base ssa.Value) {
		w := get(k)
		if base == nil {
			w.any = true
			return
		}
		seen := map[ssa.Value]bool{}
		var rec func(v ssa.Value)
		rec = func(v ssa.Value) {
			if seen[v] {
				return
			}
			seen[v] = true
			if !inLoop(l, v) {
				w.bases[v] = true
				return
			}
			switch x := v.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.Const:
			case *ssa.Phi:
				for _, e := range x.Edges {
					rec(e)
				}
			case *ssa.ChangeType:
				rec(x.X)
			case *ssa.Call, *ssa.Extract:
				idx := 0
				var cl *ssa.Call
				if e, ok := x.(*ssa.Extract); ok {
					cl, _ = e.Tuple.(*ssa.Call)
					idx = e.Index
				} else {
					cl = x.(*ssa.Call)
				}
				if cl != nil {
					if cal := cl.Call.StaticCallee(); cal != nil && inRepo(cal) && P.eff[cal] != nil {
						for o := range P.eff[cal].rets[idx] {
							switch {
							case o >= 0:
								rec(cl.Call.Args[o])
							case o == oAny:
								w.any = true
							}
						}
						return
					}
				}
				w.any = true
			default:
				w.any = true
			}
		}
		rec(base)
		if w.any {
			// is it limited to objects created by this activation?
			os := P.originOf(fr.fn, base)
			if len(os) == 1 && os[oFresh] {
				w.local = true
			}
		}
	}
	for _, b := range l.blocks() {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				ex.storeBases(fr, x.Addr, add)
			case *ssa.MapUpdate:
				add(mapKey(x.Map.Type()), x.Map)
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					if bi.Name() == "delete" {
						add(mapKey(cc.Args[0].Type()), cc.Args[0])
					}
					continue
				}
				cal := cc.StaticCallee()
				if cal != nil && inRepo(cal) && P.eff[cal] != nil {
					for e := range P.eff[cal].mods {
						if e.tgt < 0 {
							add(e.key, nil)
						} else {
							add(e.key, cc.Args[e.tgt])
						}
					}
					continue
				}
				for _, e := range P.callEffects(fr.fn, cc) {
					add(e.key, nil)
				}
				if cal != nil && cal.String() == "maps.Copy" {
					add(mapKey(cc.Args[0].Type()), cc.Args[0])
				}
			case *ssa.MakeClosure:
				for e := range P.eff[x.Fn.(*ssa.Function)].mods {
					add(e.key, nil)
				}
			}
		}
	}
	return out
}

func (ex *Exec) storeBases(fr *Frame, addr ssa.Value, add func(string, ssa.Value)) {
	switch x := addr.(type) {
	case *ssa.Global:
		add(globalKey(x), nil)
		return
	case *ssa.Alloc:
		if isCell(x) {
			return
		}
	case *ssa.IndexAddr:
		if isArrayPtr(x.X.Type()) {
			ex.storeBases(fr, x.X, add)
			return
		}
		if ld, ok := x.X.(*ssa.UnOp); ok && ld.Op == token.MUL {
			ex.storeBases(fr, ld.X, add)
		}
		return
	case *ssa.FieldAddr:
		root := addrRoot(x)
		if a, ok := root.(*ssa.Alloc); ok && isCell(a) {
			return
		}
		if ia, ok := root.(*ssa.IndexAddr); ok {
			ex.storeBases(fr, ia, add)
			return
		}
		fa := x
		for {
			if in, ok := fa.X.(*ssa.FieldAddr); ok {
				fa = in
				continue
			}
			break
		}
		if g, ok := fa.X.(*ssa.Global); ok {
			add(globalKey(g), nil)
			return
		}
		st, nt := structOf(fa.X.Type())
		if nt != nil {
			add(fieldKey(nt, st.Field(fa.Field).Name()), fa.X)
		}
		return
	}
	st, nt := structOf(addr.Type())
	if st != nil && nt != nil {
		for i := 0; i < st.NumFields(); i++ {
			add(fieldKey(nt, st.Field(i).Name()), addr)
		}
		return
	}
	add("p:"+shortTypes(addr.Type().Underlying().(*types.Pointer).Elem().String()), nil)
}

// loopHavoc forgets everything the loop body may change.
func (ex *Exec) loopHavoc(fr *Frame, l *loopInfo, st *State) {
	c := ex.c
	ws := ex.loopWrites(fr, l)
	for _, k := range sortedKeysG(ws) {
		w := ws[k]
		for _, hk := range ex.keysFor(k) {
			srt, ok := ex.keys[hk]
			if !ok {
				continue
			}
			h := ex.heap(st, hk, srt)
			switch {
			case strings.HasPrefix(hk, "g:"):
				st.heap[hk] = c.Fresh("L."+sanitize(hk), srt)
			case w.any:
				nh := c.Fresh("L."+sanitize(hk), srt)
				st.heap[hk] = nh
				if w.local && fr.entry != nil {
					r := c.BVar("r!", "Int")
					ex.assume(st, c.Forall([]*Term{r}, c.Implies(c.Le(r, fr.entry.heap["alloc"]), c.Eq(c.Select(nh, r), c.Select(h, r))), c.Select(nh, r)))
				}
			default:
				var bs []ssa.Value
				for b := range w.bases {
					bs = append(bs, b)
				}
				slices.SortFunc(bs, func(a, b ssa.Value) int { return cmp.Compare(a.Name(), b.Name()) })
				for _, b := range bs {
					if cst, ok := b.(*ssa.Const); ok && cst.Value == nil {
						continue
					}
					bv := ex.val(fr, st, b)
					if bv.t == nil {
						continue
					}
					st.heap[hk] = c.Store(st.heap[hk], bv.t, c.Fresh("Lb."+sanitize(hk), arrElem(srt)))
				}
			}
		}
	}
	// local variables and slices whose elements are assigned
	done := map[cellKey]bool{}
	hv := func(k cellKey, f func(old *Term) *Term) {
		if done[k] {
			return
		}
		done[k] = true
		if old, ok := st.cells[k]; ok {
			st.cells[k] = f(old)
		}
	}
	for _, b := range l.blocks() {
		for _, in := range b.Instrs {
			var addr ssa.Value
			if s, ok := in.(*ssa.Store); ok {
				addr = s.Addr
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				cc := ci.Common()
				for _, a := range cc.Args {
					if isBuilderPtr(a.Type()) {
						addr = a
						if al, ok := addrRoot(addr).(*ssa.Alloc); ok {
							hv(cellKey{fr.id, al}, func(old *Term) *Term { return c.Fresh("cell", old.sort) })
						}
						addr = nil
					}
				}
				if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "copy" {
					ex.havocSliceReg(fr, l, st, cc.Args[0])
				}
				if cal := cc.StaticCallee(); cal != nil && (cal.String() == "sort.Strings" || strings.HasPrefix(cal.String(), "slices.Sort")) {
					ex.havocSliceReg(fr, l, st, cc.Args[0])
				}
			}
			if addr == nil {
				continue
			}
			root := addrRoot(addr)
			switch x := root.(type) {
			case *ssa.Alloc:
				if isCell(x) && !inLoop(l, x) {
					hv(cellKey{fr.id, x}, func(old *Term) *Term { return c.Fresh("cell", old.sort) })
				}
			case *ssa.IndexAddr:
				ex.havocSliceReg(fr, l, st, x.X)
			}
		}
	}
	for _, hk := range sortedKeysG(ex.keys) {
		if strings.HasPrefix(hk, "ghost:") {
			if strings.HasPrefix(hk, "ghost:visited:") {
				mine := false
				for _, b := range l.blocks() {
					for _, in := range b.Instrs {
						if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
							if hk == fmt.Sprintf("ghost:visited:%d:%s", fr.id, nx.Iter.Name()) {
								mine = true
							}
						}
					}
				}
				if !mine {
					continue
				}
			}
			st.heap[hk] = c.Fresh("G."+sanitize(hk), ex.keys[hk])
		}
	}
	na := c.Fresh("alloc", "Int")
	ex.assume(st, c.Le(ex.heap(st, "alloc", "Int"), na))
	st.heap["alloc"] = na
}

func (ex *Exec) havocSliceReg(fr *Frame, l *loopInfo, st *State, v ssa.Value) {
	if inLoop(l, v) {
		if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			_ = ld // the source field is havocked through loopWrites
		}
		return
	}
	c := ex.c
	cur := ex.val(fr, st, v)
	if cur.t == nil || !isSliceSort(cur.t.sort) {
		return
	}
	st.cells[cellKey{fr.id, v}] = c.MkSlice(c.Fresh("hs", c.SArr(cur.t).sort), c.SLen(cur.t))
}

// ---------------------------------------------------------------- invariant candidates

type candInst struct {
	cand *Cand
	here *Term
	gen  func(get func(*ssa.Phi) *Term, st *State) *Term
}

func (ci *candInst) at(ex *Exec, st *State, next map[*ssa.Phi]*Val) *Term {
	return ci.gen(func(p *ssa.Phi) *Term {
		if v, ok := next[p]; ok {
			return ex.plain(v)
		}
		return nil
	}, st)
}

// evalAt recomputes a register's value from the header state, if it is a pure
// expression over header phis and loop-invariant values.
func (ex *Exec) evalAt(fr *Frame, l *loopInfo, st *State, v ssa.Value, get func(*ssa.Phi) *Term, depth int) *Term {
	if depth > 6 {
		return nil
	}
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.header {
		return get(ph)
	}
	if !inLoop(l, v) {
		if _, ok := fr.vals[v]; !ok {
			switch v.(type) {
			case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.FreeVar:
			default:
				return nil
			}
		}
		x := ex.val(fr, st, v)
		return x.t
	}
	c := ex.c
	rec := func(v ssa.Value) *Term { return ex.evalAt(fr, l, st, v, get, depth+1) }
	switch x := v.(type) {
	case *ssa.BinOp:
		a, b := rec(x.X), rec(x.Y)
		if a == nil || b == nil || a.sort != "Int" || b.sort != "Int" {
			return nil
		}
		switch x.Op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a := rec(x.Call.Args[0])
			if a == nil {
				return nil
			}
			if isSliceSort(a.sort) {
				return c.SLen(a)
			}
			if a.sort == c.StrSort() {
				return c.StrLen(a)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch y := x.X.(type) {
			case *ssa.FieldAddr:
				b := rec(y.X)
				sct, nt := structOf(y.X.Type())
				if b == nil || nt == nil || b.sort != "Int" {
					return nil
				}
				k := fieldKey(nt, sct.Field(y.Field).Name())
				return c.Select(ex.heap(st, k, "(Array Int "+c.sortOf(sct.Field(y.Field).Type())+")"), b)
			case *ssa.Global:
				el := y.Type().Underlying().(*types.Pointer).Elem()
				return ex.heap(st, globalKey(y), c.sortOf(el))
			case *ssa.Alloc:
				if isCell(y) && !inLoop(l, y) {
					return st.cells[cellKey{fr.id, y}]
				}
			}
		}
	}
	return nil
}

func (ex *Exec) candidates(fr *Frame, l *loopInfo, entry, st *State, entryPhis map[*ssa.Phi]*Val) []*candInst {
	c := ex.c
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, ok := entryPhis[ph]; ok {
			phis = append(phis, ph)
		}
	}
	var out []*candInst
	here := func(p *ssa.Phi) *Term { return ex.plain(fr.vals[p]) }
	init := func(p *ssa.Phi) *Term { return ex.plain(entryPhis[p]) }
	seen := map[int]bool{}
	addc := func(name string, gen func(get func(*ssa.Phi) *Term, st *State) *Term) {
		h := gen(here, st)
		if h == nil || h.op == "true" || h.op == "false" || seen[h.id] {
			return
		}
		seen[h.id] = true
		g := gen(init, entry)
		if g == nil || g.op == "false" {
			return
		}
		nm := fmt.Sprintf("%s@%s.b%d:%s", fr.fn.Name(), fr.path, l.header.Index, name)
		cd := &Cand{name: nm, sel: c.Fresh("inv", "Bool")}
		ex.cands = append(ex.cands, cd)
		ci := &candInst{cand: cd, here: h, gen: gen}
		out = append(out, ci)
		if g.op != "true" {
			ex.obls = append(ex.obls, &Obl{name: "inv-init:" + nm, kind: "houdini", cond: entry.cond, goal: g, nassume: len(ex.assumes), cand: cd})
		}
	}
	if ex.o.autoInv {
		ex.autoCands(fr, l, entry, phis, init, addc)
	}
	if ex.o.extraCands != nil {
		ex.o.extraCands(ex, fr, l, entry, phis, init, addc)
	}
	if ex.rootContract != nil {
		ex.templateCands(fr, l, phis, addc)
	}
	return out
}

type genFn = func(get func(*ssa.Phi) *Term, st *State) *Term

func (ex *Exec) autoCands(fr *Frame, l *loopInfo, entry *State, phis []*ssa.Phi, init func(*ssa.Phi) *Term, addc func(string, genFn)) {
	c := ex.c
	var ints, slcs []*ssa.Phi
	for _, p := range phis {
		switch s := c.sortOf(p.Type()); {
		case s == "Int" && !isPtrLike(p.Type()):
			ints = append(ints, p)
		case isSliceSort(s):
			slcs = append(slcs, p)
		case s == "Int":
			p := p
			addc("nonnil "+p.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Lt(c.Int(0), get(p)) })
			if fr.entry != nil {
				a0 := fr.entry.heap["alloc"]
				addc("new "+p.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Lt(a0, get(p)) })
			}
		}
	}
	for _, p := range ints {
		p := p
		e0 := init(p)
		addc("ge-entry "+p.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Le(e0, get(p)) })
		addc("le-entry "+p.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Le(get(p), e0) })
		addc("ge0 "+p.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Le(c.Int(0), get(p)) })
		addc("ge-1 "+p.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Le(c.Int(-1), get(p)) })
		for _, q := range ints {
			q := q
			if p == q {
				continue
			}
			d := c.Sub(e0, init(q))
			if p.Name() < q.Name() {
				addc("diff "+p.Comment+" "+q.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term {
					return c.Eq(c.Sub(get(p), get(q)), d)
				})
			}
			addc("le "+p.Comment+" "+q.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Le(get(p), get(q)) })
			addc("le1 "+p.Comment+" "+q.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Le(get(p), c.Add(get(q), c.Int(1))) })
		}
	}
	// comparisons in the loop against loop-invariant bounds
	for _, b := range l.blocks() {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			if c.sortOf(bo.X.Type()) != "Int" || isPtrLike(bo.X.Type()) {
				continue
			}
			for _, p := range ints {
				for _, side := range []ssa.Value{bo.X, bo.Y} {
					side, p := side, p
					for _, k := range []int64{0, -1, 1} {
						k := k
						addc(fmt.Sprintf("le %s bound%+d", p.Comment, k), func(get func(*ssa.Phi) *Term, st *State) *Term {
							v := ex.evalAt(fr, l, st, side, get, 0)
							if v == nil {
								return nil
							}
							if b, _ := splitOff(v); b == get(p) {
								return nil
							}
							return c.Le(get(p), c.Add(v, c.Int(k)))
						})
					}
				}
			}
		}
	}
	// positions in strings and slices that are cut in the loop
	for _, b := range l.blocks() {
		for _, in := range b.Instrs {
			sl, ok := in.(*ssa.Slice)
			if !ok || isArrayPtr(sl.X.Type()) {
				continue
			}
			for _, p := range ints {
				p := p
				addc("le "+p.Comment+" len", func(get func(*ssa.Phi) *Term, st *State) *Term {
					v := ex.evalAt(fr, l, st, sl.X, get, 0)
					if v == nil {
						return nil
					}
					if isSliceSort(v.sort) {
						return c.Le(get(p), c.SLen(v))
					}
					if v.sort == c.StrSort() {
						return c.Le(get(p), c.StrLen(v))
					}
					return nil
				})
			}
		}
	}
	if ex.o.typeInv {
		for _, p := range phis {
			p := p
			addc("typeinv "+p.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term {
				return ex.typeInvTerm(p.Type(), get(p))
			})
		}
		var cks []cellKey
		for k := range entry.cells {
			if _, ok := k.v.(*ssa.Alloc); ok && k.frame == fr.id {
				cks = append(cks, k)
			}
		}
		sort.Slice(cks, func(i, j int) bool { return cks[i].v.Name() < cks[j].v.Name() })
		for _, k := range cks {
			k := k
			el := k.v.Type().Underlying().(*types.Pointer).Elem()
			addc("typeinv "+k.v.(*ssa.Alloc).Comment, func(get func(*ssa.Phi) *Term, st *State) *Term {
				v, ok := st.cells[k]
				if !ok {
					return nil
				}
				return ex.typeInvTerm(el, v)
			})
		}
	}
	for _, s := range slcs {
		s := s
		e0 := c.SLen(init(s))
		addc("len-ge "+s.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Le(e0, c.SLen(get(s))) })
		addc("len-eq "+s.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Eq(e0, c.SLen(get(s))) })
		for _, p := range ints {
			p := p
			d := c.Sub(e0, init(p))
			addc("len-diff "+s.Comment+" "+p.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term {
				return c.Eq(c.Sub(c.SLen(get(s)), get(p)), d)
			})
			addc("len-le "+s.Comment+" "+p.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term {
				return c.Le(c.Sub(c.SLen(get(s)), get(p)), d)
			})
			addc("idx-lt "+s.Comment+" "+p.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term {
				return c.Lt(get(p), c.SLen(get(s)))
			})
			addc("idx-le "+s.Comment+" "+p.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term {
				return c.Le(get(p), c.SLen(get(s)))
			})
		}
		for _, s2 := range slcs {
			s2 := s2
			if s == s2 {
				continue
			}
			d := c.Sub(e0, c.SLen(init(s2)))
			addc("lens "+s.Comment+" "+s2.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term {
				return c.Eq(c.Sub(c.SLen(get(s)), c.SLen(get(s2))), d)
			})
		}
	}
	_ = strings.Join
}
