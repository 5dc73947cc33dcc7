package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lists of keys: allin(l, D) says that every element of the list l is in the
// set D. Facts "keys" (the elements of a result are keys of a table that was
// passed) and "sub" (the elements of a result are elements of a list that was
// passed) are proved for every function they are used of.

func (n *nilRun) allin(ex *Exec, l, d *Term) *Term { return ex.c.App("allin", "Bool", l, d) }

func isStrList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func isStrMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func (n *nilRun) setOf(ex *Exec, st *State, m *Term, t types.Type) *Term {
	c := ex.c
	dk, ds, _, _ := ex.mapKeys(t)
	d := c.Select(ex.heap(st, dk, ds), m)
	return c.Ite(c.Eq(m, c.Int(0)), c.ConstArr(d.sort, c.False()), d)
}

// sets are the sets the lists of this function are compared with: the keys of
// each table passed, and for each list passed an arbitrary set containing it.
func (n *nilRun) sets(ex *Exec, fr *Frame, st *State) map[string]*Term {
	out := map[string]*Term{}
	if fr != ex.root {
		return nil
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Range); ok && isStrMap(r.X.Type()) && (fr.vals[r.X] != nil || isParam(r.X)) {
				if _, ok := r.X.(*ssa.Parameter); !ok || !n.lister(fr.fn) {
					out["range "+r.X.Name()] = n.setOf(ex, st, ex.term(fr, st, r.X), r.X.Type())
				}
			}
		}
	}
	if !n.lister(fr.fn) {
		return out
	}
	for i, p := range fr.fn.Params {
		switch {
		case isStrMap(p.Type()):
			out[fmt.Sprintf("keys %d", i)] = n.setOf(ex, st, ex.plain(fr.args[i]), p.Type())
		case isStrList(p.Type()):
			out[fmt.Sprintf("sub %d", i)] = ex.c.Const(fmt.Sprintf("someset%d", i), "(Array "+ex.c.StrSort()+" Bool)")
		}
	}
	return out
}

func (n *nilRun) lister(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for j := 0; j < rs.Len(); j++ {
		if isStrList(rs.At(j).Type()) {
			return true
		}
	}
	return false
}

func (n *nilRun) keysEntry(ex *Exec, fr *Frame, st *State) {
	for k, d := range n.sets(ex, fr, st) {
		ex.assume(st, n.allin(ex, ex.zero(types.NewSlice(types.Typ[types.String])), d))
		var i int
		if _, err := fmt.Sscanf(k, "sub %d", &i); err == nil {
			ex.assume(st, n.allin(ex, ex.plain(fr.args[i]), d))
		}
	}
}

func (n *nilRun) keysReturn(ex *Exec, fr *Frame, st *State, res []*Term) {
	sets := n.sets(ex, fr, st)
	for _, k := range sortedKeysG(sets) {
		for j, r := range res {
			if r != nil && !strings.HasPrefix(k, "range ") && isStrList(fr.fn.Signature.Results().At(j).Type()) {
				if key := fmt.Sprintf("list %s %d %s", funcKey(fr.fn), j, k); n.alive(fr.fn, key) {
					ex.oblige(fr, st, "fact", key, fr.fn.Pos(), n.allin(ex, r, sets[k]))
				}
			}
		}
	}
}

func (n *nilRun) keysMake(ex *Exec, fr *Frame, st *State, x *ssa.MakeSlice) {
	if !isStrList(x.Type()) {
		return
	}
	l := ex.term(fr, st, x)
	for _, d := range n.sets(ex, fr, st) {
		ex.assume(st, n.allin(ex, ex.zero(x.Type()), d))
		ex.assume(st, ex.c.Implies(ex.c.Eq(ex.c.SLen(l), ex.c.Int(0)), n.allin(ex, l, d)))
	}
}

func (n *nilRun) keysCands(ex *Exec, fr *Frame, l *loopInfo, entry *State, phis []*ssa.Phi, addc func(string, genFn)) {
	for k := range n.sets(ex, fr, entry) {
		for _, p := range phis {
			k, p := k, p
			if isStrList(p.Type()) {
				addc(k+" "+p.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term {
					return n.allin(ex, get(p), n.sets(ex, fr, st)[k])
				})
			}
		}
		for ck := range entry.cells {
			k, ck := k, ck
			if a, ok := ck.v.(*ssa.Alloc); ok && ck.frame == fr.id && isStrList(a.Type().Underlying().(*types.Pointer).Elem()) {
				addc(k+" "+a.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term {
					return n.allin(ex, st.cells[ck], n.sets(ex, fr, st)[k])
				})
			}
		}
	}
}

// keysElem: an element of a list whose elements are all in d.
func (n *nilRun) keysElem(ex *Exec, fr *Frame, st *State, v ssa.Value, d *Term) {
	c := ex.c
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	if !ok || !isStrList(ia.X.Type()) {
		return
	}
	l, i, k := ex.term(fr, st, ia.X), ex.term(fr, st, ia.Index), ex.term(fr, st, v)
	// the element was read, so the index is in range (C01)
	ex.assume(st, c.Implies(c.And(n.allin(ex, l, d), c.Eq(k, c.SGet(l, i))), c.Select(d, k)))
	n.keysChain(ex, fr, st, ia.X, d, 0)
}

// keysChain: where the list comes from.
func (n *nilRun) keysChain(ex *Exec, fr *Frame, st *State, v ssa.Value, d *Term, depth int) {
	if depth > 6 {
		return
	}
	switch x := v.(type) {
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			n.keysChainCall(ex, fr, st, v, cl, x.Index, d, depth)
		}
	case *ssa.Call:
		n.keysChainCall(ex, fr, st, v, x, 0, d, depth)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if fr.vals[e] != nil {
				n.keysChain(ex, fr, st, e, d, depth+1)
			}
		}
	}
}

func (n *nilRun) keysChainCall(ex *Exec, fr *Frame, st *State, v ssa.Value, cl *ssa.Call, j int, d *Term, depth int) {
	cal := cl.Call.StaticCallee()
	if cal == nil || !inRepo(cal) {
		return
	}
	for i, a := range cl.Call.Args {
		if isStrList(a.Type()) && n.alive(ex.root.fn, fmt.Sprintf("list %s %d sub %d", funcKey(cal), j, i)) {
			ex.assume(st, ex.c.Implies(n.allin(ex, ex.term(fr, st, a), d), n.allin(ex, ex.term(fr, st, v), d)))
			n.keysChain(ex, fr, st, a, d, depth+1)
		}
	}
}

func (n *nilRun) keysLookup(ex *Exec, fr *Frame, st *State, x *ssa.Lookup) {
	if !isStrMap(x.X.Type()) {
		return
	}
	n.keysElem(ex, fr, st, x.Index, n.setOf(ex, st, ex.term(fr, st, x.X), x.X.Type()))
}

// keysCall: appending, sorting, and the promises of functions that make lists.
func (n *nilRun) keysBuiltin(ex *Exec, fr *Frame, st *State, cl *ssa.Call) {
	c := ex.c
	b, ok := cl.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || !isStrList(cl.Type()) {
		return
	}
	sets := n.sets(ex, fr, st)
	if len(sets) == 0 {
		return
	}
	l, more, r := ex.term(fr, st, cl.Call.Args[0]), ex.term(fr, st, cl.Call.Args[1]), ex.term(fr, st, cl)
	items := variadicItems(cl.Call.Args[1])
	for _, d := range sets {
		g := n.allin(ex, more, d)
		if items != nil {
			g = c.True()
			for _, it := range items {
				n.keysElem(ex, fr, st, it, d)
				g = c.And(g, c.Select(d, ex.term(fr, st, it)))
			}
		} else {
			n.keysChain(ex, fr, st, cl.Call.Args[1], d, 0)
		}
		ex.assume(st, c.Implies(c.And(n.allin(ex, l, d), g), n.allin(ex, r, d)))
	}
}

// variadicItems: the values of a list written out in a call.
func variadicItems(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]ssa.Value, at.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		ci, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, r2 := range *ia.Referrers() {
			if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
				if out[ci.Int64()] != nil {
					return nil
				}
				out[ci.Int64()] = s.Val
			}
		}
	}
	for _, o := range out {
		if o == nil {
			return nil
		}
	}
	return out
}

func (n *nilRun) keysCall(ex *Exec, fr *Frame, pre, st *State, in ssa.Instruction, cc *ssa.CallCommon, v *Val) {
	c := ex.c
	cal := cc.StaticCallee()
	if cal == nil {
		return
	}
	if !inRepo(cal) {
		switch generic(cal) {
		case "sort.Strings", "slices.Sort":
			if isStrList(cc.Args[0].Type()) {
				a, b := ex.term(fr, pre, cc.Args[0]), ex.term(fr, st, cc.Args[0])
				for _, d := range n.sets(ex, fr, st) {
					ex.assume(st, c.Implies(n.allin(ex, a, d), n.allin(ex, b, d)))
				}
			}
		case "slices.Sorted", "slices.Collect":
			if k, ok := cc.Args[0].(*ssa.Call); ok && v != nil && v.t != nil {
				if kc := k.Call.StaticCallee(); kc != nil && generic(kc) == "maps.Keys" && isStrMap(k.Call.Args[0].Type()) {
					m := k.Call.Args[0]
					ex.assume(st, n.allin(ex, v.t, n.setOf(ex, st, ex.term(fr, st, m), m.Type())))
				}
			}
		}
		return
	}
	rs := cal.Signature.Results()
	for j := 0; j < rs.Len(); j++ {
		if !isStrList(rs.At(j).Type()) || v == nil {
			continue
		}
		r := v.t
		if rs.Len() > 1 {
			if j >= len(v.tup) {
				continue
			}
			r = v.tup[j].t
		}
		if r == nil {
			continue
		}
		for i, a := range cc.Args {
			switch {
			case isStrMap(a.Type()):
				if n.alive(ex.root.fn, fmt.Sprintf("list %s %d keys %d", funcKey(cal), j, i)) {
					ex.assume(st, n.allin(ex, r, n.setOf(ex, st, ex.term(fr, st, a), a.Type())))
				}
			case isStrList(a.Type()):
				if n.alive(ex.root.fn, fmt.Sprintf("list %s %d sub %d", funcKey(cal), j, i)) {
					for _, d := range n.sets(ex, fr, st) {
						ex.assume(st, c.Implies(n.allin(ex, ex.term(fr, st, a), d), n.allin(ex, r, d)))
					}
				}
			}
		}
	}
}

func isParam(v ssa.Value) bool {
	_, ok := v.(*ssa.Parameter)
	return ok
}
