package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Result of verifying one function.
type FnResult struct {
	fn      *ssa.Function
	key     string
	obls    []*Obl
	ex      *Exec
	err     string
	millis  int64
	kept    int // loop invariants kept
	dropped int
	smoke   string
	c       *Ctx
}

// Generate builds the verification conditions of one function.
func (ex *Exec) Generate(f *ssa.Function, ct *Contract) (err error) {
	if ct != nil && (len(ct.invs) > 0 || ct.quant) {
		o := *ex.o
		o.noQuant = false
		ex.o = &o
	}
	if ct != nil && ct.theory {
		o := *ex.o
		o.strTheory = true
		ex.o = &o
	}
	for round := 0; round < 40; round++ {
		ex.reset()
		ex.rootContract = ct
		st := ex.initState()
		fr := &Frame{id: 0, fn: f, vals: map[ssa.Value]*Val{}}
		ex.root = fr
		ex.stack = []*ssa.Function{f}
		for i, p := range f.Params {
			t := ex.c.Const(fmt.Sprintf("arg.%d.%s", i, p.Name()), ex.c.sortOf(p.Type()))
			v := &Val{t: t}
			fr.vals[p] = v
			fr.args = append(fr.args, v)
			ex.wellFormed(st, p.Type(), t)
			ex.modelVars = append(ex.modelVars, modelVar{p.Name(), t, p.Type()})
		}
		fr.entry = st.clone()
		ex.rootPre = fr.entry
		if ex.o.onEntry != nil {
			ex.o.onEntry(ex, fr, st)
			fr.entry = st.clone()
			ex.rootPre = fr.entry
		}
		if ct != nil {
			env := ex.contractEnv(ct, f, fr.args, nil, st, st)
			for _, r := range ct.requires {
				g, err := env.boolean(r.expr)
				if err != nil {
					ex.specError(ct, r, err)
					continue
				}
				ex.assume(st, g)
			}
		}
		rets, ok := ex.run(fr, st)
		if ex.restart {
			continue
		}
		if !ok {
			return fmt.Errorf("function too large after inlining")
		}
		if ex.o.mapLoop != nil {
			for _, b := range f.Blocks {
				if r := ex.mapLoops[b]; r != nil {
					ex.o.mapLoop(ex, r)
				}
			}
		}
		if len(rets) > 0 {
			ms, vals := ex.mergeRets(rets, f)
			var res []*Term
			for _, v := range vals {
				res = append(res, ex.plain(v))
			}
			ex.finish(fr, ms, res, ct)
		}
		if ex.restart {
			continue
		}
		return nil
	}
	return fmt.Errorf("state components do not stabilise")
}

func (ex *Exec) finish(fr *Frame, st *State, res []*Term, ct *Contract) {
	f := fr.fn
	if ex.o.typeInv {
		rs := f.Signature.Results()
		for i, r := range res {
			ex.checkTypeInv(fr, st, rs.At(i).Type(), r, f.Pos(), "return")
		}
	}
	if ex.o.onReturn != nil {
		ex.o.onReturn(ex, fr, st, res)
	}
	if ct != nil && !ct.trusted {
		env := ex.contractEnv(ct, f, fr.args, res, st, ex.rootPre)
		for _, e := range ct.ensures {
			if ex.o.clauseFilter != nil && !ex.o.clauseFilter(ct, e) {
				continue
			}
			g, err := env.boolean(e.expr)
			if err != nil {
				ex.specError(ct, e, err)
				continue
			}
			o := ex.oblige(fr, st, "post", e.name, f.Pos(), g)
			if o != nil {
				o.props = e.props
			}
		}
	}
	ex.finalCond = st.cond
	ex.finalSt = st
	ex.finalRes = res
}

// typeInvTerm: invariants attached to value types; none unless a property installs one.
func (ex *Exec) typeInvTerm(t types.Type, v *Term) *Term {
	if ex.o.typeInvFn == nil {
		return nil
	}
	return ex.o.typeInvFn(ex, t, v)
}

func (ex *Exec) checkTypeInv(fr *Frame, st *State, t types.Type, v *Term, pos tokenPos, what string) {
	if g := ex.typeInvTerm(t, v); g != nil && g.op != "true" {
		ex.oblige(fr, st, "typeinv", what, pos, g)
	}
}

// retNonNil: every returned reference is an allocation or a known non-nil result.
func (P *Prog) retNonNil(f *ssa.Function, idx int) bool {
	k := fmt.Sprintf("%s#%d", funcKey(f), idx)
	P.mu.Lock()
	defer P.mu.Unlock()
	return P.retNonNilL(f, idx, k)
}

func (P *Prog) retNonNilL(f *ssa.Function, idx int, k string) bool {
	if v, ok := P.nonNilMemo[k]; ok {
		return v
	}
	if P.nonNilMemo == nil {
		P.nonNilMemo = map[string]bool{}
	}
	P.nonNilMemo[k] = true // optimistic on recursion: a result is either allocated here or returned by the recursive call
	ok := true
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap:
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !rec(e) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if cal := x.Call.StaticCallee(); cal != nil && inRepo(cal) && cal.Signature.Results().Len() == 1 {
				return P.retNonNilL(cal, 0, funcKey(cal)+"#0")
			}
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok {
				if cal := cl.Call.StaticCallee(); cal != nil && inRepo(cal) {
					return P.retNonNilL(cal, x.Index, fmt.Sprintf("%s#%d", funcKey(cal), x.Index))
				}
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		if r, isr := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isr {
			if !rec(r.Results[idx]) {
				ok = false
			}
		}
	}
	if !ok {
		// results derived under the optimistic assumption may be wrong: recompute pessimistically
		P.nonNilMemo = map[string]bool{}
		P.nonNilMemo[k] = false
		for kk := range P.nonNilFalse {
			P.nonNilMemo[kk] = false
		}
		if P.nonNilFalse == nil {
			P.nonNilFalse = map[string]bool{}
		}
		P.nonNilFalse[k] = true
	}
	return P.nonNilMemo[k]
}

// readKeys lists the heap components a function may read, transitively.
func (P *Prog) readKeys(f *ssa.Function) []string {
	P.mu.Lock()
	defer P.mu.Unlock()
	if P.readMemo == nil {
		P.readMemo = map[*ssa.Function][]string{}
	}
	if r, ok := P.readMemo[f]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	keys := map[string]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if a, ok := addrRoot(x).(*ssa.Alloc); ok && isCell(a) {
						continue
					}
					if _, ok := addrRoot(x).(*ssa.IndexAddr); ok {
						continue
					}
					st, nt := structOf(x.X.Type())
					if nt != nil {
						if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
							if _, nested := x.X.(*ssa.FieldAddr); nested {
								continue
							}
							keys[fieldKey(nt, st.Field(x.Field).Name())] = true
						}
					}
				case *ssa.UnOp:
					if g, ok := x.X.(*ssa.Global); ok {
						if P.globalWritten[g] {
							keys[globalKey(g)] = true
						}
					}
					if st, nt := structOf(x.X.Type()); st != nil && nt != nil && recName(nt) != "" {
						if a, ok := addrRoot(x.X).(*ssa.Alloc); ok && isCell(a) {
							continue
						}
						switch x.X.(type) {
						case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
						default:
							for i := 0; i < st.NumFields(); i++ {
								keys[fieldKey(nt, st.Field(i).Name())] = true
							}
						}
					}
				case *ssa.Lookup:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						keys[mapKey(x.X.Type())] = true
					}
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						keys[mapKey(x.X.Type())] = true
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if cal := cc.StaticCallee(); cal != nil && inRepo(cal) {
						rec(cal)
					}
					if cc.IsInvoke() {
						for _, m := range P.methodsNamed(cc.Method.Name()) {
							rec(m)
						}
					}
				}
			}
		}
	}
	rec(f)
	var out []string
	for k := range keys {
		out = append(out, k)
	}
	sort.Strings(out)
	P.readMemo[f] = out
	_ = strings.Join
	return out
}
