package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C05: no access through a missing object.
//
// Facts "never nil", one for each place that holds a reference: fields,
// parameters, results (also under the condition that another result is true),
// elements of lists, values of tables, payloads of interfaces, globals. All are
// assumed where such a place is read and proved wherever it is written; a fact
// with a failed proof is dropped and everything that used it is proved again,
// until the rest is closed. What remains must make every access safe.

func init() {
	register(&Check{id: "C05", level: "proof", run: runC05, search: c05Search,
		what: "every access through a reference, for every function reachable from the command line, all inputs",
		assumes: []string{
			"the fields listed in the evidence as trusted_fields are filled in before they are read: an object may leave its maker without them (what is stored in them later is still checked)",
			"the initialisation of the object library vx/core takes no input and is executed, not proved",
			"package variables are initialised before the functions that use them run (order of initialisation of the language)",
			"a library function that returns a reference and an error returns one of them; one that returns only a reference returns an object",
		}})
}

// Fields that are filled in after the object is made, taken to be there when read.
var c05Trusted = []string{
	"vxlisp.vxtype.vxfunc",
	"vxlisp.vxtype.subtype",
	"vxlisp.vxtype.textblock",
	"vxlisp.vxtype.emptyvalue",
	"vxlisp.vxfunc.value",
	"vxlisp.vxsignature.vxtype",
	"vxlisp.vxproject.textblock",
	"vx_core.",
}

type nilRun struct {
	k              *Run
	P              *Prog
	mu             sync.Mutex
	dead           map[string]string // fact -> where its proof failed
	use            map[string]map[*ssa.Function]bool
	dyn            map[*ssa.Function]bool // called in ways that are not seen
	invoked        map[*ssa.Function]bool // called through an interface
	in             map[*ssa.Function]bool
	ginit          map[*ssa.Global]bool
	flags, globals []*ssa.Global
	trusted        []string
}

// ownObj: an object whose maker has not finished it: the promises about its fields
// named in mask (all when nil) are not yet relied on.
type ownObj struct {
	v    ssa.Value
	res  int // result of a call with several
	t    *Term
	mask map[string]bool
}

func (ob *ownObj) open(key string) bool { return ob.mask == nil || ob.mask[key] }

// refType: a reference to a struct.
func refType(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Struct)
	return ok
}

func (n *nilRun) alive(f *ssa.Function, key string) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.use[key] == nil {
		n.use[key] = map[*ssa.Function]bool{}
	}
	n.use[key][f] = true
	_, d := n.dead[key]
	return !d
}

type nilFact struct {
	key string
	t   *Term
}

// facts lists what the place key promises about a value of type t.
func (n *nilRun) facts(ex *Exec, key string, t types.Type, v *Term, depth int) []nilFact {
	if v == nil {
		return nil
	}
	if refType(t) {
		if v.sort == "Int" && n.alive(ex.root.fn, key) {
			return []nilFact{{key, ex.c.Not(ex.c.Eq(v, ex.c.Int(0)))}}
		}
		return nil
	}
	nt, ok := types.Unalias(t).(*types.Named)
	if !ok || depth > 3 {
		return nil
	}
	st, ok := nt.Underlying().(*types.Struct)
	if !ok || recName(nt) == "" {
		return nil
	}
	var out []nilFact
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if !refType(ft) && !isRecT(ft) {
			continue
		}
		fk, fv := key+"."+st.Field(i).Name(), ex.proj(v, nt, st, i)
		if sub := n.facts(ex, fk, ft, fv, depth+1); len(sub) > 0 || isRecT(ft) {
			out = append(out, sub...)
		}
		// weaker: there once one of the texts or flags is set
		for _, l := range n.leaves(ex, fk, ft, fv) {
			if n.alive(ex.root.fn, l.key) {
				continue
			}
			for j := 0; j < st.NumFields(); j++ {
				if u := ex.unset(ex.proj(v, nt, st, j), st.Field(j).Type()); u != nil {
					ck := l.key + " if " + st.Field(j).Name()
					if depth > 0 {
						ck += fmt.Sprint("/", depth)
					}
					if n.alive(ex.root.fn, ck) {
						out = append(out, nilFact{ck, ex.c.Or(u, l.t)})
					}
				}
			}
		}
	}
	return out
}

// unset: a text that is empty, a flag that is off.
func (ex *Exec) unset(v *Term, t types.Type) *Term {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.String:
			return ex.c.Eq(v, ex.c.Str(""))
		case types.Bool:
			return ex.c.Not(v)
		}
	}
	return nil
}

// leaves are the references inside a value.
func (n *nilRun) leaves(ex *Exec, key string, t types.Type, v *Term) []nilFact {
	if refType(t) {
		return []nilFact{{key, ex.c.Not(ex.c.Eq(v, ex.c.Int(0)))}}
	}
	nt := types.Unalias(t).(*types.Named)
	st := nt.Underlying().(*types.Struct)
	var out []nilFact
	for i := 0; i < st.NumFields(); i++ {
		if ft := st.Field(i).Type(); refType(ft) || isRecT(ft) {
			out = append(out, n.leaves(ex, key+"."+st.Field(i).Name(), ft, ex.proj(v, nt, st, i))...)
		}
	}
	return out
}

// resFacts lists what result j of f promises, given all its results.
func (n *nilRun) resFacts(ex *Exec, f *ssa.Function, j int, get func(int) *Term) []nilFact {
	c := ex.c
	rs := f.Signature.Results()
	t, v := rs.At(j).Type(), get(j)
	if v == nil || !refType(t) && !isRecT(t) {
		return nil
	}
	key := fmt.Sprintf("result %s %d", funcKey(f), j)
	out := n.facts(ex, key, t, v, 0)
	for _, l := range n.leaves(ex, key, t, v) {
		if n.alive(ex.root.fn, l.key) {
			continue
		}
		for i := 0; i < rs.Len(); i++ {
			if b, ok := rs.At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && get(i) != nil {
				if ck := fmt.Sprintf("%s if result %d", l.key, i); n.alive(ex.root.fn, ck) {
					out = append(out, nilFact{ck, c.Implies(get(i), l.t)})
				}
			}
		}
	}
	return out
}

func isRecT(t types.Type) bool {
	nt, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	_, ok = nt.Underlying().(*types.Struct)
	return ok && recName(nt) != ""
}

func tkey(t types.Type) string { return shortTypes(t.String()) }

// place names the location of an address; empty when nothing is promised about it.
func place(a *Addr) string {
	s := ""
	switch a.kind {
	case aField:
		if strings.HasPrefix(a.key, "p:") {
			return ""
		}
		s = "field " + strings.TrimPrefix(a.key, "f:")
	case aGlobal:
		s = "global " + strings.TrimPrefix(a.key, "g:")
	case aElem:
		s = "element " + tkey(a.typ)
	default:
		return ""
	}
	for _, p := range a.path {
		if p.st == nil {
			return ""
		}
		s += "." + p.st.Field(p.field).Name()
	}
	return s
}

func (n *nilRun) opts() *Opts {
	o := &Opts{kinds: map[string]bool{"nil": true, "fact": true}, noQuant: true, maxDepth: 1, noTheoryRetry: true, autoInv: false, traceEnd: true, muteInlined: true, inline: n.inline}
	var own []ownObj
	assume := func(ex *Exec, st *State, guard *Term, key string, t types.Type, v *Term) {
		for _, f := range n.facts(ex, key, t, v, 0) {
			ex.assume(st, ex.c.Implies(guard, f.t))
		}
	}
	// of a field of the object base
	assumeField := func(ex *Exec, st *State, base *Term, key string, t types.Type, v *Term) {
		for _, f := range n.facts(ex, key, t, v, 0) {
			g := ex.c.True()
			for i := range own {
				if own[i].open(f.key) {
					g = ex.c.And(g, ex.c.Not(ex.c.Eq(base, own[i].t)))
				}
			}
			ex.assume(st, ex.c.Implies(g, f.t))
		}
	}
	oblige := func(ex *Exec, fr *Frame, st *State, pos tokenPos, key string, t types.Type, v *Term) {
		for _, f := range n.facts(ex, key, t, v, 0) {
			if f.t.op != "true" {
				ex.oblige(fr, st, "fact", f.key, pos, f.t)
			}
		}
	}
	// promises of the fields of an object
	promises := func(ex *Exec, st *State, t types.Type, v *Term) []nilFact {
		sct, nt := structOf(t)
		if sct == nil || nt == nil || nt.Obj().Pkg() == nil || !strings.HasPrefix(nt.Obj().Pkg().Path(), "vxlisp") {
			return nil
		}
		var out []nilFact
		for i := 0; i < sct.NumFields(); i++ {
			if ft := sct.Field(i).Type(); refType(ft) || isRecT(ft) {
				k := fieldKey(nt, sct.Field(i).Name())
				out = append(out, n.facts(ex, "field "+strings.TrimPrefix(k, "f:"), ft, ex.c.Select(ex.heap(st, k, "(Array Int "+ex.c.sortOf(ft)+")"), v), 0)...)
			}
		}
		return out
	}
	// origins of a value among the unfinished objects
	ownOf := func(v ssa.Value) []*ownObj {
		var out []*ownObj
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value, res int)
		walk = func(v ssa.Value, res int) {
			for i := range own {
				if own[i].v == v && own[i].res == res {
					out = append(out, &own[i])
				}
			}
			if seen[v] {
				return
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					walk(e, 0)
				}
			case *ssa.ChangeType:
				walk(x.X, 0)
			case *ssa.Extract:
				walk(x.Tuple, x.Index)
			}
		}
		walk(v, 0)
		return out
	}
	// established: what leaves the hands of its maker keeps the promises of its
	// fields; as where names another function that may still finish it
	established := func(ex *Exec, fr *Frame, st *State, pos tokenPos, v ssa.Value, where string) {
		for _, ob := range ownOf(v) {
			t := ex.val(fr, st, v).t
			if t == nil {
				continue
			}
			for _, f := range promises(ex, st, v.Type(), ob.t) {
				if !ob.open(f.key) || n.trust(f.key) {
					continue
				}
				key := f.key
				if where != "" {
					if key = "whole " + where + ": " + f.key; !n.alive(ex.root.fn, key) {
						continue
					}
				}
				ex.oblige(fr, st, "fact", key, pos, ex.c.Implies(ex.c.Eq(t, ob.t), f.t))
			}
		}
	}
	// unfinished objects that come from another function
	received := func(ex *Exec, st *State, v ssa.Value, res int, t types.Type, term *Term, where string) {
		if !refType(t) || term == nil {
			return
		}
		var mask map[string]bool
		for _, f := range promises(ex, st, t, term) {
			if !n.alive(ex.root.fn, "whole "+where+": "+f.key) {
				if mask == nil {
					mask = map[string]bool{}
				}
				mask[f.key] = true
			}
		}
		if mask != nil {
			own = append(own, ownObj{v, res, term, mask})
		}
	}
	o.onEntry = func(ex *Exec, fr *Frame, st *State) {
		own = nil
		for i, p := range fr.fn.Params {
			if n.dyn[fr.fn] {
				continue
			}
			assume(ex, st, ex.c.True(), n.paramKey(fr.fn, i), p.Type(), ex.plain(fr.args[i]))
			if !n.invoked[fr.fn] {
				received(ex, st, p, 0, p.Type(), ex.plain(fr.args[i]), n.paramKey(fr.fn, i))
			}
		}
		n.keysEntry(ex, fr, st)
	}
	o.onReturn = func(ex *Exec, fr *Frame, st *State, res []*Term) {
		for j := range res {
			for _, f := range n.resFacts(ex, fr.fn, j, func(i int) *Term { return res[i] }) {
				ex.oblige(fr, st, "fact", f.key, fr.fn.Pos(), f.t)
			}
		}
		n.keysReturn(ex, fr, st, res)
	}
	o.extraCands = func(ex *Exec, fr *Frame, l *loopInfo, entry *State, phis []*ssa.Phi, init func(*ssa.Phi) *Term, addc func(string, genFn)) {
		c := ex.c
		for _, p := range phis {
			p := p
			switch {
			case refType(p.Type()):
				addc("there "+p.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Not(c.Eq(get(p), c.Int(0))) })
			case isRecT(p.Type()):
				n.recCands(ex, p.Comment, p.Type(), func(get func(*ssa.Phi) *Term, st *State) *Term { return get(p) }, phis, init, addc)
			}
		}
		n.keysCands(ex, fr, l, entry, phis, addc)
		for _, b := range phis {
			if t, ok := b.Type().Underlying().(*types.Basic); !ok || t.Kind() != types.Bool {
				continue
			}
			addc("not "+b.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Not(get(b)) })
			for _, p := range phis {
				b, p := b, p
				if refType(p.Type()) {
					addc("there if "+p.Comment+" "+b.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term {
						return c.Implies(get(b), c.Not(c.Eq(get(p), c.Int(0))))
					})
				} else if isRecT(p.Type()) {
					for i := range n.leaves(ex, "", p.Type(), init(p)) {
						i := i
						addc(fmt.Sprintf("there if %s %d %s", p.Comment, i, b.Comment), func(get func(*ssa.Phi) *Term, st *State) *Term {
							return c.Implies(get(b), n.leaves(ex, "", p.Type(), get(p))[i].t)
						})
					}
				}
			}
		}
		for ck := range entry.cells {
			ck := ck
			if a, ok := ck.v.(*ssa.Alloc); ok && ck.frame == fr.id {
				el := a.Type().Underlying().(*types.Pointer).Elem()
				if isRecT(el) {
					n.recCands(ex, a.Comment, el, func(get func(*ssa.Phi) *Term, st *State) *Term { return st.cells[ck] }, phis, init, addc)
				} else if refType(el) {
					addc("there "+a.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Not(c.Eq(st.cells[ck], c.Int(0))) })
				}
			}
		}
		for _, ob := range own {
			ob := ob
			sct, nt := structOf(ob.typ())
			if nt == nil {
				continue
			}
			for i := 0; i < sct.NumFields(); i++ {
				ft := sct.Field(i).Type()
				k := fieldKey(nt, sct.Field(i).Name())
				if !ob.openField(strings.TrimPrefix(k, "f:")) {
					continue
				}
				srt := "(Array Int " + c.sortOf(ft) + ")"
				if refType(ft) {
					addc("set "+k, func(get func(*ssa.Phi) *Term, st *State) *Term {
						return c.Not(c.Eq(c.Select(ex.heap(st, k, srt), ob.t), c.Int(0)))
					})
				} else if isRecT(ft) {
					n.recCands(ex, k, ft, func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Select(ex.heap(st, k, srt), ob.t) }, phis, init, addc)
				}
			}
		}
	}
	o.afterCall = func(ex *Exec, fr *Frame, pre, st *State, in ssa.Instruction, cc *ssa.CallCommon, v *Val) {
		c := ex.c
		cal := cc.StaticCallee()
		if _, b := cc.Value.(*ssa.Builtin); b {
			return
		}
		for _, ob := range own {
			fa, fb := promises(ex, pre, ob.typ(), ob.t), promises(ex, st, ob.typ(), ob.t)
			for j := range fa {
				if fa[j].t != fb[j].t && ob.open(fa[j].key) {
					ex.assume(st, c.Implies(fa[j].t, fb[j].t))
				}
			}
		}
		n.keysCall(ex, fr, pre, st, in, cc, v)
		sig := cc.Signature().Results()
		get := func(i int) *Term {
			if v == nil {
				return nil
			}
			if sig.Len() == 1 {
				return v.t
			}
			if i < len(v.tup) {
				return v.tup[i].t
			}
			return nil
		}
		for i := 0; i < sig.Len(); i++ {
			t := sig.At(i).Type()
			r := get(i)
			if r == nil {
				continue
			}
			switch {
			case cal == nil && cc.IsInvoke():
				n.invokeResult(ex, st, cc, i, get)
			case cal == nil:
			case inRepo(cal):
				for _, f := range n.resFacts(ex, cal, i, get) {
					ex.assume(st, f.t)
				}
				if iv, ok := in.(ssa.Value); ok && !n.invoked[cal] {
					received(ex, st, iv, i, t, r, fmt.Sprintf("result %s %d", funcKey(cal), i))
				}
			case refType(t):
				g := c.True()
				for j := 0; j < sig.Len(); j++ {
					if types.Implements(sig.At(j).Type(), errorIface) && get(j) != nil {
						g = c.Eq(get(j), ex.zero(sig.At(j).Type()))
					}
				}
				ex.assume(st, c.Implies(g, c.Not(c.Eq(r, c.Int(0)))))
			}
		}
	}
	o.post = func(ex *Exec, fr *Frame, st *State, in ssa.Instruction) {
		c := ex.c
		switch x := in.(type) {
		case *ssa.Alloc:
			if v := fr.vals[x]; v != nil && v.t != nil && v.addr == nil {
				own = append(own, ownObj{v: x, t: v.t})
			}
		case *ssa.UnOp:
			v := fr.vals[x]
			if x.Op != token.MUL || v == nil || v.t == nil {
				return
			}
			av := ex.val(fr, st, x.X)
			if av.addr == nil {
				// whole object
				if sct, nt := structOf(x.X.Type()); sct != nil && nt != nil && recName(nt) != "" {
					for i := 0; i < sct.NumFields(); i++ {
						assumeField(ex, st, av.t, "field "+strings.TrimPrefix(fieldKey(nt, sct.Field(i).Name()), "f:"), sct.Field(i).Type(), ex.proj(v.t, nt, sct, i))
					}
				}
				return
			}
			p := place(av.addr)
			if p == "" {
				return
			}
			if gl, ok := x.X.(*ssa.Global); ok {
				for _, f := range n.globalIf(ex, st, gl, v.t) {
					ex.assume(st, f.t)
				}
				if !n.ginit[gl] {
					return
				}
			}
			if av.addr.kind == aField {
				assumeField(ex, st, av.addr.base, p, x.Type(), v.t)
			} else {
				assume(ex, st, c.True(), p, x.Type(), v.t)
			}
		case *ssa.Lookup:
			mt, ok := x.X.Type().Underlying().(*types.Map)
			if !ok {
				return
			}
			n.keysLookup(ex, fr, st, x)
			has, val := ex.mapGet(st, ex.term(fr, st, x.X), ex.term(fr, st, x.Index), x.X.Type())
			assume(ex, st, has, "value "+tkey(mt), mt.Elem(), val)
		case *ssa.Store:
			n.globalStored(ex, fr, st, x)
		case *ssa.Call:
			n.keysBuiltin(ex, fr, st, x)
		case *ssa.MakeSlice:
			n.keysMake(ex, fr, st, x)
		case *ssa.Next:
			if x.IsString {
				return
			}
			v := fr.vals[x]
			mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
			if v != nil && len(v.tup) == 3 && v.tup[2].t != nil {
				assume(ex, st, v.tup[0].t, "value "+tkey(mt), mt.Elem(), v.tup[2].t)
			}
		case *ssa.TypeAssert:
			v := fr.vals[x]
			if v == nil {
				return
			}
			if x.CommaOk && len(v.tup) == 2 {
				assume(ex, st, v.tup[1].t, "payload "+tkey(x.AssertedType), x.AssertedType, v.tup[0].t)
			} else if v.t != nil {
				assume(ex, st, c.True(), "payload "+tkey(x.AssertedType), x.AssertedType, v.t)
			}
		}
	}
	o.trace = func(ex *Exec, fr *Frame, st *State, in ssa.Instruction) {
		c := ex.c
		// objects made here leave the hands of their maker
		switch x := in.(type) {
		case *ssa.Jump, *ssa.If:
			for _, s := range in.Block().Succs {
				if !isHeader(s) {
					continue
				}
				for pi, p := range s.Preds {
					if p != in.Block() {
						continue
					}
					for _, y := range s.Instrs {
						if ph, ok := y.(*ssa.Phi); ok && refType(ph.Type()) && ph.Edges[pi] != ssa.Value(ph) {
							established(ex, fr, st, ph.Pos(), ph.Edges[pi], "")
						}
					}
				}
			}
		case *ssa.Return:
			for j, r := range x.Results {
				if refType(r.Type()) {
					if n.invoked[fr.fn] || n.dyn[fr.fn] {
						established(ex, fr, st, in.Pos(), r, "")
					} else {
						established(ex, fr, st, in.Pos(), r, fmt.Sprintf("result %s %d", funcKey(fr.fn), j))
					}
				}
			}
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef, *ssa.BinOp, *ssa.Phi, *ssa.ChangeType, *ssa.Extract:
		case ssa.CallInstruction:
			cc := x.Common()
			cal := cc.StaticCallee()
			if cal != nil && inRepo(cal) && !n.dyn[cal] && !n.invoked[cal] {
				for i, a := range cc.Args {
					if refType(a.Type()) {
						established(ex, fr, st, in.Pos(), a, n.paramKey(cal, i))
					}
				}
				break
			}
			for _, op := range in.Operands(nil) {
				if op != nil && *op != nil && refType((*op).Type()) {
					established(ex, fr, st, in.Pos(), *op, "")
				}
			}
		default:
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil || !refType((*op).Type()) {
					continue
				}
				if s, ok := x.(*ssa.Store); ok && s.Addr == *op && s.Val != *op {
					continue
				}
				established(ex, fr, st, in.Pos(), *op, "")
			}
		}
		switch x := in.(type) {
		case *ssa.Store:
			av := ex.val(fr, st, x.Addr)
			el := x.Addr.Type().Underlying().(*types.Pointer).Elem()
			if !refType(el) && !isRecT(el) {
				return
			}
			if av.addr == nil {
				if sct, nt := structOf(x.Addr.Type()); sct != nil && nt != nil && recName(nt) != "" {
					v := ex.term(fr, st, x.Val)
					for i := 0; i < sct.NumFields(); i++ {
						oblige(ex, fr, st, x.Pos(), "field "+strings.TrimPrefix(fieldKey(nt, sct.Field(i).Name()), "f:"), sct.Field(i).Type(), ex.proj(v, nt, sct, i))
					}
				}
				return
			}
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isArrayPtr(ia.X.Type()) {
				oblige(ex, fr, st, x.Pos(), "element "+tkey(el), el, ex.term(fr, st, x.Val))
				return
			}
			if p := place(av.addr); p != "" {
				oblige(ex, fr, st, x.Pos(), p, el, ex.term(fr, st, x.Val))
			}
		case *ssa.MapUpdate:
			mt := x.Map.Type().Underlying().(*types.Map)
			oblige(ex, fr, st, x.Pos(), "value "+tkey(mt), mt.Elem(), ex.term(fr, st, x.Value))
		case *ssa.MakeInterface:
			if refType(x.X.Type()) || isRecT(x.X.Type()) {
				if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok && !strings.Contains(pt.String(), "vxlisp") && !strings.HasSuffix(pt.String(), "os.File") && x.Type().Underlying().(*types.Interface).NumMethods() > 0 {
					// the library calls its methods
					ex.oblige(fr, st, "nil", "methods of "+tkey(x.X.Type()), x.Pos(), c.Not(c.Eq(ex.term(fr, st, x.X), c.Int(0))))
				}
				oblige(ex, fr, st, x.Pos(), "payload "+tkey(x.X.Type()), x.X.Type(), ex.term(fr, st, x.X))
			}
		case *ssa.MakeSlice:
			el := x.Type().Underlying().(*types.Slice).Elem()
			if (refType(el) || isRecT(el)) && !filledByCopy(x) {
				ln := ex.term(fr, st, x.Len)
				for _, f := range n.facts(ex, "element "+tkey(el), el, ex.zero(el), 0) {
					ex.oblige(fr, st, "fact", f.key, x.Pos(), c.Eq(ln, c.Int(0)))
				}
			}
		case ssa.CallInstruction:
			cc := x.Common()
			cal := cc.StaticCallee()
			if cc.IsInvoke() && cc.Method.Pkg() != nil && strings.HasPrefix(cc.Method.Pkg().Path(), "vxlisp") {
				for _, m := range n.P.methodsNamed(cc.Method.Name()) {
					for i, a := range cc.Args {
						if i+1 < len(m.Params) && types.Identical(a.Type(), m.Params[i+1].Type()) && (refType(a.Type()) || isRecT(a.Type())) {
							if v := ex.val(fr, st, a); v.t != nil {
								oblige(ex, fr, st, in.Pos(), n.paramKey(m, i+1), a.Type(), v.t)
							}
						}
					}
				}
				return
			}
			if cal == nil {
				return
			}
			if !inRepo(cal) {
				if cal.Signature.Recv() != nil && len(cc.Args) > 0 && refType(cc.Args[0].Type()) && !strings.Contains(cc.Args[0].Type().String(), "os.File") {
					if v := ex.val(fr, st, cc.Args[0]); v.addr == nil && v.t != nil {
						ex.oblige(fr, st, "nil", "receiver of "+cal.Name(), in.Pos(), c.Not(c.Eq(v.t, c.Int(0))))
					}
				}
				return
			}
			if n.dyn[cal] {
				return
			}
			for i, a := range cc.Args {
				if refType(a.Type()) || isRecT(a.Type()) {
					v := ex.val(fr, st, a)
					if v.t == nil {
						continue
					}
					oblige(ex, fr, st, in.Pos(), n.paramKey(cal, i), a.Type(), v.t)
				}
			}
		}
	}
	return o
}

func (ob *ownObj) typ() types.Type {
	if t, ok := ob.v.Type().(*types.Tuple); ok {
		return t.At(ob.res).Type()
	}
	return ob.v.Type()
}

func (ob *ownObj) openField(field string) bool {
	if ob.mask == nil {
		return true
	}
	for k := range ob.mask {
		if strings.HasPrefix(k+".", "field "+field+".") || strings.HasPrefix(k, "field "+field+" ") {
			return true
		}
	}
	return false
}

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// recForms: the ways a struct value can hold its references: each one there, or
// there once a text or flag next to it is set.
func (n *nilRun) recForms(ex *Exec, name string, t types.Type, v *Term) []nilFact {
	c := ex.c
	out := n.leaves(ex, name, t, v)
	if refType(t) {
		return out
	}
	nt := types.Unalias(t).(*types.Named)
	st := nt.Underlying().(*types.Struct)
	all := append([]nilFact(nil), out...)
	for j := 0; j < st.NumFields(); j++ {
		ft := st.Field(j).Type()
		if u := ex.unset(ex.proj(v, nt, st, j), ft); u != nil {
			for _, l := range all {
				out = append(out, nilFact{l.key + " if " + name + "." + st.Field(j).Name(), c.Or(u, l.t)})
			}
		} else if isRecT(ft) {
			for _, f := range n.recForms(ex, name+"."+st.Field(j).Name(), ft, ex.proj(v, nt, st, j)) {
				if strings.Contains(f.key, " if ") {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// recCands proposes them as invariants of a loop, also from the second turn on.
func (n *nilRun) recCands(ex *Exec, name string, t types.Type, get func(func(*ssa.Phi) *Term, *State) *Term, phis []*ssa.Phi, init func(*ssa.Phi) *Term, addc func(string, genFn)) {
	c := ex.c
	dummy := n.recForms(ex, name, t, c.Const("any."+sanitize(t.String()), c.sortOf(t)))
	for i, f := range dummy {
		i := i
		form := func(g func(*ssa.Phi) *Term, s *State) *Term {
			v := get(g, s)
			if v == nil {
				return nil
			}
			return n.recForms(ex, name, t, v)[i].t
		}
		addc("there "+f.key, form)
		if strings.Contains(f.key, " if ") {
			continue
		}
		for _, p := range phis {
			p := p
			if p.Comment == "rangeindex" {
				addc("there "+f.key+" later", func(g func(*ssa.Phi) *Term, s *State) *Term {
					if form(g, s) == nil {
						return nil
					}
					return c.Or(c.Eq(g(p), init(p)), form(g, s))
				})
			}
		}
	}
}

// filledByCopy: the new list is overwritten as a whole by copy before anything else.
func filledByCopy(x *ssa.MakeSlice) bool {
	b := x.Block()
	for i, in := range b.Instrs {
		if in != ssa.Instruction(x) {
			continue
		}
		for _, nx := range b.Instrs[i+1:] {
			if _, ok := nx.(*ssa.DebugRef); ok {
				continue
			}
			cl, ok := nx.(*ssa.Call)
			if !ok {
				return false
			}
			bi, ok := cl.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "copy" || cl.Call.Args[0] != ssa.Value(x) {
				return false
			}
			ln, ok := x.Len.(*ssa.Call)
			if !ok {
				return false
			}
			lb, ok := ln.Call.Value.(*ssa.Builtin)
			return ok && lb.Name() == "len" && ln.Call.Args[0] == cl.Call.Args[1]
		}
	}
	return false
}

// inline: small functions whose result may be nil in some cases only.
func (n *nilRun) inline(fr *Frame, cal *ssa.Function) bool {
	if len(cal.Blocks) == 0 || cal.Parent() != nil {
		return false
	}
	size := 0
	for _, b := range cal.Blocks {
		size += len(b.Instrs)
	}
	if size > 60 || len(loopsOf(cal)) > 0 {
		return false
	}
	rs := cal.Signature.Results()
	for j := 0; j < rs.Len(); j++ {
		if t := rs.At(j).Type(); refType(t) || isRecT(t) {
			for _, k := range leafKeys(fmt.Sprintf("result %s %d", funcKey(cal), j), t) {
				if !n.alive(fr.fn, k) {
					return true
				}
			}
		}
	}
	return false
}

func leafKeys(key string, t types.Type) []string {
	if refType(t) {
		return []string{key}
	}
	var out []string
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if ft := st.Field(i).Type(); refType(ft) || isRecT(ft) {
			out = append(out, leafKeys(key+"."+st.Field(i).Name(), ft)...)
		}
	}
	return out
}

// takenFuncs: functions used as values, and methods that may be called through
// an interface.
func takenFuncs(P *Prog) (map[*ssa.Function]bool, map[*ssa.Function]bool) {
	dyn, inv := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range P.funcs {
		if f.Parent() != nil {
			dyn[f] = true
		}
		if f.Signature.Recv() != nil {
			inv[f] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, isCall := in.(ssa.CallInstruction)
				if isCall {
					if cal := call.Common().StaticCallee(); cal != nil {
						if _, plain := in.(*ssa.Call); !plain {
							dyn[cal] = true
						}
					}
				}
				for i, op := range in.Operands(nil) {
					if op == nil || *op == nil || isCall && i == 0 && !call.Common().IsInvoke() {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						dyn[g] = true
					}
				}
			}
		}
	}
	return dyn, inv
}

// globalIf: a variable that is set whenever a flag is on.
func (n *nilRun) globalIf(ex *Exec, st *State, g *ssa.Global, v *Term) []nilFact {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if !refType(t) || v == nil || n.ginit[g] && n.alive(ex.root.fn, "global "+strings.TrimPrefix(globalKey(g), "g:")) {
		return nil
	}
	var out []nilFact
	for _, fl := range n.flags {
		if fl.Pkg == g.Pkg {
			if key := "global " + strings.TrimPrefix(globalKey(g), "g:") + " if " + fl.Name(); n.alive(ex.root.fn, key) {
				out = append(out, nilFact{key, ex.c.Implies(ex.load(st, &Addr{kind: aGlobal, key: globalKey(fl), typ: types.Typ[types.Bool], srt: "Bool"}), ex.c.Not(ex.c.Eq(v, ex.c.Int(0))))})
			}
		}
	}
	return out
}

func (n *nilRun) globalStored(ex *Exec, fr *Frame, st *State, x *ssa.Store) {
	g, ok := x.Addr.(*ssa.Global)
	if !ok {
		return
	}
	for _, h := range n.globals {
		if h.Pkg != g.Pkg || h != g && !isFlag(g) {
			continue
		}
		flag := ""
		if h != g {
			flag = " if " + g.Name()
		}
		t := h.Type().Underlying().(*types.Pointer).Elem()
		for _, f := range n.globalIf(ex, st, h, ex.load(st, &Addr{kind: aGlobal, key: globalKey(h), typ: t, srt: "Int"})) {
			if strings.HasSuffix(f.key, flag) {
				ex.oblige(fr, st, "fact", f.key, x.Pos(), f.t)
			}
		}
	}
}

func isFlag(g *ssa.Global) bool {
	b, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func (n *nilRun) paramKey(f *ssa.Function, i int) string {
	if i == 0 && n.invoked[f] {
		return "payload " + tkey(f.Params[0].Type())
	}
	return fmt.Sprintf("parameter %s %d", funcKey(f), i)
}

// invokeResult: what every implementation promises.
func (n *nilRun) invokeResult(ex *Exec, st *State, cc *ssa.CallCommon, i int, get func(int) *Term) {
	if cc.Method.Pkg() == nil || !strings.HasPrefix(cc.Method.Pkg().Path(), "vxlisp") || !refType(cc.Signature().Results().At(i).Type()) {
		return
	}
	ms := n.P.methodsNamed(cc.Method.Name())
	for _, m := range ms {
		if !n.alive(ex.root.fn, fmt.Sprintf("result %s %d", funcKey(m), i)) {
			return
		}
	}
	if len(ms) > 0 {
		ex.assume(st, ex.c.Not(ex.c.Eq(get(i), ex.c.Int(0))))
	}
}

// trust: the field is taken to be filled in before it is read: objects are accepted
// without it. What is stored in it is still checked.
func (n *nilRun) trust(key string) bool {
	for _, t := range n.trusted {
		if strings.HasPrefix(key, "field "+t) {
			return true
		}
	}
	return false
}

// closedInit: the initialisation of the object library. It takes no input: every
// run of the compiler and of the tests executes it the same way.
func closedInit(f *ssa.Function) bool {
	return f.Synthetic != "" && f.Name() == "init" && strings.HasSuffix(f.Pkg.Pkg.Path(), "vx/core")
}

func runC05(k *Run) {
	P := k.P
	n := &nilRun{k: k, P: P, dead: map[string]string{}, use: map[string]map[*ssa.Function]bool{}, ginit: map[*ssa.Global]bool{}}
	n.dyn, n.invoked = takenFuncs(P)
	n.trusted = c05Trusted
	var roots []*ssa.Function
	for _, f := range P.funcs {
		if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
			roots = append(roots, f)
			n.dyn[f] = true
		}
		if f.Synthetic != "" && f.Name() == "init" && !closedInit(f) {
			roots = append(roots, f)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if g, ok := addrRoot(st.Addr).(*ssa.Global); ok {
							n.ginit[g] = true
						}
					}
				}
			}
		}
	}
	n.in = P.reachableBut(closedInit, roots...)
	for _, f := range roots {
		for _, m := range sortedKeysG(f.Pkg.Members) {
			if g, ok := f.Pkg.Members[m].(*ssa.Global); ok && f.Name() == "init" && !strings.Contains(m, "$") {
				if isFlag(g) {
					n.flags = append(n.flags, g)
				} else if refType(g.Type().Underlying().(*types.Pointer).Elem()) {
					n.globals = append(n.globals, g)
				}
			}
		}
	}
	var fs []*ssa.Function
	for _, f := range P.funcs {
		if n.in[f] && len(f.Blocks) > 0 {
			fs = append(fs, f)
			k.contract[funcKey(f)] = true
		}
	}
	res := map[*ssa.Function]*FnResult{}
	todo := fs
	slow := map[*ssa.Function]bool{}
	for _, f := range fs {
		slow[f] = ninstr(f) > 1500
	}
	wait := map[*ssa.Function]bool{}
	t0 := time.Now()
	for round := 0; len(todo) > 0; round++ {
		// large functions are looked at when the others have settled
		var now []*ssa.Function
		for _, f := range todo {
			if slow[f] {
				wait[f] = true
			} else {
				now = append(now, f)
			}
		}
		if len(now) == 0 {
			now = todo
			for _, f := range now {
				delete(wait, f)
			}
		}
		again := map[*ssa.Function]bool{}
		for f := range wait {
			again[f] = true
		}
		nk := 0
		for _, r := range verifyAll(now, func(f *ssa.Function) *FnResult { return verifyFn(P, k.specs, f, nil, n.opts(), k.ms, false) }) {
			res[r.fn] = r
			slow[r.fn] = slow[r.fn] || r.millis > 2500
			for _, ob := range r.obls {
				if ob.kind != "fact" || ob.status == "valid" {
					continue
				}
				if _, d := n.dead[ob.clause]; !d {
					nk++
					n.dead[ob.clause] = ob.name + " at " + ob.pos
					if os.Getenv("GOVC_V") != "" {
						fmt.Fprintln(os.Stderr, "drop", round, ob.clause, "|", ob.name, ob.pos, ob.status)
					}
				}
				for f := range n.use[ob.clause] {
					again[f] = true
				}
			}
		}
		if os.Getenv("GOVC_V") != "" {
			fmt.Fprintln(os.Stderr, "round", round, time.Since(t0), "functions", len(now), "dropped", nk)
		}
		todo = nil
		for _, f := range fs {
			if again[f] {
				todo = append(todo, f)
			}
		}
	}
	var rs []*FnResult
	for _, f := range fs {
		rs = append(rs, res[f])
	}
	k.results = rs
	alive := 0
	var dead []string
	for key := range n.use {
		if w, d := n.dead[key]; d {
			dead = append(dead, key+" (may be nil: "+w+")")
		} else {
			alive++
		}
	}
	sort.Strings(dead)
	k.extra["trusted_fields"] = n.trusted
	k.extra["facts_proved"] = alive
	k.extra["places_that_may_hold_nil"] = dead
	if os.Getenv("GOVC_V") != "" {
		for _, d := range dead {
			fmt.Fprintln(os.Stderr, "dead", d)
		}
	}
}

func c05Search(k *Run, f *Failure) string {
	return k.once("crash", func() string { return k.scenario("crash", 240*time.Second) })
}
