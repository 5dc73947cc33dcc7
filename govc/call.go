package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) call(fr *Frame, st *State, in ssa.Instruction, cc *ssa.CallCommon, rt types.Type) *Val {
	if ex.o.afterCall == nil {
		return ex.call1(fr, st, in, cc, rt)
	}
	pre := st.clone()
	v := ex.call1(fr, st, in, cc, rt)
	ex.o.afterCall(ex, fr, pre, st, in, cc, v)
	return v
}

func (ex *Exec) call1(fr *Frame, st *State, in ssa.Instruction, cc *ssa.CallCommon, rt types.Type) *Val {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return ex.builtin(fr, st, in, b, cc, rt)
	}
	var args []*Val
	if cc.IsInvoke() {
		args = append(args, ex.val(fr, st, cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, ex.val(fr, st, a))
	}
	if cc.IsInvoke() {
		return ex.invoke(fr, st, in, cc, args, rt)
	}
	cal := cc.StaticCallee()
	if cal == nil {
		ex.assumedExt["call of a function value in "+funcKey(fr.fn)+" abstracted"] = true
		return ex.freshResult(st, "dyn", rt)
	}
	if !inRepo(cal) || len(cal.Blocks) == 0 {
		return ex.libcall(fr, st, in, cal, cc, args, rt)
	}
	if ex.o.typeInv && !(ex.willInline(fr, cal)) {
		for i, a := range args {
			if a.t != nil && i < len(cal.Params) {
				ex.checkTypeInv(fr, st, cal.Params[i].Type(), a.t, in.Pos(), "arg")
			}
		}
	}
	if ct := ex.o.contracts[funcKey(cal)]; ct != nil && ct.usable() {
		if ex.o.inlineContracted && !ct.pure && ex.willInline(fr, cal) {
			return ex.callBoth(fr, st, in, cal, ct, args, rt)
		}
		return ex.callContract(fr, st, in, cal, ct, args, rt)
	}
	if ex.willInline(fr, cal) {
		return ex.inlineCall(fr, st, in, cal, args, rt)
	}
	return ex.callHavoc(fr, st, in, cal, args, rt)
}

func (ex *Exec) willInline(fr *Frame, cal *ssa.Function) bool {
	if ct := ex.o.contracts[funcKey(cal)]; ct != nil && ct.usable() && (!ex.o.inlineContracted || ex.P.recursive[cal] || ct.pure) {
		return false
	}
	for _, s := range ex.stack {
		if s == cal {
			return false
		}
	}
	if ex.o.lifted[cal] && !fr.muted {
		return true
	}
	if fr.depth >= ex.o.maxDepth {
		return false
	}
	if ex.o.inline == nil {
		return false
	}
	return ex.o.inline(fr, cal)
}

func (ex *Exec) inlineCall(fr *Frame, st *State, in ssa.Instruction, cal *ssa.Function, args []*Val, rt types.Type) *Val {
	c := ex.c
	ex.nframe++
	path := fr.path
	if path != "" {
		path += "/"
	}
	path += cal.Name()
	nf := &Frame{id: ex.nframe, fn: cal, vals: map[ssa.Value]*Val{}, depth: fr.depth + 1, path: path, args: args}
	nf.muted = fr.muted || ex.o.muteInlined && !ex.o.lifted[cal]
	for i, p := range cal.Params {
		if i < len(args) {
			nf.vals[p] = args[i]
		}
	}
	nf.entry = st.clone()
	ex.stack = append(ex.stack, cal)
	rets, ok := ex.run(nf, st.clone())
	ex.stack = ex.stack[:len(ex.stack)-1]
	if !ok || len(rets) == 0 {
		ex.assume(st, c.False())
		return ex.freshResult(st, "noret", rt)
	}
	cond := st.cond
	ms, vals := ex.mergeRets(rets, cal)
	*st = *ms
	if st.cond != cond {
		ex.assumes = append(ex.assumes, c.Implies(cond, st.cond))
		st.cond = cond
	}
	// drop the callee's local cells
	for k := range st.cells {
		if k.frame == nf.id {
			delete(st.cells, k)
		}
	}
	return packRes(vals, rt)
}

func packRes(vals []*Val, rt types.Type) *Val {
	if tt, ok := rt.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return &Val{}
		}
		return &Val{tup: vals}
	}
	if len(vals) == 0 {
		return &Val{}
	}
	return vals[0]
}

func (ex *Exec) mergeRets(rets []retPoint, f *ssa.Function) (*State, []*Val) {
	var es []edge
	for _, r := range rets {
		es = append(es, edge{nil, r.st})
	}
	ms := ex.merge(es)
	n := len(rets[0].vals)
	vals := make([]*Val, n)
	for j := 0; j < n; j++ {
		t := rets[len(rets)-1].vals[j]
		for i := len(rets) - 2; i >= 0; i-- {
			v := rets[i].vals[j]
			if v == t {
				continue
			}
			t = &Val{t: ex.c.Ite(rets[i].st.cond, ex.plain(v), ex.plain(t))}
		}
		vals[j] = t
	}
	return ms, vals
}

func (ex *Exec) freshResult(st *State, hint string, rt types.Type) *Val {
	if tt, ok := rt.(*types.Tuple); ok {
		v := &Val{}
		for i := 0; i < tt.Len(); i++ {
			t := ex.freshOf(hint, tt.At(i).Type())
			ex.wellFormed(st, tt.At(i).Type(), t)
			v.tup = append(v.tup, &Val{t: t})
		}
		return v
	}
	if rt == nil {
		return &Val{}
	}
	t := ex.freshOf(hint, rt)
	ex.wellFormed(st, rt, t)
	return &Val{t: t}
}

// keysFor expands an effect key to the state components it covers.
func (ex *Exec) keysFor(key string) []string {
	if strings.HasPrefix(key, "m:") {
		return []string{key + ":dom", key + ":val"}
	}
	return []string{key}
}

// havocEffects applies an inferred frame: only the listed components change.
func (ex *Exec) havocEffects(st *State, cal *ssa.Function, args []*Val) {
	c := ex.c
	eff := ex.P.eff[cal]
	type kt struct {
		key string
		any bool
	}
	anyk := map[string]bool{}
	par := map[string][]int{}
	for e := range eff.mods {
		if e.tgt < 0 {
			anyk[e.key] = true
		} else {
			par[e.key] = append(par[e.key], e.tgt)
		}
	}
	for _, k := range sortedKeys(anyk) {
		for _, hk := range ex.keysFor(k) {
			if srt, ok := ex.keys[hk]; ok {
				st.heap[hk] = c.Fresh("H."+sanitize(hk), srt)
			}
		}
	}
	for _, k := range sortedKeysI(par) {
		if anyk[k] {
			continue
		}
		for _, hk := range ex.keysFor(k) {
			srt, ok := ex.keys[hk]
			if !ok {
				continue
			}
			for _, tgt := range par[k] {
				if tgt >= len(args) || args[tgt].t == nil {
					st.heap[hk] = c.Fresh("H."+sanitize(hk), srt)
					continue
				}
				st.heap[hk] = c.Store(ex.heap(st, hk, srt), args[tgt].t, c.Fresh("hv."+sanitize(hk), arrElem(srt)))
			}
		}
	}
	for _, hk := range sortedKeysS(ex.keys) {
		if strings.HasPrefix(hk, "ghost:") && !strings.HasPrefix(hk, "ghost:visited") && ex.o.ghostHavoc != nil {
			ex.o.ghostHavoc(ex, st, hk, cal)
		}
	}
	na := c.Fresh("alloc", "Int")
	ex.assume(st, c.Le(ex.heap(st, "alloc", "Int"), na))
	st.heap["alloc"] = na
}

func (ex *Exec) havocResults(st *State, cal *ssa.Function, args []*Val, rt types.Type, alloc0 *Term) []*Term {
	c := ex.c
	var res []*Term
	sig := cal.Signature.Results()
	eff := ex.P.eff[cal]
	for i := 0; i < sig.Len(); i++ {
		t := ex.freshOf("r."+cal.Name(), sig.At(i).Type())
		ex.wellFormed(st, sig.At(i).Type(), t)
		if isPtrLike(sig.At(i).Type()) {
			os := eff.rets[i]
			if !os[oAny] && len(os) > 0 {
				var alts []*Term
				for o := range os {
					if o >= 0 {
						if o < len(args) && args[o].t != nil && args[o].t.sort == "Int" {
							alts = append(alts, c.Eq(t, args[o].t))
						} else {
							alts = append(alts, c.True())
						}
					} else if o == oFresh {
						alts = append(alts, c.Lt(alloc0, t), c.Eq(t, c.Int(0)))
					}
				}
				ex.assume(st, c.Or(alts...))
			}
			if ex.P.retNonNil(cal, i) {
				ex.assume(st, c.Lt(c.Int(0), t))
			}
		}
		res = append(res, t)
	}
	return res
}

func (ex *Exec) callHavoc(fr *Frame, st *State, in ssa.Instruction, cal *ssa.Function, args []*Val, rt types.Type) *Val {
	a0 := ex.heap(st, "alloc", "Int")
	ex.havocEffects(st, cal, args)
	res := ex.havocResults(st, cal, args, rt, a0)
	if ex.o.hookCall != nil {
		ex.o.hookCall(ex, fr, st, in, cal, args, res)
	}
	var vs []*Val
	for _, t := range res {
		vs = append(vs, &Val{t: t})
	}
	return packRes(vs, rt)
}

func (ex *Exec) callContract(fr *Frame, st *State, in ssa.Instruction, cal *ssa.Function, ct *Contract, args []*Val, rt types.Type) *Val {
	pre := st.clone()
	env := ex.contractEnv(ct, cal, args, nil, st, pre)
	if !ex.o.noCallPre {
		for _, r := range ct.requires {
			g, err := env.boolean(r.expr)
			if err != nil {
				ex.specError(ct, r, err)
				continue
			}
			ex.oblige(fr, st, "pre", cal.Name()+"."+r.name, in.Pos(), g)
		}
	}
	a0 := ex.heap(st, "alloc", "Int")
	if !ct.pure {
		ex.havocEffects(st, cal, args)
	}
	var res []*Term
	if ct.pure && cal.Signature.Results().Len() == 1 {
		// a function of its arguments (and, if it reads the heap, of the components it reads)
		res = []*Term{ex.pureResult(st, cal, ct, args)}
		ex.wellFormed(st, cal.Signature.Results().At(0).Type(), res[0])
	} else {
		res = ex.havocResults(st, cal, args, rt, a0)
	}
	env = ex.contractEnv(ct, cal, args, res, st, pre)
	for _, e := range ct.ensures {
		if !ex.clauseOn(e) {
			continue
		}
		g, err := env.boolean(e.expr)
		if err != nil {
			ex.specError(ct, e, err)
			continue
		}
		ex.assume(st, g)
	}
	if ex.o.hookCall != nil {
		ex.o.hookCall(ex, fr, st, in, cal, args, res)
	}
	var vs []*Val
	for _, t := range res {
		vs = append(vs, &Val{t: t})
	}
	return packRes(vs, rt)
}

// callBoth inlines a callee that has a contract: its precondition is an
// obligation, its postcondition is available on top of its body.
func (ex *Exec) callBoth(fr *Frame, st *State, in ssa.Instruction, cal *ssa.Function, ct *Contract, args []*Val, rt types.Type) *Val {
	pre := st.clone()
	env := ex.contractEnv(ct, cal, args, nil, st, pre)
	for _, r := range ct.requires {
		g, err := env.boolean(r.expr)
		if err != nil {
			ex.specError(ct, r, err)
			continue
		}
		ex.oblige(fr, st, "pre", cal.Name()+"."+r.name, in.Pos(), g)
	}
	v := ex.inlineCall(fr, st, in, cal, args, rt)
	var res []*Term
	if v.tup != nil {
		for _, x := range v.tup {
			res = append(res, ex.plain(x))
		}
	} else if v.t != nil || v.addr != nil {
		res = append(res, ex.plain(v))
	}
	env = ex.contractEnv(ct, cal, args, res, st, pre)
	for _, e := range ct.ensures {
		g, err := env.boolean(e.expr)
		if err != nil {
			ex.specError(ct, e, err)
			continue
		}
		ex.assume(st, g)
	}
	return v
}

// pureResult names the result of a function without side effects as a function
// of its arguments and of the state components it may read.
func (ex *Exec) pureResult(st *State, cal *ssa.Function, ct *Contract, args []*Val) *Term {
	c := ex.c
	var ts []*Term
	for _, a := range args {
		ts = append(ts, ex.plain(a))
	}
	for _, k := range ex.P.readKeys(cal) {
		for _, hk := range ex.keysFor(k) {
			srt, ok := ex.keys[hk]
			if ok {
				ts = append(ts, ex.heap(st, hk, srt))
			}
		}
	}
	srt := c.sortOf(cal.Signature.Results().At(0).Type())
	return c.App("fn."+funcKey(cal), srt, ts...)
}

func (ex *Exec) clauseOn(cl *Clause) bool {
	return true
}

func (ex *Exec) specError(ct *Contract, cl *Clause, err error) {
	ex.specErrs = append(ex.specErrs, fmt.Sprintf("%s: clause %s: %v", ct.key, cl.name, err))
}

func (ex *Exec) invoke(fr *Frame, st *State, in ssa.Instruction, cc *ssa.CallCommon, args []*Val, rt types.Type) *Val {
	ms := ex.P.methodsNamed(cc.Method.Name())
	c := ex.c
	if len(ms) > 0 && cc.Method.Pkg() != nil && strings.HasPrefix(cc.Method.Pkg().Path(), "vxlisp") {
		// every implementation may run
		for _, m := range ms {
			for e := range ex.P.eff[m].mods {
				for _, hk := range ex.keysFor(e.key) {
					if srt, ok := ex.keys[hk]; ok {
						st.heap[hk] = c.Fresh("H."+sanitize(hk), srt)
					}
				}
			}
		}
		na := c.Fresh("alloc", "Int")
		ex.assume(st, c.Le(ex.heap(st, "alloc", "Int"), na))
		st.heap["alloc"] = na
	} else {
		ex.assumedExt["interface method "+cc.Method.FullName()] = true
	}
	return ex.freshResult(st, "inv."+cc.Method.Name(), rt)
}

func (ex *Exec) builtin(fr *Frame, st *State, in ssa.Instruction, b *ssa.Builtin, cc *ssa.CallCommon, rt types.Type) *Val {
	c := ex.c
	arg := func(i int) *Term { return ex.term(fr, st, cc.Args[i]) }
	switch b.Name() {
	case "len", "cap":
		return &Val{t: ex.lenOf(st, arg(0), cc.Args[0].Type())}
	case "append":
		s := arg(0)
		if len(cc.Args) == 1 {
			return &Val{t: s}
		}
		b2 := arg(1)
		if b2.sort == c.StrSort() {
			r := ex.freshOf("appstr", rt)
			ex.assume(st, c.Eq(c.SLen(r), c.Add(c.SLen(s), c.StrLen(b2))))
			return &Val{t: r}
		}
		return &Val{t: ex.appendSlices(st, s, b2)}
	case "copy":
		d, s := arg(0), arg(1)
		n := c.Ite(c.Le(c.SLen(d), ex.lenOf(st, s, cc.Args[1].Type())), c.SLen(d), ex.lenOf(st, s, cc.Args[1].Type()))
		if isSliceSort(s.sort) && s.sort == d.sort {
			na := c.Fresh("copied", c.SArr(d).sort)
			i := c.BVar("i!", "Int")
			in0 := c.And(c.Le(c.Int(0), i), c.Lt(i, n))
			ex.assume(st, c.Forall([]*Term{i}, c.Eq(c.Select(na, i), c.Ite(in0, c.SGet(s, i), c.SGet(d, i))), c.Select(na, i)))
			st.cells[cellKey{fr.id, cc.Args[0]}] = c.MkSlice(na, c.SLen(d))
		}
		return &Val{t: n}
	case "delete":
		m, k := arg(0), arg(1)
		dk, ds, _, _ := ex.mapKeys(cc.Args[0].Type())
		d := ex.heap(st, dk, ds)
		st.heap[dk] = c.Ite(c.Eq(m, c.Int(0)), d, c.Store(d, m, c.Store(c.Select(d, m), k, c.False())))
		return &Val{}
	case "min", "max":
		r := arg(0)
		for i := 1; i < len(cc.Args); i++ {
			a := arg(i)
			if r.sort != "Int" {
				return ex.freshResult(st, "minmax", rt)
			}
			if b.Name() == "min" {
				r = c.Ite(c.Le(r, a), r, a)
			} else {
				r = c.Ite(c.Le(r, a), a, r)
			}
		}
		return &Val{t: r}
	case "print", "println", "recover", "close", "clear":
		return ex.freshResult(st, b.Name(), rt)
	}
	ex.assumedExt["builtin "+b.Name()+" abstracted"] = true
	return ex.freshResult(st, b.Name(), rt)
}

func (ex *Exec) lenOf(st *State, v *Term, t types.Type) *Term {
	c := ex.c
	switch t.Underlying().(type) {
	case *types.Basic:
		return c.StrLen(v)
	case *types.Slice:
		return c.SLen(v)
	case *types.Map:
		dk, ds, _, _ := ex.mapKeys(t)
		dom := c.Select(ex.heap(st, dk, ds), v)
		n := c.App("card."+sanitize(dom.sort), "Int", dom)
		k := c.BVar("k!", arrKey(dom.sort))
		if !n.bound {
			c.termfacts[n.id] = []*Term{c.Le(c.Int(0), n), c.Eq(c.Eq(n, c.Int(0)), c.Forall([]*Term{k}, c.Not(c.Select(dom, k))))}
		}
		return c.Ite(c.Eq(v, c.Int(0)), c.Int(0), n)
	case *types.Pointer:
		if isArrayPtr(t) {
			return c.Int(t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		}
	case *types.Array:
		return c.Int(t.Underlying().(*types.Array).Len())
	}
	r := c.Fresh("len", "Int")
	ex.assume(st, c.Le(c.Int(0), r))
	return r
}

// ---------------------------------------------------------------- library models

func isBuilderPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s := p.Elem().String()
	return s == "strings.Builder" || s == "bytes.Buffer"
}

// libcall models a library function; everything used here is part of the trusted base.
func (ex *Exec) libcall(fr *Frame, st *State, in ssa.Instruction, cal *ssa.Function, cc *ssa.CallCommon, args []*Val, rt types.Type) *Val {
	c := ex.c
	name := cal.String()
	if o := cal.Origin(); o != nil {
		name = o.String()
	}
	if ex.o.hookLib != nil {
		if v, ok := ex.o.hookLib(ex, fr, st, in, name, args, rt); ok {
			return v
		}
	}
	ex.assumedExt["library function "+name] = true
	a := func(i int) *Term { return ex.plain(args[i]) }
	one := func(t *Term) *Val { return &Val{t: t} }
	S := c.StrSort()
	if len(args) > 0 && len(cc.Args) > 0 && cal.Signature.Recv() != nil && isBuilderPtr(cc.Args[0].Type()) && args[0].addr != nil && !args[0].addr.escaped {
		ad := args[0].addr
		cur := ex.load(st, ad)
		switch cal.Name() {
		case "WriteString":
			ex.store(st, ad, c.StrCat(cur, a(1)))
			return &Val{tup: []*Val{{t: c.StrLen(a(1))}, {t: c.anyNil()}}}
		case "WriteByte", "WriteRune":
			ex.store(st, ad, c.StrCat(cur, ex.convert(st, a(1), types.Typ[types.Int32], types.Typ[types.String])))
			return ex.freshResult(st, "wb", rt)
		case "String":
			return one(cur)
		case "Len":
			return one(c.StrLen(cur))
		case "Reset":
			ex.store(st, ad, c.Str(""))
			return &Val{}
		case "Grow":
			return &Val{}
		}
	}
	switch name {
	case "strings.Contains":
		return one(c.strFn("contains", "Bool", a(0), a(1)))
	case "strings.HasPrefix":
		return one(c.strFn("prefix", "Bool", a(0), a(1)))
	case "strings.HasSuffix":
		return one(c.strFn("suffix", "Bool", a(0), a(1)))
	case "strings.Index":
		return one(c.strFn("index", "Int", a(0), a(1)))
	case "strings.LastIndex":
		return one(c.strFn("lastindex", "Int", a(0), a(1)))
	case "strings.ReplaceAll":
		return one(c.strFn("replaceall", S, a(0), a(1), a(2)))
	case "strings.Replace":
		if n, ok := isInt(a(3)); ok && n < 0 {
			return one(c.strFn("replaceall", S, a(0), a(1), a(2)))
		}
	case "strings.ToUpper":
		return one(c.strFn("toupper", S, a(0)))
	case "strings.ToLower":
		return one(c.strFn("tolower", S, a(0)))
	case "strings.Repeat":
		ex.oblige(fr, st, "repeat", "", in.Pos(), c.Le(c.Int(0), a(1)))
		return one(c.strFn("repeat", S, a(0), a(1)))
	case "strings.TrimPrefix":
		p := c.strFn("prefix", "Bool", a(0), a(1))
		return one(c.Ite(p, c.StrSub(a(0), c.StrLen(a(1)), c.StrLen(a(0))), a(0)))
	case "strings.TrimSuffix":
		p := c.strFn("suffix", "Bool", a(0), a(1))
		return one(c.Ite(p, c.StrSub(a(0), c.Int(0), c.Sub(c.StrLen(a(0)), c.StrLen(a(1)))), a(0)))
	case "strings.Join":
		return one(c.joinFn(a(0), a(1)))
	case "strings.Split":
		r := c.App("go.split", sliceSort(S), a(0), a(1))
		ex.assume(st, c.Implies(c.Not(c.Eq(a(1), c.Str(""))), c.Le(c.Int(1), c.SLen(r))))
		ex.assume(st, c.Le(c.Int(0), c.SLen(r)))
		return one(r)
	case "strings.Count":
		r := c.App("go.count", "Int", a(0), a(1))
		ex.assume(st, c.Le(c.Int(0), r))
		return one(r)
	case "strings.EqualFold":
		return one(c.Eq(c.strFn("tolower", S, a(0)), c.strFn("tolower", S, a(1))))
	case "strconv.Itoa":
		return one(c.itoa(a(0)))
	case "sort.Strings", "slices.Sort":
		return ex.sortStrings(fr, st, cc, args)
	case "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintln", "fmt.Fprintf", "fmt.Fprint", "log.Println", "log.Printf":
		return ex.freshResult(st, "io", rt)
	case "log.Fatal", "log.Fatalf", "os.Exit":
		ex.assume(st, c.False())
		return ex.freshResult(st, "exit", rt)
	case "maps.Copy":
		// entries of the second map are added to the first
		d, s := a(0), a(1)
		ex.oblige(fr, st, "nilmap", "", in.Pos(), c.Or(c.Not(c.Eq(d, c.Int(0))), c.Eq(ex.lenOf(st, s, cc.Args[1].Type()), c.Int(0))))
		dk, ds, vk, vs := ex.mapKeys(cc.Args[0].Type())
		for _, kk := range [][2]string{{dk, ds}, {vk, vs}} {
			h := ex.heap(st, kk[0], kk[1])
			st.heap[kk[0]] = c.Store(h, d, c.Fresh("mc", arrElem(kk[1])))
		}
		return &Val{}
	}
	if cal.Pkg != nil && len(args) > 0 {
		// a pure function of its arguments
		switch cal.Pkg.Pkg.Path() {
		case "strings", "strconv", "unicode", "unicode/utf8", "math", "path", "path/filepath", "html":
			if cal.Signature.Recv() == nil && cal.Name() != "Walk" && cal.Name() != "WalkDir" && cal.Name() != "Abs" {
				ok := true
				var ts []*Term
				for _, v := range args {
					if v.t == nil {
						ok = false
						break
					}
					ts = append(ts, v.t)
				}
				if ok {
					rs := cal.Signature.Results()
					var vs []*Val
					for i := 0; i < rs.Len(); i++ {
						t := c.App(fmt.Sprintf("lib.%s.%d", name, i), c.sortOf(rs.At(i).Type()), ts...)
						ex.wellFormed(st, rs.At(i).Type(), t)
						vs = append(vs, &Val{t: t})
					}
					return packRes(vs, rt)
				}
			}
		}
	}
	return ex.freshResult(st, "lib."+cal.Name(), rt)
}

func (c *Ctx) itoa(n *Term) *Term {
	if v, ok := isInt(n); ok {
		return c.Str(fmt.Sprint(v))
	}
	t := c.App("go.itoa", c.StrSort(), n)
	if !t.bound {
		c.termfacts[t.id] = []*Term{c.Le(c.Int(1), c.StrLen(t)), c.Eq(c.App("go.unitoa", "Int", t), n)}
	}
	return t
}

// joinFn is strings.Join; a join of a slice of known length is a concatenation.
func (c *Ctx) joinFn(s, sep *Term) *Term {
	if n, ok := isInt(c.SLen(s)); ok && n <= 12 {
		r := c.Str("")
		for i := int64(0); i < n; i++ {
			if i > 0 {
				r = c.StrCat(r, sep)
			}
			r = c.StrCat(r, c.SGet(s, c.Int(i)))
		}
		return r
	}
	S := c.StrSort()
	// joinn(array, n, sep): join of the first n elements
	return c.joinN(c.SArr(s), c.SLen(s), sep, S)
}

func (c *Ctx) joinN(arr, n, sep *Term, S string) *Term {
	t := c.App("go.joinn", S, arr, n, sep)
	if c.fnaxioms["go.joinn"] == nil {
		A := c.BVar("a!", "(Array Int "+S+")")
		N := c.BVar("n!", "Int")
		P := c.BVar("p!", S)
		f := func(n *Term) *Term { return c.App("go.joinn", S, A, n, P) }
		g := func(n *Term) *Term { return c.App("go.joinn!0", S, A, n, P) }
		prev := c.Sub(N, c.Int(1))
		body := c.Ite(c.Le(N, c.Int(0)), c.Str(""), c.Ite(c.Eq(N, c.Int(1)), c.Select(A, c.Int(0)),
			c.StrCat(g(prev), c.StrCat(P, c.Select(A, prev)))))
		c.fnaxioms["go.joinn"] = []*Term{
			c.Forall([]*Term{A, N, P}, c.Eq(f(N), body), f(N)),
			c.Forall([]*Term{A, N, P}, c.Eq(f(N), g(N)), f(N)),
		}
	}
	return t
}

// sortStrings: the slice becomes the sorted permutation of itself, which is a
// function of its contents as a multiset.
func (ex *Exec) sortStrings(fr *Frame, st *State, cc *ssa.CallCommon, args []*Val) *Val {
	c := ex.c
	s := ex.plain(args[0])
	na := c.Fresh("sorted", c.SArr(s).sort)
	ns := c.MkSlice(na, c.SLen(s))
	i, j := c.BVar("i!", "Int"), c.BVar("j!", "Int")
	n := c.SLen(s)
	if sliceElem(s.sort) == c.StrSort() {
		ex.assume(st, c.Forall([]*Term{i, j}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, j), c.Lt(j, n)), c.Not(c.StrLt(c.Select(na, j), c.Select(na, i)))), c.Select(na, i), c.Select(na, j)))
	}
	// permutation witness
	pf := c.Fresh("perm", "(Array Int Int)")
	pb := c.Fresh("permi", "(Array Int Int)")
	rng := func(x *Term) *Term { return c.And(c.Le(c.Int(0), x), c.Lt(x, n)) }
	ex.assume(st, c.Forall([]*Term{i}, c.Implies(rng(i), c.And(rng(c.Select(pf, i)), c.Eq(c.Select(na, i), c.SGet(s, c.Select(pf, i))), c.Eq(c.Select(pb, c.Select(pf, i)), i))), c.Select(na, i)))
	ex.assume(st, c.Forall([]*Term{i}, c.Implies(rng(i), c.And(rng(c.Select(pb, i)), c.Eq(c.SGet(s, i), c.Select(na, c.Select(pb, i))), c.Eq(c.Select(pf, c.Select(pb, i)), i))), c.SGet(s, i)))
	// the sorted slice replaces the register and the place it was loaded from
	v := cc.Args[0]
	for {
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
			continue
		}
		break
	}
	st.cells[cellKey{fr.id, v}] = ns
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if src := ex.val(fr, st, ld.X); src.addr != nil {
			ex.store(st, src.addr, ns)
		}
	}
	return &Val{}
}

func sortedKeys(m map[string]bool) []string {
	return sortedKeysG(m)
}
func sortedKeysI(m map[string][]int) []string  { return sortedKeysG(m) }
func sortedKeysS(m map[string]string) []string { return sortedKeysG(m) }
