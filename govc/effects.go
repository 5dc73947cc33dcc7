package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Eff says "writes key on object tgt": tgt >= 0 is the object passed as that
// parameter, -1 is any object.
type Eff struct {
	key string
	tgt int
}

const (
	oAny   = -1
	oFresh = -2
)

type origins map[int]bool

// Effects is the inferred frame of one function: what it may write among
// objects that existed before the call, and where its results come from.
type Effects struct {
	mods    map[Eff]bool
	rets    []origins
	touched map[string]bool // heap keys read or written, transitively for inlining
}

func (e *Effects) keys() []string {
	m := map[string]bool{}
	for k := range e.mods {
		m[k.key] = true
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func isArrayPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

// isCell says whether an Alloc is handled as a local variable (not a heap object).
func isCell(a *ssa.Alloc) bool {
	el := a.Type().Underlying().(*types.Pointer).Elem()
	if _, ok := el.Underlying().(*types.Array); ok {
		return true
	}
	if !a.Heap {
		return true
	}
	if _, ok := el.Underlying().(*types.Struct); ok {
		if nt, ok := types.Unalias(el).(*types.Named); ok && recName(nt) != "" {
			return false
		}
	}
	return true // escaping scalar (captured variable): handled as a cell that is havocked
}

// onlyRead: the loaded value is not a way to write what it refers to.
func onlyRead(v ssa.Value) bool {
	switch v.Type().Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
	default:
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			for _, u := range *x.Referrers() {
				if l, ok := u.(*ssa.UnOp); !ok || l.Op != token.MUL {
					return false
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// escapes says whether a cell's address flows somewhere other than loads, stores,
// field/index addressing and slicing.
func cellEscapes(a *ssa.Alloc) bool {
	var chk func(v ssa.Value) bool
	chk = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if x.Val == v {
					return true
				}
			case *ssa.FieldAddr:
				if chk(x) {
					return true
				}
			case *ssa.IndexAddr:
				if chk(x) {
					return true
				}
			case *ssa.Slice:
			case ssa.CallInstruction:
				cal := x.Common().StaticCallee()
				if !(isBuilderPtr(v.Type()) && cal != nil && cal.Signature.Recv() != nil && !inRepo(cal)) {
					return true
				}
			case *ssa.MakeClosure:
				// a closure that only reads the variable
				for i, b := range x.Bindings {
					if b != v {
						continue
					}
					for _, u := range *x.Fn.(*ssa.Function).FreeVars[i].Referrers() {
						switch u := u.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
							if uo, ok := u.(*ssa.UnOp); ok && !onlyRead(uo) {
								return true
							}
						default:
							return true
						}
					}
				}
			default:
				return true
			}
		}
		return false
	}
	return chk(a)
}

func (P *Prog) computeEffects() {
	for _, f := range P.funcs {
		P.eff[f] = &Effects{mods: map[Eff]bool{}, rets: make([]origins, f.Signature.Results().Len()), touched: map[string]bool{}}
		for i := range P.eff[f].rets {
			P.eff[f].rets[i] = origins{}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range P.funcs {
			if P.effectsOf(f) {
				changed = true
			}
		}
	}
}

// methodsNamed lists repo methods with the given name (targets of dynamic dispatch).
func (P *Prog) methodsNamed(name string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.funcs {
		if f.Signature.Recv() != nil && f.Name() == name {
			out = append(out, f)
		}
	}
	return out
}

func (P *Prog) originOf(f *ssa.Function, v ssa.Value) origins {
	out := origins{}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeClosure, *ssa.MakeChan, *ssa.MakeSlice:
			out[oFresh] = true
		case *ssa.Const:
			out[oFresh] = true
		case *ssa.Parameter:
			for i, p := range f.Params {
				if p == x {
					out[i] = true
				}
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.FieldAddr:
			rec(x.X)
		case *ssa.ChangeType:
			rec(x.X)
		case *ssa.Slice:
			if isArrayPtr(x.X.Type()) {
				out[oFresh] = true
			} else {
				rec(x.X)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				rec(x.Call.Args[0])
				return
			}
			P.retOrigins(f, x, 0, out, rec)
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				P.retOrigins(f, c, x.Index, out, rec)
			} else {
				out[oAny] = true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if a, ok := x.X.(*ssa.Alloc); ok && isCell(a) && !cellEscapes(a) {
					for _, r := range *a.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == a {
							rec(st.Val)
						}
					}
					return
				}
			}
			out[oAny] = true
		default:
			out[oAny] = true
		}
	}
	rec(v)
	return out
}

func (P *Prog) retOrigins(f *ssa.Function, c *ssa.Call, idx int, out origins, rec func(ssa.Value)) {
	cal := c.Call.StaticCallee()
	if cal == nil || !inRepo(cal) || P.eff[cal] == nil {
		if cal != nil && idx < cal.Signature.Results().Len() {
			// library results are freshly built (strings.Split, ...)
			if sl, ok := cal.Signature.Results().At(idx).Type().Underlying().(*types.Slice); ok {
				if _, ok := sl.Elem().Underlying().(*types.Basic); ok {
					out[oFresh] = true
					return
				}
			}
		}
		out[oAny] = true
		return
	}
	for o := range P.eff[cal].rets[idx] {
		if o >= 0 {
			rec(c.Call.Args[o])
		} else {
			out[o] = true
		}
	}
}

// sliceFresh says whether a slice value was certainly created during this call.
func (P *Prog) sliceFresh(f *ssa.Function, v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeSlice:
			return true
		case *ssa.Const:
			return true
		case *ssa.Slice:
			if isArrayPtr(x.X.Type()) {
				return true
			}
			return rec(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !rec(e) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return rec(x.Call.Args[0])
			}
			if cal := x.Call.StaticCallee(); cal != nil {
				if !inRepo(cal) {
					return true // library results are freshly built (strings.Split, ...)
				}
				return P.retSliceFresh(cal)
			}
		}
		return false
	}
	return rec(v)
}

var retSliceFreshMemo = map[*ssa.Function]int{}

func (P *Prog) retSliceFresh(f *ssa.Function) bool {
	if m := retSliceFreshMemo[f]; m != 0 {
		return m == 1
	}
	retSliceFreshMemo[f] = 2 // pessimistic on recursion
	ok := true
	for _, b := range f.Blocks {
		if r, isr := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isr {
			for _, v := range r.Results {
				if _, isS := v.Type().Underlying().(*types.Slice); isS && !P.sliceFresh(f, v) {
					ok = false
				}
			}
		}
	}
	if ok {
		retSliceFreshMemo[f] = 1
	}
	return ok
}

// addrRoot follows FieldAddr/IndexAddr to the root address.
func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if isArrayPtr(x.X.Type()) {
				v = x.X
			} else {
				return v
			}
		default:
			return v
		}
	}
}

// storeEffects lists the effects of a store to the given address.
func (P *Prog) storeEffects(f *ssa.Function, addr ssa.Value) []Eff {
	switch x := addr.(type) {
	case *ssa.Global:
		return []Eff{{globalKey(x), oAny}}
	case *ssa.Alloc:
		if isCell(x) {
			return nil
		}
	case *ssa.IndexAddr:
		if isArrayPtr(x.X.Type()) {
			return P.storeEffects(f, x.X)
		}
		if P.sliceFresh(f, x.X) {
			return nil
		}
		out := P.effOn(f, x.X, "e:"+shortTypes(x.Type().(*types.Pointer).Elem().String()))
		if ld, ok := x.X.(*ssa.UnOp); ok && ld.Op == token.MUL {
			out = append(out, P.storeEffects(f, ld.X)...)
		}
		return out
	case *ssa.FieldAddr:
		root := addrRoot(x)
		if a, ok := root.(*ssa.Alloc); ok && isCell(a) {
			return nil
		}
		if ia, ok := root.(*ssa.IndexAddr); ok {
			return P.storeEffects(f, ia)
		}
		// outermost struct field of a heap object
		fa := x
		for {
			if in, ok := fa.X.(*ssa.FieldAddr); ok {
				fa = in
				continue
			}
			break
		}
		if g, ok := fa.X.(*ssa.Global); ok {
			return []Eff{{globalKey(g), oAny}}
		}
		st, nt := structOf(fa.X.Type())
		if nt == nil {
			return []Eff{{"f:?", oAny}}
		}
		k := fieldKey(nt, st.Field(fa.Field).Name())
		return P.effOn(f, fa.X, k)
	}
	// store through a pointer value: whole object
	st, nt := structOf(addr.Type())
	if st != nil && nt != nil {
		var out []Eff
		for i := 0; i < st.NumFields(); i++ {
			out = append(out, P.effOn(f, addr, fieldKey(nt, st.Field(i).Name()))...)
		}
		return out
	}
	return []Eff{{"p:" + shortTypes(addr.Type().String()), oAny}}
}

func (P *Prog) effOn(f *ssa.Function, base ssa.Value, key string) []Eff {
	var out []Eff
	for o := range P.originOf(f, base) {
		if o == oFresh {
			continue
		}
		out = append(out, Eff{key, o})
	}
	return out
}

// callEffects lists the effects of a call instruction in f.
func (P *Prog) callEffects(f *ssa.Function, c *ssa.CallCommon) []Eff {
	var out []Eff
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			return P.effOn(f, c.Args[0], mapKey(c.Args[0].Type()))
		case "copy":
			if !P.sliceFresh(f, c.Args[0]) {
				return P.effOn(f, c.Args[0], "e:copy")
			}
		}
		return nil
	}
	if c.IsInvoke() {
		for _, m := range P.methodsNamed(c.Method.Name()) {
			for e := range P.eff[m].mods {
				out = append(out, Eff{e.key, oAny})
			}
		}
		return out
	}
	cal := c.StaticCallee()
	if cal == nil {
		// call of a function value: closures of this function are accounted for at MakeClosure
		return nil
	}
	if !inRepo(cal) || P.eff[cal] == nil {
		// library: sort.Strings and friends write the elements of their argument
		if cal.Pkg != nil && cal.Pkg.Pkg.Path() == "sort" && len(c.Args) > 0 && !P.sliceFresh(f, c.Args[0]) {
			return P.effOn(f, c.Args[0], "e:sort")
		}
		if n := cal.String(); n == "maps.Copy" || cal.Origin() != nil && cal.Origin().String() == "maps.Copy" {
			return P.effOn(f, c.Args[0], mapKey(c.Args[0].Type()))
		}
		return nil
	}
	for e := range P.eff[cal].mods {
		if e.tgt < 0 {
			out = append(out, e)
			continue
		}
		for o := range P.originOf(f, c.Args[e.tgt]) {
			if o == oFresh {
				continue
			}
			out = append(out, Eff{e.key, o})
		}
	}
	return out
}

func (P *Prog) instrEffects(f *ssa.Function, in ssa.Instruction) []Eff {
	switch x := in.(type) {
	case *ssa.Store:
		return P.storeEffects(f, x.Addr)
	case *ssa.MapUpdate:
		return P.effOn(f, x.Map, mapKey(x.Map.Type()))
	case ssa.CallInstruction:
		return P.callEffects(f, x.Common())
	case *ssa.MakeClosure:
		var out []Eff
		for e := range P.eff[x.Fn.(*ssa.Function)].mods {
			out = append(out, Eff{e.key, oAny})
		}
		return out
	}
	return nil
}

func (P *Prog) effectsOf(f *ssa.Function) bool {
	e := P.eff[f]
	changed := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, x := range P.instrEffects(f, in) {
				if !e.mods[x] {
					e.mods[x] = true
					changed = true
				}
			}
			if r, ok := in.(*ssa.Return); ok {
				for i, v := range r.Results {
					for o := range P.originOf(f, v) {
						if !e.rets[i][o] {
							e.rets[i][o] = true
							changed = true
						}
					}
				}
			}
		}
	}
	return changed
}
