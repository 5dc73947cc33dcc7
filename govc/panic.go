package main

import (
	"fmt"
	"go/parser"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The tagged union of the compiler: the code of a value decides the dynamic type of its payload.
var valueTags = []struct {
	codes []string
	typ   string
}{
	{[]string{":arg"}, "vxarg"},
	{[]string{":arglist"}, "[]vxarg"},
	{[]string{":const"}, "*vxconst"},
	{[]string{":func", ":funcref"}, "*vxfunc"},
	{[]string{":type"}, "*vxtype"},
	{[]string{"boolean"}, "bool"},
	{[]string{"decimal", "int", "number", "string"}, "string"},
}

func (P *Prog) resolveType(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "[]"):
		if t := P.resolveType(s[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	case strings.HasPrefix(s, "*"):
		if t := P.resolveType(s[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	case s == "bool" || s == "string" || s == "int":
		return types.Universe.Lookup(s).Type()
	}
	return P.lookupType(s)
}

func (P *Prog) lookupType(s string) types.Type {
	for _, p := range P.pkgs {
		if o := p.Pkg.Scope().Lookup(s); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	}
	return nil
}

// valueInv is the data-structure invariant of tagged values, for every struct that contains one.
func valueInv(ex *Exec, t types.Type, v *Term) *Term {
	c := ex.c
	nt, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil
	}
	st, ok := nt.Underlying().(*types.Struct)
	if !ok || recName(nt) == "" {
		return nil
	}
	var cs []*Term
	if nt.Obj().Name() == "vxvalue" {
		ci, ni := -1, -1
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "code":
				ci = i
			case "native":
				ni = i
			}
		}
		if ci >= 0 && ni >= 0 {
			code, nat := ex.proj(v, nt, st, ci), ex.proj(v, nt, st, ni)
			for _, vt := range valueTags {
				ty := ex.P.resolveType(vt.typ)
				if ty == nil {
					continue
				}
				var cd []*Term
				for _, s := range vt.codes {
					cd = append(cd, c.Eq(code, c.Str(s)))
				}
				cs = append(cs, c.Implies(c.Or(cd...), c.Eq(c.Tag(nat), c.typeID(ty))))
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if fnt, ok := types.Unalias(st.Field(i).Type()).(*types.Named); ok && recName(fnt) != "" {
			if _, ok := fnt.Underlying().(*types.Struct); ok {
				if g := valueInv(ex, fnt, ex.proj(v, nt, st, i)); g != nil {
					cs = append(cs, g)
				}
			}
		}
	}
	if len(cs) == 0 {
		return nil
	}
	return c.And(cs...)
}

var maxRounds = 4

var panicKinds = map[string]bool{"index": true, "slice": true, "nilmap": true, "divzero": true, "repeat": true,
	"typeassert": true, "makeslice": true, "panic": true, "pre": true, "post": true, "typeinv": true}

func realFuncs(P *Prog) []*ssa.Function {
	var fs []*ssa.Function
	for _, f := range P.funcs {
		if f.Synthetic != "" && f.Name() == "init" {
			continue
		}
		if len(f.Blocks) == 0 {
			continue
		}
		fs = append(fs, f)
	}
	return fs
}

type liftRun struct {
	P        *Prog
	specs    *Specs
	opts     func() *Opts
	ms       int
	strong   bool
	callers  map[*ssa.Function][]*ssa.Function
	inferred map[*ssa.Function]*Contract
	again    func(f *ssa.Function, ms int) *FnResult
	dyn      map[*ssa.Function]bool // used as a value: not every call site is known
}

// staticCallers computes the call graph restricted to direct calls.
func (P *Prog) staticCallers() (map[*ssa.Function][]*ssa.Function, map[*ssa.Function]bool) {
	cs := map[*ssa.Function][]*ssa.Function{}
	dyn := map[*ssa.Function]bool{}
	for _, f := range P.funcs {
		seen := map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, isCall := in.(ssa.CallInstruction)
				if isCall {
					if cal := call.Common().StaticCallee(); cal != nil && !seen[cal] {
						seen[cal] = true
						cs[cal] = append(cs[cal], f)
					}
					if _, plain := in.(*ssa.Call); !plain {
						if cal := call.Common().StaticCallee(); cal != nil {
							dyn[cal] = true
						}
					}
				}
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for i, op := range ops {
					if op == nil || *op == nil {
						continue
					}
					if isCall && i == 0 && !call.Common().IsInvoke() {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						dyn[g] = true
					}
				}
			}
		}
	}
	for _, f := range P.funcs {
		if f.Signature.Recv() != nil || f.Parent() != nil {
			dyn[f] = true
		}
	}
	return cs, dyn
}

// autoRequires proposes preconditions for a function whose obligations cannot
// be moved to its call sites (it is recursive). Every call site must prove them.
func (lr *liftRun) autoRequires(f *ssa.Function) *Contract {
	ct := &Contract{key: funcKey(f), fn: f, inline: map[string]bool{}, opaque: map[string]bool{}, file: "inferred"}
	add := func(text string) {
		e, err := parser.ParseExpr(text)
		if err == nil {
			ct.requires = append(ct.requires, &Clause{name: text, text: text, expr: e})
		}
	}
	for i, p := range f.Params {
		n := fmt.Sprintf("p%d", i)
		ct.params = append(ct.params, n)
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				add(n + " >= 0")
				for j, q := range f.Params {
					if _, ok := q.Type().Underlying().(*types.Slice); ok {
						add(fmt.Sprintf("%s < len(p%d)", n, j))
						add(fmt.Sprintf("%s <= len(p%d)", n, j))
					}
				}
			}
		case *types.Slice:
			add("len(" + n + ") > 0")
		case *types.Pointer:
			if st, _ := structOf(p.Type()); st != nil {
				for k := 0; k < st.NumFields(); k++ {
					if _, ok := st.Field(k).Type().Underlying().(*types.Slice); ok && lr.reads(f, st.Field(k).Name()) {
						add(fmt.Sprintf("len(%s.%s) > 0", n, st.Field(k).Name()))
					}
				}
			}
		}
	}
	if len(ct.requires) == 0 {
		return nil
	}
	return ct
}

func (lr *liftRun) reads(f *ssa.Function, field string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				if st, _ := structOf(fa.X.Type()); st != nil && st.Field(fa.Field).Name() == field {
					return true
				}
			}
		}
	}
	return false
}

// run decides every function's obligations. An obligation a function cannot
// discharge on its own is moved to each of its call sites; a recursive function
// gets inferred preconditions, proved at each of its call sites.
func (lr *liftRun) run(fs []*ssa.Function) ([]*FnResult, map[*ssa.Function]bool) {
	P := lr.P
	lr.callers, lr.dyn = P.staticCallers()
	infs := map[*ssa.Function]bool{}
	for _, f := range fs {
		infs[f] = true
	}
	lifted := map[*ssa.Function]bool{}
	res := map[*ssa.Function]*FnResult{}
	cts := map[string]*Contract{}
	for k, c := range lr.specs.contracts {
		cts[k] = c
	}
	inferred := map[*ssa.Function]*Contract{}
	verify := func(todo map[*ssa.Function]bool) []*FnResult {
		var l []*ssa.Function
		for _, f := range fs {
			if todo[f] {
				l = append(l, f)
			}
		}
		lm := map[*ssa.Function]bool{}
		for f := range lifted {
			lm[f] = true
		}
		cm := map[string]*Contract{}
		for k, c := range cts {
			cc := *c
			cm[k] = &cc
		}
		rs := verifyAll(l, func(f *ssa.Function) *FnResult {
			o := lr.opts()
			o.lifted = lm
			o.muteInlined = true
			o.contracts = cm
			o.inlineContracted = true
			return verifyFn(P, lr.specs, f, cm[funcKey(f)], o, lr.ms, lr.strong)
		})
		for _, r := range rs {
			res[r.fn] = r
		}
		return rs
	}
	liftable := func(r *FnResult) bool {
		return failed(r) && r.err == "" && !lr.dyn[r.fn] && len(lr.callers[r.fn]) > 0 && !lifted[r.fn] && cts[r.key] == nil
	}
	todo := infs
	for round := 0; round < maxRounds && len(todo) > 0; round++ {
		rs := verify(todo)
		todo = map[*ssa.Function]bool{}
		if round == maxRounds-1 {
			break
		}
		for _, r := range rs {
			if !liftable(r) {
				continue
			}
			if P.recursive[r.fn] {
				if inferred[r.fn] != nil {
					continue
				}
				if ct := lr.autoRequires(r.fn); ct != nil {
					inferred[r.fn] = ct
					cts[r.key] = ct
					todo[r.fn] = true
				}
			} else if ninstr(r.fn) < 400 {
				lifted[r.fn] = true
			} else {
				continue
			}
			for _, g := range lr.callers[r.fn] {
				todo[g] = true
			}
		}
	}
	// drop inferred preconditions that some call site cannot prove
	for round := 0; round < 12 && len(inferred) > 0; round++ {
		drop := map[string]map[string]bool{}
		for _, r := range res {
			for _, o := range r.obls {
				if o.kind == "pre" && o.status != "valid" {
					k := strings.Index(o.clause, ".")
					for f, ct := range inferred {
						if f.Name() == o.clause[:k] && cts[ct.key] == ct {
							if drop[ct.key] == nil {
								drop[ct.key] = map[string]bool{}
							}
							drop[ct.key][o.clause[k+1:]] = true
						}
					}
				}
			}
		}
		if len(drop) == 0 {
			break
		}
		todo := map[*ssa.Function]bool{}
		for f, ct := range inferred {
			if drop[ct.key] == nil {
				continue
			}
			nc := *ct
			nc.requires = nil
			for _, r := range ct.requires {
				if !drop[ct.key][r.name] {
					nc.requires = append(nc.requires, r)
				}
			}
			inferred[f] = &nc
			cts[ct.key] = &nc
			todo[f] = true
			for _, g := range lr.callers[f] {
				if infs[g] {
					todo[g] = true
				}
			}
		}
		verify(todo)
	}
	lr.inferred = inferred
	lr.again = func(f *ssa.Function, ms int) *FnResult {
		o := lr.opts()
		o.lifted, o.muteInlined, o.contracts, o.inlineContracted = lifted, true, cts, true
		return verifyFn(P, lr.specs, f, cts[funcKey(f)], o, ms, true)
	}
	var out []*FnResult
	for _, f := range fs {
		out = append(out, res[f])
	}
	return out, lifted
}

func failed(r *FnResult) bool {
	if r.err != "" {
		return true
	}
	for _, o := range r.obls {
		if o.status != "valid" {
			return true
		}
	}
	return false
}

func panicOpts(P *Prog, specs *Specs) *Opts {
	return &Opts{kinds: panicKinds, contracts: specs.contracts, autoInv: true, noQuant: true, maxDepth: 2,
		typeInv: true, typeInvFn: valueInv,
		inline: func(fr *Frame, cal *ssa.Function) bool { return !P.recursive[cal] && ninstr(cal) < 60 }}
}

func debugPanic(P *Prog, specs *Specs, only string) {
	lr := &liftRun{P: P, specs: specs, ms: 4000, opts: func() *Opts { return panicOpts(P, specs) }}
	var fs []*ssa.Function
	for _, f := range realFuncs(P) {
		if only == "" || strings.Contains(funcKey(f), only) {
			fs = append(fs, f)
		}
	}
	rs, lifted := lr.run(fs)
	n, bad := 0, 0
	var lines []string
	for _, r := range rs {
		if r.err != "" {
			lines = append(lines, "ERR "+r.key+" "+r.err)
		}
		for _, o := range r.obls {
			n++
			if o.status != "valid" {
				if lifted[r.fn] {
					lines = append(lines, "LIFTED "+o.name+" "+o.pos)
					continue
				}
				bad++
				lines = append(lines, fmt.Sprintf("FAIL %s %s %s", o.status, o.name, o.pos))
				if only != "" {
					lines = append(lines, o.model)
				}
			}
		}
	}
	for f, ct := range lr.inferred {
		for _, r := range ct.requires {
			lines = append(lines, "REQ "+funcKey(f)+" "+r.text)
		}
	}
	sort.Strings(lines)
	for _, l := range lines {
		fmt.Println(l)
	}
	fmt.Println(n, "obligations", bad, "failed", len(lifted), "lifted functions")
	fmt.Println(solverStats.calls, solverStats.millis)
}
