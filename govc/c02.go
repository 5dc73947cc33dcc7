package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C02: an error found by any step is part of that step's result.
//
// Ghost state: ghost:err is true once a called function handed back an error
// (a message block marked as error, or a non-nil error value). Contract of every
// function, inferred from its signature: when it returns, ghost:err implies that
// its own result says so too. A message block passed in counts like one handed
// back by a call.

func init() {
	register(&Check{id: "C02", level: "proof", run: runC02, instrument: c02Instrument,
		what: "for every function: if a called function reported an error, the function's own result (message block or error value) reports one, on every path and for every input",
		assumes: []string{
			"answers of the type matcher are explanations of a negative answer, not errors: " + "the message blocks of the functions whose result starts with a yes/no answer are not counted",
		}})
}

func isMsgblock(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Name() == "vxmsgblock"
}

func isError(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// isAnswer: the function answers a yes/no question; its block explains a "no".
func isAnswer(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isMsgblock(rs.At(i).Type()) {
			break
		}
		if b, ok := rs.At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return true
		}
	}
	return false
}

func blocksOf(t *types.Tuple, is func(types.Type) bool) []int {
	var out []int
	for i := 0; i < t.Len(); i++ {
		if is(t.At(i).Type()) {
			out = append(out, i)
		}
	}
	return out
}

// returnsErrors: the function has a way to say that something failed.
func returnsErrors(f *ssa.Function) bool {
	s := f.Signature
	return len(blocksOf(s.Results(), isMsgblock))+len(blocksOf(s.Results(), isError)) > 0
}

func handlesErrors(f *ssa.Function) bool {
	return returnsErrors(f) || len(blocksOf(f.Signature.Params(), isMsgblock)) > 0
}

// reaches: the function may call one of the named library functions.
func (P *Prog) reaches(f *ssa.Function, names map[string]bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if !inRepo(f) {
			return names[f.String()]
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						if g, ok := (*op).(*ssa.Function); ok && walk(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

var writers = map[string]bool{"os.Create": true, "os.WriteFile": true, "os.OpenFile": true}
var readers = map[string]bool{"os.ReadFile": true, "os.Open": true}

// tolerated: errors a function may leave unreported.
func tolerated(P *Prog, in *ssa.Function, cc *ssa.CallCommon) bool {
	cal := cc.StaticCallee()
	if cal == nil {
		return false
	}
	if !inRepo(cal) {
		// permissions of a copied file are a best effort
		return cal.Name() == "Chmod"
	}
	// the old content of a file about to be written is read only to compare
	if P.reaches(cal, readers) && !P.reaches(cal, writers) && P.reaches(in, writers) && cal.Signature.Results().Len() == 2 && cal.Signature.Results().At(0).Type() == tStr {
		return true
	}
	// the native text of a type is generated twice; the class part reports its errors
	if !returnsErrors(in) {
		for _, a := range cc.Args {
			if ld, ok := a.(*ssa.UnOp); ok {
				if fa, ok := ld.X.(*ssa.FieldAddr); ok {
					if st, _ := structOf(fa.X.Type()); st != nil && st.Field(fa.Field).Name() == "createvalue" {
						return true
					}
				}
			}
		}
	}
	return false
}

const ghErr, ghLog = "ghost:err", "ghost:logged"

func (ex *Exec) isErr(st *State, p *Term) *Term {
	c := ex.c
	t := ex.P.lookupType("vxmsgblock")
	if t == nil {
		return c.False()
	}
	h := ex.heap(st, fieldKey(types.Unalias(t).(*types.Named), "iserror"), "(Array Int Bool)")
	return c.Select(h, p)
}

func c02Opts(P *Prog) *Opts {
	o := &Opts{kinds: map[string]bool{"error-kept": true, "error-logged": true}, autoInv: false, noQuant: true, maxDepth: 2, muteInlined: true,
		inline: func(fr *Frame, cal *ssa.Function) bool { return !P.recursive[cal] && ninstr(cal) < 60 }}
	o.onEntry = func(ex *Exec, fr *Frame, st *State) {
		c := ex.c
		st.heap[ghErr] = c.False()
		st.heap[ghLog] = c.False()
		ex.keys[ghErr], ex.keys[ghLog] = "Bool", "Bool"
		e := c.False()
		for i, p := range fr.fn.Params {
			if isMsgblock(p.Type()) {
				e = c.Or(e, ex.isErr(st, fr.args[i].t))
			}
		}
		st.heap[ghErr] = e
	}
	o.afterCall = func(ex *Exec, fr *Frame, pre, st *State, in ssa.Instruction, cc *ssa.CallCommon, v *Val) {
		c := ex.c
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return
		}
		cal := cc.StaticCallee()
		repo := cal != nil && inRepo(cal)
		if repo && cal.Name() == "MsgblockLog" && len(cc.Args) == 1 {
			b := ex.isErr(st, ex.term(fr, st, cc.Args[0]))
			st.heap[ghLog] = c.Or(ex.heap(st, ghLog, "Bool"), b)
			if !returnsErrors(fr.fn) {
				st.heap[ghErr] = c.And(ex.heap(st, ghErr, "Bool"), c.Not(b))
			}
			return
		}
		inl := repo && ex.willInline(fr, cal)
		if inl && (returnsErrors(cal) || !handlesErrors(cal)) {
			// what the callee swallowed is the callee's failure
			st.heap[ghErr] = ex.heap(pre, ghErr, "Bool")
		}
		if repo && isAnswer(cal) || tolerated(ex.P, fr.fn, cc) {
			return
		}
		e := ex.heap(st, ghErr, "Bool")
		rs := cc.Signature().Results()
		var comp []*Term
		switch {
		case v == nil:
		case v.tup != nil:
			for _, x := range v.tup {
				comp = append(comp, ex.plain(x))
			}
		case rs.Len() == 1 && (v.t != nil || v.addr != nil):
			comp = append(comp, ex.plain(v))
		}
		for i := 0; i < rs.Len() && i < len(comp); i++ {
			t := rs.At(i).Type()
			switch {
			case isMsgblock(t):
				r := ex.isErr(st, comp[i])
				if repo && !inl {
					// the callee's contract: what came in is still in what comes out
					for _, a := range cc.Args {
						if isMsgblock(a.Type()) {
							ex.assume(st, c.Implies(ex.isErr(pre, ex.term(fr, pre, a)), r))
						}
					}
				}
				e = c.Or(e, r)
			case isError(t) && returnsErrors(fr.fn):
				e = c.Or(e, c.Not(c.Eq(comp[i], c.anyNil())))
			}
		}
		st.heap[ghErr] = e
	}
	o.extraCands = func(ex *Exec, fr *Frame, l *loopInfo, entry *State, phis []*ssa.Phi, init func(*ssa.Phi) *Term, addc func(string, genFn)) {
		c := ex.c
		e0 := ex.heap(entry, ghErr, "Bool")
		addc("err-same", func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Eq(ex.heap(st, ghErr, "Bool"), e0) })
		addc("log-same", func(get func(*ssa.Phi) *Term, st *State) *Term {
			return c.Implies(ex.heap(entry, ghLog, "Bool"), ex.heap(st, ghLog, "Bool"))
		})
		one := func(name string, at func(get func(*ssa.Phi) *Term, st *State) *Term) {
			addc("err-kept "+name, func(get func(*ssa.Phi) *Term, st *State) *Term {
				p := at(get, st)
				if p == nil {
					return nil
				}
				return c.Implies(ex.heap(st, ghErr, "Bool"), ex.isErr(st, p))
			})
			addc("err-here "+name, func(get func(*ssa.Phi) *Term, st *State) *Term {
				p := at(get, st)
				if p == nil {
					return nil
				}
				return c.Implies(ex.heap(st, ghErr, "Bool"), c.Or(e0, ex.isErr(st, p)))
			})
		}
		for _, p := range phis {
			if isMsgblock(p.Type()) {
				p := p
				one(p.Name(), func(get func(*ssa.Phi) *Term, st *State) *Term { return get(p) })
				addc("err-grows "+p.Name(), func(get func(*ssa.Phi) *Term, st *State) *Term {
					if get(p) == nil {
						return nil
					}
					return c.Implies(ex.isErr(entry, init(p)), ex.isErr(st, get(p)))
				})
			}
			if isError(p.Type()) {
				p := p
				addc("err-value "+p.Name(), func(get func(*ssa.Phi) *Term, st *State) *Term {
					if get(p) == nil {
						return nil
					}
					return c.Implies(ex.heap(st, ghErr, "Bool"), c.Not(c.Eq(get(p), c.anyNil())))
				})
			}
		}
		// blocks defined before the loop
		n := 0
		for v, val := range fr.vals {
			if n > 12 || inLoop(l, v) || val == nil || val.t == nil || !isMsgblock(v.Type()) {
				continue
			}
			n++
			t := val.t
			one(v.Name(), func(get func(*ssa.Phi) *Term, st *State) *Term { return t })
			addc("err-grows "+v.Name(), func(get func(*ssa.Phi) *Term, st *State) *Term {
				return c.Implies(ex.isErr(entry, t), ex.isErr(st, t))
			})
		}
	}
	o.onReturn = func(ex *Exec, fr *Frame, st *State, res []*Term) {
		c := ex.c
		f := fr.fn
		e := ex.heap(st, ghErr, "Bool")
		var says []*Term
		rs := f.Signature.Results()
		for _, i := range blocksOf(rs, isMsgblock) {
			says = append(says, ex.isErr(st, res[i]))
		}
		for _, i := range blocksOf(rs, isError) {
			says = append(says, c.Not(c.Eq(res[i], c.anyNil())))
		}
		if len(says) == 0 {
			for i, p := range f.Params {
				if isMsgblock(p.Type()) {
					says = append(says, ex.isErr(st, fr.args[i].t))
				}
			}
		}
		ex.oblige(fr, st, "error-kept", "", f.Pos(), c.Implies(e, c.Or(says...)))
		if entryPoint(ex.P, f) {
			ex.oblige(fr, st, "error-logged", "", f.Pos(), c.Implies(e, ex.heap(st, ghLog, "Bool")))
		}
	}
	return o
}

// entryPoint: called from the main package, so nobody looks at its result.
func entryPoint(P *Prog, f *ssa.Function) bool {
	if f.Pkg == nil || f.Pkg.Pkg.Path() != pkgVx {
		return false
	}
	for _, g := range P.callers[f] {
		if g.Pkg != nil && g.Pkg.Pkg.Path() == pkgMain {
			return true
		}
	}
	return false
}

func runC02(k *Run) {
	P := k.P
	var fs []*ssa.Function
	for _, f := range realFuncs(P) {
		if f.Pkg.Pkg.Path() == pkgMain || isAnswer(f) {
			continue
		}
		use := handlesErrors(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cal := ci.Common().StaticCallee(); cal != nil && inRepo(cal) && len(blocksOf(cal.Signature.Results(), isMsgblock)) > 0 {
						use = true
					}
				}
			}
		}
		if use {
			fs = append(fs, f)
			k.contract[funcKey(f)] = true
		}
	}
	run := func(ms int) func(f *ssa.Function) *FnResult {
		return func(f *ssa.Function) *FnResult {
			o := c02Opts(P)
			o.contracts = k.specs.contracts
			return verifyFn(P, k.specs, f, k.specs.contracts[funcKey(f)], o, ms, false)
		}
	}
	rs := verifyAll(fs, run(k.ms))
	k.retry(rs, run(3*k.ms), nil)
	k.results = rs
}

// makesErrors: some run of the function may report an error.
func (P *Prog) makesErrors(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if !inRepo(f) {
			return len(blocksOf(f.Signature.Results(), isError)) > 0
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if t, _ := structOf(fa.X.Type()); t != nil && t.Field(fa.Field).Name() == "iserror" {
							return true
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && f.Name() != "MsgblockAddBlock" && walk(ci.Common().StaticCallee()) {
					return true
				}
			}
		}
		return false
	}
	return walk(f)
}

// c02Instrument records, in the replayed function, whether a called function handed back an error.
func c02Instrument(k *Run, f *ssa.Function, ins *instrumenter, res []string) (string, string) {
	if ins.n == 0 {
		ins.decls.WriteString("\nvar vrErr string\nvar vrFault int\n")
	}
	first, last := ins.n, ins.n
	exprs := ins.callExprs(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || exprs[call.Pos()] == nil {
				continue
			}
			cal := call.Call.StaticCallee()
			if cal == nil || inRepo(cal) && isAnswer(cal) || tolerated(k.P, f, &call.Call) {
				continue
			}
			rs := call.Call.Signature().Results()
			bl := append(blocksOf(rs, isMsgblock), blocksOf(rs, isError)...)
			if len(bl) == 0 || len(blocksOf(rs, isMsgblock)) == 0 && !returnsErrors(f) {
				continue
			}
			ins.n++
			var ps, ts, ns []string
			for i := 0; i < rs.Len(); i++ {
				t := types.TypeString(rs.At(i).Type(), ins.qual)
				ps = append(ps, fmt.Sprintf("r%d %s", i, t))
				ts = append(ts, t)
				ns = append(ns, fmt.Sprintf("r%d", i))
			}
			cond, fault := "false", ""
			for _, i := range bl {
				if isMsgblock(rs.At(i).Type()) {
					cond = fmt.Sprintf("r%d != nil && r%d.iserror", i, i)
					fault = fmt.Sprintf("r%d = new(vxmsgblock); r%d.iserror = true", i, i)
				} else {
					cond = fmt.Sprintf("r%d != nil", i)
					fault = fmt.Sprintf("r%d = fmt.Errorf(\"made to fail\")", i)
				}
			}
			made := cal.Name()
			if inRepo(cal) && !k.P.makesErrors(cal) {
				fault = ""
			} else {
				made += " (made to report an error)"
				fault = fmt.Sprintf("if vrFault == %d && !(%s) { %s; vrErr = %q; return %s }; ", ins.n, cond, fault, made, strings.Join(ns, ", "))
				last = ins.n
			}
			fmt.Fprintf(&ins.decls, "func vrT%d(%s) (%s) { %sif %s { vrErr = %q }; return %s }\n", ins.n, strings.Join(ps, ", "), strings.Join(ts, ", "), fault, cond, cal.Name(), strings.Join(ns, ", "))
			ins.insert(exprs[call.Pos()].Pos(), fmt.Sprintf("vrT%d(", ins.n))
			ins.insert(exprs[call.Pos()].End(), ")")
		}
	}
	rs := f.Signature.Results()
	var says []string
	for _, i := range blocksOf(rs, isMsgblock) {
		says = append(says, res[i]+".iserror")
	}
	for _, i := range blocksOf(rs, isError) {
		says = append(says, res[i]+" != nil")
	}
	if len(says) == 0 {
		says = append(says, "false")
	}
	// half of the cases run the called functions as they are, half make the calls at one place fail
	pre := fmt.Sprintf(`vrErr, vrFault = "", 0; if g.r.Intn(2) == 0 { vrFault = %d + g.r.Intn(%d) }`, first+1, max(1, last-first))
	return pre, fmt.Sprintf(`if vrErr != "" && !(%s) { return "the error reported by " + vrErr + " is not part of the result" }`, strings.Join(says, " || "))
}
