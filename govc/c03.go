package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C03: the output phase leaves the project as it is.
//
// Frame contract of every function reachable from the execution of commands:
// it writes only objects allocated during its own call and, for the inferred
// pairs (field, parameter), the object passed as that parameter. Every store,
// table update and call of a writing function is an obligation. The functions
// that execute commands have the empty frame.
//
// State kept in global variables: a function that reads one either sets it
// first or has the precondition that its callers did (inferred, proved at
// every call); the functions that execute commands have no precondition.

func init() {
	register(&Check{id: "C03", level: "proof", run: runC03, search: c03Search,
		what: "for every function of the output phase: no object that existed before the call is written, except message blocks, output files and the parameters of the inferred frame; global state is set before it is read within one command",
		assumes: []string{
			"appending to a list of the project does not write to a shared backing array that is still in use",
			"the frame inferred for list elements (sorting and element writes) is decided by data flow, without a solver",
		}})
}

// outputTypes: what a run writes while it generates.
var outputTypes = map[string]bool{"vxmsgblock": true, "vxmsg": true, "vxfile": true}

// logGlobals: where the messages of the run go.
func logGlobal(g *ssa.Global) bool {
	t := g.Type().Underlying().(*types.Pointer).Elem().String()
	return strings.Contains(t, "os.File") || strings.Contains(t, "bufio.Writer") || g.Name() == "outputlog"
}

// frameKey says whether writing the component is restricted.
func frameKey(k string) bool {
	if strings.HasPrefix(k, "f:") {
		r := strings.TrimPrefix(k, "f:")
		if strings.HasPrefix(r, "vx_core.") {
			return false // objects of the run-time library, not of the project
		}
		p := strings.Split(r, ".")
		return len(p) < 2 || !outputTypes[p[1]]
	}
	return strings.HasPrefix(k, "m:") || strings.HasPrefix(k, "p:")
}

// reachable lists the repository functions reachable from the roots.
func (P *Prog) reachable(roots ...*ssa.Function) map[*ssa.Function]bool {
	return P.reachableBut(nil, roots...)
}

func (P *Prog) reachableBut(not func(*ssa.Function) bool, roots ...*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || out[f] || !inRepo(f) || not != nil && not(f) {
			return
		}
		out[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, m := range P.methodsNamed(ci.Common().Method.Name()) {
						walk(m)
					}
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						if g, ok := (*op).(*ssa.Function); ok {
							walk(g)
						}
					}
				}
			}
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return out
}

// commandRoots: the functions that run commands of a project that is already read:
// no file of the project is read below them and they take the project as argument.
func (P *Prog) commandRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, n := range []string{"ExecuteProjectCmds", "ExecuteProjectCommand", "LangWriteFromProjectCmdNative", "WriteDocFromProjectCmd"} {
		if f := P.byKey["vxlisp."+n]; f != nil {
			out = append(out, f)
		}
	}
	return out
}

const ghSet = "ghost:set:"

type c03 struct {
	k     *Run
	in    map[*ssa.Function]bool
	roots map[*ssa.Function]bool
	// globals written during the output phase
	glob map[*ssa.Global]bool
	// functions that rely on their caller having set the global
	needs map[*ssa.Function]map[*ssa.Global]bool
}

func (x *c03) frameOf(f *ssa.Function) map[string][]int {
	out := map[string][]int{}
	if x.roots[f] {
		return out
	}
	for e := range x.k.P.eff[f].mods {
		if e.tgt >= 0 {
			out[e.key] = append(out[e.key], e.tgt)
		}
	}
	return out
}

func (x *c03) opts() *Opts {
	P := x.k.P
	o := &Opts{kinds: map[string]bool{"frame": true, "set-first": true}, noQuant: true, maxDepth: 2, muteInlined: true,
		inline: func(fr *Frame, cal *ssa.Function) bool {
			return !P.recursive[cal] && ninstr(cal) < 30 && len(x.needs[cal]) == 0
		}}
	gkeys := func(f func(g *ssa.Global, key string)) {
		var gs []*ssa.Global
		for g := range x.glob {
			gs = append(gs, g)
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
		for _, g := range gs {
			f(g, ghSet+g.Name())
		}
	}
	o.onEntry = func(ex *Exec, fr *Frame, st *State) {
		gkeys(func(g *ssa.Global, key string) {
			st.heap[key] = ex.c.Bool(x.needs[fr.fn][g])
			ex.keys[key] = "Bool"
		})
	}
	// own: the object is new, or the frame of the verified function names it
	own := func(ex *Exec, base *Term, key string) *Term {
		c := ex.c
		root := ex.root
		alts := []*Term{c.Lt(root.entry.heap["alloc"], base), c.Eq(base, c.Int(0))}
		for _, i := range x.frameOf(root.fn)[key] {
			if i < len(root.args) && root.args[i].t != nil && root.args[i].t.sort == "Int" {
				alts = append(alts, c.Eq(base, root.args[i].t))
			}
		}
		return c.Or(alts...)
	}
	o.trace = func(ex *Exec, fr *Frame, st *State, in ssa.Instruction) {
		c := ex.c
		switch i := in.(type) {
		case *ssa.UnOp:
			if g, ok := i.X.(*ssa.Global); ok && i.Op == token.MUL && x.glob[g] {
				ex.oblige(fr, st, "set-first", g.Name(), i.Pos(), ex.heap(st, ghSet+g.Name(), "Bool"))
			}
		case *ssa.Store:
			if g, ok := i.Addr.(*ssa.Global); ok {
				if x.glob[g] {
					if _, isc := i.Val.(*ssa.Const); isc {
						st.heap[ghSet+g.Name()] = c.True()
					}
				}
				return
			}
			av := ex.val(fr, st, i.Addr)
			if av.addr == nil {
				if sct, nt := structOf(i.Addr.Type()); sct != nil && nt != nil && frameKey(fieldKey(nt, "*")) {
					ex.oblige(fr, st, "frame", nt.Obj().Name(), i.Pos(), own(ex, av.t, fieldKey(nt, sct.Field(0).Name())))
				}
				return
			}
			if a := av.addr; a.kind == aField && a.base != nil && frameKey(a.key) {
				ex.oblige(fr, st, "frame", a.key, i.Pos(), own(ex, a.base, a.key))
			}
		case *ssa.MapUpdate:
			k := mapKey(i.Map.Type())
			ex.oblige(fr, st, "frame", k, i.Pos(), own(ex, ex.term(fr, st, i.Map), k))
		case ssa.CallInstruction:
			cc := i.Common()
			cal := cc.StaticCallee()
			if cal == nil || !inRepo(cal) || P.eff[cal] == nil {
				for _, e := range P.callEffects(fr.fn, cc) {
					if frameKey(e.key) && len(cc.Args) > 0 {
						ex.oblige(fr, st, "frame", e.key, in.Pos(), own(ex, ex.term(fr, st, cc.Args[0]), e.key))
					}
				}
				return
			}
			fm := x.frameOf(cal)
			for _, k := range sortedKeysG(fm) {
				if !frameKey(k) {
					continue
				}
				for _, p := range fm[k] {
					if isPtrLike(cc.Args[p].Type()) {
						ex.oblige(fr, st, "frame", cal.Name()+" "+k, in.Pos(), own(ex, ex.term(fr, st, cc.Args[p]), k))
					}
				}
			}
			if ex.willInline(fr, cal) {
				return
			}
			gkeys(func(g *ssa.Global, key string) {
				if x.needs[cal][g] {
					ex.oblige(fr, st, "set-first", cal.Name()+" "+g.Name(), in.Pos(), ex.heap(st, key, "Bool"))
				}
			})
		}
	}
	o.extraCands = func(ex *Exec, fr *Frame, l *loopInfo, entry *State, phis []*ssa.Phi, init func(*ssa.Phi) *Term, addc func(string, genFn)) {
		c := ex.c
		gkeys(func(g *ssa.Global, key string) {
			addc("set "+g.Name(), func(get func(*ssa.Phi) *Term, st *State) *Term { return ex.heap(st, key, "Bool") })
		})
		for _, p := range phis {
			p := p
			if !isPtrLike(p.Type()) || c.sortOf(p.Type()) != "Int" {
				continue
			}
			a0 := ex.root.entry.heap["alloc"]
			addc("new "+p.Name(), func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Lt(a0, get(p)) })
			addc("new-or-nil "+p.Name(), func(get func(*ssa.Phi) *Term, st *State) *Term {
				return c.Or(c.Lt(a0, get(p)), c.Eq(get(p), c.Int(0)))
			})
			addc("new-or-same "+p.Name(), func(get func(*ssa.Phi) *Term, st *State) *Term {
				return c.Or(c.Lt(a0, get(p)), c.Eq(get(p), init(p)))
			})
		}
	}
	return o
}

func runC03(k *Run) {
	P := k.P
	x := &c03{k: k, roots: map[*ssa.Function]bool{}, glob: map[*ssa.Global]bool{}, needs: map[*ssa.Function]map[*ssa.Global]bool{}}
	roots := P.commandRoots()
	if len(roots) == 0 {
		k.fail("vxlisp#command-functions", "vxlisp.ExecuteProjectCmds", "missing", "", "no function that executes the commands of a project was found")
		return
	}
	for _, r := range roots {
		x.roots[r] = true
	}
	x.in = P.reachable(roots...)
	var fs []*ssa.Function
	for _, f := range realFuncs(P) {
		if !x.in[f] {
			continue
		}
		use := x.roots[f]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					if g, ok := i.Addr.(*ssa.Global); ok && !logGlobal(g) && g.Pkg.Pkg.Path() == pkgVx {
						x.glob[g] = true
					}
				}
				for _, e := range P.instrEffects(f, in) {
					if frameKey(e.key) || strings.HasPrefix(e.key, "e:") {
						use = true
					}
				}
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if _, nt := structOf(fa.X.Type()); nt != nil && frameKey(fieldKey(nt, "x")) {
							use = true
						}
					}
				}
				if _, ok := in.(*ssa.MapUpdate); ok {
					use = true
				}
			}
		}
		if use {
			fs = append(fs, f)
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range fs {
		seen[f] = true
	}
	// functions that use the output phase's own global state
	users := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for f := range x.in {
			if users[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					hit := false
					if ci, ok := in.(ssa.CallInstruction); ok {
						hit = users[ci.Common().StaticCallee()]
					}
					for _, op := range in.Operands(nil) {
						if op != nil && *op != nil {
							if g, ok := (*op).(*ssa.Global); ok && x.glob[g] {
								hit = true
							}
						}
					}
					if hit && !users[f] {
						users[f] = true
						changed = true
					}
				}
			}
		}
	}
	for _, f := range realFuncs(P) {
		if users[f] && !seen[f] {
			seen[f] = true
			fs = append(fs, f)
		}
	}
	for _, f := range fs {
		k.contract[funcKey(f)] = true
	}
	run := func(ms int) func(f *ssa.Function) *FnResult {
		return func(f *ssa.Function) *FnResult { return verifyFn(P, k.specs, f, nil, x.opts(), ms, false) }
	}
	todo := fs
	res := map[*ssa.Function]*FnResult{}
	for round := 0; len(todo) > 0 && round < 40; round++ {
		again := map[*ssa.Function]bool{}
		for _, r := range verifyAll(todo, run(k.ms)) {
			res[r.fn] = r
			for _, ob := range r.obls {
				if ob.kind != "set-first" || ob.status == "valid" || x.roots[r.fn] {
					continue
				}
				for g := range x.glob {
					if strings.HasSuffix(ob.clause, g.Name()) || strings.Contains(ob.name, g.Name()) {
						if x.needs[r.fn] == nil {
							x.needs[r.fn] = map[*ssa.Global]bool{}
						}
						if !x.needs[r.fn][g] {
							x.needs[r.fn][g] = true
							again[r.fn] = true
							for _, cl := range P.callers[r.fn] {
								if seen[cl] {
									again[cl] = true
								}
							}
						}
					}
				}
			}
		}
		todo = nil
		for _, f := range fs {
			if again[f] {
				todo = append(todo, f)
			}
		}
	}
	var rs []*FnResult
	for _, f := range fs {
		rs = append(rs, res[f])
	}
	k.retry(rs, run(3*k.ms), nil)
	k.results = rs
	var need []string
	for f, m := range x.needs {
		for g := range m {
			need = append(need, funcKey(f)+": "+g.Name()+" was set")
		}
	}
	sort.Strings(need)
	k.extra["inferred_preconditions_proved_at_every_call"] = need
	var frames []string
	for _, f := range fs {
		for key, ps := range x.frameOf(f) {
			if frameKey(key) {
				frames = append(frames, fmt.Sprintf("%s writes %s of parameter %v", funcKey(f), key, ps))
			}
		}
	}
	sort.Strings(frames)
	k.extra["inferred_frames"] = frames
	// list elements: decided by data flow
	n, ok := 0, 0
	for _, f := range realFuncs(P) {
		if !x.in[f] {
			continue
		}
		cnt := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				es := P.instrEffects(f, in)
				if !elemWrite(P, in) {
					continue
				}
				n++
				cnt++
				good := true
				for _, e := range es {
					if strings.HasPrefix(e.key, "e:") && (e.tgt < 0 || x.roots[f]) {
						good = false
						k.fail(fmt.Sprintf("%s#frame-elements.%d", funcKey(f), cnt), funcKey(f), "frame-elements", posStr(P, in.Pos()), "writes the elements of a list that may belong to the project")
						break
					}
				}
				if good {
					ok++
				}
			}
		}
	}
	k.count("frame inference", n, ok)
}

// elemWrite: the instruction writes list elements itself, or hands a list to
// a function that writes the elements of that parameter.
func elemWrite(P *Prog, in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.Store:
		ia, ok := addrRoot(i.Addr).(*ssa.IndexAddr)
		return ok && !isArrayPtr(ia.X.Type())
	case ssa.CallInstruction:
		cc := i.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			return b.Name() == "copy"
		}
		cal := cc.StaticCallee()
		if cal == nil {
			return false
		}
		if !inRepo(cal) {
			return cal.Pkg != nil && cal.Pkg.Pkg.Path() == "sort"
		}
		if e := P.eff[cal]; e != nil {
			for m := range e.mods {
				if strings.HasPrefix(m.key, "e:") && m.tgt >= 0 {
					return true
				}
			}
		}
	}
	return false
}

func posStr(P *Prog, p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := P.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, "/repo/"), ps.Line)
}

func c03Search(k *Run, f *Failure) string {
	return k.once("unchanged", func() string { return k.scenario("unchanged", 150*time.Second) })
}
