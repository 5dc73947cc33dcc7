package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	pkgVx   = "vxlisp/vxlisp"
	pkgCore = "vxlisp/vxlisp/vx/core"
	pkgMain = "vxlisp"
)

// Prog is the loaded repository.
type Prog struct {
	mu                      sync.Mutex
	typeMemo                map[string]types.Type
	nonNilMemo, nonNilFalse map[string]bool
	readMemo                map[*ssa.Function][]string
	prog                    *ssa.Program
	pkgs                    map[string]*ssa.Package
	funcs                   []*ssa.Function          // every repo function with a body, sorted
	byKey                   map[string]*ssa.Function // "vxlisp.Name" / "vx_core.Name"
	dts                     *Datatypes
	eff                     map[*ssa.Function]*Effects
	callers                 map[*ssa.Function][]*ssa.Function
	globalWritten           map[*ssa.Global]bool
	globalInit              map[*ssa.Global]ssa.Value
	recursive               map[*ssa.Function]bool
	addrTaken               map[*ssa.Function]bool
}

func shortPkg(path string) string {
	switch path {
	case pkgVx:
		return "vxlisp"
	case pkgCore:
		return "vx_core"
	case pkgMain:
		return "main"
	}
	return path
}

func funcKey(f *ssa.Function) string {
	p := ""
	if f.Pkg != nil {
		p = shortPkg(f.Pkg.Pkg.Path())
	}
	if f.Signature.Recv() != nil {
		t := f.Signature.Recv().Type().String()
		t = t[strings.LastIndex(t, ".")+1:]
		return p + "." + t + "." + f.Name()
	}
	if f.Parent() != nil {
		return p + "." + f.Parent().Name() + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	return p + "." + f.Name()
}

func inRepo(f *ssa.Function) bool {
	if f == nil || f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case pkgVx, pkgCore, pkgMain:
		return true
	}
	return false
}

func LoadProg(repoSrc string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoSrc,
		Env: append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{prog: prog, pkgs: map[string]*ssa.Package{}, byKey: map[string]*ssa.Function{}, eff: map[*ssa.Function]*Effects{},
		callers: map[*ssa.Function][]*ssa.Function{}, globalWritten: map[*ssa.Global]bool{}, globalInit: map[*ssa.Global]ssa.Value{}, recursive: map[*ssa.Function]bool{}, addrTaken: map[*ssa.Function]bool{}}
	for _, p := range pkgs {
		if p != nil {
			P.pkgs[p.Pkg.Path()] = p
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if inRepo(f) && len(f.Blocks) > 0 {
			P.funcs = append(P.funcs, f)
			P.byKey[funcKey(f)] = f
		}
	}
	sort.Slice(P.funcs, func(i, j int) bool { return funcKey(P.funcs[i]) < funcKey(P.funcs[j]) })
	P.buildDatatypes()
	P.scan()
	P.computeEffects()
	for _, f := range P.funcs {
		P.retSliceFresh(f)
	}
	P.globalID(nil)
	P.typeMemo = map[string]types.Type{}
	return P, nil
}

func (P *Prog) scan() {
	for _, f := range P.funcs {
		seen := map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if f.Name() == "init" && f.Synthetic != "" {
							P.globalInit[g] = st.Val
						} else {
							P.globalWritten[g] = true
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cal := ci.Common().StaticCallee(); cal != nil {
						if inRepo(cal) && !seen[cal] {
							seen[cal] = true
							P.callers[cal] = append(P.callers[cal], f)
						}
					}
				}
				var rands []*ssa.Value
				rands = in.Operands(rands)
				for i, r := range rands {
					if *r == nil {
						continue
					}
					if fn, ok := (*r).(*ssa.Function); ok {
						if ci, ok := in.(ssa.CallInstruction); ok && i == 0 && ci.Common().StaticCallee() == fn {
							continue
						}
						P.addrTaken[fn] = true
					}
					// address of a global used other than load/store/fieldaddr
					if g, ok := (*r).(*ssa.Global); ok {
						switch x := in.(type) {
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr:
							_ = x
						case *ssa.Store:
							if x.Val == g {
								P.globalWritten[g] = true
							}
						default:
							P.globalWritten[g] = true
						}
					}
				}
			}
		}
	}
	// recursion: SCCs by simple reachability
	succ := map[*ssa.Function][]*ssa.Function{}
	for cal, cs := range P.callers {
		for _, c := range cs {
			succ[c] = append(succ[c], cal)
		}
	}
	for _, f := range P.funcs {
		seen := map[*ssa.Function]bool{}
		var dfs func(g *ssa.Function) bool
		dfs = func(g *ssa.Function) bool {
			for _, n := range succ[g] {
				if n == f {
					return true
				}
				if !seen[n] {
					seen[n] = true
					if dfs(n) {
						return true
					}
				}
			}
			return false
		}
		P.recursive[f] = dfs(f)
	}
}

// ---------------------------------------------------------------- sorts

func (P *Prog) buildDatatypes() {
	P.dts = &Datatypes{recs: map[string][]DTField{}}
	var names []string
	tmap := map[string]*types.Named{}
	for _, p := range P.pkgs {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if nt, ok := tn.Type().(*types.Named); ok {
					if _, ok := nt.Underlying().(*types.Struct); ok {
						s := recName(nt)
						names = append(names, s)
						tmap[s] = nt
					}
				}
			}
		}
	}
	sort.Strings(names)
	state := map[string]int{}
	var visit func(n string)
	visit = func(n string) {
		if state[n] != 0 {
			return
		}
		state[n] = 1
		st := tmap[n].Underlying().(*types.Struct)
		var fs []DTField
		for i := 0; i < st.NumFields(); i++ {
			srt := sortOfU(st.Field(i).Type())
			for _, m := range names {
				if strings.Contains(srt, m) {
					if state[m] == 1 {
						srt = "Opaque"
					} else {
						visit(m)
					}
				}
			}
			fs = append(fs, DTField{st.Field(i).Name(), srt})
		}
		if len(fs) == 0 {
			fs = append(fs, DTField{"dummy", "Int"})
		}
		P.dts.recs[n] = fs
		P.dts.ord = append(P.dts.ord, n)
		state[n] = 2
	}
	for _, n := range names {
		visit(n)
	}
}

func recName(nt *types.Named) string {
	pk := ""
	if nt.Obj().Pkg() != nil {
		switch nt.Obj().Pkg().Path() {
		case pkgVx:
			pk = "v"
		case pkgCore:
			pk = "c"
		case pkgMain:
			pk = "m"
		default:
			return ""
		}
	}
	return "R" + pk + "_" + nt.Obj().Name()
}

func sortOfU(t types.Type) string {
	switch x := t.(type) {
	case *types.Named:
		switch x.String() {
		case "strings.Builder", "bytes.Buffer":
			return "Str"
		}
		if _, ok := x.Underlying().(*types.Struct); ok {
			if n := recName(x); n != "" {
				return n
			}
			return "Opaque"
		}
		return sortOfU(x.Underlying())
	case *types.Alias:
		return sortOfU(types.Unalias(x))
	case *types.Basic:
		info := x.Info()
		switch {
		case info&types.IsBoolean != 0:
			return "Bool"
		case info&types.IsInteger != 0:
			return "Int"
		case info&types.IsString != 0:
			return "Str"
		}
		return "Opaque"
	case *types.Pointer, *types.Map:
		return "Int"
	case *types.Slice:
		return sliceSort(sortOfU(x.Elem()))
	case *types.Array:
		return "(Array Int " + sortOfU(x.Elem()) + ")"
	case *types.Interface:
		return "Any"
	case *types.Signature:
		return "Fn"
	}
	return "Opaque"
}

func (c *Ctx) sortOf(t types.Type) string {
	s := sortOfU(t)
	if c.strTheory {
		s = toTheory(s)
	}
	return s
}

func toTheory(s string) string {
	if s == "Str" {
		return "String"
	}
	if strings.HasPrefix(s, "(") {
		parts := splitSort(s)
		for i := range parts {
			parts[i] = toTheory(parts[i])
		}
		return "(" + strings.Join(parts, " ") + ")"
	}
	return s
}

func structOf(t types.Type) (*types.Struct, *types.Named) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	nt, _ := types.Unalias(t).(*types.Named)
	st, _ := t.Underlying().(*types.Struct)
	return st, nt
}

func fieldKey(nt *types.Named, field string) string {
	p := ""
	if nt.Obj().Pkg() != nil {
		p = shortPkg(nt.Obj().Pkg().Path())
	}
	return "f:" + p + "." + nt.Obj().Name() + "." + field
}
func globalKey(g *ssa.Global) string {
	return "g:" + shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
}
func mapKey(t types.Type) string {
	m := t.Underlying().(*types.Map)
	return "m:" + sortOfU(m.Key()) + ":" + shortTypes(m.Elem().String())
}
func shortTypes(s string) string {
	s = strings.ReplaceAll(s, pkgCore+".", "vx_core.")
	s = strings.ReplaceAll(s, pkgVx+".", "vxlisp.")
	return s
}
