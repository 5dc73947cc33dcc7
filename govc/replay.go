package main

import (
	"bytes"
	"context"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

//go:embed harness.txt
var harnessText string

// Replay: the function of a failed obligation is run on generated inputs that
// satisfy its precondition and the data-structure invariant, in the real
// package (test overlay), as an unprivileged user in a scratch directory.

// goSpec translates a specification expression to Go.
type goSpec struct {
	P     *Prog
	specs *Specs
	vars  map[string]string
	typs  map[string]types.Type
	old   []string // statements run before the call
	bound int
	inOld bool
	defs  map[string]bool // definitions used
	pkg   *types.Package
}

type noGo string

func (g *goSpec) no(f string, a ...any) { panic(noGo(fmt.Sprintf(f, a...))) }

func (g *goSpec) expr(x ast.Expr) string {
	switch v := x.(type) {
	case *ast.ParenExpr:
		return "(" + g.expr(v.X) + ")"
	case *ast.BasicLit:
		if v.Kind == token.CHAR {
			return "int(" + v.Value + ")"
		}
		return v.Value
	case *ast.Ident:
		if s, ok := g.vars[v.Name]; ok {
			return s
		}
		return v.Name
	case *ast.UnaryExpr:
		return v.Op.String() + g.expr(v.X)
	case *ast.BinaryExpr:
		if v.Op == token.EQL || v.Op == token.NEQ {
			if _, ok := g.typeOf(v.X).(*types.Slice); ok {
				if id, ok := v.Y.(*ast.Ident); ok && id.Name == "nil" {
					return "(len(" + g.expr(v.X) + ")" + v.Op.String() + "0)"
				}
				s := "vrEq(" + g.expr(v.X) + ", " + g.expr(v.Y) + ")"
				if v.Op == token.NEQ {
					s = "!" + s
				}
				return s
			}
			if t := g.typeOf(v.X); t != nil {
				if st, ok := t.Underlying().(*types.Struct); ok && !types.Comparable(st) {
					s := "reflect.DeepEqual(" + g.expr(v.X) + ", " + g.expr(v.Y) + ")"
					if v.Op == token.NEQ {
						s = "!" + s
					}
					return s
				}
			}
		}
		return "(" + g.expr(v.X) + " " + v.Op.String() + " " + g.expr(v.Y) + ")"
	case *ast.SelectorExpr:
		return g.expr(v.X) + "." + v.Sel.Name
	case *ast.IndexExpr:
		if t := g.typeOf(v.X); t != nil {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return "vrAt(" + g.expr(v.X) + ", " + g.expr(v.Index) + ")"
			}
		}
		return g.expr(v.X) + "[" + g.expr(v.Index) + "]"
	case *ast.SliceExpr:
		lo, hi := "0", "len("+g.expr(v.X)+")"
		if v.Low != nil {
			lo = g.expr(v.Low)
		}
		if v.High != nil {
			hi = g.expr(v.High)
		}
		if t := g.typeOf(v.X); t != nil {
			if _, ok := t.Underlying().(*types.Slice); ok {
				return g.expr(v.X) + "[" + lo + ":" + hi + "]"
			}
		}
		return "vrSub(" + g.expr(v.X) + ", " + lo + ", " + hi + ")"
	case *ast.CallExpr:
		return g.call(v)
	}
	g.no("expression %T", x)
	return ""
}

// typeOf is a best-effort type of a specification expression.
func (g *goSpec) typeOf(x ast.Expr) types.Type {
	switch v := x.(type) {
	case *ast.ParenExpr:
		return g.typeOf(v.X)
	case *ast.BasicLit:
		if v.Kind == token.STRING {
			return tStr
		}
		return tInt
	case *ast.Ident:
		if t, ok := g.typs[v.Name]; ok {
			return t
		}
		for _, pp := range []string{pkgVx, pkgCore} {
			if pk := g.P.pkgs[pp]; pk != nil {
				if o, ok := pk.Members[v.Name].(*ssa.Global); ok {
					return o.Type().Underlying().(*types.Pointer).Elem()
				}
			}
		}
	case *ast.SelectorExpr:
		if t := g.typeOf(v.X); t != nil {
			st, _ := structOf(t)
			if st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == v.Sel.Name {
						return st.Field(i).Type()
					}
				}
			}
		}
	case *ast.IndexExpr:
		switch t := under(g.typeOf(v.X)).(type) {
		case *types.Slice:
			return t.Elem()
		case *types.Map:
			return t.Elem()
		case *types.Basic:
			return tInt
		}
	case *ast.SliceExpr:
		return g.typeOf(v.X)
	case *ast.BinaryExpr:
		switch v.Op {
		case token.ADD, token.SUB, token.MUL:
			return g.typeOf(v.X)
		}
		return tBool
	case *ast.CallExpr:
		if id, ok := v.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "len", "index", "lastindex", "min", "max":
				return tInt
			case "old":
				return g.typeOf(v.Args[0])
			case "ite":
				return g.typeOf(v.Args[1])
			case "replaceall", "toupper", "tolower", "itoa", "repeat", "join", "joinn":
				return tStr
			case "as":
				tn := constant.StringVal(constant.MakeFromLiteral(v.Args[1].(*ast.BasicLit).Value, token.STRING, 0))
				return g.P.resolveType(tn)
			}
			if d := g.specs.defs[id.Name]; d != nil {
				return g.P.resolveType(d.ret)
			}
			for _, p := range []string{"vxlisp", "vx_core"} {
				if f := g.P.byKey[p+"."+id.Name]; f != nil && f.Signature.Results().Len() == 1 {
					return f.Signature.Results().At(0).Type()
				}
			}
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (g *goSpec) call(v *ast.CallExpr) string {
	id, ok := v.Fun.(*ast.Ident)
	if !ok {
		if sel, ok := v.Fun.(*ast.SelectorExpr); ok {
			return g.repo(sel.Sel.Name, v.Args)
		}
		g.no("call")
	}
	a := func(i int) string { return g.expr(v.Args[i]) }
	switch id.Name {
	case "len":
		return "len(" + a(0) + ")"
	case "old":
		if g.bound > 0 {
			g.no("old under a quantifier")
		}
		s := a(0)
		switch under(g.typeOf(v.Args[0])).(type) {
		case *types.Basic, *types.Pointer:
		case *types.Slice:
			n := fmt.Sprintf("vrOld%d", len(g.old))
			g.old = append(g.old, n+" := append("+s+"[:0:0], "+s+"...)")
			return n
		default:
			g.no("old of a composite")
		}
		n := fmt.Sprintf("vrOld%d", len(g.old))
		g.old = append(g.old, n+" := "+s)
		return n
	case "implies":
		return "vrImplies(" + a(0) + ", func() bool { return " + a(1) + " })"
	case "iff":
		return "(" + a(0) + " == " + a(1) + ")"
	case "ite":
		t := g.typeOf(v)
		if t == nil {
			g.no("type of ite")
		}
		ts := types.TypeString(t, g.qual)
		return "func() " + ts + " { if " + a(0) + " { return " + a(1) + " }; return " + a(2) + " }()"
	case "and":
		var s []string
		for i := range v.Args {
			s = append(s, a(i))
		}
		return "(" + strings.Join(s, " && ") + ")"
	case "forall", "exists":
		n := v.Args[0].(*ast.Ident).Name
		lo, hi := a(1), a(2)
		so, st := g.vars[n], g.typs[n]
		g.vars[n], g.typs[n] = "vq_"+n, tInt
		g.bound++
		b := g.expr(v.Args[3])
		g.bound--
		delete(g.vars, n)
		if so != "" {
			g.vars[n], g.typs[n] = so, st
		}
		fn := "vrForall"
		if id.Name == "exists" {
			fn = "vrExists"
		}
		return fn + "(" + lo + ", " + hi + ", func(vq_" + n + " int) bool { return " + b + " })"
	case "haskey":
		return "vrHas(" + a(0) + ", " + a(1) + ")"
	case "contains":
		return "strings.Contains(" + a(0) + ", " + a(1) + ")"
	case "hasprefix":
		return "strings.HasPrefix(" + a(0) + ", " + a(1) + ")"
	case "hassuffix":
		return "strings.HasSuffix(" + a(0) + ", " + a(1) + ")"
	case "index":
		return "strings.Index(" + a(0) + ", " + a(1) + ")"
	case "lastindex":
		return "strings.LastIndex(" + a(0) + ", " + a(1) + ")"
	case "replaceall":
		return "strings.ReplaceAll(" + a(0) + ", " + a(1) + ", " + a(2) + ")"
	case "toupper":
		return "strings.ToUpper(" + a(0) + ")"
	case "tolower":
		return "strings.ToLower(" + a(0) + ")"
	case "itoa":
		return "strconv.Itoa(" + a(0) + ")"
	case "repeat":
		return "strings.Repeat(" + a(0) + ", " + a(1) + ")"
	case "min", "max":
		return id.Name + "(" + a(0) + ", " + a(1) + ")"
	case "join":
		return "strings.Join(" + a(0) + ", " + a(1) + ")"
	case "joinn":
		return "vrJoinn(" + a(0) + ", " + a(1) + ", " + a(2) + ")"
	case "istype":
		tn := constant.StringVal(constant.MakeFromLiteral(v.Args[1].(*ast.BasicLit).Value, token.STRING, 0))
		return "func() bool { _, ok := (" + a(0) + ").(" + tn + "); return ok }()"
	case "as":
		tn := constant.StringVal(constant.MakeFromLiteral(v.Args[1].(*ast.BasicLit).Value, token.STRING, 0))
		return "(" + a(0) + ").(" + tn + ")"
	case "allocated":
		return "true"
	case "fresh", "forallstr", "existsstr":
		g.no("%s", id.Name)
	}
	if d := g.specs.defs[id.Name]; d != nil {
		if d.opaque {
			g.no("opaque definition %s", d.name)
		}
		g.defs[d.name] = true
		var s []string
		for i := range v.Args {
			s = append(s, a(i))
		}
		return "vrDef_" + d.name + "(" + strings.Join(s, ", ") + ")"
	}
	return g.repo(id.Name, v.Args)
}

func (g *goSpec) repo(name string, args []ast.Expr) string {
	var s []string
	for _, x := range args {
		s = append(s, g.expr(x))
	}
	for _, p := range []string{"vxlisp", "vx_core"} {
		if f := g.P.byKey[p+"."+name]; f != nil {
			q := ""
			if f.Pkg.Pkg != g.pkg {
				q = f.Pkg.Pkg.Name() + "."
			}
			return q + name + "(" + strings.Join(s, ", ") + ")"
		}
	}
	g.no("function %s", name)
	return ""
}

func (g *goSpec) qual(p *types.Package) string {
	if p == g.pkg {
		return ""
	}
	return p.Name()
}

func (g *goSpec) try(x ast.Expr) (s string, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(noGo); is {
				s, ok = "", false
				return
			}
			panic(e)
		}
	}()
	return g.expr(x), true
}

// defText renders a specification function as Go.
func (g *goSpec) defText(d *Def) (string, bool) {
	ng := &goSpec{P: g.P, specs: g.specs, vars: map[string]string{}, typs: map[string]types.Type{}, defs: g.defs, pkg: g.pkg}
	var ps []string
	for _, p := range d.params {
		ng.vars[p.name] = "p_" + p.name
		ng.typs[p.name] = g.P.resolveType(p.typ)
		ps = append(ps, "p_"+p.name+" "+p.typ)
	}
	s, ok := ng.try(d.body)
	if !ok {
		return "", false
	}
	// recursion must be lazy: ite becomes an if
	return "func vrDef_" + d.name + "(" + strings.Join(ps, ", ") + ") " + d.ret + " { return " + s + " }\n", true
}

func strConsts(f *ssa.Function, depth int, seen map[*ssa.Function]bool, own, other map[string]bool) {
	if seen[f] || f == nil || !inRepo(f) {
		return
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if cn, ok := (*op).(*ssa.Const); ok && cn.Value != nil && cn.Value.Kind() == constant.String {
					s := constant.StringVal(cn.Value)
					if len(s) < 60 {
						if own != nil {
							own[s] = true
						} else {
							other[s] = true
						}
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok && depth > 0 {
				strConsts(c.Common().StaticCallee(), depth-1, seen, nil, other)
			}
		}
	}
}

// intConsts adds the numbers a function compares or computes with, and their neighbours.
func intConsts(f *ssa.Function, ints map[int]bool) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, x := range []ssa.Value{bo.X, bo.Y} {
				if cn, ok := x.(*ssa.Const); ok && cn.Value != nil && cn.Value.Kind() == constant.Int {
					if n, ok := constant.Int64Val(cn.Value); ok && n > -1000 && n < 1000 {
						ints[int(n)-1], ints[int(n)], ints[int(n)+1] = true, true, true
					}
				}
			}
		}
	}
}

var reModelStr = regexp.MustCompile(`"([^"\\]{0,40})"`)
var reModelInt = regexp.MustCompile(`\s(\d{1,4})\)`)

type replayTarget struct {
	name string
	f    *ssa.Function
	ct   *Contract
	fail []*Failure
}

// unsafeToRun: the function may reach the network or other processes.
func (P *Prog) unsafeToRun(f *ssa.Function) string {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) string
	walk = func(f *ssa.Function) string {
		if f == nil || seen[f] {
			return ""
		}
		seen[f] = true
		if !inRepo(f) {
			if f.Pkg != nil {
				switch p := f.Pkg.Pkg.Path(); {
				case p == "os/exec", p == "net/http", p == "net", p == "syscall":
					return p + "." + f.Name()
				}
			}
			if f.Pkg != nil && f.Pkg.Pkg.Path() == "os" {
				switch f.Name() {
				case "Exit", "StartProcess", "Chdir":
					return "os." + f.Name()
				}
			}
			return ""
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if r := walk(g); r != "" {
							return r
						}
					}
				}
			}
		}
		return ""
	}
	return walk(f)
}

// replayAll searches a concrete failing input for each failure.
func (k *Run) replayAll() map[*Failure]string {
	out := map[*Failure]string{}
	byPkg := map[*types.Package][]*replayTarget{}
	byFn := map[*ssa.Function]*replayTarget{}
	var fs []*Failure
	for _, f := range k.fails {
		if k.ck.search != nil {
			if s := k.ck.search(k, f); s != "" {
				out[f] = s
				continue
			}
		}
		fs = append(fs, f)
	}
	if len(out) > 0 {
		return out
	}
	for _, f := range fs {
		if f.f == nil || f.replay == "none" || f.f.Parent() != nil || f.f.Signature.Recv() != nil || len(byFn) >= 6 && byFn[f.f] == nil {
			continue
		}
		if f.f.Pkg == nil || f.f.Pkg.Pkg.Path() == pkgMain || f.f.Name() == "init" {
			continue
		}
		if f.ct != nil && f.ct.noreplay {
			continue
		}
		t := byFn[f.f]
		if t == nil {
			if why := k.P.unsafeToRun(f.f); why != "" {
				continue
			}
			ct := f.ct
			if ct == nil {
				ct = k.inferred[f.f]
			}
			t = &replayTarget{name: f.fn, f: f.f, ct: ct}
			byFn[f.f] = t
			byPkg[f.f.Pkg.Pkg] = append(byPkg[f.f.Pkg.Pkg], t)
		}
		t.fail = append(t.fail, f)
	}
	for pkg, ts := range byPkg {
		src, files, err := k.harness(pkg, ts)
		if err != nil {
			continue
		}
		for name, r := range k.runHarness(pkg, src, files, 20000) {
			for _, t := range ts {
				if t.name == name {
					for _, f := range t.fail {
						out[f] = r
					}
				}
			}
		}
	}
	return out
}

func quoteList(m map[string]bool) string {
	var s []string
	for _, x := range sortedKeysG(m) {
		s = append(s, strconv.Quote(x))
	}
	if len(s) > 400 {
		s = s[:400]
	}
	return "[]string{" + strings.Join(s, ", ") + "}"
}

func (k *Run) harness(pkg *types.Package, ts []*replayTarget) (string, map[string]string, error) {
	g := &goSpec{P: k.P, specs: k.specs, defs: map[string]bool{}, pkg: pkg}
	imports := map[string]bool{}
	qual := func(p *types.Package) string {
		if p == pkg {
			return ""
		}
		imports[p.Path()] = true
		return p.Name()
	}
	var tb strings.Builder
	ins := &instrumenter{P: k.P, pkg: pkg, qual: qual, edits: map[string][]edit{}}
	fmt.Fprintf(&tb, "\nvar vrTargets = []vrTarget{\n")
	for _, t := range ts {
		own, other := map[string]bool{}, map[string]bool{}
		strConsts(t.f, 2, map[*ssa.Function]bool{}, own, other)
		ints := map[int]bool{}
		for _, f := range t.fail {
			for _, m := range reModelStr.FindAllStringSubmatch(f.output, 40) {
				own[m[1]] = true
			}
			for _, m := range reModelInt.FindAllStringSubmatch(f.output, 40) {
				n, _ := strconv.Atoi(m[1])
				ints[n] = true
			}
		}
		intConsts(t.f, ints)
		var il []string
		for n := range ints {
			il = append(il, strconv.Itoa(n))
		}
		sort.Strings(il)
		fmt.Fprintf(&tb, "{name: %q, own: %s, oth: %s, ints: []int{%s}, run: func(g *vrGen) ([]any, func() string) {\n", t.name, quoteList(own), quoteList(other), strings.Join(il, ", "))
		g.vars, g.typs, g.old = map[string]string{}, map[string]types.Type{}, nil
		var anys, call []string
		for i, p := range t.f.Params {
			fmt.Fprintf(&tb, "var a%d %s\ng.gen(reflect.ValueOf(&a%d).Elem(), 3)\n", i, types.TypeString(p.Type(), qual), i)
			anys = append(anys, fmt.Sprintf("a%d", i))
			c := fmt.Sprintf("a%d", i)
			if t.f.Signature.Variadic() && i == len(t.f.Params)-1 {
				c += "..."
			}
			call = append(call, c)
			if t.ct != nil && i < len(t.ct.params) {
				g.vars[t.ct.params[i]] = fmt.Sprintf("a%d", i)
				g.typs[t.ct.params[i]] = p.Type()
			}
		}
		rs := t.f.Signature.Results()
		var rn []string
		for i := 0; i < rs.Len(); i++ {
			rn = append(rn, fmt.Sprintf("r%d", i))
			if t.ct != nil && i < len(t.ct.results) {
				g.vars[t.ct.results[i]] = rn[i]
				g.typs[t.ct.results[i]] = rs.At(i).Type()
			}
		}
		var reqs, ens []string
		if t.ct != nil {
			for _, r := range t.ct.requires {
				if s, ok := g.try(r.expr); ok {
					reqs = append(reqs, s)
				} else {
					reqs = append(reqs, "false")
				}
			}
			for _, e := range t.ct.ensures {
				if s, ok := g.try(e.expr); ok {
					ens = append(ens, fmt.Sprintf("if !(%s) { return %q }\n", s, "postcondition "+e.name+" does not hold: "+e.text))
				}
			}
		}
		fmt.Fprintf(&tb, "return []any{%s}, func() string {\n", strings.Join(anys, ", "))
		for _, r := range reqs {
			fmt.Fprintf(&tb, "if !(%s) { return \"\" }\n", r)
		}
		for _, o := range g.old {
			fmt.Fprintln(&tb, o)
		}
		post := ""
		if k.ck.instrument != nil {
			var pre string
			pre, post = k.ck.instrument(k, t.f, ins, rn)
			fmt.Fprintln(&tb, pre)
		}
		if len(rn) > 0 {
			fmt.Fprintf(&tb, "%s := ", strings.Join(rn, ", "))
		}
		fmt.Fprintf(&tb, "%s(%s)\n", t.f.Name(), strings.Join(call, ", "))
		for _, r := range rn {
			fmt.Fprintf(&tb, "_ = %s\n", r)
		}
		for i := range g.old {
			fmt.Fprintf(&tb, "_ = vrOld%d\n", i)
		}
		for _, e := range ens {
			tb.WriteString(e)
		}
		fmt.Fprintln(&tb, post)
		fmt.Fprintf(&tb, "return \"\"\n}\n}},\n")
	}
	fmt.Fprintf(&tb, "}\n\nvar vrMake = map[string]func() reflect.Value{\n")
	for _, vt := range valueTags {
		ty := k.P.resolveType(vt.typ)
		if ty == nil || pkg.Path() != pkgVx && strings.Contains(vt.typ, "vx") {
			continue
		}
		fmt.Fprintf(&tb, "%q: func() reflect.Value { return reflect.ValueOf(new(%s)) },\n", vt.typ, vt.typ)
	}
	fmt.Fprintf(&tb, "}\n")
	done := map[string]bool{}
	for more := true; more; {
		more = false
		for _, n := range sortedKeysG(g.defs) {
			if !done[n] {
				done[n] = true
				more = true
				s, ok := g.defText(g.specs.defs[n])
				if !ok {
					return "", nil, fmt.Errorf("definition %s cannot be run", n)
				}
				tb.WriteString(s)
			}
		}
	}
	tb.WriteString(ins.decls.String())
	src := strings.Replace(harnessText, "PKGNAME", pkg.Name(), 1)
	have := map[string]bool{"encoding/json": true, "fmt": true, "math/rand": true, "os": true, "reflect": true, "runtime/debug": true, "strconv": true, "strings": true, "testing": true, "time": true, "unsafe": true}
	im := ""
	for _, p := range sortedKeysG(imports) {
		if !have[p] {
			im += strconv.Quote(p) + "\n"
		}
	}
	src = strings.Replace(src, "IMPORTS", im, 1)
	return src + tb.String(), ins.files(), nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOFLAGS=") {
			env = append(env, e)
		}
	}
	return append(env, "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")
}

// buildOverlay compiles the package's test binary with one more test file.
func buildOverlay(pkg *types.Package, src, dir string, files map[string]string) (string, error) {
	pdir := filepath.Join(repoSrc, strings.TrimPrefix(pkg.Path(), "vxlisp/"))
	tf := filepath.Join(dir, "h_test.go")
	if err := os.WriteFile(tf, []byte(src), 0644); err != nil {
		return "", err
	}
	rep := map[string]string{filepath.Join(pdir, "zz_verif_replay_test.go"): tf}
	for n, txt := range files {
		r := filepath.Join(dir, "o_"+filepath.Base(n))
		if err := os.WriteFile(r, []byte(txt), 0644); err != nil {
			return "", err
		}
		rep[n] = r
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, ov, 0644)
	bin := filepath.Join(dir, "replay.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", of, "-o", bin, ".")
	cmd.Dir = pdir
	cmd.Env = goEnv()
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v: %s", err, b)
	}
	os.Chmod(bin, 0755)
	return bin, nil
}

// runScratch runs a program as an unprivileged user in a scratch directory.
func runScratch(dir, bin string, args, env []string, limit time.Duration) string {
	work := filepath.Join(dir, "work")
	os.MkdirAll(work, 0777)
	os.Chmod(dir, 0755)
	os.Chmod(work, 0777)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = work
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + work, "TMPDIR=" + work, "GOMEMLIMIT=2GiB"}, env...)
	if os.Getuid() == 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}, Setpgid: true}
	}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	cmd.WaitDelay = 2 * time.Second
	cmd.Run()
	return b.String()
}

func (k *Run) runHarness(pkg *types.Package, src string, files map[string]string, ms int) map[string]string {
	out := map[string]string{}
	dir, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		return out
	}
	defer os.RemoveAll(dir)
	os.Chmod(dir, 0755)
	bin, err := buildOverlay(pkg, src, dir, files)
	if err != nil {
		if os.Getenv("GOVC_V") != "" {
			fmt.Fprintln(os.Stderr, "replay harness:", err)
			fmt.Fprintln(os.Stderr, src)
		}
		return out
	}
	n := strings.Count(src, "{name: ")
	env := []string{fmt.Sprintf("VR_SEED=%d", k.seed), fmt.Sprintf("VR_MS=%d", ms/max(1, min(n, 2)))}
	if k.ck.nilPanics {
		env = append(env, "VR_NIL=1")
	}
	txt := runScratch(dir, bin, []string{"-test.run", "^TestVerifReplay$"}, env, time.Duration(ms*n+10000)*time.Millisecond)
	for _, l := range strings.Split(txt, "\n") {
		i := strings.Index(l, "VRFOUND ")
		if i < 0 {
			continue
		}
		var m struct {
			Target, Fail string
			Case         int64
		}
		if json.Unmarshal([]byte(l[i+8:]), &m) == nil {
			out[m.Target] = fmt.Sprintf("call of %s, generated case %d:\n%s", m.Target, m.Case, m.Fail)
		}
	}
	return out
}

// instrumenter wraps calls of the real source in recording functions (overlay only).
type instrumenter struct {
	P     *Prog
	pkg   *types.Package
	qual  types.Qualifier
	edits map[string][]edit
	decls strings.Builder
	n     int
}

type edit struct {
	off  int
	text string
}

func (in *instrumenter) insert(pos token.Pos, text string) {
	p := in.P.prog.Fset.Position(pos)
	in.edits[p.Filename] = append(in.edits[p.Filename], edit{p.Offset, text})
}

func (in *instrumenter) files() map[string]string {
	out := map[string]string{}
	for f, es := range in.edits {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].off < es[j].off })
		var sb strings.Builder
		last := 0
		for _, e := range es {
			sb.Write(b[last:e.off])
			sb.WriteString(e.text)
			last = e.off
		}
		sb.Write(b[last:])
		out[f] = sb.String()
	}
	return out
}

// callExprs maps the opening parenthesis of each call in f to its expression.
func (in *instrumenter) callExprs(f *ssa.Function) map[token.Pos]*ast.CallExpr {
	out := map[token.Pos]*ast.CallExpr{}
	if f.Syntax() == nil {
		return out
	}
	ast.Inspect(f.Syntax(), func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			out[c.Lparen] = c
		}
		return true
	})
	return out
}
