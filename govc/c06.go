package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C06: what a command generates reaches the disk, whole and in its folder.
//
// Ghost state: ghost:disk is the content of every file, changed by the library
// calls that write; one generated file, chosen arbitrarily, is followed from the
// place where it is made (ghost:made). Contract of every function that makes,
// passes on or writes generated files: the followed file, if it is made during the
// call or handed in, is among the results, or is on disk with its text, or the
// result reports an error. Facts about paths: a path lies in the folder of the
// command, below it, or in the folder that holds it.

func init() {
	register(&Check{id: "C06", level: "proof", run: runC06, search: c06Search,
		what: "for every function that makes, passes on or writes generated files: no generated file is left behind, its text is on disk unless an error is reported, and every path given to the operating system for writing lies in the command's folder (copied test data: or in the one that holds it)",
		assumes: []string{
			"no two files generated in one run have the same path, and no copied test data file has the path of a generated one",
			"package names and the java domain contain no '..' segment",
			"os.Create, WriteString, os.WriteFile and os.ReadFile do what they say when they report no error; Close does not lose what was written",
			"filepath.Join(folder, rest) stays in folder for the paths that filepath.Walk hands out",
			"how the project's folder and the command's path are put together to one folder name (PathFromPathRelativePath, StringPathFromProjectCmd) is not part of this property",
		}})
}

const (
	plIn    = iota // in the command's folder
	plBelow        // strictly below it
	plHold         // in the folder that holds it
	plKinds
)

var plName = [plKinds]string{"in the folder", "below the folder", "in the holding folder"}

const ghDisk, ghMade = "ghost:disk", "ghost:made"
const diskSort = "(Array Str Str)"

// Library calls that create, change or remove what the argument names.
var c06Sinks = map[string]int{
	"os.Create": 0, "os.WriteFile": 0, "os.OpenFile": 0, "os.Mkdir": 0, "os.MkdirAll": 0, "os.Symlink": 1, "os.Link": 1,
	"os.Remove": 0, "os.RemoveAll": 0, "os.Truncate": 0, "os.Chmod": 0, "os.Rename": 1, "os.CreateTemp": 0, "os.MkdirTemp": 0,
	"os.CopyFS": 0, "os.Chtimes": 0, "io/ioutil.WriteFile": 0,
}

type fileRun struct {
	k     *Run
	P     *Prog
	file  *types.Named
	mu    sync.Mutex
	dead  map[string]string
	use   map[string]map[*ssa.Function]bool
	in    map[*ssa.Function]bool // makes, passes on or writes files
	makes map[*ssa.Function]bool
	write map[*ssa.Function]bool
	roots map[*ssa.Function]bool
	calls map[*ssa.Function]bool // has a contract of its own
	dyn   map[*ssa.Function]bool // called through a value or by the library
}

func (n *fileRun) isFile(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(types.Unalias(p.Elem()), n.file)
}

func (n *fileRun) isFiles(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && n.isFile(s.Elem())
}

func (n *fileRun) isNamed(t types.Type, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	nt, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && nt.Obj().Name() == name && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == pkgVx
}

func (n *fileRun) alive(f *ssa.Function, key string) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.use[key] == nil {
		n.use[key] = map[*ssa.Function]bool{}
	}
	n.use[key][f] = true
	_, d := n.dead[key]
	return !d
}

// fileMemo holds the terms of one function.
type fileMemo struct {
	n     *fileRun
	ex    *Exec
	place [plKinds]map[int]*Term
	mem   map[int]*Term
	names map[int]*Term    // opened file -> its name
	bytes map[int][3]*Term // bytes read -> condition, text
	K     *Term
	made0 *Term
	owed0 *Term
	done0 *Term
	prj   *Term
	cmd   *Term
}

func (m *fileMemo) field(st *State, p *Term, nt *types.Named, name, srt string) *Term {
	return m.ex.c.Select(m.ex.heap(st, fieldKey(nt, name), "(Array Int "+srt+")"), p)
}

func (m *fileMemo) path(st *State, p *Term) *Term {
	c := m.ex.c
	return c.StrCat(m.field(st, p, m.n.file, "path", c.StrSort()), c.StrCat(c.Str("/"), m.field(st, p, m.n.file, "name", c.StrSort())))
}

// done: the followed file is on disk with its text.
func (m *fileMemo) done(st *State) *Term {
	c := m.ex.c
	return c.Eq(c.Select(m.ex.heap(st, ghDisk, diskSort), m.path(st, m.K)), m.field(st, m.K, m.n.file, "text", c.StrSort()))
}

func (m *fileMemo) made(st *State) *Term { return m.ex.heap(st, ghMade, "Bool") }

// has: the followed file is p, or in the list p.
func (m *fileMemo) has(t types.Type, p *Term) *Term {
	c := m.ex.c
	if m.n.isFile(t) {
		return c.Eq(p, m.K)
	}
	if r, ok := m.mem[p.id]; ok {
		return r
	}
	var r *Term
	if k, ok := isInt(c.SLen(p)); ok && k == 0 {
		r = c.False()
	} else if p.op == "ite" {
		r = c.Ite(p.args[0], m.has(t, p.args[1]), m.has(t, p.args[2]))
	} else {
		r = c.App("holds", "Bool", p)
		if _, ok := c.termfacts[r.id]; !ok && !r.bound {
			i := c.App("heldat", "Int", p)
			c.termfacts[r.id] = []*Term{
				c.Implies(r, c.And(c.Le(c.Int(0), i), c.Lt(i, c.SLen(p)), c.Eq(c.SGet(p, i), m.K))),
				c.Implies(c.Eq(c.SLen(p), c.Int(0)), c.Not(r)),
			}
		}
	}
	m.mem[p.id] = r
	return r
}

// at: the path t lies in place k.
func (m *fileMemo) at(k int, t *Term) *Term {
	if r, ok := m.place[k][t.id]; ok {
		return r
	}
	c := m.ex.c
	var r *Term
	switch {
	case t.op == "ite":
		r = c.Ite(t.args[0], m.at(k, t.args[1]), m.at(k, t.args[2]))
	case t.op == "@cat":
		a, b := t.args[0], t.args[1]
		below := c.Or(m.at(plBelow, a), c.And(m.at(plIn, a), m.slash(b)))
		switch k {
		case plBelow:
			r = below
		case plIn:
			r = c.Or(below, c.And(m.at(plIn, a), c.Eq(b, c.Str(""))))
		default:
			r = c.Or(below, c.And(m.at(plHold, a), m.slash(b)))
		}
	default:
		if _, ok := isStr(t); ok {
			r = c.App(fmt.Sprintf("place%d", k), "Bool", t)
			break
		}
		r = c.App(fmt.Sprintf("place%d", k), "Bool", t)
		if _, ok := c.termfacts[r.id]; ok || r.bound {
			break
		}
		c.termfacts[r.id] = nil
		var fs []*Term
		switch k {
		case plIn:
			fs = append(fs, c.Implies(m.at(plBelow, t), r))
			if t.op == "@relpath" {
				fs = append(fs, c.Implies(c.And(c.Eq(t.args[0], m.prj), c.Eq(t.args[1], m.cmd)), r))
			}
		case plHold:
			fs = append(fs, c.Implies(m.at(plIn, t), r))
			if t.op == "@substr" {
				// a path cut at or after its last slash
				x := t.args[0]
				fs = append(fs, c.Implies(c.And(m.at(plIn, x), c.Eq(t.args[1], c.Int(0)), c.Le(c.strFn("lastindex", "Int", x, c.Str("/")), t.args[2])), r))
			}
		}
		c.termfacts[r.id] = fs
	}
	m.place[k][t.id] = r
	return r
}

// slash: the text starts with a slash.
func (m *fileMemo) slash(t *Term) *Term {
	c := m.ex.c
	if s, ok := isStr(t); ok {
		return c.Bool(strings.HasPrefix(s, "/"))
	}
	switch t.op {
	case "@cat":
		return c.Or(m.slash(t.args[0]), c.And(c.Eq(t.args[0], c.Str("")), m.slash(t.args[1])))
	case "ite":
		return c.Ite(t.args[0], m.slash(t.args[1]), m.slash(t.args[2]))
	}
	return c.strFn("prefix", "Bool", t, c.Str("/"))
}

// params lists what is known about the parameters of f given its arguments.
func (n *fileRun) params(ex *Exec, m *fileMemo, st *State, f *ssa.Function, i int, v *Term) []nilFact {
	if i >= len(f.Params) || v == nil || !n.calls[f] || n.dyn[f] {
		return nil
	}
	c := ex.c
	key := fmt.Sprintf("parameter %s %d ", funcKey(f), i)
	t := f.Params[i].Type()
	var out []nilFact
	add := func(what string, t *Term) {
		if n.alive(ex.root.fn, key+what) {
			out = append(out, nilFact{key + what, t})
		}
	}
	switch {
	case isStrT(t):
		for k := 0; k < plKinds; k++ {
			add(plName[k], m.at(k, v))
		}
	case n.isNamed(t, "vxproject"):
		add("is the project", c.Eq(m.field(st, v, n.named("vxproject"), "path", c.StrSort()), m.prj))
	case n.isNamed(t, "vxcommand"):
		add("is the command", c.Eq(m.field(st, v, n.named("vxcommand"), "path", c.StrSort()), m.cmd))
	}
	return out
}

func (n *fileRun) named(name string) *types.Named {
	return types.Unalias(n.P.lookupType(name)).(*types.Named)
}

func isStrT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.String || b.Kind() == types.UntypedString)
}

// says: the results report an error.
func (m *fileMemo) says(st *State, rs *types.Tuple, get func(int) *Term) *Term {
	c := m.ex.c
	r := c.False()
	for i := 0; i < rs.Len(); i++ {
		if get(i) == nil {
			continue
		}
		if isMsgblock(rs.At(i).Type()) {
			r = c.Or(r, m.ex.isErr(st, get(i)))
		} else if isError(rs.At(i).Type()) {
			r = c.Or(r, c.Not(c.Eq(get(i), c.anyNil())))
		}
	}
	return r
}

// kept is the contract of a function: the followed file, owed by the call, is in a
// result, or done, or an error is reported.
func (m *fileMemo) kept(st *State, writes bool, owed, wasdone *Term, rs *types.Tuple, get func(int) *Term) (*Term, *Term) {
	c := m.ex.c
	ok := m.says(st, rs, get)
	still := ok
	for i := 0; i < rs.Len(); i++ {
		if t := rs.At(i).Type(); get(i) != nil && (m.n.isFile(t) || m.n.isFiles(t)) {
			ok = c.Or(ok, m.has(t, get(i)))
		}
	}
	if writes {
		ok = c.Or(ok, m.done(st))
	}
	return c.Implies(owed, ok), c.Implies(wasdone, c.Or(still, m.done(st)))
}

func (n *fileRun) opts() *Opts {
	o := &Opts{kinds: map[string]bool{"file-kept": true, "file-place": true, "fact": true}, noQuant: true, maxDepth: 6, noTheoryRetry: true, autoInv: false, inline: n.inline}
	var m *fileMemo
	o.onEntry = func(ex *Exec, fr *Frame, st *State) {
		c := ex.c
		m = &fileMemo{n: n, ex: ex, mem: map[int]*Term{}, names: map[int]*Term{}, bytes: map[int][3]*Term{}}
		for i := range m.place {
			m.place[i] = map[int]*Term{}
		}
		ex.keys[ghDisk], ex.keys[ghMade] = diskSort, "Bool"
		m.K, m.prj, m.cmd = c.Const("$file", "Int"), c.Const("$project", c.StrSort()), c.Const("$command", c.StrSort())
		m.made0 = m.made(st)
		ex.assume(st, c.Implies(m.made0, c.And(c.Lt(c.Int(0), m.K), c.Le(m.K, ex.heap(st, "alloc", "Int")))))
		ex.assume(st, c.Implies(c.Not(m.made0), c.Lt(ex.heap(st, "alloc", "Int"), m.K)))
		m.owed0 = c.False()
		for i, p := range fr.fn.Params {
			v := ex.plain(fr.args[i])
			if n.isFile(p.Type()) || n.isFiles(p.Type()) {
				m.owed0 = c.Or(m.owed0, m.has(p.Type(), v))
			}
			if n.isFile(p.Type()) {
				n.distinct(m, st, v)
			}
			for _, f := range n.params(ex, m, st, fr.fn, i, v) {
				ex.assume(st, f.t)
			}
			if n.roots[fr.fn] {
				switch {
				case n.isNamed(p.Type(), "vxproject"):
					ex.assume(st, c.Eq(m.field(st, v, n.named("vxproject"), "path", c.StrSort()), m.prj))
				case n.isNamed(p.Type(), "vxcommand") && !n.sets(fr.fn):
					ex.assume(st, c.Eq(m.field(st, v, n.named("vxcommand"), "path", c.StrSort()), m.cmd))
				}
			}
		}
		m.owed0 = c.And(m.made0, m.owed0)
		m.done0 = c.And(m.made0, m.done(st))
	}
	o.ghostHavoc = func(ex *Exec, st *State, key string, cal *ssa.Function) {
		c := ex.c
		switch {
		case key == ghDisk && n.write[cal]:
			st.heap[key] = c.Fresh("disk", diskSort)
		case key == ghMade && n.makes[cal]:
			v := c.Fresh("made", "Bool")
			ex.assume(st, c.Implies(m.made(st), v))
			st.heap[key] = v
		}
	}
	o.hookCall = func(ex *Exec, fr *Frame, st *State, in ssa.Instruction, cal *ssa.Function, args []*Val, res []*Term) {
		c := ex.c
		switch cal.Name() {
		case "PathFromPathRelativePath":
			if len(res) == 1 && len(args) == 2 {
				ex.assume(st, c.Eq(res[0], c.App("relpath", c.StrSort(), ex.plain(args[0]), ex.plain(args[1]))))
				for k := 0; k < plKinds; k++ {
					ex.assume(st, c.Eq(m.at(k, res[0]), m.at(k, c.App("relpath", c.StrSort(), ex.plain(args[0]), ex.plain(args[1])))))
				}
			}
		case "StringPathFromProjectCmd":
			// the path that the command names
			if n.sets(ex.root.fn) && len(res) == 1 && len(args) == 2 {
				same := c.True()
				for i, p := range ex.root.fn.Params {
					if n.isNamed(p.Type(), "vxproject") {
						same = c.And(same, c.Eq(ex.plain(args[0]), ex.plain(ex.root.args[i])))
					}
					if n.isNamed(p.Type(), "vxcommand") {
						same = c.And(same, c.Eq(ex.plain(args[1]), ex.plain(ex.root.args[i])))
					}
				}
				ex.assume(st, c.Implies(same, c.Eq(res[0], m.cmd)))
			}
		}
	}
	o.hookLib = func(ex *Exec, fr *Frame, st *State, in ssa.Instruction, name string, args []*Val, rt types.Type) (*Val, bool) {
		c := ex.c
		put := func(name, v *Term) {
			st.heap[ghDisk] = c.Store(ex.heap(st, ghDisk, diskSort), name, v)
		}
		if i, ok := c06Sinks[name]; ok && i < len(args) {
			ex.oblige(fr, st, "file-place", "path given to "+name, in.Pos(), m.at(plHold, ex.plain(args[i])))
		}
		if fr.fn.Parent() != nil {
			return nil, false
		}
		nameOf := func(f *Val) *Term {
			t := ex.plain(f)
			if r, ok := m.names[t.id]; ok {
				return r
			}
			return c.App("nameof", c.StrSort(), t)
		}
		switch name {
		case "os.Create":
			v := ex.freshResult(st, "create", rt)
			m.names[ex.plain(v.tup[0]).id] = ex.plain(args[0])
			put(ex.plain(args[0]), c.Ite(c.Eq(v.tup[1].t, c.anyNil()), c.Str(""), c.Fresh("content", c.StrSort())))
			return v, true
		case "(*os.File).WriteString", "io.WriteString":
			v := ex.freshResult(st, "write", rt)
			f := nameOf(args[0])
			old, nv := c.Select(ex.heap(st, ghDisk, diskSort), f), c.Fresh("content", c.StrSort())
			ex.assume(st, c.Implies(c.And(c.Eq(v.tup[1].t, c.anyNil()), c.Eq(old, c.Str(""))), c.Eq(nv, ex.plain(args[1]))))
			put(f, nv)
			return v, true
		case "(*os.File).Write":
			v := ex.freshResult(st, "write", rt)
			f := nameOf(args[0])
			old, nv := c.Select(ex.heap(st, ghDisk, diskSort), f), c.Fresh("content", c.StrSort())
			if b, ok := m.bytes[ex.plain(args[1]).id]; ok {
				ex.assume(st, c.Implies(c.And(c.Eq(v.tup[1].t, c.anyNil()), c.Eq(old, c.Str(""))), c.Eq(nv, b[1])))
			}
			put(f, nv)
			return v, true
		case "os.WriteFile", "io/ioutil.WriteFile":
			v := ex.freshResult(st, "write", rt)
			nv := c.Fresh("content", c.StrSort())
			if b, ok := m.bytes[ex.plain(args[1]).id]; ok {
				ex.assume(st, c.Implies(c.Eq(ex.plain(v), c.anyNil()), c.Eq(nv, b[1])))
			}
			put(ex.plain(args[0]), nv)
			return v, true
		case "os.ReadFile", "io/ioutil.ReadFile":
			v := ex.freshResult(st, "read", rt)
			m.bytes[ex.plain(v.tup[0]).id] = [3]*Term{c.Eq(v.tup[1].t, c.anyNil()), c.Select(ex.heap(st, ghDisk, diskSort), ex.plain(args[0]))}
			return v, true
		}
		return nil, false
	}
	o.afterCall = func(ex *Exec, fr *Frame, pre, st *State, in ssa.Instruction, cc *ssa.CallCommon, v *Val) {
		c := ex.c
		cal := cc.StaticCallee()
		if cal == nil {
			return
		}
		if cal.String() == "path/filepath.Join" && v != nil && v.t != nil && len(cc.Args) == 1 {
			if its := variadicItems(cc.Args[0]); len(its) > 0 {
				a := ex.term(fr, pre, its[0])
				for k := 0; k < plKinds; k++ {
					if k != plBelow {
						ex.assume(st, c.Implies(m.at(k, a), m.at(k, v.t)))
					}
				}
			}
			return
		}
		if cal.String() == "strings.HasSuffix" && v != nil && v.t != nil {
			if s, ok := isStr(ex.term(fr, pre, cc.Args[1])); ok && strings.LastIndex(s, "/") == 0 {
				x := ex.term(fr, pre, cc.Args[0])
				ex.assume(st, c.Implies(v.t, c.Eq(c.strFn("lastindex", "Int", x, c.Str("/")), c.Sub(c.StrLen(x), c.Int(int64(len(s)))))))
			}
			return
		}
		if !inRepo(cal) || ex.willInline(fr, cal) {
			return
		}
		rs := cc.Signature().Results()
		get := func(i int) *Term {
			if v == nil {
				return nil
			}
			if rs.Len() == 1 {
				return ex.plain(v)
			}
			if i < len(v.tup) {
				return ex.plain(v.tup[i])
			}
			return nil
		}
		// what came in as an error comes out as one (property C02)
		for i := 0; i < rs.Len(); i++ {
			if isMsgblock(rs.At(i).Type()) && get(i) != nil {
				for _, a := range cc.Args {
					if isMsgblock(a.Type()) {
						ex.assume(st, c.Implies(ex.isErr(pre, ex.term(fr, pre, a)), ex.isErr(st, get(i))))
					}
				}
			}
		}
		if !n.calls[cal] {
			return
		}
		owed := c.And(m.made(st), c.Not(m.made(pre)))
		for _, a := range cc.Args {
			if n.isFile(a.Type()) || n.isFiles(a.Type()) {
				owed = c.Or(owed, c.And(m.made(pre), m.has(a.Type(), ex.term(fr, pre, a))))
			}
		}
		a, b := m.kept(st, n.write[cal], owed, c.And(m.made(pre), m.done(pre)), rs, get)
		ex.assume(st, c.And(a, b))
		ex.assume(st, c.Implies(c.And(m.made(st), c.Not(m.made(pre))), c.And(c.Lt(ex.heap(pre, "alloc", "Int"), m.K), c.Le(m.K, ex.heap(st, "alloc", "Int")))))
	}
	o.post = func(ex *Exec, fr *Frame, st *State, in ssa.Instruction) {
		c := ex.c
		switch x := in.(type) {
		case *ssa.Alloc:
			if p := x.Type().Underlying().(*types.Pointer).Elem(); types.Identical(types.Unalias(p), n.file) && fr.vals[x] != nil {
				st.heap[ghMade] = c.Or(m.made(st), c.Eq(ex.plain(fr.vals[x]), m.K))
			}
		case *ssa.UnOp:
			v := fr.vals[x]
			if x.Op != token.MUL || v == nil {
				return
			}
			switch a := x.X.(type) {
			case *ssa.IndexAddr:
				if n.isFiles(a.X.Type()) && v.t != nil {
					n.distinct(m, st, v.t)
				}
			case *ssa.FieldAddr:
				if n.isFile(a.X.Type()) && n.file.Underlying().(*types.Struct).Field(a.Field).Name() == "path" && v.t != nil {
					ex.assume(st, m.at(plIn, v.t))
				}
			case *ssa.FreeVar:
				if p := captured(a); p != nil && v.t != nil && isStrT(x.Type()) {
					for i, q := range p.Parent().Params {
						if q == p {
							for _, f := range n.params(ex, m, st, p.Parent(), i, v.t) {
								ex.assume(st, f.t)
							}
						}
					}
				}
			}
		case *ssa.Convert:
			v := fr.vals[x]
			if v == nil || v.t == nil {
				return
			}
			s := ex.plain(ex.val(fr, st, x.X))
			if isStrT(x.Type()) {
				if b, ok := m.bytes[s.id]; ok {
					ex.assume(st, c.Implies(b[0], c.Eq(v.t, b[1])))
				}
			} else if isStrT(x.X.Type()) {
				m.bytes[v.t.id] = [3]*Term{c.True(), s}
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" || !n.isFiles(x.Type()) {
				return
			}
			t := x.Type()
			l, r := ex.term(fr, st, x.Call.Args[0]), ex.term(fr, st, x)
			more := c.False()
			if its := variadicItems(x.Call.Args[1]); its != nil {
				for _, it := range its {
					more = c.Or(more, c.Eq(ex.term(fr, st, it), m.K))
				}
			} else {
				more = m.has(t, ex.term(fr, st, x.Call.Args[1]))
			}
			ex.assume(st, c.Eq(m.has(t, r), c.Or(m.has(t, l), more)))
		case *ssa.Slice:
			if n.isFiles(x.Type()) && fr.vals[x] != nil {
				if its := variadicItems(x); its != nil {
					has := c.False()
					for _, it := range its {
						has = c.Or(has, c.Eq(ex.term(fr, st, it), m.K))
					}
					ex.assume(st, c.Eq(m.has(x.Type(), ex.term(fr, st, x)), has))
				}
			}
		}
	}
	o.trace = func(ex *Exec, fr *Frame, st *State, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && n.isFile(fa.X.Type()) && n.file.Underlying().(*types.Struct).Field(fa.Field).Name() == "path" {
				ex.oblige(fr, st, "file-place", "folder of a generated file", x.Pos(), m.at(plIn, ex.term(fr, st, x.Val)))
			}
		case ssa.CallInstruction:
			cc := x.Common()
			cal := cc.StaticCallee()
			if cal == nil || !n.calls[cal] || ex.willInline(fr, cal) {
				return
			}
			for i, a := range cc.Args {
				v := ex.val(fr, st, a)
				for _, f := range n.params(ex, m, st, cal, i, ex.plain(v)) {
					ex.oblige(fr, st, "fact", f.key, in.Pos(), f.t)
				}
				if n.sets(ex.root.fn) && n.roots[cal] && !n.sets(cal) && n.isNamed(a.Type(), "vxcommand") && n.P.hasFunc("StringPathFromProjectCmd") {
					ex.oblige(fr, st, "file-place", "path of the executed command", in.Pos(), ex.c.Eq(m.field(st, ex.plain(v), n.named("vxcommand"), "path", ex.c.StrSort()), m.cmd))
				}
			}
		}
	}
	o.extraCands = func(ex *Exec, fr *Frame, l *loopInfo, entry *State, phis []*ssa.Phi, init func(*ssa.Phi) *Term, addc func(string, genFn)) {
		c := ex.c
		e := *entry
		made0, done0 := m.made(&e), c.And(m.made(&e), m.done(&e))
		addc("made-same", func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Eq(m.made(st), made0) })
		addc("made-grows", func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Implies(made0, m.made(st)) })
		addc("made-allocated", func(get func(*ssa.Phi) *Term, st *State) *Term {
			return c.Implies(m.made(st), c.And(c.Lt(c.Int(0), m.K), c.Le(m.K, ex.heap(st, "alloc", "Int"))))
		})
		for _, f := range []string{"path", "name", "text"} {
			f := f
			v0 := m.field(&e, m.K, n.file, f, c.StrSort())
			addc("same-"+f, func(get func(*ssa.Phi) *Term, st *State) *Term {
				return c.Implies(made0, c.Eq(m.field(st, m.K, n.file, f, c.StrSort()), v0))
			})
		}
		type blk struct {
			name string
			at   func(get func(*ssa.Phi) *Term) *Term
		}
		bs := []blk{{"", func(get func(*ssa.Phi) *Term) *Term { return nil }}}
		var lists []*ssa.Phi
		var ints []*ssa.Phi
		for _, p := range phis {
			p := p
			switch {
			case isMsgblock(p.Type()):
				bs = append(bs, blk{p.Comment, func(get func(*ssa.Phi) *Term) *Term { return get(p) }})
			case n.isFiles(p.Type()):
				lists = append(lists, p)
			default:
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
					ints = append(ints, p)
				}
			}
		}
		k := 0
		for v, val := range fr.vals {
			if k > 8 || inLoop(l, v) || val == nil || val.t == nil || !isMsgblock(v.Type()) {
				continue
			}
			k++
			t := val.t
			bs = append(bs, blk{v.Name(), func(get func(*ssa.Phi) *Term) *Term { return t }})
		}
		// lists the loop goes through
		var through []*Term
		for v, val := range fr.vals {
			if !inLoop(l, v) && val != nil && val.t != nil && n.isFiles(v.Type()) {
				through = append(through, val.t)
			}
		}
		sort.Slice(through, func(i, j int) bool { return through[i].id < through[j].id })
		for _, b := range bs {
			b := b
			ok := func(get func(*ssa.Phi) *Term, st *State) *Term {
				r := m.done(st)
				if t := b.at(get); t != nil {
					r = c.Or(r, ex.isErr(st, t))
				}
				return r
			}
			addc("done "+b.name, func(get func(*ssa.Phi) *Term, st *State) *Term { return c.Implies(done0, ok(get, st)) })
			addc("new "+b.name, func(get func(*ssa.Phi) *Term, st *State) *Term {
				return c.Implies(c.And(m.made(st), c.Not(m.made0)), ok(get, st))
			})
			addc("error "+b.name, func(get func(*ssa.Phi) *Term, st *State) *Term {
				if t := b.at(get); t != nil {
					return c.Implies(m.says1(entry, b.at(init)), ex.isErr(st, t))
				}
				return nil
			})
			for _, p := range ints {
				for _, t := range through {
					p, t := p, t
					i := c.App("heldat", "Int", t)
					held := m.has(types.NewSlice(types.NewPointer(n.file)), t)
					addc("passed "+b.name+" "+p.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term {
						return c.Implies(c.And(held, m.made(st), c.Le(i, get(p))), ok(get, st))
					})
					addc("before "+b.name+" "+p.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term {
						return c.Implies(c.And(held, m.made(st), c.Lt(i, get(p))), ok(get, st))
					})
				}
			}
			for _, p := range lists {
				p := p
				addc("listed "+b.name+" "+p.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term {
					r := c.Or(m.has(p.Type(), get(p)))
					if t := b.at(get); t != nil {
						r = c.Or(r, ex.isErr(st, t))
					}
					return c.Implies(c.And(m.made(st), c.Not(m.made0)), r)
				})
				addc("still "+b.name+" "+p.Comment, func(get func(*ssa.Phi) *Term, st *State) *Term {
					r := c.Or(m.has(p.Type(), get(p)))
					if t := b.at(get); t != nil {
						r = c.Or(r, ex.isErr(st, t))
					}
					return c.Implies(m.has(p.Type(), init(p)), r)
				})
			}
		}
		for _, p := range phis {
			p := p
			if isStrT(p.Type()) {
				for k := 0; k < plKinds; k++ {
					k := k
					addc(p.Comment+" "+plName[k], func(get func(*ssa.Phi) *Term, st *State) *Term { return m.at(k, get(p)) })
				}
			}
		}
	}
	o.onReturn = func(ex *Exec, fr *Frame, st *State, res []*Term) {
		c := ex.c
		if fr.fn.Parent() != nil {
			return
		}
		owed := c.Or(m.owed0, c.And(m.made(st), c.Not(m.made0)))
		a, b := m.kept(st, n.write[fr.fn], owed, m.done0, fr.fn.Signature.Results(), func(i int) *Term { return res[i] })
		ex.oblige(fr, st, "file-kept", "a file handed in or made is handed on or on disk", fr.fn.Pos(), a)
		ex.oblige(fr, st, "file-kept", "a file on disk stays as it is", fr.fn.Pos(), b)
	}
	return o
}

func (m *fileMemo) says1(st *State, p *Term) *Term {
	if p == nil {
		return m.ex.c.False()
	}
	return m.ex.isErr(st, p)
}

// distinct: another file has another path.
func (n *fileRun) distinct(m *fileMemo, st *State, p *Term) {
	c := m.ex.c
	m.ex.assume(st, c.Or(c.Eq(p, m.K), c.Not(m.made(st)), c.Not(c.Eq(m.path(st, p), m.path(st, m.K)))))
}

// captured is the parameter of the enclosing function that a function literal reads.
func captured(v *ssa.FreeVar) *ssa.Parameter {
	f := v.Parent()
	if f == nil || f.Parent() == nil {
		return nil
	}
	idx := -1
	for i, x := range f.FreeVars {
		if x == v {
			idx = i
		}
	}
	var out *ssa.Parameter
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(f) {
				continue
			}
			a, ok := mc.Bindings[idx].(*ssa.Alloc)
			if !ok {
				return nil
			}
			var p *ssa.Parameter
			for _, r := range *a.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					q, ok := y.Val.(*ssa.Parameter)
					if !ok || p != nil || y.Addr != ssa.Value(a) {
						return nil
					}
					p = q
				case *ssa.UnOp, *ssa.MakeClosure, *ssa.DebugRef:
				default:
					return nil
				}
			}
			if out != nil && out != p {
				return nil
			}
			out = p
		}
	}
	// the function literal itself does not change it
	for _, r := range *v.Referrers() {
		switch r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return out
}

// sets: the function decides the path of the command it executes.
func (n *fileRun) sets(f *ssa.Function) bool {
	return f.Name() == "ExecuteProjectCommand" || f.Name() == "ExecuteProjectCmds"
}

func (n *fileRun) inline(fr *Frame, cal *ssa.Function) bool {
	if len(cal.Blocks) == 0 || n.P.recursive[cal] || n.roots[cal] || ninstr(cal) > 120 || len(loopsOf(cal)) > 0 || len(cal.AnonFuncs) > 0 {
		return false
	}
	if !n.in[cal] && n.size(cal, map[*ssa.Function]bool{}) > 150 {
		return false
	}
	switch cal.Name() {
	case "PathFromPathRelativePath", "StringPathFromProjectCmd":
		return false
	}
	return true
}

// size counts the instructions of the function and all it calls.
func (n *fileRun) size(f *ssa.Function, seen map[*ssa.Function]bool) int {
	if f == nil || seen[f] || !inRepo(f) {
		return 0
	}
	seen[f] = true
	k := ninstr(f)
	switch f.Name() {
	case "PathFromPathRelativePath", "StringPathFromProjectCmd":
		return 0
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				k += n.size(c.Common().StaticCallee(), seen)
			}
		}
	}
	return k
}

func runC06(k *Run) {
	P := k.P
	n := &fileRun{k: k, P: P, dead: map[string]string{}, use: map[string]map[*ssa.Function]bool{},
		in: map[*ssa.Function]bool{}, makes: map[*ssa.Function]bool{}, write: map[*ssa.Function]bool{}, roots: map[*ssa.Function]bool{}, calls: map[*ssa.Function]bool{}}
	ft := P.lookupType("vxfile")
	if ft == nil {
		k.extra["no_files"] = true
		return
	}
	n.file = types.Unalias(ft).(*types.Named)
	n.dyn, _ = takenFuncs(P)
	roots := P.commandRoots()
	for _, f := range roots {
		n.roots[f] = true
	}
	sinks := map[string]bool{}
	for s := range c06Sinks {
		sinks[s] = true
	}
	all := P.reachable(roots...)
	var fs []*ssa.Function
	for _, f := range P.funcs {
		if !all[f] || len(f.Blocks) == 0 {
			continue
		}
		n.makes[f] = P.reachesInstr(f, func(in ssa.Instruction) bool {
			a, ok := in.(*ssa.Alloc)
			return ok && types.Identical(types.Unalias(a.Type().Underlying().(*types.Pointer).Elem()), n.file)
		})
		n.write[f] = P.reaches(f, sinks)
		touch := P.reachesInstr(f, func(in ssa.Instruction) bool {
			s, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			return ok && n.isFile(fa.X.Type())
		})
		n.in[f] = n.makes[f] || n.write[f] || touch
	}
	for _, f := range P.funcs {
		if f.Parent() != nil {
			n.dyn[f] = true
		}
		if n.in[f] && (n.roots[f] || !n.inline(nil, f) || f.Parent() != nil) {
			n.calls[f] = true
			fs = append(fs, f)
			k.contract[funcKey(f)] = true
		}
	}
	res := map[*ssa.Function]*FnResult{}
	todo := fs
	if on := devEnv("GOVC_ONLY"); on != "" {
		todo = nil
		for _, f := range fs {
			if funcKey(f) == on {
				todo = append(todo, f)
			}
		}
		fs = todo
	}
	verbose := os.Getenv("GOVC_V") != ""
	for round := 0; len(todo) > 0; round++ {
		again := map[*ssa.Function]bool{}
		for _, r := range verifyAll(todo, func(f *ssa.Function) *FnResult { return verifyFn(P, k.specs, f, nil, n.opts(), k.ms, false) }) {
			res[r.fn] = r
			for _, ob := range r.obls {
				if ob.kind != "fact" || ob.status == "valid" {
					continue
				}
				if _, d := n.dead[ob.clause]; !d {
					n.dead[ob.clause] = ob.name + " at " + ob.pos
					if verbose {
						fmt.Fprintln(os.Stderr, "drop", round, ob.clause, "|", ob.name, ob.pos, ob.status)
					}
				}
				for f := range n.use[ob.clause] {
					again[f] = true
				}
			}
		}
		todo = nil
		for _, f := range fs {
			if again[f] {
				todo = append(todo, f)
			}
		}
	}
	alive := []string{}
	for key := range n.use {
		if _, d := n.dead[key]; !d {
			alive = append(alive, key)
		}
	}
	sort.Strings(alive)
	for _, f := range fs {
		k.results = append(k.results, res[f])
	}
	k.extra["facts_proved"] = alive
}

func (P *Prog) hasFunc(name string) bool {
	for _, f := range P.funcs {
		if f.Name() == name && f.Parent() == nil {
			return true
		}
	}
	return false
}

// reachesInstr: the function or one it may call contains such an instruction.
func (P *Prog) reachesInstr(f *ssa.Function, is func(ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !inRepo(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if is(in) {
					return true
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						if g, ok := (*op).(*ssa.Function); ok && walk(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

func c06Search(k *Run, f *Failure) string {
	return k.once("files", func() string { return k.scenario("files", 240*time.Second) })
}
