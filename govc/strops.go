package main

import "strings"

// String operations. In theory mode a Go string is an SMT String whose
// characters are the bytes of the string (0..255). In abstract mode strings are
// an uninterpreted sort with instance facts (lengths, concatenation normal form).

func (c *Ctx) StrLen(s *Term) *Term {
	if v, ok := isStr(s); ok {
		return c.Int(int64(len(v)))
	}
	if c.strTheory {
		return c.mk("str.len", "Int", s)
	}
	t := c.App("strlen", "Int", s)
	if t.bound && c.fnaxioms["strlen"] == nil {
		p := c.BVar("p!", "Str")
		l := c.App("strlen", "Int", p)
		c.fnaxioms["strlen"] = []*Term{c.Forall([]*Term{p}, c.Le(c.Int(0), l), l)}
	}
	if _, ok := c.termfacts[t.id]; !ok && !t.bound {
		c.termfacts[t.id] = nil
		e := c.Str("")
		fs := []*Term{c.Le(c.Int(0), t), c.Eq(c.Eq(t, c.Int(0)), c.Eq(s, e))}
		c.termfacts[t.id] = fs
		if s.op == "@cat" {
			c.termfacts[t.id] = append(fs, c.Eq(t, c.Add(c.StrLen(s.args[0]), c.StrLen(s.args[1]))))
		}
	}
	return t
}

func (c *Ctx) StrCat(a, b *Term) *Term {
	x, ok1 := isStr(a)
	y, ok2 := isStr(b)
	if ok1 && ok2 {
		return c.Str(x + y)
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	if c.strTheory {
		return c.mk("str.++", "String", a, b)
	}
	// right-nested normal form, adjacent literals merged
	if a.op == "@cat" {
		return c.StrCat(a.args[0], c.StrCat(a.args[1], b))
	}
	if ok1 && b.op == "@cat" {
		if z, ok := isStr(b.args[0]); ok {
			return c.StrCat(c.Str(x+z), b.args[1])
		}
	}
	t := c.App("cat", "Str", a, b)
	if _, ok := c.termfacts[t.id]; !ok && !t.bound {
		c.termfacts[t.id] = nil
		c.StrLen(t)
		e := c.Str("")
		// a++b is empty only if both are; touching strlen lazily is enough for the rest
		c.termfacts[t.id] = []*Term{c.Eq(c.Eq(t, e), c.And(c.Eq(a, e), c.Eq(b, e)))}
	}
	return t
}

// StrSub is s[i:j] for valid bounds.
func (c *Ctx) StrSub(s, i, j *Term) *Term {
	if v, ok := isStr(s); ok {
		x, ok1 := isInt(i)
		y, ok2 := isInt(j)
		if ok1 && ok2 && 0 <= x && x <= y && y <= int64(len(v)) {
			return c.Str(v[x:y])
		}
	}
	if c.strTheory {
		return c.mk("str.substr", "String", s, i, c.Sub(j, i))
	}
	t := c.App("substr", "Str", s, i, j)
	if _, ok := c.termfacts[t.id]; !ok && !t.bound {
		c.termfacts[t.id] = nil
		n := c.StrLen(s)
		valid := c.And(c.Le(c.Int(0), i), c.Le(i, j), c.Le(j, n))
		c.termfacts[t.id] = []*Term{
			c.Implies(valid, c.Eq(c.StrLen(t), c.Sub(j, i))),
			c.Implies(c.And(c.Eq(i, c.Int(0)), c.Eq(j, n)), c.Eq(t, s))}
	}
	return t
}

// StrAt is the byte s[i].
func (c *Ctx) StrAt(s, i *Term) *Term {
	if c.strTheory {
		return c.mk("str.to_code", "Int", c.mk("str.at", "String", s, i))
	}
	t := c.App("charat", "Int", s, i)
	if !t.bound {
		c.termfacts[t.id] = []*Term{c.Le(c.Int(0), t), c.Le(t, c.Int(255))}
	}
	return t
}

func (c *Ctx) StrLt(a, b *Term) *Term {
	x, ok1 := isStr(a)
	y, ok2 := isStr(b)
	if ok1 && ok2 {
		return c.Bool(x < y)
	}
	if c.strTheory {
		return c.mk("str.<", "Bool", a, b)
	}
	t := c.App("strlt", "Bool", a, b)
	if c.fnaxioms["strlt"] == nil {
		p, q, r := c.BVar("p!", "Str"), c.BVar("q!", "Str"), c.BVar("r!", "Str")
		lt := func(a, b *Term) *Term { return c.App("strlt", "Bool", a, b) }
		c.fnaxioms["strlt"] = []*Term{
			c.Forall([]*Term{p}, c.Not(lt(p, p)), lt(p, p)),
			c.Forall([]*Term{p, q}, c.Or(lt(p, q), lt(q, p), c.Eq(p, q)), lt(p, q)),
			c.Forall([]*Term{p, q, r}, c.Implies(c.And(lt(p, q), lt(q, r)), lt(p, r)), lt(p, q), lt(q, r)),
		}
	}
	return t
}

// strFn applies a library string function; in abstract mode it is an
// uninterpreted function with the stated facts.
func (c *Ctx) strFn(name string, srt string, args ...*Term) *Term {
	// constant folding by the library itself
	var lits []string
	all := true
	for _, a := range args {
		if v, ok := isStr(a); ok {
			lits = append(lits, v)
		} else {
			all = false
		}
	}
	if all {
		switch name {
		case "contains":
			return c.Bool(strings.Contains(lits[0], lits[1]))
		case "prefix":
			return c.Bool(strings.HasPrefix(lits[0], lits[1]))
		case "suffix":
			return c.Bool(strings.HasSuffix(lits[0], lits[1]))
		case "index":
			return c.Int(int64(strings.Index(lits[0], lits[1])))
		case "lastindex":
			return c.Int(int64(strings.LastIndex(lits[0], lits[1])))
		case "replaceall":
			return c.Str(strings.ReplaceAll(lits[0], lits[1], lits[2]))
		case "toupper":
			return c.Str(strings.ToUpper(lits[0]))
		case "tolower":
			return c.Str(strings.ToLower(lits[0]))
		}
	}
	if c.strTheory {
		switch name {
		case "contains":
			return c.mk("str.contains", "Bool", args[0], args[1])
		case "prefix":
			return c.mk("str.prefixof", "Bool", args[1], args[0])
		case "suffix":
			return c.mk("str.suffixof", "Bool", args[1], args[0])
		case "index":
			return c.mk("str.indexof", "Int", args[0], args[1], c.Int(0))
		case "replaceall":
			// SMT-LIB leaves an empty pattern unchanged, Go inserts: only constants are used
			if p, ok := isStr(args[1]); ok && p != "" {
				return c.mk("str.replace_all", "String", args[0], args[1], args[2])
			}
		}
	}
	t := c.App("go."+name, srt, args...)
	if t.bound {
		return t
	}
	if _, ok := c.termfacts[t.id]; ok {
		return t
	}
	c.termfacts[t.id] = nil
	add := func(f *Term) { c.termfacts[t.id] = append(c.termfacts[t.id], f) }
	e := c.Str("")
	switch name {
	case "contains":
		s, p := args[0], args[1]
		add(c.Implies(t, c.Le(c.StrLen(p), c.StrLen(s))))
		add(c.Implies(c.Eq(p, e), t))
		add(c.Implies(c.Eq(s, p), t))
		add(c.Eq(t, c.Le(c.Int(0), c.strFn("index", "Int", s, p))))
	case "prefix", "suffix":
		s, p := args[0], args[1]
		add(c.Implies(t, c.Le(c.StrLen(p), c.StrLen(s))))
		add(c.Implies(c.Eq(p, e), t))
		add(c.Implies(c.Eq(s, p), t))
		if !c.strTheory {
			if name == "prefix" {
				add(c.Eq(t, c.And(c.Le(c.StrLen(p), c.StrLen(s)), c.Eq(c.StrSub(s, c.Int(0), c.StrLen(p)), p))))
			}
		}
	case "index", "lastindex":
		s, p := args[0], args[1]
		add(c.Le(c.Int(-1), t))
		add(c.Implies(c.Le(c.Int(0), t), c.Le(c.Add(t, c.StrLen(p)), c.StrLen(s))))
		add(c.Implies(c.Eq(p, e), c.Le(c.Int(0), t)))
		if c.strTheory {
			// last occurrence: a match at t and none later
			pos := c.BVar("k!", "Int")
			sub := func(i *Term) *Term { return c.mk("str.substr", "String", s, i, c.StrLen(p)) }
			add(c.Implies(c.Le(c.Int(0), t), c.Eq(sub(t), p)))
			add(c.Forall([]*Term{pos}, c.Implies(c.And(c.Lt(t, pos), c.Le(c.Int(0), pos), c.Le(c.Add(pos, c.StrLen(p)), c.StrLen(s))), c.Not(c.Eq(sub(pos), p)))))
		} else {
			add(c.Eq(c.Le(c.Int(0), c.App("go.index", "Int", s, p)), c.Le(c.Int(0), c.App("go.lastindex", "Int", s, p))))
			add(c.Le(c.App("go.index", "Int", s, p), c.App("go.lastindex", "Int", s, p)))
		}
	case "repeat":
		add(c.Implies(c.Le(c.Int(0), args[1]), c.Eq(c.StrLen(t), c.Mul(c.StrLen(args[0]), args[1]))))
	}
	return t
}
