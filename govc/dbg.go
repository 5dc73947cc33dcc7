package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func debugEffects(P *Prog, names ...string) {
	for _, n := range names {
		f := P.byKey["vxlisp."+n]
		if f == nil {
			fmt.Println("none", n)
			continue
		}
		var l []string
		for e := range P.eff[f].mods {
			l = append(l, fmt.Sprintf("%s@%d", e.key, e.tgt))
		}
		sort.Strings(l)
		fmt.Println(n)
		for _, s := range l {
			fmt.Println("   ", s)
		}
	}
	// map ranges, loops
	for _, f := range realFuncs(P) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Range); ok {
					fmt.Println("range", funcKey(f), r.X.Type(), P.prog.Fset.Position(r.Pos()))
				}
			}
		}
	}
}
