package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func ninstr(f *ssa.Function) int {
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	return n
}

// verifyFn generates and decides the obligations of one function.
func verifyFn(P *Prog, specs *Specs, f *ssa.Function, ct *Contract, o *Opts, ms int, strong bool) (r *FnResult) {
	r = &FnResult{fn: f, key: funcKey(f)}
	t0 := time.Now()
	defer func() {
		r.millis = time.Since(t0).Milliseconds()
		if e := recover(); e != nil {
			if devEnv("GOVC_PANIC") != "" {
				panic(e)
			}
			r.err = fmt.Sprint("generator: ", e)
		}
	}()
	ex := NewExec(P, o)
	ex.specs = specs
	r.ex = ex
	if err := ex.Generate(f, ct); err != nil {
		r.err = err.Error()
		return
	}
	if os.Getenv("GOVC_V") == "2" {
		fmt.Fprintf(os.Stderr, "%s: %d assumptions, %d obligations, %d candidates\n", r.key, len(ex.assumes), len(ex.obls), len(ex.cands))
	}
	if len(ex.specErrs) > 0 {
		r.err = ex.specErrs[0]
		return
	}
	tg := time.Since(t0)
	ex.Solve(ms, strong)
	for _, ob := range ex.obls {
		if ob.kind != "houdini" {
			r.obls = append(r.obls, ob)
		}
	}
	if failed(r) && !ex.o.strTheory && !o.noTheoryRetry {
		retryTheory(P, specs, f, ct, o, ms, r)
	}
	for _, cd := range ex.cands {
		if devEnv("GOVC_CANDS") != "" {
			fmt.Fprintln(os.Stderr, "cand", r.key, cd.name, "dead", cd.dead)
		}
		if cd.dead {
			r.dropped++
		} else {
			r.kept++
		}
	}
	if os.Getenv("GOVC_V") != "" && time.Since(t0) > 3*time.Second {
		fmt.Fprintf(os.Stderr, "slow %s gen %d total %d ms, %d obligations\n", r.key, tg.Milliseconds(), time.Since(t0).Milliseconds(), len(r.obls))
	}
	return
}

// retryTheory decides the remaining obligations once more with strings as SMT
// sequences instead of an abstract sort.
func retryTheory(P *Prog, specs *Specs, f *ssa.Function, ct *Contract, o *Opts, ms int, r *FnResult) {
	o2 := *o
	o2.strTheory = true
	ex := NewExec(P, &o2)
	ex.specs = specs
	if ex.Generate(f, ct) != nil || len(ex.specErrs) > 0 {
		return
	}
	want := map[string]*Obl{}
	for _, ob := range r.obls {
		if ob.status != "valid" {
			want[ob.name] = ob
		}
	}
	if len(want) > 12 {
		return
	}
	var keep []*Obl
	for _, ob := range ex.obls {
		if want[ob.name] != nil {
			keep = append(keep, ob)
		}
	}
	ex.obls = keep
	ex.quickOnly = true
	// the loop invariants found over abstract strings hold here too
	alive, seen := map[string]bool{}, map[string]int{}
	id := func(n string) string { seen[n]++; return fmt.Sprintf("%s#%d", n, seen[n]) }
	for _, cd := range r.ex.cands {
		alive[id(cd.name)] = !cd.dead
	}
	seen = map[string]int{}
	for _, cd := range ex.cands {
		cd.dead = !alive[id(cd.name)]
	}
	ex.Solve(min(ms, 3000), false)
	for _, ob := range ex.obls {
		if w := want[ob.name]; w != nil && ob.status == "valid" {
			w.status, w.backend, w.millis = "valid", ob.backend+"+strings", w.millis+ob.millis
		}
	}
}

// verifyAll runs verifyFn over many functions in parallel; results in input order.
func verifyAll(fs []*ssa.Function, run func(f *ssa.Function) *FnResult) []*FnResult {
	out := make([]*FnResult, len(fs))
	idx := make([]int, len(fs))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return ninstr(fs[idx[a]]) > ninstr(fs[idx[b]]) })
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, i := range idx {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			if os.Getenv("GOVC_V") != "" {
				defer watch(funcKey(fs[i]))()
			}
			out[i] = run(fs[i])
			// the contexts are large; keep only what reporting needs
			if ex := out[i].ex; ex != nil {
				ex.assumes, ex.c = nil, nil
				for _, o := range ex.obls {
					o.cond, o.goal = nil, nil
				}
				ex.rootPre, ex.finalSt, ex.root = nil, nil, nil
			}
		}(i)
	}
	wg.Wait()
	return out
}

// watch reports long-running work on stderr.
func watch(what string) func() {
	done := make(chan bool)
	go func() {
		t := time.NewTicker(20 * time.Second)
		n := 0
		for {
			select {
			case <-done:
				return
			case <-t.C:
				n += 20
				fmt.Fprintln(os.Stderr, "running", what, n, "s")
			}
		}
	}()
	return func() { close(done) }
}
