package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

var dumpN int

var solverSem = make(chan struct{}, 8)

type solverStat struct {
	mu     sync.Mutex
	calls  map[string]int
	millis map[string]int64
}

var solverStats = solverStat{calls: map[string]int{}, millis: map[string]int64{}}

// runSolver runs one back end on one script.
func runSolver(backend, script string, ms int) (string, string) {
	return runSolverN(backend, script, ms, 1)
}

// hardDeadline bounds a whole check: past it nothing more is decided.
var hardDeadline = time.Now().Add(600 * time.Second)

func runSolverN(backend, script string, ms int, n int) (string, string) {
	if time.Now().After(hardDeadline) {
		return "unknown", "the time of this check is used up"
	}
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	t0 := time.Now()
	var cmd *exec.Cmd
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms*n+3000)*time.Millisecond)
	defer cancel()
	switch backend {
	case "z3":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", "smt.mbqi=false", fmt.Sprintf("-t:%d", ms), "-memory:3000")
	case "z3mbqi":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000")
	case "z3old":
		cmd = exec.CommandContext(ctx, "z3", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000")
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", "--incremental", "--strings-exp", fmt.Sprintf("--tlimit-per=%d", ms), "-q")
	}
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	d := time.Since(t0).Milliseconds()
	solverStats.mu.Lock()
	solverStats.calls[backend]++
	solverStats.millis[backend] += d
	solverStats.mu.Unlock()
	s := out.String()
	if dbg := os.Getenv("GOVC_DUMP"); dbg != "" {
		dumpN++
		os.WriteFile(fmt.Sprintf("%s/q%03d.smt2", dbg, dumpN), []byte(script), 0644)
		fmt.Println("query", dumpN, backend, d, "ms", len(script), strings.SplitN(s, "\n", 2)[0])
	}
	for _, ln := range strings.Split(s, "\n") {
		ln = strings.TrimSpace(ln)
		switch ln {
		case "sat", "unsat", "unknown":
			return ln, s
		case "timeout":
			return "unknown", s
		}
		if strings.HasPrefix(ln, "(error") {
			return "error", s
		}
	}
	return "unknown", s
}

const solverOpts = "(set-option :produce-models true)\n(set-logic ALL)\n"

func (ex *Exec) liveSels() []*Term {
	var s []*Term
	for _, cd := range ex.cands {
		if cd.dead {
			s = append(s, ex.c.Not(cd.sel))
		} else {
			s = append(s, cd.sel)
		}
	}
	return s
}

// multi decides many obligations in one incremental run: each is checked under
// exactly the assumptions made before it.
func (ex *Exec) multi(obls []*Obl, ms int, backend string) []string {
	c := ex.c
	idx := make([]int, len(obls))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return obls[idx[a]].nassume < obls[idx[b]].nassume })
	var steps []qstep
	n := 0
	for _, k := range idx {
		o := obls[k]
		steps = append(steps, qstep{facts: ex.assumes[n:o.nassume], query: []*Term{o.cond, c.Not(o.goal)}})
		n = o.nassume
	}
	script := c.ScriptSteps(ex.liveSels(), steps, solverOpts, "")
	res := make([]string, len(obls))
	_, out := runSolverN(backend, script, ms, len(obls))
	p := 0
	for _, ln := range strings.Split(out, "\n") {
		ln = strings.TrimSpace(ln)
		if ln == "timeout" {
			ln = "unknown"
		}
		if ln == "sat" || ln == "unsat" || ln == "unknown" {
			if p < len(idx) {
				res[idx[p]] = ln
				p++
			}
		}
		if strings.HasPrefix(ln, "(error") {
			ex.solverErr = ln
		}
	}
	for ; p < len(idx); p++ {
		res[idx[p]] = "unknown"
	}
	return res
}

// singleScript is the query for the validity of one obligation.
func (ex *Exec) singleScript(o *Obl) string {
	c := ex.c
	var as []*Term
	as = append(as, ex.liveSels()...)
	as = append(as, ex.assumes[:o.nassume]...)
	as = append(as, o.cond, c.Not(o.goal))
	var mv []string
	for _, v := range ex.modelVars {
		switch v.t.sort {
		case "Int", "Bool", "Str", "String":
			mv = append(mv, "|"+v.t.op[1:]+"|")
		}
	}
	// model variables must be declared: mention them
	for _, v := range ex.modelVars {
		as = append(as, c.mk("=", "Bool", v.t, v.t))
	}
	tail := "(check-sat)\n"
	if len(mv) > 0 {
		tail += "(get-value (" + strings.Join(mv, " ") + "))\n"
	}
	return c.Script(as, solverOpts, tail)
}

func runSingle(script string, ms int, backends []string) (string, string, string) {
	last, lastOut := "unknown", ""
	for _, b := range backends {
		r, out := runSolver(b, script, ms)
		if r == "unsat" {
			return "unsat", out, b
		}
		if r == "sat" {
			return "sat", out, b
		}
		if r == "error" {
			lastOut = out
			last = "error"
			continue
		}
		lastOut = out
	}
	return last, lastOut, ""
}

// houdini removes candidates that are not inductive until the rest is.
func (ex *Exec) houdini(ms int) {
	for round := 0; round < 60; round++ {
		var hs []*Obl
		for _, o := range ex.obls {
			if o.kind == "houdini" && !o.cand.dead {
				hs = append(hs, o)
			}
		}
		if len(hs) == 0 {
			return
		}
		killed := false
		for i, r := range ex.multi(hs, ms, "z3") {
			if r != "unsat" {
				hs[i].cand.dead = true
				killed = true
			}
		}
		if !killed {
			return
		}
	}
	for _, cd := range ex.cands {
		cd.dead = true
	}
}

// Solve decides every obligation.
func (ex *Exec) Solve(ms int, strong bool) {
	if len(ex.cands) > 0 {
		ex.houdini(min(ms, 1000))
	}
	var os []*Obl
	for _, o := range ex.obls {
		if o.kind == "houdini" {
			continue
		}
		if o.goal.op == "true" || o.cond.op == "false" {
			o.status = "valid"
			o.backend = "simplifier"
			continue
		}
		os = append(os, o)
	}
	if len(os) == 0 {
		return
	}
	t0 := time.Now()
	rs := ex.multi(os, min(ms, 2000), "z3")
	d := time.Since(t0).Milliseconds()
	var rest []*Obl
	for i, o := range os {
		o.millis = d / int64(len(os))
		if rs[i] == "unsat" {
			o.status = "valid"
			o.backend = "z3"
		} else if rs[i] == "sat" && o.kind == "fact" {
			// dropped, no counterexample needed
			o.status = "invalid"
			o.backend = "z3"
		} else {
			rest = append(rest, o)
		}
	}
	os = rest
	bs := []string{"z3", "cvc5", "z3mbqi"}
	if ex.o.factsOnce {
		bs = []string{"z3"}
	}
	if ex.quickOnly {
		bs = []string{"z3", "cvc5"}
	}
	if strong {
		bs = []string{"z3", "cvc5", "z3mbqi", "z3old"}
	}
	deadline := time.Now().Add(45 * time.Second)
	if ms > 8000 {
		deadline = time.Now().Add(150 * time.Second)
	}
	var wg sync.WaitGroup
	slots := make(chan struct{}, 8)
	for _, o := range os {
		script := ex.singleScript(o)
		wg.Add(1)
		slots <- struct{}{}
		go func(o *Obl) {
			defer wg.Done()
			defer func() { <-slots }()
			if time.Now().After(deadline) {
				o.status = "unknown"
				o.model = "not decided within the time for this function"
				return
			}
			t0 := time.Now()
			r, out, b := runSingle(script, ms, bs)
			o.millis = time.Since(t0).Milliseconds()
			switch r {
			case "unsat":
				o.status = "valid"
				o.backend = b
			case "sat":
				o.status = "invalid"
				o.model = out
				o.backend = b
			case "error":
				o.status = "error"
				o.model = out
			default:
				o.status = "unknown"
				o.model = out
			}
		}(o)
	}
	wg.Wait()
}
