package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var repoSrc = "/repo/src"

const (
	specDir  = "contracts"
	evidDir  = "evidence"
	replDir  = "replays"
	knownTxt = "known-findings.txt"
)

// Check decides one property.
type Check struct {
	id    string
	level string
	run   func(k *Run)
	// what is checked, for the evidence
	what string
	// statements the verdict rests on and does not check
	assumes []string
	// nil dereferences count as failures during replay
	nilPanics bool
	// statements run before and after the call during replay
	instrument func(k *Run, f *ssa.Function, ins *instrumenter, res []string) (pre, post string)
	// optional search for a concrete failing input when the generic one does not apply
	search func(k *Run, f *Failure) string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.id] = c }

// Failure is an obligation that was not discharged.
type Failure struct {
	name, fn, kind, clause, pos, status, backend, output string
	f                                                    *ssa.Function
	ct                                                   *Contract
	replay                                               string // generic, none
}

// Run is one execution of a check.
type Run struct {
	ck       *Check
	P        *Prog
	specs    *Specs
	tier     string
	seed     int64
	t0       time.Time
	results  []*FnResult
	lifted   map[*ssa.Function]bool
	inferred map[*ssa.Function]*Contract
	fails    []*Failure
	extra    map[string]any
	trusted  map[string]bool
	contract map[string]bool // functions under contract
	missing  []string
	ms       int
	// obligations decided outside the per-function results
	moreObls, moreDone int
	moreBackend        map[string]int
	memo               map[string]string
}

// once runs a search one time and remembers its result.
func (k *Run) once(name string, f func() string) string {
	if k.memo == nil {
		k.memo = map[string]string{}
	}
	if s, ok := k.memo[name]; ok {
		return s
	}
	k.memo[name] = f()
	return k.memo[name]
}

func (k *Run) thorough() bool { return k.tier == "thorough" }

func (k *Run) fail(name, fn, kind, pos, output string) *Failure {
	f := &Failure{name: name, fn: fn, kind: kind, pos: pos, status: "invalid", output: output, f: k.P.byKey[fn], ct: k.specs.contracts[fn]}
	k.fails = append(k.fails, f)
	return f
}

// count records obligations decided by this run outside FnResults.
func (k *Run) count(backend string, n, ok int) {
	k.moreObls += n
	k.moreDone += ok
	k.moreBackend[backend] += ok
}

// known findings: "known: property=C05 obligation=<name> <text>"
type knownFinding struct{ prop, obl, text string }

func readKnown() []knownFinding {
	b, err := os.ReadFile(knownTxt)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) < 3 {
			continue
		}
		out = append(out, knownFinding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "obligation="), f[2]})
	}
	return out
}

func runCheck(id string) int {
	ck := checks[id]
	if ck == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	k := &Run{ck: ck, t0: time.Now(), extra: map[string]any{}, trusted: map[string]bool{}, contract: map[string]bool{},
		lifted: map[*ssa.Function]bool{}, inferred: map[*ssa.Function]*Contract{}, moreBackend: map[string]int{}, ms: 4000}
	k.tier = os.Getenv("VERIF_TIER")
	if k.tier != "thorough" {
		k.tier = "quick"
	} else {
		k.ms = 20000
	}
	k.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	P, err := LoadProg(repoSrc)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	k.P = P
	k.specs, err = ParseSpecs(specDir, "common", id)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, c := range k.specs.order {
		c.fn = P.byKey[c.key]
	}
	ck.run(k)
	k.collect()
	old, _ := filepath.Glob(filepath.Join(replDir, id+"-*"))
	for _, f := range old {
		os.Remove(f)
	}
	// known findings are reported, not counted
	var open []*Failure
	kn := readKnown()
	for _, f := range k.fails {
		hit := false
		for _, x := range kn {
			if x.prop == id && x.obl == f.name {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, x.text)
				hit = true
			}
		}
		if !hit {
			open = append(open, f)
		}
	}
	k.fails = open
	code := 0
	if len(open) > 0 {
		code = 1
		k.report()
	}
	k.writeEvidence(len(open))
	n, d := k.totals()
	fmt.Printf("property %s: %d functions, %d obligations, %d discharged, %d failed, %.1f s\n", id, len(k.results), n, d, len(open), time.Since(k.t0).Seconds())
	return code
}

// collect turns undischarged obligations into failures.
func (k *Run) collect() {
	for _, r := range k.results {
		if r == nil {
			continue
		}
		ct := k.specs.contracts[r.key]
		if ct != nil || k.inferred[r.fn] != nil {
			k.contract[r.key] = true
		}
		if r.ex != nil {
			for a := range r.ex.assumedExt {
				k.trusted[a] = true
			}
		}
		if r.err != "" {
			k.fails = append(k.fails, &Failure{name: r.key + "#generation", fn: r.key, kind: "generation", status: "error", output: r.err, f: r.fn, ct: ct})
			continue
		}
		for _, o := range r.obls {
			if o.status == "valid" || k.lifted[r.fn] {
				continue
			}
			k.fails = append(k.fails, &Failure{name: o.name, fn: r.key, kind: o.kind, clause: o.clause, pos: o.pos, status: o.status, backend: o.backend, output: o.model, f: r.fn, ct: ct})
		}
	}
	for _, m := range k.missing {
		k.fails = append(k.fails, &Failure{name: m + "#missing", fn: m, kind: "missing", status: "error", output: "the function this contract describes is not there (or its parameters changed)"})
	}
}

func (k *Run) totals() (n, d int) {
	n, d = k.moreObls, k.moreDone
	for _, r := range k.results {
		if r == nil {
			continue
		}
		for _, o := range r.obls {
			if k.lifted[r.fn] && o.status != "valid" {
				continue // decided at the call sites
			}
			n++
			if o.status == "valid" {
				d++
			}
		}
	}
	return
}

func (k *Run) report() {
	os.MkdirAll(replDir, 0755)
	sort.SliceStable(k.fails, func(i, j int) bool { return k.fails[i].name < k.fails[j].name })
	concrete := k.replayAll()
	type line struct {
		path string
		ok   bool
	}
	var lines []line
	n := 0
	for _, f := range k.fails {
		n++
		if n <= 40 || os.Getenv("GOVC_V") != "" {
			fmt.Printf("failed obligation %s at %s (%s)\n", f.name, f.pos, f.status)
		}
		if n > 8 {
			continue
		}
		p := filepath.Join(replDir, fmt.Sprintf("%s-%d.txt", k.ck.id, n))
		var sb strings.Builder
		fmt.Fprintf(&sb, "property: %s\nfailed obligation: %s\nfunction: %s\nkind: %s\nat: %s\nverifier status: %s\n", k.ck.id, f.name, f.fn, f.kind, f.pos, f.status)
		if f.clause != "" {
			fmt.Fprintf(&sb, "clause: %s\n", f.clause)
		}
		if c, ok := concrete[f]; ok {
			fmt.Fprintf(&sb, "\nreplayed on the real code:\n%s\n", c)
		} else {
			fmt.Fprintf(&sb, "\nno failing input found by replay\n")
		}
		fmt.Fprintf(&sb, "\nverifier output:\n%s\n", f.output)
		os.WriteFile(p, []byte(sb.String()), 0644)
		_, ok := concrete[f]
		lines = append(lines, line{p, ok})
	}
	abs, _ := os.Getwd()
	any := false
	for _, l := range lines {
		any = any || l.ok
	}
	for _, l := range lines {
		p := filepath.Join(abs, l.path)
		switch {
		case l.ok:
			fmt.Printf("VIOLATION property=%s replay=%s\n", k.ck.id, p)
		case !any:
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", k.ck.id, p)
		}
	}
}

func (k *Run) writeEvidence(viol int) {
	n, d := k.totals()
	by := map[string]int{}
	kinds := map[string]int{}
	inv := 0
	for b, c := range k.moreBackend {
		by[b] += c
	}
	for _, r := range k.results {
		if r == nil {
			continue
		}
		inv += r.kept
		for _, o := range r.obls {
			if o.status == "valid" {
				by[o.backend]++
				kinds[o.kind]++
			}
		}
	}
	var tb []string
	tb = append(tb, "go/ssa translation of the repository source", "SMT back ends z3 5.3.2, z3 4.8.12, cvc5 1.1.2", "the verification condition generator in /verif/govc")
	for _, t := range sortedKeysG(k.trusted) {
		tb = append(tb, t)
	}
	var reqs []string
	for f, ct := range k.inferred {
		for _, r := range ct.requires {
			reqs = append(reqs, funcKey(f)+": "+r.text)
		}
	}
	sort.Strings(reqs)
	cov := map[string]any{
		"obligations": n, "discharged": d, "checker_cmd": "bin/govc check " + k.ck.id,
		"trusted_base": tb, "functions_analysed": len(k.results), "functions_under_contract": sortedKeysG(k.contract),
		"discharged_by": by, "discharged_kinds": kinds, "loop_invariants_established": inv,
		"solver_calls": solverStats.calls, "solver_ms": solverStats.millis, "what": k.ck.what,
	}
	if len(reqs) > 0 {
		cov["inferred_preconditions_proved_at_every_call"] = reqs
	}
	var lf []string
	for f := range k.lifted {
		lf = append(lf, funcKey(f))
	}
	sort.Strings(lf)
	if len(lf) > 0 {
		cov["obligations_decided_at_call_sites"] = lf
	}
	for a, b := range k.extra {
		cov[a] = b
	}
	as := append([]string{}, commonAssumptions...)
	as = append(as, k.ck.assumes...)
	ev := map[string]any{"property": k.ck.id, "tier": k.tier, "seed": k.seed, "level": k.ck.level, "coverage": cov,
		"assumptions": as, "wall_s": time.Since(k.t0).Seconds(), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(evidDir, 0755)
	os.WriteFile(filepath.Join(evidDir, k.ck.id+".json"), append(b, '\n'), 0644)
}

var commonAssumptions = []string{
	"machine integers are treated as mathematical integers (no overflow)",
	"library functions behave as modelled (listed in trusted_base); those without a model return an arbitrary value and change nothing of the compiler's own state",
	"slices are values: two slice variables that share a backing array are treated as independent after an element write",
	"goroutines and deferred calls are not modelled (the compiler starts none outside its web server)",
	"a dereferenced pointer is not nil (nil dereference is decided separately)",
	"memory is sufficient and recursion does not exhaust the stack",
}

// prove runs the contracts of the property's own specification file: every
// contract target, and every caller of a function with a precondition.
func (k *Run) prove(o func() *Opts, extra ...*ssa.Function) {
	todo := map[*ssa.Function]bool{}
	for _, ct := range k.specs.order {
		f := k.P.byKey[ct.key]
		if f == nil || len(ct.params) != len(f.Params) || len(ct.results) > 0 && len(ct.results) != f.Signature.Results().Len() {
			k.missing = append(k.missing, ct.key)
			delete(k.specs.contracts, ct.key)
			continue
		}
		ct.fn = f
		todo[f] = true
		if len(ct.requires) > 0 {
			for _, g := range k.P.callers[f] {
				todo[g] = true
			}
		}
	}
	for _, f := range extra {
		todo[f] = true
	}
	var fs []*ssa.Function
	for _, f := range k.P.funcs {
		if todo[f] {
			fs = append(fs, f)
		}
	}
	rs := verifyAll(fs, func(f *ssa.Function) *FnResult {
		ct := k.specs.contracts[funcKey(f)]
		op := o()
		op.contracts = k.specs.contracts
		ms := k.ms
		if ct != nil && ct.timeout > 0 {
			ms = ct.timeout
		}
		return verifyFn(k.P, k.specs, f, ct, op, ms, true)
	})
	k.retry(rs, func(f *ssa.Function) *FnResult {
		op := o()
		op.contracts = k.specs.contracts
		return verifyFn(k.P, k.specs, f, k.specs.contracts[funcKey(f)], op, 4*k.ms, true)
	}, nil)
	k.results = append(k.results, rs...)
}

// retry decides failing functions once more, with more time, before an alarm.
func (k *Run) retry(rs []*FnResult, again func(f *ssa.Function) *FnResult, skip map[*ssa.Function]bool) {
	var fs []*ssa.Function
	at := map[*ssa.Function]int{}
	for i, r := range rs {
		if r != nil && failed(r) && r.err == "" && !skip[r.fn] {
			fs = append(fs, r.fn)
			at[r.fn] = i
		}
	}
	// many failures at once are not a matter of time
	if len(fs) > 8 {
		return
	}
	for _, r := range verifyAll(fs, again) {
		rs[at[r.fn]] = r
	}
}
