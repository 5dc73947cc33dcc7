package main

import "golang.org/x/tools/go/ssa"

func init() {
	register(&Check{id: "C01", level: "proof",
		what: "every index, slice, type assertion, map write, division, repeat count and explicit panic of every function, all inputs",
		run:  runC01,
		assumes: []string{
			"the dynamic type of a value's payload is decided by the value's code (data-structure invariant: assumed on entry, proved at every construction, store, call and return)",
		}})
}

func runC01(k *Run) {
	lr := &liftRun{P: k.P, specs: k.specs, ms: k.ms, opts: func() *Opts { return panicOpts(k.P, k.specs) }}
	rs, lifted := lr.run(realFuncs(k.P))
	k.retry(rs, func(f *ssa.Function) *FnResult { return lr.again(f, 3*k.ms) }, lifted)
	k.results = rs
	k.lifted = lifted
	k.inferred = lr.inferred
}
