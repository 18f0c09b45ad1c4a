package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// Small graphs that live long: the same operations again and again, on other
// items each time, while the graph is kept small. What an implementation
// counts, reuses or tidies up now and then shows only after many changes.

// ChurnCase is a block of operations to repeat.
type ChurnCase struct {
	Ops    []Op `json:"ops"`
	Repeat int  `json:"repeat"`
	Step   int  `json:"step"`
	Keep   int  `json:"keep"` // nodes kept
}

func genChurn(mix []string) func(t *rapid.T) ChurnCase {
	return func(t *rapid.T) ChurnCase {
		return ChurnCase{
			Ops:    genOps(t, HistOpt{MaxOps: 14, NoRebuild: true, OpKinds: mix}),
			Repeat: rapid.SampledFrom([]int{20, 70, 140, 300, 600}).Draw(t, "repeat"),
			Step:   rapid.IntRange(0, 7).Draw(t, "step"),
			Keep:   rapid.SampledFrom([]int{1, 3, 6, 12}).Draw(t, "keep"),
		}
	}
}

func runChurn(check func(e *Env) error) func(c ChurnCase, ctx *Ctx) error {
	return func(c ChurnCase, ctx *Ctx) error {
		e := newEnv()
		for r := 0; r < c.Repeat; r++ {
			for _, op := range c.Ops {
				op.A += r * c.Step
				op.B += r
				e.apply(op)
			}
			for i := 0; len(e.nodes) > c.Keep; i++ {
				kind := "nr"
				if i%3 == 2 {
					kind = "nt"
				}
				e.apply(Op{Op: kind, A: i * r})
			}
			for i := 0; len(e.edges) > 3*c.Keep; i++ {
				e.apply(Op{Op: "er", A: i * c.Step})
			}
			if r%16 == 15 && (r&(r+1) == 0 || r%80 == 79) {
				if err := check(e); err != nil {
					return fmt.Errorf("after %d rounds: %w", r+1, err)
				}
			}
		}
		ctx.histClasses(e)
		if e.stats["removed"]+e.stats["relabel"]+e.stats["overwrite"] > 200 {
			ctx.NonTrivial()
		}
		return check(e)
	}
}

func init() {
	reg := func(prop string, quick int, mix []string, check func(e *Env) error) {
		register(prop, "churn", "small graphs through thousands of operations, a block of them repeated up to 600 times; non-trivial: more than 200 removals, changes of labels and values",
			quick, genChurn(mix), runChurn(check))
	}
	indexMix := []string{"n", "e", "np", "np", "nd", "ep", "ep", "ed", "er", "nt", "nr", "ni", "ni", "ni", "ei", "ei", "ei", "nl", "el"}
	reg("C01", 100, nil, func(e *Env) error { return e.checkContents() })
	reg("C02", 60, nil, func(e *Env) error { return e.checkLabels([][]string{{"A"}, {"A", "B"}, {"B", "C"}, {}}) })
	reg("C03", 60, nil, func(e *Env) error {
		if err := e.checkProps(); err != nil {
			return err
		}
		return e.checkLabelsRead()
	})
	reg("C04", 100, indexMix, func(e *Env) error { return e.checkPresence() })
	reg("C05", 40, indexMix, func(e *Env) error { return e.checkOwnFinds(10) })
	reg("C25", 60, nil, func(e *Env) error { return e.checkHelpers(&Ctx{frozen: true}) })
	reg("C27", 60, nil, func(e *Env) error { return e.checkIdentity() })
}
