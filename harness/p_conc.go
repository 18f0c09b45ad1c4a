package main

import (
	"fmt"
	"sync"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C28

// ConcCase: a graph is built; then several goroutines read it at the same
// time, while others build and change graphs of their own, some of them copies
// of parts of the shared one.
type ConcCase struct {
	Ops     []Op     `json:"ops"`
	Reads   []ReadOp `json:"reads"`
	Readers int      `json:"readers"`
	Own     [][]Op   `json:"own"`
	CopyIn  bool     `json:"copyIn"`
}

func runConc(c ConcCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	var ps []prepared
	var want []string
	for _, o := range c.Reads {
		p, ok := e.prepare(o, ctx)
		if !ok {
			continue
		}
		ctx.Class(o.Kind)
		ps = append(ps, p)
	}
	result := func(p prepared) string {
		t, err := p.run()
		if err != nil {
			t = "error: " + err.Error()
		}
		return t
	}
	readers := 2 + mod(c.Readers, 3)
	if len(ps) >= 2 && len(e.nodes) >= 2 {
		ctx.NonTrivial()
	}
	ctx.ClassIf(len(c.Own) > 0, "writers of other graphs")
	ctx.ClassIf(raceBuild, "race detector")
	start := make(chan struct{})
	var mu sync.Mutex
	got := make([][]string, readers)
	var first error
	fail := func(err error) {
		mu.Lock()
		if first == nil {
			first = err
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	launch := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fail(fmt.Errorf("panic in a goroutine: %v", r))
				}
			}()
			<-start
			f()
		}()
	}
	for r := 0; r < readers; r++ {
		launch(func() {
			res := make([]string, len(ps))
			for k := range ps {
				i := k
				switch r % 3 {
				case 1:
					i = len(ps) - 1 - k
				case 2:
					i = (k + len(ps)/2) % len(ps)
				}
				res[i] = result(ps[i])
			}
			got[r] = res
		})
	}
	for w, ops := range c.Own {
		launch(func() {
			o := newEnv()
			for _, op := range ops {
				o.apply(op)
			}
			if err := o.checkAll(); err != nil {
				fail(fmt.Errorf("graph of writer %d: %w", w, err))
			}
			if c.CopyIn {
				lpg.CopyGraph(e.g, o.g, func(_ string, v interface{}) interface{} { return v })
				for _, n := range lpg.NodeSlice(o.g.GetNodes()) {
					s := n.GetLabels()
					s.Add("own")
					n.SetLabels(s)
					n.SetProperty("i0", w)
				}
				for _, x := range lpg.EdgeSlice(o.g.GetEdges()) {
					x.SetProperty("i0", w)
					x.SetLabel("own")
				}
				if k := len(lpg.NodeSlice(o.g.GetNodesWithAllLabels(lpg.NewStringSet("own")))); k != o.g.NumNodes() {
					fail(fmt.Errorf("graph of writer %d: %d of %d nodes have the label", w, k, o.g.NumNodes()))
				}
			}
		})
	}
	ctx.frozen = true
	close(start)
	wg.Wait()
	ctx.frozen = false
	if first != nil {
		return first
	}
	for _, p := range ps {
		want = append(want, result(p))
	}
	for r := range got {
		for i := range ps {
			if got[r][i] != want[i] {
				return fmt.Errorf("%s gave {%s} alone, and {%s} with other readers", ps[i].name, want[i], got[r][i])
			}
		}
	}
	for _, p := range ps {
		if err := p.intact(); err != nil {
			return fmt.Errorf("%s: %w", p.name, err)
		}
	}
	return e.checkAll()
}

func init() {
	register("C28", "readers", "a history, then 2 to 4 goroutines running the reads of C26 on the graph, with shared arguments, while up to two others change graphs of their own, under the race detector; non-trivial: at least 2 reads of a graph with 2 nodes",
		350, func(t *rapid.T) ConcCase {
			rc := genReads(t, 8, rapid.IntRange(0, 19).Draw(t, "wide") == 19)
			c := ConcCase{Ops: rc.Ops, Reads: rc.Reads, Readers: rapid.IntRange(0, 2).Draw(t, "readers")}
			for i := rapid.IntRange(0, 2).Draw(t, "writers"); i > 0; i-- {
				c.Own = append(c.Own, genOps(t, HistOpt{MaxOps: 12}))
			}
			c.CopyIn = rapid.Bool().Draw(t, "copyIn")
			return c
		}, runConc)
}
