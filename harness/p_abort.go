package main

import (
	"fmt"
	"runtime"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// AbortCase leaves a read from within its callback, by a panic or by ending
// the goroutine.
type AbortCase struct {
	Ops   []Op     `json:"ops"`
	Hosts []ReadOp `json:"hosts"`
	At    []int    `json:"at"`   // the call of the callback that leaves
	Exit  []bool   `json:"exit"` // by runtime.Goexit rather than a panic
	Inner []ReadOp `json:"inner"`
	More  []Op     `json:"more"` // the graph can be changed afterwards
}

type abortPanic struct{}

// aborted runs f in a goroutine of its own until it returns or is left.
func aborted(f func()) (panicked any) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	return <-done
}

func runAbort(c AbortCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	type read struct {
		prepared
		text func() string
		want string
	}
	var in []read
	for _, o := range c.Inner {
		p, ok := e.prepare(o, newCtx())
		if !ok {
			continue
		}
		run := p.run
		text := func() string {
			t, err := run()
			if err != nil {
				t = "error: " + err.Error()
			}
			return t
		}
		in = append(in, read{p, text, text()})
	}
	left := false
	for i, o := range c.Hosts {
		host := e.host(o)
		if host == nil {
			continue
		}
		calls := 0
		alone, err := host(func() { calls++ })
		if err != nil {
			return fmt.Errorf("%s: %w", o.Kind, err)
		}
		if calls == 0 {
			continue
		}
		at, k := mod(c.At[i], calls), 0
		r := aborted(func() {
			host(func() {
				if k++; k == at+1 {
					if c.Exit[i] {
						runtime.Goexit()
					}
					panic(abortPanic{})
				}
			})
		})
		if r != nil {
			if _, ok := r.(abortPanic); !ok {
				return fmt.Errorf("%s left by a panic of its callback: another panic: %v", o.Kind, r)
			}
		}
		left = true
		ctx.Class("left: " + o.Kind)
		if at > 0 {
			ctx.NonTrivial()
		}
		how := "a panic of its callback"
		if c.Exit[i] {
			how = "its goroutine's end"
		}
		for _, p := range in {
			if got := p.text(); got != p.want {
				return fmt.Errorf("%s gave {%s}, and {%s} after another read (%s) was left by %s", p.name, p.want, got, o.Kind, how)
			}
			if err := p.intact(); err != nil {
				return fmt.Errorf("%s: %w", p.name, err)
			}
		}
		again, err := host(func() {})
		if err != nil {
			return fmt.Errorf("%s, after it was left by %s: %w", o.Kind, how, err)
		}
		if again != alone {
			return fmt.Errorf("{%s} before it was left by %s, {%s} after", alone, how, again)
		}
	}
	if !left {
		return nil
	}
	if err := e.checkAll(); err != nil {
		return fmt.Errorf("after leaving reads early: %w", err)
	}
	e.runAll(c.More)
	if err := e.checkAll(); err != nil {
		return fmt.Errorf("changed after leaving reads early: %w", err)
	}
	return nil
}

func init() {
	register("C26", "left", "reads left from within their callbacks by a panic or the end of the goroutine: nothing changes, other reads and the same give what they gave, and the graph can be changed; non-trivial: left at a later call than the first",
		700, func(t *rapid.T) AbortCase {
			r := genReads(t, 3, false)
			c := AbortCase{Ops: r.Ops, Inner: r.Reads, More: genOps(t, HistOpt{MaxOps: 8})}
			if len(c.Inner) > 3 {
				c.Inner = c.Inner[:3]
			}
			for i := rapid.IntRange(1, 3).Draw(t, "hosts"); i > 0; i-- {
				c.Hosts = append(c.Hosts, genHost(t))
				c.At = append(c.At, rapid.IntRange(0, 12).Draw(t, "at"))
				c.Exit = append(c.Exit, rapid.Bool().Draw(t, "exit"))
			}
			return c
		}, runAbort)
}

// CopyAbortCase copies with a clone function that panics at some call.
type CopyAbortCase struct {
	Src  []Op `json:"src"`
	Dst  []Op `json:"dst"`
	Kind int  `json:"kind"`
	From int  `json:"from"`
	At   int  `json:"at"`
	More []Op `json:"more"`
}

func runCopyAbort(c CopyAbortCase, ctx *Ctx) error {
	src := newEnv()
	src.runAll(c.Src)
	kind := mod(c.Kind, 3)
	n := src.node(c.From)
	if kind == 1 && n == nil {
		return nil
	}
	name := []string{"CopyGraph", "CopySubgraph", "CopyGraphf"}[kind]
	copyTo := func(t *lpg.Graph, clone func(string, interface{}) interface{}, cb func()) {
		switch kind {
		case 0:
			lpg.CopyGraph(src.g, t, clone)
		case 1:
			lpg.CopySubgraph(n.h, t, clone, map[*lpg.Node]*lpg.Node{})
		case 2:
			lpg.CopyGraphf(src.g, func(n *lpg.Node, _ map[*lpg.Node]*lpg.Node) *lpg.Node {
				cb()
				return lpg.CopyNode(n, t, clone)
			}, func(x *lpg.Edge, m map[*lpg.Node]*lpg.Node) *lpg.Edge {
				cb()
				return lpg.CopyEdge(x, t, clone, m)
			})
		}
	}
	calls := 0
	count := func() { calls++ }
	copyTo(lpg.NewGraph(), func(_ string, v interface{}) interface{} { count(); return v }, count)
	if calls == 0 {
		return nil
	}
	dst := newEnv()
	dst.runAll(c.Dst)
	at, k := mod(c.At, calls), 0
	leave := func() {
		if k++; k == at+1 {
			panic(abortPanic{})
		}
	}
	r := aborted(func() {
		copyTo(dst.g, func(_ string, v interface{}) interface{} { leave(); return v }, leave)
	})
	if r != nil {
		if _, ok := r.(abortPanic); !ok {
			return fmt.Errorf("%s left by a panic of a callback: another panic: %v", name, r)
		}
	}
	ctx.Class("left: " + name)
	if at > 0 && len(dst.nodes) > 0 {
		ctx.NonTrivial()
	}
	if err := src.checkAll(); err != nil {
		return fmt.Errorf("the source after %s was left by a panic of a callback: %w", name, err)
	}
	for _, f := range []func() error{dst.checkProps, dst.checkLabelsRead, dst.checkAdjacency} {
		if err := f(); err != nil {
			return fmt.Errorf("what was in the target of %s, left by a panic of a callback: %w", name, err)
		}
	}
	all, err := adoptGraph(dst.g)
	if err != nil {
		return fmt.Errorf("the target of %s, left by a panic of a callback: %w", name, err)
	}
	if err := all.checkAll(); err != nil {
		return fmt.Errorf("the target of %s, left by a panic of a callback: %w", name, err)
	}
	src.runAll(c.More)
	all.runAll(c.More)
	for _, e := range []*Env{src, all} {
		if err := e.checkAll(); err != nil {
			return fmt.Errorf("changed after %s was left by a panic of a callback: %w", name, err)
		}
	}
	return nil
}

func init() {
	for _, p := range []struct {
		prop  string
		kinds []int
	}{{"C13", []int{0}}, {"C14", []int{1, 1, 2}}} {
		p := p
		register(p.prop, "left", "copying left by a panic of a callback: the source and what was in the target are as they were, and all views of the target agree, then and after further changes of both; non-trivial: not at the first call, with a target that was not empty",
			500, func(t *rapid.T) CopyAbortCase {
				c := CopyAbortCase{
					Src:  genOps(t, HistOpt{MaxOps: 20, BulkOneIn: 12, BulkMax: 20}),
					Dst:  genOps(t, HistOpt{MaxOps: 12}),
					More: genOps(t, HistOpt{MaxOps: 8}),
					From: rapid.IntRange(0, 20).Draw(t, "from"),
					At:   rapid.IntRange(0, 60).Draw(t, "at"),
				}
				c.Kind = rapid.SampledFrom(p.kinds).Draw(t, "kind")
				return c
			}, runCopyAbort)
	}
}
