package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Graphs one or two orders of magnitude larger than those of the other
// drivers, for what depends on sizes: a hub with hundreds of edges, an index
// with thousands of values, an identifier of several digits.

// wideOps is a short history, a few bulk operations of max items at most, and
// another short history.
func wideOps(t *rapid.T, max int, o HistOpt) []Op {
	o.BulkOneIn = 0
	if o.BulkKeys == nil {
		o.BulkKeys = []string{"i0", "s0", "l0", "ls"}
	}
	if o.Labels == nil {
		o.Labels = genLabels
	}
	o.MaxOps = 8
	ops := genOps(t, o)
	size := rapid.SampledFrom([]int{max / 16, max / 8, max / 4, max / 2, max}).Draw(t, "size")
	if size < 4 {
		size = 4
	}
	bulk := func(kind string) {
		op := Op{Op: kind, A: rapid.IntRange(0, 50).Draw(t, "a"), B: rapid.IntRange(0, 50).Draw(t, "b"), N: size - rapid.IntRange(0, size/8).Draw(t, "less")}
		op.Key = rapid.SampledFrom(o.BulkKeys).Draw(t, "bkey")
		op.Labels = o.Labels(t, 3)
		ops = append(ops, op)
	}
	bulk("bn")
	bulk("be")
	for _, k := range rapid.SliceOfN(rapid.SampledFrom([]string{"be", "br", "ber", "bp", "bep", "bn"}), 0, 3).Draw(t, "bulks") {
		bulk(k)
	}
	o.MaxOps = 15
	return append(ops, genOps(t, o)...)
}

// stepsWide checks after each bulk operation but the additions, and at the
// end.
func stepsWide(e *Env, ops []Op, check func() error) error {
	for i, op := range ops {
		e.apply(op)
		switch op.Op {
		case "br", "ber", "bp", "bep":
			if err := check(); err != nil {
				return fmt.Errorf("after op %d (%s): %w", i, op.Op, err)
			}
		}
	}
	return check()
}

// genWideGraph draws a graph of up to 60 nodes and 110 edges.
func genWideGraph(t *rapid.T) []Op {
	var ops []Op
	index := func(when string) {
		if rapid.IntRange(0, 2).Draw(t, when) == 0 {
			ops = append(ops, Op{Op: rapid.SampledFrom([]string{"ni", "ei"}).Draw(t, "ix"), Key: rapid.SampledFrom([]string{"i0", "s0", "i1"}).Draw(t, "ixk"), Kind: rapid.SampledFrom([]string{"b", "h"}).Draw(t, "ixt")})
		}
	}
	index("i1")
	index("i2")
	n := rapid.SampledFrom([]int{9, 14, 18, 24, 33, 45, 60}).Draw(t, "nodes")
	unique := rapid.IntRange(0, 2).Draw(t, "unique")
	for i := 0; i < n; i++ {
		o := Op{Op: "n", Labels: genPatLabels(t, 2), Props: genPatProps(t)}
		if unique > 0 {
			o.Props = append(o.Props, KV{"i1", vInt(i / unique)})
		}
		ops = append(ops, o)
	}
	index("i3")
	m := rapid.SampledFrom([]int{12, 20, 30, 45, 70, 110}).Draw(t, "edges")
	hub := rapid.IntRange(0, 3).Draw(t, "hub")
	labels := patLabels
	if rapid.Bool().Draw(t, "many") {
		labels = nil
		for i := 0; i < 20; i++ {
			labels = append(labels, fmt.Sprintf("E%d", i))
		}
	}
	at := rapid.IntRange(0, n-1).Draw(t, "at")
	step := rapid.IntRange(1, n).Draw(t, "step")
	for i := 0; i < m; i++ {
		o := Op{Op: "e", Label: rapid.SampledFrom(labels).Draw(t, "l"), Props: genPatProps(t)}
		if unique > 0 {
			o.Props = append(o.Props, KV{"i1", vInt(i / unique)})
		}
		o.A, o.B = mod(at, n), mod(at+step, n)
		at += step
		if step%n == 0 || i%7 == 6 {
			at++
		}
		switch {
		case hub == 1 && i%3 == 0:
			o.A = 0
		case hub == 2 && i%3 == 0:
			o.B = 0
		case hub == 3 && i%2 == 0:
			o.A, o.B = rapid.IntRange(0, n-1).Draw(t, "f"), rapid.IntRange(0, n-1).Draw(t, "t")
		}
		ops = append(ops, o)
	}
	for _, k := range rapid.SliceOfN(rapid.SampledFrom([]string{"er", "nr", "el", "nt"}), 0, 4).Draw(t, "edits") {
		ops = append(ops, Op{Op: k, A: rapid.IntRange(0, m).Draw(t, "eda"), Label: rapid.SampledFrom(labels).Draw(t, "edl")})
	}
	return ops
}

func genWideItems(t *rapid.T, o itemOpt) []PItem {
	items := genItems(t, o)
	if len(items) > 5 {
		items = items[:5]
	}
	for i := range items {
		items[i].Pick = rapid.IntRange(0, 110).Draw(t, "pick")
		if items[i].Max == -1 || items[i].Max > 2 {
			items[i].Max = 2 + rapid.IntRange(0, 6).Draw(t, "three")/6
		}
	}
	return items
}

func init() {
	wide := " on graphs of up to thousands of items, checked after bulk operations and at the end; all are non-trivial"
	hist := func(prop string, quick, max int, o HistOpt, check func(e *Env) error) {
		register(prop, "wide", "histories"+wide, quick, func(t *rapid.T) HistCase { return HistCase{Ops: wideOps(t, max, o)} },
			func(c HistCase, ctx *Ctx) error {
				e := newEnv()
				ctx.NonTrivial()
				return stepsWide(e, c.Ops, func() error { return check(e) })
			})
	}
	indexMix := []string{"n", "e", "np", "np", "nd", "ep", "ep", "ed", "er", "nt", "nr", "ni", "ni", "ni", "ei", "ei", "ei", "nl", "el"}
	hist("C01", 16, 3000, HistOpt{}, func(e *Env) error { return e.checkContents() })
	hist("C02", 24, 1500, HistOpt{}, func(e *Env) error { return e.checkLabels([][]string{{"A"}, {"A", "B"}, {"B", "C"}}) })
	hist("C03", 24, 2000, HistOpt{}, func(e *Env) error {
		if err := e.checkProps(); err != nil {
			return err
		}
		return e.checkLabelsRead()
	})
	hist("C04", 40, 3000, HistOpt{OpKinds: indexMix}, func(e *Env) error { return e.checkPresence() })
	hist("C05", 12, 1500, HistOpt{OpKinds: indexMix}, func(e *Env) error { return e.checkOwnFinds(40) })
	hist("C25", 10, 600, HistOpt{NoIndex: true}, func(e *Env) error { return e.checkHelpers(&Ctx{}) })
	hist("C27", 40, 3000, HistOpt{}, func(e *Env) error { return e.checkIdentity() })

	register("C16", "wide", "patterns of 1 to 5 items over graphs of up to 60 nodes and 110 edges, as for fixed; non-trivial: as for fixed",
		400, func(t *rapid.T) PatCase {
			return PatCase{Ops: genWideGraph(t), Items: genWideItems(t, itemOpt{name: uniqueName})}
		}, runFixed)
	register("C17", "wide", "the same with variable-length items; non-trivial: as for trails",
		300, func(t *rapid.T) PatCase {
			return PatCase{Ops: genWideGraph(t), Items: genWideItems(t, itemOpt{variable: 2, name: uniqueName})}
		}, runFixed)
	register("C18", "wide", "patterns sharing names over graphs of up to 60 nodes and 110 edges, as for bindings; non-trivial: as for bindings",
		600, func(t *rapid.T) PatCase {
			return PatCase{Ops: genWideGraph(t), Items: genWideItems(t, itemOpt{variable: 5, name: clashName}), Syms: genSymList(t, []string{"", "", "", "", "zero"})}
		}, runBinding)
	register("C19", "wide", "the relations over graphs of up to 60 nodes and 110 edges; non-trivial: at least one match",
		400, func(t *rapid.T) MetaCase {
			c := MetaCase{Ops: genWideGraph(t), Items: genWideItems(t, itemOpt{variable: 5, name: clashName}), Syms: genSymList(t, []string{"", "", "", "zero"})}
			c.Order = rapid.SliceOfN(rapid.IntRange(0, 60), 0, 30).Draw(t, "order")
			ix := rapid.Custom(func(t *rapid.T) Op {
				return Op{Op: rapid.SampledFrom([]string{"ni", "ei"}).Draw(t, "ix"), Key: rapid.SampledFrom([]string{"i0", "s0", "i1"}).Draw(t, "ixk"), Kind: rapid.SampledFrom([]string{"b", "h"}).Draw(t, "ixt")}
			})
			c.Index = rapid.SliceOfN(ix, 0, 4).Draw(t, "index")
			c.Late = rapid.SliceOfN(ix, 0, 3).Draw(t, "late")
			k := rapid.SampledFrom([]int{1, 5, 20, 70}).Draw(t, "pads")
			l := genPatLabels(t, 2)
			for i := 0; i < k; i++ {
				c.Pad = append(c.Pad, Op{Op: "n", Labels: l, Props: []KV{{"i1", vInt(i)}}})
			}
			return c
		}, runMeta)
	register("C21", "wide", "cursor walks over graphs of up to 60 nodes and 110 edges, as for cursor; non-trivial: as for cursor",
		400, func(t *rapid.T) CurCase {
			c := CurCase{Ops: genWideGraph(t)}
			op := rapid.Custom(func(t *rapid.T) CurOp {
				return CurOp{
					Op: rapid.SampledFrom([]string{"set", "start", "push", "push", "push", "push", "push", "push", "push", "push", "pop", "pop", "pop"}).Draw(t, "op"),
					A:  rapid.IntRange(0, 59).Draw(t, "a"), Label: rapid.SampledFrom([]string{"A", "B", "", "C", "E1", "E10", "E2", patLabels[len(patLabels)-1]}).Draw(t, "l"),
				}
			})
			c.Steps = append([]CurOp{{Op: "set", A: rapid.SampledFrom([]int{0, 0, 3, 17}).Draw(t, "at")}, {Op: "start"}}, rapid.SliceOfN(op, 1, 40).Draw(t, "steps")...)
			return c
		}, runCursor)

	register("C06", "wide", "every iterator over a graph of up to hundreds of items, as for contract; non-trivial: as for contract",
		80, func(t *rapid.T) IterCase {
			return IterCase{
				Ops:      wideOps(t, 400, HistOpt{OpKinds: indexMix}),
				Query:    genQuery(t),
				Pick:     rapid.SliceOfN(rapid.IntRange(0, 400), 2, 6).Draw(t, "pick"),
				Schedule: rapid.SliceOfN(rapid.IntRange(0, 5), 0, 60).Draw(t, "schedule"),
			}
		}, runIterCase)
	register("C08", "wide", "round trips of graphs of up to thousands of items and of texts of up to 100000 characters; non-trivial: as for roundtrip",
		8, func(t *rapid.T) EncCase {
			o := jsonHist(0)
			o.BulkKeys = []string{"i0", "s0"}
			c := EncCase{
				Ops:   wideOps(t, 500, o),
				Index: rapid.Bool().Draw(t, "index"),
				Chunk: rapid.SliceOfN(rapid.SampledFrom([]int{1, 511, 512, 513, 4096, 70000}), 0, 3).Draw(t, "chunk"),
			}
			big := func(name string) string {
				unit := rapid.SampledFrom([]string{"x", "é", "\"", "ab\n"}).Draw(t, name)
				return strings.Repeat(unit, rapid.SampledFrom([]int{0, 100, 511, 513, 1023, 1025, 4096, 5000, 33000}).Draw(t, name+"len"))
			}
			v := vStr(big("text"))
			c.Ops = append(c.Ops, Op{Op: "n", Labels: []string{big("label")}, Props: []KV{{"s0", v}, {"key" + big("key"), v}}})
			c.Ops = append(c.Ops, Op{Op: "e", A: -1, B: 0, Label: big("elabel"), Props: []KV{{"s0", v}}})
			return c
		}, runEncCase)
	wideCopy := genCopyCase([]string{"graph", "sub", "graphf", "op"}, 1)
	for _, p := range []string{"C13", "C14"} {
		register(p, "wide", "copies of graphs of up to a thousand items into populated graphs; non-trivial: an edge was copied",
			40, func(t *rapid.T) CopyCase {
				c := wideCopy(t)
				c.Source = wideOps(t, 500, HistOpt{})
				if rapid.Bool().Draw(t, "both") {
					c.Target = wideOps(t, 200, HistOpt{})
				}
				c.Steps = c.Steps[:1+rapid.IntRange(0, 1).Draw(t, "steps")%len(c.Steps)]
				return c
			}, runCopyCase)
	}
	genWideDot := func(t *rapid.T) DotCase {
		return DotCase{
			Ops:     wideOps(t, 400, HistOpt{NoIndex: true}),
			Name:    rapid.SampledFrom(dotNames).Draw(t, "name"),
			Decline: rapid.IntRange(0, 3).Draw(t, "decline"),
			EDec:    rapid.Bool().Draw(t, "edec"),
		}
	}
	register("C24", "wide", "graphs of up to thousands of items; non-trivial: as for default", 12, genWideDot, runDotDefault)
	register("C24", "wide-custom", "the same with logging and declining renderers; non-trivial: as for custom", 12, genWideDot, runDotCustom)
}
