package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// NestCase makes reads in the middle of another read.
type NestCase struct {
	Ops   []Op     `json:"ops"`
	Host  ReadOp   `json:"host"`
	Inner []ReadOp `json:"inner"`
	At    int      `json:"at"` // the first call of the host's callback that reads
	Self  bool     `json:"self"`
	Other []Op     `json:"other"` // another graph, which the reads in the middle go to in turn
}

// host is a read that calls back.
func (e *Env) host(o ReadOp) func(cb func()) (string, error) {
	n := e.node(o.A)
	same := func(_ string, v interface{}) interface{} { return v }
	switch o.Kind {
	case "iter":
		q := Query{Like: -1}
		if o.Query != nil {
			q = *o.Query
		}
		ps := e.producers(q)
		pr := ps[mod(o.A, len(ps))]
		return func(cb func()) (string, error) {
			var l []any
			for it := pr.mk(); it.Next() && len(l) <= iterCap; cb() {
				l = append(l, it.Value())
			}
			return pr.name + ": " + strings.Join(e.itemNames(l), " "), nil
		}
	case "pattern":
		items := e.concrete(o.Items)
		dropVarRepeats(items)
		if len(localConflicts(items)) > 0 {
			uniqueNames(items)
		}
		syms, conflict := e.givenSyms(items, o.Syms)
		if len(conflict) > 0 {
			return nil
		}
		if _, ok := e.workBound(items, maxWork/20); !ok {
			return nil
		}
		if _, ok := e.enumerate(items, syms, maxMatches/8, maxWork); !ok {
			return nil
		}
		lp, ls := libPattern(items), libSyms(syms)
		return func(cb func()) (string, error) {
			acc := &nestAcc{ownAcc{e: e, items: items}, cb}
			if err := lp.Run(e.g, ls, acc); err != nil {
				return "", err
			}
			sort.Strings(acc.texts)
			return patString(items) + ": " + strings.Join(acc.texts, "; "), acc.err
		}
	case "collect":
		if n == nil {
			return nil
		}
		dir, mx := mod(o.B, 3), 1+mod(o.A, 3)
		cnt := 0
		if !e.trails(n, dir, -1, mx, func(*MEdge) bool { return true }, func([]mElem) bool { cnt++; return cnt < 500 }) {
			return nil
		}
		d := []lpg.EdgeDir{lpg.OutgoingEdge, lpg.IncomingEdge, lpg.AnyEdge}[dir]
		return func(cb func()) (string, error) {
			var l []string
			lpg.CollectAllPaths(e.g, n.h, n.h.GetEdges(d), func(*lpg.Edge) bool { cb(); return true }, d, 1, mx, func(p *lpg.Path) bool {
				cb()
				t, _ := e.pathText(p)
				l = append(l, t)
				return true
			})
			sort.Strings(l)
			return "paths: " + strings.Join(l, "; "), nil
		}
	case "iso":
		if len(e.nodes) > 6 || len(e.edges) > 8 {
			return nil
		}
		return func(cb func()) (string, error) {
			other := lpg.NewGraph()
			lpg.CopyGraph(e.g, other, same)
			if o.B%2 == 0 && n != nil {
				other.NewNode([]string{"A"}, nil)
			}
			ok, err := lpg.CheckIsomorphism(context.Background(), e.g, other, func(a, b *lpg.Node) bool {
				cb()
				return a.GetLabels().IsEqual(b.GetLabels())
			}, func(a, b *lpg.Edge) bool {
				cb()
				return a.GetLabel() == b.GetLabel()
			})
			return fmt.Sprint("isomorphic: ", ok), err
		}
	case "copy":
		return func(cb func()) (string, error) {
			t := lpg.NewGraph()
			clone := func(_ string, v interface{}) interface{} { cb(); return v }
			switch mod(o.B, 3) {
			case 0:
				lpg.CopyGraph(e.g, t, clone)
			case 1:
				if n != nil {
					lpg.CopySubgraph(n.h, t, clone, map[*lpg.Node]*lpg.Node{})
				}
			case 2:
				lpg.CopyGraphf(e.g, func(n *lpg.Node, _ map[*lpg.Node]*lpg.Node) *lpg.Node {
					cb()
					return lpg.CopyNode(n, t, clone)
				}, func(x *lpg.Edge, m map[*lpg.Node]*lpg.Node) *lpg.Edge {
					cb()
					return lpg.CopyEdge(x, t, clone, m)
				})
			}
			var l []string
			text := func(what string, p interface {
				ForEachProperty(func(string, interface{}) bool) bool
			}) {
				m := map[string]any{}
				p.ForEachProperty(func(k string, v interface{}) bool { m[k] = v; return true })
				l = append(l, what+" {"+propsText(m)+"}")
			}
			for _, x := range lpg.NodeSlice(t.GetNodes()) {
				text(setOf(x.GetLabels()), x)
			}
			for _, x := range lpg.EdgeSlice(t.GetEdges()) {
				text(x.GetLabel()+setOf(x.GetFrom().GetLabels())+setOf(x.GetTo().GetLabels()), x)
			}
			sort.Strings(l)
			return "copy: " + strings.Join(l, "; "), nil
		}
	case "json":
		return func(cb func()) (string, error) {
			var b bytes.Buffer
			keys := map[string]int{}
			err := lpg.JSON{MarshalEdgesSeparately: o.B%2 == 0, PropertyMarshaler: func(key string, _ interface{}) (string, json.RawMessage, error) {
				cb()
				keys[key]++
				return key, json.RawMessage(`"x"`), nil
			}}.Encode(e.g, &b)
			if err == nil && !json.Valid(b.Bytes()) {
				err = fmt.Errorf("invalid JSON")
			}
			return fmt.Sprint("json: ", b.Len(), len(keys), keys), err
		}
	case "dot":
		return func(cb func()) (string, error) {
			var b bytes.Buffer
			nodes, edges := 0, 0
			err := lpg.DOTRenderer{NodeRenderer: func(id string, n *lpg.Node, w io.Writer) (bool, error) {
				cb()
				nodes++
				_, err := fmt.Fprintf(w, "%s [label=\"x\"];\n", id)
				return true, err
			}, EdgeRenderer: func(from, to string, x *lpg.Edge, w io.Writer) (bool, error) {
				cb()
				edges++
				_, err := fmt.Fprintf(w, "%s -> %s;\n", from, to)
				return true, err
			}}.Render(e.g, "g", &b)
			return fmt.Sprint("dot: ", strings.Count(b.String(), "\n"), nodes, edges), err
		}
	case "helpers":
		return func(cb func()) (string, error) {
			var l []any
			lpg.ForEachNode(e.g, func(n *lpg.Node) bool { cb(); l = append(l, n); return true })
			return "ForEachNode: " + strings.Join(e.itemNames(l), " "), nil
		}
	case "items":
		return func(cb func()) (string, error) {
			var l []string
			for _, n := range e.nodes {
				n.h.ForEachProperty(func(k string, v interface{}) bool {
					cb()
					l = append(l, fmt.Sprintf("%s.%q=%s", e.nodeNames([]*lpg.Node{n.h}), k, valKey(v)))
					return true
				})
			}
			for _, x := range e.edges {
				x.h.ForEachProperty(func(k string, v interface{}) bool {
					cb()
					l = append(l, fmt.Sprintf("%s.%q=%s", e.edgeNames([]*lpg.Edge{x.h}), k, valKey(v)))
					return true
				})
			}
			sort.Strings(l)
			return "properties: " + strings.Join(l, " "), nil
		}
	}
	return nil
}

// nestAcc reads whenever a match is reported.
type nestAcc struct {
	ownAcc
	cb func()
}

func (a *nestAcc) StoreResult(ctx *lpg.MatchContext, path *lpg.Path, symbols map[string]interface{}) {
	a.cb()
	a.ownAcc.StoreResult(ctx, path, symbols)
}

func runNest(c NestCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	host := e.host(c.Host)
	if host == nil {
		return nil
	}
	calls := 0
	alone, err := host(func() { calls++ })
	if err != nil {
		return fmt.Errorf("%s: %w", c.Host.Kind, err)
	}
	type inner struct {
		prepared
		text func() string
		want string
	}
	var in []inner
	e2 := newEnv()
	e2.runAll(c.Other)
	host2, alone2 := e2.host(c.Host), ""
	if host2 != nil {
		if alone2, err = host2(func() {}); err != nil {
			return fmt.Errorf("%s: %w", c.Host.Kind, err)
		}
	}
	for i, o := range c.Inner {
		on := e
		if (i+c.At)%2 == 1 {
			on = e2
		}
		p, ok := on.prepare(o, newCtx())
		if !ok {
			continue
		}
		run := p.run
		text := func() string {
			t, err := run()
			if err != nil {
				t = "error: " + err.Error()
			}
			return t
		}
		in = append(in, inner{p, text, text()})
	}
	if calls == 0 || len(in) == 0 {
		return nil
	}
	at, k, done := mod(c.At, calls), 0, 0
	var fail error
	with, err := host(func() {
		k++
		if k <= at || done >= 3 || fail != nil {
			return
		}
		done++
		for _, p := range in {
			got := p.text()
			if got != p.want {
				fail = fmt.Errorf("%s gave {%s}, and {%s} in the middle of another read (%s)", p.name, p.want, got, c.Host.Kind)
				return
			}
			if err := p.intact(); err != nil {
				fail = fmt.Errorf("%s: %w", p.name, err)
				return
			}
		}
		if c.Self {
			// The host once more, in the middle of itself
			got, err := host(func() {})
			if err == nil && got != alone {
				err = fmt.Errorf("{%s} alone, {%s} in the middle of itself", alone, got)
			}
			if err == nil && host2 != nil {
				got, err = host2(func() {})
				if err == nil && got != alone2 {
					err = fmt.Errorf("{%s} alone, {%s} in the middle of the same on another graph", alone2, got)
				}
			}
			if err != nil {
				fail = err
			}
		}
	})
	if fail != nil {
		return fail
	}
	if err != nil {
		return fmt.Errorf("%s, with others in the middle: %w", c.Host.Kind, err)
	}
	if with != alone {
		return fmt.Errorf("{%s} alone, {%s} with other reads in the middle", alone, with)
	}
	ctx.Class("in the middle of " + c.Host.Kind)
	if calls > 1 {
		ctx.NonTrivial()
	}
	for _, e := range []*Env{e, e2} {
		if err := e.checkAll(); err != nil {
			return fmt.Errorf("after reading: %w", err)
		}
	}
	return nil
}

func init() {
	register("C26", "nested", "reads made in the callbacks of another read, or between two steps of an iterator, on the same or another graph: each gives what it gives alone; non-trivial: the callback is called at least twice",
		1200, func(t *rapid.T) NestCase {
			r := genReads(t, 3, false)
			c := NestCase{Ops: r.Ops, Inner: r.Reads, At: rapid.IntRange(0, 6).Draw(t, "at"), Self: rapid.Bool().Draw(t, "self"), Other: genOps(t, HistOpt{MaxOps: 12})}
			if len(c.Inner) > 3 {
				c.Inner = c.Inner[:3]
			}
			c.Host = genHost(t)
			return c
		}, runNest)
}

// genHost draws a read that calls back.
func genHost(t *rapid.T) ReadOp {
	h := ReadOp{Kind: rapid.SampledFrom([]string{"iter", "iter", "pattern", "pattern", "pattern", "collect", "iso", "copy", "json", "dot", "helpers", "items"}).Draw(t, "host"),
		A: rapid.IntRange(0, 400).Draw(t, "ha"), B: rapid.IntRange(0, 11).Draw(t, "hb")}
	switch h.Kind {
	case "iter":
		q := genQuery(t)
		h.Query = &q
	case "pattern":
		h.Items = genItems(t, itemOpt{variable: 4, name: clashName})
		h.Syms = genSymList(t, []string{"", "", "", "zero"})
	}
	return h
}
