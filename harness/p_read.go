package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C26

// ReadOp is one read of the graph; its arguments are built once and used for
// every repetition.
type ReadOp struct {
	Kind  string  `json:"kind"`
	A     int     `json:"a,omitempty"`
	B     int     `json:"b,omitempty"`
	Stop  int     `json:"stop,omitempty"` // abandon after so many items; 0: never
	Query *Query  `json:"query,omitempty"`
	Items []PItem `json:"items,omitempty"`
	Syms  []PSym  `json:"syms,omitempty"`
}

type ReadCase struct {
	Ops   []Op     `json:"ops"`
	Reads []ReadOp `json:"reads"`
	After []Op     `json:"after,omitempty"`
}

// prepared is a read with its arguments. run gives the result as text ("" if
// results cannot be compared), intact checks the arguments.
type prepared struct {
	name   string
	run    func() (string, error)
	intact func() error
}

func (e *Env) itemNames(l []any) []string {
	var r []string
	for _, x := range l {
		switch k := x.(type) {
		case *lpg.Node:
			r = append(r, e.nodeNames([]*lpg.Node{k})...)
		case *lpg.Edge:
			r = append(r, e.edgeNames([]*lpg.Edge{k})...)
		default:
			r = append(r, fmt.Sprintf("?%T", x))
		}
	}
	sort.Strings(r)
	return r
}

func drain(it lpg.Iterator, stop int) []any {
	var r []any
	for it.Next() {
		r = append(r, it.Value())
		if stop > 0 && len(r) >= stop || len(r) > iterCap {
			break
		}
	}
	return r
}

func propsText(m map[string]any) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%q=%s", k, valKey(v)))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func setOf(s lpg.StringSet) string { return fmt.Sprintf("%q", s.SortedSlice()) }

func itemText(p lpg.PatternItem) string {
	return fmt.Sprintf("%s {%s} %d %d %v %v %q", setOf(p.Labels), propsText(p.Properties), p.Min, p.Max, p.ToLeft, p.Undirected, p.Name)
}

func symText(m map[string]*lpg.PatternSymbol) string {
	var l []string
	for k, s := range m {
		t := k + ":"
		if s.Nodes != nil {
			for _, n := range s.Nodes.Slice() {
				t += fmt.Sprintf(" n%p", n)
			}
		}
		t += "|"
		if s.Edges != nil {
			for _, n := range s.Edges.Slice() {
				t += fmt.Sprintf(" e%p", n)
			}
		}
		l = append(l, t)
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func keep(what, before string, now func() string) func() error {
	return func() error {
		if n := now(); n != before {
			return fmt.Errorf("%s changed from %s to %s", what, before, n)
		}
		return nil
	}
}

func fine() error { return nil }

func (e *Env) prepare(o ReadOp, ctx *Ctx) (p prepared, ok bool) {
	p.name, p.intact = o.Kind, fine
	n := e.node(o.A)
	q := Query{Like: -1}
	if o.Query != nil {
		q = *o.Query
	}
	iterRun := func(mk func() lpg.Iterator) func() (string, error) {
		return func() (string, error) {
			l := drain(mk(), o.Stop)
			if o.Stop > 0 {
				ctx.Class("abandoned iterator")
				return "", nil
			}
			return strings.Join(e.itemNames(l), " "), nil
		}
	}
	labels, props := e.resolve(q)
	set, pm := strset(labels), goProps(props)
	switch o.Kind {
	case "iter":
		ps := e.producers(q)
		pr := ps[mod(o.A, len(ps))]
		p.name = pr.name
		p.run = iterRun(pr.mk)
	case "find", "labels", "filter":
		p.name = fmt.Sprintf("%s(%q,%s)", o.Kind, labels, kvString(props))
		before := setOf(set) + propsText(pm)
		p.intact = keep("the arguments", before, func() string { return setOf(set) + propsText(pm) })
		switch {
		case o.Kind == "filter":
			nf, ef := lpg.GetNodeFilterFunc(set, pm), lpg.GetEdgeFilterFunc(set, pm)
			p.run = func() (string, error) {
				var l []any
				for _, n := range e.nodes {
					if nf(n.h) {
						l = append(l, n.h)
					}
				}
				for _, x := range e.edges {
					if ef(x.h) {
						l = append(l, x.h)
					}
				}
				return strings.Join(e.itemNames(l), " "), nil
			}
		case o.Kind == "find" && o.B%2 == 0:
			p.run = iterRun(func() lpg.Iterator { return e.g.FindNodes(set, pm) })
		case o.Kind == "find":
			p.run = iterRun(func() lpg.Iterator { return e.g.FindEdges(set, pm) })
		case o.B%3 == 0:
			p.run = iterRun(func() lpg.Iterator { return e.g.GetNodesWithAllLabels(set) })
		case o.B%3 == 1:
			p.run = iterRun(func() lpg.Iterator { return e.g.GetEdgesWithAnyLabel(set) })
		default:
			if n == nil {
				return p, false
			}
			p.run = iterRun(func() lpg.Iterator { return n.h.GetEdgesWithAnyLabel(dirs[mod(o.A, 3)], set) })
		}
	case "pattern":
		items := e.concrete(o.Items)
		dropVarRepeats(items)
		if len(localConflicts(items)) > 0 {
			uniqueNames(items)
		}
		syms, conflict := e.givenSyms(items, o.Syms)
		if len(conflict) > 0 {
			return p, false
		}
		if _, ok := e.workBound(items, maxWork/20); !ok {
			return p, false
		}
		if _, ok := e.enumerate(items, syms, maxMatches/4, maxWork); !ok {
			return p, false
		}
		p.name = patString(items)
		lp, ls := libPattern(items), libSyms(syms)
		text := func() string {
			t := ""
			for _, it := range lp {
				t += itemText(it) + "; "
			}
			return t + symText(ls)
		}
		p.intact = keep("the pattern or its symbols", text(), text)
		p.run = func() (string, error) {
			acc, err := lp.FindPaths(e.g, ls)
			if err != nil {
				return "", err
			}
			t, err := e.texts(items, &acc)
			if err != nil {
				return "", err
			}
			ctx.ClassIf(len(t) > 0, "pattern with a match")
			heads, tails := e.nodeNames(acc.GetHeadNodes()), e.nodeNames(acc.GetTailNodes())
			nodes, err := lp.FindNodes(e.g, ls)
			if err != nil {
				return "", err
			}
			lp.GetSymbolNames()
			sort.Strings(t)
			return fmt.Sprint(t, heads, tails, e.nodeNames(nodes)), nil
		}
	case "collect":
		if n == nil {
			return p, false
		}
		dir, mx := mod(o.B, 3), 1+mod(o.A, 3)
		cnt := 0
		if !e.trails(n, dir, -1, mx, func(*MEdge) bool { return true }, func([]mElem) bool { cnt++; return cnt < 2000 }) {
			return p, false
		}
		p.run = func() (string, error) {
			var l []string
			d := []lpg.EdgeDir{lpg.OutgoingEdge, lpg.IncomingEdge, lpg.AnyEdge}[dir]
			lpg.CollectAllPaths(e.g, n.h, n.h.GetEdges(d), func(*lpg.Edge) bool { return true }, d, 1, mx, func(p *lpg.Path) bool {
				t, _ := e.pathText(p)
				l = append(l, t)
				return o.Stop == 0 || len(l) < o.Stop
			})
			if o.Stop > 0 {
				return "", nil
			}
			sort.Strings(l)
			return strings.Join(l, "; "), nil
		}
	case "iso":
		if len(e.nodes) > 7 || len(e.edges) > 9 {
			return p, false
		}
		p.run = func() (string, error) {
			ne := func(a, b *lpg.Node) bool { return a.GetLabels().IsEqual(b.GetLabels()) }
			ee := func(a, b *lpg.Edge) bool { return a.GetLabel() == b.GetLabel() }
			other := lpg.NewGraph()
			if o.B%2 == 0 {
				lpg.CopyGraph(e.g, other, func(_ string, v interface{}) interface{} { return v })
			}
			if o.B%3 == 0 {
				other.NewNode([]string{"A"}, nil)
			}
			ok1, err := lpg.CheckIsomorphism(context.Background(), e.g, other, ne, ee)
			if err != nil {
				return "", err
			}
			ok2, err := lpg.CheckIsomorphism(context.Background(), other, e.g, ne, ee)
			return fmt.Sprint(ok1, ok2), err
		}
	case "copy":
		p.run = func() (string, error) {
			same := func(_ string, v interface{}) interface{} { return v }
			t := lpg.NewGraph()
			switch mod(o.B, 4) {
			case 0:
				lpg.CopyGraph(e.g, t, same)
			case 1:
				if n != nil {
					lpg.CopySubgraph(n.h, t, same, map[*lpg.Node]*lpg.Node{})
				}
			case 2:
				if n != nil {
					c := lpg.CopyNode(n.h, t, same)
					c.SetLabels(lpg.NewStringSet("changed"))
					c.SetProperty("i0", 77)
					c.SetProperty("fresh", 1)
				}
			case 3:
				m := lpg.CopyGraphf(e.g, func(n *lpg.Node, _ map[*lpg.Node]*lpg.Node) *lpg.Node {
					return lpg.CopyNode(n, t, same)
				}, func(x *lpg.Edge, m map[*lpg.Node]*lpg.Node) *lpg.Edge {
					return lpg.CopyEdge(x, t, same, m)
				})
				for _, c := range m {
					c.DetachAndRemove()
				}
			}
			res := fmt.Sprint(t.NumNodes(), t.NumEdges())
			// what happens to the copy does not matter to the original
			for _, c := range lpg.NodeSlice(t.GetNodes()) {
				c.SetProperty("i0", 99)
				s := c.GetLabels()
				s.Add("more")
				c.SetLabels(s)
			}
			for _, c := range lpg.EdgeSlice(t.GetEdges()) {
				c.SetLabel("other")
				c.Remove()
			}
			return res, nil
		}
	case "json":
		p.run = func() (string, error) {
			var b bytes.Buffer
			err := lpg.JSON{MarshalEdgesSeparately: o.B%2 == 0}.Encode(e.g, &b)
			if err != nil {
				return "", err
			}
			if !json.Valid(b.Bytes()) {
				return "", fmt.Errorf("invalid JSON")
			}
			return "", nil
		}
	case "dot":
		p.run = func() (string, error) {
			var b bytes.Buffer
			if err := (lpg.DOTRenderer{}).Render(e.g, "g", &b); err != nil {
				return "", err
			}
			return fmt.Sprint(strings.Count(b.String(), "\n")), nil
		}
	case "helpers":
		p.run = func() (string, error) {
			var sb strings.Builder
			fmt.Fprint(&sb, e.nodeNames(lpg.Sources(e.g)), e.nodeNames(lpg.Sinks(e.g)), e.g.NumNodes(), e.g.NumEdges())
			if n != nil {
				m := e.node(o.B)
				x := e.edgeNames(lpg.EdgesBetweenNodes(n.h, m.h))
				sort.Strings(x)
				fmt.Fprint(&sb, x, e.nodeNames(lpg.NextNodesWith(n.h, "A")), e.nodeNames(lpg.PrevNodesWith(n.h, "A")))
			}
			cnt := 0
			lpg.ForEachNode(e.g, func(*lpg.Node) bool { cnt++; return o.Stop == 0 || cnt < o.Stop })
			fmt.Fprint(&sb, cnt)
			return sb.String(), nil
		}
	case "items":
		p.run = func() (string, error) {
			var l []string
			for _, n := range e.nodes {
				s := n.h.GetLabels()
				l = append(l, fmt.Sprint(setOf(s), n.h.HasLabel("A"), n.h.GetID(), len(n.h.String()), textSize(n.h)))
				s.Add("mine") // the caller's copy
				s.Remove("A")
				s.AddSet(lpg.NewStringSet("also mine"))
				cl := n.h.GetLabels().Clone()
				cl.Add("mine too")
				keys := 0
				n.h.ForEachProperty(func(k string, v interface{}) bool { keys++; return o.Stop == 0 })
				for _, k := range allKeys {
					v, ok := n.h.GetProperty(k)
					l = append(l, valKey(v), fmt.Sprint(ok))
				}
			}
			for _, x := range e.edges {
				l = append(l, fmt.Sprint(x.h.GetLabel(), x.h.GetID(), len(x.h.String()), textSize(x.h)))
				x.h.ForEachProperty(func(k string, v interface{}) bool { return o.Stop == 0 })
				for _, k := range allKeys {
					v, ok := x.h.GetProperty(k)
					l = append(l, valKey(v), fmt.Sprint(ok))
				}
			}
			return strings.Join(l, " "), nil
		}
	case "path":
		if n == nil {
			return p, false
		}
		w := e.trail(n, o.B, 1+mod(o.A, 3), 2)
		if len(w) == 0 {
			return p, false
		}
		p.run = func() (string, error) {
			p := lpg.NewPathFromElements(libElems(w)...)
			q := p.Clone().RemoveLast()
			c := new(lpg.Cursor).Set(n.h).StartPath()
			if !w[0].rev {
				c.PushToPath(w[0].x.h).PopFromPath()
			}
			t, err := e.pathText(p)
			p.Slice(0, -1)
			p.HasPrefixPath(q)
			_ = p.String()
			q.Clear()
			return t, err
		}
	default:
		bug("read %q", o.Kind)
	}
	return p, true
}

// textSize is the length of the JSON text of an item, whose properties come in
// any order.
func textSize(x any) int {
	b, err := json.Marshal(x)
	if err != nil {
		return -1
	}
	return len(b)
}

func runReads(c ReadCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	var ps []prepared
	var res []string
	for _, o := range c.Reads {
		p, ok := e.prepare(o, ctx)
		if !ok {
			continue
		}
		ctx.Class(o.Kind)
		ps = append(ps, p)
	}
	if len(ps) >= 3 && len(e.nodes) >= 2 && len(e.edges) >= 1 {
		ctx.NonTrivial()
	}
	for round := 0; round < 3; round++ {
		for k := range ps {
			i := k
			if round == 1 {
				i = len(ps) - 1 - k
			}
			p := ps[i]
			t, err := p.run()
			if err != nil {
				t = "error: " + err.Error()
			}
			if round == 0 {
				res = append(res, t)
			} else if t != res[i] {
				return fmt.Errorf("%s gave {%s}, and {%s} when repeated", p.name, res[i], t)
			}
			if err := p.intact(); err != nil {
				return fmt.Errorf("%s: %w", p.name, err)
			}
			if round == 0 {
				if err := e.checkContents(); err != nil {
					return fmt.Errorf("after %s: %w", p.name, err)
				}
			}
		}
		if round == 0 {
			if err := e.checkAll(); err != nil {
				return fmt.Errorf("after reading: %w", err)
			}
		}
	}
	// the graph, its indexes included, goes on working
	for _, o := range c.After {
		e.apply(o)
	}
	if err := e.checkAll(); err != nil {
		return fmt.Errorf("after reading and changing: %w", err)
	}
	return nil
}

func init() {
	register("C26", "reads", "a history, then a battery of reads (iterators complete and abandoned, lookups, pattern searches, path collection, isomorphism, copies, encoding, rendering, helpers) run three times: same results, arguments and graph unchanged; then further changes; non-trivial: at least 3 reads of a graph with 2 nodes and an edge",
		1500, func(t *rapid.T) ReadCase { return genReads(t, 14, false) }, runReads)
	register("C26", "reads-wide", "the same, but for searches, with graphs of up to hundreds of items; non-trivial: as for reads",
		40, func(t *rapid.T) ReadCase { return genReads(t, 14, true) }, runReads)
}

func genReads(t *rapid.T, most int, wide bool) ReadCase {
	c := ReadCase{}
	if wide {
		c.Ops = wideOps(t, 300, HistOpt{})
	} else if rapid.IntRange(0, 3).Draw(t, "pat") == 0 {
		c.Ops = genPatGraph(t, 8)
	} else {
		c.Ops = genOps(t, HistOpt{MaxOps: 25, BulkOneIn: 20, BulkMax: 20})
	}
	kinds := []string{"iter", "iter", "iter", "find", "find", "find", "labels", "filter", "pattern", "pattern", "collect", "iso", "copy", "json", "dot", "helpers", "items", "path"}
	if wide {
		kinds = []string{"iter", "iter", "iter", "find", "find", "find", "labels", "filter", "copy", "json", "dot", "helpers", "items", "path"}
	}
	rd := rapid.Custom(func(t *rapid.T) ReadOp {
		o := ReadOp{
			Kind: rapid.SampledFrom(kinds).Draw(t, "kind"),
			A:    rapid.IntRange(0, 400).Draw(t, "a"), B: rapid.IntRange(0, 11).Draw(t, "b"),
		}
		if rapid.IntRange(0, 2).Draw(t, "stop?") == 0 {
			o.Stop = rapid.IntRange(1, 3).Draw(t, "stop")
		}
		switch o.Kind {
		case "iter", "find", "labels", "filter":
			q := genQuery(t)
			o.Query = &q
		case "pattern":
			o.Items = genItems(t, itemOpt{variable: 4, name: clashName})
			o.Syms = genSymList(t, []string{"", "", "", "zero"})
		}
		return o
	})
	lo := min(most, rapid.SampledFrom([]int{1, 4, 8}).Draw(t, "lo"))
	c.Reads = rapid.SliceOfN(rd, lo, most).Draw(t, "reads")
	c.After = genOps(t, HistOpt{MaxOps: 6})
	return c
}
