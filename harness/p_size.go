package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// One dimension of the input is large (the labels or properties of an item,
// a text, a list, a chain, a pattern), and the answers for inputs that differ
// from each other at one place only are known by construction.

// SizeCase is the size and the places.
type SizeCase struct {
	N  int    `json:"n"`
	At []int  `json:"at"`
	M  int    `json:"m"`
	Ix string `json:"ix"`
}

// ladder has sizes on both sides of those an implementation may treat as
// limits.
var ladder = []int{5, 8, 9, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 66, 90, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 300}

func genSize(max int) func(t *rapid.T) SizeCase {
	var sizes []int
	for _, x := range ladder {
		if x <= max {
			sizes = append(sizes, x)
		}
	}
	return func(t *rapid.T) SizeCase {
		c := SizeCase{N: rapid.SampledFrom(sizes).Draw(t, "n"), M: rapid.IntRange(0, 1000).Draw(t, "m"), Ix: rapid.SampledFrom([]string{"", "b", "h"}).Draw(t, "ix")}
		n := c.N
		pos := rapid.Custom(func(t *rapid.T) int {
			switch rapid.IntRange(0, 3).Draw(t, "where") {
			case 0:
				return n - 1
			case 1:
				return 0
			}
			return rapid.IntRange(0, n-1).Draw(t, "pos")
		})
		c.At = rapid.SliceOfN(pos, 1, 4).Draw(t, "at")
		return c
	}
}

// places are the distinct places, in order.
func (c SizeCase) places() []int {
	seen := map[int]bool{}
	var ret []int
	for _, k := range append(append([]int{}, c.At...), c.N/2) {
		if k = mod(k, c.N); !seen[k] {
			seen[k] = true
			ret = append(ret, k)
		}
	}
	sort.Ints(ret)
	return ret
}

func numbered(prefix string, n int) []string {
	ret := make([]string, n)
	for i := range ret {
		ret[i] = fmt.Sprint(prefix, i)
	}
	return ret
}

func without(l []string, k int) []string {
	return append(append([]string{}, l[:k]...), l[k+1:]...)
}

func exactNodes(what string, itr lpg.NodeIterator, want ...*lpg.Node) error {
	exp := map[*lpg.Node]bool{}
	for _, n := range want {
		exp[n] = true
	}
	n := len(exp)
	if max := itr.MaxSize(); max != -1 && max < n {
		return fmt.Errorf("%s: MaxSize is %d for %d nodes", what, max, n)
	}
	for itr.Next() {
		if !exp[itr.Node()] {
			return fmt.Errorf("%s: a node that should not be there, or a second time", what)
		}
		delete(exp, itr.Node())
	}
	if len(exp) > 0 {
		return fmt.Errorf("%s: %d of %d nodes missing", what, len(exp), n)
	}
	return nil
}

func exactEdges(what string, itr lpg.EdgeIterator, want ...*lpg.Edge) error {
	exp := map[*lpg.Edge]bool{}
	for _, n := range want {
		exp[n] = true
	}
	n := len(exp)
	if max := itr.MaxSize(); max != -1 && max < n {
		return fmt.Errorf("%s: MaxSize is %d for %d edges", what, max, n)
	}
	for itr.Next() {
		if !exp[itr.Edge()] {
			return fmt.Errorf("%s: an edge that should not be there, or a second time", what)
		}
		delete(exp, itr.Edge())
	}
	if len(exp) > 0 {
		return fmt.Errorf("%s: %d of %d edges missing", what, len(exp), n)
	}
	return nil
}

// runManyLabels: nodes that carry all of many labels, or all but one, and a
// node with edges of many labels.
func runManyLabels(c SizeCase, ctx *Ctx) error {
	ctx.NonTrivial()
	g := lpg.NewGraph()
	all := numbered("l", c.N)
	places := c.places()
	full := []*lpg.Node{g.NewNode(all, nil), g.NewNode(append([]string{"more"}, all...), nil)}
	lacks := map[int]*lpg.Node{}
	for i, k := range places {
		n := g.NewNode(without(all, k), nil)
		if i%2 == 1 {
			n.SetLabels(lpg.NewStringSet(all...))
			n.SetLabels(lpg.NewStringSet(without(all, k)...))
		}
		lacks[k] = n
	}
	late := g.NewNode(all[:1], nil)
	late.SetLabels(lpg.NewStringSet(all...))
	full = append(full, late)
	round := func() error {
		err := exactNodes("nodes with all labels", g.GetNodesWithAllLabels(lpg.NewStringSet(all...)), full...)
		if err == nil {
			err = exactNodes("FindNodes with all labels", g.FindNodes(lpg.NewStringSet(all...), nil), full...)
		}
		for _, k := range places {
			if err == nil {
				err = exactNodes(fmt.Sprint("nodes with all labels but ", all[k]), g.GetNodesWithAllLabels(lpg.NewStringSet(without(all, k)...)), append([]*lpg.Node{lacks[k]}, full...)...)
			}
			if lacks[k].HasLabel(all[k]) {
				return fmt.Errorf("a node has the label %s, which it was not given", all[k])
			}
		}
		return err
	}
	if err := round(); err != nil {
		return err
	}
	late.SetLabels(lpg.NewStringSet(all[c.N-1:]...))
	full = full[:2]
	if err := round(); err != nil {
		return fmt.Errorf("after a node lost all labels but one: %w", err)
	}
	from, to := full[0], full[1]
	var edges []*lpg.Edge
	for _, l := range all {
		edges = append(edges, g.NewEdge(from, to, l, nil))
	}
	for _, k := range places {
		q := lpg.NewStringSet(without(all, k)...)
		want := append(append([]*lpg.Edge{}, edges[:k]...), edges[k+1:]...)
		for what, itr := range map[string]lpg.EdgeIterator{
			"of the graph":    g.GetEdgesWithAnyLabel(q),
			"out of a node":   from.GetEdgesWithAnyLabel(lpg.OutgoingEdge, q),
			"into a node":     to.GetEdgesWithAnyLabel(lpg.IncomingEdge, q),
			"at a node":       from.GetEdgesWithAnyLabel(lpg.AnyEdge, q),
			"found by labels": g.FindEdges(q, nil),
		} {
			if err := exactEdges(fmt.Sprintf("edges %s with all labels but %s", what, all[k]), itr, want...); err != nil {
				return err
			}
		}
		if err := exactEdges("edges with one label", from.GetEdgesWithLabel(lpg.OutgoingEdge, all[k]), edges[k]); err != nil {
			return err
		}
		if err := exactEdges("edges with two labels", g.GetEdgesWithAnyLabel(lpg.NewStringSet(all[k], "none")), edges[k]); err != nil {
			return err
		}
	}
	return nil
}

// manyProps are the properties of an item, with another value at k.
func manyProps(n, k int) map[string]any {
	ret := map[string]any{}
	for i := 0; i < n; i++ {
		ret[fmt.Sprint("p", i)] = i
	}
	if k >= 0 {
		ret[fmt.Sprint("p", k)] = -1
	}
	return ret
}

type propItem interface {
	GetProperty(string) (interface{}, bool)
	ForEachProperty(func(string, interface{}) bool) bool
	SetProperty(string, interface{})
	RemoveProperty(string)
}

func sameProps(what string, x propItem, want map[string]any) error {
	for k, v := range want {
		if got, ok := x.GetProperty(k); !ok || got != v {
			return fmt.Errorf("%s: property %s is %v, %v; expected %v", what, k, got, ok, v)
		}
	}
	seen := map[string]any{}
	x.ForEachProperty(func(k string, v interface{}) bool {
		if _, twice := seen[k]; twice {
			seen["twice: "+k] = v
		}
		seen[k] = v
		return true
	})
	if len(seen) != len(want) {
		return fmt.Errorf("%s: ForEachProperty shows %d properties, expected %d", what, len(seen), len(want))
	}
	for k, v := range want {
		if seen[k] != v {
			return fmt.Errorf("%s: ForEachProperty shows %s as %v, expected %v", what, k, seen[k], v)
		}
	}
	return nil
}

// runManyProps: items with many properties, equal, other at one place, or
// lacking one.
func runManyProps(find bool) func(c SizeCase, ctx *Ctx) error {
	return func(c SizeCase, ctx *Ctx) error {
		ctx.NonTrivial()
		g := lpg.NewGraph()
		places := c.places()
		index := func(k int) {
			it := lpg.BtreeIndex
			if c.Ix == "h" {
				it = lpg.HashIndex
			}
			if c.Ix != "" {
				g.AddNodePropertyIndex(fmt.Sprint("p", k), it)
				g.AddEdgePropertyIndex(fmt.Sprint("p", k), it)
			}
		}
		if c.M%3 == 0 {
			for k := 0; k < c.N; k++ {
				index(k)
			}
		}
		a := g.NewNode([]string{"a"}, manyProps(c.N, -1))
		e := g.NewEdge(a, a, "e", manyProps(c.N, -1))
		type variant struct {
			k     int
			node  *lpg.Node
			edge  *lpg.Edge
			props map[string]any
		}
		var vs []variant
		for i, k := range places {
			v := variant{k: k, props: manyProps(c.N, k)}
			key := fmt.Sprint("p", k)
			if i%2 == 0 {
				v.node = g.NewNode([]string{"a"}, manyProps(c.N, k))
				v.edge = g.NewEdge(a, v.node, "e", manyProps(c.N, k))
			} else {
				v.node = g.NewNode([]string{"a"}, manyProps(c.N, -1))
				v.edge = g.NewEdge(a, v.node, "e", manyProps(c.N, -1))
				if c.M%2 == 0 {
					v.node.SetProperty(key, -1)
					v.edge.SetProperty(key, -1)
				} else {
					v.node.RemoveProperty(key)
					v.edge.RemoveProperty(key)
					delete(v.props, key)
				}
			}
			vs = append(vs, v)
		}
		if c.M%3 == 1 {
			for _, k := range places {
				index(k)
			}
		}
		if err := sameProps("a node", a, manyProps(c.N, -1)); err != nil {
			return err
		}
		if err := sameProps("an edge", e, manyProps(c.N, -1)); err != nil {
			return err
		}
		for _, v := range vs {
			if err := sameProps(fmt.Sprint("a node changed at ", v.k), v.node, v.props); err != nil {
				return err
			}
			if err := sameProps(fmt.Sprint("an edge changed at ", v.k), v.edge, v.props); err != nil {
				return err
			}
		}
		if !find {
			return nil
		}
		for _, l := range []lpg.StringSet{{}, lpg.NewStringSet("a")} {
			if err := exactNodes("nodes with all values", g.FindNodes(l, manyProps(c.N, -1)), a); err != nil {
				return err
			}
		}
		if err := exactEdges("edges with all values", g.FindEdges(lpg.NewStringSet("e"), manyProps(c.N, -1)), e); err != nil {
			return err
		}
		for _, v := range vs {
			if len(v.props) == c.N {
				if err := exactNodes(fmt.Sprint("nodes with other value at ", v.k), g.FindNodes(lpg.StringSet{}, manyProps(c.N, v.k)), v.node); err != nil {
					return err
				}
				if err := exactEdges(fmt.Sprint("edges with other value at ", v.k), g.FindEdges(lpg.StringSet{}, manyProps(c.N, v.k)), v.edge); err != nil {
					return err
				}
			}
		}
		return nil
	}
}

// runLongValues: values that differ at one place only.
func runLongValues(c SizeCase, ctx *Ctx) error {
	ctx.NonTrivial()
	check := func(what string, a, b any, want int) error {
		x, y := sgn(lpg.ComparePropertyValue(a, b)), sgn(lpg.ComparePropertyValue(b, a))
		if x != want || y != -want {
			return fmt.Errorf("%s: compares as %d, and the other way round as %d; expected %d and %d", what, x, y, want, -want)
		}
		return nil
	}
	n := c.N
	if c.M%5 == 0 {
		n *= 17
	}
	for _, k := range c.places() {
		if n != c.N {
			k *= 17
		}
		base := strings.Repeat("m", n)
		texts := func() []string {
			l := make([]string, n)
			for i := range l {
				l[i] = "m"
			}
			return l
		}
		ints := make([]int, n)
		gen := func(l []int) []any {
			ret := make([]any, len(l))
			for i, x := range l {
				ret[i] = x
			}
			return ret
		}
		sgen := func(l []string) []any {
			ret := make([]any, len(l))
			for i, x := range l {
				ret[i] = x
			}
			return ret
		}
		less := append([]int{}, ints...)
		less[k] = -1
		tl := texts()
		tl[k] = "a"
		if k+1 < n {
			// What comes later does not matter
			less[n-1] = 5
			tl[n-1] = "z"
		}
		text := base[:k] + "a" + base[k+1:]
		nest := func(x any) any {
			for i := 0; i < n && i < 300; i++ {
				x = []any{x}
			}
			return x
		}
		wrap := func(x any) any {
			for i := 0; i < n && i < 300; i++ {
				x = &Wrapped{x}
			}
			return x
		}
		for _, t := range []struct {
			what string
			a, b any
			want int
		}{
			{"text smaller at one place", text, base, -1},
			{"equal texts", base[:k] + "m" + base[k+1:], base, 0},
			{"text and its prefix", base, base[:k], 1},
			{"list of integers smaller at one place", less, ints, -1},
			{"list of integers and its prefix", ints, ints[:k], 1},
			{"equal lists of integers", append([]int{}, ints...), ints, 0},
			{"list of texts smaller at one place", tl, texts(), -1},
			{"list of texts and its prefix", texts(), texts()[:k], 1},
			{"generic lists of integers", gen(less), gen(ints), -1},
			{"generic list and its prefix", gen(ints), gen(ints[:k]), 1},
			{"generic list and typed list", gen(less), ints, -1},
			{"equal generic list and typed list", gen(ints), ints, 0},
			{"generic list and longer typed list", gen(ints[:k]), ints, -1},
			{"generic list of texts and typed list", sgen(tl), texts(), -1},
			{"equal generic list of texts and typed list", sgen(texts()), texts(), 0},
			{"generic list of texts and longer typed list", sgen(texts()[:k]), texts(), -1},
			{"nested values", nest(1), nest(2), -1},
			{"equal nested values", nest("x"), nest("x"), 0},
			{"wrapped values", wrap(1), 2, -1},
			{"equal wrapped values", wrap("x"), wrap("x"), 0},
		} {
			if err := check(fmt.Sprintf("%s (size %d, place %d)", t.what, n, k), t.a, t.b, t.want); err != nil {
				return err
			}
		}
	}
	return nil
}

func sgn(x int) int {
	switch {
	case x < 0:
		return -1
	case x > 0:
		return 1
	}
	return 0
}

// runLargeIso: graphs whose nodes can all be told apart, and ones that differ
// from them at one place.
func runLargeIso(c SizeCase, ctx *Ctx) error {
	ctx.NonTrivial()
	type edge struct {
		from, to int
		label    string
	}
	type graph struct {
		class []int
		edges []edge
	}
	n, bare := c.N, c.M%3 == 0
	mk := func() graph {
		var ret graph
		for i := 0; i < n; i++ {
			ret.class = append(ret.class, i)
			if bare {
				continue
			}
			ret.edges = append(ret.edges, edge{i, (i + 1) % n, "x"})
			if i%3 == 0 {
				ret.edges = append(ret.edges, edge{i, (i * 7) % n, "y"})
			}
		}
		return ret
	}
	build := func(x graph, rot int) *lpg.Graph {
		g := lpg.NewGraph()
		nodes := make([]*lpg.Node, n)
		for j := 0; j < n; j++ {
			i := (j + rot) % n
			nodes[i] = g.NewNode(nil, map[string]any{"class": x.class[i]})
		}
		m := len(x.edges)
		for j := 0; j < m; j++ {
			e := x.edges[(j+rot)%m]
			g.NewEdge(nodes[e.from], nodes[e.to], e.label, nil)
		}
		return g
	}
	class := func(x *lpg.Node) any {
		v, _ := x.GetProperty("class")
		return v
	}
	check := func(what string, a, b graph, want bool) error {
		got, err := lpg.CheckIsomorphism(context.Background(), build(a, 0), build(b, c.M%n), func(x, y *lpg.Node) bool { return class(x) == class(y) },
			func(x, y *lpg.Edge) bool { return x.GetLabel() == y.GetLabel() })
		if err != nil || got != want {
			return fmt.Errorf("%s (%d nodes): %v %v, expected %v", what, n, got, err, want)
		}
		return nil
	}
	base := mk()
	if err := check("the same graph in another order", base, mk(), true); err != nil {
		return err
	}
	for _, k := range c.places() {
		dup := mk()
		dup.class[k] = (k + 1) % n
		if err := check(fmt.Sprintf("class %d twice in the first, %d missing", (k+1)%n, k), dup, base, false); err != nil {
			return err
		}
		if err := check(fmt.Sprintf("class %d twice in the second, %d missing", (k+1)%n, k), base, dup, false); err != nil {
			return err
		}
		if err := check(fmt.Sprintf("class %d twice in both", (k+1)%n), dup, dup, true); err != nil {
			return err
		}
		if bare {
			continue
		}
		at := 0
		for i, e := range base.edges {
			if e.from == k && e.label == "x" {
				at = i
			}
		}
		end := mk()
		end.edges[at].to = (k + 2) % n
		label := mk()
		label.edges[at].label = "z"
		turned := mk()
		turned.edges[at].from, turned.edges[at].to = turned.edges[at].to, turned.edges[at].from
		fewer := mk()
		fewer.edges[at] = fewer.edges[(at+1)%len(fewer.edges)]
		for what, g := range map[string]graph{"another target": end, "another label": label, "an edge turned": turned, "an edge doubled and one missing": fewer} {
			if err := check(fmt.Sprintf("%s at %d", what, k), base, g, false); err != nil {
				return err
			}
			if err := check(fmt.Sprintf("%s at %d of both", what, k), g, g, true); err != nil {
				return err
			}
		}
	}
	return nil
}

// sizeChain is a chain of n edges.
func sizeChain(n int, labels func(i int) []string) (*lpg.Graph, []*lpg.Node, []*lpg.Edge) {
	g := lpg.NewGraph()
	nodes := []*lpg.Node{g.NewNode(labels(0), nil)}
	var edges []*lpg.Edge
	for i := 1; i <= n; i++ {
		nodes = append(nodes, g.NewNode(labels(i), nil))
		edges = append(edges, g.NewEdge(nodes[i-1], nodes[i], fmt.Sprint("x", i%2), map[string]any{"i": i - 1}))
	}
	return g, nodes, edges
}

func sameEdgeRun(what string, p *lpg.Path, nodes []*lpg.Node, edges []*lpg.Edge, forward bool) error {
	if p.NumEdges() != len(edges) || p.NumNodes() != len(nodes) {
		return fmt.Errorf("%s: a path of %d nodes and %d edges, expected %d edges", what, p.NumNodes(), p.NumEdges(), len(edges))
	}
	n := len(edges)
	for i := range edges {
		j, k := i, i
		if !forward {
			j, k = n-1-i, n-i
		}
		if p.GetEdge(i) != edges[j] || p.GetNode(i) != nodes[k] {
			return fmt.Errorf("%s: another edge or node at %d of %d", what, i, n)
		}
	}
	return nil
}

// runLongTrails: a chain of many edges, and one closed to a ring.
func runLongTrails(c SizeCase, ctx *Ctx) error {
	ctx.NonTrivial()
	n := c.N
	g, nodes, edges := sizeChain(n, func(i int) []string { return []string{fmt.Sprint("n", i)} })
	any := func(*lpg.Edge) bool { return true }
	lo, hi := 1, -1
	places := c.places()
	if c.M%3 > 0 {
		lo = places[0] + 1
	}
	if c.M%2 > 0 {
		hi = places[len(places)-1] + 1
	}
	inside := func(l int) bool { return l >= lo && (hi == -1 || l <= hi) }
	collect := func(what string, from int, dir lpg.EdgeDir) error {
		seen := map[string]int{}
		var failed error
		lpg.CollectAllPaths(g, nodes[from], nodes[from].GetEdges(dir), any, dir, lo, hi, func(p *lpg.Path) bool {
			l := p.NumEdges()
			forward := p.Last() == nodes[min(from+l, n)] && p.GetEdge(0).GetFrom() == nodes[from]
			if forward && dir != lpg.IncomingEdge {
				failed = sameEdgeRun(what, p, nodes[from:min(from+l, n)+1], edges[from:min(from+l, n)], true)
			} else {
				first := from - l
				if first < 0 {
					first = 0
				}
				failed = sameEdgeRun(what, p, nodes[first:from+1], edges[first:from], false)
			}
			seen[fmt.Sprint(forward, l)]++
			return failed == nil
		})
		if failed != nil {
			return failed
		}
		want := 0
		for l := 1; l <= n; l++ {
			if !inside(l) {
				continue
			}
			if dir != lpg.IncomingEdge && from+l <= n {
				want++
				if seen[fmt.Sprint(true, l)] != 1 {
					return fmt.Errorf("%s: %d paths of length %d forward, expected one", what, seen[fmt.Sprint(true, l)], l)
				}
			}
			if dir != lpg.OutgoingEdge && from-l >= 0 {
				want++
				if seen[fmt.Sprint(false, l)] != 1 {
					return fmt.Errorf("%s: %d paths of length %d backward, expected one", what, seen[fmt.Sprint(false, l)], l)
				}
			}
		}
		got := 0
		for _, x := range seen {
			got += x
		}
		if got != want {
			return fmt.Errorf("%s: %d paths, expected %d", what, got, want)
		}
		return nil
	}
	bounds := fmt.Sprintf(" of a chain of %d edges, bounds %d to %d", n, lo, hi)
	if err := collect("all paths from the start"+bounds, 0, lpg.OutgoingEdge); err != nil {
		return err
	}
	if err := collect("all paths into the end"+bounds, n, lpg.IncomingEdge); err != nil {
		return err
	}
	if err := collect("all paths through the middle"+bounds, n/2, lpg.AnyEdge); err != nil {
		return err
	}
	// By patterns, evaluated from either end
	label := func(i int) lpg.StringSet { return lpg.NewStringSet(fmt.Sprint("n", i)) }
	find := func(what string, p lpg.Pattern, want int) (lpg.DefaultMatchAccumulator, error) {
		acc, err := p.FindPaths(g, nil)
		if err == nil && (len(acc.Paths) != want || len(acc.Symbols) != want) {
			err = fmt.Errorf("%d matches, expected %d", len(acc.Paths), want)
		}
		if err != nil {
			err = fmt.Errorf("%s%s: %w", what, bounds, err)
		}
		return acc, err
	}
	count := 0
	for l := 1; l <= n; l++ {
		if inside(l) {
			count++
		}
	}
	item := lpg.PatternItem{Min: lo, Max: hi, Name: "e"}
	acc, err := find("from the start", lpg.Pattern{{Labels: label(0)}, item, {}}, count)
	if err != nil {
		return err
	}
	for i, p := range acc.Paths {
		l := p.NumEdges()
		if err := sameEdgeRun("from the start", p, nodes[:l+1], edges[:l], true); err != nil {
			return err
		}
		if e := acc.Symbols[i]["e"].(*lpg.Path); e.NumEdges() != l || e.GetEdge(l-1) != edges[l-1] {
			return fmt.Errorf("from the start%s: the symbol has %d edges, the match %d", bounds, e.NumEdges(), l)
		}
	}
	acc, err = find("to the end", lpg.Pattern{{}, item, {Labels: label(n)}}, count)
	if err != nil {
		return err
	}
	for _, p := range acc.Paths {
		l := p.NumEdges()
		if err := sameEdgeRun("to the end", p, nodes[n-l:], edges[n-l:], true); err != nil {
			return err
		}
	}
	for _, k := range places {
		want := 0
		if inside(k + 1) {
			want = 1
		}
		if acc, err = find(fmt.Sprintf("from the start to %d", k+1), lpg.Pattern{{Labels: label(0)}, item, {Labels: label(k + 1)}}, want); err != nil {
			return err
		}
		if want == 1 {
			if err := sameEdgeRun("from the start to a place", acc.Paths[0], nodes[:k+2], edges[:k+1], true); err != nil {
				return err
			}
		}
	}
	// Closed to a ring, each length up to that of the ring is there once
	edges = append(edges, g.NewEdge(nodes[n], nodes[0], "x", nil))
	ring := append(append([]*lpg.Node{}, nodes...), nodes[0])
	seen := map[int]int{}
	var failed error
	lpg.CollectAllPaths(g, nodes[0], nodes[0].GetEdges(lpg.OutgoingEdge), any, lpg.OutgoingEdge, 1, -1, func(p *lpg.Path) bool {
		l := p.NumEdges()
		seen[l]++
		if l > n+1 {
			failed = fmt.Errorf("a path of %d edges in a ring of %d", l, n+1)
		} else {
			failed = sameEdgeRun("in a ring", p, ring[:l+1], edges[:l], true)
		}
		return failed == nil
	})
	if failed != nil {
		return failed
	}
	for l := 1; l <= n+1; l++ {
		if seen[l] != 1 {
			return fmt.Errorf("a ring of %d edges: %d paths of length %d, expected one", n+1, seen[l], l)
		}
	}
	return nil
}

// runLongPattern: a pattern of as many edges as a chain, with all items named,
// one item given a rare label, and one that does not match.
func runLongPattern(c SizeCase, ctx *Ctx) error {
	ctx.NonTrivial()
	n := c.N
	places := c.places()
	g, nodes, edges := sizeChain(n, func(i int) []string { return []string{fmt.Sprint("c", i%3), fmt.Sprint("n", i)} })
	back := map[int]bool{}
	if c.M%2 == 1 {
		// Some edges point the other way
		for _, k := range places {
			e := edges[k]
			edges[k] = g.NewEdge(e.GetTo(), e.GetFrom(), e.GetLabel(), map[string]any{"i": k})
			e.Remove()
			back[k] = true
		}
	}
	if c.Ix != "" {
		g.AddEdgePropertyIndex("i", map[string]lpg.IndexType{"b": lpg.BtreeIndex, "h": lpg.HashIndex}[c.Ix])
	}
	pattern := func(at int, edgeStart bool) lpg.Pattern {
		p := lpg.Pattern{}
		for i := 0; i <= n; i++ {
			node := lpg.PatternItem{Name: fmt.Sprint("v", i), Labels: lpg.NewStringSet(fmt.Sprint("c", i%3))}
			if i == at && !edgeStart {
				node.Labels = lpg.NewStringSet(fmt.Sprint("n", i))
			}
			p = append(p, node)
			if i < n {
				e := lpg.PatternItem{Min: 1, Max: 1, Name: fmt.Sprint("w", i), ToLeft: back[i]}
				if i == at && edgeStart {
					e.Properties = map[string]interface{}{"i": i}
				}
				p = append(p, e)
			}
		}
		return p
	}
	for _, k := range places {
		for _, edgeStart := range []bool{false, true} {
			p := pattern(k, edgeStart)
			what := fmt.Sprintf("a pattern of %d items, item %d restricted", len(p), k)
			acc, err := p.FindPaths(g, nil)
			if err != nil {
				return err
			}
			if len(acc.Paths) != 1 || len(acc.Symbols) != 1 {
				return fmt.Errorf("%s: %d matches, expected one", what, len(acc.Paths))
			}
			if err := sameEdgeRun(what, acc.Paths[0], nodes, edges, true); err != nil {
				return err
			}
			if len(acc.Symbols[0]) != 2*n+1 {
				return fmt.Errorf("%s: %d symbols, expected %d", what, len(acc.Symbols[0]), 2*n+1)
			}
			for i := range nodes {
				if acc.Symbols[0][fmt.Sprint("v", i)] != any(nodes[i]) {
					return fmt.Errorf("%s: symbol v%d is not node %d", what, i, i)
				}
				if i == n {
					break
				}
				e, ok := acc.Symbols[0][fmt.Sprint("w", i)].(*lpg.Path)
				if !ok || e.NumEdges() != 1 || e.GetEdge(0) != edges[i] {
					return fmt.Errorf("%s: symbol w%d is not edge %d", what, i, i)
				}
			}
			var turned lpg.Pattern
			for i := len(p) - 1; i >= 0; i-- {
				item := p[i]
				if i%2 == 1 {
					item.ToLeft = !item.ToLeft
				}
				turned = append(turned, item)
			}
			acc, err = turned.FindPaths(g, nil)
			if err != nil || len(acc.Paths) != 1 {
				return fmt.Errorf("%s, turned round: %d matches, error %v; expected one", what, len(acc.Paths), err)
			}
			if err := sameEdgeRun(what+", turned round", acc.Paths[0], nodes, edges, false); err != nil {
				return err
			}
			if names := p.GetSymbolNames(); names.Len() != 2*n+1 {
				return fmt.Errorf("%s: %d symbol names, expected %d", what, names.Len(), 2*n+1)
			}
		}
		// Nothing matches if one item does not
		p := pattern(n, false)
		p[2*k].Labels = lpg.NewStringSet("n", fmt.Sprint("n", k+1))
		acc, err := p.FindPaths(g, nil)
		if err != nil || len(acc.Paths) != 0 {
			return fmt.Errorf("a pattern of %d items of which item %d does not match: %d matches, error %v", len(p), 2*k, len(acc.Paths), err)
		}
		p = pattern(n, false)
		p[2*k+1].ToLeft = !p[2*k+1].ToLeft
		acc, err = p.FindPaths(g, nil)
		if err != nil || len(acc.Paths) != 0 {
			return fmt.Errorf("a pattern of %d items of which edge %d is turned: %d matches, error %v", len(p), k, len(acc.Paths), err)
		}
	}
	return nil
}

// runManyNames: a name used twice among many others, in a pattern around a
// ring.
func runManyNames(c SizeCase, ctx *Ctx) error {
	ctx.NonTrivial()
	n := c.N
	g, nodes, _ := sizeChain(n-1, func(i int) []string { return []string{fmt.Sprint("n", i)} })
	g.NewEdge(nodes[n-1], nodes[0], "x", nil)
	pattern := func(k, edges int) lpg.Pattern {
		p := lpg.Pattern{}
		for i := 0; i < edges; i++ {
			p = append(p, lpg.PatternItem{Name: fmt.Sprint("v", i)}, lpg.PatternItem{Min: 1, Max: 1})
		}
		p = append(p, lpg.PatternItem{Name: fmt.Sprint("v", edges)})
		p[2*edges].Name = p[2*k].Name
		return p
	}
	for _, k := range c.places() {
		// The last node is to be that at k
		acc, err := pattern(k, k+n).FindPaths(g, nil)
		if err != nil || len(acc.Paths) != n {
			return fmt.Errorf("a ring of %d edges: %d matches of a name at %d and %d, error %v; expected %d", n, len(acc.Paths), k, k+n, err, n)
		}
		if len(acc.Symbols[0]) != k+n {
			return fmt.Errorf("a ring of %d edges: %d symbols, expected %d", n, len(acc.Symbols[0]), k+n)
		}
		acc, err = pattern(k, k+n+1).FindPaths(g, nil)
		if err != nil || len(acc.Paths) != 0 {
			return fmt.Errorf("a ring of %d edges: %d matches of a name at %d and %d, error %v; expected none", n, len(acc.Paths), k, k+n+1, err)
		}
		// Many given symbols, each of which has one of the nodes
		p := pattern(0, n-1)
		p[2*n-2].Name = fmt.Sprint("v", n-1)
		syms := map[string]*lpg.PatternSymbol{}
		for i := 0; i < n; i++ {
			s := &lpg.PatternSymbol{}
			s.AddNode(nodes[i])
			s.AddNode(nodes[(i+1)%n])
			syms[fmt.Sprint("v", i)] = s
		}
		acc, err = p.FindPaths(g, syms)
		if err != nil || len(acc.Paths) != 2 {
			return fmt.Errorf("a ring of %d edges with all %d nodes given in two ways: %d matches, error %v; expected 2", n, n, len(acc.Paths), err)
		}
		one := &lpg.PatternSymbol{}
		one.AddNode(nodes[k])
		syms[fmt.Sprint("v", k)] = one
		acc, err = p.FindPaths(g, syms)
		if err != nil || len(acc.Paths) != 1 || acc.Paths[0].First() != nodes[0] {
			return fmt.Errorf("a ring of %d edges with all %d nodes given, at %d in one way: %d matches, error %v; expected 1", n, n, k, len(acc.Paths), err)
		}
		two := &lpg.PatternSymbol{}
		two.AddNode(nodes[(k+2)%n])
		syms[fmt.Sprint("v", k)] = two
		if acc, err = p.FindPaths(g, syms); err != nil || len(acc.Paths) != 0 {
			return fmt.Errorf("a ring of %d edges with all %d nodes given, at %d another: %d matches, error %v; expected none", n, n, k, len(acc.Paths), err)
		}
	}
	return nil
}

// runLongCursor walks to the end of a chain and back.
func runLongCursor(c SizeCase, ctx *Ctx) error {
	ctx.NonTrivial()
	n := c.N
	g, nodes, edges := sizeChain(n, func(i int) []string { return nil })
	cur := (&lpg.Cursor{}).Set(nodes[0]).StartPath()
	at := 0
	check := func() error {
		p := cur.GetPath()
		what := fmt.Sprintf("at node %d of a chain of %d edges", at, n)
		if p.NumEdges() != at || p.Last() != nodes[at] || p.First() != nodes[0] {
			return fmt.Errorf("%s: the path has %d edges", what, p.NumEdges())
		}
		var next []*lpg.Edge
		if at < n {
			next = edges[at : at+1]
		}
		return exactEdges(what, cur.Forward(), next...)
	}
	walk := func(to int) error {
		for at != to {
			if at < to {
				cur.PushToPath(edges[at])
				at++
			} else {
				cur.PopFromPath()
				at--
			}
			if err := check(); err != nil {
				return err
			}
		}
		return sameEdgeRun("the recorded path", cur.GetPath(), nodes[:at+1], edges[:at], true)
	}
	for _, k := range append([]int{n}, c.places()...) {
		if err := walk(k); err != nil {
			return err
		}
	}
	if err := walk(0); err != nil {
		return err
	}
	if g.NumEdges() != n || g.NumNodes() != n+1 {
		return fmt.Errorf("the graph has %d edges after the walk, expected %d", g.NumEdges(), n)
	}
	return nil
}

// runManyStrings: sets that differ in one of many strings.
func runManyStrings(c SizeCase, ctx *Ctx) error {
	ctx.NonTrivial()
	all := numbered("s", c.N)
	full := lpg.NewStringSet(all...)
	for _, k := range c.places() {
		less := lpg.NewStringSet(without(all, k)...)
		other := lpg.NewStringSet(append(without(all, k), "other")...)
		bad := func(cond bool, what string) error {
			if cond {
				return fmt.Errorf("sets of %d strings that differ in string %d: %s", c.N, k, what)
			}
			return nil
		}
		gone := full.Clone()
		gone.Remove(all[k])
		back := gone.Clone()
		back.AddSet(lpg.NewStringSet(all[k]))
		most := full.Clone()
		most.Remove(without(all, k)...)
		var decoded lpg.StringSet
		data, err := json.Marshal(less)
		if err == nil {
			err = json.Unmarshal(data, &decoded)
		}
		if err != nil {
			return err
		}
		text := strings.Split(less.String(), ", ")
		sort.Strings(text)
		sorted := without(all, k)
		sort.Strings(sorted)
		for _, e := range []error{
			bad(!full.IsEqual(lpg.NewStringSet(all...)), "not equal to itself"),
			bad(full.IsEqual(less) || less.IsEqual(full), "equal to that with a string less"),
			bad(full.IsEqual(other) || other.IsEqual(full), "equal to that with another string"),
			bad(less.HasAllSet(full) || !full.HasAllSet(less) || other.HasAllSet(full), "HasAllSet"),
			bad(less.HasAll(all...) || !full.HasAll(all...), "HasAll"),
			bad(less.Has(all[k]) || !full.Has(all[k]), "Has"),
			bad(most.HasAnySet(less) || !most.HasAnySet(full) || less.HasAnySet(most), "HasAnySet"),
			bad(most.HasAny(sorted...) || !most.HasAny(all...), "HasAny"),
			bad(!gone.IsEqual(less) || gone.Len() != c.N-1, "Remove"),
			bad(!back.IsEqual(full) || back.Len() != c.N, "AddSet"),
			bad(most.Len() != 1 || !most.Has(all[k]), "Remove of all but one"),
			bad(full.Len() != c.N || less.Len() != c.N-1 || other.Len() != c.N, "Len"),
			bad(!decoded.IsEqual(less), "JSON"),
			bad(!eqStrings(less.SortedSlice(), sorted), "SortedSlice"),
			bad(less.Len() > 0 && !eqStrings(text, sorted), "String"),
		} {
			if e != nil {
				return e
			}
		}
	}
	return nil
}

// runLargeItems: an item with many labels, properties and edges, and a deep
// value, is what it was after encoding and decoding, and in a copy.
func runLargeItems(copied bool) func(c SizeCase, ctx *Ctx) error {
	return func(c SizeCase, ctx *Ctx) error {
		ctx.NonTrivial()
		n := c.N
		k := c.places()[0]
		props := map[string]any{}
		for i := 0; i < n; i++ {
			props[fmt.Sprint("p", i)] = fmt.Sprint("v", i)
		}
		deep := any("bottom")
		for i := 0; i < n; i++ {
			if i == k {
				deep = map[string]any{"k": deep}
			} else {
				deep = []any{deep}
			}
		}
		list := make([]any, n)
		for i := range list {
			list[i] = float64(i)
		}
		props["deep"], props["list"] = deep, list
		want, err := json.Marshal(props)
		if err != nil {
			return err
		}
		g := lpg.NewGraph()
		clone := func() map[string]any {
			ret := map[string]any{}
			for k, v := range props {
				ret[k] = v
			}
			return ret
		}
		a := g.NewNode(numbered("l", n), clone())
		b := g.NewNode([]string{"b"}, nil)
		g.NewEdge(a, b, "props", clone())
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				g.NewEdge(a, b, fmt.Sprint("e", i), map[string]any{"i": float64(i)})
			} else {
				g.NewEdge(b, a, fmt.Sprint("e", i), map[string]any{"i": float64(i)})
			}
		}
		check := func(what string, h *lpg.Graph) error {
			what = fmt.Sprintf("%s, size %d", what, n)
			if h.NumNodes() != 2 || h.NumEdges() != n+1 {
				return fmt.Errorf("%s: %d nodes and %d edges, expected 2 and %d", what, h.NumNodes(), h.NumEdges(), n+1)
			}
			var a2, b2 *lpg.Node
			for itr := h.GetNodes(); itr.Next(); {
				if itr.Node().HasLabel("b") {
					b2 = itr.Node()
				} else {
					a2 = itr.Node()
				}
			}
			if a2 == nil || b2 == nil || !a2.GetLabels().IsEqual(lpg.NewStringSet(numbered("l", n)...)) || a2.GetLabels().Len() != n {
				return fmt.Errorf("%s: the labels differ", what)
			}
			same := func(x propItem) error {
				got := map[string]any{}
				x.ForEachProperty(func(k string, v interface{}) bool {
					got[k] = v
					return true
				})
				data, err := json.Marshal(got)
				if err != nil || !bytes.Equal(data, want) {
					return fmt.Errorf("%s: the %d properties differ (%v)", what, len(got), err)
				}
				return nil
			}
			if err := same(a2); err != nil {
				return err
			}
			seen := map[string]bool{}
			for itr := h.GetEdges(); itr.Next(); {
				e := itr.Edge()
				if seen[e.GetLabel()] {
					return fmt.Errorf("%s: edge %s twice", what, e.GetLabel())
				}
				seen[e.GetLabel()] = true
				if e.GetLabel() == "props" {
					if err := same(e); err != nil {
						return err
					}
					continue
				}
				v, _ := e.GetProperty("i")
				f, ok := v.(float64)
				from, to := a2, b2
				if int(f)%2 == 1 {
					from, to = b2, a2
				}
				if !ok || e.GetLabel() != fmt.Sprint("e", f) || e.GetFrom() != from || e.GetTo() != to {
					return fmt.Errorf("%s: edge %s has the value %v or other ends", what, e.GetLabel(), v)
				}
			}
			return nil
		}
		if copied {
			keep := func(_ string, v interface{}) interface{} { return v }
			h := lpg.NewGraph()
			lpg.CopyGraph(g, h, keep)
			if err := check("CopyGraph", h); err != nil {
				return err
			}
			h = lpg.NewGraph()
			lpg.CopySubgraph(b, h, keep, map[*lpg.Node]*lpg.Node{})
			return check("CopySubgraph", h)
		}
		for _, separate := range []bool{false, true} {
			var out bytes.Buffer
			if err := (lpg.JSON{MarshalEdgesSeparately: separate}).Encode(g, &out); err != nil {
				return err
			}
			h := lpg.NewGraph()
			if err := (lpg.JSON{}).Decode(h, json.NewDecoder(&out)); err != nil {
				return err
			}
			if err := check(fmt.Sprint("JSON, separate edges: ", separate), h); err != nil {
				return err
			}
		}
		return nil
	}
}

// runManyParts: an iterator made of many, some of which have nothing.
func runManyParts(c SizeCase, ctx *Ctx) error {
	ctx.NonTrivial()
	g, nodes, _ := sizeChain(c.N, func(i int) []string { return []string{fmt.Sprint("n", i%3)} })
	var parts []lpg.Iterator
	var want []*lpg.Node
	empty := map[int]bool{}
	for _, k := range c.places() {
		empty[k] = true
	}
	for i, n := range nodes {
		set := lpg.NewNodeSet()
		full := !empty[i]
		if c.M%2 == 1 && i < c.N {
			full = !full
		}
		if full {
			set.Add(n)
			want = append(want, n)
		}
		parts = append(parts, set.Iterator())
	}
	itr := lpg.MultiIterator(parts...)
	if max := itr.MaxSize(); max != -1 && max < len(want) {
		return fmt.Errorf("MaxSize is %d for %d items", max, len(want))
	}
	for i, n := range want {
		if !itr.Next() || itr.Value() != any(n) {
			return fmt.Errorf("%d iterators joined: item %d is not there", len(parts), i)
		}
	}
	for i := 0; i < 3; i++ {
		if itr.Next() {
			return fmt.Errorf("%d iterators joined: more than %d items", len(parts), len(want))
		}
	}
	return exactNodes("all nodes", g.GetNodes(), nodes...)
}

// runLongPath: paths that differ in one of many edges.
func runLongPath(c SizeCase, ctx *Ctx) error {
	ctx.NonTrivial()
	n := c.N
	_, nodes, edges := sizeChain(n, func(i int) []string { return nil })
	g := nodes[0].GetGraph()
	elements := func(k int, with lpg.PathElement) []lpg.PathElement {
		ret := lpg.NewPathElementsFromEdges(edges)
		if k >= 0 {
			ret[k] = with
		}
		return ret
	}
	full := lpg.NewPathFromElements(elements(-1, lpg.PathElement{})...)
	for _, k := range c.places() {
		what := fmt.Sprintf("paths of %d edges, place %d", n, k)
		// Another edge between the same nodes, in either direction
		along := lpg.NewPathFromElements(elements(k, lpg.PathElement{Edge: g.NewEdge(nodes[k], nodes[k+1], "x", nil)})...)
		back := lpg.NewPathFromElements(elements(k, lpg.PathElement{Edge: g.NewEdge(nodes[k+1], nodes[k], "x", nil), Reverse: true})...)
		for _, p := range []*lpg.Path{along, back} {
			if p.HasPrefixPath(full) || full.HasPrefixPath(p) {
				return fmt.Errorf("%s: one that differs there is a prefix", what)
			}
			if k > 0 && (!p.HasPrefixPath(full.Slice(0, k+1)) || !full.HasPrefixPath(p.Slice(0, k+1))) {
				return fmt.Errorf("%s: what they share is not a prefix", what)
			}
			if p.HasPrefixPath(full.Slice(0, k+2)) || full.HasPrefixPath(p.Slice(0, k+2)) {
				return fmt.Errorf("%s: one edge more than they share is a prefix", what)
			}
			if p.NumEdges() != n || p.GetEdge(k) == edges[k] || p.GetNode(k) != nodes[k] || p.GetNode(k+1) != nodes[k+1] || p.Last() != nodes[n] {
				return fmt.Errorf("%s: other nodes or edges", what)
			}
		}
		if err := sameEdgeRun(what+", the first part", full.Slice(0, k+2), nodes[:k+2], edges[:k+1], true); err != nil {
			return err
		}
		if k > 0 {
			joined := full.Slice(0, k+1).AppendPath(full.Slice(k, -1))
			if err := sameEdgeRun(what+", joined", joined, nodes, edges, true); err != nil {
				return err
			}
			short := full.Clone()
			for short.NumEdges() > k {
				short.RemoveLast()
			}
			if err := sameEdgeRun(what+", shortened", short, nodes[:k+1], edges[:k], true); err != nil {
				return err
			}
			short.Append(lpg.NewPathElementsFromEdges(edges[k:])...)
			if err := sameEdgeRun(what+", extended again", short, nodes, edges, true); err != nil {
				return err
			}
		}
		if k+2 <= n-1 && !didPanic(func() { full.Slice(0, k+2).Append(lpg.NewPathElementsFromEdges(edges[k+2:])...) }) {
			return fmt.Errorf("%s: edges that do not connect are appended", what)
		}
	}
	return sameEdgeRun("the path at the end", full, nodes, edges, true)
}

// runLongLabel renders edges with long labels that differ at one place.
func runLongLabel(c SizeCase, ctx *Ctx) error {
	n := c.N
	if c.M%4 == 0 {
		n *= 31
	}
	d := DotCase{Name: dotNames[0], Ops: []Op{{Op: "n"}, {Op: "n"}}}
	text := strings.Repeat("l", n)
	for i, k := range c.places() {
		for _, special := range []string{"a", "\"", "\\"} {
			d.Ops = append(d.Ops, Op{Op: "e", A: i, B: 1, Label: text[:k] + special + text[k+1:]})
		}
	}
	for i := 0; i < c.N; i++ {
		d.Ops = append(d.Ops, Op{Op: "e", A: i, B: 1, Label: fmt.Sprint("l", i)})
	}
	return runDotDefault(d, ctx)
}

// runManyHooks: the hooks and the interner see each of many properties.
func runManyHooks(c SizeCase, ctx *Ctx) error {
	ctx.NonTrivial()
	n := c.N
	skip := map[string]bool{}
	for _, k := range c.places() {
		skip[fmt.Sprint("p", k)] = true
	}
	g := lpg.NewGraph()
	a := g.NewNode(nil, manyProps(n, -1))
	g.NewEdge(a, a, "e", manyProps(n, -1))
	calls := map[string]int{}
	j := lpg.JSON{PropertyMarshaler: func(key string, value interface{}) (string, json.RawMessage, error) {
		calls[key]++
		if skip[key] && c.M%2 == 0 {
			return "", nil, nil
		}
		data, err := json.Marshal(value)
		return "h" + key, data, err
	}}
	var out bytes.Buffer
	if err := j.Encode(g, &out); err != nil {
		return err
	}
	for i := 0; i < n; i++ {
		if x := calls[fmt.Sprint("p", i)]; x != 2 {
			return fmt.Errorf("%d properties: the marshaler was called %d times for p%d, expected 2", n, x, i)
		}
	}
	got, in := map[string]int{}, lpg.MapInterner{}
	h := lpg.NewGraph()
	j = lpg.JSON{Interner: in, PropertyUnmarshaler: func(key string, value json.RawMessage) (string, interface{}, error) {
		key = strings.TrimPrefix(key, "h")
		got[key]++
		if skip[key] && c.M%2 == 1 {
			return "", nil, nil
		}
		return key, string(value), nil
	}}
	if err := j.Decode(h, json.NewDecoder(&out)); err != nil {
		return err
	}
	want := map[string]any{}
	for i := 0; i < n; i++ {
		key, calls := fmt.Sprint("p", i), 2
		if skip[key] && c.M%2 == 0 {
			calls = 0
		}
		if got[key] != calls {
			return fmt.Errorf("%d properties: the unmarshaler was called %d times for %s, expected %d", n, got[key], key, calls)
		}
		if skip[key] {
			continue
		}
		want[key] = fmt.Sprint(i)
		if in[key] != key {
			return fmt.Errorf("%d properties: the interner has no %s", n, key)
		}
	}
	if h.NumNodes() != 1 || h.NumEdges() != 1 {
		return fmt.Errorf("%d nodes and %d edges, expected one", h.NumNodes(), h.NumEdges())
	}
	if err := sameProps("the node", lpg.NodeSlice(h.GetNodes())[0], want); err != nil {
		return err
	}
	return sameProps("the edge", lpg.EdgeSlice(h.GetEdges())[0], want)
}

func init() {
	size := func(prop, name, what string, quick, max int, run func(SizeCase, *Ctx) error) {
		register(prop, name, what+"; non-trivial: all", quick, genSize(max), run)
	}
	size("C02", "many-labels", "nodes with up to 300 labels, or all of them but one; edges of as many labels", 190, 300, runManyLabels)
	size("C03", "many-props", "items with up to 300 properties, which differ at one place", 190, 300, runManyProps(false))
	size("C05", "many-props", "searches for up to 300 values among items that differ at one place", 190, 300, runManyProps(true))
	size("C06", "many-parts", "up to 300 iterators joined", 190, 300, runManyParts)
	size("C07", "long-values", "texts and lists of up to 300 (5100) elements that differ at one place, values nested or wrapped up to 300 times", 190, 300, runLongValues)
	size("C08", "large-items", "items with up to 300 labels, properties and edges and values nested as deep", 190, 300, runLargeItems(false))
	size("C13", "large-items", "copies of items with up to 300 labels, properties and edges", 190, 300, runLargeItems(true))
	size("C15", "large", "graphs of up to 300 nodes that can be told apart, differing at one place", 40, 300, runLargeIso)
	size("C16", "many-items", "patterns of up to 401 items on a chain as long, all named", 60, 200, runLongPattern)
	size("C19", "many-items", "patterns of up to 401 items on a chain as long, evaluated from every place, and turned round", 40, 200, runLongPattern)
	size("C20", "long", "paths of up to 300 edges that differ in one", 190, 300, runLongPath)
	size("C24", "long-labels", "labels of up to 9300 characters that differ at one place, up to 300 parallel edges", 100, 300, runLongLabel)
	size("C11", "many-props", "items with up to 300 properties, some of which a hook skips", 100, 300, runManyHooks)
	size("C17", "deep", "trails of up to 300 edges on chains and rings, by CollectAllPaths and by patterns, from both ends", 190, 300, runLongTrails)
	size("C18", "many-names", "up to 400 names of which one is used twice, around a ring; up to 200 given symbols", 40, 101, runManyNames)
	size("C21", "long-walk", "walks of up to 300 edges and back", 190, 300, runLongCursor)
	size("C22", "many-strings", "sets of up to 300 strings which differ in one", 190, 300, runManyStrings)
}
