package main

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// Graphs of more than 65536 items (and more identifiers than that), with a
// model that is a function of the number of an item.

// HugeCase is the recipe of a graph.
type HugeCase struct {
	N      int    `json:"n"`
	Ix     string `json:"ix"`
	Late   bool   `json:"late"`
	Remove int    `json:"remove"` // every which node is removed, 0: none
	Cut    int    `json:"cut"`    // every which edge is removed, 0: none
	Change int    `json:"change"` // every which item gets other labels and values, 0: none
	Step   int    `json:"step"`   // edge i goes from node i to node i*step+1
	Refill bool   `json:"refill"` // removed nodes are replaced by new ones
}

type hugeNode struct {
	h      *lpg.Node
	labels []string
	id     int
	in     int
	out    int
}

type hugeEdge struct {
	h        *lpg.Edge
	label    string
	id       int
	from, to *hugeNode
}

type huge struct {
	g     *lpg.Graph
	nodes []*hugeNode
	edges []*hugeEdge
}

func buildHuge(c HugeCase) *huge {
	h := &huge{g: lpg.NewGraph()}
	index := func() {
		it := lpg.BtreeIndex
		if c.Ix == "h" {
			it = lpg.HashIndex
		}
		if c.Ix != "" {
			h.g.AddNodePropertyIndex("id", it)
			h.g.AddEdgePropertyIndex("id", it)
		}
	}
	if !c.Late {
		index()
	}
	labels := func(i int) []string {
		l := []string{"A", "B", "C"}[i%3 : i%3+1]
		if i%1000 == 0 {
			l = append([]string{"K"}, l...)
		}
		return l
	}
	node := func(i int) *hugeNode {
		l := labels(i)
		return &hugeNode{h: h.g.NewNode(l, map[string]any{"id": i}), labels: l, id: i}
	}
	all := make([]*hugeNode, 0, c.N)
	for i := 0; i < c.N; i++ {
		all = append(all, node(i))
	}
	edges := make([]*hugeEdge, 0, c.N)
	for i := 0; i < c.N; i++ {
		e := &hugeEdge{label: fmt.Sprint("e", i%5), id: i, from: all[i], to: all[(i*c.Step+1)%c.N]}
		e.h = h.g.NewEdge(e.from.h, e.to.h, e.label, map[string]any{"id": i})
		edges = append(edges, e)
	}
	dead := map[*hugeNode]bool{}
	for i, n := range all {
		if c.Remove > 0 && i%c.Remove == 0 {
			n.h.DetachAndRemove()
			dead[n] = true
			if c.Refill {
				h.nodes = append(h.nodes, node(c.N+i))
			}
			continue
		}
		h.nodes = append(h.nodes, n)
	}
	for i, e := range edges {
		if dead[e.from] || dead[e.to] {
			continue
		}
		if c.Cut > 0 && i%c.Cut == 1 {
			e.h.Remove()
			continue
		}
		h.edges = append(h.edges, e)
	}
	if c.Late {
		index()
	}
	if c.Change > 0 {
		for i, n := range h.nodes {
			if i%c.Change == 2 {
				n.labels = []string{"D", "A"}
				n.h.SetLabels(lpg.NewStringSet(n.labels...))
				n.id += 3 * c.N
				n.h.SetProperty("id", n.id)
			}
		}
		for i, e := range h.edges {
			if i%c.Change == 2 {
				e.label = "changed"
				e.h.SetLabel(e.label)
				e.id += 3 * c.N
				e.h.SetProperty("id", e.id)
			}
		}
	}
	for _, e := range h.edges {
		e.from.out++
		e.to.in++
	}
	return h
}

// sameNodes compares what an iterator yields with the nodes chosen.
func (h *huge) sameNodes(what string, itr lpg.NodeIterator, want func(*hugeNode) bool) error {
	exp := map[*lpg.Node]bool{}
	for _, n := range h.nodes {
		if want(n) {
			exp[n.h] = true
		}
	}
	n, max := len(exp), itr.MaxSize()
	for itr.Next() {
		x := itr.Node()
		if !exp[x] {
			return fmt.Errorf("%s: a node that should not be there, or a second time: %v", what, x)
		}
		delete(exp, x)
	}
	if len(exp) > 0 {
		return fmt.Errorf("%s: %d of %d nodes missing", what, len(exp), n)
	}
	if max >= 0 && max < n {
		return fmt.Errorf("%s: MaxSize is %d, with %d nodes", what, max, n)
	}
	return nil
}

func (h *huge) sameEdges(what string, itr lpg.EdgeIterator, want func(*hugeEdge) bool) error {
	exp := map[*lpg.Edge]bool{}
	for _, e := range h.edges {
		if want(e) {
			exp[e.h] = true
		}
	}
	n, max := len(exp), itr.MaxSize()
	for itr.Next() {
		x := itr.Edge()
		if !exp[x] {
			return fmt.Errorf("%s: an edge that should not be there, or a second time: %v", what, x)
		}
		delete(exp, x)
	}
	if len(exp) > 0 {
		return fmt.Errorf("%s: %d of %d edges missing", what, len(exp), n)
	}
	if max >= 0 && max < n {
		return fmt.Errorf("%s: MaxSize is %d, with %d edges", what, max, n)
	}
	return nil
}

func allHugeNodes(*hugeNode) bool { return true }
func allHugeEdges(*hugeEdge) bool { return true }

func (h *huge) contents() error {
	if h.g.NumNodes() != len(h.nodes) || h.g.NumEdges() != len(h.edges) {
		return fmt.Errorf("%d nodes and %d edges, expected %d and %d", h.g.NumNodes(), h.g.NumEdges(), len(h.nodes), len(h.edges))
	}
	if err := h.sameNodes("GetNodes", h.g.GetNodes(), allHugeNodes); err != nil {
		return err
	}
	if err := h.sameEdges("GetEdges", h.g.GetEdges(), allHugeEdges); err != nil {
		return err
	}
	for _, e := range h.edges {
		if e.h.GetFrom() != e.from.h || e.h.GetTo() != e.to.h {
			return fmt.Errorf("edge %d has other ends", e.id)
		}
	}
	for _, n := range h.nodes {
		if x := countLeft(n.h.GetEdges(lpg.OutgoingEdge)); x != n.out {
			return fmt.Errorf("node %d has %d outgoing edges, expected %d", n.id, x, n.out)
		}
		if x := countLeft(n.h.GetEdges(lpg.IncomingEdge)); x != n.in {
			return fmt.Errorf("node %d has %d incoming edges, expected %d", n.id, x, n.in)
		}
	}
	return nil
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (h *huge) labels() error {
	for _, q := range [][]string{{"A"}, {"B"}, {"K"}, {"K", "A"}, {"A", "D"}, {"D", "B"}} {
		err := h.sameNodes(fmt.Sprint("nodes with ", q), h.g.GetNodesWithAllLabels(lpg.NewStringSet(q...)), func(n *hugeNode) bool {
			for _, l := range q {
				if !has(n.labels, l) {
					return false
				}
			}
			return true
		})
		if err != nil {
			return err
		}
	}
	for _, q := range [][]string{{"e0"}, {"e3", "changed"}, {"changed"}} {
		if err := h.sameEdges(fmt.Sprint("edges with ", q), h.g.GetEdgesWithAnyLabel(lpg.NewStringSet(q...)), func(e *hugeEdge) bool { return has(q, e.label) }); err != nil {
			return err
		}
	}
	return nil
}

func (h *huge) props() error {
	for _, n := range h.nodes {
		if v, ok := n.h.GetProperty("id"); !ok || v != any(n.id) {
			return fmt.Errorf("node %d has the value %v", n.id, v)
		}
		for _, l := range n.labels {
			if !n.h.HasLabel(l) {
				return fmt.Errorf("node %d has no label %s", n.id, l)
			}
		}
		if l := n.h.GetLabels(); l.Len() != len(n.labels) {
			return fmt.Errorf("node %d has the labels %v", n.id, l)
		}
	}
	for _, e := range h.edges {
		if v, ok := e.h.GetProperty("id"); !ok || v != any(e.id) || e.h.GetLabel() != e.label {
			return fmt.Errorf("edge %d has the value %v and the label %s", e.id, v, e.h.GetLabel())
		}
	}
	return nil
}

func (h *huge) presence() error {
	if err := h.sameNodes("nodes with id", h.g.GetNodesWithProperty("id"), allHugeNodes); err != nil {
		return err
	}
	return h.sameEdges("edges with id", h.g.GetEdgesWithProperty("id"), allHugeEdges)
}

func (h *huge) finds(indexed bool) error {
	byNode, byEdge := map[int]*hugeNode{}, map[int]*hugeEdge{}
	top := 0
	for _, n := range h.nodes {
		byNode[n.id] = n
		if n.id > top {
			top = n.id
		}
	}
	for _, e := range h.edges {
		byEdge[e.id] = e
	}
	g := h.g
	if !indexed {
		// Each find goes through the graph
		top = 50
	}
	for i := 0; i <= top; i++ {
		if i > 300 && i%97 != 0 && (i < 32760 || i > 32775) && (i < 65530 || i > 65545) {
			continue
		}
		q := map[string]any{"id": i}
		if err := oneNode(g.FindNodes(lpg.NewStringSet(), q), byNode[i]); err != nil {
			return fmt.Errorf("node %d: %w", i, err)
		}
		if err := oneEdge(g.FindEdges(lpg.NewStringSet(), q), byEdge[i]); err != nil {
			return fmt.Errorf("edge %d: %w", i, err)
		}
	}
	return nil
}

func oneNode(itr lpg.NodeIterator, want *hugeNode) error {
	var got []*lpg.Node
	for itr.Next() {
		got = append(got, itr.Node())
	}
	if want == nil && len(got) == 0 || want != nil && len(got) == 1 && got[0] == want.h {
		return nil
	}
	return fmt.Errorf("found %v", got)
}

func oneEdge(itr lpg.EdgeIterator, want *hugeEdge) error {
	var got []*lpg.Edge
	for itr.Next() {
		got = append(got, itr.Edge())
	}
	if want == nil && len(got) == 0 || want != nil && len(got) == 1 && got[0] == want.h {
		return nil
	}
	return fmt.Errorf("found %v", got)
}

func (h *huge) identity() error {
	ids := map[int]bool{}
	for _, n := range h.nodes {
		if ids[n.h.GetID()] {
			return fmt.Errorf("two nodes have the identifier %d", n.h.GetID())
		}
		ids[n.h.GetID()] = true
		if n.h.GetGraph() != h.g {
			return fmt.Errorf("a node of another graph")
		}
	}
	ids = map[int]bool{}
	for _, e := range h.edges {
		if ids[e.h.GetID()] {
			return fmt.Errorf("two edges have the identifier %d", e.h.GetID())
		}
		ids[e.h.GetID()] = true
		if e.h.GetGraph() != h.g {
			return fmt.Errorf("an edge of another graph")
		}
	}
	return nil
}

func (h *huge) sets() error {
	ns, es, nm := lpg.NewNodeSet(), lpg.NewEdgeSet(), lpg.NewNodeMap()
	for _, n := range h.nodes {
		ns.Add(n.h)
		nm.Add(n.h)
	}
	for _, e := range h.edges {
		es.Add(e.h)
	}
	for round := 0; round < 2; round++ {
		if ns.Len() != len(h.nodes) || es.Len() != len(h.edges) {
			return fmt.Errorf("sets of %d and %d items, expected %d and %d", ns.Len(), es.Len(), len(h.nodes), len(h.edges))
		}
		itr := ns.Iterator()
		for i, n := range h.nodes {
			if !ns.Has(n.h) {
				return fmt.Errorf("node %d is not in the set", n.id)
			}
			if !itr.Next() || itr.Node() != n.h {
				return fmt.Errorf("item %d of the node set is not the one added as such", i)
			}
		}
		eitr := es.Iterator()
		for i, e := range h.edges {
			if !es.Has(e.h) {
				return fmt.Errorf("edge %d is not in the set", e.id)
			}
			if !eitr.Next() || eitr.Edge() != e.h {
				return fmt.Errorf("item %d of the edge set is not the one added as such", i)
			}
		}
		if itr.Next() || eitr.Next() {
			return fmt.Errorf("a set has too many items")
		}
		if err := h.sameNodes("the node map", nm.Iterator(), allHugeNodes); err != nil {
			return err
		}
		if err := h.sameNodes("the node map for A", nm.IteratorAllLabels(lpg.NewStringSet("A")), func(n *hugeNode) bool { return has(n.labels, "A") }); err != nil {
			return err
		}
		var nodes []*hugeNode
		for i, n := range h.nodes {
			if i%3 == 0 {
				ns.Remove(n.h)
				nm.Remove(n.h)
				continue
			}
			nodes = append(nodes, n)
		}
		var edges []*hugeEdge
		for i, e := range h.edges {
			if i%4 == 1 {
				es.Remove(e.h)
				continue
			}
			edges = append(edges, e)
		}
		h.nodes, h.edges = nodes, edges
	}
	return nil
}

// sameAs compares a graph made from this one with it, by the values.
func (h *huge) sameAs(g *lpg.Graph, id func(any) (int, bool)) error {
	if g.NumNodes() != len(h.nodes) || g.NumEdges() != len(h.edges) {
		return fmt.Errorf("%d nodes and %d edges, expected %d and %d", g.NumNodes(), g.NumEdges(), len(h.nodes), len(h.edges))
	}
	nodes, edges := map[int]*hugeNode{}, map[int]*hugeEdge{}
	for _, n := range h.nodes {
		nodes[n.id] = n
	}
	for _, e := range h.edges {
		edges[e.id] = e
	}
	key := func(v any, ok bool) int {
		if ok {
			if i, ok := id(v); ok {
				return i
			}
		}
		return -1
	}
	for itr := g.GetNodes(); itr.Next(); {
		x := itr.Node()
		i := key(x.GetProperty("id"))
		n := nodes[i]
		if n == nil {
			return fmt.Errorf("node %d is there twice, or too many", i)
		}
		delete(nodes, i)
		if !x.GetLabels().IsEqual(lpg.NewStringSet(n.labels...)) {
			return fmt.Errorf("node %d has the labels %v", i, x.GetLabels())
		}
	}
	for itr := g.GetEdges(); itr.Next(); {
		x := itr.Edge()
		i := key(x.GetProperty("id"))
		e := edges[i]
		if e == nil {
			return fmt.Errorf("edge %d is there twice, or too many", i)
		}
		delete(edges, i)
		from, to := key(x.GetFrom().GetProperty("id")), key(x.GetTo().GetProperty("id"))
		if from != e.from.id || to != e.to.id || x.GetLabel() != e.label {
			return fmt.Errorf("edge %d goes from %d to %d and is labelled %s, expected %d, %d, %s", i, from, to, x.GetLabel(), e.from.id, e.to.id, e.label)
		}
	}
	return nil
}

func (h *huge) json() error {
	for _, separate := range []bool{false, true} {
		var buf bytes.Buffer
		if err := (lpg.JSON{MarshalEdgesSeparately: separate}).Encode(h.g, &buf); err != nil {
			return err
		}
		g := lpg.NewGraph()
		if err := (lpg.JSON{}).Decode(g, json.NewDecoder(&buf)); err != nil {
			return err
		}
		err := h.sameAs(g, func(v any) (int, bool) {
			switch x := v.(type) {
			case json.Number:
				i, err := x.Int64()
				return int(i), err == nil
			case float64:
				return int(x), true
			case int:
				return x, true
			}
			return 0, false
		})
		if err != nil {
			return fmt.Errorf("encoded (separate edges: %v) and decoded: %w", separate, err)
		}
	}
	return nil
}

func sameInt(v any) (int, bool) {
	i, ok := v.(int)
	return i, ok
}

func (h *huge) copied() error {
	g := lpg.NewGraph()
	keep := func(key string, value interface{}) interface{} { return value }
	m := lpg.CopyGraph(h.g, g, keep)
	if len(m) != len(h.nodes) {
		return fmt.Errorf("CopyGraph maps %d nodes of %d", len(m), len(h.nodes))
	}
	if err := h.sameAs(g, sameInt); err != nil {
		return fmt.Errorf("CopyGraph: %w", err)
	}
	return nil
}

func (h *huge) helpers() error {
	check := func(what string, got []*lpg.Node, want func(*hugeNode) bool) error {
		exp := map[*lpg.Node]bool{}
		for _, n := range h.nodes {
			if want(n) {
				exp[n.h] = true
			}
		}
		if len(got) != len(exp) {
			return fmt.Errorf("%s: %d nodes, expected %d", what, len(got), len(exp))
		}
		for _, x := range got {
			if !exp[x] {
				return fmt.Errorf("%s: a node twice, or too many: %v", what, x)
			}
			delete(exp, x)
		}
		return nil
	}
	if err := check("Sources", lpg.Sources(h.g), func(n *hugeNode) bool { return n.in == 0 }); err != nil {
		return err
	}
	if err := check("Sinks", lpg.Sinks(h.g), func(n *hugeNode) bool { return n.out == 0 }); err != nil {
		return err
	}
	if err := check("NodeSlice", lpg.NodeSlice(h.g.GetNodes()), allHugeNodes); err != nil {
		return err
	}
	var seen []*lpg.Node
	lpg.ForEachNode(h.g, func(n *lpg.Node) bool {
		seen = append(seen, n)
		return true
	})
	if err := check("ForEachNode", seen, allHugeNodes); err != nil {
		return err
	}
	return check("TargetNodes", lpg.TargetNodes(h.g.GetEdges()), func(n *hugeNode) bool { return n.in > 0 })
}

// single matches every node and every edge.
func (h *huge) patterns() error {
	acc, err := lpg.Pattern{{Labels: lpg.NewStringSet("A"), Name: "n"}}.FindPaths(h.g, nil)
	if err != nil {
		return err
	}
	n := 0
	for _, x := range h.nodes {
		if has(x.labels, "A") {
			n++
		}
	}
	if len(acc.Paths) != n || len(acc.Symbols) != n {
		return fmt.Errorf("(:A) is found %d times, expected %d", len(acc.Paths), n)
	}
	acc, err = lpg.Pattern{{}, {Min: 1, Max: 1, Name: "e"}, {}}.FindPaths(h.g, nil)
	if err != nil {
		return err
	}
	seen := map[*lpg.Edge]bool{}
	for _, p := range acc.Paths {
		seen[p.GetEdge(0)] = true
	}
	if len(acc.Paths) != len(h.edges) || len(seen) != len(h.edges) {
		return fmt.Errorf("()->() is found %d times with %d edges, expected %d", len(acc.Paths), len(seen), len(h.edges))
	}
	return nil
}

// chain joins the edges of a path over all nodes.
func runHugePath(c HugeCase, ctx *Ctx) error {
	g := lpg.NewGraph()
	at := g.NewNode(nil, nil)
	nodes, edges := []*lpg.Node{at}, []*lpg.Edge(nil)
	p, rev := lpg.PathFromNode(at), 0
	for i := 0; i < c.N; i++ {
		to := g.NewNode(nil, nil)
		nodes = append(nodes, to)
		el := lpg.PathElement{}
		if c.Cut > 0 && i%c.Cut == 1 {
			el = lpg.PathElement{Edge: g.NewEdge(to, at, "x", nil), Reverse: true}
			rev++
		} else {
			el = lpg.PathElement{Edge: g.NewEdge(at, to, "x", nil)}
		}
		edges = append(edges, el.Edge)
		p.Append(el)
		at = to
	}
	ctx.NonTrivial()
	check := func(what string, p *lpg.Path, nodes []*lpg.Node, edges []*lpg.Edge) error {
		if p.NumNodes() != len(nodes) || p.NumEdges() != len(edges) {
			return fmt.Errorf("%s: %d nodes and %d edges, expected %d and %d", what, p.NumNodes(), p.NumEdges(), len(nodes), len(edges))
		}
		for i, n := range nodes {
			if p.GetNode(i) != n {
				return fmt.Errorf("%s: another node at %d", what, i)
			}
		}
		for i, e := range edges {
			if p.GetEdge(i) != e {
				return fmt.Errorf("%s: another edge at %d", what, i)
			}
		}
		if p.First() != nodes[0] || p.Last() != nodes[len(nodes)-1] {
			return fmt.Errorf("%s: other ends", what)
		}
		return nil
	}
	if err := check("appended", p, nodes, edges); err != nil {
		return err
	}
	if err := check("cloned", p.Clone(), nodes, edges); err != nil {
		return err
	}
	k := c.N / 3
	if err := check("sliced", p.Slice(k, -1), nodes[k:], edges[k:]); err != nil {
		return err
	}
	if !p.HasPrefixPath(p.Slice(0, k)) || p.Slice(0, k).HasPrefixPath(p) {
		return fmt.Errorf("the prefix of %d edges is not one, or the whole path is a prefix of it", k)
	}
	return nil
}

func genHuge(t *rapid.T) HugeCase {
	every := func(what string, l ...int) int { return rapid.SampledFrom(append([]int{0}, l...)).Draw(t, what) }
	return HugeCase{N: rapid.SampledFrom([]int{66000, 70001}).Draw(t, "n"), Ix: rapid.SampledFrom([]string{"b", "h", ""}).Draw(t, "ix"),
		Late: rapid.Bool().Draw(t, "late"), Remove: every("remove", 2, 7, 100), Cut: every("cut", 2, 5, 100), Change: every("change", 3, 8, 1000),
		Step: rapid.SampledFrom([]int{1, 2, 3, 65536, 65537}).Draw(t, "step"), Refill: rapid.Bool().Draw(t, "refill")}
}

func init() {
	for _, p := range []struct {
		prop  string
		check func(*huge, HugeCase) error
	}{
		{"C01", func(h *huge, _ HugeCase) error { return h.contents() }},
		{"C02", func(h *huge, _ HugeCase) error { return h.labels() }},
		{"C03", func(h *huge, _ HugeCase) error { return h.props() }},
		{"C04", func(h *huge, _ HugeCase) error { return h.presence() }},
		{"C05", func(h *huge, c HugeCase) error { return h.finds(c.Ix != "") }},
		{"C08", func(h *huge, _ HugeCase) error { return h.json() }},
		{"C13", func(h *huge, _ HugeCase) error { return h.copied() }},
		{"C16", func(h *huge, _ HugeCase) error { return h.patterns() }},
		{"C23", func(h *huge, _ HugeCase) error { return h.sets() }},
		{"C25", func(h *huge, _ HugeCase) error { return h.helpers() }},
		{"C27", func(h *huge, _ HugeCase) error { return h.identity() }},
	} {
		p := p
		register(p.prop, "huge", "graphs of more than 65536 nodes and edges, with removals, replacements and changes; non-trivial: all",
			2, genHuge, func(c HugeCase, ctx *Ctx) error {
				ctx.NonTrivial()
				return p.check(buildHuge(c), c)
			})
	}
	register("C20", "huge", "a path of more than 65536 edges; non-trivial: all", 2, genHuge, runHugePath)
}
