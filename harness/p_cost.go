package main

import (
	"fmt"
	"os"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// CostCase describes a graph of tens of thousands of items in which a few
// items are special, and what the graph went through.
type CostCase struct {
	Nodes  int    `json:"nodes"` // in thousands
	Rare   []int  `json:"rare"`  // positions of the special nodes and edges, per mille
	NodeIx string `json:"nodeIx"`
	EdgeIx string `json:"edgeIx"`
	Late   bool   `json:"late"`  // indexes are added after the data
	Value  string `json:"value"` // type of the unique values
	Churn  int    `json:"churn"` // bits: what the other items were once
	Groups int    `json:"groups"`
	Pick   int    `json:"pick"`
}

func (c CostCase) unique(i int) any {
	switch c.Value {
	case "s":
		return fmt.Sprintf("v%06d", i)
	case "w":
		return &Wrapped{i}
	case "W":
		return &Wrapped{fmt.Sprint("w", i)}
	case "L":
		return []int{i, 1}
	case "S":
		return []string{"x", fmt.Sprint(i)}
	}
	return i
}

// costProbe is a read, or a change and its undoing, and the number of items
// it comes upon.
type costProbe struct {
	name string
	want int
	run  func() int
}

var costLog = os.Getenv("COSTLOG") != ""

// The cheapest way to look at all nodes of a graph, timed.
func scanTime(g *lpg.Graph) time.Duration {
	best := time.Hour
	for i := 0; i < 7; i++ {
		t := time.Now()
		for itr := g.GetNodes(); itr.Next(); {
		}
		if d := time.Since(t); d < best {
			best = d
		}
	}
	return best
}

const (
	costShare = 4   // a probe takes less than this part of a scan
	costTries = 200 // in the best of this many tries
)

// costly tells whether no try of f is a small part of a scan.
func costly(f func() int, scan time.Duration) (time.Duration, bool) {
	best := time.Hour
	start := time.Now()
	for i := 0; i < costTries && (i < 30 || time.Since(start) < 300*time.Millisecond); i++ {
		t := time.Now()
		f()
		d := time.Since(t)
		if d < best {
			best = d
		}
		if best < scan/costShare {
			return best, false
		}
	}
	return best, true
}

func countLeft(itr lpg.Iterator) int {
	n := 0
	for itr.Next() {
		n++
	}
	return n
}

func runCost(c CostCase, ctx *Ctx) error {
	n := c.Nodes * 1000
	g := lpg.NewGraph()
	index := func() {
		for _, ix := range []string{"id", "kind", "few", "gone"} {
			switch c.NodeIx {
			case "b":
				g.AddNodePropertyIndex(ix, lpg.BtreeIndex)
			case "h":
				g.AddNodePropertyIndex(ix, lpg.HashIndex)
			}
			switch c.EdgeIx {
			case "b":
				g.AddEdgePropertyIndex(ix, lpg.BtreeIndex)
			case "h":
				g.AddEdgePropertyIndex(ix, lpg.HashIndex)
			}
		}
	}
	if !c.Late {
		index()
	}
	rare := map[int]bool{}
	for _, r := range c.Rare {
		rare[1+mod(r*(n-3)/1000, n-2)] = true
	}
	// While they were created, others looked special, too
	once := func(i, bit int) bool { return c.Churn&bit != 0 && (c.Churn&16 != 0 || i%3 != 0) }
	props := func(i int) map[string]any {
		p := map[string]any{"id": c.unique(i), "kind": i % 3, "group": i % c.Groups}
		if rare[i] || once(i, 1) {
			p["kind"] = 77
		}
		if rare[i] || once(i, 2) {
			p["few"] = i % 5
		}
		if c.Churn&2 != 0 {
			p["gone"] = i / 2
		}
		return p
	}
	nodes := make([]*lpg.Node, n)
	edges := make([]*lpg.Edge, n)
	for i := range nodes {
		labels := []string{"Common", fmt.Sprint("G", i%c.Groups)}
		if rare[i] || once(i, 4) {
			labels = append(labels, "Rare")
		}
		nodes[i] = g.NewNode(labels, props(i))
	}
	for i := range edges {
		label := fmt.Sprint("g", i%c.Groups)
		if rare[i] || once(i, 4) {
			label = "rare"
		}
		edges[i] = g.NewEdge(nodes[i], nodes[(i+1)%n], label, props(i))
	}
	hub := nodes[0]
	hubs := make([]*lpg.Edge, n)
	for i := 1; i < n; i++ {
		label := "big"
		if rare[i] || once(i, 4) {
			label = "small"
		}
		hubs[i] = g.NewEdge(hub, nodes[i], label, nil)
	}
	if c.Churn&8 != 0 {
		var more []*lpg.Node
		for i := 0; i < n/2; i++ {
			m := g.NewNode([]string{"Rare"}, map[string]any{"few": 1, "kind": 77, "gone": n + i, "id": c.unique(n + i)})
			g.NewEdge(hub, m, "small", map[string]any{"few": 1, "kind": 77, "gone": n + i})
			more = append(more, m)
		}
		for _, m := range more {
			m.DetachAndRemove()
		}
	}
	if c.Churn&7 != 0 {
		for i := range nodes {
			if rare[i] {
				nodes[i].RemoveProperty("gone")
				edges[i].RemoveProperty("gone")
				continue
			}
			x, y := nodes[i], edges[i]
			if once(i, 1) {
				x.SetProperty("kind", i%3)
				y.SetProperty("kind", i%3)
			}
			if c.Churn&2 != 0 {
				x.RemoveProperty("few")
				x.RemoveProperty("gone")
				y.RemoveProperty("few")
				y.RemoveProperty("gone")
			}
			if once(i, 4) {
				x.SetLabels(lpg.NewStringSet("Common", fmt.Sprint("G", i%c.Groups)))
				y.SetLabel(fmt.Sprint("g", i%c.Groups))
				if hubs[i] != nil {
					hubs[i].SetLabel("big")
				}
			}
		}
	}
	if c.Late {
		index()
	}
	k := len(rare)
	ctx.NonTrivial()
	ctx.ClassIf(c.Churn != 0, "items were special once")
	ctx.ClassIf(c.Late, "index added after the data")
	at := 1 + mod(c.Pick, n-2)
	leaf := nodes[at]
	set := lpg.NewStringSet
	type pm = map[string]interface{}
	group := fmt.Sprint("G", at%c.Groups)

	var probes []costProbe
	add := func(name string, want int, f func() int) { probes = append(probes, costProbe{name, want, f}) }
	// nf and ef are finds
	nf := func(want int, labels lpg.StringSet, p pm) {
		add(fmt.Sprintf("FindNodes(%v, %v)", labels.SortedSlice(), p), want, func() int { return countLeft(g.FindNodes(labels, p)) })
	}
	ef := func(want int, labels lpg.StringSet, p pm) {
		add(fmt.Sprintf("FindEdges(%v, %v)", labels.SortedSlice(), p), want, func() int { return countLeft(g.FindEdges(labels, p)) })
	}
	nl := func(want int, labels ...string) {
		l := set(labels...)
		add(fmt.Sprintf("GetNodesWithAllLabels(%v)", labels), want, func() int { return countLeft(g.GetNodesWithAllLabels(l)) })
	}
	el := func(want int, labels ...string) {
		l := set(labels...)
		add(fmt.Sprintf("GetEdgesWithAnyLabel(%v)", labels), want, func() int { return countLeft(g.GetEdgesWithAnyLabel(l)) })
	}
	nl(k, "Rare")
	nl(k, "Rare", "Common")
	nl(0, "Absent")
	nl(0, "Common", "Absent")
	nl(0, "Rare", "Absent", "Common")
	nf(k, set("Rare"), nil)
	nf(k, set("Rare", "Common"), nil)
	nf(0, set("Rare"), pm{"other": 1})
	nf(0, set("Common", "Absent"), pm{"other": 1})
	el(k, "rare")
	el(k, "rare", "absent")
	el(0, "absent")
	ef(k, set("rare"), nil)
	ef(0, set("rare", "absent"), pm{"other": 1})
	if c.NodeIx != "" {
		nf(1, set(), pm{"id": c.unique(at)})
		nf(1, set("Common"), pm{"id": c.unique(at)})
		nf(1, set("Common", group), pm{"id": c.unique(at), "group": at % c.Groups})
		nf(0, set("Common"), pm{"id": c.unique(at), "other": 1})
		nf(0, set(), pm{"id": c.unique(n + 5)})
		nf(0, set("Common"), pm{"id": c.unique(n + 5), "group": 1})
		nf(k, set(), pm{"kind": 77})
		nf(k, set("Common"), pm{"kind": 77})
		nf(k, set("Rare"), pm{"kind": 77})
		nf(0, set("Rare"), pm{"kind": 1})
		nf(0, set(), pm{"kind": 9})
		if !rare[at] {
			nf(1, set(), pm{"id": c.unique(at), "kind": at % 3})
			nf(1, set("Common"), pm{"kind": at % 3, "group": at % c.Groups, "id": c.unique(at)})
			nf(0, set("Common"), pm{"kind": (at + 1) % 3, "id": c.unique(at)})
		}
		add("GetNodesWithProperty(few)", k, func() int { return countLeft(g.GetNodesWithProperty("few")) })
		add("GetNodesWithProperty(gone)", 0, func() int { return countLeft(g.GetNodesWithProperty("gone")) })
	}
	if c.EdgeIx != "" {
		ef(1, set(), pm{"id": c.unique(at)})
		ef(0, set(), pm{"id": c.unique(n + 5)})
		ef(0, set(), pm{"id": c.unique(at), "other": 1})
		ef(k, set(), pm{"kind": 77})
		ef(k, set("rare"), pm{"kind": 77})
		ef(0, set("big"), pm{"kind": 77})
		ef(0, set(), pm{"kind": 9})
		if !rare[at] {
			ef(1, set(), pm{"id": c.unique(at), "kind": at % 3})
			ef(0, set(), pm{"id": c.unique(at), "kind": (at + 1) % 3})
		}
		add("GetEdgesWithProperty(few)", k, func() int { return countLeft(g.GetEdgesWithProperty("few")) })
		add("GetEdgesWithProperty(gone)", 0, func() int { return countLeft(g.GetEdgesWithProperty("gone")) })
	}
	add("NumNodes", n, g.NumNodes)
	add("NumEdges", 2*n-1, g.NumEdges)

	// Adjacency
	add("the edges of a leaf", 3, func() int { return countLeft(leaf.GetEdges(lpg.AnyEdge)) })
	add("the incoming edges of a leaf", 2, func() int { return countLeft(leaf.GetEdges(lpg.IncomingEdge)) })
	add("the outgoing edges of a leaf", 1, func() int { return countLeft(leaf.GetEdges(lpg.OutgoingEdge)) })
	add("the incoming edges of the hub", 1, func() int { return countLeft(hub.GetEdges(lpg.IncomingEdge)) })
	for _, d := range []lpg.EdgeDir{lpg.AnyEdge, lpg.OutgoingEdge} {
		d := d
		add("the small edges of the hub", k, func() int { return countLeft(hub.GetEdgesWithLabel(d, "small")) })
		add("the small or absent edges of the hub", k, func() int { return countLeft(hub.GetEdgesWithAnyLabel(d, set("absent", "small"))) })
		add("the absent edges of the hub", 0, func() int { return countLeft(hub.GetEdgesWithLabel(d, "absent")) })
		add("the absent edges of the hub, by set", 0, func() int { return countLeft(hub.GetEdgesWithAnyLabel(d, set("absent", "none"))) })
	}
	add("the next nodes of the hub", k, func() int { return len(lpg.NextNodesWith(hub, "small")) })
	add("the previous nodes of a leaf", 1, func() int {
		if rare[at] {
			return len(lpg.PrevNodesWith(leaf, "small"))
		}
		return len(lpg.PrevNodesWith(leaf, "big"))
	})
	add("a cursor's edges", k, func() int {
		cur := lpg.Cursor{}
		cur.Set(hub)
		return countLeft(cur.ForwardWith("small"))
	})

	// Pattern searches
	pat := func(name string, want int, sym map[string]*lpg.PatternSymbol, items ...lpg.PatternItem) {
		for i := range items {
			if i%2 == 1 && items[i].Min == 0 {
				items[i].Min, items[i].Max = 1, 1
			}
		}
		add("the pattern "+name, want, func() int {
			acc, err := lpg.Pattern(items).FindPaths(g, sym)
			if err != nil {
				return -1
			}
			return len(acc.Paths)
		})
		add("the nodes of the pattern "+name, -2, func() int {
			nodes, err := lpg.Pattern(items).FindNodes(g, sym)
			if err != nil {
				return -1
			}
			return len(nodes)
		})
	}
	it := func(labels ...string) lpg.PatternItem { return lpg.PatternItem{Labels: set(labels...)} }
	ip := func(p pm) lpg.PatternItem { return lpg.PatternItem{Properties: p} }
	pat("(:Rare)", k, nil, it("Rare"))
	pat("(:Rare:Absent)", 0, nil, it("Rare", "Absent"))
	pat("(:Absent {group})", 0, nil, lpg.PatternItem{Labels: set("Absent"), Properties: pm{"group": 1}})
	pat("(:Rare)->()", k, nil, it("Rare"), lpg.PatternItem{}, it())
	pat("()->(:Rare)<-()", -2, nil, it("Common"), lpg.PatternItem{}, it("Rare"), lpg.PatternItem{ToLeft: true}, it())
	pat("()->(:Rare)", 2*k, nil, it(), lpg.PatternItem{}, it("Rare"))
	pat("()->(:Common)->(:Absent)", 0, nil, it(), lpg.PatternItem{}, it("Common"), lpg.PatternItem{}, it("Absent"))
	if c.NodeIx != "" {
		pat("(:Common)<-({id})", 2, nil, it("Common"), lpg.PatternItem{ToLeft: false}, ip(pm{"id": c.unique(at), "group": at % c.Groups}))
		pat("({kind})->()", k, nil, ip(pm{"kind": 77}), lpg.PatternItem{}, it())
		pat("(:Common {id})", 1, nil, lpg.PatternItem{Labels: set("Common"), Properties: pm{"id": c.unique(at)}})
	}
	sym := &lpg.PatternSymbol{}
	sym.Add(leaf)
	// The sets of symbols are not affected by the search
	pat("(symbol)->(:Common)", 1, map[string]*lpg.PatternSymbol{"s": sym}, lpg.PatternItem{Name: "s"}, lpg.PatternItem{}, it("Common"))
	pat("(:Common)->()->(symbol)", -2, map[string]*lpg.PatternSymbol{"s": sym}, it("Common"), lpg.PatternItem{Labels: set("none")}, it(), lpg.PatternItem{}, lpg.PatternItem{Name: "s"})

	// Changes, undone
	add("creating and removing a node", 0, func() int {
		x := g.NewNode([]string{"Common", "Rare"}, map[string]any{"id": c.unique(at), "kind": 1, "few": 2})
		x.DetachAndRemove()
		return 0
	})
	add("creating and removing a connected node", 0, func() int {
		x := g.NewNode([]string{"Common"}, map[string]any{"id": c.unique(n + 7), "kind": 77})
		g.NewEdge(hub, x, "big", map[string]any{"kind": 2, "id": c.unique(at)})
		g.NewEdge(x, leaf, "small", nil)
		x.DetachAndRemove()
		return 0
	})
	add("detaching a node", 0, func() int {
		x := g.NewNode(nil, nil)
		g.NewEdge(x, hub, "big", nil)
		x.Detach()
		x.DetachAndRemove()
		return 0
	})
	add("creating and removing an edge", 0, func() int {
		g.NewEdge(hub, leaf, "big", map[string]any{"kind": 2, "few": 1}).Remove()
		return 0
	})
	// Each try another item, as one that was touched last may be found faster
	next := c.Pick
	other := func() int {
		next++
		return 1 + mod(next, n-2)
	}
	add("changing a property of a node", 0, func() int {
		x := nodes[other()]
		old, _ := x.GetProperty("kind")
		x.SetProperty("kind", 5)
		x.RemoveProperty("kind")
		x.SetProperty("kind", old)
		return 0
	})
	add("changing a property of an edge", 0, func() int {
		x := edges[other()]
		old, _ := x.GetProperty("kind")
		x.SetProperty("kind", 5)
		x.RemoveProperty("kind")
		x.SetProperty("kind", old)
		return 0
	})
	add("changing the labels of a node", 0, func() int {
		x := nodes[other()]
		old := x.GetLabels()
		x.SetLabels(set("Rare", "G0"))
		x.SetLabels(lpg.NewStringSet())
		x.SetLabels(old)
		return 0
	})
	add("changing the label of an edge", 0, func() int {
		x := hubs[other()]
		old := x.GetLabel()
		x.SetLabel("rare")
		x.SetLabel(old)
		return 0
	})
	add("replacing an edge", 0, func() int {
		i := other()
		label := hubs[i].GetLabel()
		hubs[i].Remove()
		hubs[i] = g.NewEdge(hub, nodes[i], label, nil)
		return 0
	})
	add("replacing a node", 0, func() int {
		i := other()
		if i == at {
			i = other()
		}
		old := nodes[i]
		labels, p := old.GetLabels(), pm{}
		old.ForEachProperty(func(key string, value interface{}) bool {
			p[key] = value
			return true
		})
		again := []func(){}
		for _, e := range []**lpg.Edge{&edges[i-1], &edges[i], &hubs[i]} {
			e, p := e, pm{}
			(*e).ForEachProperty(func(key string, value interface{}) bool {
				p[key] = value
				return true
			})
			from, to, label := (*e).GetFrom(), (*e).GetTo(), (*e).GetLabel()
			again = append(again, func() {
				if from == old {
					*e = g.NewEdge(nodes[i], to, label, p)
				} else {
					*e = g.NewEdge(from, nodes[i], label, p)
				}
			})
		}
		old.DetachAndRemove()
		nodes[i] = g.NewNode(labels.Slice(), p)
		for _, f := range again {
			f()
		}
		return 0
	})
	for round := 0; round < 2; round++ {
		scan := scanTime(g)
		for _, p := range probes {
			got := p.run()
			if p.want != -2 && got != p.want {
				return fmt.Errorf("%s comes upon %d items and not %d", p.name, got, p.want)
			}
			if round == 1 {
				continue
			}
			d, bad := costly(p.run, scan)
			if costLog {
				fmt.Fprintln(os.Stderr, p.name, d, scan, scan/d)
			}
			if bad {
				// Once more, with the scan timed again
				scan = scanTime(g)
				if d, bad = costly(p.run, scan); bad {
					return fmt.Errorf("%s takes %v, though it concerns a few items only: all %d nodes can be visited in %v", p.name, d, n, scan)
				}
			}
		}
	}
	return nil
}

func init() {
	register("C29", "few-of-many", "graphs of 25 to 50 thousand nodes and twice as many edges in which up to 4 of each are special, with indexes, after churn; non-trivial: all",
		16, func(t *rapid.T) CostCase {
			c := CostCase{Nodes: rapid.SampledFrom([]int{25, 30, 40, 50}).Draw(t, "n"),
				Rare:   rapid.SliceOfN(rapid.IntRange(0, 1000), 0, 4).Draw(t, "rare"),
				NodeIx: rapid.SampledFrom([]string{"b", "h", "b", "h", ""}).Draw(t, "nix"),
				EdgeIx: rapid.SampledFrom([]string{"b", "h", "b", "h", ""}).Draw(t, "eix"),
				Late:   rapid.Bool().Draw(t, "late"),
				Value:  rapid.SampledFrom([]string{"i", "s", "w", "W", "L", "S"}).Draw(t, "value"),
				Groups: rapid.IntRange(2, 12).Draw(t, "groups"),
				Pick:   rapid.IntRange(0, 50000).Draw(t, "pick")}
			if rapid.Bool().Draw(t, "churned") {
				c.Churn = rapid.IntRange(1, 31).Draw(t, "churn")
			}
			return c
		}, runCost)
}
