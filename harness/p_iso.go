package main

import (
	"context"
	"errors"
	"fmt"
	"strconv"
	"sync/atomic"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// SGraph is a small graph as data: node classes and edges with classes.
type SGraph struct {
	Nodes []int   `json:"nodes"`
	Edges []SEdge `json:"edges"`
}

type SEdge struct {
	F int `json:"f"`
	T int `json:"t"`
	C int `json:"c,omitempty"`
}

func (s SGraph) build(order []int) *lpg.Graph { return s.buildDeco(order, 0) }

// isoLabel is the label of edges of a class.
func isoLabel(c int) string {
	if c == 2 {
		return "https://example.org/ns#Label2"
	}
	return "L" + strconv.Itoa(c)
}

// buildDeco makes the graph. With deco, nodes and edges have labels and
// properties that the functions of the comparison do not look at, and other
// items and indexes come and go.
func (s SGraph) buildDeco(order []int, deco int) *lpg.Graph {
	g := lpg.NewGraph()
	rnd := func(k int) int {
		deco = deco*1103515245 + 12345
		return mod(deco>>8, k)
	}
	dummies := func() {}
	if deco != 0 {
		if rnd(3) == 0 {
			g.AddNodePropertyIndex("c", lpg.HashIndex)
			g.AddEdgePropertyIndex("c", lpg.BtreeIndex)
		}
		if rnd(2) == 0 {
			var d []*lpg.Node
			for i := 1 + rnd(3); i > 0; i-- {
				d = append(d, g.NewNode([]string{"D"}, map[string]any{"c": 0}))
				g.NewEdge(d[0], d[len(d)-1], "L0", map[string]any{"c": 0})
			}
			dummies = func() {
				for _, n := range d {
					n.DetachAndRemove()
				}
			}
			if rnd(2) == 0 {
				dummies()
				dummies = func() {}
			}
		}
	}
	nodes := make([]*lpg.Node, len(s.Nodes))
	for i, c := range s.Nodes {
		p := map[string]any{"c": c}
		var labels []string
		if deco != 0 {
			labels = [][]string{nil, {"A"}, {"B"}, {"A", "B"}, {""}}[rnd(5)]
			for j := rnd(6); j > 1; j-- {
				p[fmt.Sprint("d", j)] = rnd(3)
			}
		}
		nodes[i] = g.NewNode(labels, p)
	}
	for _, i := range permOf(order, len(s.Edges)) {
		x := s.Edges[i]
		var p map[string]any
		label := isoLabel(x.C)
		if deco != 0 {
			p = map[string]any{"c": x.C}
			label = []string{"", "A", "B", "L0", "L1"}[rnd(5)]
			if rnd(2) == 0 {
				p["d"] = rnd(3)
			}
		}
		g.NewEdge(nodes[x.F], nodes[x.T], label, p)
	}
	dummies()
	return g
}

func edgeClass(x *lpg.Edge) string {
	if c, ok := x.GetProperty("c"); ok {
		return isoLabel(c.(int))
	}
	return x.GetLabel()
}

func (s SGraph) agraph() *AGraph {
	a := &AGraph{}
	for _, c := range s.Nodes {
		a.nodes = append(a.nodes, strconv.Itoa(c))
	}
	for _, x := range s.Edges {
		a.edges = append(a.edges, AEdge{x.F, x.T, strconv.Itoa(x.C)})
	}
	return a
}

// permOf turns arbitrary numbers into a permutation of 0..n-1 (identity if
// there are none).
func permOf(keys []int, n int) []int {
	p := make([]int, 0, n)
	for i := 0; i < n; i++ {
		k := 0
		if len(keys) > 0 {
			k = keys[i%len(keys)] * (1 + i/len(keys))
		}
		pos := len(p)
		if k > 0 {
			pos = len(p) - mod(k, len(p)+1)
		}
		p = append(p[:pos], append([]int{i}, p[pos:]...)...)
	}
	return p
}

type IsoMut struct {
	Kind string `json:"kind"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	C    int    `json:"c"`
}

type IsoCase struct {
	G1     SGraph   `json:"g1"`
	G2     *SGraph  `json:"g2,omitempty"` // independent
	Perm   []int    `json:"perm,omitempty"`
	Order  []int    `json:"order,omitempty"`
	Muts   []IsoMut `json:"muts,omitempty"`
	Cancel int      `json:"cancel"` // -1 never, 0 before the call, k in the k-th callback
	CtxErr int      `json:"ctxerr,omitempty"`
	// how nodes and edges are told apart: bit 0 ignore node classes, bit 1 ignore edge classes
	Coarse int `json:"coarse,omitempty"`
	// what else the items of the graphs have (see buildDeco)
	Deco1 int `json:"deco1,omitempty"`
	Deco2 int `json:"deco2,omitempty"`
}

func (c *IsoCase) genDeco(t *rapid.T) {
	if rapid.IntRange(0, 2).Draw(t, "deco?") == 0 {
		c.Deco1 = rapid.IntRange(0, 100000).Draw(t, "deco1")
		c.Deco2 = rapid.IntRange(0, 100000).Draw(t, "deco2")
	}
}

func genSGraph(t *rapid.T, maxN, maxE, classes int) SGraph {
	n := rapid.IntRange(0, maxN).Draw(t, "n")
	var s SGraph
	for i := 0; i < n; i++ {
		s.Nodes = append(s.Nodes, rapid.IntRange(0, classes-1).Draw(t, "class"))
	}
	if n == 0 {
		return s
	}
	m := rapid.IntRange(0, maxE).Draw(t, "m")
	for i := 0; i < m; i++ {
		s.Edges = append(s.Edges, SEdge{
			F: rapid.IntRange(0, n-1).Draw(t, "f"),
			T: rapid.IntRange(0, n-1).Draw(t, "t"),
			C: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "ec"),
		})
	}
	return s
}

func genIso(t *rapid.T) IsoCase {
	c := IsoCase{Cancel: -1}
	classes := rapid.SampledFrom([]int{1, 1, 2, 3, 8}).Draw(t, "classes")
	maxN := 5
	if classes == 8 {
		maxN = 10
	}
	c.G1 = genSGraph(t, maxN, 9, classes)
	if rapid.IntRange(0, 4).Draw(t, "independent") == 0 {
		g := genSGraph(t, maxN, 9, classes)
		if rapid.Bool().Draw(t, "samesize") {
			for len(g.Nodes) < len(c.G1.Nodes) {
				g.Nodes = append(g.Nodes, c.G1.Nodes[len(g.Nodes)])
			}
			g.Nodes = g.Nodes[:len(c.G1.Nodes)]
			for i, cl := range c.G1.Nodes {
				g.Nodes[i] = cl
			}
			var keep []SEdge
			for _, x := range g.Edges {
				if len(g.Nodes) > 0 {
					keep = append(keep, SEdge{x.F % len(g.Nodes), x.T % len(g.Nodes), x.C})
				}
			}
			for len(g.Nodes) > 0 && len(keep) < len(c.G1.Edges) {
				keep = append(keep, c.G1.Edges[len(keep)])
			}
			if len(keep) > len(c.G1.Edges) {
				keep = keep[:len(c.G1.Edges)]
			}
			g.Edges = keep
		}
		c.G2 = &g
	} else {
		c.Perm = rapid.SliceOfN(rapid.IntRange(0, 9), 0, 10).Draw(t, "perm")
		k := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(t, "nmuts")
		for i := 0; i < k; i++ {
			c.Muts = append(c.Muts, IsoMut{
				Kind: rapid.SampledFrom([]string{"flip", "from", "to", "swap", "swap", "class", "classes", "nclass", "del", "add", "dup", "addnode", "delnode"}).Draw(t, "mut"),
				A:    rapid.IntRange(0, 9).Draw(t, "a"), B: rapid.IntRange(0, 9).Draw(t, "b"), C: rapid.IntRange(0, 3).Draw(t, "c"),
			})
		}
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 9), 0, 5).Draw(t, "order")
	c.Coarse = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3}).Draw(t, "coarse")
	c.genDeco(t)
	if rapid.IntRange(0, 9).Draw(t, "cancel?") == 0 {
		c.Cancel = rapid.SampledFrom([]int{0, 1, 2, 3, 5, 10, 20, 50}).Draw(t, "cancel")
		c.CtxErr = rapid.IntRange(0, 2).Draw(t, "ctxerr")
	}
	return c
}

// genBigIso makes pairs with many nodes and edges, with few assignments to try.
func genBigIso(t *rapid.T) IsoCase {
	c := IsoCase{Cancel: -1}
	n := rapid.IntRange(11, 40).Draw(t, "n")
	if n == 40 {
		n = rapid.IntRange(41, 90).Draw(t, "n")
	}
	twins := rapid.IntRange(0, 5).Draw(t, "twins") // pairs of nodes of one class
	for i := 0; i < n; i++ {
		cl := i
		if i%2 == 1 && i/2 < twins {
			cl = i - 1
		}
		c.G1.Nodes = append(c.G1.Nodes, cl)
	}
	m := rapid.SampledFrom([]int{3, 12, 30, 45, 70, 140}).Draw(t, "m")
	seed := rapid.Uint32().Draw(t, "seed")
	rnd := func(k int) int {
		seed = seed*1664525 + 1013904223
		return int(seed>>8) % k
	}
	for i := 0; i < m; i++ {
		c.G1.Edges = append(c.G1.Edges, SEdge{F: rnd(n), T: rnd(n), C: rnd(2)})
	}
	if rapid.Bool().Draw(t, "hub") { // many edges on a few nodes, and parallel ones
		for i := range c.G1.Edges {
			x := &c.G1.Edges[i]
			switch rnd(3) {
			case 0:
				x.F = 0
			case 1:
				x.T = 2 % n
			case 2:
				x.F, x.T = 0, 2%n
			}
		}
	}
	c.Perm = rapid.SliceOfN(rapid.IntRange(0, n-1), 0, n).Draw(t, "perm")
	k := rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "nmuts")
	for i := 0; i < k; i++ {
		c.Muts = append(c.Muts, IsoMut{
			Kind: rapid.SampledFrom([]string{"flip", "from", "to", "swap", "swap", "class", "classes", "nclass", "del", "add", "dup", "addnode", "delnode"}).Draw(t, "mut"),
			A:    rapid.IntRange(0, 140).Draw(t, "a"), B: rapid.IntRange(0, 140).Draw(t, "b"), C: rapid.IntRange(0, 3).Draw(t, "c"),
		})
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 70), 0, 5).Draw(t, "order")
	c.Coarse = rapid.SampledFrom([]int{0, 0, 0, 2}).Draw(t, "coarse")
	c.genDeco(t)
	return c
}

// second is the second graph of the case.
func (c IsoCase) second() SGraph {
	if c.G2 != nil {
		return *c.G2
	}
	p := permOf(c.Perm, len(c.G1.Nodes)) // p[i]: the node that becomes i
	inv := make([]int, len(p))
	var g SGraph
	for i, o := range p {
		inv[o] = i
		g.Nodes = append(g.Nodes, c.G1.Nodes[o])
	}
	for _, x := range c.G1.Edges {
		g.Edges = append(g.Edges, SEdge{inv[x.F], inv[x.T], x.C})
	}
	for _, m := range c.Muts {
		if len(g.Nodes) == 0 {
			break
		}
		if m.Kind == "nclass" {
			g.Nodes[mod(m.A, len(g.Nodes))] = m.C
			continue
		}
		if m.Kind == "addnode" {
			g.Nodes = append(g.Nodes, g.Nodes[mod(m.A, len(g.Nodes))])
			continue
		}
		if m.Kind == "delnode" { // its edges go elsewhere
			last := len(g.Nodes) - 1
			if last == 0 {
				continue
			}
			g.Nodes = g.Nodes[:last]
			for i := range g.Edges {
				g.Edges[i].F, g.Edges[i].T = g.Edges[i].F%last, g.Edges[i].T%last
			}
			continue
		}
		if m.Kind == "add" {
			g.Edges = append(g.Edges, SEdge{mod(m.A, len(g.Nodes)), mod(m.B, len(g.Nodes)), m.C})
			continue
		}
		if len(g.Edges) == 0 {
			continue
		}
		a, b := mod(m.A, len(g.Edges)), mod(m.B, len(g.Edges))
		switch m.Kind {
		case "flip":
			g.Edges[a].F, g.Edges[a].T = g.Edges[a].T, g.Edges[a].F
		case "from":
			g.Edges[a].F = mod(m.B, len(g.Nodes))
		case "to":
			g.Edges[a].T = mod(m.B, len(g.Nodes))
		case "swap": // keeps all degrees
			g.Edges[a].T, g.Edges[b].T = g.Edges[b].T, g.Edges[a].T
		case "class":
			g.Edges[a].C = m.C
		case "classes":
			g.Edges[a].C, g.Edges[b].C = g.Edges[b].C, g.Edges[a].C
		case "del":
			g.Edges = append(g.Edges[:a:a], g.Edges[a+1:]...)
		case "dup": // another parallel edge instead of some edge
			g.Edges[a] = SEdge{g.Edges[b].F, g.Edges[b].T, g.Edges[a].C}
		}
	}
	return g
}

func (s SGraph) coarse(c int) SGraph {
	r := SGraph{Nodes: append([]int(nil), s.Nodes...), Edges: append([]SEdge(nil), s.Edges...)}
	if c&1 != 0 {
		for i := range r.Nodes {
			r.Nodes[i] = 0
		}
	}
	if c&2 != 0 {
		for i := range r.Edges {
			r.Edges[i].C = 0
		}
	}
	return r
}

var errOwnCtx = errors.New("the context's own error")

// ownCtx is a context whose error is its own.
type ownCtx struct {
	context.Context
	err error
}

func (c *ownCtx) Err() error {
	if c.Context.Err() == nil {
		return nil
	}
	return c.err
}

type tooLong struct{}

// checkIso runs CheckIsomorphism. limit bounds the callbacks after cancellation.
func checkIso(c IsoCase, g1, g2 *lpg.Graph, limit int, timeout time.Duration) (ok bool, err error, cancelled bool, stopped bool, symErr error) {
	base, stop := context.WithCancel(context.Background())
	defer stop()
	var flag atomic.Bool
	cancel := func() {
		flag.Store(true)
		stop()
	}
	if timeout > 0 {
		defer time.AfterFunc(timeout, cancel).Stop()
	}
	want := context.Canceled
	var ctx context.Context = base
	switch c.CtxErr {
	case 1:
		ctx = &ownCtx{base, errOwnCtx}
		want = errOwnCtx
	case 2:
		ctx = &ownCtx{base, context.DeadlineExceeded}
		want = context.DeadlineExceeded
	}
	if c.Cancel == 0 {
		cancel()
	}
	n := 0
	after := 0
	tick := func() {
		n++
		if c.Cancel > 0 && n == c.Cancel {
			cancel()
		}
		if flag.Load() {
			after++
			if after > limit {
				panic(tooLong{})
			}
		}
	}
	stopped = true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tooLong); ok {
					stopped = false
					return
				}
				panic(r)
			}
		}()
		ok, err = lpg.CheckIsomorphism(ctx, g1, g2, func(a, b *lpg.Node) bool {
			tick()
			if a.GetGraph() != g1 || b.GetGraph() != g2 {
				symErr = fmt.Errorf("the node function is called with nodes of other graphs")
			}
			if c.Coarse&1 != 0 {
				return true
			}
			x, _ := a.GetProperty("c")
			y, _ := b.GetProperty("c")
			return x == y
		}, func(a, b *lpg.Edge) bool {
			tick()
			if a.GetGraph() != g1 || b.GetGraph() != g2 {
				symErr = fmt.Errorf("the edge function is called with edges of other graphs")
			}
			return c.Coarse&2 != 0 || edgeClass(a) == edgeClass(b)
		})
	}()
	cancelled = flag.Load()
	if err != nil && symErr == nil {
		if !cancelled {
			symErr = fmt.Errorf("an error though the context is not cancelled: %v", err)
		} else if err != want {
			symErr = fmt.Errorf("the error is %v, the context's is %v", err, want)
		}
	}
	return
}

func runIso(c IsoCase, ctx *Ctx) error {
	s2 := c.second()
	if len(c.G1.Nodes) >= 2 && len(c.G1.Edges) >= 1 {
		ctx.NonTrivial()
	}
	// the search may go through every assignment of equivalent nodes
	size := map[int]int{}
	product := 1
	for _, cl := range s2.coarse(c.Coarse).Nodes {
		size[cl]++
	}
	for _, cl := range c.G1.coarse(c.Coarse).Nodes {
		if size[cl] > 0 {
			product *= size[cl]
		}
		if product > 20000 {
			return nil
		}
	}
	m, ierr := iso(c.G1.coarse(c.Coarse).agraph(), s2.coarse(c.Coarse).agraph())
	if m == nil && ierr == nil {
		return nil // undecided
	}
	want := ierr == nil
	if want {
		ctx.Class("isomorphic")
	} else {
		ctx.Class("not isomorphic")
		ctx.ClassIf(len(c.G1.Nodes) == len(s2.Nodes) && len(c.G1.Edges) == len(s2.Edges), "not isomorphic, same sizes")
	}
	g1, g2 := c.G1.buildDeco(nil, c.Deco1), s2.buildDeco(c.Order, c.Deco2)
	for turn := 0; turn < 2; turn++ { // the relation is symmetric
		ok, err, cancelled, stopped, bad := checkIso(c, g1, g2, 2000000, 0)
		if bad != nil {
			return bad
		}
		if !stopped {
			return fmt.Errorf("does not stop after the context is cancelled")
		}
		ctx.ClassIf(cancelled, "cancelled")
		ctx.ClassIf(err != nil, "stopped by the context")
		if err == nil && ok != want {
			return fmt.Errorf("CheckIsomorphism is %v, expected %v (%v)", ok, want, ierr)
		}
		if err != nil && ok {
			return fmt.Errorf("CheckIsomorphism is true with an error")
		}
		g1, g2 = g2, g1
	}
	return nil
}

type HardIso struct {
	N      int `json:"n"`
	Cancel int `json:"cancel"`
	CtxErr int `json:"ctxerr"`
	Shape  int `json:"shape"`
}

// runHardIso cancels a search that would take years: two graphs that are alike
// in every local respect and not isomorphic.
func runHardIso(c HardIso, ctx *Ctx) error {
	ctx.NonTrivial()
	var a, b SGraph
	for i := 0; i < c.N; i++ {
		a.Nodes = append(a.Nodes, 0)
		b.Nodes = append(b.Nodes, 0)
	}
	switch mod(c.Shape, 3) {
	case 2: // many nodes, all alike: the node function alone is called N*N times
		ctx.Class("many nodes")
		n := c.N * 8
		var g SGraph
		g.Nodes = make([]int, n)
		ic := IsoCase{Cancel: 1 + mod(c.Cancel*n, n*n/4), CtxErr: c.CtxErr}
		_, _, _, stopped, bad := checkIso(ic, g.build(nil), g.build(nil), n*n/2, 0)
		if bad != nil {
			return bad
		}
		if !stopped {
			return fmt.Errorf("the context is cancelled in call %d, and the node function is called %d times more", ic.Cancel, n*n/2)
		}
		return nil
	case 0: // one ring against two
		h := c.N / 2
		for i := 0; i < c.N; i++ {
			a.Edges = append(a.Edges, SEdge{F: i, T: (i + 1) % c.N})
			if i < h {
				b.Edges = append(b.Edges, SEdge{F: i, T: (i + 1) % h})
			} else {
				b.Edges = append(b.Edges, SEdge{F: i, T: h + (i+1-h)%(c.N-h)})
			}
		}
	case 1: // degrees differ
		for i := 1; i < c.N; i++ {
			a.Edges = append(a.Edges, SEdge{F: 0, T: i})
			b.Edges = append(b.Edges, SEdge{F: i - 1, T: i})
		}
	}
	ic := IsoCase{Cancel: c.Cancel, CtxErr: c.CtxErr}
	ok, _, cancelled, stopped, bad := checkIso(ic, a.build(nil), b.build(nil), 2000000, 300*time.Millisecond)
	if bad != nil {
		return bad
	}
	if ok {
		return fmt.Errorf("CheckIsomorphism is true for graphs that are not isomorphic")
	}
	if !stopped {
		return fmt.Errorf("does not stop after the context is cancelled")
	}
	ctx.ClassIf(cancelled, "cancelled")
	return nil
}

func init() {
	register("C15", "pairs", "pairs of small multigraphs with node and edge classes: permuted copies, copies with mutations (degree-preserving swaps among them), independent ones; both ways round; some with a context cancelled in a callback; non-trivial: at least 2 nodes and an edge",
		6000, genIso, runIso)
	register("C15", "big", "the same with 11 to 90 nodes, of which up to 5 pairs are of one class, and up to 140 edges; non-trivial: at least 2 nodes and an edge",
		1500, genBigIso, runIso)
	register("C15", "cancel", "hard pairs of 12 to 20 nodes, and of over 100 nodes all alike, with a context cancelled before or during the call; all are non-trivial",
		60, func(t *rapid.T) HardIso {
			return HardIso{N: rapid.IntRange(12, 20).Draw(t, "n"), Cancel: rapid.IntRange(0, 600).Draw(t, "cancel"), CtxErr: rapid.IntRange(0, 2).Draw(t, "ctxerr"), Shape: rapid.IntRange(0, 2).Draw(t, "shape")}
		}, runHardIso)
}
