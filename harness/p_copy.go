package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// CopyStep is one step of a history over two graphs: a mutation of graph G, or a
// copy from graph G to the other one (or to itself, if Same).
type CopyStep struct {
	Do    string `json:"do"`
	G     int    `json:"g"`
	Op    *Op    `json:"op,omitempty"`
	A     int    `json:"a,omitempty"`
	B     int    `json:"b,omitempty"`
	C     int    `json:"c,omitempty"`
	Same  bool   `json:"same,omitempty"`
	Clone int    `json:"clone,omitempty"` // 0 identity, 1 change
	Reg   int    `json:"reg,omitempty"`   // node map used
	Sel   int    `json:"sel,omitempty"`   // selection of nodes (bits)
	ESel  int    `json:"esel,omitempty"`
	Merge bool   `json:"merge,omitempty"`
}

type CopyCase struct {
	Source []Op       `json:"source"`
	Target []Op       `json:"target"`
	Steps  []CopyStep `json:"steps"`
}

// cloneVal is what the clone function of a case makes of a value. It stays
// within the class of the key.
func cloneVal(mode int, key string, v Val) Val {
	if mode == 0 {
		return v
	}
	if v.K == "W" {
		return vWrap(cloneVal(mode, key, v.L[0]))
	}
	switch v.K {
	case "i":
		return vInt(v.I ^ 1)
	case "s":
		return vStr(v.S + "+" + key)
	case "I", "L":
		if keyClass(key) == "sl" {
			return Val{K: v.K, L: append(append([]Val(nil), v.L...), vStr("+"))}
		}
		return Val{K: v.K, L: append(append([]Val(nil), v.L...), vInt(9))}
	case "S":
		return Val{K: v.K, L: append(append([]Val(nil), v.L...), vStr("+"))}
	case "z":
		return vStr("was nil")
	}
	return v
}

func cloneProps(mode int, m map[string]Val) map[string]Val {
	r := map[string]Val{}
	for k, v := range m {
		r[k] = cloneVal(mode, k, v)
	}
	return r
}

func cloneFunc(mode int) func(string, interface{}) interface{} {
	return func(key string, v interface{}) interface{} {
		if mode == 0 {
			return v
		}
		return cloneVal(mode, key, toVal(v)).Go()
	}
}

// expEdge is an edge that must have appeared.
type expEdge struct {
	from, to *MNode
	label    string
	props    map[string]Val
}

func (x expEdge) sig() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "n%d->n%d %q", x.from.num, x.to.num, x.label)
	for _, k := range sortedKeys(x.props) {
		sb.WriteString(" " + strconv.Quote(k) + ":" + x.props[k].key())
	}
	return sb.String()
}

// adoptCopy takes h into the model as the copy of src.
func (e *Env) adoptCopy(h *lpg.Node, src *MNode, mode int) (*MNode, error) {
	if h == nil {
		return nil, fmt.Errorf("no copy of %s", src)
	}
	if e.byNode[h] != nil {
		return nil, fmt.Errorf("the copy of %s is %s, which was there before", src, e.byNode[h])
	}
	labels := map[string]bool{}
	for l := range src.labels {
		labels[l] = true
	}
	return e.adopt(h, labels, cloneProps(mode, src.props)), nil
}

func (e *Env) adoptNewEdges(exp []expEdge) error {
	bySig := map[string][]expEdge{}
	for _, x := range exp {
		bySig[x.sig()] = append(bySig[x.sig()], x)
	}
	edges, err := drainEdges("GetEdges", e.g.GetEdges())
	if err != nil {
		return err
	}
	for _, h := range edges {
		if e.byEdge[h] != nil {
			continue
		}
		f, t := e.byNode[h.GetFrom()], e.byNode[h.GetTo()]
		if f == nil || t == nil {
			return fmt.Errorf("a new edge is connected to a node that is not in the graph")
		}
		g := expEdge{f, t, h.GetLabel(), valProps(h)}
		s := g.sig()
		l := bySig[s]
		if len(l) == 0 {
			return fmt.Errorf("unexpected new edge %s", s)
		}
		bySig[s] = l[1:]
		e.adoptEdge(h, l[0].from, l[0].to, l[0].label, l[0].props)
	}
	for _, s := range sortedKeys(bySig) {
		if len(bySig[s]) > 0 {
			return fmt.Errorf("no copy of edge %s", s)
		}
	}
	return nil
}

func (e *Env) adoptEdgeCopy(h *lpg.Edge, x *MEdge, from, to *MNode, mode int) error {
	if h == nil {
		return fmt.Errorf("no copy of %s", x)
	}
	if e.byEdge[h] != nil {
		return fmt.Errorf("the copy of %s is %s, which was there before", x, e.byEdge[h])
	}
	if h.GetFrom() != from.h || h.GetTo() != to.h {
		return fmt.Errorf("the copy of %s connects other nodes", x)
	}
	e.adoptEdge(h, from, to, x.label, cloneProps(mode, x.props))
	return nil
}

func (e *Env) reachable(n *MNode, stop func(*MNode) bool) map[*MNode]bool {
	seen := map[*MNode]bool{}
	work := []*MNode{n}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[n] || stop(n) {
			continue
		}
		seen[n] = true
		for _, x := range e.edges {
			if x.from == n {
				work = append(work, x.to)
			}
		}
	}
	return seen
}

// mapReg is a node map shared by several calls, with its model.
type mapReg struct {
	m     map[*lpg.Node]*lpg.Node
	model map[*MNode]*MNode
}

func newReg() *mapReg { return &mapReg{map[*lpg.Node]*lpg.Node{}, map[*MNode]*MNode{}} }

// check compares the node map with its model and takes copies that are new into
// the model of the target.
func (r *mapReg) take(src, dst *Env, want map[*MNode]bool, mode int) error {
	for h, c := range r.m {
		if src.byNode[h] == nil {
			return fmt.Errorf("the node map has a key that is not a source node")
		}
		if c == nil {
			return fmt.Errorf("the node map has nil for %s", src.byNode[h])
		}
	}
	for _, n := range src.nodes {
		c, ok := r.m[n.h]
		if old := r.model[n]; old != nil {
			if c != old.h {
				return fmt.Errorf("the entry of %s in the node map changed", n)
			}
			continue
		}
		if ok != want[n] {
			return fmt.Errorf("%s: in the node map: %v, expected %v", n, ok, want[n])
		}
		if !ok {
			continue
		}
		m, err := dst.adoptCopy(c, n, mode)
		if err != nil {
			return err
		}
		r.model[n] = m
	}
	return nil
}

func runCopyCase(c CopyCase, ctx *Ctx) error {
	es := []*Env{newEnv(), newEnv()}
	es[0].runAll(c.Source)
	es[1].runAll(c.Target)
	var regs [2][3]*mapReg
	reset := func() {
		for g := range regs {
			for i := range regs[g] {
				regs[g][i] = newReg()
			}
		}
	}
	reset()
	ctx.ClassIf(len(es[1].nodes) > 0, "populated target")
	ctx.ClassIf(len(es[1].nindex)+len(es[1].eindex) > 0, "indexed target")
	mutatedAfter := false
	for i, s := range c.Steps {
		src, dst := es[s.G], es[1-s.G]
		if len(src.nodes)+len(dst.nodes) > 250 || len(src.edges)+len(dst.edges) > 500 {
			break
		}
		fail := func(err error) error { return fmt.Errorf("step %d (%s): %w", i, s.Do, err) }
		clone := cloneFunc(s.Clone)
		switch s.Do {
		case "op":
			if s.Op == nil {
				continue
			}
			src.apply(*s.Op)
			reset()
			mutatedAfter = mutatedAfter || ctx.classes["copied"] > 0
		case "graph":
			m := lpg.CopyGraph(src.g, dst.g, clone)
			r := &mapReg{m, map[*MNode]*MNode{}}
			all := map[*MNode]bool{}
			for _, n := range src.nodes {
				all[n] = true
			}
			if err := r.take(src, dst, all, s.Clone); err != nil {
				return fail(err)
			}
			var exp []expEdge
			for _, x := range src.edges {
				exp = append(exp, expEdge{r.model[x.from], r.model[x.to], x.label, cloneProps(s.Clone, x.props)})
			}
			if len(exp) > 0 {
				ctx.NonTrivial()
			}
			if err := dst.adoptNewEdges(exp); err != nil {
				return fail(err)
			}
			ctx.Class("copied")
		case "sub":
			n := src.node(s.A)
			if n == nil {
				continue
			}
			r := regs[s.G][mod(s.Reg, 3)]
			had := len(r.model)
			want := src.reachable(n, func(x *MNode) bool { return r.model[x] != nil })
			lpg.CopySubgraph(n.h, dst.g, clone, r.m)
			if err := r.take(src, dst, want, s.Clone); err != nil {
				return fail(err)
			}
			var exp []expEdge
			for _, x := range src.edges {
				if want[x.from] {
					exp = append(exp, expEdge{r.model[x.from], r.model[x.to], x.label, cloneProps(s.Clone, x.props)})
				}
			}
			if len(exp) > 0 {
				ctx.NonTrivial()
				ctx.ClassIf(had > 0, "second call added something")
			}
			ctx.ClassIf(len(want) < len(src.nodes) && len(want) > 1, "proper part")
			if err := dst.adoptNewEdges(exp); err != nil {
				return fail(err)
			}
			ctx.Class("copied")
		case "graphf":
			if err := copyGraphf(src, dst, s, ctx); err != nil {
				return fail(err)
			}
			ctx.Class("copied")
		case "node":
			n := src.node(s.A)
			if n == nil {
				continue
			}
			if s.Same {
				dst = src
				reset()
			}
			if _, err := dst.adoptCopy(lpg.CopyNode(n.h, dst.g, clone), n, s.Clone); err != nil {
				return fail(err)
			}
			ctx.NonTrivial()
			ctx.Class("copied")
		case "edge", "clone":
			x := src.edge(s.A)
			if s.Same {
				dst = src
				reset()
			}
			if x == nil || len(dst.nodes) == 0 {
				continue
			}
			f, t := dst.node(s.B), dst.node(s.C)
			if x.from == x.to && s.Do == "edge" {
				t = f
			}
			var h *lpg.Edge
			if s.Do == "edge" {
				m := map[*lpg.Node]*lpg.Node{x.from.h: f.h, x.to.h: t.h}
				k := len(m)
				h = lpg.CopyEdge(x.h, dst.g, clone, m)
				if len(m) != k || m[x.from.h] != f.h || m[x.to.h] != t.h {
					return fail(fmt.Errorf("the node map changed"))
				}
			} else {
				h = lpg.CloneEdge(f.h, t.h, x.h, dst.g, clone)
			}
			if err := dst.adoptEdgeCopy(h, x, f, t, s.Clone); err != nil {
				return fail(err)
			}
			ctx.NonTrivial()
			ctx.Class("copied")
		case "dec":
			reset()
			if err := decodeInto(dst, mod(s.A, 4), mod(s.B, 4)); err != nil {
				return fail(err)
			}
			ctx.Class("decoded")
		default:
			bug("copy step %q", s.Do)
		}
		for k, e := range es {
			if err := e.checkContents(); err != nil {
				return fmt.Errorf("after step %d (%s from %d), graph %d: %w", i, s.Do, s.G, k, err)
			}
			if err := e.checkProps(); err != nil {
				return fmt.Errorf("after step %d (%s from %d), graph %d: %w", i, s.Do, s.G, k, err)
			}
			if s.Do != "op" || i == len(c.Steps)-1 {
				if err := e.checkAll(); err != nil {
					return fmt.Errorf("after step %d (%s from %d), graph %d: %w", i, s.Do, s.G, k, err)
				}
			}
		}
	}
	ctx.ClassIf(mutatedAfter, "mutated after copying")
	return probeItems(es...)
}

// decodeInto decodes a document of n nodes and m edges between them into the
// graph and takes them into the model.
func decodeInto(e *Env, n, m int) error {
	var sb strings.Builder
	sb.WriteString(`{"nodes":[`)
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteString(",")
		}
		fmt.Fprintf(&sb, `{"n":%d,"labels":["A"],"properties":{"s0":"d%d"}}`, i, i)
	}
	sb.WriteString(`],"edges":[`)
	var exp []expEdge
	if n == 0 {
		m = 0
	}
	for i := 0; i < m; i++ {
		if i > 0 {
			sb.WriteString(",")
		}
		fmt.Fprintf(&sb, `{"from":%d,"to":%d,"label":"B","properties":{"s0":"x%d"}}`, i%n, (i+1)%n, i)
	}
	sb.WriteString("]}")
	if err := (lpg.JSON{}).Decode(e.g, json.NewDecoder(strings.NewReader(sb.String()))); err != nil {
		return fmt.Errorf("decoding %s: %w", sb.String(), err)
	}
	nodes, err := drainNodes("GetNodes", e.g.GetNodes())
	if err != nil {
		return err
	}
	made := map[string]*MNode{}
	for _, h := range nodes {
		if e.byNode[h] != nil {
			continue
		}
		v, _ := h.GetProperty("s0")
		s, ok := v.(string)
		if !ok || made[s] != nil {
			return fmt.Errorf("unexpected decoded node with s0=%v", v)
		}
		made[s] = e.adopt(h, map[string]bool{"A": true}, map[string]Val{"s0": vStr(s)})
	}
	for i := 0; i < n; i++ {
		if made[fmt.Sprintf("d%d", i)] == nil || len(made) != n {
			return fmt.Errorf("decoded node %d of %d is missing, or there are others", i, n)
		}
	}
	for i := 0; i < m; i++ {
		exp = append(exp, expEdge{made[fmt.Sprintf("d%d", i%n)], made[fmt.Sprintf("d%d", (i+1)%n)], "B", map[string]Val{"s0": vStr(fmt.Sprintf("x%d", i))}})
	}
	return e.adoptNewEdges(exp)
}

func copyGraphf(src, dst *Env, s CopyStep, ctx *Ctx) error {
	clone := cloneFunc(s.Clone)
	sel := func(n *MNode) bool { return s.Sel == 0 || (s.Sel>>(uint(n.num)%6))&1 == 1 }
	esel := func(x *MEdge) bool { return s.ESel == 0 || (s.ESel>>(uint(x.num)%4))&1 == 1 }
	seen := map[*MNode]int{}
	eseen := map[*MEdge]int{}
	model := map[*MNode]*MNode{}
	var first *MNode
	var bad error
	var nm map[*lpg.Node]*lpg.Node
	fail := func(f string, a ...any) {
		if bad == nil {
			bad = fmt.Errorf(f, a...)
		}
	}
	same := func(m map[*lpg.Node]*lpg.Node) {
		if len(m) != len(model) {
			fail("the node map has %d entries, expected %d", len(m), len(model))
		}
		for n, c := range model {
			if m[n.h] != c.h {
				fail("the entry of %s in the node map is wrong", n)
			}
		}
	}
	nm = lpg.CopyGraphf(src.g, func(h *lpg.Node, m map[*lpg.Node]*lpg.Node) *lpg.Node {
		n := src.byNode[h]
		if n == nil {
			fail("a node that is not in the source is offered")
			return nil
		}
		seen[n]++
		same(m)
		if !sel(n) {
			return nil
		}
		if s.Merge && first != nil {
			model[n] = first
			return first.h
		}
		c := lpg.CopyNode(h, dst.g, clone)
		cm, err := dst.adoptCopy(c, n, s.Clone)
		if err != nil {
			fail("%v", err)
			return c
		}
		model[n] = cm
		if first == nil {
			first = cm
		}
		return c
	}, func(h *lpg.Edge, m map[*lpg.Node]*lpg.Node) *lpg.Edge {
		x := src.byEdge[h]
		if x == nil {
			fail("an edge that is not in the source is offered")
			return nil
		}
		eseen[x]++
		same(m)
		if model[x.from] == nil || model[x.to] == nil {
			fail("%s is offered though its ends were not both copied", x)
			return nil
		}
		if !esel(x) {
			return nil
		}
		c := lpg.CopyEdge(h, dst.g, clone, m)
		if err := dst.adoptEdgeCopy(c, x, model[x.from], model[x.to], s.Clone); err != nil {
			fail("%v", err)
		}
		return c
	})
	if bad != nil {
		return bad
	}
	for _, n := range src.nodes {
		if seen[n] != 1 {
			return fmt.Errorf("%s is offered %d times", n, seen[n])
		}
	}
	for _, x := range src.edges {
		want := 0
		if model[x.from] != nil && model[x.to] != nil {
			want = 1
			ctx.NonTrivial()
		} else {
			ctx.Class("edge with an end that is not copied")
		}
		if eseen[x] != want {
			return fmt.Errorf("%s is offered %d times, expected %d", x, eseen[x], want)
		}
	}
	same(nm)
	return bad
}

func genCopyCase(kinds []string, minSteps int) func(*rapid.T) CopyCase {
	return func(t *rapid.T) CopyCase {
		opt := HistOpt{MaxOps: 22, BulkOneIn: 25, BulkMax: 25}
		c := CopyCase{Source: genOps(t, opt)}
		if rapid.Bool().Draw(t, "populated") {
			c.Target = genOps(t, HistOpt{MaxOps: 12})
		}
		step := rapid.Custom(func(t *rapid.T) CopyStep {
			s := CopyStep{Do: rapid.SampledFrom(kinds).Draw(t, "do"), G: rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "g")}
			ix := func(n string) int { return rapid.IntRange(0, 30).Draw(t, n) }
			switch s.Do {
			case "op":
				s.G = rapid.IntRange(0, 1).Draw(t, "og")
				ops := genOps(t, HistOpt{MaxOps: 1})
				if len(ops) > 0 {
					s.Op = &ops[0]
				}
				return s
			case "sub":
				s.A, s.Reg = ix("a"), rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "reg")
			case "graphf":
				s.Sel = rapid.SampledFrom([]int{0, 63, 31, 1, 2, 21, 42, 62, 3}).Draw(t, "sel")
				s.ESel = rapid.SampledFrom([]int{0, 15, 1, 5}).Draw(t, "esel")
				s.Merge = rapid.IntRange(0, 5).Draw(t, "merge") == 0
			case "node", "edge", "clone", "dec":
				s.A, s.B, s.C = ix("a"), ix("b"), ix("c")
				s.Same = rapid.IntRange(0, 3).Draw(t, "same") == 0
			}
			s.Clone = rapid.IntRange(0, 1).Draw(t, "clone")
			return s
		})
		c.Steps = rapid.SliceOfN(step, minSteps, minSteps+6).Draw(t, "steps")
		return c
	}
}

type DeepCase struct {
	N     int `json:"n"`
	Shape int `json:"shape"`
	Start int `json:"start"`
}

func runDeep(c DeepCase, ctx *Ctx) error {
	ctx.NonTrivial()
	src, dst := lpg.NewGraph(), lpg.NewGraph()
	nodes := make([]*lpg.Node, c.N)
	for i := range nodes {
		nodes[i] = src.NewNode([]string{"L"}, map[string]any{"i": i})
	}
	edges := 0
	edge := func(i, j int) { src.NewEdge(nodes[i], nodes[j], "e", nil); edges++ }
	for i := 0; i+1 < c.N; i++ {
		edge(i, i+1)
	}
	start := mod(c.Start, c.N)
	wantN := c.N - start
	wantE := wantN - 1
	switch mod(c.Shape, 3) {
	case 0:
		ctx.Class("chain")
	case 1: // ring
		ctx.Class("ring")
		edge(c.N-1, 0)
		wantN, wantE = c.N, c.N
	case 2: // chain with back edges and loops
		ctx.Class("ladder")
		for i := 1; i < c.N; i++ {
			edge(i, i-1)
		}
		for i := 0; i < c.N; i++ {
			edge(i, i)
		}
		wantN, wantE = c.N, 3*c.N-2
	}
	nm := map[*lpg.Node]*lpg.Node{}
	lpg.CopySubgraph(nodes[start], dst, func(_ string, v interface{}) interface{} { return v }, nm)
	if dst.NumNodes() != wantN || dst.NumEdges() != wantE || len(nm) != wantN {
		return fmt.Errorf("%d nodes and %d edges copied (%d in the map), expected %d and %d", dst.NumNodes(), dst.NumEdges(), len(nm), wantN, wantE)
	}
	if src.NumNodes() != c.N || src.NumEdges() != edges {
		return fmt.Errorf("the source changed")
	}
	for n, m := range nm {
		a, _ := n.GetProperty("i")
		b, _ := m.GetProperty("i")
		if a != b || m.GetGraph() != dst {
			return fmt.Errorf("the copy of node %v has %v", a, b)
		}
		x, y := lpg.TargetNodes(m.GetEdges(lpg.OutgoingEdge)), lpg.TargetNodes(n.GetEdges(lpg.OutgoingEdge))
		if len(x) != len(y) {
			return fmt.Errorf("the copy of node %v has %d targets, expected %d", a, len(x), len(y))
		}
		in := map[*lpg.Node]bool{}
		for _, t := range x {
			in[t] = true
		}
		for _, t := range y {
			if !in[nm[t]] {
				return fmt.Errorf("the copy of node %v is not connected to the copy of a target", a)
			}
		}
	}
	return nil
}

func init() {
	register("C13", "copygraph", "source and target histories with indexes, CopyGraph with identity and changing clone functions in both directions, later mutations of both; the two models are checked after every step; non-trivial: an edge was copied",
		1500, genCopyCase([]string{"graph", "graph", "op", "op"}, 1), runCopyCase)
	register("C14", "partial", "histories and sequences of CopySubgraph with shared node maps, CopyGraphf with selections, CopyNode, CopyEdge, CloneEdge and mutations; non-trivial: something was copied",
		1500, genCopyCase([]string{"sub", "sub", "sub", "graphf", "graphf", "node", "edge", "clone", "op"}, 2), runCopyCase)
	register("C27", "copies", "histories of two graphs with copies of nodes, edges, parts and whole graphs between them and within one, and decoding into them: identifiers distinct and stable, items of their graph; non-trivial: something was copied",
		1000, genCopyCase([]string{"graph", "sub", "graphf", "node", "node", "edge", "clone", "dec", "op", "op", "op"}, 2), runCopyCase)
	register("C14", "deep", "CopySubgraph on chains, rings and ladders of up to 4000 nodes; all are non-trivial",
		8, func(t *rapid.T) DeepCase {
			return DeepCase{N: rapid.IntRange(2, 4000).Draw(t, "n"), Shape: rapid.IntRange(0, 2).Draw(t, "shape"), Start: rapid.IntRange(0, 4000).Draw(t, "start")}
		}, runDeep)
}
