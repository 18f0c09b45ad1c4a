package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// The op "rb" replaces the graph of a history with one made from it: decoded
// from its encoding, or copied. What holds for every reachable graph holds for
// it as well. Whether the new graph is right is not the question here (C08,
// C13 and C14 ask it): if its items are not those of the old graph, or making
// it fails, the history goes on with the old graph.

const rbTag = "\x01tag"

func propsKey(m map[string]any) string {
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&b, "%q=%s;", k, valKey(m[k]))
	}
	return b.String()
}

func heldProps(h propHolder) map[string]any {
	m := map[string]any{}
	h.ForEachProperty(func(k string, v interface{}) bool {
		m[k] = v
		return len(m) < 1000
	})
	return m
}

func modelProps(m map[string]Val) map[string]any {
	r := map[string]any{}
	for k, v := range m {
		r[k] = v.Go()
	}
	return r
}

// remake applies the op. It tells whether the graph was replaced.
func (e *Env) remake(op Op) bool {
	g := lpg.NewGraph()
	nindex, eindex := map[string]bool{}, map[string]bool{}
	index := func(on *lpg.Graph) {
		for _, k := range sortedKeys(e.nindex) {
			kinds := indexKinds(k)
			on.AddNodePropertyIndex(k, idxType(kinds[mod(op.N, len(kinds))]))
			nindex[k] = true
		}
		for _, k := range sortedKeys(e.eindex) {
			kinds := indexKinds(k)
			on.AddEdgePropertyIndex(k, idxType(kinds[mod(op.N/2, len(kinds))]))
			eindex[k] = true
		}
	}
	if mod(op.B, 3) == 0 {
		index(g)
	}
	same := func(_ string, v interface{}) interface{} { return v }
	nodes := map[*MNode]*lpg.Node{}
	func() {
		defer func() { recover() }()
		switch op.Kind {
		case "json", "jsonsep":
			for i, n := range e.nodes {
				n.h.SetProperty(rbTag, i)
			}
			defer func() {
				for _, n := range e.nodes {
					n.h.RemoveProperty(rbTag)
				}
			}()
			var vals []any
			j := lpg.JSON{
				MarshalEdgesSeparately: op.Kind == "jsonsep",
				PropertyMarshaler: func(k string, v interface{}) (string, json.RawMessage, error) {
					vals = append(vals, v)
					return "k" + k, json.RawMessage(fmt.Sprint(len(vals) - 1)), nil
				},
				PropertyUnmarshaler: func(k string, m json.RawMessage) (string, interface{}, error) {
					var i int
					if err := json.Unmarshal(m, &i); err != nil {
						return "", nil, err
					}
					return k[1:], vals[i], nil
				},
			}
			var b bytes.Buffer
			if j.Encode(e.g, &b) != nil || j.Decode(g, json.NewDecoder(&b)) != nil {
				return
			}
			all, err := drainNodes("", g.GetNodes())
			if err != nil {
				return
			}
			for _, h := range all {
				t, ok := h.GetProperty(rbTag)
				if i, isInt := t.(int); ok && isInt && i >= 0 && i < len(e.nodes) {
					nodes[e.nodes[i]] = h
				}
				h.RemoveProperty(rbTag)
			}
		default:
			var m map[*lpg.Node]*lpg.Node
			switch op.Kind {
			case "copy":
				m = lpg.CopyGraph(e.g, g, same)
			case "copyf":
				m = lpg.CopyGraphf(e.g, func(n *lpg.Node, _ map[*lpg.Node]*lpg.Node) *lpg.Node {
					return lpg.CopyNode(n, g, same)
				}, func(x *lpg.Edge, m map[*lpg.Node]*lpg.Node) *lpg.Edge {
					return lpg.CopyEdge(x, g, same, m)
				})
			case "sub":
				m = map[*lpg.Node]*lpg.Node{}
				for i := range e.nodes {
					lpg.CopySubgraph(e.node(op.A+i).h, g, same, m)
				}
			default:
				bug("bad rebuild %q", op.Kind)
			}
			for _, n := range e.nodes {
				if h := m[n.h]; h != nil {
					nodes[n] = h
				}
			}
		}
	}()

	// is it the same graph?
	if len(nodes) != len(e.nodes) || g.NumNodes() != len(e.nodes) || g.NumEdges() != len(e.edges) {
		return false
	}
	byNode := map[*lpg.Node]*MNode{}
	for n, h := range nodes {
		if byNode[h] != nil || h.GetGraph() != g {
			return false
		}
		byNode[h] = n
		l := append([]string(nil), h.GetLabels().Slice()...)
		sort.Strings(l)
		if fmt.Sprintf("%q", l) != fmt.Sprintf("%q", sortedKeys(n.labels)) || propsKey(heldProps(h)) != propsKey(modelProps(n.props)) {
			return false
		}
	}
	got, err := drainEdges("", g.GetEdges())
	if err != nil || len(got) != len(e.edges) {
		return false
	}
	key := func(from, to *MNode, label string, props map[string]any) string {
		return fmt.Sprintf("%d %d %q %s", from.num, to.num, label, propsKey(props))
	}
	byKey := map[string][]*lpg.Edge{}
	for _, h := range got {
		from, to := byNode[h.GetFrom()], byNode[h.GetTo()]
		if from == nil || to == nil {
			return false
		}
		k := key(from, to, h.GetLabel(), heldProps(h))
		byKey[k] = append(byKey[k], h)
	}
	byEdge := map[*lpg.Edge]*MEdge{}
	edges := map[*MEdge]*lpg.Edge{}
	for _, x := range e.edges {
		k := key(x.from, x.to, x.label, modelProps(x.props))
		l := byKey[k]
		if len(l) == 0 || byEdge[l[0]] != nil {
			return false
		}
		byKey[k] = l[1:]
		byEdge[l[0]] = x
		edges[x] = l[0]
	}

	// go on with it
	if mod(op.B, 3) == 1 {
		index(g)
	}
	e.g, e.byNode, e.byEdge, e.nindex, e.eindex = g, byNode, byEdge, nindex, eindex
	for n, h := range nodes {
		n.h, n.id = h, h.GetID()
	}
	for x, h := range edges {
		x.h, x.id = h, h.GetID()
	}
	return true
}
