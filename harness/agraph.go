package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// AGraph is a graph as plain data: node signatures and edges with signatures.
// Two graphs are the same graph if AGraphs are isomorphic.
type AGraph struct {
	nodes []string
	edges []AEdge
}

type AEdge struct {
	from, to int
	sig      string
}

func sigOf(labels []string, props map[string]string) string {
	var sb strings.Builder
	l := append([]string(nil), labels...)
	sort.Strings(l)
	for i, x := range l {
		if i > 0 && l[i-1] == x {
			continue
		}
		sb.WriteString(strconv.Quote(x))
		sb.WriteByte(',')
	}
	sb.WriteByte('|')
	for _, k := range sortedKeys(props) {
		sb.WriteString(strconv.Quote(k) + "=" + props[k] + ";")
	}
	return sb.String()
}

// modelGraph is the AGraph of the model.
func (e *Env) modelGraph(conv func(Val) string) *AGraph {
	g := &AGraph{}
	ix := map[*MNode]int{}
	p := func(m map[string]Val) map[string]string {
		r := map[string]string{}
		for k, v := range m {
			r[k] = conv(v)
		}
		return r
	}
	for i, n := range e.nodes {
		ix[n] = i
		g.nodes = append(g.nodes, sigOf(sortedKeys(n.labels), p(n.props)))
	}
	for _, x := range e.edges {
		g.edges = append(g.edges, AEdge{ix[x.from], ix[x.to], sigOf([]string{x.label}, p(x.props))})
	}
	return g
}

// lpgGraph reads a graph through its enumerations.
func lpgGraph(g *lpg.Graph, conv func(any) string) (*AGraph, error) {
	a := &AGraph{}
	ix := map[*lpg.Node]int{}
	nodes, err := drainNodes("GetNodes", g.GetNodes())
	if err != nil {
		return nil, err
	}
	props := func(h propHolder) map[string]string {
		r := map[string]string{}
		h.ForEachProperty(func(k string, v interface{}) bool {
			r[k] = conv(v)
			return true
		})
		return r
	}
	for i, n := range nodes {
		if _, dup := ix[n]; dup {
			return nil, fmt.Errorf("GetNodes yields a node twice")
		}
		ix[n] = i
		a.nodes = append(a.nodes, sigOf(n.GetLabels().Slice(), props(n)))
	}
	edges, err := drainEdges("GetEdges", g.GetEdges())
	if err != nil {
		return nil, err
	}
	for _, x := range edges {
		f, ok1 := ix[x.GetFrom()]
		t, ok2 := ix[x.GetTo()]
		if !ok1 || !ok2 {
			return nil, fmt.Errorf("an edge is connected to a node that is not enumerated")
		}
		a.edges = append(a.edges, AEdge{f, t, sigOf([]string{x.GetLabel()}, props(x))})
	}
	return a, nil
}

// jsonCanon is the canonical text of a value after a trip through JSON.
func jsonCanon(x any) string {
	switch v := x.(type) {
	case int:
		return valKey(float64(v))
	case json.Number:
		f, err := strconv.ParseFloat(string(v), 64)
		if err != nil {
			return "?" + string(v)
		}
		return valKey(f)
	case []int:
		r := make([]interface{}, len(v))
		for i, e := range v {
			r[i] = float64(e)
		}
		return valKey(r)
	case []string:
		r := make([]interface{}, len(v))
		for i, e := range v {
			r[i] = e
		}
		return valKey(r)
	case []interface{}:
		var sb strings.Builder
		sb.WriteString("L[")
		for _, s := range v {
			sb.WriteString(jsonCanon(s) + ",")
		}
		return sb.String() + "]"
	case map[string]interface{}:
		var sb strings.Builder
		sb.WriteString("M{")
		for _, k := range sortedKeys(v) {
			sb.WriteString(strconv.Quote(k) + ":" + jsonCanon(v[k]) + ",")
		}
		return sb.String() + "}"
	}
	return valKey(x)
}

func jsonCanonVal(v Val) string { return jsonCanon(v.Go()) }

// ---------------------------------------------------------------- isomorphism

// iso says whether a and b are the same graph up to numbering, by colour
// refinement and backtracking. It returns the mapping.
func iso(a, b *AGraph) ([]int, error) {
	if len(a.nodes) != len(b.nodes) {
		return nil, fmt.Errorf("%d nodes, expected %d", len(b.nodes), len(a.nodes))
	}
	if len(a.edges) != len(b.edges) {
		return nil, fmt.Errorf("%d edges, expected %d", len(b.edges), len(a.edges))
	}
	n := len(a.nodes)
	ca, cb := append([]string(nil), a.nodes...), append([]string(nil), b.nodes...)
	multiset := func(c []string) string {
		s := append([]string(nil), c...)
		sort.Strings(s)
		return strings.Join(s, "\n")
	}
	if multiset(ca) != multiset(cb) {
		return nil, fmt.Errorf("nodes differ:\n%s\nexpected:\n%s", multiset(cb), multiset(ca))
	}
	es := func(g *AGraph) string {
		var s []string
		for _, x := range g.edges {
			s = append(s, x.sig)
		}
		sort.Strings(s)
		return strings.Join(s, "\n")
	}
	if es(a) != es(b) {
		return nil, fmt.Errorf("edges differ:\n%s\nexpected:\n%s", es(b), es(a))
	}
	refine := func(g *AGraph, c []string) []string {
		parts := make([][]string, n)
		for _, x := range g.edges {
			parts[x.from] = append(parts[x.from], ">"+x.sig+"@"+c[x.to])
			parts[x.to] = append(parts[x.to], "<"+x.sig+"@"+c[x.from])
		}
		r := make([]string, n)
		for i := range r {
			sort.Strings(parts[i])
			r[i] = strconv.FormatUint(hash64(append([]string{c[i]}, parts[i]...)...), 16)
		}
		return r
	}
	rounds := n
	if rounds > 6 {
		rounds = 6
	}
	for i := 0; i < rounds; i++ {
		ca, cb = refine(a, ca), refine(b, cb)
	}
	if multiset(ca) != multiset(cb) {
		return nil, fmt.Errorf("not isomorphic: the edges connect other nodes\n%s\nexpected\n%s", b, a)
	}
	// edge multisets per ordered pair
	pairs := func(g *AGraph) map[[2]int]string {
		m := map[[2]int][]string{}
		for _, x := range g.edges {
			m[[2]int{x.from, x.to}] = append(m[[2]int{x.from, x.to}], x.sig)
		}
		r := map[[2]int]string{}
		for k, v := range m {
			sort.Strings(v)
			r[k] = strings.Join(v, "\n")
		}
		return r
	}
	pa, pb := pairs(a), pairs(b)
	byColor := map[string][]int{}
	for i, c := range cb {
		byColor[c] = append(byColor[c], i)
	}
	// most constrained first
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	sort.Slice(order, func(i, j int) bool { return len(byColor[ca[order[i]]]) < len(byColor[ca[order[j]]]) })
	m := make([]int, n)
	for i := range m {
		m[i] = -1
	}
	used := make([]bool, n)
	budget := 200000
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == n {
			return true
		}
		i := order[k]
		for _, j := range byColor[ca[i]] {
			if used[j] {
				continue
			}
			if budget--; budget < 0 {
				return false
			}
			ok := pa[[2]int{i, i}] == pb[[2]int{j, j}]
			for l := 0; ok && l < k; l++ {
				o := order[l]
				ok = pa[[2]int{i, o}] == pb[[2]int{j, m[o]}] && pa[[2]int{o, i}] == pb[[2]int{m[o], j}]
			}
			if !ok {
				continue
			}
			m[i] = j
			used[j] = true
			if rec(k + 1) {
				return true
			}
			used[j] = false
			m[i] = -1
		}
		return false
	}
	if !rec(0) {
		if budget < 0 {
			return nil, nil // undecided: never an alarm
		}
		return nil, fmt.Errorf("not isomorphic:\n%s\nexpected\n%s", b, a)
	}
	return m, nil
}

func (a *AGraph) String() string {
	var sb strings.Builder
	for i, s := range a.nodes {
		fmt.Fprintf(&sb, " node %d %s\n", i, s)
	}
	for _, x := range a.edges {
		fmt.Fprintf(&sb, " edge %d->%d %s\n", x.from, x.to, x.sig)
	}
	return sb.String()
}

// adoptGraph builds a model from the enumerations of a graph; checking the
// graph against it tests that all its views agree.
func adoptGraph(g *lpg.Graph) (*Env, error) {
	e := newEnv()
	e.g = g
	nodes, err := drainNodes("GetNodes", g.GetNodes())
	if err != nil {
		return nil, err
	}
	for _, h := range nodes {
		e.adopt(h, labelMap(h.GetLabels().Slice()), valProps(h))
	}
	edges, err := drainEdges("GetEdges", g.GetEdges())
	if err != nil {
		return nil, err
	}
	for _, h := range edges {
		f, t := e.byNode[h.GetFrom()], e.byNode[h.GetTo()]
		if f == nil || t == nil {
			return nil, fmt.Errorf("an edge is connected to a node that is not enumerated")
		}
		e.adoptEdge(h, f, t, h.GetLabel(), valProps(h))
	}
	return e, nil
}

func valProps(h propHolder) map[string]Val {
	r := map[string]Val{}
	h.ForEachProperty(func(k string, v interface{}) bool {
		r[k] = toVal(v)
		return true
	})
	return r
}

// toVal is the inverse of Val.Go.
func toVal(x any) Val {
	switch v := x.(type) {
	case nil:
		return vNil()
	case int:
		return vInt(v)
	case string:
		return vStr(v)
	case float64:
		return vFloat(v)
	case bool:
		return vBool(v)
	case []int:
		r := Val{K: "I"}
		for _, e := range v {
			r.L = append(r.L, vInt(e))
		}
		return r
	case []string:
		r := Val{K: "S"}
		for _, e := range v {
			r.L = append(r.L, vStr(e))
		}
		return r
	case []interface{}:
		r := Val{K: "L"}
		for _, e := range v {
			r.L = append(r.L, toVal(e))
		}
		return r
	case map[string]interface{}:
		r := Val{K: "M"}
		for _, k := range sortedKeys(v) {
			r.Keys = append(r.Keys, k)
			r.L = append(r.L, toVal(v[k]))
		}
		return r
	case *Wrapped:
		return vWrap(toVal(v.v))
	}
	return Val{K: "s", S: fmt.Sprintf("?%T", x)}
}
