package main

import (
	"fmt"
	"sort"

	"github.com/cloudprivacylabs/lpg/v2"
)

// Whole-graph checks against the model, shared by several properties.

var dirs = []lpg.EdgeDir{lpg.IncomingEdge, lpg.AnyEdge, lpg.OutgoingEdge}

func dirName(d lpg.EdgeDir) string {
	switch d {
	case lpg.IncomingEdge:
		return "incoming"
	case lpg.OutgoingEdge:
		return "outgoing"
	}
	return "any"
}

// incidence is how often an edge is listed at n in the direction.
func incidence(x *MEdge, n *MNode, dir lpg.EdgeDir) int {
	c := 0
	if dir != lpg.OutgoingEdge && x.to == n {
		c++
	}
	if dir != lpg.IncomingEdge && x.from == n {
		c++
	}
	return c
}

// checkContents is C01.
func (e *Env) checkContents() error {
	if err := e.nodesOf("GetNodes", e.g.GetNodes(), func(*MNode) bool { return true }); err != nil {
		return err
	}
	if err := e.edgesOf("GetEdges", e.g.GetEdges(), func(*MEdge) bool { return true }); err != nil {
		return err
	}
	if n := e.g.NumNodes(); n != len(e.nodes) {
		return fmt.Errorf("NumNodes=%d, expected %d", n, len(e.nodes))
	}
	if n := e.g.NumEdges(); n != len(e.edges) {
		return fmt.Errorf("NumEdges=%d, expected %d", n, len(e.edges))
	}
	for _, x := range e.edges {
		if x.h.GetFrom() != x.from.h {
			return fmt.Errorf("%s: GetFrom changed", x)
		}
		if x.h.GetTo() != x.to.h {
			return fmt.Errorf("%s: GetTo changed", x)
		}
	}
	return e.checkAdjacency()
}

func (e *Env) checkAdjacency() error {
	for _, n := range e.nodes {
		for _, dir := range dirs {
			what := fmt.Sprintf("%s.GetEdges(%s)", n, dirName(dir))
			got, err := drainEdges(what, n.h.GetEdges(dir))
			if err != nil {
				return err
			}
			if err := e.sameEdgesN(what, got, func(x *MEdge) int { return incidence(x, n, dir) }); err != nil {
				return err
			}
		}
	}
	return nil
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// nodeLabelUniverse lists the labels in use plus extra ones.
func (e *Env) labelUniverse(extra ...string) []string {
	m := map[string]bool{}
	for _, n := range e.nodes {
		for l := range n.labels {
			m[l] = true
		}
	}
	for _, x := range e.edges {
		m[x.label] = true
	}
	for _, l := range extra {
		m[l] = true
	}
	return sortedKeys(m)
}

func (e *Env) checkNodeLabelQuery(labels []string) error {
	set := lpg.NewStringSet(labels...)
	return e.nodesOf(fmt.Sprintf("GetNodesWithAllLabels(%q)", labels), e.g.GetNodesWithAllLabels(set),
		func(n *MNode) bool { return n.hasAll(labels) })
}

func (e *Env) checkEdgeLabelQuery(labels []string) error {
	set := lpg.NewStringSet(labels...)
	return e.edgesOf(fmt.Sprintf("GetEdgesWithAnyLabel(%q)", labels), e.g.GetEdgesWithAnyLabel(set),
		func(x *MEdge) bool { return contains(labels, x.label) })
}

// checkNodeEdgeLabels checks adjacency lookups by label at one node.
func (e *Env) checkNodeEdgeLabels(n *MNode, labels []string) error {
	for _, dir := range dirs {
		for _, l := range labels {
			what := fmt.Sprintf("%s.GetEdgesWithLabel(%s,%q)", n, dirName(dir), l)
			got, err := drainEdges(what, n.h.GetEdgesWithLabel(dir, l))
			if err != nil {
				return err
			}
			if err := e.sameEdgesN(what, got, func(x *MEdge) int {
				if x.label != l {
					return 0
				}
				return incidence(x, n, dir)
			}); err != nil {
				return err
			}
		}
		what := fmt.Sprintf("%s.GetEdgesWithAnyLabel(%s,%q)", n, dirName(dir), labels)
		got, err := drainEdges(what, n.h.GetEdgesWithAnyLabel(dir, lpg.NewStringSet(labels...)))
		if err != nil {
			return err
		}
		if err := e.sameEdgesN(what, got, func(x *MEdge) int {
			if len(labels) > 0 && !contains(labels, x.label) {
				return 0
			}
			return incidence(x, n, dir)
		}); err != nil {
			return err
		}
	}
	return nil
}

// checkLabels is C02 over the label universe and the extra label sets.
func (e *Env) checkLabels(queries [][]string) error {
	uni := e.labelUniverse("A", "zz")
	for _, n := range e.nodes {
		got := n.h.GetLabels()
		if got.Len() != len(n.labels) {
			return fmt.Errorf("%s.GetLabels: %q, expected %q", n, got.SortedSlice(), sortedKeys(n.labels))
		}
		for _, l := range uni {
			if n.h.HasLabel(l) != n.labels[l] || got.Has(l) != n.labels[l] {
				return fmt.Errorf("%s: label %q: HasLabel=%v GetLabels=%v, expected %v", n, l, n.h.HasLabel(l), got.Has(l), n.labels[l])
			}
		}
	}
	for _, x := range e.edges {
		if x.h.GetLabel() != x.label {
			return fmt.Errorf("%s.GetLabel: %q, expected %q", x, x.h.GetLabel(), x.label)
		}
	}
	all := append([][]string{{}}, queries...)
	for i, l := range uni {
		if i > 12 {
			break
		}
		all = append(all, []string{l})
	}
	for _, q := range all {
		if err := e.checkNodeLabelQuery(q); err != nil {
			return err
		}
		if len(q) > 0 {
			if err := e.checkEdgeLabelQuery(q); err != nil {
				return err
			}
		}
	}
	for i, n := range e.nodes {
		if i > 40 {
			break
		}
		qs := append([][]string{{}, uni}, queries...)
		if len(e.nodes) > 12 && len(uni) > 6 {
			qs[1] = uni[:6]
		}
		for _, q := range qs {
			if err := e.checkNodeEdgeLabels(n, q); err != nil {
				return err
			}
		}
	}
	return nil
}

type propHolder interface {
	GetProperty(string) (interface{}, bool)
	ForEachProperty(func(string, interface{}) bool) bool
}

// withKeys lists allKeys and the keys of m.
func withKeys[V any](m map[string]V) []string {
	r := allKeys
	for _, k := range sortedKeys(m) {
		if !contains(allKeys, k) {
			r = append(r[:len(r):len(r)], k)
		}
	}
	return r
}

func checkPropsOf(what string, h propHolder, want map[string]Val) error {
	for _, k := range withKeys(want) {
		v, ok := h.GetProperty(k)
		w, wok := want[k]
		if ok != wok {
			return fmt.Errorf("%s.GetProperty(%q): exists=%v, expected %v", what, k, ok, wok)
		}
		if ok && valKey(v) != w.key() {
			return fmt.Errorf("%s.GetProperty(%q): %s, expected %s", what, k, valKey(v), w.key())
		}
		if !ok && v != nil {
			return fmt.Errorf("%s.GetProperty(%q): absent but value %v", what, k, v)
		}
	}
	seen := map[string]bool{}
	var err error
	done := h.ForEachProperty(func(k string, v interface{}) bool {
		if seen[k] {
			err = fmt.Errorf("%s.ForEachProperty: key %q visited twice", what, k)
		}
		seen[k] = true
		w, ok := want[k]
		if !ok {
			err = fmt.Errorf("%s.ForEachProperty: unexpected key %q", what, k)
		} else if valKey(v) != w.key() {
			err = fmt.Errorf("%s.ForEachProperty: %q is %s, expected %s", what, k, valKey(v), w.key())
		}
		return true
	})
	if err != nil {
		return err
	}
	if !done {
		return fmt.Errorf("%s.ForEachProperty returned false though the callback always accepted", what)
	}
	if len(seen) != len(want) {
		return fmt.Errorf("%s.ForEachProperty: visited %q, expected %q", what, sortedKeys(seen), sortedKeys(want))
	}
	return nil
}

// checkForEachStops checks that the enumeration stops when declined.
func checkForEachStops(what string, h propHolder, n int) error {
	for stop := 1; stop <= n; stop++ {
		calls := 0
		ret := h.ForEachProperty(func(string, interface{}) bool {
			calls++
			return calls < stop
		})
		if ret {
			return fmt.Errorf("%s.ForEachProperty returned true though the callback declined", what)
		}
		if calls != stop {
			return fmt.Errorf("%s.ForEachProperty: %d calls though the callback declined at %d", what, calls, stop)
		}
	}
	return nil
}

// checkProps is the read-back part of C03.
func (e *Env) checkProps() error {
	for _, n := range e.nodes {
		if err := checkPropsOf(n.String(), n.h, n.props); err != nil {
			return err
		}
	}
	for _, x := range e.edges {
		if err := checkPropsOf(x.String(), x.h, x.props); err != nil {
			return err
		}
	}
	return nil
}

// checkPresence is C04.
func (e *Env) checkPresence() error {
	present := map[string]bool{}
	for _, n := range e.nodes {
		for k := range n.props {
			present[k] = true
		}
	}
	for _, x := range e.edges {
		for k := range x.props {
			present[k] = true
		}
	}
	for _, k := range withKeys(present) {
		if err := e.nodesOf(fmt.Sprintf("GetNodesWithProperty(%q) indexed=%v", k, e.nindex[k]), e.g.GetNodesWithProperty(k), func(n *MNode) bool {
			_, ok := n.props[k]
			return ok
		}); err != nil {
			return err
		}
		if err := e.edgesOf(fmt.Sprintf("GetEdgesWithProperty(%q) indexed=%v", k, e.eindex[k]), e.g.GetEdgesWithProperty(k), func(x *MEdge) bool {
			_, ok := x.props[k]
			return ok
		}); err != nil {
			return err
		}
	}
	return nil
}

func propsMatch(have map[string]Val, want []KV) bool {
	for _, p := range want {
		v, ok := have[p.Key]
		if !ok || !refEqual(p.Val, v) {
			return false
		}
	}
	return true
}

func (n *MNode) matches(labels []string, props []KV) bool {
	return n.hasAll(labels) && propsMatch(n.props, props)
}

func (x *MEdge) matches(labels []string, props []KV) bool {
	return (len(labels) == 0 || contains(labels, x.label)) && propsMatch(x.props, props)
}

func strset(labels []string) lpg.StringSet {
	if len(labels) == 0 {
		return lpg.StringSet{}
	}
	return lpg.NewStringSet(labels...)
}

// checkFind is C05 for one query. It returns the number of matches.
func (e *Env) checkFind(labels []string, props []KV) (int, error) {
	set := strset(labels)
	pm := goProps(props)
	cnt := 0
	wantN := func(n *MNode) bool { return n.matches(labels, props) }
	wantE := func(x *MEdge) bool { return x.matches(labels, props) }
	if err := e.nodesOf(fmt.Sprintf("FindNodes(%q,%s)", labels, kvString(props)), e.g.FindNodes(set, pm), wantN); err != nil {
		return 0, err
	}
	if err := e.edgesOf(fmt.Sprintf("FindEdges(%q,%s)", labels, kvString(props)), e.g.FindEdges(set, pm), wantE); err != nil {
		return 0, err
	}
	nf := lpg.GetNodeFilterFunc(set, pm)
	for _, n := range e.nodes {
		if nf(n.h) != wantN(n) {
			return 0, fmt.Errorf("GetNodeFilterFunc(%q,%s)(%s)=%v", labels, kvString(props), n, !wantN(n))
		}
		if wantN(n) {
			cnt++
		}
	}
	ef := lpg.GetEdgeFilterFunc(set, pm)
	for _, x := range e.edges {
		if ef(x.h) != wantE(x) {
			return 0, fmt.Errorf("GetEdgeFilterFunc(%q,%s)(%s)=%v", labels, kvString(props), x, !wantE(x))
		}
		if wantE(x) {
			cnt++
		}
	}
	return cnt, nil
}

func kvString(props []KV) string {
	s := "{"
	for _, p := range props {
		s += fmt.Sprintf("%q:%s ", p.Key, p.Val.key())
	}
	return s + "}"
}

// ownQueries derives find queries from what is stored: they have matches.
func (e *Env) checkOwnFinds(max int) error {
	cnt := 0
	for i, n := range e.nodes {
		if cnt > max {
			break
		}
		for _, k := range sortedKeys(n.props) {
			if n.props[k].native().K == "z" {
				continue // a nil query is out of the domain
			}
			cnt++
			if _, err := e.checkFind(nil, []KV{{k, n.props[k]}}); err != nil {
				return err
			}
			if i%2 == 0 {
				if _, err := e.checkFind(sortedKeys(n.labels), []KV{{k, n.props[k]}}); err != nil {
					return err
				}
			}
		}
	}
	cnt = 0
	for _, x := range e.edges {
		if cnt > max {
			break
		}
		for _, k := range sortedKeys(x.props) {
			if x.props[k].native().K == "z" {
				continue
			}
			cnt++
			if _, err := e.checkFind(nil, []KV{{k, x.props[k]}}); err != nil {
				return err
			}
			if _, err := e.checkFind([]string{x.label}, []KV{{k, x.props[k]}}); err != nil {
				return err
			}
		}
	}
	return nil
}

// checkIdentity is the one-graph part of C27.
func (e *Env) checkIdentity() error {
	ids := map[int]*MNode{}
	for _, n := range e.nodes {
		if n.h.GetID() != n.id {
			return fmt.Errorf("%s: id changed from %d to %d", n, n.id, n.h.GetID())
		}
		if o := ids[n.id]; o != nil {
			return fmt.Errorf("%s and %s have the same id %d", n, o, n.id)
		}
		ids[n.id] = n
		if n.h.GetGraph() != e.g {
			return fmt.Errorf("%s: GetGraph is another graph", n)
		}
	}
	eids := map[int]*MEdge{}
	for _, x := range e.edges {
		if x.h.GetID() != x.id {
			return fmt.Errorf("%s: id changed from %d to %d", x, x.id, x.h.GetID())
		}
		if o := eids[x.id]; o != nil {
			return fmt.Errorf("%s and %s have the same id %d", x, o, x.id)
		}
		eids[x.id] = x
		if x.h.GetGraph() != e.g {
			return fmt.Errorf("%s: GetGraph is another graph", x)
		}
	}
	return nil
}

// checkAll is the conjunction, used where a property says "unchanged".
func (e *Env) checkAll() error {
	if err := e.checkContents(); err != nil {
		return err
	}
	if err := e.checkLabels(nil); err != nil {
		return err
	}
	if err := e.checkProps(); err != nil {
		return err
	}
	if err := e.checkPresence(); err != nil {
		return err
	}
	if err := e.checkOwnFinds(12); err != nil {
		return err
	}
	return e.checkIdentity()
}

// nodeNames turns handles into model names, sorted.
func (e *Env) nodeNames(l []*lpg.Node) []string {
	var r []string
	for _, h := range l {
		if m := e.byNode[h]; m != nil {
			r = append(r, m.String())
		} else {
			r = append(r, "?")
		}
	}
	sort.Strings(r)
	return r
}
