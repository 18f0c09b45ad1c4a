package main

import (
	"fmt"
	"sort"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// Op is one operation of a mutation history. Items are named by numbers taken
// modulo the number of live items, so every sequence of ops is executable.
type Op struct {
	Op     string   `json:"op"`
	A      int      `json:"a,omitempty"`
	B      int      `json:"b,omitempty"`
	N      int      `json:"n,omitempty"`
	Label  string   `json:"label,omitempty"`
	Labels []string `json:"labels,omitempty"`
	Key    string   `json:"key,omitempty"`
	Val    *Val     `json:"val,omitempty"`
	Props  []KV     `json:"props,omitempty"`
	Kind   string   `json:"kind,omitempty"`
}

// MNode and MEdge are the reference model of nodes and edges.
type MNode struct {
	num    int
	live   bool
	labels map[string]bool
	props  map[string]Val
	h      *lpg.Node
	id     int
}

type MEdge struct {
	num      int
	live     bool
	from, to *MNode
	label    string
	props    map[string]Val
	h        *lpg.Edge
	id       int
}

func (n *MNode) String() string { return fmt.Sprintf("n%d", n.num) }
func (e *MEdge) String() string { return fmt.Sprintf("e%d(n%d->n%d)", e.num, e.from.num, e.to.num) }

// Env is a graph under test and its model.
type Env struct {
	g       *lpg.Graph
	nodes   []*MNode // live, in creation order
	edges   []*MEdge // live, in creation order
	byNode  map[*lpg.Node]*MNode
	byEdge  map[*lpg.Edge]*MEdge
	nextN   int
	nextE   int
	nindex  map[string]bool
	eindex  map[string]bool
	stats   map[string]int
	trueNil bool
	free    map[string]bool // names that enumerate does not bind
}

func newEnv() *Env {
	return &Env{
		g:      lpg.NewGraph(),
		byNode: map[*lpg.Node]*MNode{},
		byEdge: map[*lpg.Edge]*MEdge{},
		nindex: map[string]bool{},
		eindex: map[string]bool{},
		stats:  map[string]int{},
	}
}

func labelMap(labels []string) map[string]bool {
	m := map[string]bool{}
	for _, l := range labels {
		m[l] = true
	}
	return m
}

func propMap(kv []KV) map[string]Val {
	m := map[string]Val{}
	for _, p := range kv {
		m[p.Key] = p.Val
	}
	return m
}

func (e *Env) node(i int) *MNode {
	if len(e.nodes) == 0 {
		return nil
	}
	return e.nodes[mod(i, len(e.nodes))]
}

func (e *Env) edge(i int) *MEdge {
	if len(e.edges) == 0 {
		return nil
	}
	return e.edges[mod(i, len(e.edges))]
}

func mod(i, n int) int {
	i %= n
	if i < 0 {
		i += n
	}
	return i
}

// adopt registers a node created in the graph by other means.
func (e *Env) adopt(h *lpg.Node, labels map[string]bool, props map[string]Val) *MNode {
	n := &MNode{num: e.nextN, live: true, labels: labels, props: props, h: h, id: h.GetID()}
	e.nextN++
	e.nodes = append(e.nodes, n)
	e.byNode[h] = n
	return n
}

func (e *Env) adoptEdge(h *lpg.Edge, from, to *MNode, label string, props map[string]Val) *MEdge {
	x := &MEdge{num: e.nextE, live: true, from: from, to: to, label: label, props: props, h: h, id: h.GetID()}
	e.nextE++
	e.edges = append(e.edges, x)
	e.byEdge[h] = x
	return x
}

func (e *Env) newNode(fast bool, labels []string, props []KV) *MNode {
	var h *lpg.Node
	if fast {
		var ls lpg.StringSet
		if len(labels) > 0 {
			ls = lpg.NewStringSet(labels...)
		}
		h = e.g.FastNewNode(ls, goProps(props))
	} else {
		h = e.g.NewNode(append([]string(nil), labels...), goProps(props))
	}
	return e.adopt(h, labelMap(labels), propMap(props))
}

func (e *Env) newEdge(fast bool, from, to *MNode, label string, props []KV) *MEdge {
	var h *lpg.Edge
	if fast {
		h = e.g.FastNewEdge(from.h, to.h, label, goProps(props))
	} else {
		h = e.g.NewEdge(from.h, to.h, label, goProps(props))
	}
	return e.adoptEdge(h, from, to, label, propMap(props))
}

func (e *Env) dropEdges(drop func(*MEdge) bool) {
	keep := e.edges[:0]
	for _, x := range e.edges {
		if drop(x) {
			x.live = false
			delete(e.byEdge, x.h)
			continue
		}
		keep = append(keep, x)
	}
	e.edges = keep
}

func (e *Env) dropNode(n *MNode) {
	n.live = false
	delete(e.byNode, n.h)
	for i, x := range e.nodes {
		if x == n {
			e.nodes = append(e.nodes[:i], e.nodes[i+1:]...)
			break
		}
	}
}

func bulkVal(key string, i int) Val {
	switch keyClass(key) {
	case "str":
		return vStr(fmt.Sprintf("p%04d", i))
	case "il":
		return vInts(vInt(i/7), vInt(i%7))
	case "sl":
		return vStrs(vStr(fmt.Sprint(i)))
	}
	return vInt(i)
}

func bulkLabels(labels []string, i int) []string {
	if len(labels) == 0 {
		return nil
	}
	return labels[i%len(labels) : i%len(labels)+1]
}

func idxType(kind string) lpg.IndexType {
	if kind == "h" {
		return lpg.HashIndex
	}
	return lpg.BtreeIndex
}

// apply runs one op on the graph and on the model.
func (e *Env) apply(op Op) {
	done := op.Op
	switch op.Op {
	case "n", "fn":
		e.newNode(op.Op == "fn", op.Labels, op.Props)
	case "e", "fe":
		if len(e.nodes) == 0 {
			return
		}
		e.newEdge(op.Op == "fe", e.node(op.A), e.node(op.B), op.Label, op.Props)
	case "nl":
		n := e.node(op.A)
		if n == nil {
			return
		}
		switch op.Kind {
		case "zero":
			if len(op.Labels) == 0 {
				n.h.SetLabels(lpg.StringSet{})
			} else {
				n.h.SetLabels(lpg.NewStringSet(op.Labels...))
			}
			n.labels = labelMap(op.Labels)
		case "add": // through the label set of the node
			s := n.h.GetLabels()
			s.Add(op.Labels...)
			n.h.SetLabels(s)
			m := map[string]bool{}
			for l := range n.labels {
				m[l] = true
			}
			for _, l := range op.Labels {
				m[l] = true
			}
			n.labels = m
		case "rm":
			s := n.h.GetLabels()
			s.Remove(op.Labels...)
			n.h.SetLabels(s)
			m := map[string]bool{}
			for l := range n.labels {
				m[l] = true
			}
			for _, l := range op.Labels {
				delete(m, l)
			}
			n.labels = m
		default:
			n.h.SetLabels(lpg.NewStringSet(op.Labels...))
			n.labels = labelMap(op.Labels)
		}
	case "np":
		n := e.node(op.A)
		if n == nil {
			return
		}
		if _, ok := n.props[op.Key]; ok {
			e.stats["overwrite"]++
		}
		n.h.SetProperty(op.Key, op.Val.Go())
		n.props[op.Key] = *op.Val
	case "nd":
		n := e.node(op.A)
		if n == nil {
			return
		}
		keys := []string{op.Key}
		if own := sortedKeys(n.props); len(own) > 0 {
			switch op.Kind {
			case "own":
				keys = []string{own[mod(op.N, len(own))]}
			case "all":
				keys = own
			}
		}
		for _, key := range keys {
			if _, ok := n.props[key]; ok {
				e.stats["propremoved"]++
			}
			n.h.RemoveProperty(key)
			delete(n.props, key)
		}
	case "ep":
		x := e.edge(op.A)
		if x == nil {
			return
		}
		if _, ok := x.props[op.Key]; ok {
			e.stats["overwrite"]++
		}
		x.h.SetProperty(op.Key, op.Val.Go())
		x.props[op.Key] = *op.Val
	case "ed":
		x := e.edge(op.A)
		if x == nil {
			return
		}
		keys := []string{op.Key}
		if own := sortedKeys(x.props); len(own) > 0 {
			switch op.Kind {
			case "own":
				keys = []string{own[mod(op.N, len(own))]}
			case "all":
				keys = own
			}
		}
		for _, key := range keys {
			if _, ok := x.props[key]; ok {
				e.stats["propremoved"]++
			}
			x.h.RemoveProperty(key)
			delete(x.props, key)
		}
	case "el":
		x := e.edge(op.A)
		if x == nil {
			return
		}
		if x.label != op.Label {
			e.stats["relabel"]++
		}
		x.h.SetLabel(op.Label)
		x.label = op.Label
	case "er":
		x := e.edge(op.A)
		if x == nil {
			return
		}
		x.h.Remove()
		e.dropEdges(func(y *MEdge) bool { return y == x })
		e.stats["removed"]++
	case "nt", "nr":
		n := e.node(op.A)
		if n == nil {
			return
		}
		before := len(e.edges)
		if op.Op == "nt" {
			n.h.Detach()
		} else {
			n.h.DetachAndRemove()
		}
		e.dropEdges(func(y *MEdge) bool { return y.from == n || y.to == n })
		if op.Op == "nr" {
			e.dropNode(n)
			e.stats["removed"]++
		}
		if len(e.edges) != before {
			e.stats["removed"]++
		}
	case "ni":
		e.g.AddNodePropertyIndex(op.Key, idxType(op.Kind))
		e.nindex[op.Key] = true
	case "ei":
		e.g.AddEdgePropertyIndex(op.Key, idxType(op.Kind))
		e.eindex[op.Key] = true
	case "rb":
		if e.remake(op) {
			e.stats["remade"]++
		}
	case "bn":
		for i := 0; i < op.N; i++ {
			var p []KV
			if op.Key != "" {
				p = []KV{{op.Key, bulkVal(op.Key, op.A+i)}}
			}
			e.newNode(i%2 == 0, bulkLabels(op.Labels, i), p)
		}
	case "be":
		if len(e.nodes) == 0 {
			return
		}
		for i := 0; i < op.N; i++ {
			var p []KV
			if op.Key != "" {
				p = []KV{{op.Key, bulkVal(op.Key, op.A+i)}}
			}
			label := ""
			if len(op.Labels) > 0 {
				label = op.Labels[i%len(op.Labels)]
			}
			// a star, or a walk over all nodes
			from := e.node(op.A)
			if op.B%2 == 1 {
				from = e.node(op.A + i)
			}
			e.newEdge(i%2 == 0, from, e.node(op.B+i*3), label, p)
		}
	case "br": // remove every third node
		for i := len(e.nodes) - 1; i >= 0; i-- {
			if i%3 == mod(op.A, 3) {
				e.apply(Op{Op: "nr", A: i})
			}
		}
	case "ber":
		for i := len(e.edges) - 1; i >= 0; i-- {
			if i%3 == mod(op.A, 3) {
				e.apply(Op{Op: "er", A: i})
			}
		}
	case "bp": // rewrite a property on every other node
		for i := range e.nodes {
			if i%2 == mod(op.A, 2) {
				v := bulkVal(op.Key, op.B+i)
				e.apply(Op{Op: "np", A: i, Key: op.Key, Val: &v})
			} else if op.N%3 == 0 {
				e.apply(Op{Op: "nd", A: i, Key: op.Key})
			}
		}
	case "bep":
		for i := range e.edges {
			if i%2 == mod(op.A, 2) {
				v := bulkVal(op.Key, op.B+i)
				e.apply(Op{Op: "ep", A: i, Key: op.Key, Val: &v})
			} else if op.N%3 == 0 {
				e.apply(Op{Op: "ed", A: i, Key: op.Key})
			}
		}
	default:
		bug("bad op %q", op.Op)
	}
	e.stats[done]++
}

func (e *Env) runAll(ops []Op) {
	for _, op := range ops {
		e.apply(op)
	}
}

// ---------------------------------------------------------------- generator

// HistOpt tunes the history generator.
type HistOpt struct {
	MaxOps    int
	NoIndex   bool
	NoRebuild bool
	BulkOneIn int // 0: no bulk ops
	BulkMax   int
	Props     func(*rapid.T, int) []KV           // default genProps
	PropVal   func(*rapid.T) (string, Val)       // default by hot key
	OpKinds   []string                           // default mix
	EdgeLabel func(*rapid.T) string              // default genLabel
	Labels    func(t *rapid.T, max int) []string // default genLabels
	IndexKeys []string                           // default indexableKeys
	BulkKeys  []string
}

var defaultMix = []string{
	"n", "n", "n", "fn", "fn", "e", "e", "e", "e", "fe", "fe",
	"nl", "nl", "np", "np", "np", "nd", "ep", "ep", "ep", "ed", "el", "el",
	"er", "er", "nt", "nr", "nr", "ni", "ei",
}

var growMix = []string{
	"n", "n", "n", "n", "fn", "e", "e", "e", "e", "e", "fe", "nl", "np", "ep", "el", "ni", "ei", "er",
}

func genOps(t *rapid.T, o HistOpt) []Op {
	if o.Props == nil {
		o.Props = genProps
	}
	if o.PropVal == nil {
		o.PropVal = func(t *rapid.T) (string, Val) {
			k := rapid.SampledFrom(hotKeys).Draw(t, "key")
			return k, genPropVal(t, k)
		}
	}
	if o.EdgeLabel == nil {
		o.EdgeLabel = func(t *rapid.T) string { return genLabel(t, "elabel") }
	}
	if o.Labels == nil {
		o.Labels = genLabels
	}
	if o.IndexKeys == nil {
		o.IndexKeys = indexableKeys
	}
	if o.BulkKeys == nil {
		o.BulkKeys = []string{"i0", "s0", "l0", "ls"}
	}
	mix := o.OpKinds
	if mix == nil {
		mix = defaultMix
		if rapid.IntRange(0, 2).Draw(t, "grow") == 0 {
			mix = growMix
		}
	}
	bulk := o.BulkOneIn > 0 && rapid.IntRange(1, o.BulkOneIn).Draw(t, "bulk?") == 1
	bulkMax := o.BulkMax
	if bulkMax == 0 {
		bulkMax = 40
	}
	gen := rapid.Custom(func(t *rapid.T) Op {
		if bulk && rapid.IntRange(0, 4).Draw(t, "b") == 0 {
			kind := rapid.SampledFrom([]string{"bn", "bn", "be", "be", "br", "ber", "bp", "bep"}).Draw(t, "bop")
			op := Op{Op: kind, A: rapid.IntRange(0, 50).Draw(t, "a"), B: rapid.IntRange(0, 50).Draw(t, "b"), N: rapid.IntRange(1, bulkMax).Draw(t, "n")}
			op.Key = rapid.SampledFrom(o.BulkKeys).Draw(t, "bkey")
			op.Labels = o.Labels(t, 3)
			return op
		}
		k := rapid.SampledFrom(mix).Draw(t, "op")
		op := Op{Op: k}
		ix := func(n string) int { return rapid.IntRange(0, 30).Draw(t, n) }
		switch k {
		case "n", "fn":
			op.Labels = o.Labels(t, 3)
			op.Props = o.Props(t, 3)
		case "e", "fe":
			op.A, op.B = ix("a"), ix("b")
			op.Label = o.EdgeLabel(t)
			op.Props = o.Props(t, 3)
		case "nl":
			op.A = ix("a")
			op.Labels = o.Labels(t, 3)
			op.Kind = rapid.SampledFrom([]string{"", "zero", "add", "rm"}).Draw(t, "how")
		case "np", "ep":
			op.A = ix("a")
			k, v := o.PropVal(t)
			op.Key, op.Val = k, &v
		case "nd", "ed":
			op.A = ix("a")
			op.Key = rapid.SampledFrom(hotKeys).Draw(t, "key")
			op.Kind = rapid.SampledFrom([]string{"", "own", "own", "all"}).Draw(t, "which")
			op.N = rapid.IntRange(0, 3).Draw(t, "nth")
		case "el":
			op.A = ix("a")
			op.Label = o.EdgeLabel(t)
		case "er", "nt", "nr":
			op.A = ix("a")
		case "ni", "ei":
			if o.NoIndex {
				return Op{Op: "n", Labels: o.Labels(t, 2)}
			}
			op.Key = rapid.SampledFrom(o.IndexKeys).Draw(t, "ikey")
			op.Kind = rapid.SampledFrom(indexKinds(op.Key)).Draw(t, "ikind")
		}
		return op
	})
	// rapid's slices have about 5 elements more than the minimum
	lo := 0
	if o.MaxOps > 8 {
		lo = rapid.SampledFrom([]int{0, 4, 8, 12, o.MaxOps / 3, o.MaxOps / 2}).Draw(t, "minops")
	}
	if lo > o.MaxOps {
		lo = o.MaxOps
	}
	ops := rapid.SliceOfN(gen, lo, o.MaxOps).Draw(t, "ops")
	if !o.NoRebuild && rapid.IntRange(0, 11).Draw(t, "rebuild?") == 11 {
		for i := rapid.IntRange(1, 2).Draw(t, "rebuilds"); i > 0; i-- {
			at := rapid.IntRange(0, len(ops)).Draw(t, "at")
			op := Op{Op: "rb", Kind: rapid.SampledFrom(rebuilds).Draw(t, "how"), A: rapid.IntRange(0, 30).Draw(t, "a"), B: rapid.IntRange(0, 2).Draw(t, "b"), N: rapid.IntRange(0, 3).Draw(t, "n")}
			ops = append(ops[:at:at], append([]Op{op}, ops[at:]...)...)
		}
	}
	return ops
}

var rebuilds = []string{"json", "jsonsep", "copy", "copyf", "sub"}

// probeItems gives every item a property value of its own and checks that all
// read back: no two items of the graphs share a property map. Then it does the
// same for removal.
func probeItems(es ...*Env) error {
	check := func(what string) error {
		for i, e := range es {
			if err := e.checkProps(); err != nil {
				return fmt.Errorf("%s, graph %d: %w", what, i, err)
			}
			if err := e.checkLabelsRead(); err != nil {
				return fmt.Errorf("%s, graph %d: %w", what, i, err)
			}
		}
		return nil
	}
	k := 0
	for _, e := range es {
		for i := range e.nodes {
			if i < 60 {
				v := vInt(1000000 + k)
				k++
				e.apply(Op{Op: "np", A: i, Key: "zz", Val: &v})
			}
		}
		for i := range e.edges {
			if i < 60 {
				v := vInt(1000000 + k)
				k++
				e.apply(Op{Op: "ep", A: i, Key: "zz", Val: &v})
			}
		}
	}
	if err := check("after giving every item a property"); err != nil {
		return err
	}
	for _, e := range es {
		for i := range e.nodes {
			if i%2 == 0 {
				e.apply(Op{Op: "nd", A: i, Key: "zz"})
				e.apply(Op{Op: "nl", A: i, Kind: "add", Labels: []string{fmt.Sprint("probe", i)}})
			}
		}
		for i := range e.edges {
			if i%2 == 0 {
				e.apply(Op{Op: "ed", A: i, Key: "zz"})
				e.apply(Op{Op: "el", A: i, Label: fmt.Sprint("probe", i)})
			}
		}
	}
	return check("after removing the property from every other item")
}

// ---------------------------------------------------------------- queries on the model

func (n *MNode) hasAll(labels []string) bool {
	for _, l := range labels {
		if !n.labels[l] {
			return false
		}
	}
	return true
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

const iterCap = 100000

// drainNodes iterates to the end, with a cap well above any graph built here.
func drainNodes(what string, it lpg.NodeIterator) ([]*lpg.Node, error) {
	var ret []*lpg.Node
	for it.Next() {
		ret = append(ret, it.Node())
		if len(ret) > iterCap {
			return nil, fmt.Errorf("%s: iterator yields more than %d items", what, iterCap)
		}
	}
	return ret, nil
}

func drainEdges(what string, it lpg.EdgeIterator) ([]*lpg.Edge, error) {
	var ret []*lpg.Edge
	for it.Next() {
		ret = append(ret, it.Edge())
		if len(ret) > iterCap {
			return nil, fmt.Errorf("%s: iterator yields more than %d items", what, iterCap)
		}
	}
	return ret, nil
}

// sameNodes compares got with the live nodes accepted by want: each exactly once.
func (e *Env) sameNodes(what string, got []*lpg.Node, want func(*MNode) bool) error {
	seen := map[*MNode]bool{}
	for _, h := range got {
		m := e.byNode[h]
		if m == nil {
			return fmt.Errorf("%s: yields a node that is not live in the graph: %v", what, h)
		}
		if seen[m] {
			return fmt.Errorf("%s: yields %s twice", what, m)
		}
		seen[m] = true
		if !want(m) {
			return fmt.Errorf("%s: yields %s, which does not belong", what, m)
		}
	}
	for _, m := range e.nodes {
		if want(m) && !seen[m] {
			return fmt.Errorf("%s: %s is missing", what, m)
		}
	}
	return nil
}

func (e *Env) sameEdges(what string, got []*lpg.Edge, want func(*MEdge) bool) error {
	return e.sameEdgesN(what, got, func(m *MEdge) int {
		if want(m) {
			return 1
		}
		return 0
	})
}

// sameEdgesN compares with multiplicities.
func (e *Env) sameEdgesN(what string, got []*lpg.Edge, want func(*MEdge) int) error {
	seen := map[*MEdge]int{}
	for _, h := range got {
		m := e.byEdge[h]
		if m == nil {
			return fmt.Errorf("%s: yields an edge that is not live in the graph: %v", what, h)
		}
		seen[m]++
		if seen[m] > want(m) {
			if want(m) == 0 {
				return fmt.Errorf("%s: yields %s, which does not belong", what, m)
			}
			return fmt.Errorf("%s: yields %s %d times, expected %d", what, m, seen[m], want(m))
		}
	}
	for _, m := range e.edges {
		if seen[m] != want(m) {
			return fmt.Errorf("%s: %s is missing (%d of %d)", what, m, seen[m], want(m))
		}
	}
	return nil
}

func (e *Env) nodesOf(what string, it lpg.NodeIterator, want func(*MNode) bool) error {
	got, err := drainNodes(what, it)
	if err != nil {
		return err
	}
	return e.sameNodes(what, got, want)
}

func (e *Env) edgesOf(what string, it lpg.EdgeIterator, want func(*MEdge) bool) error {
	got, err := drainEdges(what, it)
	if err != nil {
		return err
	}
	return e.sameEdges(what, got, want)
}
