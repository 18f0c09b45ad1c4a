package main

import (
	"fmt"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// HistCase is a plain history.
type HistCase struct {
	Ops []Op `json:"ops"`
}

// steps runs the ops, calling check after every step while the graph is small
// and after every bulk operation, every 8th step and the end otherwise.
func steps(e *Env, ops []Op, check func() error) error {
	for i, op := range ops {
		e.apply(op)
		size := len(e.nodes) + len(e.edges)
		if size <= 24 || i == len(ops)-1 || op.Op[0] == 'b' || i%8 == 7 {
			if err := check(); err != nil {
				return fmt.Errorf("after op %d (%s): %w", i, op.Op, err)
			}
		}
	}
	return check()
}

func (c *Ctx) histClasses(e *Env) {
	c.ClassIf(e.stats["removed"] > 0, "removal")
	c.ClassIf(e.stats["relabel"] > 0, "edge relabelled")
	c.ClassIf(e.stats["nl"] > 0, "node relabelled")
	c.ClassIf(e.stats["overwrite"] > 0, "property overwritten")
	c.ClassIf(e.stats["remade"] > 0, "graph remade by copying or decoding")
	c.ClassIf(e.stats["ni"]+e.stats["ei"] > 0, "indexed")
	c.ClassIf(e.stats["bn"]+e.stats["be"] > 0, "bulk")
	c.ClassIf(len(e.nodes) > 100 || len(e.edges) > 100, "over 100 items")
	c.ClassIf(len(e.edges) == 0, "no edges at the end")
}

// removalThenAdd is the history shape that exposes list defects.
func genHist(maxOps, bulkOneIn, bulkMax int) func(*rapid.T) HistCase {
	return func(t *rapid.T) HistCase {
		return HistCase{Ops: genOps(t, HistOpt{MaxOps: maxOps, BulkOneIn: bulkOneIn, BulkMax: bulkMax})}
	}
}

// ---------------------------------------------------------------- C02

type LabelCase struct {
	Ops     []Op       `json:"ops"`
	Queries [][]string `json:"queries"`
}

// ---------------------------------------------------------------- C03

// Probe is an aliasing experiment run after the history.
type Probe struct {
	Kind   string   `json:"kind"`
	A      int      `json:"a"`
	Labels []string `json:"labels,omitempty"`
	Props  []KV     `json:"props,omitempty"`
	Key    string   `json:"key,omitempty"`
	Val    Val      `json:"val"`
}

type PropCase struct {
	Ops    []Op    `json:"ops"`
	Probes []Probe `json:"probes"`
	Ops2   []Op    `json:"ops2"`
}

var probeKinds = []string{"node-args", "edge-args", "labels-out", "labels-in", "labels-in-fast", "labels-shared", "props-shared"}

func (e *Env) probe(p Probe) {
	switch p.Kind {
	case "node-args": // caller changes what it passed to NewNode
		labels := append([]string(nil), p.Labels...)
		props := goProps(p.Props)
		h := e.g.NewNode(labels, props)
		e.adopt(h, labelMap(p.Labels), propMap(p.Props))
		for i := range labels {
			labels[i] = "changed"
		}
		for _, k := range sortedKeys(props) {
			props[k] = "changed"
		}
		if props != nil {
			props["m1"] = 1
			delete(props, "i0")
		}
	case "edge-args":
		if len(e.nodes) == 0 {
			return
		}
		props := goProps(p.Props)
		n, m := e.node(p.A), e.node(p.A+1)
		h := e.g.NewEdge(n.h, m.h, "A", props)
		e.adoptEdge(h, n, m, "A", propMap(p.Props))
		for _, k := range sortedKeys(props) {
			props[k] = "changed"
		}
		if props != nil {
			props["m1"] = 1
			delete(props, "i0")
		}
	case "props-shared": // one map for two nodes and two edges
		props := goProps(p.Props)
		a := e.adopt(e.g.NewNode([]string{"A"}, props), labelMap([]string{"A"}), propMap(p.Props))
		b := e.adopt(e.g.NewNode([]string{"B"}, props), labelMap([]string{"B"}), propMap(p.Props))
		x := e.adoptEdge(e.g.NewEdge(a.h, b.h, "A", props), a, b, "A", propMap(p.Props))
		y := e.adoptEdge(e.g.NewEdge(a.h, b.h, "A", props), a, b, "A", propMap(p.Props))
		a.h.SetProperty("m0", "a")
		a.props["m0"] = vStr("a")
		x.h.SetProperty("m0", "x")
		x.props["m0"] = vStr("x")
		for _, k := range sortedKeys(b.props) {
			b.h.RemoveProperty(k)
			delete(b.props, k)
			break
		}
		for _, k := range sortedKeys(y.props) {
			y.h.RemoveProperty(k)
			delete(y.props, k)
			break
		}
	case "labels-out": // caller changes the set it got
		n := e.node(p.A)
		if n == nil {
			return
		}
		s := n.h.GetLabels()
		s.Add(append([]string{"changed"}, p.Labels...)...)
		for l := range n.labels {
			s.Remove(l)
		}
		s2 := n.h.GetLabels()
		for l := range n.labels {
			s2.Remove(l)
		}
		s3 := n.h.GetLabels()
		s3.AddSet(lpg.NewStringSet("changed"))
	case "labels-in": // caller changes the set it gave
		n := e.node(p.A)
		if n == nil {
			return
		}
		s := lpg.NewStringSet(p.Labels...)
		n.h.SetLabels(s)
		n.labels = labelMap(p.Labels)
		s.Add("changed")
		s.Remove(p.Labels...)
	case "labels-in-fast":
		s := lpg.NewStringSet(p.Labels...)
		h := e.g.FastNewNode(s, nil)
		e.adopt(h, labelMap(p.Labels), map[string]Val{})
		s.Add("changed")
		s.Remove(p.Labels...)
	case "labels-shared": // two nodes given the same set, one changed
		n, m := e.node(p.A), e.node(p.A+1)
		if n == nil || n == m {
			return
		}
		m.h.SetLabels(n.h.GetLabels())
		m.labels = map[string]bool{}
		for l := range n.labels {
			m.labels[l] = true
		}
		s := n.h.GetLabels()
		s.Add(p.Labels...)
		n.h.SetLabels(s)
		nl := map[string]bool{}
		for l := range n.labels {
			nl[l] = true
		}
		for _, l := range p.Labels {
			nl[l] = true
		}
		n.labels = nl
	default:
		bug("probe kind %q", p.Kind)
	}
}

// checkLabelsRead is the label reading part of C03.
func (e *Env) checkLabelsRead() error {
	for _, n := range e.nodes {
		s := n.h.GetLabels()
		if got, want := fmt.Sprintf("%q", s.SortedSlice()), fmt.Sprintf("%q", sortedKeys(n.labels)); got != want {
			return fmt.Errorf("%s.GetLabels: %s, expected %s", n, got, want)
		}
		for l := range n.labels {
			if !n.h.HasLabel(l) {
				return fmt.Errorf("%s.HasLabel(%q) is false", n, l)
			}
		}
		if n.h.HasLabel("changed") && !n.labels["changed"] {
			return fmt.Errorf("%s.HasLabel(changed)", n)
		}
	}
	for _, x := range e.edges {
		if x.h.GetLabel() != x.label {
			return fmt.Errorf("%s.GetLabel: %q, expected %q", x, x.h.GetLabel(), x.label)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C05

type Query struct {
	Labels []string `json:"labels,omitempty"`
	Props  []KV     `json:"props,omitempty"`
	// Like >= 0: the values are replaced with those of this live node or edge.
	Like int  `json:"like"`
	Edge bool `json:"edge,omitempty"`
}

type FindCase struct {
	Ops     []Op    `json:"ops"`
	Queries []Query `json:"queries"`
}

func genQuery(t *rapid.T) Query {
	q := Query{Like: -1}
	q.Labels = genLabels(t, 2)
	n := rapid.IntRange(0, 3).Draw(t, "nq")
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(hotKeys).Draw(t, "qkey")
		if seen[k] {
			continue
		}
		seen[k] = true
		var v Val
		if rapid.IntRange(0, 3).Draw(t, "foreign") == 0 {
			v = genAnyVal(t, 1)
		} else {
			v = genPropVal(t, k)
		}
		if v.native().K == "z" {
			v = vInt(0)
		}
		q.Props = append(q.Props, KV{k, v})
	}
	if rapid.IntRange(0, 1).Draw(t, "like?") == 0 {
		q.Like = rapid.IntRange(0, 30).Draw(t, "like")
		q.Edge = rapid.Bool().Draw(t, "likeEdge")
	}
	return q
}

var conjKeys = []string{"i0", "s0", "i1", "I0", "s0\x00", "i0 ", longKeyInt, longKeyStr}

// genConjunctions draws graphs and queries for which many indexes apply.
func genConjunctions(t *rapid.T) FindCase {
	val := func(k string) Val {
		i := rapid.IntRange(0, 1).Draw(t, "v")
		if keyClass(k) == "str" {
			return vStr([]string{"a", "b"}[i])
		}
		return vInt(i)
	}
	props := func(most bool) []KV {
		var r []KV
		for _, k := range conjKeys {
			if d := rapid.IntRange(0, 9).Draw(t, "has"); most && d < 9 || !most && d < 4 {
				r = append(r, KV{k, val(k)})
			}
		}
		return r
	}
	labels := func() []string {
		l := manyLabels[:12]
		from := rapid.IntRange(0, 11).Draw(t, "lfrom")
		return append([]string(nil), l[from:rapid.IntRange(from, 12).Draw(t, "lto")]...)
	}
	var c FindCase
	index := func(max int) {
		for _, k := range rapid.SliceOfN(rapid.SampledFrom(conjKeys), 0, max).Draw(t, "index") {
			c.Ops = append(c.Ops, Op{Op: rapid.SampledFrom([]string{"ni", "ei"}).Draw(t, "ix"), Key: k, Kind: rapid.SampledFrom([]string{"b", "h"}).Draw(t, "ixt")})
		}
	}
	all := func(when string) {
		if rapid.IntRange(0, 1).Draw(t, when) == 0 {
			return
		}
		for _, k := range conjKeys {
			kind := rapid.SampledFrom([]string{"b", "h"}).Draw(t, "ixt")
			c.Ops = append(c.Ops, Op{Op: "ni", Key: k, Kind: kind}, Op{Op: "ei", Key: k, Kind: kind})
		}
	}
	all("before")
	index(4)
	n := rapid.IntRange(1, 12).Draw(t, "nodes")
	most := rapid.Bool().Draw(t, "most")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, Op{Op: "n", Labels: labels(), Props: props(most)})
	}
	for i := rapid.IntRange(0, 12).Draw(t, "edges"); i > 0; i-- {
		c.Ops = append(c.Ops, Op{Op: "e", A: rapid.IntRange(0, n-1).Draw(t, "f"), B: rapid.IntRange(0, n-1).Draw(t, "t"), Label: manyLabels[rapid.IntRange(0, 11).Draw(t, "l")], Props: props(most)})
	}
	index(4)
	all("after")
	for i := rapid.IntRange(0, 8).Draw(t, "edits"); i > 0; i-- {
		op := Op{Op: rapid.SampledFrom([]string{"np", "ep", "nd", "ed", "nl", "er"}).Draw(t, "edit"), A: rapid.IntRange(0, 11).Draw(t, "a"), Labels: labels()}
		op.Key = rapid.SampledFrom(conjKeys).Draw(t, "ek")
		v := val(op.Key)
		op.Val = &v
		if op.Op == "nl" || op.Op == "er" {
			op.Key, op.Val = "", nil
		}
		c.Ops = append(c.Ops, op)
	}
	for i := rapid.IntRange(1, 6).Draw(t, "nqueries"); i > 0; i-- {
		q := Query{Like: -1, Props: props(rapid.Bool().Draw(t, "mostq"))}
		if rapid.Bool().Draw(t, "ql") {
			q.Labels = labels()
		}
		if rapid.IntRange(0, 2).Draw(t, "like?") > 0 {
			q.Like = rapid.IntRange(0, 30).Draw(t, "like")
			q.Edge = rapid.Bool().Draw(t, "likeEdge")
		}
		c.Queries = append(c.Queries, q)
	}
	return c
}

// resolve fills in the values of a live item.
func (e *Env) resolve(q Query) (labels []string, props []KV) {
	labels, props = q.Labels, append([]KV(nil), q.Props...)
	if q.Like < 0 {
		return
	}
	var have map[string]Val
	if q.Edge {
		x := e.edge(q.Like)
		if x == nil {
			return
		}
		have = x.props
		if len(labels) > 0 && q.Like%2 == 0 {
			labels = append([]string{x.label}, labels...)
		}
	} else {
		n := e.node(q.Like)
		if n == nil {
			return
		}
		have = n.props
		if len(labels) > 0 && q.Like%2 == 0 {
			labels = sortedKeys(n.labels)
		}
	}
	if len(props) == 0 {
		for _, k := range sortedKeys(have) {
			props = append(props, KV{Key: k})
			if len(props) >= 2 && q.Like%5 != 4 { // else all of them
				break
			}
		}
	}
	keep := props[:0]
	for _, p := range props {
		if v, ok := have[p.Key]; ok {
			p.Val = v
		}
		if p.Val.K == "" || p.Val.native().K == "z" {
			continue
		}
		keep = append(keep, p)
	}
	return labels, keep
}

// EndsCase: two graphs, and edges picked from both.
type EndsCase struct {
	Ops  []Op  `json:"ops"`
	Ops2 []Op  `json:"ops2"`
	Pick []int `json:"pick"`
}

// ---------------------------------------------------------------- C27

// PairCase interleaves histories of two graphs.
type PairCase struct {
	Steps []PairStep `json:"steps"`
}

type PairStep struct {
	G       int    `json:"g"`
	Op      *Op    `json:"op,omitempty"`
	Foreign string `json:"foreign,omitempty"` // from, to, both
	Fast    bool   `json:"fast,omitempty"`
	A       int    `json:"a,omitempty"`
	B       int    `json:"b,omitempty"`
	Label   string `json:"label,omitempty"`
	Props   []KV   `json:"props,omitempty"`
}

func init() {
	register("C01", "history",
		"random mutation histories checked after every step; non-trivial: something that existed was removed, detached or relabelled",
		3000, genHist(45, 10, 30),
		func(c HistCase, ctx *Ctx) error {
			e := newEnv()
			err := steps(e, c.Ops, e.checkContents)
			ctx.histClasses(e)
			if e.stats["removed"]+e.stats["relabel"] > 0 {
				ctx.NonTrivial()
			}
			return err
		})
	register("C01", "big",
		"histories with bulk operations and hundreds of items; non-trivial: as history",
		60, func(t *rapid.T) HistCase {
			return HistCase{Ops: genOps(t, HistOpt{MaxOps: 40, BulkOneIn: 1, BulkMax: 150})}
		},
		func(c HistCase, ctx *Ctx) error {
			e := newEnv()
			err := stepsSparse(e, c.Ops, e.checkContents)
			ctx.histClasses(e)
			if e.stats["removed"]+e.stats["relabel"] > 0 {
				ctx.NonTrivial()
			}
			return err
		})

	genLabelCase := func(maxOps, bulkOneIn, bulkMax int) func(*rapid.T) LabelCase {
		return func(t *rapid.T) LabelCase {
			mix := []string{"n", "n", "n", "fn", "fn", "e", "e", "e", "e", "fe", "nl", "nl", "nl", "nl", "el", "el", "el", "er", "nt", "nr", "nr"}
			c := LabelCase{Ops: genOps(t, HistOpt{MaxOps: maxOps, BulkOneIn: bulkOneIn, BulkMax: bulkMax, OpKinds: mix, Props: func(t *rapid.T, n int) []KV { return nil }})}
			nq := rapid.IntRange(0, 3).Draw(t, "nq")
			for i := 0; i < nq; i++ {
				c.Queries = append(c.Queries, genLabels(t, 3))
			}
			return c
		}
	}
	runLabels := func(c LabelCase, ctx *Ctx) error {
		e := newEnv()
		err := steps(e, c.Ops, func() error { return e.checkLabels(c.Queries) })
		ctx.histClasses(e)
		for _, l := range e.labelUniverse() {
			cnt, ecnt := 0, 0
			for _, n := range e.nodes {
				if n.labels[l] {
					cnt++
				}
			}
			for _, x := range e.edges {
				if x.label == l {
					ecnt++
				}
			}
			if cnt > 0 && cnt < len(e.nodes) || ecnt > 0 && ecnt < len(e.edges) {
				ctx.NonTrivial()
			}
		}
		for _, q := range c.Queries {
			if len(labelMap(q)) >= 2 {
				ctx.Class("query of several labels")
				for _, n := range e.nodes {
					ctx.ClassIf(n.hasAll(q), "query of several labels with an answer")
				}
			}
		}
		for _, n := range e.nodes {
			ctx.ClassIf(len(n.labels) == 0, "unlabeled node")
		}
		return err
	}
	register("C02", "history",
		"label-heavy histories with label-set queries on the graph and at every node after every step; non-trivial: some label is carried by some but not all items",
		2000, genLabelCase(35, 8, 15), runLabels)
	register("C02", "big", "the same with bulk operations; non-trivial: as history",
		30, func(t *rapid.T) LabelCase {
			c := genLabelCase(25, 1, 100)(t)
			return c
		}, func(c LabelCase, ctx *Ctx) error {
			e := newEnv()
			err := stepsSparse(e, c.Ops, func() error { return e.checkLabels(c.Queries) })
			ctx.histClasses(e)
			if len(e.nodes) > 0 {
				ctx.NonTrivial()
			}
			return err
		})

	register("C03", "history",
		"histories with aliasing probes (the caller changes maps, slices and sets it passed or got); non-trivial: an overwrite, a removal of a present property or a probe",
		2500, func(t *rapid.T) PropCase {
			mix := []string{"n", "n", "fn", "e", "e", "fe", "np", "np", "np", "np", "nd", "nd", "ep", "ep", "ep", "ep", "ed", "ed", "nl", "el", "er", "nr", "ni", "ei"}
			c := PropCase{Ops: genOps(t, HistOpt{MaxOps: 30, OpKinds: mix})}
			n := rapid.IntRange(0, 4).Draw(t, "nprobes")
			for i := 0; i < n; i++ {
				c.Probes = append(c.Probes, Probe{
					Kind:   rapid.SampledFrom(probeKinds).Draw(t, "probe"),
					A:      rapid.IntRange(0, 20).Draw(t, "a"),
					Labels: genLabels(t, 3),
					Props:  genProps(t, 3),
				})
			}
			if n > 0 {
				c.Ops2 = genOps(t, HistOpt{MaxOps: 8, OpKinds: mix})
			}
			return c
		},
		func(c PropCase, ctx *Ctx) error {
			e := newEnv()
			check := func() error {
				if err := e.checkProps(); err != nil {
					return err
				}
				return e.checkLabelsRead()
			}
			if err := steps(e, c.Ops, check); err != nil {
				return err
			}
			for i, p := range c.Probes {
				e.probe(p)
				ctx.Class("probe " + p.Kind)
				ctx.NonTrivial()
				if err := check(); err != nil {
					return fmt.Errorf("after probe %d (%s): %w", i, p.Kind, err)
				}
			}
			if err := steps(e, c.Ops2, check); err != nil {
				return err
			}
			for _, n := range e.nodes {
				if err := checkForEachStops(n.String(), n.h, len(n.props)); err != nil {
					return err
				}
			}
			for _, x := range e.edges {
				if err := checkForEachStops(x.String(), x.h, len(x.props)); err != nil {
					return err
				}
			}
			ctx.histClasses(e)
			if e.stats["overwrite"]+e.stats["propremoved"] > 0 {
				ctx.NonTrivial()
			}
			return probeItems(e)
		})

	indexMix := []string{"n", "n", "n", "fn", "fn", "e", "e", "e", "fe", "fe", "np", "np", "np", "np", "nd", "ep", "ep", "ep", "ep", "ed", "er", "er", "nt", "nr", "ni", "ni", "ei", "ei", "nl", "el"}
	register("C04", "history",
		"histories with indexes added at any time; every key looked up after every step; non-trivial: an indexed key and an item that lost or changed it",
		2500, func(t *rapid.T) HistCase {
			return HistCase{Ops: genOps(t, HistOpt{MaxOps: 40, BulkOneIn: 10, BulkMax: 40, OpKinds: indexMix})}
		},
		func(c HistCase, ctx *Ctx) error {
			e := newEnv()
			err := steps(e, c.Ops, e.checkPresence)
			ctx.histClasses(e)
			if len(e.nindex)+len(e.eindex) > 0 && e.stats["overwrite"]+e.stats["propremoved"]+e.stats["removed"] > 0 {
				ctx.NonTrivial()
			}
			return err
		})
	register("C04", "big", "the same with bulk operations giving hundreds of distinct index keys; non-trivial: as history",
		80, func(t *rapid.T) HistCase {
			return HistCase{Ops: genOps(t, HistOpt{MaxOps: 30, BulkOneIn: 1, BulkMax: 200, OpKinds: indexMix})}
		},
		func(c HistCase, ctx *Ctx) error {
			e := newEnv()
			err := stepsSparse(e, c.Ops, e.checkPresence)
			ctx.histClasses(e)
			if len(e.nindex)+len(e.eindex) > 0 {
				ctx.NonTrivial()
			}
			return err
		})

	runFind := func(c FindCase, ctx *Ctx, every bool) error {
		e := newEnv()
		check := func() error {
			for _, q := range c.Queries {
				labels, props := e.resolve(q)
				n, err := e.checkFind(labels, props)
				if err != nil {
					return err
				}
				if n > 0 && len(props) > 0 {
					ctx.NonTrivial()
					ctx.Class("property query with an answer")
					ctx.ClassIf(len(labels) > 0, "label and property query with an answer")
					for _, p := range props {
						ctx.ClassIf(e.nindex[p.Key] || e.eindex[p.Key], "indexed query with an answer")
					}
				}
				ctx.ClassIf(n == 0 && len(props) > 0, "property query without an answer")
			}
			return nil
		}
		var err error
		if every {
			err = steps(e, c.Ops, check)
		} else {
			err = stepsSparse(e, c.Ops, check)
		}
		if err == nil {
			err = e.checkOwnFinds(20)
		}
		ctx.histClasses(e)
		return err
	}
	genFind := func(o HistOpt) func(t *rapid.T) FindCase {
		return func(t *rapid.T) FindCase {
			c := FindCase{Ops: genOps(t, o)}
			n := rapid.IntRange(1, 5).Draw(t, "nqueries")
			for i := 0; i < n; i++ {
				c.Queries = append(c.Queries, genQuery(t))
			}
			return c
		}
	}
	register("C05", "history",
		"histories with indexes; find queries with stored, foreign and incomparable values after every step; non-trivial: a property query with an answer",
		2000, genFind(HistOpt{MaxOps: 35, BulkOneIn: 12, BulkMax: 30, OpKinds: indexMix}),
		func(c FindCase, ctx *Ctx) error { return runFind(c, ctx, true) })
	register("C05", "big", "the same with bulk operations; non-trivial: as history",
		60, genFind(HistOpt{MaxOps: 25, BulkOneIn: 1, BulkMax: 150, OpKinds: indexMix}),
		func(c FindCase, ctx *Ctx) error { return runFind(c, ctx, false) })

	register("C05", "conjunctions",
		"graphs whose items have up to 8 indexed properties of two values each and up to 12 labels; queries with up to 8 properties and 12 labels; non-trivial: as history",
		400, genConjunctions, func(c FindCase, ctx *Ctx) error { return runFind(c, ctx, false) })

	// ------------------------------------------------------------ C25
	register("C25", "helpers",
		"histories; all traversal helpers on the final graph; non-trivial: the graph has edges",
		2500, genHist(35, 10, 20),
		func(c HistCase, ctx *Ctx) error {
			e := newEnv()
			e.runAll(c.Ops)
			ctx.histClasses(e)
			if len(e.edges) > 0 {
				ctx.NonTrivial()
			}
			return e.checkHelpers(ctx)
		})

	register("C25", "ends",
		"the ends of edges drawn from two graphs, one of them often built like the other, with repetitions; non-trivial: edges of both graphs",
		800, func(t *rapid.T) EndsCase {
			h := genHist(20, 10, 20)
			c := EndsCase{Ops: h(t).Ops}
			if rapid.Bool().Draw(t, "same") {
				c.Ops2 = c.Ops
			} else {
				c.Ops2 = h(t).Ops
			}
			c.Pick = rapid.SliceOfN(rapid.IntRange(0, 60), 0, 20).Draw(t, "pick")
			return c
		},
		func(c EndsCase, ctx *Ctx) error {
			e := []*Env{newEnv(), newEnv()}
			e[0].runAll(c.Ops)
			e[1].runAll(c.Ops2)
			var l []*lpg.Edge
			from, to := map[*lpg.Node]bool{}, map[*lpg.Node]bool{}
			var from2 int
			for _, p := range c.Pick {
				if x := e[p%2].edge(p / 2); x != nil {
					l = append(l, x.h)
					from[x.from.h], to[x.to.h] = true, true
					from2 |= 1 << (p % 2)
				}
			}
			if from2 == 3 {
				ctx.NonTrivial()
			}
			same := func(what string, got []*lpg.Node, want map[*lpg.Node]bool) error {
				seen := map[*lpg.Node]bool{}
				for _, n := range got {
					if seen[n] || !want[n] {
						return fmt.Errorf("%s of edges of two graphs: a node is listed twice or is no end", what)
					}
					seen[n] = true
				}
				if len(seen) != len(want) {
					return fmt.Errorf("%s of edges of two graphs: %d nodes, expected %d", what, len(seen), len(want))
				}
				return nil
			}
			if err := same("TargetNodes", lpg.TargetNodes(&edgeSliceItr{l: l}), to); err != nil {
				return err
			}
			return same("SourceNodes", lpg.SourceNodes(&edgeSliceItr{l: l}), from)
		})

	// ------------------------------------------------------------ C27
	register("C27", "two-graphs",
		"interleaved histories of two graphs and edges with foreign endpoints; non-trivial: both graphs changed or a foreign endpoint was tried",
		1500, func(t *rapid.T) PairCase {
			one := rapid.Custom(func(t *rapid.T) PairStep {
				s := PairStep{G: rapid.IntRange(0, 1).Draw(t, "g")}
				if rapid.IntRange(0, 6).Draw(t, "foreign?") == 0 {
					s.Foreign = rapid.SampledFrom([]string{"from", "to", "both", "clone-from", "clone-to", "labels"}).Draw(t, "foreign")
					s.Fast = rapid.Bool().Draw(t, "fast")
					s.A, s.B = rapid.IntRange(0, 9).Draw(t, "a"), rapid.IntRange(0, 9).Draw(t, "b")
					s.Label, s.Props = genLabel(t, "elabel"), genProps(t, 2)
					return s
				}
				ops := genOps(t, HistOpt{MaxOps: 1, BulkOneIn: 10, BulkMax: 60})
				if len(ops) > 0 {
					s.Op = &ops[0]
				}
				return s
			})
			return PairCase{Steps: rapid.SliceOfN(one, 0, 40).Draw(t, "steps")}
		},
		func(c PairCase, ctx *Ctx) error {
			es := []*Env{newEnv(), newEnv()}
			touched := map[int]bool{}
			for i, s := range c.Steps {
				e, o := es[s.G], es[1-s.G]
				if s.Op != nil {
					e.apply(*s.Op)
					touched[s.G] = true
				} else if s.Foreign != "" && len(e.nodes) > 0 && len(o.nodes) > 0 {
					from, to := e.node(s.A).h, e.node(s.B).h
					if s.Foreign == "labels" {
						// a node of this graph with the labels of a node of the other
						n := o.node(s.B)
						e.adopt(e.g.FastNewNode(n.h.GetLabels(), nil), labelMap(sortedKeys(n.labels)), map[string]Val{})
						m := e.node(s.A)
						m.h.SetLabels(n.h.GetLabels())
						m.labels = labelMap(sortedKeys(n.labels))
						ctx.Class("labels taken from the other graph")
						continue
					}
					switch s.Foreign {
					case "from", "clone-from":
						from = o.node(s.A).h
					case "to", "clone-to":
						to = o.node(s.B).h
					case "both":
						from, to = o.node(s.A).h, o.node(s.B).h
					}
					ctx.Class("foreign " + s.Foreign)
					ctx.NonTrivial()
					props := goProps(s.Props)
					panicked := didPanic(func() {
						switch {
						case s.Foreign == "clone-from" || s.Foreign == "clone-to":
							if x := o.edge(s.A); x != nil {
								lpg.CloneEdge(from, to, x.h, e.g, func(_ string, v interface{}) interface{} { return v })
							} else {
								e.g.NewEdge(from, to, s.Label, props)
							}
						case s.Fast:
							e.g.FastNewEdge(from, to, s.Label, props)
						default:
							e.g.NewEdge(from, to, s.Label, props)
						}
					})
					if !panicked {
						return fmt.Errorf("step %d: an edge with a foreign endpoint (%s) was accepted", i, s.Foreign)
					}
				}
				for k, e := range es {
					if err := e.checkIdentity(); err != nil {
						return fmt.Errorf("after step %d, graph %d: %w", i, k, err)
					}
					if err := e.checkContents(); err != nil {
						return fmt.Errorf("after step %d, graph %d: %w", i, k, err)
					}
				}
			}
			for k, e := range es {
				if err := e.checkAll(); err != nil {
					return fmt.Errorf("graph %d at the end: %w", k, err)
				}
			}
			if touched[0] && touched[1] {
				ctx.NonTrivial()
				ctx.Class("both graphs changed")
			}
			return probeItems(es...)
		})
	register("C27", "ids",
		"single-graph histories with removals; identifiers distinct and stable after every step; non-trivial: an item was created after a removal",
		1500, genHist(45, 8, 60),
		func(c HistCase, ctx *Ctx) error {
			e := newEnv()
			err := steps(e, c.Ops, e.checkIdentity)
			ctx.histClasses(e)
			if e.stats["removed"] > 0 && len(e.nodes) > 0 {
				ctx.NonTrivial()
			}
			return err
		})
}

// stepsSparse checks only after bulk operations and at the end.
func stepsSparse(e *Env, ops []Op, check func() error) error {
	last := -10
	for i, op := range ops {
		if len(e.nodes)+len(e.edges) > 900 && (op.Op == "bn" || op.Op == "be") {
			continue
		}
		e.apply(op)
		if (op.Op == "br" || op.Op == "ber" || op.Op == "bp" || op.Op == "bep") && i-last > 3 {
			last = i
			if err := check(); err != nil {
				return fmt.Errorf("after op %d (%s): %w", i, op.Op, err)
			}
		}
	}
	return check()
}

// ---------------------------------------------------------------- C25 oracle

func (e *Env) checkHelpers(ctx *Ctx) error {
	noIn := func(n *MNode) bool {
		for _, x := range e.edges {
			if x.to == n {
				return false
			}
		}
		return true
	}
	noOut := func(n *MNode) bool {
		for _, x := range e.edges {
			if x.from == n {
				return false
			}
		}
		return true
	}
	if err := e.sameNodes("Sources", lpg.Sources(e.g), noIn); err != nil {
		return err
	}
	if err := e.nodesOf("SourcesItr", lpg.SourcesItr(e.g), noIn); err != nil {
		return err
	}
	if err := e.sameNodes("Sinks", lpg.Sinks(e.g), noOut); err != nil {
		return err
	}
	if err := e.nodesOf("SinksItr", lpg.SinksItr(e.g), noOut); err != nil {
		return err
	}
	for i, a := range e.nodes {
		if i > 14 {
			break
		}
		for j, b := range e.nodes {
			if j > 14 {
				break
			}
			if err := e.sameEdges(fmt.Sprintf("EdgesBetweenNodes(%s,%s)", a, b), lpg.EdgesBetweenNodes(a.h, b.h), func(x *MEdge) bool {
				return x.from == a && x.to == b
			}); err != nil {
				return err
			}
		}
		uni := e.labelUniverse("A", "zz")
		for k, l := range uni {
			if k > 8 {
				break
			}
			if err := e.sameNodes(fmt.Sprintf("NextNodesWith(%s,%q)", a, l), lpg.NextNodesWith(a.h, l), func(n *MNode) bool {
				for _, x := range e.edges {
					if x.from == a && x.to == n && x.label == l {
						return true
					}
				}
				return false
			}); err != nil {
				return err
			}
			if err := e.sameNodes(fmt.Sprintf("PrevNodesWith(%s,%q)", a, l), lpg.PrevNodesWith(a.h, l), func(n *MNode) bool {
				for _, x := range e.edges {
					if x.to == a && x.from == n && x.label == l {
						return true
					}
				}
				return false
			}); err != nil {
				return err
			}
		}
		// ends of all edges at a node, in every direction
		for _, dir := range dirs {
			if err := e.sameNodes(fmt.Sprintf("TargetNodes(%s %s)", a, dirName(dir)), lpg.TargetNodes(a.h.GetEdges(dir)), func(n *MNode) bool {
				for _, x := range e.edges {
					if incidence(x, a, dir) > 0 && x.to == n {
						return true
					}
				}
				return false
			}); err != nil {
				return err
			}
			if err := e.sameNodes(fmt.Sprintf("SourceNodes(%s %s)", a, dirName(dir)), lpg.SourceNodes(a.h.GetEdges(dir)), func(n *MNode) bool {
				for _, x := range e.edges {
					if incidence(x, a, dir) > 0 && x.from == n {
						return true
					}
				}
				return false
			}); err != nil {
				return err
			}
		}
	}
	// what is left of partly consumed iterators of the library
	for i, a := range e.nodes {
		if i > 3 {
			break
		}
		for _, dir := range dirs {
			for _, label := range []string{"", "A", "zz"} {
				for k := 0; k <= 3; k++ {
					if err := e.checkRest(a, dir, i%2 == 0, label, k); err != nil {
						return err
					}
				}
			}
		}
	}
	// slices of partly consumed iterators
	for k := 0; k <= 3; k++ {
		nit := e.g.GetNodes()
		var first []*lpg.Node
		for i := 0; i < k && nit.Next(); i++ {
			first = append(first, nit.Node())
		}
		rest := lpg.NodeSlice(nit)
		if err := e.sameNodes(fmt.Sprintf("NodeSlice after %d", k), append(first, rest...), func(*MNode) bool { return true }); err != nil {
			return err
		}
		eit := e.g.GetEdges()
		var firstE []*lpg.Edge
		for i := 0; i < k && eit.Next(); i++ {
			firstE = append(firstE, eit.Edge())
		}
		restE := lpg.EdgeSlice(eit)
		if err := e.sameEdges(fmt.Sprintf("EdgeSlice after %d", k), append(firstE, restE...), func(*MEdge) bool { return true }); err != nil {
			return err
		}
		// ends of the remaining edges only
		all := make([]*lpg.Edge, 0)
		for _, x := range e.edges {
			all = append(all, x.h)
		}
		mk := func() *edgeSliceItr {
			it := &edgeSliceItr{l: all}
			for i := 0; i < k; i++ {
				it.Next()
			}
			return it
		}
		skip := k
		if skip > len(all) {
			skip = len(all)
		}
		if err := e.sameNodes(fmt.Sprintf("TargetNodes after %d", k), lpg.TargetNodes(mk()), func(n *MNode) bool {
			for _, h := range all[skip:] {
				if h.GetTo() == n.h {
					return true
				}
			}
			return false
		}); err != nil {
			return err
		}
		if err := e.sameNodes(fmt.Sprintf("SourceNodes after %d", k), lpg.SourceNodes(mk()), func(n *MNode) bool {
			for _, h := range all[skip:] {
				if h.GetFrom() == n.h {
					return true
				}
			}
			return false
		}); err != nil {
			return err
		}
	}
	// ForEachNode
	var visited []*lpg.Node
	if !lpg.ForEachNode(e.g, func(n *lpg.Node) bool { visited = append(visited, n); return true }) {
		return fmt.Errorf("ForEachNode returned false though nothing declined")
	}
	if err := e.sameNodes("ForEachNode", visited, func(*MNode) bool { return true }); err != nil {
		return err
	}
	for stop := 1; stop <= len(e.nodes) && stop <= 5; stop++ {
		calls := 0
		if lpg.ForEachNode(e.g, func(*lpg.Node) bool { calls++; return calls < stop }) {
			return fmt.Errorf("ForEachNode returned true though the callback declined")
		}
		if calls != stop {
			return fmt.Errorf("ForEachNode made %d calls, declined at %d", calls, stop)
		}
	}
	return nil
}

// edgeSliceItr is an edge iterator of the caller.
type edgeSliceItr struct {
	l   []*lpg.Edge
	pos int
}

func (i *edgeSliceItr) Next() bool {
	if i.pos > len(i.l) {
		return false
	}
	i.pos++
	return i.pos <= len(i.l)
}
func (i *edgeSliceItr) Edge() *lpg.Edge {
	if i.pos < 1 || i.pos > len(i.l) {
		return nil
	}
	return i.l[i.pos-1]
}
func (i *edgeSliceItr) Value() interface{} { return i.Edge() }
func (i *edgeSliceItr) MaxSize() int       { return len(i.l) }

// checkRest takes k edges from an iterator over edges of a, and asks for the
// ends of what is left of it.
func (e *Env) checkRest(a *MNode, dir lpg.EdgeDir, byLabel bool, label string, k int) error {
	mk := func() lpg.EdgeIterator {
		if byLabel {
			return a.h.GetEdgesWithLabel(dir, label)
		}
		return a.h.GetEdges(dir)
	}
	rest := map[*lpg.Edge]int{}
	for _, x := range e.edges {
		if !byLabel || x.label == label {
			if n := incidence(x, a, dir); n > 0 {
				rest[x.h] = n
			}
		}
	}
	take := func(left map[*lpg.Edge]int) lpg.EdgeIterator {
		itr := mk()
		for i := 0; i < k && itr.Next(); i++ {
			left[itr.Edge()]--
		}
		return itr
	}
	copyOf := func() map[*lpg.Edge]int {
		m := map[*lpg.Edge]int{}
		for x, n := range rest {
			m[x] = n
		}
		return m
	}
	what := fmt.Sprintf("of the edges of %s %s (label %v %q) after %d", a, dirName(dir), byLabel, label, k)
	left := copyOf()
	for _, x := range lpg.EdgeSlice(take(left)) {
		left[x]--
	}
	for _, n := range left {
		if n != 0 {
			return fmt.Errorf("EdgeSlice %s: an edge is missing or listed too often", what)
		}
	}
	for _, f := range []struct {
		name string
		list func(lpg.EdgeIterator) []*lpg.Node
		end  func(*lpg.Edge) *lpg.Node
	}{
		{"TargetNodes", lpg.TargetNodes, (*lpg.Edge).GetTo},
		{"SourceNodes", lpg.SourceNodes, (*lpg.Edge).GetFrom},
	} {
		left := copyOf()
		itr := take(left)
		want := map[*lpg.Node]bool{}
		for x, n := range left {
			if n > 0 {
				want[f.end(x)] = true
			}
		}
		if err := e.sameNodes(f.name+" "+what, f.list(itr), func(n *MNode) bool { return want[n.h] }); err != nil {
			return err
		}
	}
	return nil
}
