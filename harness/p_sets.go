package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C22

type SetOp struct {
	Op   string   `json:"op"`
	R    int      `json:"r"`
	Q    int      `json:"q,omitempty"`
	Args []string `json:"args,omitempty"`
}

type SetCase struct {
	Ops []SetOp `json:"ops"`
}

const nSets = 4

func setText(m map[string]bool) string { return fmt.Sprintf("%q", sortedKeys(m)) }

func cloneSet(m map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k := range m {
		r[k] = true
	}
	return r
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// checkStringSet compares one set with the reference through every reader.
func checkStringSet(what string, s lpg.StringSet, m map[string]bool, universe []string) error {
	f := func(format string, a ...any) error {
		return fmt.Errorf("%s should be %s: %s", what, setText(m), fmt.Sprintf(format, a...))
	}
	keys := sortedKeys(m)
	if s.Len() != len(m) {
		return f("Len is %d", s.Len())
	}
	for _, x := range universe {
		if s.Has(x) != m[x] {
			return f("Has(%q) is %v", x, s.Has(x))
		}
		if s.HasAny(x) != m[x] || s.HasAll(x) != m[x] {
			return f("HasAny or HasAll of %q is not %v", x, m[x])
		}
	}
	sl := s.Slice()
	got := append([]string(nil), sl...)
	sort.Strings(got)
	if !eqStrings(got, keys) {
		return f("Slice is %q", sl)
	}
	sorted := s.SortedSlice()
	if !eqStrings(sorted, keys) {
		return f("SortedSlice is %q", sorted)
	}
	// the slices belong to the caller
	for i := range sl {
		sl[i] = "changed"
	}
	for i := range sorted {
		sorted[i] = "changed"
	}
	if again := s.SortedSlice(); !eqStrings(again, keys) {
		return f("after writing to the returned slices, it is %q", again)
	}
	// text: the items joined by ", " in some order
	text, plain, total := s.String(), true, 0
	for _, k := range keys {
		plain = plain && !strings.Contains(k, ",") && k != ""
		total += len(k)
	}
	if n := len(keys); n > 0 {
		total += 2 * (n - 1)
	}
	if len(text) != total {
		return f("String is %q", text)
	}
	if plain && len(keys) > 0 {
		parts := strings.Split(text, ", ")
		sort.Strings(parts)
		if !eqStrings(parts, keys) {
			return f("String is %q", text)
		}
	}
	b, err := json.Marshal(s)
	if err != nil {
		return f("MarshalJSON: %v", err)
	}
	var arr []string
	if err := json.Unmarshal(b, &arr); err != nil {
		return f("MarshalJSON gives %s: %v", b, err)
	}
	sort.Strings(arr)
	if !eqStrings(arr, keys) {
		return f("MarshalJSON gives %s", b)
	}
	var back lpg.StringSet
	if err := json.Unmarshal(b, &back); err != nil {
		return f("UnmarshalJSON of %s: %v", b, err)
	}
	if g := back.SortedSlice(); !eqStrings(g, keys) || !back.IsEqual(s) || !s.IsEqual(back) {
		return f("UnmarshalJSON of %s gives %q", b, g)
	}
	return nil
}

func runSetCase(c SetCase, ctx *Ctx) error {
	var lib [nSets]lpg.StringSet
	var ref [nSets]map[string]bool
	for i := range ref {
		ref[i] = map[string]bool{}
	}
	uni := map[string]bool{"": true, "zz": true}
	for _, o := range c.Ops {
		for _, a := range o.Args {
			uni[a] = true
		}
	}
	universe := sortedKeys(uni)
	shared := false
	for i, o := range c.Ops {
		r, q := mod(o.R, nSets), mod(o.Q, nSets)
		what := fmt.Sprintf("step %d: %s(%q) on %d with %d", i, o.Op, o.Args, r, q)
		args := append([]string(nil), o.Args...)
		var ret *lpg.StringSet
		switch o.Op {
		case "new":
			lib[r] = lpg.NewStringSet(args...)
			ref[r] = labelMap(o.Args)
		case "zero":
			lib[r], ref[r] = lpg.StringSet{}, map[string]bool{}
		case "add":
			ret = lib[r].Add(args...)
			for _, a := range o.Args {
				ref[r][a] = true
			}
		case "addset":
			ret = lib[r].AddSet(lib[q])
			for a := range ref[q] {
				ref[r][a] = true
			}
		case "remove":
			ret = lib[r].Remove(args...)
			for _, a := range o.Args {
				if ref[r][a] {
					ctx.Class("removed an item")
				}
				delete(ref[r], a)
			}
		case "clone":
			lib[r], ref[r] = lib[q].Clone(), cloneSet(ref[q])
			shared = shared || r != q && len(ref[q]) > 0
		case "assign":
			lib[r], ref[r] = lib[q], cloneSet(ref[q])
			shared = shared || r != q && len(ref[q]) > 0
		case "json":
			b, err := json.Marshal(args)
			if err != nil {
				bug("%v", err)
			}
			if o.Args == nil {
				b = []byte("[]")
			}
			if err := json.Unmarshal(b, &lib[r]); err != nil {
				return fmt.Errorf("%s: UnmarshalJSON of %s: %w", what, b, err)
			}
			ref[r] = labelMap(o.Args)
		case "badjson":
			if err := lib[r].UnmarshalJSON([]byte(`{"a":1}`)); err == nil {
				return fmt.Errorf("%s: UnmarshalJSON of an object is accepted", what)
			}
			lib[r], ref[r] = lpg.StringSet{}, map[string]bool{}
		case "query":
			any, all := false, true
			for _, a := range o.Args {
				any = any || ref[r][a]
				all = all && ref[r][a]
			}
			arg := lpg.NewStringSet(args...)
			if lib[r].HasAny(args...) != any || lib[r].HasAnySet(arg) != any {
				return fmt.Errorf("%s: HasAny and HasAnySet of %s should be %v", what, setText(ref[r]), any)
			}
			if lib[r].HasAll(args...) != all || lib[r].HasAllSet(arg) != all {
				return fmt.Errorf("%s: HasAll and HasAllSet of %s should be %v", what, setText(ref[r]), all)
			}
			if err := checkStringSet(what+": the argument", arg, labelMap(o.Args), universe); err != nil {
				return err
			}
			ctx.ClassIf(any && !all, "some but not all")
		default:
			bug("set op %q", o.Op)
		}
		if !eqStrings(args, o.Args) {
			return fmt.Errorf("%s: the arguments changed to %q", what, args)
		}
		if ret != nil && ret != &lib[r] {
			return fmt.Errorf("%s: returns another set", what)
		}
		if shared && (o.Op == "add" || o.Op == "addset" || o.Op == "remove") {
			ctx.NonTrivial()
		}
		for k := range lib {
			if err := checkStringSet(fmt.Sprintf("after %s: set %d", what, k), lib[k], ref[k], universe); err != nil {
				return err
			}
			for j := range lib {
				any, all := false, true
				for x := range ref[j] {
					any = any || ref[k][x]
					all = all && ref[k][x]
				}
				eq := all && len(ref[j]) == len(ref[k])
				if lib[k].HasAnySet(lib[j]) != any || lib[k].HasAllSet(lib[j]) != all || lib[k].IsEqual(lib[j]) != eq {
					return fmt.Errorf("after %s: of %s and %s: HasAnySet %v, HasAllSet %v, IsEqual %v", what, setText(ref[k]), setText(ref[j]),
						lib[k].HasAnySet(lib[j]), lib[k].HasAllSet(lib[j]), lib[k].IsEqual(lib[j]))
				}
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C23

type CollOp struct {
	Op     string   `json:"op"`
	A      int      `json:"a"`
	B      int      `json:"b,omitempty"`
	Labels []string `json:"labels,omitempty"`
	Walk   []int    `json:"walk,omitempty"`
	N      int      `json:"n,omitempty"` // also the N items that follow
}

type CollCase struct {
	Ops   []Op     `json:"ops"`
	Steps []CollOp `json:"steps"`
}

// ordered is a reference set in insertion order.
type ordered[T comparable] struct{ l []T }

func (o *ordered[T]) has(x T) bool {
	for _, y := range o.l {
		if x == y {
			return true
		}
	}
	return false
}

func (o *ordered[T]) add(x T) {
	if !o.has(x) {
		o.l = append(o.l, x)
	}
}

func (o *ordered[T]) remove(x T) {
	for i, y := range o.l {
		if x == y {
			o.l = append(o.l[:i:i], o.l[i+1:]...)
			return
		}
	}
}

func eqNodes(got []*lpg.Node, want []*MNode) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != want[i].h {
			return false
		}
	}
	return true
}

func eqEdges(got []*lpg.Edge, want []*MEdge) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != want[i].h {
			return false
		}
	}
	return true
}

func (e *Env) edgeNames(l []*lpg.Edge) []string {
	var r []string
	for _, x := range l {
		if m := e.byEdge[x]; m != nil {
			r = append(r, m.String())
		} else {
			r = append(r, "?")
		}
	}
	return r
}

func runCollections(c CollCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	ns, es, nm, ps := lpg.NewNodeSet(), lpg.NewEdgeSet(), lpg.NewNodeMap(), &lpg.PatternSymbol{}
	var rn, pn ordered[*MNode]
	var re, pe ordered[*MEdge]
	stored := map[*MNode]bool{}
	for i, s := range c.Steps {
		what := fmt.Sprintf("step %d (%s %d)", i, s.Op, s.A)
		for k := 0; k <= s.N; k++ {
			n, x := e.node(s.A+k), e.edge(s.A+k)
			switch s.Op {
			case "na":
				if n != nil {
					ctx.ClassIf(rn.has(n), "node added again")
					ns.Add(n.h)
					rn.add(n)
				}
			case "nr":
				if n != nil {
					if rn.has(n) {
						ctx.NonTrivial()
					}
					ns.Remove(n.h)
					rn.remove(n)
				}
			case "ea":
				if x != nil {
					ctx.ClassIf(re.has(x), "edge added again")
					es.Add(x.h)
					re.add(x)
				}
			case "er":
				if x != nil {
					if re.has(x) {
						ctx.NonTrivial()
					}
					es.Remove(x.h)
					re.remove(x)
				}
			case "ma":
				if n != nil {
					nm.Add(n.h)
					stored[n] = true
				}
			case "mr":
				if n != nil {
					if stored[n] {
						ctx.NonTrivial()
					}
					nm.Remove(n.h)
					delete(stored, n)
				}
			case "ml": // relabel, keeping the map up to date
				if n != nil {
					var nl lpg.StringSet
					if len(s.Labels) > 0 {
						nl = lpg.NewStringSet(s.Labels...)
					}
					if stored[n] {
						nm.Replace(n.h, n.h.GetLabels(), nl)
						ctx.Class("stored node relabelled")
						ctx.ClassIf(len(n.labels) == 0 && len(s.Labels) > 0, "stored node gets its first label")
						ctx.ClassIf(len(n.labels) > 0 && len(s.Labels) == 0, "stored node loses all labels")
					}
					n.h.SetLabels(nl)
					n.labels = labelMap(s.Labels)
				}
			case "pn":
				if n != nil {
					if s.B%2 == 0 {
						ps.AddNode(n.h)
					} else {
						ps.Add(n.h)
					}
					pn.add(n)
				}
			case "pe":
				if x != nil {
					ps.Add(x.h)
					pe.add(x)
				}
			case "pp":
				if n != nil {
					w := e.walk(n, s.Walk, s.B)
					p := lpg.PathFromNode(n.h)
					if len(w) > 0 {
						p = lpg.NewPathFromElements(libElems(w)...)
					}
					if s.B%2 == 0 {
						ps.AddPath(p)
					} else {
						ps.Add(p)
					}
					for _, y := range w {
						pe.add(y.x)
					}
					if err := checkPath(what+": the argument", p, mPath{n, w}); err != nil {
						return err
					}
					ctx.ClassIf(len(w) > 1, "path of edges added to a symbol")
				}
			default:
				bug("collection op %q", s.Op)
			}
		}
		if ns.Len() != len(rn.l) || es.Len() != len(re.l) {
			return fmt.Errorf("%s: Len %d and %d instead of %d and %d", what, ns.Len(), es.Len(), len(rn.l), len(re.l))
		}
		for _, n := range e.nodes {
			if ns.Has(n.h) != rn.has(n) {
				return fmt.Errorf("%s: NodeSet.Has(%v) is %v", what, n, ns.Has(n.h))
			}
		}
		for _, x := range e.edges {
			if es.Has(x.h) != re.has(x) {
				return fmt.Errorf("%s: EdgeSet.Has(%v) is %v", what, x, es.Has(x.h))
			}
		}
		l1, err := drainNodes(what+": NodeSet.Iterator", ns.Iterator())
		if err != nil {
			return err
		}
		l2, err := drainEdges(what+": EdgeSet.Iterator", es.Iterator())
		if err != nil {
			return err
		}
		for _, l := range [][]*lpg.Node{ns.Slice(), l1} {
			if !eqNodes(l, rn.l) {
				return fmt.Errorf("%s: NodeSet has %v instead of %v", what, e.nodeNames(l), rn.l)
			}
		}
		for _, l := range [][]*lpg.Edge{es.Slice(), l2} {
			if !eqEdges(l, re.l) {
				return fmt.Errorf("%s: EdgeSet has %v instead of %v", what, e.edgeNames(l), re.l)
			}
		}
		// NodeMap
		if nm.IsEmpty() != (len(stored) == 0) {
			return fmt.Errorf("%s: NodeMap.IsEmpty is %v with %d nodes stored", what, nm.IsEmpty(), len(stored))
		}
		if err := e.nodesOf(what+": NodeMap.Iterator", nm.Iterator(), func(n *MNode) bool { return stored[n] }); err != nil {
			return err
		}
		uni := e.labelUniverse("zz")
		queries := [][]string{nil, s.Labels}
		for k, l := range uni {
			queries = append(queries, []string{l}, []string{l, uni[(k+1)%len(uni)]})
		}
		if n := e.node(s.A); n != nil && len(n.labels) > 2 {
			queries = append(queries, sortedKeys(n.labels))
		}
		for _, q := range queries {
			err := e.nodesOf(fmt.Sprintf("%s: NodeMap.IteratorAllLabels(%q)", what, q), nm.IteratorAllLabels(strset(q)), func(n *MNode) bool { return stored[n] && n.hasAll(q) })
			if err != nil {
				return err
			}
		}
		// PatternSymbol
		if l := ps.NodeSlice(); !eqNodes(l, pn.l) {
			return fmt.Errorf("%s: NodeSlice is %v instead of %v", what, e.nodeNames(l), pn.l)
		}
		var l []*lpg.Edge
		if p := ps.EdgeSlice(); p != nil {
			for i := 0; i < p.NumEdges(); i++ {
				l = append(l, p.GetEdge(i))
			}
		}
		if !eqEdges(l, pe.l) {
			return fmt.Errorf("%s: EdgeSlice is %v instead of %v", what, e.edgeNames(l), pe.l)
		}
	}
	// what was read out is the caller's
	for _, l := range [][]*lpg.Node{ns.Slice(), ps.NodeSlice()} {
		for i := range l {
			l[i] = nil
		}
	}
	if !eqNodes(ns.Slice(), rn.l) || !eqNodes(ps.NodeSlice(), pn.l) {
		return fmt.Errorf("writing to a returned slice changed the set")
	}
	if err := e.checkContents(); err != nil {
		return fmt.Errorf("the graph changed: %w", err)
	}
	return e.checkLabels(nil)
}

func init() {
	register("C22", "registers", "operation sequences over four sets (zero, built, decoded, cloned, assigned), all sets checked through every reader after every operation; non-trivial: a change after a non-empty set was copied",
		3000, func(t *rapid.T) SetCase {
			pool := []string{"a", "b", "c", "", "é", "a, b", `q"`, "https://example.org/ns#SomeLongName0123456789", "https://example.org/ns#SomeLongName0123456780", strings.Repeat("ab", 50)}
			word := rapid.Custom(func(t *rapid.T) string {
				if rapid.IntRange(0, 19).Draw(t, "rnd") == 0 {
					s := rapid.String().Draw(t, "s")
					if utf8.ValidString(s) {
						return s
					}
				}
				return rapid.SampledFrom(pool).Draw(t, "w")
			})
			args := rapid.Custom(func(t *rapid.T) []string {
				if rapid.IntRange(0, 29).Draw(t, "large") != 0 {
					return rapid.SliceOfN(word, 0, 4).Draw(t, "args")
				}
				var l []string
				lo := rapid.IntRange(0, 20).Draw(t, "from")
				for k := rapid.IntRange(0, 40).Draw(t, "count"); k > 0; k-- {
					l = append(l, fmt.Sprintf("w%d", lo+k))
				}
				return l
			})
			op := rapid.Custom(func(t *rapid.T) SetOp {
				return SetOp{
					Op: rapid.SampledFrom([]string{"new", "zero", "add", "add", "add", "addset", "addset", "remove", "remove", "remove", "clone", "clone", "assign", "assign", "json", "badjson", "query", "query"}).Draw(t, "op"),
					R:  rapid.IntRange(0, nSets-1).Draw(t, "r"), Q: rapid.IntRange(0, nSets-1).Draw(t, "q"),
					Args: args.Draw(t, "args"),
				}
			})
			lo := rapid.SampledFrom([]int{0, 5, 12}).Draw(t, "lo")
			ops := rapid.SliceOfN(op, lo, 25).Draw(t, "ops")
			if rapid.Bool().Draw(t, "copied") {
				r := rapid.IntRange(0, nSets-1).Draw(t, "src")
				q := (r + 1 + rapid.IntRange(0, nSets-2).Draw(t, "dst")) % nSets
				pre := []SetOp{
					{Op: "new", R: r, Args: rapid.SliceOfN(word, 1, 5).Draw(t, "items")},
					{Op: rapid.SampledFrom([]string{"clone", "assign", "addset", "json"}).Draw(t, "copy"), R: q, Q: r},
				}
				ops = append(pre, ops...)
			}
			return SetCase{ops}
		}, runSetCase)
	collOp := func(hi, run int) *rapid.Generator[CollOp] {
		return rapid.Custom(func(t *rapid.T) CollOp {
			o := CollOp{Op: rapid.SampledFrom([]string{"na", "na", "nr", "ea", "ea", "er", "ma", "ma", "ma", "mr", "ml", "ml", "ml", "pn", "pe", "pp"}).Draw(t, "op"),
				A: rapid.IntRange(0, hi).Draw(t, "a"), B: rapid.IntRange(0, 3).Draw(t, "b")}
			if o.Op == "ml" {
				o.Labels = genLabels(t, 3)
			}
			if o.Op == "pp" {
				o.Walk = rapid.SliceOfN(rapid.IntRange(0, 9), 0, 4).Draw(t, "walk")
			} else if run > 0 && rapid.Bool().Draw(t, "many") {
				o.N = rapid.IntRange(1, run).Draw(t, "n")
			}
			return o
		})
	}
	register("C23", "large", "the same over graphs of up to 150 nodes or edges and runs of operations on many items; non-trivial: a stored item was removed",
		200, func(t *rapid.T) CollCase {
			c := CollCase{Ops: genOps(t, HistOpt{MaxOps: 12, BulkOneIn: 2, BulkMax: 150})}
			c.Steps = rapid.SliceOfN(collOp(150, 120), 4, 25).Draw(t, "steps")
			return c
		}, runCollections)
	register("C23", "collections", "operation sequences on a NodeSet, an EdgeSet, a NodeMap and a PatternSymbol over the items of a graph, all checked after every operation; non-trivial: a stored item was removed",
		3000, func(t *rapid.T) CollCase {
			c := CollCase{}
			if rapid.Bool().Draw(t, "hist") {
				c.Ops = genOps(t, HistOpt{MaxOps: 20})
			} else {
				c.Ops = genPathGraph(t)
			}
			lo := rapid.SampledFrom([]int{1, 5, 15}).Draw(t, "lo")
			c.Steps = rapid.SliceOfN(collOp(7, 0), lo, 30).Draw(t, "steps")
			return c
		}, runCollections)
}
