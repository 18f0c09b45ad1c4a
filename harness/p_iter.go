package main

import (
	"fmt"
	"sort"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C06

// producer makes a fresh iterator of the library.
type producer struct {
	name string
	mk   func() lpg.Iterator
}

// IterCase: a history, then interleavings of some of the iterators.
type IterCase struct {
	Ops      []Op  `json:"ops"`
	Query    Query `json:"query"`
	Pick     []int `json:"pick"`     // producers to interleave
	Schedule []int `json:"schedule"` // which one moves next
}

// producers lists every way to get an iterator over the graph.
func (e *Env) producers(q Query) []producer {
	var ps []producer
	add := func(name string, f func() lpg.Iterator) { ps = append(ps, producer{name, f}) }
	add("GetNodes", func() lpg.Iterator { return e.g.GetNodes() })
	add("GetEdges", func() lpg.Iterator { return e.g.GetEdges() })
	add("SourcesItr", func() lpg.Iterator { return lpg.SourcesItr(e.g) })
	add("SinksItr", func() lpg.Iterator { return lpg.SinksItr(e.g) })
	uni := e.labelUniverse("A", "zz")
	if len(uni) > 5 {
		uni = uni[:5]
	}
	sets := [][]string{{}, {uni[0]}, uni}
	if len(uni) > 1 {
		sets = append(sets, uni[len(uni)-2:])
	}
	for _, s := range sets {
		s := s
		add(fmt.Sprintf("GetNodesWithAllLabels(%q)", s), func() lpg.Iterator { return e.g.GetNodesWithAllLabels(lpg.NewStringSet(s...)) })
		add(fmt.Sprintf("GetEdgesWithAnyLabel(%q)", s), func() lpg.Iterator { return e.g.GetEdgesWithAnyLabel(lpg.NewStringSet(s...)) })
	}
	for _, k := range []string{"i0", "s0", "l0", "ls", "h0", "m0", ""} {
		k := k
		add(fmt.Sprintf("GetNodesWithProperty(%q) indexed=%v", k, e.nindex[k]), func() lpg.Iterator { return e.g.GetNodesWithProperty(k) })
		add(fmt.Sprintf("GetEdgesWithProperty(%q) indexed=%v", k, e.eindex[k]), func() lpg.Iterator { return e.g.GetEdgesWithProperty(k) })
	}
	labels, props := e.resolve(q)
	for _, v := range []struct {
		l []string
		p []KV
	}{{labels, props}, {nil, props}, {labels, nil}, {nil, nil}} {
		v := v
		add(fmt.Sprintf("FindNodes(%q,%s)", v.l, kvString(v.p)), func() lpg.Iterator { return e.g.FindNodes(strset(v.l), goProps(v.p)) })
		add(fmt.Sprintf("FindEdges(%q,%s)", v.l, kvString(v.p)), func() lpg.Iterator { return e.g.FindEdges(strset(v.l), goProps(v.p)) })
	}
	for i, n := range e.nodes {
		if i >= 6 {
			break
		}
		n := n
		for _, d := range dirs {
			d := d
			add(fmt.Sprintf("%s.GetEdges(%s)", n, dirName(d)), func() lpg.Iterator { return n.h.GetEdges(d) })
			add(fmt.Sprintf("cursor %s.Edges(%s)", n, dirName(d)), func() lpg.Iterator { return new(lpg.Cursor).Set(n.h).Edges(d) })
			add(fmt.Sprintf("cursor %s.Nodes(%s)", n, dirName(d)), func() lpg.Iterator { return new(lpg.Cursor).Set(n.h).Nodes(d) })
			for _, l := range uni {
				l := l
				add(fmt.Sprintf("%s.GetEdgesWithLabel(%s,%q)", n, dirName(d), l), func() lpg.Iterator { return n.h.GetEdgesWithLabel(d, l) })
				if i < 2 {
					add(fmt.Sprintf("cursor %s.EdgesWith(%s,%q)", n, dirName(d), l), func() lpg.Iterator { return new(lpg.Cursor).Set(n.h).EdgesWith(d, l) })
					add(fmt.Sprintf("cursor %s.NodesWith(%s,%q)", n, dirName(d), l), func() lpg.Iterator { return new(lpg.Cursor).Set(n.h).NodesWith(d, l) })
				}
			}
			for _, s := range sets {
				s := s
				add(fmt.Sprintf("%s.GetEdgesWithAnyLabel(%s,%q)", n, dirName(d), s), func() lpg.Iterator {
					return n.h.GetEdgesWithAnyLabel(d, lpg.NewStringSet(s...))
				})
			}
		}
	}
	for _, d := range dirs {
		d := d
		add("empty cursor Edges", func() lpg.Iterator { return new(lpg.Cursor).Edges(d) })
		add("empty cursor EdgesWith", func() lpg.Iterator { return new(lpg.Cursor).EdgesWith(d, "A") })
		add("empty cursor Nodes", func() lpg.Iterator { return new(lpg.Cursor).Nodes(d) })
		add("empty cursor NodesWith", func() lpg.Iterator { return new(lpg.Cursor).NodesWith(d, "A") })
	}
	nm := lpg.NewNodeMap()
	ns := lpg.NewNodeSet()
	es := lpg.NewEdgeSet()
	for i, n := range e.nodes {
		if i%3 != 1 {
			nm.Add(n.h)
			ns.Add(n.h)
		}
	}
	for i, x := range e.edges {
		if i%3 != 1 {
			es.Add(x.h)
		}
	}
	add("NodeMap.Iterator", func() lpg.Iterator { return nm.Iterator() })
	add("NodeSet.Iterator", func() lpg.Iterator { return ns.Iterator() })
	add("EdgeSet.Iterator", func() lpg.Iterator { return es.Iterator() })
	for _, s := range sets {
		s := s
		add(fmt.Sprintf("NodeMap.IteratorAllLabels(%q)", s), func() lpg.Iterator { return nm.IteratorAllLabels(lpg.NewStringSet(s...)) })
	}
	add("MultiIterator()", func() lpg.Iterator { return lpg.MultiIterator() })
	add("MultiIterator(nodes,edges,nodes)", func() lpg.Iterator {
		return lpg.MultiIterator(e.g.GetNodes(), e.g.GetEdges(), lpg.MultiIterator(), e.g.GetNodes())
	})
	return ps
}

// current reads the item through both accessors.
func current(it lpg.Iterator) (any, error) {
	v := it.Value()
	switch t := it.(type) {
	case lpg.NodeIterator:
		n := t.Node()
		vn, ok := v.(*lpg.Node)
		if !ok || vn != n {
			return nil, fmt.Errorf("Value() and Node() differ")
		}
		if n == nil {
			return nil, fmt.Errorf("nil node")
		}
	case lpg.EdgeIterator:
		x := t.Edge()
		vx, ok := v.(*lpg.Edge)
		if !ok || vx != x {
			return nil, fmt.Errorf("Value() and Edge() differ")
		}
		if x == nil {
			return nil, fmt.Errorf("nil edge")
		}
	}
	// reading does not move
	if v2 := it.Value(); v2 != v {
		return nil, fmt.Errorf("Value() called twice gives two items")
	}
	return v, nil
}

// soloRun checks the contract of one iterator.
func soloRun(p producer) ([]any, error) {
	it := p.mk()
	max := it.MaxSize()
	if max < -1 {
		return nil, fmt.Errorf("%s: MaxSize is %d", p.name, max)
	}
	var got []any
	for it.Next() {
		v, err := current(it)
		if err != nil {
			return nil, fmt.Errorf("%s: item %d: %w", p.name, len(got), err)
		}
		got = append(got, v)
		if len(got) > iterCap {
			return nil, fmt.Errorf("%s: yields more than %d items", p.name, iterCap)
		}
	}
	for i := 0; i < 4; i++ {
		if it.Next() {
			return nil, fmt.Errorf("%s: Next returns true after the end (call %d)", p.name, i)
		}
	}
	if max != -1 && max < len(got) {
		return nil, fmt.Errorf("%s: MaxSize was %d but it yields %d items", p.name, max, len(got))
	}
	return got, nil
}

func sameMultiset(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[any]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
		if m[x] < 0 {
			return false
		}
	}
	return true
}

// MultiCase: MultiIterator over iterators of the caller. Each input is a list
// of numbers; a negative number -k nests the next k inputs in a MultiIterator.
type MultiCase struct {
	Inputs [][]int `json:"inputs"`
	Nest   []bool  `json:"nest"`
	Size   []int   `json:"size"`
	// Take[i] items are taken from input i, and TakeAll from the whole, before it is
	// passed on
	Take    []int `json:"take,omitempty"`
	TakeAll int   `json:"take_all,omitempty"`
}

type sliceItr struct {
	l    []int
	pos  int
	size int
	log  *[]int
}

func (i *sliceItr) Next() bool {
	if i.pos >= len(i.l) {
		i.pos = len(i.l) + 1
		return false
	}
	i.pos++
	return true
}
func (i *sliceItr) Value() interface{} {
	if i.pos < 1 || i.pos > len(i.l) {
		return nil
	}
	return i.l[i.pos-1]
}
func (i *sliceItr) MaxSize() int { return i.size }

func runIterCase(c IterCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	ctx.histClasses(e)
	ps := e.producers(c.Query)
	solo := make([][]any, len(ps))
	for i, p := range ps {
		got, err := soloRun(p)
		if err != nil {
			return err
		}
		solo[i] = got
	}
	// interleaved
	type run struct {
		ix   int
		it   lpg.Iterator
		got  []any
		done bool
	}
	var runs []*run
	for _, k := range c.Pick {
		ix := mod(k, len(ps))
		runs = append(runs, &run{ix: ix, it: ps[ix].mk()})
		if len(solo[ix]) >= 2 {
			ctx.NonTrivial()
		}
	}
	step := func(r *run) error {
		if r.done {
			if r.it.Next() {
				return fmt.Errorf("%s, interleaved: Next returns true after the end", ps[r.ix].name)
			}
			return nil
		}
		if !r.it.Next() {
			r.done = true
			return nil
		}
		v, err := current(r.it)
		if err != nil {
			return fmt.Errorf("%s, interleaved: %w", ps[r.ix].name, err)
		}
		r.got = append(r.got, v)
		if len(r.got) > iterCap {
			return fmt.Errorf("%s, interleaved: does not end", ps[r.ix].name)
		}
		return nil
	}
	for _, s := range c.Schedule {
		if err := step(runs[mod(s, len(runs))]); err != nil {
			return err
		}
		// the others still stand where they stood
		for _, r := range runs {
			if len(r.got) > 0 && !r.done {
				if v, err := current(r.it); err != nil || v != r.got[len(r.got)-1] {
					return fmt.Errorf("%s: its current item changed when another iterator moved", ps[r.ix].name)
				}
			}
		}
	}
	for _, r := range runs {
		for !r.done {
			if err := step(r); err != nil {
				return err
			}
		}
		if !sameMultiset(r.got, solo[r.ix]) {
			return fmt.Errorf("%s: yields %d items when interleaved with others, %d alone", ps[r.ix].name, len(r.got), len(solo[r.ix]))
		}
	}
	return nil
}

func init() {
	register("C06", "contract",
		"histories; every iterator the API can produce over the final graph, alone and interleaved; non-trivial: an interleaved iterator yields at least 2 items",
		1500, func(t *rapid.T) IterCase {
			return IterCase{
				Ops:      genOps(t, HistOpt{MaxOps: 30, BulkOneIn: 8, BulkMax: 25}),
				Query:    genQuery(t),
				Pick:     rapid.SliceOfN(rapid.IntRange(0, 400), 2, 6).Draw(t, "pick"),
				Schedule: rapid.SliceOfN(rapid.IntRange(0, 5), 0, 60).Draw(t, "schedule"),
			}
		},
		runIterCase)

	register("C06", "multi",
		"MultiIterator over iterators of the caller, nested and empty; non-trivial: at least two non-empty inputs",
		4000, func(t *rapid.T) MultiCase {
			c := MultiCase{Inputs: rapid.SliceOfN(rapid.SliceOfN(rapid.IntRange(0, 9), 0, 4), 0, 6).Draw(t, "inputs")}
			for range c.Inputs {
				c.Nest = append(c.Nest, rapid.Bool().Draw(t, "nest"))
				c.Size = append(c.Size, rapid.IntRange(-1, 3).Draw(t, "size"))
				c.Take = append(c.Take, rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5}).Draw(t, "take"))
			}
			c.TakeAll = rapid.SampledFrom([]int{0, 0, 0, 1, 3, 7}).Draw(t, "takeall")
			return c
		},
		func(c MultiCase, ctx *Ctx) error {
			var want []int
			var its []lpg.Iterator
			nonEmpty := 0
			for i, in := range c.Inputs {
				size := len(in)
				if c.Size[i] == -1 {
					size = -1
				}
				var it lpg.Iterator = &sliceItr{l: in, size: size}
				if c.Nest[i] {
					it = lpg.MultiIterator(lpg.MultiIterator(), it, &sliceItr{})
				}
				if i < len(c.Take) {
					for k := 0; k < c.Take[i]; k++ {
						if !it.Next() {
							in = nil
							break
						}
						in = in[1:]
					}
				}
				its = append(its, it)
				want = append(want, in...)
				if len(in) > 0 {
					nonEmpty++
				}
			}
			if nonEmpty >= 2 {
				ctx.NonTrivial()
			}
			m := lpg.MultiIterator(its...)
			if c.TakeAll > 0 {
				// The rest of it, as a part of another
				for k := 0; k < c.TakeAll; k++ {
					if !m.Next() {
						if len(want) > 0 {
							return fmt.Errorf("MultiIterator ends %d items early", len(want))
						}
						break
					}
					if len(want) == 0 {
						return fmt.Errorf("MultiIterator yields more than its inputs")
					}
					want = want[1:]
				}
				m = lpg.MultiIterator(m)
			}
			max := m.MaxSize()
			if max != -1 && max < len(want) {
				return fmt.Errorf("MultiIterator: MaxSize %d of %d items", max, len(want))
			}
			var got []int
			for m.Next() {
				v, ok := m.Value().(int)
				if !ok {
					return fmt.Errorf("MultiIterator: Value is %v", m.Value())
				}
				got = append(got, v)
				if len(got) > len(want) {
					break
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Errorf("MultiIterator yields %v, expected %v", got, want)
			}
			for i := 0; i < 3; i++ {
				if m.Next() {
					return fmt.Errorf("MultiIterator: Next returns true after the end")
				}
			}
			return nil
		})

	registerCompare()
}

// ---------------------------------------------------------------- C07

// CmpCase: values of one comparable family, and a foreign one.
type CmpCase struct {
	Vals    []Val `json:"vals"`
	Foreign []Val `json:"foreign"`
}

// Schema of mutually comparable values: "i", "s", list of elements ("L" with
// the per-position schema, the last one repeating).
type Schema struct {
	K  string
	El []Schema
}

func genSchema(t *rapid.T, depth int) Schema {
	k := rapid.IntRange(0, 5).Draw(t, "schema")
	switch {
	case k <= 1:
		return Schema{K: "i"}
	case k <= 2:
		return Schema{K: "s"}
	case depth <= 0:
		return Schema{K: "i"}
	}
	n := 1
	if k == 5 {
		n = rapid.IntRange(1, 3).Draw(t, "arity")
	}
	s := Schema{K: "L"}
	for i := 0; i < n; i++ {
		s.El = append(s.El, genSchema(t, depth-1))
	}
	return s
}

func (s Schema) gen(t *rapid.T, wrapOK bool) Val {
	var v Val
	switch s.K {
	case "i":
		if rapid.IntRange(0, 2).Draw(t, "small") > 0 {
			v = vInt(rapid.IntRange(-1, 2).Draw(t, "int"))
		} else {
			v = vInt(genInt(t, "int"))
		}
	case "s":
		if rapid.IntRange(0, 2).Draw(t, "small") > 0 {
			v = vStr(rapid.SampledFrom([]string{"", "a", "b", "ab", "é", "aa"}).Draw(t, "str"))
		} else {
			v = vStr(genString(t, "str"))
		}
	default:
		n := rapid.IntRange(0, 4).Draw(t, "len")
		if rapid.IntRange(0, 19).Draw(t, "long?") == 19 {
			n = rapid.IntRange(5, 12).Draw(t, "len")
		}
		typed := ""
		if len(s.El) == 1 && s.El[0].K == "i" {
			typed = "I"
		}
		if len(s.El) == 1 && s.El[0].K == "s" {
			typed = "S"
		}
		if typed != "" && rapid.Bool().Draw(t, "typed") {
			v = Val{K: typed}
			for i := 0; i < n; i++ {
				v.L = append(v.L, s.El[0].gen(t, false))
			}
		} else {
			v = Val{K: "L"}
			for i := 0; i < n; i++ {
				k := i
				if k >= len(s.El) {
					k = len(s.El) - 1
				}
				v.L = append(v.L, s.El[k].gen(t, true))
			}
		}
	}
	if wrapOK {
		for rapid.IntRange(0, 6).Draw(t, "wrap") == 0 {
			v = vWrap(v)
		}
	}
	return v
}

// variant gives another representation of the same value.
func variant(v Val, n int) Val {
	switch v.K {
	case "I", "S":
		v.K = "L"
		if n%2 == 1 {
			return vWrap(v)
		}
		return v
	case "L":
		r := Val{K: "L"}
		kind := ""
		for i, e := range v.L {
			r.L = append(r.L, variant(e, n+i))
			if e.K == "i" && (kind == "" || kind == "I") {
				kind = "I"
			} else if e.K == "s" && (kind == "" || kind == "S") {
				kind = "S"
			} else {
				kind = "x"
			}
		}
		if (kind == "I" || kind == "S") && n%2 == 0 {
			return Val{K: kind, L: v.L}
		}
		return r
	case "W":
		return variant(v.L[0], n)
	}
	if n%3 == 0 {
		return vWrap(v)
	}
	return v
}

func sign(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

// mustReject tells whether the pair must panic: the types differ or have no
// order, or the lists agree up to a pair that must be rejected.
func mustReject(a, b Val) bool {
	a, b = a.native(), b.native()
	if isList(a) && isList(b) {
		if a.K != b.K && a.K != "L" && b.K != "L" {
			return len(a.L) > 0 && len(b.L) > 0
		}
		for i := 0; i < len(a.L) && i < len(b.L); i++ {
			if mustReject(a.L[i], b.L[i]) {
				return true
			}
			if c, ok := refCompare(a.L[i], b.L[i]); !ok || c != 0 {
				return false
			}
		}
		return false
	}
	_, ok := refCompare(a, b)
	return !ok
}

func registerCompare() {
	register("C07", "laws",
		"sets of values of one comparable family (integers, strings, typed, generic and nested lists, wrappers) compared pairwise with a reference order, triple-wise for transitivity, and with other representations of themselves; non-trivial: two different values",
		20000, func(t *rapid.T) CmpCase {
			s := genSchema(t, 2)
			var c CmpCase
			n := rapid.IntRange(2, 5).Draw(t, "n")
			for i := 0; i < n; i++ {
				if i > 0 && rapid.IntRange(0, 5).Draw(t, "dup") == 0 {
					c.Vals = append(c.Vals, c.Vals[i-1])
					continue
				}
				v := s.gen(t, true)
				// often a prefix or an extension of the previous one
				if i > 0 && isList(v) && rapid.IntRange(0, 2).Draw(t, "prefix") == 0 {
					p := c.Vals[i-1].native()
					if isList(p) {
						k := rapid.IntRange(0, len(p.L)).Draw(t, "keep")
						v = Val{K: p.K, L: append([]Val(nil), p.L[:k]...)}
					}
				}
				c.Vals = append(c.Vals, v)
			}
			return c
		},
		func(c CmpCase, ctx *Ctx) error {
			n := len(c.Vals)
			cmp := make([][]int, n)
			for i := range cmp {
				cmp[i] = make([]int, n)
				for j := range cmp[i] {
					a, b := c.Vals[i], c.Vals[j]
					want, ok := refCompare(a, b)
					if !ok {
						bug("incomparable values generated: %s %s", a.key(), b.key())
					}
					ga, gb := a.Go(), b.Go()
					got := sign(lpg.ComparePropertyValue(ga, gb))
					cmp[i][j] = got
					if got != want {
						return fmt.Errorf("ComparePropertyValue(%s, %s) = %d, expected %d", a.key(), b.key(), got, want)
					}
					if valKey(ga) != a.key() || valKey(gb) != b.key() {
						return fmt.Errorf("ComparePropertyValue(%s, %s) changed its argument", a.key(), b.key())
					}
					for k := 0; k < 3; k++ {
						va, vb := variant(a, k), variant(b, k+1)
						if w, ok := refCompare(va, vb); !ok || w != want {
							bug("variant changes the order: %s %s", va.key(), vb.key())
						}
						if g := sign(lpg.ComparePropertyValue(va.Go(), vb.Go())); g != want {
							return fmt.Errorf("ComparePropertyValue(%s, %s) = %d, but %d for %s and %s", va.key(), vb.key(), g, want, a.key(), b.key())
						}
						if g := sign(lpg.ComparePropertyValue(va.Go(), gb)); g != want {
							return fmt.Errorf("ComparePropertyValue(%s, %s) = %d, but %d for %s", va.key(), b.key(), g, want, a.key())
						}
					}
					// the same pair as elements: before an element that says the
					// opposite, after an equal one, and two levels down
					x := want
					if x == 0 {
						x = 1
					}
					in := func(v Val, l ...Val) Val { return Val{K: "L", L: append([]Val{v}, l...)} }
					for _, p := range [][2]Val{
						{in(a), in(b)},
						{in(a, vInt(-x)), in(b, vInt(x))},
						{in(vInt(7), a), in(vInt(7), b)},
						{in(in(a)), in(in(b), vStr(""))},
					} {
						w, ok := refCompare(p[0], p[1])
						if !ok || want != 0 && w != want {
							bug("elements change the order: %s %s", p[0].key(), p[1].key())
						}
						if g := sign(lpg.ComparePropertyValue(p[0].Go(), p[1].Go())); g != w {
							return fmt.Errorf("ComparePropertyValue(%s, %s) = %d, expected %d", p[0].key(), p[1].key(), g, w)
						}
					}
					if want != 0 {
						ctx.NonTrivial()
					}
					ctx.ClassIf(want != 0 && isList(a.native()), "different lists")
					ctx.ClassIf(want == 0 && i != j && isList(a.native()), "equal lists")
					ctx.ClassIf(a.K == "W" || b.K == "W", "wrapped")
				}
			}
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if cmp[i][j] != -cmp[j][i] {
						return fmt.Errorf("not antisymmetric: %s %s", c.Vals[i].key(), c.Vals[j].key())
					}
					for k := 0; k < n; k++ {
						if cmp[i][j] <= 0 && cmp[j][k] <= 0 && cmp[i][k] > 0 {
							return fmt.Errorf("not transitive: %s %s %s", c.Vals[i].key(), c.Vals[j].key(), c.Vals[k].key())
						}
					}
				}
			}
			// sorting gives an ordered sequence
			s := make([]any, n)
			for i, v := range c.Vals {
				s[i] = v.Go()
			}
			sort.SliceStable(s, func(a, b int) bool { return lpg.ComparePropertyValue(s[a], s[b]) < 0 })
			for i := 1; i < n; i++ {
				if lpg.ComparePropertyValue(s[i-1], s[i]) > 0 {
					return fmt.Errorf("sorting is not ordered")
				}
			}
			return nil
		})

	register("C07", "incomparable",
		"pairs of values of different or unordered types, and lists equal up to such a pair, must panic; non-trivial: such a pair",
		10000, func(t *rapid.T) CmpCase {
			var c CmpCase
			a, b := genAnyVal(t, 2), genAnyVal(t, 2)
			// a common prefix before the pair
			if rapid.IntRange(0, 2).Draw(t, "nest") == 0 {
				n := rapid.IntRange(0, 2).Draw(t, "prefix")
				la, lb := Val{K: "L"}, Val{K: "L"}
				for i := 0; i < n; i++ {
					p := Schema{K: "i"}.gen(t, true)
					la.L, lb.L = append(la.L, p), append(lb.L, p)
				}
				la.L, lb.L = append(la.L, a), append(lb.L, b)
				a, b = la, lb
			}
			c.Foreign = []Val{a, b}
			return c
		},
		func(c CmpCase, ctx *Ctx) error {
			for i := 0; i < 2; i++ {
				a, b := c.Foreign[i], c.Foreign[1-i]
				if want, ok := refCompare(a, b); ok {
					if got := sign(lpg.ComparePropertyValue(a.Go(), b.Go())); got != want {
						return fmt.Errorf("ComparePropertyValue(%s, %s) = %d, expected %d", a.key(), b.key(), got, want)
					}
					continue
				}
				if !mustReject(a, b) {
					continue
				}
				ctx.NonTrivial()
				if isList(a.native()) && isList(b.native()) {
					ctx.Class("lists with an incomparable element")
				} else {
					ctx.Class("incomparable at top level")
				}
				var got int
				if !didPanic(func() { got = lpg.ComparePropertyValue(a.Go(), b.Go()) }) {
					return fmt.Errorf("ComparePropertyValue(%s, %s) = %d, expected a panic", a.key(), b.key(), got)
				}
			}
			return nil
		})
}
