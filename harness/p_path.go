package main

import (
	"fmt"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// mElem is one step of a model path.
type mElem struct {
	x   *MEdge
	rev bool
}

func (s mElem) src() *MNode {
	if s.rev {
		return s.x.to
	}
	return s.x.from
}

func (s mElem) dst() *MNode {
	if s.rev {
		return s.x.from
	}
	return s.x.to
}

func (s mElem) lib() lpg.PathElement { return lpg.PathElement{Edge: s.x.h, Reverse: s.rev} }

// mPath is a path as a sequence: start and steps; start nil means empty.
type mPath struct {
	start *MNode
	steps []mElem
}

func (p mPath) last() *MNode {
	if len(p.steps) > 0 {
		return p.steps[len(p.steps)-1].dst()
	}
	return p.start
}

func (p mPath) numNodes() int {
	if p.start == nil {
		return 0
	}
	return len(p.steps) + 1
}

func (p mPath) nodeAt(i int) *MNode {
	if i == 0 {
		return p.start
	}
	return p.steps[i-1].dst()
}

func (p mPath) clone() mPath {
	return mPath{p.start, append([]mElem(nil), p.steps...)}
}

func (p mPath) hasPrefix(q mPath) bool {
	if q.start == nil {
		return true
	}
	if p.start != q.start || len(q.steps) > len(p.steps) {
		return false
	}
	for i, s := range q.steps {
		if p.steps[i] != s {
			return false
		}
	}
	return true
}

func (p mPath) String() string {
	if p.start == nil {
		return "[]"
	}
	s := "[" + p.start.String()
	for _, x := range p.steps {
		s += fmt.Sprintf(" e%d", x.x.num)
		if x.rev {
			s += "'"
		}
		s += " " + x.dst().String()
	}
	return s + "]"
}

func libElems(steps []mElem) []lpg.PathElement {
	r := make([]lpg.PathElement, len(steps))
	for i, s := range steps {
		r[i] = s.lib()
	}
	return r
}

// checkPath compares a path with the model through its whole reading interface.
func checkPath(what string, p *lpg.Path, m mPath) error {
	f := func(format string, a ...any) error {
		return fmt.Errorf("%s should be %s: %s", what, m, fmt.Sprintf(format, a...))
	}
	if p.NumNodes() != m.numNodes() || p.NumEdges() != len(m.steps) {
		return f("NumNodes %d, NumEdges %d", p.NumNodes(), p.NumEdges())
	}
	if p.IsEmpty() != (m.start == nil) {
		return f("IsEmpty is %v", p.IsEmpty())
	}
	hn := func(n *MNode) *lpg.Node {
		if n == nil {
			return nil
		}
		return n.h
	}
	if p.First() != hn(m.start) {
		return f("First is another node")
	}
	if p.Last() != hn(m.last()) {
		return f("Last is another node")
	}
	for i := 0; i < m.numNodes(); i++ {
		if p.GetNode(i) != m.nodeAt(i).h {
			return f("GetNode(%d) is another node", i)
		}
	}
	for i := 0; i < len(m.steps); i++ {
		if p.GetEdge(i) != m.steps[i].x.h {
			return f("GetEdge(%d) is another edge", i)
		}
		if el := m.steps[i].lib(); el.GetSourceNode() != m.nodeAt(i).h || el.GetTargetNode() != m.nodeAt(i+1).h {
			return f("the source or target of path element %d is another node", i)
		}
	}
	for _, i := range []int{len(m.steps), len(m.steps) + 1} {
		if p.GetEdge(i) != nil {
			return f("GetEdge(%d) is not nil", i)
		}
	}
	return nil
}

type PathOp struct {
	Op   string `json:"op"`
	R    int    `json:"r"`
	Q    int    `json:"q,omitempty"`
	A    int    `json:"a,omitempty"`
	B    int    `json:"b,omitempty"`
	Walk []int  `json:"walk,omitempty"`
	Dir  int    `json:"dir,omitempty"`
}

type PathCase struct {
	Ops   []Op     `json:"ops"`
	Paths []PathOp `json:"paths"`
}

// walk takes steps from n; every number selects an edge. dirs: 0 forward only,
// 1 backward only, else both.
func (e *Env) walk(n *MNode, choice []int, dirs int) []mElem {
	var r []mElem
	for _, c := range choice {
		var opts []mElem
		for _, x := range e.edges {
			if x.from == n && dirs != 1 {
				opts = append(opts, mElem{x, false})
			}
			if x.to == n && (x.from != n || dirs == 1) && dirs != 0 {
				opts = append(opts, mElem{x, x.from != x.to})
			}
		}
		if len(opts) == 0 {
			break
		}
		s := opts[mod(c, len(opts))]
		r = append(r, s)
		n = s.dst()
	}
	return r
}

const nPaths = 4

func runPathCase(c PathCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	var lib [nPaths]*lpg.Path
	var mod_ [nPaths]mPath
	for i := range lib {
		lib[i] = &lpg.Path{}
	}
	// the slices handed to the library, and what they hold
	type heldSlice struct {
		arg  []lpg.PathElement
		walk []mElem
	}
	var held []heldSlice
	hold := func(w []mElem, spare int) []lpg.PathElement {
		arg := make([]lpg.PathElement, 0, len(w)+spare)
		arg = append(arg, libElems(w)...)
		held = append(held, heldSlice{arg, w})
		return arg
	}
	for i, o := range c.Paths {
		r, q := mod(o.R, nPaths), mod(o.Q, nPaths)
		p, m := lib[r], &mod_[r]
		what := fmt.Sprintf("step %d (%s)", i, o.Op)
		argBefore := mod_[q].clone()
		reset := func() { lib[r], mod_[r] = &lpg.Path{}, mPath{} }
		switch o.Op {
		case "node":
			n := e.node(o.A)
			if n == nil {
				continue
			}
			if o.B%2 == 0 {
				lib[r] = lpg.PathFromNode(n.h)
			} else if p.SetOnlyNode(n.h) != p {
				return fmt.Errorf("%s: returns another path", what)
			}
			mod_[r] = mPath{start: n}
		case "clear":
			if p.Clear() != p {
				return fmt.Errorf("%s: returns another path", what)
			}
			mod_[r] = mPath{}
		case "elems":
			n := e.node(o.A)
			if n == nil {
				continue
			}
			w := e.walk(n, o.Walk, o.Dir)
			if o.Dir == 0 {
				var edges []*lpg.Edge
				for _, s := range w {
					edges = append(edges, s.x.h)
				}
				lib[r] = lpg.NewPathFromElements(lpg.NewPathElementsFromEdges(edges)...)
			} else {
				arg := hold(w, mod(o.B, 3))
				lib[r] = lpg.NewPathFromElements(arg...)
				if o.B >= 7 { // another path of the same elements
					ctx.ClassIf(len(w) > 0, "two paths of one slice")
					lib[q] = lpg.NewPathFromElements(arg...)
					mod_[q] = mPath{}
					if len(w) > 0 {
						mod_[q] = mPath{n, append([]mElem(nil), w...)}
					}
					argBefore = mod_[q].clone()
				}
				if o.B == 6 && len(w) > 0 { // the caller uses its slice for something else
					held = held[:len(held)-1]
					for k := range arg {
						arg[k] = lpg.PathElement{Edge: w[0].x.h, Reverse: !w[0].rev}
					}
				}
			}
			mod_[r] = mPath{}
			if len(w) > 0 {
				mod_[r] = mPath{n, w}
			}
		case "append":
			from := m.last()
			if from == nil {
				from = e.node(o.A)
			}
			if from == nil {
				continue
			}
			w := e.walk(from, o.Walk, o.Dir)
			arg := hold(w, mod(o.B, 3))
			if p.Append(arg...) != p {
				return fmt.Errorf("%s: returns another path", what)
			}
			if len(w) > 0 {
				*m = mPath{m.start, append(append([]mElem(nil), m.steps...), w...)}
				if m.start == nil {
					m.start = from
				}
			}
		case "badappend":
			x := e.edge(o.A)
			if x == nil || m.start == nil {
				continue
			}
			s := mElem{x, o.B%2 == 1 && x.from != x.to}
			if s.src() == m.last() {
				continue
			}
			ctx.Class("disconnected edge")
			if !didPanic(func() { p.Append(s.lib()) }) {
				return fmt.Errorf("%s: appending a disconnected edge to %s is accepted", what, *m)
			}
			reset()
		case "badappend2": // a connected edge, then a disconnected one
			x := e.edge(o.A)
			if x == nil || m.start == nil {
				continue
			}
			w := e.walk(m.last(), o.Walk[:min(1, len(o.Walk))], o.Dir)
			s := mElem{x, o.B%2 == 1 && x.from != x.to}
			if len(w) == 0 || s.src() == w[0].dst() {
				continue
			}
			ctx.Class("disconnected second edge")
			if !didPanic(func() { p.Append(w[0].lib(), s.lib()) }) {
				return fmt.Errorf("%s: appending disconnected edges to %s is accepted", what, *m)
			}
			reset()
		case "appendwalk": // a path connected to the end
			if m.start == nil {
				continue
			}
			w := e.walk(m.last(), o.Walk, o.Dir)
			am := mPath{m.last(), w}
			arg := lpg.PathFromNode(m.last().h)
			if len(w) > 0 {
				arg = lpg.NewPathFromElements(libElems(w)...)
			}
			if p.AppendPath(arg) != p {
				return fmt.Errorf("%s: returns another path", what)
			}
			*m = mPath{m.start, append(append([]mElem(nil), m.steps...), w...)}
			if err := checkPath(what+": the argument", arg, am); err != nil {
				return err
			}
			ctx.ClassIf(len(w) == 0, "append a single-node path")
		case "appendpath":
			a := mod_[q]
			if len(m.steps)+len(a.steps) > 600 {
				continue
			}
			connected := m.start == nil || a.start == nil || m.last() == a.start
			if !connected {
				if len(a.steps) == 0 {
					continue // a lone node somewhere else
				}
				ctx.Class("disconnected path")
				if !didPanic(func() { p.AppendPath(lib[q]) }) {
					return fmt.Errorf("%s: appending a disconnected path %s to %s is accepted", what, a, *m)
				}
				reset()
				if r == q {
					continue
				}
				break
			}
			if p.AppendPath(lib[q]) != p {
				return fmt.Errorf("%s: returns another path", what)
			}
			n := mPath{m.start, append(append([]mElem(nil), m.steps...), a.steps...)}
			if n.start == nil {
				n.start = a.start
			}
			*m = n
			ctx.Class("append a path")
		case "removelast":
			if p.RemoveLast() != p {
				return fmt.Errorf("%s: returns another path", what)
			}
			if len(m.steps) > 0 {
				*m = mPath{m.start, m.steps[:len(m.steps)-1]}
				ctx.Class("removed an edge")
			} else {
				*m = mPath{}
			}
		case "clone":
			lib[r] = lib[q].Clone()
			mod_[r] = mod_[q].clone()
		case "slice":
			a := mod_[q]
			n := a.numNodes()
			if n < 1 {
				continue
			}
			lo := mod(o.A, n)
			hi := n
			j := -1
			if o.B%3 != 0 {
				hi = lo + 2 + o.B%5
				if o.B >= 10 {
					hi = lo + 2 + o.B%max(1, n-lo-1)
				}
				if hi > n {
					continue
				}
				j = hi
			}
			sl := lib[q].Slice(lo, j)
			s := mPath{start: a.nodeAt(lo)}
			s.steps = append(s.steps, a.steps[lo:hi-1]...)
			what = fmt.Sprintf("%s: Slice(%d,%d) of %s", what, lo, j, a)
			lib[r], mod_[r] = sl, s
			ctx.ClassIf(lo > 0 && len(s.steps) > 0, "proper slice")
		case "prefix":
			a := mod_[q]
			want := m.hasPrefix(a)
			ctx.ClassIf(want && len(a.steps) > 0, "a prefix")
			if got := p.HasPrefixPath(lib[q]); got != want {
				return fmt.Errorf("%s: HasPrefixPath of %s in %s is %v", what, a, *m, got)
			}
			if len(m.steps) > 0 || len(a.steps) > 0 {
				want := len(a.steps) == 0 || want
				if got := p.HasPrefix(libElems(a.steps)); got != want {
					return fmt.Errorf("%s: HasPrefix of %s in %s is %v", what, a, *m, got)
				}
			}
			// own prefixes, and prefixes that differ in the last step
			for k := 1; k <= len(m.steps); k++ {
				own := mPath{m.start, m.steps[:k]}
				el := libElems(own.steps)
				if !p.HasPrefix(el) || !p.HasPrefixPath(lpg.NewPathFromElements(el...)) {
					return fmt.Errorf("%s: %s is not a prefix of %s", what, own, *m)
				}
				for _, x := range e.edges {
					if x == own.steps[k-1].x {
						continue
					}
					for _, rev := range []bool{false, true} {
						el := libElems(own.steps)
						el[k-1] = lpg.PathElement{Edge: x.h, Reverse: rev}
						if p.HasPrefix(el) {
							return fmt.Errorf("%s: elements of %s with another edge %s last are a prefix of %s", what, own, x, *m)
						}
					}
				}
			}
		default:
			bug("path op %q", o.Op)
		}
		for k := range lib {
			if err := checkPath(fmt.Sprintf("after %s on path %d with %d (%s): path %d", what, r, q, argBefore, k), lib[k], mod_[k]); err != nil {
				return err
			}
		}
		for _, h := range held {
			for k := range h.arg {
				if h.arg[k] != h.walk[k].lib() {
					return fmt.Errorf("%s on path %d with %d (%s): a slice of elements %s given to the library earlier changed", what, r, q, argBefore, mPath{h.walk[0].src(), h.walk})
				}
			}
		}
		for k := range mod_ {
			if len(mod_[k].steps) >= 2 {
				ctx.NonTrivial()
			}
		}
	}
	if err := e.checkContents(); err != nil {
		return fmt.Errorf("the graph changed: %w", err)
	}
	return nil
}

func genPathGraph(t *rapid.T) []Op {
	// dense small graphs, with loops and parallel edges
	n := rapid.IntRange(1, 5).Draw(t, "nodes")
	ops := []Op{{Op: "bn", N: n}}
	m := rapid.IntRange(0, 10).Draw(t, "edges")
	for i := 0; i < m; i++ {
		ops = append(ops, Op{Op: "e", A: rapid.IntRange(0, n-1).Draw(t, "f"), B: rapid.IntRange(0, n-1).Draw(t, "t"), Label: rapid.SampledFrom([]string{"A", "B", "", "A", "B", "", "A ", "a", "AB", "\x00A", "é", longKeyInt}).Draw(t, "l")})
	}
	return ops
}

// ---------------------------------------------------------------- C21

type CurOp struct {
	Op    string `json:"op"`
	A     int    `json:"a,omitempty"`
	Label string `json:"label,omitempty"`
}

type CurCase struct {
	Ops   []Op    `json:"ops"`
	Steps []CurOp `json:"steps"`
}

func (e *Env) checkCursor(what string, c *lpg.Cursor, at *MNode, label string) error {
	other := func(x *MEdge, n *MNode, dir lpg.EdgeDir) []*MNode {
		var r []*MNode
		if x.from == n && dir != lpg.IncomingEdge {
			r = append(r, x.to)
		}
		if x.to == n && dir != lpg.OutgoingEdge {
			r = append(r, x.from)
		}
		return r
	}
	for _, dir := range []lpg.EdgeDir{lpg.IncomingEdge, lpg.OutgoingEdge, lpg.AnyEdge} {
		edgeIts := map[string]lpg.EdgeIterator{"Edges": c.Edges(dir)}
		edgeIts2 := map[string]lpg.EdgeIterator{"EdgesWith": c.EdgesWith(dir, label)}
		nodeIts := map[string]lpg.NodeIterator{"Nodes": c.Nodes(dir)}
		nodeIts2 := map[string]lpg.NodeIterator{"NodesWith": c.NodesWith(dir, label)}
		switch dir {
		case lpg.OutgoingEdge:
			edgeIts["Forward"], edgeIts2["ForwardWith"] = c.Forward(), c.ForwardWith(label)
			nodeIts["NextNodes"], nodeIts2["NextNodesWith"] = c.NextNodes(), c.NextNodesWith(label)
		case lpg.IncomingEdge:
			edgeIts["Backward"], edgeIts2["BackwardWith"] = c.Backward(), c.BackwardWith(label)
			nodeIts["PrevNodes"], nodeIts2["PrevNodesWith"] = c.PrevNodes(), c.PrevNodesWith(label)
		}
		inc := func(lbl *string) func(*MEdge) int {
			return func(x *MEdge) int {
				if at == nil || lbl != nil && x.label != *lbl {
					return 0
				}
				return incidence(x, at, dir)
			}
		}
		ends := func(lbl *string) func(*MNode) bool {
			set := map[*MNode]bool{}
			if at != nil {
				for _, x := range e.edges {
					if lbl != nil && x.label != *lbl {
						continue
					}
					for _, o := range other(x, at, dir) {
						set[o] = true
					}
				}
			}
			return func(n *MNode) bool { return set[n] }
		}
		for _, k := range []struct {
			lbl *string
			e   map[string]lpg.EdgeIterator
			n   map[string]lpg.NodeIterator
		}{{nil, edgeIts, nodeIts}, {&label, edgeIts2, nodeIts2}} {
			for name, it := range k.e {
				w := fmt.Sprintf("%s: %s(%s,%q) at %v", what, name, dirName(dir), label, at)
				got, err := drainEdges(w, it)
				if err != nil {
					return err
				}
				if err := e.sameEdgesN(w, got, inc(k.lbl)); err != nil {
					return err
				}
			}
			for name, it := range k.n {
				w := fmt.Sprintf("%s: %s(%s,%q) at %v", what, name, dirName(dir), label, at)
				if err := e.nodesOf(w, it, ends(k.lbl)); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func runCursor(c CurCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	cur := &lpg.Cursor{}
	var at *MNode
	var path mPath
	started := false
	for i, s := range c.Steps {
		what := fmt.Sprintf("step %d (%s)", i, s.Op)
		switch s.Op {
		case "set":
			at = e.node(s.A)
			if at == nil {
				continue
			}
			if cur.Set(at.h) != cur {
				return fmt.Errorf("%s: returns another cursor", what)
			}
			started = false
		case "unset":
			cur.Set(nil)
			at, started = nil, false
		case "start":
			if at == nil {
				if !didPanic(func() { cur.StartPath() }) {
					return fmt.Errorf("%s: a path is started without a node", what)
				}
				continue
			}
			if cur.StartPath() != cur {
				return fmt.Errorf("%s: returns another cursor", what)
			}
			path = mPath{start: at}
			started = true
		case "push":
			if !started {
				continue
			}
			w := e.walk(at, []int{s.A}, 0)
			if len(w) == 0 {
				continue
			}
			if cur.PushToPath(w[0].x.h) != cur {
				return fmt.Errorf("%s: returns another cursor", what)
			}
			path = mPath{path.start, append(append([]mElem(nil), path.steps...), w[0])}
			at = path.last()
			ctx.NonTrivial()
			ctx.Class("push")
		case "pop":
			if !started || len(path.steps) == 0 {
				continue
			}
			if cur.PopFromPath() != cur {
				return fmt.Errorf("%s: returns another cursor", what)
			}
			path = mPath{path.start, path.steps[:len(path.steps)-1]}
			at = path.last()
			ctx.NonTrivial()
			ctx.Class("pop")
		default:
			bug("cursor op %q", s.Op)
		}
		if started {
			if err := checkPath(what+": the recorded path", cur.GetPath(), path); err != nil {
				return err
			}
		}
		if err := e.checkCursor(what, cur, at, s.Label); err != nil {
			return err
		}
		if at != nil {
			near := map[*MNode]bool{}
			for _, x := range e.edges {
				if x.from == at {
					near[x.to] = true
				}
				if x.to == at {
					near[x.from] = true
				}
			}
			if len(near) >= 2 {
				ctx.NonTrivial()
			}
			ctx.ClassIf(near[at], "self-loop")
		}
	}
	if err := e.checkContents(); err != nil {
		return fmt.Errorf("the graph changed: %w", err)
	}
	return nil
}

func init() {
	register("C20", "registers", "operation sequences over four paths of a small dense graph, against a list model, all paths checked after every operation; non-trivial: a path with at least 2 edges",
		6000, func(t *rapid.T) PathCase {
			op := rapid.Custom(func(t *rapid.T) PathOp {
				o := PathOp{
					Op: rapid.SampledFrom([]string{"node", "clear", "elems", "elems", "append", "append", "append", "badappend", "badappend2", "appendwalk", "appendwalk", "appendpath", "appendpath", "appendpath", "removelast", "removelast", "clone", "clone", "slice", "slice", "slice", "prefix", "prefix"}).Draw(t, "op"),
					R:  rapid.IntRange(0, nPaths-1).Draw(t, "r"), Q: rapid.IntRange(0, nPaths-1).Draw(t, "q"),
					A: rapid.IntRange(0, 9).Draw(t, "a"), B: rapid.IntRange(0, 9).Draw(t, "b"),
					Dir: rapid.IntRange(0, 3).Draw(t, "dir"),
				}
				o.Walk = rapid.SliceOfN(rapid.IntRange(0, 9), 0, 4).Draw(t, "walk")
				if rapid.IntRange(0, 11).Draw(t, "long") == 11 {
					o.Walk = rapid.SliceOfN(rapid.IntRange(0, 9), 8, 40).Draw(t, "walk")
					o.A, o.B = rapid.IntRange(0, 80).Draw(t, "a"), rapid.IntRange(0, 80).Draw(t, "b")
				}
				return o
			})
			lo := rapid.SampledFrom([]int{0, 5, 10, 20}).Draw(t, "lo")
			return PathCase{Ops: genPathGraph(t), Paths: rapid.SliceOfN(op, lo, 30).Draw(t, "paths")}
		}, runPathCase)

	register("C21", "cursor", "cursor walks over small dense graphs and histories, all iterators checked at every position; non-trivial: a push or pop, or a node with at least 2 neighbours",
		4000, func(t *rapid.T) CurCase {
			c := CurCase{}
			if rapid.IntRange(0, 2).Draw(t, "hist") == 0 {
				c.Ops = genOps(t, HistOpt{MaxOps: 25})
			} else {
				c.Ops = genPathGraph(t)
			}
			op := rapid.Custom(func(t *rapid.T) CurOp {
				return CurOp{
					Op: rapid.SampledFrom([]string{"set", "set", "unset", "start", "start", "push", "push", "push", "push", "pop", "pop"}).Draw(t, "op"),
					A:  rapid.IntRange(0, 9).Draw(t, "a"), Label: rapid.SampledFrom([]string{"A", "B", "", "C", "A", "B", "", "A ", "a", "AB", "\x00A", "é", longKeyInt}).Draw(t, "l"),
				}
			})
			lo := rapid.SampledFrom([]int{1, 3, 8}).Draw(t, "lo")
			c.Steps = rapid.SliceOfN(op, lo, 15).Draw(t, "steps")
			if rapid.IntRange(0, 3).Draw(t, "begin") > 0 {
				c.Steps = append([]CurOp{{Op: "set", A: rapid.IntRange(0, 4).Draw(t, "at")}, {Op: "start"}}, c.Steps...)
			}
			return c
		}, runCursor)
}
