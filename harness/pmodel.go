package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// PItem is one pattern item as data. In walk mode labels, properties and
// direction are taken from a walk in the graph, so that the pattern matches.
type PItem struct {
	Labels []string `json:"labels,omitempty"`
	Props  []KV     `json:"props,omitempty"`
	Min    int      `json:"min,omitempty"`
	Max    int      `json:"max,omitempty"`
	Left   bool     `json:"left,omitempty"`
	Und    bool     `json:"und,omitempty"`
	Name   string   `json:"name,omitempty"`
	Walk   bool     `json:"walk,omitempty"`
	Pick   int      `json:"pick,omitempty"`
	Mask   int      `json:"mask,omitempty"`
}

// PSym is one given symbol: Name selects a name of the pattern.
type PSym struct {
	Name    int    `json:"name"`
	Kind    string `json:"kind"`              // "": the kind of the item; "other": the other kind; "zero": no kind; "extra": Name+1 symbols with other names
	Members []int  `json:"members"`           // items, by number
	Hit     bool   `json:"hit,omitempty"`     // add the item the walk found
	Several bool   `json:"several,omitempty"` // several members even if the name is repeated
}

// cItem is a concrete item.
type cItem struct {
	labels   []string
	props    []KV
	min, max int
	left     bool
	und      bool
	name     string
	hitN     *MNode
	hitX     []mElem
}

func (c cItem) fixed() bool { return c.min == 1 && c.max == 1 }

func (c cItem) String(node bool) string {
	l := c.name
	if len(c.labels) > 0 {
		l += ":" + strings.Join(c.labels, "|")
	}
	if len(c.props) > 0 {
		l += " " + kvString(c.props)
	}
	if node {
		return "(" + l + ")"
	}
	if !c.fixed() {
		l += fmt.Sprintf("*%d..%d", c.min, c.max)
	}
	switch {
	case c.left:
		return "<-[" + l + "]-"
	case c.und:
		return "-[" + l + "]-"
	}
	return "-[" + l + "]->"
}

func patString(items []cItem) string {
	s := ""
	for i, c := range items {
		s += c.String(i%2 == 0)
	}
	return s
}

// cSym is a concrete given symbol.
type cSym struct {
	nodes []*MNode // nil: no node set
	edges []*MEdge
}

func (s cSym) String() string {
	return fmt.Sprintf("%v/%v", s.nodes, s.edges)
}

func (s cSym) hasNode(n *MNode) bool {
	for _, x := range s.nodes {
		if x == n {
			return true
		}
	}
	return false
}

func (s cSym) hasEdge(n *MEdge) bool {
	for _, x := range s.edges {
		if x == n {
			return true
		}
	}
	return false
}

// concrete resolves the items against the graph.
func (e *Env) concrete(items []PItem) []cItem {
	ret := make([]cItem, len(items))
	var at *MNode
	for i, p := range items {
		c := cItem{labels: p.Labels, props: p.Props, min: p.Min, max: p.Max, left: p.Left, und: p.Und && !p.Left, name: p.Name}
		if i%2 == 0 {
			if i == 0 {
				at = e.node(p.Pick)
			}
			c.hitN = at
			if p.Walk && at != nil {
				c.labels, c.props = nil, nil
				for k, l := range sortedKeys(at.labels) {
					if p.Mask&(1<<k) != 0 {
						c.labels = append(c.labels, l)
					}
				}
				c.props = pickProps(at.props, p.Mask>>4)
				if p.Name != "" {
					c.name = p.Name + at.String()
				}
			}
			ret[i] = c
			continue
		}
		if p.Walk && at != nil {
			n := 1
			if !c.fixed() {
				n = max(1, c.min)
				for n < 4 && (c.max == -1 || n < c.max) && (p.Mask>>8)&(1<<n) != 0 {
					n++
				}
			}
			dirs := 0
			if c.left {
				dirs = 1
			} else if c.und {
				dirs = 2
			}
			w := e.trail(at, p.Pick, n, dirs)
			if len(w) == 0 && dirs < 2 { // the other way round
				w = e.trail(at, p.Pick, n, 1-dirs)
				if len(w) > 0 {
					c.left = !c.left
				}
			}
			if len(w) > 0 {
				c.hitX = w
				at = w[len(w)-1].dst()
				c.labels, c.props = nil, nil
				if p.Mask&1 != 0 {
					for _, s := range w {
						if !contains(c.labels, s.x.label) {
							c.labels = append(c.labels, s.x.label)
						}
					}
					if p.Mask&2 != 0 {
						c.labels = append(c.labels, "B", "zz")
					}
				}
				if len(w) == 1 {
					c.props = pickProps(w[0].x.props, p.Mask>>4)
				}
				if p.Name != "" && c.fixed() {
					c.name = fmt.Sprintf("%se%d", p.Name, w[0].x.num)
				}
			} else {
				at = nil
			}
		} else {
			at = nil
		}
		ret[i] = c
	}
	return ret
}

func pickProps(props map[string]Val, mask int) []KV {
	var r []KV
	for k, key := range sortedKeys(props) {
		v := props[key]
		if mask&(1<<k) != 0 && refEqual(v, v) && v.native().K != "z" {
			r = append(r, KV{key, v})
		}
	}
	return r
}

// trail takes up to n steps from at without repeating an edge; it returns nil
// if it cannot take that many.
func (e *Env) trail(at *MNode, pick, n, dirs int) []mElem {
	var r []mElem
	for len(r) < n {
		var opts []mElem
	next:
		for _, s := range e.stepsFrom(at, dirs) {
			for _, u := range r {
				if u.x == s.x {
					continue next
				}
			}
			opts = append(opts, s)
		}
		if len(opts) == 0 {
			return nil
		}
		s := opts[mod(pick, len(opts))]
		pick = pick/3 + 1
		r = append(r, s)
		at = s.dst()
	}
	return r
}

// stepsFrom lists the steps from n: dirs 0 along edges, 1 against, else both;
// a self-loop is one step.
func (e *Env) stepsFrom(n *MNode, dirs int) []mElem {
	var opts []mElem
	for _, x := range e.edges {
		if x.from == n && x.to == n {
			opts = append(opts, mElem{x, false})
			continue
		}
		if x.from == n && dirs != 1 {
			opts = append(opts, mElem{x, false})
		}
		if x.to == n && dirs != 0 {
			opts = append(opts, mElem{x, true})
		}
	}
	return opts
}

// pMatch is one match: the node of every node item, the steps of every edge item.
type pMatch struct {
	nodes []*MNode
	steps [][]mElem
}

type tooMany struct{}

// enumerate lists all matches, left to right. ok is false if the work or the
// result exceeds the budget.
func (e *Env) enumerate(items []cItem, syms map[string]cSym, maxRes, budget int) (res []pMatch, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(tooMany); is {
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	bound := map[string]any{}
	cur := pMatch{}
	spend := func() {
		budget--
		if budget < 0 {
			panic(tooMany{})
		}
	}
	bind := func(name string, item any) (undo func(), ok bool) {
		if name == "" || e.free[name] {
			return func() {}, true
		}
		if have, is := bound[name]; is {
			return func() {}, have == item
		}
		bound[name] = item
		return func() { delete(bound, name) }, true
	}
	var nodeItem, edgeItem func(i int, n *MNode)
	nodeItem = func(i int, n *MNode) {
		spend()
		c := items[i]
		if !n.matches(c.labels, c.props) {
			return
		}
		if s, is := syms[c.name]; is && c.name != "" && !s.hasNode(n) {
			return
		}
		undo, fits := bind(c.name, n)
		if !fits {
			return
		}
		defer undo()
		cur.nodes = append(cur.nodes, n)
		defer func() { cur.nodes = cur.nodes[:len(cur.nodes)-1] }()
		if i == len(items)-1 {
			if len(res) >= maxRes {
				panic(tooMany{})
			}
			res = append(res, pMatch{append([]*MNode(nil), cur.nodes...), append([][]mElem(nil), cur.steps...)})
			return
		}
		edgeItem(i+1, n)
	}
	edgeItem = func(i int, n *MNode) {
		c := items[i]
		dirs := c.dirs()
		use := func(steps []mElem) {
			cur.steps = append(cur.steps, append([]mElem(nil), steps...))
			nodeItem(i+1, steps[len(steps)-1].dst())
			cur.steps = cur.steps[:len(cur.steps)-1]
		}
		if c.fixed() {
			for _, s := range e.stepsFrom(n, dirs) {
				spend()
				if !s.x.matches(c.labels, c.props) {
					continue
				}
				if sy, is := syms[c.name]; is && c.name != "" && !sy.hasEdge(s.x) {
					continue
				}
				undo, fits := bind(c.name, s.x)
				if fits {
					use([]mElem{s})
				}
				undo()
			}
			return
		}
		e.trails(n, dirs, c.min, c.max, func(x *MEdge) bool { spend(); return x.matches(c.labels, c.props) }, func(t []mElem) bool { use(t); return true })
	}
	for _, n := range e.nodes {
		nodeItem(0, n)
	}
	return res, true
}

func (c cItem) dirs() int {
	if c.left {
		return 1
	}
	if c.und {
		return 2
	}
	return 0
}

// trails visits every path of at least one edge from n that repeats no edge
// and has min..max accepted edges (-1: no bound).
func (e *Env) trails(n *MNode, dirs, min, max int, accept func(*MEdge) bool, visit func([]mElem) bool) bool {
	var cur []mElem
	used := map[*MEdge]bool{}
	var rec func(n *MNode) bool
	rec = func(n *MNode) bool {
		if len(cur) >= 1 && (min == -1 || len(cur) >= min) {
			if !visit(cur) {
				return false
			}
		}
		if max != -1 && len(cur) >= max {
			return true
		}
		for _, s := range e.stepsFrom(n, dirs) {
			if used[s.x] || !accept(s.x) {
				continue
			}
			used[s.x] = true
			cur = append(cur, s)
			ok := rec(s.dst())
			cur = cur[:len(cur)-1]
			used[s.x] = false
			if !ok {
				return false
			}
		}
		return true
	}
	return rec(n)
}

// workBound estimates the work of any evaluation order: the product over the
// edge items of the largest number of candidates from one node.
func (e *Env) workBound(items []cItem, limit int) (int, bool) {
	w := len(e.nodes) + len(e.edges) + 1
	for i := 1; i < len(items); i += 2 {
		c := items[i]
		most := 1
		for _, n := range e.nodes {
			for _, dirs := range []int{c.dirs(), backDirs(c.dirs())} {
				cnt := 0
				if c.fixed() {
					for _, s := range e.stepsFrom(n, dirs) {
						if s.x.matches(c.labels, c.props) {
							cnt++
						}
					}
				} else {
					// every trail counts, also those shorter than min
					e.trails(n, dirs, -1, c.max, func(x *MEdge) bool { return x.matches(c.labels, c.props) }, func([]mElem) bool { cnt++; return cnt <= limit })
				}
				most = max(most, cnt)
			}
		}
		w *= most
		if w > limit {
			return w, false
		}
	}
	return w, true
}

func backDirs(d int) int {
	if d < 2 {
		return 1 - d
	}
	return d
}

// pattern builds the library pattern.
func libPattern(items []cItem) lpg.Pattern {
	p := make(lpg.Pattern, 0, len(items))
	for i, c := range items {
		it := lpg.PatternItem{Labels: strset(c.labels), Properties: goProps(c.props), Name: c.name}
		if i%2 == 1 {
			it.Min, it.Max, it.ToLeft, it.Undirected = c.min, c.max, c.left, c.und
		}
		p = append(p, it)
	}
	return p
}

func libSyms(syms map[string]cSym) map[string]*lpg.PatternSymbol {
	if syms == nil {
		return nil
	}
	r := map[string]*lpg.PatternSymbol{}
	for name, s := range syms {
		ps := &lpg.PatternSymbol{}
		if s.nodes != nil {
			ps.Nodes = lpg.NewNodeSet()
			for _, n := range s.nodes {
				ps.AddNode(n.h)
			}
		}
		if s.edges != nil {
			ps.Edges = lpg.NewEdgeSet()
			for _, x := range s.edges {
				ps.Add(x.h)
			}
		}
		r[name] = ps
	}
	return r
}

// nameCounts tells how often each name is used.
func nameCounts(items []cItem) map[string]int {
	r := map[string]int{}
	for _, c := range items {
		if c.name != "" {
			r[c.name]++
		}
	}
	return r
}

func stepsText(start *MNode, steps []mElem) string {
	return mPath{start, steps}.text()
}

func (p mPath) text() string {
	s := p.start.String()
	for _, x := range p.steps {
		s += fmt.Sprintf(" e%d %s", x.x.num, x.dst())
	}
	return s
}

// text is the canonical form of a match: path and captured symbols.
func (m pMatch) text(items []cItem) string {
	cnt := nameCounts(items)
	var all []mElem
	for _, s := range m.steps {
		all = append(all, s...)
	}
	parts := []string{mPath{m.nodes[0], all}.text()}
	seen := map[string]bool{}
	var syms []string
	for i, c := range items {
		if c.name == "" || seen[c.name] {
			continue
		}
		seen[c.name] = true
		if i%2 == 0 {
			syms = append(syms, c.name+"="+m.nodes[i/2].String())
		} else if cnt[c.name] > 1 { // the orientation may differ between the positions
			syms = append(syms, fmt.Sprintf("%s=e%d", c.name, m.steps[i/2][0].x.num))
		} else {
			syms = append(syms, c.name+"="+mPath{m.nodes[i/2], m.steps[i/2]}.text())
		}
	}
	sort.Strings(syms)
	return strings.Join(append(parts, syms...), "; ")
}

func (m pMatch) first() *MNode { return m.nodes[0] }
func (m pMatch) last() *MNode  { return m.nodes[len(m.nodes)-1] }

// pathText reads a library path through its public interface.
func (e *Env) pathText(p *lpg.Path) (string, error) {
	if p == nil {
		return "", fmt.Errorf("nil path")
	}
	if p.NumNodes() == 0 {
		return "", fmt.Errorf("empty path")
	}
	if p.NumNodes() != p.NumEdges()+1 {
		return "", fmt.Errorf("%d nodes and %d edges", p.NumNodes(), p.NumEdges())
	}
	prev := e.byNode[p.GetNode(0)]
	if prev == nil {
		return "", fmt.Errorf("unknown first node")
	}
	if p.First() != prev.h {
		return "", fmt.Errorf("First is not GetNode(0)")
	}
	s := prev.String()
	for i := 0; i < p.NumEdges(); i++ {
		x, n := e.byEdge[p.GetEdge(i)], e.byNode[p.GetNode(i+1)]
		if x == nil || n == nil {
			return "", fmt.Errorf("unknown edge or node at %d", i)
		}
		if !(x.from == prev && x.to == n || x.to == prev && x.from == n) {
			return "", fmt.Errorf("disconnected: %v %v %v", prev, x, n)
		}
		s += fmt.Sprintf(" e%d %s", x.num, n)
		prev = n
	}
	if p.Last() != prev.h {
		return "", fmt.Errorf("Last is not the last GetNode")
	}
	return s, nil
}

// matchText is the canonical form of a reported match.
func (e *Env) matchText(items []cItem, p *lpg.Path, syms map[string]interface{}) (string, error) {
	cnt := nameCounts(items)
	pt, err := e.pathText(p)
	if err != nil {
		return "", fmt.Errorf("reported path: %w", err)
	}
	var st []string
	for name, v := range syms {
		switch k := v.(type) {
		case *lpg.Node:
			n := e.byNode[k]
			if n == nil {
				return "", fmt.Errorf("symbol %q is an unknown node", name)
			}
			st = append(st, name+"="+n.String())
		case *lpg.Path:
			t, err := e.pathText(k)
			if err != nil {
				return "", fmt.Errorf("symbol %q: %w", name, err)
			}
			if cnt[name] > 1 && k.NumEdges() == 1 {
				t = fmt.Sprintf("e%d", e.byEdge[k.GetEdge(0)].num)
			}
			st = append(st, name+"="+t)
		default:
			return "", fmt.Errorf("symbol %q is a %T", name, v)
		}
	}
	sort.Strings(st)
	return strings.Join(append([]string{pt}, st...), "; "), nil
}

func diffTexts(got, want []string) error {
	g, w := map[string]int{}, map[string]int{}
	for _, s := range got {
		g[s]++
	}
	for _, s := range want {
		w[s]++
	}
	for _, s := range sortedKeys(w) {
		if g[s] < w[s] {
			return fmt.Errorf("match {%s} reported %d times instead of %d", s, g[s], w[s])
		}
	}
	for _, s := range sortedKeys(g) {
		if g[s] > w[s] {
			return fmt.Errorf("{%s} reported %d times instead of %d", s, g[s], w[s])
		}
	}
	return nil
}

func (e *Env) texts(items []cItem, acc *lpg.DefaultMatchAccumulator) ([]string, error) {
	if len(acc.Paths) != len(acc.Symbols) {
		return nil, fmt.Errorf("%d paths and %d symbol sets", len(acc.Paths), len(acc.Symbols))
	}
	var r []string
	for i := range acc.Paths {
		t, err := e.matchText(items, acc.Paths[i], acc.Symbols[i])
		if err != nil {
			return nil, err
		}
		r = append(r, t)
	}
	return r, nil
}
