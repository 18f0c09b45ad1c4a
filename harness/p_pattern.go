package main

import (
	"errors"
	"fmt"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

type PatCase struct {
	Ops   []Op    `json:"ops"`
	Items []PItem `json:"items"`
	Syms  []PSym  `json:"syms,omitempty"`
}

const (
	maxMatches = 4000
	maxWork    = 150000
)

var patLabels = []string{"A", "A", "A", "B", "B", "B", "C", "C", "", "", "https://example.org/ns#LongLabel"}

var patIndexKeys = []string{"i0", "i0", "i0", "s0", "s0", "s0", "ls", longKeyInt}

func genPatLabels(t *rapid.T, max int) []string {
	if rapid.IntRange(0, 29).Draw(t, "many?") == 29 { // many, and often the same
		k := rapid.IntRange(4, 10).Draw(t, "nmany")
		return append([]string(nil), manyLabels[k%2:k]...)
	}
	return rapid.SliceOfN(rapid.SampledFrom(patLabels), 0, max).Draw(t, "labels")
}

func genPatProps(t *rapid.T) []KV {
	if rapid.IntRange(0, 2).Draw(t, "props?") > 0 {
		return nil
	}
	var r []KV
	if rapid.Bool().Draw(t, "i0?") {
		r = append(r, KV{"i0", maybeWrap(t, vInt(rapid.IntRange(0, 1).Draw(t, "i0")))})
	}
	if rapid.Bool().Draw(t, "s0?") {
		r = append(r, KV{"s0", vStr(rapid.SampledFrom([]string{"a", "b"}).Draw(t, "s0"))})
	}
	switch rapid.IntRange(0, 15).Draw(t, "other?") {
	case 14:
		k := rapid.SampledFrom([]string{"S", "L"}).Draw(t, "lk")
		r = append(r, KV{"ls", Val{K: k, L: []Val{vStr("a"), vStr(rapid.SampledFrom([]string{"a", "b"}).Draw(t, "ls"))}}})
	case 15:
		r = append(r, KV{longKeyInt, vInt(rapid.IntRange(0, 1).Draw(t, "long"))})
	}
	return r
}

// genPatGraph draws a small dense graph, possibly indexed and edited.
func genPatGraph(t *rapid.T, maxE int) []Op {
	if rapid.IntRange(0, 5).Draw(t, "hist") == 0 {
		return genOps(t, HistOpt{MaxOps: 25})
	}
	var ops []Op
	index := func(when string) {
		if rapid.IntRange(0, 3).Draw(t, when) == 0 {
			ops = append(ops, Op{Op: rapid.SampledFrom([]string{"ni", "ei"}).Draw(t, "ix"), Key: rapid.SampledFrom(patIndexKeys).Draw(t, "ixk"), Kind: rapid.SampledFrom([]string{"b", "h"}).Draw(t, "ixt")})
		}
	}
	index("i1")
	n := rapid.IntRange(1, 7).Draw(t, "nodes")
	for i := 0; i < n; i++ {
		ops = append(ops, Op{Op: "n", Labels: genPatLabels(t, 2), Props: genPatProps(t)})
	}
	index("i2")
	m := rapid.IntRange(0, maxE).Draw(t, "edges")
	for i := 0; i < m; i++ {
		o := Op{Op: "e", A: rapid.IntRange(0, n-1).Draw(t, "f"), B: rapid.IntRange(0, n-1).Draw(t, "t"), Label: rapid.SampledFrom(patLabels).Draw(t, "l"), Props: genPatProps(t)}
		if i > 0 && rapid.IntRange(0, 5).Draw(t, "par") == 0 { // parallel or antiparallel
			o.A, o.B = ops[len(ops)-1].A, ops[len(ops)-1].B
			if rapid.Bool().Draw(t, "anti") {
				o.A, o.B = o.B, o.A
			}
		}
		ops = append(ops, o)
	}
	if rapid.IntRange(0, 3).Draw(t, "edit") == 0 {
		k := rapid.IntRange(1, 4).Draw(t, "edits")
		for i := 0; i < k; i++ {
			o := Op{Op: rapid.SampledFrom([]string{"er", "nr", "el", "nl", "np", "ep", "nt"}).Draw(t, "ed"), A: rapid.IntRange(0, 9).Draw(t, "eda"), Key: "i0"}
			switch o.Op {
			case "nl":
				o.Labels = genPatLabels(t, 2)
			case "el":
				o.Label = rapid.SampledFrom(patLabels).Draw(t, "edl")
			case "np", "ep":
				v := vInt(rapid.IntRange(0, 1).Draw(t, "edv"))
				o.Val = &v
			}
			ops = append(ops, o)
		}
	}
	index("i3")
	return ops
}

type itemOpt struct {
	variable int // one edge item in that many is variable, 0: none
	name     func(t *rapid.T, i int) string
}

func genItems(t *rapid.T, o itemOpt) []PItem {
	n := rapid.SampledFrom([]int{1, 3, 3, 3, 5, 5, 5, 7}).Draw(t, "items")
	walk := rapid.IntRange(0, 3).Draw(t, "walk") > 0
	var r []PItem
	for i := 0; i < n; i++ {
		p := PItem{Walk: walk && rapid.IntRange(0, 9).Draw(t, "w") > 0, Pick: rapid.IntRange(0, 20).Draw(t, "pick")}
		if p.Walk {
			p.Mask = rapid.IntRange(0, 4095).Draw(t, "mask")
			if rapid.Bool().Draw(t, "loose") {
				p.Mask &= 0xf0f
			}
			if rapid.Bool().Draw(t, "loose2") {
				p.Mask &= 0xff0
			}
		} else {
			if rapid.Bool().Draw(t, "lab") {
				p.Labels = genPatLabels(t, 1+i%2)
			}
			if rapid.IntRange(0, 3).Draw(t, "pr") == 0 {
				p.Props = genPatProps(t)
			}
		}
		if i%2 == 1 {
			switch rapid.IntRange(0, 3).Draw(t, "dir") {
			case 0:
				p.Left = true
			case 1:
				p.Und = true
			}
			p.Min, p.Max = 1, 1
			if o.variable > 0 && rapid.IntRange(0, o.variable-1).Draw(t, "var") == 0 {
				p.Min = rapid.SampledFrom([]int{-1, 0, 1, 1, 2, 2, 3}).Draw(t, "min")
				p.Max = rapid.SampledFrom([]int{-1, 0, 1, 2, 2, 3, 3, 4}).Draw(t, "max")
				if p.Min == 1 && p.Max == 1 {
					p.Max = 2
				}
			}
		}
		if o.name != nil {
			p.Name = o.name(t, i)
		}
		r = append(r, p)
	}
	return r
}

// genLongGraph draws one or two long chains or rings, with few extra edges.
func genLongGraph(t *rapid.T) []Op {
	var ops []Op
	if rapid.IntRange(0, 3).Draw(t, "ix") == 0 {
		ops = append(ops, Op{Op: rapid.SampledFrom([]string{"ni", "ei"}).Draw(t, "ixo"), Key: "i0", Kind: rapid.SampledFrom([]string{"b", "h"}).Draw(t, "ixt")})
	}
	at := 0
	for k := rapid.IntRange(1, 2).Draw(t, "chains"); k > 0; k-- {
		n := rapid.IntRange(4, 36).Draw(t, "len")
		every := rapid.IntRange(1, 6).Draw(t, "every")
		for i := 0; i < n; i++ {
			o := Op{Op: "n"}
			if i%every == 0 {
				o.Labels = []string{"A"}
			}
			if i%5 == 0 {
				o.Props = []KV{{"i0", vInt(i % 2)}}
			}
			ops = append(ops, o)
		}
		back := rapid.IntRange(0, 12).Draw(t, "back") // this edge points back, if there
		for i := 0; i+1 < n; i++ {
			o := Op{Op: "e", A: at + i, B: at + i + 1, Label: "A"}
			if i == back-1 {
				o.A, o.B = o.B, o.A
			}
			if i%7 == 3 {
				o.Label = "B"
			}
			ops = append(ops, o)
		}
		if rapid.Bool().Draw(t, "ring") {
			ops = append(ops, Op{Op: "e", A: at + n - 1, B: at, Label: "A"})
		}
		at += n
	}
	for k := rapid.IntRange(0, 2).Draw(t, "extra"); k > 0; k-- {
		ops = append(ops, Op{Op: "e", A: rapid.IntRange(0, at-1).Draw(t, "xf"), B: rapid.IntRange(0, at-1).Draw(t, "xt"), Label: rapid.SampledFrom([]string{"A", "B", "C"}).Draw(t, "xl")})
	}
	return ops
}

// genLongItems draws a pattern for such a graph: many items, or few with wide
// bounds.
func genLongItems(t *rapid.T, wide bool, name func(t *rapid.T, i int) string) []PItem {
	n := rapid.SampledFrom([]int{9, 11, 13, 15, 17, 21, 27}).Draw(t, "items")
	if wide {
		n = rapid.SampledFrom([]int{3, 3, 5, 7}).Draw(t, "items")
	}
	left := rapid.Bool().Draw(t, "left")
	var r []PItem
	for i := 0; i < n; i++ {
		p := PItem{Walk: true, Pick: rapid.IntRange(0, 70).Draw(t, "pick"), Name: name(t, i)}
		if rapid.IntRange(0, 2).Draw(t, "mask?") == 0 {
			p.Mask = rapid.IntRange(0, 4095).Draw(t, "mask")
		}
		if i%2 == 1 {
			p.Left = left
			switch rapid.IntRange(0, 19).Draw(t, "dir") {
			case 0:
				p.Left = !left
			case 1:
				p.Left, p.Und = false, true
			}
			p.Min, p.Max = 1, 1
			if wide && rapid.IntRange(0, 3).Draw(t, "var") > 0 {
				p.Min = rapid.SampledFrom([]int{-1, 1, 2, 5, 8, 12, 20}).Draw(t, "min")
				p.Max = rapid.SampledFrom([]int{-1, -1, 6, 9, 13, 17, 24, 40}).Draw(t, "max")
			}
		}
		r = append(r, p)
	}
	return r
}

// uniqueName names an item after its position, or not at all.
func uniqueName(t *rapid.T, i int) string {
	if rapid.IntRange(0, 2).Draw(t, "named") > 0 {
		return ""
	}
	return fmt.Sprintf("v%d", i)
}

func uniqueNames(items []cItem) {
	odd := []string{"v0", "v1", "v", "V0", "v0 ", " ", "é", "the name of a pattern item v0", "the name of a pattern item v1"}
	for i := range items {
		if items[i].name != "" {
			items[i].name = fmt.Sprintf("v%d", i)
			if len(items) > 3 && i < len(odd) {
				items[i].name = odd[i]
			}
		}
	}
}

type ownAcc struct {
	e     *Env
	items []cItem
	texts []string
	err   error
	plan  *lpg.MatchPlan // if set, what it says of the current match is compared
}

// checkContext compares the context handed to an accumulator with the symbols
// of the match.
func checkContext(g *lpg.Graph, ctx *lpg.MatchContext, symbols map[string]interface{}) error {
	if ctx == nil || ctx.Graph != g {
		return fmt.Errorf("the context of the match is of another graph")
	}
	for name := range ctx.LocalSymbols {
		if _, ok := symbols[name]; !ok {
			return fmt.Errorf("the context has the symbol %q, which the match has not", name)
		}
		if _, ok := ctx.Symbols[name]; ok {
			return fmt.Errorf("the context has the given symbol %q as one of the pattern", name)
		}
	}
	for name, v := range symbols {
		if _, given := ctx.Symbols[name]; given {
			continue
		}
		s := ctx.LocalSymbols[name]
		if s == nil {
			return fmt.Errorf("the context does not have the symbol %q", name)
		}
		switch k := v.(type) {
		case *lpg.Node:
			if s.Edges != nil || s.Nodes == nil || s.Nodes.Len() != 1 || !s.Nodes.Has(k) {
				return fmt.Errorf("symbol %q of the context is not the node of the match", name)
			}
		case *lpg.Path:
			n := 0
			if s.Edges != nil {
				n = s.Edges.Len()
			}
			if n != k.NumEdges() {
				return fmt.Errorf("symbol %q of the context has %d edges, that of the match %d", name, n, k.NumEdges())
			}
			for i := 0; i < n; i++ {
				if !s.Edges.Has(k.GetEdge(i)) {
					return fmt.Errorf("symbol %q of the context does not have edge %d of that of the match", name, i)
				}
			}
		}
	}
	return nil
}

func (a *ownAcc) StoreResult(ctx *lpg.MatchContext, path *lpg.Path, symbols map[string]interface{}) {
	t, err := a.e.matchText(a.items, path, symbols)
	if err == nil {
		err = checkContext(a.e.g, ctx, symbols)
	}
	if err == nil && a.plan != nil {
		var t2 string
		t2, err = a.e.matchText(a.items, a.plan.GetCurrentPath(), a.plan.CaptureSymbolValues())
		if err == nil && t2 != t {
			err = fmt.Errorf("the plan is at %s when %s is reported", t2, t)
		}
	}
	if err != nil && a.err == nil {
		a.err = err
	}
	a.texts = append(a.texts, t)
}

func distinct(ms []pMatch, f func(pMatch) *MNode) func(*MNode) bool {
	set := map[*MNode]bool{}
	for _, m := range ms {
		set[f(m)] = true
	}
	return func(n *MNode) bool { return set[n] }
}

// startsAtEdge guesses, for the coverage counts, whether an edge item has
// fewer candidates than every node item.
func (e *Env) startsAtEdge(items []cItem) bool {
	bestN, bestE := 1<<30, 1<<30
	for i, c := range items {
		cnt := 0
		if i%2 == 0 {
			for _, n := range e.nodes {
				if n.hasAll(c.labels) {
					cnt++
				}
			}
			bestN = min(bestN, cnt)
		} else if c.fixed() {
			for _, x := range e.edges {
				if len(c.labels) == 0 || contains(c.labels, x.label) {
					cnt++
				}
			}
			bestE = min(bestE, cnt)
		}
	}
	return bestE < bestN
}

func (c *Ctx) patClasses(e *Env, items []cItem, ms []pMatch) {
	c.ClassIf(len(ms) > 0, "match")
	c.ClassIf(len(ms) > 20, "over 20 matches")
	c.Class(fmt.Sprintf("%d items", len(items)))
	if e.startsAtEdge(items) {
		c.Class("starts at an edge")
		c.ClassIf(len(ms) > 0, "starts at an edge, match")
	}
	for _, m := range ms {
		for i, s := range m.steps {
			it := items[2*i+1]
			for _, x := range s {
				if x.x.from == x.x.to {
					c.Class("self-loop in a match")
					c.ClassIf(it.und, "undirected self-loop in a match")
				}
			}
			c.ClassIf(it.left, "left edge in a match")
			c.ClassIf(it.und, "undirected edge in a match")
			if !it.fixed() {
				c.ClassIf(len(s) >= 2, "trail of 2 or more")
				c.ClassIf(len(s) >= 4, "trail of 4 or more")
			}
		}
	}
}

func anyError(err error) bool {
	var a lpg.ErrNodeVariableExpected
	var b lpg.ErrEdgeVariableExpected
	return errors.As(err, &a) || errors.As(err, &b)
}

// checkPattern runs the pattern in every public way and compares with the
// expected matches.
func (e *Env) checkPattern(items []cItem, syms map[string]cSym, want []pMatch) error {
	pat := patString(items)
	if len(syms) > 0 {
		pat += fmt.Sprintf(" given %v", syms)
	}
	var wt []string
	for _, m := range want {
		wt = append(wt, m.text(items))
	}
	f := func(what string, err error) error {
		return fmt.Errorf("%s of %s: %w", what, pat, err)
	}
	acc, err := libPattern(items).FindPaths(e.g, libSyms(syms))
	if err != nil {
		return f("FindPaths", err)
	}
	got, err := e.texts(items, &acc)
	if err != nil {
		return f("FindPaths", err)
	}
	if err := diffTexts(got, wt); err != nil {
		return f("FindPaths", err)
	}
	heads, tails := distinct(want, pMatch.first), distinct(want, pMatch.last)
	if err := e.sameNodes("GetHeadNodes of "+pat, acc.GetHeadNodes(), heads); err != nil {
		return err
	}
	if err := e.sameNodes("GetTailNodes of "+pat, acc.GetTailNodes(), tails); err != nil {
		return err
	}
	nodes, err := libPattern(items).FindNodes(e.g, libSyms(syms))
	if err != nil {
		return f("FindNodes", err)
	}
	if err := e.sameNodes("FindNodes of "+pat, nodes, heads); err != nil {
		return err
	}
	// a caller's own accumulator sees every match when it is reported, and the
	// same pattern can be run again
	own := &ownAcc{e: e, items: items}
	if err := libPattern(items).Run(e.g, libSyms(syms), own); err != nil {
		return f("Run", err)
	}
	if own.err != nil {
		return f("Run", own.err)
	}
	if err := diffTexts(own.texts, wt); err != nil {
		return f("Run", err)
	}
	p := libPattern(items)
	plan, err := p.GetPlan(e.g, libSyms(syms))
	if err != nil {
		return f("GetPlan", err)
	}
	own = &ownAcc{e: e, items: items, plan: &plan}
	if err := plan.Run(e.g, libSyms(syms), own); err != nil {
		return f("plan.Run", err)
	}
	if own.err != nil {
		return f("plan.Run", own.err)
	}
	if err := diffTexts(own.texts, wt); err != nil {
		return f("plan.Run", err)
	}
	return nil
}

func runFixed(c PatCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	items := e.concrete(c.Items)
	uniqueNames(items)
	if _, ok := e.workBound(items, maxWork); !ok {
		ctx.Class("skipped: too much work")
		return nil
	}
	want, ok := e.enumerate(items, nil, maxMatches, 4*maxWork)
	if !ok {
		ctx.Class("skipped: too many matches")
		return nil
	}
	ctx.patClasses(e, items, want)
	if len(items) > 1 && len(want) > 0 {
		if hasVar(c.Items) {
			for _, m := range want {
				for i, s := range m.steps {
					if !items[2*i+1].fixed() && len(s) >= 2 {
						ctx.NonTrivial()
					}
				}
			}
		} else {
			ctx.NonTrivial()
		}
	}
	if err := e.checkPattern(items, nil, want); err != nil {
		return err
	}
	return nil
}

func hasVar(items []PItem) bool {
	for i := 1; i < len(items); i += 2 {
		if !(items[i].Min == 1 && items[i].Max == 1) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- CollectAllPaths

type CollectCase struct {
	Ops      []Op     `json:"ops"`
	Node     int      `json:"node"`
	Dir      int      `json:"dir"`
	Min      int      `json:"min"`
	Max      int      `json:"max"`
	Labels   []string `json:"labels,omitempty"`
	Props    []KV     `json:"props,omitempty"`
	Stop     int      `json:"stop,omitempty"` // decline after this many; 0: never
	Filtered bool     `json:"filtered,omitempty"`
}

func runCollect(c CollectCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	n := e.node(c.Node)
	if n == nil {
		return nil
	}
	dir := []lpg.EdgeDir{lpg.OutgoingEdge, lpg.IncomingEdge, lpg.AnyEdge}[mod(c.Dir, 3)]
	accept := func(x *MEdge) bool { return x.matches(c.Labels, c.Props) }
	var want []string
	cnt := 0
	if !e.trails(n, mod(c.Dir, 3), -1, c.Max, accept, func(t []mElem) bool {
		cnt++
		if cnt > 3*maxMatches {
			return false
		}
		if c.Min == -1 || len(t) >= c.Min {
			want = append(want, mPath{n, t}.text())
		}
		return true
	}) {
		ctx.Class("skipped: too many paths")
		return nil
	}
	filter := lpg.GetEdgeFilterFunc(strset(c.Labels), goProps(c.Props))
	var first lpg.EdgeIterator
	if len(c.Labels) > 0 && len(c.Props) == 0 && !c.Filtered {
		first = n.h.GetEdgesWithAnyLabel(dir, strset(c.Labels))
	} else if len(c.Labels) == 0 && len(c.Props) == 0 {
		first = n.h.GetEdges(dir)
	} else {
		var keep []*lpg.Edge
		for _, x := range lpg.EdgeSlice(n.h.GetEdges(dir)) {
			if filter(x) {
				keep = append(keep, x)
			}
		}
		first = &edgeSliceItr{l: keep}
	}
	what := fmt.Sprintf("CollectAllPaths(%v,%s,%d..%d,%v,%s)", n, dirName(dir), c.Min, c.Max, c.Labels, kvString(c.Props))
	var paths []*lpg.Path
	var atCall []string
	var firstErr error
	declined := false
	lpg.CollectAllPaths(e.g, n.h, first, filter, dir, c.Min, c.Max, func(p *lpg.Path) bool {
		if declined && firstErr == nil {
			firstErr = fmt.Errorf("%s: called again after declining", what)
		}
		t, err := e.pathText(p)
		if err != nil && firstErr == nil {
			firstErr = fmt.Errorf("%s: %w", what, err)
		}
		paths = append(paths, p)
		atCall = append(atCall, t)
		if c.Stop > 0 && len(paths) >= c.Stop {
			declined = true
			return false
		}
		return true
	})
	if firstErr != nil {
		return firstErr
	}
	for i, p := range paths {
		if t, err := e.pathText(p); err != nil || t != atCall[i] {
			return fmt.Errorf("%s: a delivered path changed from %s to %s (%v)", what, atCall[i], t, err)
		}
	}
	if c.Stop > 0 && len(want) > c.Stop {
		ctx.Class("stopped early")
		if len(paths) != c.Stop {
			return fmt.Errorf("%s: stopped at %d, delivered %d", what, c.Stop, len(paths))
		}
		w := map[string]bool{}
		for _, s := range want {
			w[s] = true
		}
		seen := map[string]bool{}
		for _, s := range atCall {
			if !w[s] || seen[s] {
				return fmt.Errorf("%s: {%s} delivered wrongly or twice", what, s)
			}
			seen[s] = true
		}
	} else if err := diffTexts(atCall, want); err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	for _, p := range paths {
		if p.NumEdges() >= 2 {
			ctx.NonTrivial()
		}
		ctx.ClassIf(p.NumEdges() >= 4, "path of 4 or more")
	}
	return nil
}

// ---------------------------------------------------------------- C18

// givenSyms resolves the given symbols against the named items.
func (e *Env) givenSyms(items []cItem, syms []PSym) (map[string]cSym, map[string]bool) {
	if len(syms) == 0 {
		return nil, nil
	}
	ret, conflict := map[string]cSym{}, map[string]bool{}
	cnt := nameCounts(items)
	var names []string
	for _, n := range sortedKeys(cnt) {
		names = append(names, n)
	}
	for _, s := range syms {
		if s.Kind == "extra" { // symbols that the pattern does not name
			for k := 0; k <= s.Name; k++ {
				cs := cSym{}
				for _, m := range s.Members {
					if n := e.node(m); k%2 == 0 && n != nil && !cs.hasNode(n) {
						cs.nodes = append(cs.nodes, n)
					}
					if x := e.edge(m); k%2 == 1 && x != nil && !cs.hasEdge(x) {
						cs.edges = append(cs.edges, x)
					}
				}
				ret[fmt.Sprintf("unused%d", k)] = cs
			}
			continue
		}
		name := "unused"
		if len(names) > 0 {
			name = names[mod(s.Name, len(names))]
		}
		if _, is := ret[name]; is {
			continue
		}
		isNode, isVar := true, false
		hitN, hitX := (*MNode)(nil), (*MEdge)(nil)
		for i, c := range items {
			if c.name != name {
				continue
			}
			isNode = i%2 == 0
			if isNode {
				hitN = c.hitN
			} else {
				isVar = isVar || !c.fixed()
				if len(c.hitX) == 1 {
					hitX = c.hitX[0].x
				}
			}
		}
		if s.Kind == "zero" {
			if isVar {
				continue
			}
			ret[name] = cSym{}
			continue
		}
		if s.Kind == "other" {
			isNode = !isNode
			conflict[name] = cnt[name] > 0
			if !conflict[name] {
				delete(conflict, name)
			}
		} else if isVar {
			continue
		}
		members := s.Members
		if cnt[name] > 1 && len(members) > 1 && !s.Several {
			members = members[:1]
		}
		cs := cSym{}
		if isNode {
			cs.nodes = []*MNode{}
			for _, m := range members {
				if n := e.node(m); n != nil && !cs.hasNode(n) {
					cs.nodes = append(cs.nodes, n)
				}
			}
			if s.Hit && hitN != nil {
				if cnt[name] > 1 && !s.Several {
					cs.nodes = cs.nodes[:0]
				}
				if !cs.hasNode(hitN) {
					cs.nodes = append(cs.nodes, hitN)
				}
			}
		} else {
			cs.edges = []*MEdge{}
			for _, m := range members {
				if x := e.edge(m); x != nil && !cs.hasEdge(x) {
					cs.edges = append(cs.edges, x)
				}
			}
			if s.Hit && hitX != nil {
				if cnt[name] > 1 && !s.Several {
					cs.edges = cs.edges[:0]
				}
				if !cs.hasEdge(hitX) {
					cs.edges = append(cs.edges, hitX)
				}
			}
		}
		ret[name] = cs
	}
	return ret, conflict
}

// localConflicts are the names used for a node and for an edge.
func localConflicts(items []cItem) map[string]bool {
	n, x, r := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for i, c := range items {
		if c.name == "" {
			continue
		}
		if i%2 == 0 {
			n[c.name] = true
		} else {
			x[c.name] = true
		}
		if n[c.name] && x[c.name] {
			r[c.name] = true
		}
	}
	return r
}

// dropVarRepeats removes the name of a variable-length item that shares it
// with another edge item.
func dropVarRepeats(items []cItem) {
	cnt := map[string]int{}
	for i := 1; i < len(items); i += 2 {
		cnt[items[i].name]++
	}
	for i := 1; i < len(items); i += 2 {
		if !items[i].fixed() && cnt[items[i].name] > 1 {
			items[i].name = ""
		}
	}
}

func runBinding(c PatCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	items := e.concrete(c.Items)
	dropVarRepeats(items)
	syms, conflict := e.givenSyms(items, c.Syms)
	if _, ok := e.workBound(items, maxWork); !ok {
		ctx.Class("skipped: too much work")
		return nil
	}
	names := lpg.NewStringSet()
	for n := range nameCounts(items) {
		names.Add(n)
	}
	if got := libPattern(items).GetSymbolNames(); !got.IsEqual(names) {
		return fmt.Errorf("GetSymbolNames of %s is %v", patString(items), got)
	}
	local := localConflicts(items)
	for n := range local { // a name of both kinds is not given
		delete(syms, n)
		delete(conflict, n)
	}
	if len(local)+len(conflict) > 0 {
		return e.checkConflict(items, syms, local, conflict, ctx)
	}
	want, ok := e.enumerate(items, syms, maxMatches, 4*maxWork)
	if !ok {
		ctx.Class("skipped: too many matches")
		return nil
	}
	ctx.patClasses(e, items, want)
	if len(want) > 0 {
		for i, cc := range items {
			if cc.name == "" {
				continue
			}
			if nameCounts(items)[cc.name] > 1 {
				ctx.NonTrivial()
				ctx.ClassIf(i%2 == 0, "repeated node name in a match")
				ctx.ClassIf(i%2 == 1, "repeated edge name in a match")
			}
			if _, is := syms[cc.name]; is {
				ctx.NonTrivial()
				ctx.ClassIf(i%2 == 0, "given node in a match")
				ctx.ClassIf(i%2 == 1, "given edge in a match")
			}
		}
	} else if len(syms) > 0 {
		ctx.Class("given symbol, no match")
	}
	return e.checkPattern(items, syms, want)
}

// runSeveral runs a pattern that repeats names given as symbols of several
// items. Only those items may match at each position, and the matches with the
// same item at all positions of a name are reported in any case.
func runSeveral(c PatCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	items := e.concrete(c.Items)
	for i := range items {
		items[i].name = c.Items[i].Name
		if i%2 == 1 && !items[i].fixed() {
			items[i].name = ""
		}
	}
	var given []PSym
	for _, s := range c.Syms {
		if s.Kind == "" {
			s.Several = true
			given = append(given, s)
		}
	}
	syms, _ := e.givenSyms(items, given)
	if len(given) > 0 && given[0].Hit { // all that the walk found
		for i, cc := range items {
			s, is := syms[cc.name]
			if !is {
				continue
			}
			if i%2 == 0 && cc.hitN != nil && !s.hasNode(cc.hitN) {
				s.nodes = append(s.nodes, cc.hitN)
			}
			if i%2 == 1 && len(cc.hitX) == 1 && !s.hasEdge(cc.hitX[0].x) {
				s.edges = append(s.edges, cc.hitX[0].x)
			}
			syms[cc.name] = s
		}
	}
	for n := range localConflicts(items) {
		delete(syms, n)
		for i := range items {
			if items[i].name == n {
				items[i].name = ""
			}
		}
	}
	if _, ok := e.workBound(items, maxWork); !ok {
		ctx.Class("skipped: too much work")
		return nil
	}
	must, ok := e.enumerate(items, syms, maxMatches, 4*maxWork)
	if !ok {
		ctx.Class("skipped: too many matches")
		return nil
	}
	e.free = map[string]bool{}
	for n := range syms {
		e.free[n] = true
	}
	may, ok := e.enumerate(items, syms, maxMatches, 4*maxWork)
	if !ok {
		ctx.Class("skipped: too many matches")
		return nil
	}
	if len(may) > len(must) {
		ctx.NonTrivial()
	}
	ctx.ClassIf(len(must) > 0, "the same item at all positions")
	pat := fmt.Sprintf("%s given %v", patString(items), syms)
	acc, err := libPattern(items).FindPaths(e.g, libSyms(syms))
	if err != nil {
		return fmt.Errorf("%s: %w", pat, err)
	}
	count := map[string]int{}
	for i, p := range acc.Paths {
		t, err := e.pathText(p)
		if err != nil {
			return fmt.Errorf("%s: reported path: %w", pat, err)
		}
		count[t]++
		for name, v := range acc.Symbols[i] {
			s, is := syms[name]
			switch k := v.(type) {
			case *lpg.Node:
				if is && !s.hasNode(e.byNode[k]) {
					return fmt.Errorf("%s: %s captured as %v", pat, name, e.byNode[k])
				}
			case *lpg.Path:
				if is && (k.NumEdges() != 1 || !s.hasEdge(e.byEdge[k.GetEdge(0)])) {
					return fmt.Errorf("%s: %s captured as %v", pat, name, k)
				}
			}
		}
	}
	bounds := func(l []pMatch) map[string]int {
		r := map[string]int{}
		for _, m := range l {
			r[m.text(nil)]++
		}
		return r
	}
	lo, hi := bounds(must), bounds(may)
	for _, t := range sortedKeys(lo) {
		if count[t] < lo[t] {
			return fmt.Errorf("%s: path %s reported %d times instead of at least %d", pat, t, count[t], lo[t])
		}
	}
	for _, t := range sortedKeys(count) {
		if count[t] > hi[t] {
			return fmt.Errorf("%s: path %s reported %d times instead of at most %d", pat, t, count[t], hi[t])
		}
	}
	return nil
}

// checkConflict: nothing matches, and if the pattern would match with separate
// names for nodes and edges, and without the given conflicts, the conflict is
// reached and must be reported.
func (e *Env) checkConflict(items []cItem, syms map[string]cSym, local, given map[string]bool, ctx *Ctx) error {
	ctx.ClassIf(len(local) > 0, "name for a node and an edge")
	ctx.ClassIf(len(given) > 0, "given symbol of the other kind")
	rest := append([]cItem(nil), items...)
	restSyms := map[string]cSym{}
	for n, s := range syms {
		if !local[n] && !given[n] {
			restSyms[n] = s
		}
	}
	for i := range rest {
		switch n := rest[i].name; {
		case given[n]:
			rest[i].name = ""
		case local[n] && i%2 == 0:
			rest[i].name = n + "#node"
		case local[n] && rest[i].fixed():
			rest[i].name = n + "#edge"
		case local[n]:
			rest[i].name = ""
		}
	}
	would, ok := e.enumerate(rest, restSyms, maxMatches, 4*maxWork)
	if !ok {
		ctx.Class("skipped: too many matches")
		return nil
	}
	pat := patString(items)
	if len(syms) > 0 {
		pat += fmt.Sprintf(" given %v", syms)
	}
	acc, err := libPattern(items).FindPaths(e.g, libSyms(syms))
	if len(acc.Paths) > 0 {
		t, _ := e.texts(items, &acc)
		return fmt.Errorf("%s uses a name for both kinds, but matches %v (error %v)", pat, t[:1], err)
	}
	if err != nil && !anyError(err) {
		return fmt.Errorf("%s: error %v", pat, err)
	}
	if err == nil && len(would) > 0 {
		return fmt.Errorf("%s uses a name for both kinds, and no error is reported", pat)
	}
	if len(would) > 0 {
		ctx.NonTrivial()
		ctx.Class("conflict reported")
	}
	nodes, err2 := libPattern(items).FindNodes(e.g, libSyms(syms))
	if len(nodes) > 0 || (err2 == nil) != (err == nil) {
		return fmt.Errorf("%s: FindNodes %v, %v; FindPaths error %v", pat, e.nodeNames(nodes), err2, err)
	}
	return nil
}

// ---------------------------------------------------------------- C19

type MetaCase struct {
	Ops   []Op    `json:"ops"`
	Items []PItem `json:"items"`
	Syms  []PSym  `json:"syms,omitempty"`
	Order []int   `json:"order,omitempty"`
	Index []Op    `json:"index,omitempty"`
	Late  []Op    `json:"late,omitempty"`
	Pad   []Op    `json:"pad,omitempty"`
}

// rebuild makes the same graph in another order, with other indexes. The
// numbers of the items are kept.
func (e *Env) rebuild(order []int, index []Op, pad []Op) *Env {
	r := newEnv()
	for _, o := range index {
		r.apply(o)
	}
	for _, o := range pad {
		r.nextN = 1000 + len(r.nodes)
		r.apply(o)
	}
	kvs := func(m map[string]Val) []KV {
		var l []KV
		for _, k := range sortedKeys(m) {
			l = append(l, KV{k, m[k]})
		}
		return l
	}
	nodes := map[*MNode]*MNode{}
	for _, i := range permOf(order, len(e.nodes)) {
		n := e.nodes[i]
		r.nextN = n.num
		nodes[n] = r.newNode(i%2 == 0, sortedKeys(n.labels), kvs(n.props))
	}
	for _, i := range permOf(order, len(e.edges)) {
		x := e.edges[i]
		r.nextE = x.num
		r.newEdge(i%3 == 0, nodes[x.from], nodes[x.to], x.label, kvs(x.props))
	}
	return r
}

func (e *Env) mapSyms(to *Env, syms map[string]cSym) map[string]cSym {
	if syms == nil {
		return nil
	}
	nn, xx := map[int]*MNode{}, map[int]*MEdge{}
	for _, n := range to.nodes {
		nn[n.num] = n
	}
	for _, x := range to.edges {
		xx[x.num] = x
	}
	r := map[string]cSym{}
	for k, s := range syms {
		c := cSym{}
		if s.nodes != nil {
			c.nodes = []*MNode{}
			for i := len(s.nodes) - 1; i >= 0; i-- {
				c.nodes = append(c.nodes, nn[s.nodes[i].num])
			}
		}
		if s.edges != nil {
			c.edges = []*MEdge{}
			for i := len(s.edges) - 1; i >= 0; i-- {
				c.edges = append(c.edges, xx[s.edges[i].num])
			}
		}
		r[k] = c
	}
	return r
}

// matches runs the pattern and reads the result back as model matches.
func (e *Env) libTexts(items []cItem, syms map[string]cSym) ([]string, error) {
	acc, err := libPattern(items).FindPaths(e.g, libSyms(syms))
	if err != nil {
		return nil, err
	}
	return e.texts(items, &acc)
}

// revTexts runs the reversed pattern and turns its results round.
func (e *Env) revTexts(items []cItem, syms map[string]cSym) ([]string, error) {
	var rev []cItem
	for i := len(items) - 1; i >= 0; i-- {
		c := items[i]
		if i%2 == 1 && !c.und {
			c.left = !c.left
		}
		rev = append(rev, c)
	}
	acc, err := libPattern(rev).FindPaths(e.g, libSyms(syms))
	if err != nil {
		return nil, err
	}
	var ret []string
	for i, p := range acc.Paths {
		rp, err := e.turn(p)
		if err != nil {
			return nil, err
		}
		rs := map[string]interface{}{}
		for k, v := range acc.Symbols[i] {
			if q, ok := v.(*lpg.Path); ok {
				if v, err = e.turn(q); err != nil {
					return nil, fmt.Errorf("symbol %q: %w", k, err)
				}
			}
			rs[k] = v
		}
		t, err := e.matchText(items, rp, rs)
		if err != nil {
			return nil, err
		}
		ret = append(ret, t)
	}
	return ret, nil
}

// turn reads a path and builds it in the opposite direction.
func (e *Env) turn(p *lpg.Path) (*lpg.Path, error) {
	if _, err := e.pathText(p); err != nil {
		return nil, err
	}
	if p.NumEdges() == 0 {
		return lpg.PathFromNode(p.First()), nil
	}
	var el []lpg.PathElement
	for i := p.NumEdges() - 1; i >= 0; i-- {
		x := e.byEdge[p.GetEdge(i)]
		// traversed from GetNode(i) to GetNode(i+1); turned it leaves GetNode(i+1)
		el = append(el, lpg.PathElement{Edge: x.h, Reverse: x.from != x.to && x.to.h == p.GetNode(i+1)})
	}
	return lpg.NewPathFromElements(el...), nil
}

func runMeta(c MetaCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	items := e.concrete(c.Items)
	dropVarRepeats(items)
	if len(localConflicts(items)) > 0 {
		uniqueNames(items)
	}
	syms, conflict := e.givenSyms(items, c.Syms)
	if len(conflict) > 0 {
		bug("conflict")
	}
	if _, ok := e.workBound(items, maxWork/4); !ok {
		ctx.Class("skipped: too much work")
		return nil
	}
	if _, ok := e.enumerate(items, syms, maxMatches, maxWork); !ok {
		ctx.Class("skipped: too many matches")
		return nil
	}
	pat := patString(items)
	base, err := e.libTexts(items, syms)
	if err != nil {
		return fmt.Errorf("%s: %w", pat, err)
	}
	if len(base) > 0 {
		ctx.NonTrivial()
	}
	ctx.ClassIf(e.startsAtEdge(items), "starts at an edge")
	cmp := func(what string, v *Env, vs map[string]cSym) error {
		got, err := v.libTexts(items, vs)
		if err != nil {
			return fmt.Errorf("%s, %s: %w", pat, what, err)
		}
		if err := diffTexts(got, base); err != nil {
			return fmt.Errorf("%s, %s: %w", pat, what, err)
		}
		return nil
	}
	rev := func(what string, v *Env, vs map[string]cSym) error {
		got, err := v.revTexts(items, vs)
		if err != nil {
			return fmt.Errorf("%s, %s: %w", pat, what, err)
		}
		if err := diffTexts(got, base); err != nil {
			return fmt.Errorf("%s, %s: %w", pat, what, err)
		}
		return nil
	}
	if err := cmp("run again", e, syms); err != nil {
		return err
	}
	if err := rev("reversed", e, syms); err != nil {
		return err
	}
	// the same graph, other order and indexes
	v := e.rebuild(c.Order, c.Index, nil)
	vs := e.mapSyms(v, syms)
	if err := cmp("rebuilt in another order with other indexes", v, vs); err != nil {
		return err
	}
	for _, o := range c.Late {
		v.apply(o)
	}
	if err := cmp("indexed afterwards", v, vs); err != nil {
		return err
	}
	// isolated nodes match no pattern with an edge, but change where the
	// evaluation starts
	if len(items) > 1 {
		v := e.rebuild(nil, nil, c.Pad)
		vs := e.mapSyms(v, syms)
		if v.startsAtEdge(items) != e.startsAtEdge(items) && len(base) > 0 {
			ctx.Class("padding moves the start")
		}
		if err := cmp("with isolated nodes added", v, vs); err != nil {
			return err
		}
		if err := rev("reversed, with isolated nodes added", v, vs); err != nil {
			return err
		}
	}
	// naming unnamed items to all nodes does not change the paths, but the start
	for i := range items {
		if i%2 == 0 && items[i].name == "" {
			it := append([]cItem(nil), items...)
			it[i].name = "all"
			sy := map[string]cSym{"all": {nodes: append([]*MNode{}, e.nodes...)}}
			for k, s := range syms {
				sy[k] = s
			}
			got, err := e.libTexts(it, sy)
			if err != nil {
				return fmt.Errorf("%s, item %d given all nodes: %w", pat, i, err)
			}
			if len(got) != len(base) {
				return fmt.Errorf("%s, item %d given all nodes: %d matches instead of %d", pat, i, len(got), len(base))
			}
			break
		}
	}
	return nil
}

func genSymList(t *rapid.T, kinds []string) []PSym {
	if rapid.IntRange(0, 1).Draw(t, "given") == 0 {
		return nil
	}
	r := rapid.SliceOfN(rapid.Custom(genSym(kinds, 3)), 1, 2).Draw(t, "syms")
	if rapid.IntRange(0, 9).Draw(t, "extra?") == 9 {
		r = append(r, genSym([]string{"extra"}, 14)(t))
	}
	return r
}

func genSym(kinds []string, names int) func(t *rapid.T) PSym {
	return func(t *rapid.T) PSym {
		s := PSym{
			Name: rapid.IntRange(0, names).Draw(t, "sname"), Kind: rapid.SampledFrom(kinds).Draw(t, "skind"),
			Members: rapid.SliceOfN(rapid.IntRange(0, 9), 0, 3).Draw(t, "members"),
			Hit:     rapid.IntRange(0, 2).Draw(t, "hit") > 0,
		}
		if rapid.IntRange(0, 19).Draw(t, "many?") == 19 { // a symbol of many items
			for k := rapid.IntRange(5, 30).Draw(t, "many"); k > 0; k-- {
				s.Members = append(s.Members, k)
			}
		}
		return s
	}
}

const longSym = "rather long name, é"

// clash names items with few names, so that they repeat.
func clashName(t *rapid.T, i int) string {
	if rapid.IntRange(0, 2).Draw(t, "named") == 0 {
		return ""
	}
	k := "n"
	if i%2 == 1 {
		k = "e"
	}
	return k + rapid.SampledFrom([]string{"a", "a", "a", "b", "b", "a ", "A", longSym, longSym, longSym}).Draw(t, "name")
}

func init() {
	register("C16", "fixed", "patterns of 1 to 7 items, edges of length one, over small dense graphs (loops, parallel edges, indexes, histories), against a naive enumerator, as multisets of paths and captured symbols; non-trivial: an edge item and at least one match",
		6000, func(t *rapid.T) PatCase {
			return PatCase{Ops: genPatGraph(t, 10), Items: genItems(t, itemOpt{name: uniqueName})}
		}, runFixed)
	register("C17", "trails", "patterns with variable-length items, as for C16; non-trivial: a match with a trail of at least 2 edges",
		5000, func(t *rapid.T) PatCase {
			maxE := rapid.SampledFrom([]int{4, 6, 6, 8}).Draw(t, "maxE")
			return PatCase{Ops: genPatGraph(t, maxE), Items: genItems(t, itemOpt{variable: 2, name: uniqueName})}
		}, runFixed)
	register("C16", "long", "patterns of 9 to 27 items over chains and rings of up to 36 nodes, as for fixed; non-trivial: as for fixed",
		300, func(t *rapid.T) PatCase {
			return PatCase{Ops: genLongGraph(t), Items: genLongItems(t, false, uniqueName)}
		}, runFixed)
	register("C17", "long", "variable-length items with bounds up to 40 over chains and rings of up to 36 nodes, as for fixed; non-trivial: as for trails",
		190, func(t *rapid.T) PatCase {
			return PatCase{Ops: genLongGraph(t), Items: genLongItems(t, true, uniqueName)}
		}, runFixed)
	register("C18", "long", "long patterns with repeated names, up to a dozen given symbols and some that the pattern does not name, over chains and rings; non-trivial: as for bindings",
		800, func(t *rapid.T) PatCase {
			name := func(t *rapid.T, i int) string {
				if rapid.Bool().Draw(t, "uniq") {
					return fmt.Sprintf("v%d", i)
				}
				return clashName(t, i)
			}
			return PatCase{Ops: genLongGraph(t), Items: genLongItems(t, rapid.IntRange(0, 3).Draw(t, "wide") == 0, name), Syms: rapid.SliceOfN(rapid.Custom(genSym([]string{"", "", "", "", "extra"}, 30)), 0, 14).Draw(t, "syms")}
		}, runBinding)
	register("C17", "collect", "CollectAllPaths with all directions, bounds, filters and stopping callbacks, against a naive trail enumerator; non-trivial: a delivered path of at least 2 edges",
		6000, func(t *rapid.T) CollectCase {
			c := CollectCase{Dir: rapid.IntRange(0, 2).Draw(t, "dir")}
			if rapid.IntRange(0, 9).Draw(t, "long") == 9 {
				c.Ops = genLongGraph(t)
				c.Node = rapid.IntRange(0, 70).Draw(t, "node")
				c.Min = rapid.SampledFrom([]int{-1, 1, 3, 6, 12, 20}).Draw(t, "min")
				c.Max = rapid.SampledFrom([]int{-1, -1, 5, 8, 12, 16, 24, 40}).Draw(t, "max")
			} else {
				c.Ops = genPatGraph(t, rapid.SampledFrom([]int{4, 6, 8}).Draw(t, "maxE"))
				c.Node = rapid.IntRange(0, 9).Draw(t, "node")
				c.Min = rapid.SampledFrom([]int{-1, 0, 1, 1, 2, 3}).Draw(t, "min")
				c.Max = rapid.SampledFrom([]int{-1, -1, 0, 1, 2, 3, 4, 6}).Draw(t, "max")
			}
			if rapid.IntRange(0, 2).Draw(t, "lab") == 0 {
				c.Labels = genPatLabels(t, 2)
			}
			if rapid.IntRange(0, 4).Draw(t, "pr") == 0 {
				c.Props = genPatProps(t)
			}
			c.Filtered = rapid.Bool().Draw(t, "filtered")
			if rapid.IntRange(0, 2).Draw(t, "stop?") == 0 {
				c.Stop = rapid.IntRange(1, 6).Draw(t, "stop")
			}
			return c
		}, runCollect)
	register("C18", "bindings", "patterns whose items share names, with and without given symbols, against a naive enumerator with binding; non-trivial: a match with a repeated or given name",
		6000, func(t *rapid.T) PatCase {
			return PatCase{Ops: genPatGraph(t, 8), Items: genItems(t, itemOpt{variable: 5, name: clashName}), Syms: genSymList(t, []string{"", "", "", "", "zero"})}
		}, runBinding)
	register("C18", "given-several", "patterns that repeat names given as symbols of several items: only items of the symbol match at each position, and the matches with one item at all positions are reported; non-trivial: a match with different items of a symbol",
		2500, func(t *rapid.T) PatCase {
			return PatCase{Ops: genPatGraph(t, 8), Items: genItems(t, itemOpt{variable: 8, name: clashName}), Syms: rapid.SliceOfN(rapid.Custom(genSym([]string{""}, 3)), 1, 3).Draw(t, "syms")}
		}, runSeveral)
	register("C18", "conflicts", "patterns using a name for nodes and for edges, or given a symbol of the other kind: no match, and an error if the rest of the pattern matches; non-trivial: a reported conflict",
		5000, func(t *rapid.T) PatCase {
			mixed := rapid.Bool().Draw(t, "mixed")
			items := genItems(t, itemOpt{variable: 4, name: func(t *rapid.T, i int) string {
				if mixed {
					if rapid.IntRange(0, 2).Draw(t, "named") == 0 {
						return ""
					}
					return rapid.SampledFrom([]string{"a", "b", "c", longSym}).Draw(t, "name")
				}
				return clashName(t, i)
			}})
			if mixed {
				for i := range items {
					items[i].Mask &= 0xf00
					items[i].Walk = false
				}
			}
			return PatCase{Ops: genPatGraph(t, 8), Items: items, Syms: genSymList(t, []string{"", "other", "other"})}
		}, runBinding)
	register("C19", "relations", "one pattern over the same graph rebuilt in another order, with other indexes (built before or after), with isolated nodes added, with an item given all nodes, and reversed: the same matches; non-trivial: at least one match",
		4000, func(t *rapid.T) MetaCase {
			c := MetaCase{Ops: genPatGraph(t, 9), Items: genItems(t, itemOpt{variable: 4, name: clashName}), Syms: genSymList(t, []string{"", "", "", "zero"})}
			if rapid.IntRange(0, 11).Draw(t, "long") == 11 {
				c.Ops, c.Items = genLongGraph(t), genLongItems(t, rapid.Bool().Draw(t, "wide"), uniqueName)
			}
			c.Order = rapid.SliceOfN(rapid.IntRange(0, 20), 0, 12).Draw(t, "order")
			ix := rapid.Custom(func(t *rapid.T) Op {
				return Op{Op: rapid.SampledFrom([]string{"ni", "ei"}).Draw(t, "ix"), Key: rapid.SampledFrom(patIndexKeys).Draw(t, "ixk"), Kind: rapid.SampledFrom([]string{"b", "h"}).Draw(t, "ixt")}
			})
			c.Index = rapid.SliceOfN(ix, 0, 3).Draw(t, "index")
			c.Late = rapid.SliceOfN(ix, 0, 2).Draw(t, "late")
			k := rapid.IntRange(1, 8).Draw(t, "pads")
			l := genPatLabels(t, 2)
			for i := 0; i < k; i++ {
				c.Pad = append(c.Pad, Op{Op: "n", Labels: l, Props: genPatProps(t)})
			}
			return c
		}, runMeta)
}
