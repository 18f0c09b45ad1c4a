package main

import (
	"fmt"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// FirstCase takes edges off the front of a trail.
type FirstCase struct {
	Ops  []Op `json:"ops"`
	Node int  `json:"node"`
	Pick int  `json:"pick"`
	Len  int  `json:"len"`
	Dirs int  `json:"dirs"`
	Mode int  `json:"mode"`
}

// runFirst: RemoveFirst removes the first edge of the path from the graph, and
// from the path.
func runFirst(c FirstCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	n := e.node(c.Node)
	if n == nil {
		return nil
	}
	one := lpg.PathFromNode(n.h)
	if one.RemoveFirst() != one {
		return fmt.Errorf("RemoveFirst returns another path")
	}
	if err := checkPath("RemoveFirst of a node", one, mPath{}); err != nil {
		return err
	}
	if err := checkPath("RemoveFirst of an empty path", one.RemoveFirst(), mPath{}); err != nil {
		return err
	}
	var w []mElem
	for k := c.Len; k >= 2 && w == nil; k-- {
		w = e.trail(n, c.Pick, k, c.Dirs)
	}
	if len(w) < 2 {
		return nil
	}
	ctx.NonTrivial()
	m := mPath{n, w}
	p := lpg.NewPathFromElements(libElems(w)...)
	switch c.Mode {
	case 1:
		p = p.Clone()
	case 2:
		p = p.Slice(0, -1)
	case 3:
		p = lpg.PathFromNode(n.h)
		for _, s := range w {
			p.Append(s.lib())
		}
	}
	for len(m.steps) >= 2 {
		x := m.steps[0].x
		what := fmt.Sprintf("RemoveFirst of %s", m)
		if p.RemoveFirst() != p {
			return fmt.Errorf("%s returns another path", what)
		}
		e.dropEdges(func(y *MEdge) bool { return y == x })
		m = mPath{m.steps[0].dst(), m.steps[1:]}
		if err := checkPath(what, p, m); err != nil {
			return err
		}
		if err := e.checkContents(); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if err := e.checkAdjacency(); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		ctx.ClassIf(m.steps[0].rev, "a reversed edge first")
	}
	return nil
}

func init() {
	register("C20", "remove-first", "edges taken off the front of trails, and so out of the graph, one by one; non-trivial: a trail of at least 2 edges",
		1000, func(t *rapid.T) FirstCase {
			c := FirstCase{Node: rapid.IntRange(0, 30).Draw(t, "node"), Pick: rapid.IntRange(0, 1000).Draw(t, "pick"),
				Len: rapid.IntRange(2, 6).Draw(t, "len"), Dirs: rapid.IntRange(0, 2).Draw(t, "dirs"), Mode: rapid.IntRange(0, 3).Draw(t, "mode")}
			if rapid.IntRange(0, 3).Draw(t, "hist") == 0 {
				c.Ops = genOps(t, HistOpt{MaxOps: 30})
			} else {
				c.Ops = genPathGraph(t)
			}
			return c
		}, runFirst)
}
